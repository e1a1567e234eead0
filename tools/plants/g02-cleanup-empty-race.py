prop="G01"
needs="a REGISTER for an address whose last binding is gone arriving between the two steps of a clean-up run"
breaks="clean-up first lists the addresses without bindings and then drops them, so a binding registered in between is lost"
edits=[("crates/sip-registrar/src/lib.rs","""        // Remove empty AORs
        self.inner.retain(|_, bindings| !bindings.is_empty());
""","""        // Remove empty AORs
        let empty: Vec<SmolStr> = self
            .inner
            .iter()
            .filter(|entry| entry.is_empty())
            .map(|entry| entry.key().clone())
            .collect();
        for aor in empty {
            self.inner.remove(&aor);
        }
""")]
main=r'''
use sip_registrar::*;
use smol_str::SmolStr;
use std::sync::{atomic::*, Arc};
use std::time::*;
fn main() {
    let st = MemoryLocationStore::new();
    let stop = Arc::new(AtomicBool::new(false));
    // many empty addresses keep the clean-up busy between its two steps
    let (s2, stop2) = (st.clone(), stop.clone());
    let h = std::thread::spawn(move || while !stop2.load(Ordering::SeqCst) { s2.cleanup_expired().unwrap(); });
    let (t, mut lost, mut n) = (Instant::now(), 0, 0u64);
    while t.elapsed() < Duration::from_secs(20) && lost == 0 {
        let aors: Vec<String> = (0..200).map(|i| format!("sip:u{i}@example.com")).collect();
        for a in &aors {
            n += 1;
            let c = "sip:a@10.0.0.1";
            st.upsert(Binding::new(SmolStr::new(a), SmolStr::new(c), Duration::from_secs(3600)).unwrap()).unwrap();
            st.remove(a, c).unwrap();
            st.upsert(Binding::new(SmolStr::new(a), SmolStr::new(c), Duration::from_secs(3600)).unwrap()).unwrap();
        }
        for a in &aors {
            if st.lookup(a).unwrap().is_empty() { lost += 1; }
            st.remove(a, "sip:a@10.0.0.1").unwrap();
        }
    }
    stop.store(true, Ordering::SeqCst);
    h.join().unwrap();
    println!("{lost} of {n} registrations lost");
    assert_eq!(lost, 0);
}
'''
