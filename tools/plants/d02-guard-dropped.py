prop="D02"
needs="several callers inserting subscriptions into an almost full table at once"
breaks="the lock that covers limit check and insertion is released at once (bound to _), so racing callers exceed the limit"
edits=[("crates/sip-dialog/src/lib.rs","""        // breached by concurrent callers (previously `len()` and `insert()`
        // were separate operations).
        let _guard = self.insert_lock.lock();
""","""        // breached by concurrent callers (previously `len()` and `insert()`
        // were separate operations).
        let _ = self.insert_lock.lock();
""")]
main=r'''
use sip_core::SipUri;
use sip_dialog::*;
use std::sync::{Arc, Barrier};
use std::time::Duration;
fn sub(i: usize) -> Subscription {
    let u = SipUri::parse("sip:a@example.com").unwrap();
    Subscription::unchecked_new(SubscriptionId::unchecked_new("c", format!("f{i}"), "t", "presence"), SubscriptionState::Active, u.clone(), u.clone(), u, Duration::from_secs(600), 1, 0)
}
fn main() {
    let m = SubscriptionManager::new();
    for i in 0..9_999 { m.insert(sub(i)).unwrap(); }
    let mut worst = 0;
    for round in 0..3000 {
        let b = Arc::new(Barrier::new(8));
        let hs: Vec<_> = (0..8).map(|t| { let (m, b) = (m.clone(), b.clone()); std::thread::spawn(move || { let s = sub(20_000 + t); b.wait(); m.insert(s).is_ok() }) }).collect();
        let n = hs.into_iter().filter(|_| true).map(|h| h.join().unwrap() as usize).sum::<usize>();
        worst = worst.max(n);
        if n > 1 { println!("round {round}: {n} inserted into one free place"); break; }
        for t in 0..8 { m.remove(sub(20_000 + t).id()); }
    }
    assert!(worst <= 1);
}
'''
