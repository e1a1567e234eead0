prop="D03"
needs="two copies of one PRACK handled at the same moment"
breaks="the matching provisional is looked up under a shared lock and marked under another, so both copies are accepted"
edits=[("crates/sip-dialog/src/prack_validator.rs","""        // Find matching pending reliable provisional
        let mut pending_list = self
            .pending
            .get_mut(dialog_id)
""","""        // Find matching pending reliable provisional
        let pending_list = self
            .pending
            .get(dialog_id)
"""),("crates/sip-dialog/src/prack_validator.rs","""        let pending = &mut pending_list[pending_idx];
""","""        let pending = &pending_list[pending_idx];
"""),("crates/sip-dialog/src/prack_validator.rs","""        // Mark as PRACKed
        pending.pracked = true;
""","""        // Mark as PRACKed
        drop(pending_list);
        if let Some(mut pending_list) = self.pending.get_mut(dialog_id) {
            if let Some(pending) = pending_list.iter_mut().find(|p| p.rseq == rack.rseq) {
                pending.pracked = true;
            }
        }
""")]
main=r'''
use sip_dialog::prack_validator::PrackValidator;
use sip_core::*;
use bytes::Bytes;
use std::sync::{atomic::*, Arc, Barrier};
fn main() {
    let v = Arc::new(PrackValidator::new());
    let rounds = 40_000usize;
    let acc: Arc<Vec<AtomicUsize>> = Arc::new((0..rounds).map(|_| AtomicUsize::new(0)).collect());
    for i in 0..rounds { v.register_reliable_provisional(&format!("d{i}"), 5, 1, Method::Invite, 180); }
    let b = Arc::new(Barrier::new(4));
    let hs: Vec<_> = (0..4).map(|_| { let (v, acc, b) = (v.clone(), acc.clone(), b.clone()); std::thread::spawn(move || {
        let req = sip_parse::parse_request(&Bytes::from("PRACK sip:a@example.com SIP/2.0\r\nVia: SIP/2.0/UDP 10.0.0.1;branch=z9hG4bKq\r\nFrom: <sip:b@example.com>;tag=r\r\nTo: <sip:a@example.com>;tag=l\r\nCall-ID: x\r\nCSeq: 2 PRACK\r\nRAck: 5 1 INVITE\r\nContent-Length: 0\r\n\r\n".to_string())).unwrap();
        for i in 0..rounds {
            if i % 2 == 0 { b.wait(); }
            if v.validate_prack(&format!("d{i}"), &req).is_ok() { acc[i].fetch_add(1, Ordering::SeqCst); }
        }
    }) }).collect();
    for h in hs { h.join().unwrap(); }
    let n = acc.iter().filter(|a| a.load(Ordering::SeqCst) != 1).count();
    println!("{n} provisionals not acknowledged exactly once");
    assert_eq!(n, 0);
}
'''
