prop="A01"
needs="two different requests carrying the same nonce count verified at the same moment"
breaks="the nonce is validated on a copy that is written back afterwards, so both requests pass on one nonce count"
edits=[("crates/sip-auth/src/lib.rs","""        if let Some(mut entry) = self.nonces.get_mut(value) {
            if !entry.is_valid() {
                return false;
            }
            // Validate nc and request hash (replay protection + retransmission support)
            entry.validate_nc_with_request(nc, method, uri, body, self.max_request_age)
        } else {
            false
        }
    }
""","""        // Work on a copy: hashing the request must not hold up other callers
        let Some(mut nonce) = self.nonces.get(value).map(|entry| entry.clone()) else {
            return false;
        };
        if !nonce.is_valid() {
            return false;
        }
        // Validate nc and request hash (replay protection + retransmission support)
        let accepted =
            nonce.validate_nc_with_request(nc, method, uri, body, self.max_request_age);
        if accepted {
            if let Some(mut entry) = self.nonces.get_mut(value) {
                *entry = nonce;
            }
        }
        accepted
    }
""")]
main=r'''
use sip_auth::*;
use sip_core::Method;
use std::sync::{atomic::*, Arc, Barrier};
use std::time::Duration;
fn main() {
    let m = Arc::new(NonceManager::new(Duration::from_secs(300)).with_max_nonces(100_000));
    let rounds = 30_000;
    let nonces: Arc<Vec<String>> = Arc::new((0..rounds).map(|_| m.generate().value().to_string()).collect());
    let counts: Arc<Vec<AtomicUsize>> = Arc::new((0..rounds).map(|_| AtomicUsize::new(0)).collect());
    let b = Arc::new(Barrier::new(4));
    let hs: Vec<_> = (0..4).map(|t| {
        let (m, nonces, counts, b) = (m.clone(), nonces.clone(), counts.clone(), b.clone());
        std::thread::spawn(move || for i in 0..rounds {
            if i % 2 == 0 { b.wait(); }
            if m.verify_with_nc(&nonces[i], 1, &Method::Invite, &format!("sip:victim{t}@example.com"), b"") { counts[i].fetch_add(1, Ordering::SeqCst); }
        })
    }).collect();
    for h in hs { h.join().unwrap(); }
    let twice = counts.iter().filter(|c| c.load(Ordering::SeqCst) > 1).count();
    println!("{twice} nonce counts authorised two requests");
    assert_eq!(twice, 0);
}
'''
