prop="A02"
needs="a nonce used shortly before its lifetime ends and again after it"
breaks="the lifetime is counted from the last use instead of from the issue, so a nonce in use is honoured after its configured lifetime"
edits=[("crates/sip-auth/src/lib.rs","""        self.created_at.elapsed() <= self.ttl
    }
""","""        self.created_at.max(self.last_used).elapsed() <= self.ttl
    }
""")]
main=r'''
use sip_auth::*;
use sip_core::Method;
use std::time::Duration;
fn main() {
    let m = NonceManager::new(Duration::from_millis(800));
    let n = m.generate();
    let v = |nc| m.verify_with_nc(n.value(), nc, &Method::Register, "sip:example.com", b"");
    assert!(v(1));
    std::thread::sleep(Duration::from_millis(500));
    assert!(v(2));
    std::thread::sleep(Duration::from_millis(500));
    let late = v(3);
    println!("accepted 1000 ms after issue with a lifetime of 800 ms: {late}");
    assert!(!late && m.is_stale(n.value()));
}
'''
