prop="R02"
needs="a client that keeps asking while it is throttled, more often than once per refill period"
breaks="every denied request restarts the refill clock, so a throttled client that keeps polling is never admitted again"
edits=[("crates/sip-ratelimit/src/lib.rs","""            self.blocked += 1;
            false
""","""            self.blocked += 1;
            self.last_refill = self.last_access;
            false
""")]
main=r'''
use sip_ratelimit::*;
use std::time::*;
fn main() {
    let rl = RateLimiter::new(RateLimitConfig::new(4, 1).unwrap().with_burst_capacity(2).unwrap());
    while rl.check_rate_limit("a") {}
    let t = Instant::now();
    let mut ok = 0;
    while t.elapsed() < Duration::from_secs(3) {
        ok += rl.check_rate_limit("a") as u32;
        std::thread::sleep(Duration::from_millis(50));
    }
    println!("admitted {ok} in 3 s at 4 per second");
    assert!(ok >= 6);
}
'''
