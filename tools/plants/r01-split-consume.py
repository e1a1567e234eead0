prop="R01"
needs="two callers checking the same key at the same moment while one token is left"
breaks="the token is tested under a shared lock and taken under a second, exclusive one, so racing callers share a token and a key is admitted more often than burst plus refill"
edits=[("crates/sip-ratelimit/src/lib.rs","""        // Get or create bucket for this key
        let bucket = self
            .buckets
            .entry(key.to_string())
            .or_insert_with(|| RwLock::new(TokenBucket::new(self.config.burst_capacity as f64)));

        // Try to consume a token
        let allowed = bucket.write().try_consume(&self.config);
""","""        // Get or create bucket for this key
        if !self.buckets.contains_key(key) {
            self.buckets
                .entry(key.to_string())
                .or_insert_with(|| RwLock::new(TokenBucket::new(self.config.burst_capacity as f64)));
        }

        // Try to consume a token; callers of different keys share the shard
        let allowed = match self.buckets.get(key) {
            Some(bucket) => {
                let available = {
                    let mut probe = bucket.read().clone();
                    probe.refill(&self.config);
                    probe.tokens >= 1.0
                };
                if available {
                    let mut bucket = bucket.write();
                    bucket.refill(&self.config);
                    bucket.last_access = Instant::now();
                    bucket.tokens = (bucket.tokens - 1.0).max(0.0);
                } else {
                    bucket.write().try_consume(&self.config);
                }
                available
            }
            None => false,
        };
""")]
main=r'''
use sip_ratelimit::*;
use std::sync::{atomic::*, Arc, Barrier};
fn main() {
    // one request per hour, burst 1: of eight racing callers one may pass
    let rl = RateLimiter::new(RateLimitConfig::new(1, 3600).unwrap().with_burst_capacity(1).unwrap());
    let keys = 20_000usize;
    let counts: Arc<Vec<AtomicUsize>> = Arc::new((0..keys).map(|_| AtomicUsize::new(0)).collect());
    let n = 8;
    let step = Arc::new(Barrier::new(n));
    let hs: Vec<_> = (0..n).map(|_| {
        let (rl, counts, step) = (rl.clone(), counts.clone(), step.clone());
        std::thread::spawn(move || for k in 0..keys {
            if k % 4 == 0 { step.wait(); }
            if rl.check_rate_limit(&format!("10.{}.{}.1", k / 250, k % 250)) { counts[k].fetch_add(1, Ordering::SeqCst); }
        })
    }).collect();
    for h in hs { h.join().unwrap(); }
    let over = counts.iter().filter(|c| c.load(Ordering::SeqCst) > 1).count();
    println!("{over} keys admitted twice");
    assert_eq!(over, 0);
}
'''
