//! R01, R02: the token-bucket limiter under concurrent callers, time gaps,
//! idle clean-up and resets, against an ideal token bucket.
use super::*;
use crate::{ensure_that, sim, slog};
use serde::{Deserialize, Serialize};
use sip_ratelimit::{RateLimitConfig, RateLimiter};
use std::sync::{Arc, Mutex};

#[derive(Serialize, Deserialize, Clone)]
struct Op {
    th: usize,
    kind: String,
    key: usize,
    n: u64,
}
#[derive(Serialize, Deserialize, Clone)]
struct Plan {
    max: u32,
    window: u64,
    burst: Option<u32>,
    idle: u64,
    threads: usize,
    /// every key is used by one thread only
    owned: bool,
    ops: Vec<Op>,
}

/// Keys that are tracked at most.
const FULL: usize = 100_000;

pub fn scenario() -> Scenario {
    Scenario {
        name: "ratelimit",
        gen,
        tune: |r, k, _| {
            tune_threads(r, k);
            k.stall_max_ns = r.log(1e5, 5e9) as u64;
        },
        run,
        real: "sip-ratelimit (all), dashmap, parking_lot",
        stub: "callers",
        deadlock_is_violation: true,
    }
}

/// Callers racing for the last tokens of one key.
fn gen_race(r: &mut sim::Rng) -> Value {
    let (max, window) = match r.below(3) {
        0 => (1, *r.pick(&[60, 3600])),
        1 => (r.range(1, 4) as u32, *r.pick(&[60, 3600])),
        _ => (r.range(1, 6) as u32, r.range(1, 10)),
    };
    let burst = if r.chance(0.4) { None } else { Some(r.range(1, 4) as u32) };
    let b = burst.unwrap_or(max) as u64;
    let ival = window * 1_000_000_000 / max as u64;
    let threads = r.range(2, 5) as usize;
    let mut ops = Vec::new();
    for key in 0..r.range(1, 4) as usize {
        let rounds = r.range(1, 3);
        for round in 0..rounds {
            if round == 0 && r.chance(0.6) {
                // one caller uses the burst up to the last token or two
                ops.push(Op { th: 0, kind: "check".into(), key, n: b.saturating_sub(r.range(0, 2)) });
            }
            for th in 0..threads {
                ops.push(Op { th, kind: "check".into(), key, n: r.range(1, 3) });
            }
            if round + 1 < rounds {
                let d = if r.chance(0.7) { ival * r.range(1, 2) } else { ival * (b + 1) };
                for th in 0..threads {
                    ops.push(Op { th, kind: "sleep".into(), key, n: d });
                }
            }
        }
    }
    ops.retain(|o| o.n > 0);
    serde_json::to_value(Plan { max, window, burst, idle: 100_000, threads, owned: false, ops }).unwrap()
}

fn gen(r: &mut sim::Rng, prop: &str, _t: Tier) -> Value {
    if prop == "R01" && r.chance(0.35) {
        return gen_race(r);
    }
    let (max, window) = match r.below(6) {
        0 => (r.range(1, 5) as u32, r.range(1, 10)),
        1 => (r.range(1, 100) as u32, r.range(1, 100)),
        2 => (r.range(300, 5000) as u32, r.range(1, 3)),
        3 => (r.range(5, 60) as u32, *r.pick(&[60, 300, 3600])),
        4 => (r.range(1, 1000) as u32, *r.pick(&[1, 7, 60])),
        _ => (*r.pick(&[3, 7, 600, 700, 999, 1001, 1500]), 1),
    };
    let burst = if r.chance(0.3) { None } else { Some(r.range(1, 12) as u32) };
    let b = burst.unwrap_or(max) as u64;
    let ival = window * 1_000_000_000 / max as u64;
    let full = ival * b;
    let idle = match r.below(4) {
        0 => 300,
        1 => r.range(0, 3),
        2 => full / 1_000_000_000 + r.range(1, 5),
        _ => r.range(1, 60),
    };
    let owned = prop == "R02" || r.chance(0.3);
    let threads = r.range(1, 4) as usize;
    let keys = r.range(1, 4);
    let mut ops = Vec::new();
    let small = b <= 60;
    for _ in 0..r.range(4, if small { 60 } else { 25 }) {
        let th = r.below(threads as u64) as usize;
        let key = if owned { th * 8 + r.below(2) as usize } else { r.below(keys) as usize };
        let (kind, n) = match r.below(22) {
            0..=8 => ("check", if r.chance(0.6) { r.range(1, 4) } else { (b + r.range(0, 3)).min(250) }),
            9..=14 => (
                "sleep",
                match r.below(6) {
                    0 => ival,
                    1 => ival + r.below(ival + 1),
                    2 => r.below(ival * 3 + 1),
                    3 => full + r.below(ival + 1),
                    4 => idle * 1_000_000_000 + r.below(2_000_000_000),
                    _ => r.below(full / 2 + 1),
                },
            ),
            15 => ("cleanup", 0),
            16 => ("reset", 0),
            17 => ("remaining", 0),
            18 => ("info", 0),
            19 | 20 => ("warn", *r.pick(&[0, 0, 1, 60])),
            _ => ("invalid", r.below(3)),
        };
        // resets give a key a fresh burst by design; only the owner's model
        // can account for that
        if kind == "reset" && !owned {
            continue;
        }
        ops.push(Op { th, kind: kind.into(), key, n });
    }
    if r.chance(0.15) {
        // the steady client: one request a little slower than the rate
        let th = 0;
        let key = 0;
        let step = ival + 1 + r.below(ival);
        ops.push(Op { th, kind: "check".into(), key, n: (b + 1).min(400) });
        for _ in 0..r.range(3, 25) {
            ops.push(Op { th, kind: "sleep".into(), key, n: step });
            ops.push(Op { th, kind: if r.chance(0.2) { "remaining".into() } else { "check".into() }, key, n: 1 });
        }
    }
    if r.chance(0.002) {
        // a full table: keys that are in it already are not affected
        let at = r.below(ops.len() as u64) as usize;
        ops.insert(at, Op { th: r.below(threads as u64) as usize, kind: "fill".into(), key: 0, n: 100_050 });
    }
    if r.chance(0.2) {
        let th = r.below(threads as u64) as usize;
        ops.push(Op { th, kind: "cross".into(), key: 0, n: 1100 });
    }
    serde_json::to_value(Plan { max, window, burst, idle, threads, owned, ops }).unwrap()
}

#[derive(Clone, Copy, Debug)]
struct Rec {
    key: usize,
    inv: u64,
    ret: u64,
    ok: bool,
}

fn run(v: &Value) {
    let p: Plan = serde_json::from_value(v.clone()).unwrap();
    let mut cfg = RateLimitConfig::new(p.max, p.window).unwrap().with_idle_timeout(p.idle);
    if let Some(b) = p.burst {
        cfg = cfg.with_burst_capacity(b).unwrap();
    }
    let burst = p.burst.unwrap_or(p.max) as f64;
    let rate = p.max as f64 / (p.window as f64 * 1e9); // per ns
    // the refill period is a whole number of nanoseconds
    let eff_rate = 1.0 / (1.0 / rate).floor();
    let rl = RateLimiter::new(cfg);
    let idle_ns = p.idle * 1_000_000_000;
    let hist: Arc<Mutex<Vec<Rec>>> = Arc::new(Mutex::new(Vec::new()));
    // (key, when): the bucket was reset at this time
    let resets: Arc<Mutex<Vec<(usize, u64)>>> = Arc::new(Mutex::new(Vec::new()));
    let total = Arc::new(Mutex::new((0u64, 0u64))); // checks, admitted
    let mut hs = Vec::new();
    for th in 0..p.threads {
        let (rl, hist, resets, p, total) = (rl.clone(), hist.clone(), resets.clone(), p.clone(), total.clone());
        hs.push(sim::spawn(move || {
            for op in p.ops.iter().filter(|o| o.th == th) {
                let key = format!("10.0.0.{}", op.key);
                match op.kind.as_str() {
                    "check" => {
                        for _ in 0..op.n {
                            let inv = sim::now();
                            let ok = if inv % 3 == 0 { rl.check_by_ip(key.parse().unwrap()) } else { rl.check_rate_limit(&key) };
                            let ret = sim::now();
                            slog!("check {key} -> {ok}");
                            let full = rl.active_count() >= FULL;
                            let mut t = total.lock().unwrap();
                            t.0 += 1;
                            t.1 += ok as u64;
                            drop(t);
                            // a new key finds no room in a full table
                            let known = hist.lock().unwrap().iter().any(|x| x.key == op.key);
                            let dropped = resets.lock().unwrap().iter().any(|x| x.0 == op.key) || idle_ns < sim::now();
                            if ok || !full || known && !dropped {
                                hist.lock().unwrap().push(Rec { key: op.key, inv, ret, ok });
                            }
                        }
                    }
                    "cross" => {
                        // other keys' traffic; crosses the clean-up interval
                        for i in 0..op.n {
                            let ok = rl.check_rate_limit(&format!("192.168.{}.{}", th, i % 50));
                            let mut t = total.lock().unwrap();
                            t.0 += 1;
                            t.1 += ok as u64;
                        }
                    }
                    "fill" => {
                        let mut adm = 0;
                        for i in 0..op.n {
                            adm += rl.check_rate_limit(&format!("f{i}")) as u64;
                        }
                        sim::probe("full_table");
                        let mut t = total.lock().unwrap();
                        t.0 += op.n;
                        t.1 += adm;
                    }
                    "warn" => {
                        // asking whether to log changes nothing else
                        let r = rl.should_log_blocked(&key, std::time::Duration::from_secs(op.n));
                        slog!("should_log_blocked {key} {} s = {r:?}", op.n);
                    }
                    "sleep" => sim::sleep(std::time::Duration::from_nanos(op.n)),
                    "cleanup" => {
                        rl.cleanup_idle();
                    }
                    "reset" => {
                        rl.reset(&key);
                        slog!("reset {key}");
                        resets.lock().unwrap().push((op.key, sim::now()));
                    }
                    "remaining" | "info" => {
                        let rem = if op.kind == "info" { rl.get_limit_info(&key).map(|i| { ensure_that!("R02", "limit-info", i.limit() == p.max, "limit {} configured {}", i.limit(), p.max); i.remaining() }) } else { rl.remaining_tokens(&key) };
                        if let Some(rem) = rem {
                            slog!("remaining {key} = {rem}");
                            ensure_that!("R01", "remaining-over-burst", rem as f64 <= burst, "remaining {rem} exceeds the burst capacity {burst}");
                            if p.owned {
                                let n = (rem as u64).min(6);
                                for i in 0..n {
                                    let inv = sim::now();
                                    let ok = rl.check_rate_limit(&key);
                                    let ret = sim::now();
                                    slog!("check {key} -> {ok}");
                                    hist.lock().unwrap().push(Rec { key: op.key, inv, ret, ok });
                                    let mut t = total.lock().unwrap();
                                    t.0 += 1;
                                    t.1 += ok as u64;
                                    drop(t);
                                    // a promise is void if clean-up may have dropped the bucket since: that only adds tokens
                                    ensure_that!("R02", "promise-broken", ok, "{rem} remaining reported for {key}, but check {} of the next {n} was denied", i + 1);
                                }
                            }
                        }
                    }
                    _ => {
                        let bad = match op.n {
                            0 => "a\r\nb".to_string(),
                            1 => "x".repeat(5000),
                            _ => "y".repeat(257),
                        };
                        let ok = rl.check_rate_limit(&bad);
                        ensure_that!("R01", "invalid-key-admitted", !ok, "an invalid key was admitted");
                        let mut t = total.lock().unwrap();
                        t.0 += 1;
                        t.1 += ok as u64;
                    }
                }
            }
        }));
    }
    for h in hs {
        let _ = h.join();
    }
    let hist = hist.lock().unwrap().clone();
    let resets = resets.lock().unwrap().clone();
    let m = rl.metrics();
    let (tot, adm) = *total.lock().unwrap();
    ensure_that!("R02", "counters", m.total_checks() == m.allowed_requests() + m.blocked_requests(), "{} checks counted, {} admitted + {} denied", m.total_checks(), m.allowed_requests(), m.blocked_requests());
    ensure_that!("R02", "counters-history", m.total_checks() == tot && m.allowed_requests() == adm, "counted {}/{} checks/admitted, made {tot}/{adm}", m.total_checks(), m.allowed_requests());
    let mut keys: Vec<usize> = hist.iter().map(|h| h.key).collect();
    keys.sort();
    keys.dedup();
    for key in keys {
        let ops: Vec<Rec> = hist.iter().filter(|h| h.key == key).copied().collect();
        let rs: Vec<u64> = resets.iter().filter(|r| r.0 == key).map(|r| r.1).collect();
        // --- R01: for every pair (first admitted, last admitted)
        let mut adm: Vec<Rec> = ops.iter().filter(|o| o.ok).copied().collect();
        adm.sort_by_key(|o| o.inv);
        let mut all = ops.clone();
        all.sort_by_key(|o| o.inv);
        for i in 0..adm.len() {
            let s = adm[i].inv;
            let mut rets: Vec<u64> = adm[i..].iter().map(|o| o.ret).collect();
            rets.sort();
            for (n, e) in rets.iter().enumerate() {
                if rs.iter().any(|r| *r >= s && *r <= *e) {
                    break;
                }
                // A bucket's first refill counts from its creation; later a
                // window may begin up to one refill period after the tick.
                let slack = if i == 0 && rs.is_empty() { 0.0 } else { 1.0 };
                let allowed = burst + eff_rate * (*e - s) as f64 + slack + 1e-6;
                if (n + 1) as f64 > allowed {
                    // Could dropping the idle bucket explain it?
                    let idle = p.idle as u64 * 1_000_000_000;
                    let gap = max_gap(&all, s, *e);
                    let refunds = idle_refunds(&all, s, *e, idle);
                    if refunds > 0 && (n + 1) as f64 <= allowed + refunds as f64 * burst {
                        sim::violation("R01", "over-admit-after-idle-eviction", format!("key {key}: {} admitted in {} ns (allowed {:.2}): idle for {} ns (idle timeout {} s) and the evicted bucket came back full", n + 1, e - s, allowed, gap, p.idle));
                    } else {
                        sim::violation("R01", "over-admit", format!("key {key}: {} admitted within {} ns; burst {burst} plus {}/{} s allows {:.3} (rounding {slack})", n + 1, e - s, p.max, p.window, allowed - slack));
                    }
                }
            }
        }
        // --- R02: an entitled key is not denied (its single owner's history)
        if p.owned {
            let ival = 1.0 / rate;
            let mut c = burst;
            let mut last = ops[0].inv;
            let mut since: f64 = last as f64; // entitled since
            let mut ri = 0;
            let mut denials_run = 0;
            for o in &ops {
                while ri < rs.len() && rs[ri] <= o.inv {
                    c = burst;
                    last = rs[ri];
                    since = last as f64;
                    ri += 1;
                }
                let c0 = (c + rate * (o.inv - last) as f64).min(burst);
                if c < 1.0 && c0 >= 1.0 {
                    since = last as f64 + (1.0 - c) * ival;
                }
                if o.ok {
                    denials_run = 0;
                    c = (c + rate * (o.ret - last) as f64).min(burst) - 1.0;
                    c = c.max(-1.0);
                    last = o.ret;
                    if c >= 1.0 {
                        since = since.min(o.ret as f64);
                    }
                } else {
                    denials_run += 1;
                    if c0 >= 1.0 && o.inv as f64 > since + ival * 1.000001 + 2000.0 && burst >= 1.0 {
                        sim::violation("R02", "entitled-but-denied", format!("key {key}: denied at {} ns though entitled since {:.0} ns (refill period {:.0} ns, ideal tokens {:.3}, {denials_run} denials in a row)", o.inv, since, ival, c0));
                    }
                }
            }
        }
    }
}

/// Accesses to the key (admitted or not) in order; idle gaps longer than the
/// timeout inside [s, e] after which a fresh bucket is possible.
fn idle_refunds(all: &[Rec], s: u64, e: u64, idle: u64) -> u64 {
    let mut n = 0;
    let mut prev: Option<u64> = None;
    for o in all.iter().filter(|o| o.ret >= s && o.inv <= e) {
        if let Some(p) = prev {
            if o.ret > p + idle {
                n += 1;
            }
        }
        prev = Some(prev.unwrap_or(0).max(o.inv));
    }
    n
}
fn max_gap(all: &[Rec], s: u64, e: u64) -> u64 {
    let v: Vec<_> = all.iter().filter(|o| o.ret >= s && o.inv <= e).collect();
    v.windows(2).map(|w| w[1].inv.saturating_sub(w[0].ret)).max().unwrap_or(0)
}
