//! O01: the sampled transport metrics under concurrent callers, bursts, silences
//! and wall-clock jumps.
use super::*;
use crate::{sim, slog};
use serde::{Deserialize, Serialize};
use sip_observe::{OpLabel, RateLimitedTracingTransportMetrics, StageLabel, TransportLabel, TransportMetrics};
use std::cell::Cell;
use std::num::NonZeroU64;
use std::sync::{Arc, Mutex};
use std::time::Duration;

#[derive(Serialize, Deserialize, Clone)]
struct Plan {
    min_us: u64,
    every: u64,
    /// per caller: (pause before, µs; which event; wall clock jump, ms)
    callers: Vec<Vec<(u64, u8, i64)>>,
    default: bool,
}

pub fn scenario() -> Scenario {
    Scenario {
        name: "sampling",
        gen,
        tune: |r, k, _| tune_threads(r, k),
        run,
        real: "sip-observe (RateLimitedTracingTransportMetrics), tracing",
        stub: "callers, subscriber, wall clock",
        deadlock_is_violation: true,
    }
}
fn gen(r: &mut sim::Rng, _p: &str, _t: Tier) -> Value {
    let default = r.chance(0.2);
    let (min_us, every) = if default { (5000, 10) } else { (*r.pick(&[0, 100, 1000, 5000, 100_000, 2_000_000]), *r.pick(&[1, 1, 1, 2, 3, 10])) };
    let jumps = r.chance(0.4);
    let n = *r.pick(&[1, 1, 2, 3, 4]);
    let callers = (0..n)
        .map(|_| {
            (0..r.range(2, 30))
                .map(|_| {
                    let pause = match r.below(6) {
                        0..=2 => 0,
                        3 => r.below(50),
                        4 => (min_us + r.below(20)).saturating_sub(10),
                        _ => r.below(3 * min_us + 100),
                    };
                    let jump = if jumps && r.chance(0.1) { *r.pick(&[-3_600_000, -2000, -7, 7, 2000, 86_400_000]) } else { 0 };
                    (pause, r.below(7) as u8, jump)
                })
                .collect()
        })
        .collect();
    serde_json::to_value(Plan { min_us, every, callers, default }).unwrap()
}

thread_local! { static SEEN: Cell<u32> = const { Cell::new(0) }; }
struct Sink;
impl tracing::Subscriber for Sink {
    fn enabled(&self, m: &tracing::Metadata<'_>) -> bool {
        m.target().starts_with("sip_observe")
    }
    fn new_span(&self, _: &tracing::span::Attributes<'_>) -> tracing::span::Id {
        tracing::span::Id::from_u64(1)
    }
    fn record(&self, _: &tracing::span::Id, _: &tracing::span::Record<'_>) {}
    fn record_follows_from(&self, _: &tracing::span::Id, _: &tracing::span::Id) {}
    fn event(&self, _: &tracing::Event<'_>) {
        SEEN.with(|s| s.set(s.get() + 1));
    }
    fn enter(&self, _: &tracing::span::Id) {}
    fn exit(&self, _: &tracing::span::Id) {}
}

#[derive(Clone, Copy, Debug)]
struct Call {
    it: u64,
    rt: u64,
    inv: u64,
    ret: u64,
    out: u32,
}

fn run(v: &Value) {
    let p: Plan = serde_json::from_value(v.clone()).unwrap();
    let _ = tracing::subscriber::set_global_default(Sink);
    let n = sim::node("10.0.3.1");
    let m = Arc::new(if p.default { RateLimitedTracingTransportMetrics::default() } else { RateLimitedTracingTransportMetrics::new(Duration::from_micros(p.min_us), NonZeroU64::new(p.every).unwrap()) });
    sim::sleep_ms(10);
    let calls: Arc<Mutex<Vec<Call>>> = Default::default();
    let hs: Vec<_> = p
        .callers
        .iter()
        .cloned()
        .enumerate()
        .map(|(i, ops)| {
            let (m, calls) = (m.clone(), calls.clone());
            sim::spawn_on(n, move || {
                for (pause, kind, jump) in ops {
                    if pause > 0 {
                        sim::sleep(Duration::from_micros(pause));
                    }
                    if jump != 0 {
                        sim::wall_jump(n, jump * 1_000_000);
                    }
                    let t = TransportLabel::Udp;
                    let before = SEEN.with(|s| s.get());
                    let (it, inv) = (sim::now(), sim::seq());
                    match kind {
                        0 => m.on_packet_received(t),
                        1 => m.on_packet_sent(t),
                        2 => m.on_error(t, StageLabel::Accept),
                        3 => m.on_accept(t),
                        4 => m.on_connect(t),
                        5 => m.on_latency(t, OpLabel::Recv, 5),
                        _ => m.on_rate_limited(t),
                    }
                    let (rt, ret) = (sim::now(), sim::seq());
                    let out = SEEN.with(|s| s.get()) - before;
                    slog!("caller {i}: event {kind} -> {out} records");
                    calls.lock().unwrap().push(Call { it, rt, inv, ret, out });
                }
            })
        })
        .collect();
    for h in hs {
        let _ = h.join();
    }
    let c = calls.lock().unwrap().clone();
    judge(&p, &c);
}

fn judge(p: &Plan, calls: &[Call]) {
    let bad = |class: &str, d: String| sim::violation("O01", class, d);
    let min = p.min_us * 1000;
    if let Some(c) = calls.iter().find(|c| c.out > 1) {
        bad("two-records", format!("one event made {} records", c.out));
    }
    let mut em: Vec<&Call> = calls.iter().filter(|c| c.out > 0).collect();
    let total = calls.len() as u64;
    if em.len() as u64 > total.div_ceil(p.every) {
        bad("not-sampled", format!("{} records of {total} events with one in {} let through", em.len(), p.every));
    }
    // records are `min` apart: within any span only so many can have been decided
    em.sort_by_key(|c| c.it);
    if min > 0 {
        for (i, a) in em.iter().enumerate() {
            for b in &em[i..] {
                let end = b.rt.max(a.rt);
                let n = em.iter().filter(|c| c.it >= a.it && c.rt <= end).count() as u64;
                if n > 1 && (n - 1) * min > end - a.it {
                    bad("too-close", format!("{n} records within {:.3} ms, the minimum interval is {:.3} ms", (end - a.it) as f64 / 1e6, min as f64 / 1e6));
                    return;
                }
            }
        }
    }
    // a record that nothing forbids is made: sampled events only, known when
    // every event is, or when nothing overlaps
    let mut by: Vec<&Call> = calls.iter().collect();
    by.sort_by_key(|c| c.inv);
    for (k, c) in by.iter().enumerate() {
        let alone = by[..k].iter().all(|d| d.ret < c.inv) && by[k + 1..].iter().all(|d| d.inv > c.ret);
        let sampled = p.every == 1 || (alone && (k as u64) % p.every == 0);
        if !sampled || c.out > 0 {
            continue;
        }
        let excused = min > 0 && em.iter().any(|e| e.inv < c.ret && c.it < e.rt + min);
        if !excused {
            bad("record-withheld", format!("event {k} at {:.3} ms made no record although none had been made for the minimum interval of {:.3} ms", c.it as f64 / 1e6, min as f64 / 1e6));
            return;
        }
    }
    for (k, c) in by.iter().enumerate() {
        let alone = by[..k].iter().all(|d| d.ret < c.inv) && by[k + 1..].iter().all(|d| d.inv > c.ret);
        if alone && c.out > 0 && (k as u64) % p.every != 0 {
            bad("wrong-event", format!("event {k} made a record with one in {} let through", p.every));
        }
    }
}
