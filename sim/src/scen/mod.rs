use crate::kernel::{Knobs, C};
use crate::sim::Rng;
use serde_json::Value;

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Tier {
    Quick,
    Thorough,
}

/// One simulated workload. `gen` draws a plan, `tune` the knobs, `run` executes
/// it on simulated thread 1 and judges what happened.
pub struct Scenario {
    pub name: &'static str,
    pub gen: fn(&mut Rng, &str, Tier) -> Value,
    pub tune: fn(&mut Rng, &mut Knobs, &Value),
    pub run: fn(&Value),
    pub real: &'static str,
    pub stub: &'static str,
    /// Whether "every simulated thread is blocked for ever" is a violation of
    /// the property under check.
    pub deadlock_is_violation: bool,
}

/// Default swarm: threads.
pub fn tune_threads(r: &mut Rng, k: &mut Knobs) {
    k.sched_mode = if r.chance(0.3) { 1 } else { 0 };
    k.preempt_mean = *r.pick(&[0, 30, 100, 300, 1000, 3000, 10000]);
    k.rates[C::Sched as usize] = *r.pick(&[0.0, 0.3, 0.7]);
    k.rates[C::Switch as usize] = *r.pick(&[0.0, 0.05, 0.3]);
    k.rates[C::Spurious as usize] = *r.pick(&[0.0, 0.0, 0.05]);
    k.rates[C::Stall as usize] = *r.pick(&[0.0, 0.0, 0.02, 0.2]);
    k.stall_max_ns = r.log(1e4, 5e7) as u64;
    k.rates[C::Buggify as usize] = *r.pick(&[0.0, 0.02, 0.1, 0.3]);
    k.rates[C::App as usize] = 0.5;
    k.workers = *r.pick(&[1, 1, 2, 3]);
    k.ncpu = *r.pick(&[1, 2, 4]);
}
/// Default swarm: network.
pub fn tune_net(r: &mut Rng, k: &mut Knobs) {
    tune_threads(r, k);
    k.lat_ns = r.log(5e4, 6e7) as u64;
    k.jitter_ns = r.log(1e5, 4e8) as u64;
    let on = |r: &mut Rng, v: &[f64]| if r.chance(0.5) { 0.0 } else { *r.pick(v) };
    k.rates[C::UdpDrop as usize] = on(r, &[0.02, 0.1, 0.3]);
    k.rates[C::UdpDup as usize] = on(r, &[0.05, 0.2]);
    k.rates[C::UdpDelay as usize] = on(r, &[0.1, 0.5]);
    k.rates[C::UdpAgain as usize] = on(r, &[0.02, 0.1]);
    k.rates[C::TcpSeg as usize] = on(r, &[0.1, 0.5, 0.9]);
    k.rates[C::TcpDelay as usize] = on(r, &[0.1, 0.4]);
    k.rates[C::ShortRead as usize] = on(r, &[0.1, 0.5]);
    k.rates[C::ShortWrite as usize] = on(r, &[0.05, 0.3]);
    k.rates[C::EpollOrder as usize] = on(r, &[0.3]);
    k.sndbuf = *r.pick(&[2048, 16384, 65536, 262144]);
    k.rcvbuf = *r.pick(&[2048, 16384, 65536, 262144]);
    k.udp_queue = *r.pick(&[8, 64, 256]);
}

mod auth;
mod dialog;
mod dns;
mod listen;
mod msg;
mod observe;
mod pool;
mod proxy;
mod ratelimit;
mod registrar;
mod smoke;
mod txn;
mod ua;

pub fn all() -> Vec<Scenario> {
    vec![smoke::scenario(), ratelimit::scenario(), auth::scenario(), auth::nonces(), registrar::scenario(), registrar::total(), dialog::seq_scenario(), dialog::tab_scenario(), dialog::prack_scenario(), dialog::timer_scenario(), txn::client(), txn::server(), txn::storm(), observe::scenario(), dns::scenario(), listen::scenario(), pool::scenario(), proxy::scenario(), proxy::cap(), ua::calls(), ua::regs()]
}
/// Which scenarios decide a property, with how many runs each gets (quick).
pub fn for_property(p: &str) -> Vec<(&'static str, u64)> {
    match p {
        "SMOKE" => vec![("smoke", 200)],
        "R01" => vec![("ratelimit", 30000)],
        "R02" => vec![("ratelimit", 30000)],
        "A01" => vec![("auth", 24000)],
        "A02" => vec![("auth", 12000), ("nonces", 16000)],
        "A03" => vec![("auth", 16000)],
        "G01" => vec![("registrar", 60000)],
        "G02" => vec![("registrar", 60000)],
        "G03" => vec![("registrar", 60000)],
        "G04" => vec![("registrar", 30000), ("regtotal", 3)],
        "D01" => vec![("dialogseq", 40000)],
        "D02" => vec![("dialogtab", 20000), ("dialogseq", 2000)],
        "D03" => vec![("prack", 60000)],
        "D04" => vec![("sesstimer", 60000)],
        "T01" => vec![("txclient", 40000)],
        "T02" => vec![("txserver", 40000)],
        "T03" => vec![("txclient", 40000)],
        "T04" => vec![("txstorm", 8000)],
        "T05" => vec![("txclient", 12000), ("txserver", 12000), ("txstorm", 3000)],
        "O01" => vec![("txclient", 8000), ("txserver", 8000), ("txstorm", 1500), ("sampling", 12000), ("dialogtab", 3000)],
        "S01" => vec![("dns", 8000)],
        "N01" => vec![("listen", 40000), ("pool", 10000)],
        "N02" => vec![("pool", 20000)],
        "N03" => vec![("pool", 20000), ("listen", 10000)],
        "N04" => vec![("listen", 40000)],
        "P01" => vec![("proxy", 40000)],
        "P02" => vec![("proxy", 40000)],
        "P03" => vec![("proxycap", 60)],
        "U01" => vec![("ua", 30000)],
        "U02" => vec![("uareg", 24000), ("ua", 4000)],
        _ => vec![],
    }
}
