//! What scenarios use: nodes, faults, history, oracles.
#![allow(dead_code)]
use crate::kernel::{self, k, net, Ev, NodeInfo, St, Violation, C};
use std::net::Ipv4Addr;
use std::time::Duration;

pub type Node = u16;

pub fn now() -> u64 {
    k().now
}
pub fn now_ms() -> u64 {
    k().now / 1_000_000
}
/// Global event sequence number; every call returns a larger one.
pub fn seq() -> u64 {
    k().seq += 1;
    k().seq
}
pub fn sleep(d: Duration) {
    let kk = k();
    let t = kk.now + d.as_nanos() as u64;
    kk.sleep_until(t);
}
pub fn sleep_ms(ms: u64) {
    sleep(Duration::from_millis(ms))
}
pub fn node(ip: &str) -> Node {
    let ip: Ipv4Addr = ip.parse().unwrap();
    assert!(k().nodes.iter().all(|n| n.ip != ip), "two nodes with address {ip}");
    k().nodes.push(NodeInfo { ip, up: true, stall_until: 0, wall_off: 0, eph: 32768, gen: 0 });
    (k().nodes.len() - 1) as Node
}
/// Runs `f` with the calling thread on `n` (threads it starts stay there).
pub fn on<T>(n: Node, f: impl FnOnce() -> T) -> T {
    let kk = k();
    let me = kk.cur as usize;
    let old = kk.th[me].node;
    kk.th[me].node = n;
    let r = f();
    k().th[me].node = old;
    r
}
pub fn spawn_on<T: Send + 'static>(n: Node, f: impl FnOnce() -> T + Send + 'static) -> std::thread::JoinHandle<T> {
    on(n, || std::thread::spawn(f))
}
pub fn spawn<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> std::thread::JoinHandle<T> {
    std::thread::spawn(f)
}
/// The node stops at once: its threads never run again, its sockets are gone.
pub fn crash(n: Node) {
    fault("node_crash");
    let kk = k();
    let me = kk.cur;
    for t in 0..kk.th.len() {
        if t as u32 != me && kk.th[t].node == n && kk.th[t].st != St::Finished {
            if let Some(key) = kk.th[t].timer.take() {
                kk.timers.remove(&key);
            }
            kk.th[t].st = St::Dead;
            kk.runq.retain(|x| *x != t as u32);
        }
    }
    kk.nodes[n as usize].up = false;
    net::node_down(kk, n);
}
pub fn restart(n: Node) {
    let kk = k();
    kk.nodes[n as usize].up = true;
    kk.nodes[n as usize].gen += 1;
    net::pump_all(kk);
}
/// No thread of the node runs for `d`.
pub fn stall_node(n: Node, d: Duration) {
    fault("node_stall");
    let kk = k();
    let t = kk.now + d.as_nanos() as u64;
    let su = &mut kk.nodes[n as usize].stall_until;
    *su = t.max(*su);
    kk.at(t, Ev::Nop);
}
pub fn cut(a: Node, b: Node, both: bool) {
    fault("partition");
    net::cut(k(), a, b, both)
}
pub fn heal() {
    net::heal(k())
}
/// From now on the network neither loses, repeats nor holds datagrams back.
pub fn net_calm() {
    for c in [C::UdpDrop, C::UdpDup, C::UdpDelay, C::UdpAgain] {
        k().knobs.rates[c as usize] = 0.0;
    }
}
pub fn reset_conns(a: Node, b: Node) -> usize {
    let n = net::reset(k(), a, b);
    if n > 0 {
        fault("tcp_reset");
    }
    n
}
pub fn wall_jump(n: Node, ns: i64) {
    fault("wall_clock_jump");
    k().nodes[n as usize].wall_off += ns;
}
/// Sum of all thread stalls injected so far: no delay the scheduler adds
/// between two moments exceeds the growth of this.
pub fn stalled() -> u64 {
    k().stall_total
}
/// Schedules `f` on the kernel's event loop. It must not block.
pub fn at(delay: Duration, f: impl FnOnce() + 'static) {
    let kk = k();
    let t = kk.now + delay.as_nanos() as u64;
    kk.at(t, Ev::Call(Box::new(f)));
}
pub fn fault(name: &str) {
    *k().event_faults.entry(name.to_string()).or_insert(0) += 1;
}
pub fn probe(name: &str) {
    *k().probes.entry(name.to_string()).or_insert(0) += 1;
}
/// A fault point in a test double: fires at the run's buggify rate.
pub fn buggify() -> bool {
    k().choose(C::Buggify, |_| 1) != 0
}
/// 0, or (at the buggify rate) a value in 1..=max.
pub fn buggify_val(max: u64) -> u64 {
    k().choose(C::Buggify, |r| 1 + r % max.max(1))
}
/// A scheduling point the harness adds.
pub fn point() {
    k().point()
}
/// Runs `f` without giving up the CPU at any optional scheduling point.
pub fn atomic<T>(f: impl FnOnce() -> T) -> T {
    k().frozen += 1;
    let r = f();
    k().frozen -= 1;
    r
}
pub fn violation(prop: &str, class: &str, detail: impl Into<String>) {
    let kk = k();
    let d = detail.into();
    log(|| format!("VIOLATION {prop} {class}: {d}"));
    if kk.viol.iter().any(|v| v.prop == prop && v.class == class) {
        return;
    }
    let kk = k();
    kk.viol.push(Violation { prop: prop.into(), class: class.into(), detail: d });
}
#[macro_export]
macro_rules! ensure_that {
    ($prop:expr, $class:expr, $cond:expr, $($arg:tt)*) => {
        if !($cond) { $crate::sim::violation($prop, $class, format!($($arg)*)); }
    };
}
pub fn log(f: impl FnOnce() -> String) {
    let kk = k();
    if kk.log_on {
        let s = format!("[{:>14.6}ms t{}] {}", kk.now as f64 / 1e6, kk.cur, f());
        if std::env::var_os("SIM_ECHO").is_some() {
            eprintln!("{s}");
        }
        k().log.push(s);
    }
}
#[macro_export]
macro_rules! slog { ($($arg:tt)*) => { $crate::sim::log(|| format!($($arg)*)) } }
pub fn logging() -> bool {
    k().log_on
}
/// One-way latency and largest jitter of the network, ns.
pub fn lat_jit() -> (u64, u64) {
    let n = &k().knobs;
    (n.lat_ns, n.jitter_ns.max(1))
}
pub fn workers() -> usize {
    k().knobs.workers.max(1) as usize
}

/// Makes tokio create its process-wide state on the calling thread's node, so
/// that it does not go down with another.
pub fn tokio_globals() {
    drop(tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap());
}
/// A tokio runtime on the calling thread's node: current-thread when the run's
/// `workers` knob is 1, otherwise multi-threaded.
pub fn runtime() -> tokio::runtime::Runtime {
    let w = workers();
    if w <= 1 {
        tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap()
    } else {
        tokio::runtime::Builder::new_multi_thread().worker_threads(w).enable_all().build().unwrap()
    }
}

/// The generator's own PRNG (plans, knobs); never used during a run.
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn u(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        kernel::mix(self.0)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { self.u() % n }
    }
    pub fn range(&mut self, a: u64, b: u64) -> u64 {
        a + self.below(b - a + 1)
    }
    pub fn f(&mut self) -> f64 {
        kernel::unit(self.u())
    }
    pub fn chance(&mut self, p: f64) -> bool {
        self.f() < p
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    /// Log-uniform in [a, b].
    pub fn log(&mut self, a: f64, b: f64) -> f64 {
        (a.ln() + self.f() * (b.ln() - a.ln())).exp()
    }
}

/// Runs `f` without optional scheduling points; `None` if it had to block, in
/// which case what it saw need not be one instant.
pub fn snapshot<T>(f: impl FnOnce() -> T) -> Option<T> {
    let s = k().switches;
    let r = atomic(f);
    if k().switches == s { Some(r) } else { None }
}
