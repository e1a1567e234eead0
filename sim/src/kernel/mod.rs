//! The simulator kernel: virtual threads, virtual time, seeded choices.
//!
//! Every simulated thread is an OS thread, but exactly one of them runs at any
//! moment: the holder of the baton. The baton changes hands only inside this
//! module (blocking calls, wake-ups, interposed system calls and, inside the
//! crates under test, at SanitizerCoverage guards), and the next holder is a
//! seeded choice. The clock is virtual and only this module moves it.
#![allow(static_mut_refs)]
pub mod alloc;
pub mod interpose;
pub mod net;

use std::collections::{BTreeMap, VecDeque};
use std::sync::atomic::{AtomicU32, Ordering};

pub const MAXT: usize = 2048;
pub const NOTID: u32 = u32::MAX;

/// Kinds of choice. Value 0 always means "the benign default".
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(u8)]
pub enum C {
    Sched = 0,    // who runs next when the current thread blocks
    Switch,       // switch away at a scheduling point
    Spurious,     // futex wait returns early
    Stall,        // the thread leaving the CPU stays off it for a while
    UdpDrop,
    UdpDup,
    UdpDelay,
    UdpAgain,     // send would block
    TcpSeg,       // split a write into smaller segments
    TcpDelay,
    ShortRead,
    ShortWrite,
    EpollOrder,   // order of ready events
    ClockSkew,    // wall clock jump
    Buggify,      // fault points in test doubles
    App,          // scenario-level choices
}
pub const NC: usize = 16;
pub const CNAMES: [&str; NC] = [
    "sched", "switch", "spurious_wakeup", "thread_stall", "udp_drop", "udp_dup", "udp_delay",
    "udp_send_would_block", "tcp_segmentation", "tcp_delay", "short_read", "short_write",
    "epoll_order", "wall_clock_jump", "test_double_fault", "app",
];

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct Knobs {
    pub rates: Vec<f64>,
    /// mean distance between preemption points, in instrumented edges (0: never)
    pub preempt_mean: u64,
    /// 0: uniform random, 1: priorities with random change points
    pub sched_mode: u8,
    pub lat_ns: u64,
    pub jitter_ns: u64,
    pub sndbuf: u32,
    pub rcvbuf: u32,
    pub udp_queue: u32,
    pub workers: u8,
    pub ncpu: u8,
    pub stall_max_ns: u64,
    pub step_limit: u64,
    pub bb_limit: u64,
}
impl Knobs {
    pub fn calm() -> Self {
        Knobs {
            rates: vec![0.0; NC],
            preempt_mean: 0,
            sched_mode: 0,
            lat_ns: 500_000,
            jitter_ns: 20_000_000,
            sndbuf: 65536,
            rcvbuf: 65536,
            udp_queue: 256,
            workers: 2,
            ncpu: 4,
            stall_max_ns: 20_000_000,
            step_limit: 3_000_000,
            bb_limit: 4_000_000_000,
        }
    }
    pub fn rate(&mut self, c: C, r: f64) -> &mut Self {
        self.rates[c as usize] = r;
        self
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum St {
    Free,
    Runnable,
    Blocked,
    Finished,
    Dead,
}

pub struct Th {
    pub st: St,
    pub node: u16,
    pub key: u64,
    pub wseq: u64,
    pub timer: Option<(u64, u64)>,
    pub reason: Wake,
    pub stall_until: u64,
    pub prio: u64,
    pub pthread: u64,
    pub start: Option<extern "C" fn(*mut libc::c_void) -> *mut libc::c_void>,
    pub arg: usize,
    pub yields: u32,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Wake {
    None,
    Woken,
    Timeout,
}

pub enum Ev {
    Timeout(u32),
    Nop,
    Net(net::NetEv),
    Call(Box<dyn FnOnce()>),
}

pub struct NodeInfo {
    pub ip: std::net::Ipv4Addr,
    pub up: bool,
    pub stall_until: u64,
    pub wall_off: i64,
    pub eph: u16,
    pub gen: u32,
}

pub struct Violation {
    pub prop: String,
    pub class: String,
    pub detail: String,
}

pub struct Kernel {
    pub seed: u64,
    pub knobs: Knobs,
    pub now: u64,
    pub seq: u64,
    pub steps: u64,
    pub cur: u32,
    pub th: Vec<Th>,
    pub runq: VecDeque<u32>,
    pub timers: BTreeMap<(u64, u64), Ev>,
    pub ctr: [u64; NC],
    pub fired: [u64; NC],
    pub rec: Vec<(u8, u64, u64)>,
    pub rec_pre: Vec<(u64, u64, u64)>,
    pub replay: bool,
    pub pre_pos: usize,
    pub pre_idx: u64,
    pub rng_ctr: u64,
    pub hash: u64,
    pub ihash: u64,
    pub switches: u64,
    pub nodes: Vec<NodeInfo>,
    pub net: net::Net,
    pub viol: Vec<Violation>,
    pub probes: BTreeMap<String, u64>,
    pub log: Vec<String>,
    pub log_on: bool,
    pub panics: Vec<(String, String)>,
    pub done: bool,
    pub frozen: u32,
    /// sum of all thread stalls injected so far
    pub stall_total: u64,
    pub event_faults: BTreeMap<String, u64>,
}

static mut KP: *mut Kernel = std::ptr::null_mut();
pub static mut ACTIVE: bool = false;
static mut BATON: [AtomicU32; MAXT] = [const { AtomicU32::new(0) }; MAXT];
// Read on every instrumented edge.
pub static mut BB: u64 = 0;
pub static mut NEXT_BB: u64 = u64::MAX;
pub static mut BB_LIMIT: u64 = u64::MAX;
pub static mut EDGE_HITS: *mut u8 = std::ptr::null_mut();
pub static mut EDGE_MAX: usize = 0;
pub static mut NGUARDS: u32 = 0;
// Replay tables; filled before the run starts.
pub static mut REPLAY: Option<ReplayTab> = None;
pub static mut FINISH: Option<fn(&str) -> !> = None;

#[derive(Default)]
pub struct ReplayTab {
    pub choices: Vec<(u8, u64, u64)>, // sorted
    pub preempts: Vec<(u64, u64, u64)>, // sorted by edge count
}

thread_local! { static TID: std::cell::Cell<u32> = const { std::cell::Cell::new(NOTID) }; }

#[inline]
pub fn k() -> &'static mut Kernel {
    unsafe { &mut *KP }
}
/// True on a simulated thread of an active run.
#[inline]
pub fn on() -> bool {
    unsafe { ACTIVE && TID.with(|t| t.get()) != NOTID }
}
pub fn tid() -> u32 {
    TID.with(|t| t.get())
}

pub fn mix(mut x: u64) -> u64 {
    x ^= x >> 30;
    x = x.wrapping_mul(0xbf58476d1ce4e5b9);
    x ^= x >> 27;
    x = x.wrapping_mul(0x94d049bb133111eb);
    x ^ (x >> 31)
}
pub fn h3(a: u64, b: u64, c: u64) -> u64 {
    mix(mix(mix(a.wrapping_add(0x9e3779b97f4a7c15)) ^ b.wrapping_mul(0xd1342543de82ef95)) ^ c.wrapping_mul(0xa0761d6478bd642f))
}
pub fn unit(x: u64) -> f64 {
    (x >> 11) as f64 / (1u64 << 53) as f64
}

// --- real system calls -----------------------------------------------------
#[inline(always)]
pub unsafe fn raw(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
pub fn set_errno(e: i32) {
    unsafe { *libc::__errno_location() = e }
}
unsafe fn fwait(a: &AtomicU32, v: u32) {
    raw(libc::SYS_futex, a as *const _ as i64, (libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG) as i64, v as i64, 0, 0, 0);
}
unsafe fn fwake(a: &AtomicU32) {
    raw(libc::SYS_futex, a as *const _ as i64, (libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG) as i64, 1, 0, 0, 0);
}
unsafe fn baton_wait(t: u32) {
    let b = &BATON[t as usize];
    while b.load(Ordering::Acquire) == 0 {
        fwait(b, 0);
    }
    b.store(0, Ordering::Relaxed);
}
unsafe fn baton_give(t: u32) {
    let b = &BATON[t as usize];
    b.store(1, Ordering::Release);
    fwake(b);
}

// --- choices ---------------------------------------------------------------
impl Kernel {
    fn note(&mut self, x: u64) {
        self.hash = mix(self.hash.rotate_left(5) ^ x);
    }
    /// A choice of kind `c`: 0 unless the seeded stream (or the replay file)
    /// says otherwise. `gen` maps random bits to a non-zero value.
    pub fn choose(&mut self, c: C, gen: impl FnOnce(u64) -> u64) -> u64 {
        let i = self.ctr[c as usize];
        self.ctr[c as usize] += 1;
        if self.frozen > 0 {
            return 0;
        }
        let v = if self.replay {
            let tab = unsafe { &REPLAY.as_ref().unwrap().choices };
            match tab.binary_search_by(|p| (p.0, p.1).cmp(&(c as u8, i))) {
                Ok(p) => tab[p].2,
                Err(_) => 0,
            }
        } else {
            let r = self.knobs.rates[c as usize];
            if r <= 0.0 {
                0
            } else {
                let x = h3(self.seed, 0x100 + c as u64, i);
                if unit(x) < r {
                    gen(mix(x ^ 0x5bd1e995))
                } else {
                    0
                }
            }
        };
        if v != 0 {
            self.fired[c as usize] += 1;
            self.rec.push((c as u8, i, v));
            self.note(0xc0 ^ ((c as u64) << 56) ^ v);
        }
        v
    }
    fn arm_preempt(&mut self) {
        unsafe {
            if self.replay {
                let p = &REPLAY.as_ref().unwrap().preempts;
                while self.pre_pos < p.len() && p[self.pre_pos].0 <= BB {
                    self.pre_pos += 1;
                }
                NEXT_BB = if self.pre_pos < p.len() { p[self.pre_pos].0 } else { u64::MAX };
            } else if self.knobs.preempt_mean == 0 {
                NEXT_BB = u64::MAX;
            } else {
                let u = unit(h3(self.seed, 0x200, self.pre_idx)).max(1e-12);
                let gap = (-u.ln() * self.knobs.preempt_mean as f64) as u64 + 1;
                NEXT_BB = BB + gap;
            }
            NEXT_BB = NEXT_BB.min(BB_LIMIT);
        }
    }
    fn runnable(&self, t: u32) -> bool {
        let th = &self.th[t as usize];
        if th.st != St::Runnable || th.stall_until > self.now {
            return false;
        }
        let n = &self.nodes[th.node as usize];
        n.stall_until <= self.now
    }
    pub fn at(&mut self, t: u64, ev: Ev) -> (u64, u64) {
        self.seq += 1;
        let key = (t.max(self.now), self.seq);
        self.timers.insert(key, ev);
        key
    }
    fn fire_due(&mut self) {
        loop {
            match self.timers.first_key_value() {
                Some((&(t, _), _)) if t <= self.now => {
                    let (_, ev) = self.timers.pop_first().unwrap();
                    match ev {
                        Ev::Nop => {}
                        Ev::Timeout(tid) => {
                            self.th[tid as usize].timer = None;
                            self.make_runnable(tid, Wake::Timeout);
                        }
                        Ev::Net(e) => net::event(self, e),
                        Ev::Call(f) => f(),
                    }
                }
                _ => return,
            }
        }
    }
    fn make_runnable(&mut self, t: u32, why: Wake) {
        let th = &mut self.th[t as usize];
        if th.st != St::Blocked {
            return;
        }
        if let Some(key) = th.timer.take() {
            self.timers.remove(&key);
        }
        th.st = St::Runnable;
        th.reason = why;
        self.runq.push_back(t);
    }
    /// Wakes up to `n` threads blocked on `key`, in the order they blocked.
    pub fn wake(&mut self, key: u64, n: usize) -> usize {
        let mut w: Vec<(u64, u32)> = Vec::new();
        for (i, t) in self.th.iter().enumerate() {
            if t.st == St::Blocked && t.key == key {
                w.push((t.wseq, i as u32));
            }
        }
        w.sort();
        w.truncate(n);
        for &(_, t) in &w {
            self.make_runnable(t, Wake::Woken);
        }
        w.len()
    }
    pub fn wake_thread(&mut self, t: u32) {
        self.make_runnable(t, Wake::Woken);
    }
    /// Next thread to run, when `cur` may (`cur_ok`) or may not go on.
    fn pick(&mut self, cur_ok: bool, kind: C) -> Option<u32> {
        let cur = self.cur;
        let mut cand: Vec<u32> = Vec::with_capacity(8);
        if cur_ok && self.runnable(cur) {
            cand.push(cur);
        }
        for i in 0..self.runq.len() {
            let t = self.runq[i];
            if t != cur && self.runnable(t) {
                cand.push(t);
            }
        }
        if !cur_ok && self.runnable(cur) {
            // yielding: everyone else first
            cand.push(cur);
        }
        if cand.is_empty() {
            return None;
        }
        if cand.len() == 1 {
            return Some(cand[0]);
        }
        let n = cand.len() as u64;
        let v = if self.knobs.sched_mode == 1 && !self.replay {
            // Priorities: the wanted index is that of the highest priority;
            // recorded as an ordinary choice.
            let best = (0..cand.len()).max_by_key(|&i| self.th[cand[i] as usize].prio).unwrap() as u64;
            let i = self.ctr[kind as usize];
            self.ctr[kind as usize] += 1;
            if self.frozen > 0 {
                0
            } else {
                if best != 0 {
                    self.fired[kind as usize] += 1;
                    self.rec.push((kind as u8, i, best));
                    self.note(0xc0 ^ ((kind as u64) << 56) ^ best);
                }
                best
            }
        } else {
            self.choose(kind, |r| 1 + r % (n - 1))
        };
        Some(cand[(v % n) as usize])
    }
    fn run_next(&mut self, next: u32) {
        // `next` leaves the run queue; the current thread (if still runnable)
        // was put there by the caller.
        if let Some(p) = self.runq.iter().position(|&t| t == next) {
            self.runq.remove(p);
        }
        let me = self.cur;
        self.note(next as u64);
        if next == me {
            return;
        }
        self.switches += 1;
        self.ihash = mix(self.ihash.rotate_left(7) ^ ((next as u64) << 32) ^ unsafe { BB } as u64);
        self.cur = next;
        let finished = matches!(self.th[me as usize].st, St::Finished);
        unsafe {
            baton_give(next);
            if finished {
                loop {
                    let z = AtomicU32::new(0);
                    fwait(&z, 0);
                }
            }
            baton_wait(me);
        }
    }
    fn tick(&mut self) {
        self.now += 500;
        self.steps += 1;
        if self.steps > self.knobs.step_limit {
            finish("step-limit");
        }
    }
    /// The current thread cannot go on (already marked); pick someone else,
    /// advancing the clock if nobody is runnable.
    fn switch_away(&mut self) {
        self.tick();
        loop {
            self.fire_due();
            if let Some(n) = self.pick(false, C::Sched) {
                self.run_next(n);
                return;
            }
            match self.timers.first_key_value() {
                Some((&(t, _), _)) => {
                    self.now = self.now.max(t);
                }
                None => finish("deadlock"),
            }
        }
    }
    /// Blocks the current thread on `key` until woken or until `deadline`.
    pub fn block(&mut self, key: u64, deadline: Option<u64>) -> Wake {
        let me = self.cur;
        self.seq += 1;
        let s = self.seq;
        {
            let th = &mut self.th[me as usize];
            th.st = St::Blocked;
            th.key = key;
            th.wseq = s;
            th.reason = Wake::None;
            th.yields = 0;
        }
        if let Some(d) = deadline {
            let key = self.at(d.max(self.now + 1), Ev::Timeout(me));
            self.th[me as usize].timer = Some(key);
        }
        self.switch_away();
        self.th[me as usize].reason
    }
    /// A scheduling point: the current thread may go on.
    pub fn point(&mut self) {
        if self.frozen > 0 {
            return;
        }
        self.tick();
        self.fire_due();
        if self.runq.is_empty() {
            return;
        }
        if let Some(n) = self.pick(true, C::Switch) {
            if n != self.cur {
                let me = self.cur;
                self.runq.push_back(me);
                self.maybe_stall(me);
                self.run_next(n);
            }
        }
    }
    fn maybe_stall(&mut self, me: u32) {
        let max = self.knobs.stall_max_ns.max(2);
        let s = self.choose(C::Stall, |r| {
            // log-uniform
            let e = unit(r) * (max as f64).ln();
            (e.exp() as u64).max(1)
        });
        if s > 0 {
            let until = self.now + s;
            self.stall_total += s;
            self.th[me as usize].stall_until = until;
            self.at(until, Ev::Nop);
        }
    }
    /// sched_yield: everyone else first.
    pub fn yield_now(&mut self) {
        let me = self.cur;
        self.tick();
        self.fire_due();
        let th = &mut self.th[me as usize];
        th.yields += 1;
        let many = th.yields > 64;
        self.runq.push_back(me);
        if let Some(n) = self.pick(false, C::Sched) {
            if n == me && many {
                // Spinning on something only a later event can change.
                if let Some((&(t, _), _)) = self.timers.first_key_value() {
                    self.now = self.now.max(t.min(self.now + 1_000_000));
                    self.fire_due();
                }
            }
            self.run_next(n);
        } else {
            self.switch_away();
        }
    }
    pub fn sleep_until(&mut self, t: u64) {
        self.block(u64::MAX, Some(t));
    }
}

/// Called at every instrumented edge of the crates under test once the
/// countdown hits.
#[cold]
unsafe fn preempt_slow() {
    if !on() {
        NEXT_BB = u64::MAX;
        return;
    }
    let k = k();
    if BB >= BB_LIMIT {
        finish("edge-limit");
    }
    if k.frozen > 0 {
        NEXT_BB = BB + 1;
        return;
    }
    let (want, stall);
    if k.replay {
        let p = &REPLAY.as_ref().unwrap().preempts;
        let e = p[k.pre_pos];
        k.pre_pos += 1;
        want = e.1;
        stall = e.2;
    } else {
        let r = h3(k.seed, 0x201, k.pre_idx);
        want = 1 + (r >> 8) % 64;
        let max = k.knobs.stall_max_ns.max(2);
        let rs = k.knobs.rates[C::Stall as usize];
        let x = h3(k.seed, 0x202, k.pre_idx);
        stall = if unit(x) < rs { ((unit(mix(x)) * (max as f64).ln()).exp() as u64).max(1) } else { 0 };
    }
    k.pre_idx += 1;
    let at = BB;
    let me = k.cur;
    let mut cand: Vec<u32> = Vec::with_capacity(8);
    for i in 0..k.runq.len() {
        let t = k.runq[i];
        if t != me && k.runnable(t) {
            cand.push(t);
        }
    }
    if k.knobs.sched_mode == 1 && !k.replay {
        // a change point: drop to the bottom
        k.th[me as usize].prio = k.pre_idx.wrapping_neg() & 0xffff;
    }
    if !cand.is_empty() || stall > 0 {
        let n = cand.len() as u64;
        k.rec_pre.push((at, want, stall));
        k.note(0xb0 ^ at);
        k.tick();
        if stall > 0 {
            let until = k.now + stall;
            k.fired[C::Stall as usize] += 1;
            k.stall_total += stall;
            k.th[me as usize].stall_until = until;
            k.at(until, Ev::Nop);
        }
        k.runq.push_back(me);
        if n > 0 {
            let c = cand[((want - 1) % n) as usize];
            k.arm_preempt();
            k.run_next(c);
            return;
        } else {
            k.arm_preempt();
            k.switch_away();
            return;
        }
    }
    k.arm_preempt();
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(mut a: *mut u32, b: *mut u32) {
    if a == b || *a != 0 {
        return;
    }
    while a < b {
        NGUARDS += 1;
        *a = NGUARDS;
        a = a.add(1);
    }
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    if !ACTIVE {
        return;
    }
    BB += 1;
    let i = *g as usize;
    if i < EDGE_MAX {
        // the map is shared by all workers: do not dirty the line needlessly
        let p = EDGE_HITS.add(i);
        if *p == 0 {
            *p = 1;
        }
    }
    if BB >= NEXT_BB {
        preempt_slow();
    }
}

pub fn finish(why: &str) -> ! {
    unsafe { (FINISH.unwrap())(why) }
}

// --- threads ---------------------------------------------------------------
static mut KEY: libc::pthread_key_t = 0;

unsafe extern "C" fn thread_gone(_: *mut libc::c_void) {
    if !on() {
        return;
    }
    let k = k();
    let me = k.cur;
    k.th[me as usize].st = St::Finished;
    k.wake(join_key(me), usize::MAX);
    k.switch_away();
    unreachable!();
}
pub fn join_key(t: u32) -> u64 {
    0xffff_0000_0000_0000 | t as u64
}
pub fn file_key(o: usize) -> u64 {
    0xfffe_0000_0000_0000 | o as u64
}

extern "C" fn tramp(a: *mut libc::c_void) -> *mut libc::c_void {
    let t = a as usize as u32;
    TID.with(|x| x.set(t));
    unsafe {
        libc::pthread_setspecific(KEY, 1 as *const _);
        baton_wait(t);
        let th = &k().th[t as usize];
        let (f, arg) = (th.start.unwrap(), th.arg);
        f(arg as *mut _)
    }
}

pub fn new_thread(start: extern "C" fn(*mut libc::c_void) -> *mut libc::c_void, arg: usize) -> u32 {
    let k = k();
    let t = k.th.len() as u32;
    if t as usize >= MAXT {
        finish("too-many-threads");
    }
    let node = if k.th.is_empty() { 0 } else { k.th[k.cur as usize].node };
    k.th.push(Th {
        st: St::Runnable,
        node,
        key: 0,
        wseq: 0,
        timer: None,
        reason: Wake::None,
        stall_until: 0,
        prio: h3(k.seed, 0x300, t as u64) | 0x10000,
        pthread: 0,
        start: Some(start),
        arg,
        yields: 0,
    });
    k.runq.push_back(t);
    t
}
pub fn tramp_fn() -> extern "C" fn(*mut libc::c_void) -> *mut libc::c_void {
    tramp
}

/// Turns the calling (only) thread of this process into simulated thread 0.
pub fn start(seed: u64, knobs: Knobs, replay: bool) {
    unsafe {
        libc::pthread_key_create(&mut KEY, Some(thread_gone));
        alloc::start();
        let kn = Kernel {
            seed,
            knobs: knobs.clone(),
            now: 1_000_000_000,
            seq: 0,
            steps: 0,
            cur: 0,
            th: Vec::with_capacity(64),
            runq: VecDeque::new(),
            timers: BTreeMap::new(),
            ctr: [0; NC],
            fired: [0; NC],
            rec: Vec::new(),
            rec_pre: Vec::new(),
            replay,
            pre_pos: 0,
            pre_idx: 0,
            rng_ctr: 0,
            hash: 1,
            ihash: 1,
            switches: 0,
            nodes: vec![NodeInfo { ip: std::net::Ipv4Addr::new(10, 0, 0, 1), up: true, stall_until: 0, wall_off: 0, eph: 32768, gen: 0 }],
            net: net::Net::default(),
            viol: Vec::new(),
            probes: BTreeMap::new(),
            log: Vec::new(),
            log_on: false,
            panics: Vec::new(),
            done: false,
            frozen: 0,
            stall_total: 0,
            event_faults: BTreeMap::new(),
        };
        KP = Box::into_raw(Box::new(kn));
        extern "C" fn nothing(_: *mut libc::c_void) -> *mut libc::c_void {
            std::ptr::null_mut()
        }
        let t = new_thread(nothing, 0);
        k().runq.clear();
        TID.with(|x| x.set(t));
        BB = 0;
        BB_LIMIT = knobs.bb_limit;
        k().arm_preempt();
        ACTIVE = true;
    }
}
