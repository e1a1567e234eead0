//! T01-T05, O01: the transaction layer against peers that lose, repeat, delay
//! and contradict answers, transports that fail, stall and hang, transaction
//! users that take their time, and caps.
use super::*;
use crate::{sim, slog};
use anyhow::Result;
use bytes::Bytes;
use msg::*;
use serde::{Deserialize, Serialize};
use sip_core::{Method, Response};
use sip_transaction::fsm::TransportKind;
use sip_transaction::metrics::TransactionRole;
use sip_transaction::{ClientTransactionUser, TransactionKey, TransactionLimits, TransactionManager, TransportContext, TransportDispatcher};
use std::collections::BTreeMap;
use std::net::SocketAddr;
use std::sync::{Arc, Mutex};
use std::time::Duration;

const MS: u64 = 1_000_000;

/// How sends to one peer behave.
#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
struct Beh {
    /// 0 fine, 1 always fails, 2 fails from the v-th send on, 3 the first v
    /// sends fail, 4 each send takes v ms, 5 hangs for ever from the v-th send
    k: u8,
    v: u64,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Rsp {
    us: u64,
    code: u16,
    /// further copies, relative to the first
    copies: Vec<u64>,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Cl {
    ms: u64,
    invite: bool,
    tls: bool,
    targets: Vec<Beh>,
    script: Vec<Rsp>,
    /// how long the user takes in on_provisional/on_final
    tu: u64,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Sv {
    ms: u64,
    invite: bool,
    tls: bool,
    beh: Beh,
    /// arrival of each copy of the request, µs after `ms`
    copies: Vec<u64>,
    /// the application's answers, µs after it saw the request
    steps: Vec<(u64, u16)>,
    /// arrival of ACK copies, µs after the final response was first sent
    acks: Vec<u64>,
    /// ACKs are fed through receive_request rather than ack_received
    ack_rr: bool,
    cancel: Option<u64>,
}
#[derive(Serialize, Deserialize, Clone)]
struct Plan {
    t1: u64,
    t2: u64,
    t4: u64,
    cap_s: usize,
    cap_c: usize,
    cl: Vec<Cl>,
    sv: Vec<Sv>,
}

pub fn client() -> Scenario {
    Scenario {
        name: "txclient",
        gen: |r, p, t| gen(r, p, t, 0),
        tune,
        run,
        real: "sip-transaction (manager, client FSMs, timers, metrics), sip-core, sip-parse, tokio runtime and timers, dashmap",
        stub: "transport dispatcher with faults, answering peers, transaction user",
        deadlock_is_violation: false,
    }
}
pub fn server() -> Scenario {
    Scenario {
        name: "txserver",
        gen: |r, p, t| gen(r, p, t, 1),
        tune,
        run,
        real: "sip-transaction (manager, server FSMs, timers, metrics), sip-core, sip-parse, tokio runtime and timers, dashmap",
        stub: "transport dispatcher with faults, request senders, application",
        deadlock_is_violation: false,
    }
}
pub fn storm() -> Scenario {
    Scenario {
        name: "txstorm",
        gen: |r, p, t| gen(r, p, t, 2),
        tune,
        run,
        real: "sip-transaction (manager, all FSMs, timers, metrics), sip-core, sip-parse, tokio runtime and timers, dashmap",
        stub: "transport dispatcher with faults, peers, application",
        deadlock_is_violation: false,
    }
}
fn tune(r: &mut sim::Rng, k: &mut Knobs, v: &Value) {
    tune_threads(r, k);
    k.stall_max_ns = r.log(1e4, 2e7) as u64;
    if v["cl"].as_array().map_or(0, |a| a.len()) + v["sv"].as_array().map_or(0, |a| a.len()) > 40 {
        k.preempt_mean = *r.pick(&[0, 3000, 30000]);
        k.rates[C::Stall as usize] = 0.0;
    }
}

fn gen_cl(r: &mut sim::Rng, t1: u64, span: u64, healthy: bool) -> Cl {
    let invite = r.chance(0.6);
    let tls = r.chance(0.3);
    let fin = 64 * t1 * 1000; // µs
    let beh = |r: &mut sim::Rng| match r.below(10) {
        0 => Beh { k: 1, v: 0 },
        1 => Beh { k: 2, v: r.range(1, 4) },
        2 => Beh { k: 3, v: r.range(1, 2) },
        3 => Beh { k: 4, v: r.range(1, 2 * t1) },
        4 => Beh { k: 5, v: r.range(1, 3) },
        _ => Beh { k: 0, v: 0 },
    };
    let targets = if healthy { vec![Beh { k: 0, v: 0 }] } else { (0..r.range(1, 3)).map(|_| beh(r)).collect() };
    let when = |r: &mut sim::Rng| match r.below(8) {
        0 => r.below(t1 * 1000),
        1 => (t1 * 1000) * ((1 << r.below(5)) - 1) + r.below(400),
        2 => fin - r.below(3000),
        3 => fin + r.below(3000),
        4 => r.below(fin),
        _ => r.below(t1 * 4000),
    };
    let mut script = vec![];
    if r.chance(0.85) {
        let mut at = when(r);
        for _ in 0..r.range(1, 4) {
            let code = match r.below(10) {
                0..=2 => *r.pick(&[100, 180, 183]),
                3..=5 => *r.pick(&[200, 202, 200]),
                _ => *r.pick(&[302, 401, 404, 486, 487, 503, 603]),
            };
            let mut copies = vec![];
            if r.chance(0.5) {
                for _ in 0..r.range(1, 4) {
                    copies.push(match r.below(5) {
                        0 => r.below(300),
                        1 => r.below(t1 * 4000),
                        2 => 31_900_000 + r.below(200_000),
                        3 => r.below(32_000_000),
                        _ => t1 * 1000 * ((2 << r.below(4)) - 1),
                    });
                }
            }
            script.push(Rsp { us: at, code, copies });
            at += match r.below(3) {
                0 => r.below(500),
                1 => r.below(t1 * 3000),
                _ => r.below(fin),
            };
        }
        if r.chance(0.3) {
            let n = script.len();
            let a = script[r.below(n as u64) as usize].us;
            script[0].us = a;
        }
    }
    Cl { ms: r.below(span), invite, tls, targets, script, tu: if r.chance(0.3) { r.below(2 * t1) } else { 0 } }
}

fn gen_sv(r: &mut sim::Rng, t1: u64, span: u64, healthy: bool) -> Sv {
    let invite = r.chance(0.6);
    let tls = r.chance(0.25);
    let live = 64 * t1 * 1000;
    let mut copies = vec![0];
    for _ in 0..r.below(6) {
        copies.push(match r.below(5) {
            0 => r.below(50),
            1 => r.below(t1 * 4000),
            2 => live + r.below(3_000),
            3 => r.below(live),
            _ => t1 * 1000 * ((2 << r.below(5)) - 1),
        });
    }
    let mut steps = vec![];
    let mut at = match r.below(4) {
        0 => 0,
        1 => r.below(1000),
        2 => r.below(t1 * 2000),
        _ => r.below(live / 2),
    };
    for _ in 0..r.below(3) {
        steps.push((at, *r.pick(&[100, 180, 183])));
        at += if r.chance(0.3) { 0 } else { r.below(t1 * 2000) };
    }
    steps.push((at, *r.pick(&[200, 200, 404, 486, 503, 603])));
    let mut acks = vec![];
    if r.chance(0.8) {
        for _ in 0..r.range(1, 3) {
            acks.push(match r.below(5) {
                0 => r.below(100),
                1 => live - 2000 + r.below(4000),
                2 => r.below(live),
                3 => t1 * 1000 * ((1 << r.below(5)) - 1) + r.below(300),
                _ => r.below(t1 * 4000),
            });
        }
    }
    let beh = if healthy || r.chance(0.7) {
        Beh { k: 0, v: 0 }
    } else {
        match r.below(4) {
            0 => Beh { k: 1, v: 0 },
            1 => Beh { k: 2, v: r.range(1, 4) },
            2 => Beh { k: 4, v: r.range(1, t1) },
            _ => Beh { k: 5, v: r.range(1, 3) },
        }
    };
    Sv { ms: r.below(span), invite, tls, beh, copies, steps, acks, ack_rr: r.chance(0.5), cancel: if r.chance(0.2) { Some(r.below(t1 * 3000)) } else { None } }
}

fn gen(r: &mut sim::Rng, prop: &str, _t: Tier, which: u8) -> Value {
    let t1 = *r.pick(&[500, 500, 100, 20]);
    let t2 = *r.pick(&[t1 * 8, t1 * 8, t1 * 2, t1]);
    let t4 = *r.pick(&[t1 * 10, t1 * 3]);
    let span = *r.pick(&[1, 20, 1000, 5000]);
    let mut p = Plan { t1, t2, t4, cap_s: 100_000, cap_c: 100_000, cl: vec![], sv: vec![] };
    match which {
        0 => {
            for _ in 0..r.range(1, 5) {
                p.cl.push(gen_cl(r, t1, span, false));
            }
        }
        1 => {
            for _ in 0..r.range(1, 4) {
                p.sv.push(gen_sv(r, t1, span, false));
            }
        }
        _ => {
            let big = r.chance(0.25);
            let n = if big { r.range(130, 260) } else { r.range(2, 20) };
            // what the bad peers have in common
            let (bk, bv) = *r.pick(&[(1u8, 0u64), (2, 2), (2, 3), (5, 1), (5, 2), (4, t1)]);
            let together = r.chance(0.7);
            let pb = *r.pick(&[0.3, 0.8, 0.95]);
            for i in 0..n {
                let bad = r.chance(pb) && i > 0;
                if r.chance(0.7) {
                    let mut c = gen_cl(r, t1, span, true);
                    if together {
                        c.ms = 0;
                    }
                    if bad {
                        c.targets = vec![Beh { k: bk, v: bv }];
                        if r.chance(0.7) {
                            c.script.clear();
                        }
                    }
                    p.cl.push(c);
                } else {
                    let mut s = gen_sv(r, t1, span, true);
                    if together {
                        s.ms = 0;
                    }
                    if bad {
                        s.beh = Beh { k: bk, v: bv };
                    }
                    p.sv.push(s);
                }
            }
        }
    }
    if (prop == "T05" || prop == "O01") && r.chance(0.6) || r.chance(0.1) {
        p.cap_c = r.range(1, 4) as usize;
        p.cap_s = r.range(1, 4) as usize;
        if which == 0 {
            for _ in 0..r.below(8) {
                p.cl.push(gen_cl(r, t1, span, false));
            }
        } else {
            for _ in 0..r.below(8) {
                p.sv.push(gen_sv(r, t1, span, false));
            }
        }
    }
    serde_json::to_value(p).unwrap()
}

#[derive(Clone, Debug, PartialEq)]
enum K {
    Start,
    Started(bool),
    /// send attempt n
    Disp(usize),
    DispEnd(usize, bool),
    RspIn { id: usize, code: u16 },
    RspDone { id: usize, code: u16 },
    Prov(usize),
    Final { id: usize, code: u16 },
    Term(String),
    TErr,
    Ack { id: usize, code: u16, is_2xx: bool },
}
#[derive(Clone, Debug)]
struct Ev {
    seq: u64,
    t: u64,
    st: u64,
    k: K,
}
/// One server-side event with its window.
#[derive(Clone, Debug)]
struct W {
    inv: u64,
    ret: u64,
    it: u64,
    rt: u64,
}
#[derive(Clone, Debug)]
struct SDisp {
    seq: u64,
    t: u64,
    id: usize,
    ok: Option<bool>,
}
#[derive(Default)]
struct SHist {
    copies: Vec<(W, bool)>,
    /// (window, response index, code)
    sends: Vec<(W, usize, u16)>,
    disp: Vec<SDisp>,
    acks: Vec<W>,
    cancels: Vec<W>,
}

struct Hub {
    p: Plan,
    mgr: Mutex<Option<TransactionManager>>,
    cl: Vec<Mutex<Vec<Ev>>>,
    sv: Vec<Mutex<SHist>>,
    /// sends so far, per peer port
    sent: Mutex<BTreeMap<u16, u64>>,
    /// the peer of this client transaction has the request
    reached: Vec<Mutex<bool>>,
    peak: Mutex<(usize, usize)>,
    over: Mutex<bool>,
}
impl Hub {
    fn ev(&self, tx: usize, k: K) -> u64 {
        self.look();
        let e = Ev { seq: sim::seq(), t: sim::now(), st: sim::stalled(), k };
        slog!("client {tx}: {:?}", e.k);
        let s = e.seq;
        self.cl[tx].lock().unwrap().push(e);
        s
    }
    fn mgr(&self) -> TransactionManager {
        self.mgr.lock().unwrap().clone().unwrap()
    }
    fn look(&self) {
        if self.p.cap_c > 1000 {
            return;
        }
        let m = self.mgr.lock().unwrap();
        if let Some(m) = m.as_ref() {
            // the tables are sharded: only an undisturbed count is one moment
            let Some((s, c)) = sim::snapshot(|| m.live_counts()) else { return };
            let mut p = self.peak.lock().unwrap();
            p.0 = p.0.max(s);
            p.1 = p.1.max(c);
        }
    }
}
fn peer(i: usize, t: usize) -> SocketAddr {
    format!("10.0.9.{}:{}", 1 + t, 10000 + i).parse().unwrap()
}
fn speer(i: usize) -> SocketAddr {
    format!("10.0.8.1:{}", 20000 + i).parse().unwrap()
}
struct Disp(Arc<Hub>);
struct Abandoned(Option<(Arc<Hub>, usize, usize)>);
impl Drop for Abandoned {
    fn drop(&mut self) {
        if let Some((h, i, t)) = self.0.take() {
            if !*h.over.lock().unwrap() {
                sim::probe("send_abandoned");
                h.ev(i, K::DispEnd(t, false));
            }
        }
    }
}
struct SAbandoned(Option<(Arc<Hub>, usize, usize)>);
impl Drop for SAbandoned {
    fn drop(&mut self) {
        if let Some((h, i, n)) = self.0.take() {
            if !*h.over.lock().unwrap() {
                sim::probe("send_abandoned");
                h.sv[i].lock().unwrap().disp[n].ok = Some(false);
            }
        }
    }
}
impl Disp {
    async fn behave(&self, b: Beh, key: u16) -> Result<()> {
        let n = {
            let mut s = self.0.sent.lock().unwrap();
            let n = s.entry(key).or_insert(0);
            *n += 1;
            *n
        };
        match b.k {
            1 => {
                sim::fault("send_error");
                Err(anyhow::anyhow!("no route"))
            }
            2 if n >= b.v => {
                sim::fault("send_error");
                Err(anyhow::anyhow!("broken pipe"))
            }
            3 if n <= b.v => {
                sim::fault("send_error");
                Err(anyhow::anyhow!("connection refused"))
            }
            4 => {
                sim::fault("send_slow");
                tokio::time::sleep(Duration::from_millis(b.v)).await;
                Ok(())
            }
            5 if n >= b.v => {
                sim::fault("send_hangs");
                std::future::pending::<()>().await;
                Ok(())
            }
            _ => {
                let d = sim::buggify_val(3000);
                if d > 0 {
                    sim::fault("send_delay");
                    tokio::time::sleep(Duration::from_micros(d)).await;
                }
                Ok(())
            }
        }
    }
}
fn between<'a>(s: &'a str, a: &str, b: char) -> Option<&'a str> {
    let i = s.find(a)? + a.len();
    Some(s[i..].split(b).next().unwrap_or(""))
}
#[async_trait::async_trait]
impl TransportDispatcher for Disp {
    async fn dispatch(&self, ctx: &TransportContext, payload: Bytes) -> Result<()> {
        let text = String::from_utf8_lossy(&payload).to_string();
        let h = &self.0;
        if let Some(i) = between(&text, "branch=z9hG4bKc", '\r').and_then(|s| s.trim().parse::<usize>().ok()) {
            let tgt = match ctx.peer().ip() {
                std::net::IpAddr::V4(a) => a.octets()[3] as usize - 1,
                _ => 0,
            };
            h.ev(i, K::Disp(tgt));
            // a send the stack gives up on has failed
            let mut g = Abandoned(Some((h.clone(), i, tgt)));
            let r = self.behave(h.p.cl[i].targets[tgt], (i * 3 + tgt) as u16).await;
            g.0 = None;
            if r.is_ok() {
                *h.reached[i].lock().unwrap() = true;
            }
            h.ev(i, K::DispEnd(tgt, r.is_ok()));
            r
        } else {
            let i: usize = between(&text, "branch=z9hG4bKs", '\r').and_then(|s| s.trim().parse().ok()).unwrap_or(usize::MAX);
            let id = between(&text, "X-Id: ", '\r').and_then(|s| s.parse::<usize>().ok());
            let (Some(id), true) = (id, i < h.sv.len()) else { return Ok(()) };
            h.look();
            let n = {
                let mut s = h.sv[i].lock().unwrap();
                slog!("server {i}: sends #{id} {}", text.lines().next().unwrap_or(""));
                s.disp.push(SDisp { seq: sim::seq(), t: sim::now(), id, ok: None });
                s.disp.len() - 1
            };
            let mut g = SAbandoned(Some((h.clone(), i, n)));
            let r = self.behave(h.p.sv[i].beh, 30000 + i as u16).await;
            g.0 = None;
            h.sv[i].lock().unwrap().disp[n].ok = Some(r.is_ok());
            r
        }
    }
}

struct Tu {
    h: Arc<Hub>,
    i: usize,
}
fn rid(r: &Response) -> usize {
    r.headers().get("X-Id").and_then(|s| s.parse().ok()).unwrap_or(999_999)
}
impl Tu {
    async fn think(&self) {
        let d = self.h.p.cl[self.i].tu;
        if d > 0 {
            tokio::time::sleep(Duration::from_millis(d)).await;
        }
    }
}
#[async_trait::async_trait]
impl ClientTransactionUser for Tu {
    async fn on_provisional(&self, _k: &TransactionKey, r: &Response) {
        self.h.ev(self.i, K::Prov(rid(r)));
        self.think().await;
    }
    async fn on_final(&self, _k: &TransactionKey, r: &Response) {
        self.h.ev(self.i, K::Final { id: rid(r), code: r.code() });
        self.think().await;
    }
    async fn on_terminated(&self, _k: &TransactionKey, reason: &str) {
        self.h.ev(self.i, K::Term(reason.to_string()));
    }
    async fn send_ack(&self, _k: &TransactionKey, r: Response, _c: &TransportContext, is_2xx: bool) {
        self.h.ev(self.i, K::Ack { id: rid(&r), code: r.code(), is_2xx });
    }
    async fn send_prack(&self, _k: &TransactionKey, _r: Response, _c: &TransportContext) {}
    async fn on_transport_error(&self, _k: &TransactionKey) {
        self.h.ev(self.i, K::TErr);
    }
}

fn kind(tls: bool) -> TransportKind {
    if tls { TransportKind::Tls } else { TransportKind::Udp }
}
fn heads(i: usize, side: &str, branch: &str, cseq: u32, method: &str, id: usize) -> Vec<(&'static str, String)> {
    vec![
        ("Via", format!("SIP/2.0/UDP 10.0.0.1;branch=z9hG4bK{side}{branch}")),
        ("From", format!("<sip:a@example.com>;tag=f{i}")),
        ("To", format!("<sip:b@example.com>;tag=t{id}")),
        ("Call-ID", format!("{side}{i}")),
        ("CSeq", format!("{cseq} {method}")),
        ("X-Id", id.to_string()),
    ]
}

async fn run_client(h: Arc<Hub>, i: usize) {
    let c = h.p.cl[i].clone();
    tokio::time::sleep(Duration::from_millis(c.ms)).await;
    let m = if c.invite { "INVITE" } else { "OPTIONS" };
    let mut hs = heads(i, "c", &i.to_string(), 1, m, 0);
    hs[2].1 = "<sip:b@example.com>".into();
    let req = request(&text(&format!("{m} sip:b@example.com SIP/2.0"), &hs, ""));
    let targets = (0..c.targets.len()).map(|t| TransportContext::new(kind(c.tls), peer(i, t), None)).collect();
    let t0 = tokio::time::Instant::now();
    h.ev(i, K::Start);
    for (n, r) in c.script.iter().enumerate() {
        for (k, d) in std::iter::once(0).chain(r.copies.iter().copied()).enumerate() {
            let (h, code) = (h.clone(), r.code);
            let at = t0 + Duration::from_micros(r.us + d);
            tokio::spawn(async move {
                tokio::time::sleep_until(at).await;
                if !*h.reached[i].lock().unwrap() {
                    return;
                }
                let resp = response(&text(&format!("SIP/2.0 {code} X"), &heads(i, "c", &i.to_string(), 1, m, n * 10 + k), ""));
                h.ev(i, K::RspIn { id: n * 10 + k, code });
                let mgr = h.mgr();
                mgr.receive_response(resp).await;
                h.ev(i, K::RspDone { id: n * 10 + k, code });
            });
        }
    }
    let mgr = h.mgr();
    let r = mgr.start_client_transaction_with_targets(req, targets, Arc::new(Tu { h: h.clone(), i })).await;
    h.ev(i, K::Started(r.is_ok()));
}

async fn win<T>(f: impl std::future::Future<Output = T>) -> (W, T) {
    let (inv, it) = (sim::seq(), sim::now());
    let r = f.await;
    (W { inv, ret: sim::seq(), it, rt: sim::now() }, r)
}

async fn run_server(h: Arc<Hub>, i: usize) {
    let s = h.p.sv[i].clone();
    tokio::time::sleep(Duration::from_millis(s.ms)).await;
    let m = if s.invite { "INVITE" } else { "OPTIONS" };
    for at in s.copies.clone() {
        let (h, s) = (h.clone(), s.clone());
        tokio::spawn(async move {
            tokio::time::sleep(Duration::from_micros(at)).await;
            let mut hs = heads(i, "s", &i.to_string(), 1, m, 0);
            hs[2].1 = "<sip:b@example.com>".into();
            hs.pop();
            let req = request(&text(&format!("{m} sip:b@example.com SIP/2.0"), &hs, ""));
            let mgr = h.mgr();
            let ctx = TransportContext::new(kind(s.tls), speer(i), None);
            h.look();
            let (w, handle) = win(mgr.receive_request(req, ctx.clone())).await;
            h.look();
            let again = handle.is_retransmission();
            slog!("server {i}: copy at {at} us {}", if again { "absorbed" } else { "is new" });
            let gen = {
                let mut g = h.sv[i].lock().unwrap();
                g.copies.push((w, !again));
                g.copies.iter().filter(|c| c.1).count()
            };
            if again {
                return;
            }
            // the application
            let key = handle.key().clone();
            for (n, (d, code)) in s.steps.iter().enumerate() {
                tokio::time::sleep(Duration::from_micros(*d - if n > 0 { s.steps[n - 1].0 } else { 0 })).await;
                answer(&h, i, &handle, *code, gen * 10 + n, m).await;
            }
            for d in s.acks.clone() {
                let (h, key, s, ctx, mgr) = (h.clone(), key.clone(), s.clone(), ctx.clone(), mgr.clone());
                tokio::spawn(async move {
                    tokio::time::sleep(Duration::from_micros(d)).await;
                    if !s.invite {
                        return;
                    }
                    let ok = s.steps.last().unwrap().1 < 300;
                    let br = if ok { format!("a{i}") } else { i.to_string() };
                    let (w, _) = if s.ack_rr {
                        let ack = request(&text("ACK sip:b@example.com SIP/2.0", &heads(i, "s", &br, 1, "ACK", 0), ""));
                        win(async {
                            mgr.receive_request(ack, ctx).await;
                        })
                        .await
                    } else if ok {
                        let k = TransactionKey::new(format!("z9hG4bKs{br}"), Method::Invite, true);
                        win(async {
                            mgr.ack_received(&k).await;
                        })
                        .await
                    } else {
                        win(async {
                            mgr.ack_received(&key).await;
                        })
                        .await
                    };
                    if !ok {
                        slog!("server {i}: ACK");
                        h.sv[i].lock().unwrap().acks.push(w);
                    }
                });
            }
        });
    }
    if let (Some(d), true) = (s.cancel, s.invite) {
        tokio::time::sleep(Duration::from_micros(d)).await;
        // the CANCEL transaction, as a UAS handles it
        let hs = heads(i, "s", &i.to_string(), 1, "CANCEL", 0);
        let req = request(&text("CANCEL sip:b@example.com SIP/2.0", &hs, ""));
        let mgr = h.mgr();
        let (w, c) = win(mgr.receive_request(req, TransportContext::new(kind(s.tls), speer(i), None))).await;
        h.sv[i].lock().unwrap().cancels.push(w);
        if !c.is_retransmission() {
            let mut hs = heads(i, "s", &i.to_string(), 1, "CANCEL", 0);
            hs.pop();
            c.send_final(response(&text("SIP/2.0 200 OK", &hs, ""))).await;
            if !h.sv[i].lock().unwrap().copies.iter().any(|c| c.1) {
                return;
            }
            let r = response(&text("SIP/2.0 487 X", &heads(i, "s", &i.to_string(), 1, m, 9), ""));
            let (w, _) = win(mgr.send_final(&TransactionKey::new(format!("z9hG4bKs{i}"), Method::Invite, true), r)).await;
            slog!("server {i}: cancelled, 487");
            h.sv[i].lock().unwrap().sends.push((w, 9, 487));
        }
    }
}
async fn answer(h: &Arc<Hub>, i: usize, handle: &sip_transaction::ServerTransactionHandle, code: u16, id: usize, m: &str) {
    let r = response(&text(&format!("SIP/2.0 {code} X"), &heads(i, "s", &i.to_string(), 1, m, id), ""));
    slog!("server {i}: application answers #{id} {code}");
    // recorded before, so that a send whose window never closes is known
    let n = {
        let mut g = h.sv[i].lock().unwrap();
        g.sends.push((W { inv: sim::seq(), ret: u64::MAX, it: sim::now(), rt: u64::MAX }, id, code));
        g.sends.len() - 1
    };
    let r = tokio::time::timeout(Duration::from_secs(3600), async {
        if code < 200 {
            handle.send_provisional(r).await
        } else {
            handle.send_final(r).await
        }
    })
    .await;
    if r.is_ok() {
        let mut g = h.sv[i].lock().unwrap();
        g.sends[n].0.ret = sim::seq();
        g.sends[n].0.rt = sim::now();
    }
}

fn run(v: &Value) {
    let p: Plan = serde_json::from_value(v.clone()).unwrap();
    let rt = sim::runtime();
    let h = Arc::new(Hub {
        cl: p.cl.iter().map(|_| Default::default()).collect(),
        sv: p.sv.iter().map(|_| Default::default()).collect(),
        reached: p.cl.iter().map(|_| Default::default()).collect(),
        p: p.clone(),
        mgr: Default::default(),
        sent: Default::default(),
        peak: Default::default(),
        over: Default::default(),
    });
    let last = p.cl.iter().map(|c| c.ms * 1000 + c.script.iter().map(|r| r.us + r.copies.iter().max().unwrap_or(&0)).max().unwrap_or(0)).chain(p.sv.iter().map(|s| s.ms * 1000 + s.copies.iter().max().unwrap() * 2 + s.steps.last().unwrap().0 + s.acks.iter().max().unwrap_or(&0))).max().unwrap_or(0);
    let (mut live, mut starts) = ((0, 0), (0u64, 0u64, 0u64, 0u64));
    let mut methods = vec![];
    rt.block_on(async {
        let mgr = TransactionManager::with_timers_and_limits(Arc::new(Disp(h.clone())), Duration::from_millis(p.t1), Duration::from_millis(p.t2), Duration::from_millis(p.t4), TransactionLimits::new(p.cap_s, p.cap_c));
        *h.mgr.lock().unwrap() = Some(mgr.clone());
        for i in 0..p.cl.len() {
            tokio::spawn(run_client(h.clone(), i));
        }
        for i in 0..p.sv.len() {
            tokio::spawn(run_server(h.clone(), i));
        }
        // all traffic, then twice the longest life of a transaction
        tokio::time::sleep(Duration::from_micros(last) + Duration::from_millis(2 * 64 * p.t1 + p.t4) + Duration::from_secs(2 * 33)).await;
        live = mgr.live_counts();
        *h.over.lock().unwrap() = true;
        let s = mgr.metrics().snapshot();
        let g = |m: &std::collections::HashMap<TransactionRole, u64>, r| m.get(&r).copied().unwrap_or(0);
        starts = (g(&s.starts_by_role, TransactionRole::Client), g(&s.completes_by_role, TransactionRole::Client), g(&s.starts_by_role, TransactionRole::Server), g(&s.completes_by_role, TransactionRole::Server));
        let mut names: Vec<_> = s.starts_by_method.keys().chain(s.completes_by_method.keys()).cloned().collect();
        names.sort();
        names.dedup();
        for n in names {
            methods.push((n.clone(), s.starts_by_method.get(&n).copied().unwrap_or(0), s.completes_by_method.get(&n).copied().unwrap_or(0)));
        }
    });
    rt.shutdown_background();
    judge(&h, live, starts, &methods);
}

fn hung(b: &Beh) -> bool {
    b.k == 5
}

fn judge(h: &Arc<Hub>, live: (usize, usize), starts: (u64, u64, u64, u64), methods: &[(String, u64, u64)]) {
    let p = &h.p;
    let storm = p.cl.iter().any(|c| c.targets.iter().any(|b| b.k != 0)) || p.sv.iter().any(|s| s.beh.k != 0);
    let capped = p.cap_c < 1000;
    for i in 0..p.cl.len() {
        let ev = h.cl[i].lock().unwrap().clone();
        judge_client(p, i, &ev, storm, capped);
    }
    for i in 0..p.sv.len() {
        let g = h.sv[i].lock().unwrap();
        judge_server(p, i, &g, storm, capped);
    }
    // A send that never returns keeps its caller; the transaction it belongs
    // to must go all the same.
    if live != (0, 0) {
        sim::violation("T05", "leak", format!("{} server and {} client transactions live long after all traffic stopped", live.0, live.1));
    }
    let peak = *h.peak.lock().unwrap();
    if capped && (peak.0 > p.cap_s || peak.1 > p.cap_c) {
        sim::violation("T05", "over-cap", format!("{} server / {} client transactions live, caps {} / {}", peak.0, peak.1, p.cap_s, p.cap_c));
    }
    if live == (0, 0) {
        if starts.0 != starts.1 || starts.2 != starts.3 {
            sim::violation("O01", "transaction-counts", format!("none live: client {} started, {} ended; server {} started, {} ended", starts.0, starts.1, starts.2, starts.3));
        }
        for (m, s, c) in methods {
            if s != c {
                sim::violation("O01", "transaction-counts", format!("none live: {m}: {s} started, {c} ended"));
            }
        }
    }
}

fn judge_client(p: &Plan, i: usize, ev: &[Ev], storm: bool, capped: bool) {
    let c = &p.cl[i];
    let bad = |prop: &str, class: &str, d: String| {
        sim::violation(prop, class, format!("client transaction {i} ({}, {}): {d}", if c.invite { "INVITE" } else { "OPTIONS" }, if c.tls { "TLS" } else { "UDP" }));
    };
    let healthy = c.targets.iter().all(|b| b.k == 0);
    // lateness on a healthy transaction while others' transports fail
    let late = |class: &str, d: String| {
        bad("T01", class, d.clone());
        if storm && healthy {
            bad("T04", class, d);
        }
    };
    let Some(start) = ev.iter().find(|e| e.k == K::Start) else { return };
    let s = start.t;
    let dl = 64 * p.t1 * MS;
    let slack = |e: &Ev| 40 * MS + (e.st - start.st);
    let fin: Vec<&Ev> = ev.iter().filter(|e| matches!(e.k, K::Final { .. })).collect();
    let term: Vec<&Ev> = ev.iter().filter(|e| matches!(&e.k, K::Term(r) if r != "resource limit exceeded")).collect();
    let evict: Vec<&Ev> = ev.iter().filter(|e| matches!(&e.k, K::Term(r) if r == "resource limit exceeded")).collect();
    let terr: Vec<&Ev> = ev.iter().filter(|e| e.k == K::TErr).collect();
    // --- one outcome
    let n2 = fin.iter().filter(|e| matches!(e.k, K::Final { code, .. } if code < 300)).count();
    let nf = fin.len() - n2;
    let classes = (n2 > 0) as u32 + (nf > 0) as u32 + (!term.is_empty() || !terr.is_empty()) as u32;
    if classes > 1 {
        bad("T01", "two-outcomes", format!("the user was given {:?}", ev.iter().filter(|e| matches!(e.k, K::Final { .. } | K::Term(_) | K::TErr)).map(|e| e.k.clone()).collect::<Vec<_>>()));
    }
    if nf > 1 || (!c.invite && fin.len() > 1) || term.len() > 1 || terr.len() > 1 || evict.len() > 1 {
        bad("T01", "outcome-repeated", format!("the user was told more than once: {:?}", ev.iter().filter(|e| matches!(e.k, K::Final { .. } | K::Term(_) | K::TErr)).map(|e| e.k.clone()).collect::<Vec<_>>()));
        if nf > 1 && c.invite {
            bad("T03", "failure-told-twice", format!("{nf} final failures were reported"));
        }
    }
    if !evict.is_empty() && !capped {
        bad("T05", "evicted-under-cap", "evicted though the cap was never reached".into());
    }
    // --- always an outcome
    if classes == 0 && evict.is_empty() {
        late("never-ended", format!("no outcome was ever reported; {} sends", ev.iter().filter(|e| matches!(e.k, K::Disp(_))).count()));
    }
    // responses are told apart by arrival
    let rsp: Vec<(&Ev, usize, u16, Option<&Ev>)> = ev
        .iter()
        .filter_map(|e| match e.k {
            K::RspIn { id, code } => Some((e, id, code, ev.iter().find(|x| matches!(x.k, K::RspDone { id: i2, .. } if i2 == id)))),
            _ => None,
        })
        .collect();
    for f in &fin {
        if let K::Final { id, .. } = f.k {
            if !rsp.iter().any(|r| r.1 == id && r.0.seq < f.seq) {
                bad("T01", "invented-final", format!("final {:?} was reported but never received", f.k));
            }
        }
    }
    // --- a final that got through is the outcome
    let last_tgt = c.targets.len() - 1;
    let failed_before = |seq: u64| ev.iter().any(|e| e.seq < seq && e.k == K::DispEnd(last_tgt, false));
    let first_final = rsp.iter().filter(|r| r.2 >= 200).filter_map(|r| r.3.map(|d| (r, d))).min_by_key(|(_, d)| d.seq);
    let over = term.first().or(terr.first()).or(evict.first()).copied();
    if let Some((r, d)) = first_final {
        if evict.is_empty() && over.map_or(true, |o| d.seq < o.seq) && fin.is_empty() && d.t + MS < s + dl && !failed_before(d.seq) {
            late("final-lost", format!("final {} was received at {:.3} ms but never reported", r.2, (r.0.t - s) as f64 / 1e6));
        }
        if let (Some(o), true) = (over, fin.is_empty() && evict.is_empty()) {
            if d.seq < o.seq && d.t + MS < s + dl && !failed_before(d.seq) {
                bad("T01", "timeout-despite-final", format!("{:?} although the final {} had been received", o.k, r.2));
            }
        }
    }
    // --- timeouts, neither early nor late
    for t in &term {
        if let K::Term(reason) = &t.k {
            if reason.starts_with("Timer") && t.t < s + dl {
                bad("T01", "early-timeout", format!("timed out after {:.3} ms, 64*T1 is {} ms", (t.t - s) as f64 / 1e6, 64 * p.t1));
            }
            if t.t > s + dl + slack(t) {
                late("late-timeout", format!("{reason} after {:.3} ms, 64*T1 is {} ms", (t.t - s) as f64 / 1e6, 64 * p.t1));
            }
        }
    }
    for f in &fin {
        // told no later than when it was received, plus scheduling
        if let K::Final { id, .. } = f.k {
            if let Some(r) = rsp.iter().find(|r| r.1 == id) {
                let tu = c.tu * MS;
                if f.t > r.0.t + 40 * MS + tu + (f.st - r.0.st) {
                    late("late-final", format!("final received at {:.3} ms was reported at {:.3} ms", (r.0.t - s) as f64 / 1e6, (f.t - s) as f64 / 1e6));
                }
            }
        }
    }
    // --- a transport that fails for every target is reported
    let disp: Vec<&Ev> = ev.iter().filter(|e| matches!(e.k, K::Disp(_))).collect();
    let ends: Vec<&Ev> = ev.iter().filter(|e| matches!(e.k, K::DispEnd(..))).collect();
    if let Some(f) = ends.iter().find(|e| e.k == K::DispEnd(last_tgt, false)) {
        let done_before = fin.first().or(term.first()).map_or(false, |o| o.seq < f.seq) || rsp.iter().any(|r| r.2 >= 200 && r.0.seq < f.seq);
        let told = terr.first().map_or(false, |t| t.t <= f.t + 40 * MS + (t.st - f.st));
        if !done_before && !told && evict.is_empty() {
            let got_final = rsp.iter().any(|r| r.2 >= 200 && r.0.t <= f.t + 40 * MS);
            let timed = term.iter().any(|t| t.t <= f.t + 40 * MS + (t.st - f.st));
            if !got_final && !timed {
                bad("T04", "transport-failure-not-told", format!("the last target failed at {:.3} ms and the user was not told", (f.t - s) as f64 / 1e6));
            }
        }
    }
    for t in &terr {
        if !ends.iter().any(|e| e.seq < t.seq && e.k == K::DispEnd(last_tgt, false)) {
            bad("T04", "false-transport-error", "a transport error was reported but the last target never failed".into());
        }
    }
    // --- failover in order, retransmission schedule
    let mut cur = 0;
    for d in &disp {
        if let K::Disp(t) = d.k {
            if t < cur || t > cur + 1 {
                bad("T01", "failover-order", format!("sent to target {t} after target {cur}"));
            }
            cur = t;
        }
    }
    let stop: Option<&Ev> = {
        // what ends retransmission: a final, or for INVITE any answer
        let r = rsp.iter().filter(|r| r.2 >= 200 || c.invite).filter_map(|r| r.3).min_by_key(|e| e.seq);
        let o = fin.first().or(term.first()).or(terr.first()).or(evict.first()).copied();
        match (r, o) {
            (Some(a), Some(b)) => Some(if a.seq < b.seq { a } else { b }),
            (a, b) => a.or(b),
        }
    };
    if let Some(st) = stop {
        for d in &disp {
            if d.seq > st.seq && d.t > st.t + 40 * MS + (d.st - st.st) {
                // a send already under way may move on to the next target
                // (if the send failed before the request was over)
                let over = rsp.iter().filter(|r| r.2 >= 200).filter_map(|r| r.3).chain(fin.first().copied()).chain(term.first().copied()).map(|e| e.seq).min().unwrap_or(u64::MAX);
                let moved = ends.iter().any(|e| matches!(e.k, K::DispEnd(_, false)) && e.seq < d.seq && e.seq < over && d.t - e.t <= 40 * MS + (d.st - e.st));
                if !moved {
                    bad("T01", "retransmit-after-answer", format!("sent again {:.3} ms after {:?}", (d.t - st.t) as f64 / 1e6, st.k));
                }
            }
        }
    }
    let single = c.targets.len() == 1;
    if single && c.tls && disp.len() > 1 {
        bad("T01", "retransmit-on-reliable", format!("{} sends over TLS", disp.len()));
    }
    if single && !c.tls {
        let t2 = p.t2 * MS;
        let mut step = p.t1 * MS;
        for (a, b) in disp.iter().zip(disp.iter().skip(1)) {
            if b.t - a.t + 2 * MS < step {
                bad("T01", "early-retransmit", format!("sends {:.3} ms apart where the schedule says {:.3} ms", (b.t - a.t) as f64 / 1e6, step as f64 / 1e6));
            }
            if healthy && b.t - a.t > step + 40 * MS + (b.st - a.st) {
                late("late-retransmit", format!("sends {:.3} ms apart where the schedule says {:.3} ms", (b.t - a.t) as f64 / 1e6, step as f64 / 1e6));
            }
            step = (step * 2).min(t2);
        }
        if healthy {
            // and it does not stop by itself
            let early = rsp.iter().filter(|r| r.2 >= 200 || c.invite).map(|r| r.0).min_by_key(|e| e.seq);
            let stop = match (early, stop) {
                (Some(a), Some(b)) => Some(if a.seq < b.seq { a } else { b }),
                (a, b) => a.or(b),
            };
            let end = stop.map(|e| (e.t, e.st)).unwrap_or((s + dl, start.st));
            if let Some(l) = disp.last() {
                // time at which the next one was due
                if l.t + step + 45 * MS + end.1.saturating_sub(l.st) < end.0.min(s + dl) {
                    late("retransmission-stopped", format!("{} sends, the last at {:.3} ms, although unanswered until {:.3} ms", disp.len(), (l.t - s) as f64 / 1e6, (end.0 - s) as f64 / 1e6));
                }
            }
        }
    }
    // --- ACKs
    let acks: Vec<(&Ev, usize, u16, bool)> = ev.iter().filter_map(|e| match e.k { K::Ack { id, code, is_2xx } => Some((e, id, code, is_2xx)), _ => None }).collect();
    for a in &acks {
        if a.3 != (a.2 < 300) || a.2 < 200 {
            bad("T03", "wrong-ack-kind", format!("response {} was to be acknowledged as {}", a.2, if a.3 { "2xx" } else { "failure" }));
        }
        if !c.invite {
            bad("T03", "ack-for-non-invite", "an ACK was asked for".into());
        }
    }
    if c.invite && evict.is_empty() && term.is_empty() && terr.is_empty() {
        if let Some(f) = fin.first() {
            if let K::Final { id: f0, code } = f.k {
                if code >= 300 {
                    let d_end = f.t + if c.tls { 0 } else { 32_000 * MS };
                    for r in rsp.iter().filter(|r| r.2 >= 300) {
                        let done = r.3.map_or(u64::MAX, |d| d.t);
                        let must = r.1 == f0 || (r.0.seq > f.seq && done + 5 * MS < d_end);
                        let n = acks.iter().filter(|a| a.1 == r.1).count();
                        if must && n == 0 {
                            bad("T03", "failure-not-acked", format!("final {} (copy {}) received at {:.3} ms drew no ACK", r.2, r.1, (r.0.t - s) as f64 / 1e6));
                        }
                        if n > 1 {
                            bad("T03", "acked-twice", format!("one copy of {} drew {n} ACKs", r.2));
                        }
                    }
                } else {
                    for f in &fin {
                        if let K::Final { id, code } = f.k {
                            let n = acks.iter().filter(|a| a.1 == id).count();
                            if code < 300 && n != 1 {
                                bad("T03", "success-not-handed-on", format!("2xx (copy {id}) was handed over for acknowledgement {n} times"));
                            }
                        }
                    }
                }
            }
        }
    }
}

fn judge_server(p: &Plan, i: usize, g: &SHist, storm: bool, capped: bool) {
    let c = &p.sv[i];
    let bad = |prop: &str, class: &str, d: String| {
        sim::violation(prop, class, format!("server transaction {i} ({}, {}): {d}", if c.invite { "INVITE" } else { "OPTIONS" }, if c.tls { "TLS" } else { "UDP" }));
    };
    if capped {
        return;
    }
    let _ = storm;
    let mut copies: Vec<(W, bool)> = g.copies.clone();
    copies.sort_by_key(|c| c.0.inv);
    let news: Vec<&W> = { let mut v: Vec<&W> = copies.iter().filter(|c| c.1).map(|c| &c.0).collect(); v.sort_by_key(|w| w.ret); v };
    if !copies.is_empty() && news.is_empty() {
        bad("T02", "never-delivered", "no copy of the request was reported as new".into());
        return;
    }
    let broken = g.disp.iter().filter(|d| d.ok == Some(false)).map(|d| d.seq).min();
    let finals: Vec<&(W, usize, u16)> = g.sends.iter().filter(|s| s.2 >= 200).collect();
    // the earliest moment the first transaction can have ended
    let linger = |f: &(W, usize, u16)| -> (u64, u64) {
        // (sequence, time): both must have passed
        if c.invite {
            if f.2 < 300 {
                (f.0.inv, f.0.it)
            } else {
                let ack = g.acks.iter().filter(|a| a.ret > f.0.inv).min_by_key(|a| a.inv);
                match ack {
                    Some(a) => (f.0.inv, (a.it + if c.tls { 0 } else { p.t4 * MS }).min(f.0.it + 64 * p.t1 * MS)),
                    None => (f.0.inv, f.0.it + 64 * p.t1 * MS),
                }
            }
        } else {
            (f.0.inv, f.0.it + if c.tls { 0 } else { 64 * p.t1 * MS })
        }
    };
    // of two that raced, the one that was sent
    let first_final = finals.iter().min_by_key(|f| (g.disp.iter().filter(|d| d.id == f.1).map(|d| d.seq).min().unwrap_or(u64::MAX), f.0.inv));
    let end = match first_final {
        Some(f) => linger(f),
        None => (u64::MAX, u64::MAX),
    };
    // alive for certain at (seq, time)
    let alive = |seq: u64, t: u64| broken.map_or(true, |b| seq < b) && (seq < end.0 || t + 2 * MS < end.1);
    if news.len() > 1 && alive(news[1].ret, news[1].rt) {
        bad("T02", "delivered-twice", format!("two copies of the request were reported as new, {:.3} ms apart, while the transaction lived", news[1].it.saturating_sub(news[0].it) as f64 / 1e6));
    }
    if news.len() > 1 || broken.is_some() {
        return;
    }
    // --- every repetition is answered with the latest response
    let ack0 = g.acks.iter().map(|a| a.inv).min().unwrap_or(u64::MAX);
    let mut must = 0;
    for (w, new) in &copies {
        if *new {
            continue;
        }
        let mut before: Vec<&(W, usize, u16)> = g.sends.iter().filter(|s| s.0.ret < w.inv).collect();
        before.sort_by_key(|s| s.0.inv);
        // a final never gives way to a later response
        let last = before.iter().find(|s| s.2 >= 200).or(before.last());
        let Some(last) = last else { continue };
        if !alive(w.ret, w.rt) || ack0 < w.ret {
            continue;
        }
        must += 1;
        // which of two finals came first is only known from what was sent
        let ok: Vec<usize> = g.sends.iter().filter(|s| s.1 == last.1 || (s.0.inv < w.ret && s.2 >= 200) || (s.0.ret >= w.inv && s.0.inv < w.ret && last.2 < 200)).map(|s| s.1).collect();
        if !g.disp.iter().any(|d| d.seq > w.inv && d.seq < w.ret && ok.contains(&d.id)) {
            let sent: Vec<usize> = g.disp.iter().filter(|d| d.seq > w.inv && d.seq < w.ret).map(|d| d.id).collect();
            bad("T02", "repetition-not-answered", format!("a repetition at {:.3} ms was answered with {sent:?}, the latest response is #{} ({})", (w.it - copies[0].0.it) as f64 / 1e6, last.1, last.2));
        }
    }
    // --- one final response only
    let mut sent_finals: Vec<usize> = g.disp.iter().map(|d| d.id).filter(|id| finals.iter().any(|f| f.1 == *id)).collect();
    sent_finals.sort();
    sent_finals.dedup();
    if sent_finals.len() > 1 {
        bad("T02", "two-finals", format!("{} different final responses were sent", sent_finals.len()));
    }
    // --- nothing stale, nothing unexplained
    for d in &g.disp {
        let Some(own) = g.sends.iter().find(|s| s.1 == d.id) else { continue };
        if d.seq < own.0.inv {
            continue;
        }
        let newer = |from: u64| g.sends.iter().any(|s| s.0.ret < from && s.0.inv > own.0.ret && own.0.ret != u64::MAX);
        if own.2 < 200 && !(own.0.inv <= d.seq && d.seq <= own.0.ret) {
            let just = copies.iter().any(|(w, _)| w.inv < d.seq && d.seq < w.ret && !newer(w.inv));
            if !just {
                bad("T02", "stale-answer", format!("#{} ({}) was sent although a newer response had been", d.id, own.2));
            }
        }
    }
    let hang = hung(&c.beh) || c.beh.k == 4;
    if let (Some(f), true) = (first_final, c.invite) {
        if f.2 >= 300 {
            let ds: Vec<&SDisp> = { let mut v: Vec<&SDisp> = g.disp.iter().filter(|d| d.id == f.1 && d.seq > f.0.inv).collect(); v.sort_by_key(|d| d.seq); v };
            let t0 = f.0.it;
            let points = |dt: u64| -> usize {
                if c.tls {
                    return 0;
                }
                let (mut n, mut t, mut step) = (0, p.t1 * MS, p.t1 * MS);
                while t <= dt {
                    n += 1;
                    step = (step * 2).min(p.t2 * MS);
                    t += step;
                }
                n
            };
            for (n, d) in ds.iter().enumerate() {
                let by_copy = copies.iter().filter(|(w, new)| !*new && w.inv < d.seq && w.ret > f.0.inv).count();
                let allowed = 1 + by_copy + points((d.t - t0 + 2 * MS).min(64 * p.t1 * MS + 40 * MS + sim::stalled()));
                if n + 1 > allowed {
                    bad("T02", "final-repeated-too-often", format!("sent {} times within {:.3} ms", n + 1, (d.t - t0) as f64 / 1e6));
                }
                if let Some(a) = g.acks.iter().filter(|a| a.inv > f.0.inv).map(|a| a).min_by_key(|a| a.ret) {
                    if a.inv > f.0.ret && d.seq > a.ret && d.t > a.rt + 40 * MS + sim::stalled() {
                        bad("T02", "repeated-after-ack", format!("the final was sent again {:.3} ms after its ACK", (d.t - a.rt) as f64 / 1e6));
                    }
                }
            }
            if !hang {
                let stop = g.acks.iter().filter(|a| a.ret > f.0.inv).map(|a| a.it).min().unwrap_or(u64::MAX).min(t0 + 64 * p.t1 * MS);
                let dt = stop.saturating_sub(t0).saturating_sub(60 * MS + sim::stalled() + p.t2 * 0);
                // every gap may grow by scheduling: lose one point at most per 10
                let need = 1 + points(dt) + 0 * must;
                let drift = points(stop.saturating_sub(t0)) / 8;
                if ds.len() + drift < need {
                    let d = format!("the unacknowledged final was sent {} times in {:.3} ms, {} expected", ds.len(), (stop - t0) as f64 / 1e6, need);
                    bad("T02", "final-not-repeated", d.clone());
                    if storm && c.beh.k == 0 {
                        bad("T04", "final-not-repeated", d);
                    }
                }
            }
        }
    }
}
