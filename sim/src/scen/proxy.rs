//! P01, P02: a forking proxy. The proxy core is real; around it an application
//! as a user would write it sends its requests, hands it responses as they come
//! off a faulty network (each in a task of its own), reports transport failures
//! and timeouts, cancels, and tries further targets. What each call returned is
//! checked against a small reference model: some order of the calls consistent
//! with when they ran must explain every result.
use super::*;
use crate::{sim, slog};
use serde::{Deserialize, Serialize};
use sip_core::{Method, Request, Response, SipUri};
use sip_proxy::service::ProxyService;
use sip_proxy::stateful::{forwarding, BranchInfo, BranchState, ForkMode, ProxyContext, ProxyTarget};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::net::SocketAddr;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::net::UdpSocket;

const MS: u64 = 1_000_000;
const S: u64 = 1000 * MS;
const TIMER_C: u64 = 180 * S;

#[derive(Serialize, Deserialize, Clone)]
struct Step {
    us: u64,
    code: u16,
    chal: u8,
    /// how often this is repeated, every 500 ms
    more: u8,
}
#[derive(Serialize, Deserialize, Clone)]
struct Target {
    steps: Vec<Step>,
    /// answers CANCEL with a 487 after so many µs; 0: takes no notice of it
    obeys: u64,
    /// the transport reports a failure after so many µs
    fail: Option<u64>,
}
#[derive(Serialize, Deserialize, Clone)]
struct Call {
    us: u64,
    invite: bool,
    /// 0 parallel, 1 sequential, 2 one target
    mode: u8,
    hops: u32,
    targets: Vec<Target>,
    /// added by the application while the call is on (parallel)
    late: Vec<(u64, Target)>,
    /// even after a final response was forwarded
    pushy: bool,
    cancel: Option<u64>,
}
#[derive(Serialize, Deserialize, Clone)]
struct Plan {
    calls: Vec<Call>,
}

pub fn scenario() -> Scenario {
    Scenario {
        name: "proxy",
        gen,
        tune: |r, k, _| {
            tune_net(r, k);
            k.lat_ns = r.log(2e4, 2e7) as u64;
            k.jitter_ns = r.log(1e4, 1e8) as u64;
            k.step_limit = 3_000_000;
        },
        run,
        real: "sip-proxy (ProxyService, ProxyContext, CANCEL forwarding, Timer C), sip-parse, sip-core, tokio runtime",
        stub: "application, transactions (resend, 408), downstream servers, UDP network",
        deadlock_is_violation: true,
    }
}
fn gen_target(r: &mut sim::Rng, quick: u64) -> Target {
    let mut steps = vec![];
    let pause = |r: &mut sim::Rng| match r.below(8) {
        0..=3 => r.below(quick),
        4 => 0,
        5 => r.log(1e3, 3e6) as u64,
        6 => 180_000_000 - r.below(60_000) + r.below(60_000),
        _ => 1_000_000 * r.below(70),
    };
    let fin = |r: &mut sim::Rng| match r.below(16) {
        0..=3 => 200,
        4 => 202,
        5 => *r.pick(&[600, 603, 604]),
        6 => 603,
        7 => *r.pick(&[301, 302]),
        8 | 9 => 401,
        10 => 407,
        11 => 503,
        12 => 500,
        _ => *r.pick(&[404, 486, 480, 408, 487]),
    };
    for _ in 0..r.below(3) {
        steps.push(Step { us: pause(r), code: *r.pick(&[100, 180, 183]), chal: 0, more: r.below(2) as u8 * r.below(3) as u8 });
    }
    if r.chance(0.9) {
        steps.push(Step { us: pause(r), code: fin(r), chal: r.below(4) as u8, more: r.below(3) as u8 });
        // not what a server should do
        if r.chance(0.15) {
            steps.push(Step { us: pause(r), code: if r.chance(0.3) { 180 } else { fin(r) }, chal: r.below(4) as u8, more: 0 });
        }
    }
    Target {
        steps,
        obeys: if r.chance(0.85) { 1 + r.below(quick) } else { 0 },
        fail: if r.chance(0.12) { Some(pause(r)) } else { None },
    }
}
fn gen(r: &mut sim::Rng, _p: &str, _t: Tier) -> Value {
    let quick = *r.pick(&[20, 2000, 50_000]);
    let calls = (0..*r.pick(&[1, 1, 1, 2, 3]))
        .map(|_| {
            let mode = *r.pick(&[0, 0, 0, 0, 1, 1, 2]);
            let n = match r.below(12) {
                0 => 1,
                11 => r.range(6, 12),
                _ => r.range(2, 5),
            };
            Call {
                us: r.below(2000),
                invite: r.chance(0.85),
                mode,
                hops: if r.chance(0.03) { 0 } else { 70 },
                targets: (0..n).map(|_| gen_target(r, quick)).collect(),
                late: (0..if mode == 0 && r.chance(0.25) { r.range(1, 2) } else { 0 }).map(|_| (r.below(quick * 3), gen_target(r, quick))).collect(),
                pushy: r.chance(0.5),
                cancel: if r.chance(0.2) { Some(r.below(quick * 4)) } else { None },
            }
        })
        .collect();
    serde_json::to_value(Plan { calls }).unwrap()
}

// ---------------------------------------------------------------- history
type Chals = BTreeSet<String>;
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
struct Fwd {
    code: u16,
    /// which response of a downstream server; 0 one made up here
    id: u64,
    chals: Vec<String>,
}
#[derive(Clone, Debug, PartialEq)]
enum K {
    /// branch, response, code, challenges
    Resp(usize, u64, u16, Chals),
    Fail(usize),
    Build,
    Add(usize),
    TimerC(usize),
}
#[derive(Clone, Debug, PartialEq)]
enum Out {
    Fwd(Option<Fwd>),
    Cancels(BTreeSet<usize>),
    Added(bool),
    Unknown,
}
#[derive(Clone, Debug)]
struct Op {
    k: K,
    /// The op of the same call that comes before.
    after: Option<usize>,
    inv: u64,
    ret: u64,
    it: u64,
    rt: u64,
    out: Out,
}
#[derive(Default)]
struct Hist {
    ops: Vec<Op>,
    initial: usize,
    /// branch ids, targets, requests as sent
    branches: Vec<(String, String, Request)>,
    channel: Vec<(u64, Fwd)>,
    /// finals the application sent on
    finals: usize,
    cancelled: BTreeMap<usize, u64>,
    open: usize,
}
struct Ctx {
    ci: usize,
    call: Call,
    ctx: Arc<ProxyContext>,
    invite: Request,
    h: Mutex<Hist>,
    /// next target to try, sequential
    next: Mutex<usize>,
}
struct World {
    svc: ProxyService,
    sock: UdpSocket,
    by_branch: Mutex<HashMap<String, (Arc<Ctx>, usize)>>,
    answered: Mutex<HashSet<String>>,
    targets: Mutex<Vec<SocketAddr>>,
}
fn fwd(r: &Response) -> Fwd {
    let mut chals: Vec<String> = ["WWW-Authenticate", "Proxy-Authenticate"].iter().flat_map(|n| r.headers().get_all(n).map(move |v| format!("{n}: {v}"))).collect();
    chals.sort();
    Fwd { code: r.code(), id: r.headers().get("X-Id").and_then(|v| v.parse().ok()).unwrap_or(0), chals }
}
impl Ctx {
    fn op<T>(&self, k: K, f: impl FnOnce(&mut Hist) -> T) -> (usize, T) {
        let mut h = self.h.lock().unwrap();
        h.open += 1;
        let (inv, it) = (sim::seq(), sim::now());
        h.ops.push(Op { k, after: None, inv, ret: u64::MAX, it, rt: u64::MAX, out: Out::Unknown });
        let n = h.ops.len() - 1;
        let t = f(&mut h);
        (n, t)
    }
    fn done(&self, n: usize, out: Out) {
        let mut h = self.h.lock().unwrap();
        h.open -= 1;
        let o = &mut h.ops[n];
        o.ret = sim::seq();
        o.rt = sim::now();
        slog!("call {}: {:?} -> {out:?}", self.ci, o.k);
        o.out = out;
    }
}

// ---------------------------------------------------------------- application
fn target_uri(w: &World, ci: usize, t: &Target, srv: &Arc<Servers>) -> SipUri {
    let mut ts = w.targets.lock().unwrap();
    let port = 5100 + ts.len() as u16;
    let a: SocketAddr = format!("10.0.9.2:{port}").parse().unwrap();
    ts.push(a);
    srv.add(port, ci, t.clone());
    SipUri::parse(&format!("sip:t{}@{a}", ts.len())).unwrap()
}
fn dest(r: &Request) -> SocketAddr {
    r.uri().as_str().split('@').nth(1).and_then(|s| s.split(';').next()).and_then(|s| s.parse().ok()).unwrap_or_else(|| "10.0.9.2:9".parse().unwrap())
}
fn wire(r: &Request) -> Vec<u8> {
    sip_parse::serialize_request(r).to_vec()
}
fn via(r: &Request) -> Vec<String> {
    r.headers().iter().filter(|h| h.name().eq_ignore_ascii_case("Via")).map(|h| h.value().to_string()).collect()
}
/// Sends a request downstream and stands in for its client transaction.
async fn launch(w: Arc<World>, c: Arc<Ctx>, b: usize, branch: String, req: Request, t: Target) {
    w.by_branch.lock().unwrap().insert(branch.clone(), (c.clone(), b));
    let (w2, c2) = (w.clone(), c.clone());
    if let Some(us) = t.fail {
        let branch = branch.clone();
        tokio::spawn(async move {
            tokio::time::sleep(Duration::from_micros(us)).await;
            let (n, _) = c2.op(K::Fail(b), |_| ());
            let r = c2.ctx.report_transport_error(&branch).await;
            c2.done(n, Out::Fwd(r.as_ref().map(fwd)));
            if let Some(r) = r {
                upstream(&w2, &c2, r).await;
            }
        });
    }
    let bytes = wire(&req);
    let mut gap = 500;
    let mut t = 0;
    while t < 32_000 {
        let known = w.answered.lock().unwrap().contains(&branch);
        if known && c.call.invite {
            return;
        }
        if !known {
            let _ = w.sock.send_to(&bytes, dest(&req)).await;
        }
        tokio::time::sleep(Duration::from_millis(gap)).await;
        t += gap;
        gap = (gap * 2).min(4000);
    }
    if w.answered.lock().unwrap().contains(&branch) && c.call.invite {
        return;
    }
    let text = msg::text("SIP/2.0 408 Request Timeout", &[("Via", via(&req)[0].clone()), ("Call-ID", format!("c{}", c.ci)), ("CSeq", format!("7 {}", req.method().as_str()))], "");
    handle(w, c, b, branch, msg::response(&text)).await;
}
async fn handle(w: Arc<World>, c: Arc<Ctx>, b: usize, branch: String, r: Response) {
    let f = fwd(&r);
    let (n, _) = c.op(K::Resp(b, f.id, f.code, f.chals.iter().cloned().collect()), |_| ());
    let a = w.svc.handle_branch_response(&c.ctx, &branch, r).await;
    let got = a.forward().map(|x| fwd(x.response()));
    let decided = got.as_ref().is_some_and(|f| (200..300).contains(&f.code) || f.code >= 600);
    c.done(n, Out::Fwd(got));
    let cancels = a.cancels().to_vec();
    if decided || !cancels.is_empty() {
        // The CANCELs were made in a second step of the same call.
        let m = {
            let mut h = c.h.lock().unwrap();
            let mut o = h.ops[n].clone();
            o.k = K::Build;
            o.after = Some(n);
            o.out = Out::Unknown;
            h.ops.push(o);
            h.ops.len() - 1
        };
        send_cancels(&w, &c, m, cancels).await;
    }
    if let Some(r) = a.into_forward() {
        upstream(&w, &c, r.into_response()).await;
    }
}
async fn send_cancels(w: &Arc<World>, c: &Arc<Ctx>, n: usize, cancels: Vec<Request>) {
    let mut set = BTreeSet::new();
    for q in &cancels {
        let vs = via(q);
        let mut h = c.h.lock().unwrap();
        let Some(b) = h.branches.iter().position(|(_, _, r)| via(r).first() == vs.first()) else {
            sim::violation("P02", "wrong-cancel", format!("call {}: a CANCEL with Via {vs:?}, which is that of no request sent", c.ci));
            continue;
        };
        let (_, target, r) = h.branches[b].clone();
        let num = |r: &Request| r.headers().get("CSeq").and_then(|v| v.split_whitespace().next().map(str::to_string));
        let same = |n: &str| q.headers().get(n) == r.headers().get(n);
        if q.method() != &Method::Cancel || q.uri().as_str() != target || vs.len() != 1 || num(q) != num(&r) || !q.headers().get("CSeq").is_some_and(|v| v.ends_with("CANCEL")) || !same("Call-ID") || !same("From") || !same("To") || !same("Route") {
            sim::violation("P02", "wrong-cancel", format!("call {}: the CANCEL for branch {b} does not match its request:\n{}\n{}", c.ci, String::from_utf8_lossy(&wire(q)), String::from_utf8_lossy(&wire(&r))));
        }
        set.insert(b);
        *h.cancelled.entry(b).or_default() += 1;
        if h.cancelled[&b] > 1 {
            sim::violation("P02", "cancelled-twice", format!("call {}: branch {b} gets a second CANCEL", c.ci));
        }
    }
    {
        let mut h = c.h.lock().unwrap();
        slog!("call {}: CANCELs for {set:?}", c.ci);
        h.ops[n].out = Out::Cancels(set);
    }
    for q in cancels {
        let bytes = wire(&q);
        let w = w.clone();
        tokio::spawn(async move {
            for gap in [500, 1000, 2000] {
                let _ = w.sock.send_to(&bytes, dest(&q)).await;
                tokio::time::sleep(Duration::from_millis(gap)).await;
            }
        });
    }
}
/// The proxy says to send `r` upstream; a sequential search goes on instead.
async fn upstream(w: &Arc<World>, c: &Arc<Ctx>, r: Response) {
    let code = r.code();
    if code < 200 {
        return;
    }
    if c.call.mode == 1 && (300..600).contains(&code) {
        let t = {
            let mut n = c.next.lock().unwrap();
            *n += 1;
            c.call.targets.get(*n - 1).cloned()
        };
        if let Some(t) = t {
            if add(w, c, t).await {
                return;
            }
        }
    }
    c.h.lock().unwrap().finals += 1;
}
async fn add(w: &Arc<World>, c: &Arc<Ctx>, t: Target) -> bool {
    let srv = SRV.lock().unwrap().clone().unwrap();
    let uri = target_uri(w, c.ci, &t, &srv);
    let Ok((req, branch)) = forwarding::prepare_forward(&c.invite, &uri, "10.0.9.1:5060", "UDP", false, None) else {
        return false;
    };
    let info = BranchInfo::new(branch.clone(), uri.clone(), std::time::Instant::now(), BranchState::Trying).unwrap();
    let b = {
        let mut h = c.h.lock().unwrap();
        h.branches.push((branch.to_string(), uri.as_str().to_string(), req.clone()));
        h.branches.len() - 1
    };
    let (n, _) = c.op(K::Add(b), |_| ());
    let ok = c.ctx.add_branch(info).await.is_ok();
    c.done(n, Out::Added(ok));
    if ok {
        tokio::spawn(launch_boxed(w.clone(), c.clone(), b, branch.to_string(), req, t));
    }
    ok
}
fn launch_boxed(w: Arc<World>, c: Arc<Ctx>, b: usize, branch: String, req: Request, t: Target) -> std::pin::Pin<Box<dyn std::future::Future<Output = ()> + Send>> {
    Box::pin(launch(w, c, b, branch, req, t))
}
async fn call(w: Arc<World>, ci: usize, call: Call, all: Arc<Mutex<Vec<Arc<Ctx>>>>) {
    tokio::time::sleep(Duration::from_micros(call.us)).await;
    let m = if call.invite { "INVITE" } else { "MESSAGE" };
    let text = msg::text(
        &format!("{m} sip:group@example.com SIP/2.0"),
        &[
            ("Via", format!("SIP/2.0/UDP 10.0.9.9:5060;branch=z9hG4bKup{ci}")),
            ("Via", format!("SIP/2.0/UDP 10.0.9.8:5060;branch=z9hG4bKua{ci}")),
            ("Max-Forwards", call.hops.to_string()),
            ("From", format!("<sip:alice@example.com>;tag=a{ci}")),
            ("To", "<sip:group@example.com>".into()),
            ("Call-ID", format!("c{ci}")),
            ("CSeq", format!("7 {m}")),
            ("Contact", "<sip:alice@10.0.9.8>".into()),
        ],
        "",
    );
    let invite = msg::request(&text);
    let srv = SRV.lock().unwrap().clone().unwrap();
    let mode = [ForkMode::Parallel, ForkMode::Sequential, ForkMode::None][call.mode as usize];
    let uris: Vec<SipUri> = call.targets.iter().map(|t| target_uri(&w, ci, t, &srv)).collect();
    // In the order given: the same priority throughout.
    let targets = uris.iter().enumerate().map(|(i, u)| ProxyTarget::new(u.clone()).with_priority(i as u32)).collect();
    let r = w.svc.start_forking(invite.clone(), targets, "10.0.9.1:5060", "UDP", false, None, mode).await;
    let (ctx, mut rx, sent) = match r {
        Ok(x) => x,
        Err(e) => {
            if call.hops > 0 {
                sim::violation("P01", "refused", format!("call {ci}: {e:#}"));
            }
            sim::probe("refused");
            return;
        }
    };
    if sent.is_empty() {
        sim::violation("P01", "never-answers", format!("call {ci} is accepted without a request being sent"));
        return;
    }
    let want = if call.mode == 0 { call.targets.len() } else { 1 };
    if sent.len() != want {
        sim::violation("P01", "targets", format!("call {ci}: {} of {want} targets tried", sent.len()));
    }
    let c = Arc::new(Ctx { ci, call: call.clone(), ctx, invite, h: Default::default(), next: Mutex::new(sent.len()) });
    all.lock().unwrap().push(c.clone());
    {
        let mut h = c.h.lock().unwrap();
        for (b, (branch, req)) in sent.iter().enumerate() {
            if req.uri().as_str() != uris[b].as_str() {
                sim::violation("P01", "targets", format!("call {ci}: request {b} goes to {} and not {}", req.uri().as_str(), uris[b].as_str()));
            }
            h.branches.push((branch.to_string(), uris[b].as_str().to_string(), req.clone()));
        }
        h.initial = sent.len();
    }
    let c2 = c.clone();
    let w2 = w.clone();
    tokio::spawn(async move {
        while let Some(r) = rx.recv().await {
            let f = fwd(&r);
            slog!("call {}: on the channel: {f:?}", c2.ci);
            let synthetic = f.code != 503;
            c2.h.lock().unwrap().channel.push((sim::now(), f));
            // A 503 was returned as well, and dealt with there.
            if synthetic {
                upstream(&w2, &c2, r).await;
            }
        }
    });
    for (b, (branch, req)) in sent.into_iter().enumerate() {
        tokio::spawn(launch_boxed(w.clone(), c.clone(), b, branch.to_string(), req, call.targets[b].clone()));
    }
    for (us, t) in call.late.clone() {
        let (w, c) = (w.clone(), c.clone());
        tokio::spawn(async move {
            tokio::time::sleep(Duration::from_micros(us)).await;
            if c.call.pushy || c.h.lock().unwrap().finals == 0 {
                add(&w, &c, t).await;
            }
        });
    }
    if let Some(us) = call.cancel {
        tokio::time::sleep(Duration::from_micros(us)).await;
        if c.h.lock().unwrap().finals == 0 && call.invite {
            let text = msg::text(
                "CANCEL sip:group@example.com SIP/2.0",
                &[
                    ("Via", "SIP/2.0/UDP 10.0.9.1:5060;branch=z9hG4bKtemplate;rport".to_string()),
                    ("Max-Forwards", "70".into()),
                    ("From", format!("<sip:alice@example.com>;tag=a{ci}")),
                    ("To", "<sip:group@example.com>".into()),
                    ("Call-ID", format!("c{ci}")),
                    ("CSeq", "7 CANCEL".into()),
                ],
                "",
            );
            let (n, _) = c.op(K::Build, |_| ());
            let cancels = c.ctx.build_cancel_requests(&msg::request(&text)).await;
            c.done(n, Out::Unknown);
            sim::probe("upstream_cancel");
            send_cancels(&w, &c, n, cancels).await;
        }
    }
}

// ---------------------------------------------------------------- downstream
struct Servers {
    tx: tokio::sync::mpsc::UnboundedSender<(u16, usize, Target)>,
}
impl Servers {
    fn add(&self, port: u16, ci: usize, t: Target) {
        let _ = self.tx.send((port, ci, t));
    }
}
static SRV: Mutex<Option<Arc<Servers>>> = Mutex::new(None);

async fn server(port: u16, t: Target) {
    let sock = Arc::new(UdpSocket::bind(("0.0.0.0", port)).await.unwrap());
    let mut buf = vec![0u8; 4096];
    let last: Arc<Mutex<Option<Vec<u8>>>> = Default::default();
    let fin: Arc<Mutex<bool>> = Default::default();
    let mut started = false;
    let ids = Arc::new(std::sync::atomic::AtomicU64::new(port as u64 * 100));
    loop {
        let Ok((n, from)) = sock.recv_from(&mut buf).await else { return };
        let Some(req) = sip_parse::parse_request(&bytes::Bytes::copy_from_slice(&buf[..n])) else {
            sim::violation("P01", "unreadable", format!("port {port} is sent {:?}", String::from_utf8_lossy(&buf[..n])));
            continue;
        };
        let ids = ids.clone();
        let make = move |req: &Request, code: u16, chal: u8| {
            let mut hs: Vec<(&str, String)> = via(req).into_iter().map(|v| ("Via", v)).collect();
            for n in ["From", "To", "Call-ID", "CSeq"] {
                hs.push((n, req.headers().get(n).unwrap_or("").to_string()));
            }
            hs.push(("X-Id", ids.fetch_add(1, std::sync::atomic::Ordering::SeqCst).to_string()));
            let name = if code == 401 { "WWW-Authenticate" } else { "Proxy-Authenticate" };
            if code == 401 || code == 407 {
                hs.push((name, format!("Digest realm=\"r{chal}\", nonce=\"n{chal}\"")));
                if chal == 3 {
                    hs.push((name, "Digest realm=\"r0\", nonce=\"n0\"".into()));
                }
            }
            msg::text(&format!("SIP/2.0 {code} X"), &hs, "").into_bytes()
        };
        if req.method() == &Method::Cancel {
            if t.obeys > 0 && !*fin.lock().unwrap() && started {
                *fin.lock().unwrap() = true;
                let (sock, last, us) = (sock.clone(), last.clone(), t.obeys);
                let mut inv = req.clone();
                let _ = inv.headers_mut().set_or_push("CSeq", "7 INVITE");
                tokio::spawn(async move {
                    tokio::time::sleep(Duration::from_micros(us)).await;
                    let m = make(&inv, 487, 0);
                    for _ in 0..3 {
                        *last.lock().unwrap() = Some(m.clone());
                        let _ = sock.send_to(&m, from).await;
                        tokio::time::sleep(Duration::from_millis(500)).await;
                    }
                });
            }
            continue;
        }
        if started {
            let m = last.lock().unwrap().clone();
            if let Some(m) = m {
                let _ = sock.send_to(&m, from).await;
            }
            continue;
        }
        started = true;
        let (sock, last, fin, steps) = (sock.clone(), last.clone(), fin.clone(), t.steps.clone());
        tokio::spawn(async move {
            for s in steps {
                tokio::time::sleep(Duration::from_micros(s.us)).await;
                if *fin.lock().unwrap() && s.code != 200 && s.us % 3 != 0 {
                    return;
                }
                if s.code >= 200 {
                    *fin.lock().unwrap() = true;
                }
                let m = make(&req, s.code, s.chal);
                *last.lock().unwrap() = Some(m.clone());
                let _ = sock.send_to(&m, from).await;
                if s.more > 0 {
                    let sock = sock.clone();
                    tokio::spawn(async move {
                        for _ in 0..s.more {
                            tokio::time::sleep(Duration::from_millis(500)).await;
                            let _ = sock.send_to(&m, from).await;
                        }
                    });
                }
            }
        });
    }
}

fn run(v: &Value) {
    let p: Plan = serde_json::from_value(v.clone()).unwrap();
    sim::tokio_globals();
    let (px, ds) = (sim::node("10.0.9.1"), sim::node("10.0.9.2"));
    let (tx, mut rx) = tokio::sync::mpsc::unbounded_channel::<(u16, usize, Target)>();
    *SRV.lock().unwrap() = Some(Arc::new(Servers { tx }));
    let (stop, mut stopped) = tokio::sync::mpsc::unbounded_channel::<()>();
    let d = sim::spawn_on(ds, move || {
        sim::runtime().block_on(async move {
            loop {
                tokio::select! {
                    x = rx.recv() => match x {
                        Some((port, _, t)) => drop(tokio::spawn(server(port, t))),
                        None => return,
                    },
                    _ = stopped.recv() => return,
                }
            }
        })
    });
    let a = sim::spawn_on(px, move || {
        sim::runtime().block_on(async move {
            let w = Arc::new(World { svc: ProxyService::new(), sock: UdpSocket::bind("0.0.0.0:5060").await.unwrap(), by_branch: Default::default(), answered: Default::default(), targets: Default::default() });
            let all: Arc<Mutex<Vec<Arc<Ctx>>>> = Default::default();
            let w2 = w.clone();
            let recv = tokio::spawn(async move {
                let mut buf = vec![0u8; 4096];
                while let Ok((n, _)) = w2.sock.recv_from(&mut buf).await {
                    let Some(r) = sip_parse::parse_response(&bytes::Bytes::copy_from_slice(&buf[..n])) else { continue };
                    let Some(branch) = r.headers().get("Via").and_then(|v| msg::param(v, "branch")) else { continue };
                    w2.answered.lock().unwrap().insert(branch.clone());
                    let Some((c, b)) = w2.by_branch.lock().unwrap().get(&branch).cloned() else { continue };
                    tokio::spawn(handle(w2.clone(), c, b, branch, r));
                }
            });
            let span: u64 = p.calls.iter().flat_map(|c| c.targets.iter().map(|t| t.steps.iter().map(|s| s.us).sum::<u64>())).max().unwrap_or(0);
            let seq: u64 = p.calls.iter().map(|c| c.targets.len() as u64).max().unwrap_or(1);
            let one = p.calls.iter().any(|c| c.mode == 1);
            for (ci, c) in p.calls.iter().cloned().enumerate() {
                tokio::spawn(call(w.clone(), ci, c, all.clone()));
            }
            // Long enough for every branch to end: an answer, 32 s without
            // one, or Timer C.
            let mut left = (span / 1_000_000 + 40 + 182) * if one { seq + 1 } else { 1 };
            while left > 0 {
                let s0 = sim::stalled();
                tokio::time::sleep(Duration::from_secs(1)).await;
                if sim::stalled() == s0 {
                    left -= 1;
                }
            }
            recv.abort();
            let _ = stop.send(());
            for c in all.lock().unwrap().iter() {
                judge(c);
            }
        })
    });
    let _ = a.join();
    let _ = d.join();
    *SRV.lock().unwrap() = None;
}

// ---------------------------------------------------------------- reference model
#[derive(Clone, PartialEq, Eq, Hash, Default)]
struct Model {
    /// 0 not there, 1 waiting, 2 waiting with a provisional response, 3 done, 4 cancelled
    br: Vec<u8>,
    cancelled: u64,
    fin: Vec<Option<Fwd>>,
    two: bool,
    six: bool,
    all: bool,
    used: u64,
}
struct Rules<'a> {
    invite: bool,
    channel: &'a [(u64, Fwd)],
    check_fwd: bool,
    check_cancel: bool,
}
impl Model {
    fn cancel_rest(&mut self, w: usize) {
        for (b, s) in self.br.iter_mut().enumerate() {
            if b != w && (*s == 1 || *s == 2) {
                *s = 4;
            }
        }
    }
    /// What a final response that is not lost does: what may be sent on.
    fn final_(&mut self, b: usize, f: Fwd, invite: bool) -> Vec<Fwd> {
        let sent = self.two || self.six || self.all;
        let ok2 = (200..300).contains(&f.code);
        if self.br[b] == 0 || (self.br[b] == 3 && !(ok2 && invite)) {
            return vec![];
        }
        let fresh = self.br[b] != 3;
        self.br[b] = 3;
        if ok2 {
            if invite || !sent {
                self.two = true;
                self.cancel_rest(b);
                return vec![f];
            }
            return vec![];
        }
        debug_assert!(fresh);
        self.fin[b] = Some(f.clone());
        if sent {
            return vec![];
        }
        if f.code >= 600 {
            self.six = true;
            self.cancel_rest(b);
            return vec![f];
        }
        if self.br.iter().any(|s| matches!(s, 1 | 2 | 4)) {
            return vec![];
        }
        self.all = true;
        let best = self.fin.iter().flatten().map(|f| f.code / 100).min().unwrap();
        let mut merged: BTreeSet<String> = BTreeSet::new();
        for f in self.fin.iter().flatten().filter(|f| f.code == 401 || f.code == 407) {
            merged.extend(f.chals.iter().cloned());
        }
        self.fin
            .iter()
            .flatten()
            .filter(|f| f.code / 100 == best)
            .map(|f| {
                let mut f = f.clone();
                if f.code == 401 || f.code == 407 {
                    f.chals = merged.iter().cloned().collect();
                }
                f
            })
            .collect()
    }
    fn step(&self, o: &Op, r: &Rules) -> Option<Model> {
        let mut m = self.clone();
        let fits = |may: &[Fwd], out: &Out| match out {
            Out::Fwd(None) => may.is_empty(),
            Out::Fwd(Some(f)) => may.contains(f),
            _ => true,
        };
        match &o.k {
            K::Resp(b, id, code, chals) => {
                let f = Fwd { code: *code, id: *id, chals: chals.iter().cloned().collect() };
                let may = if *code < 200 {
                    let live = matches!(m.br[*b], 1 | 2);
                    if live {
                        m.br[*b] = 2;
                    }
                    let sent = m.two || m.six || m.all;
                    if sent || !live { vec![] } else { vec![f] }
                } else {
                    m.final_(*b, f, r.invite)
                };
                (!r.check_fwd || fits(&may, &o.out)).then_some(m)
            }
            K::Fail(b) => {
                let may = if matches!(m.br[*b], 1 | 2) { m.final_(*b, Fwd { code: 503, id: 0, chals: vec![] }, r.invite) } else { vec![] };
                (!r.check_fwd || fits(&may, &o.out)).then_some(m)
            }
            K::TimerC(b) => {
                if m.br[*b] != 2 {
                    return Some(m);
                }
                let may = m.final_(*b, Fwd { code: 408, id: 0, chals: vec![] }, r.invite);
                if may.is_empty() || !r.check_fwd {
                    return Some(m);
                }
                let i = (0..r.channel.len()).find(|&i| m.used >> i & 1 == 0 && may.contains(&r.channel[i].1) && r.channel[i].0 >= o.it)?;
                m.used |= 1 << i;
                Some(m)
            }
            K::Build => {
                let mut set = BTreeSet::new();
                for (b, s) in m.br.iter().enumerate() {
                    if matches!(s, 1 | 2 | 4) && m.cancelled >> b & 1 == 0 {
                        set.insert(b);
                    }
                }
                for b in &set {
                    m.cancelled |= 1 << b;
                }
                match &o.out {
                    Out::Cancels(x) if r.check_cancel && *x != set => None,
                    _ => Some(m),
                }
            }
            K::Add(b) => {
                if m.six {
                    return (!r.check_cancel || o.out == Out::Added(false)).then_some(m);
                }
                m.br[*b] = 1;
                m.all = false;
                (!r.check_cancel || o.out == Out::Added(true)).then_some(m)
            }
        }
    }
}
/// Whether some order explains the history; gives up after `budget` states.
fn explain(ops: &[Op], pre: &[u128], m0: &Model, r: &Rules, end: impl Fn(&Model) -> bool, budget: &mut usize) -> Option<bool> {
    let full = if ops.len() == 128 { u128::MAX } else { (1u128 << ops.len()) - 1 };
    let mut seen: HashSet<(u128, Model)> = HashSet::new();
    let mut stack = vec![(0u128, m0.clone())];
    while let Some((done, m)) = stack.pop() {
        if done == full {
            if end(&m) {
                return Some(true);
            }
            continue;
        }
        for i in (0..ops.len()).rev() {
            if done >> i & 1 == 0 && pre[i] & !done == 0 {
                if let Some(n) = m.step(&ops[i], r) {
                    let s = (done | 1 << i, n);
                    if seen.insert(s.clone()) {
                        stack.push(s);
                    }
                }
            }
        }
        if seen.len() > *budget {
            return None;
        }
    }
    Some(false)
}
fn judge(c: &Ctx) {
    let h = c.h.lock().unwrap();
    let ci = c.ci;
    if h.finals == 0 {
        sim::violation("P01", "never-answers", format!("call {ci}: every branch has ended and nothing final was forwarded"));
    }
    sim::probe("answered");
    let mut ops: Vec<Op> = h.ops.clone();
    if let Some(o) = ops.iter().find(|o| o.ret == u64::MAX) {
        sim::violation("P01", "stuck", format!("call {ci}: {:?} does not return", o.k));
        return;
    }
    let slack = 100 * MS + sim::stalled();
    for b in 0..h.branches.len() {
        let prov: Vec<&Op> = h.ops.iter().filter(|o| matches!(&o.k, K::Resp(x, _, c, _) if *x == b && *c < 200)).collect();
        if let (Some(lo), Some(hi)) = (prov.iter().map(|o| o.it).min(), prov.iter().map(|o| o.rt).min()) {
            ops.push(Op { k: K::TimerC(b), after: None, inv: 0, ret: 0, it: lo + TIMER_C - MS, rt: hi + TIMER_C + slack, out: Out::Unknown });
        }
    }
    if ops.len() > 128 || h.branches.len() > 60 || h.channel.len() > 60 {
        sim::probe("too_long");
        return;
    }
    let timer = |o: &Op| matches!(o.k, K::TimerC(_));
    let pre: Vec<u128> = (0..ops.len())
        .map(|i| {
            let mut m = 0u128;
            for j in 0..ops.len() {
                let (a, b) = (&ops[j], &ops[i]);
                let before = if timer(a) || timer(b) { a.rt < b.it } else { a.ret < b.inv };
                if before || b.after == Some(j) {
                    m |= 1 << j;
                }
            }
            m
        })
        .collect();
    let mut m0 = Model { br: vec![0; h.branches.len()], fin: vec![None; h.branches.len()], ..Default::default() };
    for b in 0..h.initial {
        m0.br[b] = 1;
    }
    // What transport failures returned is on the channel too.
    let mut failed: Vec<Fwd> = ops.iter().filter_map(|o| match (&o.k, &o.out) { (K::Fail(_), Out::Fwd(Some(f))) => Some(f.clone()), _ => None }).collect();
    failed.sort();
    let ch = h.channel.clone();
    let all_seen = |m: &Model| {
        let mut rest: Vec<Fwd> = ch.iter().enumerate().filter(|(i, _)| m.used >> i & 1 == 0).map(|x| x.1 .1.clone()).collect();
        rest.sort();
        rest == failed
    };
    let dump = || {
        let mut s = String::new();
        let mut o: Vec<&Op> = ops.iter().filter(|o| !timer(o)).collect();
        o.sort_by_key(|o| o.inv);
        for o in o {
            s.push_str(&format!("\n    {}..{} {:?} -> {:?}", o.inv, o.ret, o.k, o.out));
        }
        for x in &ch {
            s.push_str(&format!("\n    channel at {} ms: {:?}", x.0 / MS, x.1));
        }
        s
    };
    for (prop, f, cn) in [("P01", true, false), ("P02", false, true)] {
        let r = Rules { invite: c.call.invite, channel: &ch, check_fwd: f, check_cancel: cn };
        let mut budget = 60_000;
        match sim::atomic(|| explain(&ops, &pre, &m0, &r, |m| !f || all_seen(m), &mut budget)) {
            Some(true) => sim::probe("explained"),
            Some(false) => sim::violation(prop, "history", format!("call {ci}: no order of these calls gives these results{}", dump())),
            None => sim::probe("undecided"),
        }
    }
    for o in &ops {
        match (&o.k, &o.out) {
            (K::Resp(..), Out::Fwd(Some(f))) if (200..300).contains(&f.code) => sim::probe("forwarded_2xx"),
            (K::Resp(..), Out::Fwd(Some(f))) if f.code >= 600 => sim::probe("forwarded_6xx"),
            (K::Resp(..), Out::Fwd(Some(f))) if f.code >= 300 => sim::probe("forwarded_best"),
            (K::Add(_), Out::Added(false)) => sim::probe("add_refused"),
            (K::Fail(_), _) => sim::probe("transport_failure"),
            (K::Build, Out::Cancels(x)) if !x.is_empty() => sim::probe("cancelled"),
            _ => {}
        }
    }
    if ch.iter().any(|x| x.1.code != 503) {
        sim::probe("timer_c_forwarded");
    }
}

// ---------------------------------------------------------------- P03
#[derive(Serialize, Deserialize, Clone)]
struct CapPlan {
    service: bool,
    /// per caller: (pause before, ms; how many requests; 0 plain, 1 more
    /// targets than allowed, 2 out of hops)
    callers: Vec<Vec<(u64, u32, u8)>>,
}
pub fn cap() -> Scenario {
    Scenario {
        name: "proxycap",
        gen: gen_cap,
        tune: |r, k, _| {
            tune_threads(r, k);
            k.step_limit = 20_000_000;
            if k.preempt_mean != 0 && k.preempt_mean < 3000 {
                k.preempt_mean = 10000;
            }
        },
        run: run_cap,
        real: "sip-proxy (ProxyService, StatefulProxy)",
        stub: "callers, clock",
        deadlock_is_violation: true,
    }
}
const CAP: usize = 10_000;
const KEEP: u64 = 300 * S;
fn gen_cap(r: &mut sim::Rng, _p: &str, _t: Tier) -> Value {
    let callers = (0..*r.pick(&[1, 1, 2, 3]))
        .map(|_| {
            (0..r.range(2, 5))
                .map(|_| {
                    let n = if r.chance(0.5) { r.log(1.0, 3000.0) as u32 } else { r.range(3000, 10_100) as u32 };
                    (*r.pick(&[0, 5, 1000, 150_000, 299_000, 301_000, 400_000]), n, *r.pick(&[0, 0, 0, 1, 2]))
                })
                .collect()
        })
        .collect();
    serde_json::to_value(CapPlan { service: r.chance(0.6), callers }).unwrap()
}
fn run_cap(v: &Value) {
    let p: CapPlan = serde_json::from_value(v.clone()).unwrap();
    let n = sim::node("10.0.9.1");
    let svc = Arc::new(ProxyService::new());
    let st = Arc::new(sip_proxy::stateful::StatefulProxy::new());
    // accepted: invoked, returned; refused likewise
    let log: Arc<Mutex<Vec<(u64, u64, bool, u8)>>> = Default::default();
    let hs: Vec<_> = p
        .callers
        .iter()
        .cloned()
        .enumerate()
        .map(|(ci, ops)| {
            let (svc, st, log, service) = (svc.clone(), st.clone(), log.clone(), p.service);
            sim::spawn_on(n, move || {
                let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
                let text = |k: u32, hops: u32| {
                    msg::text(
                        "INVITE sip:b@example.com SIP/2.0",
                        &[
                            ("Via", format!("SIP/2.0/UDP 10.0.9.9:5060;branch=z9hG4bK{ci}x{k}")),
                            ("Max-Forwards", hops.to_string()),
                            ("From", "<sip:a@example.com>;tag=a".into()),
                            ("To", "<sip:b@example.com>".into()),
                            ("Call-ID", format!("c{ci}x{k}")),
                            ("CSeq", "7 INVITE".into()),
                        ],
                        "",
                    )
                };
                let base = msg::request(&text(0, 70));
                let uri = SipUri::parse("sip:t@10.0.9.2").unwrap();
                let mut k = 0;
                for (pause, n, kind) in ops {
                    sim::sleep_ms(pause);
                    let kind = if service { kind } else { 0 };
                    let n = if kind == 1 { n / 20 + 1 } else { n };
                    for _ in 0..n {
                        k += 1;
                        let mut req = base.clone();
                        let _ = req.headers_mut().set_or_push("Via", format!("SIP/2.0/UDP 10.0.9.9:5060;branch=z9hG4bK{ci}x{k}"));
                        if kind == 2 {
                            let _ = req.headers_mut().set_or_push("Max-Forwards", "0");
                        }
                        let it = sim::now();
                        let ok = if service {
                            let targets = vec![ProxyTarget::new(uri.clone()); if kind == 1 { 51 } else { 1 }];
                            rt.block_on(svc.start_forking(req, targets, "10.0.9.1", "UDP", false, None, ForkMode::Parallel)).is_ok()
                        } else {
                            st.start_context(req, "c".into(), format!("z9hG4bK{ci}x{k}").into(), "10.0.9.1".into(), "UDP".into(), ForkMode::Parallel).is_ok()
                        };
                        log.lock().unwrap().push((it, sim::now(), ok, kind));
                    }
                }
            })
        })
        .collect();
    for h in hs {
        let _ = h.join();
    }
    let log = log.lock().unwrap();
    let callers = p.callers.len();
    let acc: Vec<(u64, u64)> = log.iter().filter(|x| x.2).map(|x| (x.0, x.1)).collect();
    if let Some(x) = log.iter().find(|x| x.2 && x.3 != 0) {
        sim::violation("P03", "accepted", format!("a request that {} is accepted", if x.3 == 1 { "has too many targets" } else { "is out of hops" }));
    }
    // Callers that run at the same time may each see room for one.
    let mut starts: Vec<u64> = acc.iter().map(|a| a.0).collect();
    let mut rets: Vec<u64> = acc.iter().map(|a| a.1).collect();
    starts.sort();
    rets.sort();
    for &(it, rt, ok, kind) in log.iter() {
        if kind != 0 {
            continue;
        }
        let slack = 2 * MS;
        if !ok {
            // whatever may still be kept
            let kept = starts.partition_point(|&s| s <= rt) - rets.partition_point(|&r| r + KEEP + slack < it);
            if kept < CAP {
                sim::violation("P03", "refused", format!("a request is refused with {kept} contexts started in the last 300 s"));
            }
            sim::probe("refused_full");
        }
    }
    if !p.service {
        let kept = st.context_count();
        if kept > CAP + callers {
            sim::violation("P03", "too-many", format!("{kept} contexts"));
        }
    }
    for w in 0..acc.len() {
        // the most that surely are within the window at the same time
        let (it, _) = acc[w];
        let kept = rets.partition_point(|&r| r <= it) - starts.partition_point(|&s| s + KEEP <= it + MS);
        if kept > CAP + callers {
            sim::violation("P03", "too-many", format!("{kept} contexts started within 300 s"));
            break;
        }
    }
    if acc.len() > CAP {
        sim::probe("went_past_cap");
    }
}
