//! U01, U02: two complete user agents (sip-uac and sip-uas over one transaction
//! manager each) on a UDP network that loses, repeats, reorders, delays and
//! partitions until it calms down.
use super::*;
use crate::{sim, slog};
use async_trait::async_trait;
use bytes::Bytes;
use serde::{Deserialize, Serialize};
use sip_core::{Request, Response, SipUri};
use sip_dialog::{Dialog, DialogStateType};
use sip_transaction::fsm::TransportKind;
use sip_transaction::{ServerTransactionHandle, TransactionManager, TransportContext, TransportDispatcher};
use sip_uac::integrated::{IntegratedUAC, UACConfig};
use sip_uas::integrated::{IntegratedUAS, UASConfig, UasRequestHandler};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex, OnceLock};
use std::time::Duration;
use tokio::net::UdpSocket;

const MS: u64 = 1_000_000;
/// 64*T1, the life of a transaction.
const LIFE: u64 = 32_000;
/// Nothing is started or decided by a party later than this, ms.
const CALM: u64 = 9_000;

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Call {
    ms: u64,
    /// the calling side: 0 or 1
    from: usize,
    /// delays of the callee's provisional responses, ms after each other
    ring: Vec<u64>,
    /// then the final response after so many ms
    ans: u64,
    code: u16,
    /// the caller cancels after so many ms
    cancel: Option<u64>,
    /// the callers reads provisional responses
    drain: bool,
    offer: bool,
    /// in-dialog requests the caller sends once connected, gaps in ms
    info: Vec<u64>,
    /// who hangs up (bit 0 caller, bit 1 callee) and when, ms after connecting
    bye: u8,
    bye_ms: u64,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Reg {
    ms: u64,
    expires: u32,
    bad: bool,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Cut {
    ms: u64,
    len: u64,
    /// 0 both directions, 1 or 2 one direction
    dir: u8,
}
#[derive(Serialize, Deserialize, Clone)]
struct Plan {
    auth: bool,
    ttl_ms: u64,
    calls: Vec<Call>,
    regs: Vec<Reg>,
    cuts: Vec<Cut>,
    /// node, ms, length
    stalls: Vec<(usize, u64, u64)>,
}

pub fn calls() -> Scenario {
    Scenario {
        name: "ua",
        gen: |r, _p, _t| gen(r, true),
        tune,
        run,
        real: "sip-uac and sip-uas (integrated), sip-transaction, sip-dialog, sip-auth, sip-sdp, sip-parse, tokio runtime and timers",
        stub: "applications at both ends, UDP transport glue and network",
        deadlock_is_violation: true,
    }
}
pub fn regs() -> Scenario {
    Scenario {
        name: "uareg",
        gen: |r, _p, _t| gen(r, false),
        tune,
        run,
        real: "sip-uac and sip-uas (integrated), sip-registrar, sip-auth, sip-transaction, sip-parse, tokio runtime and timers",
        stub: "applications at both ends, UDP transport glue and network",
        deadlock_is_violation: true,
    }
}
fn tune(r: &mut sim::Rng, k: &mut Knobs, _p: &Value) {
    tune_net(r, k);
    k.lat_ns = k.lat_ns.min(20_000_000);
    k.udp_queue = k.udp_queue.max(64);
    k.stall_max_ns = r.log(1e4, 2e7) as u64;
    k.preempt_mean = *r.pick(&[0, 300, 3000, 10000, 100000]);
    if r.chance(0.3) {
        k.rates[C::UdpDrop as usize] = 0.5;
    }
    if r.chance(0.3) {
        k.jitter_ns = 3_000_000_000;
    }
}

fn gen(r: &mut sim::Rng, calls: bool) -> Value {
    let mut p = Plan { auth: r.chance(if calls { 0.3 } else { 1.0 }), ttl_ms: *r.pick(&[300, 1500, 5000, 300_000]), calls: vec![], regs: vec![], cuts: vec![], stalls: vec![] };
    if calls {
        // an attempt can take as long as the network takes to settle
        p.ttl_ms = p.ttl_ms.max(60_000);
        for _ in 0..*r.pick(&[1, 1, 1, 2, 3]) {
            let ring = match r.below(6) {
                0 => vec![],
                1 => (0..r.range(17, 30)).map(|_| r.below(150)).collect(),
                _ => (0..r.below(4)).map(|_| r.below(1500)).collect::<Vec<_>>(),
            };
            let ans = match r.below(4) {
                0 => 0,
                1 => r.below(50),
                _ => r.below(3000),
            };
            let cancel = r.chance(0.3).then(|| match r.below(3) {
                0 => (ring.iter().sum::<u64>() + ans + r.below(60)).saturating_sub(30),
                _ => r.below(3000),
            });
            p.calls.push(Call {
                ms: r.below(2500),
                from: r.below(2) as usize,
                ring,
                ans,
                code: *r.pick(&[200, 200, 200, 200, 486, 603]),
                cancel,
                drain: r.chance(0.5),
                offer: r.chance(0.7),
                info: (0..if r.chance(0.4) { r.range(1, 3) } else { 0 }).map(|_| r.below(800)).collect(),
                bye: if r.chance(0.3) { 0 } else { r.range(1, 3) as u8 },
                bye_ms: *r.pick(&[0, 0, 1, 40, 500, 2000]) + r.below(30),
            });
        }
    } else {
        let mut ms = r.below(100);
        for _ in 0..r.range(1, 5) {
            p.regs.push(Reg { ms, expires: if r.chance(0.3) { 0 } else { 3600 }, bad: r.chance(0.2) });
            ms = if r.chance(0.5) { 0 } else { r.below(2000) };
        }
        // the last one is tried when the network has settled
        p.regs.push(Reg { ms: CALM, expires: if r.chance(0.4) { 0 } else { 3600 }, bad: r.chance(0.2) });
    }
    for _ in 0..r.below(4) {
        let ms = r.below(6000);
        p.cuts.push(Cut { ms, len: r.range(50, 3000), dir: r.below(3) as u8 });
    }
    for _ in 0..if r.chance(0.3) { 2 } else { 0 } {
        p.stalls.push((r.below(2) as usize, r.below(6000), r.range(10, 2500)));
    }
    serde_json::to_value(p).unwrap()
}

// ------------------------------------------------------------------- history
#[derive(Default)]
struct CallLog {
    /// on_invite: branch, CSeq
    invites: Vec<(String, u32)>,
    /// what the callee decided and whether its stack took it
    decided: Option<u16>,
    accepted: bool,
    acks: u64,
    infos: Vec<u32>,
    byes: Vec<(usize, u32)>,
    /// the caller's outcome
    fin: Option<Result<u16, String>>,
    provs: u64,
    cancel_at: Option<u64>,
    /// had a provisional response, on a calm network, when it cancelled
    cancel_sure: bool,
    cancel_res: Option<Result<u16, String>>,
    info_res: Vec<Result<u16, String>>,
    /// (side, result)
    bye_res: Vec<(usize, Result<u16, String>)>,
    call_id: String,
    done: BTreeSet<u8>,
}
struct World {
    p: Plan,
    ua: [OnceLock<Ua>; 2],
    log: Vec<Mutex<CallLog>>,
    /// wire: (side, Call-ID, CSeq, method, branch) of requests, in order of first sending
    wire: Mutex<Vec<(usize, String, u32, String, String)>>,
    /// digest credentials sent: nonce, nc -> branch
    creds: Mutex<BTreeMap<(String, String), String>>,
    regs: Mutex<Vec<(Reg, Result<u16, String>, usize)>>,
    /// To tag, by side and branch and method of the request answered
    tags: Mutex<BTreeMap<(usize, String, String), String>>,
}
struct Ua {
    uac: IntegratedUAC,
    bad: IntegratedUAC,
    uas: Arc<IntegratedUAS>,
    reg: sip_registrar::BasicRegistrar<sip_registrar::MemoryLocationStore, Auth>,
}
type Auth = sip_auth::DigestAuthenticator<sip_auth::MemoryCredentialStore>;
type W = Arc<World>;

struct Disp {
    w: W,
    side: usize,
    sock: Arc<UdpSocket>,
}
#[async_trait]
impl TransportDispatcher for Disp {
    async fn dispatch(&self, ctx: &TransportContext, payload: Bytes) -> anyhow::Result<()> {
        if let Some(req) = sip_parse::parse_request(&payload) {
            self.w.sent(self.side, &req);
        }
        if let Some(r) = sip_parse::parse_response(&payload) {
            self.w.answered(self.side, &r);
        }
        if sim::logging() {
            slog!("{} sends {}", self.side, brief(&payload));
        }
        self.sock.send_to(&payload, ctx.peer()).await?;
        Ok(())
    }
}
fn brief(b: &[u8]) -> String {
    let s = String::from_utf8_lossy(b);
    let mut o = s.lines().next().unwrap_or("").to_string();
    for l in s.lines() {
        if l.starts_with("CSeq") || l.starts_with("To:") || l.starts_with("Via") {
            o.push_str(" | ");
            o.push_str(l);
        }
    }
    o
}
fn cseq(r: &sip_core::Headers) -> u32 {
    r.get("CSeq").and_then(|v| v.split_whitespace().next()).and_then(|n| n.parse().ok()).unwrap_or(0)
}
fn branch(r: &sip_core::Headers) -> String {
    r.get("Via").and_then(|v| msg::param(v, "branch")).unwrap_or_default()
}
/// The call a request belongs to: "c3" in its To, or the Call-ID of a call that
/// is known already.
fn call_no(w: &World, r: &Request) -> Option<usize> {
    let pick = |s: &str| s.split("sip:c").nth(1).and_then(|t| t.split('@').next()).and_then(|t| t.parse::<usize>().ok());
    let id = r.headers().get("Call-ID").unwrap_or("");
    pick(r.headers().get("To").unwrap_or("")).or_else(|| w.log.iter().position(|l| l.lock().unwrap().call_id == id))
}
impl World {
    fn sent(&self, side: usize, req: &Request) {
        let h = req.headers();
        let (id, n, m, br) = (h.get("Call-ID").unwrap_or("").to_string(), cseq(h), req.method().as_str().to_string(), branch(h));
        {
            let mut w = self.wire.lock().unwrap();
            if w.iter().any(|x| x.0 == side && x.4 == br && x.3 == m) {
                return;
            }
            w.push((side, id, n, m.clone(), br.clone()));
        }
        if m != "CANCEL" && m != "ACK" {
            let all: Vec<_> = h.get_all("Authorization").map(|s| s.to_string()).collect();
            if all.len() > 1 {
                sim::violation("U02", "two-credentials", format!("a {m} carries {} Authorization headers", all.len()));
            }
            for a in all {
                let k = (msg::dparam(&a, "nonce").unwrap_or_default(), msg::dparam(&a, "nc").unwrap_or_default());
                let mut c = self.creds.lock().unwrap();
                if let Some(b) = c.get(&k) {
                    if *b != br {
                        sim::violation("U02", "credentials-reused", format!("{m} {br} carries nonce {} count {} of {b}", k.0, k.1));
                    }
                }
                c.insert(k, br.clone());
            }
        }
    }
    /// RFC 3261 8.2.6.2: all responses to one request carry one To tag.
    fn answered(&self, side: usize, r: &Response) {
        let h = r.headers();
        let m = h.get("CSeq").and_then(|v| v.split_whitespace().nth(1)).unwrap_or("").to_string();
        if r.code() == 100 {
            return;
        }
        let tag = h.get("To").and_then(|v| msg::param(v, "tag"));
        let br = branch(h);
        let Some(tag) = tag else {
            sim::violation("U01", "no-to-tag", format!("side {side} answers {m} {br} with {} and no To tag", r.code()));
            return;
        };
        let mut t = self.tags.lock().unwrap();
        let old = t.entry((side, br.clone(), m.clone())).or_insert_with(|| tag.clone());
        if *old != tag {
            sim::violation("U01", "two-to-tags", format!("side {side} answers {m} {br} with tag {old}, then {} with {tag}", r.code()));
        }
    }
    fn ua(&self, i: usize) -> &Ua {
        self.ua[i].get().unwrap()
    }
}

// ------------------------------------------------------------------ the callee
struct App {
    w: W,
    side: usize,
}
#[async_trait]
impl UasRequestHandler for App {
    async fn on_invite(&self, request: &Request, handle: ServerTransactionHandle, ctx: &TransportContext, dialog: Option<&Dialog>) -> anyhow::Result<()> {
        let Some(c) = call_no(&self.w, request) else { return Ok(()) };
        let w = &self.w;
        let plan = w.p.calls[c].clone();
        let (b, n) = (branch(request.headers()), cseq(request.headers()));
        slog!("call {c}: on_invite {b} {n}");
        {
            let mut l = w.log[c].lock().unwrap();
            if dialog.is_some() {
                sim::violation("U01", "dialog-before-answer", format!("call {c}: a first INVITE is said to be in a dialog"));
            }
            if l.invites.iter().any(|x| x.1 == n) {
                sim::violation("U01", "call-seen-twice", format!("call {c}: the application is offered INVITE {n} {b} again: {:?}", l.invites));
                return Ok(());
            }
            l.invites.push((b, n));
        }
        let uas = w.ua(self.side).uas.clone();
        for g in &plan.ring {
            tokio::time::sleep(Duration::from_millis(*g)).await;
            let mut r = uas.helper().lock().await.create_ringing(request);
            uas.prepare_response(&mut r, ctx).await;
            handle.send_provisional(r).await;
        }
        tokio::time::sleep(Duration::from_millis(plan.ans)).await;
        if plan.code != 200 {
            let mut r = sip_uas::UserAgentServer::reject_invite(request, plan.code, "No");
            uas.prepare_response(&mut r, ctx).await;
            w.log[c].lock().unwrap().decided = Some(plan.code);
            handle.send_final(r).await;
            return Ok(());
        }
        let body = plan.offer.then_some("v=0\r\no=- 1 1 IN IP4 10.0.8.2\r\ns=-\r\nc=IN IP4 10.0.8.2\r\nt=0 0\r\nm=audio 4000 RTP/AVP 0\r\n");
        w.log[c].lock().unwrap().decided = Some(200);
        match uas.accept_invite(request, &handle, ctx, body).await {
            Ok(d) => {
                w.log[c].lock().unwrap().accepted = true;
                slog!("call {c}: accepted");
                if plan.bye & 2 != 0 {
                    let (w, side) = (w.clone(), self.side);
                    tokio::spawn(async move {
                        // RFC 3261 15: not before the ACK
                        for _ in 0..3000 {
                            if w.log[c].lock().unwrap().acks > 0 {
                                break;
                            }
                            tokio::time::sleep(Duration::from_millis(20)).await;
                        }
                        tokio::time::sleep(Duration::from_millis(plan.bye_ms)).await;
                        bye(&w, c, side, &d).await;
                        w.log[c].lock().unwrap().done.insert(2);
                    });
                }
            }
            Err(e) => slog!("call {c}: not accepted: {e}"),
        }
        Ok(())
    }
    async fn on_ack(&self, request: &Request, dialog: &Dialog) -> anyhow::Result<()> {
        if let Some(c) = call_no(&self.w, request) {
            let l = self.w.log[c].lock().unwrap();
            let inv = l.invites.iter().map(|x| x.1).max().unwrap_or(0);
            if cseq(request.headers()) != inv || dialog.state() != DialogStateType::Confirmed {
                sim::violation("U01", "wrong-ack", format!("call {c}: ACK {} for INVITE {inv}, dialog {:?}", cseq(request.headers()), dialog.state()));
            }
        }
        Ok(())
    }
    async fn on_bye(&self, request: &Request, handle: ServerTransactionHandle, ctx: &TransportContext, dialog: &Dialog) -> anyhow::Result<()> {
        let Some(c) = call_no(&self.w, request) else { return Ok(()) };
        {
            let mut l = self.w.log[c].lock().unwrap();
            let k = (self.side, cseq(request.headers()));
            if l.byes.contains(&k) {
                sim::violation("U01", "bye-seen-twice", format!("call {c}: BYE {k:?} reaches the application again"));
            }
            l.byes.push(k);
        }
        let uas = self.w.ua(self.side).uas.clone();
        // one application in two leaves the dialog table to the stack
        let mut r = if c % 2 == 0 {
            uas.helper().lock().await.handle_bye(request, dialog)?
        } else {
            sip_uas::UserAgentServer::create_response(request, 200, "OK")
        };
        uas.prepare_response(&mut r, ctx).await;
        handle.send_final(r).await;
        Ok(())
    }
    async fn on_info(&self, request: &Request, handle: ServerTransactionHandle, dialog: &Dialog) -> anyhow::Result<()> {
        let Some(c) = call_no(&self.w, request) else { return Ok(()) };
        {
            let mut l = self.w.log[c].lock().unwrap();
            let n = cseq(request.headers());
            if l.infos.last().is_some_and(|x| *x >= n) {
                sim::violation("U01", "info-order", format!("call {c}: INFO {n} after {:?}", l.infos));
            }
            l.infos.push(n);
        }
        let uas = self.w.ua(self.side).uas.clone();
        let r = uas.helper().lock().await.handle_info(request, dialog)?;
        handle.send_final(r).await;
        Ok(())
    }
    async fn on_register(&self, request: &Request, handle: ServerTransactionHandle) -> anyhow::Result<()> {
        let r = self.w.ua(self.side).reg.handle_register_async(request).await?;
        slog!("registrar answers {} to CSeq {}", r.code(), cseq(request.headers()));
        handle.send_final(r).await;
        Ok(())
    }
}

// ------------------------------------------------------------------ the caller
fn flat(r: anyhow::Result<Response>) -> Result<u16, String> {
    r.map(|r| r.code()).map_err(|e| e.to_string())
}
/// Runs an operation of a user agent and judges how long it may take.
async fn bounded<T>(what: String, txs: u64, f: impl std::future::Future<Output = T>) -> T {
    let (t0, s0) = (sim::now(), sim::stalled());
    let r = f.await;
    let d = (sim::now() - t0).saturating_sub(sim::stalled() - s0) / MS;
    // a partition does not stop the clock; a stalled node does
    if d > txs * LIFE + 8_000 {
        sim::violation("U01", "late-outcome", format!("{what} took {d} ms"));
    }
    r
}
async fn bye(w: &W, c: usize, side: usize, d: &Dialog) {
    slog!("call {c}: side {side} hangs up");
    let n = if w.p.auth { 3 } else { 1 };
    let r = bounded(format!("call {c}: BYE"), n, w.ua(side).uac.bye(d)).await;
    let r = flat(r);
    slog!("call {c}: BYE of side {side} gives {r:?}");
    w.log[c].lock().unwrap().bye_res.push((side, r));
}
async fn caller(w: W, c: usize) {
    let p = w.p.calls[c].clone();
    tokio::time::sleep(Duration::from_millis(p.ms)).await;
    let ua = w.ua(p.from);
    let sdp = p.offer.then_some("v=0\r\no=- 1 1 IN IP4 10.0.8.1\r\ns=-\r\nc=IN IP4 10.0.8.1\r\nt=0 0\r\nm=audio 4000 RTP/AVP 0\r\n");
    let to = SipUri::parse(&format!("sip:c{c}@10.0.8.{}:5060", 2 - p.from)).unwrap();
    let h = match ua.uac.invite(to, sdp).await {
        Ok(h) => Arc::new(h),
        Err(e) => {
            sim::violation("U01", "invite-refused", format!("call {c}: {e}"));
            return;
        }
    };
    w.log[c].lock().unwrap().call_id = h.invite_request().await.headers().get("Call-ID").unwrap_or("").to_string();
    slog!("call {c}: invited, {}", w.log[c].lock().unwrap().call_id);
    if p.drain {
        let (h, w) = (h.clone(), w.clone());
        tokio::spawn(async move {
            while let Some(r) = h.await_provisional().await {
                slog!("call {c}: provisional {}", r.code());
                w.log[c].lock().unwrap().provs += 1;
            }
        });
    }
    if let Some(ms) = p.cancel {
        let (h, w) = (h.clone(), w.clone());
        tokio::spawn(async move {
            tokio::time::sleep(Duration::from_millis(ms)).await;
            {
                let mut l = w.log[c].lock().unwrap();
                if l.fin.is_some() {
                    return;
                }
                l.cancel_at = Some(sim::now());
                l.cancel_sure = l.provs > 0 && !w.p.auth;
            }
            slog!("call {c}: cancels");
            let r = flat(bounded(format!("call {c}: CANCEL"), 1, h.cancel()).await);
            slog!("call {c}: CANCEL gives {r:?}");
            w.log[c].lock().unwrap().cancel_res = Some(r);
        });
    }
    let n = if w.p.auth { 3 } else { 1 };
    let fin = bounded(format!("call {c}: INVITE"), n, h.await_final()).await;
    slog!("call {c}: final {:?}", fin.as_ref().map(|r| r.code()).map_err(|e| e.to_string()));
    let ok = fin.as_ref().is_ok_and(|r| r.code() / 100 == 2);
    w.log[c].lock().unwrap().fin = Some(flat(fin));
    if ok {
        let cancelled = w.log[c].lock().unwrap().cancel_at.is_some();
        for g in &p.info {
            tokio::time::sleep(Duration::from_millis(*g)).await;
            let r = {
                let mut d = h.dialog.write().await;
                bounded(format!("call {c}: INFO"), n, ua.uac.send_info(&mut d, "application/dtmf-relay", "Signal=1\r\n")).await
            };
            slog!("call {c}: INFO gives {:?}", r.as_ref().map(|r| r.code()).map_err(|e| e.to_string()));
            w.log[c].lock().unwrap().info_res.push(flat(r));
        }
        if p.bye & 1 != 0 || cancelled {
            if !cancelled {
                tokio::time::sleep(Duration::from_millis(p.bye_ms)).await;
            }
            let d = h.dialog.read().await.clone();
            bye(&w, c, p.from, &d).await;
        }
    }
    w.log[c].lock().unwrap().done.insert(1);
}
async fn registers(w: W) {
    for r in w.p.regs.clone() {
        tokio::time::sleep(Duration::from_millis(r.ms)).await;
        let from = w.wire.lock().unwrap().len();
        let ua = w.ua(0);
        let uac = if r.bad { &ua.bad } else { &ua.uac };
        let res = flat(bounded("REGISTER".into(), 3, uac.register(SipUri::parse("sip:10.0.8.2:5060").unwrap(), Some(r.expires))).await);
        let n = w.wire.lock().unwrap()[from..].iter().filter(|x| x.3 == "REGISTER").count();
        slog!("REGISTER {r:?} gives {res:?} after {n} requests");
        w.regs.lock().unwrap().push((r, res, n));
    }
}

async fn glue(w: W, side: usize, sock: Arc<UdpSocket>, tm: TransactionManager) {
    let mut buf = vec![0u8; 65536];
    loop {
        let Ok((n, from)) = sock.recv_from(&mut buf).await else { continue };
        let b = Bytes::copy_from_slice(&buf[..n]);
        if sim::logging() {
            slog!("{side} gets {}", brief(&b));
        }
        let (w, tm) = (w.clone(), tm.clone());
        if let Some(req) = sip_parse::parse_request(&b) {
            if req.method().as_str() == "ACK" {
                if let Some(c) = call_no(&w, &req) {
                    let mut l = w.log[c].lock().unwrap();
                    // not the ACK of a challenge or a refusal
                    if l.invites.iter().any(|i| i.1 == cseq(req.headers()) && i.0 != branch(req.headers())) {
                        l.acks += 1;
                    }
                }
            }
            let ctx = TransportContext::new(TransportKind::Udp, from, None);
            let handle = tm.receive_request(req.clone(), ctx.clone()).await;
            if handle.is_retransmission() {
                continue;
            }
            tokio::spawn(async move {
                let uas = w.ua(side).uas.clone();
                if let Err(e) = uas.dispatch(&req, handle, &ctx).await {
                    slog!("dispatch: {e}");
                }
            });
        } else if let Some(r) = sip_parse::parse_response(&b) {
            tm.receive_response(r).await;
        } else {
            sim::violation("U01", "unreadable", format!("side {side} is sent {:?}", String::from_utf8_lossy(&b)));
        }
    }
}
async fn start(w: W, side: usize) {
    let sock = Arc::new(UdpSocket::bind("0.0.0.0:5060").await.unwrap());
    let disp: Arc<dyn TransportDispatcher> = Arc::new(Disp { w: w.clone(), side, sock: sock.clone() });
    let tm = TransactionManager::new(disp.clone());
    let ip = format!("10.0.8.{}", side + 1);
    let addr = format!("{ip}:5060");
    let uri = format!("sip:u{side}@{ip}:5060");
    let auth = || {
        let mut s = sip_auth::MemoryCredentialStore::new();
        for u in ["u0", "u1"] {
            s.add(sip_auth::Credentials::new(u, "pw", "sim"));
        }
        sip_auth::DigestAuthenticator::new("sim", s).with_nonce_ttl(Duration::from_millis(w.p.ttl_ms))
    };
    let mut b = IntegratedUAS::builder()
        .local_uri(&uri)
        .unwrap()
        .contact_uri(&uri)
        .unwrap()
        .local_addr(&addr)
        .unwrap()
        .transaction_manager(Arc::new(tm.clone()))
        .dispatcher(disp.clone())
        .request_handler(Arc::new(App { w: w.clone(), side }));
    if w.p.auth && !w.p.calls.is_empty() {
        b = b.authenticator(Arc::new(auth())).config(UASConfig { require_authentication: true, ..Default::default() });
    }
    let uas = Arc::new(b.build().unwrap());
    let uac = |pw: &str| {
        IntegratedUAC::builder()
            .local_uri(&uri)
            .unwrap()
            .contact_uri(&uri)
            .unwrap()
            .local_addr(&addr)
            .unwrap()
            .transaction_manager(Arc::new(tm.clone()))
            .dispatcher(disp.clone())
            .resolver(Arc::new(sip_dns::SipResolver::with_config(hickory_resolver::config::ResolverConfig::from_parts(None, vec![], vec![]), Default::default()).unwrap()))
            .dialog_manager(uas.dialog_manager())
            .credentials(format!("u{side}"), pw)
            .config(UACConfig { auto_dns_resolution: false, ..Default::default() })
            .build()
            .unwrap()
    };
    let reg = sip_registrar::BasicRegistrar::new(sip_registrar::MemoryLocationStore::new(), Some(auth()));
    let _ = w.ua[side].set(Ua { uac: uac("pw"), bad: uac("wrong"), uas: uas.clone(), reg });
    tokio::spawn(glue(w, side, sock, tm));
}

fn run(v: &Value) {
    let p: Plan = serde_json::from_value(v.clone()).unwrap();
    sim::tokio_globals();
    let nodes = [sim::node("10.0.8.1"), sim::node("10.0.8.2")];
    let w: W = Arc::new(World {
        log: p.calls.iter().map(|_| Default::default()).collect(),
        p: p.clone(),
        ua: Default::default(),
        wire: Default::default(),
        creds: Default::default(),
        regs: Default::default(),
        tags: Default::default(),
    });
    for c in &p.cuts {
        let (ms, len, dir) = (c.ms, c.len, c.dir);
        let (a, b) = if dir == 2 { (nodes[1], nodes[0]) } else { (nodes[0], nodes[1]) };
        sim::at(Duration::from_millis(ms), move || sim::cut(a, b, dir == 0));
        sim::at(Duration::from_millis((ms + len).min(CALM)), sim::heal);
    }
    for &(n, ms, len) in &p.stalls {
        let n = nodes[n];
        sim::at(Duration::from_millis(ms), move || sim::stall_node(n, Duration::from_millis(len)));
    }
    sim::at(Duration::from_millis(CALM), sim::net_calm);
    let ready = Arc::new(std::sync::Barrier::new(3));
    let stop = Arc::new(std::sync::atomic::AtomicBool::new(false));
    let hs: Vec<_> = (0..2)
        .map(|side| {
            let (w, ready, stop) = (w.clone(), ready.clone(), stop.clone());
            sim::spawn_on(nodes[side], move || {
                sim::runtime().block_on(async move {
                    start(w.clone(), side).await;
                    ready.wait();
                    for (c, p) in w.p.calls.iter().enumerate() {
                        if p.from == side {
                            tokio::spawn(caller(w.clone(), c));
                        }
                    }
                    if side == 0 && !w.p.regs.is_empty() {
                        let w = w.clone();
                        tokio::spawn(async move {
                            registers(w).await;
                        });
                    }
                    while !stop.load(std::sync::atomic::Ordering::Relaxed) {
                        tokio::time::sleep(Duration::from_millis(500)).await;
                    }
                });
            })
        })
        .collect();
    ready.wait();
    // long enough for every transaction, retry and lingering 2xx
    let regs = p.regs.len() as u64;
    let end = CALM + 3 * LIFE + 3 * LIFE * (p.auth as u64) * 2 + 80_000 + regs * (3 * LIFE + 10_000);
    while sim::now() < end * MS {
        sim::sleep_ms(2_000);
        let n = |c: usize| {
            let l = w.log[c].lock().unwrap();
            l.done.contains(&1) && (p.calls[c].bye & 2 == 0 || !l.accepted || l.done.contains(&2)) && (l.cancel_at.is_none() || l.cancel_res.is_some())
        };
        if sim::now() > (CALM + 60_000) * MS && (0..p.calls.len()).all(n) && w.regs.lock().unwrap().len() == p.regs.len() {
            // what lingers does no harm
            sim::sleep_ms(40_000);
            break;
        }
    }
    judge(&w);
    stop.store(true, std::sync::atomic::Ordering::Relaxed);
    for h in hs {
        let _ = h.join();
    }
}

fn judge(w: &W) {
    let p = &w.p;
    let bad = |c: &str, d: String| sim::violation("U01", c, d);
    for (c, pl) in p.calls.iter().enumerate() {
        let l = w.log[c].lock().unwrap();
        let (a, b) = (pl.from, 1 - pl.from);
        let Some(fin) = &l.fin else {
            bad("no-outcome", format!("call {c}: the caller never learned the outcome ({} provisionals read)", l.provs));
            continue;
        };
        if l.cancel_at.is_some() && l.cancel_res.is_none() {
            bad("no-outcome", format!("call {c}: the CANCEL never ended"));
        }
        // the network settled long before anything gives up
        match fin {
            Ok(487) if l.cancel_at.is_some() => sim::probe("cancelled"),
            Ok(x) if Some(*x) == l.decided => {
                sim::probe(if *x == 200 { "answered" } else { "declined" });
                if l.cancel_sure && l.cancel_at.unwrap() > (CALM + 500) * MS {
                    sim::probe("cancel_missed");
                }
            }
            f => bad("wrong-outcome", format!("call {c}: the caller is told {f:?}, the callee decided {:?} (cancelled: {})", l.decided, l.cancel_at.is_some())),
        }
        let up = *fin == Ok(200);
        if up && !l.accepted {
            bad("wrong-outcome", format!("call {c}: the caller is told 200, the callee's stack refused to accept"));
        }
        if up && l.acks == 0 && !l.byes.iter().any(|x| x.0 == b) {
            bad("no-ack", format!("call {c}: answered, but the callee saw no ACK"));
        }
        for r in &l.info_res {
            // the callee may have hung up meanwhile
            let gone = pl.bye & 2 != 0 && *r != Ok(200);
            if *r != Ok(200) && !gone {
                bad("in-dialog-failed", format!("call {c}: an INFO ended {r:?}"));
            }
        }
        for (s, r) in &l.bye_res {
            let glare = l.bye_res.len() > 1 || l.byes.iter().any(|x| x.0 == *s);
            if *r != Ok(200) && !(glare && *r == Ok(481)) {
                bad("bye-failed", format!("call {c}: the BYE of side {s} ended {r:?}"));
            }
        }
        if pl.bye & 2 != 0 && l.accepted && !l.done.contains(&2) || !l.done.contains(&1) {
            bad("no-outcome", format!("call {c}: a request never ended, done {:?}", l.done));
        }
        // who holds what
        let held = |s: usize| -> Vec<Dialog> {
            let dm = w.ua(s).uas.dialog_manager();
            let mut v: Vec<Dialog> = dm.all_ids().into_iter().filter(|i| i.call_id() == l.call_id).filter_map(|i| dm.get(&i)).filter(|d| d.state() != DialogStateType::Terminated).collect();
            v.sort_by_key(|d| (d.id().local_tag().to_string(), d.id().remote_tag().to_string()));
            v
        };
        let (da, db) = (held(a), held(b));
        let show = |v: &Vec<Dialog>| v.iter().map(|d| format!("{:?} {}/{}", d.state(), d.id().local_tag(), d.id().remote_tag())).collect::<Vec<_>>();
        if da.iter().chain(&db).any(|d| d.state() == DialogStateType::Early) {
            bad("early-left", format!("call {c} ended {fin:?}; early dialogs remain: caller {:?}, callee {:?}", show(&da), show(&db)));
            continue;
        }
        let hung = !l.bye_res.is_empty();
        let want = usize::from(up && !hung);
        if da.len() != want || db.len() != want {
            bad(
                if hung { "dialog-after-bye" } else { "disagree" },
                format!("call {c} ended {fin:?}, callee accepted {}, hung up {:?}: caller holds {:?}, callee {:?}", l.accepted, l.bye_res, show(&da), show(&db)),
            );
            continue;
        }
        if want == 1 {
            sim::probe("in_agreement");
            let (x, y) = (da[0].id(), db[0].id());
            if x.local_tag() != y.remote_tag() || x.remote_tag() != y.local_tag() || !da[0].is_uac() || db[0].is_uac() {
                bad("disagree", format!("call {c}: caller holds {:?}, callee {:?}", show(&da), show(&db)));
            }
        }
    }
    // CSeq within one Call-ID and direction
    let mut last: BTreeMap<(usize, String), (u32, String)> = BTreeMap::new();
    for (s, id, n, m, _) in w.wire.lock().unwrap().iter() {
        if m == "ACK" || m == "CANCEL" {
            continue;
        }
        let prop = if m == "REGISTER" { "U02" } else { "U01" };
        if let Some((o, om)) = last.insert((*s, id.clone()), (*n, m.clone())) {
            if o >= *n {
                sim::violation(prop, "cseq-reused", format!("side {s} sends {m} {n} after {om} {o} under one Call-ID"));
            }
        }
    }
    // registrations
    let bad = |c: &str, d: String| sim::violation("U02", c, d);
    let rs = w.regs.lock().unwrap();
    if rs.len() < p.regs.len() {
        bad("no-outcome", format!("{} of {} REGISTERs ended", rs.len(), p.regs.len()));
        return;
    }
    let mut known = Some(false);
    for (i, (r, res, n)) in rs.iter().enumerate() {
        if *n > 3 {
            bad("too-many-attempts", format!("REGISTER {i} was sent as {n} requests"));
        }
        match res {
            Ok(200) if r.bad => bad("wrong-password", format!("REGISTER {i} with a wrong password succeeds")),
            Ok(200) => known = Some(r.expires > 0),
            Ok(401) if r.bad => sim::probe("refused"),
            Ok(401) => {
                // every nonce it was given expired on the way
                sim::probe("stale_all_the_way");
                if p.ttl_ms >= 5_000 * 12 {
                    bad("refused", format!("REGISTER {i} with the right password ends {res:?}"));
                }
            }
            Err(_) => {
                sim::probe("register_timeout");
                if !r.bad {
                    known = None;
                }
            }
            x => bad("refused", format!("REGISTER {i} {r:?} ends {x:?}")),
        }
    }
    if let Some((r, res, _)) = rs.last() {
        let calm = p.ttl_ms >= 200 || *res == Ok(200);
        if calm && *res != Ok(if r.bad { 401 } else { 200 }) {
            bad("not-registered", format!("on a settled network REGISTER {r:?} ends {res:?}"));
        }
    }
    if let Some(k) = known.filter(|_| !p.regs.is_empty()) {
        let bs = w.ua(1).reg.location_store().lookup("sip:u0@10.0.8.1:5060").unwrap_or_default();
        let bs = if bs.is_empty() { w.ua(1).reg.location_store().lookup("sip:u0@10.0.8.1").unwrap_or_default() } else { bs };
        sim::probe(if k { "bound" } else { "unbound" });
        if (bs.len() == 1) != k || bs.len() > 1 {
            bad("binding", format!("the client was told {}, the registrar holds {:?}", if k { "registered" } else { "not registered" }, bs.iter().map(|b| b.contact().to_string()).collect::<Vec<_>>()));
        }
    }
}
