//! D01 (sequence numbers), D02 (tables), D03 (PRACK), D04 (session timers).
use super::*;
macro_rules! counters {
    ($class:expr, $($rest:tt)*) => {
        ensure_that!("D02", $class, $($rest)*);
        ensure_that!("O01", $class, $($rest)*);
    };
}
use crate::{ensure_that, sim, slog};
use serde::{Deserialize, Serialize};
use sip_core::{Request, SipUri};
use sip_dialog::prack_validator::PrackValidator;
use sip_dialog::session_timer_manager::{SessionTimerEvent, SessionTimerManager};
use sip_dialog::storage::{DialogStore, InMemoryDialogStore};
use sip_dialog::{Dialog, DialogId, DialogManager, DialogStateType, RSeqManager, Subscription, SubscriptionId, SubscriptionManager, SubscriptionState};
use smol_str::SmolStr;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::future::poll_fn;
use std::sync::{Arc, Mutex};
use std::time::Duration;

// ---------------------------------------------------------------- D01

#[derive(Serialize, Deserialize, Clone)]
struct SeqOp {
    peer: usize,
    gap_us: u64,
    kind: String,
    n: u64,
    contact: bool,
}
#[derive(Serialize, Deserialize, Clone)]
struct SeqPlan {
    early: bool,
    first: u32,
    ops: Vec<SeqOp>,
}
pub fn seq_scenario() -> Scenario {
    Scenario {
        name: "dialogseq",
        gen: gen_seq,
        tune: |r, k, _| tune_net(r, k),
        run: run_seq,
        real: "sip-dialog (Dialog, DialogManager), sip-parse, sip-core, tokio",
        stub: "the two user agents around the dialog; UDP network simulated",
        deadlock_is_violation: true,
    }
}
fn gen_seq(r: &mut sim::Rng, _p: &str, _t: Tier) -> Value {
    let mut ops = Vec::new();
    let burst = r.chance(0.4);
    for _ in 0..r.range(4, 40) {
        let kind = match r.below(20) {
            0..=5 => "INFO",
            6..=9 => "INVITE",
            10..=13 => "ACK",
            14 => "UPDATE",
            15 => "resend",
            16 => "back",
            17 => "skip",
            18 => *r.pick(&["jump", "advance"]),
            _ => *r.pick(&["zero", "huge", "nocseq", "ackany", "badto"]),
        };
        ops.push(SeqOp { peer: r.below(2) as usize, gap_us: if burst { r.below(2000) } else { r.log(100.0, 2e6) as u64 }, kind: kind.into(), n: r.below(1200), contact: r.chance(0.6) });
    }
    let first = *r.pick(&[1, 2, 314159, 2147483000, 7]);
    serde_json::to_value(SeqPlan { early: r.chance(0.5), first, ops }).unwrap()
}

const AIP: &str = "10.0.1.1";
const BIP: &str = "10.0.1.2";

fn uri(s: &str) -> SipUri {
    SipUri::parse(s).unwrap()
}
fn dbg_dialog(d: &Dialog) -> String {
    format!("{d:?}")
}
struct SeqModel {
    remote: u32,
    invite: u32,
    target: String,
}
/// One endpoint: its dialog table and the model of its dialog.
struct Peer {
    me: usize,
    mgr: DialogManager,
    id: DialogId,
    m: SeqModel,
    /// requests sent, newest last
    sent: Vec<String>,
    sent_cseqs: Vec<u32>,
    last_invite: u32,
    contact_no: u32,
}
impl Peer {
    fn request_text(&mut self, method: &str, cseq: Option<String>, contact: bool, bad: bool) -> String {
        let (me, other) = if self.me == 0 { ("alice", "bob") } else { ("bob", "alice") };
        let mut hs = vec![
            ("Via", format!("SIP/2.0/UDP {};branch=z9hG4bK{}{}", if self.me == 0 { AIP } else { BIP }, self.me, self.sent.len())),
            ("Max-Forwards", "70".to_string()),
            ("From", format!("<sip:{me}@example.com>;tag={}", if self.me == 0 { "at" } else { "bt" })),
            ("To", format!("<sip:{other}@example.com>;tag={}", if bad { "zz" } else if self.me == 0 { "bt" } else { "at" })),
            ("Call-ID", "call-1".to_string()),
        ];
        if let Some(c) = cseq {
            hs.push(("CSeq", format!("{c} {method}")));
        }
        if contact {
            self.contact_no += 1;
            hs.push(("Contact", format!("<sip:{me}{}@{}>", self.contact_no, if self.me == 0 { AIP } else { BIP })));
        }
        msg::text(&format!("{method} sip:{other}@example.com SIP/2.0"), &hs, "")
    }
    fn next(&mut self) -> u32 {
        let mut d = self.mgr.get(&self.id).expect("dialog vanished");
        let c = d.next_local_cseq();
        ensure_that!("D01", "local-cseq-order", self.sent_cseqs.iter().all(|p| *p < c), "next_local_cseq handed out {c} after {:?}", self.sent_cseqs.last());
        self.sent_cseqs.push(c);
        self.mgr.insert(d).unwrap();
        c
    }
    fn received(&mut self, text: &[u8]) -> Option<String> {
        if text.starts_with(b"SIP/2.0") {
            let resp = sip_parse::parse_response(&bytes::Bytes::copy_from_slice(text))?;
            let mut d = self.mgr.get(&self.id).expect("dialog vanished");
            let (rc, lc) = (d.remote_cseq(), d.local_cseq());
            d.update_from_response(&resp);
            if let Some(c) = resp.headers().get("Contact") {
                self.m.target = c.trim_matches(|c| c == '<' || c == '>').to_string();
            }
            ensure_that!("D01", "target-after-response", d.remote_target().as_str() == self.m.target, "peer {} remote target {} after a response naming {}", self.me, d.remote_target().as_str(), self.m.target);
            ensure_that!("D01", "response-moved-cseq", (rc, lc) == (d.remote_cseq(), d.local_cseq()), "a response changed the sequence numbers");
            self.mgr.insert(d).unwrap();
            return None;
        }
        let Some(req) = sip_parse::parse_request(&bytes::Bytes::copy_from_slice(text)) else {
            sim::probe("unparsable");
            return None;
        };
        let found = self.mgr.find_by_request(&req);
        let to = msg::param(req.headers().get("To").unwrap_or(""), "tag").unwrap_or_default();
        if to == "zz" {
            ensure_that!("D02", "foreign-dialog-matched", found.is_none(), "a request for another dialog matched");
            return None;
        }
        let Some(mut d) = found else {
            sim::violation("D02", "dialog-not-found", format!("peer {} did not find its dialog for an in-dialog request", self.me));
            return None;
        };
        let before = dbg_dialog(&d);
        let res = d.update_from_request(&req);
        let c: Option<u32> = req.headers().get("CSeq").and_then(|v| v.split_whitespace().next()?.parse().ok());
        let method = req.method().as_str().to_string();
        slog!("peer {} <- {method} {c:?}: {res:?}", self.me);
        match &res {
            Err(_) => {
                ensure_that!("D01", "refusal-changed-dialog", dbg_dialog(&d) == before, "refused {method} {c:?} changed the dialog from {before} to {}", dbg_dialog(&d));
                sim::probe("refused");
                if let Some(c) = c {
                    if method == "ACK" {
                        ensure_that!("D01", "ack-refused", !(self.m.invite != 0 && c == self.m.invite), "the ACK {c} for the latest accepted INVITE was refused (highest request {})", self.m.remote);
                    } else if c >= 1 && c <= i32::MAX as u32 {
                        ensure_that!("D01", "fresh-refused", !(c > self.m.remote && (self.m.remote == 0 || c - self.m.remote <= 1000)), "{method} {c} refused though the highest accepted is {}", self.m.remote);
                    }
                }
                Some(reply(&req, 500, None))
            }
            Ok(()) => {
                sim::probe("accepted");
                let Some(c) = c else {
                    sim::violation("D01", "accepted-without-cseq", format!("{method} without CSeq accepted"));
                    return None;
                };
                if method == "ACK" {
                    ensure_that!("D01", "stale-ack-accepted", self.m.invite != 0 && c == self.m.invite, "ACK {c} accepted; the latest accepted INVITE is {}", self.m.invite);
                } else {
                    ensure_that!("D01", "not-increasing", c > self.m.remote && c > 0, "{method} {c} accepted after {}", self.m.remote);
                    self.m.remote = c;
                    if method == "INVITE" {
                        self.m.invite = c;
                    }
                }
                if let Some(ct) = req.headers().get("Contact") {
                    self.m.target = ct.trim_matches(|c| c == '<' || c == '>').to_string();
                }
                ensure_that!("D01", "remote-cseq", d.remote_cseq() == self.m.remote, "remote_cseq {} after accepting {c}", d.remote_cseq());
                ensure_that!("D01", "target-after-request", d.remote_target().as_str() == self.m.target, "remote target {} expected {}", d.remote_target().as_str(), self.m.target);
                self.mgr.insert(d).unwrap();
                if method == "ACK" {
                    return None;
                }
                let mut ct = None;
                if method == "INVITE" || method == "UPDATE" {
                    self.contact_no += 1;
                    ct = Some(format!("<sip:{}r{}@{}>", if self.me == 0 { "alice" } else { "bob" }, self.contact_no, if self.me == 0 { AIP } else { BIP }));
                }
                Some(reply(&req, 200, ct))
            }
        }
    }
}
fn reply(req: &Request, code: u16, contact: Option<String>) -> String {
    let g = |n: &str| req.headers().get(n).unwrap_or("").to_string();
    let mut hs = vec![("Via", g("Via")), ("From", g("From")), ("To", g("To")), ("Call-ID", g("Call-ID"))];
    if !g("CSeq").is_empty() {
        hs.push(("CSeq", g("CSeq")));
    }
    if let Some(c) = contact {
        hs.push(("Contact", c));
    }
    msg::text(&format!("SIP/2.0 {code} X"), &hs, "")
}

fn run_seq(v: &Value) {
    let p: SeqPlan = serde_json::from_value(v.clone()).unwrap();
    let a = sim::node(AIP);
    let b = sim::node(BIP);
    let invite = msg::request(&msg::text(
        "INVITE sip:bob@example.com SIP/2.0",
        &[
            ("Via", format!("SIP/2.0/UDP {AIP};branch=z9hG4bKinv")),
            ("From", "<sip:alice@example.com>;tag=at".into()),
            ("To", "<sip:bob@example.com>".into()),
            ("Call-ID", "call-1".into()),
            ("CSeq", format!("{} INVITE", p.first)),
            ("Contact", format!("<sip:alice@{AIP}>")),
        ],
        "",
    ));
    let resp = msg::response(&msg::text(
        if p.early { "SIP/2.0 180 Ringing" } else { "SIP/2.0 200 OK" },
        &[
            ("Via", format!("SIP/2.0/UDP {AIP};branch=z9hG4bKinv")),
            ("From", "<sip:alice@example.com>;tag=at".into()),
            ("To", "<sip:bob@example.com>;tag=bt".into()),
            ("Call-ID", "call-1".into()),
            ("CSeq", format!("{} INVITE", p.first)),
            ("Contact", format!("<sip:bob@{BIP}>")),
        ],
        "",
    ));
    let mut hs = Vec::new();
    for me in 0..2usize {
        let d = if me == 0 {
            Dialog::new_uac(&invite, &resp, uri("sip:alice@example.com"), uri("sip:bob@example.com")).unwrap()
        } else {
            Dialog::new_uas(&invite, &resp, uri("sip:bob@example.com"), uri("sip:alice@example.com")).unwrap()
        };
        let mgr = DialogManager::new();
        let id = d.id().clone();
        let m = SeqModel { remote: if me == 0 { 0 } else { p.first }, invite: if me == 0 { 0 } else { p.first }, target: d.remote_target().as_str().to_string() };
        let c0 = d.local_cseq();
        mgr.insert(d).unwrap();
        let mut peer = Peer { me, mgr, id, m, sent: vec![], sent_cseqs: if me == 0 { vec![c0] } else { vec![] }, last_invite: if me == 0 { c0 } else { 0 }, contact_no: 0 };
        let ops: Vec<SeqOp> = p.ops.iter().filter(|o| o.peer == me).cloned().collect();
        let total = p.ops.iter().map(|o| o.gap_us * 1000).sum::<u64>();
        hs.push(sim::spawn_on(if me == 0 { a } else { b }, move || {
            let rt = sim::runtime();
            rt.block_on(async move {
                let s = tokio::net::UdpSocket::bind("0.0.0.0:5060").await.unwrap();
                let to: std::net::SocketAddr = format!("{}:5060", if me == 0 { BIP } else { AIP }).parse().unwrap();
                let mut buf = vec![0u8; 4096];
                let mut i = 0;
                let mut next = sim::now() + ops.first().map(|o| o.gap_us).unwrap_or(0) * 1000;
                let end = total + 5_000_000_000;
                loop {
                    let now = sim::now();
                    let until = if i < ops.len() { next } else { end };
                    if now >= until {
                        if i >= ops.len() {
                            break;
                        }
                        let o = &ops[i];
                        i += 1;
                        next = sim::now() + ops.get(i).map(|o| o.gap_us).unwrap_or(0) * 1000;
                        // any method but INVITE and ACK shares the number space
                        let other = ["INFO", "BYE", "OPTIONS", "NOTIFY", "REFER", "MESSAGE", "PRACK", "SUBSCRIBE", "INFO"][(o.n / 8) as usize % 9];
                        let text = match o.kind.as_str() {
                            "advance" => {
                                let last = peer.sent_cseqs.iter().max().copied().unwrap_or(0);
                                let used = (last + 3).saturating_sub(o.n as u32 % 8).max(1);
                                let mut d = peer.mgr.get(&peer.id).expect("dialog vanished");
                                d.advance_local_cseq(used);
                                peer.mgr.insert(d).unwrap();
                                if used > last {
                                    peer.sent_cseqs.push(used);
                                }
                                continue;
                            }
                            m @ ("INFO" | "UPDATE" | "INVITE") => {
                                let m = if m == "INFO" { other } else { m };
                                let c = peer.next();
                                if m == "INVITE" {
                                    peer.last_invite = c;
                                }
                                peer.request_text(m, Some(c.to_string()), o.contact, false)
                            }
                            "ACK" => {
                                let c = peer.last_invite;
                                peer.request_text("ACK", Some(c.to_string()), o.contact, false)
                            }
                            "ackany" => {
                                let c = peer.sent_cseqs.last().copied().unwrap_or(1);
                                peer.request_text("ACK", Some(c.to_string()), o.contact, false)
                            }
                            "resend" => match peer.sent.get(o.n as usize % peer.sent.len().max(1)) {
                                Some(t) => t.clone(),
                                None => continue,
                            },
                            "back" => {
                                let c = peer.sent_cseqs.last().copied().unwrap_or(1).saturating_sub(o.n as u32 % 4);
                                peer.request_text(other, Some(c.to_string()), true, false)
                            }
                            "skip" => {
                                for _ in 0..o.n % 7 {
                                    peer.next();
                                }
                                continue;
                            }
                            "jump" => {
                                let c = peer.sent_cseqs.last().copied().unwrap_or(1).saturating_add(900 + o.n as u32);
                                peer.request_text(other, Some(c.to_string()), true, false)
                            }
                            "zero" => peer.request_text(other, Some("0".into()), true, false),
                            "huge" => peer.request_text(other, Some(if o.n % 2 == 0 { "4294967295" } else { "4294967299" }.into()), true, false),
                            "nocseq" => peer.request_text("INFO", None, true, false),
                            _ => {
                                let c = peer.next();
                                peer.request_text("INFO", Some(c.to_string()), true, true)
                            }
                        };
                        let _ = s.send_to(text.as_bytes(), to).await;
                        peer.sent.push(text);
                        continue;
                    }
                    if let Ok(Ok((n, from))) = tokio::time::timeout(Duration::from_nanos(until - now), s.recv_from(&mut buf)).await {
                        if let Some(r) = peer.received(&buf[..n]) {
                            let _ = s.send_to(r.as_bytes(), from).await;
                        }
                    }
                }
            })
        }));
    }
    for h in hs {
        if h.join().is_err() {
            sim::violation("D01", "panic", "a peer panicked");
        }
    }
}

// ---------------------------------------------------------------- D02

#[derive(Serialize, Deserialize, Clone)]
struct TabOp {
    th: usize,
    kind: String,
    key: usize,
    n: u64,
}
#[derive(Serialize, Deserialize, Clone)]
struct TabPlan {
    table: String,
    threads: usize,
    /// entries present beforehand (for the whole-table limit)
    prefill: usize,
    ops: Vec<TabOp>,
}
pub fn tab_scenario() -> Scenario {
    Scenario {
        name: "dialogtab",
        gen: gen_tab,
        tune: |r, k, _| tune_threads(r, k),
        run: run_tab,
        real: "sip-dialog (DialogManager, SubscriptionManager, InMemoryDialogStore, metrics), dashmap, parking_lot",
        stub: "callers",
        deadlock_is_violation: true,
    }
}
fn gen_tab(r: &mut sim::Rng, _p: &str, _t: Tier) -> Value {
    let mode = r.below(100);
    let threads = r.range(2, 4) as usize;
    let mut ops = Vec::new();
    if mode < 4 {
        // at the whole-table limit
        let table = *r.pick(&["dialogs", "subs"]);
        let free = r.range(0, 6) as usize;
        for _ in 0..r.range(3, 16) {
            let kind = *r.pick(&["new", "new", "new", "update", "remove", "count"]);
            ops.push(TabOp { th: r.below(threads as u64) as usize, kind: kind.into(), key: r.below(6) as usize, n: 0 });
        }
        return serde_json::to_value(TabPlan { table: table.into(), threads, prefill: 10_000 - free, ops }).unwrap();
    }
    if mode < 12 {
        // at the early-dialog limit of one Call-ID
        let removes = r.chance(0.5);
        let others = if r.chance(0.3) { r.range(1, 8) } else { 0 };
        for i in 0..r.range(96, 112) {
            ops.push(TabOp { th: r.below(threads as u64) as usize, kind: "early".into(), key: i as usize, n: others });
            if removes && r.chance(0.1) {
                ops.push(TabOp { th: r.below(threads as u64) as usize, kind: "earlyrm".into(), key: r.below(i + 1) as usize, n: 0 });
            }
        }
        return serde_json::to_value(TabPlan { table: "early".into(), threads, prefill: 0, ops }).unwrap();
    }
    let table = *r.pick(&["dialogs", "dialogs", "subs", "subs", "store"]);
    let keys = r.range(1, 4);
    for _ in 0..r.range(4, 26) {
        let kind = match r.below(20) {
            0..=6 => "put",
            7..=9 => "get",
            10..=12 => "remove",
            13..=14 => "cleanup",
            15..=16 => "list",
            17 => *r.pick(&["find", "replace"]),
            _ => "all",
        };
        // n odd: the entry is written in state Terminated
        ops.push(TabOp { th: r.below(threads as u64) as usize, kind: kind.into(), key: r.below(keys) as usize, n: r.below(3) });
    }
    serde_json::to_value(TabPlan { table: table.into(), threads, prefill: 0, ops }).unwrap()
}

/// Tags that differ only in case, or where one begins like another.
fn tag(side: &str, key: usize) -> String {
    match key {
        1 => format!("{}0", side.to_uppercase()),
        3 => format!("{side}0x"),
        _ => format!("{side}{key}"),
    }
}
fn did(call: &str, key: usize) -> DialogId {
    DialogId::unchecked_new(call, tag("l", key), tag("r", key))
}
fn mk_dialog(id: DialogId, ver: u32, st: DialogStateType) -> Dialog {
    let u = uri("sip:a@example.com");
    Dialog::unchecked_new(id, st, u.clone(), u.clone(), u, ver, 0, None, vec![], false, None, None, true)
}
fn event(key: usize) -> &'static str {
    if key == 1 { "presence.winfo" } else { "presence" }
}
fn sid(call: &str, key: usize) -> SubscriptionId {
    SubscriptionId::unchecked_new(call, tag("f", key), tag("t", key), event(key))
}
fn mk_sub(id: SubscriptionId, ver: u32, st: SubscriptionState) -> Subscription {
    let u = uri("sip:a@example.com");
    Subscription::unchecked_new(id, st, u.clone(), u.clone(), u, Duration::from_secs(600), ver, 0)
}
fn dialog_req(call: &str, key: usize) -> Request {
    msg::request(&msg::text(
        "INFO sip:a@example.com SIP/2.0",
        &[
            ("Via", "SIP/2.0/UDP 10.0.0.1;branch=z9hG4bKq".into()),
            ("From", format!("<sip:b@example.com>;tag={}", tag("r", key))),
            ("To", format!("<sip:a@example.com>;tag={}", tag("l", key))),
            ("Call-ID", call.to_string()),
            ("CSeq", "5 INFO".into()),
        ],
        "",
    ))
}

/// What one operation did to one key.
#[derive(Clone, Debug, PartialEq)]
enum Eff {
    Put(u32, bool),
    /// stored if there was an entry, which is what it reported
    Replace(u32, bool, bool),
    Read(Option<u32>),
    Present(bool),
    Take(Option<u32>),
    Drop,
    Clean,
}
#[derive(Clone, Debug)]
struct H {
    key: usize,
    inv: u64,
    ret: u64,
    e: Eff,
}
/// Wing & Gong search: is there an order of the operations, consistent with
/// real time, under which a single map slot gives these results?
pub fn linearizable(ops: &[(u64, u64)], apply: &dyn Fn(usize, &Option<(u32, bool)>) -> Option<Option<(u32, bool)>>, fin: &dyn Fn(&Option<(u32, bool)>) -> bool) -> bool {
    let n = ops.len();
    assert!(n <= 60);
    let mut seen: HashSet<(u64, Option<(u32, bool)>)> = HashSet::new();
    let mut stack = vec![(0u64, None)];
    while let Some((mask, st)) = stack.pop() {
        if mask.count_ones() as usize == n {
            if fin(&st) {
                return true;
            }
            continue;
        }
        let first_ret = (0..n).filter(|i| mask >> i & 1 == 0).map(|i| ops[i].1).min().unwrap();
        for i in 0..n {
            if mask >> i & 1 == 0 && ops[i].0 <= first_ret {
                if let Some(s2) = apply(i, &st) {
                    if seen.insert((mask | 1 << i, s2)) {
                        stack.push((mask | 1 << i, s2));
                    }
                }
            }
        }
    }
    false
}
fn apply_eff(e: &Eff, st: &Option<(u32, bool)>) -> Option<Option<(u32, bool)>> {
    let yes = |c: bool, s: Option<(u32, bool)>| if c { Some(s) } else { None };
    match e {
        Eff::Put(v, t) => Some(Some((*v, *t))),
        Eff::Replace(v, t, had) => yes(*had == st.is_some(), st.map(|_| (*v, *t))),
        Eff::Read(r) => yes(*r == st.map(|s| s.0), *st),
        Eff::Present(p) => yes(*p == st.is_some(), *st),
        Eff::Take(r) => yes(*r == st.map(|s| s.0), None),
        Eff::Drop => Some(None),
        Eff::Clean => Some(st.filter(|s| !s.1)),
    }
}

fn run_tab(v: &Value) {
    let p: TabPlan = serde_json::from_value(v.clone()).unwrap();
    match p.table.as_str() {
        "early" => return run_early(&p),
        _ if p.prefill > 0 => return run_full(&p),
        _ => {}
    }
    let dm = Arc::new(DialogManager::new());
    let sm = Arc::new(SubscriptionManager::new());
    let store = Arc::new(InMemoryDialogStore::default());
    let hist: Arc<Mutex<Vec<H>>> = Arc::new(Mutex::new(vec![]));
    let nkeys = p.ops.iter().map(|o| o.key + 1).max().unwrap_or(0);
    // all keys but every third share a Call-ID
    let call = |k: usize| if k % 3 == 2 { "call-b" } else { "call-a" };
    let mut hs = vec![];
    for th in 0..p.threads {
        let (dm, sm, store, hist, p) = (dm.clone(), sm.clone(), store.clone(), hist.clone(), p.clone());
        hs.push(sim::spawn(move || {
            let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
            for (i, o) in p.ops.iter().enumerate().filter(|(_, o)| o.th == th) {
                let ver = i as u32 + 1;
                let k = o.key;
                let inv = sim::seq();
                let rec = |h: Vec<(usize, Eff)>| {
                    let ret = sim::seq();
                    let mut g = hist.lock().unwrap();
                    for (key, e) in h {
                        g.push(H { key, inv, ret, e });
                    }
                };
                let same_call: Vec<usize> = (0..nkeys).filter(|x| call(*x) == call(k)).collect();
                let term = o.n == 1;
                let effs: Vec<(usize, Eff)> = match (p.table.as_str(), o.kind.as_str()) {
                    ("dialogs", "put") => {
                        let st = if term { DialogStateType::Terminated } else { DialogStateType::Confirmed };
                        match dm.insert(mk_dialog(did(call(k), k), ver, st)) {
                            Ok(()) => vec![(k, Eff::Put(ver, term))],
                            Err(e) => {
                                sim::violation("D02", "insert-refused", format!("insert refused in a near-empty table: {e:?}"));
                                vec![]
                            }
                        }
                    }
                    ("dialogs", "replace") => {
                        let st = if term { DialogStateType::Terminated } else { DialogStateType::Confirmed };
                        vec![(k, Eff::Replace(ver, term, dm.update(mk_dialog(did(call(k), k), ver, st))))]
                    }
                    ("dialogs", "get") => vec![(k, Eff::Read(dm.get(&did(call(k), k)).map(|d| d.local_cseq())))],
                    ("dialogs", "find") => vec![(k, Eff::Read(dm.find_by_request(&dialog_req(call(k), k)).map(|d| d.local_cseq())))],
                    ("dialogs", "remove") => vec![(k, Eff::Take(dm.remove(&did(call(k), k)).map(|d| d.local_cseq())))],
                    ("dialogs", "cleanup") => {
                        dm.cleanup_terminated();
                        (0..nkeys).map(|x| (x, Eff::Clean)).collect()
                    }
                    ("dialogs", "list") => match dm.find_by_call_id(call(k)) {
                        Some(d) => match same_call.iter().find(|x| did(call(k), **x) == *d.id()) {
                            Some(x) => vec![(*x, Eff::Read(Some(d.local_cseq())))],
                            None => {
                                sim::violation("D02", "foreign-entry", format!("find_by_call_id({}) returned {:?}", call(k), d.id()));
                                vec![]
                            }
                        },
                        None => same_call.iter().map(|x| (*x, Eff::Read(None))).collect(),
                    },
                    ("dialogs", "all") => {
                        let ids = dm.all_ids();
                        ensure_that!("D02", "duplicate-id", ids.iter().collect::<HashSet<_>>().len() == ids.len(), "all_ids lists an id twice: {ids:?}");
                        (0..nkeys).map(|x| (x, Eff::Present(ids.contains(&did(call(x), x))))).collect()
                    }
                    ("subs", "put") => {
                        let st = if term { SubscriptionState::Terminated } else { SubscriptionState::Active };
                        match sm.insert(mk_sub(sid(call(k), k), ver, st)) {
                            Ok(()) => vec![(k, Eff::Put(ver, term))],
                            Err(e) => {
                                sim::violation("D02", "insert-refused", format!("insert refused in a near-empty table: {e:?}"));
                                vec![]
                            }
                        }
                    }
                    ("subs", "get" | "find") => vec![(k, Eff::Read(sm.get(&sid(call(k), k)).map(|d| d.local_cseq())))],
                    ("subs", "remove") => vec![(k, Eff::Take(sm.remove(&sid(call(k), k)).map(|d| d.local_cseq())))],
                    ("subs", "cleanup") => {
                        sm.cleanup_terminated();
                        (0..nkeys).map(|x| (x, Eff::Clean)).collect()
                    }
                    ("subs", _) => {
                        let l = if o.kind == "all" { sm.all() } else { sm.by_event(event(k)) };
                        ensure_that!("D02", "other-event", o.kind == "all" || l.iter().all(|s| s.id().event() == event(k)), "by_event({}) lists a subscription to another event", event(k));
                        ensure_that!("D02", "duplicate-id", l.iter().map(|s| s.id().clone()).collect::<HashSet<_>>().len() == l.len(), "a subscription is listed twice");
                        (0..nkeys).filter(|x| o.kind == "all" || event(*x) == event(k)).map(|x| (x, Eff::Read(l.iter().find(|s| *s.id() == sid(call(x), x)).map(|s| s.local_cseq())))).collect()
                    }
                    ("store", "put") => {
                        rt.block_on(store.put(mk_dialog(did(call(k), k), ver, DialogStateType::Confirmed)));
                        vec![(k, Eff::Put(ver, false))]
                    }
                    ("store", "get" | "find" | "cleanup") => vec![(k, Eff::Read(rt.block_on(store.get(&did(call(k), k))).map(|d| d.local_cseq())))],
                    ("store", "remove") => {
                        rt.block_on(store.remove(&did(call(k), k)));
                        vec![(k, Eff::Drop)]
                    }
                    ("store", _) => {
                        let l = rt.block_on(store.list_by_call_id(&SmolStr::new(call(k))));
                        let ids: Vec<_> = l.iter().map(|d| d.id().clone()).collect();
                        ensure_that!("D02", "duplicate-id", ids.iter().collect::<HashSet<_>>().len() == ids.len(), "list_by_call_id lists a dialog twice: {ids:?}");
                        same_call.iter().map(|x| (*x, Eff::Read(l.iter().find(|d| *d.id() == did(call(k), *x)).map(|d| d.local_cseq())))).collect()
                    }
                    _ => vec![],
                };
                slog!("op {i} {} key {k}: {effs:?}", o.kind);
                rec(effs);
            }
        }));
    }
    for h in hs {
        let _ = h.join();
    }
    let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
    let hist = hist.lock().unwrap().clone();
    for key in 0..nkeys {
        let ops: Vec<&H> = hist.iter().filter(|h| h.key == key).collect();
        if ops.len() > 40 {
            sim::probe("history-too-long");
            continue;
        }
        let fin = match p.table.as_str() {
            "dialogs" => dm.get(&did(call(key), key)).map(|d| d.local_cseq()),
            "subs" => sm.get(&sid(call(key), key)).map(|d| d.local_cseq()),
            _ => rt.block_on(store.get(&did(call(key), key))).map(|d| d.local_cseq()),
        };
        let iv: Vec<(u64, u64)> = ops.iter().map(|h| (h.inv, h.ret)).collect();
        let ok = linearizable(&iv, &|i, st| apply_eff(&ops[i].e, st), &|st| st.map(|s| s.0) == fin);
        sim::probe("key-histories");
        ensure_that!("D02", "not-linearizable", ok, "table {}: key {key} ends as {fin:?} after {:?}", p.table, ops);
    }
    if p.table == "dialogs" {
        let m = dm.metrics.snapshot();
        counters!("counters", m.created as i64 - m.terminated as i64 == dm.count() as i64, "{} created, {} terminated, {} in the table", m.created, m.terminated, dm.count());
        let puts = hist.iter().filter(|h| matches!(h.e, Eff::Put(..))).count() as u64;
        counters!("counters-created", m.created <= puts, "{} created by {puts} inserts", m.created);
    }
    if p.table == "store" {
        for c in ["call-a", "call-b"] {
            let l: BTreeSet<String> = rt.block_on(store.list_by_call_id(&SmolStr::new(c))).iter().map(|d| format!("{:?}", d.id())).collect();
            let want: BTreeSet<String> = (0..nkeys).filter(|k| call(*k) == c).map(|k| did(c, k)).filter(|i| rt.block_on(store.get(i)).is_some()).map(|i| format!("{i:?}")).collect();
            ensure_that!("D02", "index-differs", l == want, "{c}: stored {want:?}, listed {l:?}");
        }
    }
}

/// The whole-table limit: new ids are refused only at the limit, known ids never.
fn run_full(p: &TabPlan) {
    const CAP: usize = 10_000;
    let subs = p.table == "subs";
    let dm = Arc::new(DialogManager::new());
    let sm = Arc::new(SubscriptionManager::new());
    sim::atomic(|| {
        for i in 0..p.prefill {
            if subs {
                sm.insert(mk_sub(sid("pre", i), 1, SubscriptionState::Active)).unwrap();
            } else {
                dm.insert(mk_dialog(did("pre", i), 1, DialogStateType::Confirmed)).unwrap();
            }
        }
    });
    // (inv, ret, what): +1 inserted, -1 removed, 0 refused
    let hist: Arc<Mutex<Vec<(u64, u64, i32)>>> = Arc::new(Mutex::new(vec![]));
    let mut hs = vec![];
    for th in 0..p.threads {
        let (dm, sm, hist, p) = (dm.clone(), sm.clone(), hist.clone(), p.clone());
        hs.push(sim::spawn(move || {
            for (i, o) in p.ops.iter().enumerate().filter(|(_, o)| o.th == th) {
                let inv = sim::seq();
                let ins = |call: &str, k: usize, v: u32| if subs { sm.insert(mk_sub(sid(call, k), v, SubscriptionState::Active)).is_ok() } else { dm.insert(mk_dialog(did(call, k), v, DialogStateType::Confirmed)).is_ok() };
                let w = match o.kind.as_str() {
                    "new" => {
                        let ok = ins("new", i, 1);
                        // counting is not one step in the real code, so look without interruption
                        if let Some(n) = sim::snapshot(|| if subs { sm.all().len() } else { dm.count() }) {
                            ensure_that!("D02", "over-cap", n <= CAP, "{n} entries in a table limited to {CAP}");
                        }
                        ok as i32
                    }
                    "update" => {
                        let ok = ins("pre", 100 + o.key, 2);
                        ensure_that!("D02", "update-refused", ok, "updating an existing entry of a full table was refused");
                        continue;
                    }
                    "remove" => {
                        let ok = if subs { sm.remove(&sid("pre", o.key)).is_some() } else { dm.remove(&did("pre", o.key)).is_some() };
                        if !ok {
                            continue;
                        }
                        -1
                    }
                    _ => continue,
                };
                let ret = sim::seq();
                hist.lock().unwrap().push((inv, ret, w));
            }
        }));
    }
    for h in hs {
        let _ = h.join();
    }
    let hist = hist.lock().unwrap().clone();
    for (inv, ret, w) in &hist {
        if *w == 0 {
            // the most entries there can have been while this insert ran
            let max = p.prefill + hist.iter().filter(|h| h.2 == 1 && h.0 < *ret).count() - hist.iter().filter(|h| h.2 == -1 && h.1 < *inv).count();
            ensure_that!("D02", "refused-below-cap", max >= CAP, "an insert was refused with at most {max} of {CAP} entries in the table");
        }
    }
    let want = p.prefill as i64 + hist.iter().map(|h| h.2 as i64).sum::<i64>();
    let n = if subs { sm.all().len() } else { dm.count() } as i64;
    ensure_that!("D02", "entries-lost", n == want, "{n} entries at the end, history says {want}");
    if !subs {
        let m = dm.metrics.snapshot();
        counters!("counters", m.created as i64 - m.terminated as i64 == n, "{} created, {} terminated, {n} in the table", m.created, m.terminated);
    }
}

fn run_early(p: &TabPlan) {
    const CAP: i64 = 100;
    let dm = Arc::new(DialogManager::new());
    // neither confirmed dialogs of the call nor other calls' early ones count
    let others = p.ops.first().map_or(0, |o| o.n) as i64;
    for i in 0..others as usize {
        let (call, st) = if i % 2 == 0 { ("fork", DialogStateType::Confirmed) } else { ("for", DialogStateType::Early) };
        dm.insert(mk_dialog(did(call, 1000 + i), 1, st)).unwrap();
    }
    let hist: Arc<Mutex<Vec<(u64, u64, i32)>>> = Arc::new(Mutex::new(vec![]));
    let mut hs = vec![];
    for th in 0..p.threads {
        let (dm, hist, p) = (dm.clone(), hist.clone(), p.clone());
        hs.push(sim::spawn(move || {
            for o in p.ops.iter().filter(|o| o.th == th) {
                let inv = sim::seq();
                let w = if o.kind == "early" {
                    dm.insert(mk_dialog(did("fork", o.key), 1, DialogStateType::Early)).is_ok() as i32
                } else if dm.remove(&did("fork", o.key)).is_some() {
                    -1
                } else {
                    continue;
                };
                let ret = sim::seq();
                hist.lock().unwrap().push((inv, ret, w));
                let n = sim::snapshot(|| dm.count()).unwrap_or(0) as i64 - others;
                ensure_that!("D02", "over-early-cap", n <= CAP, "{n} early dialogs for one Call-ID (limit {CAP})");
            }
        }));
    }
    for h in hs {
        let _ = h.join();
    }
    let hist = hist.lock().unwrap().clone();
    for (inv, ret, w) in &hist {
        if *w == 0 {
            let max = hist.iter().filter(|h| h.2 == 1 && h.0 < *ret).count() as i64 - hist.iter().filter(|h| h.2 == -1 && h.1 < *inv).count() as i64;
            ensure_that!("D02", "refused-below-early-cap", max >= CAP, "an early dialog was refused with at most {max} of {CAP} present");
        }
    }
    let want = hist.iter().map(|h| h.2 as i64).sum::<i64>();
    ensure_that!("D02", "entries-lost", dm.count() as i64 == want + others, "{} entries at the end, history says {want}", dm.count());
    // settled: a second round of the same ids (updates) must be accepted
    let ids = dm.all_ids();
    if let Some(id) = ids.iter().find(|i| i.call_id() == "fork" && dm.get(i).is_some_and(|d| d.state() == DialogStateType::Early)) {
        ensure_that!("D02", "update-refused", dm.insert(mk_dialog(id.clone(), 2, DialogStateType::Early)).is_ok(), "updating an early dialog was refused at the limit");
    }
}

// ---------------------------------------------------------------- D03

#[derive(Serialize, Deserialize, Clone)]
struct PrOp {
    th: usize,
    kind: String,
    dlg: usize,
    n: u64,
}
#[derive(Serialize, Deserialize, Clone)]
struct PrPlan {
    threads: usize,
    ops: Vec<PrOp>,
}
pub fn prack_scenario() -> Scenario {
    Scenario {
        name: "prack",
        gen: gen_prack,
        tune: |r, k, _| tune_threads(r, k),
        run: run_prack,
        real: "sip-dialog (RSeqManager, PrackValidator), dashmap",
        stub: "user agents, lossy network (as the order and copies of PRACKs)",
        deadlock_is_violation: true,
    }
}
fn gen_prack(r: &mut sim::Rng, _p: &str, _t: Tier) -> Value {
    let threads = r.range(1, 4) as usize;
    let dlgs = r.range(1, 3);
    let mut ops = vec![];
    let many = r.chance(0.2);
    if r.chance(0.1) {
        // as many outstanding as there may be, and a few more
        for _ in 0..r.range(8, 13) {
            ops.push(PrOp { th: 0, kind: "send".into(), dlg: 0, n: r.below(64) });
        }
        for i in 0..r.range(2, 16) {
            ops.push(PrOp { th: r.below(threads as u64) as usize, kind: "late".into(), dlg: 0, n: if r.chance(0.7) { i } else { r.below(16) } });
        }
        return serde_json::to_value(PrPlan { threads, ops }).unwrap();
    }
    for _ in 0..r.range(4, 60) {
        let kind = match r.below(24) {
            0..=5 => "send",
            6..=13 => "prack",
            14 => "wrong",
            15 => "late",
            16 => "pending",
            17 => "ispracked",
            18 => "rmpracked",
            19 => if r.chance(0.3) { "rmdialog" } else { "rseq" },
            20..=21 => if many { "send" } else { "rseq" },
            22 => "sleep",
            _ => "mangled",
        };
        let n = if kind == "sleep" { r.log(1e6, 4e11) as u64 } else { r.below(64) };
        ops.push(PrOp { th: r.below(threads as u64) as usize, kind: kind.into(), dlg: r.below(dlgs) as usize, n });
    }
    serde_json::to_value(PrPlan { threads, ops }).unwrap()
}
#[derive(Clone, Debug)]
struct Prov {
    dlg: usize,
    rseq: u32,
    cseq: u32,
    method: &'static str,
    reg_inv: u64,
    reg_ret: Option<u64>,
    t_inv: u64,
}
#[derive(Clone, Debug)]
struct Val {
    prov: usize,
    inv: u64,
    ret: u64,
    t_inv: u64,
    t_ret: u64,
    ok: bool,
}
fn prack_req(rack: &str) -> Request {
    msg::request(&msg::text(
        "PRACK sip:a@example.com SIP/2.0",
        &[
            ("Via", "SIP/2.0/UDP 10.0.0.1;branch=z9hG4bKq".into()),
            ("From", "<sip:b@example.com>;tag=r".into()),
            ("To", "<sip:a@example.com>;tag=l".into()),
            ("Call-ID", "x".into()),
            ("CSeq", "2 PRACK".into()),
            ("RAck", rack.to_string()),
        ],
        "",
    ))
}
fn run_prack(v: &Value) {
    let p: PrPlan = serde_json::from_value(v.clone()).unwrap();
    let rs = RSeqManager::new();
    let pv = Arc::new(PrackValidator::new());
    #[derive(Default)]
    struct S {
        provs: Vec<Prov>,
        vals: Vec<Val>,
        rms: Vec<(usize, u64, u64)>,
        vals_begun: Vec<usize>,
        issued: BTreeMap<usize, Vec<(u32, u64, u64)>>,
    }
    let s: Arc<Mutex<S>> = Arc::new(Mutex::new(S::default()));
    let mut hs = vec![];
    for th in 0..p.threads {
        let (rs, pv, s, p) = (rs.clone(), pv.clone(), s.clone(), p.clone());
        hs.push(sim::spawn(move || {
            for o in p.ops.iter().filter(|o| o.th == th) {
                let name = format!("dlg{}", o.dlg);
                let issue = || {
                    let inv = sim::seq();
                    let n = rs.next_rseq(&did("c", o.dlg));
                    let ret = sim::seq();
                    s.lock().unwrap().issued.entry(o.dlg).or_default().push((n, inv, ret));
                    n
                };
                match o.kind.as_str() {
                    "rseq" => {
                        issue();
                    }
                    "send" => {
                        let rseq = issue();
                        let method = if o.n % 5 == 0 { "UPDATE" } else { "INVITE" };
                        let cseq = 1 + (o.n as u32 % 3);
                        let i = {
                            let mut g = s.lock().unwrap();
                            g.provs.push(Prov { dlg: o.dlg, rseq, cseq, method, reg_inv: sim::seq(), reg_ret: None, t_inv: sim::now() });
                            g.provs.len() - 1
                        };
                        pv.register_reliable_provisional(&name, rseq, cseq, if o.n % 5 == 0 { sip_core::Method::Update } else { sip_core::Method::Invite }, 180);
                        s.lock().unwrap().provs[i].reg_ret = Some(sim::seq());
                        slog!("registered {name} rseq {rseq} cseq {cseq} {method}");
                    }
                    "prack" | "late" => {
                        // a PRACK for one of the provisionals sent so far, mostly recent
                        let cand: Vec<usize> = s.lock().unwrap().provs.iter().enumerate().filter(|(_, x)| x.dlg == o.dlg).map(|(i, _)| i).collect();
                        if cand.is_empty() {
                            continue;
                        }
                        let i = if o.kind == "late" { cand[o.n as usize % cand.len()] } else { cand[cand.len() - 1 - (o.n as usize % 3).min(cand.len() - 1)] };
                        let pr = s.lock().unwrap().provs[i].clone();
                        let req = prack_req(&format!("{} {} {}", pr.rseq, pr.cseq, pr.method));
                        s.lock().unwrap().vals_begun.push(i);
                        let (inv, t_inv) = (sim::seq(), sim::now());
                        let r = pv.validate_prack(&name, &req);
                        let (ret, t_ret) = (sim::seq(), sim::now());
                        slog!("PRACK {name} {} {} {}: {:?}", pr.rseq, pr.cseq, pr.method, r.as_ref().map(|_| ()).map_err(|e| e.to_string()));
                        if let Ok(a) = &r {
                            ensure_that!("D03", "rack-differs", a.rseq == pr.rseq && a.cseq == pr.cseq && a.method.as_str() == pr.method, "validated as {a:?}, sent {pr:?}");
                        }
                        s.lock().unwrap().vals.push(Val { prov: i, inv, ret, t_inv, t_ret, ok: r.is_ok() });
                    }
                    "wrong" | "mangled" => {
                        let pr = s.lock().unwrap().provs.iter().rev().find(|x| x.dlg == o.dlg).cloned();
                        let rack = match (&pr, o.n % 5) {
                            (Some(x), 0) => format!("{} {} {}", x.rseq, x.cseq + 10, x.method),
                            (Some(x), 1) => format!("{} {} {}", x.rseq, x.cseq, if x.method == "INVITE" { "UPDATE" } else { "INVITE" }),
                            (Some(x), 2) => format!("{} {}", x.rseq, x.cseq),
                            // never issued: numbers grow by one from a start below 2^31
                            (_, 3) => "4294967290 1 INVITE".to_string(),
                            _ => "0 0 INVITE".to_string(),
                        };
                        let r = pv.validate_prack(&name, &prack_req(&rack));
                        ensure_that!("D03", "wrong-prack-accepted", r.is_err(), "{name}: PRACK naming '{rack}' accepted; latest provisional {pr:?}");
                    }
                    "pending" => {
                        let l = pv.get_pending(&name);
                        let g = s.lock().unwrap();
                        for (rseq, _) in &l {
                            ensure_that!("D03", "pending-unknown", g.provs.iter().any(|x| x.dlg == o.dlg && x.rseq == *rseq), "{name}: pending {rseq} was never sent");
                        }
                        ensure_that!("D03", "pending-cap", l.len() <= 10, "{name}: {} provisionals outstanding", l.len());
                    }
                    "ispracked" => {
                        let pr = s.lock().unwrap().provs.iter().rev().find(|x| x.dlg == o.dlg).cloned();
                        if let Some(x) = pr {
                            let inv = sim::seq();
                            let yes = pv.is_pracked(&name, x.rseq);
                            {
                                let g = s.lock().unwrap();
                                let i = g.provs.iter().position(|y| y.dlg == x.dlg && y.rseq == x.rseq).unwrap();
                                let tried = g.vals_begun.contains(&i);
                                ensure_that!("D03", "reported-unacknowledged", !yes || tried, "{x:?} is reported acknowledged, no PRACK named it");
                            }
                            if yes {
                                // someone's PRACK for it must at least have been under way: none attempted means none accepted
                                let g = s.lock().unwrap();
                                let i = g.provs.iter().position(|y| y.dlg == x.dlg && y.rseq == x.rseq).unwrap();
                                if g.vals.iter().any(|v| v.prov == i && v.ret < inv && v.ok) {
                                    sim::probe("is-pracked-confirmed");
                                }
                            }
                        }
                    }
                    "rmpracked" => {
                        let pr = s.lock().unwrap().provs.iter().rev().find(|x| x.dlg == o.dlg).cloned();
                        if let Some(x) = pr {
                            pv.remove_pracked(&name, x.rseq);
                        }
                    }
                    "rmdialog" => {
                        let inv = sim::seq();
                        pv.remove_dialog(&name);
                        s.lock().unwrap().rms.push((o.dlg, inv, sim::seq()));
                    }
                    _ => sim::sleep(Duration::from_nanos(o.n)),
                }
            }
        }));
    }
    for h in hs {
        let _ = h.join();
    }
    let g = s.lock().unwrap();
    for (dlg, l) in &g.issued {
        let mut v: Vec<u32> = l.iter().map(|x| x.0).collect();
        v.sort();
        ensure_that!("D03", "rseq-start", v[0] >= 1 && v[0] <= i32::MAX as u32, "dialog {dlg}: numbers start at {}", v[0]);
        ensure_that!("D03", "rseq-gap-or-dup", v.windows(2).all(|w| w[0].checked_add(1) == Some(w[1])), "dialog {dlg}: issued {v:?}");
        for a in l {
            for b in l {
                ensure_that!("D03", "rseq-order", !(a.2 < b.1 && a.0 >= b.0), "dialog {dlg}: {} was issued before {}", a.0, b.0);
            }
        }
    }
    for (i, pr) in g.provs.iter().enumerate() {
        let vs: Vec<&Val> = g.vals.iter().filter(|v| v.prov == i).collect();
        let ok: Vec<&&Val> = vs.iter().filter(|v| v.ok).collect();
        ensure_that!("D03", "accepted-twice", ok.len() <= 1, "{pr:?} acknowledged {} times: {ok:?}", ok.len());
        for v in &vs {
            let reg_ret = pr.reg_ret.unwrap_or(u64::MAX);
            if v.ok {
                ensure_that!("D03", "accepted-after-timeout", v.t_inv - pr.t_inv <= 600_500_000_000, "{pr:?} acknowledged {} s after it was sent", (v.t_inv - pr.t_inv) / 1_000_000_000);
                ensure_that!("D03", "accepted-after-removal", !g.rms.iter().any(|r| r.0 == pr.dlg && r.1 > reg_ret && r.2 < v.inv), "{pr:?} acknowledged after its dialog was removed");
                sim::probe("prack-accepted");
                continue;
            }
            let known = reg_ret < v.inv;
            let fresh = v.t_ret - pr.t_inv <= 300_000_000_000;
            let no_rival = !vs.iter().any(|x| x.ok && x.inv < v.ret);
            let not_removed = !g.rms.iter().any(|r| r.0 == pr.dlg && r.2 > pr.reg_inv && r.1 < v.ret);
            let later = g.provs.iter().filter(|x| x.dlg == pr.dlg && x.reg_inv < v.ret && x.reg_ret.unwrap_or(u64::MAX) > pr.reg_inv).count() - 1;
            if known && fresh && no_rival && not_removed && later < 10 {
                sim::violation("D03", "outstanding-refused", format!("a PRACK for the outstanding {pr:?} was refused ({later} provisionals registered since)"));
            }
        }
    }
}

// ---------------------------------------------------------------- D04

#[derive(Serialize, Deserialize, Clone)]
struct TmOp {
    th: usize,
    kind: String,
    s: usize,
    /// time to wait before the operation: relative to now, or to a deadline of
    /// the session's current timer
    wait: u64,
    rel: String,
    se_ms: u64,
    refresher: bool,
}
#[derive(Serialize, Deserialize, Clone)]
struct TmPlan {
    threads: usize,
    ops: Vec<TmOp>,
    stalls: Vec<(u64, u64)>,
    /// other sessions, whose timers are far from due
    #[serde(default)]
    crowd: usize,
}
pub fn timer_scenario() -> Scenario {
    Scenario {
        name: "sesstimer",
        gen: gen_timer,
        tune: |r, k, _| {
            tune_threads(r, k);
            k.stall_max_ns = r.log(1e4, 2e7) as u64;
            k.rates[C::Stall as usize] = *r.pick(&[0.0, 0.0, 0.01]);
        },
        run: run_timer,
        real: "sip-dialog (SessionTimerManager), tokio runtime and timers",
        stub: "callers; clock and threads simulated",
        deadlock_is_violation: false,
    }
}
fn gen_timer(r: &mut sim::Rng, _p: &str, _t: Tier) -> Value {
    let threads = r.range(1, 3) as usize;
    let per = r.range(1, 2);
    let mut ops = vec![];
    for _ in 0..r.range(2, 18) {
        let th = r.below(threads as u64) as usize;
        let s = th * 4 + r.below(per) as usize;
        let kind = *r.pick(&["start", "start", "refresh", "refresh", "stop", "look", "clear"]);
        let rel = *r.pick(&["now", "half", "half", "full", "full"]);
        let wait = if rel == "now" {
            r.log(1e5, 2e11) as u64
        } else {
            // 1 s stands for exactly the deadline
            match r.below(4) {
                0 => 1_000_000_000,
                1 => 1_000_000_000 + r.below(2_000_000),
                2 => 1_000_000_000 - r.below(2_000_000),
                _ => 1_000_000_000 + r.below(60_000),
            }
        };
        if kind == "clear" && (threads > 1 || !r.chance(0.3)) {
            continue;
        }
        ops.push(TmOp { th, kind: kind.into(), s, wait, rel: rel.into(), se_ms: *r.pick(&[10_000, 90_000, 90_001, 120_000, 300_000, 1_800_000, 7_777]), refresher: r.chance(0.6) });
    }
    let mut stalls = vec![];
    if r.chance(0.35) {
        for _ in 0..r.range(1, 3) {
            stalls.push((r.log(1e9, 4e11) as u64, r.log(1e8, 6e10) as u64));
        }
    }
    let mut crowd = 0;
    if r.chance(0.05) {
        ops.retain(|o: &TmOp| o.kind != "clear");
        let own = ops.iter().map(|o| o.s).collect::<BTreeSet<_>>().len();
        crowd = if r.chance(0.02) { 10_000 - own } else { r.range(1, 300) as usize };
    }
    serde_json::to_value(TmPlan { threads, ops, stalls, crowd }).unwrap()
}
#[derive(Clone, Debug)]
enum L {
    StartBegin { s: usize, t: u64, se: u64, refresher: bool },
    StartEnd { s: usize, t: u64 },
    StopBegin { s: usize, t: u64 },
    StopEnd { s: usize },
    Refresh { s: usize, t: u64 },
    Expired { s: usize, t: u64 },
}
fn run_timer(v: &Value) {
    let p: TmPlan = serde_json::from_value(v.clone()).unwrap();
    let n = sim::node("10.0.1.1");
    let t0 = sim::now();
    let stalls: Vec<(u64, u64)> = p.stalls.iter().map(|(at, d)| (t0 + at, *d)).collect();
    for (at, d) in &p.stalls {
        let d = *d;
        sim::at(Duration::from_nanos(*at), move || sim::stall_node(n, Duration::from_nanos(d)));
    }
    let rt = Arc::new(sim::on(n, sim::runtime));
    let mgr = SessionTimerManager::new();
    let log: Arc<Mutex<Vec<L>>> = Arc::new(Mutex::new(vec![]));
    let rx = Arc::new(Mutex::new(sim::on(n, || rt.block_on(mgr.subscribe()))));
    let num = |id: &DialogId| id.call_id().trim_start_matches('s').parse::<usize>().unwrap();
    let note = move |log: &Mutex<Vec<L>>, e: SessionTimerEvent| {
        let t = sim::now();
        slog!("event {e:?}");
        log.lock().unwrap().push(match e {
            SessionTimerEvent::RefreshNeeded(i) => L::Refresh { s: num(&i), t },
            SessionTimerEvent::SessionExpired(i) => L::Expired { s: num(&i), t },
        });
    };
    let stop = Arc::new(tokio::sync::Notify::new());
    let drainer = {
        let (rt, log, rx, stop) = (rt.clone(), log.clone(), rx.clone(), stop.clone());
        sim::spawn_on(n, move || {
            rt.block_on(async {
                let drain = async {
                    loop {
                        // receive and record in one step, as the others do
                        poll_fn(|cx| {
                            let mut g = rx.lock().unwrap();
                            match g.poll_recv(cx) {
                                std::task::Poll::Ready(Some(e)) => {
                                    note(&log, e);
                                    std::task::Poll::Ready(())
                                }
                                std::task::Poll::Ready(None) => std::task::Poll::Pending,
                                std::task::Poll::Pending => std::task::Poll::Pending,
                            }
                        })
                        .await
                    }
                };
                tokio::select! { _ = drain => {}, _ = stop.notified() => {} }
            })
        })
    };
    if p.crowd > 0 {
        sim::on(n, || {
            let _g = rt.handle().enter();
            for i in 0..p.crowd {
                mgr.start_timer(DialogId::unchecked_new(format!("s{}", 1000 + i), "l", "r"), Duration::from_secs(10_000_000), i % 2 == 0);
            }
        });
    }
    let mut hs = vec![];
    for th in 0..p.threads {
        let (rt, log, rx, mgr, p) = (rt.clone(), log.clone(), rx.clone(), mgr.clone(), p.clone());
        hs.push(sim::spawn_on(n, move || {
            let _g = rt.handle().enter();
            // session -> (half, full) of the current timer
            let mut dl: BTreeMap<usize, (u64, u64)> = BTreeMap::new();
            let barrier = |l: L| {
                let mut g = rx.lock().unwrap();
                while let Ok(e) = g.try_recv() {
                    note(&log, e);
                }
                slog!("{l:?}");
                log.lock().unwrap().push(l);
            };
            for o in p.ops.iter().filter(|o| o.th == th) {
                let now = sim::now();
                let until = match (o.rel.as_str(), dl.get(&o.s)) {
                    ("half", Some((h, _))) => (h + o.wait).saturating_sub(1_000_000_000),
                    ("full", Some((_, f))) => (f + o.wait).saturating_sub(1_000_000_000),
                    _ => now + o.wait.min(100_000_000_000),
                };
                if until > now {
                    sim::sleep(Duration::from_nanos(until - now));
                }
                let id = DialogId::unchecked_new(format!("s{}", o.s), "l", "r");
                match o.kind.as_str() {
                    "start" | "refresh" => {
                        let se = o.se_ms * 1_000_000;
                        let t = sim::now();
                        barrier(L::StartBegin { s: o.s, t, se, refresher: o.refresher });
                        let t0 = sim::now();
                        if o.kind == "start" {
                            mgr.start_timer(id.clone(), Duration::from_millis(o.se_ms), o.refresher);
                        } else {
                            mgr.refresh_timer(id.clone(), Duration::from_millis(o.se_ms), o.refresher);
                        }
                        let t1 = sim::now();
                        let rem = mgr.time_remaining(&id);
                        let t2 = sim::now();
                        if t2 < t0 + se {
                            match rem {
                                None => sim::violation("D04", "timer-missing", format!("session {}: no timer right after it was started", o.s)),
                                Some(r) => {
                                    let r = r.as_nanos() as u64;
                                    ensure_that!("D04", "remaining", r <= se && r + (t2 - t0) >= se && r <= se.saturating_sub(0), "session {}: {r} ns remaining of {se}", o.s);
                                }
                            }
                        }
                        barrier(L::StartEnd { s: o.s, t: t1 });
                        dl.insert(o.s, (t0 + se / 2, t0 + se));
                    }
                    "stop" => {
                        barrier(L::StopBegin { s: o.s, t: sim::now() });
                        mgr.stop_timer(&id);
                        ensure_that!("D04", "timer-after-stop", !mgr.has_timer(&id), "session {}: timer still there after stop", o.s);
                        barrier(L::StopEnd { s: o.s });
                    }
                    "clear" => {
                        let ids: Vec<usize> = dl.keys().copied().collect();
                        for s in &ids {
                            barrier(L::StopBegin { s: *s, t: sim::now() });
                        }
                        mgr.clear();
                        for s in &ids {
                            barrier(L::StopEnd { s: *s });
                        }
                    }
                    _ => {
                        if let Some(r) = mgr.time_remaining(&id) {
                            let f = dl.get(&o.s).map(|d| d.1).unwrap_or(0);
                            let now = sim::now();
                            ensure_that!("D04", "remaining-drift", now + r.as_nanos() as u64 <= f + 1_000_000_000 || now > f, "session {}: {} ns remaining, deadline in {}", o.s, r.as_nanos(), f.saturating_sub(now));
                        }
                    }
                }
            }
        }));
    }
    for h in hs {
        let _ = h.join();
    }
    // let everything still due happen
    let last = log.lock().unwrap().iter().filter_map(|l| if let L::StartBegin { t, se, .. } = l { Some(t + se) } else { None }).max().unwrap_or(0);
    let end = last.max(sim::now()) + 200_000_000_000;
    sim::sleep(Duration::from_nanos(end - sim::now()));
    let left = mgr.active_count();
    stop.notify_one();
    let _ = drainer.join();
    ensure_that!("D04", "timer-left", left == p.crowd, "{left} timers still there long after the last deadline, {} are not due", p.crowd);
    // --- judge
    const TOL: u64 = 1_000_000_000;
    let latest = |d: u64| {
        let mut l = d;
        // back-to-back stalls add up
        for _ in 0..stalls.len() {
            for (s, n) in &stalls {
                if *s <= l + TOL && s + n > l {
                    l = s + n;
                }
            }
        }
        l + TOL
    };
    let log = log.lock().unwrap();
    struct Gen {
        t_inv: u64,
        t_ret: u64,
        se: u64,
        refresher: bool,
        refresh: u32,
        expired: u32,
        /// the next operation on the session begins / has ended
        kill_at: Option<u64>,
        dead: bool,
    }
    let sessions: BTreeSet<usize> = p.ops.iter().map(|o| o.s).collect();
    for s in sessions {
        let mut gens: Vec<Gen> = vec![];
        for l in log.iter() {
            match l {
                L::StartBegin { s: x, t, se, refresher } if *x == s => {
                    if let Some(g) = gens.last_mut() {
                        g.kill_at.get_or_insert(*t);
                    }
                    gens.push(Gen { t_inv: *t, t_ret: u64::MAX, se: *se, refresher: *refresher, refresh: 0, expired: 0, kill_at: None, dead: false });
                }
                L::StartEnd { s: x, t } if *x == s => {
                    let n = gens.len();
                    gens[n - 1].t_ret = *t;
                    if n > 1 {
                        gens[n - 2].dead = true;
                    }
                }
                L::StopBegin { s: x, t } if *x == s => {
                    if let Some(g) = gens.last_mut() {
                        g.kill_at.get_or_insert(*t);
                    }
                }
                L::StopEnd { s: x } if *x == s => {
                    if let Some(g) = gens.last_mut() {
                        g.dead = true;
                    }
                }
                L::Refresh { s: x, t } if *x == s => {
                    let c = gens.iter_mut().find(|g| !g.dead && g.refresher && g.refresh == 0 && g.expired == 0 && *t >= g.t_inv + g.se / 2);
                    match c {
                        Some(g) => g.refresh += 1,
                        None => sim::violation("D04", "stray-refresh", format!("session {s}: refresh signalled at {} ms with no timer due; log {:?}", t / 1_000_000, tail(&log, s))),
                    }
                }
                L::Expired { s: x, t } if *x == s => {
                    let c = gens.iter_mut().find(|g| !g.dead && g.expired == 0 && *t >= g.t_inv + g.se);
                    match c {
                        Some(g) => {
                            ensure_that!("D04", "refresh-skipped", !g.refresher || g.refresh == 1, "session {s}: expired without asking for a refresh");
                            g.expired += 1;
                            sim::probe("expired");
                        }
                        None => sim::violation("D04", "stray-expiry", format!("session {s}: expiry signalled at {} ms with no timer due; log {:?}", t / 1_000_000, tail(&log, s))),
                    }
                }
                _ => {}
            }
            // what is overdue at this point of the log?
            let now = match l {
                L::StartBegin { t, .. } | L::StartEnd { t, .. } | L::Refresh { t, .. } | L::Expired { t, .. } | L::StopBegin { t, .. } => *t,
                _ => continue,
            };
            for g in &gens {
                overdue(s, g.t_ret, g.se, g.refresher, g.refresh, g.expired, g.kill_at, now, &latest);
            }
        }
        for g in &gens {
            overdue(s, g.t_ret, g.se, g.refresher, g.refresh, g.expired, g.kill_at, end, &latest);
            if g.refresh > 0 {
                sim::probe("refresh");
            }
        }
    }
}
#[allow(clippy::too_many_arguments)]
fn overdue(s: usize, t_ret: u64, se: u64, refresher: bool, refresh: u32, expired: u32, kill: Option<u64>, now: u64, latest: &dyn Fn(u64) -> u64) {
    if t_ret == u64::MAX {
        return;
    }
    let until = kill.unwrap_or(u64::MAX).min(now);
    let l = latest(t_ret + se / 2);
    if refresher && refresh == 0 && expired == 0 && until > l {
        sim::violation("D04", "refresh-late", format!("session {s}: no refresh signalled by {} ms (due {} ms)", l / 1_000_000, (t_ret + se / 2) / 1_000_000));
    }
    let l = latest(t_ret + se);
    if expired == 0 && until > l {
        sim::violation("D04", "expiry-late", format!("session {s}: no expiry signalled by {} ms (due {} ms)", l / 1_000_000, (t_ret + se) / 1_000_000));
    }
}
fn tail(log: &[L], s: usize) -> Vec<String> {
    let f = |l: &&L| matches!(l, L::StartBegin { s: x, .. } | L::StartEnd { s: x, .. } | L::StopBegin { s: x, .. } | L::StopEnd { s: x } | L::Refresh { s: x, .. } | L::Expired { s: x, .. } if *x == s);
    let v: Vec<String> = log.iter().filter(f).map(|l| format!("{l:?}")).collect();
    v[v.len().saturating_sub(10)..].to_vec()
}
