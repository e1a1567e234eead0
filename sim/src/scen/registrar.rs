//! G01-G04: the registrar and its location service against concurrent
//! clients, late and duplicated requests, expiry, clean-up and storage faults.
use super::*;
use crate::{ensure_that, sim, slog};
use anyhow::Result;
use msg::*;
use serde::{Deserialize, Serialize};
use sip_auth::{Authenticator, Credentials};
use sip_core::{Headers, Method, Request, Response};
use sip_registrar::{AsyncLocationStore, AsyncToSyncAdapter, BasicRegistrar, Binding, LocationStore, MemoryLocationStore, Registrar, SyncToAsyncAdapter};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::time::Duration;

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Ct {
    c: usize,
    exp: Option<u64>,
    /// "", "q", "uri", "scheme", "reg-id", "instance", "expires"
    bad: String,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Op {
    th: usize,
    /// reg, wild, lookup, cleanup, sleep
    kind: String,
    aor: usize,
    form: u64,
    cid: usize,
    cseq: u32,
    cts: Vec<Ct>,
    hexp: Option<u64>,
    /// "", or a fault of the request as a whole
    bad: String,
    ms: u64,
}
#[derive(Serialize, Deserialize, Clone)]
struct Plan {
    store: u8,
    outage: bool,
    min: u64,
    max: u64,
    def: u64,
    auth: bool,
    limit: bool,
    threads: usize,
    aors: usize,
    ops: Vec<Op>,
}

pub fn scenario() -> Scenario {
    Scenario {
        name: "registrar",
        gen,
        tune: |r, k, v| {
            tune_threads(r, k);
            k.stall_max_ns = r.log(1e5, 3e9) as u64;
            if v["store"] == 5 {
                k.workers = 2 + r.below(2) as u8;
            }
        },
        run,
        real: "sip-registrar (BasicRegistrar sync and async, MemoryLocationStore, both adapters), sip-core, sip-parse, sip-ratelimit, tokio, dashmap",
        stub: "storage fault layer (delays, errors before and after applying), authenticator, request senders",
        deadlock_is_violation: true,
    }
}

/// Phones that come and go while the location service is being cleaned up:
/// the last binding of an address disappears (removed or expired) and the
/// phone registers again.
fn gen_churn(r: &mut sim::Rng) -> Value {
    let phones = r.range(1, 3) as usize;
    let sweepers = r.range(1, 2) as usize;
    let (min, max) = (60, 120);
    let mut ops = Vec::new();
    let blank = |th: usize, kind: &str| Op { th, kind: kind.into(), aor: 0, form: 0, cid: 0, cseq: 0, cts: vec![], hexp: None, bad: String::new(), ms: 0 };
    let nap = r.chance(0.4);
    for ph in 0..phones {
        let mut cseq = 1;
        for _ in 0..r.range(1, 4) {
            let mut reg = |e: u64, cseq: &mut u32| {
                let mut o = blank(ph, "reg");
                o.aor = ph;
                o.cid = ph;
                o.cseq = *cseq;
                *cseq += 1;
                o.cts = vec![Ct { c: ph, exp: Some(e), bad: String::new() }];
                o
            };
            ops.push(reg(60, &mut cseq));
            if r.chance(0.5) {
                let mut s = blank(ph, "sleep");
                s.ms = 60_000 + r.below(3);
                ops.push(s);
            } else if r.chance(0.8) {
                ops.push(reg(0, &mut cseq));
            } else {
                let mut o = blank(ph, "wild");
                o.aor = ph;
                o.cid = ph;
                o.hexp = Some(0);
                o.cseq = cseq;
                cseq += 1;
                ops.push(o);
            }
            if nap {
                let mut s = blank(ph, "sleep");
                s.ms = 1 + r.below(3);
                ops.push(s);
            }
            ops.push(reg(60 + r.below(60), &mut cseq));
            let mut l = blank(ph, "lookup");
            l.aor = ph;
            ops.push(l);
        }
    }
    for sw in 0..sweepers {
        for _ in 0..r.range(3, 12) {
            ops.push(blank(phones + sw, "cleanup"));
            if r.chance(0.5) {
                let mut s = blank(phones + sw, "sleep");
                s.ms = if r.chance(0.4) { 60_000 + r.below(4) } else { r.below(4) };
                ops.push(s);
            }
        }
    }
    let store = *r.pick(&[0, 0, 1, 2]);
    serde_json::to_value(Plan { store, outage: false, min, max, def: 60, auth: false, limit: false, threads: phones + sweepers, aors: phones.min(3), ops }).unwrap()
}

fn gen(r: &mut sim::Rng, prop: &str, _t: Tier) -> Value {
    if r.chance(if prop == "G01" { 0.3 } else { 0.05 }) {
        return gen_churn(r);
    }
    let threads = r.range(1, 4) as usize;
    let aors = r.range(1, 3) as usize;
    let crowd = r.chance(if prop == "G04" { 0.5 } else { 0.1 });
    let ncont = if crowd { r.range(18, 26) } else { r.range(1, 4) };
    let cids = r.range(1, 3);
    // Binding itself insists on 60..=86400
    let min = *r.pick(&[60, 60, 61, 90]);
    let max = min * r.range(1, 4) + r.below(10);
    let def = r.range(min, max);
    let mut cs = vec![r.range(1, 50) as u32; cids as usize];
    let mut ops: Vec<Op> = Vec::new();
    let nops = if crowd { r.range(20, 60) } else { r.range(4, 36) };
    let pbad = if prop == "G02" { 0.4 } else { 0.2 };
    for _ in 0..nops {
        let th = r.below(threads as u64) as usize;
        let mut op = Op { th, kind: "reg".into(), aor: r.below(aors as u64) as usize, form: r.u() >> 16, cid: r.below(cids) as usize, cseq: 0, cts: vec![], hexp: None, bad: String::new(), ms: 0 };
        if !ops.is_empty() && r.chance(0.1) {
            // a late or duplicated copy, from whoever
            let prev: Vec<&Op> = ops.iter().filter(|o| o.kind == "reg" || o.kind == "wild").collect();
            if !prev.is_empty() {
                let mut o = (*r.pick(&prev)).clone();
                o.th = th;
                ops.push(o);
                continue;
            }
        }
        let draw_exp = |r: &mut sim::Rng| -> u64 {
            match r.below(12) {
                0..=1 => 0,
                2..=4 => min,
                5 => max,
                6 => min.saturating_sub(1),
                7 => max + 1,
                _ => r.range(min, max),
            }
        };
        match r.below(20) {
            0..=11 => {
                let n = if r.chance(0.6) { 1 } else { r.range(2, ncont.min(6).max(2)) };
                for _ in 0..n {
                    let e = if r.chance(0.2) { None } else { Some(draw_exp(r)) };
                    op.cts.push(Ct { c: r.below(ncont) as usize, exp: e, bad: if r.chance(pbad * 0.15) { r.pick(&["q", "uri", "scheme", "reg-id", "expires"]).to_string() } else { String::new() } });
                }
                // naming a contact twice in one request is not defined
                let mut once = BTreeSet::new();
                op.cts.retain(|c| once.insert(c.c));
                // every good contact short-lived now and then, to hit expiry
                if r.chance(0.5) {
                    for c in &mut op.cts {
                        if c.exp.map_or(true, |e| e < min || e > max) && !r.chance(pbad) && c.exp != Some(0) {
                            c.exp = Some(min);
                        }
                    }
                }
                op.hexp = if r.chance(0.2) { Some(draw_exp(r)) } else { None };
                if r.chance(pbad * 0.3) {
                    op.bad = r.pick(&["401", "403", "host", "503", "nocontact", "mixed", "to", "via", "path", "scheme"]).to_string();
                }
            }
            12 => {
                op.kind = "wild".into();
                op.hexp = if r.chance(0.1) { None } else { Some(if r.chance(0.8) { 0 } else { 30 }) };
                if r.chance(pbad * 0.2) {
                    op.bad = "401".into();
                }
            }
            13..=15 => {
                op.kind = "lookup".into();
            }
            16 => {
                op.kind = "cleanup".into();
            }
            _ => {
                op.kind = "sleep".into();
                op.ms = match r.below(6) {
                    0 => min * 1000,
                    1 => min * 1000 - 1 - r.below(50),
                    2 => min * 1000 + r.below(200),
                    3 => max * 1000 + r.below(100),
                    _ => r.below(min * 700 + 1),
                };
            }
        }
        if op.kind == "reg" || op.kind == "wild" {
            let c = &mut cs[op.cid];
            op.cseq = match r.below(10) {
                0 => *c,
                1 => c.saturating_sub(1 + r.below(3) as u32).max(1),
                _ => {
                    *c += 1 + r.below(2) as u32;
                    *c
                }
            };
        }
        ops.push(op);
    }
    let store = r.below(6) as u8;
    serde_json::to_value(Plan { store, outage: store != 0 && r.chance(0.1), min, max, def, auth: r.chance(0.5), limit: r.chance(0.15), threads, aors, ops }).unwrap()
}

fn aor_name(i: usize) -> String {
    if i == 2 { "tel:+15550002".into() } else { format!("sip:u{i}@example.com") }
}
fn aor_user(i: usize) -> String {
    if i == 2 { "+15550002".into() } else { format!("u{i}") }
}
fn to_header(i: usize, form: u64) -> String {
    if i == 2 {
        return ["<tel:+15550002>", "<tel:+1-555-0002>", "<tel:+1.555.0002>"][form as usize % 3].into();
    }
    match form % 5 {
        0 => format!("<sip:u{i}@example.com>"),
        1 => format!("<sip:u{i}@EXAMPLE.com>"),
        2 => format!("\"Bob\" <sip:u{i}@example.com;transport=tcp>"),
        3 => format!("<sip:u{i}@Example.Com>;tag=x"),
        _ => format!("sip:u{i}@example.com"),
    }
}
fn contact(c: usize) -> String {
    // the first few differ in one place only, and some begin like another
    match c {
        0 => return "sip:c0@10.0.0.1:506".into(),
        1 => return "sip:c0@10.0.0.1:5060".into(),
        2 => return "sip:c0@10.0.0.1:5060;transport=tcp".into(),
        3 => return "sip:C0@10.0.0.1:5060".into(),
        4 => return "sips:c0@10.0.0.1:5060".into(),
        _ => {}
    }
    format!("sip:c{c}@10.0.0.{}:5060", c % 200 + 1)
}

/// Storage with faults, over the real in-memory store.
#[derive(Clone)]
struct Faulty {
    inner: MemoryLocationStore,
    st: Arc<Mutex<FaultState>>,
}
#[derive(Default)]
struct FaultState {
    outage: bool,
    cool: BTreeMap<String, u32>,
    /// (aor, time) of every failed call
    failed: Vec<(String, u64)>,
}
#[derive(PartialEq)]
enum Hit {
    No,
    Before,
    After,
}
impl Faulty {
    fn hit(&self, aor: &str) -> Hit {
        let mut s = self.st.lock().unwrap();
        let outage = s.outage;
        let c = s.cool.entry(aor.to_string()).or_insert(0);
        if *c > 0 {
            *c -= 1;
            return Hit::No;
        }
        if !sim::buggify() {
            return Hit::No;
        }
        if !outage {
            *c = 60;
        }
        s.failed.push((aor.to_string(), sim::now()));
        if sim::buggify_val(2) == 1 {
            sim::fault("storage_error_after_apply");
            Hit::After
        } else {
            sim::fault("storage_error");
            Hit::Before
        }
    }
    fn delay(&self) -> u64 {
        let d = sim::buggify_val(300);
        if d > 0 {
            sim::fault("storage_delay");
        }
        d
    }
    fn call<T>(&self, aor: &str, f: impl FnOnce() -> Result<T>) -> Result<T> {
        match self.hit(aor) {
            Hit::No => f(),
            Hit::Before => Err(anyhow::anyhow!("storage down")),
            Hit::After => {
                let _ = f();
                Err(anyhow::anyhow!("storage connection lost"))
            }
        }
    }
}
impl LocationStore for Faulty {
    fn upsert(&self, b: Binding) -> Result<()> {
        sim::sleep_ms(self.delay());
        self.call(&b.aor().to_string(), || LocationStore::upsert(&self.inner, b))
    }
    fn remove(&self, a: &str, c: &str) -> Result<()> {
        sim::sleep_ms(self.delay());
        self.call(a, || LocationStore::remove(&self.inner, a, c))
    }
    fn remove_all(&self, a: &str) -> Result<()> {
        sim::sleep_ms(self.delay());
        self.call(a, || LocationStore::remove_all(&self.inner, a))
    }
    fn lookup(&self, a: &str) -> Result<Vec<Binding>> {
        sim::sleep_ms(self.delay());
        self.call(a, || LocationStore::lookup(&self.inner, a))
    }
    fn cleanup_expired(&self) -> Result<usize> {
        LocationStore::cleanup_expired(&self.inner)
    }
}
#[async_trait::async_trait]
impl AsyncLocationStore for Faulty {
    async fn upsert(&self, b: Binding) -> Result<()> {
        tokio::time::sleep(Duration::from_millis(self.delay())).await;
        self.call(&b.aor().to_string(), || LocationStore::upsert(&self.inner, b))
    }
    async fn remove(&self, a: &str, c: &str) -> Result<()> {
        tokio::time::sleep(Duration::from_millis(self.delay())).await;
        self.call(a, || LocationStore::remove(&self.inner, a, c))
    }
    async fn remove_all(&self, a: &str) -> Result<()> {
        tokio::time::sleep(Duration::from_millis(self.delay())).await;
        self.call(a, || LocationStore::remove_all(&self.inner, a))
    }
    async fn lookup(&self, a: &str) -> Result<Vec<Binding>> {
        tokio::time::sleep(Duration::from_millis(self.delay())).await;
        self.call(a, || LocationStore::lookup(&self.inner, a))
    }
    async fn cleanup_expired(&self) -> Result<usize> {
        LocationStore::cleanup_expired(&self.inner)
    }
}

struct StubAuth;
impl Authenticator for StubAuth {
    fn challenge(&self, r: &Request) -> Result<Response> {
        let hs: Vec<(&str, String)> = ["Via", "From", "To", "Call-ID", "CSeq"].iter().filter_map(|n| r.headers().get(n).map(|v| (*n, v.to_string()))).collect();
        Ok(response(&text("SIP/2.0 401 Unauthorized", &hs, "")))
    }
    fn verify(&self, _r: &Request, h: &Headers) -> Result<bool> {
        Ok(h.get("Authorization").map_or(false, |a| a.contains("response=\"good\"")))
    }
    fn credentials_for(&self, _m: &Method, _u: &str) -> Option<Credentials> {
        None
    }
}

type Fut<T> = Pin<Box<dyn Future<Output = T> + Send>>;
#[derive(Clone)]
enum Front {
    Sync(Arc<dyn Fn(&Request) -> Result<Response> + Send + Sync>),
    Async(Arc<dyn Fn(Request) -> Fut<Result<Response>> + Send + Sync>),
}
impl Front {
    async fn call(&self, r: Request) -> Result<Response> {
        match self {
            Front::Sync(f) => f(&r),
            Front::Async(f) => f(r).await,
        }
    }
}

fn build<S: Send + Sync + 'static>(s: S, p: &Plan) -> BasicRegistrar<S, StubAuth> {
    let mut b = BasicRegistrar::new(s, if p.auth { Some(StubAuth) } else { None })
        .with_default_expires(Duration::from_secs(p.def))
        .with_min_expires(Duration::from_secs(p.min))
        .with_max_expires(Duration::from_secs(p.max));
    if p.limit {
        // the one limited key is used up beforehand
        let rl = sip_ratelimit::RateLimiter::new(sip_ratelimit::RateLimitConfig::new(1, 86_400).unwrap());
        rl.check_rate_limit("bad");
        b = b.with_rate_limiter_key_fn(rl, Arc::new(|r: &Request| r.headers().get("X-Limit").map(|_| "bad".into())));
    }
    b
}

#[derive(Clone, Debug)]
struct Seen {
    contact: String,
    q: Option<u64>,
    cseq: Option<u32>,
    cid: Option<String>,
    exp_lo: u64,
    exp_hi: u64,
    path: Option<String>,
}
#[derive(Clone, Debug, PartialEq)]
enum Res {
    Code(u16, String),
    Err(String),
}
#[derive(Clone, Debug)]
struct Rec {
    id: usize,
    op: Op,
    inv: u64,
    ret: u64,
    si: u64,
    sr: u64,
    res: Res,
    /// contacts of a 200 answer, or of a lookup
    list: Option<Vec<Seen>>,
}

fn make_request(p: &Plan, id: usize, op: &Op) -> Request {
    let n = sim::seq();
    let mut hs: Vec<(&str, String)> = vec![];
    if op.bad != "via" {
        hs.push(("Via", format!("SIP/2.0/UDP h;branch=z9hG4bK{n}")));
    }
    hs.push(("From", format!("<sip:u{}@example.com>;tag=f", op.aor)));
    hs.push(("To", if op.bad == "host" && p.auth { "<sip:example.com>".into() } else if op.bad == "scheme" { "<http://example.com/u>".into() } else if op.bad == "to" { "<sip:".into() } else { to_header(op.aor, op.form) }));
    hs.push(("Call-ID", format!("cid{}", op.cid)));
    hs.push(("CSeq", if op.bad == "cseq" { "x REGISTER".into() } else { format!("{} REGISTER", op.cseq) }));
    if op.bad == "path" {
        hs.push(("Path", "<<".into()));
    } else {
        hs.push(("Path", format!("<sip:p{id}.example.com;lr>")));
    }
    if p.auth {
        let user = if op.bad == "403" { "mallory".to_string() } else { aor_user(op.aor) };
        let resp = if op.bad == "401" { "evil" } else { "good" };
        hs.push(("Authorization", format!("Digest username=\"{user}\", realm=\"r\", nonce=\"n\", uri=\"sip:example.com\", response=\"{resp}\"")));
    }
    if p.limit && op.bad == "503" {
        hs.push(("X-Limit", "1".into()));
    }
    if let Some(e) = op.hexp {
        hs.push(("Expires", e.to_string()));
    }
    if op.kind == "wild" {
        hs.push(("Contact", "*".into()));
    } else if op.bad != "nocontact" {
        let mut cs = vec![];
        for c in &op.cts {
            let uri = match c.bad.as_str() {
                "scheme" => "mailto:x@example.com".to_string(),
                _ => contact(c.c),
            };
            let mut s = if c.bad == "uri" {
                format!("<{uri}")
            } else {
                match (op.form >> 8) % 8 {
                    0 => format!("\"C, {}; expires=7\" <{uri}>", c.c),
                    1 => format!("C <{uri}>"),
                    2 | 3 if !uri.contains(';') => uri.clone(),
                    4 => format!("< {uri} >"),
                    _ => format!("<{uri}>"),
                }
            };
            match c.bad.as_str() {
                "q" => s.push_str(";q=1.5"),
                _ => s.push_str(&format!(";q=0.{:03}", id)),
            }
            match c.bad.as_str() {
                "reg-id" => s.push_str(";reg-id=x"),
                "instance" => s.push_str(";+sip.instance=x"),
                "expires" => s.push_str(";expires=soon"),
                _ => {}
            }
            if c.bad != "expires" {
                if let Some(e) = c.exp {
                    s.push_str(&format!(";expires={e}"));
                }
            }
            cs.push(s);
        }
        if op.bad == "mixed" {
            cs.push("*".into());
        }
        if op.form & 64 != 0 {
            hs.push((if op.form & 32 != 0 { "m" } else { "Contact" }, cs.join(", ")));
        } else {
            for c in cs {
                hs.push(("Contact", c));
            }
        }
    }
    request(&text("REGISTER sip:example.com SIP/2.0", &hs, ""))
}
/// What the request asks for each contact (last mention wins), or the status
/// codes it may be refused with whatever the bindings are.
fn intent(p: &Plan, op: &Op) -> std::result::Result<BTreeMap<usize, u64>, Vec<u16>> {
    let mut bad = vec![];
    match op.bad.as_str() {
        "401" if p.auth => bad.push(401),
        "403" | "host" if p.auth => bad.push(403),
        "503" if p.limit => bad.push(503),
        "nocontact" | "mixed" | "to" | "via" | "cseq" | "path" | "scheme" if op.kind == "reg" => bad.push(400),
        _ => {}
    }
    let mut m = BTreeMap::new();
    if op.kind == "wild" {
        if op.hexp != Some(0) {
            bad.push(400);
        }
    } else {
        for c in &op.cts {
            if !c.bad.is_empty() {
                bad.push(400);
            }
            let e = if c.bad == "expires" { 0 } else { c.exp.or(op.hexp).unwrap_or(p.def) };
            if e > 0 && e < p.min {
                bad.push(423);
            }
            if e > p.max {
                bad.push(400);
            }
            m.insert(c.c, e);
        }
    }
    if bad.is_empty() { Ok(m) } else { Err(bad) }
}

struct World {
    p: Plan,
    mem: MemoryLocationStore,
    front: Front,
    hist: Mutex<Vec<Rec>>,
}

fn parse_list(resp: &Response) -> Vec<Seen> {
    let mut v = vec![];
    for h in resp.headers().get_all_smol("Contact") {
        let h = h.as_str();
        if h == "*" {
            continue;
        }
        let uri = h.trim_start_matches('<').split('>').next().unwrap_or("").to_string();
        let e: Option<u64> = param(h, "expires").and_then(|e| e.parse().ok());
        let q = param(h, "q").and_then(|q| q.parse::<f64>().ok()).map(|q| (q * 1000.0).round() as u64);
        match e {
            Some(e) => v.push(Seen { contact: uri, q, cseq: None, cid: None, exp_lo: e * 1_000_000_000, exp_hi: (e + 1) * 1_000_000_000, path: None }),
            None => sim::violation("G01", "no-expires-listed", format!("a 200 to REGISTER lists a contact without its lifetime: {h}")),
        }
    }
    v
}

async fn actor(w: Arc<World>, th: usize, asynch: bool) {
    for (id, op) in w.p.ops.clone().into_iter().enumerate() {
        if op.th != th {
            continue;
        }
        let (si, inv) = (sim::seq(), sim::now());
        let mut list = None;
        let res = match op.kind.as_str() {
            "sleep" => {
                if asynch {
                    tokio::time::sleep(Duration::from_millis(op.ms)).await;
                } else {
                    sim::sleep_ms(op.ms);
                }
                continue;
            }
            "cleanup" => {
                let _ = w.mem.cleanup_expired();
                slog!("cleanup");
                continue;
            }
            "lookup" => {
                let l = w.mem.lookup(&aor_name(op.aor)).unwrap_or_default();
                list = Some(
                    l.iter()
                        .map(|b| Seen {
                            contact: b.contact().to_string(),
                            q: Some((b.q_value() as f64 * 1000.0).round() as u64),
                            cseq: Some(b.cseq()),
                            cid: Some(b.call_id().to_string()),
                            exp_lo: b.expires().as_nanos() as u64,
                            exp_hi: b.expires().as_nanos() as u64,
                            path: b.path().map(|p| p.to_string()),
                        })
                        .collect(),
                );
                Res::Code(200, String::new())
            }
            _ => {
                let req = make_request(&w.p, id, &op);
                match w.front.call(req).await {
                    Err(e) => Res::Err(e.to_string()),
                    Ok(r) => {
                        if r.code() == 200 && op.kind == "reg" {
                            list = Some(parse_list(&r));
                        }
                        if r.code() == 423 {
                            let m = r.headers().get("Min-Expires").map(|s| s.to_string()).unwrap_or_default();
                            ensure_that!("G04", "min-expires", m == w.p.min.to_string(), "423 names Min-Expires {m:?}, the minimum is {}", w.p.min);
                        }
                        Res::Code(r.code(), r.reason().to_string())
                    }
                }
            }
        };
        let (sr, ret) = (sim::seq(), sim::now());
        slog!("#{id} {} aor{} cid{} cseq{} {:?} hexp={:?} bad={} -> {res:?} {}", op.kind, op.aor, op.cid, op.cseq, op.cts, op.hexp, op.bad, list.as_ref().map_or(String::new(), |l| format!("{:?}", l.iter().map(|s| (s.contact.clone(), s.q, s.exp_lo / 1_000_000)).collect::<Vec<_>>())));
        w.hist.lock().unwrap().push(Rec { id, op, inv, ret, si, sr, res, list });
    }
}

fn run(v: &Value) {
    let p: Plan = serde_json::from_value(v.clone()).unwrap();
    let mem = MemoryLocationStore::new();
    let st = Arc::new(Mutex::new(FaultState { outage: p.outage, ..Default::default() }));
    let faulty = Faulty { inner: mem.clone(), st: st.clone() };
    fn sync<S: LocationStore + 'static>(r: BasicRegistrar<S, StubAuth>) -> Front {
        let r = Arc::new(r);
        Front::Sync(Arc::new(move |q| r.handle_register(q)))
    }
    fn asy<S: AsyncLocationStore + 'static>(r: BasicRegistrar<S, StubAuth>) -> Front {
        let r = Arc::new(r);
        Front::Async(Arc::new(move |q| {
            let r = r.clone();
            Box::pin(async move { r.handle_register_async(&q).await })
        }))
    }
    let front = match p.store {
        0 => sync(build(mem.clone(), &p)),
        1 => sync(build(faulty, &p)),
        2 => asy(build(mem.clone(), &p)),
        3 => asy(build(faulty, &p)),
        4 => asy(build(SyncToAsyncAdapter::new(faulty), &p)),
        _ => sync(build(AsyncToSyncAdapter::new(faulty), &p)),
    };
    let w = Arc::new(World { p: p.clone(), mem, front, hist: Default::default() });
    if p.store >= 2 {
        let rt = sim::runtime();
        rt.block_on(async {
            let hs: Vec<_> = (0..p.threads).map(|t| tokio::spawn(actor(w.clone(), t, true))).collect();
            for h in hs {
                if h.await.is_err() {
                    sim::violation("G01", "panic", "handling a REGISTER panicked");
                }
            }
        });
        rt.shutdown_background();
    } else {
        let hs: Vec<_> = (0..p.threads)
            .map(|t| {
                let w = w.clone();
                sim::spawn(move || futures_block(actor(w, t, false)))
            })
            .collect();
        for h in hs {
            if h.join().is_err() {
                sim::violation("G01", "panic", "handling a REGISTER panicked");
            }
        }
    }
    // a last look at every address
    for a in 0..p.aors {
        let op = Op { th: 0, kind: "lookup".into(), aor: a, form: 0, cid: 0, cseq: 0, cts: vec![], hexp: None, bad: String::new(), ms: 0 };
        let (si, inv) = (sim::seq(), sim::now());
        let l = w.mem.lookup(&aor_name(a)).unwrap_or_default();
        let list = l
            .iter()
            .map(|b| Seen { contact: b.contact().to_string(), q: Some((b.q_value() as f64 * 1000.0).round() as u64), cseq: Some(b.cseq()), cid: Some(b.call_id().to_string()), exp_lo: b.expires().as_nanos() as u64, exp_hi: b.expires().as_nanos() as u64, path: b.path().map(|p| p.to_string()) })
            .collect();
        let (sr, ret) = (sim::seq(), sim::now());
        w.hist.lock().unwrap().push(Rec { id: 9999, op, inv, ret, si, sr, res: Res::Code(200, String::new()), list: Some(list) });
    }
    let mut hist = w.hist.lock().unwrap().clone();
    hist.sort_by_key(|r| r.si);
    let failed = st.lock().unwrap().failed.clone();
    judge(&p, &hist, &failed);
}
fn futures_block<F: Future>(f: F) -> F::Output {
    // the futures of the synchronous mode never return Pending
    let mut f = Box::pin(f);
    let w = std::task::Waker::noop();
    match f.as_mut().poll(&mut std::task::Context::from_waker(w)) {
        std::task::Poll::Ready(v) => v,
        std::task::Poll::Pending => unreachable!(),
    }
}

const S: u64 = 1_000_000_000;
fn judge(p: &Plan, hist: &[Rec], failed: &[(String, u64)]) {
    // ---- per operation
    for r in hist {
        if r.op.kind == "lookup" {
            let l = r.list.as_ref().unwrap();
            ensure_that!("G04", "aor-limit", l.len() <= 20, "{} bindings for one address-of-record (limit 20)", l.len());
            for s in l {
                ensure_that!("G04", "over-max", s.exp_hi <= p.max * S, "a binding lives {} ms more, the maximum is {} s", s.exp_hi / 1_000_000, p.max);
            }
        }
        if let Some(l) = &r.list {
            let set: BTreeSet<&String> = l.iter().map(|s| &s.contact).collect();
            ensure_that!("G01", "listed-twice", set.len() == l.len(), "op {}: a contact is listed twice: {:?}", r.id, l);
            for s in l {
                ensure_that!("G01", "unknown-contact", (0..40).any(|c| contact(c) == s.contact), "op {}: contact {} was never registered", r.id, s.contact);
            }
        }
        if r.op.kind != "reg" && r.op.kind != "wild" {
            continue;
        }
        match (intent(p, &r.op), &r.res) {
            (Err(codes), Res::Code(c, why)) => {
                if !codes.contains(c) {
                    let prop = if codes.iter().any(|c| *c == 423) && codes.len() == 1 { "G04" } else { "G02" };
                    if *c == 200 {
                        let cls = if prop == "G04" { "too-short-accepted" } else { "bad-request-accepted" };
                        sim::violation(prop, cls, format!("op {}: REGISTER that must be refused with {codes:?} was accepted", r.id));
                    } else if !(*c == 400 && why.contains("CSeq")) {
                        sim::violation(prop, "wrong-refusal", format!("op {}: REGISTER that must be refused with {codes:?} was answered {c} {why}", r.id));
                    }
                }
            }
            (Ok(m), Res::Code(c, why)) if *c != 200 => {
                // only an older or equal CSeq may be refused
                let cause = hist.iter().any(|o| {
                    o.id != r.id && o.op.aor == r.op.aor && o.si < r.sr && o.op.cid == r.op.cid && o.op.cseq >= r.op.cseq && intent(p, &o.op).is_ok() && !matches!(o.res, Res::Code(c, _) if c != 200) && (r.op.kind == "wild" || o.op.cts.iter().any(|c| m.contains_key(&c.c)))
                });
                ensure_that!("G01", "refused", *c == 400 && cause, "op {}: a correct REGISTER was answered {c} {why}", r.id);
                ensure_that!("G04", "policy-refusal", *c == 400 && cause, "op {}: a correct REGISTER was answered {c} {why}", r.id);
            }
            (_, Res::Err(e)) => {
                let a = aor_name(r.op.aor);
                if !failed.iter().any(|(fa, t)| *fa == a && *t >= r.inv && *t <= r.ret) {
                    // only the limit can be the reason
                    let mut live: BTreeSet<usize> = r.op.cts.iter().map(|c| c.c).collect();
                    for o in hist.iter().filter(|o| o.op.aor == r.op.aor && o.si < r.sr) {
                        if let Ok(m) = intent(p, &o.op) {
                            for (c, e) in m {
                                if e > 0 && o.ret + e * S + (r.ret - r.inv) >= r.inv {
                                    live.insert(c);
                                }
                            }
                        }
                    }
                    ensure_that!("G04", "spurious-limit", live.len() > 20, "op {}: REGISTER failed ({e}) though at most {} bindings were live", r.id, live.len());
                    ensure_that!("G01", "spurious-error", live.len() > 20, "op {}: REGISTER failed ({e}) though the storage worked and at most {} bindings were live", r.id, live.len());
                }
            }
            _ => {}
        }
    }
    // ---- per contact: a register that expires
    for a in 0..p.aors {
        let mut cs: BTreeSet<usize> = BTreeSet::new();
        for r in hist.iter().filter(|r| r.op.aor == a) {
            cs.extend(r.op.cts.iter().map(|c| c.c));
        }
        for c in cs {
            let evs = events(p, hist, failed, a, c);
            if evs.is_empty() {
                continue;
            }
            if evs.len() > 120 {
                sim::probe("history_too_long");
                continue;
            }
            let what = |r: &str| format!("{r}; {} {}:{}", aor_name(a), contact(c), evs.iter().map(|e| format!("\n    {e:?}")).collect::<String>());
            match search(&evs, false, false, false) {
                Some(true) => {}
                None => sim::probe("search_gave_up"),
                Some(false) => {
                    if search(&evs, true, false, false) != Some(false) {
                        sim::violation("G02", "partial-apply-store-down", what("a REGISTER that failed while the storage kept failing left a change behind"));
                    } else if search(&evs, true, true, false) != Some(false) {
                        sim::violation("G02", "rejected-changed", what("the bindings are explained only if a REGISTER that was not accepted took effect"));
                        sim::violation("G01", "not-accepted-set", what("the bindings are explained only if a REGISTER that was not accepted took effect"));
                    } else if search(&evs, true, false, true) != Some(false) {
                        sim::violation("G03", "older-over-newer", what("the bindings are explained only if a REGISTER took effect over one with the same Call-ID and a CSeq at least as high"));
                    } else {
                        sim::violation("G01", "wrong-set", what("no order of the accepted registrations explains the bindings seen"));
                        // would ignoring lifetimes explain it?
                        let noexp: Vec<Ev> = evs.iter().cloned().map(|mut e| {
                            e.widen = u64::MAX / 4;
                            e
                        }).collect();
                        if search(&noexp, true, true, true) != Some(false) {
                            sim::violation("G04", "wrong-lifetime", what("a binding did not live exactly its granted time"));
                        }
                    }
                }
            }
        }
    }
}

#[derive(Clone, Debug)]
enum K {
    Set { id: usize, cid: usize, cseq: u32, grant: u64 },
    Del { cid: usize, cseq: u32 },
    Refused { cid: usize, cseq: u32 },
    /// not accepted: no effect, or (relaxed) the effect it asked for
    Failed { eff: Box<Option<K>>, lossy: bool },
    Read { seen: Option<Seen>, after: Option<usize> },
}
#[derive(Clone, Debug)]
struct Ev {
    si: u64,
    sr: u64,
    inv: u64,
    ret: u64,
    widen: u64,
    k: K,
}

fn events(p: &Plan, hist: &[Rec], failed: &[(String, u64)], a: usize, c: usize) -> Vec<Ev> {
    let mut v: Vec<Ev> = vec![];
    let name = aor_name(a);
    let touches = |op: &Op| op.kind == "wild" || op.cts.iter().any(|t| t.c == c);
    // reads while a failing request is being rolled back may see either state
    let blur: Vec<(u64, u64)> = hist.iter().filter(|r| r.op.aor == a && touches(&r.op) && matches!(r.res, Res::Err(_))).map(|r| (r.si, r.sr)).collect();
    for r in hist.iter().filter(|r| r.op.aor == a) {
        let base = Ev { si: r.si, sr: r.sr, inv: r.inv, ret: r.ret, widen: 0, k: K::Del { cid: 0, cseq: 0 } };
        let mut own = None;
        let (cid, cseq) = (r.op.cid, r.op.cseq);
        if r.op.kind != "lookup" && touches(&r.op) {
            let it = intent(p, &r.op);
            let eff = match &it {
                Ok(_) | Err(_) if r.op.kind == "wild" => Some(K::Del { cid, cseq }),
                Ok(m) => m.get(&c).map(|e| if *e == 0 { K::Del { cid, cseq } } else { K::Set { id: r.id, cid, cseq, grant: e * S } }),
                Err(_) => r.op.cts.iter().filter(|t| t.c == c).last().and_then(|t| match t.exp.or(r.op.hexp).unwrap_or(p.def) {
                    0 => Some(K::Del { cid, cseq }),
                    e => Some(K::Set { id: r.id, cid, cseq, grant: e * S }),
                }),
            };
            match (&r.res, eff) {
                (Res::Code(200, _), Some(e)) => {
                    own = Some(v.len());
                    v.push(Ev { k: e, ..base.clone() });
                }
                (Res::Code(_, why), eff) => {
                    let single = r.op.kind == "reg" && r.op.cts.len() == 1;
                    if it.is_ok() && single && why.contains("CSeq") {
                        v.push(Ev { k: K::Refused { cid, cseq }, ..base.clone() });
                    }
                    v.push(Ev { k: K::Failed { eff: Box::new(eff), lossy: false }, ..base.clone() });
                }
                (Res::Err(_), eff) => {
                    let n = failed.iter().filter(|(fa, t)| *fa == name && *t >= r.inv && *t <= r.ret).count();
                    v.push(Ev { widen: r.ret - r.inv + 1000, k: K::Failed { eff: Box::new(eff), lossy: n >= 2 }, ..base.clone() });
                }
            }
        }
        if let Some(l) = &r.list {
            if blur.iter().any(|b| b.0 < r.sr && r.si < b.1) {
                continue;
            }
            let seen = l.iter().find(|s| s.contact == contact(c)).cloned();
            v.push(Ev { k: K::Read { seen, after: own }, ..base.clone() });
        }
    }
    v
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
struct St {
    /// index of the event that set the binding
    set: u8,
    widen: u64,
}
/// Is there an order of the events, consistent with real time, in which each
/// does what an expiring register with a CSeq check would do?
fn search(evs: &[Ev], lossy: bool, failed: bool, nocseq: bool) -> Option<bool> {
    let n = evs.len();
    let mut seen: HashSet<(u128, St)> = HashSet::new();
    let mut stack = vec![(0u128, St { set: u8::MAX, widen: 0 })];
    let full = if n == 128 { u128::MAX } else { (1u128 << n) - 1 };
    while let Some((mask, st)) = stack.pop() {
        if mask == full {
            return Some(true);
        }
        if !seen.insert((mask, st)) {
            continue;
        }
        if seen.len() > 200_000 {
            return None;
        }
        let min_sr = (0..n).filter(|i| mask >> i & 1 == 0).map(|i| evs[i].sr).min().unwrap();
        for i in 0..n {
            if mask >> i & 1 == 1 || evs[i].si > min_sr {
                continue;
            }
            let e = &evs[i];
            let m2 = mask | 1 << i;
            // the binding in force, and when it lapses
            let cur = if st.set == u8::MAX {
                None
            } else {
                let s = &evs[st.set as usize];
                match s.k.eff() {
                    Some(K::Set { id, cid, cseq, grant }) => Some((id, cid, cseq, grant, (s.inv + grant).saturating_sub(st.widen), s.ret + grant + st.widen, s)),
                    _ => None,
                }
            };
            let surely = cur.as_ref().map_or(false, |c| e.ret < c.4);
            let maybe = cur.as_ref().map_or(false, |c| e.inv <= c.5);
            let older = |cid: usize, cseq: u32| cur.as_ref().map_or(false, |c| c.1 == cid && cseq <= c.2);
            match &e.k {
                K::Set { cid, cseq, .. } => {
                    if nocseq || !(surely && older(*cid, *cseq)) {
                        stack.push((m2, St { set: i as u8, widen: 0 }));
                    }
                }
                K::Del { cid, cseq } => {
                    if nocseq || !(surely && older(*cid, *cseq)) {
                        stack.push((m2, St { set: u8::MAX, widen: 0 }));
                    }
                }
                K::Refused { cid, cseq } => {
                    if nocseq || (maybe && older(*cid, *cseq)) {
                        stack.push((m2, st));
                    }
                }
                K::Failed { eff, lossy: l } => {
                    stack.push((m2, St { set: st.set, widen: st.widen.saturating_add(e.widen) }));
                    if failed || (lossy && *l) {
                        match **eff {
                            Some(K::Set { .. }) => stack.push((m2, St { set: i as u8, widen: 0 })),
                            Some(K::Del { .. }) => stack.push((m2, St { set: u8::MAX, widen: 0 })),
                            _ => {}
                        }
                    }
                }
                K::Read { seen, after } => {
                    if let Some(o) = after {
                        if mask >> o & 1 == 0 {
                            continue;
                        }
                    }
                    let ok = match (seen, &cur) {
                        (None, _) => !surely,
                        (Some(_), None) => false,
                        (Some(s), Some(c)) => {
                            let left_lo = c.4.saturating_sub(e.ret);
                            let left_hi = c.5.saturating_sub(e.inv);
                            maybe
                                && s.q.map_or(true, |q| q == c.0 as u64)
                                && s.cseq.map_or(true, |q| q == c.2)
                                && s.cid.as_ref().map_or(true, |q| *q == format!("cid{}", c.1))
                                && s.path.as_ref().map_or(true, |q| q.contains(&format!("sip:p{}.example", c.0)))
                                && s.exp_hi >= left_lo
                                && s.exp_lo <= left_hi
                        }
                    };
                    if ok {
                        stack.push((m2, st));
                    }
                }
            }
        }
    }
    Some(false)
}
impl K {
    fn eff(&self) -> Option<K> {
        match self {
            K::Set { .. } => Some(self.clone()),
            K::Failed { eff, .. } => (**eff).clone(),
            _ => None,
        }
    }
}

// ------------------------------------------------------------ the total limit
#[derive(Serialize, Deserialize, Clone)]
struct TotalPlan {
    room: u64,
    threads: usize,
    each: usize,
    expire: bool,
    cleanup: bool,
}
pub fn total() -> Scenario {
    Scenario {
        name: "regtotal",
        gen: |r, _, _| serde_json::to_value(TotalPlan { room: r.below(4), threads: r.range(1, 3) as usize, each: r.range(1, 4) as usize, expire: r.chance(0.9), cleanup: r.chance(0.9) }).unwrap(),
        tune: |r, k, _| {
            tune_threads(r, k);
            k.preempt_mean = *r.pick(&[0, 3000, 30000]);
            k.bb_limit = 60_000_000_000;
        },
        run: run_total,
        real: "sip-registrar MemoryLocationStore and BasicRegistrar, dashmap",
        stub: "request senders",
        deadlock_is_violation: true,
    }
}
const TOTAL: u64 = 100_000;
fn run_total(v: &Value) {
    let p: TotalPlan = serde_json::from_value(v.clone()).unwrap();
    let mem = MemoryLocationStore::new();
    let fill = TOTAL - p.room;
    let t0 = sim::now();
    sim::atomic(|| {
        for i in 0..fill {
            let short = i % 20 == 0 && p.expire;
            let b = Binding::new(format!("sip:f{}@example.com", i / 20).into(), contact((i % 20) as usize).into(), Duration::from_secs(if short { 60 } else { 86400 })).unwrap();
            if let Err(e) = LocationStore::upsert(&mem, b) {
                sim::violation("G04", "refused-below-total", format!("binding {i} was refused: {e}"));
                return;
            }
        }
    });
    slog!("filled {fill} in {} ns", sim::now() - t0);
    let reg = Arc::new(BasicRegistrar::<_, StubAuth>::new(mem.clone(), None));
    let round = |tag: &'static str| -> u64 {
        let ok = Arc::new(Mutex::new(0u64));
        let hs: Vec<_> = (0..p.threads)
            .map(|t| {
                let (reg, ok, n) = (reg.clone(), ok.clone(), p.each);
                sim::spawn(move || {
                    for i in 0..n {
                        let hs = [
                            ("Via", "SIP/2.0/UDP h;branch=z9hG4bK1".to_string()),
                            ("From", "<sip:a@example.com>;tag=f".into()),
                            ("To", format!("<sip:{tag}{t}-{i}@example.com>")),
                            ("Call-ID", format!("{tag}{t}-{i}")),
                            ("CSeq", "1 REGISTER".into()),
                            ("Contact", format!("<{}>;expires=3600", contact(1))),
                        ];
                        let r = reg.handle_register(&request(&text("REGISTER sip:example.com SIP/2.0", &hs, "")));
                        slog!("{tag}{t}-{i} -> {:?}", r.as_ref().map(|r| r.code()));
                        if r.map_or(false, |r| r.code() == 200) {
                            *ok.lock().unwrap() += 1;
                        }
                    }
                })
            })
            .collect();
        for h in hs {
            let _ = h.join();
        }
        let n = *ok.lock().unwrap();
        n
    };
    let want = (p.threads * p.each) as u64;
    let a = round("a");
    ensure_that!("G04", "total-limit", a <= p.room, "{a} registrations accepted with room for {} (limit {TOTAL} bindings in all)", p.room);
    ensure_that!("G04", "refused-below-total", a == want.min(p.room), "{a} of {want} registrations accepted with room for {}", p.room);
    if p.expire {
        sim::sleep(Duration::from_secs(61));
        if p.cleanup {
            let n = sim::atomic(|| mem.cleanup_expired().unwrap_or(0)) as u64;
            let short = fill.div_ceil(20);
            ensure_that!("G04", "cleanup-count", n == short, "clean-up removed {n} bindings, {short} had expired");
            let b = round("b");
            ensure_that!("G04", "expired-still-count", b == want, "{b} of {want} registrations accepted after clean-up of {short} expired bindings");
        }
    }
}
