//! A01, A02, A03: digest authentication against clients, a duplicating
//! network, attackers, store outages and server restarts.
use super::*;
use crate::{ensure_that, sim, slog};
use msg::*;
use serde::{Deserialize, Serialize};
use sha2::{Digest, Sha256, Sha512};
use sip_auth::{AsyncCredentialStore, Authenticator, CredentialStore, Credentials, DigestAlgorithm, DigestAuthenticator, DigestClient, NonceManager, Qop};
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::{Arc, Mutex, RwLock};
use std::time::Duration;

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Op {
    a: usize,
    kind: String,
    x: u64,
    y: u64,
    z: u64,
}
#[derive(Serialize, Deserialize, Clone)]
struct Plan {
    alg: u8,
    int: bool,
    ttl_ms: u64,
    age_ms: u64,
    proxy: bool,
    asynch: bool,
    limiter: bool,
    clients: usize,
    actors: usize,
    ops: Vec<Op>,
}

pub fn scenario() -> Scenario {
    Scenario {
        name: "auth",
        gen,
        tune: |r, k, _| {
            tune_threads(r, k);
            k.stall_max_ns = r.log(1e5, 3e9) as u64;
        },
        run,
        real: "sip-auth (DigestAuthenticator, NonceManager, DigestClient), sip-parse, sip-core, sip-ratelimit, tokio, dashmap",
        stub: "credential store (delays, outages), request senders, attacker",
        deadlock_is_violation: true,
    }
}

fn gen(r: &mut sim::Rng, _p: &str, _t: Tier) -> Value {
    let clients = r.range(1, 3) as usize;
    let actors = clients + r.range(1, 3) as usize; // the rest: network and attackers
    let ttl_ms = *r.pick(&[300, 1500, 5000, 60000, 300000]);
    let age_ms = *r.pick(&[200, 1000, 4000, 10000, 60000]);
    let mut ops = Vec::new();
    for a in 0..clients {
        ops.push(Op { a, kind: "challenge".into(), x: 0, y: 0, z: 0 });
    }
    for _ in 0..r.range(6, 50) {
        let a = r.below(actors as u64) as usize;
        let client = a < clients;
        let kind = if client {
            match r.below(20) {
                0..=9 => "send",
                10 => "jump",
                11..=12 => "resend",
                13 => "challenge",
                14..=17 => "sleep",
                18 => "libsend",
                _ => "info",
            }
        } else {
            match r.below(24) {
                0..=4 => "dup",
                5..=9 => "alter",
                10..=14 => "guess",
                15 => "forge",
                16 => "bare",
                17 => "zero",
                18 => "foreign",
                19 => "stale",
                20 => if r.chance(0.15) { "restart" } else { "outage" },
                _ => "sleep",
            }
        };
        let x = match kind {
            "sleep" => match r.below(6) {
                0 => ttl_ms + r.below(50),
                1 => age_ms + r.below(50),
                2 => age_ms.saturating_sub(r.below(100)),
                3 => ttl_ms.saturating_sub(r.below(100)).min(400000),
                _ => r.below(age_ms * 2 / 3 + 1),
            },
            _ => r.u() >> 16,
        };
        ops.push(Op { a, kind: kind.into(), x, y: r.u() >> 16, z: r.u() >> 16 });
    }
    serde_json::to_value(Plan { alg: r.below(9) as u8, int: r.chance(0.3), ttl_ms, age_ms, proxy: r.chance(0.3), asynch: r.chance(0.5), limiter: r.chance(0.2), clients, actors, ops }).unwrap()
}

fn alg(i: u8) -> DigestAlgorithm {
    ["MD5", "SHA-256", "SHA-512", "SHA-512-256", "MD5-sess", "SHA-256-sess", "SHA-256", "SHA-512-sess", "SHA-512-256-sess"].get(i as usize).and_then(|s| DigestAlgorithm::parse(s)).unwrap_or(DigestAlgorithm::Sha256)
}
fn h(a: u8, d: &[u8]) -> String {
    match a {
        0 | 4 => format!("{:x}", md5::compute(d)),
        2 | 7 => hex::encode(Sha512::digest(d)),
        3 | 8 => hex::encode(&Sha512::digest(d)[..32]),
        _ => hex::encode(Sha256::digest(d)),
    }
}
const REALM: &str = "example.com";
const METHODS: [&str; 5] = ["INVITE", "REGISTER", "BYE", "OPTIONS", "MESSAGE"];
fn password(user: &str) -> String {
    format!("pw-{user}")
}
fn user(i: usize) -> String {
    format!("user{i}")
}

#[derive(Clone, Debug, PartialEq)]
struct Packet {
    method: String,
    uri: String,
    duri: String,
    body: String,
    user: String,
    realm: String,
    nonce: String,
    nc: String,
    cnonce: String,
    response: String,
    opaque: String,
    via: String,
}
impl Packet {
    fn digest(&self, a: u8, int: bool, pw: &str) -> String {
        let mut ha1 = h(a, format!("{}:{REALM}:{pw}", self.user).as_bytes());
        if matches!(a, 4 | 5 | 7 | 8) {
            ha1 = h(a, format!("{ha1}:{}:{}", self.nonce, self.cnonce).as_bytes());
        }
        let ha2 = if int {
            h(a, format!("{}:{}:{}", self.method, self.duri, h(a, self.body.as_bytes())).as_bytes())
        } else {
            h(a, format!("{}:{}", self.method, self.duri).as_bytes())
        };
        h(a, format!("{ha1}:{}:{}:{}:{}:{ha2}", self.nonce, self.nc, self.cnonce, if int { "auth-int" } else { "auth" }).as_bytes())
    }
    fn good(&self, a: u8, int: bool) -> bool {
        self.user.starts_with("user") && self.realm == REALM && self.duri == self.uri && self.response == self.digest(a, int, &password(&self.user))
    }
    fn req_id(&self) -> String {
        format!("{} {} {}", self.method, self.uri, self.body)
    }
    fn ncv(&self) -> u64 {
        u64::from_str_radix(&self.nc, 16).unwrap_or(u64::MAX)
    }
    fn request(&self, a: u8, int: bool, proxy: bool, bare: bool) -> sip_core::Request {
        let mut hs = vec![
            ("Via", format!("SIP/2.0/UDP {};branch=z9hG4bK{}", self.via, sim::seq())),
            ("From", format!("<sip:{}@example.com>;tag=f", self.user)),
            ("To", "<sip:x@example.com>".to_string()),
            ("Call-ID", format!("c-{}", self.user)),
            ("CSeq", format!("1 {}", self.method)),
        ];
        if !bare {
            hs.push((
                if proxy { "Proxy-Authorization" } else { "Authorization" },
                format!(
                    "Digest username=\"{}\", realm=\"{}\", nonce=\"{}\", uri=\"{}\", response=\"{}\", algorithm={}, cnonce=\"{}\", qop={}, nc={}, opaque=\"{}\"",
                    self.user, self.realm, self.nonce, self.duri, self.response, alg(a).as_str(), self.cnonce, if int { "auth-int" } else { "auth" }, self.nc, self.opaque
                ),
            ));
        }
        request(&text(&format!("{} {} SIP/2.0", self.method, self.uri), &hs, &self.body))
    }
}

#[derive(Clone)]
struct Store {
    outage: Arc<AtomicBool>,
    hit: Arc<Mutex<u64>>,
}
impl Store {
    fn get(&self, u: &str) -> Option<Credentials> {
        if self.outage.load(SeqCst) || sim::buggify() {
            sim::fault("credential_store_outage");
            *self.hit.lock().unwrap() += 1;
            return None;
        }
        u.starts_with("user").then(|| Credentials::new(u, password(u), REALM))
    }
}
impl CredentialStore for Store {
    fn fetch(&self, u: &str, _r: &str) -> Option<Credentials> {
        let d = sim::buggify_val(400);
        if d > 0 {
            sim::fault("credential_store_delay");
            sim::sleep_ms(d);
        }
        self.get(u)
    }
}
#[async_trait::async_trait]
impl AsyncCredentialStore for Store {
    async fn fetch(&self, u: &str, _r: &str) -> Option<Credentials> {
        let d = sim::buggify_val(400);
        if d > 0 {
            sim::fault("credential_store_delay");
            tokio::time::sleep(Duration::from_millis(d)).await;
        }
        self.get(u)
    }
}

type Auth = DigestAuthenticator<Store>;
#[derive(Clone, Debug)]
struct Issue {
    inst: usize,
    inv: u64,
    ret: u64,
}
#[derive(Clone, Debug)]
struct Rec {
    inst: usize,
    inv: u64,
    ret: u64,
    si: u64,
    sr: u64,
    p: Packet,
    ok: bool,
    err: String,
    good: bool,
}
struct World {
    p: Plan,
    auth: RwLock<(usize, Arc<Auth>)>,
    other: Auth,
    store: Store,
    issued: Mutex<std::collections::BTreeMap<String, Issue>>,
    hist: Mutex<Vec<Rec>>,
    /// packets seen on the wire
    wire: Mutex<Vec<Packet>>,
    sessions: Mutex<Vec<(String, String, u64)>>, // nonce, opaque, last nc
}
fn make(p: &Plan, s: &Store, limit: bool) -> Auth {
    let mut a = DigestAuthenticator::new(REALM, s.clone())
        .with_algorithm(alg(p.alg))
        .with_qop(if p.int { Qop::AuthInt } else { Qop::Auth })
        .with_proxy_auth(p.proxy)
        .with_nonce_ttl(Duration::from_millis(p.ttl_ms))
        .with_max_request_age(Duration::from_millis(p.age_ms));
    if limit {
        let c = sip_ratelimit::RateLimitConfig::new(100, 1000).unwrap();
        a = a.with_rate_limiter(sip_ratelimit::RateLimiter::new(c));
    }
    a
}
impl World {
    fn cur(&self) -> (usize, Arc<Auth>) {
        let g = self.auth.read().unwrap();
        (g.0, g.1.clone())
    }
    fn challenge(&self, req: &sip_core::Request, stale: bool) -> Option<(String, String)> {
        let (inst, a) = self.cur();
        let inv = sim::now();
        let r = if stale { Authenticator::challenge_stale(&*a, req) } else { a.challenge(req) };
        let ret = sim::now();
        let r = r.ok()?;
        ensure_that!("A02", "challenge-code", r.code() == if self.p.proxy { 407 } else { 401 }, "challenge answered {}", r.code());
        let hv = r.headers().get(if self.p.proxy { "Proxy-Authenticate" } else { "WWW-Authenticate" })?.to_string();
        ensure_that!("A02", "stale-flag", dparam(&hv, "stale").map_or(false, |s| s.eq_ignore_ascii_case("true")) == stale, "stale flag wrong in {hv}");
        let nonce = dparam(&hv, "nonce")?;
        let opaque = dparam(&hv, "opaque").unwrap_or_default();
        let dup = self.issued.lock().unwrap().insert(nonce.clone(), Issue { inst, inv, ret });
        ensure_that!("A02", "nonce-not-unique", dup.is_none(), "nonce {nonce} was issued twice");
        Some((nonce, opaque))
    }
    async fn submit(&self, p: &Packet, bare: bool) -> bool {
        let req = p.request(self.p.alg, self.p.int, self.p.proxy, bare);
        let (inst, a) = self.cur();
        // freshness queries, before the decision
        let i = self.issued.lock().unwrap().get(&p.nonce).cloned();
        let (si, inv) = (sim::seq(), sim::now());
        let r = if self.p.asynch { a.verify_async(&req, req.headers()).await } else { a.verify(&req, req.headers()) };
        let (sr, ret) = (sim::seq(), sim::now());
        let ok = matches!(r, Ok(true));
        let err = r.err().map(|e| e.to_string()).unwrap_or_default();
        slog!("verify user={} nonce={} nc={} {} good={} -> {ok} {err}", p.user, &p.nonce[..p.nonce.len().min(6)], p.nc, p.req_id(), p.good(self.p.alg, self.p.int));
        self.hist.lock().unwrap().push(Rec { inst, inv, ret, si, sr, p: p.clone(), ok: ok && !bare, err, good: !bare && p.good(self.p.alg, self.p.int) });
        ensure_that!("A01", "accepted-without-credentials", !(ok && bare), "a request without credentials was accepted");
        if !bare {
            let ttl = self.p.ttl_ms * 1_000_000;
            let t0 = sim::now();
            let stale = a.nonce_is_stale(&req);
            let t1 = sim::now();
            match &i {
                Some(i) if i.inst == inst => {
                    ensure_that!("A02", "stale-too-early", !(stale && t1 <= i.inv + ttl), "nonce reported stale {} ns after issue (lifetime {ttl})", t1 - i.inv);
                    ensure_that!("A02", "not-reported-stale", stale || t0 <= i.ret + ttl, "genuine nonce not reported stale {} ns after issue (lifetime {ttl})", t0 - i.ret);
                }
                _ => ensure_that!("A02", "foreign-nonce-stale", !stale, "a nonce this server did not issue is reported stale"),
            }
        }
        ok
    }
}

fn run(v: &Value) {
    let p: Plan = serde_json::from_value(v.clone()).unwrap();
    let store = Store { outage: Arc::new(AtomicBool::new(false)), hit: Arc::new(Mutex::new(0)) };
    let w = Arc::new(World {
        auth: RwLock::new((0, Arc::new(make(&p, &store, p.limiter)))),
        other: make(&p, &store, false),
        store,
        issued: Default::default(),
        hist: Default::default(),
        wire: Default::default(),
        sessions: Mutex::new(vec![Default::default(); p.clients]),
        p: p.clone(),
    });
    if p.asynch {
        let rt = sim::runtime();
        rt.block_on(async {
            let hs: Vec<_> = (0..p.actors).map(|a| tokio::spawn(actor(w.clone(), a))).collect();
            for h in hs {
                let _ = h.await;
            }
        });
    } else {
        let hs: Vec<_> = (0..p.actors)
            .map(|a| {
                let w = w.clone();
                sim::spawn(move || tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap().block_on(actor(w, a)))
            })
            .collect();
        for h in hs {
            let _ = h.join();
        }
    }
    judge(&w);
}

fn target(i: u64) -> String {
    ["sip:t0@example.com", "sip:t1@example.com", "sip:t2@example.com;transport=tcp"][(i % 3) as usize].into()
}
fn body(i: u64, long: u64) -> String {
    // bodies may differ only at their ends
    format!("body{}{i}", if long % 4 == 1 { "x".repeat(3000) } else { String::new() })
}
async fn actor(w: Arc<World>, me: usize) {
    let p = w.p.clone();
    let client = me < p.clients;
    let via = if client { format!("10.0.0.{me}:5060") } else { "10.9.9.9:5060".to_string() };
    let mut last: Option<Packet> = None;
    let mut lib = DigestClient::new(&user(me), &password(&user(me)));
    let mut lib_seen: Vec<(String, u64)> = vec![];
    for op in p.ops.iter().filter(|o| o.a == me) {
        let base = |nonce: String, opaque: String, nc: u64, u: String, pw: String| {
            let mut q = Packet {
                method: METHODS[(op.y % 5) as usize].into(),
                uri: target(op.y / 8),
                duri: target(op.y / 8),
                body: if op.y / 64 % 3 == 0 { String::new() } else { body(op.y / 256 % 2, op.y / 512) },
                user: u,
                realm: REALM.into(),
                nonce,
                nc: format!("{nc:08x}"),
                cnonce: format!("cn{}", op.z % 4),
                response: String::new(),
                opaque,
                via: via.clone(),
            };
            q.response = q.digest(p.alg, p.int, &pw);
            q
        };
        match op.kind.as_str() {
            "sleep" => tokio::time::sleep(Duration::from_millis(op.x)).await,
            "challenge" | "stale" => {
                let q = base("x".into(), "".into(), 1, user(me), "".into());
                let req = q.request(p.alg, p.int, p.proxy, true);
                if let (Some((n, o)), true) = (w.challenge(&req, op.kind == "stale" || op.x % 7 == 0), client) {
                    w.sessions.lock().unwrap()[me] = (n, o, 0);
                }
            }
            "send" | "jump" => {
                let (n, o, nc) = {
                    let mut s = w.sessions.lock().unwrap();
                    let e = &mut s[me];
                    e.2 += match op.kind.as_str() {
                        "jump" => 1 + op.x % 1000,
                        _ => 1 + if op.x % 5 == 0 { op.x / 5 % 3 } else { 0 },
                    };
                    e.clone()
                };
                if n.is_empty() {
                    continue;
                }
                let q = base(n, o, nc, user(me), password(&user(me)));
                w.wire.lock().unwrap().push(q.clone());
                last = Some(q.clone());
                w.submit(&q, false).await;
            }
            "libsend" => {
                // the real client on a session of its own
                let q0 = base("x".into(), "".into(), 1, user(me), "".into());
                let req = q0.request(p.alg, p.int, p.proxy, true);
                let Some((n, o)) = w.challenge(&req, false) else { continue };
                if op.z % 6 == 0 {
                    // a client that has been in use for long
                    for _ in 0..1100 {
                        lib.generate_authorization(&sip_core::Method::Options, "sip:x@example.com", REALM, "earlier", alg(p.alg), Some(Qop::Auth), Some(&o), b"");
                    }
                }
                for i in 0..1 + op.x % 3 {
                    let mut q = base(n.clone(), o.clone(), 1, user(me), "".into());
                    let m = q.request(p.alg, p.int, p.proxy, true).method().clone();
                    let a = lib.generate_authorization(&m, &q.uri, REALM, &n, alg(p.alg), Some(if p.int { Qop::AuthInt } else { Qop::Auth }), Some(&o), q.body.as_bytes());
                    q.nc = dparam(&a, "nc").unwrap_or_default();
                    q.cnonce = dparam(&a, "cnonce").unwrap_or_default();
                    q.response = dparam(&a, "response").unwrap_or_default();
                    ensure_that!("A01", "client-digest", q.good(p.alg, p.int), "the client computed a wrong digest: {a}");
                    let key = (n.clone(), q.ncv());
                    ensure_that!("A01", "client-reuses-credential", !lib_seen.contains(&key), "the client used nc {} twice on one nonce", q.nc);
                    let lastnc = lib_seen.iter().filter(|s| s.0 == n).map(|s| s.1).max().unwrap_or(0);
                    ensure_that!("A03", "client-nc-jumps", key.1 > lastnc && key.1 <= lastnc + 1000, "the client's nonce count went from {lastnc} to {} (the server refuses this)", key.1);
                    lib_seen.push(key);
                    w.wire.lock().unwrap().push(q.clone());
                    let _ = i;
                    w.submit(&q, false).await;
                }
            }
            "resend" => {
                if let Some(q) = &last {
                    w.submit(&q.clone(), false).await;
                }
            }
            "info" => {
                if let (Some(q), false) = (&last, p.asynch) {
                    let req = q.request(p.alg, p.int, p.proxy, false);
                    let (_, a) = w.cur();
                    let _ = a.build_auth_info(&req, b"", None);
                }
            }
            "dup" | "alter" => {
                let q = {
                    let wire = w.wire.lock().unwrap();
                    if wire.is_empty() { None } else { Some(wire[op.x as usize % wire.len()].clone()) }
                };
                let Some(mut q) = q else { continue };
                if op.kind == "alter" {
                    // someone who saw the packet but has no password
                    q.via = via.clone();
                    match op.y % 9 {
                        0 => q.method = METHODS[(op.z % 5) as usize].into(),
                        1 => {
                            q.uri = target(op.z);
                            q.duri = q.uri.clone();
                        }
                        2 => {
                            q.uri = match op.z % 5 {
                                0 | 1 => "sip:evil@example.com".into(),
                                2 => q.uri.replace("sip:t", "sip:T"),
                                3 => q.uri.split(';').next().unwrap().to_string(),
                                _ => format!("{};lr", q.uri),
                            }
                        }
                        3 => q.body = if q.body.len() > 10 { body(op.z % 3, 1) } else { body(op.z % 3, 0) },
                        4 => q.nc = format!("{:08x}", q.ncv() + 1 + op.z % 3),
                        5 => {
                            let s = w.sessions.lock().unwrap();
                            q.nonce = s[op.z as usize % s.len()].0.clone();
                        }
                        6 => q.user = user(op.z as usize % p.clients),
                        7 => q.nc = q.nc.trim_start_matches('0').to_string(),
                        _ => q.response = q.response.chars().rev().collect(),
                    }
                    if q.nonce.is_empty() || q.nc.is_empty() {
                        continue;
                    }
                }
                w.submit(&q, false).await;
            }
            "guess" | "zero" => {
                let (n, o, nc) = {
                    let s = w.sessions.lock().unwrap();
                    s[op.x as usize % s.len()].clone()
                };
                if n.is_empty() {
                    continue;
                }
                let nc = if op.kind == "zero" { 0 } else { match op.z % 5 { 0 => nc + 1, 1 => nc + 1000, 2 => nc + 2 + op.z / 5 % 900, 3 => 0xffff, _ => nc } };
                let u = if op.z / 64 % 4 == 0 { "nobody".to_string() } else { user(op.x as usize % p.clients) };
                // "zero": a legitimate user counting from zero
                let pw = if op.kind == "zero" { password(&u) } else { "guess".into() };
                let q = base(n, o, nc, u, pw);
                if op.kind == "zero" {
                    w.wire.lock().unwrap().push(q.clone());
                }
                w.submit(&q, false).await;
            }
            "forge" => {
                // right password, nonce made up
                let o = w.sessions.lock().unwrap()[0].1.clone();
                let q = base(format!("{:032x}", op.x), o, 1, user(op.z as usize % p.clients), password(&user(op.z as usize % p.clients)));
                w.submit(&q, false).await;
            }
            "foreign" => {
                let q0 = base("x".into(), "".into(), 1, user(0), "".into());
                let req = q0.request(p.alg, p.int, p.proxy, true);
                let r = w.other.challenge(&req).unwrap();
                let hv = r.headers().get(if p.proxy { "Proxy-Authenticate" } else { "WWW-Authenticate" }).unwrap().to_string();
                let o = if op.x % 2 == 0 { dparam(&hv, "opaque").unwrap() } else { w.sessions.lock().unwrap()[0].1.clone() };
                let q = base(dparam(&hv, "nonce").unwrap(), o, 1, user(0), password(&user(0)));
                w.submit(&q, false).await;
            }
            "bare" => {
                let q = base("x".into(), "".into(), 1, user(0), "".into());
                w.submit(&q, true).await;
            }
            "restart" => {
                sim::fault("server_restart");
                let a = Arc::new(make(&p, &w.store, p.limiter));
                let mut g = w.auth.write().unwrap();
                *g = (g.0 + 1, a);
            }
            "outage" => {
                w.store.outage.store(true, SeqCst);
                tokio::time::sleep(Duration::from_millis(op.x % 2000)).await;
                w.store.outage.store(false, SeqCst);
            }
            _ => unreachable!(),
        }
    }
}

fn judge(w: &World) {
    let hist = w.hist.lock().unwrap().clone();
    let issued = w.issued.lock().unwrap().clone();
    let (ttl, age) = (w.p.ttl_ms * 1_000_000, w.p.age_ms * 1_000_000);
    let short = |n: &str| n[..n.len().min(6)].to_string();
    for (ix, x) in hist.iter().enumerate() {
        let iss = issued.get(&x.p.nonce).filter(|i| i.inst == x.inst);
        let same: Vec<(usize, &Rec)> = hist.iter().enumerate().filter(|(j, o)| *j != ix && o.inst == x.inst && o.p.nonce == x.p.nonce).collect();
        if x.ok {
            ensure_that!("A01", "bad-digest-accepted", x.good, "accepted though the digest is wrong: {:?}", x.p);
            match iss {
                None => sim::violation("A02", "foreign-nonce-accepted", format!("nonce {} was not issued by this server", x.p.nonce)),
                Some(i) => ensure_that!("A02", "expired-nonce-accepted", x.inv <= i.ret + ttl, "nonce accepted {} ns after issue, lifetime {ttl}", x.inv - i.ret),
            }
            let mut before = 0;
            for (_, o) in &same {
                if !o.ok || o.p.ncv() != x.p.ncv() {
                    continue;
                }
                ensure_that!("A01", "nc-authorised-two-requests", o.p.req_id() == x.p.req_id(), "nonce {} nc {} authorised both [{}] and [{}]", short(&x.p.nonce), x.p.nc, o.p.req_id(), x.p.req_id());
                if o.sr < x.si {
                    before += 1;
                }
            }
            if before > 0 {
                sim::probe("repeat_accepted");
                let last = same.iter().filter(|(_, o)| o.ok && o.si < x.sr).map(|(_, o)| o.ret).max().unwrap_or(0);
                ensure_that!("A01", "late-repeat-accepted", x.inv <= last + age, "a repeat of nonce {} nc {} was accepted {} ns after the last use of the nonce; the window is {age} ns", short(&x.p.nonce), x.p.nc, x.inv - last);
            }
        } else if x.good && iss.is_some() {
            let i = iss.unwrap();
            if !x.err.is_empty() {
                // rate limiter: clients stay far below it; the store: an outage
                ensure_that!("A03", "client-rate-limited", !(x.err.contains("rate limit") && !x.p.via.starts_with("10.9") && hist.iter().filter(|o| o.p.via == x.p.via).count() < 90), "{} is rate limited by other clients' traffic", x.p.user);
                continue;
            }
            if x.ret > i.inv + ttl || x.p.ncv() == 0 || x.p.ncv() > 1_000_000 {
                continue;
            }
            // anything with a right digest and this or a higher count could have used it up
            if same.iter().any(|(_, o)| o.good && o.si < x.sr && (o.p.ncv() > x.p.ncv() || (o.p.ncv() == x.p.ncv() && (o.p.req_id() != x.p.req_id() || o.ok)))) {
                continue;
            }
            let done_nc = same.iter().filter(|(_, o)| o.ok && o.sr < x.si).map(|(_, o)| o.p.ncv()).max().unwrap_or(0);
            if x.p.ncv() > done_nc + 1000 {
                continue;
            }
            let done = same.iter().filter(|(_, o)| o.ok && o.sr < x.si).map(|(_, o)| o.inv).max();
            let conc = same.iter().filter(|(_, o)| o.ok && o.sr >= x.si && o.si < x.sr).map(|(_, o)| o.inv).min();
            if let Some(t) = done.or(conc) {
                if x.ret > t + age {
                    continue;
                }
            }
            let bad = same.iter().filter(|(_, o)| !o.good && o.si < x.sr).count();
            sim::violation("A03", "legitimate-request-refused", format!("nonce {} nc {} of {} refused though alive and unused (last accepted count {done_nc}, {bad} bad attempts on the nonce before)", short(&x.p.nonce), x.p.nc, x.p.user));
        }
        if x.ok {
            sim::probe("accepted");
        }
        if !x.good {
            sim::probe("bad_attempt");
        }
    }
}

// ---------------------------------------------------------------------------
#[derive(Serialize, Deserialize, Clone)]
struct NPlan {
    ttl_ms: u64,
    max: usize,
    threads: usize,
    ops: Vec<Op>,
}
pub fn nonces() -> Scenario {
    Scenario {
        name: "nonces",
        gen: |r, _, t| {
            let threads = r.range(1, 4) as usize;
            let big = r.chance(if t == Tier::Thorough { 0.02 } else { 0.004 });
            let max = if big { 0 } else { *r.pick(&[1, 2, 3, 5, 9, 10, 12, 25, 40]) };
            let ttl_ms = *r.pick(&[50, 400, 3000, 60000]);
            let mut ops: Vec<Op> = (0..r.range(4, 40))
                .map(|_| {
                    let kind = *r.pick(&["gen", "gen", "gen", "verify", "use", "stale", "cleanup", "sleep", "count"]);
                    Op { a: r.below(threads as u64) as usize, kind: kind.into(), x: if kind == "sleep" { *r.pick(&[ttl_ms, ttl_ms + 1, ttl_ms / 2, ttl_ms / 10, 1]) } else { r.below(1000) }, y: r.range(1, (max as u64 / 2).max(3)), z: 0 }
                })
                .collect();
            if big {
                for t in 0..threads {
                    ops.push(Op { a: t, kind: "gen".into(), x: 0, y: 10_300 / threads as u64, z: 0 });
                    ops.push(Op { a: t, kind: "count".into(), x: 0, y: 0, z: 0 });
                }
            }
            serde_json::to_value(NPlan { ttl_ms, max, threads, ops }).unwrap()
        },
        tune: |r, k, p| {
            tune_threads(r, k);
            if p["max"] == 0 {
                k.preempt_mean = 10000;
            }
        },
        run: run_nonces,
        real: "sip-auth NonceManager, dashmap",
        stub: "callers",
        deadlock_is_violation: true,
    }
}
#[derive(Clone)]
struct G {
    v: String,
    inv: u64,
    ret: u64,
    si: u64,
}
fn run_nonces(v: &Value) {
    let p: NPlan = serde_json::from_value(v.clone()).unwrap();
    let mut m = NonceManager::new(Duration::from_millis(p.ttl_ms));
    let max = if p.max == 0 { 10_000 } else { p.max };
    if p.max > 0 {
        m = m.with_max_nonces(p.max);
    }
    let m = Arc::new(m);
    let gens: Arc<Mutex<Vec<G>>> = Default::default();
    let cleaned = Arc::new(AtomicBool::new(false));
    let started: Arc<Mutex<Vec<u64>>> = Default::default();
    let ttl = p.ttl_ms * 1_000_000;
    let hs: Vec<_> = (0..p.threads)
        .map(|t| {
            let (m, gens, p, cleaned, started) = (m.clone(), gens.clone(), p.clone(), cleaned.clone(), started.clone());
            sim::spawn(move || {
                let mut uses: std::collections::HashMap<String, u32> = Default::default();
                let big = p.max == 0;
                for op in p.ops.iter().filter(|o| o.a == t) {
                    match op.kind.as_str() {
                        "sleep" => sim::sleep_ms(op.x),
                        "cleanup" => {
                            cleaned.store(true, SeqCst);
                            m.cleanup();
                        }
                        "gen" => {
                            for _ in 0..op.y {
                                let (si, inv) = (sim::seq(), sim::now());
                                started.lock().unwrap().push(si);
                                let n = m.generate();
                                let ret = sim::now();
                                let g = G { v: n.value().to_string(), inv, ret, si };
                                let mut gs = gens.lock().unwrap();
                                if !big {
                                    ensure_that!("A02", "nonce-not-unique", gs.iter().all(|o| o.v != g.v), "nonce {} generated twice", g.v);
                                }
                                gs.push(g);
                                drop(gs);
                                if big && sim::seq() % 64 != 0 {
                                    continue;
                                }
                                if let Some(c) = sim::snapshot(|| m.count()) {
                                    ensure_that!("A02", "nonce-cap-exceeded", c <= max, "{c} nonces remembered, the cap is {max}");
                                }
                            }
                        }
                        "count" => {
                            if let Some(c) = sim::snapshot(|| m.count()) {
                                ensure_that!("A02", "nonce-cap-exceeded", c <= max, "{c} nonces remembered, the cap is {max}");
                            }
                        }
                        _ => {
                            // another server's nonce, or one of ours
                            let g = {
                                let gs = gens.lock().unwrap();
                                if gs.is_empty() || op.x % 10 == 0 { None } else { Some(gs[gs.len() - 1 - op.x as usize % gs.len().min(max + 3)].clone()) }
                            };
                            let Some(g) = g else {
                                let f = "A".repeat(32);
                                ensure_that!("A02", "foreign-nonce-accepted", !m.verify(&f) && !m.verify_with_nc(&f, 1, &sip_core::Method::Invite, "sip:a@b", b""), "a nonce that was never issued verifies");
                                ensure_that!("A02", "foreign-nonce-stale", !m.is_stale(&f), "a nonce that was never issued is reported stale");
                                continue;
                            };
                            let inv = sim::now();
                            let (ok, stale) = match op.kind.as_str() {
                                "verify" => (m.verify(&g.v), false),
                                "use" => {
                                    let e = uses.entry(g.v.clone()).or_default();
                                    *e += 1;
                                    if p.threads > 1 { continue }
                                    if *e > 1 { continue }
                                    (m.verify_with_nc(&g.v, *e, &sip_core::Method::Invite, "sip:a@b", b""), false)
                                }
                                _ => {
                                    let s = m.is_stale(&g.v);
                                    (!s, s)
                                }
                            };
                            let ret = sim::now();
                            // how many were started after it (ties and concurrent ones included)?
                            let newer = started.lock().unwrap().iter().filter(|s| **s > g.si).count() + gens.lock().unwrap().iter().filter(|o| o.si < g.si && o.ret >= g.inv).count();
                            let kept = newer + 1 <= max - (max / 10).max(1);
                            if op.kind == "stale" {
                                ensure_that!("A02", "stale-too-early", !(stale && ret <= g.inv + ttl), "nonce reported stale {} ns after issue, lifetime {ttl}", ret - g.inv);
                                if !stale && inv > g.ret + ttl && !cleaned.load(SeqCst) && started.lock().unwrap().len() <= max {
                                    sim::violation("A02", "not-reported-stale", format!("genuine nonce not reported stale {} ns after issue, lifetime {ttl}", inv - g.ret));
                                }
                            } else {
                                ensure_that!("A02", "expired-nonce-accepted", !(ok && inv > g.ret + ttl), "nonce accepted {} ns after issue, lifetime {ttl}", inv - g.ret);
                                if !ok && ret <= g.inv + ttl && kept {
                                    sim::violation("A02", "live-nonce-refused", format!("nonce refused {} ns after issue (lifetime {ttl}), only {newer} newer ones, cap {max}", ret - g.inv));
                                }
                            }
                        }
                    }
                }
            })
        })
        .collect();
    for h in hs {
        let _ = h.join();
    }
    if p.max == 0 {
        let gs = gens.lock().unwrap();
        let n: std::collections::HashSet<&str> = gs.iter().map(|g| g.v.as_str()).collect();
        ensure_that!("A02", "nonce-not-unique", n.len() == gs.len(), "{} nonces, {} distinct", gs.len(), n.len());
        sim::probe("ten_thousand_nonces");
    }
}
