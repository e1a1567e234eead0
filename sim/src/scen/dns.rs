//! S01: the real resolver (sip-dns over hickory) against name servers that drop,
//! delay, refuse, truncate and fail queries, and against DHCP answers.
use super::*;
use crate::{sim, slog};
use hickory_resolver::config::{LookupIpStrategy, NameServerConfig, ResolveHosts, ResolverConfig, ResolverOpts};
use serde::{Deserialize, Serialize};
use sip_core::SipUri;
use sip_dns::{DhcpProvider, DhcpResolver, DhcpSipServer, DnsTarget, HybridResolver, Resolver, SipResolver, Transport};
use std::collections::{BTreeMap, BTreeSet};
use std::net::IpAddr;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::io::{AsyncReadExt, AsyncWriteExt};

const MS: u64 = 1_000_000;
const A: u16 = 1;
const CNAME: u16 = 5;
const AAAA: u16 = 28;
const SRV: u16 = 33;
const NAPTR: u16 = 35;

#[derive(Serialize, Deserialize, Clone, Debug)]
enum Rd {
    A(String),
    Cname(String),
    Srv(u16, u16, u16, String),
    /// order, preference, flags, service, replacement
    Naptr(u16, u16, String, String, String),
}
impl Rd {
    fn ty(&self) -> u16 {
        match self {
            Rd::A(ip) => if ip.contains(':') { AAAA } else { A },
            Rd::Cname(_) => CNAME,
            Rd::Srv(..) => SRV,
            Rd::Naptr(..) => NAPTR,
        }
    }
}
#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
enum Mode {
    Ok,
    Dead,
    ServFail,
    Refused,
    /// answered after so many ms
    Slow(u64),
    /// the first n queries are dropped
    Flaky(u64),
    /// truncated over UDP, full over TCP
    Trunc,
    /// truncated over UDP; TCP connections are closed unanswered
    TruncDead,
    Garbage,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
enum Dh {
    Ip(String),
    Dom(String),
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Op {
    us: u64,
    uri: String,
    /// 0 DNS, 1 DHCP, 2 hybrid
    kind: u8,
    /// >1: resolve so often and judge the weights
    times: u64,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Plan {
    naptr: bool,
    qt: u64,
    dns_to: u64,
    attempts: usize,
    strat: u8,
    servers: u8,
    /// servers that never answer
    down: u8,
    ttl: u32,
    zone: Vec<(String, Rd)>,
    modes: Vec<(String, u16, Mode)>,
    lossy: bool,
    /// DHCP: None unavailable, Some(None) fails
    dhcp: Option<Option<Vec<Dh>>>,
    tasks: Vec<Vec<Op>>,
    /// when every name-server fault is over, ms
    recover: Option<u64>,
}

pub fn scenario() -> Scenario {
    Scenario {
        name: "dns",
        gen,
        tune: |r, k, p| {
            tune_net(r, k);
            if p["lossy"] != Value::Bool(true) {
                for c in [C::UdpDrop, C::UdpDelay] {
                    k.rates[c as usize] = 0.0;
                }
                k.lat_ns = k.lat_ns.min(5_000_000);
                k.jitter_ns = k.jitter_ns.min(5_000_000);
                k.udp_queue = 256;
            }
        },
        run,
        real: "sip-dns (SipResolver, DhcpResolver, HybridResolver), hickory-resolver, tokio",
        stub: "name servers, zone data, DHCP client, network",
        deadlock_is_violation: true,
    }
}

fn gen(r: &mut sim::Rng, _p: &str, _t: Tier) -> Value {
    let mut zone: Vec<(String, Rd)> = Vec::new();
    let doms = ["a.test", "b.test", "c.test"];
    let tr: &[(&str, &str)] = &[("SIP+D2U", "_sip._udp"), ("SIP+D2T", "_sip._tcp"), ("SIPS+D2T", "_sips._tcp"), ("SIP+D2W", "_sip._tcp"), ("SIPS+D2W", "_sips._tcp"), ("SIP+D2S", "_sip._sctp"), ("SIPS+D2S", "_sips._sctp"), ("E2U+sip", "_sip._udp"), ("x-other", "_x._udp")];
    let big = r.chance(0.03);
    for d in doms {
        let mut ip = |r: &mut sim::Rng| if r.chance(0.5) { format!("192.0.2.{}", r.range(1, 250)) } else { format!("2001:db8::{:x}", r.range(1, 65000)) };
        if r.chance(0.8) {
            let alias = r.chance(0.15);
            let own = if alias {
                zone.push((d.into(), Rd::Cname(format!("host.{d}"))));
                format!("host.{d}")
            } else {
                d.to_string()
            };
            let n = if big && r.chance(0.2) { 105 } else { r.range(1, 4) };
            let mut seen = BTreeSet::new();
            for _ in 0..n {
                let x = ip(r);
                if seen.insert(x.clone()) {
                    zone.push((own.clone(), Rd::A(x)));
                }
            }
            if alias {
                continue;
            }
        }
        if r.chance(0.55) {
            let mut used = BTreeSet::new();
            for _ in 0..r.range(1, 5) {
                let (svc, name) = *r.pick(tr);
                let rep = match r.below(8) {
                    0 => ".".to_string(),
                    1 => d.to_string(),
                    2 => format!("sub.{d}"),
                    3 => format!("{name}.sub.{d}"),
                    _ => format!("{name}.{d}"),
                };
                let svc = if r.chance(0.2) { svc.to_lowercase() } else { svc.to_string() };
                // no ties: their order is nobody's promise
                let (o, pr) = (*r.pick(&[10, 10, 20, 50]), *r.pick(&[10, 10, 20, 100, 300]));
                if used.insert((o, pr)) {
                    zone.push((d.into(), Rd::Naptr(o, pr, "s".into(), svc, rep)));
                }
            }
        }
        for pre in ["", "sub."] {
            for svc in ["_sip._udp", "_sip._tcp", "_sips._tcp", "_sip._sctp", "_sips._sctp"] {
                if r.chance(if pre.is_empty() { 0.5 } else { 0.3 }) {
                    let n = if big && r.chance(0.3) { r.range(98, 104) } else { r.range(1, 5) };
                    for i in 0..n {
                        let t = if r.chance(0.04) { ".".to_string() } else { format!("{}{}.{d}", if i % 2 == 0 { "h" } else { "g" }, r.below(200)) };
                        zone.push((format!("{svc}.{pre}{d}"), Rd::Srv(*r.pick(&[0, 10, 10, 20, 65535]), *r.pick(&[0, 1, 1, 2, 3, 10, 60, 100, 65535]), *r.pick(&[5060, 5061, 5080, 8443]), t)));
                    }
                }
            }
        }
    }
    // names are a set per owner and type
    let mut seen = BTreeSet::new();
    zone.retain(|(n, d)| seen.insert(format!("{n}{d:?}")));
    let qt = *r.pick(&[50, 300, 1000, 3000, 3000]);
    let dns_to = *r.pick(&[100, 1000, 5000, 5000]);
    let fault_rate = *r.pick(&[0.0, 0.0, 0.2, 0.6, 1.0]);
    let mut modes = Vec::new();
    let mut keys: BTreeSet<(String, u16)> = zone.iter().map(|(n, d)| (n.clone(), d.ty())).collect();
    for d in doms {
        for t in [A, AAAA, NAPTR] {
            keys.insert((d.into(), t));
        }
        for s in ["_sip._udp", "_sip._tcp", "_sips._tcp"] {
            keys.insert((format!("{s}.{d}"), SRV));
        }
    }
    for (n, t) in keys {
        if r.chance(fault_rate) {
            let m = match r.below(10) {
                0..=2 => Mode::Dead,
                3 => Mode::ServFail,
                4 => Mode::Refused,
                5 => Mode::Slow(r.below(2 * qt)),
                6 => Mode::Flaky(r.range(1, 3)),
                7 => Mode::Trunc,
                8 => Mode::TruncDead,
                _ => Mode::Garbage,
            };
            modes.push((n, t, m));
        }
    }
    let dom = |r: &mut sim::Rng| match r.below(8) {
        0 => "missing.test".to_string(),
        1 => "bad label.test".to_string(),
        2 => "192.0.2.77".into(),
        _ => r.pick(&doms).to_string(),
    };
    let dhcp = match r.below(5) {
        0 => None,
        1 => Some(None),
        _ => Some(Some((0..r.below(4)).map(|_| if r.chance(0.4) { Dh::Ip(format!("198.51.100.{}", r.range(1, 9))) } else { Dh::Dom(dom(r)) }).collect())),
    };
    let uri = |r: &mut sim::Rng| {
        let sips = r.chance(0.25);
        let host = match r.below(10) {
            0 => "203.0.113.9".to_string(),
            1 => "[2001:db8::77]".into(),
            2 => "missing.test".into(),
            _ => r.pick(&doms).to_string(),
        };
        let port = if r.chance(0.2) { format!(":{}", r.range(1, 65535)) } else { String::new() };
        let par = if !sips && r.chance(0.45) { format!(";transport={}", r.pick(&["udp", "tcp", "tls", "ws", "wss", "sctp", "TCP", "tls-sctp"])) } else { String::new() };
        let user = if r.chance(0.7) { "u@" } else { "" };
        format!("{}:{user}{host}{port}{par}", if sips { "sips" } else { "sip" })
    };
    let lossy = r.chance(0.3);
    let mut tasks: Vec<Vec<Op>> = (0..*r.pick(&[1, 1, 2, 4]))
        .map(|_| (0..r.range(1, 6)).map(|_| Op { us: if r.chance(0.5) { r.below(1000) } else { r.below(4_000_000) }, uri: uri(r), kind: *r.pick(&[0, 0, 0, 0, 1, 2]), times: 1 }).collect())
        .collect();
    if r.chance(0.06) {
        let d = r.pick(&doms).to_string();
        tasks[0].push(Op { us: 0, uri: format!("sip:{d};transport={}", r.pick(&["udp", "tcp"])), kind: 0, times: *r.pick(&[300, 1500]) });
    }
    let recover = if r.chance(0.3) {
        let at = r.below(20_000);
        let uris: Vec<Op> = (0..4).map(|i| Op { us: if i == 0 { (at + 400_000) * 1000 } else { 1000 }, uri: uri(r), kind: *r.pick(&[0, 0, 1, 2]), times: 1 }).collect();
        tasks.push(uris);
        Some(at)
    } else {
        None
    };
    let servers = *r.pick(&[1, 1, 2]);
    serde_json::to_value(Plan {
        naptr: r.chance(0.85),
        qt,
        dns_to,
        attempts: *r.pick(&[1, 2, 2, 3]),
        strat: r.below(6) as u8,
        servers,
        down: if servers == 2 && r.chance(0.3) { 1 } else { 0 },
        ttl: *r.pick(&[0, 1, 60, 3600]),
        zone,
        modes,
        lossy,
        dhcp,
        tasks,
        recover,
    })
    .unwrap()
}

// ---------------------------------------------------------------- name server
fn put_name(o: &mut Vec<u8>, n: &str) {
    for l in n.trim_end_matches('.').split('.').filter(|l| !l.is_empty()) {
        o.push(l.len() as u8);
        o.extend(l.as_bytes());
    }
    o.push(0);
}
fn parse_q(q: &[u8]) -> Option<(String, u16, usize)> {
    let (mut i, mut n) = (12, String::new());
    loop {
        let l = *q.get(i)? as usize;
        i += 1;
        if l == 0 {
            break;
        }
        if !n.is_empty() {
            n.push('.');
        }
        n += &String::from_utf8_lossy(q.get(i..i + l)?).to_lowercase();
        i += l;
    }
    Some((n, u16::from_be_bytes([*q.get(i)?, *q.get(i + 1)?]), i + 4))
}
fn reply(p: &Plan, q: &[u8], udp: bool, m: Mode) -> Vec<u8> {
    let (name, ty, end) = parse_q(q).unwrap();
    let mut own = name.clone();
    let mut ans: Vec<(String, &Rd)> = Vec::new();
    if let Some((_, c @ Rd::Cname(t))) = p.zone.iter().find(|(n, d)| *n == name && d.ty() == CNAME) {
        ans.push((name.clone(), c));
        own = t.clone();
    }
    ans.extend(p.zone.iter().filter(|(n, d)| *n == own && d.ty() == ty).map(|(n, d)| (n.clone(), d)));
    let exists = p.zone.iter().any(|(n, _)| *n == own || n.ends_with(&format!(".{own}")));
    let mut rcode = if exists { 0 } else { 3 };
    match m {
        Mode::ServFail => rcode = 2,
        Mode::Refused => rcode = 5,
        _ => {}
    }
    if rcode == 2 || rcode == 5 {
        ans.clear();
    }
    let mut body = Vec::new();
    for (n, d) in &ans {
        put_name(&mut body, n);
        body.extend(d.ty().to_be_bytes());
        body.extend([0, 1]);
        body.extend(p.ttl.to_be_bytes());
        let mut rd = Vec::new();
        match d {
            Rd::A(ip) => match ip.parse::<IpAddr>().unwrap() {
                IpAddr::V4(a) => rd.extend(a.octets()),
                IpAddr::V6(a) => rd.extend(a.octets()),
            },
            Rd::Cname(t) => put_name(&mut rd, t),
            Rd::Srv(a, b, c, t) => {
                for x in [a, b, c] {
                    rd.extend(x.to_be_bytes());
                }
                put_name(&mut rd, t);
            }
            Rd::Naptr(o, pr, f, s, rep) => {
                rd.extend(o.to_be_bytes());
                rd.extend(pr.to_be_bytes());
                for x in [f.as_str(), s.as_str(), ""] {
                    rd.push(x.len() as u8);
                    rd.extend(x.as_bytes());
                }
                put_name(&mut rd, rep);
            }
        }
        body.extend((rd.len() as u16).to_be_bytes());
        body.extend(rd);
    }
    let tc = udp && (matches!(m, Mode::Trunc | Mode::TruncDead) || body.len() + end > 1200);
    let mut o = q[..2].to_vec();
    o.extend([0x84 | if tc { 2 } else { 0 } | (q[2] & 1), 0x80 | rcode as u8, 0, 1]);
    o.extend(if tc { 0u16 } else { ans.len() as u16 }.to_be_bytes());
    o.extend([0, 0, 0, 0]);
    o.extend(&q[12..end]);
    if !tc {
        o.extend(body);
    }
    if m == Mode::Garbage {
        // the header of an answer, then noise
        let keep = 12 + (end - 12) / 2;
        o.truncate(keep);
        o.extend([0xc0; 40]);
    }
    o
}

/// Bytes of the whole answer to a query.
fn size(p: &Plan, name: &str, ty: u16) -> usize {
    let mut q = vec![0u8; 12];
    put_name(&mut q, name);
    q.extend(ty.to_be_bytes());
    q.extend([0, 1]);
    reply(p, &q, false, Mode::Ok).len()
}

struct Ns {
    p: Plan,
    asked: Mutex<BTreeMap<(String, u16), u64>>,
}
impl Ns {
    /// What to do with a query: answer after so long, or not at all.
    fn handle(&self, q: &[u8], udp: bool) -> Option<(Duration, Vec<u8>)> {
        let (name, ty, _) = parse_q(q)?;
        let key = (name.clone(), ty);
        let n = {
            let mut a = self.asked.lock().unwrap();
            let e = a.entry(key).or_insert(0);
            *e += 1;
            *e
        };
        let m = if self.p.recover.is_some_and(|t| sim::now() >= t * MS) { Mode::Ok } else { mode(&self.p, &name, ty) };
        slog!("name server: query {n} for {name} type {ty} udp {udp}: {m:?}");
        if m != Mode::Ok {
            sim::fault("dns_fault");
        }
        let d = match m {
            Mode::Dead => return None,
            Mode::Flaky(k) if n <= k => return None,
            Mode::TruncDead if !udp => return None,
            Mode::Slow(ms) => ms,
            _ => 0,
        };
        Some((Duration::from_millis(d), reply(&self.p, q, udp, m)))
    }
}
fn mode(p: &Plan, name: &str, ty: u16) -> Mode {
    p.modes.iter().find(|m| m.0 == name && m.1 == ty).map_or(Mode::Ok, |m| m.2)
}
async fn serve_udp(ns: Arc<Ns>) {
    let s = Arc::new(tokio::net::UdpSocket::bind("0.0.0.0:53").await.unwrap());
    let mut b = vec![0u8; 2048];
    loop {
        let Ok((n, from)) = s.recv_from(&mut b).await else { continue };
        if let Some((d, r)) = ns.handle(&b[..n], true) {
            let s = s.clone();
            tokio::spawn(async move {
                if !d.is_zero() {
                    tokio::time::sleep(d).await;
                }
                let _ = s.send_to(&r, from).await;
            });
        }
    }
}
async fn serve_tcp(ns: Arc<Ns>) {
    let l = tokio::net::TcpListener::bind("0.0.0.0:53").await.unwrap();
    loop {
        let Ok((mut s, _)) = l.accept().await else { continue };
        let ns = ns.clone();
        tokio::spawn(async move {
            loop {
                let mut h = [0u8; 2];
                if s.read_exact(&mut h).await.is_err() {
                    return;
                }
                let mut q = vec![0u8; u16::from_be_bytes(h) as usize];
                if s.read_exact(&mut q).await.is_err() {
                    return;
                }
                let Some((d, r)) = ns.handle(&q, false) else { return };
                tokio::time::sleep(d).await;
                let mut o = (r.len() as u16).to_be_bytes().to_vec();
                o.extend(r);
                if s.write_all(&o).await.is_err() {
                    return;
                }
            }
        });
    }
}

// ---------------------------------------------------------------- reference
type T = (String, u16, Transport, u16, Option<String>);
#[derive(Debug, Clone)]
enum Grp {
    /// in any order
    Perm(Vec<T>),
    /// addresses: v6 and v4 alternating, v6 first
    Mix(Vec<T>, Vec<T>),
}
/// A query whose outcome the run left open.
struct Open(Key);
/// Name, type and how many times this resolution asked for them before.
type Key = (String, u16, u32);
struct Ref<'a> {
    p: &'a Plan,
    /// after recovery
    well: bool,
    /// thread stalls that may have delayed a query, ns
    stalls: u64,
    assign: BTreeMap<Key, bool>,
    seen: std::cell::RefCell<BTreeMap<(String, u16), u32>>,
}
type Out = Option<Vec<Grp>>;
impl Ref<'_> {
    fn open(&self, name: &str, ty: u16) -> Result<bool, Open> {
        let mut s = self.seen.borrow_mut();
        let n = s.entry((name.to_string(), ty)).or_insert(0);
        let key = (name.to_string(), ty, *n);
        *n += 1;
        self.assign.get(&key).copied().ok_or(Open(key))
    }
    /// Does the query get its answer?
    fn ok(&self, name: &str, ty: u16) -> Result<bool, Open> {
        let p = self.p;
        if matches!(mode(p, name, ty), Mode::Dead | Mode::ServFail | Mode::Refused | Mode::Garbage | Mode::TruncDead) && p.recover.is_none() {
            return Ok(false);
        }
        // A query that can take as long as it may is open; so is a truncated
        // answer of two servers asked at once, which hickory gives up on.
        let (lat, jit) = sim::lat_jit();
        let big = size(p, name, ty);
        let most = 8 * lat + if big > 1200 { (12 + big / 1000) as u64 * 2 * (lat + jit) } else { 0 };
        if most + self.stalls + 10 * MS > p.qt.min(p.dns_to) * MS || big > 1200 && p.servers > 1 {
            return self.open(name, ty);
        }
        if self.well {
            return Ok(true);
        }
        match mode(p, name, ty) {
            _ if p.lossy || p.down > 0 || p.recover.is_some() => self.open(name, ty),
            Mode::Ok => Ok(true),
            _ => self.open(name, ty),
        }
    }
    fn recs(&self, name: &str, ty: u16) -> Vec<&Rd> {
        let own = match self.p.zone.iter().find(|(n, d)| n == name && d.ty() == CNAME) {
            Some((_, Rd::Cname(t))) => t.clone(),
            _ => name.to_string(),
        };
        self.p.zone.iter().filter(|(n, d)| *n == own && d.ty() == ty).map(|(_, d)| d).collect()
    }
    fn addrs(&self, host: &str, port: u16, t: Transport) -> Result<Out, Open> {
        let get = |ty| -> Result<(bool, Vec<T>), Open> {
            let ok = self.ok(host, ty)?;
            Ok((ok, if ok { self.recs(host, ty).iter().map(|r| { let Rd::A(ip) = r else { unreachable!() }; (ip.clone(), port, t, 0, Some(host.to_string())) }).collect() } else { vec![] }))
        };
        let (v6, v4) = match self.p.strat {
            0 => (vec![], get(A)?.1),
            1 => (get(AAAA)?.1, vec![]),
            2 | 3 => {
                let (a, b) = (get(AAAA)?, get(A)?);
                // one family unanswered: the other alone, or the time runs out
                if (a.0 && !b.0 && !a.1.is_empty() || b.0 && !a.0 && !b.1.is_empty()) && !self.time_left()? {
                    return Ok(None);
                }
                (a.1, b.1)
            }
            s => {
                let (f, g) = if s == 4 { (AAAA, A) } else { (A, AAAA) };
                let a = get(f)?;
                let b = if a.1.is_empty() { get(g)? } else { (true, vec![]) };
                if !a.0 && !b.1.is_empty() && !self.time_left()? {
                    return Ok(None);
                }
                if s == 4 { (a.1, b.1) } else { (b.1, a.1) }
            }
        };
        Ok(if v6.is_empty() && v4.is_empty() { None } else { Some(vec![Grp::Mix(v6, v4)]) })
    }
    fn time_left(&self) -> Result<bool, Open> {
        self.open("(time left)", 0)
    }
    fn srv(&self, name: &str, t: Transport) -> Result<Vec<Grp>, Open> {
        if !self.ok(name, SRV)? {
            return Ok(vec![]);
        }
        let mut by: BTreeMap<u16, Vec<T>> = BTreeMap::new();
        for r in self.recs(name, SRV) {
            let Rd::Srv(pr, _, port, target) = r else { unreachable!() };
            if target != "." {
                by.entry(*pr).or_default().push((target.clone(), *port, t, *pr, None));
            }
        }
        Ok(by.into_values().map(Grp::Perm).collect())
    }
    fn dns(&self, u: &SipUri) -> Result<Out, Open> {
        let host = u.host();
        let par = u.params().get(&smol_str::SmolStr::new("transport")).and_then(|x| x.as_ref()).map(|x| match x.to_lowercase().as_str() {
            "tcp" => Transport::Tcp,
            "tls" => Transport::Tls,
            "ws" => Transport::Ws,
            "wss" => Transport::Wss,
            "sctp" => Transport::Sctp,
            "tls-sctp" => Transport::TlsSctp,
            _ => Transport::Udp,
        });
        let want = if u.is_sips() { Some(Transport::Tls) } else { par };
        let deflt = want.unwrap_or(Transport::Udp);
        let port = if u.is_sips() || matches!(deflt, Transport::Tls | Transport::TlsSctp) { 5061 } else { 5060 };
        if host.parse::<IpAddr>().is_ok() {
            return Ok(Some(vec![Grp::Perm(vec![(host.into(), u.port().unwrap_or(port), deflt, 0, None)])]));
        }
        if let Some(port) = u.port() {
            return self.addrs(host, port, deflt);
        }
        let mut list: Vec<(u16, u16, Transport, String)> = Vec::new();
        if self.p.naptr && self.ok(host, NAPTR)? {
            for r in self.recs(host, NAPTR) {
                let Rd::Naptr(o, pr, _, s, rep) = r else { unreachable!() };
                let t = match s.to_uppercase().as_str() {
                    "SIPS+D2T" => Transport::Tls,
                    "SIP+D2T" => Transport::Tcp,
                    "SIP+D2U" => Transport::Udp,
                    "SIPS+D2W" => Transport::Wss,
                    "SIP+D2W" => Transport::Ws,
                    "SIPS+D2S" => Transport::TlsSctp,
                    "SIP+D2S" => Transport::Sctp,
                    _ => continue,
                };
                if rep != "." && want.is_none_or(|w| w == t) {
                    let n = if rep.starts_with('_') { rep.clone() } else { srv_name(t, u.is_sips(), rep) };
                    list.push((*o, *pr, t, n));
                }
            }
        }
        let mut out = Vec::new();
        if list.is_empty() {
            for t in want.map_or(vec![Transport::Tcp, Transport::Udp], |t| vec![t]) {
                out.extend(self.srv(&srv_name(t, u.is_sips(), host), t)?);
            }
        } else {
            list.sort_by_key(|l| (l.0, l.1));
            for l in list {
                out.extend(self.srv(&l.3, l.2)?);
            }
        }
        if out.is_empty() {
            return self.addrs(host, port, deflt);
        }
        Ok(Some(out))
    }
    fn dhcp(&self, u: &SipUri) -> Result<Out, Open> {
        let Some(Some(s)) = &self.p.dhcp else { return Ok(None) };
        let mut out = Vec::new();
        for d in s {
            match d {
                Dh::Ip(ip) => {
                    let t = Ref { p: self.p, well: true, stalls: self.stalls, assign: Default::default(), seen: Default::default() }.dns(&u.clone().with_host(ip.as_str()).unwrap().without_port()).ok().flatten();
                    out.extend(t.unwrap());
                }
                Dh::Dom(d) => {
                    if let Ok(v) = u.clone().with_host(d.as_str()) {
                        let o = self.dns(&v.without_port())?;
                        // more targets than a lookup may yield are an error
                        out.extend(o.filter(|o| len(o) <= 100).unwrap_or_default());
                    }
                }
            }
        }
        Ok(if out.is_empty() { None } else { Some(out) })
    }
    fn eval(&self, op: &Op, u: &SipUri) -> Result<Out, Open> {
        let o = match op.kind {
            0 => self.dns(u)?,
            1 => self.dhcp(u)?,
            _ => match self.dhcp(u)? {
                Some(o) => Some(o),
                None => self.dns(u)?,
            },
        };
        Ok(o.filter(|o| len(o) <= 100))
    }
}
fn len(o: &[Grp]) -> usize {
    o.iter().map(|g| match g { Grp::Perm(v) => v.len(), Grp::Mix(a, b) => a.len() + b.len() }).sum()
}
fn srv_name(t: Transport, sips: bool, host: &str) -> String {
    let proto = match t {
        Transport::Udp => "udp",
        Transport::Sctp | Transport::TlsSctp => "sctp",
        _ => "tcp",
    };
    let s = sips || matches!(t, Transport::Tls | Transport::Wss | Transport::TlsSctp);
    format!("_{}._{proto}.{host}", if s { "sips" } else { "sip" })
}
fn same(a: &[T], b: &[T]) -> bool {
    let k = |v: &[T]| {
        let mut v: Vec<String> = v.iter().map(|t| format!("{t:?}")).collect();
        v.sort();
        v
    };
    k(a) == k(b)
}
/// Records of equal NAPTR order and preference may come in either order, so
/// groups are matched in sequence.
fn fits(got: &[T], want: &[Grp]) -> bool {
    let mut i = 0;
    for g in want {
        match g {
            Grp::Perm(v) => {
                if i + v.len() > got.len() || !same(&got[i..i + v.len()], v) {
                    return false;
                }
                i += v.len();
            }
            Grp::Mix(a, b) => {
                let n = a.len() + b.len();
                if i + n > got.len() {
                    return false;
                }
                let (x, y): (Vec<T>, Vec<T>) = got[i..i + n].iter().cloned().partition(|t| t.0.contains(':'));
                let mut pat = Vec::new();
                for j in 0..a.len().max(b.len()) {
                    if j < a.len() {
                        pat.push(true);
                    }
                    if j < b.len() {
                        pat.push(false);
                    }
                }
                if !same(&x, a) || !same(&y, b) || got[i..i + n].iter().map(|t| t.0.contains(':')).ne(pat) {
                    return false;
                }
                i += n;
            }
        }
    }
    i == got.len()
}
fn outcomes(p: &Plan, op: &Op, u: &SipUri, well: bool, stalls: u64) -> Vec<Out> {
    let mut todo = vec![BTreeMap::new()];
    let mut out = Vec::new();
    while let Some(assign) = todo.pop() {
        match (Ref { p, well, stalls, assign: assign.clone(), seen: Default::default() }).eval(op, u) {
            Ok(o) => out.push(o),
            Err(Open(k)) => {
                for b in [true, false] {
                    let mut a = assign.clone();
                    a.insert(k.clone(), b);
                    todo.push(a);
                }
            }
        }
        if out.len() > 5000 {
            sim::probe("reference_overflow");
            return vec![];
        }
    }
    out
}
/// Queries one resolution may have to wait for, one after another.
fn queries(p: &Plan, op: &Op, u: &SipUri) -> u64 {
    let one = |h: &str| 4 + p.zone.iter().filter(|(n, d)| n == h && d.ty() == NAPTR).count() as u64;
    let dh = match (&p.dhcp, op.kind) {
        (Some(Some(s)), 1 | 2) => s.iter().map(|d| match d { Dh::Dom(d) => one(d), _ => 0 }).sum(),
        _ => 0,
    };
    dh + if op.kind == 1 { 0 } else { one(u.host()) }
}

// ---------------------------------------------------------------- run
struct Dhcp(Option<Option<Vec<Dh>>>);
#[async_trait::async_trait]
impl DhcpProvider for Dhcp {
    async fn query_sip_servers(&self) -> anyhow::Result<Option<Vec<DhcpSipServer>>> {
        tokio::time::sleep(Duration::from_millis(3)).await;
        match &self.0 {
            None => Ok(None),
            Some(None) => Err(anyhow::anyhow!("DHCP failed")),
            Some(Some(v)) => Ok(Some(v.iter().map(|d| match d { Dh::Ip(i) => DhcpSipServer::Ipv4(i.parse().unwrap()), Dh::Dom(d) => DhcpSipServer::Domain(d.as_str().into()) }).collect())),
        }
    }
}

fn run(v: &Value) {
    let p: Plan = serde_json::from_value(v.clone()).unwrap();
    sim::tokio_globals();
    let ns = Arc::new(Ns { p: p.clone(), asked: Default::default() });
    for i in 0..p.servers {
        let n = sim::node(&format!("10.0.5.{}", i + 1));
        if i >= p.down {
            let ns = ns.clone();
            sim::spawn_on(n, move || {
                let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
                rt.block_on(async { tokio::join!(serve_udp(ns.clone()), serve_tcp(ns)) });
            });
        } else {
            sim::crash(n);
        }
    }
    let c = sim::node("10.0.5.100");
    let p2 = p.clone();
    let _ = sim::spawn_on(c, move || client(p2)).join();
}
fn client(p: Plan) {
    sim::sleep_ms(2);
    let rt = sim::runtime();
    rt.block_on(async {
        let mut o = ResolverOpts::default();
        o.timeout = Duration::from_millis(p.dns_to);
        o.attempts = p.attempts;
        o.use_hosts_file = ResolveHosts::Never;
        o.ip_strategy = [LookupIpStrategy::Ipv4Only, LookupIpStrategy::Ipv6Only, LookupIpStrategy::Ipv4AndIpv6, LookupIpStrategy::Ipv6AndIpv4, LookupIpStrategy::Ipv6thenIpv4, LookupIpStrategy::Ipv4thenIpv6][p.strat as usize];
        let servers = (0..p.servers).map(|i| NameServerConfig::udp_and_tcp(format!("10.0.5.{}", i + 1).parse().unwrap())).collect();
        let mut r = SipResolver::with_config(ResolverConfig::from_parts(None, vec![], servers), o).unwrap();
        if p.qt != 3000 {
            r = r.with_query_timeout(Duration::from_millis(p.qt));
        }
        if !p.naptr {
            r = r.disable_naptr();
        }
        let log = Arc::new(Mutex::new(Vec::new()));
        let hs: Vec<_> = p
            .tasks
            .iter()
            .cloned()
            .map(|ops| {
                let (r, p, log) = (r.clone(), p.clone(), log.clone());
                tokio::spawn(async move {
                    for op in ops {
                        one(&r, &p, op, &log).await;
                    }
                })
            })
            .collect();
        for h in hs {
            let _ = h.await;
        }
    });
}
async fn one(r: &SipResolver, p: &Plan, op: Op, log: &Mutex<Vec<(u64, u64)>>) {
    let bad = |class: &str, d: String| sim::violation("S01", class, d);
    let u = SipUri::parse(&op.uri).unwrap();
    if op.us > 0 {
        tokio::time::sleep(Duration::from_micros(op.us)).await;
    }
    let well = !p.lossy && p.down == 0 && p.recover.is_some_and(|t| sim::now() >= (t + 300_000) * MS);
    // a query may be shared with one that began earlier
    let before = |l: &mut Vec<(u64, u64)>| {
        l.push((sim::now(), sim::stalled()));
        let t = sim::now().saturating_sub(20_000 * MS);
        l.iter().rev().find(|e| e.0 <= t).map_or(0, |e| e.1)
    };
    let dhcp = Dhcp(p.dhcp.clone());
    let mut first: BTreeMap<(String, u16), u64> = BTreeMap::new();
    let (mut outs, mut judged) = (vec![], 0);
    for i in 0..op.times {
        let (t0, s0) = (sim::now(), sim::stalled());
        let early = before(&mut log.lock().unwrap());
        let got = match op.kind {
            0 => r.resolve(&u).await,
            1 => DhcpResolver::new(Dhcp(dhcp.0.clone()), r.clone()).resolve(&u).await,
            _ => HybridResolver::new(Dhcp(dhcp.0.clone()), r.clone()).resolve(&u).await,
        };
        let (dt, ds) = (sim::now() - t0, sim::stalled() - s0);
        let got: Option<Vec<T>> = got.map(|v| v.iter().map(|t: &DnsTarget| (t.host().into(), t.port(), t.transport(), t.priority(), t.tls_name().map(Into::into))).collect()).map_err(|e| slog!("{}: {e}", op.uri)).ok();
        if i == 0 {
            slog!("{} kind {} -> {got:?} in {} ms", op.uri, op.kind, dt / MS);
        }
        let st = sim::stalled() - early;
        if i == 0 || st != judged {
            outs = outcomes(p, &op, &u, well, st);
            judged = st;
        }
        let limit = queries(p, &op, &u) * p.qt * MS + 60 * MS + ds;
        if dt > limit {
            bad("over-time", format!("{} took {} ms, limit {} ms per query", op.uri, dt / MS, p.qt));
        }
        if outs.is_empty() {
            return;
        }
        let fit = outs.iter().any(|o| match (o, &got) {
            (None, None) => true,
            (Some(w), Some(g)) => fits(g, w),
            _ => false,
        });
        if !fit {
            let class = match &got {
                None => "no-target",
                Some(_) => "wrong-targets",
            };
            bad(class, format!("{} (kind {}) resolved to {got:?}; published: {:?}", op.uri, op.kind, &outs[..outs.len().min(3)]));
            return;
        }
        sim::probe(if got.is_some() { "resolved" } else { "unresolved" });
        if well {
            sim::probe("resolved_after_recovery");
        }
        if let Some(g) = got {
            *first.entry((g[0].0.clone(), g[0].1)).or_insert(0) += 1;
        }
    }
    if op.times > 1 && outs.len() == 1 {
        let Some(w) = &outs[0] else { return };
        let Grp::Perm(v) = &w[0] else { return };
        let name = srv_name(v[0].2, u.is_sips(), u.host());
        if v[0].4.is_some() || (p.naptr && p.zone.iter().any(|(n, d)| n == u.host() && d.ty() == NAPTR)) {
            return;
        }
        let weight = |t: &T| p.zone.iter().filter_map(|(n, d)| match d { Rd::Srv(pr, w, po, h) if *n == name && *pr == t.3 && *po == t.1 && *h == t.0 => Some(*w as f64), _ => None }).sum::<f64>();
        let total: f64 = v.iter().map(weight).sum();
        let same_target: BTreeSet<_> = v.iter().map(|t| (t.0.clone(), t.1)).collect();
        if same_target.len() != v.len() {
            return;
        }
        sim::probe("weights_judged");
        let n = op.times as f64;
        // Hoeffding, error probability 1e-12
        let tol = (28.4 / (2.0 * n)).sqrt();
        for t in v {
            let want = if total == 0.0 { 1.0 / v.len() as f64 } else { weight(t) / total };
            let is = *first.get(&(t.0.clone(), t.1)).unwrap_or(&0) as f64 / n;
            if (is - want).abs() > tol {
                bad("weights", format!("{}:{} was first in {:.3} of {n} resolutions, its share of the weights is {want:.3}", t.0, t.1, is));
            }
        }
    }
}
