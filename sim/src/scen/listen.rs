//! N01, N04 (and N03 for replies): the stream listeners against peers that cut
//! up, dribble, break, abandon and flood connections.
use super::*;
use crate::{sim, slog};
use bytes::Bytes;
use serde::{Deserialize, Serialize};
use sip_transport::InboundPacket;
use std::collections::BTreeMap;
use std::net::SocketAddr;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::sync::mpsc;
use tokio_rustls::{CLIENT_HELLO, SERVER_HELLO};
use tokio_tungstenite::tungstenite::Message;

const MS: u64 = 1_000_000;
const S: u64 = 1000 * MS;
const SRV: &str = "10.0.7.1:5060";

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Item {
    Msg {
        /// Content-Length style
        cl: u8,
        body: u32,
        /// pad the head to this many bytes before its CRLFCRLF
        head: u32,
        replies: u8,
        rsize: u32,
    },
    Crlf(u8),
    Bad(u8),
    Pause(u64),
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
enum End {
    Stay,
    Fin(u64),
    Reset(u64),
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Conn {
    us: u64,
    src: u8,
    items: Vec<Item>,
    /// write sizes and the pause after each, cycled through
    cuts: Vec<(u32, u64)>,
    /// bytes of the last item left unsent
    trunc: u32,
    end: End,
    /// 0 reads at once, 1 never, 2 slowly
    read: u8,
    /// 0 as it should be, 1 says nothing, 2 half, 3 wrong (TLS and WebSocket)
    hello: u8,
}
#[derive(Serialize, Deserialize, Clone)]
struct Plan {
    /// 0 TCP, 1 TLS, 2 WebSocket
    proto: u8,
    idle: u64,
    keepalive: u64,
    chan: usize,
    app_us: u64,
    conns: Vec<Conn>,
    /// partitions: from, for how long (ms), which source
    cuts: Vec<(u64, u64, u8)>,
    /// connections opened from source 0 at the end
    probe: u32,
    body_seed: u64,
}

pub fn scenario() -> Scenario {
    Scenario {
        name: "listen",
        gen,
        tune,
        run,
        real: "sip-transport (run_tcp, run_tls, run_ws, sessions, framing, send_stream), tokio runtime and timers, dashmap",
        stub: "peers, TCP network, the application; TLS and WebSocket record layers",
        deadlock_is_violation: false,
    }
}
fn tune(r: &mut sim::Rng, k: &mut Knobs, v: &Value) {
    tune_net(r, k);
    k.lat_ns = k.lat_ns.min(20_000_000);
    k.jitter_ns = k.jitter_ns.min(20_000_000);
    k.stall_max_ns = r.log(1e4, 2e7) as u64;
    let n = v["conns"].as_array().map_or(0, |a| a.len());
    let big = v["conns"].as_array().unwrap().iter().flat_map(|c| c["items"].as_array().unwrap()).filter(|i| i["Msg"]["body"].as_u64().unwrap_or(0) + i["Msg"]["head"].as_u64().unwrap_or(0) > 30_000 || i["Bad"].as_u64().is_some_and(|b| b >= 7)).count();
    if big > 0 {
        k.rcvbuf = 262144;
        k.sndbuf = 262144;
        k.rates[C::ShortRead as usize] = 0.0;
        k.rates[C::ShortWrite as usize] = 0.0;
        k.rates[C::TcpSeg as usize] = k.rates[C::TcpSeg as usize].min(0.1);
    }
    if n > 40 {
        k.preempt_mean = *r.pick(&[0, 1000, 10000]);
        k.rates[C::Stall as usize] = 0.0;
    }
    if n > 500 {
        k.preempt_mean = 0;
        k.rates[C::Switch as usize] = 0.0;
        k.step_limit = 30_000_000;
    }
}

/// Write sizes and pauses (µs).
pub fn gen_cuts(r: &mut sim::Rng) -> Vec<(u32, u64)> {
    match r.below(6) {
        0 => vec![(u32::MAX, 0)],
        1 => vec![(1, r.below(200))],
        2 => vec![(r.range(1, 30) as u32, r.below(5000)), (r.range(1, 3000) as u32, r.below(20_000))],
        3 => (0..r.range(1, 5)).map(|_| (r.range(1, 8) as u32, r.below(1000))).collect(),
        4 => vec![(r.range(1, 200) as u32, r.below(8_000_000))],
        _ => (0..r.range(1, 4)).map(|_| (r.log(1.0, 3000.0) as u32, r.below(50_000))).collect(),
    }
}
fn gen_items(r: &mut sim::Rng, proto: u8, tiny: bool) -> (Vec<Item>, Vec<(u32, u64)>, u32) {
    let mut v = vec![];
    let long = |r: &mut sim::Rng| match r.below(12) {
        0 => r.range(50, 70) * 1_000_000,
        1 => r.range(20, 40) * 1_000_000,
        2 if r.chance(0.2) => r.range(100, 2400) * 1_000_000,
        3..=5 => r.below(3_000_000),
        _ => r.below(20_000),
    };
    let huge = r.chance(0.03);
    for _ in 0..if tiny { r.range(1, 2) } else { r.range(0, 7) } {
        v.push(match r.below(20) {
            0..=2 => Item::Crlf(r.below(5) as u8),
            3 if r.chance(0.5) => Item::Bad(r.below(11) as u8),
            4..=7 => Item::Pause(long(r)),
            _ => {
                let head = if huge && r.chance(0.5) {
                    *r.pick(&[65534, 65535, 65536, 65536, 65537, 65538])
                } else if r.chance(0.1) {
                    r.range(300, 5000) as u32
                } else {
                    0
                };
                let (nr, nz) = (*r.pick(&[4, 4, 4, 4, 4, 4, 4, 4, 4, 60]), *r.pick(&[2e3, 2e3, 2e3, 2e3, 2e3, 2e3, 2e3, 2e3, 2e3, 6e4]));
                Item::Msg {
                    cl: r.below(9) as u8,
                    body: if huge && r.chance(0.5) { r.range(20_000, 400_000) as u32 } else if r.chance(0.3) { 0 } else { r.log(1.0, 6000.0) as u32 },
                    head,
                    replies: if r.chance(0.4) { r.range(1, nr) as u8 } else { 0 },
                    rsize: r.log(1.0, nz) as u32,
                }
            }
        });
    }
    let cuts = gen_cuts(r);
    let total: u64 = v.iter().map(|i| match i { Item::Msg { body, head, .. } => *body as u64 + (*head as u64).max(200), Item::Bad(b) if *b >= 7 => 70_000, Item::Bad(_) => 200, _ => 4 }).sum();
    // not too many writes, and not for hours
    let cuts = cuts.into_iter().map(|(n, p)| (n.max((total / 300) as u32).max(1), if total > 3000 { p.min(300_000) } else { p })).collect();
    let trunc = if proto != 2 && r.chance(0.25) { { let m = *r.pick(&[4, 400]); r.range(1, m) as u32 } } else { 0 };
    (v, cuts, trunc)
}
fn msg(replies: u8) -> Item {
    Item::Msg { cl: 0, body: 10, head: 0, replies, rsize: 20 }
}
fn gen(r: &mut sim::Rng, prop: &str, _t: Tier) -> Value {
    let proto = *r.pick(&[0, 0, 0, 0, 0, 0, 1, 1, 2]);
    let n01 = prop == "N01";
    let kind = r.below(if n01 { 12 } else { 20 });
    let mut conns = vec![];
    let mut srcs = 1;
    let end = |r: &mut sim::Rng| match r.below(8) {
        0..=2 => End::Stay,
        3 => End::Fin(r.below(100_000_000)),
        4 => End::Reset(r.below(3_000_000)),
        5 => End::Reset(0),
        _ => End::Fin(if r.chance(0.5) { 0 } else { r.below(50_000) }),
    };
    if !n01 && r.chance(0.004) {
        // the total
        srcs = 17;
        for s in 0..17u8 {
            for i in 0..64 {
                conns.push(Conn { us: s as u64 * 300_000 + i * 3000 + r.below(3000), src: s, items: vec![msg(0), Item::Pause(30_000_000), msg(0)], cuts: vec![(u32::MAX, 0)], trunc: 0, end: End::Fin(0), read: 0, hello: 0 });
            }
        }
    } else if kind >= 17 && proto != 2 {
        // more than one source may hold
        srcs = *r.pick(&[1, 2]);
        for s in 0..srcs {
            for _ in 0..r.range(60, 80) {
                conns.push(Conn { us: { let m = *r.pick(&[5000, 400_000]); r.below(m) }, src: s, items: vec![msg(0), Item::Pause(20_000_000), msg(1)], cuts: vec![(u32::MAX, 0)], trunc: 0, end: if r.chance(0.5) { End::Fin(0) } else { End::Stay }, read: 0, hello: 0 });
            }
        }
    } else if kind >= 14 {
        // churn
        srcs = *r.pick(&[1, 2]);
        let span = r.log(5e4, 4e6) as u64;
        for _ in 0..r.range(20, 60) {
            let (items, ..) = gen_items(r, proto, true);
            let items = items.into_iter().filter(|i| !matches!(i, Item::Pause(p) if *p > 100_000)).collect();
            conns.push(Conn { us: r.below(span), src: r.below(srcs as u64) as u8, items, cuts: vec![(u32::MAX, 0)], trunc: if r.chance(0.2) { 3 } else { 0 }, end: match r.below(4) { 0 => End::Reset(r.below(20_000)), _ => End::Fin(r.below(20_000)) }, read: 0, hello: if r.chance(0.9) { 0 } else { r.range(1, 3) as u8 } });
        }
    } else {
        srcs = r.range(1, 3) as u8;
        for _ in 0..r.range(1, 6) {
            let (items, cuts, trunc) = gen_items(r, proto, false);
            conns.push(Conn { us: r.below(2_000_000), src: r.below(srcs as u64) as u8, items, cuts, trunc, end: end(r), read: *r.pick(&[0, 0, 0, 0, 1, 2]), hello: if r.chance(0.9) { 0 } else { r.range(1, 3) as u8 } });
        }
    }
    if proto == 2 {
        for c in &mut conns {
            for i in &mut c.items {
                match i {
                    Item::Bad(_) => *i = Item::Crlf(2),
                    // one frame is at most 1 MB, and heads do not matter here
                    Item::Msg { cl, head, .. } => {
                        *cl = 0;
                        *head = (*head).min(1000);
                    }
                    _ => {}
                }
            }
        }
    }
    let cuts = if r.chance(0.15) { (0..r.range(1, 2)).map(|_| (1000 + r.below(30_000), if r.chance(0.3) { r.range(30_000, 200_000) } else { r.below(10_000) }, r.below(srcs as u64) as u8)).collect() } else { vec![] };
    serde_json::to_value(Plan {
        proto,
        idle: *r.pick(&[30, 120, 120, 600, 1800, 0]),
        keepalive: *r.pick(&[0, 0, 5, 30, 120]),
        chan: *r.pick(&[1, 8, 1024]),
        app_us: *r.pick(&[0, 0, 0, 1000, 50_000]),
        conns,
        cuts,
        probe: if r.chance(if n01 { 0.02 } else { 0.25 }) && proto != 2 { 64 } else { 2 },
        body_seed: r.u(),
    })
    .unwrap()
}

// ---------------------------------------------------------------- messages
pub fn render(it: &Item, ci: usize, k: usize, seed: u64, proto: u8) -> Vec<u8> {
    let mut rng = sim::Rng(seed ^ ((ci as u64) << 32 | k as u64));
    let mut body = |n: u32| -> Vec<u8> {
        let mut b = Vec::with_capacity(n as usize + 64);
        while b.len() < n as usize {
            match rng.below(6) {
                0 => b.extend(b"\r\n\r\n"),
                1 => b.extend(b"OPTIONS sip:x SIP/2.0\r\nContent-Length: 3\r\n\r\nabc"),
                2 => b.extend(b"\r\n"),
                3 => b.extend(rng.u().to_le_bytes()),
                _ => b.extend(format!("v={} ", rng.u()).bytes()),
            }
        }
        b.truncate(n as usize);
        b
    };
    match it {
        Item::Pause(_) => vec![],
        Item::Crlf(k) => match k {
            0 => b"\r\n".to_vec(),
            1 => b"\r\n\r\n".to_vec(),
            2 => b"\r\n\r\n\r\n\r\n".to_vec(),
            3 => b"\n".to_vec(),
            _ => b"\r\n\r\n\r\n".to_vec(),
        },
        Item::Msg { cl, body: n, head, replies, rsize } => {
            let b = body(*n);
            let b = if proto == 2 && ci % 2 == 0 { b.iter().map(|c| c & 0x7f).collect() } else { b };
            let mut h = format!("OPTIONS sip:c{ci}m{k}@x SIP/2.0\r\n");
            if *cl == 4 {
                h += &format!("Content-Length: {n}\r\n");
            }
            h += &format!("Call-ID: c{ci}m{k}\r\nX-Reply: {replies} {rsize}\r\n");
            let c = match cl {
                1 => format!("l: {n}"),
                2 => format!("CONTENT-length \t:   {n}  "),
                3 => format!("Content-Length: {n}\r\nl: {n}"),
                4 => "X-Last: yes".to_string(),
                5 => format!("content-length: 000{n}"),
                6 => format!("Subject: a\r\n Content-Length: 99\r\nContent-Length:{n}"),
                7 => format!("X-Content-Length: 7\r\nContent-Length-Not: 8\r\nL:{n}"),
                _ => format!("Content-Length: {n}"),
            };
            let fill = (*head as usize).saturating_sub(h.len() + c.len() + 9);
            if fill > 0 {
                h += "X-Pad: ";
                h.extend(std::iter::repeat('p').take(fill));
                h += "\r\n";
            }
            h += &c;
            let mut v = h.into_bytes();
            v.extend(b"\r\n\r\n");
            v.extend(b);
            v
        }
        Item::Bad(b) => {
            let mut h = format!("OPTIONS sip:c{ci}bad{k}@x SIP/2.0\r\nX-Reply: 0 0\r\n");
            match b {
                0 => {}
                1 => h += "Content-Length: 4\r\nContent-Length: 5\r\n",
                2 => h += "Content-Length: 12x\r\n",
                3 => h += "Content-Length: -1\r\n",
                4 => h += "Content-Length: 10485761\r\n",
                5 => h += "Content-Length: 18446744073709551617\r\n",
                6 => h += "Content-Length:\r\n",
                7 => {
                    h += "Content-Length: 0\r\nX-Pad: ";
                    h.extend(std::iter::repeat('p').take(66_000));
                    h += "\r\n";
                }
                8 => {
                    h += "X-Pad: ";
                    h.extend(std::iter::repeat('p').take(66_000));
                    return h.into_bytes();
                }
                9 => h += "Content-Length:\r\n 4\r\n",
                _ => h += "Content-Length: 4\r\nl: 0\r\n",
            }
            h += "\r\nabcd";
            h.into_bytes()
        }
    }
}
/// What the bytes mean, however they were cut up: the messages, and the number
/// of bytes after which framing is broken.
pub fn reference(w: &[u8]) -> (Vec<(usize, usize)>, Option<usize>) {
    const HEAD: usize = 65536;
    let mut out = vec![];
    let mut i = 0;
    loop {
        while i < w.len() && (w[i] == b'\r' || w[i] == b'\n') {
            i += 1;
        }
        if i == w.len() {
            return (out, None);
        }
        let Some(h) = w[i..].windows(4).take(HEAD + 1).position(|x| x == b"\r\n\r\n") else {
            return (out, if w.len() - i > HEAD + 3 { Some(i + HEAD + 4) } else { None });
        };
        let head = String::from_utf8_lossy(&w[i..i + h]).into_owned();
        let body = i + h + 4;
        // unfold
        let mut lines: Vec<String> = vec![];
        for l in head.split("\r\n") {
            match lines.last_mut() {
                Some(p) if l.starts_with([' ', '\t']) => *p += l,
                _ => lines.push(l.to_string()),
            }
        }
        let mut cl: Option<u64> = None;
        let mut bad = false;
        for l in &lines {
            let Some((n, v)) = l.split_once(':') else { continue };
            let n = n.trim().to_ascii_lowercase();
            if n != "content-length" && n != "l" {
                continue;
            }
            // a folded value is refused
            let folded = !head.contains(l.as_str());
            let v = v.trim();
            let d = v.bytes().all(|c| c.is_ascii_digit()).then(|| v.parse::<u64>().ok()).flatten();
            match d {
                Some(d) if d <= 10 * 1024 * 1024 && !folded && cl.map_or(true, |c| c == d) => cl = Some(d),
                _ => bad = true,
            }
        }
        let Some(cl) = cl.filter(|_| !bad) else { return (out, Some(body)) };
        if w.len() < body + cl as usize {
            return (out, None);
        }
        out.push((i, body + cl as usize));
        i = body + cl as usize;
    }
}

// ---------------------------------------------------------------- world
#[derive(Default)]
struct Rec {
    src: u8,
    t_conn: u64,
    up: Option<u64>,
    failed: bool,
    /// all bytes it tried to write
    w: Vec<u8>,
    /// WebSocket messages it tried to write
    msgs: Vec<Vec<u8>>,
    /// end offset, begin and end time of each write
    writes: Vec<(usize, u64, u64)>,
    wrote_all: bool,
    hello: u8,
    deliv: Vec<(Vec<u8>, u64)>,
    /// replies accepted, in order
    ok: Vec<Vec<u8>>,
    got: Vec<u8>,
    read: u8,
    eof: Option<u64>,
    fin: Option<u64>,
    reset: Option<u64>,
    dropped: Option<u64>,
    flow: Option<mpsc::Sender<Bytes>>,
}
#[derive(Default)]
struct World {
    recs: Vec<Rec>,
    by_addr: BTreeMap<SocketAddr, usize>,
    probes_ok: usize,
}
type W = Arc<Mutex<World>>;

fn bad(p: &str, class: &str, d: String) {
    sim::violation(p, class, d)
}
/// What a transfer of `n` bytes and everything around it may take.
fn slack(n: usize) -> u64 {
    let (lat, jit) = sim::lat_jit();
    5 * S + (n as u64 / 512 + 40) * 2 * (lat + jit)
}

async fn app(p: Plan, w: W, mut rx: mpsc::Receiver<InboundPacket>) {
    let mut flows: BTreeMap<SocketAddr, mpsc::UnboundedSender<(mpsc::Sender<Bytes>, Bytes)>> = BTreeMap::new();
    while let Some(pk) = rx.recv().await {
        let now = sim::now();
        let ci = {
            let mut g = w.lock().unwrap();
            let Some(ci) = g.by_addr.get(&pk.peer()).copied() else {
                bad("N01", "unknown-peer", format!("a packet from {} which has no connection", pk.peer()));
                continue;
            };
            let rec = &mut g.recs[ci];
            rec.deliv.push((pk.payload().to_vec(), now));
            rec.flow = pk.stream().cloned();
            ci
        };
        let Some(st) = pk.stream().cloned() else {
            bad("N01", "no-stream", format!("connection {ci}: a packet without its connection"));
            continue;
        };
        if p.app_us > 0 {
            tokio::time::sleep(Duration::from_micros(p.app_us)).await;
        }
        let kind = pk.transport();
        let tx = flows.entry(pk.peer()).or_insert_with(|| {
            let (tx, mut rx) = mpsc::unbounded_channel::<(mpsc::Sender<Bytes>, Bytes)>();
            let w = w.clone();
            tokio::spawn(async move {
                let mut seq = 0;
                while let Some((st, payload)) = rx.recv().await {
                    let head = String::from_utf8_lossy(&payload);
                    let Some(l) = head.split("\r\n").find_map(|l| l.strip_prefix("X-Reply: ")) else { continue };
                    let mut f = l.split(' ').map(|x| x.parse::<usize>().unwrap_or(0));
                    let (n, size) = (f.next().unwrap_or(0), f.next().unwrap_or(0));
                    for _ in 0..n {
                        seq += 1;
                        let mut m = format!("SIP/2.0 200 OK\r\nX-Id: {ci} {seq}\r\nContent-Length: {size}\r\n\r\n").into_bytes();
                        m.extend(std::iter::repeat(b'r').take(size));
                        let (t0, s0) = (sim::now(), sim::stalled());
                        // it counts from the moment it may be accepted
                        let ok = sip_transport::send_stream(kind, &st, Bytes::from(m.clone())).await.is_ok();
                        let dt = sim::now() - t0;
                        if dt > 5 * S + 300 * MS + (sim::stalled() - s0) {
                            bad("N03", "send-over-time", format!("a send on connection {ci} took {} ms", dt / MS));
                        }
                        if ok {
                            w.lock().unwrap().recs[ci].ok.push(m);
                        } else {
                            sim::probe("reply_refused");
                        }
                    }
                }
            });
            tx
        });
        let _ = tx.send((st, pk.payload().clone()));
    }
}

/// One connection, from the peer's side.
async fn peer(p: Arc<Plan>, w: W, ci: usize, c: Conn, horizon: u64, nodes: (sim::Node, sim::Node)) {
    {
        let mut g = w.lock().unwrap();
        g.recs[ci].t_conn = sim::now();
        g.recs[ci].src = c.src;
        g.recs[ci].hello = if p.proto == 0 { 0 } else { c.hello };
        g.recs[ci].read = c.read;
    }
    let s = tokio::net::TcpStream::connect(SRV).await;
    let Ok(mut s) = s else {
        let mut g = w.lock().unwrap();
        g.recs[ci].failed = true;
        g.recs[ci].eof = Some(sim::now());
        slog!("connection {ci}: refused");
        return;
    };
    {
        let mut g = w.lock().unwrap();
        g.recs[ci].up = Some(sim::now());
        if let Ok(a) = s.local_addr() {
            g.by_addr.insert(a, ci);
        }
        slog!("connection {ci}: up");
    }
    if p.proto > 0 {
        let (hi, want): (&[u8], usize) = if p.proto == 1 { (CLIENT_HELLO, SERVER_HELLO.len()) } else { (b"GET / HTTP/1.1\r\nHost: x\r\nSec-WebSocket-Protocol: sip\r\n\r\n", 0) };
        let r: std::io::Result<()> = async {
            match c.hello {
                1 => return Ok(()),
                2 => return s.write_all(&hi[..hi.len() / 2]).await,
                3 => return s.write_all(if p.proto == 1 { b"\x15not-hello----\n" } else { b"GET / HTTP/1.1\r\nHost: x\r\n\r\n" }).await,
                _ => {}
            }
            s.write_all(hi).await?;
            if want > 0 {
                let mut b = vec![0; want];
                s.read_exact(&mut b).await?;
            } else {
                let mut b = vec![];
                while !b.ends_with(b"\r\n\r\n") {
                    b.push(s.read_u8().await?);
                }
            }
            Ok(())
        }
        .await;
        if r.is_err() {
            w.lock().unwrap().recs[ci].eof = Some(sim::now());
            return;
        }
    }
    let (mut rd, mut wr) = s.into_split();
    let w2 = w.clone();
    let read = c.read;
    let reader = tokio::spawn(async move {
        let mut b = vec![0u8; 4096];
        if read == 1 {
            tokio::time::sleep(Duration::from_nanos(horizon.saturating_sub(sim::now()))).await;
            return rd;
        }
        loop {
            let left = horizon.saturating_sub(sim::now());
            let n = match tokio::time::timeout(Duration::from_nanos(left), rd.read(&mut b)).await {
                Err(_) => return rd,
                Ok(Ok(n)) if n > 0 => n,
                Ok(r) => {
                    slog!("connection {ci}: over, {r:?}");
                    w2.lock().unwrap().recs[ci].eof = Some(sim::now());
                    return rd;
                }
            };
            w2.lock().unwrap().recs[ci].got.extend(&b[..n]);
            if read == 2 {
                tokio::time::sleep(Duration::from_millis(20)).await;
            }
        }
    });
    let talk = async {
        let last = c.items.iter().rposition(|i| !matches!(i, Item::Pause(_)));
        let mut cut = 0;
        if p.proto > 0 && c.hello != 0 {
            return Ok::<(), std::io::Error>(());
        }
        for (k, it) in c.items.iter().enumerate() {
            if let Item::Pause(us) = it {
                tokio::time::sleep(Duration::from_micros(*us)).await;
                continue;
            }
            let mut m = render(it, ci, k, p.body_seed, p.proto);
            if p.proto == 2 {
                let f = match it {
                    Item::Crlf(_) => Message::Ping(vec![1, 2]),
                    _ => {
                        w.lock().unwrap().recs[ci].msgs.push(m.clone());
                        match String::from_utf8(m.clone()) {
                            Ok(t) if ci % 2 == 0 => Message::Text(t),
                            _ => Message::Binary(m),
                        }
                    }
                };
                m = vec![];
                tokio_tungstenite::encode(&f, &mut m);
            }
            if Some(k) == last {
                m.truncate(m.len().saturating_sub(c.trunc as usize));
            }
            let mut o = 0;
            while o < m.len() {
                let (n, pause) = c.cuts[cut % c.cuts.len()];
                cut += 1;
                let n = (n as usize).min(m.len() - o);
                let wi = {
                    let mut g = w.lock().unwrap();
                    let rec = &mut g.recs[ci];
                    rec.w.extend(&m[o..o + n]);
                    let e = rec.w.len();
                    rec.writes.push((e, sim::now(), u64::MAX));
                    rec.writes.len() - 1
                };
                wr.write_all(&m[o..o + n]).await?;
                w.lock().unwrap().recs[ci].writes[wi].2 = sim::now();
                o += n;
                if pause > 0 {
                    tokio::time::sleep(Duration::from_micros(pause)).await;
                }
            }
        }
        w.lock().unwrap().recs[ci].wrote_all = true;
        Ok(())
    };
    let left = horizon.saturating_sub(sim::now());
    let r = tokio::time::timeout(Duration::from_nanos(left), talk).await;
    let mut keep = None;
    if let Ok(Ok(())) = r {
        match c.end {
            End::Stay => keep = Some(wr),
            End::Fin(us) => {
                tokio::time::sleep(Duration::from_micros(us)).await;
                w.lock().unwrap().recs[ci].fin = Some(sim::now());
                let _ = wr.shutdown().await;
                keep = Some(wr);
            }
            End::Reset(us) => {
                tokio::time::sleep(Duration::from_micros(us)).await;
                {
                    let mut g = w.lock().unwrap();
                    let t = sim::now();
                    for x in g.recs.iter_mut().filter(|x| x.src == c.src && x.t_conn > 0 && x.t_conn <= t) {
                        x.reset.get_or_insert(t);
                    }
                }
                sim::reset_conns(nodes.0, nodes.1);
                keep = Some(wr);
            }
        }
    } else {
        keep.replace(wr);
    }
    let rd = reader.await;
    w.lock().unwrap().recs[ci].dropped = Some(sim::now());
    drop((rd, keep));
}

fn run(v: &Value) {
    let p: Plan = serde_json::from_value(v.clone()).unwrap();
    let _ = sip_transport::set_stream_rate_limit(sip_transport::RateLimitConfig::new(1_000_000, 1).unwrap());
    sip_transport::set_established_idle_timeout(p.idle);
    sip_transport::set_stream_keepalive_interval(p.keepalive);
    let w: W = Default::default();
    let srv = sim::node("10.0.7.1");
    let srcs = p.conns.iter().map(|c| c.src).max().unwrap_or(0) + 1;
    let nodes: Vec<_> = (0..srcs).map(|i| sim::node(&format!("10.0.1.{}", i + 1))).collect();
    let (stop_tx, stop_rx) = tokio::sync::oneshot::channel::<()>();
    let sh = {
        let (p, w) = (p.clone(), w.clone());
        sim::spawn_on(srv, move || {
            let rt = sim::runtime();
            rt.block_on(async {
                let (tx, rx) = mpsc::channel(p.chan);
                tokio::spawn(app(p.clone(), w, rx));
                let l = tokio::spawn(async move {
                    let r = match p.proto {
                        0 => sip_transport::run_tcp("0.0.0.0:5060", tx).await,
                        1 => sip_transport::run_tls("0.0.0.0:5060", Arc::new(tokio_rustls::rustls::ServerConfig::builder().with_no_client_auth().with_single_cert(vec![], tokio_rustls::rustls::pki_types::PrivateKeyDer::Pkcs8(vec![].into())).unwrap()), tx).await,
                        _ => sip_transport::run_ws("0.0.0.0:5060", tx).await,
                    };
                    bad("N04", "listener-ended", format!("{r:?}"));
                });
                let _ = stop_rx.await;
                l.abort();
            });
        })
    };
    sim::sleep_ms(50);
    // everything a peer does is over by then
    let talk = p.conns.iter().map(|c| {
        let pauses: u64 = c.items.iter().map(|i| if let Item::Pause(u) = i { *u } else { 0 }).sum();
        let bytes: u64 = c.items.iter().enumerate().map(|(k, i)| render(i, 0, k, 0, 0).len() as u64 + 8).sum();
        let per = c.cuts.iter().map(|x| x.1).sum::<u64>() * (bytes / c.cuts.iter().map(|x| x.0 as u64).sum::<u64>().max(1) + 1);
        c.us + pauses + per + match c.end { End::Fin(u) | End::Reset(u) => u, _ => 0 } + slack(bytes as usize) / 1000
    }).max().unwrap_or(0) * 1000;
    let heal = p.cuts.iter().map(|c| (c.0 + c.1) * MS).max().unwrap_or(0);
    let t0 = sim::now();
    let horizon = t0 + talk.max(heal) + if p.idle == 0 { 0 } else { p.idle * S } + 200 * S;
    for &(at, dur, s) in &p.cuts {
        let n = nodes[s.min(srcs - 1) as usize];
        sim::at(Duration::from_millis(at), move || sim::cut(n, srv, true));
        sim::at(Duration::from_millis(at + dur), sim::heal);
    }
    w.lock().unwrap().recs = (0..p.conns.len() + p.probe as usize).map(|_| Rec::default()).collect();
    let pp = Arc::new(p.clone());
    let hs: Vec<_> = (0..srcs)
        .map(|s| {
            let (pp, w, n) = (pp.clone(), w.clone(), nodes[s as usize]);
            sim::spawn_on(n, move || {
                let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
                rt.block_on(async {
                    let ts: Vec<_> = pp.conns.iter().cloned().enumerate().filter(|(_, c)| c.src == s).map(|(ci, c)| {
                        let (pp, w) = (pp.clone(), w.clone());
                        tokio::spawn(async move {
                            tokio::time::sleep(Duration::from_micros(c.us)).await;
                            peer(pp, w, ci, c, horizon, (n, srv)).await
                        })
                    }).collect();
                    for t in ts {
                        let _ = t.await;
                    }
                });
            })
        })
        .collect();
    sim::sleep(Duration::from_nanos(horizon - 2 * S - sim::now()));
    late_sends(&p, &w, srv, t0);
    for h in hs {
        let _ = h.join();
    }
    // all the peers' sockets are gone
    sim::sleep(Duration::from_nanos(130 * S + slack(2000)));
    late_sends(&p, &w, srv, t0);
    let n0 = p.conns.len();
    {
        let (pp, w2, n) = (pp.clone(), w.clone(), nodes[0]);
        let horizon = sim::now() + 4 * S + slack(3000) + p.probe as u64 * p.app_us * 1000;
        let h = sim::spawn_on(n, move || {
            let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
            rt.block_on(async {
                let ts: Vec<_> = (0..pp.probe as usize).map(|i| {
                    let c = Conn { us: 0, src: 0, items: vec![msg(1)], cuts: vec![(u32::MAX, 0)], trunc: 0, end: End::Stay, read: 0, hello: 0 };
                    tokio::spawn(peer(pp.clone(), w2.clone(), n0 + i, c, horizon, (n, srv)))
                }).collect();
                for t in ts {
                    let _ = t.await;
                }
            });
        });
        let _ = h.join();
        let g = w.lock().unwrap();
        let served = g.recs[n0..].iter().filter(|r| r.deliv.len() == 1).count();
        if served < p.probe as usize {
            bad("N04", "not-accepted-again", format!("with every earlier connection long gone {served} of {} new ones from one source are served", p.probe));
        } else {
            sim::probe("accepted_again");
        }
    }
    judge(&p, &w, t0, horizon);
    let _ = stop_tx.send(());
    sim::sleep_ms(20);
    drop(w);
    let _ = sh.join();
}

/// Connections that are over take no more.
fn late_sends(p: &Plan, w: &W, srv: sim::Node, t0: u64) {
    let n = p.conns.len();
    let todo: Vec<(usize, mpsc::Sender<Bytes>)> = {
        let g = w.lock().unwrap();
        let now = sim::now();
        (0..n).filter_map(|i| {
            let r = &g.recs[i];
            let gone = [r.eof, r.fin, r.dropped].into_iter().flatten().min()?;
            let t = gone + slack(r.w.len() + r.ok.iter().map(|m| m.len()).sum::<usize>()) + 7 * S + p.app_us * 1000 * (r.deliv.len() as u64 + 1);
            (t < now && (p.proto != 2 || r.read == 0) && !partitioned(p, r.src, t0, gone, now) && r.flow.is_some()).then(|| (i, r.flow.clone().unwrap()))
        }).collect()
    };
    if todo.is_empty() {
        return;
    }
    let h = sim::spawn_on(srv, move || {
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
        rt.block_on(async {
            for (i, f) in todo {
                if sip_transport::send_stream(sip_transport::TransportKind::Tcp, &f, Bytes::from_static(b"late")).await.is_ok() {
                    bad("N04", "late-send-queued", format!("connection {i} is over, a send on it is still accepted"));
                } else {
                    sim::probe("late_send_refused");
                }
            }
        })
    });
    let _ = h.join();
}
fn partitioned(p: &Plan, src: u8, t0: u64, a: u64, b: u64) -> bool {
    let srcs = p.conns.iter().map(|c| c.src).max().unwrap_or(0);
    p.cuts.iter().any(|c| c.2.min(srcs) == src && t0 + c.0 * MS <= b && t0 + (c.0 + c.1) * MS + 3 * S >= a)
}

fn judge(p: &Plan, w: &W, t0: u64, horizon: u64) {
    let g = w.lock().unwrap();
    let n = p.conns.len();
    let stalls = sim::stalled();
    let napp: u64 = g.recs.iter().map(|r| r.deliv.len() as u64).sum::<u64>() * p.app_us * 1000;
    // when each certainly held its slot, and when it may have
    let mut sure: Vec<(u8, u64, u64)> = vec![];
    let mut may: Vec<(u8, u64, u64)> = vec![];
    for r in &g.recs[..n] {
        let sl = slack(r.w.len()) + stalls + napp;
        if r.t_conn == 0 {
            continue;
        }
        let out = if r.read == 0 { r.eof } else { None };
        may.push((r.src, r.t_conn, if partitioned(p, r.src, t0, 0, horizon) { u64::MAX } else { out.or(r.dropped).map_or(u64::MAX, |t| t + sl + 6 * S) }));
        if let (Some(f), Some(l)) = (r.deliv.first(), r.deliv.last()) {
            // the last message delivered was begun to be written at:
            let ends = reference(&r.w).0;
            if let Some(e) = ends.get(r.deliv.len() - 1) {
                let (_, begun, _) = r.writes[r.writes.iter().position(|x| x.0 >= e.1).unwrap_or(0)];
                if p.proto != 2 && begun > f.1 && l.1 >= begun {
                    sure.push((r.src, f.1, begun));
                }
            }
        }
    }
    let most = |v: &[(u8, u64, u64)]| {
        let mut e: Vec<(u64, i32)> = v.iter().flat_map(|x| [(x.1, 1), (x.2, -1)]).collect();
        e.sort();
        let (mut c, mut m) = (0, 0);
        for (_, d) in e {
            c += d;
            m = m.max(c);
        }
        m
    };
    if most(&sure) > 1024 {
        bad("N04", "over-total", format!("{} sessions at once, 1024 allowed", most(&sure)));
    }
    for s in 0..=sure.iter().map(|x| x.0).max().unwrap_or(0) {
        let v: Vec<_> = sure.iter().copied().filter(|x| x.0 == s).collect();
        let m = most(&v);
        if m > 64 {
            bad("N04", "over-source", format!("{m} sessions of one source at once, 64 allowed"));
        }
        if m == 64 {
            sim::probe("source_at_limit");
        }
    }
    if most(&sure) == 1024 {
        sim::probe("total_at_limit");
    }
    for (i, r) in g.recs[..n].iter().enumerate() {
        let Some(up) = r.up else { continue };
        let sl = slack(r.w.len() + r.got.len()) + stalls + napp;
        let (want, broken): (Vec<Vec<u8>>, bool) = if p.proto == 2 {
            (r.msgs.clone(), false)
        } else {
            let (f, e) = reference(&r.w);
            (f.iter().map(|&(a, b)| r.w[a..b].to_vec()).collect(), e.is_some())
        };
        let got: Vec<&Vec<u8>> = r.deliv.iter().map(|d| &d.0).collect();
        // --- N01: exactly those, in order
        if got.len() > want.len() || got.iter().zip(&want).any(|(a, b)| *a != b) {
            let k = got.iter().zip(&want).position(|(a, b)| *a != b).unwrap_or(want.len());
            bad("N01", "not-what-was-sent", format!("connection {i}: packet {k} of {} is not message {k} of {}; it is {} bytes: {:?}", got.len(), want.len(), got.get(k).map_or(0, |g| g.len()), got.get(k).map(|g| String::from_utf8_lossy(&g[..g.len().min(80)]).into_owned())));
            continue;
        }
        let crowd = |v: &[(u8, u64, u64)], one: bool| v.iter().filter(|x| (!one || x.0 == r.src) && x.1 <= up + sl && x.2 >= r.t_conn).count();
        let refusable = crowd(&may, true) > 64 || crowd(&may, false) > 1024;
        let cut = partitioned(p, r.src, t0, r.t_conn, horizon);
        // the peer's own doing
        let own = [r.fin, r.reset].into_iter().flatten().min();
        let closed = r.eof;
        // by whom, and was it time?
        let proven = !r.deliv.is_empty();
        let mut early_close = false; // a close that explains missing messages
        if let Some(tc) = closed {
            let by_peer = own.is_some_and(|o| o <= tc);
            if by_peer || broken || (p.proto == 2 && r.hello != 0) || r.hello >= 2 {
                early_close = r.reset.is_some() || broken || r.hello != 0;
            } else if refusable && !proven {
                sim::probe("refused");
                continue;
            } else if p.proto == 2 {
                bad("N04", "closed-too-soon", format!("connection {i} (WebSocket) was closed without cause at {} ms", tc / MS));
            } else if !proven {
                if tc < r.t_conn + 60 * S {
                    bad("N04", "closed-too-soon", format!("connection {i} was closed after {} ms without a message", (tc - r.t_conn) / MS));
                }
                early_close = true;
                sim::probe("shed_silent");
            } else {
                early_close = true;
                // the last bytes that were there when it closed
                let last = r.writes.iter().filter(|x| x.2 != u64::MAX && x.2 + sl < tc).map(|x| x.1).max();
                if p.idle == 0 || last.is_some_and(|l| tc < l + p.idle * S) || (last.is_none() && tc < up + p.idle * S) {
                    if !cut {
                        bad("N04", "idle-too-short", format!("connection {i} was closed {} ms after its last bytes, idle time {} s", last.map_or(0, |l| (tc - l) / MS), p.idle));
                    }
                }
                sim::probe("idle_closed");
            }
        }
        if !cut && r.read == 0 {
            let over = |since: u64, bound: u64, what: &str| {
                if closed.map_or(horizon > since + bound + 3 * S, |tc| tc > since + bound) {
                    bad("N04", "not-closed", format!("connection {i} {what}: still open {} ms later, {} ms allowed", (closed.unwrap_or(horizon) - since) / MS, bound / MS));
                }
            };
            let last_w = r.writes.iter().map(|x| if x.2 == u64::MAX { x.1 } else { x.2 }).max().unwrap_or(up);
            if let Some(o) = own {
                if r.reset.is_none() {
                    over(o, sl + 6 * S, "after the peer closed");
                }
            } else if r.hello != 0 {
                over(up, 60 * S + sl, "without its handshake");
            } else if p.proto == 2 {
            } else if broken {
                // the offending bytes may have come last
                over(last_w, sl + 6 * S, "after broken framing");
            } else if !proven {
                over(up, if p.proto == 1 { 120 } else { 60 } * S + sl, "without a message");
            } else if p.idle > 0 {
                over(last_w, p.idle * S + sl + 6 * S, "idle");
            }
        }
        // --- N01: and all of them
        // a peer that does not read, or closes itself, may not see that it was
        // given up in time
        let mut given_up = false;
        if (r.read != 0 || own.is_some()) && p.proto != 2 && got.len() < want.len() {
            let first = reference(&r.w).0.first().and_then(|e| r.writes.iter().find(|x| x.0 >= e.1)).map_or(u64::MAX, |x| x.2);
            let gap = r.writes.windows(2).map(|x| if x[1].2 == u64::MAX { u64::MAX } else { x[1].2 - x[0].1 }).max().unwrap_or(0);
            if first.saturating_sub(r.t_conn).saturating_add(sl) >= 60 * S || p.idle > 0 && gap.saturating_add(sl) >= p.idle * S {
                given_up = true;
                early_close = true;
            }
        }
        if p.proto == 2 && r.read == 1 {
            // a WebSocket session that cannot write does not read either
            early_close = true;
        }
        let whole = r.wrote_all || p.proto != 2;
        if got.len() < want.len() && !early_close && r.reset.is_none() && whole && !(refusable && !proven) {
            let due = r.fin.is_some() || r.eof.is_none();
            let last = want.len() - got.len();
            if due && !(p.proto == 2 && p.conns[i].trunc > 0 && last == 1) && (r.wrote_all || p.proto != 2) && !cut {
                bad("N01", "message-missing", format!("connection {i}: {} of {} messages delivered", got.len(), want.len()));
            }
        }
        // a broken stream still yields what preceded the break
        if broken && !given_up && got.len() < want.len() && r.reset.is_none() && !cut && !refusable && r.writes.iter().all(|x| x.2 != u64::MAX && x.2 + 0 < horizon) {
            // closing for idleness may have come first
            let idle_first = closed.is_some_and(|tc| tc >= r.t_conn + 30 * S);
            if !idle_first {
                bad("N01", "message-missing", format!("connection {i}: {} of the {} messages before the framing error delivered", got.len(), want.len()));
            }
        }
        if !got.is_empty() && got.len() == want.len() {
            sim::probe("all_delivered");
        }
        // --- replies
        let mut mine = r.got.clone();
        if p.proto == 2 {
            let mut o = vec![];
            while let Ok(Some(m)) = tokio_tungstenite::decode(&mut mine, 1 << 24) {
                if let Message::Binary(b) = m {
                    o.extend(b);
                }
            }
            mine = o;
        }
        let (mut at, mut k) = (0, 0);
        loop {
            while mine[at..].starts_with(b"\r\n") {
                at += 2;
            }
            let Some(m) = r.ok.get(k) else { break };
            let rest = &mine[at..];
            if rest.len() < m.len() {
                if !m.starts_with(rest) && !rest.iter().all(|c| *c == b'\r' || *c == b'\n') {
                    bad("N01", "replies-mixed-up", format!("connection {i}: reply {k} of {} did not arrive as sent", r.ok.len()));
                }
                break;
            }
            if &rest[..m.len()] != m.as_slice() {
                bad("N01", "replies-mixed-up", format!("connection {i}: reply {k} of {} did not arrive as sent", r.ok.len()));
                break;
            }
            at += m.len();
            k += 1;
        }
        if k < r.ok.len() && r.read == 0 && r.reset.is_none() && !broken && !cut && r.fin.is_none() && closed.is_none() {
            bad("N01", "reply-missing", format!("connection {i}: {k} of {} accepted replies arrived", r.ok.len()));
        }
        if k > 0 && k == r.ok.len() {
            sim::probe("all_replies_arrived");
        }
    }
}
