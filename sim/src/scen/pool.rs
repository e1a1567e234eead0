//! N02, N03 (and N01 for responses): the outbound connection pools against
//! peers that refuse, stall, reset, close, crash and come back.
use super::listen::{reference, render as render_in, Item};
use super::*;
use crate::{sim, slog};
use bytes::Bytes;
use serde::{Deserialize, Serialize};
use sip_transport::pool::{ConnectionPool, TlsPool};
use sip_transport::{InboundPacket, TransportKind};
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::sync::mpsc;
use tokio_rustls::{CLIENT_HELLO, SERVER_HELLO};
use tokio_tungstenite::tungstenite::Message;

const MS: u64 = 1_000_000;
const S: u64 = 1000 * MS;

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
enum Act {
    /// every connection to the peer is reset
    Reset,
    /// the peer closes its connections: abruptly or after what it writes;
    /// with the front of another message before
    Fin { hard: bool, part: u32 },
    /// stops reading for so many ms
    Stop(u64),
    /// unreachable for so many ms
    Cut(u64),
    /// dead for so many ms
    Crash(u64),
    /// does not run for so many ms
    Stall(u64),
    Push { items: Vec<Item>, cuts: Vec<(u32, u64)> },
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Peer {
    /// 0 TCP, 1 TLS, 2 WebSocket
    kind: u8,
    /// 0 good, 1 no listener, 2 down, 3 never reads, 4 no handshake
    base: u8,
    acts: Vec<(u64, Act)>,
    /// messages pushed back for each one received
    reply: u8,
    cuts: Vec<(u32, u64)>,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Op {
    us: u64,
    peer: u8,
    n: u8,
    size: u32,
    sni: u8,
}
#[derive(Serialize, Deserialize, Clone)]
struct Plan {
    peers: Vec<Peer>,
    max: usize,
    idle_ms: u64,
    keepalive_ms: u64,
    sink: bool,
    chan: usize,
    app_us: u64,
    clean_us: u64,
    senders: Vec<Vec<Op>>,
    seed: u64,
}

pub fn scenario() -> Scenario {
    Scenario {
        name: "pool",
        gen,
        tune,
        run,
        real: "sip-transport (ConnectionPool, TlsPool, writers, readers, framing), tokio runtime and timers, dashmap",
        stub: "peers, TCP network; TLS and WebSocket record layers",
        deadlock_is_violation: true,
    }
}
fn tune(r: &mut sim::Rng, k: &mut Knobs, v: &Value) {
    tune_net(r, k);
    k.lat_ns = k.lat_ns.min(10_000_000);
    k.jitter_ns = k.jitter_ns.min(10_000_000);
    k.stall_max_ns = r.log(1e4, 2e6) as u64;
    let n: u64 = v["senders"].as_array().unwrap().iter().flat_map(|s| s.as_array().unwrap()).map(|o| o["n"].as_u64().unwrap()).sum();
    if n > 150 {
        k.preempt_mean = *r.pick(&[0, 300, 3000]);
    }
}
fn gen(r: &mut sim::Rng, prop: &str, _t: Tier) -> Value {
    let span = r.log(2e3, 3e7) as u64;
    let calm = r.chance(0.2);
    let bad = if prop == "N03" { 0.4 } else { 0.12 };
    let inbound = prop == "N01";
    let one = r.chance(0.4).then(|| r.below(3) as u8);
    let mut body = 0;
    let peers: Vec<Peer> = (0..r.range(1, 6))
        .map(|_| {
            let kind = one.unwrap_or(*r.pick(&[0, 0, 0, 1, 1, 2]));
            let base = if r.chance(bad) { r.range(1, if kind == 0 { 3 } else { 4 }) as u8 } else { 0 };
            let acts = (0..if calm { 0 } else { r.below(4) })
                .map(|_| {
                    let ms = |r: &mut sim::Rng| if r.chance(0.5) { r.below(400) } else { r.range(400, 15_000) };
                    (
                        r.below(span),
                        match r.below(8) {
                            0 | 1 => Act::Reset,
                            2 | 3 => Act::Fin { hard: r.chance(0.5), part: if r.chance(0.3) { r.range(1, 300) as u32 } else { 0 } },
                            4 => Act::Stop(ms(r)),
                            5 => Act::Cut(ms(r)),
                            6 => Act::Crash(ms(r)),
                            _ => Act::Stall(ms(r)),
                        },
                    )
                })
                .collect();
            Peer { kind, base, acts, reply: if r.chance(if inbound { 0.6 } else { 0.2 }) { r.range(1, 3) as u8 } else { 0 }, cuts: super::listen::gen_cuts(r) }
        })
        .collect();
    let mut peers = peers;
    for p in &mut peers {
        for _ in 0..r.below(if inbound { 5 } else { 2 }) {
            let items: Vec<Item> = (0..r.range(1, 4))
                .map(|_| match r.below(6) {
                    0 => Item::Crlf(r.below(3) as u8),
                    _ => Item::Msg { cl: r.below(9) as u8, body: if r.chance(0.3) { 0 } else { r.log(1.0, 4000.0) as u32 }, head: 0, replies: r.chance(0.3) as u8, rsize: 9 },
                })
                .collect();
            let items = if p.kind == 2 { items.into_iter().map(|i| match i { Item::Msg { body, replies, rsize, .. } => Item::Msg { cl: 0, body, head: 0, replies, rsize }, i => i }).collect() } else { items };
            p.acts.push((r.below(span), Act::Push { items, cuts: super::listen::gen_cuts(r) }));
        }
        p.acts.sort_by_key(|a| a.0);
    }
    let n = peers.len() as u64;
    let hot = r.chance(0.4).then(|| r.below(n) as u8);
    let burst = r.chance(if prop == "N03" { 0.5 } else { 0.15 });
    let senders = (0..r.range(1, 6))
        .map(|_| {
            let gap = *r.pick(&[1, 1000, span / 10 + 1, span / 3 + 1]);
            (0..r.range(1, 12))
                .map(|_| {
                    let size = match r.below(6) {
                        0 => 0,
                        1 => 3000,
                        _ => r.log(1.0, 1500.0) as u32,
                    };
                    let k = if burst && r.chance(0.3) { r.range(30, 120) as u8 } else { *r.pick(&[1, 1, 1, 2, 5]) };
                    body += size as u64 * k as u64;
                    Op { us: r.below(gap), peer: hot.filter(|_| r.chance(0.7)).unwrap_or(r.below(n) as u8), n: k, size, sni: r.below(3) as u8 }
                })
                .collect()
        })
        .collect();
    serde_json::to_value(Plan {
        peers,
        max: *r.pick(&[1, 2, 3, 4, 100, 100]),
        idle_ms: *r.pick(&[1, 50, 1000, 300_000, 300_000, 300_000]),
        keepalive_ms: *r.pick(&[0, 95_000, 95_000, 200, 50]),
        sink: inbound || r.chance(0.7),
        chan: *r.pick(&[1, 4, 256]),
        app_us: *r.pick(&[0, 0, 100, 20_000]),
        clean_us: *r.pick(&[0, 0, 100, 20_000, 1_000_000]),
        senders,
        seed: r.u(),
    })
    .unwrap()
}

// ---------------------------------------------------------------- world
struct Sent {
    peer: usize,
    size: u32,
    t0: u64,
    s0: u64,
    t1: u64,
    s1: u64,
    stall: u64,
    ok: Option<bool>,
    err: String,
    /// sent back on this connection
    flow: Option<usize>,
}
#[derive(Default)]
struct Conn {
    peer: usize,
    opened: u64,
    raw: Vec<u8>,
    parsed: usize,
    msgs: Vec<Vec<u8>>,
    broken: bool,
    end: Option<(u64, bool)>,
    pushed: Vec<u8>,
    frames: Vec<(usize, Vec<u8>)>,
    npush: usize,
    write_failed: bool,
    /// when how much of `pushed` had been written
    marks: Vec<(u64, usize)>,
    last_deliv: u64,
    deliv: Vec<Vec<u8>>,
}
#[derive(Default)]
struct World {
    sent: Vec<Sent>,
    conns: Vec<Conn>,
    /// when a peer was not itself
    bad: Vec<Vec<(u64, u64)>>,
    /// it came back without its connections
    back: Vec<Vec<u64>>,
    over: bool,
}
type W = Arc<Mutex<World>>;
/// Peers may die at any scheduling point, and not with this lock.
fn with<T>(w: &W, f: impl FnOnce(&mut World) -> T) -> T {
    sim::atomic(|| f(&mut w.lock().unwrap()))
}
fn bad(p: &str, class: &str, d: String) {
    sim::violation(p, class, d)
}
/// Round trips and a little, for `n` bytes in `m` pieces.
fn slack(n: u64, m: u64) -> u64 {
    let (lat, jit) = sim::lat_jit();
    S + (n / 1024 + m + 20) * 2 * (lat + jit)
}
fn render(id: usize, peer: usize, size: u32, seed: u64) -> Vec<u8> {
    let mut v = format!("OPTIONS sip:p{peer} SIP/2.0\r\nX-Id: {id} \r\nContent-Length: {size}\r\n\r\n").into_bytes();
    let mut rng = sim::Rng(seed ^ id as u64);
    let h = v.len();
    while v.len() < h + size as usize {
        match rng.below(3) {
            0 => v.extend(b"\r\n\r\n"),
            1 => v.extend(b"OPTIONS sip:p0 SIP/2.0\r\nX-Id: 0 \r\n"),
            _ => v.extend(format!("{id:08}").bytes()),
        }
    }
    v.truncate(h + size as usize);
    v
}
fn addr(pi: usize) -> std::net::SocketAddr {
    format!("10.0.8.{}:5060", pi + 1).parse().unwrap()
}

// ---------------------------------------------------------------- peers
#[derive(Clone)]
enum Cmd {
    Stop,
    Go,
    Fin { hard: bool, part: u32 },
    Push(Vec<Item>, Vec<(u32, u64)>),
}
/// One incarnation of a peer.
fn peer_main(p: Arc<Plan>, w: W, pi: usize, t0: u64) {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    rt.block_on(async move {
        let me = p.peers[pi].clone();
        let l = tokio::net::TcpListener::bind("0.0.0.0:5060").await.unwrap();
        let conns: Arc<Mutex<Vec<mpsc::UnboundedSender<Cmd>>>> = Default::default();
        let paused = Arc::new(std::sync::atomic::AtomicU64::new((me.base == 3) as u64));
        for (us, a) in me.acts.clone() {
            let at = t0 + us * 1000;
            if at < sim::now() {
                continue;
            }
            let (conns, w, paused) = (conns.clone(), w.clone(), paused.clone());
            tokio::spawn(async move {
                tokio::time::sleep(Duration::from_nanos(at.saturating_sub(sim::now()))).await;
                let all = |c: Cmd| conns.lock().unwrap().iter().for_each(|x| drop(x.send(c.clone())));
                let now = sim::now();
                match a {
                    Act::Fin { hard, part } => {
                        with(&w, |w| w.bad[pi].push((now, now)));
                        sim::fault("peer_closes");
                        all(Cmd::Fin { hard, part });
                    }
                    Act::Stop(ms) => {
                        with(&w, |w| w.bad[pi].push((now, now + ms * MS)));
                        sim::fault("peer_stops_reading");
                        paused.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                        all(Cmd::Stop);
                        tokio::time::sleep(Duration::from_millis(ms)).await;
                        paused.fetch_sub(1, std::sync::atomic::Ordering::SeqCst);
                        all(Cmd::Go);
                    }
                    Act::Push { items, cuts } => all(Cmd::Push(items, cuts)),
                    _ => {}
                }
            });
        }
        loop {
            let Ok((s, _)) = l.accept().await else { continue };
            let ci = with(&w, |w| {
                w.conns.push(Conn { peer: pi, opened: sim::now(), ..Conn::default() });
                w.conns.len() - 1
            });
            slog!("connection {ci} to peer {pi}");
            let (tx, rx) = mpsc::unbounded_channel();
            conns.lock().unwrap().push(tx);
            tokio::spawn(conn(p.clone(), w.clone(), pi, ci, s, rx, paused.clone()));
        }
    });
}
async fn conn(p: Arc<Plan>, w: W, pi: usize, ci: usize, mut s: tokio::net::TcpStream, mut cmds: mpsc::UnboundedReceiver<Cmd>, paused: Arc<std::sync::atomic::AtomicU64>) {
    let me = &p.peers[pi];
    let end = |ok: bool| with(&w, |w| w.conns[ci].end = Some((sim::now(), ok)));
    if me.kind > 0 {
        let mut b = vec![];
        let done = |b: &Vec<u8>| if me.kind == 1 { b.len() == CLIENT_HELLO.len() } else { b.ends_with(b"\r\n\r\n") };
        while !done(&b) {
            match s.read_u8().await {
                Ok(c) => b.push(c),
                Err(_) => return end(false),
            }
        }
        if me.base == 4 {
            std::future::pending::<()>().await;
        }
        let r: &[u8] = if me.kind == 1 { SERVER_HELLO } else { b"HTTP/1.1 101 Switching Protocols\r\nSec-WebSocket-Protocol: sip\r\n\r\n" };
        if s.write_all(r).await.is_err() {
            return end(false);
        }
    }
    let (mut rd, mut wr) = s.into_split();
    enum Out {
        Items(Vec<Item>, Vec<(u32, u64)>),
        Fin(u32),
    }
    let (otx, mut orx) = mpsc::unbounded_channel::<Out>();
    let (w2, seed, kind) = (w.clone(), p.seed, me.kind);
    let writer = tokio::spawn(async move {
        while let Some(o) = orx.recv().await {
            let (items, cuts, fin) = match o {
                Out::Items(i, c) => (i, c, None),
                Out::Fin(part) => (if part > 0 { vec![Item::Msg { cl: 0, body: 200, head: 0, replies: 0, rsize: 0 }] } else { vec![] }, vec![(u32::MAX, 0)], Some(part)),
            };
            let mut cut = 0;
            for it in items {
                let k = with(&w2, |w| {
                    w.conns[ci].npush += 1;
                    w.conns[ci].npush
                });
                let mut m = render_in(&it, ci, k, seed, kind);
                if kind == 2 {
                    let f = match &it {
                        Item::Crlf(_) => Message::Ping(vec![7]),
                        _ => {
                            if fin.is_none() {
                                // Its end among the bytes pushed: five of framing.
                                with(&w2, |w| {
                                    let end = w.conns[ci].pushed.len() + 5 + m.len();
                                    w.conns[ci].frames.push((end, m.clone()))
                                });
                            }
                            match String::from_utf8(m.clone()) {
                                Ok(t) if ci % 2 == 0 => Message::Text(t),
                                _ => Message::Binary(m),
                            }
                        }
                    };
                    m = vec![];
                    tokio_tungstenite::encode(&f, &mut m);
                }
                if let Some(part) = fin {
                    let n = m.len();
                    m.truncate((part as usize).min(n - 1));
                }
                let mut o = 0;
                while o < m.len() {
                    let (n, pause) = cuts[cut % cuts.len()];
                    cut += 1;
                    let n = (n as usize).min(m.len() - o);
                    with(&w2, |w| w.conns[ci].pushed.extend(&m[o..o + n]));
                    if wr.write_all(&m[o..o + n]).await.is_err() {
                        with(&w2, |w| w.conns[ci].write_failed = true);
                        return;
                    }
                    with(&w2, |w| {
                        let c = &mut w.conns[ci];
                        if c.marks.last().map_or(true, |m| m.0 + 100 * MS < sim::now()) {
                            c.marks.push((sim::now(), c.pushed.len()));
                        }
                    });
                    o += n;
                    if pause > 0 {
                        tokio::time::sleep(Duration::from_micros(pause)).await;
                    }
                }
            }
            if fin.is_some() {
                let _ = wr.shutdown().await;
                return;
            }
        }
    });
    let mut stopped = paused.load(std::sync::atomic::Ordering::SeqCst) > 0;
    let mut b = vec![0u8; 4096];
    let mut frames = vec![];
    loop {
        tokio::select! {
            c = cmds.recv() => match c {
                None => std::future::pending().await,
                Some(Cmd::Stop) => stopped = true,
                Some(Cmd::Go) => stopped = paused.load(std::sync::atomic::Ordering::SeqCst) > 0,
                Some(Cmd::Fin { hard: true, .. }) => {
                    writer.abort();
                    end(false);
                    return;
                }
                Some(Cmd::Fin { part, .. }) => drop(otx.send(Out::Fin(part))),
                Some(Cmd::Push(i, c)) => drop(otx.send(Out::Items(i, c))),
            },
            r = rd.read(&mut b), if !stopped => match r {
                Ok(n) if n > 0 => {
                    let fresh = with(&w, |w| {
                        let c = &mut w.conns[ci];
                        let had = c.msgs.len();
                        if kind == 2 {
                            frames.extend_from_slice(&b[..n]);
                            loop {
                                match tokio_tungstenite::decode(&mut frames, 1 << 24) {
                                    Ok(Some(Message::Binary(m))) => c.msgs.push(m),
                                    Ok(Some(Message::Text(m))) => c.msgs.push(m.into_bytes()),
                                    Ok(Some(Message::Close(_))) => drop(otx.send(Out::Fin(0))),
                                    Ok(Some(_)) => {}
                                    Ok(None) => break,
                                    Err(_) => { c.broken = true; break }
                                }
                            }
                            c.raw = frames.clone();
                        } else {
                            c.raw.extend_from_slice(&b[..n]);
                            let (ms, e) = reference(&c.raw[c.parsed..]);
                            for (x, y) in &ms {
                                c.msgs.push(c.raw[c.parsed + x..c.parsed + y].to_vec());
                            }
                            c.parsed += ms.last().map_or(0, |m| m.1);
                            c.broken |= e.is_some();
                        }
                        c.msgs.len() - had
                    });
                    if me.reply > 0 && fresh > 0 {
                        let items = (0..fresh * me.reply as usize).map(|i| Item::Msg { cl: 0, body: i as u32 * 7 % 60, head: 0, replies: 0, rsize: 0 }).collect();
                        let _ = otx.send(Out::Items(items, me.cuts.clone()));
                    }
                }
                r => {
                    slog!("connection {ci} over: {r:?}");
                    end(r.is_ok());
                    return;
                }
            },
        }
    }
}

// ---------------------------------------------------------------- client
struct Pools {
    tcp: ConnectionPool,
    tls: TlsPool,
}
async fn send(p: &Plan, w: &W, pools: &Pools, peer: usize, size: u32, sni: u8) {
    let peer = peer % p.peers.len();
    let id = with(w, |w| {
        w.sent.push(Sent { peer, size, t0: sim::now(), s0: sim::seq(), t1: 0, s1: 0, stall: sim::stalled(), ok: None, err: String::new(), flow: None });
        w.sent.len() - 1
    });
    let m = Bytes::from(render(id, peer, size, p.seed));
    let r = match p.peers[peer].kind {
        0 => pools.tcp.send_tcp(addr(peer), m).await,
        1 => pools.tls.send_tls(addr(peer), ["a.example", "b.example", "10.0.8.1"][sni as usize].to_string(), Arc::new(tokio_rustls::rustls::ClientConfig::default()), m).await,
        _ => pools.tcp.send_ws(&format!("ws://{}/", addr(peer)), m).await,
    };
    with(w, |w| {
        let s = &mut w.sent[id];
        s.t1 = sim::now();
        s.s1 = sim::seq();
        s.stall = sim::stalled() - s.stall;
        s.ok = Some(r.is_ok());
        if let Err(e) = &r {
            s.err = format!("{e:#}");
        }
    });
    if let Err(e) = r {
        slog!("message {id} to peer {peer} refused: {e:#}");
    }
}
async fn sink(p: Arc<Plan>, w: W, mut rx: mpsc::Receiver<InboundPacket>) {
    while let Some(pk) = rx.recv().await {
        let txt = String::from_utf8_lossy(&pk.payload()[..pk.payload().len().min(200)]).into_owned();
        let ci = txt.strip_prefix("OPTIONS sip:c").and_then(|r| r.split('m').next()).and_then(|r| r.parse::<usize>().ok());
        let Some(ci) = ci else {
            bad("N01", "not-what-was-sent", format!("a packet no peer sent: {txt:?}"));
            continue;
        };
        let peer = with(&w, |w| {
            w.conns[ci].last_deliv = sim::now();
            w.conns[ci].deliv.push(pk.payload().to_vec());
            w.conns[ci].peer
        });
        let kind = [TransportKind::Tcp, TransportKind::Tls, TransportKind::Ws][p.peers[peer].kind as usize];
        if pk.peer() != addr(peer) || pk.transport() != kind {
            bad("N01", "wrong-source", format!("a packet of peer {peer} is handed up as from {} over {:?}", pk.peer(), pk.transport()));
        }
        if p.app_us > 0 {
            tokio::time::sleep(Duration::from_micros(p.app_us)).await;
        }
        if let (Some(st), true) = (pk.stream().cloned(), txt.contains("X-Reply: 1")) {
            let id = with(&w, |w| {
                w.sent.push(Sent { peer, size: 30, t0: sim::now(), s0: sim::seq(), t1: 0, s1: 0, stall: sim::stalled(), ok: None, err: String::new(), flow: Some(ci) });
                w.sent.len() - 1
            });
            let m = Bytes::from(render(id, peer, 30, p.seed));
            let w = w.clone();
            tokio::spawn(async move {
                let r = sip_transport::send_stream(kind, &st, m).await;
                with(&w, |w| {
                    let s = &mut w.sent[id];
                    s.t1 = sim::now();
                    s.s1 = sim::seq();
                    s.stall = sim::stalled() - s.stall;
                    s.ok = Some(r.is_ok());
                });
            });
        }
    }
}
fn client(p: Arc<Plan>, w: W, settle: u64) {
    let rt = sim::runtime();
    let (p2, w2) = (p.clone(), w.clone());
    rt.block_on(async move {
        let idle = Duration::from_millis(p.idle_ms);
        let ka = (p.keepalive_ms > 0).then(|| Duration::from_millis(p.keepalive_ms));
        let pools = Arc::new(Pools { tcp: ConnectionPool::with_limits(p.max, idle).with_keepalive_interval(ka), tls: TlsPool::with_limits(p.max, idle).with_keepalive_interval(ka) });
        if p.sink {
            let (tx, rx) = mpsc::channel(p.chan);
            pools.tcp.set_inbound_tx(tx.clone()).await;
            pools.tls.set_inbound_tx(tx).await;
            tokio::spawn(sink(p.clone(), w.clone(), rx));
        }
        // the rest of the process
        let (po, w2, p2) = (pools.clone(), w.clone(), p.clone());
        let beat = tokio::spawn(async move {
            let step = if p2.clean_us > 0 { p2.clean_us } else { 50_000 };
            let mut n = 0u64;
            while !with(&w2, |w| w.over) {
                let (t, s) = (sim::now(), sim::stalled());
                for (what, n) in [("TCP and WebSocket", po.tcp.len()), ("TLS", po.tls.len())] {
                    if n > p2.max {
                        bad("N02", "over-cap", format!("{n} pooled {what} connections, {} allowed", p2.max));
                    }
                }
                if p2.clean_us > 0 {
                    po.tcp.cleanup_idle();
                    po.tls.cleanup_idle();
                }
                let d = sim::now() - t;
                if d > 100 * MS + (sim::stalled() - s) {
                    bad("N03", "pool-held", format!("the pool does not answer for {} ms", d / MS));
                }
                let (t, s) = (sim::now(), sim::stalled());
                n += 1;
                // not for ever at full pace
                let us = if n > 300 { step.max(500_000) } else { step };
                tokio::time::sleep(Duration::from_micros(us)).await;
                let d = (sim::now() - t).saturating_sub(us * 1000);
                if d > 200 * MS + (sim::stalled() - s) {
                    bad("N03", "process-held", format!("a timer of the same runtime is {} ms late", d / MS));
                }
            }
        });
        let ts: Vec<_> = p
            .senders
            .iter()
            .cloned()
            .map(|ops| {
                let (p, w, po) = (p.clone(), w.clone(), pools.clone());
                tokio::spawn(async move {
                    for o in ops {
                        if o.us > 0 {
                            tokio::time::sleep(Duration::from_micros(o.us)).await;
                        }
                        for _ in 0..o.n {
                            send(&p, &w, &po, o.peer as usize, o.size, o.sni).await;
                        }
                    }
                })
            })
            .collect();
        for t in ts {
            let _ = t.await;
        }
        // once more to everyone, when all is well
        let left = settle.saturating_sub(sim::now());
        tokio::time::sleep(Duration::from_nanos(left)).await;
        for _ in 0..2 {
            for i in 0..p.peers.len() {
                send(&p, &w, &pools, i, 50, 0).await;
            }
            tokio::time::sleep(Duration::from_secs(2)).await;
        }
        tokio::time::sleep(Duration::from_nanos(8 * S + slack(0, 0))).await;
        with(&w, |w| w.over = true);
        let _ = beat.await;
    });
    judge(&p2, &w2);
}

fn run(v: &Value) {
    let p: Arc<Plan> = Arc::new(serde_json::from_value(v.clone()).unwrap());
    let w: W = Default::default();
    sim::tokio_globals();
    let n = p.peers.len();
    w.lock().unwrap().bad = vec![vec![]; n];
    w.lock().unwrap().back = vec![vec![]; n];
    let cl = sim::node("10.0.8.200");
    let nodes: Vec<_> = (0..n).map(|i| sim::node(&format!("10.0.8.{}", i + 1))).collect();
    let t0 = sim::now() + 5 * MS;
    let mut ev: Vec<(u64, usize, Act)> = vec![];
    let mut last = 0;
    for (i, pe) in p.peers.iter().enumerate() {
        match pe.base {
            1 => {}
            2 => sim::crash(nodes[i]),
            _ => {
                let (p, w) = (p.clone(), w.clone());
                drop(sim::spawn_on(nodes[i], move || peer_main(p, w, i, t0)));
            }
        }
        for (us, a) in &pe.acts {
            let at = t0 + us * 1000;
            last = last.max(at + match a { Act::Stop(m) | Act::Cut(m) | Act::Crash(m) | Act::Stall(m) => m * MS, _ => 0 });
            if pe.base < 1 || pe.base > 2 {
                ev.push((at, i, a.clone()));
            }
        }
    }
    ev.sort_by_key(|e| e.0);
    sim::sleep_ms(5);
    let c = {
        let (p, w) = (p.clone(), w.clone());
        let settle = last + 12 * S;
        sim::spawn_on(cl, move || client(p, w, settle))
    };
    // healing heals all, so each cut is put back while it is due
    let mut todo: Vec<(u64, usize, bool)> = vec![];
    for (at, i, a) in ev {
        loop {
            let next = todo.iter().map(|t| t.0).min().unwrap_or(u64::MAX).min(at);
            let d = next.saturating_sub(sim::now());
            if d > 0 {
                sim::sleep(Duration::from_nanos(d));
            }
            after(&p, &w, &nodes, cl, t0, &mut todo);
            if next == at {
                break;
            }
        }
        let now = sim::now();
        let mark = |to: u64| with(&w, |w| w.bad[i].push((now, to)));
        match a {
            Act::Reset => {
                mark(now);
                sim::reset_conns(cl, nodes[i]);
            }
            Act::Stall(ms) => {
                mark(now + ms * MS);
                sim::stall_node(nodes[i], Duration::from_millis(ms));
            }
            Act::Cut(ms) => {
                mark(now + ms * MS + 4 * S);
                sim::cut(cl, nodes[i], true);
                todo.push((now + ms * MS, i, false));
            }
            Act::Crash(ms) if !todo.iter().any(|t| t.1 == i && t.2) => {
                mark(now + ms * MS + 4 * S);
                sim::crash(nodes[i]);
                todo.push((now + ms * MS, i, true));
            }
            _ => {}
        }
    }
    while let Some(next) = todo.iter().map(|t| t.0).min() {
        let d = next.saturating_sub(sim::now());
        if d > 0 {
            sim::sleep(Duration::from_nanos(d));
        }
        after(&p, &w, &nodes, cl, t0, &mut todo);
    }
    let _ = c.join();
    for i in 0..n {
        if p.peers[i].base != 2 {
            sim::crash(nodes[i]);
        }
    }
}
fn after(p: &Arc<Plan>, w: &W, nodes: &[sim::Node], cl: sim::Node, t0: u64, todo: &mut Vec<(u64, usize, bool)>) {
    let now = sim::now();
    let due: Vec<_> = todo.iter().copied().filter(|t| t.0 <= now).collect();
    todo.retain(|t| t.0 > now);
    for (_, i, crash) in due {
        if crash {
            sim::restart(nodes[i]);
            with(w, |w| w.back[i].push(now));
            let (p, w) = (p.clone(), w.clone());
            drop(sim::spawn_on(nodes[i], move || peer_main(p, w, i, t0)));
        } else {
            sim::heal();
            for t in todo.iter().filter(|t| !t.2) {
                sim::cut(cl, nodes[t.1], true);
            }
        }
    }
}

fn judge(p: &Plan, w: &W) {
    let g = w.lock().unwrap();
    let (lat, jit) = sim::lat_jit();
    let rtt = 4 * (lat + jit) + 20 * MS;
    // when each peer was not well, as seen from here
    let sick: Vec<Vec<(u64, u64)>> = (0..p.peers.len())
        .map(|i| {
            if p.peers[i].base != 0 {
                return vec![(0, u64::MAX)];
            }
            let mut v: Vec<(u64, u64)> = g.bad[i].iter().map(|&(a, b)| (a.saturating_sub(rtt), b + rtt + 500 * MS)).collect();
            for &t in &g.back[i] {
                // the first send may be what finds the old connection dead
                let e = g.sent.iter().filter(|s| s.peer == i && s.t0 > t && s.ok.is_some()).map(|s| s.t1).min().unwrap_or(u64::MAX);
                v.push((t, e.saturating_add(rtt + 1500 * MS)));
            }
            v
        })
        .collect();
    let well = |i: usize, a: u64, b: u64| sick[i].iter().all(|&(x, y)| y < a || x > b);
    let mut seen: BTreeMap<usize, Vec<usize>> = BTreeMap::new();
    for (ci, c) in g.conns.iter().enumerate() {
        if c.broken {
            bad("N02", "garbled", format!("connection {ci} to peer {}: what arrives after message {} is no message", c.peer, c.msgs.len()));
        }
        let mut max_s0: Option<(u64, usize)> = None;
        for m in &c.msgs {
            let id = String::from_utf8_lossy(&m[..m.len().min(120)]).split("X-Id: ").nth(1).and_then(|x| x.split(' ').next().map(String::from)).and_then(|x| x.parse::<usize>().ok());
            let Some(s) = id.and_then(|i| g.sent.get(i)) else {
                bad("N02", "garbled", format!("connection {ci} to peer {}: something no one sent arrives", c.peer));
                continue;
            };
            let id = id.unwrap();
            if *m != render(id, s.peer, s.size, p.seed) {
                bad("N02", "garbled", format!("connection {ci} to peer {}: message {id} arrives changed", c.peer));
            }
            if s.peer != c.peer {
                bad("N02", "wrong-peer", format!("message {id} for peer {} arrives at peer {}", s.peer, c.peer));
            }
            if s.ok == Some(false) {
                bad("N02", "failed-but-sent", format!("message {id} to peer {} was reported as not sent ({}), and arrives", s.peer, s.err));
            }
            if s.flow.is_some_and(|f| f != ci) {
                bad("N02", "wrong-connection", format!("message {id} goes back on connection {ci}, not on {}", s.flow.unwrap()));
            }
            seen.entry(id).or_default().push(ci);
            if let (Some((x, other)), Some(true)) = (max_s0, s.ok) {
                if s.s1 < x {
                    bad("N02", "out-of-order", format!("connection {ci} to peer {}: message {id} was accepted before message {other} was sent, and arrives after it", c.peer));
                }
            }
            if max_s0.map_or(true, |m| s.s0 > m.0) {
                max_s0 = Some((s.s0, id));
            }
        }
        if let Some((t, true)) = c.end {
            let rest = if p.peers[c.peer].kind == 2 { &c.raw[..] } else { &c.raw[c.parsed..] };
            if rest.iter().any(|b| *b != b'\r' && *b != b'\n') && well(c.peer, t.saturating_sub(8 * S), t) {
                bad("N02", "cut-off", format!("connection {ci} to peer {} is closed within a message ({} bytes of it came)", c.peer, rest.len()));
            }
        }
        // --- what the peer sent back
        if p.sink {
            let want: Vec<(usize, Vec<u8>)> = if p.peers[c.peer].kind == 2 { c.frames.iter().filter(|f| f.0 <= c.pushed.len()).cloned().collect() } else { reference(&c.pushed).0.iter().map(|&(a, b)| (b, c.pushed[a..b].to_vec())).collect() };
            // What was written some time before the end is due, unless the
            // application is still taking messages in.
            let now = sim::now();
            let busy = g.conns.iter().any(|c| c.last_deliv + S > now);
            let sure = c.marks.iter().rev().find(|m| m.0 + 4 * S < now).map_or(0, |m| m.1);
            let due = want.iter().filter(|x| x.0 <= sure).count();
            if c.deliv.len() > want.len() || c.deliv.iter().zip(&want).any(|(a, b)| *a != b.1) {
                bad("N01", "not-what-was-sent", format!("connection {ci} to peer {}: what is handed up is not the {} messages it sent", c.peer, want.len()));
            } else if c.deliv.len() < due && !busy && c.end.is_none() && well(c.peer, c.opened, u64::MAX) && !c.write_failed {
                bad("N01", "message-missing", format!("connection {ci} to peer {}: {} of {due} messages handed up", c.peer, c.deliv.len()));
            } else if !want.is_empty() && c.deliv.len() == want.len() {
                sim::probe("all_responses_delivered");
            }
        }
    }
    for (id, cs) in &seen {
        if cs.len() > 1 {
            bad("N02", "twice", format!("message {id} to peer {} arrives {} times (connections {cs:?})", g.sent[*id].peer, cs.len()));
        }
    }
    for (id, s) in g.sent.iter().enumerate() {
        let around: Vec<&Sent> = g.sent.iter().filter(|x| x.peer == s.peer && x.t0 <= s.t1 && (x.t1 == 0 || x.t1 + 10 * S >= s.t0)).collect();
        let bytes: u64 = around.iter().map(|x| x.size as u64 + 100).sum();
        let sl = slack(bytes, around.len() as u64) + s.stall;
        match s.ok {
            None if s.flow.is_none() => bad("N03", "never-returns", format!("the send of message {id} to peer {} does not return", s.peer)),
            Some(ok) => {
                let dt = s.t1 - s.t0;
                if dt > 16 * S + s.stall {
                    bad("N03", "send-over-time", format!("the send of message {id} to peer {} takes {} ms", s.peer, dt / MS));
                }
                let fine = well(s.peer, s.t0.saturating_sub(500 * MS), s.t1);
                if fine && s.flow.is_none() {
                    if dt > sl {
                        bad("N03", "healthy-delayed", format!("the send of message {id} to peer {}, which is well, takes {} ms (at most {} ms)", s.peer, dt / MS, sl / MS));
                    }
                    if !ok && !s.err.contains("exhausted") {
                        bad("N03", "healthy-refused", format!("message {id} to peer {}, which is well: {}", s.peer, s.err));
                    }
                }
                let due = s.t1 + sl + 2 * S;
                if ok && well(s.peer, s.t0.saturating_sub(500 * MS), due) {
                    if seen.contains_key(&id) {
                        sim::probe("delivered");
                    } else if due < sim::now() {
                        bad("N02", "lost", format!("message {id} was accepted for peer {}, which is well, and does not arrive", s.peer));
                    }
                }
                if !ok {
                    sim::probe(if s.err.contains("exhausted") { "exhausted" } else if s.err.contains("queue full") { "queue_full" } else { "refused" });
                } else if !fine {
                    sim::probe("sent_in_trouble");
                }
            }
            _ => {}
        }
    }
    // connections are shared
    for i in 0..p.peers.len() {
        let n = g.conns.iter().filter(|c| c.peer == i).count();
        if p.max > p.peers.len() && p.idle_ms >= 300_000 && sick[i].is_empty() && sim::now() < 250 * S {
            if n > 1 {
                bad("N02", "not-shared", format!("{n} connections to peer {i}, of which none ended"));
            }
            sim::probe("one_connection");
        }
        if n > 1 {
            sim::probe("reconnected");
        }
    }
}
