//! Simulated descriptors: eventfd, epoll, socket pairs, UDP and TCP.
use super::interpose::FDB;
use super::*;
use libc::{c_int, c_void, sockaddr, socklen_t};
use std::net::{Ipv4Addr, SocketAddr, SocketAddrV4};

const IN: u32 = libc::EPOLLIN as u32;
const OUT: u32 = libc::EPOLLOUT as u32;
const RDHUP: u32 = libc::EPOLLRDHUP as u32;
const HUP: u32 = libc::EPOLLHUP as u32;
const ERR: u32 = libc::EPOLLERR as u32;
const ET: u32 = libc::EPOLLET as u32;

#[derive(Clone)]
struct Interest {
    events: u32,
    data: u64,
    obj: usize,
    queued: bool,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum TSt {
    Init,
    Connecting,
    Est,
    Closed,
}
pub struct Tcp {
    pub st: TSt,
    pub local: Option<SocketAddrV4>,
    pub remote: Option<SocketAddrV4>,
    pub peer: Option<usize>,
    pub rcvq: VecDeque<u8>,
    pub inflight: usize,
    pub rcv_fin: bool,
    pub sndq: VecDeque<u8>,
    pub snd_fin: bool,
    pub fin_sent: bool,
    pub last_arr: u64,
    pub err: Option<i32>,
    pub tries: u32,
    pub rst: bool,
}
pub enum Kind {
    Event(u64),
    Epoll { ints: BTreeMap<i32, (u32, u64, usize, bool)>, ready: VecDeque<i32> },
    Udp { local: Option<SocketAddrV4>, peer: Option<SocketAddrV4>, q: VecDeque<(SocketAddrV4, Vec<u8>)>, err: Option<i32>, again_until: u64 },
    Listen { addr: SocketAddrV4, backlog: usize, q: VecDeque<usize> },
    Tcp(Box<Tcp>),
    Pair { peer: usize, q: VecDeque<u8>, closed: bool },
}
pub struct Obj {
    pub kind: Kind,
    pub refs: u32,
    pub node: u16,
    pub nonblock: bool,
    pub rto: Option<u64>,
    pub wto: Option<u64>,
    pub watchers: Vec<(usize, i32)>,
    pub dead: bool, // node crashed
}
pub enum NetEv {
    Udp { src: SocketAddrV4, dst: SocketAddrV4, node: u16, data: Vec<u8> },
    UdpWritable(usize),
    Syn(usize),
    Connected(usize, bool),
    Data(usize, Vec<u8>),
    Fin(usize),
    Rst(usize),
    Pump(usize),
}
#[derive(Default)]
pub struct Net {
    pub objs: Vec<Obj>,
    pub fds: Vec<Option<usize>>,
    pub cut: Vec<(u16, u16)>, // directed cuts between nodes
    pub counts: [u64; 8],     // udp sent, delivered, dropped(no socket), dup, tcp conns, tcp bytes, rst, cut drops
    pub lat: BTreeMap<(u16, u16), u64>,
    pub tap: Option<Box<dyn FnMut(u64, SocketAddrV4, SocketAddrV4, &[u8], bool)>>,
}
type R = Result<i64, i32>;

unsafe fn parse_sa(sa: *const sockaddr) -> Option<SocketAddrV4> {
    if sa.is_null() || (*sa).sa_family as c_int != libc::AF_INET {
        return None;
    }
    let s = &*(sa as *const libc::sockaddr_in);
    Some(SocketAddrV4::new(Ipv4Addr::from(u32::from_be(s.sin_addr.s_addr)), u16::from_be(s.sin_port)))
}
unsafe fn put_sa(a: SocketAddrV4, sa: *mut sockaddr, sl: *mut socklen_t) {
    if sa.is_null() {
        return;
    }
    let s = &mut *(sa as *mut libc::sockaddr_in);
    std::ptr::write_bytes(s as *mut _ as *mut u8, 0, std::mem::size_of::<libc::sockaddr_in>());
    s.sin_family = libc::AF_INET as u16;
    s.sin_port = a.port().to_be();
    s.sin_addr.s_addr = u32::from(*a.ip()).to_be();
    *sl = std::mem::size_of::<libc::sockaddr_in>() as u32;
}
fn obj(fd: c_int) -> Result<usize, i32> {
    k().net.fds.get((fd - FDB) as usize).copied().flatten().ok_or(libc::EBADF)
}
fn add(kind: Kind, nonblock: bool) -> usize {
    let k = k();
    let node = k.th[k.cur as usize].node;
    k.net.objs.push(Obj { kind, refs: 0, node, nonblock, rto: None, wto: None, watchers: Vec::new(), dead: false });
    k.net.objs.len() - 1
}
fn newfd(o: usize) -> c_int {
    let k = k();
    k.net.objs[o].refs += 1;
    let p = match k.net.fds.iter().position(|x| x.is_none()) {
        Some(p) => p,
        None => {
            k.net.fds.push(None);
            k.net.fds.len() - 1
        }
    };
    k.net.fds[p] = Some(o);
    FDB + p as c_int
}
fn node_of_ip(k: &Kernel, ip: Ipv4Addr, from: u16) -> Option<u16> {
    if ip.is_loopback() {
        return Some(from);
    }
    k.nodes.iter().position(|n| n.ip == ip).map(|p| p as u16)
}
fn is_cut(k: &Kernel, a: u16, b: u16) -> bool {
    a != b && k.net.cut.contains(&(a, b))
}
fn latency(k: &Kernel, a: u16, b: u16) -> u64 {
    if a == b {
        return 20_000;
    }
    *k.net.lat.get(&(a, b)).unwrap_or(&k.knobs.lat_ns)
}
fn eph(k: &mut Kernel, node: u16) -> u16 {
    let n = &mut k.nodes[node as usize];
    n.eph = if n.eph >= 60000 { 32768 } else { n.eph + 1 };
    n.eph
}

pub fn ready(k: &Kernel, o: usize) -> u32 {
    let ob = &k.net.objs[o];
    match &ob.kind {
        Kind::Event(c) => OUT | if *c > 0 { IN } else { 0 },
        Kind::Epoll { .. } => 0,
        Kind::Udp { q, err, again_until, .. } => {
            (if !q.is_empty() || err.is_some() { IN } else { 0 })
                | (if *again_until <= k.now { OUT } else { 0 })
                | (if err.is_some() { ERR } else { 0 })
        }
        Kind::Listen { q, .. } => if q.is_empty() { 0 } else { IN },
        Kind::Pair { q, closed, .. } => {
            (if !q.is_empty() || *closed { IN } else { 0 }) | OUT | if *closed { RDHUP | HUP } else { 0 }
        }
        Kind::Tcp(t) => match t.st {
            TSt::Init => OUT | HUP,
            TSt::Connecting => 0,
            TSt::Closed => IN | OUT | RDHUP | HUP | if t.err.is_some() { ERR } else { 0 },
            TSt::Est => {
                let mut r = 0;
                if !t.rcvq.is_empty() || t.rcv_fin || t.err.is_some() {
                    r |= IN;
                }
                if t.rcv_fin {
                    r |= RDHUP;
                }
                if t.sndq.len() < k.knobs.sndbuf as usize || t.snd_fin {
                    r |= OUT;
                }
                if t.rcv_fin && t.snd_fin {
                    r |= HUP;
                }
                r
            }
        },
    }
}
/// Readiness of `o` changed: queue edges, wake blocked callers.
fn notify(k: &mut Kernel, o: usize, bits: u32) {
    let w = k.net.objs[o].watchers.clone();
    for (ep, fd) in w {
        let mut hit = false;
        if let Kind::Epoll { ints, ready } = &mut k.net.objs[ep].kind {
            if let Some(i) = ints.get_mut(&fd) {
                if (i.0 | ERR | HUP) & bits != 0 && !i.3 {
                    i.3 = true;
                    ready.push_back(fd);
                }
                hit = true;
            }
        }
        if hit {
            k.wake(file_key(ep), usize::MAX);
        }
    }
    k.wake(file_key(o), usize::MAX);
}

// --- events --------------------------------------------------------------------
pub fn event(k: &mut Kernel, e: NetEv) {
    match e {
        NetEv::Udp { src, dst, node, data } => {
            if !k.nodes[node as usize].up {
                k.net.counts[2] += 1;
                return;
            }
            let mut best: Option<(usize, u32)> = None;
            for (i, ob) in k.net.objs.iter().enumerate() {
                if ob.node != node || ob.refs == 0 || ob.dead {
                    continue;
                }
                if let Kind::Udp { local: Some(l), peer, .. } = &ob.kind {
                    if l.port() == dst.port() && (l.ip().is_unspecified() || l.ip() == dst.ip()) {
                        let s = match peer {
                            Some(p) if *p == src => 2,
                            Some(_) => continue,
                            None => 1,
                        };
                        if best.map_or(true, |b| s > b.1) {
                            best = Some((i, s));
                        }
                    }
                }
            }
            if let Some(t) = k.net.tap.take() {
                let mut t = t;
                t(k.now, src, dst, &data, best.is_some());
                k.net.tap = Some(t);
            }
            match best {
                Some((o, _)) => {
                    let lim = k.knobs.udp_queue as usize;
                    if let Kind::Udp { q, .. } = &mut k.net.objs[o].kind {
                        if q.len() >= lim {
                            k.net.counts[2] += 1;
                            return;
                        }
                        q.push_back((src, data));
                    }
                    k.net.counts[1] += 1;
                    notify(k, o, IN);
                }
                None => {
                    k.net.counts[2] += 1;
                    // port unreachable: reported to a connected sender
                    for i in 0..k.net.objs.len() {
                        if let Kind::Udp { local: Some(l), peer: Some(p), err, .. } = &mut k.net.objs[i].kind {
                            if *p == dst && l.port() == src.port() {
                                *err = Some(libc::ECONNREFUSED);
                                notify(k, i, IN | ERR);
                                break;
                            }
                        }
                    }
                }
            }
        }
        NetEv::UdpWritable(o) => notify(k, o, OUT),
        NetEv::Syn(o) => {
            let (local, remote, st, dead, from) = match &k.net.objs[o] {
                Obj { kind: Kind::Tcp(t), dead, node, refs, .. } if *refs > 0 => (t.local.unwrap(), t.remote.unwrap(), t.st, *dead, *node),
                _ => return,
            };
            if st != TSt::Connecting || dead {
                return;
            }
            let to = node_of_ip(k, *remote.ip(), from);
            let lat = to.map_or(1_000_000, |t| latency(k, from, t));
            let reachable = to.map_or(false, |t| k.nodes[t as usize].up && !is_cut(k, from, t) && !is_cut(k, t, from));
            let mut full = false;
            let mut lis = None;
            if reachable {
                let to = to.unwrap();
                for (i, ob) in k.net.objs.iter().enumerate() {
                    if ob.node == to && ob.refs > 0 && !ob.dead {
                        if let Kind::Listen { addr, backlog, q } = &ob.kind {
                            if addr.port() == remote.port() && (addr.ip().is_unspecified() || addr.ip() == remote.ip()) {
                                full = q.len() >= *backlog;
                                lis = Some(i);
                            }
                        }
                    }
                }
            }
            let tcp = |k: &mut Kernel, o: usize| -> u32 {
                if let Kind::Tcp(t) = &mut k.net.objs[o].kind {
                    t.tries += 1;
                    t.tries
                } else {
                    0
                }
            };
            match lis {
                Some(l) if !full => {
                    let to = to.unwrap();
                    let srv = Tcp { st: TSt::Est, local: Some(remote), remote: Some(local), peer: Some(o), rcvq: VecDeque::new(), inflight: 0, rcv_fin: false, sndq: VecDeque::new(), snd_fin: false, fin_sent: false, last_arr: 0, err: None, tries: 0, rst: false };
                    k.net.objs.push(Obj { kind: Kind::Tcp(Box::new(srv)), refs: 0, node: to, nonblock: false, rto: None, wto: None, watchers: Vec::new(), dead: false });
                    let s = k.net.objs.len() - 1;
                    if let Kind::Tcp(t) = &mut k.net.objs[o].kind {
                        t.peer = Some(s);
                    }
                    if let Kind::Listen { q, .. } = &mut k.net.objs[l].kind {
                        q.push_back(s);
                    }
                    k.net.counts[4] += 1;
                    notify(k, l, IN);
                    let t = k.now + lat;
                    k.at(t, Ev::Net(NetEv::Connected(o, true)));
                }
                Some(_) => {
                    tcp(k, o);
                    let t = k.now + 1_000_000_000;
                    k.at(t, Ev::Net(NetEv::Syn(o)));
                }
                None if reachable => {
                    let t = k.now + lat;
                    k.at(t, Ev::Net(NetEv::Connected(o, false)));
                }
                None => {
                    // nobody answers: retransmit the SYN, give up after ~127 s
                    let n = tcp(k, o);
                    if n > 7 {
                        if let Kind::Tcp(t) = &mut k.net.objs[o].kind {
                            t.st = TSt::Closed;
                            t.err = Some(libc::ETIMEDOUT);
                        }
                        notify(k, o, IN | OUT | ERR | HUP);
                    } else {
                        let t = k.now + (1_000_000_000u64 << (n - 1));
                        k.at(t, Ev::Net(NetEv::Syn(o)));
                    }
                }
            }
        }
        NetEv::Connected(o, ok) => {
            if let Kind::Tcp(t) = &mut k.net.objs[o].kind {
                if t.st != TSt::Connecting {
                    return;
                }
                if ok {
                    t.st = TSt::Est;
                } else {
                    t.st = TSt::Closed;
                    t.err = Some(libc::ECONNREFUSED);
                }
            }
            let b = ready(k, o);
            notify(k, o, b | OUT);
            pump(k, o);
        }
        NetEv::Data(o, data) => {
            let n = data.len();
            let gone = { let ob = &k.net.objs[o]; ob.refs == 0 && !in_backlog(k, o) };
            if let Kind::Tcp(t) = &mut k.net.objs[o].kind {
                t.inflight -= n.min(t.inflight);
                if t.st == TSt::Closed || gone {
                    let p = t.peer;
                    t.st = TSt::Closed;
                    if let Some(p) = p {
                        send_rst(k, o, p);
                    }
                    return;
                }
                t.rcvq.extend(data);
                k.net.counts[5] += n as u64;
            }
            notify(k, o, IN);
        }
        NetEv::Fin(o) => {
            if let Kind::Tcp(t) = &mut k.net.objs[o].kind {
                if t.st == TSt::Closed {
                    return;
                }
                t.rcv_fin = true;
            }
            notify(k, o, IN | RDHUP);
        }
        NetEv::Rst(o) => {
            if let Kind::Tcp(t) = &mut k.net.objs[o].kind {
                if t.st == TSt::Closed {
                    return;
                }
                t.st = TSt::Closed;
                t.rst = true;
                t.err = Some(libc::ECONNRESET);
                t.rcvq.clear();
                t.sndq.clear();
            }
            notify(k, o, IN | OUT | ERR | HUP | RDHUP);
        }
        NetEv::Pump(o) => pump(k, o),
    }
}
fn in_backlog(k: &Kernel, o: usize) -> bool {
    k.net.objs.iter().any(|x| matches!(&x.kind, Kind::Listen { q, .. } if x.refs > 0 && q.contains(&o)))
}
fn send_rst(k: &mut Kernel, from: usize, to: usize) {
    k.net.counts[6] += 1;
    let (a, b) = (k.net.objs[from].node, k.net.objs[to].node);
    let t = k.now + latency(k, a, b);
    k.at(t, Ev::Net(NetEv::Rst(to)));
}
/// Moves bytes of `a`'s send queue towards its peer.
fn pump(k: &mut Kernel, a: usize) {
    let (an, peer) = match &k.net.objs[a].kind {
        Kind::Tcp(t) if t.st == TSt::Est && !k.net.objs[a].dead => (k.net.objs[a].node, t.peer),
        _ => return,
    };
    let Some(b) = peer else { return };
    let bn = k.net.objs[b].node;
    if is_cut(k, an, bn) || is_cut(k, bn, an) {
        return; // retransmissions resume when the link heals
    }
    if k.net.objs[b].dead {
        if k.nodes[bn as usize].up {
            let has = matches!(&k.net.objs[a].kind, Kind::Tcp(t) if !t.sndq.is_empty() || t.snd_fin);
            if has {
                send_rst(k, b, a);
            }
        }
        return;
    }
    let lat = latency(k, an, bn);
    let rcvbuf = k.knobs.rcvbuf as usize;
    let mut freed = false;
    loop {
        let used = match &k.net.objs[b].kind {
            Kind::Tcp(t) => t.rcvq.len() + t.inflight,
            _ => return,
        };
        let have = match &k.net.objs[a].kind {
            Kind::Tcp(t) => t.sndq.len(),
            _ => return,
        };
        let win = rcvbuf.saturating_sub(used);
        let mut n = have.min(win).min(65536);
        if n == 0 {
            break;
        }
        if n > 1 {
            let m = n as u64;
            let v = k.choose(C::TcpSeg, |r| {
                // mostly tiny or near the middle
                match r & 3 {
                    0 => 1 + (r >> 8) % m.min(8),
                    1 => 1 + (r >> 8) % m.min(64),
                    _ => 1 + (r >> 8) % m,
                }
            });
            if v != 0 {
                n = n.min(v as usize);
            }
        }
        let jit = k.knobs.jitter_ns.max(1);
        let d = k.choose(C::TcpDelay, |r| 1 + r % jit);
        let at0 = k.now + lat + d;
        let at = match &mut k.net.objs[b].kind {
            Kind::Tcp(t) => {
                t.inflight += n;
                t.last_arr = t.last_arr.max(at0);
                t.last_arr
            }
            _ => return,
        };
        let bytes: Vec<u8> = match &mut k.net.objs[a].kind {
            Kind::Tcp(t) => t.sndq.drain(..n).collect(),
            _ => return,
        };
        freed = true;
        k.at(at, Ev::Net(NetEv::Data(b, bytes)));
    }
    let fin = match &mut k.net.objs[a].kind {
        Kind::Tcp(t) if t.sndq.is_empty() && t.snd_fin && !t.fin_sent => {
            t.fin_sent = true;
            true
        }
        _ => false,
    };
    if fin {
        let last = match &k.net.objs[b].kind {
            Kind::Tcp(t) => t.last_arr,
            _ => 0,
        };
        let at = last.max(k.now + lat);
        k.at(at, Ev::Net(NetEv::Fin(b)));
    }
    if freed {
        notify(k, a, OUT);
    }
}

// --- calls ---------------------------------------------------------------------
pub fn socket(d: c_int, t: c_int) -> R {
    if d != libc::AF_INET {
        return Err(libc::EAFNOSUPPORT);
    }
    let nb = t & libc::SOCK_NONBLOCK != 0;
    let kind = match t & 0xf {
        libc::SOCK_DGRAM => Kind::Udp { local: None, peer: None, q: VecDeque::new(), err: None, again_until: 0 },
        libc::SOCK_STREAM => Kind::Tcp(Box::new(Tcp { st: TSt::Init, local: None, remote: None, peer: None, rcvq: VecDeque::new(), inflight: 0, rcv_fin: false, sndq: VecDeque::new(), snd_fin: false, fin_sent: false, last_arr: 0, err: None, tries: 0, rst: false })),
        _ => return Err(libc::EPROTONOSUPPORT),
    };
    Ok(newfd(add(kind, nb)) as i64)
}
pub fn socketpair(t: c_int) -> (c_int, c_int) {
    let nb = t & libc::SOCK_NONBLOCK != 0;
    let a = add(Kind::Pair { peer: 0, q: VecDeque::new(), closed: false }, nb);
    let b = add(Kind::Pair { peer: a, q: VecDeque::new(), closed: false }, nb);
    if let Kind::Pair { peer, .. } = &mut k().net.objs[a].kind {
        *peer = b;
    }
    (newfd(a), newfd(b))
}
pub fn eventfd(v: u64, nb: bool) -> c_int {
    newfd(add(Kind::Event(v), nb))
}
pub fn epoll_create() -> c_int {
    newfd(add(Kind::Epoll { ints: BTreeMap::new(), ready: VecDeque::new() }, false))
}
pub unsafe fn bind(fd: c_int, sa: *const sockaddr) -> R {
    let o = obj(fd)?;
    let mut a = parse_sa(sa).ok_or(libc::EAFNOSUPPORT)?;
    let k = k();
    let node = k.net.objs[o].node;
    let udp = matches!(k.net.objs[o].kind, Kind::Udp { .. });
    if a.port() == 0 {
        a.set_port(eph(k, node));
    } else {
        for ob in &k.net.objs {
            if ob.node != node || ob.refs == 0 || ob.dead {
                continue;
            }
            let l = match &ob.kind {
                Kind::Udp { local: Some(l), .. } if udp => l,
                Kind::Listen { addr, .. } if !udp => addr,
                _ => continue,
            };
            if l.port() == a.port() && (l.ip() == a.ip() || l.ip().is_unspecified() || a.ip().is_unspecified()) {
                return Err(libc::EADDRINUSE);
            }
        }
    }
    match &mut k.net.objs[o].kind {
        Kind::Udp { local, .. } => *local = Some(a),
        Kind::Tcp(t) => t.local = Some(a),
        _ => return Err(libc::EINVAL),
    }
    Ok(0)
}
pub fn listen(fd: c_int, n: c_int) -> R {
    let o = obj(fd)?;
    let ob = &mut k().net.objs[o];
    let addr = match &ob.kind {
        Kind::Tcp(t) => t.local.ok_or(libc::EINVAL)?,
        Kind::Listen { .. } => return Ok(0),
        _ => return Err(libc::EINVAL),
    };
    ob.kind = Kind::Listen { addr, backlog: n.max(1) as usize, q: VecDeque::new() };
    Ok(0)
}
fn wait(o: usize, read: bool) -> Result<(), i32> {
    let k = k();
    if k.net.objs[o].nonblock {
        return Err(libc::EAGAIN);
    }
    let to = if read { k.net.objs[o].rto } else { k.net.objs[o].wto };
    let dl = to.map(|t| k.now + t);
    match k.block(file_key(o), dl) {
        Wake::Timeout => Err(libc::EAGAIN),
        _ => Ok(()),
    }
}
pub unsafe fn accept(fd: c_int, sa: *mut sockaddr, sl: *mut socklen_t, flags: c_int) -> R {
    let o = obj(fd)?;
    k().point();
    loop {
        let k = k();
        let got = match &mut k.net.objs[o].kind {
            Kind::Listen { q, .. } => q.pop_front(),
            _ => return Err(libc::EINVAL),
        };
        if let Some(s) = got {
            k.net.objs[s].nonblock = flags & libc::SOCK_NONBLOCK != 0;
            if let Kind::Tcp(t) = &k.net.objs[s].kind {
                put_sa(t.remote.unwrap(), sa, sl);
            }
            return Ok(newfd(s) as i64);
        }
        wait(o, true)?;
    }
}
pub unsafe fn connect(fd: c_int, sa: *const sockaddr) -> R {
    let o = obj(fd)?;
    let dst = parse_sa(sa).ok_or(libc::EAFNOSUPPORT)?;
    let k = k();
    k.point();
    let node = k.net.objs[o].node;
    let ip = k.nodes[node as usize].ip;
    let port = eph(k, node);
    let me = if dst.ip().is_loopback() { Ipv4Addr::LOCALHOST } else { ip };
    match &mut k.net.objs[o].kind {
        Kind::Udp { local, peer, .. } => {
            if local.is_none() {
                *local = Some(SocketAddrV4::new(Ipv4Addr::UNSPECIFIED, port));
            }
            *peer = Some(dst);
            Ok(0)
        }
        Kind::Tcp(t) => {
            match t.st {
                TSt::Init => {}
                TSt::Est => return Err(libc::EISCONN),
                TSt::Connecting => return Err(libc::EALREADY),
                TSt::Closed => return Err(t.err.take().unwrap_or(libc::ECONNREFUSED)),
            }
            let l = t.local.map(|l| if l.ip().is_unspecified() { SocketAddrV4::new(me, l.port()) } else { l });
            t.local = Some(l.unwrap_or(SocketAddrV4::new(me, port)));
            t.remote = Some(dst);
            t.st = TSt::Connecting;
            let to = node_of_ip(k, *dst.ip(), node);
            let at = k.now + to.map_or(1_000_000, |t| latency(k, node, t));
            k.at(at, Ev::Net(NetEv::Syn(o)));
            if k.net.objs[o].nonblock {
                return Err(libc::EINPROGRESS);
            }
            loop {
                let ob = &mut super::k().net.objs[o];
                if let Kind::Tcp(t) = &mut ob.kind {
                    match t.st {
                        TSt::Est => return Ok(0),
                        TSt::Closed => return Err(t.err.take().unwrap_or(libc::ECONNREFUSED)),
                        _ => {}
                    }
                }
                super::k().block(file_key(o), None);
            }
        }
        _ => Err(libc::EINVAL),
    }
}
pub unsafe fn getname(fd: c_int, sa: *mut sockaddr, sl: *mut socklen_t, peer: bool) -> R {
    let o = obj(fd)?;
    let ob = &k().net.objs[o];
    let any = SocketAddrV4::new(Ipv4Addr::UNSPECIFIED, 0);
    let a = match (&ob.kind, peer) {
        (Kind::Udp { local, .. }, false) => local.unwrap_or(any),
        (Kind::Udp { peer, .. }, true) => peer.ok_or(libc::ENOTCONN)?,
        (Kind::Listen { addr, .. }, false) => *addr,
        (Kind::Tcp(t), false) => t.local.unwrap_or(any),
        (Kind::Tcp(t), true) if t.st == TSt::Est => t.remote.unwrap(),
        _ => return Err(libc::ENOTCONN),
    };
    put_sa(a, sa, sl);
    Ok(0)
}
pub fn getsockopt(fd: c_int, lvl: c_int, name: c_int) -> c_int {
    let Ok(o) = obj(fd) else { return 0 };
    if lvl == libc::SOL_SOCKET && name == libc::SO_ERROR {
        return match &mut k().net.objs[o].kind {
            Kind::Tcp(t) => t.err.take().unwrap_or(0),
            Kind::Udp { err, .. } => err.take().unwrap_or(0),
            _ => 0,
        };
    }
    if lvl == libc::SOL_SOCKET && name == libc::SO_TYPE {
        return match &k().net.objs[o].kind {
            Kind::Udp { .. } => libc::SOCK_DGRAM,
            _ => libc::SOCK_STREAM,
        };
    }
    0
}
pub unsafe fn setsockopt(fd: c_int, lvl: c_int, name: c_int, v: *const c_void) {
    let Ok(o) = obj(fd) else { return };
    if lvl == libc::SOL_SOCKET && (name == libc::SO_RCVTIMEO || name == libc::SO_SNDTIMEO) {
        let tv = &*(v as *const libc::timeval);
        let ns = tv.tv_sec as u64 * 1_000_000_000 + tv.tv_usec as u64 * 1000;
        let x = if ns == 0 { None } else { Some(ns) };
        if name == libc::SO_RCVTIMEO {
            k().net.objs[o].rto = x
        } else {
            k().net.objs[o].wto = x
        }
    }
}
pub fn set_nonblock(fd: c_int, on: bool) {
    if let Ok(o) = obj(fd) {
        k().net.objs[o].nonblock = on;
    }
}
pub fn fcntl(fd: c_int, cmd: c_int, arg: i64) -> R {
    let o = obj(fd)?;
    match cmd {
        libc::F_GETFL => Ok(libc::O_RDWR as i64 | if k().net.objs[o].nonblock { libc::O_NONBLOCK as i64 } else { 0 }),
        libc::F_SETFL => {
            k().net.objs[o].nonblock = arg & libc::O_NONBLOCK as i64 != 0;
            Ok(0)
        }
        libc::F_DUPFD | libc::F_DUPFD_CLOEXEC => Ok(newfd(o) as i64),
        _ => Ok(0),
    }
}
pub fn shutdown(fd: c_int, how: c_int) -> R {
    let o = obj(fd)?;
    let k = k();
    k.point();
    match &mut k.net.objs[o].kind {
        Kind::Tcp(t) => {
            if t.st != TSt::Est {
                return Err(libc::ENOTCONN);
            }
            if how == libc::SHUT_WR || how == libc::SHUT_RDWR {
                t.snd_fin = true;
            }
            if how == libc::SHUT_RD || how == libc::SHUT_RDWR {
                t.rcv_fin = true;
            }
        }
        _ => return Ok(0),
    }
    pump(k, o);
    let r = ready(k, o);
    notify(k, o, r);
    Ok(0)
}
pub fn close(fd: c_int) -> R {
    let o = obj(fd)?;
    let k = k();
    k.net.fds[(fd - FDB) as usize] = None;
    // forget this descriptor in every epoll set
    let w: Vec<(usize, i32)> = k.net.objs[o].watchers.iter().filter(|x| x.1 == fd).copied().collect();
    for (ep, f) in w {
        if let Kind::Epoll { ints, ready } = &mut k.net.objs[ep].kind {
            ints.remove(&f);
            ready.retain(|x| *x != f);
        }
    }
    k.net.objs[o].watchers.retain(|x| x.1 != fd);
    k.net.objs[o].refs -= 1;
    if k.net.objs[o].refs == 0 {
        release(k, o);
    }
    k.point();
    Ok(0)
}
fn release(k: &mut Kernel, o: usize) {
    match &mut k.net.objs[o].kind {
        Kind::Tcp(t) => {
            let p = t.peer;
            match t.st {
                TSt::Est => {
                    if !t.rcvq.is_empty() {
                        // data the application never read: reset
                        t.st = TSt::Closed;
                        t.rcvq.clear();
                        t.sndq.clear();
                        if let Some(p) = p {
                            send_rst(k, o, p);
                        }
                    } else {
                        t.snd_fin = true;
                        pump(k, o);
                    }
                }
                _ => t.st = TSt::Closed,
            }
        }
        Kind::Listen { q, .. } => {
            let q: Vec<usize> = q.drain(..).collect();
            for s in q {
                if let Kind::Tcp(t) = &mut k.net.objs[s].kind {
                    let p = t.peer;
                    t.st = TSt::Closed;
                    if let Some(p) = p {
                        send_rst(k, s, p);
                    }
                }
            }
        }
        Kind::Pair { peer, .. } => {
            let p = *peer;
            if let Kind::Pair { closed, .. } = &mut k.net.objs[p].kind {
                *closed = true;
            }
            notify(k, p, IN | RDHUP | HUP);
        }
        Kind::Udp { q, .. } => q.clear(),
        _ => {}
    }
}
pub unsafe fn read(fd: c_int, buf: &mut [u8], peek: bool, sa: *mut sockaddr, sl: *mut socklen_t) -> R {
    let o = obj(fd)?;
    k().point();
    loop {
        let k = k();
        let short = if buf.len() > 1 && matches!(k.net.objs[o].kind, Kind::Tcp(_)) {
            let m = buf.len() as u64;
            k.choose(C::ShortRead, |r| 1 + (r >> 3) % if r & 1 == 0 { m.min(16) } else { m })
        } else {
            0
        };
        let ob = &mut k.net.objs[o];
        match &mut ob.kind {
            Kind::Event(c) => {
                if *c > 0 {
                    if buf.len() < 8 {
                        return Err(libc::EINVAL);
                    }
                    buf[..8].copy_from_slice(&c.to_le_bytes());
                    *c = 0;
                    return Ok(8);
                }
            }
            Kind::Pair { q, closed, .. } => {
                if !q.is_empty() {
                    let n = buf.len().min(q.len());
                    for (i, b) in q.drain(..n).enumerate() {
                        buf[i] = b;
                    }
                    return Ok(n as i64);
                }
                if *closed {
                    return Ok(0);
                }
            }
            Kind::Udp { q, err, .. } => {
                if let Some(e) = err.take() {
                    return Err(e);
                }
                let item = if peek { q.front().cloned() } else { q.pop_front() };
                if let Some((from, data)) = item {
                    let n = buf.len().min(data.len());
                    buf[..n].copy_from_slice(&data[..n]);
                    if !sl.is_null() {
                        put_sa(from, sa, sl);
                    }
                    return Ok(n as i64);
                }
            }
            Kind::Tcp(t) => {
                if t.st == TSt::Connecting || t.st == TSt::Init {
                    return Err(libc::ENOTCONN);
                }
                if let Some(e) = t.err.take() {
                    return Err(e);
                }
                if !t.rcvq.is_empty() && !buf.is_empty() {
                    let mut n = buf.len().min(t.rcvq.len());
                    if short != 0 {
                        n = n.min(short as usize);
                    }
                    if peek {
                        for i in 0..n {
                            buf[i] = t.rcvq[i];
                        }
                        return Ok(n as i64);
                    }
                    for (i, b) in t.rcvq.drain(..n).enumerate() {
                        buf[i] = b;
                    }
                    // Linux never returns less than there is: what a short read
                    // leaves stands for data arriving just after it, a new edge.
                    let more = n < buf.len() && !t.rcvq.is_empty();
                    let p = t.peer;
                    if more {
                        notify(k, o, IN);
                    }
                    if let Some(p) = p {
                        // the window update reaches the sender one way later
                        let waiting = matches!(&k.net.objs[p].kind, Kind::Tcp(t) if !t.sndq.is_empty());
                        if waiting {
                            let (a, b) = (k.net.objs[o].node, k.net.objs[p].node);
                            let at = k.now + latency(k, a, b);
                            k.at(at, Ev::Net(NetEv::Pump(p)));
                        }
                    }
                    return Ok(n as i64);
                }
                if t.rcv_fin || t.st == TSt::Closed || buf.is_empty() {
                    return Ok(0);
                }
            }
            _ => return Err(libc::EINVAL),
        }
        wait(o, true)?;
    }
}
pub unsafe fn write(fd: c_int, buf: &[u8], sa: *const sockaddr) -> R {
    let o = obj(fd)?;
    k().point();
    loop {
        let k = k();
        let node = k.net.objs[o].node;
        match &mut k.net.objs[o].kind {
            Kind::Event(c) => {
                *c = c.wrapping_add(u64::from_le_bytes(buf[..8].try_into().unwrap()));
                notify(k, o, IN);
                return Ok(8);
            }
            Kind::Pair { peer, closed, .. } => {
                if *closed {
                    return Err(libc::EPIPE);
                }
                let p = *peer;
                if let Kind::Pair { q, .. } = &mut k.net.objs[p].kind {
                    if q.len() > 4096 {
                        return Err(libc::EAGAIN);
                    }
                    q.extend(buf);
                }
                notify(k, p, IN);
                return Ok(buf.len() as i64);
            }
            Kind::Udp { local, peer, err, again_until, .. } => {
                if let Some(e) = err.take() {
                    return Err(e);
                }
                let dst = parse_sa(sa).or(*peer).ok_or(libc::EDESTADDRREQ)?;
                if buf.len() > 65507 {
                    return Err(libc::EMSGSIZE);
                }
                if *again_until <= k.now {
                    let l = *local;
                    let v = k.choose(C::UdpAgain, |r| 1_000 + r % 5_000_000);
                    if v != 0 {
                        let t = k.now + v;
                        if let Kind::Udp { again_until, .. } = &mut k.net.objs[o].kind {
                            *again_until = t;
                        }
                        k.at(t, Ev::Net(NetEv::UdpWritable(o)));
                    } else {
                        let src = match l {
                            Some(l) => l,
                            None => {
                                let p = eph(k, node);
                                let l = SocketAddrV4::new(Ipv4Addr::UNSPECIFIED, p);
                                if let Kind::Udp { local, .. } = &mut k.net.objs[o].kind {
                                    *local = Some(l);
                                }
                                l
                            }
                        };
                        udp_send(k, node, src, dst, buf);
                        return Ok(buf.len() as i64);
                    }
                }
            }
            Kind::Tcp(t) => {
                if let Some(e) = t.err.take() {
                    return Err(e);
                }
                match t.st {
                    TSt::Est => {}
                    TSt::Closed => return Err(libc::EPIPE),
                    _ => return Err(libc::ENOTCONN),
                }
                if t.snd_fin {
                    return Err(libc::EPIPE);
                }
                let space = (k.knobs.sndbuf as usize).saturating_sub(t.sndq.len());
                if space > 0 || buf.is_empty() {
                    let mut n = buf.len().min(space);
                    if n > 1 {
                        let m = n as u64;
                        let v = k.choose(C::ShortWrite, |r| 1 + (r >> 3) % if r & 1 == 0 { m.min(16) } else { m });
                        if v != 0 {
                            n = n.min(v as usize);
                        }
                    }
                    if let Kind::Tcp(t) = &mut k.net.objs[o].kind {
                        t.sndq.extend(&buf[..n]);
                    }
                    pump(k, o);
                    if n < buf.len().min(space) {
                        // the buffer was full and space came free at once
                        notify(k, o, OUT);
                    }
                    return Ok(n as i64);
                }
            }
            _ => return Err(libc::EINVAL),
        }
        wait(o, false)?;
    }
}
pub fn udp_send(k: &mut Kernel, node: u16, src: SocketAddrV4, dst: SocketAddrV4, buf: &[u8]) {
    k.net.counts[0] += 1;
    let ip = if src.ip().is_unspecified() {
        if dst.ip().is_loopback() { Ipv4Addr::LOCALHOST } else { k.nodes[node as usize].ip }
    } else {
        *src.ip()
    };
    let src = SocketAddrV4::new(ip, src.port());
    let Some(to) = node_of_ip(k, *dst.ip(), node) else { return };
    if is_cut(k, node, to) {
        k.net.counts[7] += 1;
        return;
    }
    let lat = latency(k, node, to);
    let jit = k.knobs.jitter_ns.max(1);
    if k.choose(C::UdpDrop, |_| 1) != 0 {
        return;
    }
    let d = k.choose(C::UdpDelay, |r| 1 + r % jit);
    let at = k.now + lat + d;
    k.at(at, Ev::Net(NetEv::Udp { src, dst, node: to, data: buf.to_vec() }));
    let dup = k.choose(C::UdpDup, |r| 1 + r % jit);
    if dup != 0 {
        k.net.counts[3] += 1;
        let at = k.now + lat + dup;
        k.at(at, Ev::Net(NetEv::Udp { src, dst, node: to, data: buf.to_vec() }));
    }
}
pub unsafe fn epoll_ctl(ep: c_int, op: c_int, fd: c_int, ev: *mut libc::epoll_event) -> R {
    let e = obj(ep)?;
    let k = k();
    if fd < FDB {
        return Ok(0);
    }
    let o = obj(fd)?;
    match op {
        libc::EPOLL_CTL_ADD | libc::EPOLL_CTL_MOD => {
            let (events, data) = ((*ev).events, (*ev).u64);
            let r = ready(k, o) & (events | ERR | HUP);
            if let Kind::Epoll { ints, ready } = &mut k.net.objs[e].kind {
                if op == libc::EPOLL_CTL_ADD && ints.contains_key(&fd) {
                    return Err(libc::EEXIST);
                }
                ints.insert(fd, (events, data, o, r != 0));
                ready.retain(|x| *x != fd);
                if r != 0 {
                    ready.push_back(fd);
                }
            }
            if op == libc::EPOLL_CTL_ADD {
                k.net.objs[o].watchers.push((e, fd));
            }
            if r != 0 {
                k.wake(file_key(e), usize::MAX);
            }
        }
        libc::EPOLL_CTL_DEL => {
            if let Kind::Epoll { ints, ready } = &mut k.net.objs[e].kind {
                ints.remove(&fd);
                ready.retain(|x| *x != fd);
            }
            k.net.objs[o].watchers.retain(|x| *x != (e, fd));
        }
        _ => return Err(libc::EINVAL),
    }
    Ok(0)
}
pub fn epoll_wait(ep: c_int, out: &mut [libc::epoll_event], to: c_int) -> R {
    let e = obj(ep)?;
    k().point();
    let dl = if to < 0 { None } else { Some(k().now + to as u64 * 1_000_000) };
    loop {
        let k = k();
        let q: Vec<i32> = match &mut k.net.objs[e].kind {
            Kind::Epoll { ready, .. } => ready.drain(..).collect(),
            _ => return Err(libc::EINVAL),
        };
        let mut q = q;
        if q.len() > 1 {
            let n = q.len() as u64;
            let r = k.choose(C::EpollOrder, |r| 1 + r % (n - 1));
            let m = q.len();
            q.rotate_left(r as usize % m);
        }
        let mut n = 0;
        let mut back: Vec<i32> = Vec::new();
        for (i, fd) in q.iter().enumerate() {
            if n == out.len() {
                back.extend(&q[i..]);
                break;
            }
            let Some((events, data, o, _)) = (match &k.net.objs[e].kind {
                Kind::Epoll { ints, .. } => ints.get(fd).copied(),
                _ => None,
            }) else { continue };
            let r = ready(k, o) & (events | ERR | HUP) & !ET;
            let lt = events & ET == 0;
            if let Kind::Epoll { ints, .. } = &mut k.net.objs[e].kind {
                ints.get_mut(fd).unwrap().3 = lt && r != 0;
            }
            if r != 0 {
                out[n].events = r;
                out[n].u64 = data;
                n += 1;
                if lt {
                    back.push(*fd);
                }
            }
        }
        if let Kind::Epoll { ready, .. } = &mut k.net.objs[e].kind {
            for fd in back.into_iter().rev() {
                ready.push_front(fd);
            }
        }
        if n > 0 {
            return Ok(n as i64);
        }
        if to == 0 {
            return Ok(0);
        }
        if let Some(d) = dl {
            if k.now >= d {
                return Ok(0);
            }
        }
        if let Wake::Timeout = k.block(file_key(e), dl) {
            let k = super::k();
            let empty = matches!(&k.net.objs[e].kind, Kind::Epoll { ready, .. } if ready.is_empty());
            if empty {
                return Ok(0);
            }
        }
    }
}

// --- faults --------------------------------------------------------------------
pub fn cut(k: &mut Kernel, a: u16, b: u16, both: bool) {
    k.net.cut.push((a, b));
    if both {
        k.net.cut.push((b, a));
    }
}
pub fn heal(k: &mut Kernel) {
    k.net.cut.clear();
    pump_all(k);
}
pub fn pump_all(k: &mut Kernel) {
    for o in 0..k.net.objs.len() {
        if matches!(k.net.objs[o].kind, Kind::Tcp(_)) {
            pump(k, o);
        }
    }
}
/// Resets every established connection between two nodes.
pub fn reset(k: &mut Kernel, a: u16, b: u16) -> usize {
    let mut v = Vec::new();
    for (i, ob) in k.net.objs.iter().enumerate() {
        if let Kind::Tcp(t) = &ob.kind {
            if t.st == TSt::Est && ob.node == a {
                if let Some(p) = t.peer {
                    if k.net.objs[p].node == b {
                        v.push(i);
                        v.push(p);
                    }
                }
            }
        }
    }
    for &o in &v {
        event(k, NetEv::Rst(o));
    }
    v.len() / 2
}
/// The node loses all its descriptors (its threads are already gone).
pub fn node_down(k: &mut Kernel, node: u16) {
    for ob in k.net.objs.iter_mut() {
        if ob.node == node {
            ob.dead = true;
            ob.refs = 0;
        }
    }
    for f in 0..k.net.fds.len() {
        if let Some(o) = k.net.fds[f] {
            if k.net.objs[o].node == node {
                k.net.fds[f] = None;
            }
        }
    }
}
pub fn to_sa(a: SocketAddrV4) -> SocketAddr {
    SocketAddr::V4(a)
}
