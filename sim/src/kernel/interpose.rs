//! libc entry points the Rust standard library, mio, tokio, parking_lot and
//! getrandom use, redefined here so that they resolve to the simulator. Outside
//! a run (and for real descriptors) each passes straight through.
use super::*;
use libc::{c_char, c_int, c_long, c_void, size_t, sockaddr, socklen_t, ssize_t, timespec};

unsafe fn ret(r: i64) -> c_long {
    if r < 0 && r > -4096 {
        set_errno(-r as i32);
        -1
    } else {
        r
    }
}
fn fail(e: i32) -> i32 {
    set_errno(e);
    -1
}
pub const FDB: i32 = 100_000;
#[inline]
fn simfd(fd: c_int) -> bool {
    fd >= FDB && on()
}
fn res(r: Result<i64, i32>) -> i64 {
    match r {
        Ok(v) => v,
        Err(e) => {
            set_errno(e);
            -1
        }
    }
}

fn ts_ns(ts: *const timespec) -> Option<u64> {
    if ts.is_null() {
        None
    } else {
        unsafe { Some(((*ts).tv_sec.max(0) as u64).saturating_mul(1_000_000_000).saturating_add((*ts).tv_nsec as u64)) }
    }
}

// --- futex -------------------------------------------------------------------
#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    if !on() {
        return ret(raw(n, a, b, c, d, e, f));
    }
    match n {
        libc::SYS_futex => {
            let op = (b as c_int) & 0x7f & !libc::FUTEX_CLOCK_REALTIME;
            match op {
                libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET => {
                    let k = k();
                    k.point();
                    let val = (*(a as *const AtomicU32)).load(Ordering::SeqCst);
                    if val != c as u32 {
                        set_errno(libc::EAGAIN);
                        return -1;
                    }
                    let dl = ts_ns(d as *const timespec).map(|t| {
                        if op == libc::FUTEX_WAIT {
                            k.now.saturating_add(t)
                        } else if (b as c_int) & libc::FUTEX_CLOCK_REALTIME != 0 {
                            t.saturating_sub(WALL0)
                        } else {
                            t
                        }
                    });
                    if let Some(t) = dl {
                        if t <= k.now {
                            set_errno(libc::ETIMEDOUT);
                            return -1;
                        }
                    }
                    if k.choose(C::Spurious, |_| 1) != 0 {
                        set_errno(libc::EINTR);
                        return -1;
                    }
                    match k.block(a as u64, dl) {
                        Wake::Timeout => {
                            set_errno(libc::ETIMEDOUT);
                            -1
                        }
                        _ => 0,
                    }
                }
                libc::FUTEX_WAKE | libc::FUTEX_WAKE_BITSET => {
                    let k = k();
                    let n = k.wake(a as u64, (c as c_int).max(0) as usize);
                    if n > 0 {
                        k.point();
                    }
                    n as c_long
                }
                _ => finish("unsupported-futex-op"),
            }
        }
        libc::SYS_getrandom => getrandom(a as *mut c_void, b as usize, c as u32) as c_long,
        libc::SYS_gettid => 1000 + tid() as c_long,
        _ => ret(raw(n, a, b, c, d, e, f)),
    }
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: size_t, flags: u32) -> ssize_t {
    if !on() {
        return ret(raw(libc::SYS_getrandom, buf as i64, len as i64, flags as i64, 0, 0, 0)) as ssize_t;
    }
    let k = k();
    let out = std::slice::from_raw_parts_mut(buf as *mut u8, len);
    for ch in out.chunks_mut(8) {
        k.rng_ctr += 1;
        let x = h3(k.seed, 0x400, k.rng_ctr).to_le_bytes();
        ch.copy_from_slice(&x[..ch.len()]);
    }
    len as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn getentropy(buf: *mut c_void, len: size_t) -> c_int {
    getrandom(buf, len, 0);
    0
}

// --- clocks --------------------------------------------------------------------
/// Wall clock at virtual time zero: 2026-01-01T00:00:00Z.
pub const WALL0: u64 = 1_767_225_600_000_000_000;

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, ts: *mut timespec) -> c_int {
    if !on() {
        return ret(raw(libc::SYS_clock_gettime, id as i64, ts as i64, 0, 0, 0, 0)) as c_int;
    }
    let k = k();
    k.now += 50;
    let t = if id == libc::CLOCK_REALTIME || id == libc::CLOCK_REALTIME_COARSE {
        let node = k.th[k.cur as usize].node as usize;
        (WALL0 + k.now).wrapping_add(k.nodes[node].wall_off as u64)
    } else {
        k.now
    };
    (*ts).tv_sec = (t / 1_000_000_000) as i64;
    (*ts).tv_nsec = (t % 1_000_000_000) as i64;
    0
}
#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut libc::timeval, tz: *mut c_void) -> c_int {
    let _ = tz;
    let mut ts: timespec = std::mem::zeroed();
    clock_gettime(libc::CLOCK_REALTIME, &mut ts);
    (*tv).tv_sec = ts.tv_sec;
    (*tv).tv_usec = ts.tv_nsec / 1000;
    0
}
#[no_mangle]
pub unsafe extern "C" fn time(p: *mut libc::time_t) -> libc::time_t {
    let mut ts: timespec = std::mem::zeroed();
    clock_gettime(libc::CLOCK_REALTIME, &mut ts);
    if !p.is_null() {
        *p = ts.tv_sec;
    }
    ts.tv_sec
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(rq: *const timespec, rm: *mut timespec) -> c_int {
    if !on() {
        return ret(raw(libc::SYS_nanosleep, rq as i64, rm as i64, 0, 0, 0, 0)) as c_int;
    }
    let k = k();
    let t = k.now.saturating_add(ts_ns(rq).unwrap_or(0));
    k.sleep_until(t);
    0
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: libc::clockid_t, flags: c_int, rq: *const timespec, rm: *mut timespec) -> c_int {
    if !on() {
        return -(raw(libc::SYS_clock_nanosleep, id as i64, flags as i64, rq as i64, rm as i64, 0, 0)) as c_int;
    }
    let k = k();
    let mut t = ts_ns(rq).unwrap_or(0);
    if flags & libc::TIMER_ABSTIME != 0 {
        if id == libc::CLOCK_REALTIME {
            t = t.saturating_sub(WALL0);
        }
    } else {
        t = k.now.saturating_add(t);
    }
    k.sleep_until(t);
    0
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if !on() {
        return ret(raw(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0)) as c_int;
    }
    k().yield_now();
    0
}
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: libc::pid_t, sz: size_t, set: *mut libc::cpu_set_t) -> c_int {
    if !on() {
        let r = raw(libc::SYS_sched_getaffinity, pid as i64, sz as i64, set as i64, 0, 0, 0);
        if r < 0 {
            return ret(r) as c_int;
        }
        std::ptr::write_bytes((set as *mut u8).add(r as usize), 0, sz - r as usize);
        return 0;
    }
    std::ptr::write_bytes(set as *mut u8, 0, sz);
    for i in 0..k().knobs.ncpu as usize {
        libc::CPU_SET(i, &mut *set);
    }
    0
}

// --- threads -------------------------------------------------------------------
type Start = extern "C" fn(*mut c_void) -> *mut c_void;
type PtCreate = unsafe extern "C" fn(*mut libc::pthread_t, *const libc::pthread_attr_t, Start, *mut c_void) -> c_int;
type PtJoin = unsafe extern "C" fn(libc::pthread_t, *mut *mut c_void) -> c_int;
type PtDetach = unsafe extern "C" fn(libc::pthread_t) -> c_int;
static mut REAL_CREATE: usize = 0;
static mut REAL_JOIN: usize = 0;
static mut REAL_DETACH: usize = 0;
unsafe fn real(slot: *mut usize, name: &[u8]) -> usize {
    if *slot == 0 {
        *slot = libc::dlsym(libc::RTLD_NEXT, name.as_ptr() as *const c_char) as usize;
        assert!(*slot != 0);
    }
    *slot
}
/// Resolves everything resolved lazily, before the run.
pub unsafe fn warm() {
    real(&raw mut REAL_CREATE, b"pthread_create\0");
    real(&raw mut REAL_JOIN, b"pthread_join\0");
    real(&raw mut REAL_DETACH, b"pthread_detach\0");
}

#[no_mangle]
pub unsafe extern "C" fn pthread_create(out: *mut libc::pthread_t, attr: *const libc::pthread_attr_t, f: Start, arg: *mut c_void) -> c_int {
    let r: PtCreate = std::mem::transmute(real(&raw mut REAL_CREATE, b"pthread_create\0"));
    if !on() {
        return r(out, attr, f, arg);
    }
    let t = new_thread(f, arg as usize);
    let e = r(out, attr, tramp_fn(), t as usize as *mut c_void);
    if e != 0 {
        finish("pthread-create-failed");
    }
    k().th[t as usize].pthread = *out as u64;
    k().point();
    0
}
#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: libc::pthread_t, out: *mut *mut c_void) -> c_int {
    if !on() {
        let r: PtJoin = std::mem::transmute(real(&raw mut REAL_JOIN, b"pthread_join\0"));
        return r(t, out);
    }
    let k = k();
    let id = k.th.iter().rposition(|x| x.pthread == t as u64).expect("join of unknown thread") as u32;
    while k.th[id as usize].st != St::Finished {
        k.block(join_key(id), None);
    }
    if !out.is_null() {
        *out = std::ptr::null_mut();
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn pthread_detach(t: libc::pthread_t) -> c_int {
    if !on() {
        let r: PtDetach = std::mem::transmute(real(&raw mut REAL_DETACH, b"pthread_detach\0"));
        return r(t);
    }
    0
}

// --- files ---------------------------------------------------------------------
unsafe fn hidden(p: *const c_char) -> bool {
    let s = std::ffi::CStr::from_ptr(p).to_bytes();
    s.starts_with(b"/proc/") || s.starts_with(b"/sys/") || s.starts_with(b"/etc/")
}
#[no_mangle]
pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: c_int) -> c_int {
    if on() && hidden(p) {
        return fail(libc::ENOENT);
    }
    ret(raw(libc::SYS_openat, libc::AT_FDCWD as i64, p as i64, flags as i64, mode as i64, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn open(p: *const c_char, flags: c_int, mode: c_int) -> c_int {
    open64(p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if simfd(fd) {
        return res(net::close(fd)) as c_int;
    }
    ret(raw(libc::SYS_close, fd as i64, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, b: *mut c_void, n: size_t) -> ssize_t {
    if simfd(fd) {
        return res(net::read(fd, std::slice::from_raw_parts_mut(b as *mut u8, n), false, std::ptr::null_mut(), std::ptr::null_mut())) as ssize_t;
    }
    ret(raw(libc::SYS_read, fd as i64, b as i64, n as i64, 0, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, b: *const c_void, n: size_t) -> ssize_t {
    if simfd(fd) {
        return res(net::write(fd, std::slice::from_raw_parts(b as *const u8, n), std::ptr::null())) as ssize_t;
    }
    ret(raw(libc::SYS_write, fd as i64, b as i64, n as i64, 0, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, v: *const libc::iovec, n: c_int) -> ssize_t {
    if simfd(fd) {
        for i in 0..n as usize {
            let io = &*v.add(i);
            if io.iov_len > 0 {
                return read(fd, io.iov_base, io.iov_len);
            }
        }
        return 0;
    }
    ret(raw(libc::SYS_readv, fd as i64, v as i64, n as i64, 0, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, v: *const libc::iovec, n: c_int) -> ssize_t {
    if simfd(fd) {
        let mut all = Vec::new();
        for i in 0..n as usize {
            let io = &*v.add(i);
            all.extend_from_slice(std::slice::from_raw_parts(io.iov_base as *const u8, io.iov_len));
        }
        return res(net::write(fd, &all, std::ptr::null())) as ssize_t;
    }
    ret(raw(libc::SYS_writev, fd as i64, v as i64, n as i64, 0, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn recv(fd: c_int, b: *mut c_void, n: size_t, flags: c_int) -> ssize_t {
    recvfrom(fd, b, n, flags, std::ptr::null_mut(), std::ptr::null_mut())
}
#[no_mangle]
pub unsafe extern "C" fn recvfrom(fd: c_int, b: *mut c_void, n: size_t, flags: c_int, sa: *mut sockaddr, sl: *mut socklen_t) -> ssize_t {
    if simfd(fd) {
        let buf = if n == 0 { &mut [][..] } else { std::slice::from_raw_parts_mut(b as *mut u8, n) };
        return res(net::read(fd, buf, flags & libc::MSG_PEEK != 0, sa, sl)) as ssize_t;
    }
    ret(raw(libc::SYS_recvfrom, fd as i64, b as i64, n as i64, flags as i64, sa as i64, sl as i64)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn send(fd: c_int, b: *const c_void, n: size_t, flags: c_int) -> ssize_t {
    sendto(fd, b, n, flags, std::ptr::null(), 0)
}
#[no_mangle]
pub unsafe extern "C" fn sendto(fd: c_int, b: *const c_void, n: size_t, flags: c_int, sa: *const sockaddr, sl: socklen_t) -> ssize_t {
    if simfd(fd) {
        let buf = if n == 0 { &[][..] } else { std::slice::from_raw_parts(b as *const u8, n) };
        return res(net::write(fd, buf, sa)) as ssize_t;
    }
    ret(raw(libc::SYS_sendto, fd as i64, b as i64, n as i64, flags as i64, sa as i64, sl as i64)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn recvmsg(fd: c_int, m: *mut libc::msghdr, flags: c_int) -> ssize_t {
    if simfd(fd) {
        finish("unsupported-recvmsg");
    }
    ret(raw(libc::SYS_recvmsg, fd as i64, m as i64, flags as i64, 0, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn sendmsg(fd: c_int, m: *const libc::msghdr, flags: c_int) -> ssize_t {
    if simfd(fd) {
        finish("unsupported-sendmsg");
    }
    ret(raw(libc::SYS_sendmsg, fd as i64, m as i64, flags as i64, 0, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn socket(d: c_int, t: c_int, p: c_int) -> c_int {
    if on() {
        return res(net::socket(d, t)) as c_int;
    }
    ret(raw(libc::SYS_socket, d as i64, t as i64, p as i64, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn socketpair(d: c_int, t: c_int, p: c_int, out: *mut c_int) -> c_int {
    if on() {
        let (a, b) = net::socketpair(t);
        *out = a;
        *out.add(1) = b;
        return 0;
    }
    ret(raw(libc::SYS_socketpair, d as i64, t as i64, p as i64, out as i64, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn bind(fd: c_int, sa: *const sockaddr, sl: socklen_t) -> c_int {
    if simfd(fd) {
        return res(net::bind(fd, sa)) as c_int;
    }
    ret(raw(libc::SYS_bind, fd as i64, sa as i64, sl as i64, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn listen(fd: c_int, n: c_int) -> c_int {
    if simfd(fd) {
        return res(net::listen(fd, n)) as c_int;
    }
    ret(raw(libc::SYS_listen, fd as i64, n as i64, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn accept4(fd: c_int, sa: *mut sockaddr, sl: *mut socklen_t, flags: c_int) -> c_int {
    if simfd(fd) {
        return res(net::accept(fd, sa, sl, flags)) as c_int;
    }
    ret(raw(libc::SYS_accept4, fd as i64, sa as i64, sl as i64, flags as i64, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn accept(fd: c_int, sa: *mut sockaddr, sl: *mut socklen_t) -> c_int {
    accept4(fd, sa, sl, 0)
}
#[no_mangle]
pub unsafe extern "C" fn connect(fd: c_int, sa: *const sockaddr, sl: socklen_t) -> c_int {
    if simfd(fd) {
        return res(net::connect(fd, sa)) as c_int;
    }
    ret(raw(libc::SYS_connect, fd as i64, sa as i64, sl as i64, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn getsockname(fd: c_int, sa: *mut sockaddr, sl: *mut socklen_t) -> c_int {
    if simfd(fd) {
        return res(net::getname(fd, sa, sl, false)) as c_int;
    }
    ret(raw(libc::SYS_getsockname, fd as i64, sa as i64, sl as i64, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn getpeername(fd: c_int, sa: *mut sockaddr, sl: *mut socklen_t) -> c_int {
    if simfd(fd) {
        return res(net::getname(fd, sa, sl, true)) as c_int;
    }
    ret(raw(libc::SYS_getpeername, fd as i64, sa as i64, sl as i64, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn getsockopt(fd: c_int, lvl: c_int, name: c_int, v: *mut c_void, l: *mut socklen_t) -> c_int {
    if simfd(fd) {
        let x = net::getsockopt(fd, lvl, name);
        std::ptr::write_bytes(v as *mut u8, 0, *l as usize);
        if *l >= 4 {
            *(v as *mut c_int) = x;
        }
        return 0;
    }
    ret(raw(libc::SYS_getsockopt, fd as i64, lvl as i64, name as i64, v as i64, l as i64, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn setsockopt(fd: c_int, lvl: c_int, name: c_int, v: *const c_void, l: socklen_t) -> c_int {
    if simfd(fd) {
        net::setsockopt(fd, lvl, name, v);
        return 0;
    }
    ret(raw(libc::SYS_setsockopt, fd as i64, lvl as i64, name as i64, v as i64, l as i64, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn shutdown(fd: c_int, how: c_int) -> c_int {
    if simfd(fd) {
        return res(net::shutdown(fd, how)) as c_int;
    }
    ret(raw(libc::SYS_shutdown, fd as i64, how as i64, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: c_long) -> c_int {
    if simfd(fd) {
        return res(net::fcntl(fd, cmd, arg)) as c_int;
    }
    ret(raw(libc::SYS_fcntl, fd as i64, cmd as i64, arg, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: c_long) -> c_int {
    fcntl(fd, cmd, arg)
}
#[no_mangle]
pub unsafe extern "C" fn ioctl(fd: c_int, req: libc::c_ulong, arg: c_long) -> c_int {
    if simfd(fd) {
        if req == libc::FIONBIO as libc::c_ulong {
            net::set_nonblock(fd, *(arg as *const c_int) != 0);
        }
        return 0;
    }
    ret(raw(libc::SYS_ioctl, fd as i64, req as i64, arg, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn epoll_create1(flags: c_int) -> c_int {
    if on() {
        return net::epoll_create();
    }
    ret(raw(libc::SYS_epoll_create1, flags as i64, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn epoll_ctl(ep: c_int, op: c_int, fd: c_int, ev: *mut libc::epoll_event) -> c_int {
    if simfd(ep) {
        return res(net::epoll_ctl(ep, op, fd, ev)) as c_int;
    }
    ret(raw(libc::SYS_epoll_ctl, ep as i64, op as i64, fd as i64, ev as i64, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn epoll_wait(ep: c_int, ev: *mut libc::epoll_event, n: c_int, to: c_int) -> c_int {
    if simfd(ep) {
        return res(net::epoll_wait(ep, std::slice::from_raw_parts_mut(ev, n as usize), to)) as c_int;
    }
    ret(raw(libc::SYS_epoll_pwait, ep as i64, ev as i64, n as i64, to as i64, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn eventfd(init: libc::c_uint, flags: c_int) -> c_int {
    if on() {
        return net::eventfd(init as u64, flags & libc::EFD_NONBLOCK != 0);
    }
    ret(raw(libc::SYS_eventfd2, init as i64, flags as i64, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn poll(f: *mut libc::pollfd, n: libc::nfds_t, to: c_int) -> c_int {
    if on() && n > 0 && (*f).fd >= FDB {
        finish("unsupported-poll");
    }
    ret(raw(libc::SYS_poll, f as i64, n as i64, to as i64, 0, 0, 0)) as c_int
}
