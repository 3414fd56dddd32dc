//! Bodies of the interposed libc functions. A call made by a simulated thread is
//! served by the kernel; any other call goes straight to the operating system.
use crate::fs::FILE_FD0;
use crate::kernel::*;
use crate::net::*;
use crate::raw::*;
use libc::{c_char, c_int, c_long, c_void, iovec, msghdr, nfds_t, pollfd, size_t, sockaddr, socklen_t, ssize_t, timespec};
use std::sync::atomic::{AtomicUsize, Ordering};

type PtCreate = unsafe extern "C" fn(*mut libc::pthread_t, *const libc::pthread_attr_t, extern "C" fn(*mut c_void) -> *mut c_void, *mut c_void) -> c_int;
type PtJoin = unsafe extern "C" fn(libc::pthread_t, *mut *mut c_void) -> c_int;
type ExitFn = unsafe extern "C" fn(c_int) -> !;

static REAL_CREATE: AtomicUsize = AtomicUsize::new(0);
static REAL_JOIN: AtomicUsize = AtomicUsize::new(0);
static REAL_EXIT: AtomicUsize = AtomicUsize::new(0);
static mut KEY: libc::pthread_key_t = 0;

/// Resolves the real functions; must run before anything else.
pub fn init() {
    unsafe {
        for (n, a) in [(c"pthread_create", &REAL_CREATE), (c"pthread_join", &REAL_JOIN), (c"exit", &REAL_EXIT)] {
            let p = libc::dlsym(libc::RTLD_NEXT, n.as_ptr());
            if p.is_null() {
                write_err("dst: cannot resolve a libc function\n");
                libc::_exit(3);
            }
            a.store(p as usize, Ordering::SeqCst);
        }
        libc::pthread_key_create(&raw mut KEY, Some(key_dtor));
    }
}
unsafe fn real_create(t: *mut libc::pthread_t, a: *const libc::pthread_attr_t, f: extern "C" fn(*mut c_void) -> *mut c_void, d: *mut c_void) -> c_int {
    let p: PtCreate = std::mem::transmute(REAL_CREATE.load(Ordering::SeqCst));
    p(t, a, f, d)
}

struct Start {
    tid: Tid,
    f: extern "C" fn(*mut c_void) -> *mut c_void,
    arg: *mut c_void,
    late: u64,
}

extern "C" fn trampoline(p: *mut c_void) -> *mut c_void {
    unsafe {
        let st = Box::from_raw(p as *mut Start);
        let (tid, f, arg, late) = (st.tid, st.f, st.arg, st.late);
        drop(st);
        libc::pthread_setspecific(KEY, 1 as *const c_void);
        thread_begin(tid);
        if late > 0 {
            let _g = KGuard::new();
            let k = kernel();
            let dl = k.now + late;
            k.block(Wait::Sleep, Some(dl));
        }
        f(arg)
    }
}

/// Runs after all thread-local destructors: the last rounds of key destructors.
unsafe extern "C" fn key_dtor(v: *mut c_void) {
    let round = v as usize;
    if round < 4 {
        libc::pthread_setspecific(KEY, (round + 1) as *const c_void);
        return;
    }
    if sim_tid() >= 0 {
        let _g = KGuard::new();
        kernel().thread_finished();
    }
}

/// Creates the first simulated thread.
pub fn spawn_main(f: extern "C" fn(*mut c_void) -> *mut c_void) {
    let k = kernel();
    let tid = k.add_thread();
    let st = Box::into_raw(Box::new(Start { tid, f, arg: std::ptr::null_mut(), late: 0 }));
    let mut t: libc::pthread_t = 0;
    unsafe {
        let mut attr: libc::pthread_attr_t = std::mem::zeroed();
        libc::pthread_attr_init(&mut attr);
        libc::pthread_attr_setstacksize(&mut attr, 8 << 20);
        if real_create(&mut t, &attr, trampoline, st as *mut c_void) != 0 {
            write_err("dst: cannot create the main simulated thread\n");
            libc::_exit(3);
        }
    }
    k.threads[tid].pthread = t as u64;
}

fn trace(name: &str, fd: c_int, r: &Result<i64, i32>) {
    let k = kernel();
    let cur = k.cur;
    k.logf(|| format!("T{} {}({}) = {:?}", cur, name, fd, r));
}

fn ret<T: Into<i64>>(r: Result<T, i32>) -> i64 {
    match r {
        Ok(v) => v.into(),
        Err(e) => {
            set_errno(e);
            -1
        }
    }
}
fn is_sock(fd: c_int) -> bool {
    (FD0..FILE_FD0).contains(&fd)
}

pub unsafe fn pthread_create(t: *mut libc::pthread_t, a: *const libc::pthread_attr_t, f: extern "C" fn(*mut c_void) -> *mut c_void, d: *mut c_void) -> c_int {
    if !in_sim() {
        return real_create(t, a, f, d);
    }
    let _g = KGuard::new();
    let k = kernel();
    k.enter(1);
    let n = k.spawned;
    k.spawned += 1;
    let (pause, late) = k.with_world(|w, _| w.spawn_delays(n));
    if pause > 0 {
        let dl = k.now + pause;
        k.block(Wait::Sleep, Some(dl));
    }
    let scripted = k.with_world(|w, k| w.spawn_fails(k, n));
    if scripted || k.choose(Kd::SpawnErr, 2) == 1 {
        let tid = k.cur;
        k.with_world(|w, k| w.fault(k, Kd::SpawnErr, tid, FaultPeer::None));
        return libc::EAGAIN;
    }
    let tid = k.add_thread();
    let st = Box::into_raw(Box::new(Start { tid, f, arg: d, late }));
    let r = real_create(t, a, trampoline, st as *mut c_void);
    if r != 0 {
        write_err("dst: real pthread_create failed\n");
        libc::_exit(3);
    }
    k.threads[tid].pthread = *t as u64;
    r
}

pub unsafe fn pthread_join(t: libc::pthread_t, out: *mut *mut c_void) -> c_int {
    let real: PtJoin = std::mem::transmute(REAL_JOIN.load(Ordering::SeqCst));
    if !in_sim() {
        return real(t, out);
    }
    let _g = KGuard::new();
    let k = kernel();
    k.enter(2);
    let cand = (0..k.threads.len()).rev().find(|i| k.threads[*i].pthread == t as u64 && !k.threads[*i].joined);
    if let Some(tid) = cand {
        k.threads[tid].joined = true;
        while k.threads[tid].state != TState::Finished {
            k.block(Wait::Join(tid), None);
        }
    }
    real(t, out)
}

fn dl_of(ts: &timespec) -> u64 {
    (ts.tv_sec as u64).saturating_mul(SEC).saturating_add(ts.tv_nsec as u64)
}

pub unsafe fn nanosleep(req: *const timespec, rem: *mut timespec) -> c_int {
    if !in_sim() {
        return sysc(libc::SYS_nanosleep, req as i64, rem as i64, 0, 0, 0, 0) as c_int;
    }
    let _g = KGuard::new();
    let k = kernel();
    k.enter(3);
    let dl = k.now.saturating_add(dl_of(&*req));
    k.block(Wait::Sleep, Some(dl));
    0
}

pub unsafe fn clock_nanosleep(clk: c_int, flags: c_int, req: *const timespec, rem: *mut timespec) -> c_int {
    if !in_sim() {
        return -(sys6(libc::SYS_clock_nanosleep, clk as i64, flags as i64, req as i64, rem as i64, 0, 0) as c_int);
    }
    let _g = KGuard::new();
    let k = kernel();
    k.enter(3);
    let t = dl_of(&*req);
    let dl = if flags & libc::TIMER_ABSTIME != 0 {
        let base = if clk == libc::CLOCK_REALTIME { (WALL_BASE as i64 + k.wall_off) as u64 } else { MONO_BASE };
        t.saturating_sub(base)
    } else {
        k.now.saturating_add(t)
    };
    k.block(Wait::Sleep, Some(dl));
    0
}

pub unsafe fn sched_yield() -> c_int {
    if !in_sim() {
        return sysc(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0) as c_int;
    }
    let _g = KGuard::new();
    let k = kernel();
    k.enter(4);
    k.yield_back();
    0
}

pub unsafe fn syscall(n: c_long, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> c_long {
    if in_sim() {
        match n {
            libc::SYS_futex => return futex(a as usize, b as i32, c as u32, d as *const timespec, f as u32),
            libc::SYS_getrandom => return getrandom(a as *mut c_void, b as usize, c as u32) as c_long,
            libc::SYS_gettid => return 4242 + sim_tid() as c_long,
            _ => {}
        }
    }
    sysc(n, a, b, c, d, e, f)
}

unsafe fn futex(addr: usize, op: i32, val: u32, ts: *const timespec, val3: u32) -> c_long {
    let _g = KGuard::new();
    let k = kernel();
    k.enter(5);
    match op & 0x7f & !libc::FUTEX_CLOCK_REALTIME {
        0 | 9 => {
            let dl = if ts.is_null() {
                None
            } else if op & 0x7f == 0 {
                Some(k.now.saturating_add(dl_of(&*ts)))
            } else {
                let base = if op & libc::FUTEX_CLOCK_REALTIME != 0 { (WALL_BASE as i64 + k.wall_off) as u64 } else { MONO_BASE };
                Some(dl_of(&*ts).saturating_sub(base))
            };
            let mask = if op & 0x7f == 9 { val3 } else { u32::MAX };
            ret(k.futex_wait(addr, val, mask, dl).map(|_| 0i64))
        }
        1 | 10 => {
            let mask = if op & 0x7f == 10 { val3 } else { u32::MAX };
            k.futex_wake(addr, val, mask) as c_long
        }
        _ => {
            set_errno(libc::ENOSYS);
            -1
        }
    }
}

pub unsafe fn getrandom(buf: *mut c_void, len: size_t, flags: u32) -> ssize_t {
    if !in_sim() {
        return sysc(libc::SYS_getrandom, buf as i64, len as i64, flags as i64, 0, 0, 0) as ssize_t;
    }
    let _g = KGuard::new();
    let k = kernel();
    k.enter(6);
    let out = std::slice::from_raw_parts_mut(buf as *mut u8, len);
    for ch in out.chunks_mut(8) {
        let v = k.ent.next().to_le_bytes();
        ch.copy_from_slice(&v[..ch.len()]);
    }
    len as ssize_t
}

pub unsafe fn clock_gettime(clk: c_int, ts: *mut timespec) -> c_int {
    if !in_sim() {
        return sysc(libc::SYS_clock_gettime, clk as i64, ts as i64, 0, 0, 0, 0) as c_int;
    }
    let _g = KGuard::new();
    let k = kernel();
    if !k.quiet_io {
        k.enter(7);
    }
    let v = match clk {
        libc::CLOCK_REALTIME | 5 => (WALL_BASE as i64 + k.wall_off) as u64 + k.now,
        _ => MONO_BASE + k.now,
    };
    (*ts).tv_sec = (v / SEC) as i64;
    (*ts).tv_nsec = (v % SEC) as i64;
    0
}

unsafe fn addr_in(sa: *const sockaddr, len: socklen_t, v6: bool) -> Result<Addr, i32> {
    if sa.is_null() || (len as usize) < std::mem::size_of::<libc::sockaddr_in>() {
        return Err(libc::EINVAL);
    }
    if (*sa).sa_family == libc::AF_INET6 as u16 && v6 {
        if (len as usize) < std::mem::size_of::<libc::sockaddr_in6>() {
            return Err(libc::EINVAL);
        }
        let s = &*(sa as *const libc::sockaddr_in6);
        let ip = crate::net::v6_number(s.sin6_addr.s6_addr).ok_or(libc::EADDRNOTAVAIL)?;
        return Ok(Addr { ip, port: u16::from_be(s.sin6_port) });
    }
    if (*sa).sa_family != libc::AF_INET as u16 {
        return Err(libc::EAFNOSUPPORT);
    }
    let s = &*(sa as *const libc::sockaddr_in);
    Ok(Addr { ip: u32::from_be(s.sin_addr.s_addr), port: u16::from_be(s.sin_port) })
}
unsafe fn addr_out(a: Addr, v6: bool, sa: *mut sockaddr, len: *mut socklen_t) {
    if sa.is_null() || len.is_null() {
        return;
    }
    if v6 {
        let mut s: libc::sockaddr_in6 = std::mem::zeroed();
        s.sin6_family = libc::AF_INET6 as u16;
        s.sin6_port = a.port.to_be();
        s.sin6_addr.s6_addr = crate::net::v6_bytes(a.ip);
        let n = (*len as usize).min(std::mem::size_of_val(&s));
        std::ptr::copy_nonoverlapping(&s as *const _ as *const u8, sa as *mut u8, n);
        *len = std::mem::size_of_val(&s) as socklen_t;
        return;
    }
    let mut s: libc::sockaddr_in = std::mem::zeroed();
    s.sin_family = libc::AF_INET as u16;
    s.sin_port = a.port.to_be();
    s.sin_addr.s_addr = a.ip.to_be();
    let n = (*len as usize).min(std::mem::size_of_val(&s));
    std::ptr::copy_nonoverlapping(&s as *const _ as *const u8, sa as *mut u8, n);
    *len = std::mem::size_of_val(&s) as socklen_t;
}

pub unsafe fn socket(dom: c_int, ty: c_int, proto: c_int) -> c_int {
    if !in_sim() {
        return sysc(libc::SYS_socket, dom as i64, ty as i64, proto as i64, 0, 0, 0) as c_int;
    }
    let _g = KGuard::new();
    let k = kernel();
    k.enter(10);
    if dom != libc::AF_INET && dom != libc::AF_INET6 {
        set_errno(libc::EAFNOSUPPORT);
        return -1;
    }
    let dgram = ty & 0xf == libc::SOCK_DGRAM;
    ret(k.sys_socket(dgram, ty & libc::SOCK_NONBLOCK != 0, dom == libc::AF_INET6)) as c_int
}

pub unsafe fn bind(fd: c_int, sa: *const sockaddr, len: socklen_t) -> c_int {
    if !in_sim() || !is_sock(fd) {
        return sysc(libc::SYS_bind, fd as i64, sa as i64, len as i64, 0, 0, 0) as c_int;
    }
    let _g = KGuard::new();
    let k = kernel();
    k.enter(11);
    let v6 = k.is_v6_sock(fd);
    let a = addr_in(sa, len, v6).and_then(|a| if v6 && !crate::net::is_v6(a.ip) { Err(libc::EINVAL) } else { Ok(a) });
    ret(a.and_then(|a| k.sys_bind(fd, a)).map(|_| 0i64)) as c_int
}

pub unsafe fn listen(fd: c_int, n: c_int) -> c_int {
    if !in_sim() || !is_sock(fd) {
        return sysc(libc::SYS_listen, fd as i64, n as i64, 0, 0, 0, 0) as c_int;
    }
    let _g = KGuard::new();
    let k = kernel();
    k.enter(12);
    ret(k.sys_listen(fd).map(|_| 0i64)) as c_int
}

pub unsafe fn accept4(fd: c_int, sa: *mut sockaddr, len: *mut socklen_t, flags: c_int) -> c_int {
    if !in_sim() || !is_sock(fd) {
        return sysc(libc::SYS_accept4, fd as i64, sa as i64, len as i64, flags as i64, 0, 0) as c_int;
    }
    let _g = KGuard::new();
    let k = kernel();
    k.enter(13);
    let r = k.sys_accept(fd);
    trace("accept", fd, &r.as_ref().map(|v| v.0 as i64).map_err(|e| *e));
    match r {
        Ok((nfd, a)) => {
            addr_out(a, k.is_v6_sock(nfd), sa, len);
            nfd
        }
        Err(e) => {
            set_errno(e);
            -1
        }
    }
}

pub unsafe fn connect(fd: c_int, sa: *const sockaddr, len: socklen_t) -> c_int {
    if !in_sim() || !is_sock(fd) {
        return sysc(libc::SYS_connect, fd as i64, sa as i64, len as i64, 0, 0, 0) as c_int;
    }
    let _g = KGuard::new();
    let k = kernel();
    k.enter(14);
    let v6 = k.is_v6_sock(fd);
    ret(addr_in(sa, len, v6).and_then(|a| k.sys_connect(fd, a)).map(|_| 0i64)) as c_int
}

pub unsafe fn sendto(fd: c_int, buf: *const c_void, n: size_t, flags: c_int, sa: *const sockaddr, len: socklen_t) -> ssize_t {
    if !in_sim() || !is_sock(fd) {
        return sysc(libc::SYS_sendto, fd as i64, buf as i64, n as i64, flags as i64, sa as i64, len as i64) as ssize_t;
    }
    let _g = KGuard::new();
    let k = kernel();
    k.enter(15);
    let to = if sa.is_null() {
        None
    } else {
        match addr_in(sa, len, k.is_v6_sock(fd)) {
            Ok(a) => Some(a),
            Err(e) => {
                set_errno(e);
                return -1;
            }
        }
    };
    let d = std::slice::from_raw_parts(buf as *const u8, n);
    let r = k.sys_sendto(fd, d, to).map(|v| v as i64);
    trace("send", fd, &r);
    ret(r) as ssize_t
}

pub unsafe fn recvfrom(fd: c_int, buf: *mut c_void, n: size_t, flags: c_int, sa: *mut sockaddr, len: *mut socklen_t) -> ssize_t {
    if !in_sim() || !is_sock(fd) {
        return sysc(libc::SYS_recvfrom, fd as i64, buf as i64, n as i64, flags as i64, sa as i64, len as i64) as ssize_t;
    }
    let _g = KGuard::new();
    let k = kernel();
    k.enter(16);
    let d = std::slice::from_raw_parts_mut(buf as *mut u8, n);
    let r = k.sys_recv(fd, d, flags & libc::MSG_PEEK != 0, flags & libc::MSG_DONTWAIT != 0);
    trace("recv", fd, &r.as_ref().map(|v| v.0 as i64).map_err(|e| *e));
    match r {
        Ok((n, a)) => {
            match a {
                Some(a) => addr_out(a, k.is_v6_sock(fd), sa, len),
                None if !len.is_null() => *len = 0,
                None => {}
            }
            n as ssize_t
        }
        Err(e) => {
            set_errno(e);
            -1
        }
    }
}

pub unsafe fn sendmsg(fd: c_int, m: *const msghdr, flags: c_int) -> ssize_t {
    if !in_sim() || !is_sock(fd) {
        return sysc(libc::SYS_sendmsg, fd as i64, m as i64, flags as i64, 0, 0, 0) as ssize_t;
    }
    let v = gather((*m).msg_iov, (*m).msg_iovlen as usize);
    sendto(fd, v.as_ptr() as *const c_void, v.len(), flags, (*m).msg_name as *const sockaddr, (*m).msg_namelen)
}

unsafe fn gather(iov: *const iovec, n: usize) -> Vec<u8> {
    let mut v = vec![];
    for i in 0..n {
        let x = &*iov.add(i);
        v.extend_from_slice(std::slice::from_raw_parts(x.iov_base as *const u8, x.iov_len));
    }
    v
}

pub unsafe fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    if in_sim() {
        if is_sock(fd) {
            return recvfrom(fd, buf, n, 0, std::ptr::null_mut(), std::ptr::null_mut());
        }
        if fd > FILE_FD0 {
            let _g = KGuard::new();
            let k = kernel();
            k.enter(17);
            let d = std::slice::from_raw_parts_mut(buf as *mut u8, n);
            return ret(k.sys_file_read(fd, d).map(|v| v as i64)) as ssize_t;
        }
    }
    sysc(libc::SYS_read, fd as i64, buf as i64, n as i64, 0, 0, 0) as ssize_t
}

pub unsafe fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    if in_sim() {
        if is_sock(fd) {
            return sendto(fd, buf, n, 0, std::ptr::null(), 0);
        }
        if fd == 1 || fd == 2 {
            return std_write(fd, buf, n);
        }
    }
    sysc(libc::SYS_write, fd as i64, buf as i64, n as i64, 0, 0, 0) as ssize_t
}

/// Output on stdout / stderr goes to the world only; the call is still a scheduling point.
unsafe fn std_write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    let _g = KGuard::new();
    let k = kernel();
    let cur = k.cur;
    k.logf(|| format!("T{} out: {}", cur, String::from_utf8_lossy(std::slice::from_raw_parts(buf as *const u8, n)).trim_end()));
    if !k.quiet_io {
        k.enter(18);
    }
    let v = k.choose(Kd::OutErr, 4);
    if v > 0 {
        set_errno([0, libc::ENOSPC, libc::EIO, libc::EPIPE][v as usize]);
        return -1;
    }
    k.printed(fd, std::slice::from_raw_parts(buf as *const u8, n));
    n as ssize_t
}

pub unsafe fn writev(fd: c_int, iov: *const iovec, n: c_int) -> ssize_t {
    if in_sim() && (is_sock(fd) || fd == 1 || fd == 2) {
        if is_sock(fd) {
            let v = {
                let _g = KGuard::new();
                gather(iov, n as usize)
            };
            return write(fd, v.as_ptr() as *const c_void, v.len());
        }
        let v = {
            let _g = KGuard::new();
            gather(iov, n as usize)
        };
        return std_write(fd, v.as_ptr() as *const c_void, v.len());
    }
    sysc(libc::SYS_writev, fd as i64, iov as i64, n as i64, 0, 0, 0) as ssize_t
}

pub unsafe fn readv(fd: c_int, iov: *const iovec, n: c_int) -> ssize_t {
    if in_sim() && (is_sock(fd) || fd > FILE_FD0) {
        for i in 0..n as usize {
            let x = &*iov.add(i);
            if x.iov_len > 0 {
                return read(fd, x.iov_base, x.iov_len);
            }
        }
        return 0;
    }
    sysc(libc::SYS_readv, fd as i64, iov as i64, n as i64, 0, 0, 0) as ssize_t
}

pub unsafe fn setsockopt(fd: c_int, lvl: c_int, opt: c_int, val: *const c_void, len: socklen_t) -> c_int {
    if !in_sim() || !is_sock(fd) {
        return sysc(libc::SYS_setsockopt, fd as i64, lvl as i64, opt as i64, val as i64, len as i64, 0) as c_int;
    }
    let _g = KGuard::new();
    let k = kernel();
    k.enter(19);
    if lvl == libc::SOL_SOCKET && (opt == libc::SO_RCVTIMEO || opt == libc::SO_SNDTIMEO) {
        let tv = &*(val as *const libc::timeval);
        // (Linux, too, waits forever when the time is long enough.)
        let ns = (tv.tv_sec as u64).min(100_000_000) * SEC + tv.tv_usec as u64 * 1000;
        return ret(k.sys_timeout(fd, opt == libc::SO_RCVTIMEO, ns).map(|_| 0i64)) as c_int;
    }
    0
}

pub unsafe fn getsockopt(fd: c_int, lvl: c_int, opt: c_int, val: *mut c_void, len: *mut socklen_t) -> c_int {
    if !in_sim() || !is_sock(fd) {
        return sysc(libc::SYS_getsockopt, fd as i64, lvl as i64, opt as i64, val as i64, len as i64, 0) as c_int;
    }
    let _g = KGuard::new();
    let k = kernel();
    k.enter(20);
    if lvl == libc::SOL_SOCKET && opt == libc::SO_ERROR {
        let e = k.so_error(fd);
        *(val as *mut c_int) = e;
        return 0;
    }
    if lvl == libc::SOL_SOCKET && (opt == libc::SO_RCVTIMEO || opt == libc::SO_SNDTIMEO) {
        let Some(s) = k.net.sock_of(fd) else {
            set_errno(libc::EBADF);
            return -1;
        };
        let v = if opt == libc::SO_RCVTIMEO { k.net.socks[s].rcvto } else { k.net.socks[s].sndto };
        let tv = &mut *(val as *mut libc::timeval);
        tv.tv_sec = (v / SEC) as i64;
        tv.tv_usec = (v % SEC / 1000) as i64;
        return 0;
    }
    *(val as *mut c_int) = 0;
    0
}

pub unsafe fn getsockname(fd: c_int, sa: *mut sockaddr, len: *mut socklen_t) -> c_int {
    if !in_sim() || !is_sock(fd) {
        return sysc(libc::SYS_getsockname, fd as i64, sa as i64, len as i64, 0, 0, 0) as c_int;
    }
    let _g = KGuard::new();
    let k = kernel();
    let Some(s) = k.net.sock_of(fd) else {
        set_errno(libc::EBADF);
        return -1;
    };
    addr_out(k.net.socks[s].local.unwrap_or(Addr { ip: 0, port: 0 }), k.net.socks[s].v6, sa, len);
    0
}

pub unsafe fn getpeername(fd: c_int, sa: *mut sockaddr, len: *mut socklen_t) -> c_int {
    if !in_sim() || !is_sock(fd) {
        return sysc(libc::SYS_getpeername, fd as i64, sa as i64, len as i64, 0, 0, 0) as c_int;
    }
    let _g = KGuard::new();
    let k = kernel();
    match k.peer_addr(fd) {
        Some(a) => {
            addr_out(a, k.is_v6_sock(fd), sa, len);
            0
        }
        None => {
            set_errno(libc::ENOTCONN);
            -1
        }
    }
}

pub unsafe fn shutdown(fd: c_int, how: c_int) -> c_int {
    if !in_sim() || !is_sock(fd) {
        return sysc(libc::SYS_shutdown, fd as i64, how as i64, 0, 0, 0, 0) as c_int;
    }
    let _g = KGuard::new();
    let k = kernel();
    k.enter(21);
    ret(k.sys_shutdown(fd, how).map(|_| 0i64)) as c_int
}

pub unsafe fn close(fd: c_int) -> c_int {
    if !in_sim() || fd < FD0 {
        return sysc(libc::SYS_close, fd as i64, 0, 0, 0, 0, 0) as c_int;
    }
    let _g = KGuard::new();
    let k = kernel();
    k.enter(22);
    if k.sys_file_close(fd) {
        return 0;
    }
    ret(k.sys_close(fd).map(|_| 0i64)) as c_int
}

pub unsafe fn fcntl(fd: c_int, cmd: c_int, arg: i64) -> c_int {
    if in_sim() && fd > FILE_FD0 {
        return if cmd == libc::F_GETFD { libc::FD_CLOEXEC } else { 0 };
    }
    if !in_sim() || !is_sock(fd) {
        return sysc(libc::SYS_fcntl, fd as i64, cmd as i64, arg, 0, 0, 0) as c_int;
    }
    let _g = KGuard::new();
    let k = kernel();
    k.enter(23);
    match cmd {
        libc::F_DUPFD | libc::F_DUPFD_CLOEXEC => ret(k.sys_dup(fd)) as c_int,
        libc::F_GETFL => {
            let nb = k.net.sock_of(fd).map(|s| k.net.socks[s].nonblock).unwrap_or(false);
            libc::O_RDWR | if nb { libc::O_NONBLOCK } else { 0 }
        }
        libc::F_SETFL => {
            if let Some(s) = k.net.sock_of(fd) {
                k.net.socks[s].nonblock = arg as c_int & libc::O_NONBLOCK != 0;
            }
            0
        }
        libc::F_GETFD => libc::FD_CLOEXEC,
        _ => 0,
    }
}

pub unsafe fn ioctl(fd: c_int, req: libc::c_ulong, arg: i64) -> c_int {
    if !in_sim() || !is_sock(fd) {
        return sysc(libc::SYS_ioctl, fd as i64, req as i64, arg, 0, 0, 0) as c_int;
    }
    let _g = KGuard::new();
    let k = kernel();
    k.enter(24);
    if req == libc::FIONBIO {
        let on = *(arg as *const c_int) != 0;
        if let Some(s) = k.net.sock_of(fd) {
            k.net.socks[s].nonblock = on;
        }
    }
    0
}

pub unsafe fn poll(fds: *mut pollfd, n: nfds_t, timeout: c_int) -> c_int {
    let l = std::slice::from_raw_parts_mut(fds, n as usize);
    if !in_sim() || !l.iter().any(|p| is_sock(p.fd)) {
        return sysc(libc::SYS_poll, fds as i64, n as i64, timeout as i64, 0, 0, 0) as c_int;
    }
    let _g = KGuard::new();
    let k = kernel();
    k.enter(25);
    let dl = if timeout < 0 { None } else { Some(k.now + timeout as u64 * MS) };
    loop {
        let mut c = 0;
        for p in l.iter_mut() {
            p.revents = 0;
            if is_sock(p.fd) {
                let (r, w, e) = k.sock_ready(p.fd);
                if r && p.events & libc::POLLIN != 0 {
                    p.revents |= libc::POLLIN;
                }
                if w && p.events & libc::POLLOUT != 0 {
                    p.revents |= libc::POLLOUT;
                }
                if e {
                    p.revents |= libc::POLLERR | libc::POLLHUP;
                }
                if p.revents != 0 {
                    c += 1;
                }
            }
        }
        if c > 0 || timeout == 0 {
            return c;
        }
        if k.block(Wait::Poll, dl) == R_TIMEOUT {
            return 0;
        }
    }
}

unsafe fn path_str<'a>(p: *const c_char) -> &'a str {
    std::ffi::CStr::from_ptr(p).to_str().unwrap_or("")
}

pub unsafe fn open(path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    if in_sim() {
        let _g = KGuard::new();
        let p = path_str(path);
        if p.starts_with("/sim/") {
            let k = kernel();
            k.enter(26);
            return ret(k.sys_open(p)) as c_int;
        }
    }
    sysc(libc::SYS_openat, libc::AT_FDCWD as i64, path as i64, flags as i64, mode as i64, 0, 0) as c_int
}

pub unsafe fn fstat(fd: c_int, st: *mut libc::stat) -> c_int {
    if in_sim() && fd > FILE_FD0 {
        let _g = KGuard::new();
        let k = kernel();
        k.enter(27);
        return match k.sys_file_size(fd) {
            Ok(n) => {
                *st = std::mem::zeroed();
                (*st).st_size = n as i64;
                (*st).st_mode = libc::S_IFREG | 0o644;
                (*st).st_nlink = 1;
                (*st).st_blksize = 4096;
                0
            }
            Err(e) => {
                set_errno(e);
                -1
            }
        };
    }
    sysc(libc::SYS_fstat, fd as i64, st as i64, 0, 0, 0, 0) as c_int
}

pub unsafe fn statx(dfd: c_int, path: *const c_char, flags: c_int, mask: u32, st: *mut libc::statx) -> c_int {
    if in_sim() {
        let _g = KGuard::new();
        let k = kernel();
        let p = path_str(path);
        let size = if dfd > FILE_FD0 {
            Some(k.sys_file_size(dfd))
        } else if p.starts_with("/sim/") {
            Some(k.fs.files.get(p).map(|d| d.len() as u64).ok_or(libc::ENOENT))
        } else {
            None
        };
        if let Some(r) = size {
            k.enter(27);
            return match r {
                Ok(n) => {
                    *st = std::mem::zeroed();
                    (*st).stx_size = n;
                    (*st).stx_mode = (libc::S_IFREG | 0o644) as u16;
                    (*st).stx_mask = mask & 0x7ff;
                    (*st).stx_nlink = 1;
                    0
                }
                Err(e) => {
                    set_errno(e);
                    -1
                }
            };
        }
    }
    sysc(libc::SYS_statx, dfd as i64, path as i64, flags as i64, mask as i64, st as i64, 0) as c_int
}

pub unsafe fn lseek(fd: c_int, off: i64, whence: c_int) -> i64 {
    if in_sim() && fd > FILE_FD0 {
        let _g = KGuard::new();
        return ret(kernel().sys_file_seek(fd, off, whence));
    }
    sysc(libc::SYS_lseek, fd as i64, off, whence as i64, 0, 0, 0)
}

pub unsafe fn exit(code: c_int) -> ! {
    if in_sim() {
        let _g = KGuard::new();
        let k = kernel();
        k.steps += 1;
        k.process_exit(code, false);
    }
    let f: ExitFn = std::mem::transmute(REAL_EXIT.load(Ordering::SeqCst));
    f(code)
}

pub unsafe fn abort() -> ! {
    if in_sim() {
        let _g = KGuard::new();
        kernel().process_exit(134, true);
    }
    sys6(libc::SYS_kill, sys6(libc::SYS_getpid, 0, 0, 0, 0, 0, 0), libc::SIGABRT as i64, 0, 0, 0, 0);
    libc::_exit(134)
}
