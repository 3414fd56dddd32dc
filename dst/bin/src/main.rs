//! The simulator binary: links the real library and programs with the simulated
//! operating system of `simcore`.
#![allow(invalid_runtime_symbol_definitions)]
use libc::{c_char, c_int, c_long, c_void, iovec, msghdr, nfds_t, pollfd, size_t, sockaddr, socklen_t, ssize_t, timespec};
use simcore::kernel::{in_sim, kernel, KGuard};
use simcore::shim;
use std::alloc::{GlobalAlloc, Layout, System};

mod bodies;

#[allow(dead_code, unused_imports, clippy::all)]
mod ns_program {
    include!(concat!(env!("OUT_DIR"), "/nameserver_main.rs"));
}
#[allow(dead_code, unused_imports, clippy::all)]
mod rs_program {
    include!(concat!(env!("OUT_DIR"), "/resolver_main.rs"));
}

/// Allocations are possible preemption points.
struct Alloc;
unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if in_sim() {
            let _g = KGuard::new();
            kernel().alloc_point();
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static ALLOC: Alloc = Alloc;

macro_rules! tramp {
    ($($n:ident ( $($a:ident : $t:ty),* ) $(-> $r:ty)? = $b:ident;)*) => {
        $(#[no_mangle] pub unsafe extern "C" fn $n($($a: $t),*) $(-> $r)? { shim::$b($($a),*) })*
    };
}
tramp! {
    pthread_create(t: *mut libc::pthread_t, a: *const libc::pthread_attr_t, f: extern "C" fn(*mut c_void) -> *mut c_void, d: *mut c_void) -> c_int = pthread_create;
    pthread_join(t: libc::pthread_t, o: *mut *mut c_void) -> c_int = pthread_join;
    nanosleep(a: *const timespec, b: *mut timespec) -> c_int = nanosleep;
    clock_nanosleep(c: c_int, f: c_int, a: *const timespec, b: *mut timespec) -> c_int = clock_nanosleep;
    sched_yield() -> c_int = sched_yield;
    syscall(n: c_long, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> c_long = syscall;
    getrandom(b: *mut c_void, n: size_t, f: u32) -> ssize_t = getrandom;
    clock_gettime(c: c_int, t: *mut timespec) -> c_int = clock_gettime;
    socket(d: c_int, t: c_int, p: c_int) -> c_int = socket;
    bind(f: c_int, a: *const sockaddr, l: socklen_t) -> c_int = bind;
    listen(f: c_int, n: c_int) -> c_int = listen;
    accept4(f: c_int, a: *mut sockaddr, l: *mut socklen_t, g: c_int) -> c_int = accept4;
    connect(f: c_int, a: *const sockaddr, l: socklen_t) -> c_int = connect;
    sendto(f: c_int, b: *const c_void, n: size_t, g: c_int, a: *const sockaddr, l: socklen_t) -> ssize_t = sendto;
    recvfrom(f: c_int, b: *mut c_void, n: size_t, g: c_int, a: *mut sockaddr, l: *mut socklen_t) -> ssize_t = recvfrom;
    sendmsg(f: c_int, m: *const msghdr, g: c_int) -> ssize_t = sendmsg;
    read(f: c_int, b: *mut c_void, n: size_t) -> ssize_t = read;
    write(f: c_int, b: *const c_void, n: size_t) -> ssize_t = write;
    readv(f: c_int, v: *const iovec, n: c_int) -> ssize_t = readv;
    writev(f: c_int, v: *const iovec, n: c_int) -> ssize_t = writev;
    setsockopt(f: c_int, l: c_int, o: c_int, v: *const c_void, n: socklen_t) -> c_int = setsockopt;
    getsockopt(f: c_int, l: c_int, o: c_int, v: *mut c_void, n: *mut socklen_t) -> c_int = getsockopt;
    getsockname(f: c_int, a: *mut sockaddr, l: *mut socklen_t) -> c_int = getsockname;
    getpeername(f: c_int, a: *mut sockaddr, l: *mut socklen_t) -> c_int = getpeername;
    shutdown(f: c_int, h: c_int) -> c_int = shutdown;
    close(f: c_int) -> c_int = close;
    fcntl(f: c_int, c: c_int, a: i64) -> c_int = fcntl;
    fcntl64(f: c_int, c: c_int, a: i64) -> c_int = fcntl;
    ioctl(f: c_int, r: libc::c_ulong, a: i64) -> c_int = ioctl;
    poll(f: *mut pollfd, n: nfds_t, t: c_int) -> c_int = poll;
    open(p: *const c_char, f: c_int, m: c_int) -> c_int = open;
    open64(p: *const c_char, f: c_int, m: c_int) -> c_int = open;
    fstat(f: c_int, s: *mut libc::stat) -> c_int = fstat;
    fstat64(f: c_int, s: *mut libc::stat) -> c_int = fstat;
    statx(d: c_int, p: *const c_char, f: c_int, m: u32, s: *mut libc::statx) -> c_int = statx;
    lseek(f: c_int, o: i64, w: c_int) -> i64 = lseek;
    lseek64(f: c_int, o: i64, w: c_int) -> i64 = lseek;
}
#[no_mangle]
pub unsafe extern "C" fn send(f: c_int, b: *const c_void, n: size_t, g: c_int) -> ssize_t {
    shim::sendto(f, b, n, g, std::ptr::null(), 0)
}
#[no_mangle]
pub unsafe extern "C" fn recv(f: c_int, b: *mut c_void, n: size_t, g: c_int) -> ssize_t {
    shim::recvfrom(f, b, n, g, std::ptr::null_mut(), std::ptr::null_mut())
}
#[no_mangle]
pub unsafe extern "C" fn accept(f: c_int, a: *mut sockaddr, l: *mut socklen_t) -> c_int {
    shim::accept4(f, a, l, 0)
}
#[no_mangle]
pub unsafe extern "C" fn exit(c: c_int) -> ! {
    shim::exit(c)
}
#[no_mangle]
pub unsafe extern "C" fn abort() -> ! {
    shim::abort()
}

fn main() {
    shim::init();
    std::panic::set_hook(Box::new(|i| {
        if in_sim() {
            let _g = KGuard::new();
            let k = kernel();
            let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
            let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            let (now, tid) = (k.now, k.cur);
            k.logf(|| format!("thread {} panics: {} ({})", tid, m, l));
            k.panics.push((now, tid, format!("{} ({})", m, l)));
        } else {
            simcore::raw::write_err(&format!("dst: {}\n", i));
        }
    }));
    unsafe {
        simcore::run::BODY = Some(bodies::body);
    }
    if std::env::var_os("DST_WORKER").is_some() {
        simcore::coord::worker_main();
        return;
    }
    let a: Vec<String> = std::env::args().collect();
    let arg = |i: usize, d: &str| a.get(i).cloned().unwrap_or_else(|| d.to_string());
    let num = |i: usize, d: u64| a.get(i).and_then(|v| v.parse().ok()).unwrap_or(d);
    let code = match arg(1, "").as_str() {
        "check" => simcore::coord::check(&arg(2, ""), &arg(3, "/verif")),
        "replay" => simcore::coord::replay(&arg(2, ""), a.iter().any(|x| x == "-v")),
        "run" => simcore::coord::run_seed(&arg(2, ""), &arg(3, ""), num(4, 1), a.iter().any(|x| x == "-v")),
        "sweep" => simcore::coord::sweep(&arg(2, ""), &arg(3, ""), num(4, 1), num(5, 100)),
        "selftest" => simcore::coord::selftest(num(2, 3)),
        _ => {
            eprintln!("usage: dst check PROPERTY [DIR] | replay FILE [-v] | run SCENARIO PROFILE SEED [-v] | sweep SCENARIO PROFILE FROM N | selftest N");
            2
        }
    };
    std::process::exit(code);
}
