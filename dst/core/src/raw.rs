//! Raw system calls (bypassing libc symbols, which are interposed).
use std::arch::asm;
use std::sync::atomic::{AtomicU32, Ordering};

pub unsafe fn sys6(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
         in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _);
    r
}

/// Performs a raw system call with libc's error convention (-1 and errno).
pub unsafe fn sysc(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r = sys6(n, a, b, c, d, e, f);
    if r < 0 && r > -4096 {
        *libc::__errno_location() = -r as i32;
        -1
    } else {
        r
    }
}

pub fn set_errno(e: i32) {
    unsafe { *libc::__errno_location() = e }
}

pub fn futex_wait(a: &AtomicU32, val: u32) {
    unsafe {
        sys6(libc::SYS_futex, a as *const _ as i64, 128, val as i64, 0, 0, 0);
    }
}

pub fn futex_wake(a: &AtomicU32) {
    unsafe {
        sys6(libc::SYS_futex, a as *const _ as i64, 129, 1, 0, 0, 0);
    }
}

/// A binary baton: `give` makes one `take` return.
#[derive(Default)]
pub struct Baton(AtomicU32);
impl Baton {
    pub const fn new() -> Self {
        Baton(AtomicU32::new(0))
    }
    pub fn give(&self) {
        self.0.store(1, Ordering::Release);
        futex_wake(&self.0);
    }
    pub fn take(&self) {
        while self.0.swap(0, Ordering::Acquire) == 0 {
            futex_wait(&self.0, 0);
        }
    }
}

pub fn write_err(s: &str) {
    unsafe {
        sys6(libc::SYS_write, 2, s.as_ptr() as i64, s.len() as i64, 0, 0, 0);
    }
}

pub fn mono_ns() -> u64 {
    let mut ts: libc::timespec = unsafe { std::mem::zeroed() };
    unsafe {
        sys6(libc::SYS_clock_gettime, libc::CLOCK_MONOTONIC as i64, &mut ts as *mut _ as i64, 0, 0, 0, 0);
    }
    ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64
}
