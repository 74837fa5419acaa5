//! Raw system calls, used by the simulator itself and for pass-through.
use std::arch::asm;

#[inline]
pub unsafe fn sc6(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
         in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
pub unsafe fn set_errno(e: i32) {
    *libc::__errno_location() = e;
}
/// Kernel result to libc convention.
pub unsafe fn ret(r: i64) -> i64 {
    if (-4095..0).contains(&r) {
        set_errno(-r as i32);
        -1
    } else {
        r
    }
}
pub fn futex_wait(w: &std::sync::atomic::AtomicU32, val: u32) {
    unsafe {
        sc6(libc::SYS_futex, w as *const _ as i64, libc::FUTEX_WAIT as i64 | 128, val as i64, 0, 0, 0);
    }
}
pub fn futex_wake(w: &std::sync::atomic::AtomicU32) {
    unsafe {
        sc6(libc::SYS_futex, w as *const _ as i64, libc::FUTEX_WAKE as i64 | 128, 1, 0, 0, 0);
    }
}
pub fn write_all(fd: i32, mut b: &[u8]) {
    while !b.is_empty() {
        let n = unsafe { sc6(libc::SYS_write, fd as i64, b.as_ptr() as i64, b.len() as i64, 0, 0, 0) };
        if n <= 0 {
            if n == -libc::EINTR as i64 {
                continue;
            }
            return;
        }
        b = &b[n as usize..];
    }
}
pub fn real_mono_ns() -> u64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { sc6(libc::SYS_clock_gettime, 1, &mut ts as *mut _ as i64, 0, 0, 0, 0) };
    ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64
}
