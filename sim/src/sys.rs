//! Raw Linux system calls. The simulator interposes the libc entry points, so whatever it needs from
//! the real kernel it asks for directly.
use std::arch::asm;

#[inline]
pub unsafe fn sc6(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
         in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}

/// libc convention: -1 and errno.
#[inline]
pub unsafe fn libc_ret(r: i64) -> i64 {
    if r < 0 && r >= -4095 {
        *libc::__errno_location() = (-r) as i32;
        -1
    } else {
        r
    }
}

pub unsafe fn set_errno(e: i32) -> i64 {
    *libc::__errno_location() = e;
    -1
}

pub unsafe fn futex_wait(addr: *const u32, val: u32) {
    sc6(libc::SYS_futex, addr as i64, (libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG) as i64, val as i64, 0, 0, 0);
}
pub unsafe fn futex_wake(addr: *const u32) {
    sc6(libc::SYS_futex, addr as i64, (libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG) as i64, i32::MAX as i64, 0, 0, 0);
}

pub fn raw_write(fd: i32, mut b: &[u8]) -> bool {
    while !b.is_empty() {
        let r = unsafe { sc6(libc::SYS_write, fd as i64, b.as_ptr() as i64, b.len() as i64, 0, 0, 0) };
        if r == -(libc::EINTR as i64) || r == -(libc::EAGAIN as i64) {
            continue;
        }
        if r <= 0 {
            return false;
        }
        b = &b[r as usize..];
    }
    true
}

/// Monotonic real time in nanoseconds (for budgets of the driver only; never visible to simulated code).
pub fn real_ns() -> u64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { sc6(libc::SYS_clock_gettime, libc::CLOCK_MONOTONIC as i64, &mut ts as *mut _ as i64, 0, 0, 0, 0) };
    ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64
}

pub fn exit_now(code: i32) -> ! {
    unsafe { sc6(libc::SYS_exit_group, code as i64, 0, 0, 0, 0, 0) };
    loop {}
}
