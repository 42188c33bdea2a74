//! Raw system calls: the simulator itself must not go through the symbols it replaces.
use core::arch::asm;

#[inline]
pub unsafe fn raw6(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
         lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
#[inline]
pub unsafe fn raw3(n: i64, a: i64, b: i64, c: i64) -> i64 {
    raw6(n, a, b, c, 0, 0, 0)
}
pub unsafe fn futex_wake(p: *const u32) {
    raw6(libc::SYS_futex, p as i64, 129, 1, 0, 0, 0);
}
pub unsafe fn futex_wait(p: *const u32, v: u32) {
    raw6(libc::SYS_futex, p as i64, 128, v as i64, 0, 0, 0);
}
/// result of a raw syscall turned into the libc convention
pub unsafe fn ret(r: i64) -> i64 {
    if r < 0 && r > -4096 {
        *libc::__errno_location() = (-r) as i32;
        -1
    } else {
        r
    }
}
pub unsafe fn set_errno(e: i32) {
    *libc::__errno_location() = e;
}
pub fn exit_now(code: i32) -> ! {
    unsafe {
        raw3(libc::SYS_exit_group, code as i64, 0, 0);
    }
    loop {}
}
pub fn real_write(fd: i32, s: &[u8]) {
    unsafe {
        raw3(libc::SYS_write, fd as i64, s.as_ptr() as i64, s.len() as i64);
    }
}
pub fn real_now_ns() -> u64 {
    unsafe {
        let mut ts: libc::timespec = core::mem::zeroed();
        raw3(libc::SYS_clock_gettime, libc::CLOCK_MONOTONIC as i64, &mut ts as *mut _ as i64, 0);
        ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64
    }
}
