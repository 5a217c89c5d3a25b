//! Raw Linux system calls (x86-64), so that the simulator's own needs never pass through its interposers.
use core::arch::asm;

#[inline]
pub unsafe fn sc(n: i64, a: u64, b: u64, c: u64, d: u64, e: u64, f: u64) -> i64 {
    let r: i64;
    asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e,
         in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}

pub unsafe fn futex_wait(p: *const u32, val: u32) {
    sc(202, p as u64, 0, val as u64, 0, 0, 0);
}
pub unsafe fn futex_wake(p: *const u32) {
    sc(202, p as u64, 1, i32::MAX as u64, 0, 0, 0);
}
pub unsafe fn exit_group(code: i32) -> ! {
    loop {
        sc(231, code as u64, 0, 0, 0, 0, 0);
    }
}
pub unsafe fn mmap_shared(fd: i32, len: usize) -> *mut u8 {
    let r = sc(9, 0, len as u64, 3, 1, fd as u64, 0);
    if r < 0 && r > -4096 {
        core::ptr::null_mut()
    } else {
        r as *mut u8
    }
}
pub unsafe fn memfd(name: &core::ffi::CStr) -> i32 {
    sc(319, name.as_ptr() as u64, 0, 0, 0, 0, 0) as i32
}
pub unsafe fn ftruncate(fd: i32, len: u64) -> i64 {
    sc(77, fd as u64, len, 0, 0, 0, 0)
}
pub unsafe fn prlimit(res: u32, soft: u64, hard: u64) {
    let l = [soft, hard];
    sc(302, 0, res as u64, l.as_ptr() as u64, 0, 0, 0);
}
