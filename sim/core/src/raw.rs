//! Raw system calls: the simulator's own calls never go through the seams it owns.
use core::arch::asm;
#[inline(always)]
pub unsafe fn sc6(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
         in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
pub unsafe fn sc(n: i64, a: i64, b: i64, c: i64) -> i64 {
    sc6(n, a, b, c, 0, 0, 0)
}
pub const WRITE: i64 = 1;
pub const MMAP: i64 = 9;
pub const FUTEX: i64 = 202;
pub const OPENAT: i64 = 257;
pub fn exit_group(code: i64) -> ! {
    unsafe {
        sc(231, code, 0, 0);
    }
    loop {}
}
pub fn fork() -> i64 {
    // glibc's fork keeps its own thread bookkeeping right; the parent is single-threaded.
    extern "C" {
        fn fork() -> i32;
    }
    unsafe { fork() as i64 }
}
pub fn wait(pid: i64) -> i32 {
    let mut st: i32 = 0;
    loop {
        let r = unsafe { sc6(61, pid, &mut st as *mut i32 as i64, 0, 0, 0, 0) };
        if r == -4 {
            continue;
        }
        return st;
    }
}
pub fn map_shared(len: usize) -> *mut u8 {
    let p = unsafe { sc6(MMAP, 0, len as i64, 3, 0x21 | 0x4000, -1, 0) };
    assert!(p > 0, "mmap failed");
    p as *mut u8
}
pub fn map_fixed(at: usize, len: usize) -> usize {
    // MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE
    let p = unsafe { sc6(MMAP, at as i64, len as i64, 3, 0x22 | 0x4000 | 0x100000, -1, 0) };
    assert!(p as usize == at, "mmap at a fixed address failed");
    at
}
/// Run again without address-space randomisation, if the kernel lets us.
pub fn fixed_layout() {
    unsafe {
        let cur = sc(135, 0xffffffff, 0, 0);
        if cur < 0 || cur & 0x40000 != 0 {
            return;
        }
        if sc(135, cur | 0x40000, 0, 0) < 0 || sc(135, 0xffffffff, 0, 0) & 0x40000 == 0 {
            return;
        }
        use std::os::unix::process::CommandExt;
        let mut c = std::process::Command::new("/proc/self/exe");
        let mut a = std::env::args_os();
        if let Some(z) = a.next() {
            c.arg0(z);
        }
        c.args(a);
        let _ = c.exec();
    }
}
pub fn futex_wait(w: *const u32, val: u32) {
    unsafe {
        sc6(FUTEX, w as i64, 128, val as i64, 0, 0, 0);
    }
}
pub fn futex_wake(w: *const u32) {
    unsafe {
        sc6(FUTEX, w as i64, 129, 1, 0, 0, 0);
    }
}
pub fn alarm(secs: u32) {
    unsafe {
        sc(37, secs as i64, 0, 0);
    }
}
pub fn now() -> f64 {
    let mut ts = [0i64; 2];
    unsafe {
        sc(228, 1, ts.as_mut_ptr() as i64, 0);
    }
    ts[0] as f64 + ts[1] as f64 * 1e-9
}
