//! libc symbols interposed by definition in the executable. Outside library code
//! they pass straight through to the kernel; inside it the simulator answers.
use crate::plan::*;
use crate::raw::*;
use crate::rt::*;

extern "C" {
    fn __errno_location() -> *mut i32;
    static environ: *const *const u8;
    fn dlsym(h: *mut u8, name: *const u8) -> *mut u8;
}
fn ret(r: i64) -> i64 {
    if r < 0 {
        unsafe { *__errno_location() = -r as i32 };
        -1
    } else {
        r
    }
}
fn lib() -> Option<&'static mut Ctx> {
    ctx().filter(|c| c.live())
}

/// Modes of a write fault (Fault.arg).
pub const W_EPIPE: i64 = 0;
pub const W_ENOSPC: i64 = 1;
pub const W_EBADF: i64 = 2;
pub const W_EAGAIN: i64 = 3;
pub const W_EINTR: i64 = 4;
pub const W_SHORT: i64 = 5;
pub const W_EIO: i64 = 6;

fn sim_write(c: &mut Ctx, n: usize) -> i64 {
    c.n[F::Write as usize] += 1;
    let k = c.n[F::Write as usize];
    for f in c.faults {
        if f.kind != F::Write {
            continue;
        }
        // errors other than EINTR and short writes persist, as a closed or full stream does
        let once = f.arg == W_EINTR || f.arg == W_SHORT;
        if f.at == k || (!once && f.at < k) {
            c.fired[F::Write as usize] += 1;
            return match f.arg {
                W_EPIPE => -32,
                W_ENOSPC => -28,
                W_EBADF => -9,
                W_EAGAIN => -11,
                W_EINTR => -4,
                W_EIO => -5,
                _ => (n as i64).min(1),
            };
        }
    }
    n as i64
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, buf: *const u8, n: usize) -> isize {
    if let Some(c) = lib() {
        return ret(sim_write(c, n)) as isize;
    }
    ret(sc(WRITE, fd as i64, buf as i64, n as i64)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: i32, iov: *const [usize; 2], cnt: i32) -> isize {
    if let Some(c) = lib() {
        let mut n = 0;
        for i in 0..cnt as usize {
            n += (*iov.add(i))[1];
        }
        return ret(sim_write(c, n)) as isize;
    }
    ret(sc(20, fd as i64, iov as i64, cnt as i64)) as isize
}

fn sim_clock(c: &mut Ctx, id: i32) -> (i64, i64) {
    c.n[F::Clock as usize] += 1;
    let k = c.n[F::Clock as usize];
    for f in c.faults {
        if f.kind == F::Clock && f.at == k {
            c.fired[F::Clock as usize] += 1;
            unsafe {
                S.jump_real += f.arg;
                if f.arg > 0 {
                    S.jump_mono += f.arg;
                }
            }
        }
    }
    let real = id == 0 || id == 5 || id == 11;
    let t = sim_mono() + if real { unsafe { S.jump_real } } else { 0 };
    (t.div_euclid(1_000_000_000), t.rem_euclid(1_000_000_000))
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut [i64; 2]) -> i32 {
    if let Some(c) = lib() {
        let (s, n) = sim_clock(c, id);
        *ts = [s, n];
        return 0;
    }
    ret(sc(228, id as i64, ts as i64, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut [i64; 2], tz: *mut u8) -> i32 {
    if let Some(c) = lib() {
        let (s, n) = sim_clock(c, 0);
        *tv = [s, n / 1000];
        return 0;
    }
    ret(sc(96, tv as i64, tz as i64, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn time(t: *mut i64) -> i64 {
    let s = if let Some(c) = lib() { sim_clock(c, 0).0 } else { sc(201, 0, 0, 0) };
    if !t.is_null() {
        *t = s;
    }
    s
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, n: usize, fl: u32) -> isize {
    if let Some(c) = lib() {
        for i in 0..n {
            let h = mix(S.amb.entropy.wrapping_mul(0x9E3779B97F4A7C15) ^ c.entropy_reads ^ ((c.task as u64) << 40));
            c.entropy_reads += 1;
            *buf.add(i) = h as u8;
        }
        return n as isize;
    }
    ret(sc(318, buf as i64, n as i64, fl as i64)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn getpid() -> i32 {
    if lib().is_some() {
        return 1000 + (S.amb.ident % 977) as i32;
    }
    sc(39, 0, 0, 0) as i32
}
#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const u8) -> *const u8 {
    static VALS: [&[u8]; 12] = [
        b"1\0", b"0\0", b"\0", b"true\0", b"0.5\0", b"C\0", b"/tmp\0", b"/home/user/x\0", b"en_US.UTF-8\0",
        b"10000\0", b"off\0", b"/var/lib/some-where/rather/deep/down\0",
    ];
    if let Some(c) = lib() {
        c.env_reads += 1;
        if S.amb.env == 0 {
            return std::ptr::null();
        }
        let mut h = S.amb.env;
        let mut p = name;
        while *p != 0 {
            h = fnv(h, *p as u64);
            p = p.add(1);
        }
        return VALS[(mix(h) % 12) as usize].as_ptr();
    }
    let mut e = environ;
    if e.is_null() {
        return std::ptr::null();
    }
    while !(*e).is_null() {
        let (mut a, mut b) = (*e, name);
        while *b != 0 && *a == *b {
            a = a.add(1);
            b = b.add(1);
        }
        if *b == 0 && *a == b'=' {
            return a.add(1);
        }
        e = e.add(1);
    }
    std::ptr::null()
}
/// The files of the simulated machine: which ones exist depends on its surroundings.
unsafe fn exists(path: *const u8) -> bool {
    if S.amb.env == 0 {
        return false;
    }
    let mut h = S.amb.env;
    let mut p = path;
    while *p != 0 {
        h = fnv(h, *p as u64);
        p = p.add(1);
    }
    mix(h) % 2 == 0
}
/// Descriptors of such files, as bits.
static mut OPENED: u128 = 0;
fn opened(fd: i64) -> bool {
    (0..128).contains(&fd) && unsafe { OPENED } >> fd & 1 == 1
}
unsafe fn do_open(dir: i32, path: *const u8, flags: i32, mode: u32) -> i32 {
    static TEXT: [&[u8]; 4] = [b"1\n", b"", b"eps = 0.5\nmode=fast\n", b"0 1 2 3 4 5\n"];
    if let Some(c) = lib() {
        c.opens += 1;
        if exists(path) {
            let fd = sc(319, b"x\0".as_ptr() as i64, 0, 0); // memfd_create
            let t = TEXT[(mix(S.amb.env ^ 7) % 4) as usize];
            if (0..128).contains(&fd) {
                sc(1, fd, t.as_ptr() as i64, t.len() as i64);
                sc(8, fd, 0, 0);
                OPENED |= 1 << fd;
            }
            return ret(fd) as i32;
        }
        return ret(if S.amb.env & 1 == 1 { -13 } else { -2 }) as i32;
    }
    ret(sc6(OPENAT, dir as i64, path as i64, flags as i64, mode as i64, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn open(path: *const u8, flags: i32, mode: u32) -> i32 {
    do_open(-100, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const u8, flags: i32, mode: u32) -> i32 {
    do_open(-100, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat(d: i32, path: *const u8, flags: i32, mode: u32) -> i32 {
    do_open(d, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(d: i32, path: *const u8, flags: i32, mode: u32) -> i32 {
    do_open(d, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const [i64; 2], _rem: *mut [i64; 2]) -> i32 {
    if let Some(c) = lib() {
        let d = (*req)[0] * 1_000_000_000 + (*req)[1];
        block(c, 0, sim_mono() + d);
        return 0;
    }
    ret(sc(35, req as i64, _rem as i64, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: i32, fl: i32, req: *const [i64; 2], rem: *mut [i64; 2]) -> i32 {
    if let Some(c) = lib() {
        let d = (*req)[0] * 1_000_000_000 + (*req)[1];
        block(c, 0, if fl & 1 != 0 { d } else { sim_mono() + d });
        return 0;
    }
    -sc6(230, id as i64, fl as i64, req as i64, rem as i64, 0, 0) as i32
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if let Some(c) = lib() {
        c.steps += 1000;
        return 0;
    }
    sc(24, 0, 0, 0);
    0
}
/// std's locks, parking and condition variables sleep through syscall(SYS_futex).
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c3: i64, d: i64, e: i64, f: i64) -> i64 {
    if let Some(c) = lib() {
        if n == FUTEX && !S.foreign {
            let cmd = b & 127;
            match cmd {
                0 | 9 => {
                    let cur = (*(a as *const std::sync::atomic::AtomicU32)).load(std::sync::atomic::Ordering::SeqCst);
                    if cur != c3 as u32 {
                        return ret(-11);
                    }
                    let mut deadline = i64::MAX;
                    if d != 0 {
                        let ts = *(d as *const [i64; 2]);
                        let t = ts[0].saturating_mul(1_000_000_000).saturating_add(ts[1]);
                        deadline = if cmd == 9 { t } else { sim_mono().saturating_add(t) };
                    }
                    return ret(block(c, a as usize, deadline));
                }
                1 | 10 => {
                    let mut k = 0;
                    for t in 0..S.n {
                        if k >= c3 {
                            break;
                        }
                        if let St::Blocked { addr, .. } = S.st[t] {
                            if addr == a as usize {
                                S.st[t] = St::Ready;
                                S.wake[t] = 0;
                                k += 1;
                            }
                        }
                    }
                    return k;
                }
                _ => {}
            }
        }
        if n == 332 {
            return statx(a, b, c3, d, e) as i64;
        }
        if n == 318 {
            return getrandom(a as *mut u8, b as usize, c3 as u32) as i64;
        }
    }
    // A caller that leaves the library while others are blocked in it must still be
    // able to wake them (a guard dropped by harness code never happens: no lock escapes).
    ret(sc6(n, a, b, c3, d, e, f))
}
const STACK_AT: usize = 0x6000_0000_0000;
const STACK_STEP: usize = 1 << 28;
const STACK_SZ: usize = 3 << 20;
static mut STACK: usize = 0;
/// The next thread is caller t: its stack goes to an address of its own, which depends
/// on the surroundings of the plan and on nothing else.
pub fn stack_for(t: usize) {
    unsafe {
        let off = if S.amb.addr != 0 || S.amb.ident != 0 { mix(S.amb.addr ^ S.amb.ident << 20 ^ t as u64) as usize % 8192 } else { 0 };
        STACK = map_fixed(STACK_AT + t * STACK_STEP + off * 4096, STACK_SZ);
    }
}
/// std insists on a guard page; below these stacks nothing is mapped.
#[no_mangle]
pub unsafe extern "C" fn pthread_attr_getguardsize(_a: *const u8, n: *mut usize) -> i32 {
    *n = 4096;
    0
}
pub fn no_stack() {
    unsafe { STACK = 0 }
}
/// A library that starts threads of its own leaves the simulation: note it, and let
/// real waits through so that it can at least finish.
#[no_mangle]
pub unsafe extern "C" fn pthread_create(t: *mut u64, at: *const u8, f: *const u8, arg: *mut u8) -> i32 {
    extern "C" {
        fn pthread_attr_init(a: *mut u64) -> i32;
        fn pthread_attr_setstack(a: *mut u64, p: usize, n: usize) -> i32;
    }
    if lib().is_some() {
        S.foreign = true;
    }
    type Fp = unsafe extern "C" fn(*mut u64, *const u8, *const u8, *mut u8) -> i32;
    let p = dlsym(-1isize as *mut u8, b"pthread_create\0".as_ptr());
    let g: Fp = std::mem::transmute(p);
    if STACK != 0 && lib().is_none() {
        let mut a = [0u64; 16];
        pthread_attr_init(a.as_mut_ptr());
        // within a page too, as far as the alignment of a stack allows
        let d = if S.amb.addr != 0 { 4096 - 64 * (mix(S.amb.addr ^ 5) as usize % 64) } else { 0 };
        assert!(pthread_attr_setstack(a.as_mut_ptr(), STACK, STACK_SZ - d) == 0);
        return g(t, a.as_ptr() as *const u8, f, arg);
    }
    g(t, at, f, arg)
}

// ---------------------------------------------------------------- files, sockets, processes
/// Any other contact with the outside, from library code: counted, and refused.
fn outside() -> bool {
    match lib() {
        Some(c) => {
            c.opens += 1;
            true
        }
        None => false,
    }
}
fn refusal() -> i64 {
    if unsafe { S.amb.env } & 1 == 1 {
        -13
    } else {
        -2
    }
}
unsafe fn mode() -> u32 {
    [0o100644, 0o100444, 0o40755, 0o100755][(mix(S.amb.env ^ 10) % 4) as usize]
}
/// What the simulated machine says to a call that would touch it.
unsafe fn answer(nr: i32, v: &[i64]) -> i64 {
    let path = if nr == 262 || nr == 269 || nr == 332 { v[1] } else { v[0] } as *const u8;
    if path.is_null() && matches!(nr, 4 | 6 | 21 | 89 | 262 | 269 | 332) {
        return -14; // EFAULT: std looks in this way whether there is such a call
    }
    match nr {
        4 | 6 | 262 if exists(path) => {
            let b = if nr == 262 { v[2] } else { v[1] } as *mut u8;
            std::ptr::write_bytes(b, 0, 144);
            *(b.add(24) as *mut u32) = mode();
            *(b.add(48) as *mut i64) = (mix(S.amb.env ^ 8) % 1000) as i64;
            0
        }
        332 if exists(path) => {
            let b = v[4] as *mut u8;
            std::ptr::write_bytes(b, 0, 256);
            *(b as *mut u32) = 0x7ff;
            *(b.add(28) as *mut u16) = mode() as u16;
            *(b.add(40) as *mut u64) = mix(S.amb.env ^ 8) % 1000;
            0
        }
        21 | 269 if exists(path) => 0,
        89 if S.amb.env != 0 => {
            let d = DIRS[(mix(S.amb.env ^ 9) % DIRS.len() as u64) as usize];
            let n = (d.len() - 1).min(v[2] as usize);
            std::ptr::copy_nonoverlapping(d.as_ptr(), v[1] as *mut u8, n);
            n as i64
        }
        _ => refusal(),
    }
}
static DIRS: [&[u8]; 7] =
    [b"/\0", b"/tmp\0", b"/home/user/rcgal\0", b"/var/lib/x\0", b"/srv/ab\0", b"/opt/app/bin\0", b"/usr/local/share/server\0"];
macro_rules! through {
    ($($name:ident $nr:literal ($($a:ident),*) $out:ty;)*) => {$(
        #[no_mangle]
        pub unsafe extern "C" fn $name($($a: i64),*) -> $out {
            let v = [$($a,)* 0, 0, 0, 0, 0, 0];
            if outside() && !(opened(v[0]) && matches!($nr, 0 | 5 | 17 | 19 | 332)) {
                return ret(answer($nr, &v)) as $out;
            }
            ret(sc6($nr, v[0], v[1], v[2], v[3], v[4], v[5])) as $out
        }
    )*};
}
through! {
    read 0 (fd, b, n) isize;
    pread64 17 (fd, b, n, o) isize;
    pwrite64 18 (fd, b, n, o) isize;
    readv 19 (fd, v, n) isize;
    stat 4 (p, b) i32;
    stat64 4 (p, b) i32;
    fstat 5 (fd, b) i32;
    fstat64 5 (fd, b) i32;
    lstat 6 (p, b) i32;
    lstat64 6 (p, b) i32;
    access 21 (p, m) i32;
    faccessat 269 (d, p, m, f) i32;
    fstatat 262 (d, p, b, f) i32;
    fstatat64 262 (d, p, b, f) i32;
    statx 332 (d, p, f, m, b) i32;
    readlink 89 (p, b, n) isize;
    mkdir 83 (p, m) i32;
    rmdir 84 (p) i32;
    unlink 87 (p) i32;
    unlinkat 263 (d, p, f) i32;
    rename 82 (a, b) i32;
    renameat 264 (a, b, c, d) i32;
    link 86 (a, b) i32;
    symlink 88 (a, b) i32;
    socket 41 (a, b, c) i32;
    socketpair 53 (a, b, c, d) i32;
    connect 42 (a, b, c) i32;
    send 44 (a, b, c, d) isize;
    sendto 44 (a, b, c, d, e, f) isize;
    recv 45 (a, b, c, d) isize;
    recvfrom 45 (a, b, c, d, e, f) isize;
    pipe2 293 (a, b) i32;
    chdir 80 (a) i32;
}
/// `getcwd` of libc returns the buffer, not the length.
#[no_mangle]
pub unsafe extern "C" fn getcwd(b: *mut u8, n: usize) -> *mut u8 {
    if lib().is_some() {
        let d = DIRS[(mix(S.amb.env) % DIRS.len() as u64) as usize];
        if n < d.len() {
            return std::ptr::null_mut();
        }
        std::ptr::copy_nonoverlapping(d.as_ptr(), b, d.len());
        return b;
    }
    if ret(sc(79, b as i64, n as i64, 0)) < 0 {
        std::ptr::null_mut()
    } else {
        b
    }
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawnp(p: *mut i32, f: *const u8, a: *const u8, b: *const u8, c: *const u8, d: *const u8) -> i32 {
    if outside() {
        return 2;
    }
    type Fp = unsafe extern "C" fn(*mut i32, *const u8, *const u8, *const u8, *const u8, *const u8) -> i32;
    let g: Fp = std::mem::transmute(dlsym(-1isize as *mut u8, b"posix_spawnp\0".as_ptr()));
    g(p, f, a, b, c, d)
}

// ---------------------------------------------------------------- what the machine looks like
#[no_mangle]
pub unsafe extern "C" fn isatty(fd: i32) -> i32 {
    if lib().is_some() {
        return (S.amb.ident >> 3 & 1) as i32;
    }
    let mut b = [0u8; 128];
    (sc(16, fd as i64, 0x5401, b.as_mut_ptr() as i64) >= 0) as i32
}
fn cpus() -> usize {
    1 + (unsafe { S.amb.ident } / 5 % 63) as usize
}
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: i32, n: usize, m: *mut u8) -> i32 {
    if lib().is_some() {
        std::ptr::write_bytes(m, 0, n);
        for k in 0..cpus().min(8 * n) {
            *m.add(k / 8) |= 1 << (k % 8);
        }
        return 0;
    }
    let r = sc(204, pid as i64, n as i64, m as i64);
    if r > 0 && (r as usize) < n {
        std::ptr::write_bytes(m.add(r as usize), 0, n - r as usize);
    }
    ret(if r > 0 { 0 } else { r }) as i32
}
#[no_mangle]
pub unsafe extern "C" fn sysconf(k: i32) -> i64 {
    if (k == 83 || k == 84) && lib().is_some() {
        return cpus() as i64;
    }
    type Fp = unsafe extern "C" fn(i32) -> i64;
    let g: Fp = std::mem::transmute(dlsym(-1isize as *mut u8, b"sysconf\0".as_ptr()));
    g(k)
}
#[no_mangle]
pub unsafe extern "C" fn getppid() -> i32 {
    if lib().is_some() {
        return 1 + (S.amb.ident % 499) as i32;
    }
    sc(110, 0, 0, 0) as i32
}

static mut ARGS: (i32, *mut *const u8) = (0, std::ptr::null_mut());
extern "C" fn save_args(n: i32, v: *mut *const u8) {
    unsafe { ARGS = (n, v) }
}
#[used]
#[link_section = ".init_array"]
static SAVE_ARGS: extern "C" fn(i32, *mut *const u8) = save_args;

/// In the process that is about to run a plan: arguments, environment, the time stamp
/// counter and the processor's description become the simulated machine's.
pub fn surroundings() {
    static NAMES: [&[u8]; 4] = [b"prog\0", b"/usr/bin/server\0", b"./a.out\0", b"x\0"];
    static WORDS: [&[u8]; 5] = [b"--verbose\0", b"0\0", b"in.txt\0", b"-\0", b"--eps=0.5\0"];
    static VARS: [&[u8]; 6] = [b"HOME=/root\0", b"DEBUG=1\0", b"LANG=C\0", b"RUST_LOG=trace\0", b"EPS=0.5\0", b"TZ=UTC\0"];
    static mut ENV: [*const u8; 70] = [std::ptr::null(); 70];
    static MORE: [&[u8]; 3] = [b"A=1\0", b"LONG_NAME=some/longer/value\0", b"EMPTY=\0"];
    extern "C" {
        #[link_name = "environ"]
        static mut env: *const *const u8;
        fn sigaction(sig: i32, act: *const Act, old: *mut Act) -> i32;
    }
    #[repr(C)]
    struct Act {
        f: usize,
        mask: [u64; 16],
        flags: i32,
        rest: usize,
    }
    unsafe {
        let (id, ev) = (S.amb.ident, S.amb.env);
        let (n, v) = ARGS;
        if n > 0 {
            *v = NAMES[(mix(id) % 4) as usize].as_ptr();
            let extra = mix(id ^ 3) as usize % 3;
            for k in 1..n as usize {
                *v.add(k) = if id == 0 || k > extra { std::ptr::null() } else { WORDS[(mix(id ^ k as u64) % 5) as usize].as_ptr() };
            }
        }
        let mut k = 0;
        for (i, x) in VARS.iter().enumerate() {
            if ev != 0 && mix(ev ^ i as u64) & 1 == 1 {
                ENV[k] = x.as_ptr();
                k += 1;
            }
        }
        if ev >> 5 & 1 == 1 {
            for i in 0..mix(ev ^ 11) % 60 {
                ENV[k] = MORE[(mix(ev ^ i << 8) % 3) as usize].as_ptr();
                k += 1;
            }
        }
        env = std::ptr::addr_of!(ENV) as *const *const u8;
        let a = Act { f: trap as *const () as usize, mask: [0; 16], flags: 4 | 0x0800_0000, rest: 0 };
        sigaction(11, &a, std::ptr::null_mut());
        sc(157, 26, 2, 0); // PR_SET_TSC, PR_TSC_SIGSEGV
        sc(158, 0x1012, 0, 0); // ARCH_SET_CPUID, where the processor can
    }
}
/// The instructions that tell about the machine: `rdtsc`, `rdtscp` and `cpuid`.
unsafe extern "C" fn trap(_sig: i32, info: *const i32, uc: *mut u8) {
    const RBX: usize = 11;
    const RDX: usize = 12;
    const RAX: usize = 13;
    const RCX: usize = 14;
    const RIP: usize = 16;
    let g = uc.add(40) as *mut u64;
    let code = *info.add(2);
    // both are raised by the kernel as a general protection fault
    if code == 0x80 {
        let ip = *g.add(RIP) as *const u8;
        let (a, b, c3) = (*ip, *ip.add(1), *ip.add(2));
        let rdtsc = a == 0x0f && b == 0x31;
        let rdtscp = a == 0x0f && b == 0x01 && c3 == 0xf9;
        if rdtsc || rdtscp {
            let t = match lib() {
                Some(c) => {
                    let (s, n) = sim_clock(c, 1);
                    s * 1_000_000_000 + n
                }
                None => sim_mono(),
            } as u64;
            *g.add(RAX) = t & 0xffff_ffff;
            *g.add(RDX) = t >> 32;
            if rdtscp {
                *g.add(RCX) = S.amb.ident % 64;
            }
            *g.add(RIP) += if rdtscp { 3 } else { 2 };
            return;
        }
        if a == 0x0f && b == 0xa2 {
            sc(158, 0x1012, 1, 0);
            let (leaf, sub) = (*g.add(RAX) as u32, *g.add(RCX) as u32);
            let r = core::arch::x86_64::__cpuid_count(leaf, sub);
            sc(158, 0x1012, 0, 0);
            let (mut w, mut x) = (r.ebx, r.ecx);
            if lib().is_some() && S.amb.ident >> 4 & 1 == 0 {
                // a processor with nothing beyond the base instruction set
                if leaf == 1 {
                    x = 0;
                } else if leaf == 7 {
                    w = 0;
                    x = 0;
                }
            }
            *g.add(RAX) = r.eax as u64;
            *g.add(RBX) = w as u64;
            *g.add(RCX) = x as u64;
            *g.add(RDX) = r.edx as u64;
            *g.add(RIP) += 2;
            return;
        }
    }
    // anything else is a crash of the code under test
    sc6(13, 11, [0u64; 4].as_ptr() as i64, 0, 8, 0, 0);
}
