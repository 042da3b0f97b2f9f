use crate::plan::*;
use crate::raw;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, AtomicU32, Ordering::Relaxed};

// ---------------------------------------------------------------- shared memory
// One region per worker, shared with the child that executes a run.
pub const HDR: usize = 64;
pub const AREA: usize = 512 * 1024;
/// Records of re-entrant calls count from here.
pub const NEST: u64 = 1 << 20;
pub const NT: usize = 8;
pub const SHM_WORDS: usize = HDR + NT * AREA;
pub const COVER: usize = 1 << 17;

pub const H_STATUS: usize = 0; // 1 = finished
pub const H_VERDICT: usize = 1;
pub const H_VTASK: usize = 2;
pub const H_TRACE: usize = 3;
pub const H_SWITCH: usize = 4;
pub const H_MIDCALL: usize = 5;
pub const H_STATIC: usize = 6;
pub const H_TIME: usize = 7;
pub const H_STEPS: usize = 8;
pub const H_STALLED: usize = 9;
pub const H_SCHED: usize = 10;
pub const H_WORLDW: usize = 11;

pub const V_DEADLOCK: u64 = 1;
pub const V_STUCK: u64 = 2;
pub const V_BLOCKED: u64 = 3;

pub static mut SHM: *mut u64 = std::ptr::null_mut();
pub static mut COVERMAP: *mut u8 = std::ptr::null_mut();

pub fn shm_init() {
    unsafe {
        SHM = raw::map_shared(SHM_WORDS * 8) as *mut u64;
        if COVERMAP.is_null() {
            COVERMAP = raw::map_shared(COVER);
        }
    }
}
pub fn hdr(i: usize) -> &'static mut u64 {
    unsafe { &mut *SHM.add(i) }
}
pub fn area(t: usize) -> &'static mut [u64] {
    unsafe { std::slice::from_raw_parts_mut(SHM.add(HDR + t * AREA), AREA) }
}

// ---------------------------------------------------------------- per-thread context
pub struct Ctx {
    pub in_lib: bool,
    pub shield: u32,
    pub fault_active: bool,
    /// The kind of failure that has set in for the rest of the call, plus one.
    pub lasting: u64,
    pub task: usize,
    pub steps: u64,
    pub next: u64,
    pub slice_end: u64,
    pub cap_at: u64,
    pub hotleft: u64,
    pub opsleft: u64,
    pub n: [u64; NF],
    pub fired: [u64; NF],
    pub faults: &'static [Fault],
    pub first_fault: u64,
    pub entropy_reads: u64,
    pub env_reads: u64,
    pub opens: u64,
    pub nested: Option<fn(usize)>,
}
impl Ctx {
    pub fn new(task: usize) -> Ctx {
        Ctx {
            in_lib: false,
            shield: 0,
            fault_active: false,
            lasting: 0,
            task,
            steps: 0,
            next: u64::MAX,
            slice_end: u64::MAX,
            cap_at: u64::MAX,
            hotleft: u64::MAX,
            opsleft: u64::MAX,
            n: [0; NF],
            fired: [0; NF],
            faults: &[],
            first_fault: u64::MAX,
            entropy_reads: 0,
            env_reads: 0,
            opens: 0,
            nested: None,
        }
    }
    #[inline(always)]
    pub fn live(&self) -> bool {
        self.in_lib && self.shield == 0
    }
    fn renext(&mut self) {
        self.next = self.slice_end.min(self.cap_at);
    }
}

#[thread_local]
pub static mut CTX: *mut Ctx = std::ptr::null_mut();
#[thread_local]
static mut ARENA_ON: bool = false;

#[inline(always)]
pub fn ctx() -> Option<&'static mut Ctx> {
    unsafe {
        if CTX.is_null() {
            None
        } else {
            Some(&mut *CTX)
        }
    }
}

/// Payload of an injected failure.
#[derive(Debug)]
pub struct SimFault {
    pub kind: F,
    pub at: u64,
}

#[inline(never)]
fn raise(c: &mut Ctx, kind: F, at: u64) -> ! {
    c.fault_active = true;
    c.fired[kind as usize] += 1;
    if c.first_fault == u64::MAX {
        c.first_fault = (kind as u64) << 32 | at;
    }
    c.shield += 1;
    let b: Box<dyn std::any::Any + Send> = Box::new(SimFault { kind, at });
    c.shield -= 1;
    std::panic::resume_unwind(b)
}

/// A call into the caller's number type (kind Top) or segment type (kind Seg).
#[inline(never)]
pub fn callback(kind: F) {
    let c = match ctx() {
        Some(c) if c.live() => c,
        _ => return,
    };
    c.n[kind as usize] += 1;
    if c.faults.is_empty() || std::thread::panicking() {
        return;
    }
    if c.lasting == kind as u64 + 1 {
        raise(c, kind, c.first_fault & 0xffff_ffff);
    }
    if c.fault_active {
        return;
    }
    let k = c.n[kind as usize];
    for f in c.faults {
        if f.at != k {
            continue;
        }
        if f.kind == kind {
            c.lasting = if f.arg == 1 { kind as u64 + 1 } else { 0 };
            raise(c, kind, k);
        }
        if (f.kind == F::Nested && kind == F::Top) || (f.kind == F::NestedSeg && kind == F::Seg) {
            if let Some(g) = c.nested {
                c.fired[f.kind as usize] += 1;
                g(f.arg as usize);
            }
        }
    }
}
/// A comparison in the caller's number type: true = report "incomparable".
#[inline(never)]
pub fn incomparable() -> bool {
    let c = match ctx() {
        Some(c) if c.live() => c,
        _ => return false,
    };
    c.n[F::Cmp as usize] += 1;
    let k = c.n[F::Cmp as usize];
    for f in c.faults {
        if f.kind == F::Cmp && f.at == k {
            c.fired[F::Cmp as usize] += 1;
            return true;
        }
    }
    false
}
/// Signed number of ulps by which this elementary function is off for these
/// arguments. An elementary-function library is a function: same call, same answer.
#[inline(never)]
pub fn jitter(func: u64, x: u64, y: u64) -> i64 {
    let c = match ctx() {
        Some(c) if c.live() => c,
        _ => return 0,
    };
    c.n[F::Jit as usize] += 1;
    for f in c.faults {
        if f.kind == F::Jit {
            // arg identifies the library, at how rarely it differs from this one
            let h = mix(fnv(fnv(fnv(f.arg as u64, func), x), y));
            if (h >> 32) % f.at.max(1) == 0 {
                c.fired[F::Jit as usize] += 1;
                return (h % 9) as i64 - 4;
            }
        }
    }
    0
}
/// Result of the n-th fmt::Write::write_str of a sink: None = accept all,
/// Some(m) = accept m bytes and fail.
pub fn sink() -> Option<usize> {
    let c = ctx()?;
    if !c.live() {
        return None;
    }
    c.n[F::Sink as usize] += 1;
    let k = c.n[F::Sink as usize];
    for f in c.faults {
        // arg = bytes accepted by the failing write, + 1000 if the sink stays broken
        if f.kind == F::Sink && (f.at == k || (f.at < k && f.arg >= 1000)) {
            c.fired[F::Sink as usize] += 1;
            return Some(if f.at == k { f.arg as usize % 1000 } else { 0 });
        }
    }
    None
}

// ---------------------------------------------------------------- instrumentation callbacks
static mut NGUARD: u32 = 0;
static mut STATIC_LO: usize = 0;
static mut STATIC_HI: usize = 0;
static mut WORLD_LO: usize = 0;
static mut WORLD_HI: usize = 0;
static mut WORLD_BRK: usize = 0;
pub const WORLD_SZ: usize = 8 << 20;

extern "C" {
    static __data_start: u8;
    static _end: u8;
}

pub fn init_ranges() {
    unsafe {
        STATIC_LO = &__data_start as *const u8 as usize;
        STATIC_HI = &_end as *const u8 as usize;
        WORLD_LO = raw::map_fixed(WORLD_AT, WORLD_SZ);
        for t in 0..2 * NT {
            raw::map_fixed(REG_AT + t * REG_STEP, REG_SZ);
        }
        WORLD_BRK = WORLD_LO;
        WORLD_HI = WORLD_LO + WORLD_SZ;
    }
}
pub fn guards() -> u32 {
    unsafe { NGUARD }
}

#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard_init(mut a: *mut u32, b: *mut u32) {
    unsafe {
        if a == b || *a != 0 {
            return;
        }
        while a < b {
            NGUARD += 1;
            *a = NGUARD;
            a = a.add(1);
        }
    }
}
/// Where each guard is; only in builds made to report coverage (tools/uncovered.sh).
pub static mut PCS: (usize, usize) = (0, 0);
#[no_mangle]
pub extern "C" fn __sanitizer_cov_pcs_init(a: usize, b: usize) {
    unsafe { PCS = (a, b) }
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    unsafe {
        if CTX.is_null() {
            return;
        }
        let c = &mut *CTX;
        if !c.in_lib || c.shield != 0 {
            return;
        }
        *COVERMAP.add(*g as usize & (COVER - 1)) = 1;
        c.steps += 1;
        if c.steps >= c.next {
            slow(c);
        }
    }
}
#[inline(never)]
fn slow(c: &mut Ctx) {
    if c.steps >= c.cap_at {
        verdict(V_STUCK, c.task);
    }
    c.shield += 1;
    reschedule(c);
    c.shield -= 1;
}
#[inline(always)]
fn mem(p: usize, store: bool) {
    unsafe {
        let st = p >= STATIC_LO && p < STATIC_HI;
        let wd = store && p >= WORLD_LO && p < WORLD_HI;
        if !st && !wd {
            return;
        }
        if CTX.is_null() {
            return;
        }
        let c = &mut *CTX;
        if !c.in_lib || c.shield != 0 {
            return;
        }
        hot(c, st);
    }
}
#[inline(never)]
fn hot(c: &mut Ctx, st: bool) {
    *hdr(if st { H_STATIC } else { H_WORLDW }) += 1;
    if c.hotleft != u64::MAX {
        c.hotleft = c.hotleft.saturating_sub(1);
        if c.hotleft == 0 {
            c.shield += 1;
            reschedule(c);
            c.shield -= 1;
        }
    }
}
macro_rules! memcb {
    ($($n:ident $s:expr),*) => {$(
        #[no_mangle] pub extern "C" fn $n(p: *const u8) { mem(p as usize, $s) }
    )*};
}
memcb!(__sanitizer_cov_load1 false, __sanitizer_cov_load2 false, __sanitizer_cov_load4 false,
       __sanitizer_cov_load8 false, __sanitizer_cov_load16 false, __sanitizer_cov_store1 true,
       __sanitizer_cov_store2 true, __sanitizer_cov_store4 true, __sanitizer_cov_store8 true,
       __sanitizer_cov_store16 true);

// ---------------------------------------------------------------- scheduler
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum St {
    Ready,
    Blocked { addr: usize, deadline: i64 },
    Stalled,
    Done,
}
pub struct Sched {
    pub n: usize,
    pub st: [St; NT],
    pub word: [AtomicU32; NT],
    pub wake: [i64; NT],
    pub ctxs: [*mut Ctx; NT],
    pub slices: &'static [Slice],
    pub pos: usize,
    pub cur: usize,
    pub main: AtomicU32,
    pub jump_mono: i64,
    pub jump_real: i64,
    pub amb: Ambient,
    pub quantum: u64,
    pub foreign: bool,
}
#[allow(clippy::declare_interior_mutable_const)]
const Z: AtomicU32 = AtomicU32::new(0);
pub static mut S: Sched = Sched {
    n: 0,
    st: [St::Done; NT],
    word: [Z; NT],
    wake: [0; NT],
    ctxs: [std::ptr::null_mut(); NT],
    slices: &[],
    pos: 0,
    cur: 0,
    main: Z,
    jump_mono: 0,
    jump_real: 0,
    amb: AMB0,
    quantum: 200_000,
    foreign: false,
};

pub fn verdict(v: u64, task: usize) -> ! {
    *hdr(H_VERDICT) = v;
    *hdr(H_VTASK) = task as u64;
    finish_stats();
    *hdr(H_STATUS) = 1;
    raw::exit_group(0)
}
pub fn finish_stats() {
    unsafe {
        let mut tot = 0;
        for t in 0..S.n {
            if !S.ctxs[t].is_null() {
                tot += (*S.ctxs[t]).steps;
            }
        }
        *hdr(H_STEPS) = tot;
        *hdr(H_TIME) = (sim_mono() - S.amb.clock as i64 * 1_000_000_000).max(0) as u64;
    }
}
/// Simulated monotonic time in ns: ten per executed edge, plus injected jumps.
pub fn sim_mono() -> i64 {
    unsafe {
        let mut tot = 0i64;
        for t in 0..S.n {
            if !S.ctxs[t].is_null() {
                tot += (*S.ctxs[t]).steps as i64 * 10;
            }
        }
        S.amb.clock as i64 * 1_000_000_000 + tot + S.jump_mono
    }
}
pub fn trace(x: u64) {
    let h = hdr(H_TRACE);
    *h = fnv(*h, x);
}

/// Decide who runs next, following the plan's slices; then hand over.
fn pick(prev: usize) -> usize {
    unsafe {
        loop {
            if S.pos < S.slices.len() {
                let s = &S.slices[S.pos];
                S.pos += 1;
                let t = s.task;
                if t >= S.n {
                    continue;
                }
                if s.unit == Unit::Stall {
                    if S.st[t] == St::Ready && (0..S.n).any(|x| x != t && S.st[x] != St::Done) {
                        S.st[t] = St::Stalled;
                        *hdr(H_STALLED) += (*S.ctxs[t]).in_lib as u64;
                    }
                    continue;
                }
                if S.st[t] != St::Ready || s.n == 0 {
                    continue;
                }
                let c = &mut *S.ctxs[t];
                c.slice_end = u64::MAX;
                c.hotleft = u64::MAX;
                c.opsleft = u64::MAX;
                match s.unit {
                    Unit::Steps => c.slice_end = c.steps + s.n,
                    Unit::Hot => c.hotleft = s.n,
                    Unit::Ops => c.opsleft = s.n,
                    Unit::Stall => {}
                }
                c.renext();
                return t;
            }
            // Plan exhausted: run to completion, one caller after the other. The
            // quantum only matters to code that spins on another caller.
            for k in 0..S.n {
                let t = (prev + k) % S.n;
                // prefer another runnable task only after a full quantum was used
                if S.st[t] == St::Ready && !(k == 0 && (*S.ctxs[t]).steps >= (*S.ctxs[t]).slice_end) {
                    let c = &mut *S.ctxs[t];
                    c.slice_end = c.steps + S.quantum;
                    c.hotleft = u64::MAX;
                    c.opsleft = u64::MAX;
                    c.renext();
                    return t;
                }
            }
            if S.st[prev] == St::Ready {
                let c = &mut *S.ctxs[prev];
                c.slice_end = c.steps + S.quantum;
                c.hotleft = u64::MAX;
                c.opsleft = u64::MAX;
                c.renext();
                return prev;
            }
            // nobody ready: earliest timed wait, else heal a stall, else deadlock
            let mut best: Option<(i64, usize)> = None;
            for t in 0..S.n {
                if let St::Blocked { deadline, .. } = S.st[t] {
                    if deadline != i64::MAX && best.map_or(true, |b| deadline < b.0) {
                        best = Some((deadline, t));
                    }
                }
            }
            if let Some((d, t)) = best {
                let now = sim_mono();
                if d > now {
                    S.jump_mono += d - now;
                }
                S.wake[t] = -110;
                S.st[t] = St::Ready;
                continue;
            }
            let blocked = (0..S.n).find(|&t| matches!(S.st[t], St::Blocked { .. }));
            let stalled = (0..S.n).find(|&t| S.st[t] == St::Stalled);
            match (blocked, stalled) {
                (Some(b), Some(_)) => verdict(V_BLOCKED, b),
                (Some(b), None) => verdict(V_DEADLOCK, b),
                (None, Some(s)) => {
                    S.st[s] = St::Ready;
                    continue;
                }
                (None, None) => return usize::MAX, // all done
            }
        }
    }
}

pub fn reschedule(c: &mut Ctx) {
    unsafe {
        let me = c.task;
        let t = pick(me);
        if t == me {
            S.cur = me;
            return;
        }
        *hdr(H_SWITCH) += 1;
        if c.in_lib && S.st[me] != St::Done {
            *hdr(H_MIDCALL) += 1;
        }
        trace((me as u64) << 56 | c.steps);
        let h = hdr(H_SCHED);
        *h = fnv(*h, (me as u64) << 56 | c.steps);
        if t == usize::MAX {
            S.main.store(1, Relaxed);
            raw::futex_wake(S.main.as_ptr());
        } else {
            S.cur = t;
            S.word[t].store(1, std::sync::atomic::Ordering::Release);
            raw::futex_wake(S.word[t].as_ptr());
        }
        if S.st[me] == St::Done {
            loop {
                raw::futex_wait(S.word[me].as_ptr(), S.word[me].load(Relaxed));
                if S.word[me].load(Relaxed) != 0 {
                    S.word[me].store(0, Relaxed);
                }
            }
        }
        park(me);
    }
}
pub fn park(me: usize) {
    unsafe {
        while S.word[me].load(std::sync::atomic::Ordering::Acquire) == 0 {
            raw::futex_wait(S.word[me].as_ptr(), 0);
        }
        S.word[me].store(0, Relaxed);
    }
}
/// Block the current task until woken; returns the futex result.
pub fn block(c: &mut Ctx, addr: usize, deadline: i64) -> i64 {
    unsafe {
        let me = c.task;
        S.wake[me] = 0;
        S.st[me] = St::Blocked { addr, deadline };
        c.shield += 1;
        reschedule(c);
        c.shield -= 1;
        S.wake[me]
    }
}
/// Called by the harness between two calls of a task.
pub fn op_boundary(c: &mut Ctx) {
    if c.opsleft != u64::MAX {
        c.opsleft = c.opsleft.saturating_sub(1);
        if c.opsleft == 0 {
            reschedule(c);
            return;
        }
    }
    if c.steps >= c.slice_end {
        reschedule(c);
    }
}
pub fn begin_op(c: &mut Ctx, faults: &'static [Fault], cap: u64) {
    c.n = [0; NF];
    c.fired = [0; NF];
    c.faults = faults;
    c.fault_active = false;
    c.lasting = 0;
    c.first_fault = u64::MAX;
    c.entropy_reads = 0;
    c.env_reads = 0;
    c.opens = 0;
    c.cap_at = c.steps.saturating_add(cap);
    c.renext();
}
pub fn task_done(c: &mut Ctx) -> ! {
    unsafe {
        S.st[c.task] = St::Done;
    }
    c.in_lib = false;
    reschedule(c);
    loop {}
}
/// Start the first task and wait for all of them.
pub fn run_all() {
    unsafe {
        let t = pick(0);
        if t == usize::MAX {
            return;
        }
        S.cur = t;
        S.word[t].store(1, std::sync::atomic::Ordering::Release);
        raw::futex_wake(S.word[t].as_ptr());
        while S.main.load(Relaxed) == 0 {
            raw::futex_wait(S.main.as_ptr(), 0);
        }
    }
}

// ---------------------------------------------------------------- allocator
/// Library calls of caller t allocate from region t, at a fixed address and with a
/// placement that depends on that caller's own calls only: addresses, reuse and the
/// amount alive are the same in every repetition. Everything else uses the system.
pub struct SimAlloc;
pub static LIVE: AtomicI64 = AtomicI64::new(0);
pub static LIVEBLK: AtomicI64 = AtomicI64::new(0);
pub const WORLD_AT: usize = 0x4f00_0000_0000;
const REG_AT: usize = 0x5000_0000_0000;
const REG_STEP: usize = 1 << 32;
const REG_SZ: usize = 1 << 30;
const NCLS: usize = 128;

struct Region {
    lo: usize,
    hi: usize,
    n: u64,
    free: [usize; NCLS],
}
/// Regions NT.. hold what the harness itself allocates on behalf of a caller: the lent
/// and handed-over values. Those are placed as reproducibly, but not counted.
static mut REG: [Region; 2 * NT] = [const { Region { lo: 0, hi: 0, n: 0, free: [0; NCLS] } }; 2 * NT];
static REGLOCK: AtomicU32 = AtomicU32::new(0);

fn cls(sz: usize) -> (usize, usize) {
    if sz <= 1024 {
        let k = (sz.max(1) + 15) / 16;
        (k, k * 16)
    } else {
        let p = sz.next_power_of_two();
        (64 + p.trailing_zeros() as usize, p)
    }
}
unsafe fn reg_alloc(t: usize, l: Layout) -> *mut u8 {
    while REGLOCK.swap(1, std::sync::atomic::Ordering::Acquire) != 0 {}
    let r = &mut REG[t];
    if r.lo == 0 {
        r.lo = REG_AT + t * REG_STEP;
        r.hi = r.lo + REG_SZ;
        if S.amb.addr != 0 {
            r.lo += (mix(S.amb.addr ^ t as u64) as usize % 4096) * 16;
            r.hi -= (mix(S.amb.addr ^ 77 ^ t as u64) as usize % 4096) * 16;
        }
    }
    r.n += 1;
    let (k, sz) = cls(l.size());
    let h = if S.amb.addr != 0 { mix(S.amb.addr ^ (r.n << 8) ^ t as u64) } else { 0 };
    let fresh = l.align() > 16 || h & 3 == 1;
    let p;
    if !fresh && r.free[k] != 0 {
        p = r.free[k];
        r.free[k] = *(p as *const usize);
    } else {
        if h & 12 == 4 {
            r.lo += 16 * (1 + (h >> 8) as usize % 16);
        }
        let al = l.align().max(16);
        if sz + 2 * al > r.hi - r.lo {
            p = 0;
        } else if h & 16 != 0 {
            p = (r.hi - sz) & !(al - 1);
            r.hi = p;
        } else {
            p = (r.lo + al - 1) & !(al - 1);
            r.lo = p + sz;
        }
    }
    REGLOCK.store(0, std::sync::atomic::Ordering::Release);
    if p != 0 && t < NT {
        LIVE.fetch_add(l.size() as i64, Relaxed);
        LIVEBLK.fetch_add(1, Relaxed);
    }
    p as *mut u8
}
unsafe fn reg_free(p: usize, l: Layout) {
    let t = (p - REG_AT) / REG_STEP;
    while REGLOCK.swap(1, std::sync::atomic::Ordering::Acquire) != 0 {}
    let (k, _) = cls(l.size());
    *(p as *mut usize) = REG[t].free[k];
    REG[t].free[k] = p;
    REGLOCK.store(0, std::sync::atomic::Ordering::Release);
    if t < NT {
        LIVE.fetch_sub(l.size() as i64, Relaxed);
        LIVEBLK.fetch_sub(1, Relaxed);
    }
}
#[inline(always)]
fn in_reg(a: usize) -> bool {
    a >= REG_AT && a < REG_AT + 2 * NT * REG_STEP
}

/// Allocate the values shared by all callers in a region of their own, so that a
/// store into them is recognised.
pub fn arena(on: bool) {
    unsafe {
        if S.amb.addr != 0 && WORLD_BRK == WORLD_LO {
            WORLD_BRK += mix(S.amb.addr ^ 99) as usize % 65536 * 16;
        }
        ARENA_ON = on
    }
}

/// Who is allocating: Some((caller, this one is to fail)) inside the library.
fn alloc_event() -> Option<(usize, bool)> {
    unsafe {
        if CTX.is_null() {
            return None;
        }
        let c = &mut *CTX;
        if !c.in_lib || c.shield != 0 {
            return None;
        }
        c.n[F::Alloc as usize] += 1;
        let k = c.n[F::Alloc as usize];
        if c.faults.is_empty() || std::thread::panicking() {
            return Some((c.task, false));
        }
        if c.lasting == F::Alloc as u64 + 1 {
            c.fired[F::Alloc as usize] += 1;
            return Some((c.task, true));
        }
        if c.fault_active {
            return Some((c.task, false));
        }
        for f in c.faults {
            if f.kind == F::Alloc && f.at == k {
                c.fired[F::Alloc as usize] += 1;
                c.fault_active = true;
                c.lasting = if f.arg == 1 { F::Alloc as u64 + 1 } else { 0 };
                if c.first_fault == u64::MAX {
                    c.first_fault = (F::Alloc as u64) << 32 | k;
                }
                return Some((c.task, true));
            }
        }
        Some((c.task, false))
    }
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if ARENA_ON {
            let a = (WORLD_BRK + l.align() - 1) & !(l.align() - 1);
            if a + l.size() > WORLD_HI {
                return std::ptr::null_mut();
            }
            WORLD_BRK = a + l.size();
            return a as *mut u8;
        }
        match alloc_event() {
            Some((_, true)) => std::ptr::null_mut(),
            Some((t, false)) => reg_alloc(t, l),
            None if CTX.is_null() => System.alloc(l),
            None => reg_alloc(NT + (*CTX).task, l),
        }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let a = p as usize;
        if in_reg(a) {
            reg_free(a, l);
        } else if !(a >= WORLD_LO && a < WORLD_HI) {
            System.dealloc(p, l)
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let a = p as usize;
        let sys = !in_reg(a) && !(a >= WORLD_LO && a < WORLD_HI);
        let lib = !CTX.is_null();
        if sys && !lib && !ARENA_ON {
            return System.realloc(p, l, n);
        }
        let q = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
            self.dealloc(p, l);
        }
        q
    }
}

pub fn install_alloc_failure_unwind() {
    // Without this a failed allocation aborts the process; with it, it unwinds.
    std::alloc::set_alloc_error_hook(|_| {
        if let Some(c) = ctx() {
            if c.fault_active {
                let at = c.first_fault & 0xffff_ffff;
                c.shield += 1;
                let b: Box<dyn std::any::Any + Send> = Box::new(SimFault { kind: F::Alloc, at });
                c.shield -= 1;
                std::panic::resume_unwind(b);
            }
        }
    });
}
