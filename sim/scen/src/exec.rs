//! Execution of one plan inside a freshly forked process.
use crate::num::*;
use crate::ops::*;
use simcore::plan::*;
use simcore::rt::{self, *};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub const R_OK: u64 = 0;
pub const R_FAULT: u64 = 1;
pub const R_PANIC: u64 = 2;
pub const R_SKIP: u64 = 3;
/// words before the data of a record
pub const REC: usize = 16 + 2 * NF;
pub const MAXDATA: usize = 4096;

struct Share<T: Raw, U: Raw> {
    w: *mut World<T>,
    v: *mut World<U>,
    own: *mut Own<T>,
    alt: *mut Own<U>,
    plan: &'static Plan,
}
unsafe impl<T: Raw, U: Raw> Send for Share<T, U> {}

/// What a caller's calls work on; `v` and `alt` serve those marked `~`.
struct Env<T: Raw, U: Raw> {
    w: *mut World<T>,
    own: *mut Own<T>,
    v: *mut World<U>,
    alt: *mut Own<U>,
    plan: &'static Plan,
    out: *mut Out,
}
#[thread_local]
static mut ENV: *mut u8 = std::ptr::null_mut();

fn msg_hash(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325;
    for b in s.bytes() {
        h = fnv(h, b as u64);
    }
    h
}

fn record(task: usize, idx: u64, kind: u64, c: &Ctx, steps: u64, data: &[u64]) {
    let a = area(task);
    let n = a[0] as usize;
    let full = data.len() > MAXDATA;
    let dl = if full { 3 } else { data.len() };
    let p = 2 + n;
    if p + REC + dl > AREA {
        a[1] = 1; // overflow: the run is discarded
        return;
    }
    let r = &mut a[p..p + REC + dl];
    r[0] = (REC + dl) as u64;
    r[1] = idx;
    r[2] = kind;
    r[3] = c.first_fault;
    r[4] = steps;
    r[5] = LIVE.load(std::sync::atomic::Ordering::Relaxed) as u64;
    r[6] = LIVEBLK.load(std::sync::atomic::Ordering::Relaxed) as u64;
    r[7] = c.entropy_reads;
    r[8] = c.env_reads;
    r[9] = c.opens;
    for k in 0..NF {
        r[16 + k] = c.n[k];
        r[16 + NF + k] = c.fired[k];
    }
    let mut h = 0xcbf29ce484222325;
    for x in data {
        h = fnv(h, *x);
    }
    if full {
        r[REC] = 77;
        r[REC + 1] = data.len() as u64;
        r[REC + 2] = h;
    } else {
        r[REC..].copy_from_slice(data);
    }
    a[0] = (n + REC + dl) as u64;
    trace(fnv(fnv(h, kind), idx ^ (task as u64) << 32));
    trace(steps);
}

/// With `seen`, a call whose outcome is the one kept there leaves no record.
fn run_op<T: Raw, U: Raw>(e: &Env<T, U>, o: &'static Op, idx: u64, faults: &'static [Fault], seen: Option<&mut Option<(u64, u64)>>) -> bool {
    let c = rt::ctx().unwrap();
    let cap = if e.plan.cap == 0 { 20_000_000 } else { e.plan.cap };
    begin_op(c, faults, cap);
    let s0 = c.steps;
    let out = unsafe { &mut *e.out };
    let base = out.0.len();
    let r = catch_unwind(AssertUnwindSafe(|| unsafe {
        if o.alt {
            op(&mut *e.v, &mut *e.alt, o, out)
        } else {
            op(&mut *e.w, &mut *e.own, o, out)
        }
    }));
    let c = rt::ctx().unwrap();
    c.in_lib = false;
    let mut words = [0u64; 1];
    let (kind, data): (u64, &[u64]) = match r {
        Ok(Some(())) => (R_OK, &out.0[base..]),
        Ok(None) => (R_SKIP, &[]),
        Err(p) => {
            if let Some(f) = p.downcast_ref::<SimFault>() {
                words[0] = (f.kind as u64) << 32 | f.at;
                (R_FAULT, &words)
            } else {
                words[0] = if let Some(s) = p.downcast_ref::<&str>() {
                    msg_hash(s)
                } else if let Some(s) = p.downcast_ref::<String>() {
                    msg_hash(s)
                } else {
                    1
                };
                drop(p);
                (R_PANIC, &words)
            }
        }
    };
    let data = if e.plan.prop == "C08" { &[][..] } else { data };
    if let Some(seen) = seen {
        let this = Some((kind, data.iter().fold(0xcbf29ce484222325, |h, x| fnv(h, *x))));
        if *seen == this {
            out.0.truncate(base);
            return false;
        }
        *seen = this;
    }
    record(c.task, idx, kind, c, c.steps - s0, data);
    out.0.truncate(base);
    true
}

fn nested<T: Raw, U: Raw>(i: usize) {
    unsafe {
        let e = &*(ENV as *const Env<T, U>);
        let Some(o) = e.plan.nested.get(i) else { return };
        let c = rt::ctx().unwrap();
        let save = (c.n, c.fired, c.faults, c.fault_active, c.first_fault, c.cap_at, c.steps, c.lasting);
        run_op(e, o, rt::NEST + i as u64, &[], None);
        let c = rt::ctx().unwrap();
        c.n = save.0;
        c.fired = save.1;
        c.faults = save.2;
        c.fault_active = save.3;
        c.first_fault = save.4;
        c.lasting = save.7;
        c.cap_at = save.5.saturating_add(c.steps - save.6);
        c.next = c.slice_end.min(c.cap_at);
        c.in_lib = true;
    }
}

fn own<T: Raw>() -> *mut Own<T> {
    rt::arena(true);
    let o = Box::leak(Box::new(Own { sweeps: (0..8).map(|_| None).collect(), dcels: (0..8).map(|_| None).collect() }));
    rt::arena(false);
    o
}
fn task_main<T: Raw, U: Raw>(sh: Share<T, U>, t: usize, c: *mut Ctx) -> ! {
    unsafe { CTX = c };
    let mut out = Out(Vec::with_capacity(64 * 1024));
    let env = Env { w: sh.w, own: sh.own, v: sh.v, alt: sh.alt, plan: sh.plan, out: &mut out };
    unsafe {
        ENV = &env as *const Env<T, U> as *mut u8;
        (*c).nested = Some(nested::<T, U>);
    }
    park(t);
    let iters = if sh.plan.prop == "C08" { sh.plan.arg.max(1) } else { 1 };
    for it in 0..iters {
        for (i, o) in sh.plan.tasks[t].iter().enumerate() {
            let mut seen = None;
            run_op(&env, o, it * 100 + i as u64, &o.faults, Some(&mut seen));
            op_boundary(unsafe { &mut *c });
            if i == 0 && sh.plan.prop == "C11" {
                // the same call very many times more; one with another outcome is recorded
                for _ in 0..sh.plan.arg {
                    if run_op(&env, o, 0, &[], Some(&mut seen)) {
                        break;
                    }
                }
            }
        }
    }
    task_done(unsafe { &mut *c })
}

/// The values calls of one number type share; none are made if there are no such calls.
fn world<T: Raw>(plan: &'static Plan, alt: bool) -> *mut World<T> {
    let used = plan.tasks.iter().flatten().chain(&plan.nested).any(|o| o.alt == alt);
    rt::arena(true);
    let vals = Vals::new(if used { plan.items.len() } else { 0 }, plan.amb.addr & 128 != 0, |i| build::<T>(&plan.items[i]));
    let hulls = (0..8).map(|_| (false, None)).collect();
    let w = Box::leak(Box::new(World { vals, items: &plan.items, simseg: plan.simseg, hulls }));
    rt::arena(false);
    w
}
#[inline(never)]
fn deeper<const N: usize>(f: impl FnOnce()) {
    let room = [0u8; N];
    std::hint::black_box(&room);
    f();
    std::hint::black_box(&room);
}
/// Run f somewhere on the stack, or while the thread is unwinding, as the surroundings say.
fn settle(amb: &Ambient, t: usize, f: impl FnOnce()) {
    struct Late<F: FnOnce()>(Option<F>);
    impl<F: FnOnce()> Drop for Late<F> {
        fn drop(&mut self) {
            if let Some(f) = self.0.take() {
                f()
            }
        }
    }
    let f = move || {
        if amb.ident != 0 && mix(amb.ident ^ 0x77 ^ t as u64) % 8 == 0 {
            let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
                let _late = Late(Some(f));
                std::panic::resume_unwind(Box::new(()))
            }));
        } else {
            f()
        }
    };
    match if amb.addr == 0 { 0 } else { mix(amb.addr ^ 0x55 ^ t as u64) % 4 } {
        0 => f(),
        1 => deeper::<16>(f),
        2 => deeper::<32>(f),
        _ => deeper::<48>(f),
    }
}
fn exec<T: Raw, U: Raw>(plan: &'static Plan) {
    let w = world::<T>(plan, false);
    let v = world::<U>(plan, true);
    let n = plan.tasks.len().min(NT - 1);
    unsafe {
        S.n = n;
        S.slices = &plan.slices;
        S.amb = plan.amb.clone();
        // a process with another history of threads: names, ids, stacks differ
        for k in 0..(plan.amb.ident % 4) {
            let _ = std::thread::Builder::new().name(format!("pad{}", k)).spawn(|| {}).unwrap().join();
        }
        for t in 0..n {
            S.st[t] = St::Ready;
            S.ctxs[t] = Box::leak(Box::new(Ctx::new(t)));
        }
        for t in 0..n {
            let sh = Share { w, v, own: own::<T>(), alt: own::<U>(), plan };
            let cp = S.ctxs[t] as usize;
            let mut b = std::thread::Builder::new();
            const NAMES: &[&str] = &["main", "worker", "pool-1-thread-3", "3", "tokio-runtime-worker", "caller-0-1", "\u{e9}"];
            match if plan.amb.ident == 0 { 0 } else { mix(plan.amb.ident ^ (t as u64) << 40) % 9 } {
                0 => b = b.name(format!("caller-{}-{}", plan.amb.ident, t)),
                8 => {}
                k => b = b.name(NAMES[k as usize - 1].into()),
            }
            simcore::sys::stack_for(t);
            std::mem::forget(
                b.spawn(move || {
                    let sh = sh;
                    settle(&plan.amb, t, move || task_main::<T, U>(sh, t, cp as *mut Ctx))
                })
                .unwrap(),
            );
        }
    }
    simcore::sys::no_stack();
    run_all();
}

fn second<T: Raw>(plan: &'static Plan) {
    match plan.alt {
        Num::F64 => exec::<T, f64>(plan),
        Num::F32 => exec::<T, f32>(plan),
        Num::S64 => exec::<T, Sim<f64>>(plan),
        Num::S32 => exec::<T, Sim<f32>>(plan),
    }
}

/// Child entry: never returns.
pub fn child(plan: &'static Plan) -> ! {
    LIVE.store(0, std::sync::atomic::Ordering::Relaxed);
    LIVEBLK.store(0, std::sync::atomic::Ordering::Relaxed);
    unsafe { S.amb = plan.amb.clone() };
    simcore::sys::surroundings();
    *hdr(H_TRACE) = 0xcbf29ce484222325;
    *hdr(H_SCHED) = 0xcbf29ce484222325;
    match plan.num {
        Num::F64 => second::<f64>(plan),
        Num::F32 => second::<f32>(plan),
        Num::S64 => second::<Sim<f64>>(plan),
        Num::S32 => second::<Sim<f32>>(plan),
    }
    finish_stats();
    *hdr(H_STATUS) = 1;
    simcore::raw::exit_group(0)
}
