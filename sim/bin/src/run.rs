//! Running plans in child processes and keeping count.
use scen::exec::REC;
use simcore::plan::*;
use simcore::raw;
use simcore::rt::*;
use std::collections::{HashMap, HashSet};
use std::rc::Rc;

pub use scen::exec::{R_FAULT, R_OK, R_PANIC, R_SKIP};

#[derive(Clone, Debug, PartialEq)]
pub struct Rec {
    pub idx: u64,
    pub kind: u64,
    pub steps: u64,
    pub live: i64,
    pub ent: u64,
    pub env: u64,
    pub opens: u64,
    pub n: [u64; NF],
    pub fired: [u64; NF],
    pub data: Vec<u64>,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Stat {
    Done,
    Deadlock(usize),
    Stuck(usize),
    Blocked(usize),
    Crash(i32),
    Hang,
    Overflow,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Run {
    pub stat: Stat,
    pub recs: Vec<Vec<Rec>>,
    pub hdr: [u64; 16],
}
impl Run {
    pub fn done(&self) -> bool {
        self.stat == Stat::Done
    }
    /// Records of the task's own calls of iteration 0, by position.
    pub fn op(&self, t: usize, i: u64) -> Option<&Rec> {
        self.recs.get(t)?.iter().find(|r| r.idx == i)
    }
}

pub const BASE_CAP: u64 = 1_500_000;
pub const RUN_CAP: u64 = 8_000_000;

fn run_once(plan: &Plan) -> Run {
    for i in 0..HDR {
        *hdr(i) = 0;
    }
    for t in 0..NT {
        area(t)[0] = 0;
        area(t)[1] = 0;
    }
    let pid = raw::fork();
    if pid == 0 {
        raw::alarm(25);
        let p: &'static Plan = unsafe { &*(plan as *const Plan) };
        scen::exec::child(p);
    }
    assert!(pid > 0, "fork failed");
    let st = raw::wait(pid);
    let mut recs = vec![];
    let mut over = false;
    for t in 0..plan.tasks.len().min(NT - 1) {
        let a = area(t);
        let n = a[0] as usize;
        over |= a[1] != 0;
        let mut v = vec![];
        let mut p = 2;
        while p < 2 + n {
            let r = &a[p..p + a[p] as usize];
            let mut x = Rec {
                idx: r[1],
                kind: r[2],
                steps: r[4],
                live: r[5] as i64,
                ent: r[7],
                env: r[8],
                opens: r[9],
                n: [0; NF],
                fired: [0; NF],
                data: r[REC..].to_vec(),
            };
            x.n.copy_from_slice(&r[16..16 + NF]);
            x.fired.copy_from_slice(&r[16 + NF..16 + 2 * NF]);
            v.push(x);
            p += a[p] as usize;
        }
        recs.push(v);
    }
    let mut h = [0u64; 16];
    for (i, x) in h.iter_mut().enumerate() {
        *x = *hdr(i);
    }
    let sig = st & 127;
    let vt = h[H_VTASK] as usize;
    let stat = if sig == 14 {
        Stat::Hang
    } else if sig != 0 {
        Stat::Crash(sig)
    } else if h[H_STATUS] != 1 {
        Stat::Crash(1000 + (st >> 8))
    } else {
        match h[H_VERDICT] {
            V_DEADLOCK => Stat::Deadlock(vt),
            V_STUCK => Stat::Stuck(vt),
            V_BLOCKED => Stat::Blocked(vt),
            _ if over => Stat::Overflow,
            _ => Stat::Done,
        }
    };
    Run { stat, recs, hdr: h }
}

#[derive(Default)]
pub struct Stats {
    pub c: HashMap<String, u64>,
    pub sched: HashSet<u64>,
    pub traces: HashSet<u64>,
    pub nontriv: HashSet<u64>,
}
impl Stats {
    pub fn add(&mut self, k: &str, n: u64) {
        if n > 0 {
            *self.c.entry(k.to_string()).or_insert(0) += n;
        }
    }
}

pub struct Ev {
    pub cache: HashMap<String, Rc<Run>>,
    pub st: Stats,
    pub keep: bool,
    pub kept: Vec<String>,
}
impl Ev {
    pub fn new() -> Ev {
        Ev { cache: HashMap::new(), st: Stats::default(), keep: false, kept: vec![] }
    }
    pub fn run(&mut self, p: &Plan) -> Run {
        let mut r = run_once(p);
        if r.stat == Stat::Hang {
            // real time is only a safety net: a busy machine must not decide anything
            r = run_once(p);
        }
        let st = &mut self.st;
        st.add("runs", 1);
        st.add("simulated_steps", r.hdr[H_STEPS]);
        st.add("simulated_ns", r.hdr[H_TIME]);
        st.add("switches", r.hdr[H_SWITCH]);
        st.add("midcall_switches", r.hdr[H_MIDCALL]);
        st.add("stalls_midcall", r.hdr[H_STALLED]);
        st.add("static_accesses", r.hdr[H_STATIC]);
        st.add("shared_world_stores", r.hdr[H_WORLDW]);
        for rec in r.recs.iter().flatten() {
            st.add("calls", 1);
            st.add(["calls_ok", "calls_injected_failure", "calls_panicked", "calls_skipped"][rec.kind as usize & 3], 1);
            for k in 0..NF {
                if rec.fired[k] > 0 {
                    st.add(&format!("fault:{}", F::ALL[k].name()), rec.fired[k]);
                }
            }
        }
        if r.hdr[H_SWITCH] > 0 {
            st.sched.insert(r.hdr[H_SCHED]);
        }
        st.traces.insert(r.hdr[H_TRACE]);
        r
    }
    /// A baseline: an undisturbed run in a fresh process, memoised per scenario.
    pub fn base(&mut self, p: &Plan) -> Rc<Run> {
        let mut q = p.clone();
        q.cap = BASE_CAP;
        q.seed = 0;
        let key = q.to_text();
        if let Some(r) = self.cache.get(&key) {
            return r.clone();
        }
        let r = Rc::new(self.run(&q));
        self.st.add("baseline_runs", 1);
        self.cache.insert(key, r.clone());
        r
    }
}

pub fn same(a: &Rec, b: &Rec) -> bool {
    a.kind == b.kind && a.data == b.data
}

pub enum Tok {
    I(u64),
    F(f64),
    A(f64),
    Set(Vec<(f64, f64)>),
}
pub fn toks(d: &[u64]) -> Option<Vec<Tok>> {
    use scen::ops::{ANG, FL, I, SET};
    let mut v = vec![];
    let mut i = 0;
    if d.len() % 2 == 1 {
        return None;
    }
    while i + 1 < d.len() {
        let x = d[i + 1];
        match d[i] {
            I => v.push(Tok::I(x)),
            FL => v.push(Tok::F(f64::from_bits(x))),
            ANG => v.push(Tok::A(f64::from_bits(x))),
            SET => {
                let n = x as usize;
                let mut s = vec![];
                for k in 0..n {
                    let b = i + 2 + 4 * k;
                    s.push((f64::from_bits(*d.get(b + 1)?), f64::from_bits(*d.get(b + 3)?)));
                }
                v.push(Tok::Set(s));
                i += 4 * n;
            }
            _ => return None,
        }
        i += 2;
    }
    Some(v)
}
fn near(a: f64, b: f64, tol: f64) -> bool {
    a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()) || (a - b).abs() <= tol * (1.0 + a.abs().max(b.abs()))
}
fn sub(a: &[(f64, f64)], b: &[(f64, f64)], tol: f64) -> bool {
    a.iter().all(|p| b.iter().any(|q| near(p.0, q.0, tol) && near(p.1, q.1, tol)))
}
/// Same outcome up to the order and rounding of reported points.
pub fn close(a: &Rec, b: &Rec, tol: f64) -> bool {
    if a.kind != b.kind {
        return false;
    }
    if a.data == b.data {
        return true;
    }
    if a.kind != R_OK {
        return false;
    }
    let (Some(x), Some(y)) = (toks(&a.data), toks(&b.data)) else { return false };
    x.len() == y.len()
        && x.iter().zip(&y).all(|(p, q)| match (p, q) {
            (Tok::I(a), Tok::I(b)) => a == b,
            (Tok::F(a), Tok::F(b)) => near(*a, *b, tol),
            (Tok::A(a), Tok::A(b)) => {
                let d = (a - b).rem_euclid(2.0 * std::f64::consts::PI);
                near(*a, *b, tol) || d < tol || 2.0 * std::f64::consts::PI - d < tol
            }
            (Tok::Set(a), Tok::Set(b)) => sub(a, b, tol) && sub(b, a, tol),
            _ => false,
        })
}
pub fn show(r: &Rec) -> String {
    let k = ["returned", "propagated the injected failure", "panicked", "skipped"][r.kind as usize & 3];
    let body = if r.kind == R_OK {
        match toks(&r.data) {
            Some(t) => t
                .iter()
                .take(12)
                .map(|x| match x {
                    Tok::I(i) => format!("{}", i),
                    Tok::F(f) => format!("{:?}", f),
                    Tok::A(f) => format!("angle {:?}", f),
                    Tok::Set(s) => format!("{:?}", s.iter().take(12).collect::<Vec<_>>()),
                })
                .collect::<Vec<_>>()
                .join(" "),
            None => format!("{:x?}", r.data),
        }
    } else {
        String::new()
    };
    format!("{} {}", k, body)
}
