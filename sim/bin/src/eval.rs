//! The oracles: given a plan, run it and its undisturbed reference runs and say
//! whether the property held. A pure function of the plan and the code under test.
use crate::run::*;
use simcore::plan::*;
use simcore::rt::{H_MIDCALL, H_STALLED, NEST};

#[derive(Clone, Debug)]
pub enum Ver {
    Ok,
    Discard(&'static str),
    Bad(String, String),
}
use Ver::*;

pub fn bad(class: &str, detail: String) -> Ver {
    Bad(class.to_string(), detail)
}
pub fn name(p: &Plan, t: usize, idx: u64) -> String {
    if idx >= NEST {
        let o = p.nested.get(idx as usize - NEST as usize);
        return format!("re-entrant call {} by caller {}", o.map_or("?", |o| o.k.name()), t);
    }
    let o = p.tasks[t].get(at(p, idx));
    format!("caller {} call {} ({})", t, idx, o.map_or("?", |o| o.k.name()))
}
fn stat_name(s: &Stat) -> (String, String) {
    match s {
        Stat::Done => ("done".into(), "finished".into()),
        Stat::Deadlock(t) => ("deadlock".into(), format!("caller {} waits for ever: no caller can run", t)),
        Stat::Stuck(t) => ("stuck".into(), format!("caller {} did not finish within its step budget", t)),
        Stat::Blocked(t) => ("blocked".into(), format!("caller {} waits for a caller that is stalled", t)),
        Stat::Crash(s) => ("crash".into(), format!("the process died (signal/exit {})", s)),
        Stat::Hang => ("hang".into(), "the run made no simulated progress in real time".into()),
        Stat::Overflow => ("overflow".into(), "output too large".into()),
    }
}
pub fn bad_stat(s: &Stat) -> Ver {
    let (c, d) = stat_name(s);
    Bad(c, d)
}
/// The plan with no scheduling, no faults, default surroundings.
pub fn plain(p: &Plan) -> Plan {
    let mut q = p.clone();
    q.slices.clear();
    q.amb = AMB0.clone();
    for o in q.tasks.iter_mut().flatten() {
        o.faults.clear();
    }
    q.nested.clear();
    q
}
/// A single call in a fresh process.
pub fn single(p: &Plan, o: &Op) -> Plan {
    let mut q = plain(p);
    let mut o = o.clone();
    o.faults.clear();
    q.tasks = vec![vec![o]];
    q.prop = "alone".into();
    q.arg = 0;
    q
}
fn solo(p: &Plan, t: usize) -> Plan {
    let mut q = plain(p);
    q.tasks = vec![q.tasks[t].clone()];
    q.prop = "alone".into();
    q.arg = 0;
    q
}
pub const STATEFUL: &[K] = &[
    K::SwNew, K::SwPush, K::SwQuery, K::HullNew, K::HullQuery, K::HullDump, K::HullPush, K::DcelNew, K::DcelRemove, K::DcelAdd, K::DcelDump, K::DcelLink, K::DcelFmt, K::DcelEq,
];
pub fn fired(r: &Rec) -> bool {
    r.fired.iter().any(|x| *x > 0)
}
pub fn note(ev: &mut Ev, r: &Run, nontriv: bool) {
    if nontriv {
        ev.st.nontriv.insert(r.hdr[simcore::rt::H_TRACE]);
    }
}
pub fn any_fired(r: &Run) -> bool {
    r.recs.iter().flatten().any(fired)
}

pub fn eval(ev: &mut Ev, p: &Plan) -> Ver {
    let v = judge(ev, p);
    if let Bad(..) = v {
        if p.tasks.iter().flatten().any(|o| !o.faults.is_empty()) && excused(ev, p) {
            return Discard("a reference history does not finish");
        }
        // a plan that asks for things that are not there says nothing
        let b = ev.base(&{ let mut q = plain(p); q.prop = "alone".into(); q });
        if b.recs.iter().flatten().any(|r| r.kind == R_SKIP) {
            return Discard("ill-formed plan");
        }
    }
    v
}
/// A registration that failed half-way is or is not in effect. If the object it could
/// have left does not finish its next call even when built undisturbed, then a call that
/// does not finish says nothing about the failure.
fn excused(ev: &mut Ev, p: &Plan) -> bool {
    let r = ev.run(p);
    let Stat::Stuck(t) = r.stat else { return false };
    let cut: Vec<usize> = r.recs[t]
        .iter()
        .filter(|x| x.idx < NEST && (x.kind == R_FAULT || x.kind == R_PANIC))
        .map(|x| at(p, x.idx))
        .filter(|i| matches!(p.tasks[t].get(*i).map(|o| o.k), Some(K::SwPush | K::HullPush)))
        .collect::<std::collections::BTreeSet<_>>()
        .into_iter()
        .collect();
    if cut.is_empty() {
        return false;
    }
    let k = cut.len().min(4);
    for m in 0..(1u32 << k) {
        let (mut q, _) = without(p, |_, i, _| cut.iter().take(k).position(|x| *x == i).map_or(cut[k..].contains(&i), |j| m >> j & 1 == 0));
        q.tasks = vec![q.tasks[t].clone()];
        q.arg = 0;
        if !ev.base(&q).done() {
            return true;
        }
    }
    false
}
/// The position in its caller's list of the call a record is about: rounds repeat the list.
fn at(p: &Plan, idx: u64) -> usize {
    idx as usize % if p.arg > 0 && p.prop == "C08" { 100 } else { NEST as usize }
}
fn judge(ev: &mut Ev, p: &Plan) -> Ver {
    match p.prop.as_str() {
        "C01" | "C02" => concurrent(ev, p),
        "C03" => interrupted_query(ev, p),
        "C04" => interrupted_push(ev, p),
        "C05" => push_query(ev, p),
        "C06" => streams(ev, p),
        "C07" => ambient(ev, p),
        "C08" => memory(ev, p),
        "C09" => lent(ev, p),
        "C10" => surfaces(ev, p),
        "C11" => history(ev, p),
        "C12" => steady(ev, p),
        "C13" => libm(ev, p),
        "C14" => sink(ev, p),
        "C15" => crate::model::sweep(ev, p),
        "C16" => crate::model::hull(ev, p),
        "C17" => crate::model::vertex(ev, p),
        _ => Discard("unknown property"),
    }
}

// C01, C02
fn concurrent(ev: &mut Ev, p: &Plan) -> Ver {
    let c02 = p.prop == "C02";
    let mut solos = vec![];
    for t in 0..p.tasks.len() {
        let b = ev.base(&solo(p, t));
        if !b.done() {
            return Discard("a call does not finish even alone");
        }
        solos.push(b);
    }
    let mut inner = vec![];
    for o in &p.nested {
        let b = ev.base(&single(p, o));
        if !b.done() {
            return Discard("a call does not finish even alone");
        }
        inner.push(b);
    }
    let r = ev.run(p);
    if r.stat == Stat::Overflow {
        return Discard("output too large");
    }
    let n = r.hdr[H_MIDCALL] > 0 || any_fired(&r);
    let n = if c02 { r.hdr[H_STALLED] > 0 || any_fired(&r) || (r.hdr[H_MIDCALL] > 0 && p.tasks[1..].iter().any(|t| t.len() > 9)) } else { n };
    note(ev, &r, n);
    if !r.done() {
        return bad_stat(&r.stat);
    }
    for t in 0..p.tasks.len() {
        for rec in &r.recs[t] {
            let (b, clean) = if rec.idx >= NEST {
                (inner.get(rec.idx as usize - NEST as usize).and_then(|b| b.op(0, 0)), true)
            } else {
                let o = &p.tasks[t][at(p, rec.idx)];
                (solos[t].op(0, rec.idx), o.faults.iter().all(|f| matches!(f.kind, F::Nested | F::NestedSeg)))
            };
            let Some(b) = b else { return bad("harness", "no reference".into()) };
            if !clean {
                continue;
            }
            if !same(rec, b) {
                return bad("result", format!("{}: {} but alone it {}", name(p, t, rec.idx), show(rec), show(b)));
            }
            if c02 && rec.idx < NEST && rec.steps > 2 * b.steps + 100 {
                return bad(
                    "slow",
                    format!("{}: took {} steps, alone {}", name(p, t, rec.idx), rec.steps, b.steps),
                );
            }
        }
        let want = p.tasks[t].len();
        let got = r.recs[t].iter().filter(|x| x.idx < NEST).count();
        if got != want {
            return bad("lost", format!("caller {} finished {} of {} calls", t, got, want));
        }
    }
    Ok
}

fn without(p: &Plan, drop: impl Fn(usize, usize, &Op) -> bool) -> (Plan, Vec<Vec<Option<u64>>>) {
    let mut q = plain(p);
    let mut map = vec![];
    for t in 0..p.tasks.len() {
        let mut v = vec![];
        let mut ops = vec![];
        for (i, o) in q.tasks[t].iter().enumerate() {
            if drop(t, i, &p.tasks[t][i]) {
                v.push(None);
            } else {
                v.push(Some(ops.len() as u64));
                ops.push(o.clone());
            }
        }
        map.push(v);
        q.tasks[t] = ops;
    }
    q.prop = "alone".into();
    (q, map)
}

// C03: an interrupted query never happened, as far as later queries can tell
fn interrupted_query(ev: &mut Ev, p: &Plan) -> Ver {
    let whole = ev.base(&{ let mut q = plain(p); q.prop = "alone".into(); q });
    if !whole.done() {
        return Discard("a call does not finish even alone");
    }
    let (q, map) = without(p, |_, _, o| !o.faults.is_empty());
    let b = ev.base(&q);
    if !b.done() {
        return Discard("a call does not finish even alone");
    }
    let r = ev.run(p);
    if r.stat == Stat::Overflow {
        return Discard("output too large");
    }
    note(ev, &r, any_fired(&r));
    if !r.done() {
        return bad_stat(&r.stat);
    }
    for t in 0..p.tasks.len() {
        for rec in &r.recs[t] {
            if rec.idx >= NEST {
                continue;
            }
            let Some(j) = map[t][at(p, rec.idx)] else { continue };
            let Some(x) = b.op(t, j) else { return bad("harness", "no reference".into()) };
            // a hull or sweep answer is one fixed sequence for one set of inputs
            if !close(rec, x, 1e-9) {
                return bad(
                    "result",
                    format!("{} after an interruption: {} but uninterrupted it {}", name(p, t, rec.idx), show(rec), show(x)),
                );
            }
        }
    }
    Ok
}

// C04
fn interrupted_push(ev: &mut Ev, p: &Plan) -> Ver {
    let whole = ev.base(&{ let mut q = plain(p); q.prop = "alone".into(); q });
    if !whole.done() {
        return Discard("a call does not finish even alone");
    }
    let r = ev.run(p);
    if r.stat == Stat::Overflow {
        return Discard("output too large");
    }
    note(ev, &r, any_fired(&r));
    if !r.done() {
        return bad_stat(&r.stat);
    }
    // which pushes were interrupted (did not return)?
    let maybe: Vec<usize> = r.recs[0]
        .iter()
        .filter(|x| x.idx < 100 && p.tasks[0][x.idx as usize].k == K::SwPush && (x.kind == R_FAULT || x.kind == R_PANIC))
        .map(|x| x.idx as usize)
        .collect();
    if maybe.len() > 4 {
        return Discard("too many interrupted registrations");
    }
    let queries: Vec<usize> = (0..p.tasks[0].len())
        .filter(|i| p.tasks[0][*i].k == K::SwQuery && p.tasks[0][*i].faults.is_empty())
        .collect();
    let mut first: Option<String> = None;
    'cand: for m in 0..(1u32 << maybe.len()) {
        let (q, map) = without(p, |_, i, o| {
            if o.k == K::SwQuery && !o.faults.is_empty() {
                return true;
            }
            maybe.iter().position(|x| *x == i).map_or(false, |k| m >> k & 1 == 0)
        });
        let b = ev.base(&q);
        if !b.done() {
            // this model cannot be evaluated, so nothing can be said
            return Discard("a reference history does not finish");
        }
        for i in &queries {
            let (Some(x), Some(y)) = (r.op(0, *i as u64), map[0][*i].and_then(|j| b.op(0, j))) else {
                return bad("harness", "no reference".into());
            };
            if !close(x, y, 1e-9) {
                if first.is_none() {
                    first = Some(format!("{}: {} but without the interrupted registration it {}", name(p, 0, *i as u64), show(x), show(y)));
                }
                continue 'cand;
            }
        }
        return Ok;
    }
    bad("torn", format!("no choice of registered/not registered explains the answers; {}", first.unwrap_or_default()))
}

// C05
fn push_query(ev: &mut Ev, p: &Plan) -> Ver {
    let r = ev.run(&{ let mut q = p.clone(); q.cap = if q.cap == 0 { RUN_CAP } else { q.cap }; q });
    let ops = &p.tasks[0];
    for (i, o) in ops.iter().enumerate() {
        if o.k != K::SwQuery {
            continue;
        }
        // a fresh object with the same registrations, asked once
        let mut q = plain(p);
        q.prop = "alone".into();
        q.tasks = vec![ops[..=i]
            .iter()
            .enumerate()
            .filter(|(j, x)| x.a.first() == o.a.first() && (x.k == K::SwNew || x.k == K::SwPush || *j == i))
            .map(|(_, x)| x.clone())
            .collect()];
        let b = ev.base(&q);
        if !b.done() {
            return Discard("a reference history does not finish");
        }
        let y = b.recs[0].last().cloned();
        let (Some(x), Some(y)) = (r.op(0, i as u64), y) else {
            if r.stat == Stat::Overflow {
                return Discard("output too large");
            }
            if !r.done() {
                return bad_stat(&r.stat);
            }
            return bad("harness", "no reference".into());
        };
        if y.kind == R_SKIP {
            return Discard("ill-formed plan");
        }
        if !close(x, &y, 1e-9) {
            return bad("result", format!("{}: {} but a fresh object {}", name(p, 0, i as u64), show(x), show(&y)));
        }
        if x.steps > 3 * y.steps + 5000 {
            return bad("slow", format!("{}: {} steps, fresh object {}", name(p, 0, i as u64), x.steps, y.steps));
        }
    }
    let nq = ops.iter().filter(|o| o.k == K::SwQuery).count();
    note(ev, &r, nq > 1);
    if !r.done() && r.stat != Stat::Overflow {
        return bad_stat(&r.stat);
    }
    Ok
}

// C06
fn streams(ev: &mut Ev, p: &Plan) -> Ver {
    let b = ev.base(&{ let mut q = plain(p); q.prop = "alone".into(); q.amb = p.amb.clone(); q });
    if !b.done() && b.stat != Stat::Overflow {
        return Discard("a call does not finish even alone");
    }
    let r = ev.run(p);
    note(ev, &r, r.done());
    if !r.done() && r.stat != Stat::Overflow {
        return bad_stat(&r.stat);
    }
    for (which, run) in [("with healthy streams", &*b), ("with failing streams", &r)] {
        for t in 0..run.recs.len() {
            for rec in &run.recs[t] {
                if rec.n[F::Write as usize] > 0 {
                    return bad(
                        "io",
                        format!("{} wrote to a stream {} time(s) {}", name(p, t, rec.idx), rec.n[F::Write as usize], which),
                    );
                }
                if rec.opens > 0 {
                    return bad("io", format!("{} used a file, a socket or another process", name(p, t, rec.idx)));
                }
            }
        }
    }
    for t in 0..r.recs.len() {
        for rec in &r.recs[t] {
            if let Some(x) = b.op(t, rec.idx) {
                if !same(x, rec) {
                    return bad("result", format!("{}: {} but with healthy streams it {}", name(p, t, rec.idx), show(rec), show(x)));
                }
            }
        }
    }
    Ok
}

// C07
fn ambient(ev: &mut Ev, p: &Plan) -> Ver {
    let b = ev.base(&{ let mut q = plain(p); q.prop = "alone".into(); q });
    if !b.done() {
        return Discard("a call does not finish even alone");
    }
    let r = ev.run(p);
    if r.stat == Stat::Overflow {
        return Discard("output too large");
    }
    if p.amb != AMB0 {
        ev.st.nontriv.insert(r.hdr[simcore::rt::H_TRACE] ^ mix(p.amb.entropy ^ mix(p.amb.clock ^ mix(p.amb.env ^ mix(p.amb.addr ^ mix(p.amb.ident))))));
    }
    if !r.done() {
        return bad_stat(&r.stat);
    }
    for t in 0..r.recs.len() {
        for rec in &r.recs[t] {
            let Some(x) = b.op(t, rec.idx) else { return bad("harness", "no reference".into()) };
            if !same(x, rec) {
                return bad("result", format!("{}: {} but in other surroundings it {}", name(p, t, rec.idx), show(rec), show(x)));
            }
        }
    }
    Ok
}

// C08
fn memory(ev: &mut Ev, p: &Plan) -> Ver {
    let b = ev.base(&{ let mut q = plain(p); q.prop = "alone".into(); q });
    if !b.done() {
        return Discard("a call does not finish even alone");
    }
    let r = ev.run(p);
    if r.stat == Stat::Overflow {
        return Discard("output too large");
    }
    note(ev, &r, r.done());
    if !r.done() {
        return bad_stat(&r.stat);
    }
    let last = p.tasks[0].len() as u64 - 1;
    let each = p.arg == 0; // one long list of calls that keep nothing, all different
    let live: Vec<i64> = r.recs[0].iter().filter(|x| each || at(p, x.idx) as u64 == last).map(|x| x.live).collect();
    // a call that makes no object the caller keeps leaves nothing at all
    let mut held = 0;
    for x in &r.recs[0] {
        let o = &p.tasks[0][at(p, x.idx)];
        if x.idx < NEST && !STATEFUL.contains(&o.k) && x.live > held {
            return bad(
                if fired(x) { "kept-on-failure" } else { "kept" },
                format!("{} has kept {} bytes", name(p, 0, x.idx), x.live - held),
            );
        }
        held = x.live;
    }
    let grew = grows(&live, if each { 5 } else { 2 });
    if grew >= 3 {
        let d = live[live.len() - 1] - live[2];
        let f = any_fired(&r);
        return bad(
            if f { "leak-on-failure" } else { "leak" },
            format!("{} rounds kept {} more bytes alive ({}): {:?}", live.len(), d, p.tasks[0].iter().map(|o| o.k.name()).collect::<Vec<_>>().join(" "), &live[..live.len().min(8)]),
        );
    }
    Ok
}
/// Number of times the series reached a new maximum after the warm-up.
fn grows(v: &[i64], warm: usize) -> usize {
    if v.len() <= warm {
        return 0;
    }
    let mut m = v[..=warm].iter().copied().max().unwrap();
    let mut n = 0;
    for x in &v[warm + 1..] {
        if *x > m {
            m = *x;
            n += 1;
        }
    }
    n
}

// C09
fn lent(ev: &mut Ev, p: &Plan) -> Ver {
    let b = ev.base(&{ let mut q = plain(p); q.prop = "alone".into(); q });
    if !b.done() {
        return Discard("a call does not finish even alone");
    }
    let r = ev.run(p);
    if r.stat == Stat::Overflow {
        return Discard("output too large");
    }
    note(ev, &r, any_fired(&r));
    if !r.done() {
        return bad_stat(&r.stat);
    }
    let mut before: Option<Rec> = None;
    let mut half = false;
    for rec in &r.recs[0] {
        if rec.idx >= NEST {
            continue;
        }
        let o = &p.tasks[0][rec.idx as usize];
        if o.k == K::DcelRemove && rec.kind != R_OK {
            half = true;
            continue;
        }
        if o.k == K::DcelDump {
            let Some(x) = b.op(0, rec.idx) else { return bad("harness", "no reference".into()) };
            if rec.kind != R_OK {
                return bad("lent", format!("{}: {}", name(p, 0, rec.idx), show(rec)));
            }
            let ok = same(x, rec) || (half && before.as_ref().map_or(false, |y| subseq(&x.data, &rec.data, &y.data)));
            if !ok {
                return bad(
                    "lent",
                    format!("{}: the vertex now has {} ; untouched {} ; finished {}", name(p, 0, rec.idx), show(rec), before.as_ref().map_or("?".into(), show), show(x)),
                );
            }
            if before.is_none() {
                before = Some(rec.clone());
            }
            continue;
        }
        if !o.faults.is_empty() {
            continue;
        }
        if half && o.k == K::DcelRemove {
            continue;
        }
        let Some(x) = b.op(0, rec.idx) else { return bad("harness", "no reference".into()) };
        if !same(x, rec) {
            return bad("lent", format!("{} after an interrupted call: {} but without it {}", name(p, 0, rec.idx), show(rec), show(x)));
        }
    }
    Ok
}
/// lo <= mid <= hi as subsequences of a vertex's edges, everything else equal.
fn subseq(lo: &[u64], mid: &[u64], hi: &[u64]) -> bool {
    let ch = |d: &[u64]| {
        let n = d.get(1).copied().unwrap_or(0) as usize;
        let k = (2 + 10 * n).min(d.len());
        (d[2.min(k)..k].chunks(10).map(|c| c.to_vec()).collect::<Vec<_>>(), d[k..].to_vec())
    };
    let inc = |a: &Vec<Vec<u64>>, b: &Vec<Vec<u64>>| {
        let mut j = 0;
        for x in a {
            while j < b.len() && &b[j] != x {
                j += 1;
            }
            if j == b.len() {
                return false;
            }
            j += 1;
        }
        true
    };
    let ((l, lr), (m, mr), (h, hr)) = (ch(lo), ch(mid), ch(hi));
    inc(&l, &m) && inc(&m, &h) && lr == mr && mr == hr
}

// C10
fn surfaces(ev: &mut Ev, p: &Plan) -> Ver {
    let r = ev.run(p);
    if r.stat == Stat::Overflow {
        return Discard("output too large");
    }
    let mut q = plain(p);
    q.prop = "alone".into();
    let b = ev.base(&q);
    if !b.done() {
        return Discard("a call does not finish even alone");
    }
    note(ev, &r, any_fired(&r));
    if !r.done() {
        return bad_stat(&r.stat);
    }
    for rec in &r.recs[0] {
        if rec.idx >= NEST {
            continue;
        }
        let o = &p.tasks[0][rec.idx as usize];
        let Some(x) = b.op(0, rec.idx) else { return bad("harness", "no reference".into()) };
        if o.faults.is_empty() || !fired(rec) {
            // object state after an interruption is C03/C04's matter
            if !STATEFUL.contains(&o.k) && !same(rec, x) {
                return bad("result", format!("{}: {} but undisturbed it {}", name(p, 0, rec.idx), show(rec), show(x)));
            }
            continue;
        }
        match rec.kind {
            R_FAULT => {
                let want = o.faults.iter().any(|f| rec.data[0] == (f.kind as u64) << 32 | f.at);
                if !want {
                    return bad("replaced", format!("{}: a different failure came out", name(p, 0, rec.idx)));
                }
            }
            R_OK => {
                if !same(rec, x) {
                    return bad(
                        "swallowed",
                        format!("{}: the injected failure was swallowed and the call {} but undisturbed it {}", name(p, 0, rec.idx), show(rec), show(x)),
                    );
                }
            }
            // A rejected input may be rejected while a failure is in flight.
            R_PANIC if x.kind == R_PANIC && x.data == rec.data => {}
            _ => {
                return bad("replaced", format!("{}: the injected failure was replaced by another panic", name(p, 0, rec.idx)));
            }
        }
    }
    Ok
}

// C11
fn history(ev: &mut Ev, p: &Plan) -> Ver {
    for o in p.tasks.iter().flatten().chain(&p.nested) {
        let b = ev.base(&single(p, o));
        if !b.done() {
            return Discard("a call does not finish even alone");
        }
    }
    let r = ev.run(p);
    if r.stat == Stat::Overflow {
        return Discard("output too large");
    }
    note(ev, &r, p.tasks.iter().map(|t| t.len()).sum::<usize>() > 1);
    if !r.done() {
        return bad_stat(&r.stat);
    }
    for t in 0..p.tasks.len() {
        for rec in &r.recs[t] {
            let o = if rec.idx >= NEST { &p.nested[rec.idx as usize - NEST as usize] } else { &p.tasks[t][rec.idx as usize] };
            if o.faults.iter().any(|f| !matches!(f.kind, F::Nested | F::NestedSeg)) {
                continue;
            }
            let b = ev.base(&single(p, o));
            let Some(x) = b.op(0, 0) else { return bad("harness", "no reference".into()) };
            if !same(rec, x) {
                return bad("result", format!("{} after earlier calls: {} but in a fresh process it {}", name(p, t, rec.idx), show(rec), show(x)));
            }
        }
    }
    Ok
}

// C12
fn steady(ev: &mut Ev, p: &Plan) -> Ver {
    let ops = &p.tasks[0];
    // reference: the same object built and asked once
    let mut q = plain(p);
    q.prop = "alone".into();
    let fq = ops.iter().position(|o| o.k == K::SwQuery || o.k == K::HullQuery);
    let Some(fq) = fq else { return Discard("no query") };
    q.tasks = vec![ops[..=fq].to_vec()];
    for o in q.tasks.iter_mut().flatten() {
        o.faults.clear();
    }
    let b = ev.base(&q);
    if !b.done() {
        return Discard("a call does not finish even alone");
    }
    let x = b.op(0, fq as u64).unwrap().clone();
    if x.kind == R_SKIP {
        return Discard("ill-formed plan");
    }
    let r = ev.run(p);
    if r.stat == Stat::Overflow {
        return Discard("output too large");
    }
    note(ev, &r, true);
    if !r.done() {
        return bad_stat(&r.stat);
    }
    let mut live = vec![];
    for rec in &r.recs[0] {
        if rec.idx < fq as u64 || rec.idx >= NEST {
            continue;
        }
        let o = &ops[rec.idx as usize];
        if o.k != ops[fq].k {
            continue;
        }
        if o.faults.is_empty() {
            let cut_before = ops[..rec.idx as usize].iter().any(|o| !o.faults.is_empty());
            if rec.kind == R_PANIC && x.kind != R_PANIC && !(o.k == K::HullQuery && cut_before) {
                return bad("panic", format!("{}: {} but the first query of a fresh object {}", name(p, 0, rec.idx), show(rec), show(&x)));
            }
            if rec.steps > x.steps + x.steps / 2 + 60 {
                return bad("slow", format!("{}: {} steps, the first query of a fresh object {}", name(p, 0, rec.idx), rec.steps, x.steps));
            }
            live.push(rec.live);
        }
    }
    let g = grows(&live, 1);
    if g >= 3 {
        return bad("grow", format!("memory held after each query keeps growing: {:?}", live));
    }
    Ok
}

// C13
fn libm(ev: &mut Ev, p: &Plan) -> Ver {
    let b = ev.base(&{ let mut q = plain(p); q.prop = "alone".into(); q });
    if !b.done() {
        return Discard("a call does not finish even alone");
    }
    let r = ev.run(p);
    if r.stat == Stat::Overflow {
        return Discard("output too large");
    }
    note(ev, &r, any_fired(&r));
    if let Stat::Stuck(_) = r.stat {
        return Discard("a sweep does not finish with this rounding");
    }
    if !r.done() {
        return bad_stat(&r.stat);
    }
    for rec in &r.recs[0] {
        if rec.idx >= NEST {
            continue;
        }
        let Some(x) = b.op(0, rec.idx) else { return bad("harness", "no reference".into()) };
        if !close(rec, x, 1e-7) {
            return bad("result", format!("{}: {} but with another correct rounding of the elementary functions it {}", name(p, 0, rec.idx), show(x), show(rec)));
        }
    }
    Ok
}

// C14
fn sink(ev: &mut Ev, p: &Plan) -> Ver {
    let b = ev.base(&{ let mut q = plain(p); q.prop = "alone".into(); q });
    if !b.done() {
        return bad_stat(&b.stat);
    }
    let r = ev.run(p);
    if r.stat == Stat::Overflow {
        return Discard("output too large");
    }
    note(ev, &r, any_fired(&r));
    if !r.done() {
        return bad_stat(&r.stat);
    }
    let text = |d: &[u64]| -> Vec<u8> {
        let n = d.get(3).copied().unwrap_or(0) as usize;
        let mut v = vec![];
        let mut i = 5;
        while i < d.len() {
            v.extend(d[i].to_le_bytes());
            i += 2;
        }
        v.truncate(n);
        v
    };
    for rec in &r.recs[0] {
        if rec.idx >= NEST {
            continue;
        }
        let Some(x) = b.op(0, rec.idx) else { return bad("harness", "no reference".into()) };
        if x.kind == R_SKIP {
            continue;
        }
        if !matches!(p.tasks[0][rec.idx as usize].k, K::Fmt | K::DcelFmt) {
            continue;
        }
        if x.kind == R_OK && x.data.get(1) == Some(&0) {
            return bad("spurious", format!("{}: reports an error though the sink accepted everything", name(p, 0, rec.idx)));
        }
        if rec.kind != R_OK || x.kind != R_OK {
            return bad("panic", format!("{}: formatting {} / healthy sink {}", name(p, 0, rec.idx), show(rec), show(x)));
        }
        let (a, full) = (text(&rec.data), text(&x.data));
        let (st, sl) = (|v: &[u8]| String::from_utf8_lossy(v).to_string(), fired(rec));
        if rec.data.len() == 3 || x.data.len() == 3 {
            continue;
        }
        if sl {
            if rec.data[1] != 0 {
                return bad("swallowed", format!("{}: the sink's error was swallowed; it got {:?}", name(p, 0, rec.idx), st(&a)));
            }
            if !full.starts_with(&a) {
                return bad("garbled", format!("{}: after a failed write the sink holds {:?}, not a prefix of {:?}", name(p, 0, rec.idx), st(&a), st(&full)));
            }
        } else if !same(rec, x) {
            return bad("result", format!("{}: {:?} but in a fresh process {:?}", name(p, 0, rec.idx), st(&a), st(&full)));
        }
    }
    Ok
}
