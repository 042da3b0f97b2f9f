//! Small reference models of the two stateful objects. They share no code with the
//! library: a sweep object is the set of segments registered with it, a hull object
//! is the multiset of points it holds.
use crate::eval::*;
use crate::run::*;
use simcore::plan::*;
use simcore::rt::{H_MIDCALL, NEST};

fn det(o: P, a: P, b: P) -> f64 {
    (a.0 - o.0) * (b.1 - o.1) - (a.1 - o.1) * (b.0 - o.0)
}
fn dist(a: P, b: P) -> f64 {
    ((a.0 - b.0).powi(2) + (a.1 - b.1).powi(2)).sqrt()
}
fn seg_dist(q: P, a: P, b: P) -> f64 {
    let l2 = (a.0 - b.0).powi(2) + (a.1 - b.1).powi(2);
    if l2 == 0.0 {
        return dist(q, a);
    }
    let t = (((q.0 - a.0) * (b.0 - a.0) + (q.1 - a.1) * (b.1 - a.1)) / l2).clamp(0.0, 1.0);
    dist(q, (a.0 + t * (b.0 - a.0), a.1 + t * (b.1 - a.1)))
}
/// The crossing of two segments that are not parallel.
pub fn cross(a: P, b: P, p: P, q: P) -> Option<P> {
    let d = (b.0 - a.0) * (q.1 - p.1) - (b.1 - a.1) * (q.0 - p.0);
    if d == 0.0 {
        return None;
    }
    let t = ((p.0 - a.0) * (q.1 - p.1) - (p.1 - a.1) * (q.0 - p.0)) / d;
    let u = ((p.0 - a.0) * (b.1 - a.1) - (p.1 - a.1) * (b.0 - a.0)) / d;
    if (0.0..=1.0).contains(&t) && (0.0..=1.0).contains(&u) {
        Some((a.0 + t * (b.0 - a.0), a.1 + t * (b.1 - a.1)))
    } else {
        None
    }
}
/// The ends of either that lie on the other.
pub fn touch(a: P, b: P, p: P, q: P) -> Option<P> {
    let near = |x: P, y: P, z: P| seg_dist(x, y, z) < 1e-13;
    [(a, p, q), (b, p, q), (p, a, b), (q, a, b)].into_iter().find(|v| near(v.0, v.1, v.2)).map(|v| v.0)
}
/// Where two segments that are not parallel meet.
pub fn meet(a: P, b: P, p: P, q: P) -> Option<P> {
    touch(a, b, p, q).or_else(|| cross(a, b, p, q))
}
/// The two segments cross or touch plainly or are plainly apart.
pub fn clear(a: P, b: P, p: P, q: P, scale: f64) -> bool {
    let (l, m) = (dist(a, b), dist(p, q));
    let sin = ((b.0 - a.0) * (q.1 - p.1) - (b.1 - a.1) * (q.0 - p.0)).abs() / (l * m);
    let e = 1e-4 * scale;
    let ok = |x: f64| x > e || x < 1e-13;
    sin > 1e-3 && ok(seg_dist(a, p, q)) && ok(seg_dist(b, p, q)) && ok(seg_dist(p, a, b)) && ok(seg_dist(q, a, b))
}
/// No point of interest has another one close to it, or more than two segments. Only
/// what the last segment and the points from `new` on can have changed is looked at.
pub fn sparse(v: &[(P, P)], pts: &[P], new: usize, scale: f64) -> bool {
    let e = 1e-4 * scale;
    for i in 0..pts.len() {
        if i < new {
            match v.last() {
                Some(s) if seg_dist(pts[i], s.0, s.1) < e => {}
                _ => continue,
            }
        } else {
            for j in 0..i {
                let (dx, dy) = (pts[i].0 - pts[j].0, pts[i].1 - pts[j].1);
                let d = dx.abs() + dy.abs();
                if !apart(dx, e) || !apart(dy, e) || d > 1e-12 && d < e {
                    return false;
                }
            }
        }
        if v.iter().filter(|s| seg_dist(pts[i], s.0, s.1) < e).count() > 2 {
            return false;
        }
    }
    true
}
/// Plainly different coordinates, or the same one.
pub fn apart(d: f64, e: f64) -> bool {
    d.abs() < 1e-12 || d.abs() > e
}
fn lines(p: &Plan, v: &[usize]) -> Option<Vec<(P, P)>> {
    v.iter()
        .map(|i| match p.items.get(*i) {
            Some(Item::Seg(a, b)) => Some((*a, *b)),
            _ => None,
        })
        .collect()
}
fn extent(v: &[(P, P)]) -> f64 {
    v.iter().flat_map(|s| [s.0 .0, s.0 .1, s.1 .0, s.1 .1]).fold(0.0f64, |m, x| m.max(x.abs())) * 2.0
}
fn in_general_position(v: &[(P, P)]) -> bool {
    // The library's tolerance is absolute: beyond this, rounding alone can exceed it.
    if extent(v) > 32.0 {
        return false;
    }
    let s = extent(v) * 0.4; // the generator's margin is relative to twice the half-width
    let mut pts: Vec<P> = vec![];
    for i in 0..v.len() {
        pts.push(v[i].0);
        pts.push(v[i].1);
        if !apart(v[i].0 .0 - v[i].1 .0, 1e-3 * s) || !apart(v[i].0 .1 - v[i].1 .1, 1e-3 * s) {
            return false;
        }
        for j in 0..i {
            if !clear(v[i].0, v[i].1, v[j].0, v[j].1, s) {
                return false;
            }
            if let Some(x) = meet(v[i].0, v[i].1, v[j].0, v[j].1) {
                pts.push(x)
            }
        }
    }
    sparse(v, &pts, 0, s)
}
fn on(p: &Plan, i: usize, q: P, tol: f64) -> bool {
    match &p.items[i] {
        Item::Seg(a, b) => seg_dist(q, *a, *b) < tol,
        Item::Circle(c, r) | Item::Arc(c, r, _, _) => (dist(q, *c) - r).abs() < tol,
        _ => false,
    }
}
fn answer(r: &Rec) -> Option<Vec<P>> {
    match toks(&r.data)?.into_iter().next()? {
        Tok::Set(s) => Some(s),
        _ => None,
    }
}
fn has(v: &[P], q: P, tol: f64) -> bool {
    v.iter().any(|x| dist(*x, q) < tol)
}

/// C15: every answer is what the model gives for the segments registered so far; an
/// interrupted registration may count or not, but the same way ever after.
pub fn sweep(ev: &mut Ev, p: &Plan) -> Ver {
    let r = ev.run(p);
    if r.stat == Stat::Overflow {
        return Ver::Discard("output too large");
    }
    note(ev, &r, r.hdr[H_MIDCALL] > 0 || any_fired(&r));
    let mut all_lines = true;
    for t in 0..p.tasks.len() {
        let regs: Vec<usize> = p.tasks[t].iter().filter(|o| o.k == K::SwPush).filter_map(|o| o.a.get(1).copied()).collect();
        let l = lines(p, &regs);
        let mut uniq = regs.clone();
        uniq.sort();
        uniq.dedup();
        let gp = uniq.len() == regs.len() && l.as_ref().map_or(false, |l| in_general_position(l));
        all_lines &= gp;
        let scale = l.as_ref().map_or(1.0, |l| extent(l)).max(1.0);
        let maybe: Vec<u64> = r.recs[t]
            .iter()
            .filter(|x| x.idx < NEST && p.tasks[t][x.idx as usize].k == K::SwPush && x.kind != R_OK)
            .map(|x| x.idx)
            .collect();
        if maybe.len() > 5 {
            return Ver::Discard("too many interrupted registrations");
        }
        let mut why: Option<(String, String)> = None;
        let mut explained = false;
        'cand: for m in 0..1u32 << maybe.len() {
            let mut have: Vec<usize> = vec![];
            for rec in &r.recs[t] {
                if rec.idx >= NEST {
                    continue;
                }
                let o = &p.tasks[t][rec.idx as usize];
                if o.k == K::SwPush {
                    if rec.kind == R_OK || maybe.iter().position(|x| *x == rec.idx).map_or(false, |k| m >> k & 1 == 1) {
                        have.push(o.a[1]);
                    }
                } else if o.k == K::SwNew {
                    have.clear();
                } else if o.k == K::SwQuery {
                    if !o.faults.is_empty() || (rec.kind != R_OK && !gp) {
                        continue;
                    }
                    let mut miss = |c: &str, d: String| {
                        if why.is_none() {
                            why = Some((c.into(), format!("{}: {}", name(p, t, rec.idx), d)));
                        }
                    };
                    if rec.kind != R_OK {
                        miss("panic", show(rec));
                        continue 'cand;
                    }
                    let Some(got) = answer(rec) else { continue };
                    let big = got.iter().fold(scale, |m, q| m.max(q.0.abs()).max(q.1.abs()));
                    for q in &got {
                        let n = have.iter().filter(|i| on(p, **i, *q, 1e-6 * big)).count();
                        if n < 2 {
                            miss("unsound", format!("reports {:?}, which lies on {} of the registered segments", q, n));
                            continue 'cand;
                        }
                    }
                    if gp {
                        let l = lines(p, &have).unwrap();
                        for i in 0..l.len() {
                            for j in 0..i {
                                if let Some(x) = meet(l[i].0, l[i].1, l[j].0, l[j].1) {
                                    if !has(&got, x, 1e-6 * scale) {
                                        miss("missing", format!("does not report {:?}, where {:?} and {:?} meet", x, l[i], l[j]));
                                        continue 'cand;
                                    }
                                }
                            }
                        }
                    }
                }
            }
            explained = true;
            break;
        }
        if !explained {
            let (c, d) = why.unwrap_or_default();
            return bad(&c, d);
        }
    }
    if !r.done() {
        if !all_lines {
            return Ver::Discard("a sweep over arcs or degenerate input does not finish");
        }
        return bad_stat(&r.stat);
    }
    Ver::Ok
}

/// C16: every answer is the hull of the points held at that moment.
pub fn hull(ev: &mut Ev, p: &Plan) -> Ver {
    let r = ev.run(p);
    if r.stat == Stat::Overflow {
        return Ver::Discard("output too large");
    }
    let nq = p.tasks.iter().flatten().filter(|o| o.k == K::HullQuery).count();
    note(ev, &r, nq > 1 || any_fired(&r));
    if !r.done() {
        return bad_stat(&r.stat);
    }
    for t in 0..p.tasks.len() {
        let mut have: Vec<P> = vec![];
        for rec in &r.recs[t] {
            if rec.idx >= NEST {
                continue;
            }
            let o = &p.tasks[t][rec.idx as usize];
            match o.k {
                K::HullNew => {
                    if let Some(Item::Pts(v)) = o.a.get(1).and_then(|i| p.items.get(*i)) {
                        have = v.clone();
                    }
                }
                K::HullPush => {
                    if let Some(Item::Pt(q)) = o.a.get(1).and_then(|i| p.items.get(*i)) {
                        have.push(*q);
                    }
                }
                K::HullQuery if o.faults.is_empty() => {
                    let want = model_hull(&have);
                    if want.len() < 3 {
                        continue; // no three corners: nothing is promised
                    }
                    if rec.kind != R_OK {
                        return bad("panic", format!("{}: {}", name(p, t, rec.idx), show(rec)));
                    }
                    let Some(got) = answer(rec) else { continue };
                    let k = got.iter().position(|q| *q == want[0]);
                    let rot: Vec<P> = match k {
                        Some(k) => got[k..].iter().chain(&got[..k]).copied().collect(),
                        None => got.clone(),
                    };
                    if rot != want {
                        return bad("hull", format!("{}: returned {:?} but the hull of the {} points held is {:?}", name(p, t, rec.idx), got, have.len(), want));
                    }
                }
                _ => {}
            }
        }
    }
    Ver::Ok
}
/// Corners counter-clockwise from the lexicographically smallest; exact for the
/// coordinates the generator uses (multiples of 2^-10 below 2^11).
fn model_hull(v: &[P]) -> Vec<P> {
    let mut v = v.to_vec();
    v.sort_by(|a, b| a.partial_cmp(b).unwrap());
    v.dedup();
    if v.len() < 3 {
        return v;
    }
    let mut h: Vec<P> = vec![];
    // gift wrapping, unlike the library
    let mut at = v[0];
    loop {
        h.push(at);
        let mut best: Option<P> = None;
        for q in &v {
            if *q == at {
                continue;
            }
            best = match best {
                None => Some(*q),
                Some(b) => {
                    let d = det(at, b, *q);
                    if d < 0.0 || (d == 0.0 && dist(at, *q) > dist(at, b)) {
                        Some(*q)
                    } else {
                        Some(b)
                    }
                }
            };
        }
        at = best.unwrap();
        if at == v[0] || h.len() > v.len() {
            break;
        }
    }
    h
}

#[derive(Clone, Debug)]
struct EdgeM {
    ends: (P, P),
    arc: bool,
    /// which of the vertices handed over
    h: (u64, u64),
    /// twin, next, prev: 1 + number of the edge, 0 = none
    link: [u64; 3],
}
/// The coordinates used are equal up to the library's tolerance, or differ plainly.
fn at_same(a: P, b: P) -> bool {
    (a.0 - b.0).abs() < 1e-9 && (a.1 - b.1).abs() < 1e-9
}
impl EdgeM {
    fn equal(&self, o: &EdgeM) -> bool {
        self.arc == o.arc && at_same(self.ends.0, o.ends.0) && at_same(self.ends.1, o.ends.1)
    }
}
impl PartialEq for EdgeM {
    fn eq(&self, o: &EdgeM) -> bool {
        self.equal(o) && self.h == o.h && self.link == o.link
    }
}
/// C17: a vertex's edges are the sequence the additions and removals describe, and an
/// edge's ends and neighbours the ones last set.
pub fn vertex(ev: &mut Ev, p: &Plan) -> Ver {
    let r = ev.run(p);
    if r.stat == Stat::Overflow {
        return Ver::Discard("output too large");
    }
    note(ev, &r, any_fired(&r) || p.tasks[0].len() > 5);
    if !r.done() {
        return bad_stat(&r.stat);
    }
    for t in 0..p.tasks.len() {
        let mut have: Vec<usize> = vec![];
        let mut es: Vec<EdgeM> = vec![];
        let mut hub = (0.0, 0.0);
        let mut handles = 0;
        let mut kept: Vec<bool> = vec![];
        // the vertex object is itself an end of the edges
        let mut shared = false;
        // what an interrupted change may have left: between these two
        let mut other: Option<Vec<usize>> = None;
        let mut other_es: Option<Vec<EdgeM>> = None;
        for rec in &r.recs[t] {
            if rec.idx >= NEST {
                continue;
            }
            let o = &p.tasks[t][rec.idx as usize];
            if rec.kind == R_SKIP {
                continue;
            }
            let pt = |i: &usize| match p.items.get(*i) {
                Some(Item::Pt(q)) => *q,
                _ => (0.0, 0.0),
            };
            if rec.kind == R_PANIC {
                let class = if shared && o.k == K::DcelRemove && have.iter().any(|k| at_same(es[*k].ends.0, hub)) { "own-end" } else if o.k == K::DcelRemove && es[o.a[1]].arc { "arc-edge" } else { "panic" };
                return bad(class, format!("{}: {}", name(p, t, rec.idx), show(rec)));
            }
            match o.k {
                K::DcelNew => {
                    shared = o.a[0] & 8 != 0;
                    hub = pt(&o.a[1]);
                    es = o.a[2..].iter().enumerate().map(|(k, i)| EdgeM { ends: (hub, pt(i)), arc: o.a[0] & 16 != 0 && k % 2 == 1, h: (0, k as u64 + 1), link: [0; 3] }).collect();
                    handles = o.a.len() as u64 - 1;
                    have = (0..es.len()).collect();
                    kept = vec![true; es.len()];
                }
                K::DcelAdd => {
                    let mut v = have.clone();
                    v.push(o.a[1]);
                    if rec.kind == R_OK {
                        have = v;
                    } else {
                        other = Some(v);
                    }
                }
                K::DcelRemove => {
                    let v: Vec<usize> = have.iter().copied().filter(|k| !es[*k].equal(&es[o.a[1]])).collect();
                    if rec.kind == R_OK {
                        have = v;
                    } else {
                        other = Some(v);
                    }
                }
                K::DcelLink if o.a[1] == 5 => kept[o.a[2]] = false,
                K::DcelLink => {
                    let mut v = es.clone();
                    match o.a[1] {
                        w @ 0..=2 => v[o.a[2]].link[w] = o.a[3] as u64 + 1,
                        3 => {
                            v[o.a[2]].ends.0 = pt(&o.a[3]);
                            v[o.a[2]].h.0 = handles;
                        }
                        _ => {
                            v[o.a[2]].ends.1 = pt(&o.a[3]);
                            v[o.a[2]].h.1 = handles;
                        }
                    }
                    if o.a[1] >= 3 {
                        handles += 1;
                    }
                    if rec.kind == R_OK {
                        es = v;
                    } else {
                        other_es = Some(v);
                    }
                }
                K::DcelEq if rec.kind == R_OK => {
                    let x = es[o.a[1]].equal(&es[o.a[2]]);
                    if rec.data.get(1) != Some(&(x as u64)) {
                        return bad("edges", format!("{}: edges {} and {} equal: {}, the model {}", name(p, t, rec.idx), o.a[1], o.a[2], !x, x));
                    }
                }
                K::DcelDump => {
                    if rec.kind != R_OK {
                        return bad("panic", format!("{}: {}", name(p, t, rec.idx), show(rec)));
                    }
                    let d = &rec.data;
                    let f = |i: usize| f64::from_bits(d.get(i).copied().unwrap_or(0));
                    let w = |i: usize| d.get(i).copied().unwrap_or(u64::MAX);
                    let n = w(1) as usize;
                    let mut ks = vec![];
                    let mut at = 2;
                    let mut ends = vec![];
                    for _ in 0..n.min(64) {
                        ks.push(w(at + 1) as usize);
                        ends.push(((f(at + 3), f(at + 5)), (f(at + 7), f(at + 9))));
                        at += 10;
                    }
                    let ok = ks == have
                        || other.as_ref().map_or(false, |v| {
                            let (lo, hi) = if v.len() < have.len() { (v, &have) } else { (&have, v) };
                            within(lo, &ks) && within(&ks, hi)
                        });
                    if !ok {
                        return bad("edges", format!("{}: the vertex has edges {:?}, the model {:?}", name(p, t, rec.idx), ks, have));
                    }
                    if !at_same((f(at + 1), f(at + 3)), hub) || !at_same((f(at + 5), f(at + 7)), hub) {
                        return bad("edges", format!("{}: the vertex moved to {:?}", name(p, t, rec.idx), (f(at + 1), f(at + 3))));
                    }
                    at += 8;
                    let mut got = vec![];
                    let (r1, r2) = (reached(&es, &kept, &ks), reached(other_es.as_ref().unwrap_or(&es), &kept, &ks));
                    for k in 0..es.len() {
                        if w(at + 1) == 999 {
                            // nobody holds it any more
                            if r1[k] && r2[k] {
                                return bad("edges", format!("{}: edge {} is gone, though it can be reached", name(p, t, rec.idx), k));
                            }
                            got.push(match &other_es {
                                Some(v) if es[k] != v[k] => v[k].clone(),
                                _ => es[k].clone(),
                            });
                            at += 22;
                            continue;
                        }
                        got.push(EdgeM {
                            link: [w(at + 1), w(at + 3), w(at + 5)],
                            h: (w(at + 7), w(at + 13)),
                            ends: ((f(at + 9), f(at + 11)), (f(at + 15), f(at + 17))),
                            arc: w(at + 19) == 1,
                        });
                        if w(at + 19) > 1 || w(at + 21) != 0 {
                            return bad("edges", format!("{}: edge {} changed its kind or face", name(p, t, rec.idx), got.len() - 1));
                        }
                        at += 22;
                    }
                    if got != es && other_es.as_ref() != Some(&got) {
                        let k = (0..es.len()).find(|k| got[*k] != es[*k]).unwrap_or(0);
                        return bad("edges", format!("{}: edge {} is now {:?}, the model {:?}", name(p, t, rec.idx), k, got[k], es[k]));
                    }
                    for (k, x) in ks.iter().zip(&ends) {
                        if got.get(*k).map_or(true, |g| !at_same(g.ends.0, x.0) || !at_same(g.ends.1, x.1)) {
                            return bad("edges", format!("{}: edge {} runs from {:?} to {:?}", name(p, t, rec.idx), k, x.0, x.1));
                        }
                    }
                    have = ks;
                    es = got;
                    other = None;
                    other_es = None;
                }
                _ => {}
            }
        }
    }
    Ver::Ok
}
/// Which edges can be reached from those kept and those at the vertex.
fn reached(es: &[EdgeM], kept: &[bool], at: &[usize]) -> Vec<bool> {
    let mut r = vec![false; es.len()];
    let mut todo: Vec<usize> = (0..es.len()).filter(|k| kept[*k]).chain(at.iter().copied()).collect();
    while let Some(k) = todo.pop() {
        if k < es.len() && !r[k] {
            r[k] = true;
            todo.extend(es[k].link.iter().filter(|l| **l > 0).map(|l| *l as usize - 1));
        }
    }
    r
}
/// a is a subsequence of b
fn within(a: &[usize], b: &[usize]) -> bool {
    let mut j = 0;
    for x in a {
        while j < b.len() && b[j] != *x {
            j += 1;
        }
        if j == b.len() {
            return false;
        }
        j += 1;
    }
    true
}
