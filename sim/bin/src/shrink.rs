//! Minimising a violating plan while it still violates in the same way.
use crate::eval::*;
use crate::run::Ev;
use simcore::plan::*;

fn still(ev: &mut Ev, p: &Plan, class: &str) -> Option<String> {
    ev.cache.clear();
    match eval(ev, p) {
        Ver::Bad(c, d) if c == class => Some(d),
        _ => None,
    }
}
fn item_args(o: &Op) -> std::ops::Range<usize> {
    // which arguments of a call are item numbers
    match o.k {
        K::SwNew | K::SwQuery | K::HullQuery | K::HullDump | K::DcelRemove | K::DcelAdd | K::DcelDump | K::DcelFmt | K::DcelEq | K::Dump => 0..0,
        K::DcelLink => {
            if o.a.get(1).map_or(false, |w| *w == 3 || *w == 4) {
                3..4
            } else {
                0..0
            }
        }
        K::HullPush => 1..2,
        K::SwPush | K::HullNew | K::DcelNew => 1..999,
        K::Fmt | K::Make => 0..1,
        _ => 0..999,
    }
}
fn drop_items(p: &Plan) -> Plan {
    let mut q = p.clone();
    let mut used = vec![false; q.items.len()];
    for o in q.tasks.iter().flatten().chain(&q.nested) {
        let r = item_args(o);
        for (i, a) in o.a.iter().enumerate() {
            if r.contains(&i) && *a < used.len() {
                used[*a] = true;
            }
        }
    }
    let mut map = vec![0; used.len()];
    let mut n = 0;
    for i in 0..used.len() {
        map[i] = n;
        if used[i] {
            n += 1;
        }
    }
    q.items = q.items.iter().enumerate().filter(|(i, _)| used[*i]).map(|(_, x)| x.clone()).collect();
    for o in q.tasks.iter_mut().flatten().chain(q.nested.iter_mut()) {
        let r = item_args(o);
        for (i, a) in o.a.iter_mut().enumerate() {
            if r.contains(&i) && *a < map.len() {
                *a = map[*a];
            }
        }
    }
    q
}
fn candidates(p: &Plan) -> Vec<Plan> {
    let mut v = vec![];
    if p.prop == "C11" && p.arg > 0 {
        for a in [0, p.arg / 2, p.arg - p.arg / 8].into_iter().filter(|a| *a < p.arg) {
            let mut q = p.clone();
            q.arg = a;
            v.push(q);
        }
    }
    // drop a caller
    if p.tasks.len() > 1 {
        for t in 0..p.tasks.len() {
            let mut q = p.clone();
            q.tasks.remove(t);
            q.slices.retain(|s| s.task != t);
            for s in q.slices.iter_mut() {
                if s.task > t {
                    s.task -= 1;
                }
            }
            v.push(q);
        }
    }
    // halves of the schedule, then single slices
    let n = p.slices.len();
    let mut w = n / 2;
    while w >= 1 {
        let mut i = 0;
        while i < n {
            let mut q = p.clone();
            q.slices.drain(i..(i + w).min(n));
            v.push(q);
            i += w;
        }
        if n > 64 && w < n / 16 {
            break;
        }
        w /= 2;
    }
    for t in 0..p.tasks.len() {
        if p.tasks[t].len() > 1 || p.tasks.len() > 1 {
            for i in 0..p.tasks[t].len() {
                let mut q = p.clone();
                q.tasks[t].remove(i);
                if !q.tasks[t].is_empty() {
                    v.push(q);
                }
            }
        }
        for i in 0..p.tasks[t].len() {
            for f in 0..p.tasks[t][i].faults.len() {
                let mut q = p.clone();
                q.tasks[t][i].faults.remove(f);
                v.push(q);
            }
            if p.tasks[t][i].k == K::Sweep && p.tasks[t][i].a.len() > 1 {
                for a in 0..p.tasks[t][i].a.len() {
                    let mut q = p.clone();
                    q.tasks[t][i].a.remove(a);
                    v.push(q);
                }
            }
        }
    }
    for i in 0..p.items.len() {
        if let Item::Poly(x) | Item::Pts(x) = &p.items[i] {
            for k in 0..x.len() {
                let mut q = p.clone();
                if let Item::Poly(y) | Item::Pts(y) = &mut q.items[i] {
                    y.remove(k);
                }
                v.push(q);
            }
        }
    }
    for f in 0..5 {
        let mut q = p.clone();
        match f {
            0 => q.amb.entropy = AMB0.entropy,
            1 => q.amb.clock = AMB0.clock,
            2 => q.amb.env = AMB0.env,
            3 => q.amb.addr = AMB0.addr,
            _ => q.amb.ident = AMB0.ident,
        }
        if q != *p {
            v.push(q);
        }
    }
    if p.tasks.iter().flatten().chain(&p.nested).any(|o| o.alt) {
        let mut q = p.clone();
        for o in q.tasks.iter_mut().flatten().chain(q.nested.iter_mut()) {
            o.alt = false;
        }
        v.push(q);
    }
    if p.simseg {
        let mut q = p.clone();
        q.simseg = false;
        v.push(q);
    }
    let d = drop_items(p);
    if d != *p {
        v.push(d);
    }
    v
}
fn smaller_numbers(p: &Plan) -> Vec<Plan> {
    let mut v = vec![];
    for i in 0..p.slices.len().min(8) {
        for d in [2, 10] {
            if p.slices[i].n > 1 {
                let mut q = p.clone();
                q.slices[i].n /= d;
                if q.slices[i].n > 0 {
                    v.push(q);
                }
            }
        }
    }
    for t in 0..p.tasks.len() {
        for i in 0..p.tasks[t].len() {
            for f in 0..p.tasks[t][i].faults.len() {
                let at = p.tasks[t][i].faults[f].at;
                for na in [1, at / 2, at.saturating_sub(1)] {
                    if na >= 1 && na < at {
                        let mut q = p.clone();
                        q.tasks[t][i].faults[f].at = na;
                        v.push(q);
                    }
                }
            }
        }
    }
    v
}
pub fn shrink(ev: &mut Ev, p: Plan, class: &str, detail: String, secs: f64) -> (Plan, String, u64) {
    let t0 = simcore::raw::now();
    let (mut p, mut detail) = (p, detail);
    let mut tried = 0;
    loop {
        let mut better = false;
        for (round, cs) in [candidates(&p), smaller_numbers(&p)].into_iter().enumerate() {
            for c in cs {
                if simcore::raw::now() - t0 > secs || tried > 1500 {
                    return (p, detail, tried);
                }
                if round == 0 && c.size() >= p.size() && c.amb == p.amb && c.simseg == p.simseg {
                    continue;
                }
                tried += 1;
                if let Some(d) = still(ev, &c, class) {
                    p = c;
                    detail = d;
                    better = true;
                    break;
                }
            }
            if better {
                break;
            }
        }
        if !better {
            return (p, detail, tried);
        }
    }
}
