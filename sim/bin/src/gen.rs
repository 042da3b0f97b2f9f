//! Seeded generation of scenarios. Everything random happens here; what comes out
//! is an explicit plan. Dry runs are used to learn how many events a call has.
use crate::eval::*;
use crate::run::*;
use simcore::plan::*;
use std::f64::consts::PI;

pub struct G {
    pub r: Rng,
    pub items: Vec<Item>,
    style: u64,
    big: bool,
    /// chance that a value is of another magnitude than the rest
    mix: f64,
    /// chance that a value is degenerate: of no size, with too few corners, not finite
    odd: f64,
    pub tangent: bool,
    /// how often two shapes are made to touch
    pub touch: f64,
}

fn kind_of(i: &Item) -> u8 {
    match i {
        Item::Pt(_) => 0,
        Item::Seg(..) => 1,
        Item::Circle(..) => 2,
        Item::Arc(..) => 3,
        Item::Ray(..) => 4,
        Item::Coef(..) => 5,
        Item::Tri(..) => 6,
        Item::Poly(_) => 7,
        Item::Pts(_) => 8,
    }
}

impl G {
    pub fn new(seed: u64) -> G {
        let mut r = Rng::new(seed);
        let style = r.below(6);
        let big = r.chance(0.06);
        let mix = if r.chance(0.3) { 0.2 } else { 0.0 };
        let odd = if r.chance(0.12) { 0.25 } else { 0.0 };
        G { r, items: vec![], style, big, mix, odd, tangent: true, touch: 0.25 }
    }
    fn c(&mut self) -> f64 {
        match self.style {
            0 => self.r.range(-5, 5) as f64,
            1 => self.r.range(-16, 16) as f64 / 4.0,
            2 => (self.r.f() - 0.5) * 20.0,
            3 => (self.r.f() - 0.5) * 2000.0,
            4 => self.r.range(-3, 3) as f64 * 2.0,
            6 => (self.r.f() - 0.5) * 2e5,
            7 => (self.r.f() - 0.5) * 0.01,
            _ => {
                if self.r.chance(0.5) {
                    self.r.range(-8, 8) as f64
                } else {
                    (self.r.f() - 0.5) * 16.0
                }
            }
        }
    }
    fn span(&self) -> f64 {
        match self.style {
            3 => 800.0,
            6 => 80000.0,
            7 => 0.004,
            _ => 6.0,
        }
    }
    fn p(&mut self) -> P {
        if !self.items.is_empty() && self.r.chance(0.15) {
            // reuse a point of an earlier value: touching configurations
            let k = self.r.below(self.items.len() as u64) as usize;
            match &self.items[k] {
                Item::Pt(a) | Item::Seg(a, _) | Item::Circle(a, _) | Item::Tri(a, _, _) | Item::Ray(a, _) => return *a,
                Item::Poly(v) | Item::Pts(v) if !v.is_empty() => {
                    let j = self.r.below(v.len() as u64) as usize;
                    return v[j];
                }
                _ => {}
            }
        }
        (self.c(), self.c())
    }
    fn put(&mut self, i: Item) -> usize {
        self.items.push(i);
        self.items.len() - 1
    }
    fn radius(&mut self) -> f64 {
        if self.style < 6 && self.r.chance(0.6) {
            self.r.range(1, 5) as f64
        } else {
            (self.r.f() + 0.04) * self.span()
        }
    }
    fn radian(&mut self) -> f64 {
        match self.r.below(13) / 4 {
            3 => (self.r.f() - 0.5) * 80.0,
            0 => self.r.range(-8, 8) as f64 * PI / 4.0,
            1 => self.r.range(-24, 24) as f64 * PI / 12.0,
            _ => (self.r.f() - 0.5) * 14.0,
        }
    }
    pub fn pt(&mut self) -> usize {
        let p = self.p();
        self.put(Item::Pt(p))
    }
    /// A point with a fair chance of lying exactly on, or near, the given value.
    pub fn pt_near(&mut self, k: usize) -> usize {
        let it = self.items[k].clone();
        let l = |a: P, b: P, t: f64| (a.0 + (b.0 - a.0) * t, a.1 + (b.1 - a.1) * t);
        let t = *self.r.pick(&[0.0, 0.25, 0.5, 1.0, 1.5, -0.5, 1.0 + 1e-5, -1e-7]);
        let q = match it {
            _ if self.r.chance(0.4) => self.p(),
            Item::Seg(a, b) => l(a, b, t),
            Item::Ray(a, d) => (a.0 + d.0 * t, a.1 + d.1 * t),
            Item::Circle(c, r) | Item::Arc(c, r, _, _) => {
                let a = if let Item::Arc(_, _, s, e) = it { if self.r.chance(0.5) { (s + e) / 2.0 } else { s } } else { self.r.range(0, 7) as f64 * PI / 4.0 };
                let m = *self.r.pick(&[1.0, 1.0, 1.0, 0.5, 2.0, 1.002, 0.9999, 1.0 + 1e-6, 1.0 - 1e-8]);
                (c.0 + r * m * a.cos(), c.1 + r * m * a.sin())
            }
            Item::Tri(a, b, c) => {
                let e = *self.r.pick(&[(a, b), (b, c), (c, a)]);
                if self.r.chance(0.3) {
                    ((a.0 + b.0 + c.0) / 3.0, (a.1 + b.1 + c.1) / 3.0)
                } else {
                    l(e.0, e.1, t)
                }
            }
            Item::Poly(v) if v.len() > 1 => {
                let i = self.r.below(v.len() as u64) as usize;
                l(v[i], v[(i + 1) % v.len()], t)
            }
            Item::Coef(a, b, c) => {
                let x = self.c();
                if b != 0.0 {
                    (x, -(a * x + c) / b)
                } else if a != 0.0 {
                    (-c / a, x)
                } else {
                    self.p()
                }
            }
            _ => self.p(),
        };
        self.put(Item::Pt(q))
    }
    pub fn seg(&mut self) -> usize {
        let a = self.p();
        let mut b = self.p();
        match self.r.below(10) {
            0 => b = (b.0, a.1),
            1 => b = (a.0, b.1),
            2 => {
                // collinear with an earlier segment
                if let Some(Item::Seg(c, d)) = self.items.iter().rev().find(|i| kind_of(i) == 1).cloned() {
                    let (t, u) = (self.r.range(-2, 4) as f64 / 2.0, self.r.range(-2, 4) as f64 / 2.0);
                    let f = |t: f64| (c.0 + (d.0 - c.0) * t, c.1 + (d.1 - c.1) * t);
                    if t != u {
                        return self.put(Item::Seg(f(t), f(u)));
                    }
                }
            }
            _ => {}
        }
        if a == b {
            b = (a.0 + 1.0, a.1 + 2.0);
        }
        self.put(Item::Seg(a, b))
    }
    pub fn circle(&mut self) -> usize {
        let (c, r) = (self.p(), self.radius());
        self.put(Item::Circle(c, r))
    }
    pub fn arc(&mut self) -> usize {
        let (c, r, s, mut t) = (self.p(), self.radius(), self.radian(), self.radian());
        if (s - t).abs() < 0.01 {
            t = s + 1.0;
        }
        self.put(Item::Arc(c, r, s, t))
    }
    pub fn ray(&mut self) -> usize {
        let (o, mut d) = (self.p(), self.p());
        if d == (0.0, 0.0) {
            d = (1.0, 0.5);
        }
        self.put(Item::Ray(o, d))
    }
    pub fn coef(&mut self) -> usize {
        let (mut a, b, c) = (self.c(), self.c(), self.c());
        if a == 0.0 && b == 0.0 {
            a = 1.0;
        }
        self.put(Item::Coef(a, b, c))
    }
    pub fn tri(&mut self) -> usize {
        let (a, b, c) = (self.p(), self.p(), self.p());
        self.put(Item::Tri(a, b, c))
    }
    pub fn any_seg(&mut self) -> usize {
        if self.odd > 0.0 && self.r.chance(self.odd) {
            let k = *self.r.pick(&[1, 1, 2, 3]);
            return self.degenerate(k);
        }
        match self.r.below(10) {
            0..=5 => self.seg(),
            6 => self.circle(),
            _ => self.arc(),
        }
    }
    pub fn poly_pts(&mut self, simple: bool) -> Vec<P> {
        let n = if self.big && self.r.chance(0.1) {
            self.r.range(60, 140)
        } else if self.big {
            self.r.range(16, 48)
        } else {
            self.r.range(3, 12)
        } as usize;
        let o = (self.c(), self.c());
        let s = self.span();
        let mut v: Vec<P> = match self.r.below(if simple { 6 } else { 7 }) {
            0 | 1 => {
                // star-shaped
                let mut a: Vec<f64> = (0..n).map(|i| (i as f64 + 0.1 + 0.8 * self.r.f()) * 2.0 * PI / n as f64).collect();
                a.sort_by(|x, y| x.partial_cmp(y).unwrap());
                a.iter()
                    .map(|t| {
                        let r = s * (0.3 + 0.7 * self.r.f());
                        (o.0 + r * t.cos(), o.1 + r * t.sin())
                    })
                    .collect()
            }
            2 => {
                // convex
                (0..n)
                    .map(|i| {
                        let t = i as f64 * 2.0 * PI / n as f64;
                        (o.0 + s * t.cos(), o.1 + s * t.sin())
                    })
                    .collect()
            }
            3 => {
                // comb with integer teeth: collinear vertices, many ears
                let k = (n / 4).max(1);
                let mut v = vec![(0.0, 0.0), (2.0 * k as f64, 0.0)];
                for i in (0..k).rev() {
                    let h = self.r.range(2, 6) as f64;
                    v.push((2.0 * i as f64 + 2.0, h));
                    v.push((2.0 * i as f64 + 1.0, h));
                    v.push((2.0 * i as f64 + 1.0, 1.0));
                    if i > 0 {
                        v.push((2.0 * i as f64, 1.0));
                    }
                }
                v.push((0.0, 1.0));
                v.iter().map(|p| (p.0 + o.0.round(), p.1 + o.1.round())).collect()
            }
            4 => {
                // rectangle, perhaps with collinear midpoints
                let (w, h) = (self.r.range(1, 6) as f64, self.r.range(1, 6) as f64);
                let q = [o, (o.0 + w, o.1), (o.0 + w, o.1 + h), (o.0, o.1 + h)];
                let mut v = vec![];
                for i in 0..4 {
                    v.push(q[i]);
                    if self.r.chance(0.3) {
                        let b = q[(i + 1) % 4];
                        v.push(((q[i].0 + b.0) / 2.0, (q[i].1 + b.1) / 2.0));
                    }
                }
                v
            }
            5 => {
                // one dent
                let (w, h) = (self.r.range(2, 8) as f64, self.r.range(2, 8) as f64);
                let d = 0.1 + 0.8 * self.r.f();
                let mut v = vec![o, (o.0 + w, o.1 + h), (o.0, o.1 + 2.0 * h), (o.0 + d * w, o.1 + h)];
                if self.r.chance(0.3) {
                    v.insert(2, (o.0 + w, o.1 + 1.5 * h));
                }
                v
            }
            _ => (0..n.min(9)).map(|_| self.p()).collect(),
        };
        if self.r.chance(0.35) {
            v.reverse();
        }
        if self.r.chance(0.3) {
            let k = self.r.below(v.len() as u64) as usize;
            v.rotate_left(k);
        }
        v
    }
    pub fn poly(&mut self) -> usize {
        let v = self.poly_pts(false);
        self.put(Item::Poly(v))
    }
    pub fn pts(&mut self, clean: bool) -> usize {
        let n = if self.big && self.r.chance(0.12) {
            self.r.range(300, 900)
        } else if self.big {
            self.r.range(30, 120)
        } else { *self.r.pick(&[0, 1, 2, 3, 4, 5, 6, 8, 10, 14, 20])
        } as usize;
        let mut v: Vec<P> = vec![];
        let how = if n > 200 && self.r.chance(0.4) { 5 } else { self.r.below(5) };
        for i in 0..n {
            let q = match how {
                // long chains, and a few points that take a stretch of one away
                5 => {
                    let (x, top) = (i as f64 / 16.0, (n as f64 / 16.0).powi(2) * 2.0);
                    let y = x * x - if self.r.chance(0.005) { self.r.range(1, 30) as f64 } else { 0.0 };
                    (x, if i % 8 == 0 { top - y } else { y })
                }
                0 => (i as f64 % 5.0, (i / 5) as f64),
                1 => {
                    let t = i as f64 * 2.0 * PI / n as f64;
                    if clean {
                        ((t.cos() * 1000.0).round() / 100.0, (t.sin() * 1000.0).round() / 100.0)
                    } else {
                        (5.0 * t.cos(), 5.0 * t.sin())
                    }
                }
                2 => {
                    let t = self.c();
                    (t, 2.0 * t)
                }
                _ => {
                    if i > 0 && self.r.chance(0.15) {
                        v[self.r.below(i as u64) as usize]
                    } else {
                        self.p()
                    }
                }
            };
            v.push(q);
        }
        if self.r.chance(0.5) {
            for i in (1..v.len()).rev() {
                let j = self.r.below(i as u64 + 1) as usize;
                v.swap(i, j);
            }
        }
        if clean {
            // no two coordinates closer than the library's tolerance without being equal
            for q in v.iter_mut() {
                *q = ((q.0 * 1024.0).round() / 1024.0, (q.1 * 1024.0).round() / 1024.0);
            }
        }
        self.put(Item::Pts(v))
    }
    fn reuse(&mut self, k: u8) -> Option<usize> {
        if !self.r.chance(0.5) {
            return None;
        }
        let c: Vec<usize> = (0..self.items.len()).filter(|i| kind_of(&self.items[*i]) == k).collect();
        if c.is_empty() {
            None
        } else {
            Some(*self.r.pick(&c))
        }
    }
    pub fn get(&mut self, k: u8) -> usize {
        if let Some(i) = self.reuse(k) {
            if self.r.chance(0.35) {
                return self.like(i);
            }
            return i;
        }
        if self.mix > 0.0 && self.style < 6 && self.r.chance(self.mix) {
            let style = self.style;
            self.style = *self.r.pick(&[0, 3, 6, 7]);
            let i = self.make(k);
            self.style = style;
            return i;
        }
        self.make(k)
    }
    fn degenerate(&mut self, k: u8) -> usize {
        let w = self.r.below(4);
        let bad = *self.r.pick(&[f64::NAN, f64::INFINITY, -0.0, 1e300, 1e-300, f64::NEG_INFINITY]);
        let (p, mut q) = (self.p(), self.p());
        if w == 0 {
            q.0 = bad;
        } else if w == 1 {
            q.1 = bad;
        }
        let r = self.radius();
        let i = match k {
            0 => Item::Pt(q),
            1 => Item::Seg(p, if w == 3 { p } else { q }),
            2 => Item::Circle(if w < 2 { q } else { p }, *self.r.pick(&[0.0, -1.0, 1e-12, r])),
            3 => {
                let (mut s, t) = (self.radian(), self.radian());
                if w == 3 {
                    s = t;
                }
                Item::Arc(if w == 0 { q } else { p }, *self.r.pick(&[0.0, 1e-12, r, r]), s * *self.r.pick(&[1.0, 7.0, -9.0]), t * *self.r.pick(&[1.0, 5.0, 20.0]))
            }
            4 => Item::Ray(p, if w == 3 { (0.0, 0.0) } else { q }),
            5 => Item::Coef(q.0, q.1, p.0),
            6 => Item::Tri(p, q, if w == 3 { p } else { self.p() }),
            k => {
                let n = *self.r.pick(&[0, 1, 2, 2, 3, 4, 6]);
                let mut v: Vec<P> = (0..n).map(|_| if self.r.chance(0.2) { p } else { self.p() }).collect();
                if n > 0 && w < 2 && self.r.chance(0.5) {
                    v[0] = q;
                }
                if k == 7 {
                    Item::Poly(v)
                } else {
                    Item::Pts(v)
                }
            }
        };
        self.put(i)
    }
    fn make(&mut self, k: u8) -> usize {
        if self.odd > 0.0 && self.r.chance(self.odd) {
            return self.degenerate(k);
        }
        match k {
            0 => self.pt(),
            1 => self.seg(),
            2 => self.circle(),
            3 => self.arc(),
            4 => self.ray(),
            5 => self.coef(),
            6 => self.tri(),
            7 => self.poly(),
            _ => self.pts(false),
        }
    }
    /// A value that agrees with an earlier one in most of what could identify it.
    pub fn like(&mut self, i: usize) -> usize {
        let mut it = self.items[i].clone();
        let d = *self.r.pick(&[1.0, -1.0, 0.5, 0.25, 3.0]);
        let w = self.r.below(4);
        let side = self.r.chance(0.5);
        let nudge = |p: &mut P| if side { p.0 += d } else { p.1 += d };
        let r = &mut self.r;
        match &mut it {
            Item::Pt(a) => match w {
                0 => *a = (a.1, a.0),
                1 => *a = (-a.0, a.1),
                _ => nudge(a),
            },
            Item::Seg(a, b) => match w {
                0 => std::mem::swap(a, b),
                1 => nudge(a),
                2 => nudge(b),
                _ => {
                    nudge(a);
                    nudge(b)
                }
            },
            Item::Circle(c, rad) => match w {
                0 | 1 => *rad = (*rad + d).abs() + 0.25,
                _ => nudge(c),
            },
            Item::Arc(c, rad, s, t) => match w {
                0 => std::mem::swap(s, t),
                1 => *t = *s + 0.3 + r.f() * 5.0,
                2 => *rad = (*rad + d).abs() + 0.25,
                _ => nudge(c),
            },
            Item::Ray(o, v) => match w {
                0 => *v = (-v.0, -v.1),
                1 => *v = (v.0 + 1.0, v.1 + 0.5),
                _ => nudge(o),
            },
            Item::Coef(a, b, c) => match w {
                0 => *c += d,
                1 => std::mem::swap(a, b),
                _ => *c = -*c,
            },
            Item::Tri(a, b, c) => match w {
                0 => std::mem::swap(a, b),
                1 => nudge(a),
                2 => nudge(b),
                _ => nudge(c),
            },
            Item::Poly(v) | Item::Pts(v) => {
                let n = v.len();
                if n > 0 {
                    let k = r.below(n as u64) as usize;
                    let j = r.below(n as u64) as usize;
                    match w {
                        0 => v.reverse(),
                        1 => v.swap(k, j),
                        2 => nudge(&mut v[k]),
                        _ => {
                            for q in v.iter_mut() {
                                nudge(q)
                            }
                        }
                    }
                }
            }
        }
        if let Item::Seg(a, b) = &mut it {
            if a == b {
                *b = (a.0 + 1.0, a.1 + 2.0)
            }
        }
        self.put(it)
    }
    pub fn prim(&mut self) -> usize {
        let k = *self.r.pick(&[1u8, 1, 2, 3, 3]);
        self.get(k)
    }
    /// A segment, circle or arc that meets an earlier one exactly: at a shared end, with
    /// an end on its inside, along a piece of it, or (if allowed) as a tangent.
    pub fn touching(&mut self, i: usize) -> usize {
        let it = self.items[i].clone();
        let on = |c: P, r: f64, t: f64| (c.0 + r * t.cos(), c.1 + r * t.sin());
        let mid = |a: P, b: P, t: f64| (a.0 + (b.0 - a.0) * t, a.1 + (b.1 - a.1) * t);
        let t = *self.r.pick(&[0.0, 0.0, 1.0, 1.0, 0.5, 0.25]);
        let quarter = self.r.range(0, 3) as f64 * PI / 2.0;
        // the point at which the two will meet, and the direction of the first there
        let (q, d) = match it {
            Item::Seg(a, b) => (mid(a, b, t), (b.0 - a.0, b.1 - a.1)),
            Item::Circle(c, r) => {
                let q = if self.r.chance(0.5) { on(c, r, quarter) } else { (c.0 + r * 0.6, c.1 - r * 0.8) };
                (q, (c.1 - q.1, q.0 - c.0))
            }
            Item::Arc(c, r, s, e) => {
                let q = on(c, r, s + (e - s) * t);
                (q, (c.1 - q.1, q.0 - c.0))
            }
            _ => (self.p(), (1.0, 0.0)),
        };
        if let Item::Circle(c, r) | Item::Arc(c, r, _, _) = it {
            if self.r.chance(0.3) {
                // another piece of the same circle, from or to an end of this one
                let (s, e) = if let Item::Arc(_, _, s, e) = it { (s, e) } else { (0.0, PI) };
                let w = *self.r.pick(&[0.5, 1.0, PI / 2.0, PI, 4.0, -0.5, -1.5]);
                let n = match self.r.below(4) {
                    0 => (e, e + w),
                    1 => (s - w, s),
                    2 => (s, e + w),
                    _ => (s + w, s + w + PI),
                };
                return self.put(Item::Arc(c, r, n.0, n.1));
            }
        }
        let (x, y, z) = *self.r.pick(&[(3.0, 4.0, 5.0), (4.0, 3.0, 5.0), (5.0, 12.0, 13.0), (8.0, 15.0, 17.0), (0.0, 1.0, 1.0), (1.0, 0.0, 1.0)]);
        let k = *self.r.pick(&[0.25, 0.5, 1.0, 2.0]) * if self.style == 3 { 64.0 } else { 1.0 };
        let (sx, sy) = (if self.r.chance(0.5) { k } else { -k }, if self.r.chance(0.5) { k } else { -k });
        let off = (x * sx, y * sy);
        if self.tangent && self.r.chance(0.25) {
            let l = (d.0 * d.0 + d.1 * d.1).sqrt().max(1e-3);
            let u = (d.0 / l, d.1 / l);
            return match self.r.below(3) {
                0 => self.put(Item::Seg((q.0 - d.0, q.1 - d.1), (q.0 + d.0, q.1 + d.1))),
                1 => self.put(Item::Circle((q.0 - u.1 * k, q.1 + u.0 * k), k.abs())),
                _ => self.put(Item::Circle((q.0 + u.1 * k, q.1 - u.0 * k), k.abs())),
            };
        }
        let n = match self.r.below(6) {
            0 => Item::Seg(q, (q.0 + off.0, q.1 + off.1)),
            1 => Item::Seg((q.0 + off.0, q.1 + off.1), q),
            2 => Item::Seg((q.0 - off.0, q.1 - off.1), (q.0 + off.0, q.1 + off.1)),
            3 => Item::Circle((q.0 + off.0, q.1 + off.1), z * k),
            _ => {
                let c = (q.0 + off.0, q.1 + off.1);
                let a = (-off.1).atan2(-off.0);
                let w = *self.r.pick(&[0.5, 1.0, PI / 2.0, PI, 4.0, -1.0]);
                let (s, e) = match self.r.below(3) {
                    0 => (a, a + w),
                    1 => (a - w, a),
                    _ => (a - w / 2.0, a + w),
                };
                Item::Arc(c, z * k, s, e)
            }
        };
        self.put(n)
    }
    pub fn sweep_set(&mut self, max: i64) -> Vec<usize> {
        let n = if self.big { self.r.range(8, 16) } else { self.r.range(1, max) };
        let mut v: Vec<usize> = vec![];
        for _ in 0..n {
            let i = if self.touch > 0.5 && !v.is_empty() && self.r.chance(self.touch) {
                let k = *self.r.pick(&v);
                self.touching(k)
            } else if self.r.chance(0.15) {
                self.prim()
            } else {
                self.any_seg()
            };
            v.push(i);
        }
        v
    }
    pub fn op(&mut self, k: K) -> Op {
        let a = match k {
            K::Hull => vec![self.get(8)],
            K::Sweep => self.sweep_set(6),
            K::Earcut => {
                if let Some(i) = self.reuse(7) {
                    vec![i]
                } else {
                    let s = self.r.chance(0.85);
                    let v = self.poly_pts(s);
                    vec![self.put(Item::Poly(v))]
                }
            }
            K::PolyInfo | K::IsSimple => vec![self.get(7)],
            K::LocPoly | K::LocTri | K::LocSeg | K::LocCircle | K::LocArc | K::LocRay | K::LocLine | K::ProjLine | K::ProjSeg => {
                let kk = match k {
                    K::LocPoly => 7,
                    K::LocTri => 6,
                    K::LocSeg | K::ProjSeg => 1,
                    K::LocCircle => 2,
                    K::LocArc => 3,
                    K::LocRay => 4,
                    _ => 5,
                };
                let v = self.get(kk);
                let p = if self.r.chance(0.7) { self.pt_near(v) } else { self.get(0) };
                vec![p, v]
            }
            K::Isect => {
                let a = self.prim();
                let b = if self.r.chance(self.touch) { self.touching(a) } else { self.prim() };
                if self.r.chance(0.5) {
                    vec![a, b]
                } else {
                    vec![b, a]
                }
            }
            K::LineLine => vec![self.get(5), self.get(5)],
            K::LineRay => vec![self.get(5), self.get(4)],
            K::SegRay => vec![self.get(1), self.get(4)],
            K::TriInfo => vec![self.get(6)],
            K::VecOps | K::PointOps => vec![self.get(0), self.get(0)],
            K::ArcOps => {
                let kk = if self.r.chance(0.8) { 3 } else { 2 };
                vec![self.get(kk)]
            }
            K::Fmt => {
                let kk = *self.r.pick(&[0u8, 0, 0, 1, 2, 3, 5, 6, 6]);
                let alt = self.r.below(9) as usize;
                vec![self.get(kk), alt]
            }
            K::Make => {
                let kk = self.r.below(9) as u8;
                let i = self.get(kk);
                if self.r.chance(0.5) { vec![i] } else { vec![i, 1] }
            }
            K::Equal => {
                let kk = self.r.below(9) as u8;
                let a = self.get(kk);
                let b = match self.r.below(3) {
                    0 => self.like(a),
                    1 => self.put(self.items[a].clone()),
                    _ => self.get(kk),
                };
                vec![a, b]
            }
            K::Dcel => (0..self.r.range(3, 6)).map(|_| self.get(0)).collect(),
            _ => vec![],
        };
        Op::new(k, a)
    }
    pub fn stateless(&mut self) -> Op {
        let k = *self.r.pick(STATELESS);
        self.op(k)
    }
}
pub const STATELESS: &[K] = &[
    K::Hull, K::Hull, K::Hull, K::Sweep, K::Sweep, K::Sweep, K::Earcut, K::Earcut, K::Earcut, K::PolyInfo,
    K::IsSimple, K::IsSimple, K::LocPoly, K::LocPoly, K::LocTri, K::LocSeg, K::LocCircle, K::LocArc, K::LocRay, K::LocLine,
    K::Isect, K::Isect, K::Isect, K::LineLine, K::LineRay, K::SegRay, K::ProjLine, K::ProjSeg, K::TriInfo,
    K::VecOps, K::ArcOps, K::PointOps, K::Fmt, K::Dcel, K::Make, K::Equal,
];
pub const HEAVY: &[K] = &[K::Hull, K::Sweep, K::Earcut, K::IsSimple, K::LocPoly, K::Isect, K::ArcOps];

fn num(r: &mut Rng, sim: f64) -> Num {
    let s = r.chance(sim);
    match (s, r.chance(0.75)) {
        (true, true) => Num::S64,
        (true, false) => Num::S32,
        (false, true) => Num::F64,
        (false, false) => Num::F32,
    }
}

/// Give some calls another number type than the rest: everything made with one type
/// must be untouched by what is done with another in the same process.
fn mix_types(g: &mut G, p: &mut Plan, chance: f64) {
    if !g.r.chance(chance) {
        return;
    }
    p.alt = match (p.num, g.r.below(4)) {
        (Num::F64, 0) => Num::S32,
        (Num::F64, _) => Num::F32,
        (Num::F32, 0) => Num::S64,
        (Num::F32, _) => Num::F64,
        (Num::S64, 0) => Num::F64,
        (Num::S64, 1) => Num::F32,
        (Num::S64, _) => Num::S32,
        (Num::S32, 0) => Num::F32,
        (Num::S32, 1) => Num::F64,
        (Num::S32, _) => Num::S64,
    };
    let rate = *g.r.pick(&[0.2, 0.5, 0.5, 0.8]);
    let by_task = g.r.chance(0.2);
    let obj = g.r.u();
    for t in 0..p.tasks.len() {
        let whole = g.r.chance(rate);
        for o in p.tasks[t].iter_mut() {
            o.alt = if STATEFUL.contains(&o.k) {
                // one object, one type
                let kind = match o.k {
                    K::SwNew | K::SwPush | K::SwQuery => 1,
                    K::HullNew | K::HullQuery | K::HullDump | K::HullPush => 2,
                    _ => 3,
                };
                mix(obj ^ (o.a[0] as u64 & 7) << 8 ^ kind << 4) & 3 < 2
            } else if by_task {
                whole
            } else {
                g.r.chance(rate)
            };
        }
    }
    for o in p.nested.iter_mut() {
        o.alt = g.r.chance(0.5);
    }
}

/// Steps and event counts of every call of a plan, undisturbed.
fn dry(ev: &mut Ev, p: &Plan) -> Option<std::rc::Rc<Run>> {
    let mut q = plain(p);
    q.prop = "alone".into();
    let b = ev.base(&q);
    if b.done() {
        Some(b)
    } else {
        None
    }
}
/// A position among n events: uniform, or biased to the ends.
fn pos(r: &mut Rng, n: u64) -> u64 {
    if n == 0 {
        return 1;
    }
    match r.below(8) {
        0 => 1 + r.below(n.min(6)),
        1 => n - r.below(n.min(6)),
        _ => 1 + r.below(n),
    }
}
/// A failing event inside a call with the given counts.
fn failure(r: &mut Rng, n: &[u64; NF], cmp: bool) -> Option<Fault> {
    let mut kinds = vec![];
    for k in [F::Top, F::Top, F::Alloc, F::Alloc, F::Seg, F::Seg, F::Cmp] {
        if n[k as usize] > 0 && (k != F::Cmp || cmp) {
            kinds.push(k);
        }
    }
    if kinds.is_empty() {
        return None;
    }
    let k = *r.pick(&kinds);
    // once, or from there on to the end of the call
    let lasts = (k != F::Cmp && r.chance(0.25)) as i64;
    Some(Fault { kind: k, at: pos(r, n[k as usize]), arg: lasts })
}

fn slices(r: &mut Rng, p: &mut Plan, steps: &[u64]) {
    let n = p.tasks.len() as u64;
    let tot: u64 = steps.iter().sum();
    match r.below(6) {
        0 => {
            // a few preemptions at uniformly random points
            for _ in 0..r.range(1, 4) {
                let t = r.below(n) as usize;
                p.slices.push(Slice { task: t, unit: Unit::Steps, n: 1 + r.below(steps[t].max(1)) });
            }
        }
        1 => {
            // round robin of one granularity
            let g = 1 << r.below(12);
            let k = (2 * tot / g + 2).min(400);
            for i in 0..k {
                p.slices.push(Slice { task: (i % n) as usize, unit: Unit::Steps, n: g });
            }
        }
        2 => {
            // random walk
            let g = 1 + tot / (2 + r.below(40));
            for _ in 0..r.range(4, 200) {
                p.slices.push(Slice { task: r.below(n) as usize, unit: Unit::Steps, n: 1 + r.below(g) });
            }
        }
        3 => {
            // very fine, starting somewhere
            for t in 0..n as usize {
                p.slices.push(Slice { task: t, unit: Unit::Steps, n: 1 + r.below(steps[t].max(1)) });
            }
            for _ in 0..r.range(20, 300) {
                p.slices.push(Slice { task: r.below(n) as usize, unit: Unit::Steps, n: 1 + r.below(12) });
            }
        }
        4 => {
            // around accesses to memory that could be shared
            for _ in 0..r.range(2, 200) {
                let w = if r.chance(0.7) { 3 } else { 40 };
                p.slices.push(Slice { task: r.below(n) as usize, unit: Unit::Hot, n: 1 + r.below(w) });
            }
        }
        _ => {
            for _ in 0..r.range(2, 24) {
                p.slices.push(if r.chance(0.5) {
                    Slice { task: r.below(n) as usize, unit: Unit::Ops, n: 1 + r.below(2) }
                } else {
                    Slice { task: r.below(n) as usize, unit: Unit::Steps, n: 1 + r.below(tot / 2 + 1) }
                });
            }
        }
    }
}

/// One scenario: a base plan and its variants, each decided by `eval`.
/// Returns the first violating plan.
pub fn scenario(ev: &mut Ev, prop: &str, seed: u64, depth: u64) -> Option<(Plan, String, String)> {
    ev.cache.clear();
    let mut g = G::new(seed);
    let mut p = Plan::new(prop, seed, Num::F64);
    p.cap = RUN_CAP;
    let mut variants: Vec<Plan> = vec![];
    if matches!(prop, "C13" | "C15" | "C16" | "C17") {
        g.odd = 0.0;
    }
    let v = match prop {
        "C01" => c01(ev, &mut g, &mut p, &mut variants, 6 * depth),
        "C02" => c02(ev, &mut g, &mut p, &mut variants, 6 * depth),
        "C03" => c03(ev, &mut g, &mut p, &mut variants, 14 * depth),
        "C04" => c04(ev, &mut g, &mut p, &mut variants, 14 * depth),
        "C05" => c05(&mut g, &mut p, &mut variants),
        "C06" => c06(ev, &mut g, &mut p, &mut variants),
        "C07" => c07(&mut g, &mut p, &mut variants, 4 * depth),
        "C08" => c08(ev, &mut g, &mut p, &mut variants, 5 * depth),
        "C09" => c09(ev, &mut g, &mut p, &mut variants, 14 * depth),
        "C10" => c10(ev, &mut g, &mut p, &mut variants, 20 * depth),
        "C11" => c11(ev, &mut g, &mut p, &mut variants, 3 * depth),
        "C12" => c12(ev, &mut g, &mut p, &mut variants, 6 * depth),
        "C13" => c13(&mut g, &mut p, &mut variants, 8 * depth),
        "C14" => c14(ev, &mut g, &mut p, &mut variants, 14 * depth),
        "C15" => c15(ev, &mut g, &mut p, &mut variants, 8 * depth),
        "C17" => c17(ev, &mut g, &mut p, &mut variants, 10 * depth),
        "C16" => c16(ev, &mut g, &mut p, &mut variants, 10 * depth),
        _ => None,
    };
    ev.st.add("scenarios", 1);
    if v.is_none() {
        ev.st.add("discarded:a call does not finish even alone", 1);
        return None;
    }
    for q in variants {
        if ev.keep {
            ev.kept.push(q.to_text());
        }
        ev.st.add("evaluations", 1);
        match eval(ev, &q) {
            Ver::Ok => {}
            Ver::Discard(w) => {
                ev.st.add(&format!("discarded:{}", w), 1);
            }
            Ver::Bad(c, d) => {
                if std::env::var("SIM_ALL").is_ok() {
                    println!("{} {} {}\n{}", q.tasks[0][0].k.name(), c, d, q.to_text());
                    break;
                }
                return Some((q, c, d));
            }
        }
    }
    None
}

type O = Option<()>;

fn callers(g: &mut G, p: &mut Plan) {
    let nt = *g.r.pick(&[2, 2, 2, 2, 3, 3, 4]);
    // same kind of call everywhere is where sharing would hurt most
    let focus = if g.r.chance(0.6) { Some(*g.r.pick(STATELESS)) } else { None };
    let focus2 = if g.r.chance(0.3) { Some(*g.r.pick(HEAVY)) } else { None };
    for t in 0..nt {
        let mut ops = vec![];
        if focus.is_none() && g.r.chance(0.2) {
            // an object of the caller's own
            ops.push(Op::new(K::SwNew, vec![t]));
            for i in g.sweep_set(4) {
                ops.push(Op::new(K::SwPush, vec![t, i]));
            }
            ops.push(Op::new(K::SwQuery, vec![t]));
        }
        let n = g.r.range(if ops.is_empty() { 1 } else { 0 }, 3);
        for _ in 0..n {
            let o = match (focus, focus2) {
                (Some(k), Some(j)) => {
                    let k = if g.r.chance(0.5) { k } else { j };
                    g.op(k)
                }
                (Some(k), None) => g.op(k),
                _ => g.stateless(),
            };
            ops.push(o);
        }
        p.tasks.push(ops);
    }
    if g.r.chance(0.3) {
        let t = g.r.below(nt as u64) as usize;
        p.tasks[t].push(Op::new(K::Dump, vec![]));
    }
    p.simseg = g.r.chance(0.3);
}

fn solo_steps(ev: &mut Ev, p: &Plan) -> Option<Vec<u64>> {
    let d = dry(ev, p)?;
    Some(d.recs.iter().map(|t| t.iter().map(|r| r.steps).sum()).collect())
}

fn c01(ev: &mut Ev, g: &mut G, p: &mut Plan, out: &mut Vec<Plan>, n: u64) -> O {
    let nest = g.r.chance(0.25);
    // re-entry from the segment type needs no number type of the caller's own
    let seg = nest && g.r.chance(0.4);
    p.num = num(&mut g.r, if seg { 0.5 } else if nest { 1.0 } else { 0.3 });
    callers(g, p);
    if seg {
        p.simseg = true;
        let ops = if g.r.chance(0.5) {
            let mut v = vec![Op::new(K::SwNew, vec![0])];
            v.extend(g.sweep_set(4).into_iter().map(|i| Op::new(K::SwPush, vec![0, i])));
            v.push(Op::new(K::SwQuery, vec![0]));
            v
        } else {
            let k = *g.r.pick(&[K::Sweep, K::Isect, K::LocArc, K::LocCircle, K::ProjSeg]);
            vec![g.op(k)]
        };
        p.tasks[0] = ops;
        if g.r.chance(0.5) {
            p.tasks.truncate(1);
        }
        let o = if g.r.chance(0.6) { g.op(K::Sweep) } else { g.op(K::Isect) };
        p.nested.push(o);
    }
    if nest {
        for _ in 0..g.r.range(1, 2) {
            let o = if g.r.chance(0.5) {
                // the same kind of call from inside itself
                let k = p.tasks[0].last().unwrap().k;
                let k = if k == K::SwQuery { K::Sweep } else { k };
                if STATEFUL.contains(&k) || k == K::Dump { g.stateless() } else { g.op(k) }
            } else {
                g.stateless()
            };
            p.nested.push(o);
        }
    }
    mix_types(g, p, 0.35);
    p.items = g.items.clone();
    let d = dry(ev, p)?;
    let steps = solo_steps(ev, p)?;
    for _ in 0..n {
        let mut q = p.clone();
        slices(&mut g.r, &mut q, &steps);
        if nest {
            for _ in 0..g.r.range(1, 3) {
                let t = g.r.below(q.tasks.len() as u64) as usize;
                let i = g.r.below(q.tasks[t].len() as u64) as usize;
                let (i, from, kind) = if seg && g.r.chance(0.7) {
                    // where the segment type is called at all
                    let v: Vec<usize> = (0..q.tasks[t].len()).filter(|i| d.op(t, *i as u64).map_or(false, |r| r.n[F::Seg as usize] > 0)).collect();
                    if v.is_empty() {
                        continue;
                    }
                    (*g.r.pick(&v), F::Seg, F::NestedSeg)
                } else {
                    (i, F::Top, F::Nested)
                };
                let c = d.op(t, i as u64)?.n[from as usize];
                if c > 0 {
                    let k = g.r.below(q.nested.len() as u64) as i64;
                    let at = pos(&mut g.r, c);
                    q.tasks[t][i].faults.push(Fault { kind, at, arg: k });
                }
            }
        }
        out.push(q);
    }
    Some(())
}

fn c02(ev: &mut Ev, g: &mut G, p: &mut Plan, out: &mut Vec<Plan>, n: u64) -> O {
    p.num = num(&mut g.r, 0.7);
    if g.r.chance(0.2) {
        // one call, and others that keep beginning and ending around it
        p.num = num(&mut g.r, 0.3);
        let k = *g.r.pick(STATELESS);
        let one = g.op(k);
        let few: Vec<Op> = (0..g.r.range(1, 3)).map(|_| g.op(k)).collect();
        let m = g.r.range(20, 120);
        p.tasks = vec![vec![one], (0..m).map(|_| g.r.pick(&few).clone()).collect()];
        if g.r.chance(0.3) {
            p.tasks[0] = vec![g.op(k), g.op(k)];
        }
        mix_types(g, p, 0.1);
        p.items = g.items.clone();
        let steps = solo_steps(ev, p)?;
        for _ in 0..n {
            let mut q = p.clone();
            let parts = *g.r.pick(&[2u64, 3, 5, 10, 20, 40, 80]);
            let each = (steps[0] / parts).max(2);
            let first = g.r.below(steps[0] + 1);
            if g.r.chance(0.5) {
                q.slices.push(Slice { task: 0, unit: Unit::Steps, n: first.max(1) });
            }
            for _ in 0..m {
                q.slices.push(Slice { task: 1, unit: Unit::Ops, n: 1 });
                let n = if g.r.chance(0.8) { each } else { 1 + g.r.below(2 * each) };
                q.slices.push(Slice { task: 0, unit: Unit::Steps, n });
            }
            out.push(q);
        }
        return Some(());
    }
    if g.r.chance(0.2) {
        return c02_many(ev, g, p, out, n);
    }
    callers(g, p);
    mix_types(g, p, 0.2);
    p.items = g.items.clone();
    let d = dry(ev, p)?;
    let steps = solo_steps(ev, p)?;
    for _ in 0..n {
        let mut q = p.clone();
        let v = g.r.below(q.tasks.len() as u64) as usize;
        let crash = matches!(q.num, Num::S64 | Num::S32) && g.r.chance(0.5);
        if crash {
            let i = g.r.below(q.tasks[v].len() as u64) as usize;
            if STATEFUL.contains(&q.tasks[v][i].k) {
                continue;
            }
            let Some(f) = failure(&mut g.r, &d.op(v, i as u64)?.n, false) else { continue };
            q.tasks[v][i].faults.push(f);
            q.tasks[v].truncate(i + 1);
            // more of them, so long as one is left
            for w in 0..q.tasks.len() {
                if w == v || q.tasks.iter().filter(|t| t.iter().all(|o| o.faults.is_empty())).count() < 2 || !g.r.chance(0.4) {
                    continue;
                }
                let j = g.r.below(q.tasks[w].len() as u64) as usize;
                if STATEFUL.contains(&q.tasks[w][j].k) {
                    continue;
                }
                if let Some(f) = failure(&mut g.r, &d.op(w, j as u64)?.n, false) {
                    q.tasks[w][j].faults.push(f);
                    q.tasks[w].truncate(j + 1);
                }
            }
            if g.r.chance(0.5) {
                // the crash happens first, or in the middle of somebody else's call
                q.slices.push(Slice { task: v, unit: Unit::Steps, n: steps[v].max(1) });
            } else {
                slices(&mut g.r, &mut q, &steps);
            }
        } else {
            if g.r.chance(0.4) {
                let o = g.r.below(q.tasks.len() as u64) as usize;
                q.slices.push(Slice { task: o, unit: Unit::Steps, n: 1 + g.r.below(steps[o].max(1)) });
            }
            if g.r.chance(0.4) {
                q.slices.push(Slice { task: v, unit: Unit::Hot, n: 1 + g.r.below(6) });
            } else {
                q.slices.push(Slice { task: v, unit: Unit::Steps, n: pos(&mut g.r, steps[v].max(1)) });
            }
            q.slices.push(Slice { task: v, unit: Unit::Stall, n: 1 });
        }
        out.push(q);
    }
    Some(())
}

/// Many calls of one kind die, or many callers stop in one, and then somebody makes another.
fn c02_many(ev: &mut Ev, g: &mut G, p: &mut Plan, out: &mut Vec<Plan>, n: u64) -> O {
    let dying = g.r.chance(0.5);
    p.num = num(&mut g.r, if dying { 1.0 } else { 0.5 });
    p.simseg = g.r.chance(0.3);
    let kinds = if g.r.chance(0.5) { HEAVY } else { STATELESS };
    let k = *g.r.pick(kinds);
    let few: Vec<Op> = (0..g.r.range(1, 3)).map(|_| g.op(k)).collect();
    let m = if dying { *g.r.pick(&[3, 5, 9, 17, 33, 65]) } else { g.r.range(3, 6) };
    let all: Vec<Op> = (0..m).map(|_| g.r.pick(&few).clone()).collect();
    let one = g.op(k);
    let last = vec![g.r.pick(&few).clone(), one];
    p.tasks = if dying { vec![all, last] } else { all.into_iter().map(|o| vec![o]).chain([last]).collect() };
    p.items = g.items.clone();
    let d = dry(ev, p)?;
    let steps = solo_steps(ev, p)?;
    for _ in 0..n {
        let mut q = p.clone();
        if dying {
            let f = g.r.chance(0.5);
            let mut last = None;
            for i in 0..q.tasks[0].len() {
                // always at the same place, or at any
                let n = d.op(0, i as u64)?.n;
                let x = match &last {
                    Some(x) if f => Some(Clone::clone(x)),
                    _ => failure(&mut g.r, &n, false),
                };
                if let Some(x) = x {
                    last = Some(x.clone());
                    q.tasks[0][i].faults.push(x);
                }
            }
            if g.r.chance(0.3) {
                q.slices.push(Slice { task: 1, unit: Unit::Steps, n: 1 + g.r.below(steps[1].max(1)) });
            }
            q.slices.push(Slice { task: 0, unit: Unit::Ops, n: q.tasks[0].len() as u64 });
        } else {
            let l = q.tasks.len() - 1;
            if g.r.chance(0.3) {
                q.slices.push(Slice { task: l, unit: Unit::Steps, n: 1 + g.r.below(steps[l].max(1)) });
            }
            let hot = g.r.chance(0.4);
            let h = 1 + g.r.below(6);
            let same = g.r.chance(0.5);
            let f = g.r.f();
            for t in 0..l {
                let n = if hot { h } else if same { 1 + (f * steps[t] as f64) as u64 } else { pos(&mut g.r, steps[t].max(1)) };
                q.slices.push(Slice { task: t, unit: if hot { Unit::Hot } else { Unit::Steps }, n });
                q.slices.push(Slice { task: t, unit: Unit::Stall, n: 1 });
            }
        }
        out.push(q);
    }
    Some(())
}

fn c03(ev: &mut Ev, g: &mut G, p: &mut Plan, out: &mut Vec<Plan>, n: u64) -> O {
    p.num = num(&mut g.r, 0.9);
    let hull = g.r.chance(0.45);
    let mut ops = vec![];
    let nq = g.r.range(2, 5) as usize;
    if hull {
        let i = g.pts(true);
        ops.push(Op::new(K::HullNew, vec![0, i]));
        let wide = matches!(p.num, Num::F64 | Num::S64);
        for _ in 0..nq {
            ops.push(Op::new(K::HullQuery, vec![0]));
            if wide && g.r.chance(0.4) {
                ops.push(Op::new(K::HullDump, vec![0]));
            }
        }
        if wide {
            ops.push(Op::new(K::HullDump, vec![0]));
        }
    } else {
        ops.push(Op::new(K::SwNew, vec![0]));
        let s = g.sweep_set(6);
        for i in s {
            ops.push(Op::new(K::SwPush, vec![0, i]));
        }
        for j in 0..nq {
            ops.push(Op::new(K::SwQuery, vec![0]));
            if j + 1 < nq && g.r.chance(0.3) {
                let i = g.any_seg();
                ops.push(Op::new(K::SwPush, vec![0, i]));
            }
        }
    }
    let qi: Vec<usize> = (0..ops.len()).filter(|i| ops[*i].k == K::HullQuery || ops[*i].k == K::SwQuery).collect();
    p.tasks = vec![ops];
    p.items = g.items.clone();
    let d = dry(ev, p)?;
    for _ in 0..n {
        let mut q = p.clone();
        // interrupt any of the queries but the last
        let m = 1 + g.r.below((qi.len() - 1) as u64) as usize;
        let mut any = false;
        for i in &qi[..qi.len() - 1] {
            if !(any && !g.r.chance(m as f64 / qi.len() as f64)) {
                if let Some(f) = failure(&mut g.r, &d.op(0, *i as u64)?.n, true) {
                    q.tasks[0][*i].faults.push(f);
                    any = true;
                }
            }
        }
        if !any {
            continue;
        }
        if hull && g.r.chance(0.3) {
            // hand the object to another thread after the first interruption
            let at = qi[0] + 1;
            let rest = q.tasks[0].split_off(at);
            q.tasks.push(rest);
        }
        out.push(q);
    }
    Some(())
}

fn c04(ev: &mut Ev, g: &mut G, p: &mut Plan, out: &mut Vec<Plan>, n: u64) -> O {
    p.num = num(&mut g.r, 0.9);
    p.simseg = g.r.chance(0.5);
    let mut ops = vec![Op::new(K::SwNew, vec![0])];
    for i in g.sweep_set(7) {
        ops.push(Op::new(K::SwPush, vec![0, i]));
    }
    if g.r.chance(0.3) {
        let at = 1 + g.r.below(ops.len() as u64) as usize;
        ops.insert(at, Op::new(K::SwQuery, vec![0]));
    }
    ops.push(Op::new(K::SwQuery, vec![0]));
    if g.r.chance(0.3) {
        let i = g.any_seg();
        ops.push(Op::new(K::SwPush, vec![0, i]));
        ops.push(Op::new(K::SwQuery, vec![0]));
    }
    p.tasks = vec![ops];
    p.items = g.items.clone();
    let d = dry(ev, p)?;
    let pi: Vec<usize> = (0..p.tasks[0].len()).filter(|i| p.tasks[0][*i].k == K::SwPush).collect();
    for _ in 0..n {
        let mut q = p.clone();
        let k = if g.r.chance(0.8) { 1 } else { 2 };
        for _ in 0..k {
            let i = *g.r.pick(&pi);
            if !q.tasks[0][i].faults.is_empty() {
                continue;
            }
            if let Some(f) = failure(&mut g.r, &d.op(0, i as u64)?.n, true) {
                if f.kind != F::Cmp {
                    q.tasks[0][i].faults.push(f);
                }
            }
            // the caller tries again
            if g.r.chance(0.25) && q.tasks[0].iter().any(|o| !o.faults.is_empty()) {
                let mut o = q.tasks[0][i].clone();
                o.faults.clear();
                q.tasks[0].insert(i + 1, o);
                break;
            }
        }
        if q.tasks[0].iter().all(|o| o.faults.is_empty()) {
            continue;
        }
        out.push(q);
    }
    Some(())
}

fn c05(g: &mut G, p: &mut Plan, out: &mut Vec<Plan>) -> O {
    p.num = num(&mut g.r, 0.2);
    p.simseg = g.r.chance(0.2);
    let objs = if g.r.chance(0.3) { 2 } else { 1 };
    let mut ops = vec![];
    for o in 0..objs {
        ops.push(Op::new(K::SwNew, vec![o]));
    }
    for _ in 0..g.r.range(1, 5) {
        let o = g.r.below(objs as u64) as usize;
        for _ in 0..g.r.range(0, 4) {
            let i = if g.r.chance(0.2) { g.prim() } else { g.any_seg() };
            ops.push(Op::new(K::SwPush, vec![o, i]));
        }
        for _ in 0..g.r.range(1, 2) {
            ops.push(Op::new(K::SwQuery, vec![o]));
        }
        if g.r.chance(0.2) {
            let x = g.stateless();
            ops.push(x);
        }
    }
    ops.push(Op::new(K::SwQuery, vec![0]));
    p.tasks = vec![ops];
    mix_types(g, p, 0.15);
    p.items = g.items.clone();
    out.push(p.clone());
    Some(())
}

fn c06(ev: &mut Ev, g: &mut G, p: &mut Plan, out: &mut Vec<Plan>) -> O {
    p.num = num(&mut g.r, 0.3);
    p.simseg = g.r.chance(0.2);
    let mut ops: Vec<Op> = (0..g.r.range(2, 8)).map(|_| g.stateless()).collect();
    if g.r.chance(0.4) {
        let k = g.pts(false);
        ops.push(Op::new(K::HullNew, vec![0, k]));
        ops.push(Op::new(K::HullQuery, vec![0]));
        ops.push(Op::new(K::SwNew, vec![0]));
        for i in g.sweep_set(5) {
            ops.push(Op::new(K::SwPush, vec![0, i]));
        }
        ops.push(Op::new(K::SwQuery, vec![0]));
        ops.push(Op::new(K::SwQuery, vec![0]));
    }
    if g.r.chance(0.3) {
        let a: Vec<usize> = (0..5).map(|k| if k == 0 { 0 } else { g.get(0) }).collect();
        ops.push(Op::new(K::DcelNew, a));
        ops.push(Op::new(K::DcelRemove, vec![0, 1]));
        ops.push(Op::new(K::DcelDump, vec![0]));
    }
    p.tasks = vec![ops];
    mix_types(g, p, 0.15);
    p.items = g.items.clone();
    dry(ev, p)?;
    for _ in 0..2 {
        let mut q = p.clone();
        if g.r.chance(0.5) {
            // a variable, a clock or a processor that could switch a diagnostic on
            q.amb.env = g.r.u() >> 16;
            q.amb.ident = g.r.u() >> 16;
            q.amb.clock = g.r.below(4_000_000_000);
        }
        let m = g.r.below(7) as i64;
        let at = 1 + g.r.below(3);
        for o in q.tasks[0].iter_mut() {
            o.faults.push(Fault { kind: F::Write, at, arg: m });
        }
        out.push(q);
    }
    Some(())
}

fn c07(g: &mut G, p: &mut Plan, out: &mut Vec<Plan>, n: u64) -> O {
    p.num = num(&mut g.r, 0.2);
    p.simseg = g.r.chance(0.2);
    for _ in 0..g.r.range(1, 2) {
        let mut ops: Vec<Op> = (0..g.r.range(1, 5)).map(|_| g.stateless()).collect();
        if g.r.chance(0.2) {
            ops.push(Op::new(K::SwNew, vec![0]));
            for i in g.sweep_set(6) {
                ops.push(Op::new(K::SwPush, vec![0, i]));
            }
            ops.push(Op::new(K::SwQuery, vec![0]));
        }
        if g.r.chance(0.2) {
            let a: Vec<usize> = (0..5).map(|k| if k == 0 { 0 } else { g.get(0) }).collect();
            ops.push(Op::new(K::DcelNew, a));
            ops.push(Op::new(K::DcelRemove, vec![0, 1]));
            ops.push(Op::new(K::DcelDump, vec![0]));
        }
        p.tasks.push(ops);
    }
    mix_types(g, p, 0.3);
    p.items = g.items.clone();
    for _ in 0..n {
        let mut q = p.clone();
        let all = g.r.chance(0.5);
        if all || g.r.chance(0.4) {
            q.amb.entropy = g.r.u() >> 16;
        }
        if all || g.r.chance(0.4) {
            q.amb.clock = g.r.below(4_000_000_000);
        }
        if all || g.r.chance(0.4) {
            q.amb.env = g.r.u() >> 16;
        }
        if all || g.r.chance(0.4) {
            q.amb.addr = g.r.u() >> 16 | 1;
        }
        if all || g.r.chance(0.4) {
            q.amb.ident = g.r.u() >> 16;
        }
        if all || g.r.chance(0.5) {
            for o in q.tasks.iter_mut().flatten() {
                for _ in 0..g.r.range(1, 3) {
                    let at = 1 + g.r.below(4);
                    let j = g.r.range(-3_000_000_000, 90_000_000_000);
                    o.faults.push(Fault { kind: F::Clock, at, arg: j });
                }
            }
        }
        out.push(q);
    }
    Some(())
}

fn c08(ev: &mut Ev, g: &mut G, p: &mut Plan, out: &mut Vec<Plan>, n: u64) -> O {
    p.num = num(&mut g.r, 0.6);
    p.simseg = g.r.chance(0.2);
    let mut ops: Vec<Op> = (0..g.r.range(1, 3)).map(|_| g.stateless()).collect();
    match g.r.below(5) {
        0 => {
            let k = g.pts(false);
            ops.push(Op::new(K::HullNew, vec![0, k]));
            ops.push(Op::new(K::HullQuery, vec![0]));
        }
        1 => {
            ops.push(Op::new(K::SwNew, vec![0]));
            for i in g.sweep_set(5) {
                ops.push(Op::new(K::SwPush, vec![0, i]));
            }
            ops.push(Op::new(K::SwQuery, vec![0]));
        }
        _ => {}
    }
    p.tasks = vec![ops];
    mix_types(g, p, 0.2);
    p.items = g.items.clone();
    p.arg = 12;
    let d = dry(ev, p)?;
    let tot: u64 = d.recs[0].iter().map(|r| r.steps).sum();
    if tot < 20_000 {
        p.arg = 40;
    }
    out.push(p.clone());
    for _ in 0..n {
        let mut q = p.clone();
        let i = g.r.below(q.tasks[0].len() as u64) as usize;
        if let Some(f) = failure(&mut g.r, &d.op(0, i as u64)?.n, true) {
            q.tasks[0][i].faults.push(f);
            out.push(q);
        }
    }
    // the same kinds of call with other values every time
    let ks = [*g.r.pick(STATELESS), *g.r.pick(STATELESS)];
    let mut q = p.clone();
    q.arg = 0;
    q.tasks = vec![(0..28).map(|i| g.op(ks[(i % 5 == 4) as usize])).collect()];
    q.items = g.items.clone();
    let d = dry(ev, &q)?;
    for v in 0..3 {
        let mut x = q.clone();
        if v > 0 {
            for i in 0..x.tasks[0].len() {
                if g.r.chance(0.5) {
                    if let Some(f) = failure(&mut g.r, &d.op(0, i as u64)?.n, true) {
                        x.tasks[0][i].faults.push(f);
                    }
                }
            }
        }
        out.push(x);
    }
    Some(())
}

fn c09(ev: &mut Ev, g: &mut G, p: &mut Plan, out: &mut Vec<Plan>, n: u64) -> O {
    p.num = num(&mut g.r, 0.9);
    p.simseg = g.r.chance(0.3);
    let mut ops = vec![Op::new(K::Dump, vec![])];
    let dcel = g.r.chance(0.25);
    let fi;
    if dcel {
        let mut a: Vec<usize> = vec![0];
        for _ in 0..g.r.range(4, 7) {
            let x = g.get(0);
            a.push(x);
        }
        let apart = g.r.chance(0.4);
        if apart {
            // every edge between two vertices of its own, some of them over the same points
            a[0] += 32;
            let m = a.len();
            for i in 2..m {
                let (x, y) = if i > 2 && g.r.chance(0.5) { (a[2], a[m]) } else { (a[i], g.get(0)) };
                let (x, y) = if g.r.chance(0.2) { (y, x) } else { (x, y) };
                a[i] = x;
                a.push(y);
            }
        }
        let ne = if apart { (a.len() as u64 - 2) / 2 } else { a.len() as u64 - 2 };
        let k = g.r.below(ne) as usize;
        ops.push(Op::new(K::DcelNew, a));
        for _ in 0..g.r.range(0, 6) {
            let (w, i, j) = (g.r.below(3) as usize, g.r.below(ne) as usize, g.r.below(ne) as usize);
            ops.push(Op::new(K::DcelLink, vec![0, w, i, j]));
        }
        ops.push(Op::new(K::DcelDump, vec![0]));
        if g.r.chance(0.4) {
            let j = g.r.below(ne) as usize;
            ops.push(Op::new(K::DcelEq, vec![0, k, j]));
        } else {
            ops.push(Op::new(K::DcelRemove, vec![0, k]));
        }
        fi = ops.len() - 1;
        ops.push(Op::new(K::DcelDump, vec![0]));
    } else {
        for _ in 0..g.r.range(1, 2) {
            let o = g.stateless();
            ops.push(o);
        }
        fi = 1;
    }
    let last = ops.len();
    ops.push(Op::new(K::Dump, vec![]));
    // a panel that reads the very same values again
    if !dcel {
        for i in 1..last {
            let mut o = ops[i].clone();
            o.faults.clear();
            ops.push(o);
        }
        for _ in 0..2 {
            g.items.len();
            let o = g.stateless();
            ops.push(o);
        }
    }
    p.tasks = vec![ops];
    mix_types(g, p, 0.2);
    p.items = g.items.clone();
    let d = dry(ev, p)?;
    for _ in 0..n {
        let mut q = p.clone();
        let hi = if dcel { fi } else { last - 1 };
        for i in fi..=hi {
            if i > fi && g.r.chance(0.5) {
                continue;
            }
            if let Some(f) = failure(&mut g.r, &d.op(0, i as u64)?.n, !dcel) {
                q.tasks[0][i].faults.push(f);
            }
        }
        if q.tasks[0].iter().any(|o| !o.faults.is_empty()) {
            out.push(q);
        }
    }
    Some(())
}

fn c10(ev: &mut Ev, g: &mut G, p: &mut Plan, out: &mut Vec<Plan>, n: u64) -> O {
    p.num = num(&mut g.r, 0.8);
    p.simseg = g.r.chance(0.4);
    let mut ops = vec![];
    if g.r.chance(0.25) {
        if g.r.chance(0.5) {
            let k = g.pts(true);
            ops.push(Op::new(K::HullNew, vec![0, k]));
            ops.push(Op::new(K::HullQuery, vec![0]));
        } else {
            ops.push(Op::new(K::SwNew, vec![0]));
            for i in g.sweep_set(4) {
                ops.push(Op::new(K::SwPush, vec![0, i]));
            }
            ops.push(Op::new(K::SwQuery, vec![0]));
        }
    } else {
        ops.push(g.stateless());
    }
    p.tasks = vec![ops];
    mix_types(g, p, 0.15);
    p.items = g.items.clone();
    let d = dry(ev, p)?;
    for _ in 0..n {
        let mut q = p.clone();
        let i = g.r.below(q.tasks[0].len() as u64) as usize;
        if q.tasks[0][i].k == K::HullNew {
            continue;
        }
        let Some(f) = failure(&mut g.r, &d.op(0, i as u64)?.n, false) else { continue };
        q.tasks[0][i].faults.push(f);
        // after the failure of one call the object may hold less than asked
        q.tasks[0].truncate(i + 1);
        out.push(q);
    }
    Some(())
}

fn c11(ev: &mut Ev, g: &mut G, p: &mut Plan, out: &mut Vec<Plan>, n: u64) -> O {
    p.num = num(&mut g.r, 0.6);
    p.simseg = g.r.chance(0.2);
    let nt = if g.r.chance(0.25) { 2 } else { 1 };
    for _ in 0..nt {
        let mut ops: Vec<Op> = vec![];
        let focus = if g.r.chance(0.5) { Some(*g.r.pick(STATELESS)) } else { None };
        for _ in 0..g.r.range(2, 9) {
            if !ops.is_empty() && g.r.chance(0.2) {
                let o = g.r.pick(&ops).clone();
                ops.push(o);
                continue;
            }
            let o = match focus {
                Some(k) if g.r.chance(0.7) => g.op(k),
                _ => g.stateless(),
            };
            ops.push(o);
        }
        p.tasks.push(ops);
    }
    if g.r.chance(0.15) {
        // large figures first, small ones of the same kind after them (or the other way)
        let k = *g.r.pick(&[K::PolyInfo, K::PolyInfo, K::IsSimple, K::Earcut, K::LocPoly, K::Hull, K::Sweep, K::Equal]);
        let was = g.big;
        let back = g.r.chance(0.25);
        let mut ops = vec![];
        g.big = !back;
        for _ in 0..g.r.range(1, 3) {
            ops.push(g.op(k));
        }
        g.big = back;
        for _ in 0..g.r.range(3, 10) {
            ops.push(g.op(k));
        }
        g.big = was;
        p.tasks[0] = ops;
    }
    if g.r.chance(0.07) {
        // a long-lived process: the same few calls over and over
        let most = if g.r.chance(0.5) { 1 } else { 6 };
        if g.r.chance(0.5) {
            g.touch = 0.8;
        }
        let few: Vec<Op> = (0..g.r.range(1, most))
            .map(|_| {
                let k = if g.r.chance(0.3) { K::Isect } else { *g.r.pick(STATELESS) };
                g.op(k)
            })
            .collect();
        let n = match g.r.below(10) {
            0 => g.r.range(900, 2500),
            1..=4 => g.r.range(400, 900),
            _ => g.r.range(80, 400),
        };
        p.tasks = vec![(0..n).map(|_| g.r.pick(&few).clone()).collect()];
    }
    // one call so often that even a counter of two bytes wraps
    let again = g.r.chance(0.012);
    if again {
        p.num = if g.r.chance(0.7) { Num::F64 } else { Num::F32 };
        if g.r.chance(0.7) {
            g.touch = 0.8;
        }
        let k = if g.r.chance(0.3) { K::Isect } else { *g.r.pick(STATELESS) };
        p.tasks = vec![vec![g.op(k)]];
        p.nested.clear();
    }
    if g.r.chance(0.3) {
        p.tasks[0].push(Op::new(K::Dump, vec![]));
    }
    mix_types(g, p, if again { 0.0 } else { 0.4 });
    let nt = p.tasks.len();
    p.items = g.items.clone();
    let d = dry(ev, p)?;
    out.push(p.clone());
    if again {
        let st = d.op(0, 0)?.steps;
        out[0].arg = if st < 500 { 66000 } else if st < 1000 { 33000 } else if st < 8000 { 4200 } else { 0 };
        return Some(());
    }
    for _ in 0..n {
        let mut q = p.clone();
        for t in 0..nt {
            for i in 0..q.tasks[t].len() {
                if g.r.chance(0.3) {
                    if let Some(f) = failure(&mut g.r, &d.op(t, i as u64)?.n, true) {
                        q.tasks[t][i].faults.push(f);
                    }
                }
            }
        }
        out.push(q);
    }
    Some(())
}

fn c12(ev: &mut Ev, g: &mut G, p: &mut Plan, out: &mut Vec<Plan>, n: u64) -> O {
    p.num = num(&mut g.r, 0.7);
    let hull = g.r.chance(0.35);
    let mut ops = vec![];
    // now and then so many that even a list that doubles its room is seen to grow
    // or a counter kept in a byte to overflow
    let nq = match g.r.below(200) {
        0..=21 => g.r.range(60, 150),
        22..=25 => g.r.range(258, 330),
        26 => g.r.range(1030, 3000),
        _ => g.r.range(6, 14),
    };
    let n = if nq > 150 { n.min(2) } else { n };
    if nq > 14 {
        g.big = false;
    }
    if hull {
        let i = if nq > 150 {
            let v = (0..g.r.range(1, 6)).map(|_| (g.c(), g.c())).collect();
            g.put(Item::Pts(v))
        } else {
            g.pts(true)
        };
        ops.push(Op::new(K::HullNew, vec![0, i]));
        for _ in 0..nq {
            ops.push(Op::new(K::HullQuery, vec![0]));
        }
    } else {
        ops.push(Op::new(K::SwNew, vec![0]));
        let most = if nq > 150 { 2 } else if nq > 14 { 3 } else { 6 };
        for i in g.sweep_set(most) {
            ops.push(Op::new(K::SwPush, vec![0, i]));
        }
        for _ in 0..nq {
            ops.push(Op::new(K::SwQuery, vec![0]));
        }
    }
    p.tasks = vec![ops];
    p.items = g.items.clone();
    let d = dry(ev, p)?;
    out.push(p.clone());
    let qi: Vec<usize> = (0..p.tasks[0].len()).filter(|i| matches!(p.tasks[0][*i].k, K::HullQuery | K::SwQuery)).collect();
    for _ in 0..n {
        let mut q = p.clone();
        let rate = *g.r.pick(&[0.2, 0.5, 0.7]);
        for i in &qi[..qi.len() - 1] {
            if g.r.chance(rate) {
                if let Some(f) = failure(&mut g.r, &d.op(0, *i as u64)?.n, true) {
                    q.tasks[0][*i].faults.push(f);
                }
            }
        }
        out.push(q);
    }
    Some(())
}

fn c13(g: &mut G, p: &mut Plan, out: &mut Vec<Plan>, n: u64) -> O {
    p.num = Num::S64;
    g.mix = 0.0;
    g.odd = 0.0;
    // a tangent meets in a point that moves by the root of the rounding
    g.tangent = false;
    // the sweep is not part of this property: see DESIGN.md
    let op = match g.r.below(24) {
        0..=6 => {
            let (a, b) = (g.arc(), g.prim());
            Op::new(K::Isect, if g.r.chance(0.5) { vec![a, b] } else { vec![b, a] })
        }
        7 | 8 => g.op(K::Isect),
        9 | 10 => {
            // arcs and circles chosen to cross
            let (a, b) = (g.arc(), g.arc());
            let b = match g.r.below(5) {
                0 | 1 => g.like(a),
                2 | 3 => g.touching(a),
                _ => b,
            };
            Op::new(K::Isect, vec![a, b])
        }
        11..=13 => g.op(K::LocArc),
        14 => g.op(K::ArcOps),
        15 => g.op(K::VecOps),
        16..=18 => g.op(K::LocCircle),
        _ => {
            let k = *g.r.pick(&[K::LocSeg, K::LocLine, K::LocRay, K::LocTri, K::LocPoly, K::PointOps, K::ProjSeg, K::ProjLine, K::TriInfo, K::PolyInfo, K::SegRay, K::LineRay, K::LineLine]);
            g.op(k)
        }
    };
    p.tasks = vec![vec![op]];
    p.items = g.items.clone();
    for k in 0..n {
        let mut q = p.clone();
        let a = g.r.u() >> 20;
        let f = Fault { kind: F::Jit, at: if k % 3 == 2 { 1 + g.r.below(8) } else { 1 }, arg: a as i64 };
        q.tasks[0][0].faults.push(f);
        out.push(q);
    }
    Some(())
}

fn c14(ev: &mut Ev, g: &mut G, p: &mut Plan, out: &mut Vec<Plan>, n: u64) -> O {
    p.num = num(&mut g.r, 0.3);
    let mut ops: Vec<Op> = (0..g.r.range(1, 3)).map(|_| g.op(K::Fmt)).collect();
    if g.r.chance(0.25) {
        // edges and vertices linked as in a subdivision of the plane
        let mut a = vec![if g.r.chance(0.6) { 8 } else { 0 } + if g.r.chance(0.3) { 16 } else { 0 }];
        for _ in 0..g.r.range(3, 5) {
            let x = g.get(0);
            a.push(x);
        }
        let ne = a.len() as u64 - 2;
        ops.push(Op::new(K::DcelNew, a));
        for _ in 0..g.r.range(0, 5) {
            let (w, i, j) = (g.r.below(3) as usize, g.r.below(ne) as usize, g.r.below(ne) as usize);
            ops.push(Op::new(K::DcelLink, vec![0, w, i, j]));
        }
        for _ in 0..g.r.range(1, 3) {
            let k = g.r.below(2 + ne) as usize;
            ops.push(Op::new(K::DcelFmt, vec![0, k]));
        }
    }
    p.tasks = vec![ops];
    mix_types(g, p, 0.2);
    p.items = g.items.clone();
    let Some(d) = dry(ev, p) else {
        out.push(p.clone());
        return Some(());
    };
    let can: Vec<usize> = (0..p.tasks[0].len()).filter(|i| d.op(0, *i as u64).map_or(false, |r| r.n[F::Sink as usize] > 0)).collect();
    if can.is_empty() {
        out.push(p.clone());
        return Some(());
    }
    for _ in 0..n {
        let mut q = p.clone();
        let i = *g.r.pick(&can);
        let c = d.op(0, i as u64)?.n[F::Sink as usize];
        if c == 0 {
            continue;
        }
        let at = 1 + g.r.below(c);
        let arg = g.r.below(4) as i64 + if g.r.chance(0.5) { 1000 } else { 0 };
        q.tasks[0][i].faults.push(Fault { kind: F::Sink, at, arg });
        out.push(q);
    }
    Some(())
}

/// Line segments in general position: at most two meet in any point, which may be an
/// end of one or both, and no two such points are close together.
fn general(g: &mut G, n: usize) -> Vec<usize> {
    use crate::model::*;
    let mut v: Vec<usize> = vec![];
    let mut segs: Vec<(P, P)> = vec![];
    let mut pts: Vec<P> = vec![];
    let mut tries = 0;
    // larger coordinates leave the domain of the library's absolute tolerance
    let scale = *g.r.pick(&[1.0, 20.0, 20.0, 31.0]);
    // some scenes on a grid, some with segments along the axes
    let grid = g.r.chance(0.3);
    let (flat, upright) = (g.r.chance(0.3), g.r.chance(0.3));
    // some with segments that share an end or end on another one
    let joint = *g.r.pick(&[0.0, 0.0, 0.3, 0.7]);
    let how = if n > 60 { 0 } else if n > 24 { g.r.below(2) } else { g.r.below(5) };
    while v.len() < n && tries < 20 * n {
        tries += 1;
        let mut c = || (g.r.f() - 0.5) * scale;
        let (mut a, mut b) = ((c(), c()), (c(), c()));
        match how {
            // short ones, so that most do not meet
            0 => b = (a.0 + (b.0 - a.0) * 0.2, a.1 + (b.1 - a.1) * 0.2),
            // nearly parallel bundles
            1 => b = (a.0 + scale * 0.9, a.1 + (b.1 - a.1) * 0.05),
            2 => b = (a.0 + (b.0 - a.0) * 0.05, a.1 + scale * 0.9),
            _ => {}
        }
        if grid {
            let k = if scale > 1.0 { 4.0 } else { 64.0 };
            let r = |x: f64| (x * k).round() / k;
            (a, b) = ((r(a.0), r(a.1)), (r(b.0), r(b.1)));
        }
        if !segs.is_empty() && g.r.chance(joint) {
            let s = *g.r.pick(&segs);
            let inner = 0.1 + 0.8 * g.r.f();
            let t = *g.r.pick(&[0.0, 0.0, 1.0, 1.0, 0.5, inner]);
            a = match t {
                t if t == 0.0 => s.0,
                t if t == 1.0 => s.1,
                t => (s.0 .0 + t * (s.1 .0 - s.0 .0), s.0 .1 + t * (s.1 .1 - s.0 .1)),
            };
        }
        if flat && g.r.chance(0.3) {
            b.1 = a.1;
        }
        if upright && g.r.chance(0.3) {
            b.0 = a.0;
        }
        if g.r.chance(0.5) {
            (a, b) = (b, a);
        }
        if a == b {
            continue;
        }
        let s = Item::Seg(a, b);
        let mut new = vec![a, b];
        let mut ok = apart(a.0 - b.0, 1e-3 * scale) && apart(a.1 - b.1, 1e-3 * scale);
        for (p, q) in &segs {
            ok &= clear(a, b, *p, *q, scale);
            if let Some(x) = meet(a, b, *p, *q) {
                new.push(x)
            }
        }
        if ok {
            segs.push((a, b));
            let had = pts.len();
            pts.extend(new);
            if sparse(&segs, &pts, had, scale) {
                v.push(g.put(s));
            } else {
                pts.truncate(had);
                segs.pop();
            }
        }
    }
    v
}

fn c15(ev: &mut Ev, g: &mut G, p: &mut Plan, out: &mut Vec<Plan>, n: u64) -> O {
    p.num = if g.r.chance(0.75) { Num::S64 } else { Num::F64 };
    p.simseg = g.r.chance(0.3);
    let nt = *g.r.pick(&[1, 1, 1, 2, 2, 3]);
    let lines = g.r.chance(0.75);
    for t in 0..nt {
        let m = if g.big && lines && t == 0 && g.r.chance(0.12) {
            g.r.range(66, 140)
        } else if g.big && g.r.chance(0.3) {
            g.r.range(25, 60)
        } else if g.big {
            g.r.range(10, 24)
        } else {
            g.r.range(2, 9)
        } as usize;
        let set = if lines { general(g, m) } else { g.sweep_set(6) };
        let mut ops = vec![Op::new(K::SwNew, vec![t])];
        for i in set {
            ops.push(Op::new(K::SwPush, vec![t, i]));
            if g.r.chance(0.15) {
                ops.push(Op::new(K::SwQuery, vec![t]));
            }
        }
        ops.push(Op::new(K::SwQuery, vec![t]));
        if g.r.chance(0.3) {
            ops.push(Op::new(K::SwQuery, vec![t]));
        }
        if g.r.chance(0.1) {
            let o = g.stateless();
            let at = 1 + g.r.below(ops.len() as u64) as usize;
            ops.insert(at, o);
        }
        p.tasks.push(ops);
    }
    p.items = g.items.clone();
    let d = dry(ev, p)?;
    let steps = solo_steps(ev, p)?;
    out.push(p.clone());
    for _ in 1..n {
        let mut q = p.clone();
        if nt > 1 {
            slices(&mut g.r, &mut q, &steps);
        }
        let rate = *g.r.pick(&[0.0, 0.1, 0.3]);
        let mut torn = 0;
        for t in 0..nt {
            let last = q.tasks[t].len() - 1;
            for i in 0..last {
                if q.tasks[t][i].k == K::SwNew || !g.r.chance(rate) {
                    continue;
                }
                if q.tasks[t][i].k == K::SwPush {
                    torn += 1;
                    if torn > 4 {
                        continue;
                    }
                }
                if let Some(f) = failure(&mut g.r, &d.op(t, i as u64)?.n, false) {
                    q.tasks[t][i].faults.push(f);
                }
            }
        }
        out.push(q);
    }
    Some(())
}

fn c16(ev: &mut Ev, g: &mut G, p: &mut Plan, out: &mut Vec<Plan>, n: u64) -> O {
    p.num = if g.r.chance(0.75) { Num::S64 } else { Num::F64 };
    // far smaller or larger than the tolerance expects; exact all the same
    let k = *g.r.pick(&[0, 0, 0, 0, -18, 16]);
    let z = 2f64.powi(k);
    // (a list takes points from earlier ones, which would be scaled twice)
    let nt = if k == 0 { *g.r.pick(&[1, 1, 1, 2, 3]) } else { 1 };
    for t in 0..nt {
        let i = g.pts(true);
        if let Item::Pts(v) = &mut g.items[i] {
            for q in v.iter_mut() {
                *q = (q.0 * z, q.1 * z);
            }
        }
        let mut ops = vec![Op::new(K::HullNew, vec![t, i])];
        for _ in 0..g.r.range(1, 5) {
            for _ in 0..g.r.range(0, 4) {
                let q = if k == 0 { g.p() } else { (g.c(), g.c()) };
                let i = g.put(Item::Pt(((q.0 * 64.0).round() / 64.0 * z, (q.1 * 64.0).round() / 64.0 * z)));
                let mut a = vec![t, i];
                match g.r.below(6) {
                    0 | 1 => a.push(*g.r.pick(&[0, 0, 1, 2, 5])),
                    2 => a.push(99),
                    _ => {}
                }
                ops.push(Op::new(K::HullPush, a));
            }
            ops.push(Op::new(K::HullQuery, vec![t]));
        }
        ops.push(Op::new(K::HullQuery, vec![t]));
        if g.r.chance(0.15) {
            let o = g.stateless();
            let at = 1 + g.r.below(ops.len() as u64) as usize;
            ops.insert(at, o);
        }
        p.tasks.push(ops);
    }
    p.items = g.items.clone();
    let d = dry(ev, p)?;
    let steps = solo_steps(ev, p)?;
    out.push(p.clone());
    for _ in 1..n {
        let mut q = p.clone();
        if nt > 1 {
            slices(&mut g.r, &mut q, &steps);
        }
        let rate = *g.r.pick(&[0.0, 0.2, 0.5]);
        for t in 0..nt {
            for i in 0..q.tasks[t].len() - 1 {
                if q.tasks[t][i].k == K::HullQuery && g.r.chance(rate) {
                    if let Some(f) = failure(&mut g.r, &d.op(t, i as u64)?.n, true) {
                        q.tasks[t][i].faults.push(f);
                    }
                }
            }
        }
        out.push(q);
    }
    Some(())
}

/// One change to a vertex's edge list or to one of its edges.
fn dcel_change(g: &mut G, t: usize, ne: u64, arcs: bool) -> Op {
    let mut k = g.r.below(ne) as usize;
    let x = g.r.below(12);
    if arcs && (x < 4 || x == 10) {
        // two arc edges cannot be compared (see KNOWN_FINDINGS, arc-edge)
        k &= !1;
    }
    if x == 10 {
        let j = g.r.below(ne) as usize;
        Op::new(K::DcelEq, vec![t, k, j])
    } else if x == 11 {
        // let go of it
        Op::new(K::DcelLink, vec![t, 5, k, 0])
    } else if x < 4 {
        Op::new(K::DcelRemove, vec![t, k])
    } else if x < 7 {
        Op::new(K::DcelAdd, vec![t, k])
    } else {
        let w = g.r.below(5) as usize;
        let j = if w < 3 {
            g.r.below(ne) as usize
        } else if g.r.chance(0.5) {
            // onto a point some other edge uses: edges become equal
            let c: Vec<usize> = (0..g.items.len()).filter(|i| kind_of(&g.items[*i]) == 0).collect();
            *g.r.pick(&c)
        } else {
            let q = (g.r.range(-9, 9) as f64, g.r.range(-9, 9) as f64);
            g.put(Item::Pt(q))
        };
        Op::new(K::DcelLink, vec![t, w, k, j])
    }
}

fn c17(ev: &mut Ev, g: &mut G, p: &mut Plan, out: &mut Vec<Plan>, n: u64) -> O {
    p.num = num(&mut g.r, 0.8);
    let nt = *g.r.pick(&[1, 1, 1, 2]);
    for t in 0..nt {
        let arcs = g.r.chance(0.25);
        let mut a = vec![if arcs { t + 16 } else { t }];
        let most = if g.big { 40 } else { 8 };
        for _ in 0..g.r.range(3, most) {
            // equal, equal up to the tolerance, or plainly different
            let q = if a.len() > 2 && g.r.chance(0.2) {
                let k = a[1 + g.r.below(a.len() as u64 - 1) as usize];
                let mut q = g.items[k].clone();
                if let Item::Pt(q) = &mut q {
                    q.0 += *g.r.pick(&[0.0, 0.0, 0.0, 1.0 / (1u64 << 42) as f64, 1.0 / 4096.0]);
                }
                q
            } else {
                Item::Pt((g.r.range(-9, 9) as f64, g.r.range(-9, 9) as f64))
            };
            let i = g.put(q);
            a.push(i);
        }
        let ne = a.len() as u64 - 2;
        let mut ops = vec![Op::new(K::DcelNew, a), Op::new(K::DcelDump, vec![t])];
        let most = if g.big { 24 } else { 9 };
        for _ in 0..g.r.range(2, most) {
            let o = dcel_change(g, t, ne, arcs);
            ops.push(o);
            ops.push(Op::new(K::DcelDump, vec![t]));
        }
        p.tasks.push(ops);
    }
    p.items = g.items.clone();
    let d = dry(ev, p)?;
    let steps = solo_steps(ev, p)?;
    out.push(p.clone());
    for _ in 1..n {
        let mut q = p.clone();
        if nt > 1 {
            slices(&mut g.r, &mut q, &steps);
        }
        let rate = *g.r.pick(&[0.2, 0.5]);
        for t in 0..nt {
            for i in 0..q.tasks[t].len() {
                if matches!(q.tasks[t][i].k, K::DcelRemove | K::DcelAdd | K::DcelLink | K::DcelEq) && g.r.chance(rate) {
                    if let Some(f) = failure(&mut g.r, &d.op(t, i as u64)?.n, false) {
                        q.tasks[t][i].faults.push(f);
                    }
                }
            }
        }
        out.push(q);
    }
    Some(())
}
