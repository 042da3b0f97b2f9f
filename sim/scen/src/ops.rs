use crate::num::*;
use rcgal::algorithm::convex_hull::convex_hull_2::ConvexHull2;
use rcgal::algorithm::intersection::line_2_line_2::*;
use rcgal::algorithm::intersection::line_2_ray_2::*;
use rcgal::algorithm::intersection::line_segment_2_ray_2::*;
use rcgal::algorithm::intersection::segment_2_segment_2::*;
use rcgal::algorithm::intersection::sweep_segment_2_intersection::SweepSegment2Intersection;
use rcgal::algorithm::location::point_2_arc_segment_2::*;
use rcgal::algorithm::location::point_2_circle_segment_2::*;
use rcgal::algorithm::location::point_2_line_2::*;
use rcgal::algorithm::location::point_2_line_segment_2::*;
use rcgal::algorithm::location::point_2_polygon_2::*;
use rcgal::algorithm::location::point_2_ray_2::*;
use rcgal::algorithm::location::point_2_triangle_2::*;
use rcgal::algorithm::projection::point_2_line_2::*;
use rcgal::algorithm::projection::point_2_line_segment_2::*;
use rcgal::algorithm::triangulation::earcut_2::earcut_2;
use rcgal::kernel::arc_segment_2::ArcSegment2;
use rcgal::kernel::circle_segment_2::CircleSegment2;
use rcgal::kernel::edge_2::Edge2;
use rcgal::kernel::line_2::Line2;
use rcgal::kernel::line_segment_2::LineSegment2;
use rcgal::kernel::point_2::Point2;
use rcgal::kernel::polygon_2::Polygon2;
use rcgal::kernel::ray_2::Ray2;
use rcgal::kernel::segment_2::Segment2;
use rcgal::kernel::triangle_2::Triangle2;
use rcgal::kernel::vector_2::Vector2;
use rcgal::kernel::vertex_2::Vertex2;
use simcore::plan::*;
use simcore::rt;
use std::cell::RefCell;
use std::fmt::Write as _;
use std::rc::Rc;

pub enum Val<T: Raw> {
    Pt(Point2<T>),
    Seg(LineSegment2<T>),
    Circle(CircleSegment2<T>),
    Arc(ArcSegment2<T>),
    Ray(Ray2<T>),
    Line(Line2<T>),
    Tri(Triangle2<T>),
    Poly(Polygon2<T>, Vec<Point2<T>>),
    Pts(Vec<Point2<T>>),
}

/// The values of a plan; which of two lies at the lower address is up to the surroundings.
pub struct Vals<T: Raw> {
    v: Vec<Val<T>>,
    turned: bool,
}
impl<T: Raw> Vals<T> {
    pub fn new(n: usize, turned: bool, f: impl Fn(usize) -> Val<T>) -> Vals<T> {
        Vals { v: (0..n).map(|i| f(if turned { n - 1 - i } else { i })).collect(), turned }
    }
    pub fn get(&self, i: usize) -> Option<&Val<T>> {
        let n = self.v.len();
        if i >= n {
            None
        } else {
            self.v.get(if self.turned { n - 1 - i } else { i })
        }
    }
    pub fn iter(&self) -> impl Iterator<Item = &Val<T>> {
        (0..self.v.len()).filter_map(|i| self.get(i))
    }
}

/// Values every caller shares. The library's types must be usable from several
/// threads at once; the wrapper keeps the harness compiling either way.
pub struct World<T: Raw> {
    pub vals: Vals<T>,
    pub items: &'static [Item],
    pub simseg: bool,
    pub hulls: Vec<(bool, Option<ConvexHull2<T>>)>,
}

pub struct DcelSlot<T: Raw> {
    /// Normally a vertex of its own: `remove_edge` reads the edges' end points, so those
    /// cannot be the vertex that is being changed (see KNOWN_FINDINGS, own-end).
    pub hub: Rc<RefCell<Vertex2<T>>>,
    /// The caller's handles; it may let go of them.
    pub e: Vec<Option<Rc<RefCell<Edge2<T>>>>>,
    pub ea: Vec<*const RefCell<Edge2<T>>>,
    /// Where every vertex handed to an edge so far was put: it is not held on to.
    pub h: Vec<*const RefCell<Vertex2<T>>>,
}
impl<T: Raw> DcelSlot<T> {
    fn edge(&self, k: usize) -> Option<Rc<RefCell<Edge2<T>>>> {
        self.e.get(k)?.clone()
    }
    /// Every edge that can be reached, from the vertex or from a handle kept.
    fn reach(&self) -> Vec<Rc<RefCell<Edge2<T>>>> {
        let mut v: Vec<Rc<RefCell<Edge2<T>>>> = vec![];
        let mut todo = self.hub.borrow().edges();
        todo.extend(self.e.iter().flatten().cloned());
        while let Some(x) = todo.pop() {
            if v.iter().any(|y| Rc::ptr_eq(&x, y)) {
                continue;
            }
            let e = x.borrow();
            todo.extend([e.twin(), e.next(), e.prev()].into_iter().flatten());
            drop(e);
            v.push(x);
        }
        v
    }
}

/// What one caller owns.
pub struct Own<T: Raw> {
    pub sweeps: Vec<Option<SweepSegment2Intersection<T>>>,
    pub dcels: Vec<Option<DcelSlot<T>>>,
}

// output words come in (tag, value) pairs
pub const I: u64 = 0;
pub const FL: u64 = 1;
pub const SET: u64 = 2;
pub const ANG: u64 = 3;
#[derive(Default)]
pub struct Out(pub Vec<u64>);
impl Out {
    pub fn i(&mut self, x: u64) {
        self.0.push(I);
        self.0.push(x);
    }
    pub fn b(&mut self, x: bool) {
        self.i(x as u64)
    }
    fn w(&mut self, tag: u64, x: f64) {
        self.0.push(tag);
        self.0.push(if x.is_nan() { f64::NAN.to_bits() } else { x.to_bits() });
    }
    pub fn f<T: Raw>(&mut self, x: T) {
        self.w(FL, x.to())
    }
    pub fn ang<T: Raw>(&mut self, x: T) {
        self.w(ANG, x.to())
    }
    pub fn p<T: Raw>(&mut self, p: &Point2<T>) {
        self.f(p.x());
        self.f(p.y());
    }
    pub fn op<T: Raw>(&mut self, p: &Option<Point2<T>>) {
        match p {
            None => self.i(0),
            Some(p) => {
                self.i(1);
                self.p(p)
            }
        }
    }
    pub fn pts<T: Raw>(&mut self, v: &[Point2<T>]) {
        self.0.push(SET);
        self.0.push(v.len() as u64);
        for p in v {
            self.p(p)
        }
    }
}

struct Guard;
impl Drop for Guard {
    fn drop(&mut self) {
        if let Some(c) = rt::ctx() {
            c.in_lib = false;
        }
    }
}
/// Run library code: seams active, edges counted, preemption possible.
#[inline(never)]
pub fn lib<R>(f: impl FnOnce() -> R) -> R {
    if let Some(c) = rt::ctx() {
        c.in_lib = true;
    }
    let _g = Guard;
    f()
}

pub fn mkp<T: Raw>(p: P) -> Point2<T> {
    Point2::new(T::from_f64(p.0), T::from_f64(p.1))
}
pub fn build<T: Raw>(i: &Item) -> Val<T> {
    let f = |x: f64| T::from_f64(x);
    match i {
        Item::Pt(p) => Val::Pt(mkp(*p)),
        Item::Seg(a, b) => Val::Seg(LineSegment2::new(mkp(*a), mkp(*b))),
        Item::Circle(c, r) => Val::Circle(CircleSegment2::new(mkp(*c), f(*r))),
        Item::Arc(c, r, s, t) => Val::Arc(ArcSegment2::new(CircleSegment2::new(mkp(*c), f(*r)), f(*s), f(*t))),
        Item::Ray(o, d) => Val::Ray(Ray2::new(mkp(*o), Vector2::new(f(d.0), f(d.1)))),
        Item::Coef(a, b, c) => Val::Line(Line2::new(f(*a), f(*b), f(*c))),
        Item::Tri(a, b, c) => Val::Tri(Triangle2::new(mkp(*a), mkp(*b), mkp(*c))),
        Item::Poly(v) => {
            let v: Vec<Point2<T>> = v.iter().map(|p| mkp(*p)).collect();
            Val::Poly(Polygon2::new(v.clone()), v)
        }
        Item::Pts(v) => Val::Pts(v.iter().map(|p| mkp(*p)).collect()),
    }
}

fn seg_dump<T: Raw>(o: &mut Out, s: &impl Segment2<T>) {
    o.p(&s.source());
    o.p(&s.target());
}
fn val_dump<T: Raw>(o: &mut Out, v: &Val<T>) {
    match v {
        Val::Pt(p) => o.p(p),
        Val::Seg(s) => seg_dump(o, s),
        Val::Circle(c) => {
            o.p(&c.center());
            o.f(c.radius())
        }
        Val::Arc(a) => {
            o.p(&a.center());
            o.f(a.radius());
            o.f(a.source_radian());
            o.f(a.target_radian());
            seg_dump(o, a)
        }
        Val::Ray(r) => {
            o.p(&r.origin());
            o.f(r.direction().x());
            o.f(r.direction().y())
        }
        Val::Line(l) => {
            o.f(l.a());
            o.f(l.b());
            o.f(l.c())
        }
        Val::Tri(t) => {
            for p in t.vertices() {
                o.p(&p)
            }
            o.i(t.orientation() as u64)
        }
        Val::Poly(p, v) => {
            o.pts(&p.vertices());
            for e in p.edges() {
                seg_dump(o, &e)
            }
            o.pts(v)
        }
        Val::Pts(v) => o.pts(v),
    }
}

macro_rules! prim {
    ($w:expr, $v:expr, $s:ident => $b:expr) => {
        match $v {
            Val::Seg($s) => {
                if $w.simseg {
                    let $s = &SimSeg(*$s);
                    Some($b)
                } else {
                    Some($b)
                }
            }
            Val::Circle($s) => {
                if $w.simseg {
                    let $s = &SimSeg(*$s);
                    Some($b)
                } else {
                    Some($b)
                }
            }
            Val::Arc($s) => {
                if $w.simseg {
                    let $s = &SimSeg(*$s);
                    Some($b)
                } else {
                    Some($b)
                }
            }
            _ => None,
        }
    };
}

struct Sink {
    buf: [u8; 4096],
    n: usize,
}
impl std::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        let take = |me: &mut Sink, m: usize| {
            for b in &s.as_bytes()[..m.min(s.len())] {
                if me.n < me.buf.len() {
                    me.buf[me.n] = *b;
                    me.n += 1;
                }
            }
        };
        match rt::sink() {
            None => {
                take(self, s.len());
                Ok(())
            }
            Some(m) => {
                take(self, m.min(s.len().saturating_sub(1)));
                Err(std::fmt::Error)
            }
        }
    }
}
fn sink_out(o: &mut Out, s: &Sink, r: std::fmt::Result) {
    o.b(r.is_ok());
    o.i(s.n as u64);
    for ch in s.buf[..s.n].chunks(8) {
        let mut w = 0u64;
        for (k, b) in ch.iter().enumerate() {
            w |= (*b as u64) << (8 * k);
        }
        o.i(w);
    }
}

/// Perform one call. Returns None when the plan's arguments do not fit the call.
pub fn op<T: Raw>(w: &mut World<T>, own: &mut Own<T>, op: &Op, o: &mut Out) -> Option<()> {
    use Val::*;
    let wp: *mut World<T> = w;
    // Shared values are only read through shared references below.
    let vals: &Vals<T> = unsafe { &(*wp).vals };
    let v = |k: usize| op.a.get(k).and_then(|i| vals.get(*i));
    let pt = |k: usize| match v(k) {
        Some(Pt(p)) => Some(p),
        _ => None,
    };
    let ix = |k: usize| op.a.get(k).copied();
    match op.k {
        K::Hull => {
            let Some(Pts(p)) = v(0) else { return None };
            let p = p.clone();
            let r = lib(|| ConvexHull2::new(p).convex_hull());
            o.pts(&r);
        }
        K::Sweep => {
            let r = lib(|| {
                let mut s = SweepSegment2Intersection::new();
                for i in &op.a {
                    if let Some(x) = vals.get(*i) {
                        prim!(w, x, x => s.push_segment(x));
                    }
                }
                s.intersection()
            });
            o.pts(&r);
        }
        K::Earcut => {
            let Some(Poly(_, p)) = v(0) else { return None };
            let p = p.clone();
            let r = lib(|| earcut_2(Polygon2::new(p)));
            o.i(r.len() as u64);
            for t in &r {
                o.i(t.len() as u64);
                for x in t {
                    o.i(*x as u64)
                }
            }
        }
        K::PolyInfo => {
            let Some(Poly(p, _)) = v(0) else { return None };
            let (a, c) = lib(|| (p.area(), p.is_convex()));
            o.f(a);
            o.b(c);
            let (vs, es) = lib(|| (p.vertices(), p.edges()));
            o.pts(&vs);
            o.i(es.len() as u64);
        }
        K::IsSimple => {
            let Some(Poly(p, _)) = v(0) else { return None };
            o.b(lib(|| p.is_simple()));
        }
        K::LocPoly => {
            let (Some(q), Some(Poly(p, _))) = (pt(0), v(1)) else { return None };
            let r = lib(|| {
                (
                    locate_point_2_polygon_2(q, p) as u64,
                    is_point_2_on_polygon_2(q, p),
                    is_point_2_inside_polygon_2(q, p),
                    is_point_2_outside_polygon_2(q, p),
                )
            });
            o.i(r.0);
            o.b(r.1);
            o.b(r.2);
            o.b(r.3);
        }
        K::LocTri => {
            let (Some(q), Some(Tri(t))) = (pt(0), v(1)) else { return None };
            o.i(lib(|| locate_point_2_triangle_2(q, t) as u64));
        }
        K::LocSeg => {
            let (Some(q), Some(Seg(s))) = (pt(0), v(1)) else { return None };
            let r = if w.simseg {
                let s = SimSeg(*s);
                lib(|| (locate_point_2_line_segment_2(q, &s) as u64, is_point_2_on_line_segment_2(q, &s)))
            } else {
                lib(|| (locate_point_2_line_segment_2(q, s) as u64, is_point_2_on_line_segment_2(q, s)))
            };
            o.i(r.0);
            o.b(r.1);
        }
        K::LocCircle => {
            let (Some(q), Some(Circle(s))) = (pt(0), v(1)) else { return None };
            let r = if w.simseg {
                let x = SimSeg(*s);
                lib(|| (locate_point_2_circle_segment_2(q, &x) as u64, is_point_2_on_circle_segment_2(q, s)))
            } else {
                lib(|| (locate_point_2_circle_segment_2(q, s) as u64, is_point_2_on_circle_segment_2(q, s)))
            };
            o.i(r.0);
            o.b(r.1);
        }
        K::LocArc => {
            let (Some(q), Some(Arc(s))) = (pt(0), v(1)) else { return None };
            let r = if w.simseg {
                let s = SimSeg(*s);
                lib(|| (locate_point_2_arc_segment_2(q, &s) as u64, is_point_2_on_arc_segment_2(q, &s)))
            } else {
                lib(|| (locate_point_2_arc_segment_2(q, s) as u64, is_point_2_on_arc_segment_2(q, s)))
            };
            o.i(r.0);
            o.b(r.1);
        }
        K::LocRay => {
            let (Some(q), Some(Ray(s))) = (pt(0), v(1)) else { return None };
            let r = lib(|| (locate_point_2_ray_2(q, s) as u64, is_point_2_on_ray_2(q, s)));
            o.i(r.0);
            o.b(r.1);
        }
        K::LocLine => {
            let (Some(q), Some(Line(s))) = (pt(0), v(1)) else { return None };
            let r = lib(|| (locate_point_2_line_2(q, s) as u64, is_point_2_on_line_2(q, s)));
            o.i(r.0);
            o.b(r.1);
        }
        K::Isect => {
            let (a, b) = (v(0)?, v(1)?);
            let r = prim!(w, a, x => prim!(w, b, y => lib(|| (
                segment_2_segment_2_intersection(x, y),
                is_segment_2_segment_2_intersected(x, y)
            ))));
            let (p, q) = r??;
            o.pts(&p);
            o.b(q);
        }
        K::LineLine => {
            let (Some(Line(a)), Some(Line(b))) = (v(0), v(1)) else { return None };
            let r = lib(|| (line_2_line_2_intersection(a, b), is_line_2_line_2_intersected(a, b), a == b));
            o.op(&r.0);
            o.b(r.1);
            o.b(r.2);
        }
        K::LineRay => {
            let (Some(Line(a)), Some(Ray(b))) = (v(0), v(1)) else { return None };
            let r = lib(|| (line_2_ray_2_intersection(a, b), is_line_2_ray_2_intersected(a, b)));
            o.op(&r.0);
            o.b(r.1);
        }
        K::SegRay => {
            let (Some(Seg(a)), Some(Ray(b))) = (v(0), v(1)) else { return None };
            let r = lib(|| (line_segment_2_ray_2_intersection(a, b), is_line_segment_2_ray_2_intersected(a, b)));
            o.pts(&r.0);
            o.b(r.1);
        }
        K::ProjLine => {
            let (Some(q), Some(Line(l))) = (pt(0), v(1)) else { return None };
            let r = lib(|| point_2_project_line_2(q, l));
            o.p(&r);
        }
        K::ProjSeg => {
            let (Some(q), Some(Seg(s))) = (pt(0), v(1)) else { return None };
            let r = if w.simseg {
                let s = SimSeg(*s);
                lib(|| point_2_project_line_segment_2(q, &s))
            } else {
                lib(|| point_2_project_line_segment_2(q, s))
            };
            o.op(&r);
        }
        K::TriInfo => {
            let Some(Tri(t)) = v(0) else { return None };
            let r = lib(|| {
                let mut u = t.clone();
                u.reverse_orientation();
                (t.area(), t.orientation() as u64, u.orientation() as u64, u.area(), t == &u, t.edges())
            });
            o.f(r.0);
            o.i(r.1);
            o.i(r.2);
            o.f(r.3);
            o.b(r.4);
            for e in &r.5 {
                seg_dump(o, e)
            }
        }
        K::VecOps => {
            let (Some(p), Some(q)) = (pt(0), pt(1)) else { return None };
            let r = lib(|| {
                let (a, b) = (p.get_vector(), q.get_vector());
                let s = a + b;
                let d = a - b;
                let n = a.normalize();
                let m = d * T::from_f64(0.5) / T::from_f64(4.0);
                (a.length(), a.dot(&b), a.cross(&b), a.radian_to(&b), n, s, m, a == b)
            });
            o.f(r.0);
            o.f(r.1);
            o.f(r.2);
            o.ang(r.3);
            for x in [r.4, r.5, r.6] {
                o.f(x.x());
                o.f(x.y());
            }
            o.b(r.7);
        }
        K::ArcOps => match v(0)? {
            Arc(a) => {
                let (m, t, e) = lib(|| (a.monotone(), a.is_top(), ArcSegment2::new(CircleSegment2::new(a.center(), a.radius()), a.source_radian(), a.target_radian()) == *a));
                o.i(m.len() as u64);
                o.b(t);
                o.b(e);
                let d = lib(|| m.iter().map(|x| (x.source(), x.target(), x.is_top())).collect::<Vec<_>>());
                for x in &d {
                    o.p(&x.0);
                    o.p(&x.1);
                    o.b(x.2);
                }
            }
            Circle(c) => {
                let m = lib(|| c.monotone());
                o.i(m.len() as u64);
                for x in &m {
                    o.f(x.source_radian());
                    o.f(x.target_radian());
                }
            }
            _ => return None,
        },
        K::PointOps => {
            let (Some(p), Some(q)) = (pt(0), pt(1)) else { return None };
            let r = lib(|| {
                let m = *p + *q;
                let l = Line2::from_points(p, q);
                (
                    p.distance(q),
                    p.equals(q),
                    p.cmp(q) as i8 as u64,
                    Point2::turn(p, q, &Point2::new(m.y(), m.x())) as u64,
                    l,
                    Vertex2::new(p.x(), p.y()).cmp(&Vertex2::new(q.x(), q.y())) as i8 as u64,
                )
            });
            o.f(r.0);
            o.b(r.1);
            o.i(r.2);
            o.i(r.3);
            o.f(r.4.a());
            o.f(r.4.b());
            o.f(r.4.c());
            o.i(r.5);
        }
        K::Make => {
            // the value built, copied and read again from its parts
            let x = v(0)?;
            let y = match op.a.get(1) {
                Some(_) => lib(|| build(&w.items[op.a[0]])),
                None => lib(|| make(x)),
            };
            let eq = lib(|| same(x, &y));
            val_dump(o, &y);
            o.i(eq.map_or(9, |e| e as u64));
            lib(|| drop(y));
        }
        K::Equal => {
            let (a, b) = (v(0)?, v(1)?);
            let r = lib(|| (same(a, b), same(b, a)));
            o.i(r.0.map_or(9, |e| e as u64));
            o.i(r.1.map_or(9, |e| e as u64));
        }
        K::Fmt => {
            let alt = ix(1).unwrap_or(0);
            let mut s = Sink { buf: [0; 4096], n: 0 };
            macro_rules! fm {
                ($x:expr) => {{
                    let x = $x;
                    match alt {
                        1 => lib(|| write!(s, "{:#?}", x)),
                        4 => lib(|| write!(s, "{:>9.2?}", x)),
                        5 => lib(|| write!(s, "{:+012.3?}", x)),
                        _ => lib(|| write!(s, "{:?}", x)),
                    }
                }};
            }
            let r = match v(0)? {
                Pt(p) if alt == 2 => lib(|| write!(s, "{}", p)),
                Pt(p) if alt == 3 => {
                    let q = p.get_vector();
                    fm!(&q)
                }
                Pt(p) if alt == 6 => lib(|| write!(s, "{:>30}", p)),
                Pt(p) if alt == 7 => {
                    let q = Vertex2::new(p.x(), p.y());
                    fm!(&q)
                }
                Pt(p) if alt == 8 => {
                    let v: Vec<_> = (0..3).map(|_| Rc::new(RefCell::new(Vertex2::new(p.x(), p.y())))).collect();
                    let q = Edge2::new_segment(v[0].clone(), v[1].clone());
                    v[2].borrow_mut().add_edge(Rc::new(RefCell::new(q.clone())));
                    lib(|| write!(s, "{:?} {:?}", q, v[2]))
                }
                Tri(x) if alt >= 6 => {
                    let q = (x.orientation(), Point2::turn(&x.vertices()[0], &x.vertices()[1], &x.vertices()[2]));
                    lib(|| write!(s, "{:>20?} {:#?} {:?}", q.0, q.1, LineSegment2::new(x.vertices()[0], x.vertices()[1]).segment_type()))
                }
                Pt(p) => fm!(p),
                Seg(x) => fm!(x),
                Circle(x) => fm!(x),
                Arc(x) => fm!(x),
                Line(x) => fm!(x),
                Tri(x) => fm!(x),
                _ => return None,
            };
            sink_out(o, &s, r);
        }
        K::Dcel => {
            let d = dcel_build(&op.a, vals, 0)?;
            let r = lib(|| {
                let es: Vec<_> = d.hub.borrow().edges();
                let eq = es.len() >= 2 && *es[0].borrow() == *es[1].borrow();
                let (c, h) = (es[0].borrow().clone(), d.hub.borrow().clone());
                let eq = if c == *es[0].borrow() && h == *d.hub.borrow() { eq } else { !eq };
                let n0 = es.len();
                let seg = es[0].borrow().to_segment();
                (n0, eq, seg)
            });
            o.i(r.0 as u64);
            o.b(r.1);
            seg_dump(o, &r.2);
            let es = d.e.clone();
            for e in es.into_iter().flatten() {
                lib(|| d.hub.borrow_mut().remove_edge(e));
            }
            o.i(d.hub.borrow().edges().len() as u64);
        }
        K::SwNew => {
            own.sweeps[ix(0)? % 8] = Some(lib(|| SweepSegment2Intersection::new()));
        }
        K::SwPush => {
            let s = own.sweeps[ix(0)? % 8].as_mut()?;
            let x = v(1)?;
            prim!(w, x, x => lib(|| s.push_segment(x)))?;
        }
        K::SwQuery => {
            let s = own.sweeps[ix(0)? % 8].as_mut()?;
            let r = lib(|| s.intersection());
            o.pts(&r);
        }
        K::HullNew => {
            let Some(Pts(p)) = v(1) else { return None };
            let p = p.clone();
            w.hulls[ix(0)? % 8] = (false, Some(lib(|| ConvexHull2::new(p))));
        }
        K::HullQuery => {
            let i = ix(0)? % 8;
            let h = unsafe { let hs: &mut Vec<(bool, Option<ConvexHull2<T>>)> = &mut (*wp).hulls; &mut hs[i] };
            if h.0 {
                return None; // somebody else is inside: an owner never shares it
            }
            let hp: *mut (bool, Option<ConvexHull2<T>>) = h;
            struct Busy<X>(*mut (bool, X));
            impl<X> Drop for Busy<X> {
                fn drop(&mut self) {
                    unsafe { (*self.0).0 = false }
                }
            }
            let x = unsafe { (*hp).1.as_mut()? };
            unsafe { (*hp).0 = true };
            let _b = Busy(hp);
            let r = lib(|| x.convex_hull());
            o.pts(&r);
        }
        K::HullPush => {
            // the list of points is public: its owner may add to it between queries
            let Some(Pt(q)) = v(1) else { return None };
            let h = &mut w.hulls[ix(0)? % 8];
            if h.0 {
                return None;
            }
            let q = *q;
            let ps = &mut h.1.as_mut()?.points;
            match op.a.get(2) {
                Some(k) if *k == 99 => {
                    // another list that holds the same points and one more
                    let mut l = vec![q];
                    l.extend(ps.iter().rev());
                    *ps = l;
                }
                Some(k) => ps.insert(*k % (ps.len() + 1), q),
                None => ps.push(q),
            }
        }
        K::HullDump => {
            // the object's own public field, as a multiset
            let h = &w.hulls[ix(0)? % 8];
            let x = h.1.as_ref()?;
            let mut b: Vec<(u64, u64)> = x.points.iter().map(|p| (p.x().to().to_bits(), p.y().to().to_bits())).collect();
            b.sort();
            for q in b {
                o.i(q.0);
                o.i(q.1);
            }
        }
        K::DcelNew => {
            let k = ix(0)?;
            own.dcels[k % 8] = Some(dcel_build(&op.a[1..], vals, k / 8)?);
        }
        K::DcelRemove => {
            let d = own.dcels[ix(0)? % 8].as_mut()?;
            let e = d.edge(ix(1)?)?;
            lib(|| d.hub.borrow_mut().remove_edge(e));
        }
        K::DcelAdd => {
            let d = own.dcels[ix(0)? % 8].as_mut()?;
            let e = d.edge(ix(1)?)?;
            lib(|| d.hub.borrow_mut().add_edge(e));
        }
        K::DcelLink => {
            let d = own.dcels[ix(0)? % 8].as_mut()?;
            let e = d.edge(ix(2)?)?;
            let x = ix(3)?;
            match ix(1)? {
                w @ 0..=2 => {
                    let f = d.edge(x)?;
                    lib(|| match w {
                        0 => e.borrow_mut().set_twin(f),
                        1 => e.borrow_mut().set_next(f),
                        _ => e.borrow_mut().set_prev(f),
                    });
                }
                5 => d.e[ix(2)?] = None,
                w => {
                    let q = pt(3)?;
                    let f = Rc::new(RefCell::new(lib(|| Vertex2::new(q.x(), q.y()))));
                    d.h.push(Rc::as_ptr(&f));
                    lib(|| {
                        if w == 3 {
                            e.borrow_mut().set_source(f)
                        } else {
                            e.borrow_mut().set_target(f)
                        }
                    });
                }
            }
        }
        K::DcelDump => {
            let d = own.dcels[ix(0)? % 8].as_ref()?;
            let at = |x: &Rc<RefCell<Edge2<T>>>| d.ea.iter().position(|y| Rc::as_ptr(x) == *y).unwrap_or(998) as u64;
            let hub = d.hub.borrow();
            let es = hub.edges();
            o.i(es.len() as u64);
            for x in es {
                o.i(at(&x));
                seg_dump(o, &x.borrow().to_segment());
            }
            o.f(hub.x());
            o.f(hub.y());
            o.p(&hub.to_point());
            let there = d.reach();
            for a in &d.ea {
                let Some(x) = there.iter().find(|x| Rc::as_ptr(x) == *a) else {
                    // let go of by everyone
                    for i in 0..11 {
                        o.i(if i == 0 { 999 } else { 0 });
                    }
                    continue;
                };
                let e = x.borrow();
                for l in [e.twin(), e.next(), e.prev()] {
                    o.i(l.map_or(0, |l| at(&l) + 1));
                }
                for v in [e.source(), e.target()] {
                    o.i(d.h.iter().rposition(|y| Rc::as_ptr(&v) == *y).unwrap_or(998) as u64);
                    o.p(&v.borrow().to_point());
                }
                o.i(e.edge_type() as u64);
                o.b(e.face().is_some());
            }
        }
        K::DcelEq => {
            let d = own.dcels[ix(0)? % 8].as_ref()?;
            let (e, f) = (d.edge(ix(1)?)?, d.edge(ix(2)?)?);
            o.b(lib(|| e == f));
        }
        K::DcelFmt => {
            let d = own.dcels[ix(0)? % 8].as_ref()?;
            let mut s = Sink { buf: [0; 4096], n: 0 };
            let r = match ix(1)? {
                0 => lib(|| write!(s, "{:?}", d.hub)),
                1 => lib(|| write!(s, "{:#?}", d.hub)),
                k => {
                    let e = d.edge(k - 2)?;
                    lib(|| write!(s, "{:?}", e))
                }
            };
            sink_out(o, &s, r);
        }
        K::Dump => {
            for x in vals.iter() {
                let mut t = Out(Vec::with_capacity(256));
                lib(|| val_dump(&mut t, x));
                let mut h = 0xcbf29ce484222325;
                for y in &t.0 {
                    h = fnv(h, *y);
                }
                o.i(h);
            }
        }
    }
    Some(())
}

fn make<T: Raw>(x: &Val<T>) -> Val<T> {
    match x {
        Val::Pt(p) => Val::Pt(Point2::new(p.x(), p.y()).clone()),
        Val::Seg(s) => Val::Seg(LineSegment2::new(s.source(), s.target()).clone()),
        Val::Circle(c) => Val::Circle(CircleSegment2::new(c.center(), c.radius()).clone()),
        Val::Arc(a) => Val::Arc(ArcSegment2::new(CircleSegment2::new(a.center(), a.radius()), a.source_radian(), a.target_radian()).clone()),
        Val::Ray(r) => Val::Ray(Ray2::new(r.origin(), r.direction())),
        Val::Line(l) => Val::Line(Line2::new(l.a(), l.b(), l.c()).clone()),
        Val::Tri(t) => Val::Tri(Triangle2::new(t.a(), t.b(), t.c()).clone()),
        Val::Poly(p, v) => Val::Poly(Polygon2::new(p.vertices()), v.clone()),
        Val::Pts(v) => {
            let h = ConvexHull2::new(v.clone());
            Val::Pts(h.points)
        }
    }
}
fn same<T: Raw>(x: &Val<T>, y: &Val<T>) -> Option<bool> {
    Some(match (x, y) {
        (Val::Pt(a), Val::Pt(b)) => a == b,
        (Val::Seg(a), Val::Seg(b)) => a == b,
        (Val::Arc(a), Val::Arc(b)) => a == b,
        (Val::Circle(a), Val::Circle(b)) => a.center() == b.center() && a.monotone() == b.monotone(),
        (Val::Line(a), Val::Line(b)) => a == b,
        (Val::Tri(a), Val::Tri(b)) => a == b,
        (Val::Ray(a), Val::Ray(b)) => a.origin() == b.origin() && a.direction() == b.direction(),
        (Val::Poly(a, _), Val::Poly(b, _)) => a.edges() == b.edges(),
        (Val::Pts(a), Val::Pts(b)) => a == b && a.iter().zip(b).all(|(x, y)| x.partial_cmp(y) == y.partial_cmp(x)),
        _ => return None,
    })
}

fn dcel_build<T: Raw>(a: &[usize], vals: &Vals<T>, mode: usize) -> Option<DcelSlot<T>> {
    let ps: Vec<&Point2<T>> = a
        .iter()
        .filter_map(|i| match vals.get(*i) {
            Some(Val::Pt(p)) => Some(p),
            _ => None,
        })
        .collect();
    if ps.len() < 3 {
        return None;
    }
    Some(lib(|| {
        let v: Vec<_> = ps.iter().map(|p| Rc::new(RefCell::new(Vertex2::new(p.x(), p.y())))).collect();
        let ne = (v.len() - 1) / 2;
        let e: Vec<_> = if mode & 4 != 0 {
            (1..=ne).map(|i| Rc::new(RefCell::new(Edge2::new_segment(v[i].clone(), v[i + ne].clone())))).collect()
        } else {
            v[1..]
            .iter()
            .enumerate()
            .map(|(i, t)| {
                let (s, t) = (v[0].clone(), t.clone());
                Rc::new(RefCell::new(if mode & 2 != 0 && i % 2 == 1 { Edge2::new_arc(s, t) } else { Edge2::new_segment(s, t) }))
            })
            .collect()
        };
        let hub = if mode & 1 != 0 { v[0].clone() } else { Rc::new(RefCell::new(Vertex2::new(ps[0].x(), ps[0].y()))) };
        for x in &e {
            hub.borrow_mut().add_edge(x.clone());
        }
        let ea = e.iter().map(Rc::as_ptr).collect();
        let h = v.iter().map(Rc::as_ptr).collect();
        DcelSlot { hub, e: e.into_iter().map(Some).collect(), ea, h }
    }))
}
