#![allow(dead_code, unused_imports)]
// ---- kit: a number type that can panic, call back or be inexact at a chosen operation
mod kit {
    use rcgal::kernel::number_type::{DefaultNumberValueTrait, NumberType};
    use std::cell::{Cell, RefCell};
    use std::fmt;
    use std::ops::*;
    thread_local! {
        pub static COUNT: Cell<u64> = Cell::new(0);
        pub static FAIL_AT: Cell<u64> = Cell::new(u64::MAX);
        pub static HOOK: RefCell<Option<Box<dyn FnMut(u64)>>> = RefCell::new(None);
        pub static ULP: Cell<u64> = Cell::new(0);
    }
    fn tick() {
        let n = COUNT.with(|c| { c.set(c.get() + 1); c.get() });
        if n == FAIL_AT.with(|c| c.get()) {
            panic!("injected");
        }
        let h = HOOK.with(|h| h.borrow_mut().take());
        if let Some(mut h) = h {
            h(n);
            HOOK.with(|x| *x.borrow_mut() = Some(h));
        }
    }
    /// results of mathematical functions may be one place off, as the seed in ULP decides
    fn off(x: f64) -> f64 {
        let s = ULP.with(|u| u.get());
        if s == 0 { return x; }
        let z = (s ^ x.to_bits()).wrapping_mul(0x9E3779B97F4A7C15);
        let z = (z ^ z >> 29).wrapping_mul(0xBF58476D1CE4E5B9) >> 40;
        match z % 3 { 0 => x, 1 => f64::from_bits(x.to_bits().wrapping_add(1)), _ => if x == 0.0 { x } else { f64::from_bits(x.to_bits() - 1) } }
    }
    #[derive(Clone, Copy, PartialEq, PartialOrd)]
    pub struct N(pub f64);
    impl fmt::Debug for N { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "{}", self.0) } }
    impl fmt::Display for N { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "{}", self.0) } }
    impl Add for N { type Output = N; fn add(self, o: N) -> N { tick(); N(self.0 + o.0) } }
    impl Sub for N { type Output = N; fn sub(self, o: N) -> N { tick(); N(self.0 - o.0) } }
    impl Mul for N { type Output = N; fn mul(self, o: N) -> N { tick(); N(self.0 * o.0) } }
    impl Div for N { type Output = N; fn div(self, o: N) -> N { tick(); N(self.0 / o.0) } }
    impl Neg for N { type Output = N; fn neg(self) -> N { tick(); N(-self.0) } }
    impl DefaultNumberValueTrait for N {
        fn default() -> N { N(0.0) }
        fn default_eps() -> N { N(1e-10) }
        fn zero() -> N { N(0.0) }
        fn from_f64(v: f64) -> N { N(v) }
        fn pi() -> N { N(std::f64::consts::PI) }
    }
    impl NumberType for N {
        fn equals(self, o: N) -> bool { tick(); (self.0 - o.0).abs() < 1e-10 }
        fn sqrt(self) -> N { tick(); N(off(self.0.sqrt())) }
        fn abs(self) -> N { tick(); N(self.0.abs()) }
        fn sin(self) -> N { tick(); N(off(self.0.sin())) }
        fn cos(self) -> N { tick(); N(off(self.0.cos())) }
        fn acos(self) -> N { tick(); N(off(self.0.acos())) }
        fn atan(self) -> N { tick(); N(off(self.0.atan())) }
        fn atan2(self, o: N) -> N { tick(); N(off(self.0.atan2(o.0))) }
    }
    /// number operations in f
    pub fn ops<R>(f: impl FnOnce() -> R) -> (R, u64) {
        COUNT.with(|c| c.set(0));
        let r = f();
        (r, COUNT.with(|c| c.get()))
    }
    /// f with a panic at its k-th number operation; None if it was cut short
    pub fn cut<R>(k: u64, f: impl FnOnce() -> R) -> Option<R> {
        std::panic::set_hook(Box::new(|_| {}));
        COUNT.with(|c| c.set(0));
        FAIL_AT.with(|c| c.set(k));
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok();
        FAIL_AT.with(|c| c.set(u64::MAX));
        let _ = std::panic::take_hook();
        r
    }
    pub fn n(x: f64) -> N { N(x) }
    // ---- live heap bytes
    pub struct Count;
    pub static LIVE: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(0);
    /// calls of alloc to go before one fails (0 = never)
    pub static FAIL_ALLOC: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(0);
    unsafe impl std::alloc::GlobalAlloc for Count {
        unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
            use std::sync::atomic::Ordering::SeqCst;
            if FAIL_ALLOC.load(SeqCst) > 0 && FAIL_ALLOC.fetch_sub(1, SeqCst) == 1 {
                return std::ptr::null_mut();
            }
            LIVE.fetch_add(l.size() as i64, SeqCst);
            std::alloc::System.alloc(l)
        }
        unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
            LIVE.fetch_sub(l.size() as i64, std::sync::atomic::Ordering::SeqCst);
            std::alloc::System.dealloc(p, l)
        }
    }
    #[global_allocator]
    static A: Count = Count;
    pub fn live() -> i64 { LIVE.load(std::sync::atomic::Ordering::SeqCst) }
}
use kit::*;
use rcgal::algorithm::convex_hull::convex_hull_2::ConvexHull2;
use rcgal::algorithm::intersection::segment_2_segment_2::*;
use rcgal::algorithm::intersection::sweep_segment_2_intersection::SweepSegment2Intersection;
use rcgal::algorithm::location::point_2_arc_segment_2::*;
use rcgal::algorithm::triangulation::earcut_2::earcut_2;
use rcgal::kernel::{arc_segment_2::ArcSegment2, circle_segment_2::CircleSegment2, edge_2::Edge2, line_segment_2::LineSegment2, number_type::NumberType, point_2::Point2, polygon_2::Polygon2, segment_2::Segment2, vertex_2::Vertex2};
use std::cell::RefCell;
use std::rc::Rc;
fn pt(x: f64, y: f64) -> Point2<f64> { Point2::new(x, y) }
fn seg(a: f64, b: f64, c: f64, d: f64) -> LineSegment2<f64> { LineSegment2::new(pt(a, b), pt(c, d)) }
fn npt(x: f64, y: f64) -> Point2<N> { Point2::new(N(x), N(y)) }
fn nseg(a: f64, b: f64, c: f64, d: f64) -> LineSegment2<N> { LineSegment2::new(npt(a, b), npt(c, d)) }
fn xy<T: NumberType>(v: &[Point2<T>]) -> Vec<String> { v.iter().map(|p| format!("{}", p)).collect() }
// ---- end of kit
