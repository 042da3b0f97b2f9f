//! Caller-supplied types. `Sim<F>` is a caller's number type: every operation is
//! the library's own f64/f32 one, with the simulator in between. `SimSeg` is a
//! caller's segment type.
use rcgal::kernel::{
    number_type::{DefaultNumberValueTrait, NumberType},
    point_2::Point2,
    segment_2::Segment2,
    util_enum::Segment2Type,
};
use simcore::plan::F;
use simcore::rt::{callback, incomparable, jitter};
use std::cmp::Ordering;
use std::fmt;

#[derive(Clone, Copy)]
pub struct Sim<N>(pub N);

pub trait Raw: NumberType + 'static {
    fn to(self) -> f64;
    fn ulps(self, k: i64) -> Self;
}
impl Raw for f64 {
    fn to(self) -> f64 {
        self
    }
    fn ulps(self, k: i64) -> f64 {
        if self == 0.0 || !self.is_finite() || k == 0 {
            return self;
        }
        let b = self.to_bits() as i64;
        f64::from_bits((b + k) as u64)
    }
}
impl Raw for f32 {
    fn to(self) -> f64 {
        self as f64
    }
    fn ulps(self, k: i64) -> f32 {
        if self == 0.0 || !self.is_finite() || k == 0 {
            return self;
        }
        let b = self.to_bits() as i32;
        f32::from_bits((b + k as i32) as u32)
    }
}
impl<N: Raw> Raw for Sim<N> {
    fn to(self) -> f64 {
        self.0.to()
    }
    fn ulps(self, k: i64) -> Self {
        Sim(self.0.ulps(k))
    }
}

#[inline(always)]
fn top() {
    callback(F::Top)
}
fn clamp1<N: Raw>(x: N) -> N {
    let one = N::from_f64(1.0);
    if x > one {
        one
    } else if x < -one {
        -one
    } else {
        x
    }
}

impl<N: Raw> DefaultNumberValueTrait for Sim<N> {
    fn default() -> Self {
        top();
        Sim(<N as DefaultNumberValueTrait>::default())
    }
    fn default_eps() -> Self {
        top();
        Sim(N::default_eps())
    }
    fn zero() -> Self {
        top();
        Sim(N::zero())
    }
    fn from_f64(v: f64) -> Self {
        top();
        Sim(N::from_f64(v))
    }
    fn pi() -> Self {
        top();
        Sim(N::pi())
    }
}
macro_rules! bin {
    ($($tr:ident $m:ident $o:tt),*) => {$(
        impl<N: Raw> std::ops::$tr for Sim<N> {
            type Output = Self;
            fn $m(self, o: Self) -> Self { top(); Sim(self.0 $o o.0) }
        }
    )*};
}
bin!(Add add +, Sub sub -, Mul mul *, Div div /);
impl<N: Raw> std::ops::Neg for Sim<N> {
    type Output = Self;
    fn neg(self) -> Self {
        top();
        Sim(-self.0)
    }
}
impl<N: Raw> PartialEq for Sim<N> {
    fn eq(&self, o: &Self) -> bool {
        top();
        self.0 == o.0
    }
}
impl<N: Raw> PartialOrd for Sim<N> {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        top();
        if incomparable() {
            return None;
        }
        self.0.partial_cmp(&o.0)
    }
    fn lt(&self, o: &Self) -> bool {
        top();
        !incomparable() && self.0 < o.0
    }
    fn le(&self, o: &Self) -> bool {
        top();
        !incomparable() && self.0 <= o.0
    }
    fn gt(&self, o: &Self) -> bool {
        top();
        !incomparable() && self.0 > o.0
    }
    fn ge(&self, o: &Self) -> bool {
        top();
        !incomparable() && self.0 >= o.0
    }
}
impl<N: Raw> fmt::Debug for Sim<N> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(&self.0, f)
    }
}
impl<N: Raw> fmt::Display for Sim<N> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Display::fmt(&self.0, f)
    }
}
impl<N: Raw> NumberType for Sim<N> {
    fn equals(self, o: Self) -> bool {
        top();
        self.0.equals(o.0)
    }
    fn sqrt(self) -> Self {
        top();
        Sim(NumberType::sqrt(self.0).ulps(jitter(5, self.0.to().to_bits(), 0)))
    }
    fn abs(self) -> Self {
        top();
        Sim(NumberType::abs(self.0))
    }
    fn sin(self) -> Self {
        top();
        Sim(clamp1(NumberType::sin(self.0).ulps(jitter(0, self.0.to().to_bits(), 0))))
    }
    fn cos(self) -> Self {
        top();
        Sim(clamp1(NumberType::cos(self.0).ulps(jitter(1, self.0.to().to_bits(), 0))))
    }
    fn acos(self) -> Self {
        top();
        Sim(NumberType::acos(self.0).ulps(jitter(2, self.0.to().to_bits(), 0)))
    }
    fn atan(self) -> Self {
        top();
        Sim(NumberType::atan(self.0).ulps(jitter(3, self.0.to().to_bits(), 0)))
    }
    fn atan2(self, o: Self) -> Self {
        top();
        let r = NumberType::atan2(self.0, o.0).ulps(jitter(4, self.0.to().to_bits(), o.0.to().to_bits()));
        let pi = N::pi();
        Sim(if r > pi {
            pi
        } else if r < -pi {
            -pi
        } else {
            r
        })
    }
}

/// A caller's own segment type, whose accessors are calls out of the library.
#[derive(Clone, Copy, Debug)]
pub struct SimSeg<S>(pub S);
impl<T: NumberType, S: Segment2<T>> Segment2<T> for SimSeg<S> {
    fn segment_type(&self) -> Segment2Type {
        callback(F::Seg);
        self.0.segment_type()
    }
    fn source(&self) -> Point2<T> {
        callback(F::Seg);
        self.0.source()
    }
    fn source_radian(&self) -> T {
        callback(F::Seg);
        self.0.source_radian()
    }
    fn target(&self) -> Point2<T> {
        callback(F::Seg);
        self.0.target()
    }
    fn target_radian(&self) -> T {
        callback(F::Seg);
        self.0.target_radian()
    }
    fn center(&self) -> Point2<T> {
        callback(F::Seg);
        self.0.center()
    }
    fn radius(&self) -> T {
        callback(F::Seg);
        self.0.radius()
    }
}
