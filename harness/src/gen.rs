//! Generators shared by the laws.
use crate::engine::{dict, Src};
use crate::quad::{Real, Q};
use scarlet::math::interval::Interval;
use scarlet::math::scalar::{AlmostEqual, GFloat};
use scarlet::math::vector::{Normal3, Point3, Vector3};

/// The two float types under test, with a wider reference type.
pub trait Fl:
    GFloat + AlmostEqual + Send + Sync + 'static + std::fmt::Display + std::ops::Neg<Output = Self>
{
    type R: Real;
    const EPS: f64;
    const MAXE: i32;
    const MINE: i32;
    const NAME: &'static str;
    fn t(x: f64) -> Self;
    fn d(self) -> f64;
    fn r(self) -> Self::R {
        Self::R::of(self.d())
    }
    fn q(self) -> Q {
        Q::of(self.d())
    }
    fn up(self) -> Self;
    fn down(self) -> Self;
    fn tiny() -> Self;
    fn big() -> Self;
    fn raw(bits: u64) -> Self;
    fn bits(self) -> u64;
    fn fin(self) -> bool {
        self.d().is_finite()
    }
    /// distance to the next larger magnitude at |x| (never below the smallest
    /// subnormal)
    fn ulp(x: f64) -> f64;
}
impl Fl for f32 {
    type R = f64;
    const EPS: f64 = f32::EPSILON as f64 / 2.0;
    const MAXE: i32 = 127;
    const MINE: i32 = -149;
    const NAME: &'static str = "f32";
    #[inline]
    fn t(x: f64) -> f32 {
        x as f32
    }
    #[inline]
    fn d(self) -> f64 {
        self as f64
    }
    #[inline]
    fn up(self) -> f32 {
        f32::next_up(self)
    }
    #[inline]
    fn down(self) -> f32 {
        f32::next_down(self)
    }
    fn tiny() -> f32 {
        f32::from_bits(1)
    }
    fn big() -> f32 {
        f32::MAX
    }
    fn raw(b: u64) -> f32 {
        f32::from_bits(b as u32)
    }
    fn bits(self) -> u64 {
        self.to_bits() as u64
    }
    fn ulp(x: f64) -> f64 {
        let a = (x.abs() as f32).min(f32::MAX);
        let b = f32::from_bits(a.to_bits() & 0x7f80_0000);
        (b as f64 * f32::EPSILON as f64).max(f32::from_bits(1) as f64)
    }
}
impl Fl for f64 {
    type R = Q;
    const EPS: f64 = f64::EPSILON / 2.0;
    const MAXE: i32 = 1023;
    const MINE: i32 = -1074;
    const NAME: &'static str = "f64";
    #[inline]
    fn t(x: f64) -> f64 {
        x
    }
    #[inline]
    fn d(self) -> f64 {
        self
    }
    #[inline]
    fn up(self) -> f64 {
        f64::next_up(self)
    }
    #[inline]
    fn down(self) -> f64 {
        f64::next_down(self)
    }
    fn tiny() -> f64 {
        f64::from_bits(1)
    }
    fn big() -> f64 {
        f64::MAX
    }
    fn raw(b: u64) -> f64 {
        f64::from_bits(b)
    }
    fn bits(self) -> u64 {
        self.to_bits()
    }
    fn ulp(x: f64) -> f64 {
        let a = x.abs().min(f64::MAX);
        let b = f64::from_bits(a.to_bits() & 0x7ff0_0000_0000_0000);
        (b * f64::EPSILON).max(f64::from_bits(1))
    }
}

pub fn exp2i(e: i32) -> f64 {
    if e >= -1022 {
        f64::from_bits(((e + 1023) as u64) << 52)
    } else {
        f64::from_bits(1u64 << (e + 1074))
    }
}

fn sgn(s: &mut Src) -> f64 {
    if s.chance(1, 2) {
        -1.0
    } else {
        1.0
    }
}

fn jiggle<T: Fl>(s: &mut Src, x: T) -> T {
    match s.weighted(&[4, 1, 1, 1, 1]) {
        0 => x,
        1 => x.up(),
        2 => x.down(),
        3 => x.up().up(),
        _ => x.down().down(),
    }
}

/// Any finite float: all magnitudes, subnormals, extremes, literals of the
/// tested sources, values equal or adjacent to earlier ones.
pub fn any_finite<T: Fl>(s: &mut Src) -> T {
    let x: T = match s.weighted(&[6, 4, 6, 5, 4, 3, 3, 3, 2, 2, 2]) {
        0 => T::t(s.int(-8, 8) as f64),
        1 => T::t(s.int(-64, 64) as f64 / 8.0),
        2 => T::t(s.uni(-10.0, 10.0)),
        3 => {
            // log-uniform over the whole exponent range
            let e = s.int(T::MINE as i64, T::MAXE as i64) as i32;
            let m = 1.0 + s.unit();
            let g = sgn(s);
            T::t(g * (exp2i(e) * m).min(T::big().d()))
        }
        4 => {
            let e = s.int(-40, 40) as i32;
            let m = 1.0 + s.unit();
            T::t(sgn(s) * exp2i(e) * m)
        }
        5 => match s.recall() {
            Some(v) => {
                let v = T::t(v);
                let v = if s.chance(1, 3) { -v } else { v };
                jiggle(s, v)
            }
            None => T::t(1.0),
        },
        6 => {
            let d = dict();
            let k = s.pick(d.len());
            let g = sgn(s);
            let v = T::t(g * d[k]);
            if v.fin() {
                jiggle(s, v)
            } else {
                T::t(1.0)
            }
        }
        7 => {
            // powers of two and their neighbours
            let e = s.int(T::MINE as i64, T::MAXE as i64) as i32;
            let g = sgn(s);
            let v = T::t(g * exp2i(e));
            jiggle(s, v)
        }
        8 => {
            // subnormals and the smallest normals
            let k = s.below(64);
            let v = T::raw(k);
            if s.chance(1, 2) {
                -v
            } else {
                v
            }
        }
        9 => {
            // the largest numbers
            let mut v = T::big();
            for _ in 0..s.below(4) {
                v = v.down();
            }
            if s.chance(1, 4) {
                v = T::t(v.d() / 2.0);
            }
            if s.chance(1, 2) {
                -v
            } else {
                v
            }
        }
        _ => {
            let v = T::raw(s.u64());
            if v.fin() {
                v
            } else {
                T::t(0.5)
            }
        }
    };
    let x = if x.fin() { x } else { T::t(sgn(s)) * T::big() };
    s.remember(x.d());
    x
}

/// A float of ordinary magnitude: |x| <= scale, rich in integers, simple
/// fractions, zeros, repeats and near-repeats.
pub fn num<T: Fl>(s: &mut Src, scale: f64) -> T {
    let x: f64 = match s.weighted(&[6, 4, 12, 4, 3, 2, 1]) {
        0 => s.int(-4, 4) as f64 * (scale / 10.0).clamp(f64::MIN_POSITIVE, 1.0),
        1 => s.int(-16, 16) as f64 / 16.0 * scale,
        2 => s.uni(-scale, scale),
        3 => {
            let e = s.uni(-6.0, 0.0);
            sgn(s) * scale * 10f64.powf(e)
        }
        4 => match s.recall() {
            Some(v) => {
                let v = if s.chance(1, 2) { -v } else { v };
                let v = jiggle::<T>(s, T::t(v)).d();
                if v.abs() <= scale {
                    v
                } else {
                    scale
                }
            }
            None => 0.0,
        },
        5 => {
            let d = dict();
            let k = s.pick(d.len());
            let v = sgn(s) * d[k];
            if v.abs() <= scale {
                jiggle::<T>(s, T::t(v)).d()
            } else {
                1.0f64.min(scale)
            }
        }
        _ => -0.0,
    };
    let x = T::t(x.clamp(-scale, scale));
    s.remember(x.d());
    x
}

/// A positive float in [lo, hi], log-uniform or simple.
pub fn pos<T: Fl>(s: &mut Src, lo: f64, hi: f64) -> T {
    let x = match s.weighted(&[3, 3, 6, 2, 1]) {
        0 => 1.0,
        1 => s.int(1, 16) as f64 / 4.0,
        2 => (lo.ln() + (hi.ln() - lo.ln()) * s.unit()).exp(),
        3 => s.uni(lo, hi),
        _ => s.recall().map_or(2.0, f64::abs),
    };
    let x = T::t(if x >= lo && x <= hi { x } else { (lo * hi).sqrt() });
    s.remember(x.d());
    x
}

/// A change of units: mostly none, otherwise a power of two or any factor
/// from 1e-5 to 1e5.
pub fn units(s: &mut Src) -> f64 {
    match s.weighted(&[8, 1, 1]) {
        0 => 1.0,
        1 => exp2i(s.int(-16, 16) as i32),
        _ => 10f64.powf(s.uni(-5.0, 5.0)),
    }
}

/// An angle up to `max` in magnitude: multiples of pi/12 and neighbours, one
/// turn, many turns, tiny.
pub fn angle<T: Fl>(s: &mut Src, max: f64) -> T {
    let pi = std::f64::consts::PI;
    let x = match s.weighted(&[3, 5, 2, 3, 1, 1]) {
        0 => {
            let v = T::t(s.int(-48, 48) as f64 * pi / 12.0);
            jiggle(s, v).d()
        }
        1 => s.uni(-pi, pi),
        2 => s.uni(-4.0 * pi, 4.0 * pi),
        3 => s.uni(-max, max),
        4 => sgn(s) * 10f64.powf(s.uni(-8.0, 0.0)),
        _ => num::<T>(s, max).d(),
    };
    let x = T::t(x.clamp(-max, max));
    s.remember(x.d());
    x
}

/// A valid interval with finite bounds.
pub fn interval<T: Fl>(s: &mut Src) -> Interval<T> {
    let a: T = any_finite(s);
    let b: T = match s.weighted(&[4, 3, 3, 3, 2, 2, 6]) {
        0 => a,
        1 => {
            let mut b = a;
            for _ in 0..=s.below(3) {
                b = b.up();
            }
            b
        }
        2 => T::t(a.d() * (1.0 + s.uni(-1.0, 1.0) * 10f64.powf(s.uni(-6.0, 0.0)))),
        3 => T::t(a.d() + s.uni(-10.0, 10.0)),
        4 => -a,
        5 => T::t(0.0),
        _ => any_finite(s),
    };
    let b = if b.fin() { b } else { a };
    mk(a, b)
}

/// An interval of ordinary magnitude.
pub fn interval_num<T: Fl>(s: &mut Src, scale: f64) -> Interval<T> {
    let a: T = num(s, scale);
    let b: T = match s.weighted(&[4, 2, 3, 3, 2, 2, 6]) {
        0 => a,
        1 => a.up(),
        2 => T::t(a.d() * (1.0 + s.uni(-1.0, 1.0) * 10f64.powf(s.uni(-6.0, 0.0)))),
        3 => T::t(a.d() + s.uni(-1.0, 1.0)),
        4 => -a,
        5 => T::t(0.0),
        _ => num(s, scale),
    };
    mk(a, b)
}

pub fn mk<T: Fl>(a: T, b: T) -> Interval<T> {
    if a <= b {
        Interval { inf: a, sup: b }
    } else {
        Interval { inf: b, sup: a }
    }
}

/// A point of the interval: ends, neighbours of the ends, zero, interior.
pub fn point_in<T: Fl>(s: &mut Src, i: Interval<T>) -> T {
    let (a, b) = (i.inf, i.sup);
    let x = match s.weighted(&[3, 3, 6, 1, 1, 2, 1]) {
        0 => a,
        1 => b,
        2 => {
            let u = s.unit();
            // avoids overflow of b - a
            T::t(a.d() * (1.0 - u) + b.d() * u)
        }
        3 => a.up(),
        4 => b.down(),
        5 => T::t(0.0),
        _ => {
            let v: T = any_finite(s);
            v
        }
    };
    if x >= a && x <= b {
        x
    } else if x < a {
        a
    } else {
        b
    }
}

pub fn show<T: Fl>(i: &Interval<T>) -> String {
    format!("[{:?}, {:?}]", i.inf, i.sup)
}

// ------------------------------------------------------- vectors and geometry

pub type V3 = [f64; 3];

pub fn v3<T: Fl>(s: &mut Src, scale: f64) -> [T; 3] {
    match s.weighted(&[8, 2, 1, 1]) {
        0 => [num(s, scale), num(s, scale), num(s, scale)],
        1 => {
            // along one axis
            let k = s.pick(3);
            let x = num(s, scale);
            let mut v = [T::t(0.0); 3];
            v[k] = x;
            v
        }
        2 => {
            let x: T = num(s, scale);
            let mut v = [x; 3];
            for c in v.iter_mut() {
                if s.chance(1, 2) {
                    *c = -*c;
                }
            }
            v
        }
        _ => {
            // in a coordinate plane
            let k = s.pick(3);
            let mut v = [num(s, scale), num(s, scale), num(s, scale)];
            v[k] = if s.chance(1, 3) { T::t(-0.0) } else { T::t(0.0) };
            v
        }
    }
}

/// A non-zero direction whose length is between `lo` and `hi`.
pub fn dir<T: Fl>(s: &mut Src, lo: f64, hi: f64) -> [T; 3] {
    let raw = v3::<T>(s, 1.0);
    let mut d = [raw[0].d(), raw[1].d(), raw[2].d()];
    let n = norm(d);
    if n < 1e-3 {
        d = [0.0, 0.0, if s.chance(1, 2) { -1.0 } else { 1.0 }];
    }
    let n = norm(d);
    let len = match s.weighted(&[3, 2, 2]) {
        0 => n.clamp(lo, hi),
        1 => pos::<T>(s, lo, hi).d(),
        _ => 1.0f64.clamp(lo, hi),
    };
    let k = len / n;
    let k = if k == 1.0 { 1.0 } else { k };
    [T::t(d[0] * k), T::t(d[1] * k), T::t(d[2] * k)]
}

pub fn norm(a: V3) -> f64 {
    dot(a, a).sqrt()
}
pub fn dot(a: V3, b: V3) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
pub fn cross(a: V3, b: V3) -> V3 {
    [
        a[1] * b[2] - a[2] * b[1],
        a[2] * b[0] - a[0] * b[2],
        a[0] * b[1] - a[1] * b[0],
    ]
}
pub fn add(a: V3, b: V3) -> V3 {
    [a[0] + b[0], a[1] + b[1], a[2] + b[2]]
}
pub fn sub(a: V3, b: V3) -> V3 {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
pub fn mul(a: V3, k: f64) -> V3 {
    [a[0] * k, a[1] * k, a[2] * k]
}
pub fn unit(a: V3) -> V3 {
    mul(a, 1.0 / norm(a))
}
pub fn d3<T: Fl>(a: [T; 3]) -> V3 {
    [a[0].d(), a[1].d(), a[2].d()]
}
pub fn t3<T: Fl>(a: V3) -> [T; 3] {
    [T::t(a[0]), T::t(a[1]), T::t(a[2])]
}
pub fn vec3<T: Fl>(a: [T; 3]) -> Vector3<T> {
    Vector3::new(a[0], a[1], a[2])
}
pub fn pt3<T: Fl>(a: [T; 3]) -> Point3<T> {
    Point3::new(a[0], a[1], a[2])
}
pub fn nr3<T: Fl>(a: [T; 3]) -> Normal3<T> {
    Normal3::new(a[0], a[1], a[2])
}
