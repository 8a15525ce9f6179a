//! 113-bit reference reals (libquadmath through a C shim).
use std::cmp::Ordering;
use std::ops::{Add, Div, Mul, Neg, Sub};

#[repr(C, align(16))]
#[derive(Clone, Copy)]
pub struct Q([u64; 2]);

extern "C" {
    fn qs_from(a: f64, r: *mut Q);
    fn qs_to(a: *const Q) -> f64;
    fn qs_add(a: *const Q, b: *const Q, r: *mut Q);
    fn qs_sub(a: *const Q, b: *const Q, r: *mut Q);
    fn qs_mul(a: *const Q, b: *const Q, r: *mut Q);
    fn qs_div(a: *const Q, b: *const Q, r: *mut Q);
    fn qs_neg(a: *const Q, r: *mut Q);
    fn qs_cmp(a: *const Q, b: *const Q) -> i32;
    fn qs_fn(f: i32, a: *const Q, r: *mut Q);
    fn qs_atan2(y: *const Q, x: *const Q, r: *mut Q);
    fn qs_pi(r: *mut Q);
}

macro_rules! binop {
    ($tr:ident, $m:ident, $f:ident) => {
        impl $tr for Q {
            type Output = Q;
            #[inline]
            fn $m(self, rhs: Q) -> Q {
                let mut r = Q([0, 0]);
                unsafe { $f(&self, &rhs, &mut r) };
                r
            }
        }
    };
}
binop!(Add, add, qs_add);
binop!(Sub, sub, qs_sub);
binop!(Mul, mul, qs_mul);
binop!(Div, div, qs_div);
impl Neg for Q {
    type Output = Q;
    fn neg(self) -> Q {
        let mut r = Q([0, 0]);
        unsafe { qs_neg(&self, &mut r) };
        r
    }
}
impl PartialEq for Q {
    fn eq(&self, o: &Q) -> bool {
        unsafe { qs_cmp(self, o) == 0 }
    }
}
impl PartialOrd for Q {
    fn partial_cmp(&self, o: &Q) -> Option<Ordering> {
        match unsafe { qs_cmp(self, o) } {
            -1 => Some(Ordering::Less),
            0 => Some(Ordering::Equal),
            1 => Some(Ordering::Greater),
            _ => None,
        }
    }
}
impl std::fmt::Debug for Q {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let hi = self.f64();
        let lo = (*self - Q::of(hi)).f64();
        write!(f, "{:?}{:+.3e}", hi, lo)
    }
}
impl Q {
    pub fn of(a: f64) -> Q {
        let mut r = Q([0, 0]);
        unsafe { qs_from(a, &mut r) };
        r
    }
    pub fn f64(self) -> f64 {
        unsafe { qs_to(&self) }
    }
    fn f(self, k: i32) -> Q {
        let mut r = Q([0, 0]);
        unsafe { qs_fn(k, &self, &mut r) };
        r
    }
    pub fn atan2(self, x: Q) -> Q {
        let mut r = Q([0, 0]);
        unsafe { qs_atan2(&self, &x, &mut r) };
        r
    }
    pub fn pi() -> Q {
        let mut r = Q([0, 0]);
        unsafe { qs_pi(&mut r) };
        r
    }
}

/// Reference reals: wide enough that rounding to them is far below the
/// rounding of the tested type.
pub trait Real:
    Copy
    + PartialOrd
    + std::fmt::Debug
    + Add<Output = Self>
    + Sub<Output = Self>
    + Mul<Output = Self>
    + Div<Output = Self>
    + Neg<Output = Self>
{
    /// a bound on the relative error of one basic operation
    const U: f64;
    fn of(a: f64) -> Self;
    fn f64(self) -> f64;
    fn sqrt(self) -> Self;
    fn sin(self) -> Self;
    fn cos(self) -> Self;
    fn tan(self) -> Self;
    fn asin(self) -> Self;
    fn acos(self) -> Self;
    fn atan(self) -> Self;
    fn atan2(self, x: Self) -> Self;
    fn floor(self) -> Self;
    fn abs(self) -> Self;
    fn pi() -> Self;
    fn min(self, o: Self) -> Self {
        if self < o {
            self
        } else {
            o
        }
    }
    fn max(self, o: Self) -> Self {
        if self > o {
            self
        } else {
            o
        }
    }
}
impl Real for Q {
    const U: f64 = 1.0e-33;
    fn of(a: f64) -> Q {
        Q::of(a)
    }
    fn f64(self) -> f64 {
        Q::f64(self)
    }
    fn sqrt(self) -> Q {
        self.f(0)
    }
    fn sin(self) -> Q {
        self.f(1)
    }
    fn cos(self) -> Q {
        self.f(2)
    }
    fn tan(self) -> Q {
        self.f(3)
    }
    fn asin(self) -> Q {
        self.f(4)
    }
    fn acos(self) -> Q {
        self.f(5)
    }
    fn atan(self) -> Q {
        self.f(6)
    }
    fn floor(self) -> Q {
        self.f(7)
    }
    fn abs(self) -> Q {
        self.f(8)
    }
    fn atan2(self, x: Q) -> Q {
        Q::atan2(self, x)
    }
    fn pi() -> Q {
        Q::pi()
    }
}
impl Real for f64 {
    const U: f64 = 4.5e-16;
    fn of(a: f64) -> f64 {
        a
    }
    fn f64(self) -> f64 {
        self
    }
    fn sqrt(self) -> f64 {
        f64::sqrt(self)
    }
    fn sin(self) -> f64 {
        f64::sin(self)
    }
    fn cos(self) -> f64 {
        f64::cos(self)
    }
    fn tan(self) -> f64 {
        f64::tan(self)
    }
    fn asin(self) -> f64 {
        f64::asin(self)
    }
    fn acos(self) -> f64 {
        f64::acos(self)
    }
    fn atan(self) -> f64 {
        f64::atan(self)
    }
    fn atan2(self, x: f64) -> f64 {
        f64::atan2(self, x)
    }
    fn floor(self) -> f64 {
        f64::floor(self)
    }
    fn abs(self) -> f64 {
        f64::abs(self)
    }
    fn pi() -> f64 {
        std::f64::consts::PI
    }
}
