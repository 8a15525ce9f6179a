//! C05: the scalar layer.
use crate::engine::*;
use crate::gen::*;
use crate::quad::Q;
use crate::{ensure, note};
use scarlet::math::scalar::{AlmostEqual, GFloat, Scalar, SignedScalar};

/// every bit pattern: NaNs and infinities included
fn any_bits<T: Fl>(s: &mut Src) -> T {
    match s.weighted(&[8, 2, 1, 1, 1]) {
        0 => any_finite(s),
        1 => T::raw(s.u64()),
        2 => T::t(f64::INFINITY),
        3 => T::t(f64::NEG_INFINITY),
        _ => T::t(f64::NAN),
    }
}

fn neighbours<T: Fl>(s: &mut Src) -> Res {
    let x: T = any_bits(s);
    note!(s, "{:?} bits {:x}", x, x.bits());
    let (u, d) = (GFloat::next_up(x), GFloat::next_down(x));
    if x.d().is_nan() {
        ensure!(u.d().is_nan() && d.d().is_nan(), "neighbours of NaN are {:?}, {:?}", u, d);
    } else {
        let (wu, wd) = (x.up(), x.down());
        ensure!(u.d() == wu.d(), "next_up({:?}) = {:?}, the next float is {:?}", x, u, wu);
        ensure!(d.d() == wd.d(), "next_down({:?}) = {:?}, the previous float is {:?}", x, d, wd);
    }
    let (n, i, f) = (GFloat::is_nan(x), GFloat::is_infinite(x), GFloat::is_finite(x));
    ensure!(
        n == x.d().is_nan() && i == x.d().is_infinite() && f == x.d().is_finite(),
        "{:?} is classified as nan {n}, infinite {i}, finite {f}",
        x
    );
    // casts
    ensure!(GFloat::to_f64(x).to_bits() == x.d().to_bits() || n, "to_f64({:?}) = {:?}", x, GFloat::to_f64(x));
    ensure!(GFloat::to_f32(x).to_bits() == (x.d() as f32).to_bits() || n, "to_f32({:?})", x);
    ensure!(GFloat::to_i64(x) == x.d() as i64, "to_i64({:?}) = {}", x, GFloat::to_i64(x));
    let y: f64 = any_bits::<f64>(s);
    let z = match s.weighted(&[2, 2, 3]) {
        0 => s.u64() as i64,
        1 => (s.u64() as i64) >> s.below(64),
        _ => {
            // at and beside the middle between two floats, where rounding twice
            // or in the wrong direction shows
            let k = s.below(63);
            let keep = Ord::min(s.below(25), k);
            let top = (1u64 << k) | ((s.u64() & ((1u64 << k) - 1)) >> (k - keep) << (k - keep));
            let half = if k > 24 && s.chance(1, 2) { 1u64 << (k - 24) } else if k > 53 { 1u64 << (k - 53) } else { 0 };
            let v = (top | half) as i64;
            let v = v.saturating_add(s.int(-2, 2));
            if s.chance(1, 2) {
                -v
            } else {
                v
            }
        }
    };
    note!(s, "from {:?} and {}", y, z);
    let a: T = GFloat::from_f64(y);
    ensure!(a.bits() == T::t(y).bits() || y.is_nan(), "from_f64({:?}) = {:?}", y, a);
    let a: T = GFloat::from_f32(y as f32);
    ensure!(a.bits() == T::t(y as f32 as f64).bits() || y.is_nan(), "from_f32({:?}) = {:?}", y as f32, a);
    let a: T = GFloat::from_i64(z);
    let want = if T::NAME == "f32" { (z as f32) as f64 } else { z as f64 };
    ensure!(a.d() == want, "from_i64({z}) = {:?}", a);
    Ok(if f { Class::NonTrivial } else { Class::Trivial })
}

fn order<T: Fl>(s: &mut Src) -> Res {
    let mut x = [any_finite::<T>(s), any_finite::<T>(s), any_finite::<T>(s)];
    for v in x.iter_mut() {
        if s.chance(1, 24) {
            *v = T::t(if s.chance(1, 2) { f64::INFINITY } else { f64::NEG_INFINITY });
        }
    }
    let [a, b, c] = x;
    note!(s, "{:?} {:?} {:?}", a, b, c);
    let (ad, bd) = (a.d(), b.d());
    ensure!(Scalar::min(a, b).d() == ad.min(bd), "min({:?}, {:?}) = {:?}", a, b, Scalar::min(a, b));
    ensure!(Scalar::max(a, b).d() == ad.max(bd), "max({:?}, {:?}) = {:?}", a, b, Scalar::max(a, b));
    let (p, q) = Scalar::min_max(a, b);
    ensure!(p.d() == ad.min(bd) && q.d() == ad.max(bd), "min_max({:?}, {:?}) = ({:?}, {:?})", a, b, p, q);
    let (lo, hi) = if b <= c { (b, c) } else { (c, b) };
    let cl = Scalar::clamp(a, lo, hi);
    ensure!(cl.d() == ad.max(lo.d()).min(hi.d()), "clamp({:?}, {:?}, {:?}) = {:?}", a, lo, hi, cl);
    ensure!(Scalar::in_range(a, lo, hi) == (lo.d() <= ad && ad <= hi.d()), "in_range({:?}, {:?}, {:?})", a, lo, hi);
    let sq = T::t(ad * ad);
    if T::NAME == "f64" {
        ensure!(Scalar::square(a).d() == ad * ad, "square({:?}) = {:?}", a, Scalar::square(a));
    } else {
        ensure!(Scalar::square(a).d() == sq.d(), "square({:?}) = {:?}", a, Scalar::square(a));
    }
    ensure!(SignedScalar::abs(a).d() == ad.abs(), "abs({:?}) = {:?}", a, SignedScalar::abs(a));
    let g = if ad > 0.0 { 1.0 } else if ad < 0.0 { -1.0 } else { 0.0 };
    ensure!(SignedScalar::signum(a).d() == g, "signum({:?}) = {:?}", a, SignedScalar::signum(a));
    ensure!(
        SignedScalar::is_positive(a) == (ad > 0.0)
            && SignedScalar::is_negative(a) == (ad < 0.0)
            && SignedScalar::is_nonpositive(a) == (ad <= 0.0)
            && SignedScalar::is_nonnegative(a) == (ad >= 0.0)
            && Scalar::is_zero(a) == (ad == 0.0)
            && Scalar::is_one(a) == (ad == 1.0),
        "a sign test of {:?} is wrong",
        a
    );
    if ad.is_finite() && ad != 0.0 {
        let r = GFloat::recip(a);
        let w = T::t(1.0) / a;
        ensure!(r == w, "recip({:?}) = {:?}", a, r);
    }
    if ad.is_finite() {
        // elementary functions are those of the language
        let f: [(&str, T, f64, T); 4] = [
            ("sin", GFloat::sin(a), ad.sin(), GFloat::sin_cos(a).0),
            ("cos", GFloat::cos(a), ad.cos(), GFloat::sin_cos(a).1),
            ("tan", GFloat::tan(a), ad.tan(), GFloat::tan(a)),
            ("atan", GFloat::atan(a), ad.atan(), GFloat::atan(a)),
        ];
        for (n, got, want, other) in f {
            let tol = 4.0 * T::ulp(want);
            ensure!((got.d() - want).abs() <= tol, "{n}({:?}) = {:?}, exactly {:?}", a, got, want);
            ensure!((other.d() - want).abs() <= tol, "sin_cos {n}({:?}) = {:?}, exactly {:?}", a, other, want);
        }
        if ad >= 0.0 {
            ensure!((GFloat::sqrt(a).d() - ad.sqrt()).abs() <= 2.0 * T::ulp(ad.sqrt()), "sqrt({:?}) = {:?}", a, GFloat::sqrt(a));
        }
        if ad.abs() <= 1.0 {
            ensure!((GFloat::asin(a).d() - ad.asin()).abs() <= 4.0 * T::ulp(ad.asin()), "asin({:?}) = {:?}", a, GFloat::asin(a));
            ensure!((GFloat::acos(a).d() - ad.acos()).abs() <= 4.0 * T::ulp(ad.acos()), "acos({:?}) = {:?}", a, GFloat::acos(a));
        }
        if bd.is_finite() {
            let w = ad.atan2(bd);
            ensure!((GFloat::atan2(a, b).d() - w).abs() <= 4.0 * T::ulp(w), "atan2({:?}, {:?}) = {:?}", a, b, GFloat::atan2(a, b));
        }
    }
    Ok(if ad != bd { Class::NonTrivial } else { Class::Trivial })
}

fn consts<T: Fl>(s: &mut Src) -> Res {
    let k = s.pick(6);
    note!(s, "constant group {k}");
    let pi = Q::pi();
    let near = |x: T, q: Q| -> bool {
        // correctly rounded
        let e = (x.q() - q).f64().abs();
        e <= (x.up().q() - q).f64().abs() && e <= (x.down().q() - q).f64().abs()
    };
    match k {
        0..=3 => {
            let f = [1.0, 2.0, 0.5, 0.25][k];
            let q = pi * Q::of(f);
            let (c, lo, hi): (T, T, T) = match k {
                0 => (GFloat::pi(), GFloat::pi_lower(), GFloat::pi_upper()),
                1 => (GFloat::tau(), GFloat::tau_lower(), GFloat::tau_upper()),
                2 => (GFloat::frac_pi_2(), GFloat::frac_pi_2_lower(), GFloat::frac_pi_2_upper()),
                _ => (GFloat::frac_pi_4(), GFloat::frac_pi_4_lower(), GFloat::frac_pi_4_upper()),
            };
            ensure!(near(c, q), "{f} pi = {:?} is not the nearest float", c);
            ensure!(lo.q() < q && q < hi.q(), "[{:?}, {:?}] does not bracket {f} pi", lo, hi);
            ensure!(lo.up() == hi, "{:?} and {:?} are not adjacent", lo, hi);
        }
        4 => {
            let nan: T = GFloat::nan();
            ensure!(nan.d().is_nan(), "nan() is not NaN");
            let inf: T = GFloat::infinity();
            let ninf: T = GFloat::neg_infinity();
            let nz: T = GFloat::neg_zero();
            let mp: T = GFloat::min_positive_value();
            ensure!(inf.d() == f64::INFINITY && ninf.d() == f64::NEG_INFINITY, "infinities");
            ensure!(nz.d() == 0.0 && nz.d().is_sign_negative(), "neg_zero() = {:?}", nz);
            let want = if T::NAME == "f32" { f32::MIN_POSITIVE as f64 } else { f64::MIN_POSITIVE };
            ensure!(mp.d() == want, "min_positive_value() = {:?}", mp);
            let h: T = GFloat::half();
            ensure!(h.d() == 0.5, "half() = {:?}", h);
            let (ae, re): (T, T) = (GFloat::abs_epsilon(), GFloat::rel_epsilon());
            let wr = if T::NAME == "f32" { 1e-4 } else { 1e-6 };
            ensure!(ae == T::t(1e-6) && re == T::t(wr), "epsilons {:?} {:?}", ae, re);
        }
        _ => {
            let z: T = Scalar::zero();
            let o: T = Scalar::one();
            let t: T = Scalar::two();
            let (l, h): (T, T) = (Scalar::lowest(), Scalar::highest());
            ensure!(z.d() == 0.0 && o.d() == 1.0 && t.d() == 2.0, "zero/one/two = {:?} {:?} {:?}", z, o, t);
            ensure!(l == -T::big() && h == T::big(), "lowest/highest = {:?} {:?}", l, h);
        }
    }
    Ok(Class::Trivial)
}

fn almost<T: Fl>(s: &mut Src) -> Res {
    let a: T = any_finite(s);
    let ad = a.d();
    let rel = if T::NAME == "f32" { 1e-4 } else { 1e-6 };
    let b: T = match s.weighted(&[3, 4, 4, 2]) {
        0 => any_finite(s),
        1 => T::t(ad * (1.0 + rel * s.uni(-2.0, 2.0))),
        2 => T::t(ad + 1e-6 * s.uni(-2.0, 2.0)),
        _ => a,
    };
    let b = if b.fin() { b } else { a };
    note!(s, "{:?} ~ {:?}", a, b);
    let e = a.almost_eq(b);
    let f = a.fequals(b);
    ensure!(e == f, "almost_eq and fequals differ for {:?} and {:?}", a, b);
    ensure!(b.almost_eq(a) == e, "almost_eq is not symmetric for {:?} and {:?}", a, b);
    ensure!(a.almost_eq(a), "{:?} is not almost equal to itself", a);
    let diff = (a.q() - b.q()).f64().abs();
    let big = ad.abs().max(b.d().abs());
    let (ta, tr) = (T::t(1e-6).d(), T::t(rel).d() * big);
    let m = 4.0 * T::EPS;
    // the difference itself is rounded in the tested type
    if diff < ta * (1.0 - m) || (diff < tr * (1.0 - m) && diff <= T::big().d() && tr > T::tiny().d() * 1e8) {
        ensure!(e, "{:?} and {:?} differ by {:e} and are not almost equal", a, b, diff);
    } else if diff > ta * (1.0 + m) && diff > tr * (1.0 + m) {
        ensure!(!e, "{:?} and {:?} differ by {:e} and are almost equal", a, b, diff);
    } else {
        return Ok(Class::Ambiguous);
    }
    Ok(if a != b { Class::NonTrivial } else { Class::Trivial })
}

macro_rules! int_law {
    ($name:ident, $t:ty, $w:ty, $signed:expr) => {
        fn $name(s: &mut Src) -> Res {
            let one = |s: &mut Src| -> $t {
                match s.weighted(&[3, 3, 2, 1, 1]) {
                    0 => s.int(-8, 8) as $t,
                    1 => s.u64() as $t,
                    2 => (s.u64() >> s.below(64)) as $t,
                    3 => <$t>::MAX.wrapping_sub(s.below(3) as $t),
                    _ => <$t>::MIN.wrapping_add(s.below(3) as $t),
                }
            };
            let (a, b, c) = (one(s), one(s), one(s));
            let b = if s.chance(1, 6) { a } else { b };
            note!(s, "{} {} {}", a, b, c);
            ensure!(Scalar::min(a, b) == Ord::min(a, b), "min({a}, {b}) = {}", Scalar::min(a, b));
            ensure!(Scalar::max(a, b) == Ord::max(a, b), "max({a}, {b}) = {}", Scalar::max(a, b));
            ensure!(Scalar::min_max(a, b) == (Ord::min(a, b), Ord::max(a, b)), "min_max({a}, {b}) = {:?}", Scalar::min_max(a, b));
            let (lo, hi) = (Ord::min(b, c), Ord::max(b, c));
            ensure!(Scalar::clamp(a, lo, hi) == Ord::max(lo, Ord::min(a, hi)), "clamp({a}, {lo}, {hi}) = {}", Scalar::clamp(a, lo, hi));
            ensure!(Scalar::in_range(a, lo, hi) == (lo..=hi).contains(&a), "in_range({a}, {lo}, {hi})");
            let w = a as $w;
            if let Some(q) = a.checked_mul(a) {
                ensure!(Scalar::square(a) == q, "square({a}) = {}", Scalar::square(a));
            }
            ensure!(Scalar::is_zero(a) == (w == 0) && Scalar::is_one(a) == (w == 1), "is_zero/is_one of {a}");
            let (z, o, t): ($t, $t, $t) = (Scalar::zero(), Scalar::one(), Scalar::two());
            ensure!(z == 0 && o == 1 && t == 2, "zero/one/two = {z} {o} {t}");
            let (l, h): ($t, $t) = (Scalar::lowest(), Scalar::highest());
            ensure!(l == <$t>::MIN && h == <$t>::MAX, "lowest/highest = {l} {h}");
            ensure!(a.almost_eq(b) == (a == b), "almost_eq({a}, {b})");
            Ok(if a != b { Class::NonTrivial } else { Class::Trivial })
        }
    };
}
int_law!(ints_u8, u8, i128, false);
int_law!(ints_u16, u16, i128, false);
int_law!(ints_u32, u32, i128, false);
int_law!(ints_u64, u64, i128, false);
int_law!(ints_i8, i8, i128, true);
int_law!(ints_i16, i16, i128, true);
int_law!(ints_i32, i32, i128, true);
int_law!(ints_i64, i64, i128, true);

macro_rules! sint_law {
    ($name:ident, $t:ty) => {
        fn $name(s: &mut Src) -> Res {
            let a = match s.weighted(&[3, 3, 2, 1]) {
                0 => s.int(-8, 8) as $t,
                1 => s.u64() as $t,
                2 => (s.u64() >> s.below(64)) as $t,
                _ => <$t>::MIN.wrapping_add(s.below(3) as $t),
            };
            note!(s, "{}", a);
            ensure!(
                SignedScalar::is_positive(a) == (a > 0)
                    && SignedScalar::is_negative(a) == (a < 0)
                    && SignedScalar::is_nonpositive(a) == (a <= 0)
                    && SignedScalar::is_nonnegative(a) == (a >= 0),
                "a sign test of {a} is wrong"
            );
            ensure!(SignedScalar::signum(a) == <$t>::signum(a), "signum({a}) = {}", SignedScalar::signum(a));
            if a != <$t>::MIN {
                ensure!(SignedScalar::abs(a) == <$t>::abs(a), "abs({a}) = {}", SignedScalar::abs(a));
            }
            Ok(if a != 0 { Class::NonTrivial } else { Class::Trivial })
        }
    };
}
sint_law!(sint_i8, i8);
sint_law!(sint_i16, i16);
sint_law!(sint_i32, i32);
sint_law!(sint_i64, i64);

fn sweep_at(bits: u32) -> Result<u64, String> {
    let x = f32::from_bits(bits);
    let (u, d) = (<f32 as GFloat>::next_up(x), <f32 as GFloat>::next_down(x));
    if x.is_nan() {
        if !u.is_nan() || !d.is_nan() {
            return Err(format!("neighbours of NaN {bits:x} are {u:?}, {d:?}"));
        }
    } else if u.to_bits() & 0x7fff_ffff != f32::next_up(x).to_bits() & 0x7fff_ffff
        || u != f32::next_up(x)
        || d != f32::next_down(x)
    {
        return Err(format!("neighbours of {x:?} are {d:?}, {u:?}"));
    }
    let n = <f32 as GFloat>::is_nan(x) as u32;
    let i = <f32 as GFloat>::is_infinite(x) as u32;
    let f = <f32 as GFloat>::is_finite(x) as u32;
    if n + i + f != 1 || (n == 1) != x.is_nan() || (f == 1) != x.is_finite() {
        return Err(format!("{x:?} is classified as nan {n}, infinite {i}, finite {f}"));
    }
    Ok(1)
}
fn sweep_full(a: u64, b: u64) -> Result<u64, String> {
    for k in a..b {
        sweep_at(k as u32)?;
    }
    Ok(b - a)
}
fn sweep_quick(a: u64, b: u64) -> Result<u64, String> {
    for k in a..b {
        sweep_at((k * 61) as u32)?;
    }
    Ok(b - a)
}

pub fn c05() -> Property {
    Property {
        id: "C05",
        rule: "non-trivial = finite argument (neighbours, casts), distinct operands (order, approximate equality, integers)",
        laws: vec![
            Law { name: "neighbours and casts f32", quick: 6_000_000, f: neighbours::<f32> },
            Law { name: "neighbours and casts f64", quick: 6_000_000, f: neighbours::<f64> },
            Law { name: "order and functions f32", quick: 1_500_000, f: order::<f32> },
            Law { name: "order and functions f64", quick: 1_500_000, f: order::<f64> },
            Law { name: "constants f32", quick: 256, f: consts::<f32> },
            Law { name: "constants f64", quick: 256, f: consts::<f64> },
            Law { name: "approximate equality f32", quick: 4_000_000, f: almost::<f32> },
            Law { name: "approximate equality f64", quick: 4_000_000, f: almost::<f64> },
            Law { name: "integers u8", quick: 500_000, f: ints_u8 },
            Law { name: "integers u16", quick: 500_000, f: ints_u16 },
            Law { name: "integers u32", quick: 500_000, f: ints_u32 },
            Law { name: "integers u64", quick: 500_000, f: ints_u64 },
            Law { name: "integers i8", quick: 500_000, f: ints_i8 },
            Law { name: "integers i16", quick: 500_000, f: ints_i16 },
            Law { name: "integers i32", quick: 500_000, f: ints_i32 },
            Law { name: "integers i64", quick: 500_000, f: ints_i64 },
            Law { name: "signed i8", quick: 200_000, f: sint_i8 },
            Law { name: "signed i16", quick: 200_000, f: sint_i16 },
            Law { name: "signed i32", quick: 200_000, f: sint_i32 },
            Law { name: "signed i64", quick: 200_000, f: sint_i64 },
        ],
        sweeps: vec![
            Sweep { name: "every 61st f32: neighbours and classification", quick: true, total: (1 << 32) / 61 + 1, f: sweep_quick },
            Sweep { name: "every f32: neighbours and classification", quick: false, total: 1 << 32, f: sweep_full },
        ],
        findings: vec![],
        assumptions: &["approximate equality is judged only 4 ulps away from its thresholds"],
    }
}
