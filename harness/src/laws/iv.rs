//! C01-C04: interval arithmetic, tightness, trigonometry, comparisons.
use crate::engine::*;
use crate::gen::*;
use crate::quad::{Real, Q};
use crate::{ensure, note};
use scarlet::math::interval::Interval;
use scarlet::math::scalar::{AlmostEqual, GFloat, Scalar, SignedScalar};

fn valid<T: Fl>(i: &Interval<T>) -> bool {
    i.inf <= i.sup
}

/// `v` may be off by the relative error `rel`; None = inside.
fn outside<T: Fl, R: Real>(i: &Interval<T>, v: R, rel: f64) -> bool {
    let slack = v.abs() * R::of(rel);
    let (a, b) = (i.inf.d(), i.sup.d());
    (a > f64::NEG_INFINITY && v + slack < R::of(a)) || (b < f64::INFINITY && v - slack > R::of(b))
}

fn nontrivial(b: bool) -> Res {
    Ok(if b { Class::NonTrivial } else { Class::Trivial })
}

// ---------------------------------------------------------------------- C01

const BIN: [&str; 6] = ["+", "-", "*", "/", "min", "max"];

fn apply_bin<T: Fl>(op: usize, form: usize, a: Interval<T>, b: Interval<T>) -> Interval<T> {
    match (op, form) {
        (0, 0) => a + b,
        (1, 0) => a - b,
        (2, 0) => a * b,
        (3, 0) => a / b,
        (4, _) => Scalar::min(a, b),
        (5, _) => Scalar::max(a, b),
        (o, _) => {
            let mut r = a;
            match o {
                0 => r += b,
                1 => r -= b,
                2 => r *= b,
                _ => r /= b,
            }
            r
        }
    }
}

fn exact_bin<R: Real>(op: usize, x: R, y: R) -> R {
    match op {
        0 => x + y,
        1 => x - y,
        2 => x * y,
        3 => x / y,
        4 => x.min(y),
        _ => x.max(y),
    }
}

fn bin<T: Fl>(s: &mut Src) -> Res {
    let op = s.pick(6);
    let form = s.pick(2);
    let a: Interval<T> = interval(s);
    let b: Interval<T> = interval(s);
    note!(s, "{} {} {} form {}", show(&a), BIN[op], show(&b), form);
    let r = apply_bin(op, form, a, b);
    ensure!(valid(&r), "{} {} {} = {} is not a valid interval", show(&a), BIN[op], show(&b), show(&r));
    for k in 0..6 {
        let (x, y) = match k {
            0 => (a.inf, b.inf),
            1 => (a.inf, b.sup),
            2 => (a.sup, b.inf),
            3 => (a.sup, b.sup),
            _ => (point_in(s, a), point_in(s, b)),
        };
        if op == 3 && y.d() == 0.0 {
            continue;
        }
        let v = exact_bin(op, x.r(), y.r());
        ensure!(
            !outside(&r, v, 0.0),
            "{} {} {} = {} does not contain {:?} {} {:?} = {:?}",
            show(&a),
            BIN[op],
            show(&b),
            show(&r),
            x,
            BIN[op],
            y,
            v
        );
    }
    nontrivial(a.inf < a.sup || b.inf < b.sup)
}

fn scalar_forms<T: Fl>(s: &mut Src) -> Res {
    let op = s.pick(4);
    let form = s.pick(2);
    let a: Interval<T> = interval(s);
    let k: T = any_finite(s);
    note!(s, "{} {} scalar {:?} form {}", show(&a), BIN[op], k, form);
    let r = match (op, form) {
        (0, _) => a + k,
        (1, _) => a - k,
        (2, 0) => a * k,
        (3, 0) => a / k,
        (2, _) => {
            let mut r = a;
            r *= k;
            r
        }
        _ => {
            let mut r = a;
            r /= k;
            r
        }
    };
    ensure!(valid(&r), "{} {} {:?} = {} is not a valid interval", show(&a), BIN[op], k, show(&r));
    if op == 3 && k.d() == 0.0 {
        return nontrivial(false);
    }
    for j in 0..4 {
        let x = match j {
            0 => a.inf,
            1 => a.sup,
            _ => point_in(s, a),
        };
        let v = exact_bin(op, x.r(), k.r());
        ensure!(
            !outside(&r, v, 0.0),
            "{} {} scalar {:?} = {} does not contain the value {:?} at {:?}",
            show(&a),
            BIN[op],
            k,
            show(&r),
            v,
            x
        );
    }
    nontrivial(a.inf < a.sup)
}

const UN: [&str; 10] = [
    "neg",
    "abs",
    "square",
    "Scalar::square",
    "sqrt",
    "GFloat::sqrt",
    "recip",
    "extend_by_ulp",
    "from",
    "abs(neg)",
];

fn apply_un<T: Fl>(op: usize, a: Interval<T>) -> Interval<T> {
    match op {
        0 => -a,
        1 => SignedScalar::abs(a),
        2 => a.square(),
        3 => Scalar::square(a),
        4 => a.sqrt(),
        5 => GFloat::sqrt(a),
        6 => GFloat::recip(a),
        7 => a.extend_by_ulp(),
        8 => Interval::from((a.inf, a.sup)),
        _ => SignedScalar::abs(-a),
    }
}

fn exact_un<R: Real>(op: usize, x: R) -> R {
    match op {
        0 => -x,
        1 | 9 => x.abs(),
        2 | 3 => x * x,
        4 | 5 => x.sqrt(),
        6 => R::of(1.0) / x,
        _ => x,
    }
}

fn un<T: Fl>(s: &mut Src) -> Res {
    let op = s.pick(10);
    let mut a: Interval<T> = interval(s);
    if op == 4 || op == 5 {
        // an argument of the square root reaches the non-negative numbers; its
        // lower bound may have been pushed below zero by earlier rounding
        if a.sup.d() < 0.0 {
            a = mk(-a.sup, -a.inf);
        }
        if a.inf.d() < 0.0 && s.chance(2, 3) {
            a = match s.pick(3) {
                0 => mk(T::t(0.0), a.sup),
                1 => Interval { inf: T::t(0.0), sup: a.sup }.square(),
                _ => Interval { inf: -T::tiny(), sup: a.sup },
            };
        }
    }
    note!(s, "{} of {}", UN[op], show(&a));
    let r = apply_un(op, a);
    ensure!(valid(&r), "{} of {} = {} is not a valid interval", UN[op], show(&a), show(&r));
    for j in 0..5 {
        let x = match j {
            0 => a.inf,
            1 => a.sup,
            2 if a.contains(T::t(0.0)) => T::t(0.0),
            _ => point_in(s, a),
        };
        if (op == 4 || op == 5) && x.d() < 0.0 || op == 6 && x.d() == 0.0 {
            continue;
        }
        let v = exact_un(op, x.r());
        ensure!(
            !outside(&r, v, 0.0),
            "{} of {} = {} does not contain the value {:?} at {:?}",
            UN[op],
            show(&a),
            show(&r),
            v,
            x
        );
    }
    nontrivial(a.inf < a.sup)
}

/// Expressions: a straight-line program over interval registers, run next to a
/// reference value with an error bound.
fn program<T: Fl>(s: &mut Src) -> Res {
    struct Reg<T: Fl> {
        i: Interval<T>,
        v: T::R,
        e: f64,
    }
    let u = <T::R as Real>::U;
    let mut regs: Vec<Reg<T>> = Vec::new();
    let nin = 1 + s.pick(3);
    let wild = s.chance(1, 4);
    for _ in 0..nin {
        let i = if wild { interval::<T>(s) } else { interval_num::<T>(s, 10.0) };
        let x = point_in(s, i);
        note!(s, "r{} = {} at {:?}", regs.len(), show(&i), x);
        regs.push(Reg { i, v: x.r(), e: 0.0 });
    }
    let steps = 1 + s.pick(12);
    let mut done = 0;
    let mut wide = regs.iter().any(|r| r.i.inf < r.i.sup);
    for _ in 0..steps {
        let op = s.pick(13);
        let ia = s.pick(regs.len());
        let ib = s.pick(regs.len());
        let k: T = num(s, 4.0);
        let a = &regs[ia];
        let b = &regs[ib];
        let (va, ea) = (a.v.f64().abs(), a.e);
        let (vb, eb) = (b.v.f64().abs(), b.e);
        let form = s.pick(2);
        let (i, v, e) = match op {
            0 | 1 => (apply_bin(op, form, a.i, b.i), exact_bin(op, a.v, b.v), ea + eb),
            2 => (apply_bin(2, form, a.i, b.i), a.v * b.v, va * eb + vb * ea + ea * eb),
            3 => {
                if !(vb > 4.0 * eb) {
                    continue;
                }
                let q = va / vb;
                (apply_bin(3, form, a.i, b.i), a.v / b.v, (ea + q * eb) / (vb - eb) * (1.0 + 1e-9))
            }
            4 => (-a.i, -a.v, ea),
            5 => (SignedScalar::abs(a.i), a.v.abs(), ea),
            6 => (a.i.square(), a.v * a.v, 2.0 * va * ea + ea * ea),
            7 => {
                if !(a.v.f64() > 4.0 * ea) {
                    continue;
                }
                let r = a.v.sqrt();
                let i = if form == 0 { a.i.sqrt() } else { GFloat::sqrt(a.i) };
                (i, r, ea / r.f64() * (1.0 + 1e-9))
            }
            8 => {
                if !(va > 4.0 * ea) {
                    continue;
                }
                (GFloat::recip(a.i), T::R::of(1.0) / a.v, ea / (va - ea) / va * (1.0 + 1e-9))
            }
            9 => (Scalar::min(a.i, b.i), a.v.min(b.v), ea.max(eb)),
            10 => (Scalar::max(a.i, b.i), a.v.max(b.v), ea.max(eb)),
            11 => {
                let kd = k.d();
                if form == 0 {
                    (a.i * k, a.v * k.r(), ea * kd.abs())
                } else if kd != 0.0 {
                    (a.i / k, a.v / k.r(), ea / kd.abs())
                } else {
                    continue;
                }
            }
            _ => {
                if form == 0 {
                    (a.i + k, a.v + k.r(), ea)
                } else {
                    (a.i - k, a.v - k.r(), ea)
                }
            }
        };
        note!(s, "op{} form{} r{} r{} k={:?} -> {}", op, form, ia, ib, k, show(&i));
        let e = (e * (1.0 + 1e-9) + v.f64().abs() * u) + f64::from_bits(4);
        ensure!(valid(&i), "step {done}: op {op} gives the invalid interval {}", show(&i));
        done += 1;
        if !v.f64().is_finite() || !e.is_finite() {
            break;
        }
        let er = T::R::of(e);
        let out = (i.inf.d() > f64::NEG_INFINITY && v + er < i.inf.r())
            || (i.sup.d() < f64::INFINITY && v - er > i.sup.r());
        ensure!(
            !out,
            "step {done}: op {op} on {} and {} (k = {:?}) gives {} which does not contain {:?} (+- {:e})",
            show(&regs[ia].i),
            show(&regs[ib].i),
            k,
            show(&i),
            v,
            e
        );
        if !i.inf.fin() || !i.sup.fin() {
            // products of infinite bounds with zero are NaN by documented design
            continue;
        }
        wide |= i.inf < i.sup;
        regs.push(Reg { i, v, e });
    }
    nontrivial(done >= 2 && wide)
}

/// `map_monotonic_inc`/`_dec` with a function that rounds once
fn monotone<T: Fl>(s: &mut Src) -> Res {
    let op = s.pick(5);
    let mut a: Interval<T> = interval(s);
    let mut k: T = if s.chance(1, 4) { num(s, 1e6) } else { num(s, 8.0) };
    if k.d() == 0.0 || !k.fin() {
        k = T::t(3.0);
    }
    if op >= 3 {
        if a.sup.d() < 0.0 {
            a = mk(-a.sup, -a.inf);
        }
        if a.inf.d() < 0.0 {
            a = mk(T::t(0.0), a.sup);
        }
        if op == 4 && a.inf.d() == 0.0 {
            a = mk(T::t(1.0), if a.sup.d() > 1.0 { a.sup } else { T::t(1.0) });
        }
    }
    let (name, f, e): (&str, Box<dyn Fn(T) -> T>, Box<dyn Fn(T::R) -> T::R>) = match op {
        0 => ("x + k", Box::new(move |x| x + k), Box::new(move |x| x + k.r())),
        1 => ("x * k", Box::new(move |x| x * k), Box::new(move |x| x * k.r())),
        2 => ("x / k", Box::new(move |x| x / k), Box::new(move |x| x / k.r())),
        3 => ("sqrt", Box::new(|x: T| GFloat::sqrt(x)), Box::new(|x: T::R| x.sqrt())),
        _ => ("1 / x", Box::new(|x: T| T::t(1.0) / x), Box::new(|x: T::R| T::R::of(1.0) / x)),
    };
    let falls = op == 4 || (op == 1 || op == 2) && k.d() < 0.0;
    note!(s, "{} over {}, k = {:?}", name, show(&a), k);
    let r = if falls { a.map_monotonic_dec(f) } else { a.map_monotonic_inc(f) };
    ensure!(valid(&r), "{name} (k = {k:?}) over {} = {} is not a valid interval", show(&a), show(&r));
    for j in 0..4 {
        let x = match j {
            0 => a.inf,
            1 => a.sup,
            _ => point_in(s, a),
        };
        let v = e(x.r());
        ensure!(!outside(&r, v, 0.0), "{name} (k = {k:?}) over {} = {} does not contain {v:?} at {x:?}", show(&a), show(&r));
    }
    let (x, y) = (e(a.inf.r()), e(a.sup.r()));
    if let Some(m) = tight(&r, x.min(y), x.max(y), ULPS) {
        return Err(format!("{name} (k = {k:?}) over {} = {}: {m}", show(&a), show(&r)));
    }
    nontrivial(a.inf < a.sup)
}

pub fn c01() -> Property {
    Property {
        id: "C01",
        rule: "non-trivial = at least one interval operand with distinct bounds (programs: and at least two executed steps); distinct = distinct choice-sequence hashes",
        laws: vec![
            Law { name: "binary f32", quick: 6_000_000, f: bin::<f32> },
            Law { name: "binary f64", quick: 3_000_000, f: bin::<f64> },
            Law { name: "scalar forms f32", quick: 3_000_000, f: scalar_forms::<f32> },
            Law { name: "scalar forms f64", quick: 1_500_000, f: scalar_forms::<f64> },
            Law { name: "unary f32", quick: 4_000_000, f: un::<f32> },
            Law { name: "unary f64", quick: 2_000_000, f: un::<f64> },
            Law { name: "monotone maps f32", quick: 1_500_000, f: monotone::<f32> },
            Law { name: "monotone maps f64", quick: 700_000, f: monotone::<f64> },
            Law { name: "programs f32", quick: 4_000_000, f: program::<f32> },
            Law { name: "programs f64", quick: 1_500_000, f: program::<f64> },
        ],
        sweeps: vec![
            Sweep { name: "sqrt/square/recip of every f32 point (stride)", quick: true, total: 1 << 25, f: sweep_un_quick },
            Sweep { name: "sqrt/square/recip of every f32 point", quick: false, total: 1 << 32, f: sweep_un },
        ],
        findings: vec![],
        assumptions: &[
            "f32 results are judged against f64 and f64 results against 113-bit reals; rounding the exact value to the wider format is monotone, so no representable bound is crossed by it",
            "operands are finite; registers with an infinite bound are checked but not reused (0 * inf is a documented limitation)",
        ],
    }
}

fn sweep_un_at(bits: u32) -> Result<u64, String> {
    let x = f32::from_bits(bits);
    if !x.is_finite() {
        return Ok(0);
    }
    let i = Interval { inf: x, sup: x };
    let v = x as f64;
    let sq = i.square();
    if !valid(&sq) || outside::<f32, f64>(&sq, v * v, 0.0) {
        return Err(format!("square of [{x:?}, {x:?}] = {} misses {:?}", show(&sq), v * v));
    }
    if v != 0.0 {
        let r = GFloat::recip(i);
        if !valid(&r) || outside::<f32, f64>(&r, 1.0 / v, 0.0) {
            return Err(format!("recip of [{x:?}, {x:?}] = {} misses {:?}", show(&r), 1.0 / v));
        }
    }
    if v >= 0.0 {
        for r in [i.sqrt(), GFloat::sqrt(i)] {
            if !valid(&r) || outside::<f32, f64>(&r, v.sqrt(), 0.0) {
                return Err(format!("sqrt of [{x:?}, {x:?}] = {} misses {:?}", show(&r), v.sqrt()));
            }
        }
    }
    Ok(1)
}
fn sweep_un(a: u64, b: u64) -> Result<u64, String> {
    let mut n = 0;
    for k in a..b {
        n += sweep_un_at(k as u32)?;
    }
    Ok(n)
}
fn sweep_un_quick(a: u64, b: u64) -> Result<u64, String> {
    let mut n = 0;
    for k in a..b {
        n += sweep_un_at((k as u32).wrapping_mul(128).wrapping_add(k as u32 & 127))?;
    }
    Ok(n)
}

// ---------------------------------------------------------------------- C02

const ULPS: f64 = 4.0;

/// the result must reach at most `ULPS` ulps beyond the exact range [lo, hi]
fn tight<T: Fl, R: Real>(r: &Interval<T>, lo: R, hi: R, ulps: f64) -> Option<String> {
    let big = T::big().d();
    let lim = big * (1.0 - 16.0 * T::EPS);
    let l = lo.f64();
    let h = hi.f64();
    if l > -lim {
        let want = l.min(big) - 2.0 * ulps * T::ulp(l.min(big)) / 2.0;
        if !(r.inf.d() >= want) {
            return Some(format!("lower bound {:?} is far below the exact {:?}", r.inf, lo));
        }
    }
    if h < lim {
        let want = h.max(-big) + ulps * T::ulp(h.max(-big));
        if !(r.sup.d() <= want) {
            return Some(format!("upper bound {:?} is far above the exact {:?}", r.sup, hi));
        }
    }
    None
}

fn range4<R: Real>(v: [R; 4]) -> (R, R) {
    (
        v[0].min(v[1]).min(v[2].min(v[3])),
        v[0].max(v[1]).max(v[2].max(v[3])),
    )
}

fn tight_bin<T: Fl>(s: &mut Src) -> Res {
    let op = s.pick(6);
    let scalar = s.chance(1, 4);
    let form = s.pick(2);
    let a: Interval<T> = interval(s);
    let mut b: Interval<T> = interval(s);
    if scalar {
        b = Interval { inf: b.inf, sup: b.inf };
    }
    if op == 3 && b.contains(T::t(0.0)) {
        // a divisor that excludes zero
        b = if b.sup.d() > 0.0 && b.inf.d() >= 0.0 {
            Interval { inf: b.sup, sup: b.sup }
        } else if b.inf.d() < 0.0 {
            Interval { inf: b.inf, sup: b.inf }
        } else {
            Interval { inf: T::t(1.0), sup: T::t(3.0) }
        };
    }
    note!(s, "{} {} {} {}", show(&a), BIN[op], show(&b), if scalar { "scalar" } else { "" });
    let r = if scalar && op < 4 && b.inf == b.sup {
        let k = b.inf;
        match (op, form) {
            (0, _) => a + k,
            (1, _) => a - k,
            (2, 0) => a * k,
            (3, 0) => a / k,
            (2, _) => {
                let mut r = a;
                r *= k;
                r
            }
            _ => {
                let mut r = a;
                r /= k;
                r
            }
        }
    } else {
        apply_bin(op, form, a, b)
    };
    let e = |x: T, y: T| exact_bin(op, x.r(), y.r());
    let (lo, hi) = match op {
        4 => (a.inf.r().min(b.inf.r()), a.sup.r().min(b.sup.r())),
        5 => (a.inf.r().max(b.inf.r()), a.sup.r().max(b.sup.r())),
        _ => range4([e(a.inf, b.inf), e(a.inf, b.sup), e(a.sup, b.inf), e(a.sup, b.sup)]),
    };
    if op >= 4 {
        ensure!(
            r.inf.r() == lo && r.sup.r() == hi,
            "{} {} {} = {} is not exactly [{:?}, {:?}]",
            show(&a),
            BIN[op],
            show(&b),
            show(&r),
            lo,
            hi
        );
    } else if let Some(m) = tight(&r, lo, hi, ULPS) {
        return Err(format!("{} {} {} = {}: {}", show(&a), BIN[op], show(&b), show(&r), m));
    }
    nontrivial(a.inf < a.sup || b.inf < b.sup)
}

fn tight_un<T: Fl>(s: &mut Src) -> Res {
    let op = s.pick(7);
    let mut a: Interval<T> = interval(s);
    if op == 4 || op == 5 {
        if a.sup.d() < 0.0 {
            a = mk(-a.sup, -a.inf);
        }
        if a.inf.d() < 0.0 {
            a = mk(T::t(0.0), a.sup);
        }
    }
    if op == 6 && a.contains(T::t(0.0)) {
        a = mk(T::t(0.25), T::t(2.0));
    }
    note!(s, "{} of {}", UN[op], show(&a));
    let r = apply_un(op, a);
    let (x, y) = (exact_un(op, a.inf.r()), exact_un(op, a.sup.r()));
    let (mut lo, hi) = (x.min(y), x.max(y));
    if (op == 2 || op == 3) && a.contains(T::t(0.0)) {
        lo = T::R::of(0.0);
    }
    if op == 1 && a.inf.d() < 0.0 {
        // zero is always allowed as the lower bound
        lo = T::R::of(0.0);
    }
    if op == 0 {
        ensure!(r.inf.r() == lo && r.sup.r() == hi, "neg of {} = {}", show(&a), show(&r));
    } else if let Some(m) = tight(&r, lo, hi, ULPS) {
        return Err(format!("{} of {} = {}: {}", UN[op], show(&a), show(&r), m));
    }
    nontrivial(a.inf < a.sup)
}

/// Exact range of sin (shift = false) or cos over [a, b]; None when the ends are
/// too large for the period count.
fn sincos_range(cosine: bool, a: f64, b: f64) -> Option<(Q, Q, bool)> {
    if a.abs() > 1e12 || b.abs() > 1e12 {
        return None;
    }
    let (qa, qb) = (Q::of(a), Q::of(b));
    let two_pi = Q::pi() * Q::of(2.0);
    let (fa, fb) = if cosine { (Real::cos(qa), Real::cos(qb)) } else { (Real::sin(qa), Real::sin(qb)) };
    let mut lo = Real::min(fa, fb);
    let mut hi = Real::max(fa, fb);
    let mut inner = false;
    // maxima at top + 2 k pi, minima half a period later
    let top = if cosine { Q::of(0.0) } else { Q::pi() / Q::of(2.0) };
    for (phase, val) in [(top, 1.0), (top + Q::pi(), -1.0)] {
        let k = -Real::floor(-((qa - phase) / two_pi));
        if phase + two_pi * k <= qb {
            inner = true;
            if val > 0.0 {
                hi = Q::of(1.0);
            } else {
                lo = Q::of(-1.0);
            }
        }
    }
    Some((lo, hi, inner))
}

fn trig_interval<T: Fl>(s: &mut Src) -> Interval<T> {
    let a: T = match s.weighted(&[6, 3, 2, 1]) {
        0 => angle(s, 40.0),
        1 => angle(s, 1e5),
        2 => angle(s, 1e9),
        _ => any_finite(s),
    };
    let pi = std::f64::consts::PI;
    let w = match s.weighted(&[2, 2, 6, 3, 3, 2, 1]) {
        0 => 0.0,
        1 => 10f64.powf(s.uni(-8.0, 0.0)),
        2 => s.uni(0.0, 2.0 * pi),
        3 => s.uni(pi * 0.9, pi * 1.1),
        4 => s.uni(pi * 1.9, pi * 2.1),
        5 => s.int(0, 9) as f64 * pi / 4.0,
        _ => s.uni(0.0, 100.0),
    };
    let mut b = if s.chance(1, 8) { angle::<T>(s, 10.0) } else { T::t(a.d() + w) };
    if s.chance(1, 8) {
        b = b.up();
    }
    if !b.fin() {
        b = a;
    }
    mk(a, b)
}

/// An interval inside [-1, 1].
fn unit_interval<T: Fl>(s: &mut Src) -> Interval<T> {
    let one = |s: &mut Src| -> T {
        let x = match s.weighted(&[2, 6, 2, 2]) {
            0 => s.int(-4, 4) as f64 / 4.0,
            1 => s.uni(-1.0, 1.0),
            2 => (1.0 - 10f64.powf(s.uni(-9.0, 0.0))) * if s.chance(1, 2) { -1.0 } else { 1.0 },
            _ => 10f64.powf(s.uni(-30.0, 0.0)) * if s.chance(1, 2) { -1.0 } else { 1.0 },
        };
        T::t(x)
    };
    let a = one(s);
    let b = if s.chance(1, 3) { a } else { one(s) };
    mk(a, b)
}

fn tight_trig<T: Fl>(s: &mut Src) -> Res {
    let f = s.pick(6);
    if f < 3 {
        let i: Interval<T> = trig_interval(s);
        note!(s, "{} of {}", ["sin", "cos", "sin_cos"][f], show(&i));
        let (sn, cs) = GFloat::sin_cos(i);
        let rs = match f {
            0 => vec![(false, GFloat::sin(i))],
            1 => vec![(true, GFloat::cos(i))],
            _ => vec![(false, sn), (true, cs)],
        };
        for (c, r) in rs {
            let m = 1.0 + 4.0 * T::EPS;
            ensure!(
                r.inf.d() >= -m && r.sup.d() <= m,
                "{} of {} = {} leaves [-1, 1]",
                if c { "cos" } else { "sin" },
                show(&i),
                show(&r)
            );
            if let Some((lo, hi, _)) = sincos_range(c, i.inf.d(), i.sup.d()) {
                // an argument that is a whole period up to rounding may be
                // widened to the full range: its exact range is that range up
                // to the square of the rounding of the width
                let w = i.sup.d() - i.inf.d();
                let pi = std::f64::consts::PI;
                let near = ((w / pi).round() * pi - w).abs() <= 8.0 * T::EPS * w.max(1.0) && w > 1.0;
                if near {
                    continue;
                }
                if let Some(m) = tight(&r, lo, hi, ULPS) {
                    return Err(format!("{} of {} = {}: {}", if c { "cos" } else { "sin" }, show(&i), show(&r), m));
                }
            }
        }
        nontrivial(i.inf < i.sup)
    } else {
        let i: Interval<T> = if f == 5 { interval(s) } else { unit_interval(s) };
        note!(s, "{} of {}", ["asin", "acos", "atan"][f - 3], show(&i));
        let (a, b) = (i.inf.q(), i.sup.q());
        let (r, lo, hi) = match f {
            3 => (GFloat::asin(i), Real::asin(a), Real::asin(b)),
            4 => (GFloat::acos(i), Real::acos(b), Real::acos(a)),
            _ => (GFloat::atan(i), Real::atan(a), Real::atan(b)),
        };
        if let Some(m) = tight(&r, lo, hi, ULPS) {
            return Err(format!("{} of {} = {}: {}", ["asin", "acos", "atan"][f - 3], show(&i), show(&r), m));
        }
        nontrivial(i.inf < i.sup)
    }
}

/// Two-argument arc tangent where the branch is certain: x of one sign and, on
/// the left, y of one sign.
fn tight_atan2<T: Fl>(s: &mut Src) -> Res {
    let wild = s.chance(1, 5);
    let (mut y, mut x): (Interval<T>, Interval<T>) =
        if wild { (interval(s), interval(s)) } else { (interval_num(s, 10.0), interval_num(s, 10.0)) };
    if x.contains(T::t(0.0)) {
        x = if x.sup.d() > 0.0 && s.chance(1, 2) { mk(x.sup, x.sup) } else if x.inf.d() < 0.0 { mk(x.inf, x.inf) } else { mk(T::t(0.5), T::t(2.0)) };
    }
    let left = x.sup.d() < 0.0;
    if left && y.inf.d() < 0.0 && y.sup.d() >= 0.0 {
        y = if y.sup.d() > 0.0 || s.chance(1, 2) { mk(T::t(0.0), y.sup) } else { mk(y.inf, y.inf) };
    }
    note!(s, "atan2({}, {})", show(&y), show(&x));
    let r = GFloat::atan2(y, x);
    let v = [(y.inf, x.inf), (y.inf, x.sup), (y.sup, x.inf), (y.sup, x.sup)].map(|(b, a)| Q::of(b.d() + 0.0).atan2(Q::of(a.d() + 0.0)));
    let (lo, hi) = range4(v);
    if left {
        let e = 8.0 * T::ulp(3.0);
        ensure!(
            r.inf.d() >= lo.f64() - e && r.sup.d() <= hi.f64() + e,
            "atan2({}, {}) = {} is far wider than [{lo:?}, {hi:?}]",
            show(&y),
            show(&x),
            show(&r)
        );
    } else if let Some(m) = tight(&r, lo, hi, 2.0 * ULPS) {
        return Err(format!("atan2({}, {}) = {}: {m}", show(&y), show(&x), show(&r)));
    }
    nontrivial(y.inf < y.sup || x.inf < x.sup)
}

pub fn c02() -> Property {
    Property {
        id: "C02",
        rule: "non-trivial = at least one interval operand with distinct bounds",
        laws: vec![
            Law { name: "binary f32", quick: 6_000_000, f: tight_bin::<f32> },
            Law { name: "binary f64", quick: 3_000_000, f: tight_bin::<f64> },
            Law { name: "unary f32", quick: 4_000_000, f: tight_un::<f32> },
            Law { name: "unary f64", quick: 2_000_000, f: tight_un::<f64> },
            Law { name: "trig f32", quick: 800_000, f: tight_trig::<f32> },
            Law { name: "trig f64", quick: 800_000, f: tight_trig::<f64> },
            Law { name: "atan2 f32", quick: 300_000, f: tight_atan2::<f32> },
            Law { name: "atan2 f64", quick: 300_000, f: tight_atan2::<f64> },
        ],
        sweeps: vec![],
        findings: vec![],
        assumptions: &[
            "a few ulps = 4",
            "bounds whose exact value is within 16 ulps of overflow are not judged",
            "tangent, two-argument arc tangent across its branches and division by an interval that contains zero make no tightness promise, nor does the lower bound of the absolute value of an interval with negative points",
        ],
    }
}

// ---------------------------------------------------------------------- C03

fn trig<T: Fl>(s: &mut Src) -> Res {
    let i: Interval<T> = trig_interval(s);
    let f = s.pick(4);
    note!(s, "{} of {}", ["sin", "cos", "sin_cos", "tan"][f], show(&i));
    let rel = 16.0 * Q::U;
    let (sc, cc) = GFloat::sin_cos(i);
    let sn = if f == 2 { sc } else { GFloat::sin(i) };
    let cs = if f == 2 { cc } else { GFloat::cos(i) };
    if f < 3 {
        for (cosine, r, name) in [(false, sn, "sin"), (true, cs, "cos")] {
            if f < 2 && cosine != (f == 1) {
                continue;
            }
            ensure!(valid(&r), "{name} of {} = {} is not a valid interval", show(&i), show(&r));
            for j in 0..5 {
                let x = match j {
                    0 => i.inf,
                    1 => i.sup,
                    _ => point_in(s, i),
                };
                let v = if cosine { Real::cos(x.q()) } else { Real::sin(x.q()) };
                ensure!(
                    !outside(&r, v, rel),
                    "{name} of {} = {} does not contain {name}({:?}) = {:?}",
                    show(&i),
                    show(&r),
                    x,
                    v
                );
            }
            if let Some((lo, hi, inner)) = sincos_range(cosine, i.inf.d(), i.sup.d()) {
                if inner {
                    ensure!(
                        !outside(&r, lo, rel) && !outside(&r, hi, rel),
                        "{name} of {} = {} misses an extremum inside the argument: the exact range is [{:?}, {:?}]",
                        show(&i),
                        show(&r),
                        lo,
                        hi
                    );
                }
            }
        }
    } else {
        let r = GFloat::tan(i);
        ensure!(valid(&r), "tan of {} = {} is not a valid interval", show(&i), show(&r));
        for j in 0..5 {
            let x = match j {
                0 => i.inf,
                1 => i.sup,
                _ => point_in(s, i),
            };
            let v = Real::tan(x.q());
            ensure!(
                !outside(&r, v, rel),
                "tan of {} = {} does not contain tan({:?}) = {:?}",
                show(&i),
                show(&r),
                x,
                v
            );
        }
        // a pole strictly inside
        if i.inf.d().abs() < 1e9 && i.sup.d().abs() < 1e9 {
            let half = Q::pi() / Q::of(2.0);
            let k = -Real::floor(-((i.inf.q() - half) / Q::pi()));
            if half + Q::pi() * k <= i.sup.q() {
                ensure!(
                    r.inf.d() == f64::NEG_INFINITY && r.sup.d() == f64::INFINITY,
                    "tan of {} = {} is bounded although the argument contains a pole",
                    show(&i),
                    show(&r)
                );
            }
        }
    }
    nontrivial(i.inf < i.sup)
}

fn inverse_trig<T: Fl>(s: &mut Src) -> Res {
    let f = s.pick(3);
    let i: Interval<T> = if f == 2 { interval(s) } else { unit_interval(s) };
    let name = ["asin", "acos", "atan"][f];
    note!(s, "{name} of {}", show(&i));
    let r = match f {
        0 => GFloat::asin(i),
        1 => GFloat::acos(i),
        _ => GFloat::atan(i),
    };
    ensure!(valid(&r), "{name} of {} = {} is not a valid interval", show(&i), show(&r));
    for j in 0..4 {
        let x = match j {
            0 => i.inf,
            1 => i.sup,
            _ => point_in(s, i),
        };
        let v = match f {
            0 => Real::asin(x.q()),
            1 => Real::acos(x.q()),
            _ => Real::atan(x.q()),
        };
        ensure!(
            !outside(&r, v, 16.0 * Q::U),
            "{name} of {} = {} does not contain {name}({:?}) = {:?}",
            show(&i),
            show(&r),
            x,
            v
        );
    }
    nontrivial(i.inf < i.sup)
}

fn atan2<T: Fl>(s: &mut Src) -> Res {
    let wild = s.chance(1, 4);
    let (y, x): (Interval<T>, Interval<T>) = if wild {
        (interval(s), interval(s))
    } else {
        (interval_num(s, 10.0), interval_num(s, 10.0))
    };
    note!(s, "atan2({}, {})", show(&y), show(&x));
    if y.inf.d() == 0.0 && y.sup.d() == 0.0 && x.inf.d() == 0.0 && x.sup.d() == 0.0 {
        let _ = GFloat::atan2(y, x);
        return Ok(Class::Trivial);
    }
    let r = GFloat::atan2(y, x);
    ensure!(valid(&r), "atan2({}, {}) = {} is not a valid interval", show(&y), show(&x), show(&r));
    for k in 0..8 {
        let (b, a) = match k {
            0 => (y.inf, x.inf),
            1 => (y.inf, x.sup),
            2 => (y.sup, x.inf),
            3 => (y.sup, x.sup),
            _ => (point_in(s, y), point_in(s, x)),
        };
        let (bq, aq) = (Q::of(b.d() + 0.0), Q::of(a.d() + 0.0));
        if b.d() == 0.0 && a.d() == 0.0 {
            continue;
        }
        let v = bq.atan2(aq);
        ensure!(
            !outside(&r, v, 16.0 * Q::U),
            "atan2({}, {}) = {} does not contain atan2({:?}, {:?}) = {:?}",
            show(&y),
            show(&x),
            show(&r),
            b,
            a,
            v
        );
    }
    nontrivial(y.inf < y.sup || x.inf < x.sup)
}

fn consts<T: Fl>(s: &mut Src) -> Res {
    note!(s, "constants");
    let all: [(Interval<T>, f64, _); 4] = [
        (GFloat::pi(), 1.0, "pi"),
        (GFloat::tau(), 2.0, "tau"),
        (GFloat::frac_pi_2(), 0.5, "pi/2"),
        (GFloat::frac_pi_4(), 0.25, "pi/4"),
    ];
    for (i, f, name) in all {
        let q = Q::pi() * Q::of(f);
        ensure!(i.inf.q() < q && q < i.sup.q(), "the interval {name} = {} does not contain the constant", show(&i));
        ensure!((i.sup.q() - i.inf.q()).f64() <= 8.0 * T::EPS * f, "the interval {name} = {} is needlessly wide", show(&i));
    }
    // the bounds of the constants, taken as intervals: around the constant, a few ulps away
    let bounds: [(Interval<T>, Interval<T>, f64, _); 4] = [
        (GFloat::pi_lower(), GFloat::pi_upper(), 1.0, "pi"),
        (GFloat::tau_lower(), GFloat::tau_upper(), 2.0, "tau"),
        (GFloat::frac_pi_2_lower(), GFloat::frac_pi_2_upper(), 0.5, "pi/2"),
        (GFloat::frac_pi_4_lower(), GFloat::frac_pi_4_upper(), 0.25, "pi/4"),
    ];
    for (l, u, f, name) in bounds {
        let q = Q::pi() * Q::of(f);
        ensure!(valid(&l) && valid(&u), "the interval bounds of {name} are {} and {}", show(&l), show(&u));
        ensure!(l.inf.q() < q && q < u.sup.q(), "the interval bounds {} and {} are not around {name}", show(&l), show(&u));
        let far = |x: T| (x.q() - q).abs().f64() > 16.0 * T::EPS * f;
        ensure!(!far(l.inf) && !far(l.sup) && !far(u.inf) && !far(u.sup), "the interval bounds {} and {} are far from {name}", show(&l), show(&u));
    }
    Ok(Class::Trivial)
}

fn f32_point_fn(k: u64) -> Result<u64, String> {
    let x = f32::from_bits(k as u32);
    if !x.is_finite() {
        return Ok(0);
    }
    let i = Interval { inf: x, sup: x };
    let v = x as f64;
    // f64 functions are within an ulp: 2^-52 relative
    let rel = 4.5e-16;
    let mut list: Vec<(&str, Interval<f32>, f64)> = vec![
        ("sin", GFloat::sin(i), v.sin()),
        ("cos", GFloat::cos(i), v.cos()),
        ("atan", GFloat::atan(i), v.atan()),
    ];
    if v.abs() <= 1.0 {
        list.push(("asin", GFloat::asin(i), v.asin()));
        list.push(("acos", GFloat::acos(i), v.acos()));
    }
    for (n, r, e) in list {
        if !valid(&r) || outside::<f32, f64>(&r, e, rel) {
            return Err(format!("{n} of [{x:?}, {x:?}] = {} does not contain {e:?}", show(&r)));
        }
    }
    Ok(1)
}
fn sweep_trig(a: u64, b: u64) -> Result<u64, String> {
    let mut n = 0;
    for k in a..b {
        n += f32_point_fn(k)?;
    }
    Ok(n)
}
fn sweep_trig_quick(a: u64, b: u64) -> Result<u64, String> {
    let mut n = 0;
    for k in a..b {
        n += f32_point_fn((k * 509) & 0xffff_ffff)?;
    }
    Ok(n)
}

pub fn c03() -> Property {
    Property {
        id: "C03",
        rule: "non-trivial = the argument interval has distinct bounds (at least one argument for atan2)",
        laws: vec![
            Law { name: "sin/cos/tan f32", quick: 600_000, f: trig::<f32> },
            Law { name: "sin/cos/tan f64", quick: 600_000, f: trig::<f64> },
            Law { name: "asin/acos/atan f32", quick: 600_000, f: inverse_trig::<f32> },
            Law { name: "asin/acos/atan f64", quick: 600_000, f: inverse_trig::<f64> },
            Law { name: "atan2 f32", quick: 600_000, f: atan2::<f32> },
            Law { name: "atan2 f64", quick: 600_000, f: atan2::<f64> },
            Law { name: "constants f32", quick: 64, f: consts::<f32> },
            Law { name: "constants f64", quick: 64, f: consts::<f64> },
        ],
        sweeps: vec![
            Sweep { name: "sin/cos/atan/asin/acos of every f32 point (stride)", quick: true, total: (1 << 32) / 509, f: sweep_trig_quick },
            Sweep { name: "sin/cos/atan/asin/acos of every f32 point", quick: false, total: 1 << 32, f: sweep_trig },
        ],
        findings: vec![],
        assumptions: &[
            "libquadmath's functions are accurate to 16 units of 1e-33",
            "extrema and poles inside the argument are located for |x| <= 1e12 (poles 1e9); beyond, only sampled points are judged",
        ],
    }
}

// ---------------------------------------------------------------------- C04

fn certain<T: Fl>(a: (T, T), b: (T, T), f: fn(T, T) -> bool) -> (bool, bool) {
    // comparisons are monotone, so the corners decide
    let v = [f(a.0, b.0), f(a.0, b.1), f(a.1, b.0), f(a.1, b.1)];
    (v.iter().all(|x| *x), v.iter().any(|x| *x))
}

fn cmp_pair<T: Fl>(s: &mut Src) -> (Interval<T>, Interval<T>) {
    let small = s.chance(1, 2);
    if small {
        // small lattices make touching, nested and equal operands common
        let one = |s: &mut Src| {
            let a = s.int(-3, 3) as f64;
            let b = if s.chance(1, 2) { a } else { s.int(-3, 3) as f64 };
            mk(T::t(a), T::t(b))
        };
        (one(s), one(s))
    } else {
        (unbounded(s), unbounded(s))
    }
}

/// An interval, now and then without a lower or upper limit.
fn unbounded<T: Fl>(s: &mut Src) -> Interval<T> {
    let mut a = interval(s);
    if s.chance(1, 12) {
        let k = s.pick(3);
        if k != 1 {
            a.inf = T::t(f64::NEG_INFINITY);
        }
        if k != 0 {
            a.sup = T::t(f64::INFINITY);
        }
    }
    a
}

fn compare<T: Fl>(s: &mut Src) -> Res {
    let (a, mut b): (Interval<T>, Interval<T>) = cmp_pair(s);
    let scalar = s.chance(1, 3);
    if scalar {
        let k = point_in(s, b);
        b = Interval { inf: k, sup: k };
    }
    if s.chance(1, 8) {
        b = Interval { inf: a.sup, sup: if b.sup >= a.sup { b.sup } else { a.sup } };
        if scalar {
            b.sup = b.inf;
        }
    }
    note!(s, "compare {} with {}{}", show(&a), show(&b), if scalar { " (scalar)" } else { "" });
    let k = b.inf;
    let (lt, le, gt, ge, eq, ne) = if scalar {
        (a < k, a <= k, a > k, a >= k, a == k, a != k)
    } else {
        (a < b, a <= b, a > b, a >= b, a == b, a != b)
    };
    let (pa, pb) = ((a.inf, a.sup), (b.inf, b.sup));
    let exact_eq = a.inf == a.sup && b.inf == b.sup && a.inf == b.inf;
    let sep_lt = a.sup < b.inf;
    let sep_gt = a.inf > b.sup;
    let tests: [(&str, bool, fn(T, T) -> bool, bool); 4] = [
        ("<", lt, |x, y| x < y, sep_lt),
        ("<=", le, |x, y| x <= y, sep_lt || exact_eq),
        (">", gt, |x, y| x > y, sep_gt),
        (">=", ge, |x, y| x >= y, sep_gt || exact_eq),
    ];
    for (n, got, f, must) in tests {
        let (all, _) = certain(pa, pb, f);
        ensure!(!got || all, "{} {n} {} claimed although it does not hold for every choice", show(&a), show(&b));
        ensure!(got || !must, "{} {n} {} not claimed although the operands are separated", show(&a), show(&b));
    }
    ensure!(eq == exact_eq, "{} == {} is {}", show(&a), show(&b), eq);
    ensure!(ne == !eq, "!= is not the negation of == for {} and {}", show(&a), show(&b));
    nontrivial(!(sep_lt || sep_gt))
}

fn tests_of<T: Fl>(s: &mut Src) -> Res {
    let (a, b): (Interval<T>, Interval<T>) = cmp_pair(s);
    let x = if s.chance(1, 2) { point_in(s, a) } else { point_in(s, b) };
    note!(s, "{} against {} and {:?}", show(&a), show(&b), x);
    let (l, h) = (a.inf.d(), a.sup.d());
    let q: [(&str, bool, bool); 13] = [
        ("is_positive", a.is_positive(), l > 0.0),
        ("is_negative", a.is_negative(), h < 0.0),
        ("is_nonpositive", a.is_nonpositive(), h <= 0.0),
        ("is_nonnegative", a.is_nonnegative(), l >= 0.0),
        ("SignedScalar::is_positive", SignedScalar::is_positive(a), l > 0.0),
        ("SignedScalar::is_negative", SignedScalar::is_negative(a), h < 0.0),
        ("contains", a.contains(x), l <= x.d() && x.d() <= h),
        ("in_range", a.in_range(b.inf, b.sup), b.inf.d() <= l && h <= b.sup.d()),
        ("is_exact", a.is_exact(), l == h),
        ("is_same", a.is_same(b), l == b.inf.d() && h == b.sup.d()),
        ("is_zero", Scalar::is_zero(a), l == 0.0 && h == 0.0),
        ("is_one", Scalar::is_one(a), l == 1.0 && h == 1.0),
        ("is_finite", GFloat::is_finite(a), l.is_finite() && h.is_finite()),
    ];
    for (n, got, want) in q {
        ensure!(got == want, "{n} of {} (against {}, {:?}) is {got}", show(&a), show(&b), x);
    }
    ensure!(!GFloat::is_nan(a) && !GFloat::is_infinite(a), "{} is classified as NaN or infinite", show(&a));
    // certain sign claims of the trait forms (they may stay undecided at zero)
    ensure!(!SignedScalar::is_nonpositive(a) || h <= 0.0, "is_nonpositive of {}", show(&a));
    ensure!(!SignedScalar::is_nonnegative(a) || l >= 0.0, "is_nonnegative of {}", show(&a));
    ensure!(SignedScalar::is_nonpositive(a) || !(h < 0.0), "is_nonpositive of {}", show(&a));
    ensure!(SignedScalar::is_nonnegative(a) || !(l > 0.0), "is_nonnegative of {}", show(&a));
    // sets
    let u = a.union(b);
    let (ul, uh) = (l.min(b.inf.d()), h.max(b.sup.d()));
    ensure!(u.inf.d() == ul && u.sup.d() == uh, "union of {} and {} is {}", show(&a), show(&b), show(&u));
    let (il, ih) = (l.max(b.inf.d()), h.min(b.sup.d()));
    if il <= ih {
        let i = a.intersect(b);
        ensure!(i.inf.d() == il && i.sup.d() == ih, "intersection of {} and {} is {}", show(&a), show(&b), show(&i));
    }
    // approximation
    let sum = l + h;
    if sum.abs() <= T::big().d() {
        let m = a.approx();
        ensure!(m.d() >= l && m.d() <= h, "approx of {} = {:?} lies outside", show(&a), m);
        ensure!(GFloat::to_f64(a) == m.d() && GFloat::to_f32(a) == m.d() as f32, "to_f32/to_f64 of {} are not the midpoint", show(&a));
        let want = (a.inf.q() + a.sup.q()) / Q::of(2.0);
        let err = (m.q() - want).f64().abs();
        ensure!(err <= 2.0 * T::EPS * (l.abs().max(h.abs())) + T::tiny().d(), "approx of {} = {:?} is not the midpoint", show(&a), m);
    }
    let p = Interval::<T>::from(x);
    ensure!(p.inf == x && p.sup == x, "from({:?}) = {}", x, show(&p));
    ensure!(p.approx() == x || x.d().abs() > T::big().d() / 2.0, "approx(from({:?})) = {:?}", x, p.approx());
    nontrivial(l < h)
}

fn pointwise<T: Fl>(s: &mut Src) -> Res {
    let (a, b): (Interval<T>, Interval<T>) = cmp_pair(s);
    let c: Interval<T> = interval(s);
    note!(s, "min_max/signum/clamp of {} {} {}", show(&a), show(&b), show(&c));
    let (mn, mx) = Scalar::min_max(a, b);
    let sg = SignedScalar::signum(a);
    let (lo, hi) = if b.sup <= c.inf { (b, c) } else if c.sup <= b.inf { (c, b) } else { (b, b) };
    let cl = Scalar::clamp(a, lo, hi);
    ensure!(valid(&mn) && valid(&mx) && valid(&sg) && valid(&cl), "invalid interval");
    for _ in 0..4 {
        let (x, y) = (point_in(s, a), point_in(s, b));
        let (p, q) = if x < y { (x, y) } else { (y, x) };
        ensure!(
            mn.contains(p) && mx.contains(q),
            "min_max of {} and {} = ({}, {}) does not contain those of the points {:?}, {:?}",
            show(&a),
            show(&b),
            show(&mn),
            show(&mx),
            x,
            y
        );
        let g = if x.d() > 0.0 { 1.0 } else if x.d() < 0.0 { -1.0 } else { 0.0 };
        ensure!(sg.contains(T::t(g)), "signum of {} = {} does not contain the sign of {:?}", show(&a), show(&sg), x);
        let (l, h) = (point_in(s, lo), point_in(s, hi));
        if l <= h {
            let v = if x < l { l } else if x > h { h } else { x };
            ensure!(
                cl.contains(v),
                "clamp of {} to {} .. {} = {} does not contain clamp({:?}, {:?}, {:?})",
                show(&a),
                show(&lo),
                show(&hi),
                show(&cl),
                x,
                l,
                h
            );
        }
    }
    // approximate equality of intervals
    let e = a.almost_eq(b);
    ensure!(e == (a.inf.fequals(b.inf) && a.sup.fequals(b.sup)), "almost_eq of {} and {} is {e}", show(&a), show(&b));
    nontrivial(a.inf < a.sup || b.inf < b.sup)
}

/// Constants, conversions and neighbours of intervals are those of the bounds.
fn scalar_layer<T: Fl + From<Interval<T>>>(s: &mut Src) -> Res {
    let a: Interval<T> = if s.chance(1, 2) { unbounded(s) } else { interval(s) };
    let y: f64 = any_finite(s);
    let z = (s.u64() as i64) >> s.below(64);
    note!(s, "{}, {:?}, {}", show(&a), y, z);
    let (u, d, x) = (GFloat::next_up(a), GFloat::next_down(a), a.extend_by_ulp());
    ensure!(u.inf == a.inf.up() && u.sup == a.sup.up(), "next_up of {} is {}", show(&a), show(&u));
    ensure!(d.inf == a.inf.down() && d.sup == a.sup.down(), "next_down of {} is {}", show(&a), show(&d));
    ensure!(x.inf == a.inf.down() && x.sup == a.sup.up(), "extend_by_ulp of {} is {}", show(&a), show(&x));
    let point = |n: &str, i: Interval<T>, w: T| -> Result<(), String> {
        ensure!(i.inf == w && i.sup == w, "{n} is {}, should be {:?}", show(&i), w);
        Ok(())
    };
    point("zero", Scalar::zero(), Scalar::zero())?;
    point("one", Scalar::one(), Scalar::one())?;
    // two is a sum: a rounding outwards is allowed
    let (two, w): (Interval<T>, T) = (Scalar::two(), Scalar::two());
    ensure!(two.inf <= w && w <= two.sup && two.inf >= w.down() && two.sup <= w.up(), "two is {}", show(&two));
    point("half", GFloat::half(), GFloat::half())?;
    point("lowest", Scalar::lowest(), Scalar::lowest())?;
    point("highest", Scalar::highest(), Scalar::highest())?;
    point("min_positive_value", GFloat::min_positive_value(), GFloat::min_positive_value())?;
    point("infinity", GFloat::infinity(), GFloat::infinity())?;
    point("neg_infinity", GFloat::neg_infinity(), GFloat::neg_infinity())?;
    point("rel_epsilon", GFloat::rel_epsilon(), GFloat::rel_epsilon())?;
    point("abs_epsilon", GFloat::abs_epsilon(), GFloat::abs_epsilon())?;
    point("neg_zero", GFloat::neg_zero(), GFloat::neg_zero())?;
    let (p, m): (Interval<T>, Interval<T>) = (GFloat::infinity(), GFloat::neg_infinity());
    ensure!(GFloat::is_infinite(p) && GFloat::is_infinite(m) && !GFloat::is_finite(p) && !GFloat::is_finite(m), "an infinite interval is not infinite");
    point("from_i64", GFloat::from_i64(z), GFloat::from_i64(z))?;
    let w: T = GFloat::from_f64(y);
    point("from_f64", GFloat::from_f64(y), w)?;
    point("from_f32", GFloat::from_f32(y as f32), GFloat::from_f32(y as f32))?;
    let t: Interval<T> = Interval::from((a.inf, a.sup));
    ensure!(t.is_same(a), "from({:?}, {:?}) is {}", a.inf, a.sup, show(&t));
    let sum = a.inf.d() + a.sup.d();
    if sum.abs() <= T::big().d() {
        ensure!(GFloat::to_i64(a) == GFloat::to_i64(a.approx()), "to_i64 of {} is {}", show(&a), GFloat::to_i64(a));
        let v: T = a.into();
        let mid = (a.inf.q() + a.sup.q()).f64() * 0.5;
        ensure!(a.inf <= v && v <= a.sup && (v.d() - mid).abs() <= 2.0 * T::EPS * mid.abs() + 2.0 * T::tiny().d(), "{} converts to {:?}", show(&a), v);
    }
    let nan: Interval<T> = GFloat::nan();
    ensure!(GFloat::is_nan(nan), "the interval NaN is {}", show(&nan));
    let (n0, n1): (Interval<T>, Interval<T>) = (Interval { inf: nan.inf, sup: a.sup }, Interval { inf: a.inf, sup: nan.sup });
    ensure!(GFloat::is_nan(n0) && GFloat::is_nan(n1) && !GFloat::is_finite(n0) && !GFloat::is_finite(n1), "{} or {} is not NaN", show(&n0), show(&n1));
    // approximately equal to a number: every point is
    let k = point_in(s, a);
    let k = if s.chance(1, 2) { k } else { any_finite(s) };
    if a.inf.fin() && a.sup.fin() && k.fin() {
        let e = <Interval<T> as AlmostEqual<T>>::almost_eq(a, k);
        let w = a.inf <= k && k <= a.sup && a.inf.fequals(k) && a.sup.fequals(k);
        ensure!(e == w, "{} almost_eq {:?} is {e}", show(&a), k);
    }
    nontrivial(a.inf < a.sup)
}

pub fn c04() -> Property {
    Property {
        id: "C04",
        rule: "non-trivial = operands that are not strictly separated (comparisons), an interval with distinct bounds (tests, pointwise)",
        laws: vec![
            Law { name: "comparisons f32", quick: 8_000_000, f: compare::<f32> },
            Law { name: "comparisons f64", quick: 8_000_000, f: compare::<f64> },
            Law { name: "tests f32", quick: 3_000_000, f: tests_of::<f32> },
            Law { name: "tests f64", quick: 3_000_000, f: tests_of::<f64> },
            Law { name: "pointwise f32", quick: 3_000_000, f: pointwise::<f32> },
            Law { name: "pointwise f64", quick: 3_000_000, f: pointwise::<f64> },
            Law { name: "scalar layer f32", quick: 2_000_000, f: scalar_layer::<f32> },
            Law { name: "scalar layer f64", quick: 2_000_000, f: scalar_layer::<f64> },
        ],
        sweeps: vec![],
        findings: vec![],
        assumptions: &["no bound is NaN; intersection is only taken of intervals that meet"],
    }
}
