//! C06: vector algebra. C07: interval-valued vectors, rays and transforms.
use crate::engine::*;
use crate::gen::*;
use crate::quad::{Real, Q};
use crate::{ensure, note};
use scarlet::geometry::ray::Ray;
use scarlet::math::interval::Interval;
use scarlet::math::scalar::{AlmostEqual, Scalar};
use scarlet::math::transform::Transform;
use scarlet::math::vector::*;

// ---------------------------------------------------------------------- C06

/// A scalar the algebra laws can be run on.
pub trait Sc: Scalar + AlmostEqual + std::fmt::Debug {
    fn gen(s: &mut Src) -> Self;
    fn divisor(s: &mut Src) -> Self;
    /// quotients may be rounded differently (reciprocal times), nothing else
    fn same_div(a: Self, b: Self) -> bool;
    fn same(a: Self, b: Self) -> bool;
}
macro_rules! sc_float {
    ($t:ty) => {
        impl Sc for $t {
            fn gen(s: &mut Src) -> Self {
                match s.weighted(&[5, 2, 1]) {
                    0 => num(s, 100.0),
                    1 => num(s, 1e6),
                    _ => num(s, 1e-6),
                }
            }
            fn divisor(s: &mut Src) -> Self {
                let x: $t = pos(s, 1e-4, 1e4);
                if s.chance(1, 2) {
                    -x
                } else {
                    x
                }
            }
            fn same_div(a: Self, b: Self) -> bool {
                (a - b).abs() <= 4.0 * <$t>::EPSILON * b.abs() + <$t as Fl>::tiny() * 4.0
            }
            fn same(a: Self, b: Self) -> bool {
                a == b
            }
        }
    };
}
sc_float!(f32);
sc_float!(f64);
macro_rules! sc_int {
    ($t:ty, $lo:expr) => {
        impl Sc for $t {
            fn gen(s: &mut Src) -> Self {
                let r = if s.chance(1, 4) { 1000 } else { 9 };
                s.int($lo * r, r) as $t
            }
            fn divisor(s: &mut Src) -> Self {
                let x = s.int(1, 20) as $t;
                if $lo < 0 && s.chance(1, 2) {
                    (0 as $t).wrapping_sub(x)
                } else {
                    x
                }
            }
            fn same_div(a: Self, b: Self) -> bool {
                a == b
            }
            fn same(a: Self, b: Self) -> bool {
                a == b
            }
        }
    };
}
sc_int!(i32, -1);
sc_int!(i64, -1);

fn arr<T: Sc, const N: usize>(s: &mut Src) -> [T; N] {
    let mut a = [T::zero(); N];
    for x in a.iter_mut() {
        *x = T::gen(s);
    }
    if s.chance(1, 6) {
        let k = s.pick(N);
        a = [a[k]; N];
    }
    a
}

fn all<T: Sc, const N: usize>(got: [T; N], want: impl Fn(usize) -> T, div: bool) -> bool {
    (0..N).all(|i| if div { T::same_div(got[i], want(i)) } else { T::same(got[i], want(i)) })
}

macro_rules! comp {
    ($got:expr, $want:expr, $div:expr, $($m:tt)*) => {
        let g = $got;
        ensure!(all(g, $want, $div), "{} gives {:?}", format!($($m)*), g);
    };
}

/// everything that exists for all three kinds
fn kind_law<T: Sc + scarlet::math::scalar::SignedScalar, const N: usize, U: std::fmt::Debug>(
    s: &mut Src,
    name: &str,
    ctor: fn([T; N]) -> GenericVector<T, N, U>,
) -> Res {
    let a: [T; N] = arr(s);
    let b: [T; N] = if s.chance(1, 8) { a } else { arr(s) };
    let k = T::gen(s);
    let dv = T::divisor(s);
    let mut dd = [T::one(); N];
    for x in dd.iter_mut() {
        *x = T::divisor(s);
    }
    note!(s, "{name} {:?} {:?} scalar {:?} divisors {:?} {:?}", a, b, k, dv, dd);
    let (va, vb) = (ctor(a), ctor(b));
    comp!(va.vec, |i| a[i], false, "constructing {name} {a:?}");
    ensure!(va.x() == a[0] && va.y() == a[1] && (N < 3 || va.z() == a[2]) && (N < 4 || va.w() == a[3]), "named components of {name} {a:?}");
    for i in 0..N {
        ensure!(va[i] == a[i], "{name} {a:?}[{i}] = {:?}", va[i]);
    }
    let mut m = va;
    for i in 0..N {
        m[i] = b[i];
    }
    comp!(m.vec, |i| b[i], false, "writing {b:?} by index into {name}");
    let mut m = va;
    *m.x_mut() = b[0];
    *m.y_mut() = b[1];
    if N > 2 {
        *m.z_mut() = b[2];
    }
    if N > 3 {
        *m.w_mut() = b[3];
    }
    comp!(m.vec, |i| b[i], false, "writing {b:?} by name into {name}");
    comp!(GenericVector::<T, N, U>::from(a).vec, |i| a[i], false, "from array {a:?}");
    comp!(GenericVector::<T, N, U>::default().vec, |_| T::zero(), false, "default {name}");
    comp!((-va).vec, |i| -a[i], false, "-{name} {a:?}");
    comp!((va + vb).vec, |i| a[i] + b[i], false, "{name} {a:?} + {b:?}");
    let mut m = va;
    m += vb;
    comp!(m.vec, |i| a[i] + b[i], false, "{name} {a:?} += {b:?}");
    comp!((va * vb).vec, |i| a[i] * b[i], false, "{name} {a:?} * {b:?}");
    comp!((va / ctor(dd)).vec, |i| a[i] / dd[i], true, "{name} {a:?} / {dd:?}");
    comp!((va.min(vb)).vec, |i| if a[i] < b[i] { a[i] } else { b[i] }, false, "min of {name} {a:?}, {b:?}");
    comp!((va.max(vb)).vec, |i| if a[i] > b[i] { a[i] } else { b[i] }, false, "max of {name} {a:?}, {b:?}");
    ensure!((va == vb) == (a == b), "{name} {a:?} == {b:?} is {}", va == vb);
    // one component off is not equal and not almost equal
    let j = s.pick(N);
    let mut c = a;
    c[j] = c[j] + T::two();
    ensure!(va != ctor(c), "{name} {a:?} == {c:?}");
    let want = (0..N).all(|i| a[i].almost_eq(b[i]));
    ensure!(va.almost_eq(vb) == want, "{name} {a:?} almost_eq {b:?} is {}", va.almost_eq(vb));
    let want = (0..N).all(|i| a[i].almost_eq(c[i]));
    ensure!(va.almost_eq(ctor(c)) == want, "{name} {a:?} almost_eq {c:?} is {}", !want);
    ensure!(va.almost_eq(va), "{name} {a:?} is not almost equal to itself");
    ensure!(GenericVector::<T, N, U>::DIM == N, "DIM");
    let _ = (k, dv);
    Ok(if (0..N).any(|i| a[i] != b[i]) { Class::NonTrivial } else { Class::Trivial })
}

macro_rules! kinds {
    ($fname:ident, $t:ty) => {
        fn $fname(s: &mut Src) -> Res {
            match s.pick(7) {
                0 => kind_law::<$t, 2, VectorMarker>(s, "Vector2", |a| Vector2::new(a[0], a[1])),
                1 => kind_law::<$t, 3, VectorMarker>(s, "Vector3", |a| Vector3::new(a[0], a[1], a[2])),
                2 => kind_law::<$t, 4, VectorMarker>(s, "Vector4", |a| Vector4::new(a[0], a[1], a[2], a[3])),
                3 => kind_law::<$t, 2, PointMarker>(s, "Point2", |a| Point2::new(a[0], a[1])),
                4 => kind_law::<$t, 3, PointMarker>(s, "Point3", |a| Point3::new(a[0], a[1], a[2])),
                5 => kind_law::<$t, 3, NormalMarker>(s, "Normal3", |a| Normal3::new(a[0], a[1], a[2])),
                _ => affine_law::<$t>(s),
            }
        }
    };
}

/// scalar products and quotients, and the interplay of points, vectors, normals
fn affine_law<T: Sc + scarlet::math::scalar::SignedScalar>(s: &mut Src) -> Res
{
    let a: [T; 3] = arr(s);
    let b: [T; 3] = arr(s);
    let k = T::gen(s);
    let d = T::divisor(s);
    note!(s, "affine {:?} {:?} scalar {:?} divisor {:?}", a, b, k, d);
    let v = Vector3::new(a[0], a[1], a[2]);
    let w = Vector3::new(b[0], b[1], b[2]);
    let p = Point3::new(a[0], a[1], a[2]);
    let q = Point3::new(b[0], b[1], b[2]);
    comp!((v * k).vec, |i| a[i] * k, false, "vector {a:?} * {k:?}");
    comp!((p * k).vec, |i| a[i] * k, false, "point {a:?} * {k:?}");
    comp!((Normal3::new(a[0], a[1], a[2]) * k).vec, |i| a[i] * k, false, "normal {a:?} * {k:?}");
    comp!((v / d).vec, |i| a[i] / d, true, "vector {a:?} / {d:?}");
    comp!((p / d).vec, |i| a[i] / d, true, "point {a:?} / {d:?}");
    comp!((Normal3::new(a[0], a[1], a[2]) / d).vec, |i| a[i] / d, true, "normal {a:?} / {d:?}");
    let f = [a[0], a[1], a[2], b[0]];
    let v4 = Vector4::new(f[0], f[1], f[2], f[3]);
    comp!((v4 * k).vec, |i| f[i] * k, false, "vector {f:?} * {k:?}");
    comp!((v4 / d).vec, |i| f[i] / d, true, "vector {f:?} / {d:?}");
    let p2 = Point2::new(a[0], b[0]);
    let g = [a[0], b[0]];
    comp!((p2 * k).vec, |i| g[i] * k, false, "point {g:?} * {k:?}");
    comp!((p2 / d).vec, |i| g[i] / d, true, "point {g:?} / {d:?}");
    comp!((v - w).vec, |i| a[i] - b[i], false, "vector {a:?} - {b:?}");
    let mut m = v;
    m -= w;
    comp!(m.vec, |i| a[i] - b[i], false, "vector {a:?} -= {b:?}");
    let disp: Vector3<T> = p - q;
    comp!(disp.vec, |i| a[i] - b[i], false, "point {a:?} - {b:?}");
    let back: Point3<T> = q + disp;
    comp!(back.vec, |i| b[i] + (a[i] - b[i]), false, "point {b:?} + displacement");
    let back: Point3<T> = disp + q;
    comp!(back.vec, |i| (a[i] - b[i]) + b[i], false, "displacement + point {b:?}");
    let minus: Point3<T> = p - w;
    comp!(minus.vec, |i| a[i] - b[i], false, "point {a:?} - vector {b:?}");
    let plus: Point3<T> = p + w;
    comp!(plus.vec, |i| a[i] + b[i], false, "point {a:?} + vector {b:?}");
    comp!(Vector3::from(p).vec, |i| a[i], false, "vector from point {a:?}");
    comp!(Point3::from(v).vec, |i| a[i], false, "point from vector {a:?}");
    comp!(Normal3::from(v).vec, |i| a[i], false, "normal from vector {a:?}");
    comp!(Vector3::from(Normal3::new(a[0], a[1], a[2])).vec, |i| a[i], false, "vector from normal {a:?}");
    Ok(if (0..3).any(|i| a[i] != b[i]) { Class::NonTrivial } else { Class::Trivial })
}
kinds!(kinds_f32, f32);
kinds!(kinds_f64, f64);
kinds!(kinds_i32, i32);
kinds!(kinds_i64, i64);

fn ints<T>(s: &mut Src) -> Res
where
    T: Sc + scarlet::math::scalar::SignedScalar + Into<i64>,
{
    let a: [T; 3] = arr(s);
    let b: [T; 3] = arr(s);
    note!(s, "integer products of {:?} {:?}", a, b);
    let i = |x: T| -> i64 { x.into() };
    let (v, w) = (Vector3::new(a[0], a[1], a[2]), Vector3::new(b[0], b[1], b[2]));
    let d: i64 = (0..3).map(|k| i(a[k]) * i(b[k])).sum();
    ensure!(i(v.dot(w)) == d, "dot of {a:?} and {b:?} = {:?}", v.dot(w));
    let p = Point3::new(b[0], b[1], b[2]);
    ensure!(i(v.dot(p)) == d, "dot of vector {a:?} and point {b:?}");
    let sq: i64 = (0..3).map(|k| i(a[k]) * i(a[k])).sum();
    ensure!(i(Norm::square_norm(v)) == sq, "square norm of {a:?}");
    let sd: i64 = (0..3).map(|k| (i(a[k]) - i(b[k])).pow(2)).sum();
    ensure!(i(Norm::square_distance(v, w)) == sd, "square distance of {a:?} and {b:?}");
    let c = v.cross(w);
    let e = [
        i(a[1]) * i(b[2]) - i(a[2]) * i(b[1]),
        i(a[2]) * i(b[0]) - i(a[0]) * i(b[2]),
        i(a[0]) * i(b[1]) - i(a[1]) * i(b[0]),
    ];
    ensure!((0..3).all(|k| i(c[k]) == e[k]), "cross of {a:?} and {b:?} = {:?}", c.vec);
    Ok(if sd != 0 { Class::NonTrivial } else { Class::Trivial })
}

/// dot products, norms, cross products, normalisation over floats
fn metric<T: Fl, const N: usize, U>(s: &mut Src, name: &str) -> Res
where
    GenericVector<T, N, U>: std::fmt::Debug,
{
    let scale = [1.0, 100.0, 1e6, 1e12, 1e-6, 1e-12][s.weighted(&[4, 4, 1, 1, 1, 1])];
    let mut a = [T::t(0.0); N];
    let mut b = [T::t(0.0); N];
    for i in 0..N {
        a[i] = num(s, scale);
        b[i] = num(s, scale);
    }
    if s.chance(1, 8) {
        b = a;
    }
    note!(s, "{name} {:?} {:?}", a, b);
    let (va, vb) = (GenericVector::<T, N, U>::from(a), GenericVector::<T, N, U>::from(b));
    let sum = |f: &dyn Fn(usize) -> (T::R, T::R)| -> (T::R, f64) {
        let mut x = T::R::of(0.0);
        let mut m = 0.0;
        for i in 0..N {
            let (u, v) = f(i);
            x = x + u * v;
            m += (u * v).abs().f64();
        }
        (x, m)
    };
    let tol = |m: f64| 16.0 * T::EPS * m + 16.0 * T::tiny().d();
    let near = |g: T, w: T::R, m: f64| (g.r() - w).abs().f64() <= tol(m);
    let (d, m) = sum(&|i| (a[i].r(), b[i].r()));
    ensure!(near(va.dot(vb), d, m), "dot of {a:?} and {b:?} = {:?}, exactly {:?}", va.dot(vb), d);
    let vw = Vector::<T, N>::from(b);
    ensure!(near(va.dot(vw), d, m), "dot across kinds of {a:?} and {b:?} = {:?}", va.dot(vw));
    let (q, m) = sum(&|i| (a[i].r(), a[i].r()));
    let (got, again) = (Norm::square_norm(va), va.square_norm());
    ensure!(near(got, q, m), "square norm of {a:?} = {:?}, exactly {:?}", got, q);
    ensure!(near(again, q, m), "inherent square norm of {a:?} = {:?}, exactly {:?}", again, q);
    let (n, n2) = (Norm::norm(va), va.norm());
    let w = q.sqrt();
    let floor = if T::NAME == "f32" { 1e-15 } else { 1e-140 };
    if w.f64() >= floor || w.f64() == 0.0 {
        ensure!((n.r() - w).abs().f64() <= 16.0 * T::EPS * w.f64(), "norm of {a:?} = {:?}, exactly {:?}", n, w);
        ensure!((n2.r() - w).abs().f64() <= 16.0 * T::EPS * w.f64(), "inherent norm of {a:?} = {:?}, exactly {:?}", n2, w);
    }
    #[allow(clippy::clone_on_copy)]
    let c = va.clone();
    ensure!(c.vec.iter().zip(a.iter()).all(|(x, y)| x.bits() == y.bits()), "the clone of {a:?} is {:?}", c.vec);
    Ok(if w.f64() > 0.0 { Class::NonTrivial } else { Class::Trivial })
}
fn metrics<T: Fl>(s: &mut Src) -> Res {
    match s.pick(6) {
        0 => metric::<T, 2, VectorMarker>(s, "Vector2"),
        1 => metric::<T, 3, VectorMarker>(s, "Vector3"),
        2 => metric::<T, 4, VectorMarker>(s, "Vector4"),
        3 => metric::<T, 2, PointMarker>(s, "Point2"),
        4 => metric::<T, 3, PointMarker>(s, "Point3"),
        _ => metric::<T, 3, NormalMarker>(s, "Normal3"),
    }
}

fn distances<T: Fl>(s: &mut Src) -> Res {
    let u = units(s);
    let a: [T; 3] = v3(s, 1000.0 * u);
    let b: [T; 3] = v3(s, 1000.0 * u);
    note!(s, "distance of {:?} {:?}", a, b);
    let (va, vb) = (vec3(a), vec3(b));
    let mut q = T::R::of(0.0);
    let mut m = 0.0;
    for i in 0..3 {
        let e = a[i].r() - b[i].r();
        q = q + e * e;
        m += (e * e).f64();
    }
    for sd in [Norm::square_distance(va, vb), va.square_distance(vb)] {
        ensure!((sd.r() - q).abs().f64() <= 24.0 * T::EPS * m + 16.0 * T::tiny().d(), "square distance of {a:?} and {b:?} = {:?}, exactly {:?}", sd, q);
    }
    let w = q.sqrt();
    if w.f64() > 1e-15 || w.f64() == 0.0 {
        for d in [Norm::distance(va, vb), va.distance(vb)] {
            ensure!((d.r() - w).abs().f64() <= 24.0 * T::EPS * w.f64(), "distance of {a:?} and {b:?} = {:?}, exactly {:?}", d, w);
        }
    }
    Ok(if m > 0.0 { Class::NonTrivial } else { Class::Trivial })
}

fn crosses<T: Fl>(s: &mut Src) -> Res {
    let scale = [1.0, 100.0, 1e6, 1e-6][s.weighted(&[4, 4, 1, 1])];
    let a: [T; 3] = v3(s, scale);
    let b: [T; 3] = match s.weighted(&[6, 1, 1]) {
        0 => v3(s, scale),
        1 => a,
        _ => {
            // nearly parallel
            let k = s.uni(-2.0, 2.0);
            [T::t(a[0].d() * k), T::t(a[1].d() * k), T::t(a[2].d() * k)]
        }
    };
    note!(s, "cross {:?} {:?}", a, b);
    let form = s.pick(3);
    let c: [T; 3] = match form {
        0 => vec3(a).cross(vec3(b)).vec,
        1 => nr3(a).cross(nr3(b)).vec,
        _ => (-vec3(b).cross(vec3(a))).vec,
    };
    for i in 0..3 {
        let (j, k) = ((i + 1) % 3, (i + 2) % 3);
        let (x, y) = (a[j].r() * b[k].r(), a[k].r() * b[j].r());
        let w = x - y;
        let tol = 8.0 * T::EPS * (x.abs().f64() + y.abs().f64()) + 8.0 * T::tiny().d();
        ensure!((c[i].r() - w).abs().f64() <= tol, "component {i} of {a:?} x {b:?} = {:?}, exactly {:?}", c[i], w);
    }
    let n = norm(cross(d3(a), d3(b)));
    Ok(if n > 0.0 { Class::NonTrivial } else { Class::Trivial })
}

fn normalise<T: Fl, const N: usize, U>(s: &mut Src, name: &str) -> Res
where
    GenericVector<T, N, U>: std::fmt::Debug,
{
    // lengths from 1e-15 to 1e15
    let mut a = [T::t(0.0); N];
    let mag = 10f64.powf(if s.chance(1, 2) { s.uni(-1.0, 1.0) } else { s.uni(-15.0, 14.5) });
    for x in a.iter_mut() {
        *x = T::t(num::<T>(s, 1.0).d() * mag);
    }
    let k = s.pick(N);
    if a[k].d().abs() < 0.1 * mag {
        a[k] = T::t(mag);
    }
    note!(s, "normalise {name} {:?}", a);
    let va = GenericVector::<T, N, U>::from(a);
    let n = if s.chance(1, 2) { Norm::normalize(va) } else { va.normalize() };
    let mut q = T::R::of(0.0);
    for x in a.iter() {
        q = q + x.r() * x.r();
    }
    let w = q.sqrt();
    let mut l = T::R::of(0.0);
    for i in 0..N {
        let e = a[i].r() / w;
        let tol = 16.0 * T::EPS * e.abs().f64() + 4.0 * T::tiny().d();
        ensure!((n.vec[i].r() - e).abs().f64() <= tol, "normalised {name} {a:?} = {:?}, component {i} should be {:?}", n.vec, e);
        l = l + n.vec[i].r() * n.vec[i].r();
    }
    ensure!((l.f64() - 1.0).abs() <= 48.0 * T::EPS, "normalised {name} {a:?} = {:?} has squared length {:?}", n.vec, l);
    Ok(Class::NonTrivial)
}
fn normals<T: Fl>(s: &mut Src) -> Res {
    match s.pick(4) {
        0 => normalise::<T, 2, VectorMarker>(s, "Vector2"),
        1 => normalise::<T, 3, VectorMarker>(s, "Vector3"),
        2 => normalise::<T, 4, VectorMarker>(s, "Vector4"),
        _ => normalise::<T, 3, NormalMarker>(s, "Normal3"),
    }
}

pub fn c06() -> Property {
    Property {
        id: "C06",
        rule: "non-trivial = the two operands differ (component laws, integers, distances), non-zero length (norms, cross products, normalisation)",
        laws: vec![
            Law { name: "components f32", quick: 3_000_000, f: kinds_f32 },
            Law { name: "components f64", quick: 3_000_000, f: kinds_f64 },
            Law { name: "components i32", quick: 2_000_000, f: kinds_i32 },
            Law { name: "components i64", quick: 1_000_000, f: kinds_i64 },
            Law { name: "integer products i32", quick: 2_000_000, f: ints::<i32> },
            Law { name: "integer products i64", quick: 1_000_000, f: ints::<i64> },
            Law { name: "norms and dots f32", quick: 3_000_000, f: metrics::<f32> },
            Law { name: "norms and dots f64", quick: 1_500_000, f: metrics::<f64> },
            Law { name: "distances f32", quick: 2_000_000, f: distances::<f32> },
            Law { name: "distances f64", quick: 1_000_000, f: distances::<f64> },
            Law { name: "cross f32", quick: 3_000_000, f: crosses::<f32> },
            Law { name: "cross f64", quick: 1_500_000, f: crosses::<f64> },
            Law { name: "normalise f32", quick: 3_000_000, f: normals::<f32> },
            Law { name: "normalise f64", quick: 1_500_000, f: normals::<f64> },
        ],
        sweeps: vec![],
        findings: vec![],
        assumptions: &[
            "sums, differences and products of components are judged exactly, quotients within 4 ulps, sums of products within 16 roundings of the sum of magnitudes",
        ],
    }
}

// ---------------------------------------------------------------------- C07

type IV<T> = Interval<T>;

fn iv3<T: Fl>(s: &mut Src, scale: f64) -> ([IV<T>; 3], [T; 3]) {
    let mut a = [IV::<T> { inf: T::t(0.0), sup: T::t(0.0) }; 3];
    let mut x = [T::t(0.0); 3];
    let exact = s.chance(1, 4);
    for i in 0..3 {
        a[i] = if exact {
            let v: T = num(s, scale);
            IV { inf: v, sup: v }
        } else {
            interval_num(s, scale)
        };
        x[i] = point_in(s, a[i]);
    }
    (a, x)
}

/// exact value `v` with magnitude of terms `m`
fn holds<T: Fl>(i: IV<T>, v: T::R, m: f64) -> bool {
    let e = T::R::of(m * 32.0 * <T::R as Real>::U);
    i.inf <= i.sup
        && !(i.inf.d() > f64::NEG_INFINITY && v + e < i.inf.r())
        && !(i.sup.d() < f64::INFINITY && v - e > i.sup.r())
}

macro_rules! inside {
    ($i:expr, $v:expr, $m:expr, $($t:tt)*) => {
        let (i, v) = ($i, $v);
        ensure!(holds(i, v, $m), "{}: {} does not contain {:?}", format!($($t)*), show(&i), v);
    };
}

fn shows<T: Fl>(a: &[IV<T>; 3]) -> String {
    format!("({}, {}, {})", show(&a[0]), show(&a[1]), show(&a[2]))
}

fn lifted<T: Fl>(s: &mut Src) -> Res {
    let scale = [2.0, 100.0][s.pick(2)];
    let (a, x) = iv3::<T>(s, scale);
    let (b, y) = iv3::<T>(s, scale);
    let ki = interval_num::<T>(s, 4.0);
    let k = point_in(s, ki);
    let kf: T = num(s, 4.0);
    note!(s, "{} at {:?}; {} at {:?}; k {} at {:?}; scalar {:?}", shows(&a), x, shows(&b), y, show(&ki), k, kf);
    let (xr, yr) = ([x[0].r(), x[1].r(), x[2].r()], [y[0].r(), y[1].r(), y[2].r()]);
    let va = Vector3::new(a[0], a[1], a[2]);
    let vb = Vector3::new(b[0], b[1], b[2]);
    let pa = Point3::new(a[0], a[1], a[2]);
    let pb = Point3::new(b[0], b[1], b[2]);
    for i in 0..3 {
        inside!((va + vb)[i], xr[i] + yr[i], 0.0, "component {i} of the sum");
        inside!((pa + vb)[i], xr[i] + yr[i], 0.0, "component {i} of point plus vector");
        inside!((va - vb)[i], xr[i] - yr[i], 0.0, "component {i} of the difference");
        inside!((pa - pb)[i], xr[i] - yr[i], 0.0, "component {i} of the point difference");
        inside!((-va)[i], -xr[i], 0.0, "component {i} of the negation");
        inside!((va * ki)[i], xr[i] * k.r(), 0.0, "component {i} scaled by an interval");
        inside!((va * kf)[i], xr[i] * kf.r(), 0.0, "component {i} scaled by a float");
        inside!((va * vb)[i], xr[i] * yr[i], 0.0, "component {i} of the component product");
        inside!((va.min(vb))[i], xr[i].min(yr[i]), 0.0, "component {i} of min");
        inside!((va.max(vb))[i], xr[i].max(yr[i]), 0.0, "component {i} of max");
        if kf.d() != 0.0 {
            inside!((va / kf)[i], xr[i] / kf.r(), 0.0, "component {i} divided by a float");
        }
        if k.d() != 0.0 {
            inside!((va / ki)[i], xr[i] / k.r(), 0.0, "component {i} divided by an interval");
        }
        let (j, l) = ((i + 1) % 3, (i + 2) % 3);
        let (u, v) = (xr[j] * yr[l], xr[l] * yr[j]);
        inside!(va.cross(vb)[i], u - v, u.abs().f64() + v.abs().f64(), "component {i} of the cross product");
    }
    let mut d = T::R::of(0.0);
    let mut m = 0.0;
    let mut q = T::R::of(0.0);
    let mut e = T::R::of(0.0);
    for i in 0..3 {
        d = d + xr[i] * yr[i];
        m += (xr[i] * yr[i]).abs().f64();
        q = q + xr[i] * xr[i];
        let g = xr[i] - yr[i];
        e = e + g * g;
    }
    inside!(va.dot(vb), d, m, "dot product");
    inside!(Norm::square_norm(va), q, q.f64(), "square norm");
    inside!(Norm::norm(va), q.sqrt(), q.sqrt().f64(), "norm");
    inside!(Norm::square_distance(va, vb), e, e.f64() * 4.0, "square distance");
    inside!(Norm::distance(va, vb), e.sqrt(), e.sqrt().f64() * 4.0, "distance");
    if q.f64() > 1e-20 {
        let n = Norm::normalize(va);
        for i in 0..3 {
            inside!(n[i], xr[i] / q.sqrt(), 1.0, "component {i} of the normalised vector");
        }
    }
    // dropping back
    let p: Vector3<T> = Vector3::from(va);
    for i in 0..3 {
        ensure!(a[i].contains(p[i]), "dropping {} gives {:?}", shows(&a), p.vec);
    }
    let l: Vector3<IV<T>> = Vector3::from(vec3(x));
    let back: Vector3<T> = Vector3::from(l);
    for i in 0..3 {
        ensure!(l[i].inf == x[i] && l[i].sup == x[i] && back[i] == x[i], "lifting {:?} and dropping gives {:?}", x, back.vec);
    }
    let wide = (0..3).any(|i| a[i].inf < a[i].sup || b[i].inf < b[i].sup);
    Ok(if wide { Class::NonTrivial } else { Class::Trivial })
}

/// an affine float transform of moderate size
fn transform<T: Fl>(s: &mut Src) -> Transform<T> {
    crate::laws::xf::history::<T>(s, 3, false).t
}

fn mapped<T: Fl>(s: &mut Src) -> Res {
    let t: Transform<T> = transform(s);
    let (a, x) = iv3::<T>(s, 10.0);
    let (b, y) = iv3::<T>(s, 10.0);
    let ti = {
        let i = interval_num::<T>(s, 10.0);
        IV { inf: T::t(i.inf.d().abs().min(i.sup.d().abs())), sup: T::t(i.inf.d().abs().max(i.sup.d().abs())) }
    };
    let tp = point_in(s, ti);
    let inverse = s.chance(1, 2);
    note!(
        s,
        "transform {:?}, inverse {}; origin {} at {:?}; direction {} at {:?}; t {} at {:?}",
        t.matrix().data,
        inverse,
        shows(&a),
        x,
        shows(&b),
        y,
        show(&ti),
        tp
    );
    let ray = Ray::new(Point3::new(a[0], a[1], a[2]), Vector3::new(b[0], b[1], b[2]), ti);
    let e = ray.eval(ti);
    for i in 0..3 {
        let m = x[i].d().abs() + (y[i].d() * tp.d()).abs();
        inside!(e[i], x[i].r() + y[i].r() * tp.r(), m, "component {i} of the ray at t");
    }
    let m = if inverse { t.inverse_matrix() } else { t.matrix() };
    let nm = if inverse { t.matrix() } else { t.inverse_matrix() };
    let (pt, vc) = (ray.origin, ray.direction);
    let nr = Normal3::new(b[0], b[1], b[2]);
    let (mp, mv, mn, mr): (Point3<IV<T>>, Vector3<IV<T>>, Normal3<IV<T>>, Ray<IV<T>>) = if inverse {
        (t.map_inverse(pt), t.map_inverse(vc), t.map_inverse(nr), t.map_inverse(ray))
    } else {
        (t.map(pt), t.map(vc), t.map(nr), t.map(ray))
    };
    for i in 0..3 {
        let mut v = T::R::of(0.0);
        let mut p = m.data[i][3].r();
        let mut n = T::R::of(0.0);
        let (mut av, mut ap, mut an) = (0.0, m.data[i][3].d().abs(), 0.0);
        for j in 0..3 {
            let q = m.data[i][j].r() * y[j].r();
            v = v + q;
            av += q.abs().f64();
            let q = m.data[i][j].r() * x[j].r();
            p = p + q;
            ap += q.abs().f64();
            let q = nm.data[j][i].r() * y[j].r();
            n = n + q;
            an += q.abs().f64();
        }
        inside!(mp[i], p, ap, "component {i} of the mapped point");
        inside!(mv[i], v, av, "component {i} of the mapped vector");
        inside!(mn[i], n, an, "component {i} of the mapped normal");
        inside!(mr.origin[i], p, ap, "component {i} of the mapped ray's origin");
        inside!(mr.direction[i], v, av, "component {i} of the mapped ray's direction");
    }
    ensure!(mr.tmax.inf == ti.inf && mr.tmax.sup == ti.sup, "the extent of the mapped ray is {}", show(&mr.tmax));
    let wide = (0..3).any(|i| a[i].inf < a[i].sup || b[i].inf < b[i].sup);
    Ok(if wide { Class::NonTrivial } else { Class::Trivial })
}

/// interval-valued transforms: constructors applied to interval parameters
fn interval_transform<T: Fl>(s: &mut Src) -> Res {
    let (a, x) = iv3::<T>(s, 4.0);
    let (b, y) = iv3::<T>(s, 10.0);
    let k = s.pick(5);
    let ang = {
        let c: T = angle(s, 10.0);
        let w = if s.chance(1, 2) { 0.0 } else { s.uni(0.0, 0.5) };
        mk(c, T::t(c.d() + w))
    };
    let th = point_in(s, ang);
    note!(s, "interval constructor {k} {} at {:?}, angle {} at {:?}, point {} at {:?}", shows(&a), x, show(&ang), th, shows(&b), y);
    let v = Vector3::new(a[0], a[1], a[2]);
    let t: Transform<IV<T>> = match k {
        0 => Transform::translate(v),
        1 => Transform::scale(v),
        2 => Transform::rotate_x(ang),
        3 => Transform::rotate_y(ang),
        _ => Transform::rotate_z(ang),
    };
    let th = th.q();
    let (sn, cs) = (Real::sin(th), Real::cos(th));
    let yq = [y[0].q(), y[1].q(), y[2].q()];
    let xq = [x[0].q(), x[1].q(), x[2].q()];
    let want = match k {
        0 => [yq[0] + xq[0], yq[1] + xq[1], yq[2] + xq[2]],
        1 => [yq[0] * xq[0], yq[1] * xq[1], yq[2] * xq[2]],
        2 => [yq[0], cs * yq[1] - sn * yq[2], sn * yq[1] + cs * yq[2]],
        3 => [cs * yq[0] + sn * yq[2], yq[1], cs * yq[2] - sn * yq[0]],
        _ => [cs * yq[0] - sn * yq[1], sn * yq[0] + cs * yq[1], yq[2]],
    };
    // the matrix applied by interval arithmetic of its own
    let m = t.matrix();
    for i in 0..3 {
        let mut acc = m.data[i][3];
        for j in 0..3 {
            acc += m.data[i][j] * b[j];
        }
        let w = want[i];
        let e = Q::of(1e-28);
        ensure!(
            acc.inf <= acc.sup && !(w + e < acc.inf.q()) && !(w - e > acc.sup.q()),
            "component {i} of the interval transform: {} does not contain {:?}",
            show(&acc),
            w
        );
    }
    let wide = (0..3).any(|i| a[i].inf < a[i].sup) || ang.inf < ang.sup;
    Ok(if wide { Class::NonTrivial } else { Class::Trivial })
}

pub fn c07() -> Property {
    Property {
        id: "C07",
        rule: "non-trivial = some component interval (or parameter) has distinct bounds",
        laws: vec![
            Law { name: "lifted algebra f32", quick: 2_000_000, f: lifted::<f32> },
            Law { name: "lifted algebra f64", quick: 600_000, f: lifted::<f64> },
            Law { name: "rays and transforms f32", quick: 1_500_000, f: mapped::<f32> },
            Law { name: "rays and transforms f64", quick: 500_000, f: mapped::<f64> },
            Law { name: "interval transforms f32", quick: 500_000, f: interval_transform::<f32> },
            Law { name: "interval transforms f64", quick: 500_000, f: interval_transform::<f64> },
        ],
        sweeps: vec![],
        findings: vec![],
        assumptions: &["transforms are affine with a last row of 0 0 0 1; the mapped point is judged against the transform's own stored matrix"],
    }
}
