//! C08-C12: matrices and transforms.
use crate::engine::*;
use crate::gen::*;
use crate::quad::{Real, Q};
use crate::{ensure, note};
use scarlet::geometry::ray::Ray;
use scarlet::math::interval::Interval;
use scarlet::math::scalar::{AlmostEqual, Scalar};
use scarlet::math::transform::{Invertible, Matrix4x4, Transform, TransformMap};
use scarlet::math::vector::{Normal3, Point3, Vector3};

pub type M4<R> = [[R; 4]; 4];

pub fn ident<R: Real>() -> M4<R> {
    let mut m = [[R::of(0.0); 4]; 4];
    for (i, r) in m.iter_mut().enumerate() {
        r[i] = R::of(1.0);
    }
    m
}
pub fn mm<R: Real>(a: &M4<R>, b: &M4<R>) -> M4<R> {
    let mut m = [[R::of(0.0); 4]; 4];
    for i in 0..4 {
        for j in 0..4 {
            for k in 0..4 {
                m[i][j] = m[i][j] + a[i][k] * b[k][j];
            }
        }
    }
    m
}
pub fn mv<R: Real>(a: &M4<R>, v: [R; 4]) -> [R; 4] {
    let mut r = [R::of(0.0); 4];
    for i in 0..4 {
        for k in 0..4 {
            r[i] = r[i] + a[i][k] * v[k];
        }
    }
    r
}
pub fn transposed<R: Copy>(a: &M4<R>) -> M4<R> {
    let mut m = *a;
    for i in 0..4 {
        for j in 0..4 {
            m[i][j] = a[j][i];
        }
    }
    m
}
pub fn real<T: Fl>(a: &M4<T>) -> M4<T::R> {
    a.map(|r| r.map(|x| x.r()))
}
fn absm<T: Fl>(a: &M4<T>) -> M4<f64> {
    a.map(|r| r.map(|x| x.d().abs()))
}
fn bad<T: Fl>(got: &M4<T>, want: &M4<T::R>, tol: impl Fn(usize, usize) -> f64) -> Option<String> {
    for i in 0..4 {
        for j in 0..4 {
            let e = (got[i][j].r() - want[i][j]).abs().f64();
            if !(e <= tol(i, j) + 1e-37) {
                return Some(format!("entry ({i}, {j}) is {:?}, should be {:?}", got[i][j], want[i][j]));
            }
        }
    }
    None
}

// ------------------------------------------------------------- histories

/// A transform under test next to its meaning.
#[derive(Clone, Copy)]
pub struct Hist<T: Fl> {
    pub t: Transform<T>,
    pub m: M4<T::R>,
    pub mi: M4<T::R>,
    /// products of magnitude bounds of the factors
    pub am: M4<f64>,
    pub ami: M4<f64>,
    pub n: f64,
}

impl<T: Fl> Hist<T> {
    pub fn inverse(&self) -> Hist<T> {
        Hist { t: self.t.inverse(), m: self.mi, mi: self.m, am: self.ami, ami: self.am, n: self.n }
    }
    pub fn times(&self, o: &Hist<T>) -> Hist<T> {
        Hist {
            t: self.t * o.t,
            m: mm(&self.m, &o.m),
            mi: mm(&o.mi, &self.mi),
            am: mm(&self.am, &o.am),
            ami: mm(&o.ami, &self.ami),
            n: self.n + o.n + 1.0,
        }
    }
    /// absolute error allowed for an entry of the matrix
    pub fn eps(&self) -> f64 {
        24.0 * T::EPS * (self.n + 1.0)
    }
}

fn rows<R: Real>(r: [[R; 3]; 3], t: [R; 3]) -> M4<R> {
    let (o, l) = (R::of(0.0), R::of(1.0));
    [
        [r[0][0], r[0][1], r[0][2], t[0]],
        [r[1][0], r[1][1], r[1][2], t[1]],
        [r[2][0], r[2][1], r[2][2], t[2]],
        [o, o, o, l],
    ]
}
fn ones(t: [f64; 3]) -> M4<f64> {
    rows([[1.0; 3]; 3], t)
}

pub fn rodrigues<R: Real>(axis: [R; 3], angle: R) -> [[R; 3]; 3] {
    let n = (axis[0] * axis[0] + axis[1] * axis[1] + axis[2] * axis[2]).sqrt();
    let u = [axis[0] / n, axis[1] / n, axis[2] / n];
    let (s, c) = (angle.sin(), angle.cos());
    let k = R::of(1.0) - c;
    let mut m = [[R::of(0.0); 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            m[i][j] = u[i] * u[j] * k;
            if i == j {
                m[i][j] = m[i][j] + c;
            }
        }
    }
    // cross product matrix
    m[0][1] = m[0][1] - u[2] * s;
    m[0][2] = m[0][2] + u[1] * s;
    m[1][0] = m[1][0] + u[2] * s;
    m[1][2] = m[1][2] - u[0] * s;
    m[2][0] = m[2][0] - u[1] * s;
    m[2][1] = m[2][1] + u[0] * s;
    m
}
fn tr3<R: Copy>(a: [[R; 3]; 3]) -> [[R; 3]; 3] {
    let mut m = a;
    for i in 0..3 {
        for j in 0..3 {
            m[i][j] = a[j][i];
        }
    }
    m
}

/// A rotation axis: any direction, along or close to a coordinate axis, of
/// any length.
pub fn axis_of<T: Fl>(s: &mut Src) -> [T; 3] {
    let a: [T; 3] = match s.weighted(&[6, 1, 2]) {
        0 => dir(s, 0.1, 10.0),
        1 => dir(s, 1e-14, 1e14),
        _ => {
            // small components beside a large one
            let mut v = [0.0; 3];
            let k = s.pick(3);
            v[k] = if s.chance(1, 2) { -1.0 } else { 1.0 };
            for i in [1, 2] {
                if s.chance(2, 3) {
                    let e = 10f64.powf(s.uni(-7.0, -1.0));
                    v[(k + i) % 3] = if s.chance(1, 2) { -e } else { e };
                }
            }
            t3(v)
        }
    };
    a
}

pub fn moved<T: Fl>(v: [T; 3]) -> Hist<T> {
    let (z, one) = (T::R::of(0.0), T::R::of(1.0));
    let id3 = [[one, z, z], [z, one, z], [z, z, one]];
    let r = v.map(|x| x.r());
    let id = rows([[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]], v.map(|x| x.d().abs()));
    Hist { t: Transform::translate(vec3(v)), m: rows(id3, r), mi: rows(id3, r.map(|x| -x)), am: id, ami: id, n: 0.0 }
}

pub fn scaled<T: Fl>(v: [T; 3]) -> Hist<T> {
    let (z, one) = (T::R::of(0.0), T::R::of(1.0));
    let d = |f: &dyn Fn(T) -> T::R| [[f(v[0]), z, z], [z, f(v[1]), z], [z, z, f(v[2])]];
    let a = |f: &dyn Fn(f64) -> f64| [[f(v[0].d().abs()), 0.0, 0.0], [0.0, f(v[1].d().abs()), 0.0], [0.0, 0.0, f(v[2].d().abs())]];
    Hist {
        t: Transform::scale(vec3(v)),
        m: rows(d(&|x| x.r()), [z; 3]),
        mi: rows(d(&|x| one / x.r()), [z; 3]),
        am: rows(a(&|x| x), [0.0; 3]),
        ami: rows(a(&|x| 1.0 / x), [0.0; 3]),
        n: 1.0,
    }
}

pub fn turned<T: Fl>(axis: [T; 3], th: T) -> Hist<T> {
    let z = T::R::of(0.0);
    let r = rodrigues(axis.map(|x| x.r()), th.r());
    Hist { t: Transform::rotate(vec3(axis), th), m: rows(r, [z; 3]), mi: rows(tr3(r), [z; 3]), am: ones([0.0; 3]), ami: ones([0.0; 3]), n: 1.0 }
}

pub fn leaf<T: Fl>(s: &mut Src, rigid: bool) -> Hist<T> {
    let z = T::R::of(0.0);
    let kind = if rigid {
        [0usize, 2, 3, 4, 5, 6][s.pick(6)]
    } else {
        s.weighted(&[4, 4, 2, 2, 2, 4, 2, 2, 1])
    };
    match kind {
        0 => {
            let u = units(s);
            let v: [T; 3] = v3(s, 10.0 * u);
            note!(s, "translate {:?}", v);
            moved(v)
        }
        1 => {
            let mut v = [T::t(1.0); 3];
            let uni = s.chance(1, 4);
            let wide = s.chance(1, 8);
            for i in 0..3 {
                let x: T = if wide { pos(s, 1e-4, 1e4) } else { pos(s, 0.25, 4.0) };
                v[i] = if uni && i > 0 { v[0] } else { x };
                if s.chance(1, 4) {
                    v[i] = -v[i];
                }
            }
            note!(s, "scale {:?}", v);
            scaled(v)
        }
        2..=5 => {
            let th: T = angle(s, 50.0);
            let axis: [T; 3] = match kind {
                2 => t3([1.0, 0.0, 0.0]),
                3 => t3([0.0, 1.0, 0.0]),
                4 => t3([0.0, 0.0, 1.0]),
                _ => axis_of(s),
            };
            note!(s, "rotate {} axis {:?} angle {:?}", ["x", "y", "z", "general"][kind - 2], axis, th);
            let t = match kind {
                2 => Transform::rotate_x(th),
                3 => Transform::rotate_y(th),
                4 => Transform::rotate_z(th),
                _ => Transform::rotate(vec3(axis), th),
            };
            let r = rodrigues(axis.map(|x| x.r()), th.r());
            Hist {
                t,
                m: rows(r, [z; 3]),
                mi: rows(tr3(r), [z; 3]),
                am: ones([0.0; 3]),
                ami: ones([0.0; 3]),
                n: 1.0,
            }
        }
        6 => {
            let (eye, target, up, _) = {
                let u = units(s);
                view_params::<T>(s, 10.0 * u, 0.3)
            };
            note!(s, "look_at {:?} {:?} {:?}", eye, target, up);
            look_at_ref(eye, target, up)
        }
        7 => {
            let i = s.pick(3);
            let j = (i + 1 + s.pick(2)) % 3;
            let k: T = num(s, 1.5);
            note!(s, "shear ({i}, {j}) {:?}", k);
            let mut m = Matrix4x4::<T>::identity();
            let mut mi = m;
            m[(i, j)] = k;
            mi[(i, j)] = -k;
            let mut a = absm(&m.data);
            a[i][j] = k.d().abs();
            Hist { t: Transform::new(m, mi), m: real(&m.data), mi: real(&mi.data), am: a, ami: a, n: 0.0 }
        }
        _ => {
            note!(s, "identity");
            Hist { t: Transform::identity(), m: ident(), mi: ident(), am: ident(), ami: ident(), n: 0.0 }
        }
    }
}

/// eye, target, up with sin(angle between) >= smin
pub fn view_params<T: Fl>(s: &mut Src, scale: f64, smin: f64) -> ([T; 3], [T; 3], [T; 3], f64) {
    let eye: [T; 3] = v3(s, scale);
    let d = dir::<T>(s, if scale < 1.0 { 0.2 * scale } else { 0.2 }, if scale < 1.0 { scale } else { scale.max(0.3) });
    let mut target: [T; 3] = t3(add(d3(eye), d3(d)));
    if norm(sub(d3(target), d3(eye))) < 1e-10 {
        // the step was rounded away
        target[2] = T::t(eye[2].d() + scale.max(1.0));
    }
    let mut up: [T; 3] = match s.weighted(&[3, 4]) {
        0 => {
            let mut u = [T::t(0.0); 3];
            u[s.pick(3)] = T::t(if s.chance(1, 3) { -1.0 } else { 1.0 });
            u
        }
        _ => axis_of(s),
    };
    let f = sub(d3(target), d3(eye));
    let sin = |u: V3| norm(cross(u, f)) / (norm(u) * norm(f));
    if !(sin(d3(up)) >= smin) {
        // the axis least aligned with the view
        let mut k = 0;
        for i in 1..3 {
            if f[i].abs() < f[k].abs() {
                k = i;
            }
        }
        up = [T::t(0.0); 3];
        up[k] = T::t(1.0);
    }
    let sn = sin(d3(up));
    (eye, target, up, sn)
}

fn cross_r<R: Real>(a: [R; 3], b: [R; 3]) -> [R; 3] {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
fn dot_r<R: Real>(a: [R; 3], b: [R; 3]) -> R {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
fn unit_r<R: Real>(a: [R; 3]) -> [R; 3] {
    let n = dot_r(a, a).sqrt();
    [a[0] / n, a[1] / n, a[2] / n]
}

pub fn look_at_ref<T: Fl>(eye: [T; 3], target: [T; 3], up: [T; 3]) -> Hist<T> {
    let (e, t, u) = (eye.map(|x| x.r()), target.map(|x| x.r()), up.map(|x| x.r()));
    let z = unit_r([e[0] - t[0], e[1] - t[1], e[2] - t[2]]);
    let x = unit_r(cross_r(u, z));
    let y = cross_r(z, x);
    let sn = {
        let (a, b) = (sub(d3(target), d3(eye)), d3(up));
        norm(cross(a, b)) / (norm(a) * norm(b))
    };
    let len = norm(d3(eye));
    Hist {
        t: Transform::look_at(pt3(eye), pt3(target), vec3(up)),
        m: rows([x, y, z], [-dot_r(x, e), -dot_r(y, e), -dot_r(z, e)]),
        mi: rows(tr3([x, y, z]), e),
        am: ones([len; 3]),
        ami: ones(eye.map(|x| x.d().abs())),
        // conditioning of the basis
        n: 1.0 + 2.0 / sn,
    }
}

pub fn history<T: Fl>(s: &mut Src, max: u64, rigid: bool) -> Hist<T> {
    let mut h = leaf::<T>(s, rigid);
    let steps = s.below(max);
    for _ in 0..steps {
        match s.weighted(&[4, 3, 2, 1]) {
            0 => {
                let l = leaf::<T>(s, rigid);
                note!(s, "(on the left)");
                h = l.times(&h);
            }
            1 => {
                let l = leaf::<T>(s, rigid);
                note!(s, "(on the right)");
                h = h.times(&l);
            }
            2 => {
                note!(s, "inverse");
                h = h.inverse();
            }
            _ => {
                let a = leaf::<T>(s, rigid);
                let b = leaf::<T>(s, rigid);
                note!(s, "(times the inverse of the product of the last two)");
                h = h.times(&a.times(&b).inverse());
            }
        }
    }
    h
}

// ---------------------------------------------------------------------- C08

fn mat_int<T>(s: &mut Src) -> Res
where
    T: crate::laws::vec::Sc + Into<i64> + AlmostEqual,
{
    let mut a = [[T::zero(); 4]; 4];
    let mut b = a;
    for i in 0..4 {
        for j in 0..4 {
            a[i][j] = T::gen(s);
            b[i][j] = T::gen(s);
        }
    }
    let k = T::gen(s);
    note!(s, "integer matrices {:?} {:?} scalar {:?}", a, b, k);
    let (ma, mb) = (Matrix4x4::from(a), Matrix4x4::from(b));
    let i = |x: T| -> i64 { x.into() };
    let p = ma * mb;
    let kk = ma * k;
    let t = ma.transpose();
    let tt = mb.transpose() * ma.transpose();
    for r in 0..4 {
        for c in 0..4 {
            let w: i64 = (0..4).map(|j| i(a[r][j]) * i(b[j][c])).sum();
            ensure!(i(p.data[r][c]) == w, "product entry ({r}, {c}) of {a:?} and {b:?} is {:?}, should be {w}", p.data[r][c]);
            ensure!(i(tt.data[c][r]) == w, "transposed product entry ({c}, {r}) is {:?}, should be {w}", tt.data[c][r]);
            ensure!(i(kk.data[r][c]) == i(a[r][c]) * i(k), "scaled entry ({r}, {c})");
            ensure!(t.data[r][c] == a[c][r], "transposed entry ({r}, {c})");
        }
    }
    structure(a, b)?;
    Ok(Class::NonTrivial)
}

fn structure<T: Scalar + AlmostEqual>(a: M4<T>, b: M4<T>) -> Result<(), String> {
    let m = Matrix4x4::from(a);
    let mut w = Matrix4x4::<T>::zero();
    let mut v = Matrix4x4::<T>::new();
    let id = Matrix4x4::<T>::identity();
    let (li, ri) = (id * m, m * id);
    let t = m.transpose();
    ensure!(Matrix4x4::<T>::default() == id && Matrix4x4::<T>::new() == id, "new/default is not the identity");
    ensure!(m == Matrix4x4::from(a) && (m == Matrix4x4::from(b)) == (a == b), "equality of {a:?} {b:?}");
    for i in 0..4 {
        ensure!(m.row(i) == a[i] && m[i] == a[i], "row {i} of {a:?}");
        for j in 0..4 {
            ensure!(m[(i, j)] == a[i][j] && m.data[i][j] == a[i][j], "entry ({i}, {j}) of {a:?}");
            ensure!(m.col(j)[i] == a[i][j] && m.col_vec(j)[i] == a[i][j] && m.row_vec(i)[j] == a[i][j], "row/column entry ({i}, {j}) of {a:?}");
            ensure!(t[(j, i)] == a[i][j], "transposed entry ({j}, {i}) of {a:?}");
            ensure!(li[(i, j)] == a[i][j] && ri[(i, j)] == a[i][j], "the identity changes entry ({i}, {j}) of {a:?}");
            w[(i, j)] = a[i][j];
            v[i][j] = a[i][j];
            let e = if i == j { T::one() } else { T::zero() };
            ensure!(id[(i, j)] == e, "identity entry ({i}, {j})");
            ensure!(Matrix4x4::<T>::zero()[(i, j)] == T::zero(), "zero entry ({i}, {j})");
        }
    }
    ensure!(w == m && v == m, "writing entries of {a:?}");
    let eq = (0..16).all(|k| a[k / 4][k % 4].almost_eq(b[k / 4][k % 4]));
    ensure!(m.almost_eq(Matrix4x4::from(b)) == eq, "almost_eq of {a:?} and {b:?}");
    ensure!(m.almost_eq(m), "{a:?} is not almost equal to itself");
    for k in 0..16 {
        let mut c = a;
        c[k / 4][k % 4] = c[k / 4][k % 4] + T::one() + T::one();
        let e = a[k / 4][k % 4].almost_eq(c[k / 4][k % 4]);
        ensure!(m.almost_eq(Matrix4x4::from(c)) == e, "almost_eq ignores entry {k}");
    }
    Ok(())
}

fn gen_matrix<T: Fl>(s: &mut Src, scale: f64) -> M4<T> {
    let mut a = [[T::t(0.0); 4]; 4];
    let sparse = s.chance(1, 4);
    for r in a.iter_mut() {
        for x in r.iter_mut() {
            *x = num(s, scale);
            if sparse && s.chance(1, 2) {
                *x = T::t(0.0);
            }
        }
    }
    a
}

fn mat_float<T: Fl>(s: &mut Src) -> Res {
    let sc = [1.0, 10.0, 1000.0][s.pick(3)] * units(s);
    let a: M4<T> = gen_matrix(s, sc);
    let b: M4<T> = if s.chance(1, 10) { a } else { gen_matrix(s, sc) };
    let k: T = num(s, 10.0);
    note!(s, "matrices {:?} {:?} scalar {:?}", a, b, k);
    let (ma, mb) = (Matrix4x4::from(a), Matrix4x4::from(b));
    structure(a, b)?;
    let w = mm(&real(&a), &real(&b));
    let tol = mm(&absm(&a), &absm(&b));
    let t = |i: usize, j: usize| 16.0 * T::EPS * tol[i][j] + 16.0 * T::tiny().d();
    if let Some(m) = bad(&(ma * mb).data, &w, t) {
        return Err(format!("product of {a:?} and {b:?}: {m}"));
    }
    if let Some(m) = bad(&(mb.transpose() * ma.transpose()).data, &transposed(&w), |i, j| t(j, i)) {
        return Err(format!("product of the transposes of {a:?} and {b:?}: {m}"));
    }
    let q = ma * k;
    for i in 0..4 {
        for j in 0..4 {
            let e = a[i][j] * k;
            ensure!(q.data[i][j] == e, "scaled entry ({i}, {j}) of {a:?} by {k:?} is {:?}", q.data[i][j]);
        }
    }
    Ok(Class::NonTrivial)
}

/// Gauss-Jordan with full row pivoting in 113-bit reals.
pub fn inverse_q(a: &M4<Q>) -> Option<M4<Q>> {
    let mut m = *a;
    let mut r: M4<Q> = ident();
    for c in 0..4 {
        let mut p = c;
        for i in c + 1..4 {
            if Real::abs(m[i][c]) > Real::abs(m[p][c]) {
                p = i;
            }
        }
        if m[p][c] == Q::of(0.0) {
            return None;
        }
        m.swap(c, p);
        r.swap(c, p);
        let d = Q::of(1.0) / m[c][c];
        for j in 0..4 {
            m[c][j] = m[c][j] * d;
            r[c][j] = r[c][j] * d;
        }
        for i in 0..4 {
            if i != c {
                let f = m[i][c];
                for j in 0..4 {
                    m[i][j] = m[i][j] - f * m[c][j];
                    r[i][j] = r[i][j] - f * r[c][j];
                }
            }
        }
    }
    Some(r)
}
fn norm_inf(a: &M4<f64>) -> f64 {
    a.iter().map(|r| r.iter().sum::<f64>()).fold(0.0, f64::max)
}

/// Determinant of the rows and columns chosen by bit masks, and the sum of the
/// magnitudes of its products.
fn cofactor_sum(a: &M4<f64>, rows: u32, cols: u32) -> (f64, f64) {
    if rows == 0 {
        return (1.0, 1.0);
    }
    let i = rows.trailing_zeros() as usize;
    let (mut d, mut m, mut sg) = (0.0, 0.0, 1.0);
    for j in 0..4 {
        if cols >> j & 1 == 1 {
            let (x, y) = cofactor_sum(a, rows & !(1 << i), cols & !(1 << j));
            d += sg * a[i][j] * x;
            m += a[i][j].abs() * y;
            sg = -sg;
        }
    }
    (d, m)
}

fn mul_f(a: &M4<f64>, b: &M4<f64>) -> M4<f64> {
    let mut r = [[0.0; 4]; 4];
    for i in 0..4 {
        for j in 0..4 {
            r[i][j] = (0..4).map(|k| a[i][k] * b[k][j]).sum();
        }
    }
    r
}

fn inverses<T: Fl>(s: &mut Src) -> Res {
    let a: M4<T> = match s.weighted(&[5, 2, 2]) {
        0 => {
            let sc = [1.0, 10.0, 100.0][s.pick(3)] * units(s);
            gen_matrix(s, sc)
        }
        1 => {
            // a scaled permutation plus a perturbation: every pivot order
            let u = units(s);
            let mut m: M4<T> = gen_matrix(s, 0.2 * u);
            let mut p = [0usize, 1, 2, 3];
            for i in (1..4).rev() {
                p.swap(i, s.pick(i + 1));
            }
            for i in 0..4 {
                let x: T = T::t(pos::<T>(s, 0.5, 2.0).d() * u);
                m[i][p[i]] = if s.chance(1, 2) { -x } else { x };
            }
            m
        }
        _ => history::<T>(s, 3, false).t.matrix().data,
    };
    note!(s, "inverse of {:?}", a);
    let q = a.map(|r| r.map(|x| x.q()));
    let Some(inv) = inverse_q(&q) else {
        return Ok(Class::Trivial);
    };
    let ai: M4<f64> = inv.map(|r| r.map(|x| x.f64().abs()));
    let cond = norm_inf(&absm(&a)) * norm_inf(&ai);
    let lim = if T::NAME == "f32" { 2e3 } else { 1e7 };
    if !(cond < lim) {
        return Ok(Class::Ambiguous);
    }
    let got = Matrix4x4::from(a).inverse();
    let big = ai.iter().flatten().fold(0.0f64, |x, y| x.max(*y));
    // cofactors may cancel more than the condition tells: two small stretches multiply
    let d: M4<f64> = a.map(|r| r.map(|x| x.d()));
    let (det, mag) = cofactor_sum(&d, 0b1111, 0b1111);
    if !(mag * T::EPS < 1e-2 * det.abs()) {
        return Ok(Class::Ambiguous);
    }
    let mut tols = [[0.0; 4]; 4];
    for i in 0..4 {
        for j in 0..4 {
            let (_, m) = cofactor_sum(&d, 0b1111 & !(1 << j), 0b1111 & !(1 << i));
            let tol = T::EPS * (64.0 * cond * big + 24.0 * (m + ai[i][j] * mag) / det.abs());
            tols[i][j] = tol;
            let e = (got.data[i][j].q() - inv[i][j]).f64().abs();
            ensure!(e <= tol, "inverse entry ({i}, {j}) is {:?}, exactly {:?} (condition {cond:e})", got.data[i][j], inv[i][j]);
        }
    }
    // A inverse(A) and inverse(A) A
    let g = real(&got.data);
    let r = real(&a);
    for (p, ab, n) in [
        (mm(&r, &g), mul_f(&absm(&a), &tols), "A inverse(A)"),
        (mm(&g, &r), mul_f(&tols, &absm(&a)), "inverse(A) A"),
    ] {
        for i in 0..4 {
            for j in 0..4 {
                let w = if i == j { 1.0 } else { 0.0 };
                let e = (p[i][j].f64() - w).abs();
                let tol = ab[i][j] + 8.0 * T::EPS;
                ensure!(e <= tol, "entry ({i}, {j}) of {n} is {:?} (condition {cond:e})", p[i][j]);
            }
        }
    }
    Ok(Class::NonTrivial)
}

fn interval_inverse<T: Fl>(s: &mut Src) -> Res {
    let a: M4<T> = match s.weighted(&[3, 2]) {
        0 => gen_matrix(s, 4.0),
        _ => history::<T>(s, 3, false).t.matrix().data,
    };
    let w = [0.0, 1e-6, 1e-3, 1e-2][s.pick(4)];
    let mut iv = [[Interval { inf: T::t(0.0), sup: T::t(0.0) }; 4]; 4];
    let mut p = a;
    for i in 0..4 {
        for j in 0..4 {
            let h = w * s.unit();
            iv[i][j] = mk(a[i][j], T::t(a[i][j].d() + h));
            p[i][j] = point_in(s, iv[i][j]);
        }
    }
    note!(s, "interval inverse of {:?}, width {w}, at {:?}", a, p);
    let q = p.map(|r| r.map(|x| x.q()));
    let Some(inv) = inverse_q(&q) else {
        return Ok(Class::Trivial);
    };
    let big = inv.iter().flatten().fold(0.0f64, |x, y| x.max(y.f64().abs()));
    let cond = norm_inf(&absm(&p)) * big * 4.0;
    if !(cond < 1e8) {
        return Ok(Class::Ambiguous);
    }
    let got = Matrix4x4::from(iv).inverse();
    let e = Q::of(1e-31 * cond * big);
    let mut bounded = true;
    for i in 0..4 {
        for j in 0..4 {
            let g = got.data[i][j];
            let v = inv[i][j];
            // products of infinite bounds are NaN by documented design
            if g.inf.d().is_nan() || g.sup.d().is_nan() {
                bounded = false;
                continue;
            }
            bounded &= g.inf.fin() && g.sup.fin();
            ensure!(
                !(g.inf.d() > f64::NEG_INFINITY && v + e < g.inf.q()) && !(g.sup.d() < f64::INFINITY && v - e > g.sup.q()),
                "entry ({i}, {j}) of the interval inverse is {}, which does not contain {:?}",
                show(&g),
                v
            );
        }
    }
    Ok(if bounded { Class::NonTrivial } else { Class::Trivial })
}

pub fn c08() -> Property {
    Property {
        id: "C08",
        rule: "non-trivial = every product case; inverses: condition number below the limit; interval inverses: all entries bounded",
        laws: vec![
            Law { name: "integer matrices i32", quick: 600_000, f: mat_int::<i32> },
            Law { name: "integer matrices i64", quick: 300_000, f: mat_int::<i64> },
            Law { name: "float matrices f32", quick: 600_000, f: mat_float::<f32> },
            Law { name: "float matrices f64", quick: 200_000, f: mat_float::<f64> },
            Law { name: "inverses f32", quick: 300_000, f: inverses::<f32> },
            Law { name: "inverses f64", quick: 300_000, f: inverses::<f64> },
            Law { name: "interval inverses f32", quick: 200_000, f: interval_inverse::<f32> },
            Law { name: "interval inverses f64", quick: 200_000, f: interval_inverse::<f64> },
        ],
        sweeps: vec![],
        findings: vec![],
        assumptions: &["inverses are judged for condition numbers up to 2e3 (f32) and 1e7 (f64), within 64 roundings times the condition number"],
    }
}

// ---------------------------------------------------------------------- C09

fn pair<T: Fl>(s: &mut Src) -> Res {
    let h: Hist<T> = history(s, 6, false);
    // approximate equality looks at every entry of both matrices
    let (k, b) = (s.pick(16), s.chance(1, 2));
    let (mut m, mut mi) = (h.t.matrix(), h.t.inverse_matrix());
    let e = if b { &mut mi.data[k / 4][k % 4] } else { &mut m.data[k / 4][k % 4] };
    let old = *e;
    *e = match s.pick(3) {
        0 => T::t(old.d() + 1.0),
        1 => T::t(old.d() * 1.01 - 1e-3),
        _ => old.up(),
    };
    let want = old.almost_eq(*e);
    let got = h.t.almost_eq(Transform::new(m, mi));
    ensure!(got == want, "entry {k} of the {} changed from {:?}: almost_eq is {got}", if b { "inverse matrix" } else { "matrix" }, old);
    pair_of(&h)
}

fn pair_of<T: Fl>(h: &Hist<T>) -> Res {
    let (m, mi) = (h.t.matrix().data, h.t.inverse_matrix().data);
    let eps = h.eps();
    if let Some(e) = bad(&m, &h.m, |i, j| eps * h.am[i][j]) {
        return Err(format!("the matrix is not the meaning of the history: {e}"));
    }
    if let Some(e) = bad(&mi, &h.mi, |i, j| eps * h.ami[i][j]) {
        return Err(format!("the inverse matrix is not the inverse of the history: {e}"));
    }
    for (p, a, n) in [
        (mm(&real(&m), &real(&mi)), mm(&h.am, &h.ami), "matrix times inverse matrix"),
        (mm(&real(&mi), &real(&m)), mm(&h.ami, &h.am), "inverse matrix times matrix"),
    ] {
        for i in 0..4 {
            for j in 0..4 {
                let w = if i == j { 1.0 } else { 0.0 };
                ensure!((p[i][j].f64() - w).abs() <= 2.0 * eps * a[i][j] + 1e-37, "entry ({i}, {j}) of the {n} is {:?}", p[i][j]);
            }
        }
    }
    let v = h.t.inverse();
    ensure!(v.matrix() == h.t.inverse_matrix() && v.inverse_matrix() == h.t.matrix(), "inverting does not swap the matrices");
    let w = v.inverse();
    ensure!(w.matrix() == h.t.matrix() && w.inverse_matrix() == h.t.inverse_matrix(), "inverting twice changes the transform");
    ensure!(h.t == w, "inverting twice gives a different transform");
    ensure!(h.t.almost_eq(w), "the transform is not almost equal to itself");
    let sharp = (0..3).all(|i| eps * h.am[i][i] < 0.01);
    Ok(if h.n >= 1.0 && sharp { Class::NonTrivial } else { Class::Trivial })
}

/// expected image with its error bound
pub fn image<T: Fl>(m: &M4<T::R>, am: &M4<f64>, v: [T; 3], w: f64, eps: f64) -> ([T::R; 3], [f64; 3]) {
    let r = mv(m, [v[0].r(), v[1].r(), v[2].r(), T::R::of(w)]);
    let a = mv(am, [v[0].d().abs(), v[1].d().abs(), v[2].d().abs(), w]);
    ([r[0], r[1], r[2]], [a[0] * eps, a[1] * eps, a[2] * eps])
}

macro_rules! close {
    ($got:expr, $want:expr, $tol:expr, $($m:tt)*) => {
        {
            let g = $got;
            for i in 0..3 {
                ensure!((g[i].r() - $want[i]).abs().f64() <= $tol[i] + 1e-37, "{}: component {i} is {:?}, should be {:?} +- {:e}", format!($($m)*), g[i], $want[i], $tol[i]);
            }
        }
    };
}

/// a mappable object of the user's own, with the provided inverse mapping
struct Own<T: Fl>(Point3<T>, Vector3<T>);
impl<T: Fl> TransformMap<Own<T>> for Transform<T> {
    type Output = Own<T>;
    fn map(&self, obj: Own<T>) -> Own<T> {
        Own(Transform::map(self, obj.0), Transform::map(self, obj.1))
    }
}

/// any extent a ray may carry
pub fn extent<T: Fl>(s: &mut Src) -> T {
    match s.weighted(&[6, 2, 1, 1, 1, 1]) {
        0 => pos(s, 1e-6, 1e6),
        1 => T::highest(),
        2 => T::infinity(),
        3 => T::zero(),
        4 => T::min_positive_value() * T::half(),
        _ => T::zero() - pos::<T>(s, 0.1, 1e4),
    }
}

fn mapping<T: Fl>(s: &mut Src) -> Res {
    let a: Hist<T> = history(s, 3, false);
    note!(s, "| second factor");
    let b: Hist<T> = history(s, 3, false);
    let h = a.times(&b);
    let (u, v) = (units(s), units(s));
    let x: [T; 3] = v3(s, 10.0 * u);
    let d: [T; 3] = v3(s, 10.0 * v);
    let tm: T = extent(s);
    note!(s, "| point {:?} vector {:?} extent {:?}", x, d, tm);
    let eps = 2.0 * h.eps();
    let (p, v, n) = (pt3(x), vec3(d), nr3(d));
    let ray = Ray::new(p, v, tm);
    let nm = transposed(&h.mi);
    let anm = transposed(&h.ami);
    let (wp, tp) = image::<T>(&h.m, &h.am, x, 1.0, eps);
    let (wv, tv) = image::<T>(&h.m, &h.am, d, 0.0, eps);
    let (wn, tn) = image::<T>(&nm, &anm, d, 0.0, eps);
    close!(h.t.map(p), wp, tp, "the mapped point");
    close!(h.t.map(v), wv, tv, "the mapped vector");
    close!(h.t.map(n), wn, tn, "the mapped normal");
    close!(TransformMap::map(&h.t, p), wp, tp, "the mapped point (trait)");
    let r: Ray<T> = h.t.map(ray);
    close!(r.origin, wp, tp, "the mapped ray's origin");
    close!(r.direction, wv, tv, "the mapped ray's direction");
    ensure!(r.tmax == tm, "the mapped ray's extent is {:?}", r.tmax);
    // right factor first
    let q: Point3<T> = a.t.map(b.t.map::<Point3<T>, Point3<T>>(p));
    close!(q, wp, tp, "the point mapped by one factor after the other");
    let q: Vector3<T> = a.t.map(b.t.map::<Vector3<T>, Vector3<T>>(v));
    close!(q, wv, tv, "the vector mapped by one factor after the other");
    let q: Normal3<T> = a.t.map(b.t.map::<Normal3<T>, Normal3<T>>(n));
    close!(q, wn, tn, "the normal mapped by one factor after the other");
    // inverse mapping
    let (wp, tp) = image::<T>(&h.mi, &h.ami, x, 1.0, eps);
    let (wv, tv) = image::<T>(&h.mi, &h.ami, d, 0.0, eps);
    let (wn, tn) = image::<T>(&transposed(&h.m), &transposed(&h.am), d, 0.0, eps);
    close!(h.t.map_inverse(p), wp, tp, "the inversely mapped point");
    close!(h.t.map_inverse(v), wv, tv, "the inversely mapped vector");
    close!(h.t.map_inverse(n), wn, tn, "the inversely mapped normal");
    let r: Ray<T> = h.t.map_inverse(ray);
    close!(r.origin, wp, tp, "the inversely mapped ray's origin");
    close!(r.direction, wv, tv, "the inversely mapped ray's direction");
    ensure!(r.tmax == tm, "the inversely mapped ray's extent is {:?}", r.tmax);
    let i = h.t.inverse();
    close!(i.map(p), wp, tp, "the point mapped by the inverse");
    close!(i.map(v), wv, tv, "the vector mapped by the inverse");
    close!(i.map(n), wn, tn, "the normal mapped by the inverse");
    let own: Own<T> = h.t.map_inverse(Own(p, v));
    close!(own.0, wp, tp, "the user's object's point, inversely mapped");
    close!(own.1, wv, tv, "the user's object's vector, inversely mapped");
    // round trips
    let rt = mm(&h.ami, &h.am);
    let (_, tp) = image::<T>(&ident(), &rt, x, 1.0, 2.0 * eps);
    let (_, tv) = image::<T>(&ident(), &rt, d, 0.0, 2.0 * eps);
    let (_, tn) = image::<T>(&ident(), &transposed(&mm(&h.ami, &h.am)), d, 0.0, 2.0 * eps);
    let (wx, wd) = (x.map(|c| c.r()), d.map(|c| c.r()));
    let q: Point3<T> = h.t.map_inverse(h.t.map::<Point3<T>, Point3<T>>(p));
    close!(q, wx, tp, "the point mapped there and back");
    let q: Vector3<T> = h.t.map_inverse(h.t.map::<Vector3<T>, Vector3<T>>(v));
    close!(q, wd, tv, "the vector mapped there and back");
    let q: Normal3<T> = h.t.map_inverse(h.t.map::<Normal3<T>, Normal3<T>>(n));
    close!(q, wd, tn, "the normal mapped there and back");
    let q: Ray<T> = h.t.map_inverse(h.t.map::<Ray<T>, Ray<T>>(ray));
    close!(q.origin, wx, tp, "the ray's origin mapped there and back");
    close!(q.direction, wd, tv, "the ray's direction mapped there and back");
    ensure!(q.tmax == tm, "the extent after mapping there and back is {:?}", q.tmax);
    let sharp = (0..3).all(|i| eps * h.am[i][i] < 0.01);
    Ok(if h.n >= 1.0 && sharp { Class::NonTrivial } else { Class::Trivial })
}

/// perspective composed with affine histories: points only
fn projective<T: Fl>(s: &mut Src) -> Res {
    let fov: T = T::t(s.uni(0.3, 2.6));
    let near: T = pos(s, 0.1, 2.0);
    let far: T = T::t(near.d() * s.uni(1.5, 50.0));
    note!(s, "perspective fov {:?} near {:?} far {:?}", fov, near, far);
    let pr = perspective_ref(fov, near, far);
    let a: Hist<T> = history(s, 2, true);
    let left = s.chance(1, 3);
    let h = if left { a.times(&pr) } else { pr.times(&a) };
    // no exact zero pattern survives a general product: judge by magnitudes
    let eps = 4.0 * h.eps() * (1.0 + far.d() / (far.d() - near.d()));
    let (m, mi) = (h.t.matrix().data, h.t.inverse_matrix().data);
    if let Some(e) = bad(&m, &h.m, |i, j| eps * h.am[i][j]) {
        return Err(format!("the matrix is not the meaning of the history: {e}"));
    }
    if let Some(e) = bad(&mi, &h.mi, |i, j| eps * h.ami[i][j]) {
        return Err(format!("the inverse matrix is not the inverse of the history: {e}"));
    }
    let x: [T; 3] = v3(s, 10.0);
    note!(s, "point {:?} left {left}", x);
    let hx = [x[0].r(), x[1].r(), x[2].r(), T::R::of(1.0)];
    let ax = [x[0].d().abs(), x[1].d().abs(), x[2].d().abs(), 1.0];
    let mut class = Class::Trivial;
    for inverse in [false, true] {
        let (m, am) = if inverse { (&h.mi, &h.ami) } else { (&h.m, &h.am) };
        let w = mv(m, hx);
        let aw = mv(am, ax);
        // far enough from the plane at infinity
        if !(w[3].abs().f64() > 1e3 * eps * aw[3] + 1e-6) {
            continue;
        }
        let got: Point3<T> = if inverse { h.t.map_inverse(pt3(x)) } else { h.t.map(pt3(x)) };
        let w3 = w[3].abs().f64();
        for i in 0..3 {
            let e = w[i] / w[3];
            let tol = 4.0 * eps * (aw[i] + e.abs().f64() * aw[3]) / w3;
            ensure!(
                (got[i].r() - e).abs().f64() <= tol + 1e-37,
                "component {i} of the {} point is {:?}, should be {:?} +- {tol:e}",
                if inverse { "inversely mapped" } else { "mapped" },
                got[i],
                e
            );
        }
        class = Class::NonTrivial;
    }
    Ok(class)
}

pub fn perspective_ref<T: Fl>(fov: T, near: T, far: T) -> Hist<T> {
    let z = T::R::of(0.0);
    let one = T::R::of(1.0);
    let e = one / (fov.r() / T::R::of(2.0)).tan();
    let d = far.r() - near.r();
    let a = far.r() / d;
    let b = far.r() * near.r() / d;
    let m = [[-e, z, z, z], [z, -e, z, z], [z, z, a, b], [z, z, one, z]];
    let mi = [[-(one / e), z, z, z], [z, -(one / e), z, z], [z, z, z, one], [z, z, one / b, -(a / b)]];
    let ab = |m: &M4<T::R>| m.map(|r| r.map(|x| x.abs().f64()));
    Hist { t: Transform::perspective(fov, near, far), m, mi, am: ab(&m), ami: ab(&mi), n: 2.0 }
}

pub fn c09() -> Property {
    Property {
        id: "C09",
        rule: "non-trivial = at least one rounded factor in the history and a tolerance below 1 % of the factor magnitudes",
        laws: vec![
            Law { name: "pairs f32", quick: 600_000, f: pair::<f32> },
            Law { name: "pairs f64", quick: 150_000, f: pair::<f64> },
            Law { name: "mapping f32", quick: 600_000, f: mapping::<f32> },
            Law { name: "mapping f64", quick: 150_000, f: mapping::<f64> },
            Law { name: "projective f32", quick: 300_000, f: projective::<f32> },
            Law { name: "projective f64", quick: 150_000, f: projective::<f64> },
        ],
        sweeps: vec![],
        findings: vec![],
        assumptions: &["errors are judged against 24 roundings per factor times the product of the factors' magnitudes"],
    }
}

// ---------------------------------------------------------------------- C10

fn translation<T: Fl>(s: &mut Src) -> Res {
    let (u, w) = (units(s), units(s));
    let v: [T; 3] = v3(s, 1000.0 * u);
    let x: [T; 3] = v3(s, 1000.0 * w);
    note!(s, "translate by {:?}, object {:?}", v, x);
    let t = Transform::translate(vec3(v));
    let (p, q): (Point3<T>, Point3<T>) = (t.map(pt3(x)), t.map_inverse(pt3(x)));
    let d: [Vector3<T>; 2] = [t.map(vec3(x)), t.map_inverse(vec3(x))];
    for i in 0..3 {
        let m = v[i].d().abs() + x[i].d().abs();
        let tol = 8.0 * T::EPS * m;
        ensure!((p[i].r() - (x[i].r() + v[i].r())).abs().f64() <= tol, "point {:?} translated by {:?} is {:?}", x, v, p.vec);
        ensure!((q[i].r() - (x[i].r() - v[i].r())).abs().f64() <= tol, "point {:?} translated back by {:?} is {:?}", x, v, q.vec);
        for w in d {
            ensure!(w[i] == x[i], "vector {:?} translated by {:?} is {:?}", x, v, w.vec);
        }
    }
    Ok(if (0..3).any(|i| v[i].d() != 0.0) { Class::NonTrivial } else { Class::Trivial })
}

fn scaling<T: Fl>(s: &mut Src) -> Res {
    let mut v = [T::t(1.0); 3];
    for c in v.iter_mut() {
        *c = if s.chance(1, 4) { pos(s, 1e-8, 1e8) } else { pos(s, 1e-3, 1e3) };
        if s.chance(1, 3) {
            *c = -*c;
        }
    }
    let u = units(s);
    let x: [T; 3] = v3(s, 1000.0 * u);
    note!(s, "scale by {:?}, object {:?}", v, x);
    let t = Transform::scale(vec3(v));
    let p: Point3<T> = t.map(pt3(x));
    let d: Vector3<T> = t.map(vec3(x));
    let (pi, di): (Point3<T>, Vector3<T>) = (t.map_inverse(pt3(x)), t.map_inverse(vec3(x)));
    for i in 0..3 {
        let w = x[i].r() * v[i].r();
        let u = x[i].r() / v[i].r();
        for (g, w) in [(p[i], w), (d[i], w), (pi[i], u), (di[i], u)] {
            ensure!((g.r() - w).abs().f64() <= 8.0 * T::EPS * w.abs().f64() + 4.0 * T::tiny().d(), "component {i} of {:?} scaled by {:?} is {:?}, should be {:?}", x, v, g, w);
        }
    }
    Ok(if (0..3).any(|i| v[i].d() != 1.0) { Class::NonTrivial } else { Class::Trivial })
}

fn rotation<T: Fl>(s: &mut Src) -> Res {
    let th: T = angle(s, 1e4);
    let kind = s.pick(4);
    let axis: [T; 3] = match kind {
        0 => t3([1.0, 0.0, 0.0]),
        1 => t3([0.0, 1.0, 0.0]),
        2 => t3([0.0, 0.0, 1.0]),
        _ => axis_of(s),
    };
    let u = units(s);
    let x: [T; 3] = v3(s, 10.0 * u);
    let y: [T; 3] = v3(s, 10.0 * u);
    note!(s, "rotate about {:?} (kind {kind}) by {:?}: {:?} {:?}", axis, th, x, y);
    let named = |k: usize, a: T| match k {
        0 => Transform::rotate_x(a),
        1 => Transform::rotate_y(a),
        2 => Transform::rotate_z(a),
        _ => Transform::rotate(vec3(axis), a),
    };
    let t = named(kind, th);
    let r = rodrigues(axis.map(|c| c.r()), th.r());
    let tol = 48.0 * T::EPS;
    let rot = |r: &[[T::R; 3]; 3], v: [T; 3]| -> [T::R; 3] {
        let v = v.map(|c| c.r());
        [dot_r(r[0], v), dot_r(r[1], v), dot_r(r[2], v)]
    };
    let len = |v: [T; 3]| d3(v).iter().map(|c| c.abs()).sum::<f64>();
    // images of a vector and of a point; the inverse turns back
    for (v, inv) in [(x, false), (y, false), (axis, false), (x, true)] {
        let rr = if inv { tr3(r) } else { r };
        let w = rot(&rr, v);
        let (g, p): (Vector3<T>, Point3<T>) = if inv {
            (t.map_inverse(vec3(v)), t.map_inverse(pt3(v)))
        } else {
            (t.map(vec3(v)), t.map(pt3(v)))
        };
        for i in 0..3 {
            for c in [g[i], p[i]] {
                ensure!(
                    (c.r() - w[i]).abs().f64() <= tol * len(v) + 4.0 * T::tiny().d(),
                    "component {i} of {:?} rotated{} is {:?}, should be {:?}",
                    v,
                    if inv { " back" } else { "" },
                    c,
                    w[i]
                );
            }
        }
    }
    // the axis is fixed
    let g: Vector3<T> = t.map(vec3(axis));
    for i in 0..3 {
        ensure!((g[i].d() - axis[i].d()).abs() <= tol * len(axis), "the axis {:?} is moved to {:?}", axis, g.vec);
    }
    // lengths, angles and orientation
    let (gx, gy): (Vector3<T>, Vector3<T>) = (t.map(vec3(x)), t.map(vec3(y)));
    let (a, b) = (gx.vec.map(|c| c.r()), gy.vec.map(|c| c.r()));
    let (c, d) = (x.map(|c| c.r()), y.map(|c| c.r()));
    let m = len(x) * len(y);
    ensure!((dot_r(a, b) - dot_r(c, d)).abs().f64() <= 4.0 * tol * m + 1e-37, "the dot product of {:?} and {:?} changes", x, y);
    let z: [T; 3] = t3([0.3, -0.7, 0.2]);
    let gz: Vector3<T> = t.map(vec3(z));
    let det0 = dot_r(cross_r(c, d), z.map(|c| c.r()));
    let det1 = dot_r(cross_r(a, b), gz.vec.map(|c| c.r()));
    ensure!((det0 - det1).abs().f64() <= 8.0 * tol * m * 1.2 + 1e-37, "the orientation of {:?}, {:?} changes", x, y);
    // named and general agree
    if kind < 3 {
        let k = T::t(s.uni(0.1, 10.0));
        let g = Transform::rotate(vec3([axis[0] * k, axis[1] * k, axis[2] * k]), th);
        for i in 0..4 {
            for j in 0..4 {
                ensure!(
                    (g.matrix()[(i, j)].d() - t.matrix()[(i, j)].d()).abs() <= tol
                        && (g.inverse_matrix()[(i, j)].d() - t.inverse_matrix()[(i, j)].d()).abs() <= tol,
                    "named and general rotation differ at ({i}, {j}) for angle {:?}",
                    th
                );
            }
        }
    }
    // angles add
    let ph: T = angle(s, 50.0);
    let sum = T::t(th.d() + ph.d());
    let exact = th.r() + ph.r() - sum.r();
    let u = named(kind, ph);
    let both = t * u;
    let once = named(kind, sum);
    let slack = 2.0 * exact.abs().f64();
    for i in 0..3 {
        for j in 0..3 {
            ensure!(
                (both.matrix()[(i, j)].d() - once.matrix()[(i, j)].d()).abs() <= 4.0 * tol + slack,
                "rotations by {:?} and {:?} do not add at ({i}, {j})",
                th,
                ph
            );
        }
    }
    Ok(if th.d() != 0.0 { Class::NonTrivial } else { Class::Trivial })
}

pub fn c10() -> Property {
    Property {
        id: "C10",
        rule: "non-trivial = the parameters are not those of the identity",
        laws: vec![
            Law { name: "translation f32", quick: 2_000_000, f: translation::<f32> },
            Law { name: "translation f64", quick: 1_000_000, f: translation::<f64> },
            Law { name: "scaling f32", quick: 2_000_000, f: scaling::<f32> },
            Law { name: "scaling f64", quick: 1_000_000, f: scaling::<f64> },
            Law { name: "rotation f32", quick: 1_200_000, f: rotation::<f32> },
            Law { name: "rotation f64", quick: 300_000, f: rotation::<f64> },
        ],
        sweeps: vec![],
        findings: vec![],
        assumptions: &["rotations are judged within 48 roundings", "axes of length 1e-14 to 1e14; translations and factors within 1e-5 to 1e5 times ordinary ones"],
    }
}

// ---------------------------------------------------------------------- C11

fn look_at<T: Fl>(s: &mut Src) -> Res {
    let sc = [1.0, 10.0, 1000.0][s.weighted(&[2, 4, 1])];
    let sc = sc * units(s);
    let (eye, target, up, sn) = view_params::<T>(s, sc, 0.02);
    note!(s, "look_at {:?} {:?} {:?}", eye, target, up);
    let h = look_at_ref(eye, target, up);
    let eps = 32.0 * T::EPS * (1.0 + 2.0 / sn);
    if let Some(e) = bad(&h.t.matrix().data, &h.m, |i, j| eps * h.am[i][j]) {
        return Err(format!("view matrix: {e}"));
    }
    if let Some(e) = bad(&h.t.inverse_matrix().data, &h.mi, |i, j| eps * h.ami[i][j]) {
        return Err(format!("inverse view matrix: {e}"));
    }
    // the meaning, through the mapping itself
    let len = norm(d3(eye)) + norm(d3(target));
    let tol = 8.0 * eps * (len + 1e-30);
    let o: Point3<T> = h.t.map(pt3(eye));
    ensure!(o.vec.iter().all(|c| c.d().abs() <= tol), "the eye goes to {:?}", o.vec);
    let dist = norm(sub(d3(target), d3(eye)));
    let p: Point3<T> = h.t.map(pt3(target));
    ensure!(
        p[0].d().abs() <= tol && p[1].d().abs() <= tol && (p[2].d() + dist).abs() <= tol,
        "the target goes to {:?}, its distance is {dist}",
        p.vec
    );
    let u: Vector3<T> = h.t.map(vec3(up));
    let ul = norm(d3(up));
    ensure!(u[0].d().abs() <= 4.0 * eps * ul && u[1].d() > 0.0, "the up vector goes to {:?}", u.vec);
    let b: Point3<T> = h.t.map_inverse(Point3::new(T::t(0.0), T::t(0.0), T::t(0.0)));
    for i in 0..3 {
        ensure!((b[i].d() - eye[i].d()).abs() <= tol, "the origin comes back to {:?}", b.vec);
    }
    Ok(Class::NonTrivial)
}

fn perspective<T: Fl>(s: &mut Src) -> Res {
    let fov: T = match s.weighted(&[2, 4]) {
        0 => T::t(std::f64::consts::PI * s.int(1, 11) as f64 / 12.0),
        _ => match s.weighted(&[6, 1, 1]) {
            0 => T::t(s.uni(0.05, 3.0)),
            1 => T::t(10f64.powf(s.uni(-4.0, -1.0))),
            _ => T::t(std::f64::consts::PI - 10f64.powf(s.uni(-3.0, -0.5))),
        },
    };
    let u = units(s);
    let near: T = T::t(pos::<T>(s, 1e-2, 10.0).d() * u);
    let ratio = match s.pick(4) {
        0 => s.uni(1.1, 3.0),
        1 => 10f64.powf(s.uni(0.1, 3.0)),
        2 => {
            if s.chance(1, 2) {
                10f64.powf(s.uni(3.0, 6.0))
            } else {
                1.0 + 10f64.powf(s.uni(-3.0, -1.0))
            }
        }
        _ => 2.0,
    };
    let far: T = T::t(near.d() * ratio);
    let (n, f) = (near.d(), far.d());
    let t = Transform::perspective(fov, near, far);
    // a point of the frustum in normalised coordinates
    let one = |s: &mut Src| match s.weighted(&[3, 6]) {
        0 => s.int(-2, 2) as f64 / 2.0,
        _ => s.uni(-1.0, 1.0),
    };
    let (a, b) = (one(s), one(s));
    let z: T = match s.weighted(&[1, 1, 4]) {
        0 => -near,
        1 => -far,
        _ => T::t(-(n + (f - n) * s.unit())),
    };
    let tan = (fov.r() / T::R::of(2.0)).tan();
    let zd = z.d();
    let (x, y) = (T::t(-a * zd * tan.f64()), T::t(-b * zd * tan.f64()));
    note!(s, "perspective fov {:?} near {:?} far {:?}, point ({:?}, {:?}, {:?})", fov, near, far, x, y, z);
    let p: Point3<T> = t.map(pt3([x, y, z]));
    let wx = -(x.r() / (tan * z.r()));
    let wy = -(y.r() / (tan * z.r()));
    let d = far.r() - near.r();
    let wz = far.r() * (z.r() + near.r()) / (d * z.r());
    // cancellation in far * z + far * near, and in far - near
    let amp = f / (f - n);
    let ez = 24.0 * T::EPS * amp * (1.0 + n / zd.abs()) * (1.0 + amp * wz.abs().f64().min(1.0));
    // tan near a right angle is ill conditioned in the angle
    let half = fov.d() / 2.0;
    let et = 24.0 * T::EPS * (1.0 + half * (tan.f64() + 1.0 / tan.f64()));
    for (i, w, e) in [
        (0, wx, et * (1.0 + wx.abs().f64())),
        (1, wy, et * (1.0 + wy.abs().f64())),
        (2, wz, ez),
    ] {
        ensure!((p[i].r() - w).abs().f64() <= e, "component {i} is {:?}, should be {:?} +- {e:e}", p[i], w);
    }
    ensure!(
        p[0].d().abs() <= 1.0 + 4.0 * et && p[1].d().abs() <= 1.0 + 4.0 * et && p[2].d() >= -ez && p[2].d() <= 1.0 + ez,
        "a point of the frustum leaves the cube: {:?}",
        p.vec
    );
    // a displacement within a plane of constant depth is scaled as a whole
    let v: Vector3<T> = t.map(vec3([x, y, T::t(0.0)]));
    for (i, w) in [(0, -(x.r() / tan)), (1, -(y.r() / tan)), (2, T::R::of(0.0))] {
        let e = et * w.abs().f64() + 1e-37;
        ensure!((v[i].r() - w).abs().f64() <= e, "component {i} of the displacement ({:?}, {:?}, 0) is {:?}, should be {:?} +- {e:e}", x, y, v[i], w);
    }
    // depth order
    let z2 = T::t(zd * (1.0 + 0.01 + s.unit()));
    if -z2.d() <= f {
        let q: Point3<T> = t.map(pt3([x, y, z2]));
        let gap = (f * n / (f - n)) * (1.0 / zd.abs() - 1.0 / z2.d().abs());
        if gap > 4.0 * ez {
            ensure!(q[2] > p[2], "depth order is lost between {:?} and {:?}: {:?} {:?}", z, z2, p[2], q[2]);
        }
    }
    // back: w' = (z' - a) / b
    let back: Point3<T> = t.map_inverse(p);
    let k = 64.0 * T::EPS * amp * (1.0 + f / n) + 8.0 * et + 4.0 * ez * f / n;
    if k < 0.2 {
        for (i, w) in [(0, x.d()), (1, y.d()), (2, zd)] {
            let tol = k * (w.abs() + 1e-3 * n) * (1.0 + zd.abs() / n);
            ensure!((back[i].d() - w).abs() <= tol, "component {i} mapped there and back is {:?}, was {:?}", back[i], w);
        }
    }
    // the exact pair
    let r = perspective_ref(fov, near, far);
    let e = |m: &M4<f64>, i: usize, j: usize| (et + 64.0 * T::EPS * amp) * m[i][j];
    if let Some(m) = bad(&t.matrix().data, &r.m, |i, j| e(&r.am, i, j)) {
        return Err(format!("perspective matrix: {m}"));
    }
    if let Some(m) = bad(&t.inverse_matrix().data, &r.mi, |i, j| e(&r.ami, i, j)) {
        return Err(format!("inverse perspective matrix: {m}"));
    }
    Ok(Class::NonTrivial)
}

pub fn c11() -> Property {
    Property {
        id: "C11",
        rule: "every case is non-trivial: a generated view or frustum with a point in it",
        laws: vec![
            Law { name: "look_at f32", quick: 2_000_000, f: look_at::<f32> },
            Law { name: "look_at f64", quick: 500_000, f: look_at::<f64> },
            Law { name: "perspective f32", quick: 3_000_000, f: perspective::<f32> },
            Law { name: "perspective f64", quick: 1_000_000, f: perspective::<f64> },
        ],
        sweeps: vec![],
        findings: vec![],
        assumptions: &[
            "the up vector is at least 0.02 rad away from the view direction; tolerances scale with 1 / sin of that angle",
            "far / near between 1.001 and 1e6, field of view 1e-4 to pi - 1e-3; the round trip is judged where its conditioning leaves two digits",
        ],
    }
}

// ---------------------------------------------------------------------- C12

fn normal_map<T: Fl>(s: &mut Src) -> Res {
    let h: Hist<T> = history(s, 5, false);
    let (u, w) = (units(s), units(s));
    let n: [T; 3] = v3(s, 10.0 * u);
    let mut v: [T; 3] = v3(s, 10.0 * w);
    if s.chance(1, 3) {
        // perpendicular up to rounding
        let c = cross(d3(n), d3(v));
        v = t3(c);
    }
    let k: T = num(s, 4.0);
    let n2: [T; 3] = v3(s, 10.0 * u);
    note!(s, "| normal {:?} vector {:?}, second normal {:?} factor {:?}", n, v, n2, k);
    let eps = 2.0 * h.eps();
    let inverse = s.chance(1, 3);
    let h = if inverse { h.inverse() } else { h };
    let map_n = |x: [T; 3]| -> Normal3<T> {
        if inverse {
            h.t.inverse().map_inverse(nr3(x))
        } else {
            h.t.map(nr3(x))
        }
    };
    let mn = map_n(n);
    let mvv: Vector3<T> = h.t.map(vec3(v));
    let d0 = dot_r(n.map(|c| c.r()), v.map(|c| c.r()));
    let d1 = dot_r(mn.vec.map(|c| c.r()), mvv.vec.map(|c| c.r()));
    let an = n.map(|c| c.d().abs());
    let av = v.map(|c| c.d().abs());
    let chain = mm(&h.ami, &h.am);
    let m = mv(&chain, [av[0], av[1], av[2], 0.0]);
    let tol = 4.0 * eps * (an[0] * m[0] + an[1] * m[1] + an[2] * m[2]) + 1e-37 * (1.0 + an[0] + an[1] + an[2] + av[0] + av[1] + av[2]);
    ensure!((d0 - d1).abs().f64() <= tol, "the dot product of normal and vector goes from {:?} to {:?} (+- {tol:e})", d0, d1);
    // linear
    let anm = transposed(&h.ami);
    let size = |x: [T; 3]| {
        let m = mv(&anm, [x[0].d().abs(), x[1].d().abs(), x[2].d().abs(), 0.0]);
        [m[0], m[1], m[2]]
    };
    let (s1, s2) = (size(n), size(n2));
    let sum: [T; 3] = [0, 1, 2].map(|i| T::t(n[i].d() + n2[i].d()));
    let kn: [T; 3] = [0, 1, 2].map(|i| T::t(n[i].d() * k.d()));
    let (ms, mk_, m2) = (map_n(sum), map_n(kn), map_n(n2));
    for i in 0..3 {
        let e = 4.0 * eps * (s1[i] + s2[i]) + 1e-37;
        ensure!((ms[i].d() - (mn[i].d() + m2[i].d())).abs() <= e, "the image of a sum of normals is not the sum of the images at {i}");
        let e = 4.0 * eps * s1[i] * k.d().abs() + 1e-37;
        ensure!((mk_[i].d() - mn[i].d() * k.d()).abs() <= e, "the image of {:?} times a normal is not the multiple of its image at {i}: {:?} {:?}", k, mk_[i], mn[i]);
    }
    // there and back
    let back: Normal3<T> = h.t.map_inverse(h.t.map::<Normal3<T>, Normal3<T>>(nr3(n)));
    let bt = mv(&transposed(&mm(&h.ami, &h.am)), [an[0], an[1], an[2], 0.0]);
    for i in 0..3 {
        ensure!((back[i].d() - n[i].d()).abs() <= 4.0 * eps * bt[i] + 1e-37, "normal {:?} mapped there and back is {:?}", n, back.vec);
    }
    let sharp = tol < 0.02 * (norm(d3(n)) * norm(d3(v)));
    Ok(if sharp && h.n >= 1.0 { Class::NonTrivial } else { Class::Trivial })
}

pub fn c12() -> Property {
    Property {
        id: "C12",
        rule: "non-trivial = at least one rounded factor in the transform and a tolerance below 2 % of |n||v|",
        laws: vec![
            Law { name: "normals f32", quick: 2_000_000, f: normal_map::<f32> },
            Law { name: "normals f64", quick: 500_000, f: normal_map::<f64> },
        ],
        sweeps: vec![],
        findings: vec![],
        assumptions: &["tolerances follow the magnitudes of the transform's factors"],
    }
}

