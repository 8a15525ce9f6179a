//! C13-C16: bounding boxes as sets, under transforms, and under rays.
use super::geom::*;
use super::xf::history;
use crate::engine::*;
use crate::gen::*;
use crate::{ensure, note};
use scarlet::geometry::bbox::Bbox3;
use scarlet::geometry::primitive::{Bounded3, IntersectsRay};
use scarlet::geometry::ray::Rayf;
use scarlet::math::transform::{Invertible, Transformf};
use scarlet::math::vector::{Point3, Point3f};

const EPS: f64 = <f32 as Fl>::EPS;

type P = [f32; 3];

fn lo_hi(a: P, b: P) -> (P, P) {
    let mut lo = a;
    let mut hi = a;
    for i in 0..3 {
        if b[i] < a[i] {
            lo[i] = b[i];
        } else {
            hi[i] = b[i];
        }
    }
    (lo, hi)
}
fn corners(b: &Bbox3) -> (P, P) {
    (b.pmin.vec, b.pmax.vec)
}
fn same(b: &Bbox3, lo: P, hi: P) -> bool {
    (0..3).all(|i| b.pmin[i] == lo[i] && b.pmax[i] == hi[i])
}
fn holds(lo: P, hi: P, q: P) -> bool {
    (0..3).all(|i| lo[i] <= q[i] && q[i] <= hi[i])
}

/// A probe coordinate around [lo, hi].
fn probe(s: &mut Src, lo: f32, hi: f32) -> f32 {
    match s.weighted(&[3, 3, 2, 2, 2, 2, 5, 2]) {
        0 => lo,
        1 => hi,
        2 => lo.next_down(),
        3 => hi.next_up(),
        4 => lo.next_up(),
        5 => hi.next_down(),
        6 => {
            let u = s.unit();
            (lo as f64 * (1.0 - u) + hi as f64 * u) as f32
        }
        _ => any_finite(s),
    }
}

fn corner(s: &mut Src, wild: bool) -> P {
    if wild {
        [any_finite(s), any_finite(s), any_finite(s)]
    } else {
        v3(s, 100.0)
    }
}

/// The second corner: free, or sharing coordinates (flat boxes).
fn other_corner(s: &mut Src, a: P, wild: bool) -> P {
    let mut b = corner(s, wild);
    if s.chance(1, 6) {
        let k = s.pick(3);
        b[k] = a[k];
    }
    b
}

fn lattice(s: &mut Src) -> Res {
    let wild = s.chance(1, 3);
    let a = corner(s, wild);
    let b = other_corner(s, a, wild);
    let (lo, hi) = lo_hi(a, b);
    let x = Bbox3::new(pt3(a), pt3(b));
    // the second box: free, touching, nested or equal
    let c: P = match s.weighted(&[4, 3]) {
        0 => corner(s, wild),
        _ => [probe(s, lo[0], hi[0]), probe(s, lo[1], hi[1]), probe(s, lo[2], hi[2])],
    };
    let d: P = match s.weighted(&[4, 3]) {
        0 => other_corner(s, c, wild),
        _ => [probe(s, lo[0], hi[0]), probe(s, lo[1], hi[1]), probe(s, lo[2], hi[2])],
    };
    let fin = |v: P| v.map(|t| if t.is_finite() { t } else { 0.0 });
    let (c, d) = (fin(c), fin(d));
    let (lo2, hi2) = lo_hi(c, d);
    let y = Bbox3::new(pt3(c), pt3(d));
    note!(s, "box {:?} {:?}; box {:?} {:?}", a, b, c, d);
    ensure!(same(&x, lo, hi), "the box of {a:?} and {b:?} is {x:?}");
    ensure!(same(&y, lo2, hi2), "the box of {c:?} and {d:?} is {y:?}");
    ensure!(same(&Bbox3::new(pt3(b), pt3(a)), lo, hi), "the box depends on the order of the corners");
    ensure!(same(&x.bbox(), lo, hi), "the box of a box is {:?}", x.bbox());
    ensure!(
        x.xmin() == lo[0] && x.ymin() == lo[1] && x.zmin() == lo[2] && x.xmax() == hi[0] && x.ymax() == hi[1] && x.zmax() == hi[2],
        "the named bounds of {x:?} differ"
    );
    // union
    let mut ulo = lo;
    let mut uhi = hi;
    let mut ilo = lo;
    let mut ihi = hi;
    for i in 0..3 {
        ulo[i] = if lo2[i] < lo[i] { lo2[i] } else { lo[i] };
        uhi[i] = if hi2[i] > hi[i] { hi2[i] } else { hi[i] };
        ilo[i] = if lo2[i] > lo[i] { lo2[i] } else { lo[i] };
        ihi[i] = if hi2[i] < hi[i] { hi2[i] } else { hi[i] };
    }
    let u = x.union(&y);
    let mut z = x;
    z += y;
    for (g, n) in [(u, "union"), (y.union(&x), "union the other way"), (x + y, "+"), (y + x, "+ the other way"), (z, "+=")] {
        ensure!(same(&g, ulo, uhi), "{n} of {x:?} and {y:?} is {g:?}");
    }
    ensure!(same(&x.union(&x), lo, hi), "the union with itself changes {x:?}");
    let e = Bbox3::default();
    let mut f = e;
    f += x;
    for g in [e.union(&x), x.union(&e), e + x, x + e, f] {
        ensure!(same(&g, lo, hi), "the union of {x:?} with the empty box is {g:?}");
    }
    // intersection, containment
    let i = x.intersect(&y);
    let j = y.intersect(&x);
    let q: P = match s.weighted(&[3, 3, 3, 3]) {
        0 => [probe(s, lo[0], hi[0]), probe(s, lo[1], hi[1]), probe(s, lo[2], hi[2])],
        1 => [probe(s, lo2[0], hi2[0]), probe(s, lo2[1], hi2[1]), probe(s, lo2[2], hi2[2])],
        2 => [probe(s, ilo[0], ihi[0]), probe(s, ilo[1], ihi[1]), probe(s, ilo[2], ihi[2])],
        _ => {
            // on a face, otherwise within: one coordinate at a time goes out
            let mut q = [0, 1, 2].map(|k| (lo[k] as f64 * 0.5 + hi[k] as f64 * 0.5) as f32);
            let k = s.pick(3);
            q[k] = probe(s, lo[k], hi[k]);
            q
        }
    };
    let q = fin(q);
    note!(s, "probe {:?}", q);
    let (inx, iny) = (holds(lo, hi, q), holds(lo2, hi2, q));
    let p: Point3f = pt3(q);
    ensure!(x.inside(p) == inx, "inside({q:?}) of {x:?} is {}", x.inside(p));
    ensure!(y.inside(p) == iny, "inside({q:?}) of {y:?} is {}", y.inside(p));
    ensure!(x.inside(pt3(a)) && x.inside(pt3(b)), "the box misses its corners {a:?} {b:?}");
    ensure!(u.inside(p) == holds(ulo, uhi, q) && (u.inside(p) || !(inx || iny)), "inside({q:?}) of the union {u:?}");
    ensure!(i.inside(p) == (inx && iny), "inside({q:?}) of the intersection {i:?} of {x:?} and {y:?} is {}", i.inside(p));
    ensure!(j.inside(p) == (inx && iny), "inside({q:?}) of the intersection {j:?} is {}", j.inside(p));
    ensure!(!e.inside(p), "the empty box contains {q:?}");
    let common = (0..3).all(|k| ilo[k] <= ihi[k]);
    if common {
        ensure!(same(&i, ilo, ihi) && same(&j, ilo, ihi), "the intersection of {x:?} and {y:?} is {i:?}");
    }
    // overlap
    ensure!(x.overlaps(&y) == y.overlaps(&x), "overlap of {x:?} and {y:?} is not symmetric");
    let vol = (0..3).all(|k| lo[k] < hi[k] && lo2[k] < hi2[k]);
    let meet = (0..3).all(|k| ilo[k] < ihi[k]);
    if vol {
        ensure!(x.overlaps(&y) == meet, "overlaps of {x:?} and {y:?} is {}", x.overlaps(&y));
    }
    if meet && vol {
        ensure!(x.overlaps(&x), "{x:?} does not overlap itself");
    }
    // measures
    let no_overflow = (0..3).all(|k| (hi[k] as f64 - lo[k] as f64) < f32::MAX as f64 && (hi[k] as f64 + lo[k] as f64).abs() < f32::MAX as f64);
    if no_overflow {
        let dg = x.diagonal();
        let ct = x.center();
        let mut ext = [0.0f64; 3];
        for k in 0..3 {
            let (l, h) = (lo[k] as f64, hi[k] as f64);
            ext[k] = h - l;
            ensure!((dg[k] as f64 - (h - l)).abs() <= 2.0 * EPS * (h - l) + 1e-44, "diagonal component {k} of {x:?} is {:?}", dg[k]);
            ensure!((ct[k] as f64 - (h + l) / 2.0).abs() <= 2.0 * EPS * (h.abs() + l.abs()) + 1e-44, "centre component {k} of {x:?} is {:?}", ct[k]);
        }
        let ((rl, rh), ax) = x.max_extent();
        let ax = ax as usize;
        ensure!(ax < 3, "max_extent of {x:?} names axis {ax}");
        ensure!(rl == lo[ax] && rh == hi[ax], "max_extent of {x:?} returns ({rl:?}, {rh:?}) for axis {ax}");
        for k in 0..3 {
            ensure!(ext[ax] >= ext[k] * (1.0 - 4.0 * EPS), "max_extent of {x:?} is axis {ax}, axis {k} is longer");
        }
    }
    Ok(if common || meet { Class::NonTrivial } else { Class::Trivial })
}

/// a fold of unions over a list is the box of all corners, in any order
fn fold(s: &mut Src) -> Res {
    let n = 1 + s.pick(6);
    let mut lo = [f32::INFINITY; 3];
    let mut hi = [f32::NEG_INFINITY; 3];
    let mut bs = Vec::new();
    for _ in 0..n {
        let a: P = v3(s, 100.0);
        let b = other_corner(s, a, false);
        note!(s, "box {:?} {:?}", a, b);
        for i in 0..3 {
            lo[i] = lo[i].min(a[i]).min(b[i]);
            hi[i] = hi[i].max(a[i]).max(b[i]);
        }
        bs.push(Bbox3::new(pt3(a), pt3(b)));
    }
    let mut acc = Bbox3::default();
    for b in &bs {
        acc += *b;
    }
    ensure!(same(&acc, lo, hi), "the union of all boxes is {acc:?}");
    let mut left = Bbox3::default();
    for b in bs.iter().rev() {
        left = b.union(&left);
    }
    ensure!(same(&left, lo, hi), "the union of all boxes from the end is {left:?}");
    let mut m = bs[0];
    for b in &bs {
        m = m.intersect(b);
    }
    let mut q = [0.0f32; 3];
    for (k, c) in q.iter_mut().enumerate() {
        let b = &bs[s.pick(n)];
        *c = probe(s, b.pmin[k], b.pmax[k]);
        if !c.is_finite() {
            *c = 0.0;
        }
    }
    note!(s, "probe {:?}", q);
    let all = bs.iter().all(|b| {
        let (l, h) = corners(b);
        holds(l, h, q)
    });
    ensure!(m.inside(pt3(q)) == all, "inside({q:?}) of the intersection of all boxes is {}", m.inside(pt3(q)));
    ensure!(acc.inside(pt3(q)) == holds(lo, hi, q), "inside({q:?}) of the union of all boxes");
    Ok(if n > 1 { Class::NonTrivial } else { Class::Trivial })
}

pub fn c13() -> Property {
    Property {
        id: "C13",
        rule: "non-trivial = the two boxes have a common point; lists: more than one box",
        laws: vec![
            Law { name: "lattice", quick: 6_000_000, f: lattice },
            Law { name: "lists", quick: 2_000_000, f: fold },
        ],
        sweeps: vec![],
        findings: vec![],
        assumptions: &["diagonal, centre and longest axis are judged wherever they do not overflow, within 4 ulps of the larger coordinate"],
    }
}

// ---------------------------------------------------------------------- C14

fn mapped(s: &mut Src) -> Res {
    let h = history::<f32>(s, 4, false);
    let u = units(s);
    let a: P = v3(s, 10.0 * u);
    let b = other_corner(s, a, false);
    let (lo, hi) = lo_hi(a, b);
    let inverse = s.chance(1, 3);
    note!(s, "| box {:?} {:?} inverse {inverse}", a, b);
    let x = Bbox3::new(pt3(a), pt3(b));
    let m = if inverse { h.t.inverse_matrix() } else { h.t.matrix() };
    let got: Bbox3 = if inverse { h.t.map_inverse(x) } else { h.t.map(x) };
    let mut tol = [0.0f64; 3];
    for i in 0..3 {
        let (mut l, mut u, mut mag) = (m[(i, 3)] as f64, m[(i, 3)] as f64, (m[(i, 3)] as f64).abs());
        for j in 0..3 {
            let c = m[(i, j)] as f64;
            let (p, q) = (c * lo[j] as f64, c * hi[j] as f64);
            l += p.min(q);
            u += p.max(q);
            mag += p.abs().max(q.abs());
        }
        tol[i] = 32.0 * EPS * mag + 1e-40;
        ensure!(
            (got.pmin[i] as f64 - l).abs() <= tol[i] && (got.pmax[i] as f64 - u).abs() <= tol[i],
            "axis {i} of the mapped box is [{:?}, {:?}], the images of the corners span [{l}, {u}]",
            got.pmin[i],
            got.pmax[i]
        );
        ensure!(got.pmin[i] <= got.pmax[i], "the mapped box is inverted: {got:?}");
    }
    let other: Bbox3 = if inverse { h.t.inverse().map(x) } else { h.t.inverse().map_inverse(x) };
    for i in 0..3 {
        ensure!(
            (other.pmin[i] as f64 - got.pmin[i] as f64).abs() <= 2.0 * tol[i] && (other.pmax[i] as f64 - got.pmax[i] as f64).abs() <= 2.0 * tol[i],
            "mapping and inversely mapping by the inverse differ: {got:?} {other:?}"
        );
    }
    // a point of the box, mapped as a point
    let mut q = [0.0f32; 3];
    for k in 0..3 {
        let u = match s.weighted(&[1, 1, 2]) {
            0 => 0.0,
            1 => 1.0,
            _ => s.unit(),
        };
        q[k] = ((lo[k] as f64 * (1.0 - u) + hi[k] as f64 * u) as f32).clamp(lo[k], hi[k]);
    }
    let p: Point3<f32> = if inverse { h.t.map_inverse(pt3(q)) } else { h.t.map(pt3(q)) };
    for i in 0..3 {
        ensure!(
            p[i] as f64 >= got.pmin[i] as f64 - 2.0 * tol[i] && p[i] as f64 <= got.pmax[i] as f64 + 2.0 * tol[i],
            "the image {:?} of {q:?} leaves the mapped box {got:?}",
            p.vec
        );
    }
    // identity
    let id: Bbox3 = Transformf::identity().map(x);
    ensure!(same(&id, lo, hi), "the identity maps {x:?} to {id:?}");
    let id: Bbox3 = Transformf::identity().map_inverse(x);
    ensure!(same(&id, lo, hi), "the identity inversely maps {x:?} to {id:?}");
    let turned = (0..3).any(|i| (0..3).any(|j| i != j && m[(i, j)] != 0.0)) || (0..3).any(|i| m[(i, i)] < 0.0);
    Ok(if turned { Class::NonTrivial } else { Class::Trivial })
}

/// The image of an empty box is empty: the default box, and what two boxes apart
/// have in common.
fn mapped_nothing(s: &mut Src) -> Res {
    let h = history::<f32>(s, 4, false);
    let default = s.chance(1, 3);
    let (a, b): (P, P) = (v3(s, 10.0), v3(s, 10.0));
    let (lo, hi) = lo_hi(a, b);
    let x = Bbox3::new(pt3(a), pt3(b));
    let mut gap = [false; 3];
    gap[s.pick(3)] = true;
    let mut c = [0.0f32; 3];
    for k in 0..3 {
        gap[k] |= s.chance(1, 3);
        c[k] = if gap[k] { hi[k] + s.uni(0.01, 20.0) as f32 } else { lo[k] };
    }
    let e = if default {
        Bbox3::default()
    } else {
        let y = Bbox3::new(pt3(c), pt3([c[0] + 1.0, c[1] + 1.0, c[2] + 1.0]));
        if s.chance(1, 2) {
            x.intersect(&y)
        } else {
            y.intersect(&x)
        }
    };
    let inverse = s.chance(1, 3);
    note!(s, "| empty box {:?} inverse {inverse}", e);
    if (0..3).all(|k| e.pmin[k] <= e.pmax[k]) {
        return Err(format!("what {x:?} and a box apart have in common is {e:?}"));
    }
    let got: Bbox3 = if inverse { h.t.map_inverse(e) } else { h.t.map(e) };
    ensure!((0..3).any(|k| got.pmin[k] > got.pmax[k]), "the empty box {e:?} is mapped to {got:?}");
    let id: Bbox3 = Transformf::identity().map(e);
    ensure!((0..3).any(|k| id.pmin[k] > id.pmax[k]), "the identity maps the empty box {e:?} to {id:?}");
    if default {
        ensure!(same(&(got + x), lo, hi) && same(&(x + got), lo, hi), "the image {got:?} of the empty box adds to {x:?}");
    }
    Ok(Class::NonTrivial)
}

pub fn c14() -> Property {
    Property {
        id: "C14",
        rule: "non-trivial = the transform mixes axes or mirrors one; empty boxes: all",
        laws: vec![
            Law { name: "mapped boxes", quick: 2_500_000, f: mapped },
            Law { name: "empty boxes", quick: 400_000, f: mapped_nothing },
        ],
        sweeps: vec![],
        findings: vec![],
        assumptions: &["within 12 roundings of the magnitudes of the matrix entries times the corners"],
    }
}

// ----------------------------------------------------------------- C15, C16

pub struct BoxRay {
    pub b: Bbox3,
    pub lo: P,
    pub hi: P,
    pub o: P,
    pub d: P,
    pub tmax: f32,
}

/// A point placed relative to the box: face, edge, corner, inside, outside.
fn place(s: &mut Src, lo: P, hi: P, inner: bool, sc: f64) -> P {
    let mut q = [0.0f32; 3];
    for k in 0..3 {
        let w = hi[k] - lo[k];
        let w = if w > 0.0 { w } else { 1.0 };
        let m = if inner { 4 } else { 7 };
        q[k] = match s.pick(m) {
            0 => lo[k],
            1 => hi[k],
            2 | 3 => {
                let u = s.unit();
                ((lo[k] as f64 * (1.0 - u) + hi[k] as f64 * u) as f32).clamp(lo[k], hi[k])
            }
            4 => lo[k] - (s.uni(0.0, 4.0) as f32) * w,
            5 => hi[k] + (s.uni(0.0, 4.0) as f32) * w,
            _ => num(s, sc),
        };
    }
    q
}

pub fn box_ray(s: &mut Src, allow_empty: bool) -> BoxRay {
    let u = units(s);
    let sc = [1.0, 10.0, 100.0][s.pick(3)] * u;
    let a: P = v3(s, sc);
    let mut b: P = v3(s, sc);
    if s.chance(1, 6) {
        let k = s.pick(3);
        b[k] = a[k];
    }
    let (lo, hi) = lo_hi(a, b);
    let mut bx = Bbox3::new(pt3(a), pt3(b));
    if allow_empty && s.chance(1, 20) {
        match s.pick(3) {
            0 => bx = Bbox3::default(),
            1 => {
                let k = s.pick(3);
                let c = bx.pmin[k];
                bx.pmin[k] = bx.pmax[k].next_up();
                bx.pmax[k] = c;
            }
            _ => {
                let c: P = v3(s, sc);
                let d: P = v3(s, sc);
                bx = bx.intersect(&Bbox3::new(pt3(c), pt3(d)));
            }
        }
    }
    let o = match s.weighted(&[5, 2, 2]) {
        0 => place(s, lo, hi, false, 50.0 * u),
        1 => place(s, lo, hi, true, 50.0 * u),
        _ => v3(s, 2.0 * sc),
    };
    let t = match s.weighted(&[6, 2]) {
        0 => place(s, lo, hi, true, 50.0 * u),
        _ => place(s, lo, hi, false, 50.0 * u),
    };
    let mut d: P = match s.weighted(&[7, 2, 2]) {
        0 => [t[0] - o[0], t[1] - o[1], t[2] - o[2]],
        1 => dir(s, 1e-3, 1e3),
        _ => {
            let mut d = [0.0f32; 3];
            d[s.pick(3)] = if s.chance(1, 2) { -1.0 } else { 1.0 };
            d
        }
    };
    match s.weighted(&[5, 2, 2, 2]) {
        0 => {}
        1 => {
            let k: f32 = if s.chance(1, 4) { pos(s, 1e-8, 1e8) } else { pos(s, 1e-2, 1e2) };
            d = d.map(|c| c * k);
        }
        2 => d = d.map(|c| -c),
        _ => {
            let k = s.pick(3);
            d[k] = 0.0;
        }
    }
    for c in d.iter_mut() {
        if c.abs() < 1e-25 {
            *c = if s.chance(1, 3) { -0.0 } else { 0.0 };
        }
    }
    if d.iter().all(|c| *c == 0.0) {
        d[s.pick(3)] = if s.chance(1, 2) { -1.0 } else { 1.0 };
    }
    let mut tmax: f32 = match s.weighted(&[4, 3, 2, 2, 1, 1]) {
        0 => f32::MAX,
        1 => 1.0,
        2 => pos(s, 0.01, 100.0),
        3 => s.uni(0.0, 3.0) as f32,
        4 => 0.0,
        _ => f32::INFINITY,
    };
    if s.chance(1, 8) {
        // the same ray at a very different speed
        let m = d.iter().fold(0.0f32, |m, c| m.max(c.abs()));
        let k = s.int(-60, 60) as i32 - m.log2() as i32;
        for c in d.iter_mut() {
            *c = if c.abs() < 1e-6 * m { 0.0 } else { (*c as f64 * exp2i(k)) as f32 };
        }
        if tmax < f32::MAX {
            tmax = (tmax as f64 * exp2i(-k)) as f32;
        }
    }
    note!(s, "box {:?} {:?}; ray from {:?} direction {:?} extent {:?}", bx.pmin.vec, bx.pmax.vec, o, d, tmax);
    BoxRay { b: bx, lo: bx.pmin.vec, hi: bx.pmax.vec, o, d, tmax }
}

fn period(s: &mut Src) -> Res {
    let c = box_ray(s, true);
    let ray = Rayf::new(pt3(c.o), vec3(c.d), c.tmax);
    let got = c.b.intersect_ray(ray);
    let empty = (0..3).any(|i| c.lo[i] > c.hi[i]);
    let flag = c.b.do_intersect(ray);
    ensure!(flag == got.is_some(), "do_intersect is {flag}, intersect_ray is {got:?}");
    if empty {
        ensure!(got.is_none(), "an empty box is hit: {got:?}");
        return Ok(Class::NonTrivial);
    }
    let w = box_oracle(d3(c.lo), d3(c.hi), d3(c.o), d3(c.d), c.tmax as f64, [0.0; 3], [0.0; 3]);
    match (w.hit, got) {
        (Some(true), None) => return Err(format!("missed: the ray is in the box from {:?} to {:?}", w.near, w.far)),
        (Some(false), Some(g)) => return Err(format!("reported {g:?}, but the ray misses the box within its extent")),
        _ => {}
    }
    if let Some((a, b)) = got {
        ensure!(a >= 0.0 && b <= c.tmax && a <= b, "the period ({a:?}, {b:?}) leaves [0, extent]");
        ensure!(w.near.0 <= a as f64 && a as f64 <= w.near.1, "the first parameter is {a:?}, should be in {:?}", w.near);
        ensure!(w.far.0 <= b as f64 && b as f64 <= w.far.1, "the last parameter is {b:?}, should be in {:?}", w.far);
    }
    Ok(match w.hit {
        None => Class::Ambiguous,
        Some(true) => Class::NonTrivial,
        Some(false) => {
            // a near miss: two axes are met within the extent
            if w.axes_met >= 2 {
                Class::NonTrivial
            } else {
                Class::Trivial
            }
        }
    })
}

/// Shifting the origin along the ray shifts the period; reversing the
/// direction from beyond mirrors it.
fn period_shift(s: &mut Src) -> Res {
    // coordinates on a coarse grid: everything below is exact
    let g = |s: &mut Src| s.int(-16, 16) as f32 / 4.0;
    let a = [g(s), g(s), g(s)];
    let b = [g(s), g(s), g(s)];
    let o = [g(s), g(s), g(s)];
    let p2 = |s: &mut Src| match s.pick(5) {
        0 => 0.0,
        1 => -0.0,
        k => {
            let m = [1.0f32, 2.0, 4.0][k - 2];
            if s.chance(1, 2) {
                -m
            } else {
                m
            }
        }
    };
    let mut d = [p2(s), p2(s), p2(s)];
    if d.iter().all(|c| *c == 0.0) {
        d[s.pick(3)] = 1.0;
    }
    let tmax = s.int(0, 32) as f32 / 4.0;
    // at any speed
    let (speed, pace) = if s.chance(1, 4) {
        let k = s.int(-120, 118) as i32;
        (exp2i(k) as f32, exp2i(-k) as f32)
    } else {
        (1.0, 1.0)
    };
    d = d.map(|c| c * speed);
    let tmax = tmax * pace;
    note!(s, "box {:?} {:?}; ray from {:?} direction {:?} extent {:?}", a, b, o, d, tmax);
    let (lo, hi) = lo_hi(a, b);
    let bx = Bbox3::new(pt3(a), pt3(b));
    // exact expectation on the grid
    let (mut n, mut f) = (0.0f32, tmax);
    let mut hit = true;
    for i in 0..3 {
        if d[i] == 0.0 {
            hit &= lo[i] <= o[i] && o[i] <= hi[i];
        } else {
            let (u, v) = ((lo[i] - o[i]) / d[i], (hi[i] - o[i]) / d[i]);
            n = n.max(u.min(v));
            f = f.min(u.max(v));
        }
    }
    hit &= n <= f;
    let got = bx.intersect_ray(Rayf::new(pt3(o), vec3(d), tmax));
    let want = if hit { Some((n, f)) } else { None };
    ensure!(got == want, "the period is {got:?}, exactly {want:?}");
    // with every parameter on the grid inside exactly when in the period
    for k in 0..=32 {
        let t = k as f32 / 4.0 * pace;
        if t > tmax {
            break;
        }
        let q = [o[0] + t * d[0], o[1] + t * d[1], o[2] + t * d[2]];
        let inb = bx.inside(pt3(q));
        let inp = got.is_some_and(|(n, f)| n <= t && t <= f);
        ensure!(inb == inp, "at {t} the ray is at {q:?}: inside is {inb}, the period is {got:?}");
    }
    Ok(if hit { Class::NonTrivial } else { Class::Trivial })
}

pub fn c15() -> Property {
    Property {
        id: "C15",
        rule: "non-trivial = a decided hit, an empty box, or a miss that meets at least two slabs; grid rays: hits",
        laws: vec![
            Law { name: "period", quick: 6_000_000, f: period },
            Law { name: "exact grid", quick: 5_000_000, f: period_shift },
        ],
        sweeps: vec![],
        findings: vec![],
        assumptions: &["each plane's parameter is known within 32 roundings; cases where that decides between hit and miss are counted ambiguous", "direction components are zero or at least 1e-25 (or 1e-6 of the greatest, at speeds from 2^-60 to 2^60)"],
    }
}

const INSIDE: &str = "box-hit-from-inside";

fn box_hit(s: &mut Src) -> Res {
    let c = box_ray(s, false);
    let ray = Rayf::new(pt3(c.o), vec3(c.d), c.tmax);
    let got = IntersectsRay::intersect(&c.b, ray);
    let flag = c.b.do_intersect(ray);
    ensure!(flag == got.is_some(), "do_intersect is {flag}, intersect is {got:?}");
    let (lo, hi, o, d) = (d3(c.lo), d3(c.hi), d3(c.o), d3(c.d));
    let strictly_inside = (0..3).all(|i| c.lo[i] < c.o[i] && c.o[i] < c.hi[i]);
    let w = box_oracle(lo, hi, o, d, c.tmax as f64, [0.0; 3], [0.0; 3]);
    if strictly_inside {
        return from_inside(&c, got, &w);
    }
    match (w.hit, &got) {
        (Some(true), None) => return Err(format!("missed: the ray enters at {:?}", w.near)),
        (Some(false), Some(g)) => return Err(format!("reported {g:?}, but the ray misses the box within its extent")),
        _ => {}
    }
    let Some(g) = got else {
        return Ok(if w.hit.is_none() {
            Class::Ambiguous
        } else if w.axes_met >= 2 {
            Class::NonTrivial
        } else {
            Class::Trivial
        });
    };
    let t = g.t_ray as f64;
    ensure!(w.near.0 <= t && t <= w.near.1, "the parameter is {:?}, the entry is in {:?}", g.t_ray, w.near);
    let faces = judge_box_hit(lo, hi, add(o, mul(d, w.tn)), point_error(o, d, t), &g.surface_interaction)?;
    // the ray comes from the outside of the entered face
    if faces == 1 && w.hit == Some(true) && !holds(c.lo, c.hi, c.o) {
        let n = d3(g.surface_interaction.n.vec);
        ensure!(dot(n, d) <= 0.0, "the normal {n:?} does not face the ray {d:?}");
    }
    Ok(if faces == 1 && w.hit == Some(true) { Class::NonTrivial } else { Class::Ambiguous })
}

fn from_inside(c: &BoxRay, got: Option<scarlet::geometry::primitive::IntersectionResult>, w: &BoxOracle) -> Res {
    let (lo, hi, o, d) = (d3(c.lo), d3(c.hi), d3(c.o), d3(c.d));
    let leaves = w.exit.1 <= c.tmax as f64;
    let stays = w.exit.0 > c.tmax as f64;
    match &got {
        None => {
            if leaves {
                return Err("a ray that leaves the box from inside is not reported".into());
            }
            Ok(Class::NonTrivial)
        }
        Some(g) => {
            let t = g.t_ray as f64;
            let exit = !stays && w.exit.0 <= t && t <= w.exit.1;
            if exit && judge_box_hit(lo, hi, add(o, mul(d, w.tf)), point_error(o, d, t), &g.surface_interaction).is_ok() {
                return Ok(Class::NonTrivial);
            }
            // the listed finding: parameter zero and the face nearest to the origin
            ensure!(g.t_ray == 0.0, "from inside: the parameter is {:?}, the ray leaves at {:?}", g.t_ray, w.exit);
            let mut best = f64::INFINITY;
            for i in 0..3 {
                best = best.min(o[i] - lo[i]).min(hi[i] - o[i]);
            }
            let si = &g.surface_interaction;
            let n = d3(si.n.vec);
            let mut ok = false;
            for i in 0..3 {
                for (f, sg) in [(lo[i], -1.0), (hi[i], 1.0)] {
                    if (o[i] - f).abs() <= best + 16.0 * EPS * (o[i].abs() + f.abs()) + 1e-40 {
                        let mut q = o;
                        q[i] = f;
                        let mut m = [0.0; 3];
                        m[i] = sg;
                        ok |= norm(sub(d3(si.p.vec), q)) <= 8.0 * EPS * norm(q) + 1e-37 && n == m;
                    }
                }
            }
            ensure!(ok, "from inside: reported {g:?}, neither the exit nor the listed finding");
            Ok(Class::Known(INSIDE))
        }
    }
}

fn inside_witness() -> bool {
    let b = Bbox3::new(Point3f::new(0.0, 0.0, 0.0), Point3f::new(4.0, 4.0, 4.0));
    let r = Rayf::new(Point3f::new(1.0, 2.0, 2.0), vec3([1.0f32, 0.0, 0.0]), 100.0);
    // leaves through x = 4 at parameter 3
    match IntersectsRay::intersect(&b, r) {
        Some(g) => !((g.t_ray - 3.0).abs() < 1e-3 && g.surface_interaction.n.x() == 1.0),
        None => true,
    }
}

pub fn c16() -> Property {
    Property {
        id: "C16",
        rule: "non-trivial = a decided hit on one face (not within rounding of an edge), or a decided miss that meets two slabs",
        laws: vec![Law { name: "box hits", quick: 6_000_000, f: box_hit }],
        sweeps: vec![],
        findings: vec![Finding {
            id: INSIDE,
            what: "Bbox3::intersect of a ray that starts strictly inside the box reports parameter 0 and the face nearest to the origin instead of the exit (code FIXME); witness: box (0,0,0)-(4,4,4), ray from (1,2,2) along +x",
            witness: inside_witness,
        }],
        assumptions: &["within rounding of an edge or for boxes thinner than rounding, any face there is accepted"],
    }
}
