//! C19, C20: transformed primitives and lists of primitives.
use super::bx::box_ray;
use super::geom::*;
use super::sp::{spec, sphere, sphere_ray};
use super::xf::{history, image, mv, transposed, Hist};
use crate::engine::*;
use crate::gen::*;
use crate::{ensure, note};
use scarlet::geometry::bbox::Bbox3;
use scarlet::geometry::primitive::*;
use scarlet::geometry::ray::Rayf;
use scarlet::geometry::sphere::Sphere;
use scarlet::math::transform::Transformf;
use scarlet::math::vector::Point2f;
use std::cell::RefCell;
use std::rc::Rc;

/// Any primitive behind a handle, as a primitive.
#[derive(Clone)]
pub struct Dyn(pub Rc<dyn Primitive>);
impl Bounded3 for Dyn {
    fn bbox(&self) -> Bbox3 {
        (*self.0).bbox()
    }
}
impl IntersectsRay for Dyn {
    fn do_intersect(&self, ray: Rayf) -> bool {
        (*self.0).do_intersect(ray)
    }
    fn intersect(&self, ray: Rayf) -> Option<IntersectionResult> {
        (*self.0).intersect(ray)
    }
}
impl Primitive for Dyn {}

/// A primitive with one hit at a known parameter that records its rays.
struct Stub {
    t: f32,
    si: SurfaceInteraction,
    bbox: Bbox3,
    seen: Rc<RefCell<Vec<Rayf>>>,
}
impl Bounded3 for Stub {
    fn bbox(&self) -> Bbox3 {
        self.bbox
    }
}
impl IntersectsRay for Stub {
    fn do_intersect(&self, ray: Rayf) -> bool {
        self.seen.borrow_mut().push(ray);
        self.t >= 0.0 && self.t <= ray.tmax
    }
    fn intersect(&self, ray: Rayf) -> Option<IntersectionResult> {
        if self.do_intersect(ray) {
            Some(IntersectionResult { surface_interaction: self.si, t_ray: self.t })
        } else {
            None
        }
    }
}
impl Primitive for Stub {}

fn some_tangents(n: V3, a: f64, b: f64) -> (V3, V3) {
    let k = if n[0].abs() < 0.6 { [1.0, 0.0, 0.0] } else { [0.0, 1.0, 0.0] };
    let u = unit(cross(n, k));
    let v = cross(n, u);
    // not orthogonal, not unit
    (mul(u, a), add(mul(v, b), mul(u, 0.3 * b)))
}

/// What a transform does to the interaction of the primitive it carries.
fn carried(s: &mut Src) -> Res {
    let h: Hist<f32> = history(s, 4, false);
    let u = units(s);
    let o: [f32; 3] = v3(s, 10.0 * u);
    let d: [f32; 3] = dir(s, 0.1 * u, 10.0 * u);
    let t: f32 = if s.chance(1, 8) { 0.0 } else { s.uni(0.0, 8.0) as f32 };
    let tmax: f32 = match s.weighted(&[3, 2, 2, 1]) {
        0 => f32::MAX,
        1 => t,
        2 => t * (s.uni(0.0, 2.0) as f32),
        _ => f32::INFINITY,
    };
    let n_dir: [f32; 3] = dir(s, 1.0, 1.0);
    let (ta, tb) = (s.uni(0.2, 3.0), s.uni(-3.0, -0.2));
    let uv = [s.unit() as f32, s.unit() as f32];
    note!(s, "| ray from {:?} direction {:?} extent {:?}, stub hit at {:?}, normal {:?}, uv {:?}", o, d, tmax, t, n_dir, uv);
    let eps = 2.0 * h.eps();
    // the object-space ray, exactly, and the errors it may have
    let (oo, eo) = image::<f32>(&h.mi, &h.ami, o, 1.0, eps);
    let (od, ed) = image::<f32>(&h.mi, &h.ami, d, 0.0, eps);
    let wp = add(d3(o), mul(d3(d), t as f64));
    let pe = add(oo, mul(od, t as f64));
    let p: [f32; 3] = t3(pe);
    let n = unit(d3(n_dir));
    let (tu, tv) = some_tangents(n, ta, tb);
    let nf: [f32; 3] = t3(n);
    let (uf, vf): ([f32; 3], [f32; 3]) = (t3(tu), t3(tv));
    let grow = |k: f32| t3::<f32>([p[0] as f64 + k as f64, p[1] as f64 + 2.0 * k as f64, p[2] as f64 + 0.5 * k as f64]);
    let bb = Bbox3::new(pt3(grow(-0.5)), pt3(grow(1.5)));
    let seen = Rc::new(RefCell::new(Vec::new()));
    let stub = Stub {
        t,
        si: SurfaceInteraction { p: pt3(p), n: nr3(nf), uv: Point2f::new(uv[0], uv[1]), dpdu: vec3(uf), dpdv: vec3(vf) },
        bbox: bb,
        seen: seen.clone(),
    };
    let tp = TransformedPrimitive::new(stub, h.t);
    let ray = Rayf::new(pt3(o), vec3(d), tmax);
    let flag = tp.do_intersect(ray);
    let got = tp.intersect(ray);
    ensure!(flag == (t <= tmax), "do_intersect is {flag} for a hit at {t:?}, extent {tmax:?}");
    ensure!(got.is_some() == (t <= tmax), "intersect is {got:?} for a hit at {t:?}, extent {tmax:?}");
    for r in seen.borrow().iter() {
        for i in 0..3 {
            ensure!((r.origin[i] as f64 - oo[i]).abs() <= eo[i] + 1e-37, "the primitive sees the origin {:?}, should be {oo:?}", r.origin.vec);
            ensure!((r.direction[i] as f64 - od[i]).abs() <= ed[i] + 1e-37, "the primitive sees the direction {:?}, should be {od:?}", r.direction.vec);
        }
        ensure!(r.tmax == tmax, "the primitive sees the extent {:?}", r.tmax);
    }
    let Some(g) = got else {
        return Ok(Class::Trivial);
    };
    ensure!(g.t_ray == t, "the parameter goes from {t:?} to {:?}", g.t_ray);
    let si = &g.surface_interaction;
    ensure!(si.uv[0] == uv[0] && si.uv[1] == uv[1], "uv goes from {uv:?} to {:?}", si.uv.vec);
    // the world point: the ray's, which is also the image of the object point
    let back = mv(&h.am, [p[0].abs() as f64 + eo[0] + t as f64 * ed[0] + EPS * 2.0 * pe[0].abs(), p[1].abs() as f64 + eo[1] + t as f64 * ed[1], p[2].abs() as f64 + eo[2] + t as f64 * ed[2], 1.0]);
    let chain = mv(&h.am, {
        let a = mv(&h.ami, [o[0].abs() as f64 + (t * d[0]).abs() as f64, o[1].abs() as f64 + (t * d[1]).abs() as f64, o[2].abs() as f64 + (t * d[2]).abs() as f64, 1.0]);
        [a[0], a[1], a[2], 1.0]
    });
    let mut etot = 0.0f64;
    for i in 0..3 {
        let e = 4.0 * eps * (back[i] + chain[i]) + 1e-37;
        etot = etot.max(e);
        ensure!((si.p[i] as f64 - wp[i]).abs() <= e, "the world point is {:?}, the ray's point {wp:?} (+- {e:e})", si.p.vec);
    }
    // normal
    let nm = transposed(&h.mi);
    let (wn, en) = image::<f32>(&nm, &transposed(&h.ami), nf, 0.0, 2.0 * eps);
    let ln = norm(wn);
    let mn = mul(wn, 1.0 / ln);
    let gn = d3(si.n.vec);
    ensure!((norm(gn) - 1.0).abs() <= 1e-5, "the world normal {gn:?} is not a unit vector");
    let e = 2.0 * norm(en) / ln + 16.0 * EPS;
    ensure!(norm(sub(gn, mn)) <= e, "the world normal is {gn:?}, should be {mn:?} (+- {e:e})");
    for (g, w, name) in [(si.dpdu, uf, "dp/du"), (si.dpdv, vf, "dp/dv")] {
        let (m, em) = image::<f32>(&h.m, &h.am, w, 0.0, 2.0 * eps);
        for i in 0..3 {
            ensure!((g[i] as f64 - m[i]).abs() <= em[i] + 1e-37, "{name} is {:?}, should be {m:?}", g.vec);
        }
        ensure!(dot(gn, d3(g.vec)).abs() <= (e + 1e-6) * 2.0 * norm(d3(g.vec)) + norm(em), "the world normal is not perpendicular to {name}");
    }
    // box
    let b = tp.bbox();
    in_box(&b, &bb, &h, d3(si.p.vec), etot)?;
    let sharp = e < 1e-2 && etot < 1e-1 && h.n >= 1.0;
    Ok(if sharp { Class::NonTrivial } else { Class::Trivial })
}

fn in_box(b: &Bbox3, inner: &Bbox3, h: &Hist<f32>, p: V3, e: f64) -> Result<(), String> {
    for i in 0..3 {
        ensure!(
            p[i] >= b.pmin[i] as f64 - e && p[i] <= b.pmax[i] as f64 + e,
            "the hit {p:?} is outside the world box {b:?}"
        );
    }
    let (mut lo, mut hi, mut slack) = ([f64::INFINITY; 3], [f64::NEG_INFINITY; 3], [0.0f64; 3]);
    for k in 0..8 {
        let c = [0, 1, 2].map(|i| if k >> i & 1 == 1 { inner.pmax[i] } else { inner.pmin[i] });
        let (q, eq) = image::<f32>(&h.m, &h.am, c, 1.0, 4.0 * h.eps());
        for i in 0..3 {
            lo[i] = lo[i].min(q[i]);
            hi[i] = hi[i].max(q[i]);
            slack[i] = slack[i].max(eq[i]);
            ensure!(
                q[i] >= b.pmin[i] as f64 - eq[i] - 1e-37 && q[i] <= b.pmax[i] as f64 + eq[i] + 1e-37,
                "the corner {c:?} goes to {q:?}, outside the world box {b:?}"
            );
        }
    }
    for i in 0..3 {
        ensure!(
            b.pmin[i] as f64 >= lo[i] - 2.0 * slack[i] - 1e-37 && b.pmax[i] as f64 <= hi[i] + 2.0 * slack[i] + 1e-37,
            "the world box {b:?} is larger than the image {lo:?} {hi:?} of the primitive's box"
        );
    }
    Ok(())
}

pub enum Shape {
    S(Sphere),
    B(Bbox3),
}

/// Real shapes under nested transforms, judged by reference geometry.
fn placed(s: &mut Src) -> Res {
    let shape = if s.chance(2, 5) { None } else { Some(sphere(s)) };
    // an object-space ray aimed at the shape
    let (shape, o, d, tmax) = match shape {
        Some(sp) => {
            let r = sphere_ray(s, &spec(&sp));
            (Shape::S(sp), r.o, r.d, r.tmax)
        }
        None => {
            let r = box_ray(s, false);
            (Shape::B(r.b), r.o, r.d, r.tmax)
        }
    };
    // unsigned zeros: the identity does not keep the sign of a zero
    let (o, d) = (o.map(|c| c + 0.0), d.map(|c| c + 0.0));
    let depth = 1 + s.pick(3);
    let mut hs: Vec<Hist<f32>> = Vec::new();
    for _ in 0..depth {
        note!(s, "| transform");
        hs.push(history(s, 2, false));
    }
    // outermost first
    let mut h = hs[0];
    for x in &hs[1..] {
        h = h.times(x);
    }
    let eps = 2.0 * h.eps();
    let (wo, _) = image::<f32>(&h.m, &h.am, o, 1.0, eps);
    let (wd, _) = image::<f32>(&h.m, &h.am, d, 0.0, eps);
    let (wo, wd): ([f32; 3], [f32; 3]) = (t3(wo), t3(wd));
    note!(s, "world ray from {:?} direction {:?}", wo, wd);
    let ray = Rayf::new(pt3(wo), vec3(wd), tmax);
    let base = match &shape {
        Shape::S(x) => Dyn(alloc_primitive(*x)),
        Shape::B(x) => Dyn(alloc_primitive(*x)),
    };
    let mut nested = base.clone();
    for x in hs.iter().rev() {
        nested = Dyn(alloc_primitive(TransformedPrimitive::new(nested, x.t)));
    }
    let flat = Dyn(alloc_primitive(TransformedPrimitive::new(base.clone(), h.t)));
    // identity
    let oray = Rayf::new(pt3(o), vec3(d), tmax);
    let (plain, same) = (base.intersect(oray), TransformedPrimitive::new(base.clone(), Transformf::identity()).intersect(oray));
    ensure!(plain.is_some() == same.is_some(), "the identity turns {plain:?} into {same:?}");
    if let (Some(a), Some(b)) = (plain, same) {
        ensure!(a.t_ray == b.t_ray, "the identity changes the parameter from {:?} to {:?}", a.t_ray, b.t_ray);
        let (x, y) = (a.surface_interaction, b.surface_interaction);
        // the point may be the shape's or the ray's own
        let (px, py) = (d3(x.p.vec), d3(y.p.vec));
        let at = add(d3(o), mul(d3(d), a.t_ray as f64));
        let ep = point_error(d3(o), d3(d), a.t_ray as f64);
        let close = |q: V3| (0..3).all(|i| (py[i] - q[i]).abs() <= ep[i] + 16.0 * EPS * px[i].abs() + 1e-37);
        ensure!(close(px) || close(at), "the identity turns {x:?} into {y:?}");
        let same = |p: [f32; 3], q: [f32; 3]| norm(sub(d3(p), d3(q))) <= 1e-5 * norm(d3(p)) + 1e-37;
        ensure!(x.uv == y.uv && same(x.dpdu.vec, y.dpdu.vec) && same(x.dpdv.vec, y.dpdv.vec), "the identity turns {x:?} into {y:?}");
        ensure!(norm(sub(d3(x.n.vec), d3(y.n.vec))) <= 1e-5, "the identity turns {x:?} into {y:?}");
    }
    let levels: Vec<Transformf> = hs.iter().map(|x| x.t).collect();
    let a = judge(&shape, &levels, &h, &nested, ray).map_err(|m| format!("nested: {m}"))?;
    judge(&shape, &[h.t], &h, &flat, ray).map_err(|m| format!("product: {m}"))?;
    // a primitive answers every ray on its own, whatever it was asked before
    if s.chance(1, 4) {
        let mut r = ray;
        for _ in 0..1 + s.pick(4) {
            match s.pick(4) {
                0 => r.tmax = if s.chance(1, 2) { f32::MAX } else { s.uni(0.0, 3.0) as f32 },
                1 => {
                    let v: [f32; 3] = dir(s, 0.1, 10.0);
                    r.direction = vec3(v);
                }
                2 => r.direction = -r.direction,
                _ => {
                    let i = s.pick(3);
                    let mut q = r.origin.vec;
                    q[i] = -q[i] + s.uni(-1.0, 1.0) as f32;
                    r.origin = pt3(q);
                }
            }
            note!(s, "then {:?} {:?} {:?}", r.origin.vec, r.direction.vec, r.tmax);
            judge(&shape, &levels, &h, &nested, r).map_err(|m| format!("nested, later ray: {m}"))?;
            judge(&shape, &[h.t], &h, &flat, r).map_err(|m| format!("product, later ray: {m}"))?;
        }
        judge(&shape, &levels, &h, &nested, ray).map_err(|m| format!("nested, first ray again: {m}"))?;
    }
    Ok(a)
}

/// Through affine 4x4 matrices one after the other, each application rounded
/// to f32: value and error bound. `w` is 1 for points and 0 for vectors.
fn through(ms: &[[[f64; 4]; 4]], v: V3, w: f64, e: V3) -> (V3, V3) {
    let (mut v, mut e) = (v, e);
    for m in ms {
        let mut x = [0.0; 3];
        let mut y = [0.0; 3];
        for i in 0..3 {
            x[i] = m[i][0] * v[0] + m[i][1] * v[1] + m[i][2] * v[2] + m[i][3] * w;
            let mag = (m[i][0] * v[0]).abs() + (m[i][1] * v[1]).abs() + (m[i][2] * v[2]).abs() + (m[i][3] * w).abs();
            y[i] = m[i][0].abs() * e[0] + m[i][1].abs() * e[1] + m[i][2].abs() * e[2] + 12.0 * EPS * mag + 1e-40;
        }
        v = x;
        e = y;
    }
    (v, e)
}

/// One possible outcome of a ray against a placed shape.
#[derive(Clone, Copy, Debug)]
pub struct Cand {
    /// bounds of the parameter
    pub t: (f64, f64),
    /// object-space normal and its error
    n: V3,
    en: f64,
    /// error of the object-space point
    ep: f64,
}

fn wide(m: [[f32; 4]; 4]) -> [[f64; 4]; 4] {
    m.map(|r| r.map(|c| c as f64))
}

/// The possible hits of a placed shape and whether a miss is possible; None:
/// within rounding of tangency or of a start inside a box.
pub fn outcomes(shape: &Shape, levels: &[Transformf], ray: Rayf) -> Option<(Vec<Cand>, bool)> {
    let tmax = ray.tmax as f64;
    let inv: Vec<_> = levels.iter().map(|t| wide(t.inverse_matrix().data)).collect();
    let (oo, eo) = through(&inv, d3(ray.origin.vec), 1.0, [0.0; 3]);
    let (od, ed) = through(&inv, d3(ray.direction.vec), 0.0, [0.0; 3]);
    let mut cand = Vec::new();
    let none;
    match shape {
        Shape::S(x) => {
            let sp = spec(x);
            match sphere_oracle(sp, oo, od, tmax, norm(eo), norm(ed)) {
                SphereOracle::Clear => none = true,
                SphereOracle::Grazing => return None,
                SphereOracle::Roots(a, b) => {
                    let (c, n) = allowed(a, b);
                    none = n;
                    for r in c {
                        cand.push(Cand { t: (r.t - r.e, r.t + r.e), n: mul(r.p, 1.0 / sp.r), en: 4.0 * r.ep / sp.r + 64.0 * EPS, ep: r.ep });
                    }
                }
            }
        }
        Shape::B(x) => {
            let (lo, hi) = (d3(x.pmin.vec), d3(x.pmax.vec));
            let outside = (0..3).any(|i| oo[i] < lo[i] - eo[i] || oo[i] > hi[i] + eo[i]);
            if !outside {
                return None;
            }
            let w = box_oracle(lo, hi, oo, od, tmax, eo, ed);
            if w.hit != Some(false) && !(w.near.1 - w.near.0 < 1e30) {
                return None;
            }
            none = w.hit != Some(true);
            if w.hit != Some(false) {
                let p = add(oo, mul(od, w.tn));
                let e = point_error(oo, od, w.tn);
                let em = (0..3).map(|i| e[i] + eo[i] + w.tn * ed[i] + (w.near.1 - w.near.0) * od[i].abs()).fold(0.0, f64::max);
                for i in 0..3 {
                    for (f, sg) in [(lo[i], -1.0), (hi[i], 1.0)] {
                        if (p[i] - f).abs() <= em {
                            let mut n = [0.0; 3];
                            n[i] = sg;
                            cand.push(Cand { t: w.near, n, en: 1e-6, ep: em });
                        }
                    }
                }
            }
        }
    }
    Some((cand, none))
}

/// Judges point and normal of a reported hit that fits the candidates `fit`;
/// answers the error of the point and the worst error of the normal.
pub fn judge_hit(fit: &[Cand], levels: &[Transformf], h: &Hist<f32>, g: &IntersectionResult, ray: Rayf) -> Result<(V3, f64), String> {
    let inv: Vec<_> = levels.iter().map(|t| wide(t.inverse_matrix().data)).collect();
    let fwd: Vec<_> = levels.iter().rev().map(|t| wide(t.matrix().data)).collect();
    let nrm: Vec<_> = levels.iter().rev().map(|t| transposed(&wide(t.inverse_matrix().data))).collect();
    let (wo, wd) = (d3(ray.origin.vec), d3(ray.direction.vec));
    let (oo, _) = through(&inv, wo, 1.0, [0.0; 3]);
    let (od, _) = through(&inv, wd, 0.0, [0.0; 3]);
    let t = g.t_ray as f64;
    let si = &g.surface_interaction;
    let wp = add(wo, mul(wd, t));
    let obj = add(oo, mul(od, t));
    let ep = fit.iter().map(|c| c.ep).fold(0.0, f64::max);
    let (img, ei) = through(&fwd, obj, 1.0, [ep; 3]);
    let chain = mv(&h.am, {
        let a = mv(&h.ami, [0, 1, 2, 3].map(|i| if i < 3 { wo[i].abs() + (t * wd[i]).abs() } else { 1.0 }));
        [a[0], a[1], a[2], 1.0]
    });
    let mut tolp = [0.0; 3];
    for i in 0..3 {
        // matrix and inverse matrix are inverses up to the rounding of their construction only
        let pair = (2.0 * (img[i] - wp[i]).abs()).min(4.0 * h.eps() * chain[i]);
        tolp[i] = ei[i] + pair + 16.0 * EPS * (wo[i].abs() + (t * wd[i]).abs()) + 1e-37;
        ensure!((si.p[i] as f64 - wp[i]).abs() <= tolp[i], "the hit point is {:?}, the ray's point {wp:?} (+- {tolp:?})", si.p.vec);
    }
    let gn = d3(si.n.vec);
    ensure!((norm(gn) - 1.0).abs() <= 1e-5, "the normal {gn:?} is not a unit vector");
    let mut why = String::new();
    let mut ok = false;
    let mut worst = 0.0f64;
    for c in fit {
        let (w, ew) = through(&nrm, c.n, 0.0, [c.en; 3]);
        let e = 2.0 * norm(ew) / norm(w) + 16.0 * EPS;
        let m = unit(w);
        worst = worst.max(e);
        if norm(sub(gn, m)) <= e {
            ok = true;
        } else {
            why = format!("the normal is {gn:?}, should be {m:?} (+- {e:e})");
        }
    }
    ensure!(ok, "{why}");
    Ok((tolp, worst))
}

/// `levels`: outermost first; `h`: their product with its magnitudes.
fn judge(shape: &Shape, levels: &[Transformf], h: &Hist<f32>, prim: &Dyn, ray: Rayf) -> Res {
    let fwd: Vec<_> = levels.iter().rev().map(|t| wide(t.matrix().data)).collect();
    let got = prim.intersect(ray);
    let flag = prim.do_intersect(ray);
    ensure!(flag == got.is_some(), "do_intersect is {flag}, intersect is {got:?}");
    if let Some(g) = &got {
        ensure!(g.t_ray >= 0.0 && g.t_ray <= ray.tmax, "the parameter {:?} leaves [0, {:?}]", g.t_ray, ray.tmax);
    }
    let Some((cand, none)) = outcomes(shape, levels, ray) else {
        return Ok(Class::Ambiguous);
    };
    let Some(g) = got else {
        ensure!(none, "missed: the placed shape is hit at {:?}", cand.iter().map(|c| c.t).collect::<Vec<_>>());
        return Ok(if cand.is_empty() { Class::Trivial } else { Class::Ambiguous });
    };
    ensure!(!cand.is_empty(), "reported {g:?}, but the ray misses the placed shape");
    let t = g.t_ray as f64;
    let fit: Vec<Cand> = cand.iter().filter(|c| c.t.0 <= t && t <= c.t.1).copied().collect();
    ensure!(!fit.is_empty(), "the parameter is {:?}, should be in one of {:?}", g.t_ray, cand.iter().map(|c| c.t).collect::<Vec<_>>());
    let (tolp, worst) = judge_hit(&fit, levels, h, &g, ray)?;
    let si = &g.surface_interaction;
    let b = prim.bbox();
    let inner = match shape {
        Shape::S(x) => x.bbox(),
        Shape::B(x) => *x,
    };
    let big = [0, 1, 2].map(|i| inner.pmin[i].abs().max(inner.pmax[i].abs()) as f64);
    let absolute: Vec<_> = fwd.iter().map(|m| m.map(|r| r.map(f64::abs))).collect();
    let (_, ebox) = through(&absolute, big, 1.0, [0.0; 3]);
    for i in 0..3 {
        ensure!(
            si.p[i] as f64 >= b.pmin[i] as f64 - 2.0 * tolp[i] - 4.0 * ebox[i] && si.p[i] as f64 <= b.pmax[i] as f64 + 2.0 * tolp[i] + 4.0 * ebox[i],
            "the hit {:?} is outside the bounding box {b:?}",
            si.p.vec
        );
    }
    Ok(if fit.len() == 1 && cand.len() == 1 && worst < 0.02 { Class::NonTrivial } else { Class::Ambiguous })
}

pub fn c19() -> Property {
    Property {
        id: "C19",
        rule: "non-trivial = a decided hit (one possible root or face) with a normal known within 2 %; stubs: a hit under a transform with a rounded factor and sharp tolerances",
        laws: vec![
            Law { name: "carried interaction", quick: 1_200_000, f: carried },
            Law { name: "placed shapes", quick: 1_500_000, f: placed },
        ],
        sweeps: vec![],
        findings: vec![],
        assumptions: &["tolerances follow the magnitudes of the transform's factors", "rays that start inside a placed box are judged in C16"],
    }
}

// ---------------------------------------------------------------------- C20

fn stub_list(s: &mut Src) -> Res {
    let n = match s.weighted(&[200, 16, 4]) {
        0 => s.pick(9),
        1 => 9 + s.pick(40),
        _ => 49 + s.pick(400),
    };
    let grid = s.chance(1, 2);
    // long lists of which few members are hit
    let sparse = n > 8 && s.chance(2, 3);
    let tmax: f32 = match s.weighted(&[6, 6, 2, 1]) {
        0 => f32::MAX,
        1 => s.int(0, 24) as f32 / 4.0,
        2 => f32::INFINITY,
        _ => 0.0,
    };
    let o: [f32; 3] = v3(s, 10.0);
    let d: [f32; 3] = dir(s, 0.1, 10.0);
    // members beyond the first few differ only in their parameters
    let mut pts = Vec::new();
    let mut ts: Vec<f32> = Vec::new();
    let mut lo = [f32::INFINITY; 3];
    let mut hi = [f32::NEG_INFINITY; 3];
    let mut boxes = Vec::new();
    for _ in 0..n {
        let t = match if sparse && !s.chance(3, n as u64) { 1 } else { s.weighted(&[8, 1, 1]) } {
            0 => {
                if grid {
                    s.int(0, 24) as f32 / 4.0
                } else {
                    s.uni(0.0, 6.0) as f32
                }
            }
            1 => -1.0,
            _ => tmax,
        };
        ts.push(t);
        // a member's box contains its hit
        let (mut a, mut b): ([f32; 3], [f32; 3]) = if boxes.len() < 12 { (v3(s, 10.0), v3(s, 10.0)) } else { boxes[s.pick(12)] };
        let p = [0, 1, 2].map(|i| (o[i] as f64 + t as f64 * d[i] as f64) as f32);
        if t >= 0.0 {
            for i in 0..3 {
                if p[i].abs() < 1e30 {
                    let e = 1e-2 * (1.0 + p[i].abs());
                    (a[i], b[i]) = (a[i].min(b[i]).min(p[i] - e), a[i].max(b[i]).max(p[i] + e));
                } else {
                    (a[i], b[i]) = (f32::MIN, f32::MAX);
                }
            }
        }
        pts.push(p.map(|c| c.clamp(f32::MIN, f32::MAX)));
        for i in 0..3 {
            lo[i] = lo[i].min(a[i]).min(b[i]);
            hi[i] = hi[i].max(a[i]).max(b[i]);
        }
        boxes.push((a, b));
    }
    note!(s, "stub hits at {:?}, ray from {:?} direction {:?} extent {:?}", ts, o, d, tmax);
    let z = [0.0f32; 3];
    let mut list = PrimitiveList::new();
    for (i, t) in ts.iter().enumerate() {
        list.add_primitive(Stub {
            t: *t,
            si: SurfaceInteraction { p: pt3(pts[i]), n: nr3([0.0, 0.0, 1.0f32]), uv: Point2f::new(i as f32, 0.5), dpdu: vec3(z), dpdv: vec3(z) },
            bbox: Bbox3::new(pt3(boxes[i].0), pt3(boxes[i].1)),
            seen: Rc::new(RefCell::new(Vec::new())),
        });
    }
    let ray = Rayf::new(pt3(o), vec3(d), tmax);
    let got = list.intersect(ray);
    let flag = list.do_intersect(ray);
    let best = ts.iter().copied().filter(|t| *t >= 0.0 && *t <= tmax).fold(None, |m: Option<f32>, t| Some(m.map_or(t, |x| x.min(t))));
    ensure!(flag == best.is_some(), "do_intersect is {flag}, members hit at {ts:?}, extent {tmax:?}");
    match (got, best) {
        (None, None) => {}
        (Some(g), Some(b)) => {
            ensure!(g.t_ray == b, "the reported parameter is {:?}, the nearest {b:?}", g.t_ray);
            let i = g.surface_interaction.uv[0] as usize;
            ensure!(i < n && ts[i] == b, "the interaction is that of member {i}");
        }
        _ => return Err(format!("reported {got:?}, nearest member hit {best:?}")),
    }
    let b = list.bbox();
    if n == 0 {
        ensure!(!b.inside(pt3(o)) && !b.inside(pt3(z)), "the box of an empty list contains points: {b:?}");
    } else {
        ensure!((0..3).all(|i| b.pmin[i] == lo[i] && b.pmax[i] == hi[i]), "the box of the list is {b:?}, the union {lo:?} {hi:?}");
    }
    Ok(if ts.len() >= 2 && best.is_some() { Class::NonTrivial } else { Class::Trivial })
}

/// An axis-aligned rectangle, hit by simple arithmetic that a model repeats.
#[derive(Clone, Copy, Debug)]
struct Rect {
    axis: usize,
    c: f32,
    lo: [f32; 2],
    hi: [f32; 2],
    id: f32,
}
impl Rect {
    fn hit(&self, o: [f32; 3], d: [f32; 3], tmax: f32) -> Option<f32> {
        let t = (self.c - o[self.axis]) / d[self.axis];
        if !(t >= 0.0 && t <= tmax) {
            return None;
        }
        for k in 0..2 {
            let i = (self.axis + 1 + k) % 3;
            let x = o[i] + d[i] * t;
            if !(x >= self.lo[k] && x <= self.hi[k]) {
                return None;
            }
        }
        Some(t)
    }
}
impl Bounded3 for Rect {
    fn bbox(&self) -> Bbox3 {
        let (mut a, mut b) = ([self.c - 0.125; 3], [self.c + 0.125; 3]);
        for k in 0..2 {
            let i = (self.axis + 1 + k) % 3;
            (a[i], b[i]) = (self.lo[k] - 0.125, self.hi[k] + 0.125);
        }
        Bbox3::new(pt3(a), pt3(b))
    }
}
impl IntersectsRay for Rect {
    fn do_intersect(&self, ray: Rayf) -> bool {
        self.hit(ray.origin.vec, ray.direction.vec, ray.tmax).is_some()
    }
    fn intersect(&self, ray: Rayf) -> Option<IntersectionResult> {
        let t = self.hit(ray.origin.vec, ray.direction.vec, ray.tmax)?;
        let z = [0.0f32; 3];
        Some(IntersectionResult {
            surface_interaction: SurfaceInteraction { p: ray.eval(t), n: nr3([0.0, 0.0, 1.0f32]), uv: Point2f::new(self.id, 0.5), dpdu: vec3(z), dpdv: vec3(z) },
            t_ray: t,
        })
    }
}
impl Primitive for Rect {}

/// A list is asked between additions, with rays that resemble each other.
fn list_history(s: &mut Src) -> Res {
    let mut list = if s.chance(1, 2) { PrimitiveList::new() } else { PrimitiveList::default() };
    let mut model: Vec<Rect> = Vec::new();
    let mut asked = 0;
    let mut hits = 0;
    let mut o: [f32; 3] = v3(s, 4.0);
    let mut d: [f32; 3] = dir(s, 0.5, 4.0);
    let mut tmax = f32::MAX;
    let rect = |s: &mut Src, id: usize| {
        let mut r = Rect { axis: s.pick(3), c: s.int(-16, 16) as f32 / 4.0, lo: [0.0; 2], hi: [0.0; 2], id: id as f32 };
        for k in 0..2 {
            let (a, b) = (s.int(-24, 24) as f32 / 4.0, s.int(0, 32) as f32 / 4.0);
            (r.lo[k], r.hi[k]) = (a, a + b);
        }
        r
    };
    for _ in 0..2 + s.pick(12) {
        match s.weighted(&[5, 1, 8, 2]) {
            0 => {
                let r = rect(s, model.len());
                note!(s, "add {:?}", r);
                list.add_primitive(r);
                model.push(r);
            }
            1 => {
                // a list that already holds something, perhaps nothing, perhaps was asked
                let mut l = PrimitiveList::new();
                let early = s.chance(1, 2);
                for _ in 0..s.pick(3) {
                    if early {
                        let _ = (l.bbox(), l.do_intersect(Rayf::new(pt3(o), vec3(d), tmax)));
                    }
                    let r = rect(s, model.len());
                    note!(s, "add nested {:?}", r);
                    l.add_primitive(r);
                    model.push(r);
                }
                if l.bbox().pmin[0] > l.bbox().pmax[0] && s.chance(1, 2) {
                    // nothing, wherever it is placed
                    let h = history::<f32>(s, 2, false);
                    list.add_primitive(TransformedPrimitive::new(l, h.t));
                } else {
                    list.add_primitive(l);
                }
            }
            2 => {
                match s.pick(7) {
                    5 | 6 if !model.is_empty() => {
                        // towards a member
                        let r = model[s.pick(model.len())];
                        let mut q = [r.c; 3];
                        for k in 0..2 {
                            q[(r.axis + 1 + k) % 3] = r.lo[k] + (r.hi[k] - r.lo[k]) * s.unit() as f32;
                        }
                        let v = [0, 1, 2].map(|i| q[i] - o[i]);
                        if norm(d3(v)) > 1e-2 {
                            d = v;
                        }
                    }
                    0 => o = v3(s, 4.0),
                    1 => d = dir(s, 0.5, 4.0),
                    2 => d = d.map(|c| -c),
                    3 => {
                        tmax = match s.pick(4) {
                            0 => f32::MAX,
                            1 => s.int(0, 16) as f32 / 4.0,
                            _ => s.uni(0.0, 4.0) as f32,
                        }
                    }
                    _ => {}
                }
                let ray = Rayf::new(pt3(o), vec3(d), tmax);
                let best = model.iter().filter_map(|r| r.hit(o, d, tmax)).fold(None, |m: Option<f32>, t| Some(m.map_or(t, |x| x.min(t))));
                let order = s.chance(1, 2);
                note!(s, "ask {:?} {:?} {:?}", o, d, tmax);
                let early = if order { Some(list.do_intersect(ray)) } else { None };
                let got = list.intersect(ray);
                let flag = early.unwrap_or_else(|| list.do_intersect(ray));
                ensure!(flag == best.is_some(), "do_intersect is {flag}, the nearest of {} members is at {best:?}", model.len());
                match (&got, best) {
                    (None, None) => {}
                    (Some(g), Some(b)) => {
                        ensure!(g.t_ray == b, "the parameter is {:?}, the nearest of {} members is at {b:?}", g.t_ray, model.len());
                        let i = g.surface_interaction.uv[0] as usize;
                        ensure!(i < model.len() && model[i].hit(o, d, tmax) == Some(b), "the interaction is that of member {i}");
                        hits += 1;
                    }
                    _ => return Err(format!("reported {got:?}, the nearest of {} members is at {best:?}", model.len())),
                }
                asked += 1;
            }
            _ => {
                let b = list.bbox();
                note!(s, "box");
                if model.is_empty() {
                    ensure!(!b.inside(pt3(o)), "the box of an empty list contains a point: {b:?}");
                } else {
                    let (mut lo, mut hi) = ([f32::INFINITY; 3], [f32::NEG_INFINITY; 3]);
                    for r in &model {
                        let x = r.bbox();
                        for i in 0..3 {
                            lo[i] = lo[i].min(x.pmin[i]);
                            hi[i] = hi[i].max(x.pmax[i]);
                        }
                    }
                    ensure!((0..3).all(|i| b.pmin[i] == lo[i] && b.pmax[i] == hi[i]), "the box of the list is {b:?}, the union {lo:?} {hi:?}");
                }
            }
        }
    }
    Ok(if asked >= 2 && hits >= 1 { Class::NonTrivial } else { Class::Trivial })
}

/// A random scene around the origin.
fn member(s: &mut Src, depth: usize) -> Dyn {
    match s.weighted(if depth == 0 { &[3, 3, 0, 0] } else { &[3, 3, 3, 2] }) {
        0 => {
            let r: f32 = pos(s, 0.2, 4.0);
            let (a, b) = (s.uni(-1.2, 0.5), s.uni(0.6, 1.2));
            let phi = if s.chance(1, 2) { std::f32::consts::PI } else { s.uni(-2.0, 3.0) as f32 };
            note!(s, "sphere {:?} {:?} {:?} {:?}", r, a as f32 * r, b as f32 * r, phi);
            Dyn(alloc_primitive(Sphere::new(r, a as f32 * r, b as f32 * r, phi)))
        }
        1 => {
            let a: [f32; 3] = v3(s, 5.0);
            let w: [f32; 3] = v3(s, 3.0);
            let b: [f32; 3] = [a[0] + w[0], a[1] + w[1], a[2] + w[2]];
            note!(s, "box {:?} {:?}", a, b);
            Dyn(alloc_primitive(Bbox3::new(pt3(a), pt3(b))))
        }
        2 => {
            note!(s, "transformed(");
            let h: Hist<f32> = history(s, 2, false);
            let m = member(s, depth - 1);
            note!(s, ")");
            Dyn(alloc_primitive(TransformedPrimitive::new(m, h.t)))
        }
        _ => {
            note!(s, "list(");
            let mut l = PrimitiveList::new();
            for _ in 0..s.pick(4) {
                l.add_primitive(member(s, depth - 1));
            }
            note!(s, ")");
            Dyn(alloc_primitive(l))
        }
    }
}

fn eq_si(a: &SurfaceInteraction, b: &SurfaceInteraction) -> bool {
    let f = |x: &[f32], y: &[f32]| x.iter().zip(y).all(|(p, q)| p == q || (p.is_nan() && q.is_nan()));
    f(&a.p.vec, &b.p.vec) && f(&a.n.vec, &b.n.vec) && f(&a.uv.vec, &b.uv.vec) && f(&a.dpdu.vec, &b.dpdu.vec) && f(&a.dpdv.vec, &b.dpdv.vec)
}

fn scene(s: &mut Src) -> Res {
    let (n, depth) = match s.weighted(&[100, 2, 1]) {
        0 => (1 + s.pick(5), 2),
        1 => (6 + s.pick(20), 1),
        _ => (20 + s.pick(80), 0),
    };
    let mut ms = Vec::new();
    for _ in 0..n {
        ms.push(member(s, depth));
    }
    let o: [f32; 3] = v3(s, 12.0);
    // aim at a member's box more often than not
    let d: [f32; 3] = match s.weighted(&[6, 2]) {
        0 => {
            let b = ms[s.pick(n)].bbox();
            let mut q = [0.0f32; 3];
            for (i, c) in q.iter_mut().enumerate() {
                let u = s.unit() as f32;
                let (l, h) = (b.pmin[i].max(-1e3), b.pmax[i].min(1e3));
                *c = l + (h - l) * u - o[i];
            }
            if norm(d3(q)) < 1e-3 || q.iter().any(|c| !c.is_finite()) {
                [0.0, 0.0, 1.0]
            } else {
                q
            }
        }
        _ => dir(s, 0.1, 10.0),
    };
    let tmax: f32 = match s.weighted(&[4, 3]) {
        0 => f32::MAX,
        _ => s.uni(0.0, 3.0) as f32,
    };
    note!(s, "ray from {:?} direction {:?} extent {:?}", o, d, tmax);
    let ray = Rayf::new(pt3(o), vec3(d), tmax);
    let own: Vec<Option<IntersectionResult>> = ms.iter().map(|m| m.intersect(ray)).collect();
    let best = own.iter().flatten().map(|g| g.t_ray).fold(None, |m: Option<f32>, t| Some(m.map_or(t, |x| x.min(t))));
    let hits = own.iter().flatten().count();
    // in order, in another order, with a part nested, with a part nested twice
    let mut perm: Vec<usize> = (0..n).collect();
    for i in (1..n).rev() {
        perm.swap(i, s.pick(i + 1));
    }
    let cut = s.pick(n + 1);
    let build = |ix: &[usize]| {
        let mut l = PrimitiveList::new();
        for i in ix {
            l.add_primitive(ms[*i].clone());
        }
        l
    };
    let id: Vec<usize> = (0..n).collect();
    let mut nest = PrimitiveList::new();
    nest.add_primitive(build(&perm[..cut]));
    for i in &perm[cut..] {
        nest.add_primitive(ms[*i].clone());
    }
    let mut deep = PrimitiveList::new();
    let mut inner = PrimitiveList::default();
    inner.add_primitive(build(&id[..cut]));
    deep.add_primitive(inner);
    deep.add_primitive(build(&id[cut..]));
    for (l, name) in [(build(&id), "in order"), (build(&perm), "permuted"), (nest, "partly nested"), (deep, "nested")] {
        let got = l.intersect(ray);
        ensure!(l.do_intersect(ray) == got.is_some(), "{name}: do_intersect is {}, intersect is {got:?}", l.do_intersect(ray));
        match (&got, best) {
            (None, None) => {}
            (Some(g), Some(b)) => {
                ensure!(g.t_ray == b, "{name}: the parameter is {:?}, the members' own {:?}", g.t_ray, own.iter().map(|x| x.map(|y| y.t_ray)).collect::<Vec<_>>());
                ensure!(g.t_ray <= tmax, "{name}: the parameter {:?} is beyond the extent {tmax:?}", g.t_ray);
                ensure!(
                    own.iter().flatten().any(|x| x.t_ray == b && eq_si(&x.surface_interaction, &g.surface_interaction)),
                    "{name}: the interaction {g:?} is none of the nearest members' {own:?}"
                );
            }
            _ => return Err(format!("{name}: reported {got:?}, members' own hits {own:?}")),
        }
        let mut u: Option<Bbox3> = None;
        for m in &ms {
            let b = m.bbox();
            if (0..3).any(|i| b.pmin[i] > b.pmax[i]) {
                continue; // an empty list
            }
            u = Some(match u {
                None => b,
                Some(x) => Bbox3 {
                    pmin: pt3([0, 1, 2].map(|i| x.pmin[i].min(b.pmin[i]))),
                    pmax: pt3([0, 1, 2].map(|i| x.pmax[i].max(b.pmax[i]))),
                },
            });
        }
        let b = l.bbox();
        match u {
            Some(u) => ensure!((0..3).all(|i| b.pmin[i] == u.pmin[i] && b.pmax[i] == u.pmax[i]), "{name}: the box is {b:?}, the union {u:?}"),
            None => ensure!(!b.inside(pt3(o)), "{name}: the box of nothing is {b:?}"),
        }
    }
    // a shorter extent never reports more, and never beyond itself
    if let Some(b) = best {
        let cutoff = b * s.unit() as f32;
        let l = build(&id);
        let r = Rayf::new(pt3(o), vec3(d), cutoff);
        if cutoff < b {
            ensure!(l.intersect(r).is_none() && !l.do_intersect(r), "with the extent {cutoff:?} the list reports {:?}, its nearest hit is at {b:?}", l.intersect(r));
        }
        let r = Rayf::new(pt3(o), vec3(d), b);
        ensure!(l.intersect(r).is_some_and(|g| g.t_ray == b), "with the extent {b:?} of its nearest hit the list reports {:?}", l.intersect(r));
    }
    Ok(if hits >= 2 { Class::NonTrivial } else { Class::Trivial })
}

pub fn c20() -> Property {
    Property {
        id: "C20",
        rule: "non-trivial = at least two members of the list are hit; stubs: at least two members and a hit; histories: two queries and a hit",
        laws: vec![
            Law { name: "stub lists", quick: 2_500_000, f: stub_list },
            Law { name: "scenes", quick: 1_000_000, f: scene },
            Law { name: "histories", quick: 1_500_000, f: list_history },
        ],
        sweeps: vec![],
        findings: vec![],
        assumptions: &["members are judged against their own answers; their correctness is C15-C19"],
    }
}
