//! C23: camera, scene and projection together.
use super::cam::{camera, concentric, sample, Cam};
use super::geom::EPS;
use super::scn::*;
use super::xf::{axis_of, moved, mv, scaled, turned, Hist};
use crate::engine::*;
use crate::gen::*;
use crate::{ensure, note};
use scarlet::cameras::camera::{Camera, CameraSample};
use scarlet::cameras::thin_lens::ThinLensCamera;
use scarlet::geometry::bbox::Bbox3;
use scarlet::geometry::primitive::*;
use scarlet::geometry::sphere::Sphere;
use scarlet::math::transform::Transform;
use scarlet::math::vector::{Point2f, Point3f};

struct Member {
    shape: Shape,
    levels: Vec<scarlet::math::transform::Transformf>,
    h: Hist<f32>,
}

/// A shape of about the given size, somewhere near the world point `c`.
fn member(s: &mut Src, c: V3, size: f64) -> Member {
    let near = |s: &mut Src, i: usize| c[i] + s.uni(-0.7, 0.7) * size;
    let at: [f32; 3] = t3([near(s, 0), near(s, 1), near(s, 2)]);
    let mut hs = vec![moved(at)];
    note!(s, "| at {:?}", at);
    if s.chance(2, 3) {
        let (axis, th): ([f32; 3], f32) = (axis_of(s), angle(s, 7.0));
        note!(s, "turned about {:?} by {:?}", axis, th);
        hs.push(turned(axis, th));
    }
    // the object's own unit
    let unit: f64 = if s.chance(1, 2) { 1.0 } else { size };
    let k: [f32; 3] = if s.chance(1, 2) {
        [(size / unit) as f32; 3]
    } else {
        let mut f = |_: usize| (size / unit * s.uni(0.4, 1.6) * if s.chance(1, 4) { -1.0 } else { 1.0 }) as f32;
        [f(0), f(1), f(2)]
    };
    if k != [1.0; 3] {
        note!(s, "scaled by {:?}", k);
        hs.push(scaled(k));
    }
    let shape = if s.chance(1, 2) {
        let r = unit as f32;
        let (z0, z1) = if s.chance(1, 2) { (-r, r) } else { ((s.uni(-1.2, 0.3) * unit) as f32, (s.uni(0.4, 1.2) * unit) as f32) };
        let phi = if s.chance(1, 2) { std::f32::consts::PI } else { s.uni(-2.0, 3.0) as f32 };
        note!(s, "sphere {:?} {:?} {:?} {:?}", r, z0, z1, phi);
        Shape::S(Sphere::new(r, z0, z1, phi))
    } else {
        let mut f = |sg: f64| (sg * unit * s.uni(0.1, 1.0)) as f32;
        let (a, b) = ([f(-1.0), f(-1.0), f(-1.0)], [f(1.0), f(1.0), f(1.0)]);
        note!(s, "box {:?} {:?}", a, b);
        Shape::B(Bbox3::new(pt3(a), pt3(b)))
    };
    let mut h = hs[0];
    for x in &hs[1..] {
        h = h.times(x);
    }
    // one transform, or one per level
    let levels = if s.chance(1, 2) { vec![h.t] } else { hs.iter().map(|x| x.t).collect() };
    Member { shape, levels, h }
}

fn seen(s: &mut Src) -> Res {
    let (c, cam) = camera(s);
    let pf = sample(s);
    let pl = if s.chance(1, 4) { [0.5f32, 0.5] } else { sample(s) };
    note!(s, "film {:?} lens {:?}", pf, pl);
    let ray = cam.generate_ray(CameraSample::new(Point2f::new(pf[0], pf[1]), Point2f::new(pl[0], pl[1])));
    let (wo, wd) = (d3(ray.origin.vec), d3(ray.direction.vec));
    let fd = c.fd as f64;
    // members along and beside the ray
    let n = 1 + s.pick(4);
    let mut ms = Vec::new();
    for _ in 0..n {
        let far = fd * 10f64.powf(s.uni(-0.6, 0.9));
        let size = far * 10f64.powf(s.uni(-1.5, -0.3));
        ms.push(member(s, add(wo, mul(wd, far)), size));
    }
    let mut list = PrimitiveList::new();
    let mut inner = PrimitiveList::new();
    let cut = if s.chance(1, 2) { n } else { s.pick(n + 1) };
    for (i, m) in ms.iter().enumerate() {
        let mut p = match &m.shape {
            Shape::S(x) => Dyn(alloc_primitive(*x)),
            Shape::B(x) => Dyn(alloc_primitive(*x)),
        };
        for t in m.levels.iter().rev() {
            p = Dyn(alloc_primitive(TransformedPrimitive::new(p, *t)));
        }
        if i < cut {
            list.add_primitive(p);
        } else {
            inner.add_primitive(p);
        }
    }
    if cut < n {
        list.add_primitive(inner);
    }
    let first = look(s, &c, &cam, &ms, &list, pf, pl)?;
    // the same camera and scene, other samples
    if s.chance(1, 3) {
        let mut shift = |x: f32| (x + s.uni(-0.1, 0.1) as f32).clamp(0.0, 1.0);
        let qf = [[pf[0], shift(pf[1])], [shift(pf[0]), pf[1]], pf][s.pick(3)];
        let ql = if s.chance(1, 2) { pl } else { sample(s) };
        look(s, &c, &cam, &ms, &list, qf, ql).map_err(|m| format!("later sample: {m}"))?;
        look(s, &c, &cam, &ms, &list, pf, pl).map_err(|m| format!("first sample again: {m}"))?;
    }
    Ok(first)
}

fn look(s: &mut Src, c: &Cam, cam: &ThinLensCamera, ms: &[Member], list: &PrimitiveList, pf: [f32; 2], pl: [f32; 2]) -> Res {
    note!(s, "film {:?} lens {:?}", pf, pl);
    let ray = cam.generate_ray(CameraSample::new(Point2f::new(pf[0], pf[1]), Point2f::new(pl[0], pl[1])));
    let fd = c.fd as f64;
    let got = list.intersect(ray);
    ensure!(list.do_intersect(ray) == got.is_some(), "do_intersect is {}, intersect is {got:?}", list.do_intersect(ray));
    let mut all = Vec::new();
    for m in ms {
        match outcomes(&m.shape, &m.levels, ray) {
            Some(o) => all.push(o),
            None => return Ok(Class::Ambiguous),
        }
    }
    let shown = || all.iter().map(|o| (o.0.iter().map(|c| c.t).collect::<Vec<_>>(), o.1)).collect::<Vec<_>>();
    let Some(g) = got else {
        ensure!(all.iter().all(|o| o.1), "nothing is seen; the members are hit at {:?}", shown());
        return Ok(Class::Trivial);
    };
    let t = g.t_ray as f64;
    // nothing certain in front of it
    for o in &all {
        if !o.1 {
            let last = o.0.iter().map(|c| c.t.1).fold(0.0, f64::max);
            ensure!(t <= last, "the reported parameter is {t:?}, a nearer surface is hit by {last:?}: {:?}", shown());
        }
    }
    let mut verdict = Err(format!("reported {g:?}; the members are hit at {:?}", shown()));
    for (m, o) in ms.iter().zip(&all) {
        let fit: Vec<Cand> = o.0.iter().filter(|c| c.t.0 <= t && t <= c.t.1).copied().collect();
        if !fit.is_empty() {
            match judge_hit(&fit, &m.levels, &m.h, &g, ray) {
                Ok(x) => {
                    verdict = Ok(x);
                    break;
                }
                Err(e) => verdict = Err(e),
            }
        }
    }
    let (tolp, worst) = verdict?;
    // where the visible point is on the film: as seen through the lens point
    let (fov, asp) = (c.fov as f64, c.aspect as f64);
    let tan = (0.5 * fov).tan();
    let f = [fd * tan * (2.0 * pf[0] as f64 - 1.0), fd * tan / asp * (2.0 * pf[1] as f64 - 1.0), -fd];
    let q = concentric(pl);
    let l = [c.radius as f64 * q[0], c.radius as f64 * q[1], 0.0];
    let d = unit(sub(f, l));
    let depth = -t * d[2];
    let want = [(l[0] + t * d[0]) / (depth * tan), (l[1] + t * d[1]) / (depth * tan)];
    // errors of the camera's ray, of the hit and of the view, as lengths
    let k = 16.0 * EPS * (1.0 + fd / (fd - c.fl as f64) + fov * (1.0 + tan * tan) / tan);
    let (ef, el) = (k * fd * (1.0 + tan + tan / asp), 8.0 * EPS * c.radius as f64);
    let ed = 2.0 * (ef + el) / norm(sub(f, l)) + 8.0 * EPS;
    let eps = 2.0 * c.h.eps();
    let ao = mv(&c.h.ami, [l[0].abs(), l[1].abs(), 0.0, 1.0]);
    let ad = mv(&c.h.ami, [d[0].abs(), d[1].abs(), d[2].abs(), 0.0]);
    let p = g.surface_interaction.p;
    let av = mv(&c.h.am, [p[0].abs() as f64, p[1].abs() as f64, p[2].abs() as f64, 1.0]);
    let len = |v: [f64; 4]| norm([v[0], v[1], v[2]]);
    let e = norm(tolp) + eps * len(ao) + 2.0 * el + t * (eps * len(ad) + 2.0 * ed) + 2.0 * eps * len(av) + 1e-30;
    if !(e < 0.02 * depth) {
        return Ok(Class::Trivial);
    }
    let (near, far) = ((depth * s.uni(0.1, 0.95)) as f32, (depth * s.uni(1.05, 20.0)) as f32);
    note!(s, "projected with near {near:?} far {far:?}");
    let proj = Transform::perspective(c.fov, near, far);
    let v: Point3f = c.h.t.map(p);
    let one: Point3f = proj.map(v);
    let two: Point3f = (proj * c.h.t).map(p);
    let (nr, fr) = (near as f64, far as f64);
    let wz = fr / (fr - nr) * (1.0 - nr / depth);
    let ctan = 32.0 * EPS * (1.0 + fov * (1.0 + tan * tan) / tan);
    for (g, name) in [(one, "view, then projection"), (two, "their product")] {
        for i in 0..2 {
            let e = 4.0 * e / depth * (1.0 / tan + want[i].abs()) + ctan * want[i].abs();
            ensure!((g[i] as f64 - want[i]).abs() <= e, "{name}: the visible point is projected to {:?}, should be {want:?} (+- {e:e})", g.vec);
        }
        let cz = fr / (fr - nr);
        let e = 4.0 * cz * (nr / depth * e / depth + e / depth * 2.0 * EPS + 16.0 * EPS * (1.0 + nr / depth + cz)) + 4.0 * cz * e * EPS;
        let e = e + 8.0 * cz * eps * len(av) / depth;
        ensure!((g[2] as f64 - wz).abs() <= e, "{name}: the visible point is projected to {:?}, its depth {depth} to {wz} (+- {e:e})", g.vec);
    }
    Ok(if worst < 0.02 && e < 1e-3 * depth * tan { Class::NonTrivial } else { Class::Trivial })
}

pub fn c23() -> Property {
    Property {
        id: "C23",
        rule: "non-trivial = a decided visible surface whose normal is known within 2 % and whose film position is known within 0.1 %",
        laws: vec![Law { name: "what the camera sees", quick: 1_500_000, f: seen }],
        sweeps: vec![],
        findings: vec![],
        assumptions: &[
            "scenes of one to four placed spheres and boxes, flat or nested; a camera that starts within rounding of a box or a ray within rounding of tangency is ambiguous",
            "tolerances follow the camera's, the placement's and the view's own magnitudes",
        ],
    }
}
