//! C17, C18: clipped spheres.
use super::geom::*;
use crate::engine::*;
use crate::gen::*;
use crate::{ensure, note};
use scarlet::geometry::bbox::Bbox3;
use scarlet::geometry::primitive::{Bounded3, IntersectsRay, SurfaceInteraction};
use scarlet::geometry::ray::Rayf;
use scarlet::geometry::sphere::Sphere;

const PI: f64 = std::f64::consts::PI;

pub fn spec(s: &Sphere) -> SphereSpec {
    SphereSpec { r: s.radius as f64, z0: s.z_min as f64, z1: s.z_max as f64, phi: s.phi_max as f64 }
}

/// A sphere: full, with a z range beyond the sphere, or clipped by either or
/// both limits.
pub fn sphere(s: &mut Src) -> Sphere {
    let u = units(s);
    let r = (pos::<f32>(s, 0.1, 100.0).d() * u) as f32;
    let (mut z0, mut z1) = match s.weighted(&[3, 2, 4, 2, 2]) {
        0 => (-r, r),
        1 => (-2.0 * r, 1.5 * r),
        2 => {
            let a = s.uni(-1.0, 1.0) as f32 * r;
            let b = s.uni(-1.0, 1.0) as f32 * r;
            (a.min(b), a.max(b))
        }
        3 => {
            let a = s.int(-3, 3) as f32 / 4.0 * r;
            if s.chance(1, 2) {
                (-r, a)
            } else {
                (a, r)
            }
        }
        _ => {
            let a = s.uni(-1.0, 1.0) as f32 * r;
            if s.chance(1, 2) {
                (-r, a)
            } else {
                (a, r)
            }
        }
    };
    if z1 - z0 < 0.02 * r {
        (z0, z1) = (-r, r);
    }
    let phi: f32 = match s.weighted(&[4, 4, 3]) {
        0 => PI as f32,
        1 => s.uni(-3.0, 3.14) as f32,
        _ => (s.int(-11, 11) as f64 * PI / 12.0) as f32,
    };
    note!(s, "sphere radius {r:?} z {z0:?}..{z1:?} phi {phi:?}");
    Sphere::new(r, z0, z1, phi)
}

/// A point of the whole sphere surface, in f64: anywhere, at the poles, the
/// seam, the equator, the clip boundaries.
pub fn on_sphere(s: &mut Src, sp: &SphereSpec) -> V3 {
    let th = match s.weighted(&[8, 1, 1, 1, 2, 2]) {
        0 => s.uni(-1.0, 1.0).acos(),
        1 => 0.0,
        2 => PI,
        3 => PI / 2.0,
        4 => (sp.z0 / sp.r).clamp(-1.0, 1.0).acos(),
        _ => (sp.z1 / sp.r).clamp(-1.0, 1.0).acos(),
    };
    let phi = match s.weighted(&[8, 1, 2, 2]) {
        0 => s.uni(-PI, PI),
        1 => PI,
        2 => s.int(-4, 4) as f64 * PI / 4.0,
        _ => sp.phi,
    };
    let th = (th + if s.chance(1, 4) { s.uni(-0.05, 0.05) } else { 0.0 }).clamp(0.0, PI);
    [sp.r * th.sin() * phi.cos(), sp.r * th.sin() * phi.sin(), sp.r * th.cos()]
}

pub struct SphereRay {
    pub o: [f32; 3],
    pub d: [f32; 3],
    pub tmax: f32,
}

pub fn sphere_ray(s: &mut Src, sp: &SphereSpec) -> SphereRay {
    let r = sp.r;
    let a = on_sphere(s, sp);
    let o: V3 = match s.weighted(&[4, 4, 2, 2, 2]) {
        // outside, at some distance in front of a
        0 => {
            let out = d3(dir::<f32>(s, 1.0, 1.0));
            add(a, mul(out, s.uni(0.05, 6.0) * r))
        }
        // inside
        1 => {
            let out = d3(dir::<f32>(s, 1.0, 1.0));
            mul(out, s.uni(0.0, 0.98) * r)
        }
        2 => d3(v3::<f32>(s, 4.0 * r)),
        // on the surface
        3 => on_sphere(s, sp),
        // on a coordinate axis
        _ => {
            let mut v = [0.0; 3];
            v[s.pick(3)] = s.int(-8, 8) as f64 / 2.0 * r;
            v
        }
    };
    let o: [f32; 3] = t3(o);
    let mut d = sub(a, d3(o));
    if s.chance(1, 6) {
        // aim beside the surface point
        let k = s.uni(-0.6, 0.6) * r;
        d = add(d, mul(d3(dir::<f32>(s, 1.0, 1.0)), k));
    }
    if norm(d) < 1e-2 * r {
        d = [0.0, 0.0, if s.chance(1, 2) { -r } else { r }];
    }
    let unit_t = match s.weighted(&[3, 2, 2]) {
        0 => 1.0,
        1 => 1.0 / norm(d),
        _ => match s.weighted(&[3, 1]) {
            0 => pos::<f32>(s, 1e-2, 1e2).d(),
            _ => pos::<f32>(s, 1e-9, 1e9).d(),
        },
    };
    // the quadratic's terms stay far from overflow and underflow
    let k = norm(d) * (norm(d3(o)) + r);
    let unit_t = unit_t.clamp(1e-12 / k, 1e15 / k).max(1e-14 / norm(d));
    let mut d: [f32; 3] = t3(mul(d, unit_t));
    if s.chance(1, 10) {
        d = d.map(|c| -c);
    }
    // extents around the roots
    let tmax = match s.weighted(&[5, 3, 2, 2, 1]) {
        0 => f32::MAX as f64,
        1 => {
            // between, before or after the roots
            let (dd, oo) = (d3(d), d3(o));
            let (a, b, c) = (dot(dd, dd), dot(oo, dd), dot(oo, oo) - r * r);
            let q = (b * b - a * c).max(0.0).sqrt();
            let (t0, t1) = ((-b - q) / a, (-b + q) / a);
            let u = s.uni(-1.5, 1.5);
            ((t0 + t1) / 2.0 + u * (t1 - t0) / 2.0).max(0.0)
        }
        2 => s.uni(0.0, 3.0) / unit_t,
        3 => s.uni(0.0, 10.0),
        _ => f64::INFINITY,
    };
    let tmax = tmax as f32;
    note!(s, "ray from {:?} direction {:?} extent {:?}", o, d, tmax);
    SphereRay { o, d, tmax }
}

fn hits(s: &mut Src) -> Res {
    let sph = sphere(s);
    let sp = spec(&sph);
    let r = sphere_ray(s, &sp);
    let (o, d) = (d3(r.o), d3(r.d));
    let ray = Rayf::new(pt3(r.o), vec3(r.d), r.tmax);
    let got = sph.intersect(ray);
    let flag = sph.do_intersect(ray);
    ensure!(flag == got.is_some(), "do_intersect is {flag}, intersect is {got:?}");
    if let Some(g) = &got {
        // whatever the margins say
        ensure!(g.t_ray >= 0.0 && g.t_ray <= r.tmax, "the parameter {:?} leaves [0, {:?}]", g.t_ray, r.tmax);
        let p = d3(g.surface_interaction.p.vec);
        ensure!(p.iter().all(|c| c.is_finite()), "the hit point is {p:?}");
    }
    let w = sphere_oracle(sp, o, d, r.tmax as f64, 0.0, 0.0);
    let (r0, r1) = match w {
        SphereOracle::Clear => {
            ensure!(got.is_none(), "reported {got:?}, but the line misses the sphere");
            return Ok(Class::Trivial);
        }
        SphereOracle::Grazing => return Ok(Class::Ambiguous),
        SphereOracle::Roots(a, b) => (a, b),
    };
    let (cand, none) = allowed(r0, r1);
    match &got {
        None => {
            ensure!(none, "missed: the ray meets the kept surface at {:?} (roots {r0:?}, {r1:?})", cand.last().unwrap().t);
        }
        Some(g) => {
            let t = g.t_ray as f64;
            let Some(c) = cand.iter().find(|c| (c.t - t).abs() <= c.e) else {
                return Err(format!("the parameter is {:?}; possible: {:?} (roots {r0:?}, {r1:?})", g.t_ray, cand.iter().map(|c| (c.t, c.e)).collect::<Vec<_>>()));
            };
            let p = d3(g.surface_interaction.p.vec);
            let at = add(o, mul(d, t));
            ensure!(norm(sub(p, at)) <= c.ep, "the hit point {p:?} is not the ray's point {at:?}");
            ensure!((norm(p) - sp.r).abs() <= 2.0 * c.ep, "the hit point {p:?} is not on the sphere of radius {}", sp.r);
            ensure!(clip(sp, p, c.ep) != Is::Out, "the hit point {p:?} is clipped away");
        }
    }
    let decided = cand.len() <= 1 && (none == cand.is_empty());
    Ok(if !decided {
        Class::Ambiguous
    } else if got.is_some() || r0.is == Is::Out {
        Class::NonTrivial
    } else {
        Class::Trivial
    })
}

/// Turning, mirroring and scaling the whole configuration.
fn symmetric(s: &mut Src) -> Res {
    let r: f32 = pos(s, 0.1, 100.0);
    let full = Sphere::new(r, -r * 1.25, r * 1.25, PI as f32);
    note!(s, "full sphere radius {r:?}");
    let sp = spec(&full);
    let q = sphere_ray(s, &sp);
    let ray = Rayf::new(pt3(q.o), vec3(q.d), q.tmax);
    let got = full.intersect(ray);
    // exact symmetries: powers of two, sign changes
    let k = [0.5f32, 2.0, 4.0][s.pick(3)];
    let big = Sphere::new(r * k, -r * 1.25 * k, r * 1.25 * k, PI as f32);
    let sc = Rayf::new(pt3(q.o.map(|c| c * k)), vec3(q.d.map(|c| c * k)), q.tmax);
    let sg = [0, 1, 2].map(|_| if s.chance(1, 2) { -1.0f32 } else { 1.0 });
    let mir = Rayf::new(
        pt3([q.o[0] * sg[0], q.o[1] * sg[1], q.o[2] * sg[2]]),
        vec3([q.d[0] * sg[0], q.d[1] * sg[1], q.d[2] * sg[2]]),
        q.tmax,
    );
    let slow = Rayf::new(pt3(q.o), vec3(q.d.map(|c| c / k)), q.tmax * k);
    note!(s, "scale {k} signs {:?}", sg);
    if let SphereOracle::Roots(a, b) = sphere_oracle(sp, d3(q.o), d3(q.d), q.tmax as f64, 0.0, 0.0) {
        let (cand, none) = allowed(a, b);
        if !(cand.len() <= 1 && none == cand.is_empty()) {
            return Ok(Class::Ambiguous);
        }
        let e = cand.first().map_or(0.0, |c| 2.0 * c.e);
        for (h, f, n) in [(big.intersect(sc), 1.0, "scaled"), (full.intersect(mir), 1.0, "mirrored"), (full.intersect(slow), k as f64, "slower")] {
            match (&got, &h) {
                (None, None) => {}
                (Some(x), Some(y)) => ensure!((x.t_ray as f64 - y.t_ray as f64 / f).abs() <= e, "{n}: the parameter goes from {:?} to {:?}", x.t_ray, y.t_ray),
                _ => return Err(format!("{n}: {got:?} becomes {h:?}")),
            }
        }
        return Ok(if got.is_some() { Class::NonTrivial } else { Class::Trivial });
    }
    Ok(Class::Ambiguous)
}

/// Rays for which every sensible computation is exact, so that the ends of the
/// extent, of the ray and of the clip count exactly.
fn edges(s: &mut Src) -> Res {
    let k = 2f32.powi(s.int(-3, 5) as i32);
    if s.chance(1, 2) {
        // along an axis, in steps of powers of two
        let r = s.int(1, 6) as f32;
        let m = s.int(0, 12) as f32;
        let j = 2f32.powi(s.int(-4, 4) as i32);
        let (ax, sg) = (s.pick(3), if s.chance(1, 2) { 1.0f32 } else { -1.0 });
        let inward = s.chance(2, 3);
        let mut o = [0.0f32; 3];
        let mut d = [0.0f32; 3];
        o[ax] = sg * m * k;
        d[ax] = if inward { -sg * j * k } else { sg * j * k };
        let (t0, t1) = if inward { ((m - r) / j, (m + r) / j) } else { ((-m - r) / j, (r - m) / j) };
        let tmax = match s.pick(7) {
            0 => t0,
            1 => t1,
            2 => t0.next_down(),
            3 => t1.next_down(),
            4 => t0.next_up(),
            5 => (t0 + t1) / 2.0,
            _ => f32::MAX,
        };
        let tmax = if tmax >= 0.0 { tmax } else { 0.0 };
        let sph = Sphere::new(r * k, -2.0 * r * k, 2.0 * r * k, PI as f32);
        note!(s, "full sphere radius {:?}, ray from {o:?} direction {d:?} extent {tmax:?}", r * k);
        let ray = Rayf::new(pt3(o), vec3(d), tmax);
        let want = if t0 >= 0.0 && t0 <= tmax {
            Some(t0)
        } else if t1 >= 0.0 && t1 <= tmax {
            Some(t1)
        } else {
            None
        };
        let got = sph.intersect(ray).map(|g| g.t_ray);
        ensure!(got == want, "the parameter is {got:?}, should be {want:?}");
        ensure!(sph.do_intersect(ray) == want.is_some(), "do_intersect is {}", want.is_none());
        return Ok(Class::NonTrivial);
    }
    // in the plane z = 0, which bounds the clip
    let r: f32 = pos(s, 0.1, 100.0);
    let (z0, z1) = match s.pick(3) {
        0 => (0.0, r * s.uni(0.1, 2.0) as f32),
        1 => (-r * s.uni(0.1, 2.0) as f32, 0.0),
        _ => (0.0, r),
    };
    let sph = Sphere::new(r, z0, z1, PI as f32);
    let full = Sphere::new(r, -r, r, PI as f32);
    let mut q = sphere_ray(s, &SphereSpec { r: r as f64, z0: -r as f64, z1: r as f64, phi: PI });
    q.o[2] = 0.0;
    q.d[2] = if s.chance(1, 4) { -0.0 } else { 0.0 };
    if q.d[0].abs() + q.d[1].abs() < 1e-3 * r {
        q.d[0] = r;
    }
    note!(s, "clipped to z {z0:?}..{z1:?}, the ray moved to z = 0: from {:?} direction {:?}", q.o, q.d);
    let ray = Rayf::new(pt3(q.o), vec3(q.d), q.tmax);
    let (a, b) = (full.intersect(ray).map(|g| g.t_ray), sph.intersect(ray).map(|g| g.t_ray));
    ensure!(a == b, "in the plane that bounds the clip the parameter is {b:?}; {a:?} without the clip");
    Ok(if a.is_some() { Class::NonTrivial } else { Class::Trivial })
}

pub fn c17() -> Property {
    Property {
        id: "C17",
        rule: "non-trivial = a decided hit, or a decided miss in which the near root is behind, beyond or clipped away",
        laws: vec![
            Law { name: "sphere hits", quick: 6_000_000, f: hits },
            Law { name: "symmetric configurations", quick: 1_500_000, f: symmetric },
            Law { name: "exact edges", quick: 1_500_000, f: edges },
        ],
        sweeps: vec![],
        findings: vec![],
        assumptions: &[
            "roots are known within first-order error bounds of 24 roundings; within them of tangency, of the clip or of the extent a case is ambiguous",
            "radius 1e-6 to 1e7, direction lengths for which the quadratic neither overflows nor underflows (1e-14 to 1e15 over the distances), z range at least 2 % of the radius, azimuth limit -3 to pi",
        ],
    }
}

// ---------------------------------------------------------------------- C18

fn surface(s: &mut Src) -> Res {
    let sph = sphere(s);
    let sp = spec(&sph);
    let r = sphere_ray(s, &sp);
    let (o, d) = (d3(r.o), d3(r.d));
    limits(&sph, &sp)?;
    let ray = Rayf::new(pt3(r.o), vec3(r.d), r.tmax);
    let Some(g) = sph.intersect(ray) else {
        return Ok(Class::Trivial);
    };
    let si = &g.surface_interaction;
    judge_surface(&sph, &sp, o, d, g.t_ray as f64, si)
}

fn judge_surface(sph: &Sphere, sp: &SphereSpec, o: V3, d: V3, t: f64, si: &scarlet::geometry::primitive::SurfaceInteraction) -> Res {
    let r = sp.r;
    let p = d3(si.p.vec);
    // relative error of the hit point
    let off = (norm(p) - r).abs();
    let ep = (16.0 * EPS * (norm(o) + t * norm(d)) + off) / r;
    // normal: everywhere
    let n = d3(si.n.vec);
    let rho = p[0].hypot(p[1]) / r;
    let en = 64.0 * EPS + 4.0 * ep + (32.0 * EPS / rho.max(1e-9)).min(1e-4);
    ensure!((norm(n) - 1.0).abs() <= 1e-5, "the normal {n:?} at {p:?} is not a unit vector");
    ensure!(norm(sub(n, mul(p, 1.0 / norm(p)))) <= en, "the normal at {p:?} is {n:?}");
    let b = sph.bbox();
    inside_box(&b, p, ep * r)?;
    let (u, v) = (si.uv[0] as f64, si.uv[1] as f64);
    let rp = sph.phi_max as f64 + PI;
    let rt = sph.theta_max as f64 - sph.theta_min as f64;
    if rho < 0.05 {
        return Ok(Class::Ambiguous);
    }
    if ep > 1e-3 {
        return Ok(Class::Ambiguous);
    }
    let ea = 24.0 * EPS * (1.0 + 1.0 / rho) + 3.0 * ep / rho;
    ensure!(
        u >= -2.0 * ea / rp && u <= 1.0 + 2.0 * ea / rp && v >= -2.0 * ea / rt.abs() && v <= 1.0 + 2.0 * ea / rt.abs(),
        "(u, v) = ({u}, {v}) at {p:?}"
    );
    let phi = u * rp - PI;
    let th = sph.theta_min as f64 + v * rt;
    let q = [r * th.sin() * phi.cos(), r * th.sin() * phi.sin(), r * th.cos()];
    ensure!(norm(sub(q, p)) <= 4.0 * ea * r, "the parametrisation at ({u}, {v}) is {q:?}, the hit point {p:?}");
    let du = [-q[1] * rp, q[0] * rp, 0.0];
    let dv = [r * th.cos() * phi.cos() * rt, r * th.cos() * phi.sin() * rt, -r * th.sin() * rt];
    let (gu, gv) = (d3(si.dpdu.vec), d3(si.dpdv.vec));
    ensure!(norm(sub(gu, du)) <= 8.0 * ea * r * rp, "dp/du at {p:?} is {gu:?}, should be {du:?}");
    ensure!(norm(sub(gv, dv)) <= 8.0 * ea * r * rt.abs(), "dp/dv at {p:?} is {gv:?}, should be {dv:?}");
    // central differences of the documented parametrisation: an independent
    // reading of the tangents
    let f = |u: f64, v: f64| {
        let phi = u * rp - PI;
        let th = sph.theta_min as f64 + v * rt;
        [r * th.sin() * phi.cos(), r * th.sin() * phi.sin(), r * th.cos()]
    };
    let h = 1e-5;
    let nu = mul(sub(f(u + h, v), f(u - h, v)), 0.5 / h);
    let nv = mul(sub(f(u, v + h), f(u, v - h)), 0.5 / h);
    ensure!(norm(sub(gu, nu)) <= (8.0 * ea + 1e-7) * r * rp, "dp/du at {p:?} is {gu:?}, the difference quotient {nu:?}");
    ensure!(norm(sub(gv, nv)) <= (8.0 * ea + 1e-7) * r * rt.abs(), "dp/dv at {p:?} is {gv:?}, the difference quotient {nv:?}");
    Ok(Class::NonTrivial)
}

fn inside_box(b: &Bbox3, p: V3, e: f64) -> Result<(), String> {
    for i in 0..3 {
        let (l, h) = (b.pmin[i] as f64, b.pmax[i] as f64);
        ensure!(p[i] >= l - e && p[i] <= h + e, "the point {p:?} of the surface is outside the bounding box {b:?}");
    }
    Ok(())
}

fn limits(sph: &Sphere, sp: &SphereSpec) -> Result<(), String> {
    for (t, z, n) in [(sph.theta_min, sp.z0, "theta_min"), (sph.theta_max, sp.z1, "theta_max")] {
        let c = (z / sp.r).clamp(-1.0, 1.0);
        let w = c.acos();
        // acos is steep near its ends
        let e = 16.0 * EPS + (8.0 * EPS / (1.0 - c * c).sqrt().max(1e-9)).min(4.0 * EPS.sqrt());
        ensure!((t as f64 - w).abs() <= e, "{n} of {sph:?} is {t:?}, should be {w}");
    }
    Ok(())
}

/// A hit at a pole exactly.
fn poles(s: &mut Src) -> Res {
    let r: f32 = pos(s, 0.1, 100.0);
    let (z0, z1) = match s.pick(3) {
        0 => (-r, r),
        1 => (-2.0 * r, 2.0 * r),
        _ => (-r, r * 1.5),
    };
    let phi: f32 = if s.chance(1, 3) { s.uni(0.1, 3.0) as f32 } else { PI as f32 };
    let sph = Sphere::new(r, z0, z1, phi);
    let up = s.chance(1, 2);
    let sg = if up { 1.0f32 } else { -1.0 };
    let k = s.int(2, 8) as f32;
    // from outside towards the pole, or from the centre out of it
    let out = s.chance(1, 2);
    let len: f32 = pos(s, 0.25, 4.0);
    let (o, d) = if out { ([0.0, 0.0, sg * k * r], [0.0, 0.0, -sg * len]) } else { ([0.0f32; 3], [0.0, 0.0, sg * len]) };
    note!(s, "sphere radius {r:?} z {z0:?}..{z1:?} phi {phi:?}, ray from {o:?} direction {d:?}");
    let ray = Rayf::new(pt3(o), vec3(d), f32::MAX);
    let Some(g) = sph.intersect(ray) else {
        // within rounding of the clip
        let tight = (if up { z1 - r } else { -r - z0 }).abs() <= 1e-5 * r;
        ensure!(tight, "the pole is not hit");
        return Ok(Class::Ambiguous);
    };
    let n = d3(g.surface_interaction.n.vec);
    if (g.surface_interaction.p.z() - sg * r).abs() > 1e-3 * r {
        // the other pole, where this one is within rounding of the clip
        let tight = (if up { z1 - r } else { -r - z0 }).abs() <= 1e-5 * r;
        ensure!(tight, "the far pole is hit instead of the near one");
        return Ok(Class::Ambiguous);
    }
    ensure!(norm(sub(n, [0.0, 0.0, sg as f64])) <= 1e-5, "the normal at the pole is {n:?}");
    Ok(Class::NonTrivial)
}

fn bounds_and_area(s: &mut Src) -> Res {
    let sph = sphere(s);
    let sp = spec(&sph);
    limits(&sph, &sp)?;
    // a point of the clipped surface
    let p = on_sphere(s, &sp);
    note!(s, "point {:?}", p);
    let kept = clip(sp, p, 0.0) != Is::Out;
    if kept {
        let z = [p[0], p[1], p[2].clamp(sp.z0, sp.z1)];
        inside_box(&sph.bbox(), z, 8.0 * EPS * sp.r)?;
    }
    let (bx, e) = (sph.bbox(), 8.0 * EPS * sp.r);
    let most = [(-sp.r, sp.r), (-sp.r, sp.r), (sp.z0, sp.z1)];
    for i in 0..3 {
        let (l, h) = most[i];
        let e = e + 8.0 * EPS * l.abs().max(h.abs());
        ensure!(bx.pmin[i] as f64 >= l - e && bx.pmax[i] as f64 <= h + e, "the box {bx:?} of {sph:?} is larger than the sphere between its clip heights");
    }
    // area
    let (a, b) = (sp.z0.clamp(-sp.r, sp.r), sp.z1.clamp(-sp.r, sp.r));
    let w = (sp.phi + PI) * sp.r * (b - a);
    let e = 16.0 * EPS * (sp.r * (sp.phi.abs() + PI) * (a.abs() + b.abs()));
    ensure!((sph.area() as f64 - w).abs() <= e, "the area of {sph:?} is {:?}, should be {w}", sph.area());
    // adjoining patches
    let u = s.uni(0.1, 0.9);
    let m = (sp.z0 + u * (sp.z1 - sp.z0)) as f32;
    let q = (-PI + u * (sp.phi + PI)) as f32;
    let r = sph.radius;
    if sph.z_min < m && m < sph.z_max {
        let parts = Sphere::new(r, sph.z_min, m, sph.phi_max).area() as f64 + Sphere::new(r, m, sph.z_max, sph.phi_max).area() as f64;
        ensure!((parts - sph.area() as f64).abs() <= 4.0 * e, "the areas below and above {m:?} add up to {parts}, not {:?}", sph.area());
    }
    let rest = (sp.phi + PI) as f32 - PI as f32 - q + 0.0;
    let first = Sphere::new(r, sph.z_min, sph.z_max, q).area() as f64;
    // the rest of the azimuths, turned to start at -pi
    let second = Sphere::new(r, sph.z_min, sph.z_max, (-PI) as f32 + rest).area() as f64;
    ensure!(
        (first + second - sph.area() as f64).abs() <= 8.0 * e + 16.0 * EPS * sp.r * PI * 2.0 * (b - a),
        "the areas up to and from azimuth {q:?} add up to {}, not {:?}",
        first + second,
        sph.area()
    );
    Ok(if kept { Class::NonTrivial } else { Class::Trivial })
}

/// A surface interaction built from its tangents.
fn interaction(s: &mut Src) -> Res {
    let p: [f32; 3] = v3(s, 100.0);
    let (u, v): ([f32; 3], [f32; 3]) = (v3(s, 10.0), v3(s, 10.0));
    let uv = [s.unit() as f32, s.unit() as f32];
    note!(s, "interaction at {p:?}, uv {uv:?}, tangents {u:?} {v:?}");
    let c = cross(d3(u), d3(v));
    let m = norm(d3(u)) * norm(d3(v));
    let g = SurfaceInteraction::new(pt3(p), uv.into(), vec3(u), vec3(v));
    ensure!(g.p.vec == p && g.uv.vec == uv && g.dpdu.vec == u && g.dpdv.vec == v, "the interaction is {g:?}");
    if norm(c) < 1e-2 * m || m < 1e-6 {
        return Ok(Class::Trivial);
    }
    let n = d3(g.n.vec);
    ensure!((norm(n) - 1.0).abs() <= 1e-5, "the normal {n:?} is not a unit vector");
    ensure!(norm(sub(n, mul(c, 1.0 / norm(c)))) <= 16.0 * EPS * m / norm(c) + 16.0 * EPS, "the normal of tangents {u:?} {v:?} is {n:?}");
    Ok(Class::NonTrivial)
}

pub fn c18() -> Property {
    Property {
        id: "C18",
        rule: "non-trivial = a hit away from the poles with a known point; poles: a hit at the pole; bounds: the sampled point belongs to the clipped surface",
        laws: vec![
            Law { name: "surface", quick: 4_000_000, f: surface },
            Law { name: "poles", quick: 300_000, f: poles },
            Law { name: "bounds and area", quick: 3_000_000, f: bounds_and_area },
            Law { name: "interaction from tangents", quick: 1_000_000, f: interaction },
        ],
        sweeps: vec![],
        findings: vec![],
        assumptions: &[
            "within 0.05 radii of the polar axis only the normal and the box are judged",
            "tolerances grow with the distance of the ray's origin and with 1 / sin(theta)",
        ],
    }
}
