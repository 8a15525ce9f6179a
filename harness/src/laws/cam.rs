//! C21, C22: disk sampling and the thin-lens camera.
use super::geom::EPS;
use super::xf::{history, mv, Hist};
use crate::engine::*;
use crate::gen::*;
use crate::{ensure, note};
use scarlet::cameras::camera::{concentric_sample_disk, uniform_sample_disk, Camera, CameraSample};
use scarlet::cameras::thin_lens::ThinLensCamera;
use scarlet::math::transform::Transformf;
use scarlet::math::vector::Point2f;

const PI: f64 = std::f64::consts::PI;

pub fn unit_coord(s: &mut Src) -> f32 {
    match s.weighted(&[8, 2, 2, 1, 1, 1]) {
        0 => s.unit() as f32,
        1 => s.int(0, 16) as f32 / 16.0,
        // near the centre
        2 => (0.5 + s.uni(-1.0, 1.0) * exp2i(-(s.int(1, 24) as i32))).clamp(0.0, 1.0) as f32,
        3 => exp2i(-(s.int(1, 149) as i32)) as f32,
        4 => 1.0 - exp2i(-(s.int(1, 24) as i32)) as f32,
        _ => (s.int(0, 8) as f64 / 8.0 + s.int(-2, 2) as f64 * exp2i(-24)).clamp(0.0, 1.0) as f32,
    }
}

/// A sample of the unit square: anywhere, edges, corners, diagonals, centre.
pub fn sample(s: &mut Src) -> [f32; 2] {
    let x = unit_coord(s);
    let y = match s.weighted(&[8, 1, 1, 1]) {
        0 => unit_coord(s),
        1 => x,
        2 => 1.0 - x,
        _ => {
            // next to a diagonal
            let k = s.int(-3, 3) as f64 * exp2i(-(s.int(20, 26) as i32));
            ((if s.chance(1, 2) { x as f64 } else { 1.0 - x as f64 }) + k).clamp(0.0, 1.0) as f32
        }
    };
    [x, y]
}

/// Shirley and Chiu's concentric map.
fn shirley(p: [f32; 2]) -> [f64; 2] {
    let a = 2.0 * p[0] as f64 - 1.0;
    let b = 2.0 * p[1] as f64 - 1.0;
    if a == 0.0 && b == 0.0 {
        return [0.0; 2];
    }
    let (r, phi) = if a.abs() > b.abs() { (a, PI / 4.0 * b / a) } else { (b, PI / 2.0 - PI / 4.0 * a / b) };
    [r * phi.cos(), r * phi.sin()]
}

fn dihedral(k: usize, q: [f64; 2]) -> [f64; 2] {
    let (mut x, mut y) = (q[0], q[1]);
    if k & 1 == 1 {
        x = -x;
    }
    if k & 2 == 2 {
        y = -y;
    }
    if k & 4 == 4 {
        std::mem::swap(&mut x, &mut y);
    }
    [x, y]
}

pub fn concentric(p: [f32; 2]) -> [f64; 2] {
    let g = concentric_sample_disk(Point2f::new(p[0], p[1]));
    [g[0] as f64, g[1] as f64]
}

/// The symmetry of the square that the library's map applies on top: which of
/// the eight does not matter to the law, but it is one for the whole square.
fn symmetry() -> Option<usize> {
    let p = [0.75f32, 0.625];
    let (g, w) = (concentric(p), shirley(p));
    (0..8).find(|&k| {
        let d = dihedral(k, w);
        (g[0] - d[0]).hypot(g[1] - d[1]) < 1e-5
    })
}

fn concentric_map(s: &mut Src) -> Res {
    let p = sample(s);
    note!(s, "sample {:?}", p);
    let g = concentric(p);
    let (a, b) = (2.0 * p[0] as f64 - 1.0, 2.0 * p[1] as f64 - 1.0);
    let r = a.abs().max(b.abs());
    let tol = 64.0 * EPS * r + 1e-40;
    ensure!(g[0].is_finite() && g[1].is_finite(), "the disk point is {g:?}");
    ensure!(g[0].hypot(g[1]) <= 1.0 + 16.0 * EPS, "the disk point {g:?} is outside the disk");
    ensure!((g[0].hypot(g[1]) - r).abs() <= tol, "the radius of {g:?} is not {r}, that of its square");
    let Some(k) = symmetry() else {
        return Err(format!("(0.75, 0.625) goes to {:?}, no symmetric image of {:?}", concentric([0.75, 0.625]), shirley([0.75, 0.625])));
    };
    let w = dihedral(k, shirley(p));
    ensure!((g[0] - w[0]).hypot(g[1] - w[1]) <= tol, "the disk point is {g:?}, should be {w:?} (+- {tol:e})");
    Ok(if r > 0.0 { Class::NonTrivial } else { Class::Trivial })
}

fn polar_map(s: &mut Src) -> Res {
    let p = sample(s);
    note!(s, "sample {:?}", p);
    let g = uniform_sample_disk(Point2f::new(p[0], p[1]));
    let g = [g[0] as f64, g[1] as f64];
    let (r, th) = ((p[1] as f64).sqrt(), 2.0 * PI * p[0] as f64);
    let w = [r * th.cos(), r * th.sin()];
    let tol = 64.0 * EPS * r + 1e-40;
    ensure!((g[0] - w[0]).hypot(g[1] - w[1]) <= tol, "the disk point is {g:?}, should be {w:?} (+- {tol:e})");
    ensure!(g[0].hypot(g[1]) <= 1.0 + 16.0 * EPS, "the disk point {g:?} is outside the disk");
    Ok(if r > 0.0 { Class::NonTrivial } else { Class::Trivial })
}

/// The image of a rectangle has pi times its area, whatever the formula.
fn areas(s: &mut Src) -> Res {
    let polar = s.chance(1, 2);
    let (x0, x1) = (s.unit(), s.unit());
    let (y0, y1) = (s.unit(), s.unit());
    let (x0, x1, y0, y1) = (x0.min(x1), x0.max(x1), y0.min(y1), y0.max(y1));
    note!(s, "{} map of [{x0}, {x1}] x [{y0}, {y1}]", if polar { "polar" } else { "concentric" });
    const N: usize = 96;
    let mut poly: Vec<[f64; 2]> = Vec::with_capacity(4 * N);
    let at = |x: f64, y: f64| {
        let p = Point2f::new(x as f32, y as f32);
        let g = if polar { uniform_sample_disk(p) } else { concentric_sample_disk(p) };
        [g[0] as f64, g[1] as f64]
    };
    for k in 0..4 * N {
        let u = (k % N) as f64 / N as f64;
        poly.push(match k / N {
            0 => at(x0 + (x1 - x0) * u, y0),
            1 => at(x1, y0 + (y1 - y0) * u),
            2 => at(x1 + (x0 - x1) * u, y1),
            _ => at(x0, y1 + (y0 - y1) * u),
        });
    }
    let mut area = 0.0;
    for k in 0..poly.len() {
        let (a, b) = (poly[k], poly[(k + 1) % poly.len()]);
        area += 0.5 * (a[0] * b[1] - a[1] * b[0]);
    }
    let w = PI * (x1 - x0) * (y1 - y0);
    // chords instead of arcs and corners cut at the diagonals
    let tol = 4e-3 * (x1 - x0).max(y1 - y0) + 1e-5;
    ensure!((area.abs() - w).abs() <= tol, "the image has the area {area}, should be {w} (+- {tol:e})");
    Ok(if w > 10.0 * tol { Class::NonTrivial } else { Class::Trivial })
}

pub fn c21() -> Property {
    Property {
        id: "C21",
        rule: "non-trivial = a sample off the centre (maps), an image area ten times above its tolerance (areas)",
        laws: vec![
            Law { name: "concentric map", quick: 8_000_000, f: concentric_map },
            Law { name: "polar map", quick: 8_000_000, f: polar_map },
            Law { name: "areas", quick: 60_000, f: areas },
        ],
        sweeps: vec![],
        findings: vec![],
        assumptions: &["the concentric map may carry one fixed symmetry of the square", "64 roundings relative to the radius"],
    }
}

// ---------------------------------------------------------------------- C22

pub struct Cam {
    pub h: Hist<f32>,
    pub fd: f32,
    pub fov: f32,
    pub fl: f32,
    pub radius: f32,
    pub aspect: f32,
}

pub fn camera(s: &mut Src) -> (Cam, ThinLensCamera) {
    let h: Hist<f32> = if s.chance(1, 4) {
        use super::xf::ident;
        note!(s, "identity view");
        Hist { t: Transformf::identity(), m: ident(), mi: ident(), am: ident(), ami: ident(), n: 0.0 }
    } else {
        history(s, 3, true)
    };
    let u = units(s);
    let fd = (pos::<f32>(s, 0.1, 1000.0).d() * u) as f32;
    let fov = match s.weighted(&[2, 4]) {
        0 => (s.int(1, 8) as f64 * PI / 9.0) as f32,
        _ => s.uni(0.005, 3.12) as f32,
    };
    let fl = (fd as f64 * match s.weighted(&[3, 2]) {
        0 => s.uni(0.001, 0.998),
        _ => exp2i(-(s.int(1, 10) as i32)),
    }) as f32;
    let radius: f32 = match s.weighted(&[1, 4]) {
        0 => 0.0,
        _ => (pos::<f32>(s, 1e-3, 10.0).d() * u) as f32,
    };
    let aspect: f32 = match s.weighted(&[2, 3]) {
        0 => [1.0, 2.0, 0.5, 16.0 / 9.0, 4.0 / 3.0][s.pick(5)],
        _ => match s.weighted(&[4, 1]) {
            0 => pos(s, 0.1, 10.0),
            _ => pos(s, 1e-2, 1e2),
        },
    };
    note!(s, "| focal distance {:?} fov {:?} focal length {:?} lens radius {:?} aspect {:?}", fd, fov, fl, radius, aspect);
    let cam = ThinLensCamera::new(h.t, fd, fov, fl, radius, aspect);
    (Cam { h, fd, fov, fl, radius, aspect }, cam)
}

fn lens_rays(s: &mut Src) -> Res {
    let (c, cam) = camera(s);
    let pf = sample(s);
    let (fd, fov, asp) = (c.fd as f64, c.fov as f64, c.aspect as f64);
    let t = (0.5 * fov).tan();
    let k = 16.0 * EPS * (1.0 + fd / (fd - c.fl as f64) + fov * (1.0 + t * t) / t);
    let ef = k * fd * (1.0 + t + t / asp);
    let mut sharp = false;
    // one camera, several samples: the lens changes, then one film coordinate, then both, then back
    let (l1, l2, q) = (sample(s), sample(s), sample(s));
    let qx = if s.chance(1, 2) { [q[0], pf[1]] } else { [pf[0], q[1]] };
    for (pf, pl) in [(pf, [0.5f32, 0.5]), (pf, l1), (pf, l2), (qx, l2), (q, l1), (pf, l1)] {
        note!(s, "film {:?} lens {:?}", pf, pl);
        // the point in focus, seen through the centre of the lens
        let f = [fd * t * (2.0 * pf[0] as f64 - 1.0), fd * t / asp * (2.0 * pf[1] as f64 - 1.0), -fd];
        let ray = cam.generate_ray(CameraSample::new(Point2f::new(pf[0], pf[1]), Point2f::new(pl[0], pl[1])));
        let g = concentric(pl);
        let l = [c.radius as f64 * g[0], c.radius as f64 * g[1], 0.0];
        let el = 8.0 * EPS * c.radius as f64;
        let len = norm(sub(f, l));
        let d = unit(sub(f, l));
        let ed = 2.0 * (ef + el) / len + 8.0 * EPS;
        let eps = 2.0 * c.h.eps();
        let (o, dir) = (d3(ray.origin.vec), d3(ray.direction.vec));
        // into the world
        let wo = mv(&c.h.mi, [l[0], l[1], l[2], 1.0]);
        let ao = mv(&c.h.ami, [l[0].abs(), l[1].abs(), 0.0, 1.0]);
        let wd = mv(&c.h.mi, [d[0], d[1], d[2], 0.0]);
        let ad = mv(&c.h.ami, [d[0].abs(), d[1].abs(), d[2].abs(), 0.0]);
        for j in 0..3 {
            let e = eps * ao[j] + 2.0 * el + 1e-37;
            ensure!((o[j] - wo[j]).abs() <= e, "the ray starts at {o:?}, should start at {:?} (+- {e:e})", &wo[..3]);
            let e = eps * ad[j] + ed;
            ensure!((dir[j] - wd[j]).abs() <= e, "the direction is {dir:?}, should be {:?} (+- {e:e})", &wd[..3]);
        }
        ensure!((norm(dir) - 1.0).abs() <= 2.0 * eps + 8.0 * EPS, "the direction {dir:?} is not a unit vector: {}", norm(dir));
        ensure!(ray.tmax >= f32::MAX, "the extent is {:?}", ray.tmax);
        // back in the camera's frame
        let cd = mv(&c.h.m, [dir[0], dir[1], dir[2], 0.0]);
        if (d[2]).abs() > 8.0 * (ed + 4.0 * eps) {
            ensure!(cd[2] < 0.0, "the ray does not point forward: {:?} in the camera's frame", &cd[..3]);
        }
        if ed < 1e-3 && (pf[0] != 0.5 || pf[1] != 0.5) {
            sharp = true;
        }
    }
    Ok(if sharp { Class::NonTrivial } else { Class::Trivial })
}

pub fn c22() -> Property {
    Property {
        id: "C22",
        rule: "non-trivial = film sample off the centre and a direction known within 1e-3",
        laws: vec![Law { name: "lens rays", quick: 2_000_000, f: lens_rays }],
        sweeps: vec![],
        findings: vec![],
        assumptions: &["focal length at most 0.998 of the focal distance, field of view 0.005 to 3.12, rigid views; lengths from 1e-5 to 1e5 times ordinary ones", "tolerances follow the magnitudes of the view's factors and the conditioning of the tangent"],
    }
}
