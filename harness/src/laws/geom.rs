//! Reference geometry in f64 with error bounds: rays against boxes and clipped
//! spheres.
use crate::ensure;
use crate::gen::*;
use scarlet::geometry::primitive::SurfaceInteraction;

pub const EPS: f64 = <f32 as Fl>::EPS;

pub struct BoxOracle {
    /// None: within rounding of the boundary
    pub hit: Option<bool>,
    /// bounds of the first and last parameter inside, clipped to [0, tmax]
    pub near: (f64, f64),
    pub far: (f64, f64),
    /// the same unclipped exit
    pub exit: (f64, f64),
    /// best estimates
    pub tn: f64,
    pub tf: f64,
    /// slabs met within the extent
    pub axes_met: usize,
}

/// `eo`, `ed`: absolute errors of the origin and the direction per component.
pub fn box_oracle(lo: V3, hi: V3, o: V3, d: V3, tmax: f64, eo: V3, ed: V3) -> BoxOracle {
    let exact = eo == [0.0; 3] && ed == [0.0; 3];
    let mut a: [(f64, f64, f64); 3] = [(0.0, 0.0, 0.0); 3]; // near: estimate, low, high
    let mut b = a;
    let mut sure_hit = true;
    let mut sure_miss = false;
    let mut met = 0;
    for i in 0..3 {
        if d[i].abs() <= 2.0 * ed[i] {
            // parallel to the slab
            let inf = f64::INFINITY;
            let unknown = d[i] != 0.0 || ed[i] != 0.0;
            if o[i] < lo[i] - eo[i] || o[i] > hi[i] + eo[i] {
                // stays outside, unless a tiny slope brings it in within reach
                if !unknown {
                    sure_miss = true;
                } else {
                    sure_hit = false;
                }
            } else if eo[i] > 0.0 && (o[i] < lo[i] + eo[i] || o[i] > hi[i] - eo[i]) {
                sure_hit = false;
                met += 1;
            } else {
                met += 1;
            }
            if unknown {
                // it may leave at some unknown parameter
                let room = (hi[i] - o[i]).min(o[i] - lo[i]).max(0.0);
                let reach = room / (d[i].abs() + ed[i]);
                a[i] = (-inf, -inf, if sure_hit { -reach } else { inf });
                b[i] = (inf, if sure_hit { reach } else { -inf }, inf);
            } else {
                a[i] = (-inf, -inf, -inf);
                b[i] = (inf, inf, inf);
            }
            continue;
        }
        let (n, f) = if d[i] > 0.0 { (lo[i], hi[i]) } else { (hi[i], lo[i]) };
        let mk = |p: f64| {
            let t = (p - o[i]) / d[i];
            let mut e = 32.0 * EPS * t.abs() + 1e-42;
            if !exact {
                e += (eo[i] + t.abs() * ed[i]) / (d[i].abs() - ed[i]);
            } else if p == o[i] {
                e = 0.0;
            }
            (t, t - e, t + e)
        };
        a[i] = mk(n);
        b[i] = mk(f);
        if b[i].0 >= 0.0 && a[i].0 <= tmax {
            met += 1;
        }
    }
    for i in 0..3 {
        // against the extent
        if a[i].1 > tmax || b[i].2 < 0.0 {
            sure_miss = true;
        }
        if !(a[i].2 <= tmax && b[i].1 >= 0.0) {
            // a parameter of exactly zero is exact
            sure_hit = false;
        }
        for j in 0..3 {
            if i != j {
                if a[i].1 > b[j].2 {
                    sure_miss = true;
                }
                if !(a[i].2 <= b[j].1) {
                    sure_hit = false;
                }
            }
        }
    }
    let mx = |k: fn(&(f64, f64, f64)) -> f64| a.iter().map(k).fold(f64::NEG_INFINITY, f64::max);
    let mn = |k: fn(&(f64, f64, f64)) -> f64| b.iter().map(k).fold(f64::INFINITY, f64::min);
    let exit = (mn(|x| x.1), mn(|x| x.2));
    BoxOracle {
        hit: if sure_miss {
            Some(false)
        } else if sure_hit {
            Some(true)
        } else {
            None
        },
        near: (mx(|x| x.1).max(0.0), mx(|x| x.2).max(0.0)),
        far: (exit.0.min(tmax), exit.1.min(tmax)),
        exit,
        tn: mx(|x| x.0).max(0.0),
        tf: mn(|x| x.0),
        axes_met: met,
    }
}

/// componentwise error of a computed ray point
pub fn point_error(o: V3, d: V3, t: f64) -> V3 {
    [0, 1, 2].map(|i| 64.0 * EPS * (o[i].abs() + (t * d[i]).abs()) + 1e-40 + 2e-45 * d[i].abs())
}

/// Judges point, normal and tangents of a hit on a box whose exact hit point is
/// `p`; returns how many faces are within the error of the point.
pub fn judge_box_hit(lo: V3, hi: V3, p: V3, e: V3, si: &SurfaceInteraction) -> Result<usize, String> {
    let g = d3(si.p.vec);
    let n = d3(si.n.vec);
    // the nearest face is told by distances that carry the largest error
    let e = [e[0].max(e[1]).max(e[2]); 3];
    for i in 0..3 {
        ensure!((g[i] - p[i]).abs() <= e[i] + 4.0 * EPS * p[i].abs(), "the hit point is {g:?}, should be {p:?}");
        ensure!(g[i] >= lo[i] - e[i] && g[i] <= hi[i] + e[i], "the hit point {g:?} is outside the box {lo:?} {hi:?}");
    }
    let mut faces = 0;
    let mut ok = false;
    for i in 0..3 {
        for (f, sg) in [(lo[i], -1.0), (hi[i], 1.0)] {
            if (p[i] - f).abs() <= e[i] + 2.0 * EPS * f.abs() {
                faces += 1;
                let mut m = [0.0; 3];
                m[i] = sg;
                if norm(sub(n, m)) <= 1e-5 && (g[i] - f).abs() <= e[i] {
                    ok = true;
                }
            }
        }
    }
    ensure!(ok, "hit point {g:?} with normal {n:?}: not the outward normal of a face at {p:?} of the box {lo:?} {hi:?}");
    let (u, v) = (d3(si.dpdu.vec), d3(si.dpdv.vec));
    ensure!(
        (norm(u) - 1.0).abs() <= 1e-5 && (norm(v) - 1.0).abs() <= 1e-5 && dot(u, v).abs() <= 1e-5,
        "the tangents {u:?} {v:?} are not perpendicular unit vectors"
    );
    ensure!(dot(u, n).abs() <= 1e-5 && dot(v, n).abs() <= 1e-5, "the tangents {u:?} {v:?} are not perpendicular to the normal {n:?}");
    // the unfolding drawn in bbox.rs: four sides around y with v upwards, the
    // front (zmin) with u along x, top and bottom attached to it
    let (wu, wv) = match (n[0].round() as i32, n[1].round() as i32, n[2].round() as i32) {
        (-1, _, _) => ([0.0, 0.0, -1.0], [0.0, 1.0, 0.0]),
        (1, _, _) => ([0.0, 0.0, 1.0], [0.0, 1.0, 0.0]),
        (_, -1, _) => ([1.0, 0.0, 0.0], [0.0, 0.0, -1.0]),
        (_, 1, _) => ([1.0, 0.0, 0.0], [0.0, 0.0, 1.0]),
        (_, _, -1) => ([1.0, 0.0, 0.0], [0.0, 1.0, 0.0]),
        _ => ([-1.0, 0.0, 0.0], [0.0, 1.0, 0.0]),
    };
    ensure!(
        norm(sub(u, wu)) <= 1e-5 && norm(sub(v, wv)) <= 1e-5,
        "the tangents {u:?} {v:?} do not run along u and v of the unfolded face, {wu:?} {wv:?}"
    );
    Ok(faces)
}

// ---------------------------------------------------------------- spheres

#[derive(Clone, Copy, Debug)]
pub struct SphereSpec {
    pub r: f64,
    pub z0: f64,
    pub z1: f64,
    pub phi: f64,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Is {
    In,
    Out,
    Maybe,
}

#[derive(Clone, Copy, Debug)]
pub struct Root {
    pub t: f64,
    pub e: f64,
    pub is: Is,
    pub p: V3,
    /// position error
    pub ep: f64,
}

#[derive(Clone, Copy, Debug)]
pub enum SphereOracle {
    /// the line misses the sphere
    Clear,
    /// within rounding of tangency
    Grazing,
    Roots(Root, Root),
}

/// `eo`, `ed`: absolute errors (lengths) of the origin and the direction.
pub fn sphere_oracle(s: SphereSpec, o: V3, d: V3, tmax: f64, eo: f64, ed: f64) -> SphereOracle {
    let (lo, ld) = (norm(o), norm(d));
    let k = 24.0 * EPS;
    let a = dot(d, d);
    let b = dot(o, d);
    let c = dot(o, o) - s.r * s.r;
    let ea = k * a + 2.0 * ld * ed + ed * ed;
    let eb = k * lo * ld + lo * ed + ld * eo + eo * ed;
    let ec = k * (lo * lo + s.r * s.r) + 2.0 * lo * eo + eo * eo;
    let disc = b * b - a * c;
    let ee = 2.0 * b.abs() * eb + eb * eb + a * ec + c.abs() * ea + ea * ec + k * (b * b + a * c.abs());
    if disc < -ee {
        return SphereOracle::Clear;
    }
    if disc <= 4.0 * ee {
        return SphereOracle::Grazing;
    }
    let sq = disc.sqrt();
    let es = ee / sq;
    let q = b.abs() + sq;
    let eq = eb + es;
    // stable roots
    let big = q / a;
    let ebig = (eq + big * ea) / (a - ea) + k * big;
    let small = c / q;
    let esmall = (ec + small.abs() * eq) / (q - eq) + k * small.abs();
    let (r0, r1) = if b >= 0.0 { ((-big, ebig), (-small, esmall)) } else { ((small, esmall), (big, ebig)) };
    let root = |(t, e): (f64, f64)| {
        let p = add(o, mul(d, t));
        let ep = e * ld + 12.0 * EPS * (lo + t.abs() * ld) + eo + t.abs() * ed;
        let mut is = Is::In;
        let mut put = |v: Is| {
            if v == Is::Out || (v == Is::Maybe && is == Is::In) {
                is = v;
            }
        };
        put(if t + e < 0.0 || t - e > tmax {
            Is::Out
        } else if t - e >= 0.0 && t + e <= tmax {
            Is::In
        } else {
            Is::Maybe
        });
        put(clip(s, p, ep));
        Root { t, e, is, p, ep }
    };
    SphereOracle::Roots(root(r0), root(r1))
}

/// Is the point of the sphere within the clip?
pub fn clip(s: SphereSpec, p: V3, ep: f64) -> Is {
    let pi = std::f64::consts::PI;
    let z = if p[2] < s.z0 - ep || p[2] > s.z1 + ep {
        Is::Out
    } else if p[2] >= s.z0 + ep && p[2] <= s.z1 - ep {
        Is::In
    } else {
        Is::Maybe
    };
    let rho = p[0].hypot(p[1]);
    let f = if s.phi >= pi {
        Is::In
    } else if rho <= 4.0 * ep {
        Is::Maybe
    } else {
        let phi = p[1].atan2(p[0]);
        let e = 1.5 * ep / rho + 16.0 * EPS;
        if phi.abs() > pi - e {
            // the seam
            Is::Maybe
        } else if phi > s.phi + e {
            Is::Out
        } else if phi < s.phi - e {
            Is::In
        } else {
            Is::Maybe
        }
    };
    match (z, f) {
        (Is::Out, _) | (_, Is::Out) => Is::Out,
        (Is::In, Is::In) => Is::In,
        _ => Is::Maybe,
    }
}

/// The roots that may be reported and whether "no hit" is possible.
pub fn allowed(r0: Root, r1: Root) -> (Vec<Root>, bool) {
    let mut v = Vec::new();
    for r in [r0, r1] {
        match r.is {
            Is::Out => {}
            Is::Maybe => v.push(r),
            Is::In => {
                v.push(r);
                return (v, false);
            }
        }
    }
    (v, true)
}
