//! C24: the unit of length and the speed of the ray do not matter.
//!
//! Multiplying by a power of two commutes with every rounding (away from
//! overflow and underflow), so both sides are compared to a few ulps.
use super::scn::Dyn;
use crate::engine::*;
use crate::gen::*;
use crate::{ensure, note};
use scarlet::cameras::camera::{Camera, CameraSample};
use scarlet::cameras::thin_lens::ThinLensCamera;
use scarlet::geometry::bbox::Bbox3;
use scarlet::geometry::primitive::*;
use scarlet::geometry::ray::Rayf;
use scarlet::geometry::sphere::Sphere;
use scarlet::math::transform::{Invertible, Transform, Transformf};
use scarlet::math::vector::{Point2f, Point3f, Vector3f};

type P = [f32; 3];

fn coord(s: &mut Src) -> f32 {
    match s.weighted(&[3, 4, 1]) {
        0 => s.int(-32, 32) as f32 / 8.0,
        1 => {
            let x = s.uni(-8.0, 8.0);
            if x.abs() < 0.02 {
                0.0
            } else {
                x as f32
            }
        }
        _ => 0.0,
    }
}
fn point(s: &mut Src) -> P {
    [coord(s), coord(s), coord(s)]
}
/// not zero
fn heading(s: &mut Src) -> P {
    let mut v = point(s);
    if v == [0.0; 3] {
        v[s.pick(3)] = if s.chance(1, 2) { -1.0 } else { 2.0 };
    }
    v
}
/// an angle: zero, a fraction of a turn, or not small
fn turn(s: &mut Src) -> f32 {
    match s.weighted(&[1, 2, 4]) {
        0 => 0.0,
        1 => (s.int(-24, 24) as f64 * std::f64::consts::PI / 12.0) as f32,
        _ => {
            let x = s.uni(-7.0, 7.0);
            if x.abs() < 0.02 {
                0.02
            } else {
                x as f32
            }
        }
    }
}
/// a film or lens sample in the unit square
fn spot(s: &mut Src) -> [f32; 2] {
    [0; 2].map(|_| if s.chance(1, 3) { s.int(0, 16) as f32 / 16.0 } else { s.uni(0.001, 0.999) as f32 })
}
fn times(v: P, k: f32) -> P {
    v.map(|c| c * k)
}
fn power(s: &mut Src) -> f32 {
    let k = match s.weighted(&[4, 1]) {
        0 => s.int(-12, 12),
        _ => [-1, 1][s.pick(2)],
    };
    exp2i(k as i32) as f32
}
fn same(a: &[f32], b: &[f32], k: f32) -> bool {
    a.iter().zip(b).all(|(x, y)| like(x * k, *y))
}
/// equal; a few ulps for functions that need not be exact, and underflow, are let pass
fn like(x: f32, y: f32) -> bool {
    x == y || (x.is_nan() && y.is_nan()) || (x - y).abs() <= 1e-6 * x.abs() + 1e-30
}

/// One factor of a placement.
#[derive(Clone, Copy, Debug)]
enum Op {
    Move(P),
    Scale(P),
    Turn(P, f32),
    TurnAxis(usize, f32),
    LookAt(P, P, P),
    Back,
}

fn ops(s: &mut Src, rigid: bool) -> Vec<Op> {
    let mut v = Vec::new();
    for _ in 0..1 + s.pick(3) {
        v.push(match s.weighted(if rigid { &[3, 0, 2, 2, 2, 1] } else { &[3, 3, 2, 2, 1, 1] }) {
            0 => Op::Move(point(s)),
            1 => {
                let k = if s.chance(1, 3) { [s.uni(0.2, 4.0) as f32; 3] } else { [0; 3].map(|_| s.uni(0.2, 4.0) as f32) };
                Op::Scale(k.map(|c| if s.chance(1, 5) { -c } else { c }))
            }
            2 => Op::Turn(heading(s), turn(s)),
            3 => Op::TurnAxis(s.pick(3), turn(s)),
            4 => {
                let (eye, to) = (point(s), heading(s));
                let mut up = heading(s);
                // not parallel to the view
                let c = [to[1] * up[2] - to[2] * up[1], to[2] * up[0] - to[0] * up[2], to[0] * up[1] - to[1] * up[0]];
                let big = |v: P| v.iter().fold(0.0f32, |m, x| m.max(x.abs()));
                if big(c) < 0.05 * big(to) * big(up) {
                    let i = (0..3).min_by(|&i, &j| to[i].abs().total_cmp(&to[j].abs())).unwrap();
                    up = [0.0; 3];
                    up[i] = 1.0;
                }
                Op::LookAt(eye, [eye[0] + to[0], eye[1] + to[1], eye[2] + to[2]], up)
            }
            _ => Op::Back,
        });
    }
    v
}

/// The placement with all lengths times `l` and all headings times `k`.
fn place(ops: &[Op], l: f32, k: f32) -> Transformf {
    let mut t = Transformf::identity();
    for o in ops {
        t = match *o {
            Op::Move(v) => t * Transform::translate(vec3(times(v, l))),
            Op::Scale(v) => t * Transform::scale(vec3(v)),
            Op::Turn(a, th) => t * Transform::rotate(vec3(times(a, k)), th),
            Op::TurnAxis(i, th) => t * [Transform::rotate_x, Transform::rotate_y, Transform::rotate_z][i](th),
            Op::LookAt(e, g, up) => t * Transform::look_at(pt3(times(e, l)), pt3(times(g, l)), vec3(times(up, k))),
            Op::Back => t.inverse(),
        };
    }
    t
}

#[derive(Clone, Debug)]
enum Node {
    Sphere(f32, f32, f32, f32),
    Box(P, P),
    Placed(Vec<Op>, Box<Node>),
    List(Vec<Node>),
}

fn node(s: &mut Src, depth: usize) -> Node {
    match s.weighted(if depth == 0 { &[3, 3, 0, 0] } else { &[2, 2, 4, 2] }) {
        0 => {
            let r = if s.chance(1, 2) { s.int(1, 16) as f32 / 4.0 } else { s.uni(0.1, 5.0) as f32 };
            let (a, b) = if s.chance(1, 3) { (-1.0, 1.0) } else { (s.uni(-1.3, 0.4) as f32, s.uni(0.5, 1.3) as f32) };
            let phi = if s.chance(1, 2) { std::f32::consts::PI } else { s.uni(-2.5, 3.1) as f32 };
            Node::Sphere(r, a * r, b * r, phi)
        }
        1 => {
            let a = point(s);
            let mut b = point(s);
            if s.chance(1, 8) {
                let k = s.pick(3);
                b[k] = a[k];
            }
            Node::Box(a, b)
        }
        2 => {
            let o = ops(s, false);
            Node::Placed(o, Box::new(node(s, depth - 1)))
        }
        _ => {
            let n = 1 + s.pick(3);
            Node::List((0..n).map(|_| node(s, depth - 1)).collect())
        }
    }
}

fn make(n: &Node, l: f32, k: f32) -> Dyn {
    match n {
        Node::Sphere(r, a, b, phi) => Dyn(alloc_primitive(Sphere::new(r * l, a * l, b * l, *phi))),
        Node::Box(a, b) => Dyn(alloc_primitive(Bbox3::new(pt3(times(*a, l)), pt3(times(*b, l))))),
        Node::Placed(o, m) => Dyn(alloc_primitive(TransformedPrimitive::new(make(m, l, k), place(o, l, k)))),
        Node::List(v) => {
            let mut x = PrimitiveList::new();
            for m in v {
                x.add_primitive(make(m, l, k));
            }
            Dyn(alloc_primitive(x))
        }
    }
}

/// aim: a point of the shape's box, in world coordinates
fn target(s: &mut Src, b: &Bbox3) -> P {
    [0, 1, 2].map(|i| {
        let u = s.int(0, 32) as f32 / 32.0;
        b.pmin[i] + (b.pmax[i] - b.pmin[i]) * u
    })
}

fn scenes(s: &mut Src) -> Res {
    let n = node(s, 3);
    let (l, v, k) = (power(s), power(s), power(s));
    note!(s, "{:?}; lengths times {l:?}, speed times {v:?}, headings times {k:?}", n);
    let (a, b) = (make(&n, 1.0, 1.0), make(&n, l, k));
    let (ba, bb) = (a.bbox(), b.bbox());
    ensure!(same(&ba.pmin.vec, &bb.pmin.vec, l) && same(&ba.pmax.vec, &bb.pmax.vec, l), "the box {ba:?} becomes {bb:?}");
    let mut hits = 0;
    for _ in 0..3 {
        let mut o = point(s);
        if s.chance(1, 2) {
            o = times(o, 4.0);
        }
        let d: P = if s.chance(4, 5) {
            let q = target(s, &ba);
            [q[0] - o[0], q[1] - o[1], q[2] - o[2]]
        } else {
            heading(s)
        };
        let d = d.map(|c| if c.abs() < 1e-3 { 0.0 } else { c });
        if d == [0.0; 3] || d.iter().any(|c| !(c.abs() < 1e6)) {
            continue;
        }
        let tmax = if s.chance(1, 2) { f32::MAX } else { s.uni(0.0, 3.0) as f32 };
        note!(s, "ray from {:?} direction {:?} extent {:?}", o, d, tmax);
        let f = l / v;
        let ra = Rayf::new(pt3(o), vec3(d), tmax);
        let rb = Rayf::new(pt3(times(o, l)), vec3(times(d, v)), if tmax < f32::MAX { tmax * f } else { tmax });
        let (x, y) = (a.intersect(ra), b.intersect(rb));
        let (p, q) = (a.do_intersect(ra), b.do_intersect(rb));
        ensure!(p == q, "do_intersect was {p}, becomes {q}");
        match (x, y) {
            (None, None) => {}
            (Some(g), Some(h)) => {
                hits += 1;
                let (m, n) = (g.surface_interaction, h.surface_interaction);
                ensure!(same(&[g.t_ray], &[h.t_ray], f), "the parameter {:?} becomes {:?}", g.t_ray, h.t_ray);
                ensure!(same(&m.p.vec, &n.p.vec, l), "the point {:?} becomes {:?}", m.p.vec, n.p.vec);
                ensure!(same(&m.n.vec, &n.n.vec, 1.0), "the normal {:?} becomes {:?}", m.n.vec, n.n.vec);
                ensure!(same(&m.uv.vec, &n.uv.vec, 1.0), "uv {:?} becomes {:?}", m.uv.vec, n.uv.vec);
                // a sphere's tangents are lengths, a box's are unit vectors
                let ok = |f: f32| same(&m.dpdu.vec, &n.dpdu.vec, f) && same(&m.dpdv.vec, &n.dpdv.vec, f);
                ensure!(ok(l) || ok(1.0), "the tangents {:?} {:?} become {:?} {:?}", m.dpdu.vec, m.dpdv.vec, n.dpdu.vec, n.dpdv.vec);
            }
            (x, y) => return Err(format!("the hit {x:?} becomes {y:?}")),
        }
    }
    Ok(if hits > 0 && (l != 1.0 || v != 1.0 || k != 1.0) { Class::NonTrivial } else { Class::Trivial })
}

fn measures(s: &mut Src) -> Res {
    let l = power(s);
    let r = s.uni(0.1, 5.0) as f32;
    let (a, b) = (s.uni(-1.3, 0.4) as f32 * r, s.uni(0.5, 1.3) as f32 * r);
    let phi = if s.chance(1, 3) { std::f32::consts::PI } else { s.uni(-3.0, 3.1) as f32 };
    let (p, q, u, w, c) = (point(s), point(s), point(s), point(s), point(s));
    note!(s, "sphere {r:?} {a:?} {b:?} {phi:?}; points {:?} {:?} {:?} {:?} {:?}; lengths times {l:?}", p, q, u, w, c);
    let (x, y) = (Sphere::new(r, a, b, phi), Sphere::new(r * l, a * l, b * l, phi));
    ensure!(like(x.area() * l * l, y.area()), "the area {:?} becomes {:?}", x.area(), y.area());
    ensure!(same(&[x.theta_min, x.theta_max, x.phi_max], &[y.theta_min, y.theta_max, y.phi_max], 1.0), "the angles of {x:?} become {y:?}");
    let bx = |a: P, b: P, l: f32| Bbox3::new(pt3(times(a, l)), pt3(times(b, l)));
    let (e, f) = (bx(p, q, 1.0), bx(p, q, l));
    let (g, h) = (bx(u, w, 1.0), bx(u, w, l));
    let eq = |a: &Bbox3, b: &Bbox3| same(&a.pmin.vec, &b.pmin.vec, l) && same(&a.pmax.vec, &b.pmax.vec, l);
    ensure!(eq(&e, &f) && eq(&e.union(&g), &f.union(&h)) && eq(&e.intersect(&g), &f.intersect(&h)) && eq(&(e + g), &(f + h)), "the box {e:?}, its union or intersection with {g:?} changes");
    ensure!(e.overlaps(&g) == f.overlaps(&h), "{e:?} and {g:?} overlap in one unit only");
    ensure!(e.inside(pt3(c)) == f.inside(pt3(times(c, l))), "{c:?} is inside {e:?} in one unit only");
    ensure!(same(&e.diagonal().vec, &f.diagonal().vec, l) && same(&e.center().vec, &f.center().vec, l), "diagonal or centre of {e:?} changes");
    let (m, n) = (e.max_extent(), f.max_extent());
    ensure!(m.1 == n.1 && same(&[m.0 .0, m.0 .1], &[n.0 .0, n.0 .1], l), "the longest axis {m:?} becomes {n:?}");
    let (d, v) = (heading(s), power(s));
    let tmax = s.uni(0.0, 3.0) as f32;
    note!(s, "ray from {:?} direction {:?} extent {:?}, speed times {v:?}", c, d, tmax);
    let i = e.intersect_ray(Rayf::new(pt3(c), vec3(d), tmax));
    let j = f.intersect_ray(Rayf::new(pt3(times(c, l)), vec3(times(d, v)), tmax * (l / v)));
    let alike = match (i, j) {
        (None, None) => true,
        (Some(a), Some(b)) => same(&[a.0, a.1], &[b.0, b.1], l / v),
        _ => false,
    };
    ensure!(alike, "the period {i:?} becomes {j:?}");
    // placements of points, vectors, normals and boxes
    let o = ops(s, false);
    let k = power(s);
    note!(s, "placed by {:?}, headings times {k:?}", o);
    let (t, z) = (place(&o, 1.0, 1.0), place(&o, l, k));
    for inv in [false, true] {
        let (tp, zp): (Point3f, Point3f) = if inv { (t.map_inverse(pt3(c)), z.map_inverse(pt3(times(c, l)))) } else { (t.map(pt3(c)), z.map(pt3(times(c, l)))) };
        ensure!(same(&tp.vec, &zp.vec, l), "the mapped point {:?} becomes {:?} (inverse: {inv})", tp.vec, zp.vec);
        let (tv, zv): (Vector3f, Vector3f) = if inv { (t.map_inverse(vec3(d)), z.map_inverse(vec3(times(d, v)))) } else { (t.map(vec3(d)), z.map(vec3(times(d, v)))) };
        ensure!(same(&tv.vec, &zv.vec, v), "the mapped vector {:?} becomes {:?} (inverse: {inv})", tv.vec, zv.vec);
        let nrm = |t: &Transformf, k: f32| if inv { t.map_inverse(nr3(times(d, k))).vec } else { t.map(nr3(times(d, k))).vec };
        ensure!(same(&nrm(&t, 1.0), &nrm(&z, v), v), "the mapped normal {:?} becomes {:?} (inverse: {inv})", nrm(&t, 1.0), nrm(&z, v));
        let (tb, zb): (Bbox3, Bbox3) = if inv { (t.map_inverse(e), z.map_inverse(f)) } else { (t.map(e), z.map(f)) };
        ensure!(eq(&tb, &zb), "the mapped box {tb:?} becomes {zb:?} (inverse: {inv})");
    }
    let (m, n, mi, ni) = (t.matrix(), z.matrix(), t.inverse_matrix(), z.inverse_matrix());
    for r in 0..4 {
        for c in 0..4 {
            let f = if c == 3 && r < 3 { l } else { 1.0 };
            ensure!(like(m[r][c] * f, n[r][c]) && like(mi[r][c] * f, ni[r][c]), "entry ({r}, {c}) of the placement or its inverse changes from {:?}, {:?} to {:?}, {:?}", m[r][c], mi[r][c], n[r][c], ni[r][c]);
        }
    }
    Ok(if l != 1.0 { Class::NonTrivial } else { Class::Trivial })
}

fn cameras(s: &mut Src) -> Res {
    let o = ops(s, true);
    let (l, k) = (power(s), power(s));
    let fd = s.uni(0.5, 20.0) as f32;
    let fl = fd * s.uni(0.01, 0.9) as f32;
    let fov = s.uni(0.1, 2.8) as f32;
    let rad = if s.chance(1, 8) { 0.0 } else { fd * s.uni(0.001, 0.3) as f32 };
    let asp = s.uni(0.3, 3.0) as f32;
    note!(s, "view {:?} focal distance {fd:?} fov {fov:?} focal length {fl:?} lens {rad:?} aspect {asp:?}; lengths times {l:?}, headings times {k:?}", o);
    let (t, z) = (place(&o, 1.0, 1.0), place(&o, l, k));
    let (a, b) = (ThinLensCamera::new(t, fd, fov, fl, rad, asp), ThinLensCamera::new(z, fd * l, fov, fl * l, rad * l, asp));
    for _ in 0..2 {
        let (pf, pl) = (spot(s), spot(s));
        note!(s, "film {:?} lens {:?}", pf, pl);
        let cs = || CameraSample::new(Point2f::new(pf[0], pf[1]), Point2f::new(pl[0], pl[1]));
        let (x, y) = (a.generate_ray(cs()), b.generate_ray(cs()));
        ensure!(same(&x.origin.vec, &y.origin.vec, l), "the ray's origin {:?} becomes {:?}", x.origin.vec, y.origin.vec);
        ensure!(same(&x.direction.vec, &y.direction.vec, 1.0), "the ray's direction {:?} becomes {:?}", x.direction.vec, y.direction.vec);
        ensure!(x.tmax == y.tmax, "the ray's extent {:?} becomes {:?}", x.tmax, y.tmax);
    }
    // projection
    let near = s.uni(0.05, 2.0) as f32;
    let far = near * s.uni(1.5, 100.0) as f32;
    let c: P = [coord(s), coord(s), -near * s.uni(0.5, 100.0) as f32];
    note!(s, "projection near {near:?} far {far:?} of {:?}", c);
    let (x, y) = (Transform::perspective(fov, near, far), Transform::perspective(fov, near * l, far * l));
    let (p, q): (Point3f, Point3f) = (x.map(pt3(c)), y.map(pt3(times(c, l))));
    ensure!(same(&p.vec, &q.vec, 1.0), "the projected point {:?} becomes {:?}", p.vec, q.vec);
    let (u, v): (Point3f, Point3f) = (x.map_inverse(p), y.map_inverse(q));
    ensure!(same(&u.vec, &v.vec, l), "the point projected back {:?} becomes {:?}", u.vec, v.vec);
    Ok(if l != 1.0 { Class::NonTrivial } else { Class::Trivial })
}

pub fn c24() -> Property {
    Property {
        id: "C24",
        rule: "non-trivial = a factor other than one; scenes: and at least one hit",
        laws: vec![
            Law { name: "scenes", quick: 600_000, f: scenes },
            Law { name: "measures and placements", quick: 500_000, f: measures },
            Law { name: "cameras and projections", quick: 500_000, f: cameras },
        ],
        sweeps: vec![],
        findings: vec![],
        assumptions: &["factors are powers of two from 2^-12 to 2^12 on lengths of ordinary size, where they commute with rounding: results are compared to a few ulps"],
    }
}
