//! C22: proximity queries against a brute-force closest-point reference.
use mc::kin::*;
use mc::num::*;
use mc::refmodel::*;
use mc::*;
use multicalc::error::KinematicsError as E;
use multicalc::kinematics::*;
use multicalc::linear_algebra::Vector;

const ID: Pose = ([1.0, 0.0, 0.0, 0.0], [0.0; 3]);
#[derive(Clone, Copy, Debug)]
struct Shape {
    r: f64,
    /// None: sphere
    h: Option<f64>,
}
fn prim<T: Fl>(s: &Shape) -> Primitive<T> {
    match s.h {
        None => Primitive::Sphere { radius: t(s.r) },
        Some(h) => Primitive::Capsule { radius: t(s.r), half_length: t(h) },
    }
}
fn lerp(a: V3, b: V3, s: f64) -> V3 {
    add3(a, sc3(sub3(b, a), s))
}
fn pt_seg(p: V3, a: V3, b: V3) -> f64 {
    let d = sub3(b, a);
    let l = dot3(d, d);
    let s = if l == 0.0 { 0.0 } else { (dot3(sub3(p, a), d) / l).clamp(0.0, 1.0) };
    norm3(sub3(p, lerp(a, b, s)))
}
/// Distance of two segments: the four ends against the other segment, and the common perpendicular
/// if it meets both.
fn seg_seg(a: (V3, V3), b: (V3, V3)) -> f64 {
    let mut m = pt_seg(a.0, b.0, b.1).min(pt_seg(a.1, b.0, b.1)).min(pt_seg(b.0, a.0, a.1)).min(pt_seg(b.1, a.0, a.1));
    let (u, v, w) = (sub3(a.1, a.0), sub3(b.1, b.0), sub3(a.0, b.0));
    let n = cross(u, v);
    let nn = dot3(n, n);
    if nn > 1e-24 * dot3(u, u) * dot3(v, v) && nn > 0.0 {
        let s = -dot3(cross(v, n), w) / nn;
        let r = -dot3(cross(u, n), w) / nn;
        if (0.0..=1.0).contains(&s) && (0.0..=1.0).contains(&r) {
            m = m.min(norm3(sub3(lerp(a.0, a.1, s), lerp(b.0, b.1, r))));
        }
    }
    m
}
fn segment(s: &Shape, p: Pose) -> (V3, V3) {
    let h = s.h.unwrap_or(0.0);
    let ax = qrot(p.0, [0.0, 0.0, h]);
    (sub3(p.1, ax), add3(p.1, ax))
}
fn distance(a: &Shape, pa: Pose, b: &Shape, pb: Pose) -> f64 {
    seg_seg(segment(a, pa), segment(b, pb)) - a.r - b.r
}
fn rd<T: Fl>(x: f64) -> f64 {
    g(t::<T>(x))
}
fn rshape<T: Fl>(s: Shape) -> Shape {
    Shape { r: rd::<T>(s.r), h: s.h.map(rd::<T>) }
}
fn rpose<T: Fl>(p: Pose) -> Pose {
    (qnormed(p.0.map(rd::<T>)), p.1.map(rd::<T>))
}
fn tol<T: Fl>(a: &Shape, pa: Pose, b: &Shape, pb: Pose) -> f64 {
    let big = norm3(pa.1) + norm3(pb.1) + a.r + b.r + a.h.unwrap_or(0.0) + b.h.unwrap_or(0.0);
    let short = a.h.unwrap_or(0.0).min(b.h.unwrap_or(0.0));
    // segments all but parallel have no well-determined closest pair; the distance moves by the
    // turn between them times the shorter length
    let (u, v) = (qrot(pa.0, [0.0, 0.0, 1.0]), qrot(pb.0, [0.0, 0.0, 1.0]));
    let turn = norm3(cross(u, v));
    T::EPS * 100.0 * big + if turn < 200.0 * T::EPS.sqrt() { 4.0 * short * turn.min(4.0 * T::EPS.sqrt()) } else { 0.0 }
}

/// Two shapes: every combination of sizes, turns and offsets, at five scales.
fn pairs<T: Fl>(ck: &Ck, nm: &str, scales: [f64; 5]) {
    let turns: Vec<Q> = [[0.0; 3], [1.5707963267948966, 0.0, 0.0], [0.0, 1.5707963267948966, 0.0], [0.0, 0.7853981633974483, 0.0], [0.3, -0.2, 0.5], [3.141592653589793, 0.0, 0.0], [1e-5, 0.0, 0.0], [0.0, 0.01, 0.0], [1.2, 1.0, -2.0]].iter().map(|w| qexp(*w)).collect();
    let lens = [None, Some(0.0), Some(0.5), Some(1.0), Some(3.0)];
    let offs = [-2.0, -0.5, 0.0, 0.25, 1.0];
    let n = 9 * 5 * 9 * 5 * 125 * 5u64;
    ck.space(&format!("pairs_{nm}{}", T::NAME), n, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let (qa, qb) = (d.pick(&turns), d.pick(&turns));
        let (ha, hb) = (d.pick(&lens), d.pick(&lens));
        let off: [f64; 3] = d.arr(&offs);
        let sc = d.pick(&scales);
        let a = rshape::<T>(Shape { r: 0.1 * sc, h: ha.map(|x| x * sc) });
        let b = rshape::<T>(Shape { r: 0.3 * sc, h: hb.map(|x| x * sc) });
        let pa = rpose::<T>((qa, [0.2 * sc, -0.1 * sc, 0.0]));
        let pb = rpose::<T>((qb, sc3(off, sc)));
        let want = distance(&a, pa, &b, pb);
        let (x, y) = (prim::<T>(&a), prim::<T>(&b));
        let got = g(x.distance_to(se(pa), y, se(pb)));
        let tl = tol::<T>(&a, pa, &b, pb);
        ensure!((got - want).abs() <= tl, "distance {got}, expected {want} (tolerance {tl:e}) for {a:?} at {pa:?} and {b:?} at {pb:?}");
        let back = g(y.distance_to(se(pb), x, se(pa)));
        ensure!((back - got).abs() <= tl * 2.0, "distance the other way {back}, this way {got}");
        // the named closed forms
        let named = match (a.h, b.h) {
            (None, None) => sphere_sphere_distance(se::<T>(pa), t(a.r), se(pb), t(b.r)),
            (None, Some(h)) => sphere_capsule_distance(se::<T>(pa), t(a.r), se(pb), t(b.r), t(h)),
            (Some(h), None) => sphere_capsule_distance(se::<T>(pb), t(b.r), se(pa), t(a.r), t(h)),
            (Some(h), Some(k)) => capsule_capsule_distance(se::<T>(pa), t(a.r), t(h), se(pb), t(b.r), t(k)),
        };
        ensure!((g(named) - got).abs() <= tl, "closed form {} against {got}", g(named));
        Ok(hf(&[want]))
    });
}

/// Every sequence of pushes and exclusions, checked against a straight double loop.
fn queries<T: Fl>(ck: &Ck) {
    const MS: usize = 3;
    const ME: usize = 2;
    const MX: usize = 2;
    // two joints, three poses
    let r = RTree { j: vec![rj(K::Rev, [0.0, 0.0, 1.0], ID), rj(K::Rev, [0.0, 1.0, 0.0], (ID.0, [0.8, 0.0, 0.0]))], p: vec![None, Some(0)] };
    let shapes = [Shape { r: 0.1, h: None }, Shape { r: 0.05, h: Some(0.4) }, Shape { r: 0.2, h: Some(0.1) }];
    let locals = [ID, (qexp([0.0, 1.5707963, 0.0]), [0.3, 0.0, 0.1])];
    #[derive(Clone, Debug)]
    enum Op {
        Own(usize, usize, usize),
        Env(usize, V3),
        Not(usize, usize),
    }
    let mut ops = vec![];
    for f in [0, 1, 2] {
        for s in 0..3 {
            ops.push(Op::Own(f, s, (f + s) % 2));
        }
    }
    for (s, p) in [(0, [0.9, 0.3, 0.0]), (1, [0.5, 0.0, 0.8]), (2, [-2.0, 1.0, 0.0])] {
        ops.push(Op::Env(s, p));
    }
    for (a, b) in [(0, 1), (2, 0), (1, 2), (1, 1), (7, 9)] {
        ops.push(Op::Not(a, b));
    }
    #[derive(Clone)]
    struct S<T: Fl> {
        q: CollisionQuery<MS, ME, MX, T>,
        own: Vec<(usize, usize, usize)>,
        env: Vec<(usize, V3)>,
        not: Vec<(usize, usize)>,
    }
    let tr = r.build::<2, 2, T>().unwrap();
    let cfgs = [[0.0, 0.0], [0.7, -1.9], [3.0, 2.9]];
    let solved: Vec<_> = cfgs.iter().map(|c| (tr.forward_kinematics(&Vector::new(ta(*c))).unwrap(), r.fk(&c.map(rd::<T>)))).collect();
    let n = ops.len() as u64;
    ck.bfs::<S<T>>(
        &format!("queries_{}", T::NAME),
        ck.q(8, 10),
        &|| Ok(S { q: CollisionQuery::new(), own: vec![], env: vec![], not: vec![] }),
        n,
        &|a| format!("{:?}", ops[a as usize]),
        &|s, a| {
            match &ops[a as usize] {
                Op::Own(f, sh, l) => {
                    let al = if s.own.len() == MS { vec![E::CollisionCapacityExceeded] } else { vec![] };
                    let x = verdict(s.q.push_self_primitive(*f, prim(&shapes[*sh]), se(locals[*l])), &al, "push_self_primitive")?;
                    if let Some(i) = x {
                        ensure_eq!(i, s.own.len(), "index of the primitive");
                        s.own.push((*f, *sh, *l));
                    }
                }
                Op::Env(sh, p) => {
                    let al = if s.env.len() == ME { vec![E::CollisionCapacityExceeded] } else { vec![] };
                    let x = verdict(s.q.push_environment_primitive(prim(&shapes[*sh]), se((qexp([0.3, 0.0, 0.0]), *p))), &al, "push_environment_primitive")?;
                    if let Some(i) = x {
                        ensure_eq!(i, s.env.len(), "index of the obstacle");
                        s.env.push((*sh, *p));
                    }
                }
                Op::Not(x, y) => {
                    let al = if s.not.len() == MX { vec![E::CollisionCapacityExceeded] } else { vec![] };
                    if verdict(s.q.exclude_pair(*x, *y), &al, "exclude_pair")?.is_some() {
                        s.not.push((*x, *y));
                    }
                }
            }
            ensure_eq!((s.q.self_primitive_count(), s.q.environment_primitive_count()), (s.own.len(), s.env.len()), "counts");
            let mut h = vec![];
            for (st, fk) in &solved {
                let bad = s.own.iter().any(|o| o.0 >= fk.len());
                let got = verdict(s.q.check(st), &if bad { vec![E::ToolIndexOutOfRange] } else { vec![] }, "check")?;
                let Some(rep) = got else {
                    h.push(-1.0);
                    continue;
                };
                let place = |o: &(usize, usize, usize)| pmul(fk[o.0], locals[o.2]);
                let mut pairs = vec![];
                for i in 0..s.own.len() {
                    for j in i + 1..s.own.len() {
                        if !s.not.contains(&(i, j)) && !s.not.contains(&(j, i)) {
                            pairs.push((distance(&shapes[s.own[i].1], place(&s.own[i]), &shapes[s.own[j].1], place(&s.own[j])), CollisionSource::SelfPrimitive(i), CollisionSource::SelfPrimitive(j)));
                        }
                    }
                    for (j, e) in s.env.iter().enumerate() {
                        pairs.push((distance(&shapes[s.own[i].1], place(&s.own[i]), &shapes[e.0], (qexp([0.3, 0.0, 0.0]), e.1)), CollisionSource::SelfPrimitive(i), CollisionSource::Environment(j)));
                    }
                }
                let best = pairs.iter().fold(f64::INFINITY, |m, p| m.min(p.0));
                let c = g(rep.minimum_clearance);
                let tl = if T::IS32 { 3e-4 } else { 2e-8 };
                match rep.closest_pair {
                    None => {
                        ensure!(pairs.is_empty(), "no pair reported, {} were to be checked", pairs.len());
                        ensure_eq!(c, 0.0, "clearance without pairs");
                        ensure!(rep.is_clear(t(1e9)), "clear without pairs");
                    }
                    Some((x, y)) => {
                        ensure!((c - best).abs() <= tl, "clearance {c}, expected {best}");
                        let p = pairs.iter().find(|p| (p.1 == x && p.2 == y) || (p.1 == y && p.2 == x));
                        let p = p.ok_or_else(|| format!("reported pair {x:?} {y:?} is not one to be checked"))?;
                        ensure!((p.0 - best).abs() <= tl, "reported pair {x:?} {y:?} has clearance {}, the least is {best}", p.0);
                        for need in [c, c - 1e-3, c + 1e-3, 0.0] {
                            ensure_eq!(rep.is_clear(t(need)), c >= rd::<T>(need), "is_clear({need}) at clearance {c}");
                        }
                    }
                }
                h.push(c);
            }
            Ok(hf(&h))
        },
        &|s| Some(hkey(&(&s.own, &s.env.iter().map(|e| (e.0, e.1[0].to_bits())).collect::<Vec<_>>(), &s.not))),
    );
}

fn main() {
    let ck = Ck::new("C22");
    let near = [1.0, 1e-2, 1e-4, 30.0, 1e3];
    pairs::<f64>(&ck, "", near);
    pairs::<f32>(&ck, "", near);
    // any unit of length the products along the way can be told in
    pairs::<f64>(&ck, "units_", [1e-60, 1e-25, 1e-9, 1e9, 1e60]);
    pairs::<f32>(&ck, "units_", [1e-7, 1e-6, 1e-5, 1e5, 1e7]);
    queries::<f64>(&ck);
    queries::<f32>(&ck);
    ck.finish();
}
