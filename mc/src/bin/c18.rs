//! C18: quaternions and the groups SO(2), SO(3), SE(2), SE(3) against double-precision references:
//! Hamilton algebra, Rodrigues rotations, and power series of the adjoint for the Jacobians.
use mc::la::*;
use mc::num::*;
use mc::refmodel::*;
use mc::*;
use multicalc::linear_algebra::{Matrix, Vector};
use multicalc::spatial::{Quaternion, SE2, SE3, SO2, SO3};
use std::f64::consts::PI;

const DIRS: [V3; 18] = [
    [1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0], [-1.0, 0.0, 0.0], [0.0, -1.0, 0.0], [0.0, 0.0, -1.0],
    [1.0, 1.0, 0.0], [0.0, 1.0, -1.0], [-1.0, 0.0, 1.0], [1.0, 1.0, 1.0], [-1.0, 1.0, 1.0], [1.0, -1.0, -1.0],
    [0.3, -0.5, 0.81], [0.9, 0.1, -0.02], [1e-3, 1.0, 1e-5], [-0.7, 0.1, 0.7], [1.0, 1e-9, 0.0], [0.2, 0.4, -0.9],
];
fn unit(v: V3) -> V3 {
    sc3(v, 1.0 / norm3(v))
}
/// angles around every switch of a series, around a half turn and beyond
fn angles<T: Fl>() -> Vec<f64> {
    let e = T::EPS;
    let mut v = vec![0.0, 1e-20, e, 10.0 * e, 29.0 * e, 31.0 * e, e.sqrt(), 1e-3, 0.1, 0.5, 1.0, PI / 2.0, 2.0, 3.0, 3.14, PI, PI + 1e-3, 4.0, 6.0, 2.0 * PI, -0.7, -3.0];
    for c in [(360.0 * e).powf(1.0 / 6.0), (2520.0 * e).powf(1.0 / 6.0), (15120.0 * e).powf(1.0 / 6.0), (20160.0 * e).powf(0.125), (181440.0 * e).powf(0.125)] {
        v.extend([c * 0.5, c * 0.97, c * 1.03, c * 2.0]);
    }
    for k in 1..6 {
        v.push(PI - e * 10f64.powi(k));
    }
    v
}
fn q<T: Fl>(a: Q) -> Quaternion<T> {
    Quaternion::from_array(ta(a))
}
fn qa<T: Fl>(a: Quaternion<T>) -> Q {
    ga(a.as_array())
}
fn v3<T: Fl>(a: V3) -> Vector<3, T> {
    Vector::new(ta(a))
}
fn va<T: Fl, const N: usize>(a: Vector<N, T>) -> [f64; N] {
    ga(*a.as_array())
}
fn same(got: &[f64], want: &[f64], tol: f64, what: &str) -> Result<(), String> {
    op(1);
    for k in 0..want.len() {
        ensure!((got[k] - want[k]).abs() <= tol, "{what}: {got:?}, expected {want:?} within {tol}");
    }
    Ok(())
}
fn msame(got: &M, want: &M, tol: f64, what: &str) -> Result<(), String> {
    for (a, b) in got.iter().zip(want) {
        same(a, b, tol, what).map_err(|_| format!("{what}: {got:?}, expected {want:?} within {tol}"))?;
    }
    Ok(())
}
fn m3(a: [[f64; 3]; 3]) -> M {
    a.iter().map(|r| r.to_vec()).collect()
}
fn sk(v: V3) -> M {
    vec![vec![0.0, -v[2], v[1]], vec![v[2], 0.0, -v[0]], vec![-v[1], v[0], 0.0]]
}
/// sum of ad^n / (n + shift)!
fn series(ad: &M, shift: usize) -> M {
    let n = ad.len();
    let mut term = feye(n);
    let mut sum = feye(n);
    for k in 1..70 {
        term = fscale(&fmul(&term, ad), 1.0 / (k + shift) as f64);
        sum = fadd(&sum, &term);
    }
    sum
}
fn ad3(x: &[f64; 3]) -> M {
    sk(*x)
}
fn ad2(x: &[f64; 3]) -> M {
    vec![vec![0.0, -x[2], x[1]], vec![x[2], 0.0, -x[0]], vec![0.0; 3]]
}
fn ad6(x: &[f64; 6]) -> M {
    let (p, w) = (sk([x[0], x[1], x[2]]), sk([x[3], x[4], x[5]]));
    (0..6).map(|r| (0..6).map(|c| if r < 3 && c < 3 { w[r][c] } else if r < 3 { p[r][c - 3] } else if c >= 3 { w[r - 3][c - 3] } else { 0.0 }).collect()).collect()
}

fn algebra<T: Fl>(ck: &Ck) {
    let al = [-1.0, 0.0, 0.5, 2.0];
    ck.space(&format!("product_{}", T::NAME), 4u64.pow(8), |i| {
        let mut d = Dig(i);
        format!("{:?} * {:?}", d.arr::<4, _>(&al), d.arr::<4, _>(&al))
    }, |i| {
        let mut d = Dig(i);
        let (a, b): (Q, Q) = (d.arr(&al), d.arr(&al));
        let (x, y) = (q::<T>(a), q::<T>(b));
        let dot: f64 = (0..4).map(|k| a[k] * b[k]).sum();
        let nn: f64 = a.iter().map(|v| v * v).sum();
        ensure_eq!(qa(x * y), qmul(a, b), "product");
        ensure_eq!(qa(x + y), std::array::from_fn(|k| a[k] + b[k]), "sum");
        ensure_eq!(qa(x - y), std::array::from_fn(|k| a[k] - b[k]), "difference");
        ensure_eq!(qa(-x), a.map(|v| -v), "negation");
        ensure_eq!(qa(x * t::<T>(-3.0)), a.map(|v| -3.0 * v), "scaling");
        ensure_eq!(qa(x.conjugate()), qconj(a), "conjugate");
        ensure_eq!(g(x.dot(y)), dot, "dot");
        ensure_eq!(g(x.norm_squared()), nn, "norm squared");
        ensure_close!(g(x.norm()), nn.sqrt(), T::EPS * 2.0, 0.0, "norm");
        ensure_eq!([g(x.w()), g(x.x()), g(x.y()), g(x.z())], a, "components");
        ensure_eq!(va(x.vec()), [a[1], a[2], a[3]], "vector part");
        ensure_eq!(Quaternion::from_scalar_vector(x.w(), x.vec()), x, "parts");
        ensure_eq!(Quaternion::new(x.w(), x.x(), x.y(), x.z()), x, "new");
        ensure_eq!(x.try_normalized().is_some(), nn > 0.0, "try_normalized");
        ensure_eq!(SO3::try_from_quaternion(x).is_some(), nn > 0.0, "try_from_quaternion");
        if nn > 0.0 {
            same(&qa(x * x.inverse()), &[1.0, 0.0, 0.0, 0.0], T::EPS * 8.0, "times the inverse")?;
            let n = qnormed(a);
            same(&qa(x.normalized()), &n, T::EPS * 4.0, "normalized")?;
            same(&qa(x.try_normalized().unwrap()), &n, T::EPS * 4.0, "try_normalized")?;
            same(&qa(SO3::from_quaternion(x).quaternion()), &n, T::EPS * 4.0, "SO3 from a quaternion")?;
            same(&qa(SO3::from_quaternion(x).normalized().quaternion()), &n, T::EPS * 8.0, "SO3 normalized")?;
        }
        Ok(hf(&qmul(a, b)))
    });
    let an = angles::<T>();
    ck.space(&format!("explog_{}", T::NAME), (18 * an.len() * 4) as u64, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let u = unit(d.pick(&DIRS));
        let th = g(t::<T>(d.pick(&an)));
        let w = d.pick(&[0.0, -1.0, 0.5, 2.0]);
        let v = sc3(u, th);
        let e = q::<T>([w, v[0], v[1], v[2]]).exp();
        let (s, c) = (th.sin(), th.cos());
        let k = w.exp();
        same(&qa(e), &[k * c, k * s * u[0], k * s * u[1], k * s * u[2]], T::EPS * 16.0 * k, "exp")?;
        if th > 0.0 && th < PI - 1e-2 {
            same(&qa(e.log()), &[w, v[0], v[1], v[2]], T::EPS * 64.0 / (PI - th), "log of exp")?;
            // also relative for small rotations
            let l = qa(e.log());
            same(&[l[1], l[2], l[3]], &v, T::EPS * 64.0 * th / (PI - th) + 1e-37, "log of exp, relative")?;
        }
        Ok(hf(&qa(e)))
    });
}

fn rotations<T: Fl>(ck: &Ck) {
    let an = angles::<T>();
    let scales = [1.0, 2.0, 1e-3, 1e6];
    ck.space(&format!("axis_angle_{}", T::NAME), (18 * an.len() * 4) as u64, |i| {
        let mut d = Dig(i);
        format!("axis {:?} angle {} length {}", d.pick(&DIRS), d.pick(&an), d.pick(&scales))
    }, |i| {
        let mut d = Dig(i);
        let u = unit(d.pick(&DIRS));
        let th = g(t::<T>(d.pick(&an)));
        let sc = d.pick(&scales);
        let want = { let (s, c) = (th / 2.0).sin_cos(); [c, s * u[0], s * u[1], s * u[2]] };
        let a = Quaternion::<T>::from_axis_angle(v3(sc3(u, sc)), t(th));
        same(&qa(a), &want, T::EPS * 8.0, "from_axis_angle")?;
        let phi = sc3(u, th);
        let b = Quaternion::<T>::from_scaled_axis(v3(phi));
        same(&qa(b), &want, T::EPS * 8.0, "from_scaled_axis")?;
        ensure_eq!(SO3::exp(v3::<T>(phi)).quaternion(), b, "SO3::exp");
        // matrix, against Rodrigues
        let k = sk(u);
        let r = fadd(&fadd(&feye(3), &fscale(&k, th.sin())), &fscale(&fmul(&k, &k), 1.0 - th.cos()));
        let m = a.to_rotation_matrix();
        msame(&mm(&m), &r, T::EPS * 16.0, "to_rotation_matrix")?;
        let so = SO3::from_quaternion(a);
        msame(&mm(&so.to_matrix()), &r, T::EPS * 24.0, "SO3 matrix")?;
        msame(&mm(&so.adjoint()), &r, T::EPS * 24.0, "SO3 adjoint")?;
        for p in [[1.0, 0.0, 0.0], [0.0, -2.0, 0.5], [3.0, 4.0, 5.0]] {
            let x = fmv(&r, &p);
            let n = norm3(p);
            same(&va(a.transform_point(v3(p))), &x, T::EPS * 16.0 * n, "transform_point")?;
            same(&va(so.act(v3(p))), &x, T::EPS * 24.0 * n, "act")?;
            same(&va(a.inverse_transform_point(v3(p))), &fmv(&ft(&r), &p), T::EPS * 16.0 * n, "inverse_transform_point")?;
            same(&va(so.inverse().act(v3(p))), &fmv(&ft(&r), &p), T::EPS * 24.0 * n, "inverse")?;
        }
        // back, up to the sign of the quaternion
        let back = Quaternion::try_from_rotation_matrix(m).ok_or("try_from_rotation_matrix refused a rotation")?;
        ensure!(qdist(qa(back), want) <= T::EPS * 24.0, "from the matrix: {back:?}, expected {want:?}");
        let back = SO3::try_from_matrix(m).ok_or("try_from_matrix refused a rotation")?;
        ensure!(qdist(qa(back.quaternion()), want) <= T::EPS * 24.0, "from the matrix: {back:?}, expected {want:?}");
        // logarithm: the shortest rotation vector
        let mut f = th.rem_euclid(2.0 * PI);
        if f > PI {
            f -= 2.0 * PI;
        }
        let near_pi = (f.abs() - PI).abs() < 40.0 * T::EPS;
        let l = va(a.to_scaled_axis());
        ensure!(norm3(l) <= PI * (1.0 + T::EPS * 4.0), "logarithm of length {}", norm3(l));
        let (w1, w2) = (sc3(u, f), sc3(u, -f));
        let tol = T::EPS * 16.0 * if th.abs() < 1.0 { th.abs() } else { 4.0 } + 1e-37;
        if !(near_pi && norm3(sub3(l, w2)) <= tol) {
            same(&l, &w1, tol, "to_scaled_axis")?;
        }
        same(&va(so.log()), &l, T::EPS * 32.0 + tol, "SO3::log").or_else(|e| if near_pi { Ok(()) } else { Err(e) })?;
        let (ax, ang) = a.to_axis_angle();
        ensure!(g(ang) >= 0.0 && g(ang) <= PI * (1.0 + T::EPS * 4.0), "angle {ang:?}");
        ensure_close!(norm3(va(ax)), 1.0, T::EPS * 8.0, 0.0, "length of the axis");
        ensure_close!(g(ang), f.abs(), T::EPS * 16.0, T::EPS * 16.0, "angle");
        let l2 = sc3(va(ax), g(ang));
        if !(near_pi && norm3(sub3(l2, w2)) <= T::EPS * 64.0) {
            same(&l2, &w1, T::EPS * 64.0, "axis and angle")?;
        }
        ensure_close!(g(Quaternion::identity().rotation_angle_to(a)), f.abs(), T::EPS * 8.0, T::EPS * 8.0, "angle from the identity");
        ensure_close!(g((-a).rotation_angle_to(a)), 0.0, 0.0, T::EPS * 8.0, "angle to the other cover");
        Ok(hf(&l))
    });
    let es: Vec<f64> = (-12..=12).map(|k| k as f64 * PI / 12.0).chain([0.01, -3.0, 1.0]).collect();
    let mut ps: Vec<f64> = (-6..=6).map(|k| k as f64 * PI / 12.0).chain([0.01, 1.0]).collect();
    for k in 1..14 {
        ps.extend([PI / 2.0 - 10f64.powi(-k), -PI / 2.0 + 3.0 * 10f64.powi(-k)]);
    }
    ck.space(&format!("euler_{}", T::NAME), (es.len() * es.len() * ps.len()) as u64, |i| {
        let mut d = Dig(i);
        format!("roll {} pitch {} yaw {}", d.pick(&es), d.pick(&ps), d.pick(&es))
    }, |i| {
        let mut d = Dig(i);
        let (roll, pitch, yaw) = (g(t::<T>(d.pick(&es))), g(t::<T>(d.pick(&ps))), g(t::<T>(d.pick(&es))));
        let a = Quaternion::<T>::from_euler_zyx(t(roll), t(pitch), t(yaw));
        let want = qmul(qmul(qexp([0.0, 0.0, yaw]), qexp([0.0, pitch, 0.0])), qexp([roll, 0.0, 0.0]));
        same(&qa(a), &want, T::EPS * 8.0, "from_euler_zyx")?;
        let (r, p, y) = a.to_euler_zyx();
        let (r, p, y) = (g(r), g(p), g(y));
        ensure!(p.abs() <= PI / 2.0 * (1.0 + T::EPS), "pitch {p}");
        let back = qmul(qmul(qexp([0.0, 0.0, y]), qexp([0.0, p, 0.0])), qexp([r, 0.0, 0.0]));
        let gap = PI / 2.0 - pitch.abs();
        // at the poles pitch itself is only known to the square root of the precision
        let tol = T::EPS * 64.0 + if gap < (200.0 * T::EPS).sqrt() { (64.0 * T::EPS).sqrt() } else { T::EPS * 16.0 / gap };
        ensure!(qdist(back, qa(a)) <= tol, "roll {r} pitch {p} yaw {y} is another rotation, {} away", qdist(back, qa(a)));
        if gap > 1e-2 && roll.abs() < PI - 1e-6 && yaw.abs() < PI - 1e-6 {
            same(&[r, p, y], &[roll, pitch, yaw], T::EPS * 32.0 / gap / gap, "to_euler_zyx")?;
        } else {
            ensure!(r.abs() <= PI * (1.0 + T::EPS) && y.abs() <= 2.0 * PI * (1.0 + T::EPS), "range of roll {r} yaw {y}");
        }
        Ok(hf(&[r, p, y]))
    });
    // every pair of directions, of all lengths, and near-parallel and near-opposite ones
    let ls: Vec<f64> = if T::IS32 { vec![1.0, 1e-30, 1e30, 5.0] } else { vec![1.0, 1e-200, 1e200, 5.0] };
    let tilt = [0.0, 1e-18, 1e-12, 1e-8, 1e-6, 1e-4, 1e-2];
    ck.space(&format!("two_vectors_{}", T::NAME), 18 * 18 * 4 * 4 * 7, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let (u, w) = (unit(d.pick(&DIRS)), unit(d.pick(&DIRS)));
        let (la, lb) = (d.pick(&ls), d.pick(&ls));
        let k = d.pick(&tilt);
        let w = if k == 0.0 { w } else { unit(add3(sc3(u, -1.0), sc3(w, k))) };
        let (a, b) = (v3::<T>(sc3(u, la)), v3::<T>(sc3(w, lb)));
        // the directions the library was really given
        let (u, w) = (unit(sc3(va(a), 1.0 / la)), unit(sc3(va(b), 1.0 / lb)));
        let r = qa(Quaternion::from_two_vectors(a, b));
        ensure_close!(r.iter().map(|x| x * x).sum::<f64>(), 1.0, T::EPS * 12.0, 0.0, "unit length");
        same(&qrot(qnormed(r), u), &w, T::EPS * 24.0, &format!("{u:?} onto {w:?}"))?;
        let ang = 2.0 * norm3([r[1], r[2], r[3]]).atan2(r[0].abs());
        let want = norm3(cross(u, w)).atan2(dot3(u, w));
        ensure_close!(ang, want, 0.0, T::EPS * 64.0, "the shortest rotation from {u:?} to {w:?}");
        // the axis is perpendicular to both
        ensure!(dot3([r[1], r[2], r[3]], u).abs() <= T::EPS * 16.0, "axis not perpendicular");
        Ok(hf(&r))
    });
    let sp = [0.0, 1.0, f64::NAN, f64::INFINITY, -2.0];
    ck.space(&format!("two_vectors_bad_{}", T::NAME), 5u64.pow(6), |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let (a, b): (V3, V3) = (d.arr(&sp), d.arr(&sp));
        let ok = |v: V3| v.iter().all(|x| x.is_finite()) && v != [0.0; 3];
        let r = Quaternion::<T>::from_two_vectors(v3(a), v3(b));
        if !ok(a) || !ok(b) {
            ensure_eq!(r, Quaternion::identity(), "without a direction");
            ensure!(SO3::<T>::from_two_direction_pairs(v3(a), v3([1.0, 2.0, 3.0]), v3(b), v3([-1.0, 2.0, 0.5])).is_none(), "pairs without a direction");
            ensure!(SO3::<T>::from_two_direction_pairs(v3([1.0, 2.0, 3.0]), v3(a), v3([-1.0, 2.0, 0.5]), v3(b)).is_none(), "pairs without a second direction");
        }
        Ok(ok(a) as u64)
    });
    // orientation from two directions
    let seps = [PI / 2.0, 0.5, 2.5, 0.1, 0.02, 1e-3, 0.0, PI];
    ck.space(&format!("direction_pairs_{}", T::NAME), (18 * 5 * 8 * 6 * 5) as u64, |i| {
        let mut d = Dig(i);
        format!("axis {:?} angle {} separation {} first {:?} lengths {}", d.pick(&DIRS), d.pick(&[0.0, 0.3, 2.0, PI, 1e-6]), d.pick(&seps), d.pick(&DIRS[9..15]), d.n(5))
    }, |i| {
        let mut d = Dig(i);
        let rot = qexp(sc3(unit(d.pick(&DIRS)), d.pick(&[0.0, 0.3, 2.0, PI, 1e-6])));
        let sep = d.pick(&seps);
        let p = unit(d.pick(&DIRS[9..15]));
        let l = [[1.0, 1.0], [3.0, 0.1], [9.81, 40.0], [1e-12, 1e9], [1e-12, 1e-9]][d.n(5)];
        let side = unit(cross(p, [0.2, -0.9, 0.4]));
        let s = add3(sc3(p, sep.cos()), sc3(side, sep.sin()));
        let (po, so) = (v3::<T>(sc3(p, l[0])), v3::<T>(sc3(s, l[1])));
        let (pr, sr) = (v3::<T>(sc3(qrot(rot, p), 1.0 / l[1])), v3::<T>(sc3(qrot(rot, s), 2.0)));
        let r = SO3::from_two_direction_pairs(po, so, pr, sr);
        if sep.sin().abs() < 1e-12 {
            return match r {
                // rounding may leave some angle between them
                Some(x) => { ensure_close!(dot3(unit(qrot(qa(x.quaternion()), unit(va(po)))), unit(va(pr))), 1.0, T::EPS * 8.0, 0.0, "parallel pairs"); Ok(1) }
                None => Ok(0),
            };
        }
        let r = r.ok_or(format!("refused directions {sep} apart"))?;
        let rq = qa(r.quaternion());
        same(&qrot(rq, unit(va(po))), &unit(va(pr)), T::EPS * 24.0, "the primary direction")?;
        ensure!(qdist(rq, rot) <= T::EPS * 24.0 / sep.sin(), "orientation {rq:?}, expected {rot:?}");
        // noise in the secondary reading leaves the primary exact and the secondary in its half plane
        let noisy = add3(va(sr), [0.01, 0.02, -0.03]);
        if let Some(r) = SO3::from_two_direction_pairs(po, so, pr, v3::<T>(noisy)) {
            let rq = qa(r.quaternion());
            same(&qrot(rq, unit(va(po))), &unit(va(pr)), T::EPS * 24.0, "the primary direction under noise")?;
            let (a, b) = (unit(cross(unit(va(pr)), qrot(rq, unit(va(so))))), unit(cross(unit(va(pr)), unit(noisy))));
            same(&a, &b, T::EPS * 200.0 / sep.sin() / sep.sin(), "the secondary half plane")?;
        }
        Ok(hf(&rq))
    });
    let am = [0.0, 0.25, 0.5, 1.0, -0.5, 1.5];
    let rots: Vec<Q> = {
        let mut v = vec![];
        for u in &DIRS[..16] {
            for th in [0.0, 1e-9, 1e-5, 0.3, 1.5, 3.0, PI] {
                v.push(qexp(sc3(unit(*u), th)));
            }
        }
        v
    };
    let n = rots.len();
    ck.space(&format!("slerp_{}", T::NAME), (n * n * 2 * 6) as u64, |i| {
        let mut d = Dig(i);
        format!("{:?} to {:?} sign {} at {}", d.pick(&rots), d.pick(&rots), d.n(2), d.pick(&am))
    }, |i| {
        let mut d = Dig(i);
        let (a, b) = (d.pick(&rots), d.pick(&rots));
        let s = if d.n(2) == 1 { -1.0 } else { 1.0 };
        let am = d.pick(&am);
        let (x, y) = (q::<T>(a).normalized(), q::<T>(b).normalized() * t::<T>(s));
        let (a, b) = (qnormed(qa(x)), qnormed(qa(y)));
        let rel = qmul(qconj(a), b);
        let rel = if rel[0] < 0.0 { rel.map(|v| -v) } else { rel };
        let n = norm3([rel[1], rel[2], rel[3]]);
        let th = 2.0 * n.atan2(rel[0]);
        let u = if n > 0.0 { [rel[1] / n, rel[2] / n, rel[3] / n] } else { [1.0, 0.0, 0.0] };
        let want = |sg: f64| qmul(a, qexp(sc3(u, am * sg * if sg < 0.0 { 2.0 * PI - th } else { th })));
        // half a turn apart, either way round is shortest
        let tol = T::EPS * 32.0 * (1.0 + am.abs());
        let got = qa(x.slerp(y, t(am)));
        ensure!(qdist(got, want(1.0)) <= tol || (PI - th) < 32.0 * T::EPS && qdist(got, want(-1.0)) <= tol + 32.0 * T::EPS, "slerp {got:?}, expected {:?}, {} apart", want(1.0), qdist(got, want(1.0)));
        ensure_close!(got.iter().map(|x| x * x).sum::<f64>(), 1.0, T::EPS * 12.0, 0.0, "unit length");
        ensure_close!(g(x.rotation_angle_to(y)), th, T::EPS * 16.0, T::EPS * 16.0, "angle between");
        let so = qa(SO3::from_quaternion(x).interpolate(SO3::from_quaternion(y), t(am)).quaternion());
        ensure!(qdist(so, got) <= 4.0 * tol || (PI - th) < 64.0 * T::EPS, "SO3 interpolate {so:?}, slerp {got:?}");
        let c = qa((SO3::from_quaternion(x) * SO3::from_quaternion(y)).quaternion());
        ensure!(qdist(c, qmul(a, b)) <= T::EPS * 16.0, "composition");
        Ok(hf(&got))
    });
}

fn groups<T: Fl>(ck: &Ck) {
    let e = T::EPS;
    // SO(2)
    let an: Vec<f64> = (-24..=24).map(|k| k as f64 * PI / 12.0).chain([1e-9, -1e-4, 0.7, 3.1, -3.1415926, 100.0]).collect();
    let n = an.len();
    ck.space(&format!("so2_{}", T::NAME), (n * n * 6) as u64, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let (a, b) = (g(t::<T>(d.pick(&an))), g(t::<T>(d.pick(&an))));
        let am = d.pick(&[0.0, 0.25, 0.5, 1.0, -1.0, 2.0]);
        let (x, y) = (SO2::from_angle(t::<T>(a)), SO2::exp(t::<T>(b)));
        let wrap = |v: f64| { let f = v.rem_euclid(2.0 * PI); if f > PI { f - 2.0 * PI } else { f } };
        let is = |r: SO2<T>, th: f64, tol: f64, what: &str| { let (c, s) = r.cos_sin(); same(&[g(c), g(s)], &[th.cos(), th.sin()], tol, what) };
        is(x, a, e * 2.0, "from_angle")?;
        is(x * y, a + b, e * 8.0 + 1e-13, "composition")?;
        is(x.compose(y), a + b, e * 8.0 + 1e-13, "compose")?;
        is(x.inverse(), -a, e * 2.0, "inverse")?;
        is(x.normalized(), a, e * 4.0, "normalized")?;
        ensure_close!(g(x.norm()), 1.0, e * 4.0, 0.0, "norm");
        let l = g(x.log());
        let w = wrap(a);
        ensure!((l - w).abs() <= e * 8.0 + 1e-13 || (w.abs() - PI).abs() < 1e3 * e && (l + w).abs() <= 1e3 * e, "log {l}, expected {w}");
        let rel = wrap(b - a);
        if (rel.abs() - PI).abs() > 1e-3 {
            is(x.interpolate(y, t(am)), a + am * rel, e * 16.0 * (1.0 + am.abs()) + 1e-13, "interpolate")?;
        }
        let p = [3.0, -1.5];
        let want = [a.cos() * p[0] - a.sin() * p[1], a.sin() * p[0] + a.cos() * p[1]];
        same(&va(x.act(Vector::new(ta(p)))), &want, e * 16.0, "act")?;
        let m = mm(&x.to_matrix());
        msame(&m, &vec![vec![a.cos(), -a.sin()], vec![a.sin(), a.cos()]], e * 4.0, "matrix")?;
        is(SO2::try_from_matrix(x.to_matrix()).ok_or("refused its own matrix")?, a, e * 8.0, "from its matrix")?;
        ensure_eq!(g(SO2::vee(SO2::hat(t::<T>(a)))), a, "vee of hat");
        ensure_eq!(mm(&SO2::hat(t::<T>(a))), vec![vec![0.0, -a], vec![a, 0.0]], "hat");
        ensure!([x.adjoint(), SO2::left_jacobian(t::<T>(a)), SO2::right_jacobian(t(a)), SO2::left_jacobian_inverse(t(a)), SO2::right_jacobian_inverse(t(a))].iter().all(|v| *v == T::ONE), "abelian");
        Ok(hf(&[l]))
    });
    // Jacobians: power series of the adjoint, at every switch
    let ths: Vec<f64> = angles::<T>().into_iter().filter(|x| x.abs() < 3.6).collect();
    let rho: [V3; 6] = [[0.0, 0.0, 0.0], [1.0, 0.0, 0.0], [-0.5, 2.0, 1.0], [3.0, 4.0, -5.0], [0.0, 1e-3, 0.0], [1.0, 1.0, 1.0]];
    ck.space(&format!("so3_se3_jacobians_{}", T::NAME), (18 * ths.len() * 6) as u64, |i| {
        let mut d = Dig(i);
        format!("axis {:?} angle {} linear {:?}", d.pick(&DIRS), d.pick(&ths), d.pick(&rho))
    }, |i| {
        let mut d = Dig(i);
        let ph: V3 = va(v3::<T>(sc3(unit(d.pick(&DIRS)), d.pick(&ths))));
        let r: V3 = d.pick(&rho);
        let th = norm3(ph);
        let s3 = v3::<T>(ph);
        let jl = series(&ad3(&ph), 1);
        let jr = series(&fscale(&ad3(&ph), -1.0), 1);
        // the series keep the coefficients to a few rounding errors of unity; the switches balance
        // truncation against cancellation at eps^(2/3) or so of a term already scaled by theta
        let c = e.powf(2.0 / 3.0) * th * th;
        let tol = e * 64.0 * (1.0 + th) + c.min(e * 2e3);
        msame(&mm(&SO3::left_jacobian(s3)), &jl, tol, "SO3 left Jacobian")?;
        msame(&mm(&SO3::right_jacobian(s3)), &jr, tol, "SO3 right Jacobian")?;
        msame(&mm(&SO3::left_jacobian_inverse(s3)), &finv(&jl).unwrap(), tol * 4.0, "SO3 inverse left Jacobian")?;
        msame(&mm(&SO3::right_jacobian_inverse(s3)), &finv(&jr).unwrap(), tol * 4.0, "SO3 inverse right Jacobian")?;
        ensure_eq!(va(SO3::vee(SO3::hat(s3))), ph, "SO3 vee of hat");
        ensure_eq!(mm(&SO3::hat(s3)), sk(ph).iter().map(|r| r.iter().map(|x| *x).collect()).collect::<M>(), "SO3 hat");
        let x = [r[0], r[1], r[2], ph[0], ph[1], ph[2]];
        let x: [f64; 6] = va(lv::<6, T>(&x));
        let s6 = lv::<6, T>(&x);
        let ad = ad6(&x);
        let jl = series(&ad, 1);
        let jr = series(&fscale(&ad, -1.0), 1);
        let mag = 1.0 + norm3(r);
        let tol = tol * mag * 16.0;
        msame(&mm(&SE3::left_jacobian(s6)), &jl, tol, "SE3 left Jacobian")?;
        msame(&mm(&SE3::right_jacobian(s6)), &jr, tol, "SE3 right Jacobian")?;
        msame(&mm(&SE3::left_jacobian_inverse(s6)), &finv(&jl).unwrap(), tol * 8.0, "SE3 inverse left Jacobian")?;
        msame(&mm(&SE3::right_jacobian_inverse(s6)), &finv(&jr).unwrap(), tol * 8.0, "SE3 inverse right Jacobian")?;
        // exponential, logarithm, adjoint
        let a = SE3::exp(s6);
        let h: M = vec![vec![0.0, -ph[2], ph[1], x[0]], vec![ph[2], 0.0, -ph[0], x[1]], vec![-ph[1], ph[0], 0.0, x[2]], vec![0.0; 4]];
        ensure_eq!(mm(&SE3::hat(s6)), h, "SE3 hat");
        ensure_eq!(va(SE3::vee(SE3::hat(s6))), x, "SE3 vee of hat");
        let m = series(&h, 0);
        msame(&mm(&a.to_matrix()), &m, tol, "SE3 exponential")?;
        msame(&mm(&a.adjoint()), &series(&ad, 0), tol * 4.0, "SE3 adjoint")?;
        let fa = ft(&finv(&series(&ad, 0)).unwrap());
        msame(&mm(&a.force_adjoint()), &fa, tol * 4.0, "SE3 force adjoint")?;
        if th < PI - 1e-2 {
            same(&va(a.log()), &x, tol * 8.0, "SE3 log of exp")?;
        } else {
            let l = a.log();
            msame(&mm(&SE3::exp(l).to_matrix()), &m, tol * 64.0, "SE3 exp of log")?;
        }
        let back = SE3::try_from_matrix(a.to_matrix()).ok_or("SE3 refused its own matrix")?;
        msame(&mm(&back.to_matrix()), &m, tol, "SE3 from its matrix")?;
        Ok(mh(&m))
    });
    ck.space(&format!("se2_jacobians_{}", T::NAME), (angles::<T>().len() * 6 * 6) as u64, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let an = angles::<T>();
        let om = g(t::<T>(d.pick(&an)));
        let r: [f64; 2] = [d.pick(&[0.0, 1.0, -2.5, 4.0, 1e-3, 10.0]), d.pick(&[0.0, 1.0, -3.0, 0.5, 1e-4, -7.0])];
        let x: [f64; 3] = ga(ta::<T, 3>([r[0], r[1], om]));
        let s = v3::<T>(x);
        let mag = 1.0 + r[0].abs() + r[1].abs();
        let ad = ad2(&x);
        let jl = series(&ad, 1);
        let jr = series(&fscale(&ad, -1.0), 1);
        let tol = e * 64.0 * mag;
        let a = SE2::exp(s);
        let h = vec![vec![0.0, -om, x[0]], vec![om, 0.0, x[1]], vec![0.0; 3]];
        ensure_eq!(mm(&SE2::hat(s)), h, "SE2 hat");
        ensure_eq!(va(SE2::vee(SE2::hat(s))), x, "SE2 vee of hat");
        let m = series(&h, 0);
        msame(&mm(&a.to_matrix()), &m, tol * 4.0, "SE2 exponential")?;
        msame(&mm(&a.adjoint()), &series(&ad, 0), tol * 4.0, "SE2 adjoint")?;
        if om.abs() < PI - 1e-2 {
            same(&va(a.log()), &x, tol * 32.0, "SE2 log of exp")?;
        }
        let back = SE2::try_from_matrix(a.to_matrix()).ok_or("SE2 refused its own matrix")?;
        msame(&mm(&back.to_matrix()), &m, tol * 4.0, "SE2 from its matrix")?;
        msame(&mm(&SE2::left_jacobian(s)), &jl, tol * 4.0, "SE2 left Jacobian")?;
        msame(&mm(&SE2::right_jacobian(s)), &jr, tol * 4.0, "SE2 right Jacobian")?;
        if om.abs() < 2.0 * PI - 0.2 {
            msame(&mm(&SE2::left_jacobian_inverse(s)), &finv(&jl).unwrap(), tol * 64.0, "SE2 inverse left Jacobian")?;
            msame(&mm(&SE2::right_jacobian_inverse(s)), &finv(&jr).unwrap(), tol * 64.0, "SE2 inverse right Jacobian")?;
        }
        Ok(mh(&m))
    });
    // composition, inverse, action and interpolation of rigid transforms
    let tw: Vec<[f64; 6]> = {
        let mut v = vec![[0.0; 6]];
        for r in [[1.0, -2.0, 0.5], [0.0, 0.0, 3.0], [0.0; 3]] {
            for (k, th) in [(0, 0.5), (7, 1.5), (9, 2.6), (12, 3.0), (13, 1e-6), (5, PI / 2.0), (15, 0.02)] {
                let w = sc3(unit(DIRS[k]), th);
                v.push([r[0], r[1], r[2], w[0], w[1], w[2]]);
            }
        }
        v
    };
    let n = tw.len();
    ck.space(&format!("rigid_{}", T::NAME), (n * n * 6) as u64, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let (xa, xb) = (d.pick(&tw), d.pick(&tw));
        let am = d.pick(&[0.0, 0.25, 0.5, 1.0, -0.5, 1.5]);
        let h = |x: [f64; 6]| series(&vec![vec![0.0, -x[5], x[4], x[0]], vec![x[5], 0.0, -x[3], x[1]], vec![-x[4], x[3], 0.0, x[2]], vec![0.0; 4]], 0);
        let (a, b) = (SE3::exp(lv::<6, T>(&xa)), SE3::exp(lv::<6, T>(&xb)));
        let (ma, mb) = (h(xa), h(xb));
        let tol = e * 800.0;
        let ab = fmul(&ma, &mb);
        msame(&mm(&(a * b).to_matrix()), &ab, tol, "composition")?;
        msame(&mm(&a.compose(b).to_matrix()), &ab, tol, "compose")?;
        msame(&mm(&a.inverse().to_matrix()), &finv(&ma).unwrap(), tol, "inverse")?;
        let p = [0.3, -4.0, 2.0];
        let want = fmv(&ma, &[p[0], p[1], p[2], 1.0]);
        same(&va(a.act(v3(p))), &want[..3], tol, "act")?;
        same(&va(SE3::from_parts(a.rotation(), a.translation()).act(v3(p))), &want[..3], tol, "parts")?;
        ensure_eq!(SE3::<T>::identity().compose(a), a, "identity on the left");
        // geodesic: a exp(t log(a^-1 b)), as long as the logarithm is settled
        let rel = fmul(&finv(&ma).unwrap(), &mb);
        let cosr = (rel[0][0] + rel[1][1] + rel[2][2] - 1.0) / 2.0;
        let l = a.inverse().compose(b).log();
        let got = mm(&a.interpolate(b, t(am)).to_matrix());
        if cosr > -0.99 {
            let l: [f64; 6] = va(l);
            msame(&h(l), &rel, tol * 4.0, "exp of log of the relative pose")?;
            msame(&got, &fmul(&ma, &h(l.map(|v| v * am))), tol * 8.0, "interpolate")?;
        }
        if am == 0.0 { msame(&got, &ma, tol, "interpolate at 0")?; }
        if am == 1.0 { msame(&got, &mb, tol * 64.0, "interpolate at 1")?; }
        // the plane
        let (pa, pb) = ([xa[0], xa[1], xa[5]], [xb[0], xb[1], xb[5]]);
        let h2 = |x: [f64; 3]| series(&vec![vec![0.0, -x[2], x[0]], vec![x[2], 0.0, x[1]], vec![0.0; 3]], 0);
        let (a, b) = (SE2::exp(v3::<T>(pa)), SE2::exp(v3::<T>(pb)));
        let (ma, mb) = (h2(pa), h2(pb));
        msame(&mm(&(a * b).to_matrix()), &fmul(&ma, &mb), tol, "SE2 composition")?;
        msame(&mm(&a.inverse().to_matrix()), &finv(&ma).unwrap(), tol, "SE2 inverse")?;
        same(&va(a.act(Vector::new(ta([2.0, -3.0])))), &fmv(&ma, &[2.0, -3.0, 1.0])[..2], tol, "SE2 act")?;
        ensure_eq!(SE2::from_parts(a.rotation(), a.translation()), a, "SE2 parts");
        let rel = fmul(&finv(&ma).unwrap(), &mb);
        let th = rel[1][0].atan2(rel[0][0]);
        if th.abs() < 3.0 {
            let l: [f64; 3] = va(a.inverse().compose(b).log());
            msame(&h2(l), &rel, tol * 4.0, "SE2 exp of log")?;
            ensure_close!(l[2], th, 0.0, tol, "SE2 angle");
            msame(&mm(&a.interpolate(b, t(am)).to_matrix()), &fmul(&ma, &h2(l.map(|v| v * am))), tol * 8.0, "SE2 interpolate")?;
        }
        Ok(mh(&ab))
    });
    // acceptance of matrices
    let dl = [0.0, 1e-3, -0.1, 1.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY];
    let rots: Vec<Q> = [0.0, 0.4, 2.0, PI].iter().flat_map(|th| DIRS[6..13].iter().map(move |u| qexp(sc3(unit(*u), *th)))).collect();
    ck.space(&format!("matrices_{}", T::NAME), (rots.len() * 16 * 7 * 4) as u64, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let r = qmat(d.pick(&rots));
        let (row, c) = (d.n(4), d.n(4));
        let de = d.pick(&dl);
        let flip = d.n(4);
        let mut m: M = (0..4).map(|i| (0..4).map(|j| if i < 3 && j < 3 { r[i][j] } else if i == j { 1.0 } else if i < 3 { 2.5 - i as f64 } else { 0.0 }).collect()).collect();
        if flip < 3 {
            for x in m[flip].iter_mut() {
                *x = -*x;
            }
        }
        m[row][c] += de;
        let l = lm::<4, 4, T>(&m);
        let l3 = Matrix::<3, 3, T>::from_fn(|i, j| l[(i, j)]);
        let bad3 = flip < 3 || row < 3 && c < 3 && de != 0.0;
        let bad4 = bad3 || !de.is_finite() || row == 3 && de != 0.0;
        ensure_eq!(SO3::try_from_matrix(l3).is_none(), bad3, "SO3 refuses {m:?}");
        let s = SE3::try_from_matrix(l);
        ensure_eq!(s.is_none(), bad4, "SE3 refuses {m:?}");
        if let Some(s) = s {
            msame(&mm(&s.to_matrix()), &m, e * 32.0, "SE3 from a matrix")?;
        }
        // the plane: the rotation about z of the same angle
        let th = 0.3 + d.0 as f64 + row as f64;
        let mut m: M = vec![vec![th.cos(), -th.sin(), 4.0], vec![th.sin(), th.cos(), -1.0], vec![0.0, 0.0, 1.0]];
        if flip < 2 {
            for x in m[flip].iter_mut() {
                *x = -*x;
            }
        }
        let mut bad = flip < 2;
        let mut bad2 = flip < 2;
        if row < 3 && c < 3 {
            m[row][c] += de;
            bad |= de != 0.0 && (c < 2 || row == 2 || !de.is_finite());
            bad2 |= de != 0.0 && c < 2 && row < 2;
        }
        ensure_eq!(SE2::try_from_matrix(lm::<3, 3, T>(&m)).is_none(), bad, "SE2 refuses {m:?}");
        let l = lm::<3, 3, T>(&m);
        ensure_eq!(SO2::try_from_matrix(Matrix::<2, 2, T>::from_fn(|i, j| l[(i, j)])).is_none(), bad2, "SO2 refuses {m:?}");
        Ok((bad3 as u64) * 2 + bad as u64)
    });
}

/// Every pattern of signs and every order of rows on the entries of a rotation: only rotations are taken
fn signs<T: Fl>(ck: &Ck) {
    let rots: Vec<M> = [0.0, 0.4, PI / 2.0, 2.0, PI].iter().flat_map(|th| DIRS.iter().take(8).map(move |u| qexp(sc3(unit(*u), *th)))).map(|q| qmat(q).iter().map(|r| r.to_vec()).collect()).collect();
    let orders = [[0usize, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]];
    // how far from a rotation: the product with its own transpose, and the side it is on
    fn off(m: &M, n: usize) -> f64 {
        let mut w: f64 = 0.0;
        for a in 0..n { for b in 0..n { w = w.max(((0..n).map(|k| m[a][k] * m[b][k]).sum::<f64>() - (a == b) as u8 as f64).abs()) } }
        let det = if n == 2 { m[0][0] * m[1][1] - m[0][1] * m[1][0] } else {
            (0..3).map(|k| m[0][k] * (m[1][(k + 1) % 3] * m[2][(k + 2) % 3] - m[1][(k + 2) % 3] * m[2][(k + 1) % 3])).sum()
        };
        if det < 0.0 { 1.0 } else { w }
    }
    let n = rots.len() as u64 * 512 * 6;
    ck.space(&format!("signs_{}", T::NAME), n, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let (sign, order, r) = (d.n(512), orders[d.n(6)], &rots[d.n(rots.len())]);
        let m: M = (0..3).map(|a| (0..3).map(|b| r[order[a]][b] * if sign >> (3 * a + b) & 1 == 1 { -1.0 } else { 1.0 }).collect()).collect();
        let w = off(&m, 3);
        if w > 1e-3 || w < 8.0 * T::EPS {
            let yes = w < 1e-3;
            ensure_eq!(SO3::try_from_matrix(lm::<3, 3, T>(&m)).is_some(), yes, "SO3 takes {m:?}");
            let h: M = vec![vec![m[0][0], m[0][1], m[0][2], 2.0], vec![m[1][0], m[1][1], m[1][2], -7.0], vec![m[2][0], m[2][1], m[2][2], 0.5], vec![0.0, 0.0, 0.0, 1.0]];
            ensure_eq!(SE3::try_from_matrix(lm::<4, 4, T>(&h)).is_some(), yes, "SE3 takes {h:?}");
        }
        // the plane: signs and order of a turn by an angle of its own
        let th: f64 = [0.0, 0.3, PI / 2.0, 2.0, PI, -0.7, -PI / 2.0, 4.0][(i % 8) as usize];
        let (c, s) = (th.cos(), th.sin());
        let e = [c, -s, s, c];
        let p: M = (0..2).map(|a| (0..2).map(|b| e[2 * if order[0] == 0 { a } else { 1 - a } + b] * if sign >> (2 * a + b) & 1 == 1 { -1.0 } else { 1.0 }).collect()).collect();
        let w2 = off(&p, 2);
        if w2 > 1e-3 || w2 < 8.0 * T::EPS {
            let yes = w2 < 1e-3;
            ensure_eq!(SO2::try_from_matrix(lm::<2, 2, T>(&p)).is_some(), yes, "SO2 takes {p:?}");
            let h: M = vec![vec![p[0][0], p[0][1], 3.0], vec![p[1][0], p[1][1], -4.0], vec![0.0, 0.0, 1.0]];
            ensure_eq!(SE2::try_from_matrix(lm::<3, 3, T>(&h)).is_some(), yes, "SE2 takes {h:?}");
        }
        Ok((w < 1e-3) as u64 * 2 + (w2 < 1e-3) as u64)
    });
}

/// A matrix off by a little round-off is taken for the rotation nearby, and the drift is gone.
fn drifted<T: Fl>(ck: &Ck) {
    let rots: Vec<Q> = [0.0, 1e-4, 0.4, 2.0, 3.1, PI].iter().flat_map(|th| DIRS.iter().map(move |u| qexp(sc3(unit(*u), *th)))).collect();
    let n = rots.len() as u64 * 9 * 10;
    ck.space(&format!("drifted_{}", T::NAME), n, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let r = qmat(d.pick(&rots));
        let k = d.n(9) as f64 - 4.0;
        let at = d.n(10);
        let de = 3.0 * k * T::EPS;
        // the whole matrix scaled, or one entry moved
        let m: M = (0..3).map(|i| (0..3).map(|j| if at == 9 { r[i][j] * (1.0 + de) } else { r[i][j] + if at == 3 * i + j { de } else { 0.0 } }).collect()).collect();
        let s = SO3::try_from_matrix(lm::<3, 3, T>(&m)).ok_or_else(|| format!("refused {m:?}"))?;
        ensure_close!(g(s.quaternion().norm()), 1.0, 4.0 * T::EPS, 0.0, "length");
        msame(&mm(&s.to_matrix()), &m, 48.0 * T::EPS, "matrix")?;
        let th = 0.1 + (i % 63) as f64 / 10.0;
        let (c, w) = (th.cos(), th.sin());
        let p: M = (0..2).map(|i| (0..2).map(|j| [[c, -w], [w, c]][i][j] * (1.0 + if at == 9 { de } else { 0.0 }) + if at == 2 * i + j { de } else { 0.0 }).collect()).collect();
        let unit = |q: SO2<T>, what: &str| -> Result<(), String> {
            let (x, y) = q.cos_sin();
            let (x, y) = (g(x), g(y));
            ensure_close!(x.hypot(y), 1.0, 4.0 * T::EPS, 0.0, "length {what}");
            ensure!((x - c).abs() <= 20.0 * T::EPS && (y - w).abs() <= 20.0 * T::EPS, "{what}: {x} {y} from {p:?}");
            Ok(())
        };
        unit(SO2::try_from_matrix(lm::<2, 2, T>(&p)).ok_or_else(|| format!("refused {p:?}"))?, "SO2")?;
        let h: M = vec![vec![p[0][0], p[0][1], 3.0], vec![p[1][0], p[1][1], -5.0], vec![0.0, 0.0, 1.0]];
        unit(SE2::try_from_matrix(lm::<3, 3, T>(&h)).ok_or_else(|| format!("refused {h:?}"))?.rotation(), "SE2")?;
        Ok(i % 10)
    });
}

/// long chains of composition: the group laws hold to accumulated rounding
fn chains<T: Fl>(ck: &Ck) {
    let gens: Vec<Q> = vec![qexp([PI / 2.0, 0.0, 0.0]), qexp([0.0, PI / 2.0, 0.0]), qexp([0.0, 0.0, PI / 2.0]), qexp(sc3(unit([1.0, 1.0, 1.0]), 2.0 * PI / 3.0)), qexp([0.1, 0.0, -0.2])];
    let depth = ck.q(6, 9);
    ck.space(&format!("chains_{}", T::NAME), 5u64.pow(depth), |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let mut want = [1.0, 0.0, 0.0, 0.0];
        let mut s = SO3::<T>::identity();
        let mut p = SE3::<T>::identity();
        let mut tr = [0.0; 3];
        let step = [0.5, -1.0, 2.0];
        for _ in 0..depth {
            let k = d.pick(&gens);
            let sk = SO3::from_quaternion(q::<T>(k));
            s = s * sk;
            p = p * SE3::from_parts(sk, v3(step));
            tr = add3(tr, qrot(want, step));
            want = qmul(want, k);
        }
        ensure!(qdist(qa(s.quaternion()), want) <= T::EPS * 8.0 * depth as f64, "rotation chain");
        ensure!(qdist(qa(p.rotation().quaternion()), want) <= T::EPS * 8.0 * depth as f64, "rotation of the pose chain");
        same(&va(p.translation()), &tr, T::EPS * 64.0 * (depth * depth) as f64, "translation of the pose chain")?;
        let back = p * p.inverse();
        same(&va(back.translation()), &[0.0; 3], T::EPS * 64.0 * (depth * depth) as f64, "pose times its inverse")?;
        Ok(hf(&want))
    });
}

fn run<T: Fl>(ck: &Ck) {
    algebra::<T>(ck);
    rotations::<T>(ck);
    groups::<T>(ck);
    drifted::<T>(ck);
    signs::<T>(ck);
    chains::<T>(ck);
}
fn main() {
    let ck = Ck::new("C18");
    ck.assume("references are double precision power series; f64 tolerances include their own rounding");
    run::<f64>(&ck);
    run::<f32>(&ck);
    ck.finish()
}
