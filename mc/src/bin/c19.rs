//! C19: spatial vectors, inertias and the free rigid body against 6x6 matrix algebra and the
//! Newton-Euler equations.
use mc::la::*;
use mc::num::*;
use mc::refmodel::*;
use mc::*;
use multicalc::dynamics::*;
use multicalc::error::{DynamicsError, SpatialError as S};
use multicalc::linear_algebra::{Matrix, Vector};
use multicalc::spatial::*;

fn skm(v: V3) -> M {
    vec![vec![0.0, -v[2], v[1]], vec![v[2], 0.0, -v[0]], vec![-v[1], v[0], 0.0]]
}
fn blocks(a: &M, b: &M, c: &M, d: &M) -> M {
    (0..6).map(|r| (0..6).map(|k| match (r < 3, k < 3) { (true, true) => a[r][k], (true, false) => b[r][k - 3], (false, true) => c[r - 3][k], _ => d[r - 3][k - 3] }).collect()).collect()
}
fn ad6(x: &[f64; 6]) -> M {
    let (p, w) = (skm([x[0], x[1], x[2]]), skm([x[3], x[4], x[5]]));
    blocks(&w, &p, &fscale(&feye(3), 0.0), &w)
}
fn m3(a: [[f64; 3]; 3]) -> M {
    a.iter().map(|r| r.to_vec()).collect()
}
fn adj(q: Q, p: V3) -> M {
    let r = m3(qmat(q));
    blocks(&r, &fmul(&skm(p), &r), &fscale(&feye(3), 0.0), &r)
}
fn v3<T: Fl>(a: V3) -> Vector<3, T> {
    Vector::new(ta(a))
}
fn va<T: Fl, const N: usize>(a: Vector<N, T>) -> [f64; N] {
    ga(*a.as_array())
}
fn so<T: Fl>(q: Q) -> SO3<T> {
    SO3::from_quaternion(Quaternion::from_array(ta(q)))
}
fn qa<T: Fl>(r: SO3<T>) -> Q {
    qnormed(ga(r.quaternion().as_array()))
}
fn poses() -> Vec<(Q, V3)> {
    let u = |v: V3| sc3(v, 1.0 / norm3(v));
    let mut v = vec![];
    for (a, th) in [([0.0, 0.0, 1.0], 0.0), ([1.0, 0.0, 0.0], 1.5707963), ([0.0, 1.0, 0.0], -2.0), ([1.0, 1.0, 1.0], 2.0943951), ([0.3, -0.5, 0.81], 0.7), ([-0.9, 0.1, 0.4], 3.0)] {
        for p in [[0.0; 3], [1.0, -2.0, 0.5], [0.0, 10.0, 0.0]] {
            v.push((qexp(sc3(u(a), th)), p));
        }
    }
    v
}

fn vectors<T: Fl>(ck: &Ck) {
    let al = [-1.0, 0.0, 2.0];
    let bl = [-2.0, 1.0];
    ck.space(&format!("spatial_algebra_{}", T::NAME), 3u64.pow(6) * 64, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let (a, b): ([f64; 6], [f64; 6]) = (d.arr(&al), d.arr(&bl));
        let (x, y) = (Twist::<T>::from_array(ta(a)), Twist::<T>::from_array(ta(b)));
        let w = Wrench::<T>::from_array(ta(b));
        let z = std::array::from_fn::<f64, 6, _>(|k| a[k] + b[k]);
        ensure_eq!(ga((x + y).as_array()), z, "sum");
        ensure_eq!(ga((x - y).as_array()), std::array::from_fn::<f64, 6, _>(|k| a[k] - b[k]), "difference");
        ensure_eq!(ga((-x).as_array()), a.map(|v| -v), "negation");
        ensure_eq!(ga(x.scale(t(-0.5)).as_array()), a.map(|v| v * -0.5), "scaling");
        ensure_eq!(va(x.linear()), [a[0], a[1], a[2]], "linear");
        ensure_eq!(va(x.angular()), [a[3], a[4], a[5]], "angular");
        ensure_eq!(Twist::new(x.linear(), x.angular()), x, "parts");
        ensure_eq!(Twist::from_vector(x.to_vector()), x, "flat");
        ensure_eq!(Twist::from(Vector::from(x)), x, "conversion");
        let u = Wrench::<T>::from_array(ta(a));
        ensure_eq!(ga((u + w).as_array()), z, "wrench sum");
        ensure_eq!(ga((u - w).as_array()), std::array::from_fn::<f64, 6, _>(|k| a[k] - b[k]), "wrench difference");
        ensure_eq!(ga((-u).as_array()), a.map(|v| -v), "wrench negation");
        ensure_eq!(ga(u.scale(t(-0.5)).as_array()), a.map(|v| v * -0.5), "wrench scaling");
        ensure_eq!((va(u.force()), va(u.torque())), ([a[0], a[1], a[2]], [a[3], a[4], a[5]]), "wrench parts");
        ensure_eq!(Wrench::new(u.force(), u.torque()), u, "wrench parts");
        ensure_eq!(Wrench::from(Vector::from(u)), Wrench::from_vector(u.to_vector()), "wrench flat");
        // cross products as matrices (exact: small integers)
        ensure_eq!(ga(x.cross(y).as_array()).to_vec(), fmv(&ad6(&a), &b), "motion cross product");
        ensure_eq!(ga(x.cross_wrench(w).as_array()).to_vec(), fmv(&fscale(&ft(&ad6(&a)), -1.0), &b), "force cross product");
        ensure_eq!(g(x.dot_wrench(w)), (0..6).map(|k| a[k] * b[k]).sum::<f64>(), "power");
        Ok(hf(&ga(x.cross(y).as_array())))
    });
    let ps = poses();
    let n = ps.len();
    ck.space(&format!("frames_{}", T::NAME), (n * 729) as u64, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let (q, p) = d.pick(&ps);
        let a: [f64; 6] = d.arr(&al);
        let x = SE3::from_parts(so::<T>(q), v3(p));
        let m = adj(q, p);
        let tw = Twist::<T>::from_array(ta(a));
        let wr = Wrench::<T>::from_array(ta(a));
        let tol = T::EPS * 400.0;
        vclose(&ga(x.act_twist(tw).as_array()), &fmv(&m, &a), tol, "act_twist")?;
        let inv = finv(&m).unwrap();
        vclose(&ga(x.inverse_act_twist(tw).as_array()), &fmv(&inv, &a), tol, "inverse_act_twist")?;
        vclose(&ga(x.act_wrench(wr).as_array()), &fmv(&ft(&inv), &a), tol, "act_wrench")?;
        vclose(&ga(x.inverse_act_wrench(wr).as_array()), &fmv(&ft(&m), &a), tol, "inverse_act_wrench")?;
        // power does not depend on the frame
        let b = Wrench::<T>::from_array(ta([1.0, -1.0, 2.0, 0.5, 1.0, -2.0]));
        ensure_close!(g(x.act_twist(tw).dot_wrench(x.act_wrench(b))), g(tw.dot_wrench(b)), 0.0, tol * 20.0, "power in another frame");
        Ok(hf(&ga(x.act_twist(tw).as_array())))
    });
}

fn inertias() -> Vec<(f64, V3, M)> {
    let r = m3(qmat(qexp([0.4, -0.9, 0.3])));
    let mut v = vec![];
    for m in [1.0, 0.25, 30.0, 1e-3] {
        for c in [[0.0; 3], [0.1, 0.0, -0.2], [1.0, -2.0, 3.0]] {
            for d in [[1.0, 1.0, 1.0], [0.02, 0.03, 0.04], [5.0, 1.0, 5.5], [1e-5, 2e-5, 2.5e-5], [3e4, 2e4, 4e4]] {
                let di: M = (0..3).map(|i| (0..3).map(|j| if i == j { d[i] } else { 0.0 }).collect()).collect();
                v.push((m, c, di.clone()));
                let mut full = fmul(&fmul(&r, &di), &ft(&r));
                for i in 0..3 {
                    for j in 0..i {
                        full[i][j] = full[j][i];
                    }
                }
                v.push((m, c, full));
            }
        }
    }
    v
}
fn spatial_matrix(m: f64, c: V3, i: &M) -> M {
    let s = skm(c);
    let io = fadd(i, &fscale(&fmul(&s, &s), -m));
    blocks(&fscale(&feye(3), m), &fscale(&s, -m), &fscale(&s, m), &io)
}
fn mass<T: Fl>(ck: &Ck) {
    let ins = inertias();
    let n = ins.len();
    let ps = poses();
    let tws: Vec<[f64; 6]> = vec![[0.0; 6], [1.0, 0.0, 0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0, 0.0, 2.0], [1.0, -2.0, 0.5, 0.3, 1.0, -0.7], [0.0, 3.0, -1.0, -1.0, 4.0, 2.0]];
    ck.space(&format!("inertia_{}", T::NAME), (n * n) as u64, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let (a, b) = (&ins[d.n(n)], &ins[d.n(n)]);
        let mk = |x: &(f64, V3, M)| SpatialInertia::<T>::new(t(x.0), v3(x.1), lm::<3, 3, T>(&x.2)).map_err(|e| format!("{e:?}"));
        let (x, y) = (mk(a)?, mk(b)?);
        let ma = spatial_matrix(a.0, a.1, &a.2);
        let sc = fmax_abs(&ma);
        let tol = T::EPS * 64.0 * sc;
        mclose(&mm(&x.to_matrix()), &ma, tol, "to_matrix")?;
        ensure_eq!((g(x.mass()), va(x.center_of_mass())), (g(t::<T>(a.0)), va(v3::<T>(a.1))), "parts");
        ensure!(x.is_finite(), "finite");
        for tw in &tws {
            let v = Twist::<T>::from_array(ta(*tw));
            let h = fmv(&ma, tw);
            let tt = tol * 20.0;
            vclose(&ga(x.momentum(v).as_array()), &h, tt, "momentum")?;
            ensure_close!(g(x.kinetic_energy(v)), 0.5 * fdot(tw, &h), 0.0, tt * 20.0, "kinetic energy");
            let bias = fmv(&fscale(&ft(&ad6(tw)), -1.0), &h);
            vclose(&ga(x.bias_wrench(v).as_array()), &bias, tt * 40.0, "bias wrench")?;
        }
        // about another point: parallel axes
        let p = [0.5, -1.0, 2.0];
        let s = skm(sub3(p, a.1));
        mclose(&mm(&x.inertia_about(v3(p))), &fadd(&a.2, &fscale(&fmul(&s, &s), -a.0)), tol * 4.0, "inertia_about")?;
        // two bodies as one: the sum of their matrices
        let mb = spatial_matrix(b.0, b.1, &b.2);
        let both = x.combined(y);
        mclose(&mm(&both.to_matrix()), &fadd(&ma, &mb), T::EPS * 128.0 * (sc + fmax_abs(&mb)), "combined")?;
        mclose(&mm(&y.combined(x).to_matrix()), &fadd(&ma, &mb), T::EPS * 128.0 * (sc + fmax_abs(&mb)), "combined the other way")?;
        // in another frame: Ad^-T I Ad^-1
        let (q, p) = ps[(i % ps.len() as u64) as usize];
        let inv = finv(&adj(q, p)).unwrap();
        let e = SE3::from_parts(so::<T>(q), v3(p));
        let moved = fmul(&fmul(&ft(&inv), &ma), &inv);
        let mt = T::EPS * 400.0 * (sc + fmax_abs(&moved));
        mclose(&mm(&e.act_inertia(x).to_matrix()), &moved, mt, "act_inertia")?;
        mclose(&mm(&e.inverse_act_inertia(e.act_inertia(x)).to_matrix()), &ma, mt * 8.0, "inverse_act_inertia")?;
        Ok(mh(&ma))
    });
    ck.space(&format!("inertia_verdict_{}", T::NAME), 14 * 14 * 14 * 5, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let (m, c, x) = (d.pick(&SPECIAL), d.pick(&SPECIAL), d.pick(&SPECIAL));
        let at = d.n(5);
        let mut j = [[2.0, 0.25, 0.0], [0.25, 3.0, -0.5], [0.0, -0.5, 4.0]];
        let (mut asym, mut dia) = (false, false);
        match at {
            0 => { j[0][0] = x; dia = !(x > 0.0); }
            1 => { j[2][2] = x; dia = !(x > 0.0); }
            2 => { j[0][2] = x; asym = x != 0.0 && x.abs() > 1e-5; }
            3 => { j[2][1] = x; asym = x != -0.5; }
            _ => { j[1][0] = x; j[0][1] = x; }
        }
        let x32 = x;
        let mut al = vec![];
        if !m.is_finite() || !c.is_finite() || !x32.is_finite() { al.push(S::NonFinite); }
        if !(m > 0.0) { al.push(S::NonPositiveMass); }
        if asym { al.push(S::NotSymmetric); }
        if dia { al.push(S::NonPositiveInertia); }
        let r = verdict(SpatialInertia::<T>::new(t(m), v3([0.5, c, 0.0]), Matrix::new(j.map(ta))), &al, "SpatialInertia::new")?;
        if let Some(r) = r {
            let pd = x.abs() < 1e3 && (x == 0.0 || x.abs() > 1e-3) && { let a = &j; a[0][0] > 0.0 && a[0][0] * a[1][1] - a[0][1] * a[1][0] > 1e-6 && rdet(&rr(&m3(j))).to_f64() > 1e-6 };
            let b = RigidBody::new(r, v3([0.0, 0.0, -9.81]));
            if pd && x.abs() > 1e-3 || pd && x == 0.0 {
                ensure!(b.is_ok(), "RigidBody::new refused {j:?}: {b:?}");
            } else if !pd && x.abs() < 1e3 && (x == 0.0 || x.abs() > 1e-3) {
                ensure_eq!(b.err(), Some(DynamicsError::NonPositiveInertia), "RigidBody::new on {j:?}");
            }
            ensure_eq!(RigidBody::new(r, v3([0.0, f64::NAN, 0.0])).err(), Some(DynamicsError::NonFinite), "gravity");
            ensure_eq!(RigidBody::new(r, v3([0.0, 0.0, f64::INFINITY])).err(), Some(DynamicsError::NonFinite), "gravity");
        }
        let al2: Vec<S> = al.iter().copied().filter(|e| *e != S::NotSymmetric).collect();
        if at < 2 {
            let mut dg = [2.0, 3.0, 4.0];
            dg[2 * at] = x;
            verdict(SpatialInertia::<T>::from_diagonal_inertia(t(m), v3([c, 0.0, 1.0]), v3(dg)), &al2, "from_diagonal_inertia")?;
        }
        Ok(al.len() as u64)
    });
}

/// Newton-Euler about the origin of the body frame, in body axes: how far `lin` (world axes) and
/// `ang` are from balancing the applied wrench, gravity and the rotating terms. Returns the
/// residual and the size of the terms, force and torque apart.
fn newton(m: f64, c: V3, i: &M, gr: V3, q: Q, w: V3, f: &[f64; 6], lin: V3, ang: V3) -> (V3, f64, V3, f64) {
    let a = qrot(qconj(q), lin);
    let fg = sc3(qrot(qconj(q), gr), m);
    let ac = add3(a, add3(cross(ang, c), cross(w, cross(w, c))));
    let force = sub3(sc3(ac, m), add3([f[0], f[1], f[2]], fg));
    let mv = |v: V3| { let r = fmv(i, &v); [r[0], r[1], r[2]] };
    // torque about the origin: rate of spin momentum at the balance point plus the moment of m a_c
    let spin = add3(mv(ang), cross(w, mv(w)));
    let torque = sub3(add3(spin, cross(c, sc3(ac, m))), add3([f[3], f[4], f[5]], cross(c, fg)));
    let fs = m * (norm3(a) + norm3(gr) + norm3(c) * (norm3(ang) + dot3(w, w))) + norm3([f[0], f[1], f[2]]);
    let ts = fmax_abs(i) * 3.0 * (norm3(ang) + dot3(w, w)) + norm3([f[3], f[4], f[5]]) + norm3(c) * fs;
    (force, fs, torque, ts)
}
fn body<T: Fl>(ck: &Ck) {
    let ins: Vec<(f64, V3, M)> = inertias().into_iter().filter(|x| fmax_abs(&x.2) < 1e2 && x.0 >= 0.25 || norm3(x.1) < 0.3 && x.0 < 1.0 && fmax_abs(&x.2) < 1e-3).collect();
    let n = ins.len();
    let ps = poses();
    let ws: [V3; 4] = [[0.0; 3], [1.0, 0.0, 0.0], [-0.5, 2.0, 1.0], [0.0, 0.0, -10.0]];
    let fs: [[f64; 6]; 5] = [[0.0; 6], [0.0, 0.0, 9.81, 0.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.1, -0.2, 0.3], [1.0, -2.0, 3.0, 0.5, 0.0, -1.0], [0.0, 5.0, 0.0, 0.0, 0.0, 0.0]];
    let grs: [V3; 3] = [[0.0; 3], [0.0, 0.0, -9.81], [1.0, -3.0, 2.0]];
    let np = ps.len();
    ck.space(&format!("body_{}", T::NAME), (n * np * 4 * 5 * 3) as u64, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let (m, c, j) = &ins[d.n(n)];
        let (q, p) = ps[d.n(np)];
        let w = d.pick(&ws);
        let f = d.pick(&fs);
        let gr = d.pick(&grs);
        let x = SpatialInertia::<T>::new(t(*m), v3(*c), lm::<3, 3, T>(j)).map_err(|e| format!("{e:?}"))?;
        let b = RigidBody::new(x, v3(gr)).map_err(|e| format!("{e:?}"))?;
        ensure_eq!((b.inertia(), va(b.gravity())), (x, va(v3::<T>(gr))), "parts");
        // in the numbers the library was given
        let (m, c, j) = (g(t::<T>(*m)), va(v3::<T>(*c)), mm(&lm::<3, 3, T>(j)));
        let fq: [f64; 6] = ga(ta::<T, 6>(f));
        let gr = va(b.gravity());
        let cond = fmax_abs(&finv(&j).unwrap()) * fmax_abs(&j);
        let o = so::<T>(q);
        let q = qa(o);
        let wr = Wrench::<T>::from_array(ta(f));
        let a = b.accelerations(o, v3(w), wr);
        let (lin, ang) = (va(a.linear()), va(a.angular()));
        let (rf, fs, rt, ts) = newton(m, c, &j, gr, q, w, &fq, lin, ang);
        ensure!(norm3(rf) <= T::EPS * 64.0 * fs, "force balance: {rf:?} left over of {fs}");
        ensure!(norm3(rt) <= T::EPS * 64.0 * (1.0 + cond) * ts, "torque balance: {rt:?} left over of {ts}");
        let at = T::EPS * 64.0 * cond * (norm3(ang) + ts * fmax_abs(&finv(&j).unwrap())) + 1e-300;
        let lt = T::EPS * 64.0 * (norm3(lin) + fs / m) + at * norm3(c);
        // the derivative of the thirteen numbers
        let v = [0.5, -1.0, 2.0];
        let qd = sc3(w, 0.5);
        let scq = 1.25; // a drifted orientation
        let st: [f64; 13] = [p[0], p[1], p[2], q[0] * scq, q[1] * scq, q[2] * scq, q[3] * scq, v[0], v[1], v[2], w[0], w[1], w[2]];
        let s = b.state_derivative(&Vector::new(ta(st)), wr);
        let dq = qmul([st[3], st[4], st[5], st[6]], [0.0, qd[0], qd[1], qd[2]]);
        let want: Vec<f64> = v.iter().chain(&dq).copied().collect();
        vclose(&va(s)[..7], &want, T::EPS * 64.0 * (1.0 + norm3(w)), "state derivative: place")?;
        vclose(&va(s)[7..10], &lin, lt * 4.0, "state derivative: velocity")?;
        vclose(&va(s)[10..], &ang, at * 4.0, "state derivative: rate")?;
        let mut z = st;
        z[3..7].fill(0.0);
        ensure_eq!(va(b.state_derivative(&Vector::new(ta(z)), wr)), [0.0; 13], "without an orientation");
        ensure!(free_joint_from_state_vector(&Vector::<13, T>::new(ta(z))).is_none(), "without an orientation");
        let fj = free_joint_from_state_vector(&Vector::<13, T>::new(ta(st))).ok_or("drifted state refused")?;
        let back = va(state_vector_from_free_joint(fj));
        let mut wantst = st;
        for k in 3..7 {
            wantst[k] /= scq;
        }
        vclose(&back, &wantst, T::EPS * 64.0 * (1.0 + norm3(p)), "state vector round trip")?;
        ensure_eq!((ga(fj.generalized_position()).to_vec(), ga(fj.generalized_velocity()).to_vec()), (back[..7].to_vec(), back[7..].to_vec()), "generalized vectors");
        ensure_eq!(ga(fj.velocity().as_array()).to_vec(), back[7..].to_vec(), "velocity");
        // one tick: everything at the half-way point
        for h in [0.01, 0.1, -0.05, 0.0] {
            let e = FreeJointState::new(SE3::from_parts(o, v3(p)), Twist::new(v3(v), v3(w)));
            let got = b.stepped(e, wr, t(h));
            let gp = ga(got.generalized_position());
            let gv = ga(got.generalized_velocity());
            let (hq, hv, hw) = (qmul(q, qexp(sc3(w, h / 2.0))), add3(v, sc3(lin, h / 2.0)), add3(w, sc3(ang, h / 2.0)));
            let a2 = b.accelerations(so::<T>(hq), v3(hw), wr);
            let (l2, a2) = (va(a2.linear()), va(a2.angular()));
            // rounding of the half-way state, through the second evaluation
            let amp = (1.0 + h.abs()) * (1.0 + norm3(hw)) * cond * (1.0 + norm3(c)) * 4.0;
            let tol = (at + lt + T::EPS * 64.0 * (norm3(gr) + fs / m + norm3(a2) + norm3(l2))) * amp;
            vclose(&gp[..3], &add3(p, sc3(hv, h)), T::EPS * 64.0 * (norm3(p) + 1.0) + lt * h * h, "tick: position")?;
            let wantq = qmul(q, qexp(sc3(hw, h)));
            ensure!(qdist([gp[3], gp[4], gp[5], gp[6]], wantq) <= T::EPS * 32.0 * (1.0 + norm3(hw)) + at * h * h, "tick: orientation {gp:?}, expected {wantq:?}");
            ensure_close!(gp[3..].iter().map(|x| x * x).sum::<f64>(), 1.0, T::EPS * 16.0, 0.0, "tick: unit orientation");
            vclose(&gv[..3], &add3(v, sc3(l2, h)), tol * (0.01 + h.abs()) + T::EPS * 16.0 * (norm3(v) + norm3(l2)), "tick: velocity")?;
            vclose(&gv[3..], &add3(w, sc3(a2, h)), tol * (0.01 + h.abs()) + T::EPS * 16.0 * (norm3(w) + norm3(a2)), "tick: rate")?;
        }
        Ok(hf(&lin) ^ hf(&ang))
    });
    // the free joint as numbers
    ck.space(&format!("free_joint_{}", T::NAME), 4u64.pow(4) * 3, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let q: Q = d.arr(&[-1.0, 0.0, 0.5, 1e-3]);
        let s = d.pick(&[1.0, 10.0, 0.1]);
        let pos = [1.0, 2.0, -3.0, q[0] * s, q[1] * s, q[2] * s, q[3] * s];
        let vel = [4.0, 5.0, 6.0, -7.0, -8.0, -9.0];
        let r = FreeJointState::<T>::from_generalized_vectors(ta(pos), ta(vel));
        ensure_eq!(r.is_some(), q != [0.0; 4], "free joint from {pos:?}");
        if let Some(r) = r {
            let u = qnormed(q);
            vclose(&ga(r.generalized_position()), &[1.0, 2.0, -3.0, u[0], u[1], u[2], u[3]], T::EPS * 8.0, "position")?;
            ensure_eq!(ga(r.generalized_velocity()), vel, "velocity");
            ensure_eq!(FreeJointState::new(r.pose(), r.velocity()), r, "parts");
        }
        let z = FreeJointState::<T>::identity();
        ensure_eq!((ga(z.generalized_position()), ga(z.generalized_velocity())), ([0.0, 0.0, 0.0, 1.0, 0.0, 0.0, 0.0], [0.0; 6]), "identity");
        Ok(r.is_some() as u64)
    });
}

/// The same body told in other units of mass, length and time moves the same.
fn units<T: Fl>(ck: &Ck) {
    let ins: Vec<(f64, V3, M)> = inertias().into_iter().filter(|x| fmax_abs(&x.2) < 1e2 && x.0 >= 0.25 || norm3(x.1) < 0.3 && x.0 < 1.0 && fmax_abs(&x.2) < 1e-3).collect();
    let n = ins.len();
    let ps: Vec<(Q, V3)> = poses().into_iter().step_by(4).collect();
    let np = ps.len();
    let two = |e: i32| 2f64.powi(e);
    let e: Vec<i32> = if T::IS32 { vec![0, -12, 12] } else { vec![0, -80, 80] };
    let te: Vec<i32> = if T::IS32 { vec![0, -6, 6] } else { vec![0, -40, 40] };
    let dec = |i: u64| { let mut d = Dig(i); (d.n(n), d.n(np), d.n(2), d.pick(&e), d.pick(&e), d.pick(&te)) };
    ck.space(&format!("units_{}", T::NAME), (n * np * 2 * 27) as u64, |i| format!("{:?}", dec(i)), |i| {
        let (bi, pi, big, mu, lu, tu) = dec(i);
        let (m, c, j) = &ins[bi];
        let (q, p) = ps[pi];
        let run = |mu: i32, lu: i32, tu: i32| -> Result<Vec<(&'static str, Vec<f64>)>, String> {
            let v = |a: V3, l: i32, ti: i32, ma: i32| v3::<T>(a.map(|x| g(t::<T>(x)) * two(l * lu + ti * tu + ma * mu)));
            let back = |a: [f64; 3], l: i32, ti: i32, ma: i32| a.map(|x| x * two(-(l * lu + ti * tu + ma * mu)));
            let jm = lm::<3, 3, T>(&j.iter().map(|r| r.iter().map(|x| g(t::<T>(*x)) * two(mu + 2 * lu)).collect()).collect());
            let x = SpatialInertia::<T>::new(t(g(t::<T>(*m)) * two(mu)), v(*c, 1, 0, 0), jm).map_err(|e| format!("{e:?}"))?;
            let b = RigidBody::new(x, v([1.0, -3.0, 2.0], 1, -2, 0)).map_err(|e| format!("{e:?}"))?;
            let o = so::<T>(q);
            let w = [[-0.5, 2.0, 1.0], [0.0, 0.0, -10.0]][big];
            let wr = Wrench::new(v([1.0, -2.0, 3.0], 1, -2, 1), v([0.5, 0.25, -1.0], 2, -2, 1));
            let vel = [0.5, -1.0, 2.0];
            let a = b.accelerations(o, v(w, 0, -1, 0), wr);
            let fj = FreeJointState::new(SE3::from_parts(o, v(p, 1, 0, 0)), Twist::new(v(vel, 1, -1, 0), v(w, 0, -1, 0)));
            let st = b.state_derivative(&state_vector_from_free_joint(fj), wr);
            let s = va(st);
            let nx = b.stepped(fj, wr, t(0.125 * two(tu)));
            let (gp, gv) = (ga(nx.generalized_position()), ga(nx.generalized_velocity()));
            let pose = SE3::from_parts(o, v(p, 1, 0, 0));
            let moved = pose.act_inertia(x);
            let two_in_one = x.combined(moved);
            let tw = Twist::new(v(vel, 1, -1, 0), v(w, 0, -1, 0));
            let h = moved.momentum(tw);
            let bw = moved.bias_wrench(tw);
            let mut out = vec![
                ("acceleration", back(va(a.linear()), 1, -2, 0).to_vec()),
                ("turning", back(va(a.angular()), 0, -2, 0).to_vec()),
                ("derivative of place", back([s[0], s[1], s[2]], 1, -1, 0).to_vec()),
                ("derivative of attitude", s[3..7].iter().map(|x| x * two(tu)).collect()),
                ("derivative of speed", back([s[7], s[8], s[9]], 1, -2, 0).to_vec()),
                ("derivative of rate", back([s[10], s[11], s[12]], 0, -2, 0).to_vec()),
                ("place after a tick", back([gp[0], gp[1], gp[2]], 1, 0, 0).to_vec()),
                ("attitude after a tick", gp[3..].to_vec()),
                ("speed after a tick", back([gv[0], gv[1], gv[2]], 1, -1, 0).to_vec()),
                ("rate after a tick", back([gv[3], gv[4], gv[5]], 0, -1, 0).to_vec()),
                ("momentum", back(va(h.force()), 1, -1, 1).to_vec()),
                ("spin", back(va(h.torque()), 2, -1, 1).to_vec()),
                ("bias force", back(va(bw.force()), 1, -2, 1).to_vec()),
                ("bias torque", back(va(bw.torque()), 2, -2, 1).to_vec()),
                ("energy", vec![g(x.kinetic_energy(tw)) * two(-(mu + 2 * lu - 2 * tu))]),
            ];
            for (name, y) in [("moved", moved), ("combined", two_in_one)] {
                out.push((name, std::iter::once(g(y.mass()) * two(-mu)).chain(back(va(y.center_of_mass()), 1, 0, 0)).collect()));
                out.push((name, mm(&y.inertia_about(y.center_of_mass())).concat().iter().map(|x| x * two(-(mu + 2 * lu))).collect()));
            }
            Ok(out)
        };
        let (a, b) = (run(0, 0, 0)?, run(mu, lu, tu).map_err(|e| format!("refused only in those units: {e}"))?);
        let mut out = vec![];
        for ((name, x), (_, y)) in a.iter().zip(&b) {
            op(1);
            let sc = x.iter().fold(0.0f64, |m, v| m.max(v.abs()));
            vclose(y, x, T::EPS * 2000.0 * (sc + 1e-3), name)?;
            out.extend(x.clone());
        }
        Ok(hf(&out))
    });
}

fn run<T: Fl>(ck: &Ck) {
    vectors::<T>(ck);
    mass::<T>(ck);
    body::<T>(ck);
    units::<T>(ck);
}
fn main() {
    let ck = Ck::new("C19");
    run::<f64>(&ck);
    run::<f32>(&ck);
    ck.finish()
}
