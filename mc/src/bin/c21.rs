//! C21: inverse kinematics: what the report claims is what the arm does, and reachable targets are reached.
use mc::kin::*;
use mc::la::*;
use mc::num::*;
use mc::refmodel::*;
use mc::*;
use multicalc::error::KinematicsError as E;
use multicalc::kinematics::InverseKinematicsTermination as End;
use multicalc::kinematics::*;
use multicalc::linear_algebra::Vector;
use multicalc::random::{RandomScalar, RandomSource};

const ID: Pose = ([1.0, 0.0, 0.0, 0.0], [0.0; 3]);
const C: usize = 10;
const J: usize = 8;
const X: V3 = [1.0, 0.0, 0.0];
const Y: V3 = [0.0, 1.0, 0.0];
const Z: V3 = [0.0, 0.0, 1.0];

struct Arm {
    name: &'static str,
    r: RTree,
    lim: Vec<Option<(f64, f64)>>,
    /// a configuration away from singularities and limits
    home: Vec<f64>,
    tool: usize,
    /// dimension of the task the arm can command
    task: usize,
}
fn arms() -> Vec<Arm> {
    let o = |x: f64, y: f64, z: f64| (ID.0, [x, y, z]);
    let chain = |v: &[RJ]| RTree { j: v.to_vec(), p: (0..v.len()).map(|i| i.checked_sub(1)).collect() };
    let all = |n: usize, l: f64| vec![Some((-l, l)); n];
    let six = [rj(K::Rev, Z, ID), rj(K::Rev, Y, o(0.0, 0.0, 0.5)), rj(K::Rev, Y, o(0.6, 0.0, 0.0)), rj(K::Rev, X, o(0.5, 0.0, 0.0)), rj(K::Rev, Y, ID), rj(K::Rev, X, o(0.1, 0.0, 0.0)), rj(K::Fix, X, o(0.1, 0.05, 0.0))];
    let planar = [rj(K::Rev, Z, ID), rj(K::Rev, Z, o(1.0, 0.0, 0.0)), rj(K::Rev, Z, o(0.7, 0.0, 0.0)), rj(K::Fix, Z, o(0.4, 0.0, 0.0))];
    let seven = [rj(K::Rev, Z, ID), rj(K::Rev, Y, o(0.0, 0.0, 0.4)), rj(K::Rev, Z, o(0.0, 0.0, 0.3)), rj(K::Rev, Y, o(0.1, 0.0, 0.3)), rj(K::Rev, Z, o(0.0, 0.0, 0.3)), rj(K::Rev, Y, o(0.0, 0.0, 0.2)), rj(K::Rev, X, o(0.1, 0.0, 0.1))];
    let mut v = vec![
        Arm { name: "planar", r: chain(&planar), lim: vec![None; 4], home: vec![0.3, 0.8, -0.9, 0.0], tool: 3, task: 3 },
        Arm { name: "planar_limited", r: chain(&planar), lim: all(3, 1.5).into_iter().chain([None]).collect(), home: vec![0.3, 0.8, -0.9, 0.0], tool: 3, task: 3 },
        Arm { name: "planar_four", r: chain(&[planar[0], planar[1], planar[2], rj(K::Cont, Z, o(0.4, 0.0, 0.0)), rj(K::Fix, Z, o(0.3, 0.0, 0.0))]), lim: vec![None; 5], home: vec![0.3, 0.8, -0.9, 0.5, 0.0], tool: 4, task: 3 },
        Arm { name: "six", r: chain(&six), lim: vec![None; 7], home: vec![0.2, -0.5, 1.1, 0.4, 0.9, -0.3, 0.0], tool: 6, task: 6 },
        Arm { name: "six_limited", r: chain(&six), lim: all(6, 2.5).into_iter().chain([None]).collect(), home: vec![0.2, -0.5, 1.1, 0.4, 0.9, -0.3, 0.0], tool: 6, task: 6 },
        Arm { name: "gantry", r: chain(&[rj(K::Pris, X, ID), rj(K::Pris, [0.0, 2.0, 0.0], ID), rj(K::Pris, Z, ID), rj(K::Cont, Z, ID), rj(K::Cont, Y, ID), rj(K::Cont, X, ID)]), lim: vec![None; 6], home: vec![0.1, -0.4, 2.0, 0.5, -0.3, 0.9], tool: 5, task: 6 },
        Arm { name: "seven", r: chain(&seven), lim: all(7, 2.8), home: vec![0.2, 0.6, -0.4, 0.9, 0.3, -0.8, 0.1], tool: 6, task: 6 },
    ];
    for turned in [false, true] {
        let base = if turned { (qexp([0.4, -0.7, 1.2]), [0.5, 0.0, -0.2]) } else { ID };
        v.push(Arm {
            name: if turned { "free_turned" } else { "free" },
            r: RTree { j: vec![rj(K::Float, Z, base), rj(K::Rev, Y, o(0.2, 0.0, 0.1)), rj(K::Pris, X, o(0.3, 0.0, 0.0)), rj(K::Rev, X, o(0.0, 0.3, 0.0))], p: vec![None, Some(0), Some(1), Some(0)] },
            lim: vec![None, Some((-2.0, 2.0)), Some((-0.5, 1.0)), None],
            home: vec![0.3, -0.2, 0.5, 0.8, 0.1, -0.4, 0.4, 0.5, 0.2, 0.1],
            tool: 2,
            task: 6,
        });
    }
    v
}
fn tree<T: Fl>(a: &Arm) -> Result<KinematicTree<J, C, T>, String> {
    let mut tr = KinematicTree::new();
    for (i, j) in a.r.j.iter().enumerate() {
        let mut x = joint::<T>(j);
        if let Some((l, h)) = a.lim[i] {
            x = x.with_limits(t(l), t(h));
        }
        tr.push(x, par(a.r.p[i])).map_err(|e| format!("{e:?}"))?;
    }
    Ok(tr)
}
fn cfg<T: Fl>(v: &[f64]) -> Vector<C, T> {
    let mut a = [0.0; C];
    a[..v.len()].copy_from_slice(v);
    Vector::new(ta(a))
}
/// body-frame error of a configuration: twist logarithm, and plain translation distance
fn residual(a: &Arm, c: &[f64], target: Pose) -> ([f64; 6], f64, f64, f64) {
    let here = a.r.fk(c)[a.tool];
    let e = pmul(pinv(here), target);
    let mut q = qnormed(e.0);
    if q[0] < 0.0 {
        q = q.map(|x| -x);
    }
    let s = norm3([q[1], q[2], q[3]]);
    let ang = 2.0 * s.atan2(q[0]);
    let w = sc3([q[1], q[2], q[3]], if s < 1e-12 { 2.0 } else { ang / s });
    let cc = if ang < 1e-2 { 1.0 / 12.0 + ang * ang / 720.0 } else { (1.0 - 0.5 * ang / (0.5 * ang).tan()) / (ang * ang) };
    let wp = cross(w, e.1);
    let v = add3(sub3(e.1, sc3(wp, 0.5)), sc3(cross(w, wp), cc));
    ([v[0], v[1], v[2], w[0], w[1], w[2]], norm3(v), norm3(e.1), ang)
}
fn clamped(a: &Arm, c: &[f64]) -> Vec<f64> {
    let mut c = c.to_vec();
    for (i, l) in a.lim.iter().enumerate() {
        if let Some((lo, hi)) = l {
            let o = a.r.off(i);
            c[o] = c[o].max(*lo).min(*hi);
        }
    }
    c
}
/// What any report must satisfy, whatever the target.
fn honest<T: Fl>(a: &Arm, rep: &InverseKinematicsReport<C, T>, seed: &Vector<C, T>, target: Pose, tol: (f64, f64), maxit: usize, limits: bool) -> Result<(f64, f64), String> {
    let c: Vec<f64> = vv(&rep.joint_positions);
    ensure!(c.iter().all(|x| x.is_finite()), "{}: joint positions {c:?}", a.name);
    ensure!(rep.iterations <= maxit, "{} iterations, {maxit} allowed", rep.iterations);
    let (_, v, p, w) = residual(a, &c, target);
    let big = 1.0 + norm3(target.1) + c.iter().fold(0.0f64, |m, x| m.max(x.abs()));
    let s = T::EPS * 100.0 * big;
    let (pe, oe) = (g(rep.position_error), g(rep.orientation_error));
    // a turn of nearly half a turn may be logged either way round
    let edge = w > 3.14159 - 1e-4 - s.sqrt();
    ensure!(edge || (pe - v).abs() <= s * 4.0 + v * 1e-4 || (pe - p).abs() <= s * 4.0, "{}: reported position error {pe}, the arm is off by {p} (as a twist {v})", a.name);
    ensure!((oe - w).abs() <= s * 4.0, "{}: reported orientation error {oe}, the arm is off by {w}", a.name);
    let within = pe <= tol.0 && oe <= tol.1;
    ensure!(within == (rep.termination == End::Converged), "{}: {:?} with errors {pe} and {oe}, tolerances {tol:?}", a.name, rep.termination);
    for (i, l) in a.lim.iter().enumerate() {
        if let (true, Some((lo, hi))) = (limits, l) {
            let x = c[a.r.off(i)];
            ensure!(x >= g(t::<T>(*lo)) && x <= g(t::<T>(*hi)), "{}: joint {i} at {x}, limits {lo}..{hi}", a.name);
        }
    }
    for k in 0..C {
        let idle = k >= a.r.cfg() || (0..a.r.j.len()).any(|i| a.r.j[i].k == K::Fix && a.r.off(i) == k);
        ensure!(!idle || rep.joint_positions[k] == seed[k], "{}: slot {k} commands nothing but moved from {:?} to {:?}", a.name, seed[k], rep.joint_positions[k]);
    }
    Ok((pe, oe))
}

/// Targets near home are reached from home, with every secondary objective and weighting.
fn reachable<T: Fl>(ck: &Ck) {
    let ar = arms();
    let n = ar.len();
    let deltas = [0.0, 0.25, -0.3];
    let tol = if T::IS32 { 2e-5 } else { 1e-6 };
    ck.space(&format!("reachable_{}", T::NAME), (n * 243 * 4 * 2 * 2) as u64, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let a = &ar[d.n(n)];
        let dl: [f64; 5] = d.arr(&deltas);
        let sec = d.n(4);
        let wsel = d.n(2);
        let limits = d.n(2) == 0;
        let mut goal = a.home.clone();
        for k in 0..a.r.vel() {
            goal = a.r.nudge(&goal, k, dl[k % 5] * if k >= 5 { -0.8 } else { 1.0 });
        }
        let target = a.r.fk(&goal)[a.tool];
        let tr = tree::<T>(a)?;
        let seed = cfg::<T>(&a.home);
        // a posture pursued in finite steps disturbs the pose to second order until it settles
        let maxit = if sec == 0 { 100 } else { 1500 };
        let mut s = InverseKinematics::<C, T>::new().with_position_tolerance(t(tol)).with_orientation_tolerance(t(tol)).with_respect_limits(limits).with_maximum_iterations(maxit);
        let w: [f64; C] = std::array::from_fn(|k| if k >= a.r.vel() { 0.0 } else if wsel == 0 { 1.0 } else { [1.0, 3.0, 0.5][k % 3] });
        s = s.with_joint_weights(Vector::new(ta(w)));
        s = match sec {
            0 => s,
            1 => s.with_secondary_objective(SecondaryObjective::PreferredPosture(cfg(&a.home.iter().map(|x| x + 0.4).collect::<Vec<_>>()))),
            2 => s.with_secondary_objective(SecondaryObjective::JointLimitMargin),
            _ => s.with_secondary_objective(SecondaryObjective::PreferredPosture(cfg(&a.home.iter().map(|x| -x).collect::<Vec<_>>()))).with_secondary_gain(t(0.5)),
        };
        let rep = s.solve(&tr, a.tool, se(target), &seed).map_err(|e| format!("{e:?}"))?;
        let e = honest(a, &rep, &seed, target, (tol, tol), maxit, limits)?;
        ensure!(rep.termination == End::Converged, "{}: {:?} after {} iterations with errors {e:?}, target from {goal:?}, objective {sec}", a.name, rep.termination, rep.iterations);
        // the same answer again
        let again = s.solve(&tr, a.tool, se(target), &rep.joint_positions).map_err(|e| format!("{e:?}"))?;
        ensure!(again.termination == End::Converged && again.iterations == 1 && again.joint_positions == rep.joint_positions, "solving from the solution: {again:?}");
        Ok(rep.iterations as u64)
    });
}

/// Any target, any budget: the report is honest and never worse than the start.
fn anywhere<T: Fl>(ck: &Ck) {
    let ar = arms();
    let n = ar.len();
    let places: [V3; 6] = [[0.0; 3], [0.8, 0.2, 0.4], [-1.0, 0.5, 0.0], [3.0, 0.0, 0.0], [0.0, -40.0, 10.0], [1.2, 0.9, 0.0]];
    let turns: [V3; 6] = [[0.0; 3], [0.0, 0.0, 0.7], [3.1415926, 0.0, 0.0], [0.0, -2.0, 1.0], [0.0, 0.0, -3.0], [1.2, 0.0, 0.0]];
    let seeds = [0.0, 0.6, -2.0];
    let budgets = [0usize, 1, 2, 5, 100];
    let tol = 1e-4;
    ck.space(&format!("anywhere_{}", T::NAME), (n * 36 * 27 * 5 * 2 * 2) as u64, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let a = &ar[d.n(n)];
        let target = (qexp(d.pick(&turns)), d.pick(&places));
        let sd: [f64; 3] = d.arr(&seeds);
        let maxit = d.pick(&budgets);
        let limits = d.n(2) == 0;
        let sec = d.n(2);
        let cap = 0.2;
        let mut c: Vec<f64> = (0..a.r.cfg()).map(|k| sd[k % 3] + 0.1 * (k / 3) as f64).collect();
        if a.r.floating() {
            c[3..7].copy_from_slice(&[0.7, sd[0], sd[1], -sd[2]]);
        }
        let tr = tree::<T>(a)?;
        let seed = cfg::<T>(&c);
        let mut s = InverseKinematics::<C, T>::new().with_maximum_iterations(maxit).with_position_tolerance(t(tol)).with_orientation_tolerance(t(tol)).with_respect_limits(limits);
        if sec == 1 {
            s = s.with_secondary_objective(SecondaryObjective::JointLimitMargin);
        }
        let rep = s.solve(&tr, a.tool, se(target), &seed).map_err(|e| format!("{e:?}"))?;
        honest(a, &rep, &seed, target, (tol, tol), maxit, limits)?;
        let start = if limits { clamped(a, &c) } else { c.clone() };
        if maxit == 1 {
            let got: Vec<f64> = vv(&rep.joint_positions);
            let lo = if a.r.floating() { 7 } else { 0 };
            let moved: f64 = fnorm(&(lo..a.r.cfg()).map(|k| got[k] - start[k]).collect::<Vec<_>>());
            ensure!(moved <= cap * (1.0 + T::EPS * 8.0) + T::EPS * 20.0, "{}: one step moved {moved}", a.name);
            if a.r.floating() {
                let m = norm3([got[0] - start[0], got[1] - start[1], got[2] - start[2]]);
                ensure!(m <= cap * (1.0 + 1e-5), "{}: the base moved {m} in one step", a.name);
            }
        }
        Ok(h64(&(rep.termination as u8, rep.iterations)))
    });
}

/// "A non-converged solve still carries its best configuration": never worse than the start.
fn keeps_best<T: Fl>(ck: &Ck) {
    let ar: Vec<Arm> = arms().into_iter().filter(|a| a.r.j.len() > 4 || a.lim[0].is_some()).collect();
    let n = ar.len();
    let targets = [(ID.0, [0.0, 0.0, 0.0]), (ID.0, [3.0, 0.0, 0.0]), (qexp([0.0, 0.0, 0.7]), [0.0; 3]), (qexp([0.0, 0.0, 0.7]), [1.2, 0.9, 0.4])];
    let show = |i: u64| {
        let mut d = Dig(i);
        format!("{} towards {}", ar[d.n(n)].name, ["the origin", "(3, 0, 0)", "the origin turned by 0.7", "(1.2, 0.9, 0.4) turned by 0.7"][d.n(4)])
    };
    ck.space(&format!("keeps_best_{}", T::NAME), (n * 4) as u64, show, |i| {
        let mut d = Dig(i);
        let a = &ar[d.n(n)];
        let target = targets[d.n(4)];
        let tr = tree::<T>(a)?;
        let c = clamped(a, &a.home);
        let rep = InverseKinematics::<C, T>::new().solve(&tr, a.tool, se(target), &cfg(&c)).map_err(|e| format!("{e:?}"))?;
        let (before, after) = (fnorm(&residual(a, &c, target).0), fnorm(&residual(a, &vv(&rep.joint_positions), target).0));
        ensure!(rep.termination == End::Converged || after <= before * (1.0 + 1e-3) + 1e-4, "{:?} at an error of {after}, it started at {before}", rep.termination);
        Ok(rep.iterations as u64)
    });
}

/// One step of the solver is the weighted least-norm step, with the posture in the null space only.
fn single_step<T: Fl>(ck: &Ck) {
    let ar = arms();
    let n = ar.len();
    let ds = [0.0, 0.02, -0.03];
    ck.space(&format!("single_step_{}", T::NAME), (n * 729 * 3 * 4) as u64, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let a = &ar[d.n(n)];
        let dl: [f64; 6] = d.arr(&ds);
        let wsel = d.n(3);
        let sec = d.n(4);
        // a small error in task space that the arm can follow: move its own joints slightly
        let mut goal = a.home.clone();
        for k in 0..a.r.vel() {
            goal = a.r.nudge(&goal, k, dl[k % 6] * 0.2);
        }
        let target = a.r.fk(&goal)[a.tool];
        let tr = tree::<T>(a)?;
        let seed = cfg::<T>(&a.home);
        let wts = [[1.0, 1.0, 1.0], [1.0, 10.0, 0.2], [4.0, 0.3, 2.0]][wsel];
        let w: [f64; C] = std::array::from_fn(|k| wts[k % 3]);
        // the damping only where the arm lacks task directions altogether
        let lam = if a.task < 6 { 1e-2 } else { 0.0 };
        let mut s = InverseKinematics::<C, T>::new().with_maximum_iterations(1).with_position_tolerance(T::ZERO).with_orientation_tolerance(T::ZERO).with_joint_weights(Vector::new(ta(w))).with_maximum_damping(t(1e-2));
        let want_posture: Vec<f64> = a.home.iter().map(|x| x + 0.5).collect();
        let gain = 0.2;
        s = match sec {
            0 => s,
            1 => s.with_secondary_objective(SecondaryObjective::PreferredPosture(cfg(&want_posture))).with_secondary_gain(t(gain)),
            2 => s.with_secondary_objective(SecondaryObjective::JointLimitMargin).with_secondary_gain(t(gain)),
            // a whole turn away: nothing for a joint without travel limits, further for one with a range
            _ => s.with_secondary_objective(SecondaryObjective::PreferredPosture(cfg(&a.home.iter().map(|x| x + 6.283185307179586 - 0.1).collect::<Vec<_>>()))).with_secondary_gain(t(0.01)),
        };
        let rep = s.solve(&tr, a.tool, se(target), &seed).map_err(|e| format!("{e:?}"))?;
        let (e, _, _, _) = residual(a, &a.home, target);
        let m = a.r.jac(&a.home, a.tool, true);
        let nv = a.r.vel();
        let wi: M = (0..nv).map(|x| (0..nv).map(|y| if x == y { 1.0 / w[x] } else { 0.0 }).collect()).collect();
        let wt = fmul(&wi, &ft(&m));
        // bias
        let mut b = vec![0.0; nv];
        for (i, j) in a.r.j.iter().enumerate() {
            if matches!(j.k, K::Fix | K::Float) {
                continue;
            }
            let (x, o) = (a.home[a.r.off(i)], a.r.voff(i));
            b[o] = match sec {
                1 => gain * 0.5,
                2 => a.lim[i].map_or(0.0, |(l, h)| gain * (0.5 * (l + h) - x) / (h - l)),
                3 => 0.01 * if j.k == K::Cont { -0.1 } else { 6.283185307179586 - 0.1 },
                _ => 0.0,
            };
        }
        let gram = fmul(&m, &wt);
        let (ev, evec) = feig(&gram);
        let inv = |lam: f64, x: &[f64]| -> Vec<f64> {
            let mut y = vec![0.0; 6];
            for k in 0..6 {
                if ev[k] < ev[5] * 1e-9 {
                    continue;
                }
                let c: f64 = (0..6).map(|r| evec[r][k] * x[r]).sum();
                for r in 0..6 {
                    y[r] += evec[r][k] * c / (ev[k] + lam * lam);
                }
            }
            y
        };
        if ev.iter().any(|x| *x > ev[5] * 1e-9 && *x < 1e-5) {
            return Ok(3); // inside the damping ramp
        }
        let task = fmv(&wt, &inv(lam, &e));
        // the posture moves only what the task leaves free
        let proj = fmv(&wt, &inv(0.0, &fmv(&m, &b)));
        let mut step: Vec<f64> = (0..nv).map(|k| task[k] + b[k] - proj[k]).collect();
        for (i, j) in a.r.j.iter().enumerate() {
            if j.k == K::Fix {
                step[a.r.voff(i)] = 0.0;
            }
        }
        let len = fnorm(&step);
        if len > 0.2 {
            step.iter_mut().for_each(|x| *x *= 0.2 / len);
        }
        let got: Vec<f64> = vv(&rep.joint_positions);
        let mut want = a.home.clone();
        if a.r.floating() {
            for k in 0..3 {
                want[k] += step[k];
            }
            let q = qmul(qnormed([want[3], want[4], want[5], want[6]]), qexp([step[3], step[4], step[5]]));
            let q = if qdist(q, [got[3], got[4], got[5], got[6]]) < 1e-2 && dot4(q, &got[3..7]) < 0.0 { q.map(|x| -x) } else { q };
            want[3..7].copy_from_slice(&q);
            for k in 6..nv {
                want[k + 1] += step[k];
            }
        } else {
            for k in 0..nv {
                want[k] += step[k];
            }
        }
        let lims = clamped(a, &want);
        if rep.termination == End::Converged {
            // nothing to do: at the target already
            return Ok(1);
        }
        let cond = ev[5] / ev.iter().filter(|x| **x > ev[5] * 1e-9).fold(f64::MAX, |m, x| m.min(*x));
        vclose(&got[..lims.len()], &lims, 1e-7 + T::EPS * 50.0 * cond, &format!("{}: one step towards {target:?}, weights {wts:?}, objective {sec}", a.name))?;
        Ok(2)
    });
}
/// The caps and thresholds of one step: never longer than the largest step and shortened only when it
/// would be, stalled exactly when the motion made is no longer than the least step, and damped by no
/// more than the largest damping and only below the threshold.
fn step_settings<T: Fl>(ck: &Ck) {
    let ar = arms();
    let n = ar.len();
    let caps = [0.001, 0.05, 0.2, 1.0, 50.0];
    let least = [1e-12, 0.02, 0.3];
    let damp = [(1e-3, 1e-2), (1e-3, 5.0), (0.5, 0.3), (3.0, 0.05), (3.0, 2.0), (0.0, 2.0)];
    let ds = [0.0, 0.01, -0.15, 0.4];
    ck.space(&format!("step_settings_{}", T::NAME), (n * 64 * 5 * 3 * 6) as u64, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let a = &ar[d.n(n)];
        let dl: [f64; 3] = d.arr(&ds);
        let cap = caps[d.n(5)];
        let min = least[d.n(3)];
        let (thr, top) = damp[d.n(6)];
        if dl == [0.0; 3] {
            return Ok(0);
        }
        let nv = a.r.vel();
        let mut goal = a.home.clone();
        for k in 0..nv {
            goal = a.r.nudge(&goal, k, dl[k % 3]);
        }
        let target = a.r.fk(&goal)[a.tool];
        let tr = tree::<T>(a)?;
        let s = InverseKinematics::<C, T>::new()
            .with_maximum_iterations(1)
            .with_position_tolerance(t(1e-5))
            .with_orientation_tolerance(t(1e-5))
            .with_maximum_step_norm(t(cap))
            .with_minimum_step_norm(t(min))
            .with_respect_limits(false)
            .with_singular_value_threshold(t(thr))
            .with_maximum_damping(t(top));
        let rep = s.solve(&tr, a.tool, se(target), &cfg(&a.home)).map_err(|e| format!("{e:?}"))?;
        let (e, _, _, _) = residual(a, &a.home, target);
        let m = a.r.jac(&a.home, a.tool, true);
        let (ev, evec) = feig(&fmul(&m, &ft(&m)));
        let step = |lam2: f64| -> Vec<f64> {
            let mut y = vec![0.0; 6];
            for k in 0..6 {
                if ev[k] < ev[5] * 1e-9 {
                    continue;
                }
                let c: f64 = (0..6).map(|r| evec[r][k] * e[r]).sum();
                for r in 0..6 {
                    y[r] += evec[r][k] * c / (ev[k] + lam2);
                }
            }
            fmv(&ft(&m), &y)
        };
        // rank that is lost counts as the full singularity, where the damping is at its largest
        let sigma = if ev[0] < ev[5] * 1e-9 { 0.0 } else { ev[0].sqrt() };
        if (sigma - thr).abs() < 1e-3 && sigma > 0.0 {
            return Ok(4);
        }
        let top2 = if thr == 0.0 || sigma > thr { 0.0 } else { top * top };
        // which damping was used: somewhere from none to the largest
        let got = vv(&rep.joint_positions);
        let moved = |c: &[f64]| -> Vec<f64> {
            let mut w = c.to_vec();
            if a.r.floating() {
                let inv = |q: Q| [q[0], -q[1], -q[2], -q[3]];
                let h = qnormed([a.home[3], a.home[4], a.home[5], a.home[6]]);
                let mut r = qmul(inv(h), qnormed([c[3], c[4], c[5], c[6]]));
                if r[0] < 0.0 {
                    r = r.map(|x| -x);
                }
                let sn = norm3([r[1], r[2], r[3]]);
                let k = if sn < 1e-12 { 2.0 } else { 2.0 * sn.atan2(r[0]) / sn };
                let mut o: Vec<f64> = (0..3).map(|k| c[k] - a.home[k]).collect();
                o.extend([k * r[1], k * r[2], k * r[3]]);
                o.extend((6..nv).map(|k| c[k + 1] - a.home[k + 1]));
                return o;
            }
            for k in 0..nv {
                w[k] -= a.home[k];
            }
            w[..nv].to_vec()
        };
        let dq = moved(&got);
        let (none, most) = (step(0.0), step(top2));
        let (long, short) = (fnorm(&none), fnorm(&most));
        if rep.termination == End::Converged {
            let (_, v, _, w) = residual(a, &got, target);
            ensure!(v < 1.1e-5 && w < 1.1e-5, "{}: converged at {v} and {w}", a.name);
            return Ok(1);
        }
        let tol = 1e-6 + T::EPS * 2e3;
        if rep.termination == End::Stalled {
            // it did not move, and no step it may take is longer than the least
            ensure!(fnorm(&dq) <= tol, "{}: stalled and moved by {dq:?}", a.name);
            let slack = if a.r.floating() { 2.1 } else { 1.01 };
            ensure!(short.min(cap) <= min * slack + tol, "{}: stalled, but the step is {short} long and up to {cap} allowed, the least is {min}", a.name);
            return Ok(2);
        }
        ensure!(fnorm(&dq) <= cap * (1.0 + 1e-6) + tol, "{}: a step of {} with the largest {cap}", a.name, fnorm(&dq));
        // a turn of a free joint counts in the quaternion's own measure, about half its angle
        ensure!(a.r.floating() || fnorm(&dq) * 1.01 + tol >= min, "{}: a step of {} made, the least is {min}", a.name, fnorm(&dq));
        let len = fnorm(&dq);
        if long <= cap && top2 == 0.0 {
            vclose(&dq, &none, tol * (1.0 + long), &format!("{}: the step with no damping", a.name))?;
        } else {
            ensure!(len >= short.min(cap) * (1.0 - 1e-3) - tol, "{}: a step of {len}, the shortest is {short} and {cap} is allowed", a.name);
            ensure!(len <= long * (1.0 + 1e-3) + tol, "{}: a step of {len}, the longest is {long}", a.name);
            // the direction is that of a damped step: find the damping that fits best
            let unit = |v: &[f64]| -> Vec<f64> { v.iter().map(|x| x / fnorm(v).max(1e-300)).collect() };
            let u = unit(&dq);
            let (mut best, mut scan) = (f64::MAX, 0.0);
            // well below the threshold there is damping, at a full singularity nearly all of it
            let from = if thr == 0.0 || sigma > 0.5 * thr { 0 } else if sigma == 0.0 { 320 } else { 40 };
            for k in from..=400 {
                let l2 = top2 * k as f64 / 400.0;
                let s = step(l2);
                let sl = fnorm(&s);
                let g = fnorm(&unit(&s).iter().zip(&u).map(|(x, y)| x - y).collect::<Vec<_>>()) + (sl.min(cap) - len).abs() / len;
                if g < best {
                    (best, scan) = (g, l2);
                }
            }
            let fit = if top2 == 0.0 { 1e-3 } else { 2e-2 };
            ensure!(best < fit, "{}: a step of {dq:?} is off every damped step, closest by {best} at {scan}, from {from} 400ths of {top2}", a.name);
        }
        Ok(3)
    });
}
fn dot4(a: Q, b: &[f64]) -> f64 {
    (0..4).map(|k| a[k] * b[k]).sum()
}

fn refusals<T: Fl>(ck: &Ck) {
    let ar = arms();
    let n = ar.len();
    let sp = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 0.0, -0.0, -1.0, 0.5, 1e-18];
    ck.space(&format!("refusals_{}", T::NAME), (n * 12 * 38 * 8) as u64, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let a = &ar[d.n(n)];
        let tool = d.n(12);
        let mut slot = d.n(38);
        let x = d.pick(&sp);
        let tr = tree::<T>(a)?;
        // the weights once more where the tool is at its target already and no step is taken
        let there = slot >= 28;
        if there { slot -= 11; }
        let mut c: Vec<f64> = a.home.clone();
        c.resize(C, 0.0);
        let mut tg = [1.0, 0.0, 0.0, 0.0, 0.5, 0.2, 0.4];
        if there && tool < a.r.j.len() {
            let (q, p) = a.r.fk(&a.home)[tool];
            tg = [q[0], q[1], q[2], q[3], p[0], p[1], p[2]];
        }
        let mut w = [1.0; C];
        let mut al = vec![];
        if tool >= a.r.j.len() {
            al.push(E::ToolIndexOutOfRange);
        }
        match slot {
            0..10 => {
                c[slot] = x;
            }
            10..17 => {
                tg[slot - 10] = x;
            }
            17..27 => {
                w[slot - 17] = x;
                if slot - 17 < a.r.vel() && !(x > 0.0) {
                    al.push(E::NonPositiveWeight);
                    if !x.is_finite() {
                        al.push(E::NonFinite);
                    }
                }
            }
            _ => {}
        }
        if !x.is_finite() && slot < 17 {
            al.push(E::NonFinite);
        }
        let s = InverseKinematics::<C, T>::default().with_joint_weights(Vector::new(ta(w))).with_maximum_iterations(3);
        // a weight that is not a number surfaces as a failed decomposition
        let weird = slot >= 17 && slot < 27 && (x.is_nan() || x == f64::INFINITY);
        let target = se::<T>((std::array::from_fn(|k| tg[k]), [tg[4], tg[5], tg[6]]));
        let r = s.solve(&tr, tool, target, &Vector::new(ta(std::array::from_fn::<f64, C, _>(|k| c[k]))));
        if weird && slot - 17 < a.r.vel() {
            ensure!(x == f64::INFINITY || there || r.is_err(), "weight {x} accepted: {r:?}");
            if let Ok(r) = r {
                ensure!(r.joint_positions.is_finite(), "weight {x}: {r:?}");
            }
            return Ok(7);
        }
        if slot >= 10 && slot < 14 && x.is_finite() {
            return Ok(8); // not a unit rotation: no meaning
        }
        verdict(r, &al, &format!("{}: tool {tool}, slot {slot} set to {x}", a.name))?;
        Ok(al.len() as u64)
    });
}

#[derive(Clone)]
struct Script(Vec<f64>, usize);
impl<T: Fl + RandomScalar> RandomSource<T> for Script {
    fn next_u32(&mut self) -> u32 {
        (<Self as RandomSource<T>>::next_u64(self) >> 32) as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.1 += 1;
        (self.0[(self.1 - 1) % self.0.len()] * 18446744073709551616.0) as u64
    }
    fn get_cache(&mut self) -> Option<T> {
        None
    }
    fn set_cache(&mut self, _: T) {}
}

fn multi<T: Fl + RandomScalar>(ck: &Ck) {
    const S: usize = 4;
    let ar = arms();
    let n = ar.len();
    // every list of up to five seeds: the kept branches are the greedy distinct converged ones
    let base = [[0.0; 3], [0.5, 1.0, -1.0], [-0.5, -1.0, 1.0], [3.0, 6.0, 0.2]];
    let thr = [1e-3, 0.5, 1e9, 0.0];
    let lists: u64 = (0..=5).map(|k| 4u64.pow(k)).sum();
    ck.space(&format!("seed_lists_{}", T::NAME), n as u64 * lists * 4, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let a = &ar[d.n(n)];
        let th = d.pick(&thr);
        let mut k = d.n(lists as usize) as u64;
        let mut len = 0;
        while k >= 4u64.pow(len) {
            k -= 4u64.pow(len);
            len += 1;
        }
        let mut dk = Dig(k);
        let seeds: Vec<Vector<C, T>> = (0..len)
            .map(|_| {
                let b = dk.pick(&base);
                let mut c: Vec<f64> = a.home.iter().enumerate().map(|(i, h)| h + b[i % 3]).collect();
                if a.r.floating() {
                    c[3..7].copy_from_slice(&a.home[3..7]);
                }
                cfg(&c)
            })
            .collect();
        let tr = tree::<T>(a)?;
        let target = se::<T>(a.r.fk(&a.home)[a.tool]);
        let tol = if T::IS32 { 1e-4 } else { 1e-6 };
        let inner = InverseKinematics::<C, T>::new().with_position_tolerance(t(tol)).with_orientation_tolerance(t(tol)).with_maximum_iterations(40);
        let ms = MultiStartInverseKinematics::<S, C, T>::new().with_solver(inner).with_distinct_threshold(t(th));
        let r = ms.solve_from_seeds(&tr, a.tool, target, &seeds);
        let al = if len as usize > S { vec![E::StartCapacityExceeded] } else { vec![] };
        let Some(r) = verdict(r, &al, "solve_from_seeds")? else { return Ok(0) };
        let mut kept: Vec<InverseKinematicsReport<C, T>> = vec![];
        for s in &seeds {
            let x = inner.solve(&tr, a.tool, target, s).map_err(|e| format!("{e:?}"))?;
            if x.termination == End::Converged && !kept.iter().any(|y| tr.configuration_distance(&y.joint_positions, &x.joint_positions) < t(th)) {
                kept.push(x);
            }
        }
        ensure_eq!(r.attempts(), seeds.len(), "attempts");
        ensure_eq!((r.len(), r.is_empty(), r.solutions().len()), (kept.len(), kept.is_empty(), kept.len()), "{}: kept branches, threshold {th}", a.name);
        for (x, y) in r.solutions().iter().zip(&kept) {
            ensure!(x.joint_positions == y.joint_positions && x.iterations == y.iterations && x.termination == y.termination, "{}: kept {x:?}, expected {y:?}", a.name);
        }
        for s in seeds.iter().chain([&cfg(&a.home)]) {
            let got = r.closest_to(&tr, s).map(|x| g(tr.configuration_distance(&x.joint_positions, s)));
            let want = kept.iter().map(|x| g(tr.configuration_distance(&x.joint_positions, s))).fold(None, |m: Option<f64>, x| Some(m.map_or(x, |y| y.min(x))));
            ensure_eq!(got, want, "closest_to");
        }
        Ok(h64(&(kept.len(), len)))
    });
    // drawn seeds, observed through a solver that accepts anything
    let draws = [0.0, 0.25, 0.5, 0.999];
    ck.space(&format!("drawn_seeds_{}", T::NAME), n as u64 * 6 * 256 * 3, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let a = &ar[d.n(n)];
        let count = d.n(6);
        let span = d.pick(&[0.0, 0.5, 3.141592653589793]);
        let sc: [f64; 4] = d.arr(&draws);
        let tr = tree::<T>(a)?;
        let inner = InverseKinematics::<C, T>::new().with_position_tolerance(t(1e9)).with_orientation_tolerance(t(1e9)).with_respect_limits(false);
        let ms = MultiStartInverseKinematics::<S, C, T>::default().with_solver(inner).with_distinct_threshold(T::ZERO).with_jitter_span(t(span));
        let mut c = a.home.clone();
        c.resize(C, 0.75);
        let home = cfg::<T>(&c);
        let mut src = Script(sc.to_vec(), 0);
        let r = ms.solve_seeded(&tr, a.tool, se::<T>(ID), &home, &mut src, count);
        let al = if count > S { vec![E::StartCapacityExceeded] } else { vec![] };
        let Some(r) = verdict(r, &al, "solve_seeded")? else { return Ok(0) };
        ensure_eq!((r.attempts(), r.len()), (count, count), "attempts and solutions");
        for (k, s) in r.solutions().iter().enumerate() {
            if k == 0 {
                ensure!(s.joint_positions == home, "the first start is the base seed");
                continue;
            }
            for o in 0..C {
                let x = g(s.joint_positions[o]);
                let j = (0..a.r.j.len()).find(|i| !matches!(a.r.j[*i].k, K::Fix | K::Float) && a.r.off(*i) == o);
                let Some(j) = j else {
                    ensure!(s.joint_positions[o] == home[o], "{}: slot {o} was redrawn", a.name);
                    continue;
                };
                let (lo, hi) = a.lim[j].unwrap_or((a.home[o] - span, a.home[o] + span));
                // one of the scripted draws, mapped onto the range
                ensure!(sc.iter().any(|u| (lo + u * (hi - lo) - x).abs() <= T::EPS * 16.0), "{}: joint {j} drawn at {x}, range {lo}..{hi}, draws {sc:?}", a.name);
            }
        }
        Ok(h64(&(count, src.1)))
    });
}

fn main() {
    let ck = Ck::new("C21");
    single_step::<f64>(&ck);
    single_step::<f32>(&ck);
    step_settings::<f64>(&ck);
    step_settings::<f32>(&ck);
    reachable::<f64>(&ck);
    reachable::<f32>(&ck);
    anywhere::<f64>(&ck);
    anywhere::<f32>(&ck);
    keeps_best::<f64>(&ck);
    keeps_best::<f32>(&ck);
    refusals::<f64>(&ck);
    refusals::<f32>(&ck);
    multi::<f64>(&ck);
    multi::<f32>(&ck);
    ck.finish();
}
