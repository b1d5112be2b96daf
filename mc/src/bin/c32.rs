//! C32: reactive gap following, geometric attitude control and thrust commands.
use mc::num::*;
use mc::refmodel::*;
use mc::*;
use multicalc::control::*;
use multicalc::error::ControlError as E;
use multicalc::linear_algebra::{Matrix, Vector};
use multicalc::spatial::SO3;
use std::f64::consts::{PI, TAU};

fn rd<T: Fl>(x: f64) -> f64 {
    g(t::<T>(x))
}
#[derive(Clone, Copy, Debug)]
struct Cfg {
    fov: f64,
    max: f64,
    chassis: f64,
    thr: f64,
    cruise: f64,
    bias: f64,
    steer: f64,
    stop: f64,
    clear: f64,
    front: f64,
}
impl Cfg {
    fn plain(fov: f64, max: f64, chassis: f64, thr: f64, cruise: f64) -> Cfg {
        Cfg { fov, max, chassis, thr, cruise, bias: 0.5, steer: 1.5, stop: chassis / 2.0, clear: max, front: fov / 4.0 }
    }
    fn round<T: Fl>(self) -> Cfg {
        let r = rd::<T>;
        Cfg { fov: r(self.fov), max: r(self.max), chassis: r(self.chassis), thr: r(self.thr), cruise: r(self.cruise), bias: r(self.bias), steer: r(self.steer), stop: r(self.stop), clear: r(self.clear), front: r(self.front) }
    }
    fn build<const N: usize, T: Fl>(&self, defaults: bool) -> Result<FollowTheGap<N, T>, String> {
        let er = |e: E| format!("{self:?}: {e:?}");
        let f = FollowTheGap::try_new(t(self.fov), t(self.max), t(self.chassis), t(self.thr), t(self.cruise)).map_err(er)?;
        if defaults {
            return Ok(f);
        }
        f.with_goal_bias(t(self.bias)).map_err(er)?.with_steering_gain(t(self.steer)).map_err(er)?.with_speed_scaling(t(self.stop), t(self.clear)).map_err(er)?.with_frontal_half_angle(t(self.front)).map_err(er)
    }
}
struct Gap {
    start: usize,
    end: usize,
    sure: bool,
    aims: Vec<f64>,
    score: f64,
}
fn gaps(c: &Cfg, r: &[f64], goal: f64, eps: f64) -> Vec<Gap> {
    let n = r.len();
    let ang = |k: usize| c.fov * (k as f64 / (n - 1) as f64 - 0.5);
    let tol = 64.0 * eps * (c.fov + goal.abs() + 1.0);
    let mut out = vec![];
    let mut k = 0;
    while k < n {
        if r[k] < c.thr {
            k += 1;
            continue;
        }
        let start = k;
        while k < n && r[k] >= c.thr {
            k += 1;
        }
        let end = k - 1;
        let mut sure = true;
        if start > 0 && end + 1 < n {
            let (a, b) = (r[start - 1], r[end + 1]);
            let sep = ang(end + 1) - ang(start - 1);
            let p = [a, 0.0];
            let q = [b * sep.cos(), b * sep.sin()];
            let w2 = (p[0] - q[0]).powi(2) + q[1] * q[1];
            let slack = 32.0 * eps * (a * a + b * b + c.chassis * c.chassis);
            if w2 < c.chassis * c.chassis - slack {
                continue;
            }
            sure = w2 > c.chassis * c.chassis + slack;
        }
        let inset = |x: f64| (c.chassis / 2.0 / x).atan();
        let low = ang(start) + if start > 0 { inset(r[start - 1]) } else { 0.0 };
        let high = ang(end) - if end + 1 < n { inset(r[end + 1]) } else { 0.0 };
        let mut aims = vec![];
        if low > high - tol {
            aims.push((ang(start) + ang(end)) / 2.0);
        }
        if low <= high + tol {
            aims.push(goal.max(low).min(high.max(low)));
        }
        // where the two bounds meet within rounding, either aim may have been scored
        let score = aims.iter().map(|a| (high - low).max(0.0) - c.bias * (a - goal).abs()).fold(f64::NEG_INFINITY, f64::max);
        let worst = aims.iter().map(|a| (high - low).max(0.0) - c.bias * (a - goal).abs()).fold(f64::INFINITY, f64::min);
        out.push(Gap { start, end, sure: sure && score - worst <= tol, aims, score });
    }
    out
}
fn check<const N: usize, T: Fl>(c: &Cfg, f: &FollowTheGap<N, T>, raw: &[f64; N], goal: f64) -> Res {
    let raw = raw.map(rd::<T>);
    let goal = rd::<T>(goal);
    let r: Vec<f64> = raw.iter().map(|&x| if x.is_finite() && x > 0.0 { x.min(c.max) } else { c.max }).collect();
    let o = f.compute(&ta(raw), t(goal)).map_err(|e| format!("{e:?}"))?;
    let what = || format!("{c:?} ranges {raw:?} goal {goal}: {o:?}");
    let tol = 128.0 * T::EPS * (c.fov + goal.abs() + 1.0);
    let least = r.iter().cloned().fold(c.max, f64::min);
    ensure_eq!(g(o.minimum_clearance()), least, "minimum clearance, {}", what());
    let gs = gaps(c, &r, goal, T::EPS);
    let (v, w) = (g(o.body_twist().linear()), g(o.body_twist().angular()));
    if o.is_blocked() {
        ensure!(gs.iter().all(|x| !x.sure || x.aims.len() > 1), "blocked with a way through, {}", what());
        ensure!(!gs.iter().any(|x| x.start == 0 || x.end + 1 == N), "blocked with an open edge, {}", what());
        ensure!(v == 0.0 && w == 0.0 && g(o.heading()) == 0.0 && o.gap_start_index() == 0 && o.gap_end_index() == 0, "blocked is a full stop, {}", what());
        return Ok(7);
    }
    let Some(chosen) = gs.iter().find(|x| x.start == o.gap_start_index() && x.end == o.gap_end_index()) else {
        return Err(format!("not a gap the robot fits through, {}", what()));
    };
    for x in &gs {
        if x.sure {
            let slack = tol * (2.0 + c.bias);
            ensure!(chosen.score >= x.score - slack, "beams {}..={} score {} over {}, {}", x.start, x.end, x.score, chosen.score, what());
        }
    }
    let h = g(o.heading());
    ensure!(chosen.aims.iter().any(|a| (a - h).abs() <= tol), "heading, expected one of {:?}, {}", chosen.aims, what());
    ensure_close!(w, c.steer * h, 8.0 * T::EPS, 0.0, "turn rate, {}", what());
    let (mut sure, mut edge) = (c.max, vec![]);
    for k in 0..N {
        let a = (c.fov * (k as f64 / (N - 1) as f64 - 0.5)).abs();
        if a < c.front - tol {
            sure = sure.min(r[k]);
        } else if a <= c.front + tol {
            edge.push(r[k]);
        }
    }
    let speed = |d: f64| c.cruise * ((d - c.stop) / (c.clear - c.stop)).clamp(0.0, 1.0);
    let slip = 32.0 * T::EPS * c.cruise * (1.0 + (c.max + c.stop) / (c.clear - c.stop));
    // a beam on the edge of the cone may count as ahead or not
    let mut may = vec![sure];
    may.extend(edge.iter().map(|e| sure.min(*e)));
    ensure!(may.iter().any(|d| (v - speed(*d)).abs() <= slip), "speed, expected from {may:?}, {}", what());
    op(1);
    Ok((o.gap_start_index() * 64 + o.gap_end_index()) as u64 ^ hf(&[h]))
}
fn follow<const N: usize, T: Fl>(ck: &Ck, alpha: &[f64]) {
    let mut cfgs = vec![
        (Cfg::plain(PI, 5.0, 0.5, 1.5, 1.0), true),
        (Cfg::plain(TAU, 10.0, 0.4, 2.0, 0.7), true),
        (Cfg::plain(0.6, 5.0, 0.9, 1.0, 2.0), true),
        (Cfg::plain(3.0, 5.0, 3.0, 3.0, 1.0), true),
    ];
    cfgs.push((Cfg { bias: 0.0, steer: 2.5, stop: 0.0, clear: 2.0, front: 0.4, ..Cfg::plain(2.4, 5.0, 0.6, 1.5, 1.0) }, false));
    cfgs.push((Cfg { bias: 5.0, steer: 0.2, stop: 1.0, clear: 20.0, front: 1.2, ..Cfg::plain(2.4, 5.0, 0.2, 5.0, 3.0) }, false));
    let goals = [0.0, 0.7, -1.4, 3.0, -20.0];
    let a = alpha.len() as u64;
    let n = a.pow(N as u32) * 5 * 6;
    ck.space(&format!("gaps_{N}_{}", T::NAME), n, |i| {
        let mut d = Dig(i);
        let (k, gl) = (d.n(6), d.pick(&goals));
        format!("config {k} goal {gl} ranges {:?}", d.arr::<N, f64>(alpha))
    }, |i| {
        let mut d = Dig(i);
        let (c, plain) = cfgs[d.n(6)];
        let goal = d.pick(&goals);
        let raw: [f64; N] = d.arr(alpha);
        let f = c.build::<N, T>(plain)?;
        let c = c.round::<T>();
        check(&c, &f, &raw, goal)
    });
    for (c, plain) in &cfgs {
        if let Ok(f) = c.build::<N, T>(*plain) {
            for k in 0..N + 2 {
                let want = (k < N).then(|| c.fov * (k as f64 / (N - 1) as f64 - 0.5));
                let got = f.beam_angle(k).map(g);
                if got.is_some() != want.is_some() || want.is_some_and(|w| !close(w, got.unwrap(), 8.0 * T::EPS, 8.0 * T::EPS * c.fov)) {
                    ck.space(&format!("beam_angle_{N}_{}", T::NAME), 1, |_| format!("beam {k}"), |_| Err(format!("{c:?} beam {k}: {got:?}, expected {want:?}")));
                    return;
                }
            }
        }
    }
}
fn follow_domain<T: Fl>(ck: &Ck) {
    let sp = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -1e-20, 0.0, 1e-20, 0.3, 1.0, 2.0, 6.28, TAU, 6.3];
    ck.space(&format!("gap_domain_{}", T::NAME), 12u64.pow(5), |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let [fov, max, ch, thr, v] = d.arr::<5, f64>(&sp).map(rd::<T>);
        fn mk<const N: usize, T: Fl>(fov: f64, max: f64, ch: f64, thr: f64, v: f64) -> Result<Option<FollowTheGap<N, T>>, String> {
            let mut al = vec![];
            if N < 2 {
                al.push(E::InvalidBeamCount);
            }
            if ![fov, max, ch, thr, v].iter().all(|x| x.is_finite()) {
                al.push(E::NonFinite);
            }
            if fov <= 0.0 || fov > g(T::TWO_PI) {
                al.push(E::InvalidFieldOfView);
            }
            if max <= 0.0 || thr <= 0.0 || thr > max {
                al.push(E::NonPositiveRange);
            }
            if ch <= 0.0 || ch / 2.0 >= max {
                al.push(E::NonPositiveChassisWidth);
            }
            if v <= 0.0 {
                al.push(E::NonPositiveSpeed);
            }
            verdict(FollowTheGap::<N, T>::try_new(t(fov), t(max), t(ch), t(thr), t(v)), &al, &format!("{N} beams {fov} {max} {ch} {thr} {v}"))
        }
        mk::<0, T>(fov, max, ch, thr, v)?;
        mk::<1, T>(fov, max, ch, thr, v)?;
        mk::<3, T>(fov, max, ch, thr, v)?;
        let Some(f) = mk::<2, T>(fov, max, ch, thr, v)? else { return Ok(0) };
        // once built, the steering never fails on any scan
        for a in sp {
            for b in sp {
                let c = Cfg::plain(fov, max, ch, thr, v);
                check(&c, &f, &[a, b], 0.2)?;
            }
        }
        Ok(1)
    });
    let sp = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -1.0, -1e-20, -0.0, 0.0, 1e-20, 0.3, 1.0, 2.0, 6.28, TAU, 6.3];
    ck.space(&format!("gap_builders_{}", T::NAME), 14 * 14, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let [a, b] = d.arr::<2, f64>(&sp).map(rd::<T>);
        let c = Cfg::plain(2.0, 5.0, 0.5, 1.0, 1.0);
        let f = c.build::<4, T>(true)?;
        let nf = |bad: bool| if bad { vec![E::NonFinite] } else { vec![] };
        let add = |mut v: Vec<E>, bad: bool, e: E| {
            if bad {
                v.push(e);
            }
            v
        };
        let scan = [1.5, 0.5, 3.0, 4.0];
        let cr = c.round::<T>();
        if let Some(f) = verdict(f.with_steering_gain(t(a)), &add(nf(!a.is_finite()), a <= 0.0, E::NonPositiveSpeed), &format!("steering gain {a}"))? {
            check(&Cfg { steer: a, ..cr }, &f, &scan, 0.3)?;
        }
        if let Some(f) = verdict(f.with_goal_bias(t(a)), &add(nf(!a.is_finite()), a < 0.0, E::NegativeGoalBias), &format!("goal bias {a}"))? {
            check(&Cfg { bias: a, ..cr }, &f, &scan, 0.3)?;
        }
        if let Some(f) = verdict(f.with_frontal_half_angle(t(a)), &add(nf(!a.is_finite()), a <= 0.0 || a > 1.0, E::InvalidFieldOfView), &format!("half angle {a}"))? {
            check(&Cfg { front: a, ..cr }, &f, &scan, 0.3)?;
        }
        if let Some(f) = verdict(f.with_speed_scaling(t(a), t(b)), &add(nf(!a.is_finite() || !b.is_finite()), a < 0.0 || a >= b, E::InvalidSpeedScaling), &format!("speed scaling {a} {b}"))? {
            check(&Cfg { stop: a, clear: b, ..cr }, &f, &scan, 0.3)?;
        }
        verdict(f.compute(&ta(scan), t(a)), &nf(!a.is_finite()), &format!("goal {a}"))?;
        Ok(1)
    });
}

fn so3<T: Fl>(q: Q) -> SO3<T> {
    let m = qmat(qnormed(q));
    let s = SO3::<f64>::try_from_matrix(Matrix::new(m)).unwrap();
    let v = s.to_matrix();
    // rebuilt in the library scalar from the angle axis so it is a unit rotation there
    let w = SO3::<f64>::log(SO3::try_from_matrix(v).unwrap());
    SO3::<T>::exp(Vector::new(ta(w.into_array())))
}
fn mat<T: Fl>(s: SO3<T>) -> [[f64; 3]; 3] {
    let m = s.to_matrix();
    core::array::from_fn(|r| core::array::from_fn(|c| g(m[(r, c)])))
}
const INERTIA: [[[f64; 3]; 3]; 5] = [
    [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]],
    [[0.01, 0.0, 0.0], [0.0, 0.02, 0.0], [0.0, 0.0, 0.025]],
    [[2.0, 0.3, -0.1], [0.3, 1.5, 0.2], [-0.1, 0.2, 2.5]],
    [[30.0, 0.0, 4.0], [0.0, 45.0, 0.0], [4.0, 0.0, 60.0]],
    [[1e-5, 1e-6, 0.0], [1e-6, 1.4e-5, 0.0], [0.0, 0.0, 2e-5]],
];
fn rots() -> Vec<Q> {
    let mut v = vec![];
    for ax in [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0], [0.6, -0.64, 0.48], [-0.577, 0.577, 0.578]] {
        for a in [0.0, 1e-5, 0.4, PI / 2.0, 2.0, 3.0, PI] {
            if a != 0.0 || v.is_empty() {
                v.push(qexp(sc3(ax, a)));
            }
        }
    }
    v
}
fn attitude<T: Fl>(ck: &Ck) {
    let rs = rots();
    let ws: [V3; 4] = [[0.0; 3], [0.3, -0.5, 0.9], [-4.0, 2.0, 7.0], [0.0, 0.0, 1.0]];
    let nr = rs.len();
    let lib: Vec<SO3<T>> = rs.iter().map(|q| so3::<T>(*q)).collect();
    let gains = [(8.0, 2.0), (0.1, 0.3), (200.0, 15.0)];
    ck.space(&format!("torque_{}", T::NAME), (nr * nr * 4 * 4 * 3 * 5) as u64, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let (a, b) = (d.n(nr), d.n(nr));
        let [w, wd] = [d.pick(&ws), d.pick(&ws)].map(|v| v.map(rd::<T>));
        let (ka, kr) = d.pick(&gains);
        let j = d.pick(&INERTIA);
        let acc = ws[(i % 4) as usize].map(rd::<T>);
        let c = GeometricAttitudeController::<T>::new(t(ka), t(kr), Matrix::new(j.map(ta))).map_err(|e| format!("{e:?}"))?;
        ensure!(g(c.attitude_gain()) == rd::<T>(ka) && g(c.rate_gain()) == rd::<T>(kr), "gains");
        let j = j.map(|r| r.map(rd::<T>));
        let (r, rdm) = (mat(lib[a]), mat(lib[b]));
        // error: half the vee of RdᵀR − RᵀRd
        let e1 = mm3(mt3(rdm), r);
        let er = [(e1[2][1] - e1[1][2]) / 2.0, (e1[0][2] - e1[2][0]) / 2.0, (e1[1][0] - e1[0][1]) / 2.0];
        let got = ga(GeometricAttitudeController::attitude_error(lib[a], lib[b]).into_array());
        for k in 0..3 {
            ensure_close!(got[k], er[k], 0.0, 16.0 * T::EPS, "attitude error {got:?} of {:?} from {:?}, expected {er:?}", rs[a], rs[b]);
        }
        let rel = mm3(mt3(r), rdm);
        let cw = mv3(rel, wd);
        let ca = mv3(rel, acc);
        let we = sub3(w, cw);
        let jw = cross(w, mv3(j, w));
        let fol = mv3(j, sub3(cross(w, cw), ca));
        let want = sub3(add3(sub3(sc3(er, -rd::<T>(ka)), sc3(we, rd::<T>(kr))), jw), fol);
        let tau = ga(c.torque(lib[a], Vector::new(ta(w)), lib[b], Vector::new(ta(wd)), Vector::new(ta(acc))).into_array());
        let sz = ka + kr * (norm3(w) + norm3(wd)) + j[2][2] * (norm3(w) + norm3(wd) + 1.0).powi(2);
        for k in 0..3 {
            ensure_close!(tau[k], want[k], 0.0, 64.0 * T::EPS * sz, "torque {tau:?}, expected {want:?}");
        }
        Ok(hf(&tau))
    });
    // closed loop: every start that is not upside down settles on a moving target
    let starts: Vec<Q> = rs.iter().cloned().filter(|q| 2.0 * q[0].abs().min(1.0).acos() < 3.05).collect();
    let ns = starts.len();
    ck.space(&format!("settling_{}", T::NAME), (ns * 4 * 3 * 2) as u64, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let mut q = d.pick(&starts);
        let mut w = d.pick(&[[0.0, 0.0, 0.0], [0.3, -0.5, 0.9], [-2.0, 1.0, 1.5], [0.0, 0.0, 1.0]]);
        let j = d.pick(&INERTIA[..3]);
        let wd: V3 = d.pick(&[[0.0, 0.0, 0.0], [0.4, -0.2, 0.6]]);
        let mut qd: Q = [1.0, 0.0, 0.0, 0.0];
        let size = j[0][0];
        let c = GeometricAttitudeController::<T>::new(t(9.0 * size), t(4.0 * size), Matrix::new(j.map(ta))).map_err(|e| format!("{e:?}"))?;
        let mj: M = (0..3).map(|r| j[r].to_vec()).collect();
        let ji = finv(&mj).unwrap();
        let (dt, steps) = (0.01, 1500);
        for _ in 0..steps {
            let tau = ga(c.torque(so3::<T>(q), Vector::new(ta(w)), so3::<T>(qd), Vector::new(ta(wd)), Vector::zeros()).into_array());
            let h = sub3(tau, cross(w, mv3(j, w)));
            let acc: V3 = core::array::from_fn(|r| (0..3).map(|k| ji[r][k] * h[k]).sum());
            let w2 = add3(w, sc3(acc, dt));
            q = qnormed(qmul(q, qexp(sc3(add3(w, w2), dt / 2.0))));
            w = w2;
            qd = qnormed(qmul(qd, qexp(sc3(wd, dt))));
        }
        let off = qdist(q, qd);
        ensure!(off < 0.03, "still {off} off after {} s", dt * steps as f64);
        ensure!(norm3(sub3(w, wd)) < 0.05, "rate {w:?}, expected {wd:?}");
        op(steps as u64);
        Ok(hf(&[off]))
    });
    let sp = [f64::NAN, f64::INFINITY, -1.0, 0.0, 0.5, 1.0];
    ck.space(&format!("attitude_domain_{}", T::NAME), 6u64.pow(8), |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let [ka, kr] = d.arr::<2, f64>(&[f64::NAN, f64::INFINITY, -1e-20, 0.0, 1e-20, 1.0]).map(rd::<T>);
        let [a, b, c, p, q, s] = d.arr::<6, f64>(&sp);
        // p above the diagonal, q mirrored, s off by one entry
        let m = [[a, p, 0.0], [q, b, s], [0.0, s, c]];
        let mut al = vec![];
        if ![ka, kr, a, b, c, p, q, s].iter().all(|x| x.is_finite()) {
            al.push(E::NonFinite);
        }
        if ka <= 0.0 || kr <= 0.0 {
            al.push(E::NonPositiveGain);
        }
        if p != q {
            al.push(E::NotSymmetricInertia);
        }
        let (d2, d3) = (a * b - p * q, a * (b * c - s * s) - p * (q * c));
        if !(a > 0.0 && d2 > 0.0 && d3 > 0.0) {
            if a > 0.0 && al.is_empty() && d2.abs().min(d3.abs()) < 1e-3 {
                // singular within rounding: either answer
                return Ok(2);
            }
            al.push(E::NonPositiveInertia);
        }
        verdict(GeometricAttitudeController::<T>::new(t(ka), t(kr), Matrix::new(m.map(ta))), &al, &format!("gains {ka} {kr} inertia {m:?}"))?;
        Ok(1)
    });
}

fn pushed<T: Fl>([x, y, z]: V3, h: f64, gr: f64) -> Res {
    let push = [x, y, rd::<T>(z + gr)];
    let len = norm3(push);
    let hd = [h.cos(), h.sin(), 0.0];
    let what = || format!("acceleration ({x}, {y}, {z}) heading {h} gravity {gr}");
    let r = thrust_command_from_acceleration::<T>(Vector::new(ta([x, y, z])), t(h), t(gr));
    op(1);
    if len == 0.0 {
        ensure_eq!(r.err(), Some(E::UndefinedThrustDirection), "{}", what());
        return Ok(0);
    }
    let up = sc3(push, 1.0 / len);
    // the cancelling sum above limits how well the direction is known
    let know = T::EPS * (z.abs() + gr.abs()) / len + 4.0 * T::EPS;
    let side = cross(up, hd);
    let wide = norm3(side);
    if wide <= 32.0 * know {
        ensure!(r.is_ok() || r == Err(E::UndefinedHeadingDirection), "{r:?}, {}", what());
        if h == 0.0 && push[1] == 0.0 && push[2] == 0.0 {
            ensure_eq!(r.err(), Some(E::UndefinedHeadingDirection), "{}", what());
        }
        return Ok(1);
    }
    let c = r.map_err(|e| format!("{e:?}, {}", what()))?;
    ensure_close!(g(c.thrust_acceleration()), len, 8.0 * T::EPS, 0.0, "thrust, {}", what());
    for m in [0.0, 0.5, 12.0] {
        ensure_close!(g(c.thrust_force(t(m))), g(c.thrust_acceleration()) * m, 2.0 * T::EPS, 0.0, "force, {}", what());
    }
    let m = mat(c.attitude());
    let side = sc3(side, 1.0 / wide);
    let fwd = cross(side, up);
    let tol = 64.0 * know;
    for k in 0..3 {
        ensure_close!(m[k][2], up[k], 0.0, tol, "body up, {}, {m:?} {up:?}", what());
        ensure_close!(m[k][1], side[k], 0.0, tol / wide, "body side, {}, {m:?} {side:?}", what());
        ensure_close!(m[k][0], fwd[k], 0.0, tol / wide, "body forward, {}, {m:?} {fwd:?}", what());
    }
    Ok(hf(&m[0]))
}
fn thrust<T: Fl>(ck: &Ck) {
    // pushes close to the heading, where the nose has little to set it by
    let ds = [0.0, 1e-7, -1e-6, 1e-5, 1e-4, -1e-3, 0.01, 0.1, PI, PI + 1e-5, PI - 1e-3];
    ck.space(&format!("thrust_along_{}", T::NAME), 11 * 11 * 64 * 3, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let (a, e, h) = (d.pick(&ds), d.pick(&ds), d.n(64) as f64 * 0.1 - 3.15);
        let l = d.pick(&[0.2, 5.0, 30.0]);
        let [x, y, z, h] = [l * (h + a).cos(), l * (h + a).sin(), l * e.sin(), h].map(rd::<T>);
        pushed::<T>([x, y, z], h, 0.0)
    });
    let xs = [0.0, 1e-6, 1e-3, -0.4, 3.0, -9.0, 60.0];
    let zs = [0.0, 2.0, -9.81, -9.8, -15.0, 100.0, -9.81 + 1e-4];
    let hs = [0.0, 0.3, PI / 4.0, PI / 2.0, 2.4, PI, -1.0, -PI / 2.0, 7.0, 100.0];
    let gs = [9.81, 0.0, 1.62, -1.0];
    ck.space(&format!("thrust_{}", T::NAME), 7 * 7 * 7 * 10 * 4, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let [x, y, z, h, gr] = [d.pick(&xs), d.pick(&xs), d.pick(&zs), d.pick(&hs), d.pick(&gs)].map(rd::<T>);
        pushed::<T>([x, y, z], h, gr)
    });
    ck.space(&format!("thrust_domain_{}", T::NAME), 14u64.pow(5), |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let [x, y, z, h, gr] = d.arr::<5, f64>(&SPECIAL).map(rd::<T>);
        let r = thrust_command_from_acceleration::<T>(Vector::new(ta([x, y, z])), t(h), t(gr));
        op(1);
        if ![x, y, z, h, gr].iter().all(|v| v.is_finite()) {
            ensure_eq!(r.err(), Some(E::NonFinite), "({x}, {y}, {z}) {h} {gr}");
            return Ok(0);
        }
        ensure!(r != Err(E::NonFinite) || [x, y, z, gr].iter().any(|v| v.abs() > 1e9), "finite arguments called not finite: ({x}, {y}, {z}) {h} {gr}");
        if let Ok(c) = r {
            let m = mat(c.attitude());
            let gram = mm3(mt3(m), m);
            for a in 0..3 {
                for b in 0..3 {
                    ensure_close!(gram[a][b], if a == b { 1.0 } else { 0.0 }, 0.0, 64.0 * T::EPS, "not a rotation: ({x}, {y}, {z}) {h} {gr}: {m:?}");
                }
            }
        }
        Ok(1)
    });
}

fn all<T: Fl>(ck: &Ck) {
    let alpha = [0.4, 1.2, 2.0, 4.0, f64::NAN];
    follow::<2, T>(ck, &[0.4, 1.2, 2.0, 4.0, 7.0, f64::NAN, f64::INFINITY, 0.0, -1.0, 1.5, 5.0]);
    follow::<3, T>(ck, &[0.4, 1.2, 2.0, 4.0, 7.0, f64::NAN, 0.0, 1.5]);
    follow::<5, T>(ck, &alpha);
    follow::<6, T>(ck, &alpha[..ck.q(4, 5)]);
    follow::<9, T>(ck, &[0.4, 3.5]);
    follow::<7, T>(ck, &[0.3, 1.4, 5.0]);
    if ck.thorough() {
        follow::<8, T>(ck, &alpha[..4]);
        follow::<16, T>(ck, &[0.4, 3.5]);
    }
    follow_domain::<T>(ck);
    attitude::<T>(ck);
    thrust::<T>(ck);
}
fn main() {
    let ck = Ck::new("C32");
    ck.assume("A gap whose width equals the chassis, a beam on the edge of the frontal cone, or two gaps whose scores agree within rounding may go either way.");
    all::<f64>(&ck);
    all::<f32>(&ck);
    ck.finish();
}
