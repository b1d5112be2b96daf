//! C25: the error-state Kalman filter.
use mc::kin::{so, v3};
use mc::la::*;
use mc::num::*;
use mc::refmodel::*;
use mc::*;
use multicalc::error::EstimationError as E;
use multicalc::estimation::*;
use multicalc::linear_algebra::{Matrix, Vector};
use multicalc::scalar::{Dual, Numeric};

fn rd<T: Fl>(x: f64) -> f64 {
    g(t::<T>(x))
}
fn rd3<T: Fl>(x: V3) -> V3 {
    x.map(rd::<T>)
}
type Sq = Vec<[f64; 15]>;
fn eye() -> Sq {
    (0..15).map(|i| std::array::from_fn(|j| (i == j) as u8 as f64)).collect()
}
fn mul(a: &Sq, b: &Sq) -> Sq {
    (0..15)
        .map(|i| {
            let mut r = [0.0; 15];
            for k in 0..15 {
                let f = a[i][k];
                if f != 0.0 {
                    for j in 0..15 {
                        r[j] += f * b[k][j]
                    }
                }
            }
            r
        })
        .collect()
}
fn tr(a: &Sq) -> Sq {
    (0..15).map(|i| std::array::from_fn(|j| a[j][i])).collect()
}
fn even(a: &Sq) -> Sq {
    (0..15).map(|i| std::array::from_fn(|j| 0.5 * (a[i][j] + a[j][i]))).collect()
}
fn block(a: &mut Sq, r: usize, c: usize, b: [[f64; 3]; 3]) {
    for i in 0..3 {
        for j in 0..3 {
            a[r + i][c + j] = b[i][j]
        }
    }
}
fn hat(w: V3) -> [[f64; 3]; 3] {
    [[0.0, -w[2], w[1]], [w[2], 0.0, -w[0]], [-w[1], w[0], 0.0]]
}
fn sm(a: [[f64; 3]; 3], s: f64) -> [[f64; 3]; 3] {
    a.map(|r| r.map(|x| x * s))
}
fn dm(d: f64) -> [[f64; 3]; 3] {
    [[d, 0.0, 0.0], [0.0, d, 0.0], [0.0, 0.0, d]]
}
fn to_m(a: &Sq) -> M {
    a.iter().map(|r| r.to_vec()).collect()
}
fn to_sq(a: &M) -> Sq {
    a.iter().map(|r| std::array::from_fn(|k| r[k])).collect()
}

/// reference running guess
#[derive(Clone, Copy, Debug)]
struct Nom {
    p: V3,
    v: V3,
    q: Q,
    bg: V3,
    ba: V3,
}
impl Nom {
    fn plus(&self, e: &[f64]) -> Nom {
        let c = |k: usize| [e[k], e[k + 1], e[k + 2]];
        Nom { p: add3(self.p, c(0)), v: add3(self.v, c(3)), q: qnormed(qmul(self.q, qexp(c(6)))), bg: add3(self.bg, c(9)), ba: add3(self.ba, c(12)) }
    }
    fn minus(&self, o: &Nom) -> [f64; 15] {
        let parts = [sub3(self.p, o.p), sub3(self.v, o.v), qlog(qmul(qconj(o.q), self.q)), sub3(self.bg, o.bg), sub3(self.ba, o.ba)];
        std::array::from_fn(|k| parts[k / 3][k % 3])
    }
    fn moved(&self, w: V3, a: V3, dt: f64, grav: V3) -> Nom {
        let push = add3(qrot(self.q, sub3(a, self.ba)), grav);
        Nom {
            p: add3(self.p, add3(sc3(self.v, dt), sc3(push, 0.5 * dt * dt))),
            v: add3(self.v, sc3(push, dt)),
            q: qnormed(qmul(self.q, qexp(sc3(sub3(w, self.bg), dt)))),
            ..*self
        }
    }
    fn transfer(&self, w: V3, a: V3, dt: f64) -> Sq {
        let r = qmat(self.q);
        let mut f = eye();
        block(&mut f, 0, 3, dm(dt));
        block(&mut f, 3, 6, sm(mm3(r, hat(sub3(a, self.ba))), -dt));
        block(&mut f, 3, 12, sm(r, -dt));
        block(&mut f, 6, 6, qmat(qexp(sc3(sub3(w, self.bg), -dt))));
        block(&mut f, 6, 9, dm(-dt));
        f
    }
    fn of<T: Fl>(s: NominalState<T>) -> Nom {
        Nom { p: ga(s.position().into_array()), v: ga(s.velocity().into_array()), q: ga(s.orientation().quaternion().as_array()), bg: ga(s.gyroscope_bias().into_array()), ba: ga(s.accelerometer_bias().into_array()) }
    }
    fn lib<T: Fl>(&self) -> NominalState<T> {
        NominalState::new(v3(self.p), v3(self.v), so(self.q), v3(self.bg), v3(self.ba))
    }
    fn rd<T: Fl>(&self) -> Nom {
        Nom { p: rd3::<T>(self.p), v: rd3::<T>(self.v), q: qnormed(self.q.map(rd::<T>)), bg: rd3::<T>(self.bg), ba: rd3::<T>(self.ba) }
    }
    fn near(&self, o: &Nom, tol: f64, what: &str) -> Result<(), String> {
        vclose(&self.p, &o.p, tol * (1.0 + norm3(o.p)), &format!("position, {what}"))?;
        vclose(&self.v, &o.v, tol * (1.0 + norm3(o.v)), &format!("velocity, {what}"))?;
        let d = qdist(self.q, o.q);
        ensure!(d <= tol, "facing is {d} off: {:?} for {:?}, {what}", self.q, o.q);
        vclose(&self.bg, &o.bg, tol * (1.0 + norm3(o.bg)), &format!("turn-rate offset, {what}"))?;
        vclose(&self.ba, &o.ba, tol * (1.0 + norm3(o.ba)), &format!("push offset, {what}"))
    }
}
fn qlog(q: Q) -> V3 {
    let q = if q[0] < 0.0 { q.map(|x| -x) } else { q };
    let s = norm3([q[1], q[2], q[3]]);
    let f = if s < 1e-9 { 2.0 } else { 2.0 * s.atan2(q[0]) / s };
    [q[1] * f, q[2] * f, q[3] * f]
}

/// the sensors: written once for the filter, and again with their sensitivities by hand
#[derive(Clone, Copy, Debug, PartialEq)]
enum Sensor {
    Place,
    Drift,
    Compass,
    Yaw,
    Range,
    Offsets,
    Broken(f64),
}
const NORTH: V3 = [0.5, 0.25, -0.75];
const BEACON: V3 = [3.0, -2.0, 1.0];
impl Sensor {
    fn width(self) -> usize {
        if matches!(self, Sensor::Yaw | Sensor::Range) { 1 } else if self == Sensor::Offsets { 2 } else { 3 }
    }
    fn all<S: Numeric>(self, s: &NominalState<S>) -> Vec<S> {
        let c = |v: V3| Vector::<3, S>::new(v.map(S::from_f64));
        match self {
            Sensor::Place => s.position().into_array().to_vec(),
            Sensor::Drift => s.orientation().inverse().act(s.velocity()).into_array().to_vec(),
            Sensor::Compass => s.orientation().inverse().act(c(NORTH)).into_array().to_vec(),
            Sensor::Yaw => {
                let u = s.orientation().act(c([1.0, 0.0, 0.0]));
                vec![u[1].atan2(u[0])]
            }
            Sensor::Range => vec![(s.position() - c(BEACON)).norm()],
            Sensor::Offsets => {
                let (a, b) = (s.gyroscope_bias(), s.accelerometer_bias());
                vec![a[0] - S::TWO * a[2] + b[1], b[0] + b[2] - a[1]]
            }
            Sensor::Broken(x) => vec![s.position()[0], s.position()[1] * S::from_f64(x), s.position()[2]],
        }
    }
    /// the reading and how it moves with each of the fifteen errors
    fn by_hand(self, n: &Nom) -> (Vec<f64>, M) {
        let inv = mt3(qmat(n.q));
        let mut h = vec![vec![0.0; 15]; self.width()];
        let mut put = |c: usize, b: [[f64; 3]; 3]| {
            for i in 0..3 {
                h[i][c..c + 3].copy_from_slice(&b[i])
            }
        };
        match self {
            Sensor::Place | Sensor::Broken(_) => {
                put(0, dm(1.0));
                (n.p.to_vec(), h)
            }
            Sensor::Drift => {
                let u = mv3(inv, n.v);
                put(3, inv);
                put(6, hat(u));
                (u.to_vec(), h)
            }
            Sensor::Compass => {
                let u = mv3(inv, NORTH);
                put(6, hat(u));
                (u.to_vec(), h)
            }
            Sensor::Yaw => {
                let r = qmat(n.q);
                let u = [r[0][0], r[1][0], r[2][0]];
                let d2 = u[0] * u[0] + u[1] * u[1];
                for k in 0..3 {
                    // a small turn about body axis k moves the nose by R (e_k × e_x)
                    let e: V3 = std::array::from_fn(|j| (j == k) as u8 as f64);
                    let m = mv3(r, cross(e, [1.0, 0.0, 0.0]));
                    h[0][6 + k] = (u[0] * m[1] - u[1] * m[0]) / d2;
                }
                (vec![u[1].atan2(u[0])], h)
            }
            Sensor::Range => {
                let d = sub3(n.p, BEACON);
                for k in 0..3 {
                    h[0][k] = d[k] / norm3(d)
                }
                (vec![norm3(d)], h)
            }
            Sensor::Offsets => {
                (h[0][9], h[0][11], h[0][13]) = (1.0, -2.0, 1.0);
                (h[1][12], h[1][14], h[1][10]) = (1.0, 1.0, -1.0);
                (vec![n.bg[0] - 2.0 * n.bg[2] + n.ba[1], n.ba[0] + n.ba[2] - n.bg[1]], h)
            }
        }
    }
}
impl<const K: usize> NominalStateFn<K> for Sensor {
    fn eval<S: Numeric>(&self, s: &NominalState<S>) -> [S; K] {
        self.all(s).try_into().ok().unwrap()
    }
}

/// reference belief
#[derive(Clone, Debug)]
struct Belief {
    n: Nom,
    p: Sq,
    noise: [f64; 4],
    grav: V3,
    r: M,
    y: Vec<f64>,
    s: M,
    joseph: bool,
}
impl Belief {
    fn predict(&mut self, w: V3, a: V3, dt: f64) {
        let f = self.n.transfer(w, a, dt);
        self.n = self.n.moved(w, a, dt, self.grav);
        self.p = mul(&mul(&f, &self.p), &tr(&f));
        let [gn, an, gw, aw] = self.noise;
        for (c, q) in [(3, (an * dt).powi(2)), (6, (gn * dt).powi(2)), (9, gw * gw * dt), (12, aw * aw * dt)] {
            for k in c..c + 3 {
                self.p[k][k] += q
            }
        }
        self.p = even(&self.p);
    }
    fn fold(&mut self, h: &M, y: &[f64], r: &M) -> Result<M, String> {
        let p = to_m(&self.p);
        let s = fadd(&fmul(&fmul(h, &p), &ft(h)), r);
        let k = ft(&fsolve(&s, &fmul(h, &ft(&p))).ok_or("reference innovation singular")?);
        let e = fmv(&k, y);
        let kh = to_sq(&fmul(&k, h));
        let left: Sq = (0..15).map(|i| std::array::from_fn(|j| (i == j) as u8 as f64 - kh[i][j])).collect();
        let mut np = mul(&left, &self.p);
        if self.joseph {
            np = mul(&np, &tr(&left));
            let krk = fmul(&fmul(&k, r), &ft(&k));
            for i in 0..15 {
                for j in 0..15 {
                    np[i][j] += krk[i][j]
                }
            }
        }
        self.p = np;
        self.inject(&e);
        self.p = even(&self.p);
        Ok(s)
    }
    fn inject(&mut self, e: &[f64]) {
        self.n = self.n.plus(e);
        let mut gm = eye();
        let th = hat([e[6], e[7], e[8]]);
        block(&mut gm, 6, 6, std::array::from_fn(|i| std::array::from_fn(|j| (i == j) as u8 as f64 - 0.5 * th[i][j])));
        self.p = mul(&mul(&gm, &self.p), &tr(&gm));
    }
    fn nis(&self) -> f64 {
        let z = fsolve(&self.s, &col(&self.y)).map(|z| z.iter().map(|r| r[0]).collect::<Vec<_>>());
        fdot(&self.y, &z.unwrap_or(vec![f64::NAN; 3]))
    }
    fn same<T: Fl>(&self, k: &ErrorStateKalmanFilter<3, T>, tol: f64, what: &str) -> Result<(), String> {
        Nom::of(k.nominal_state()).near(&self.n, tol, what)?;
        let ps = fmax_abs(&to_m(&self.p)).max(1e-3);
        mclose(&mm(&k.covariance()), &to_m(&self.p), tol * ps, &format!("covariance, {what}"))?;
        vclose(&vv(&k.innovation()), &self.y, tol * (1.0 + fnorm(&self.y)), &format!("innovation, {what}"))?;
        mclose(&mm(&k.innovation_covariance()), &self.s, tol * (ps + fmax_abs(&self.s)), &format!("innovation covariance, {what}"))?;
        let nis = k.normalized_innovation_squared();
        if fmax_abs(&self.s) == 0.0 {
            ensure!(nis == Err(E::NotPositiveDefinite), "fit before the first update: {nis:?}, {what}");
        } else {
            let n = nis.map(g).map_err(|e| format!("fit refused {e:?}, {what}"))?;
            ensure_close!(n, self.nis(), 16.0 * tol, 16.0 * tol * (1.0 + fnorm(&self.y)), "fit, {what}");
        }
        Ok(())
    }
}
fn imu<T: Fl>(n: [f64; 4]) -> ImuNoise<T> {
    ImuNoise { gyroscope_noise_density: t(n[0]), accelerometer_noise_density: t(n[1]), gyroscope_bias_random_walk: t(n[2]), accelerometer_bias_random_walk: t(n[3]) }
}
fn starts() -> Vec<(Nom, Sq)> {
    let mut flat = eye();
    for (k, d) in [0.5, 0.25, 1.0, 0.125, 0.5, 0.25, 0.0625, 0.03125, 0.125, 0.01, 0.02, 0.01, 0.05, 0.1, 0.05].iter().enumerate() {
        flat[k][k] = *d
    }
    // everything tied to everything, by a mixing that leaves the spread positive
    let mut mix = eye();
    for i in 0..15 {
        for j in 0..i {
            mix[i][j] = [0.25, -0.125, 0.0, 0.375][(i * 7 + j * 3) % 4]
        }
    }
    let tied = even(&mul(&mul(&mix, &flat), &tr(&mix)));
    let tilted = qexp([0.5, -0.75, 1.0]);
    vec![
        (Nom { p: [0.0; 3], v: [0.0; 3], q: [1.0, 0.0, 0.0, 0.0], bg: [0.0; 3], ba: [0.0; 3] }, flat.clone()),
        (Nom { p: [1.0, -0.5, 0.25], v: [0.5, 1.0, -0.25], q: tilted, bg: [0.0625, -0.125, 0.03125], ba: [0.25, 0.125, -0.5] }, tied),
        (Nom { p: [-2.0, 0.5, 4.0], v: [-1.0, 0.0, 2.0], q: [0.0, 0.6, 0.8, 0.0], bg: [0.5, 0.0, -0.25], ba: [0.0, 1.0, 0.0] }, flat),
        // known exactly
        (Nom { p: [0.5, 0.0, -1.0], v: [0.0, 1.0, 0.25], q: tilted, bg: [0.0, 0.125, 0.0], ba: [0.0; 3] }, vec![[0.0; 15]; 15]),
    ]
}
const PULL: [V3; 2] = [[0.0, 0.0, -9.81], [1.5, -2.0, 3.5]];

fn r3() -> M {
    vec![vec![0.25, 0.0625, 0.0], vec![0.0625, 0.5, -0.03125], vec![0.0, -0.03125, 0.125]]
}
fn begin<T: Fl>(start: usize, joseph: bool, pull: usize) -> (ErrorStateKalmanFilter<3, T>, Belief) {
    let (n, p) = starts()[start].clone();
    let n = n.rd::<T>();
    let p: Sq = p.iter().map(|r| r.map(rd::<T>)).collect();
    let noise = [0.02, 0.05, 0.001, 0.01].map(rd::<T>);
    let k = ErrorStateKalmanFilter::<3, T>::new(n.lib(), lm(&to_m(&p)), imu(noise), lm(&r3())).with_covariance_update(if joseph { CovarianceUpdate::Joseph } else { CovarianceUpdate::Naive });
    let k = if pull == 0 { k } else { k.with_gravity(v3(PULL[pull])) };
    (k, Belief { n, p, noise, grav: rd3::<T>(PULL[pull]), r: r3(), y: vec![0.0; 3], s: vec![vec![0.0; 3]; 3], joseph })
}
const OPS: u64 = 14;
fn act<T: Fl>(k: &mut ErrorStateKalmanFilter<3, T>, b: &mut Belief, o: usize) -> Result<(), String> {
    let er = |e: E| format!("refused {e:?} on operation {o}");
    let z3 = |z: V3| Vector::<3, T>::new(ta(z));
    match o {
        0..=2 => {
            let (w, a, dt) = [([0.25, -0.5, 1.0], [0.5, 0.25, 9.75], 0.125), ([6.0, 2.0, -9.0], [-3.0, 12.0, 5.0], 0.0625), ([0.0, 0.0, 0.0], [0.0, 0.0, 9.8125], 0.5)][o];
            let f = k.error_state_transition(v3(w), v3(a), t(dt));
            mclose(&mm(&f), &to_m(&b.n.transfer(w, a, dt)), 64.0 * T::EPS * (1.0 + norm3(a)), "transition")?;
            b.predict(w, a, dt);
            k.predict(v3(w), v3(a), t(dt)).map_err(er)
        }
        3..=5 => {
            let (s, z) = [(Sensor::Place, [0.75, -0.25, 1.0]), (Sensor::Drift, [0.25, 0.5, -1.0]), (Sensor::Compass, [0.25, 0.5, -0.625])][o - 3];
            let (want, h) = s.by_hand(&b.n);
            let y: Vec<f64> = z.iter().zip(&want).map(|(a, b)| a - b).collect();
            b.s = b.fold(&h, &y, &b.r.clone())?;
            b.y = y;
            k.update(&s, z3(z)).map_err(er)
        }
        6 => {
            let y = [0.5, -0.25, 0.125];
            let (_, h) = Sensor::Compass.by_hand(&b.n);
            b.s = b.fold(&h, &y, &b.r.clone())?;
            b.y = y.to_vec();
            k.update_with_residual(&Sensor::Compass, z3(y)).map_err(er)
        }
        7 | 8 => {
            let (s, y, r) = [(Sensor::Yaw, -0.375, 0.0625), (Sensor::Range, 1.5, 0.25)][o - 7];
            let (_, h) = s.by_hand(&b.n);
            b.fold(&h, &[y], &vec![vec![r]])?;
            k.update_other(&s, Vector::<1, T>::new([t(y)]), Matrix::new([[t(r)]])).map_err(er)
        }
        9 => {
            let (_, h) = Sensor::Offsets.by_hand(&b.n);
            let r = vec![vec![0.125, 0.03125], vec![0.03125, 0.0625]];
            b.fold(&h, &[0.25, -0.5], &r)?;
            k.update_other(&Sensor::Offsets, Vector::<2, T>::new([t(0.25), t(-0.5)]), lm(&r)).map_err(er)
        }
        10 => {
            let e: [f64; 15] = std::array::from_fn(|i| [0.25, -0.5, 0.125, 0.0, 1.0][i % 5] * if i == 7 { 2.0 } else { 0.5 });
            b.inject(&e);
            k.inject_error_and_reset(Vector::new(ta(e)));
            Ok(())
        }
        11 => {
            // refused calls change nothing
            let before = format!("{k:?}");
            let bad = z3([0.0, f64::NAN, 0.0]);
            let ok = z3([0.0; 3]);
            ensure!(k.predict(bad, ok, t(0.125)) == Err(E::NonFinite) && k.predict(ok, bad, t(0.125)) == Err(E::NonFinite), "a broken reading was taken");
            ensure!(k.predict(ok, ok, t(f64::INFINITY)) == Err(E::NonFinite), "a broken step was taken");
            ensure!(k.update(&Sensor::Place, bad) == Err(E::NonFinite) && k.update_with_residual(&Sensor::Place, bad) == Err(E::NonFinite), "a broken measurement was taken");
            ensure!(k.update_other(&Sensor::Range, Vector::<1, T>::new([t(f64::NAN)]), Matrix::new([[T::ONE]])) == Err(E::NonFinite), "a broken residual was taken");
            ensure!(k.update(&Sensor::Broken(f64::NAN), ok) == Err(E::NonFinite), "a broken model was taken");
            ensure!(k.update_other(&Sensor::Range, Vector::<1, T>::new([T::ONE]), Matrix::new([[t(-1e6)]])) == Err(E::NotPositiveDefinite), "a negative noise was taken");
            ensure!(format!("{k:?}") == before, "a refused call changed the filter from {before} to {k:?}");
            Ok(())
        }
        12 => {
            // the caller starts over from elsewhere, with other noise
            let at = Nom { q: qexp([-0.5, 0.25, 2.0]), p: [0.5, 0.0, -1.0], ..b.n };
            b.n = at.rd::<T>();
            k.set_nominal_state(b.n.lib());
            b.noise = [0.5, 0.25, 0.125, 0.0625];
            k.set_imu_noise(imu(b.noise));
            b.r = vec![vec![1.0, 0.0, 0.25], vec![0.0, 0.5, 0.0], vec![0.25, 0.0, 2.0]];
            k.set_measurement_noise(lm(&b.r));
            Ok(())
        }
        _ => {
            let (vals, vecs) = feig(&to_m(&b.p));
            let least = rd::<T>(0.03);
            let mut np = vec![vec![0.0; 15]; 15];
            for (c, v) in vals.iter().enumerate() {
                for i in 0..15 {
                    for j in 0..15 {
                        np[i][j] += v.max(least) * vecs[i][c] * vecs[j][c]
                    }
                }
            }
            b.p = to_sq(&np);
            k.condition_covariance(t(least)).map_err(er)
        }
    }
}
fn positive(p: &M, tol: f64, what: &str) -> Result<(), String> {
    for i in 0..15 {
        for j in 0..15 {
            ensure_close!(p[i][j], p[j][i], 0.0, tol, "symmetry, {what}");
        }
    }
    let low = feig(p).0.iter().fold(f64::MAX, |m, x| m.min(*x));
    ensure!(low >= -tol, "covariance not positive: eigenvalue {low}, {what}");
    Ok(())
}
fn word(mut i: u64, base: u64, len: usize) -> Vec<usize> {
    (0..len).map(|_| { let d = i % base; i /= base; d as usize }).collect()
}
fn histories<T: Fl>(ck: &Ck) {
    let nm = T::NAME;
    let len: usize = ck.q(3, 5);
    ck.space(&format!("histories_{nm}"), 16 * OPS.pow(len as u32), |i| format!("start {} {:?}", i % 16, word(i / 16, OPS, len)), |i| {
        let (start, joseph, pull) = ((i % 4) as usize, i / 4 % 2 == 0, (i / 8 % 2) as usize);
        let (mut k, mut b) = begin::<T>(start, joseph, pull);
        let w = word(i / 16, OPS, len);
        let mut tol = 400.0 * T::EPS;
        for (at, o) in w.iter().enumerate() {
            op(1);
            tol *= 6.0;
            act(&mut k, &mut b, *o)?;
            let what = format!("after step {at} of {w:?}");
            b.same(&k, tol, &what)?;
            if at + 1 == w.len() {
                let p = mm(&k.covariance());
                if joseph { positive(&p, tol * fmax_abs(&p), &what)? }
                // how far a known truth is, against the spread
                let truth = b.n.plus(&std::array::from_fn::<f64, 15, _>(|k| [0.25, -0.125, 0.375][k % 3])).rd::<T>();
                let e = truth.minus(&b.n);
                let want = fsolve(&to_m(&b.p), &col(&e)).map(|z| fdot(&e, &z.iter().map(|r| r[0]).collect::<Vec<_>>()));
                let low = feig(&to_m(&b.p)).0.iter().fold(f64::MAX, |m, x| m.min(*x));
                if let (Some(want), true) = (want, low > 1e-3) {
                    let got = k.normalized_estimation_error_squared(truth.lib()).map(g).map_err(|e| format!("{e:?}, {what}"))?;
                    ensure_close!(got, want, 4.0 * tol / low, 4.0 * tol / low, "error against the spread, {what}");
                }
            }
        }
        Ok(hf(&b.n.p) ^ hf(&b.p[6]))
    });
}
fn algebra<T: Fl>(ck: &Ck) {
    let nm = T::NAME;
    let e = T::EPS;
    let pi = std::f64::consts::PI;
    let turns: Vec<V3> = {
        let mut v = vec![[0.0; 3]];
        for axis in [[1.0, 0.0, 0.0], [0.0, 0.6, -0.8], [-0.48, 0.64, 0.6]] {
            for a in [1e-9, 1e-4, 0.5, 1.0, 2.0, 3.0, -2.5] {
                v.push(sc3(axis, a));
            }
        }
        v
    };
    let nt = turns.len() as u64;
    // folding an error in, taking it out again
    ck.space(&format!("errors_{nm}"), nt * nt * nt * 2, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let (a, b, c) = (d.pick(&turns), d.pick(&turns), d.pick(&turns));
        let big = if d.n(2) == 1 { 1000.0 } else { 1.0 };
        let base = Nom { p: sc3([1.0, -2.0, 0.5], big), v: [3.0, 0.25, -1.0], q: qexp(a), bg: [0.5, -0.25, 0.125], ba: [0.0, 1.0, -0.5] }.rd::<T>();
        let err: [f64; 15] = std::array::from_fn(|k| rd::<T>(if (6..9).contains(&k) { b[k - 6] } else { c[k % 3] * (1.0 + k as f64) }));
        let lib = base.lib::<T>();
        let what = format!("{err:?} on {base:?}");
        let moved = lib.plus_error(Vector::new(ta(err)));
        Nom::of(moved).near(&base.plus(&err), 16.0 * e, &what)?;
        ensure!(moved.is_finite() && lib.is_finite(), "finite, {what}");
        // at rest is the facing given and nothing else
        Nom::of(NominalState::at_rest(lib.orientation())).near(&Nom { p: [0.0; 3], v: [0.0; 3], bg: [0.0; 3], ba: [0.0; 3], ..base }, 16.0 * e, &what)?;
        // each part of the error moves the part of the state its index names
        type N<T> = NominalState<T>;
        for (at, k) in [(N::<T>::POSITION_ERROR_INDEX, 0), (N::<T>::VELOCITY_ERROR_INDEX, 1), (N::<T>::ROTATION_ERROR_INDEX, 2), (N::<T>::GYROSCOPE_BIAS_ERROR_INDEX, 3), (N::<T>::ACCELEROMETER_BIAS_ERROR_INDEX, 4)] {
            let mut one = [0.0; 15];
            one[at..at + 3].copy_from_slice(&c);
            let m = Nom::of(lib.plus_error(Vector::new(ta(one))));
            let want = Nom {
                p: if k == 0 { add3(base.p, c) } else { base.p },
                v: if k == 1 { add3(base.v, c) } else { base.v },
                q: if k == 2 { qmul(base.q, qexp(c)) } else { base.q },
                bg: if k == 3 { add3(base.bg, c) } else { base.bg },
                ba: if k == 4 { add3(base.ba, c) } else { base.ba },
            };
            m.near(&want, 16.0 * e, &format!("part {k} alone, {what}"))?;
        }
        let back = vv(&moved.error_from(lib));
        for k in 0..15 {
            let size = if k < 3 { 2000.0 } else { 50.0 };
            // near half a turn the turn is as sharp as ever, its axis too
            ensure_close!(back[k], err[k], 0.0, 8.0 * e * size, "error {k} after a round trip, {what}");
        }
        // and between two states: whole turns fold to the short way
        let other = Nom { q: qexp(add3(a, c)), ..base }.rd::<T>();
        let between = vv(&other.lib::<T>().error_from(lib));
        let turn = norm3([between[6], between[7], between[8]]);
        ensure!(turn <= pi * (1.0 + 4.0 * e), "the turn between is {turn}, {what}");
        Nom::of(lib.plus_error(Vector::new(ta(std::array::from_fn::<f64, 15, _>(|k| between[k]))))).near(&other, 64.0 * e * big, &what)?;
        // lifting carries the values over with no derivative
        let up = moved.lifted_to_dual();
        let same = |x: &[Dual<T>], y: &[T]| x.iter().zip(y).all(|(x, y)| (g(x.value) - g(*y)).abs() <= 4.0 * e && g(x.deriv).abs() <= 4.0 * e || x.value == *y && x.deriv == T::ZERO);
        ensure!(same(up.position().as_array(), moved.position().as_array()) && same(up.velocity().as_array(), moved.velocity().as_array()) && same(up.gyroscope_bias().as_array(), moved.gyroscope_bias().as_array()) && same(up.accelerometer_bias().as_array(), moved.accelerometer_bias().as_array()), "lifted, {what}");
        let q = moved.orientation().quaternion().as_array();
        ensure!(same(&up.orientation().quaternion().as_array(), &q) || same(&up.orientation().quaternion().as_array(), &q.map(|x| -x)), "lifted facing, {what}");
        Ok(hf(&back))
    });
    // the transition is how an error really carries, to first order in the step
    let rates = [[0.0; 3], [1.0, 0.0, 0.0], [0.5, -2.0, 4.0], [-8.0, 3.0, 1.0]];
    let pushes = [[0.0; 3], [0.0, 0.0, 9.81], [4.0, -9.0, 2.0]];
    let steps = [0.0, 1e-3, 0.01, 0.125, 0.5];
    ck.space(&format!("transition_{nm}"), nt * 4 * 3 * 5 * 15, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let (a, w, f, dt, c) = (d.pick(&turns), d.pick(&rates), d.pick(&pushes), d.pick(&steps), d.n(15));
        let base = Nom { p: [1.0, -2.0, 0.5], v: [3.0, 0.25, -1.0], q: qexp(a), bg: [0.5, -0.25, 0.125], ba: [0.0, 1.0, -0.5] };
        let k = ErrorStateKalmanFilter::<3, T>::new(base.lib(), Matrix::identity(), imu([0.0; 4]), Matrix::identity());
        let got = mm(&k.error_state_transition(v3(w), v3(f), t(dt)));
        let dtr = rd::<T>(dt);
        let h = 1e-4;
        let go = |s: f64| {
            let mut e = [0.0; 15];
            e[c] = s;
            base.plus(&e).moved(w, f, dtr, PULL[0])
        };
        let dif = go(h).minus(&go(-h));
        let push = norm3(sub3(f, base.ba));
        let rate = norm3(sub3(w, base.bg));
        for r in 0..15 {
            let truth = dif[r] / (2.0 * h);
            let left_out = match (r / 3, c / 3) {
                (0, 2) => 0.5 * dtr * dtr * push,
                (0, 4) => 0.5 * dtr * dtr,
                (2, 3) => 0.5 * dtr * dtr * rate,
                _ => 0.0,
            };
            ensure_close!(got[r][c], truth, 0.0, left_out * 1.0001 + 1e-6 * (1.0 + push) + 32.0 * e * (1.0 + push + rate), "row {r} of column {c}, turning {w:?} pushed {f:?} for {dt} from {base:?}");
        }
        Ok(hf(&dif.map(|x| (x * 1e6).round())))
    });
    // steps add up: constant turning on the spot, constant push without turning
    ck.space(&format!("subdivision_{nm}"), nt * 4 * 3 * 6, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let (a, w, f, n) = (d.pick(&turns), d.pick(&rates), d.pick(&pushes), d.pick(&[1usize, 2, 3, 7, 16, 100]));
        let (w, f) = if d.0 % 2 == 0 { (w, [0.0; 3]) } else { ([0.0; 3], f) };
        let base = Nom { p: [1.0, -2.0, 0.5], v: [3.0, 0.25, -1.0], q: qexp(a), bg: [0.0; 3], ba: [0.0; 3] }.rd::<T>();
        let whole = base.moved(w, f, 0.5, PULL[0]);
        let mut s = base.lib::<T>();
        for _ in 0..n {
            op(1);
            s = s.propagated(v3(w), v3(f), t(0.5 / n as f64), v3(PULL[0]));
        }
        Nom::of(s).near(&whole, e * (32.0 + 8.0 * n as f64), &format!("{n} steps turning {w:?} pushed {f:?}"))?;
        Ok(hf(&whole.p))
    });
}
/// days of flying: the facing stays a rotation, the spread stays a spread, the offsets are found
fn long_runs<T: Fl>(ck: &Ck) {
    let nm = T::NAME;
    let ticks = ck.q(20_000, 400_000);
    ck.space(&format!("long_runs_{nm}"), 3 * 2 * 2, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let (start, joseph, path) = (d.n(3), d.n(2) == 0, d.n(2));
        let (mut k, _) = begin::<T>(start, joseph, 0);
        let (bg, ba) = ([0.03125, -0.0625, 0.015625], [0.125, -0.25, 0.1875]);
        let mut truth = Nom { p: [0.0; 3], v: [0.0; 3], q: [1.0, 0.0, 0.0, 0.0], bg, ba };
        k.set_nominal_state(Nom { p: [0.25, -0.25, 0.5], q: qexp([0.1, -0.05, 0.2]), bg: [0.0; 3], ba: [0.0; 3], v: [0.0; 3] }.lib());
        k.set_imu_noise(imu([0.02, 0.05, 0.0001, 0.0005]));
        k.set_measurement_noise(lm(&vec![vec![1e-3, 0.0, 0.0], vec![0.0, 1e-3, 0.0], vec![0.0, 0.0, 1e-3]]));
        let dt = 0.005;
        for n in 0..ticks {
            op(1);
            let at = n as f64 * dt;
            // a body swinging about, rocking as it goes
            let w = if path == 0 { [0.3 * (0.7 * at).cos(), 0.2 * (0.5 * at).sin(), 0.4] } else { [0.0, 0.0, 0.5 * (0.2 * at).cos()] };
            let acc = [2.0 * (1.3 * at).cos(), -1.5 * (0.9 * at).sin(), (1.7 * at).sin()];
            let f = qrot(qconj(truth.q), sub3(acc, PULL[0]));
            let (w, f) = (add3(w, bg), add3(f, ba));
            truth = truth.moved(w, f, dt, PULL[0]);
            // the truth does not sail off over a long run
            k.predict(v3(w), v3(f), t(dt)).map_err(|e| format!("predict refused {e:?} at {n}"))?;
            if n % 4 == 3 {
                k.update(&Sensor::Place, v3(truth.p)).map_err(|e| format!("update refused {e:?} at {n}"))?;
                k.update_other(&Sensor::Compass, v3::<T>(sub3(mv3(mt3(qmat(truth.q)), NORTH), ga(Vector::<3, T>::new(<Sensor as NominalStateFn<3>>::eval(&Sensor::Compass, &k.nominal_state())).into_array()))), lm(&vec![vec![1e-3, 0.0, 0.0], vec![0.0, 1e-3, 0.0], vec![0.0, 0.0, 1e-3]])).map_err(|e| format!("compass refused {e:?} at {n}"))?;
            }
            if n % 500 == 499 {
                let s = k.nominal_state();
                let q = ga(s.orientation().quaternion().as_array());
                let len = q.iter().map(|x| x * x).sum::<f64>().sqrt();
                ensure!((len - 1.0).abs() <= 64.0 * T::EPS, "after {n} ticks the facing's length is {len}");
                let p = mm(&k.covariance());
                positive(&p, 1e3 * T::EPS * fmax_abs(&p), &format!("after {n} ticks"))?;
                if n > 8000 {
                    let left = truth.minus(&Nom::of(s));
                    let most = if T::IS32 { 3e-2 } else { 2e-2 };
                    for (c, x) in left.iter().enumerate() {
                        let size = if c < 3 { 1.0 + norm3(truth.p) * if T::IS32 { 1e-3 } else { 0.0 } } else { 1.0 };
                        ensure!(x.abs() < most * size, "after {n} ticks error {c} is still {x}: {left:?}");
                    }
                }
            }
        }
        Ok(hf(&truth.p))
    });
}
fn refusals<T: Fl>(ck: &Ck) {
    let nm = T::NAME;
    let ok = |v: f64| v.is_finite();
    // a special value in every slot of every call
    ck.space(&format!("refusals_{nm}"), 14 * 40 * 2, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let (v, slot, joseph) = (rd::<T>(d.pick(&SPECIAL)), d.n(40), d.n(2) == 0);
        let (mut k, b) = begin::<T>(1, joseph, 0);
        let what = format!("{v} in slot {slot}");
        let put = |base: V3, at: usize| -> V3 { std::array::from_fn(|k| if k == at { v } else { base[k] }) };
        let huge = v.abs() > 1e6;
        let verdict_of = |r: Result<(), E>, bad: bool, k: &ErrorStateKalmanFilter<3, T>, was: &str| -> Result<u64, String> {
            if bad {
                ensure!(r == Err(E::NonFinite), "{r:?} for {what}");
                ensure!(format!("{k:?}") == was, "a refused call changed the filter, {what}");
            } else if !huge {
                ensure!(r == Ok(()), "{r:?} for {what}");
            } else {
                ensure!(matches!(r, Ok(()) | Err(E::NonFinite) | Err(E::NotPositiveDefinite)), "{r:?} for {what}");
            }
            ensure!(r.is_ok() || format!("{k:?}") == was, "a refused call changed the filter, {what}");
            Ok(r.is_ok() as u64)
        };
        let was = format!("{k:?}");
        match slot {
            0..=2 => { let r = k.predict(v3(put([0.5; 3], slot)), v3([0.5; 3]), t(0.125)); verdict_of(r, !ok(v), &k, &was) }
            3..=5 => { let r = k.predict(v3([0.5; 3]), v3(put([0.5; 3], slot - 3)), t(0.125)); verdict_of(r, !ok(v), &k, &was) }
            6 => { let r = k.predict(v3([0.5; 3]), v3([0.5; 3]), t(v)); verdict_of(r, !ok(v), &k, &was) }
            7..=9 => { let r = k.update(&Sensor::Place, v3(put([0.5; 3], slot - 7))); verdict_of(r, !ok(v), &k, &was) }
            10..=12 => { let r = k.update_with_residual(&Sensor::Drift, v3(put([0.5; 3], slot - 10))); verdict_of(r, !ok(v), &k, &was) }
            13 => { let r = k.update(&Sensor::Broken(v), v3([0.5; 3])); verdict_of(r, !ok(v), &k, &was) }
            14 => { let r = k.update_other(&Sensor::Range, Vector::<1, T>::new([t(v)]), Matrix::new([[t(0.5)]])); verdict_of(r, !ok(v), &k, &was) }
            15 => {
                let r = k.update_other(&Sensor::Range, Vector::<1, T>::new([t(0.5)]), Matrix::new([[t(v)]]));
                let (_, h) = Sensor::Range.by_hand(&b.n);
                let s = fmul(&fmul(&h, &to_m(&b.p)), &ft(&h))[0][0] + v;
                if ok(v) && s < -1e-3 {
                    ensure!(r == Err(E::NotPositiveDefinite) && format!("{k:?}") == was, "{r:?} for {what}");
                    return Ok(7);
                }
                verdict_of(r, !ok(v), &k, &was)
            }
            // the state and the spread themselves
            16..=30 => {
                let c = slot - 16;
                let mut n = b.n;
                match c / 3 { 0 => n.p[c % 3] = v, 1 => n.v[c % 3] = v, 2 => n.q[c % 3] = v, 3 => n.bg[c % 3] = v, _ => n.ba[c % 3] = v }
                let s = n.lib::<T>();
                if c / 3 != 2 { ensure!(s.is_finite() == ok(v), "finite, {what}") } else if !ok(v) { ensure!(!s.is_finite(), "finite, {what}") }
                if c / 3 == 2 { return Ok(3) }
                k.set_nominal_state(s);
                let was = format!("{k:?}");
                let r = k.predict(v3([0.5; 3]), v3([0.5; 3]), t(0.125));
                if ok(v) { return verdict_of(r, false, &k, &was) }
                ensure!(r == Err(E::NonFinite), "{r:?} for {what}");
                Ok(4)
            }
            31..=33 => {
                let n = b.noise;
                let mut m = n;
                m[slot - 31] = v;
                k.set_imu_noise(imu(m));
                let was = format!("{k:?}");
                let r = k.predict(v3([0.5; 3]), v3([0.5; 3]), t(0.125));
                if !ok(v) { ensure!(r == Err(E::NonFinite), "{r:?} for {what}") } else if !huge { ensure!(r == Ok(()), "{r:?} for {what}") }
                ensure!(r.is_ok() || format!("{k:?}") == was, "a refused prediction changed the filter, {what}");
                Ok(r.is_ok() as u64)
            }
            34 | 35 => {
                let mut p = to_m(&b.p);
                let (r0, c0) = if slot == 34 { (0, 0) } else { (2, 7) };
                p[r0][c0] = v;
                p[c0][r0] = v;
                let mut k = ErrorStateKalmanFilter::<3, T>::new(b.n.lib(), lm(&p), imu(b.noise), lm(&r3()));
                let u = k.update(&Sensor::Place, v3([0.5; 3]));
                if !ok(v) && slot == 34 { ensure!(u == Err(E::NonFinite), "{u:?} for {what}") }
                let mut k = ErrorStateKalmanFilter::<3, T>::new(b.n.lib(), lm(&p), imu(b.noise), lm(&r3()));
                let was = format!("{k:?}");
                let c = k.condition_covariance(t(0.01));
                if !ok(v) { ensure!(c == Err(E::NonFinite) && format!("{k:?}") == was, "conditioning: {c:?} for {what}") } else if !huge {
                    ensure!(c == Ok(()), "conditioning: {c:?} for {what}");
                    let p = mm(&k.covariance());
                    let low = feig(&p).0.iter().fold(f64::MAX, |m, x| m.min(*x));
                    ensure!(low >= 0.01 - 200.0 * T::EPS * (1.0 + v.abs()), "conditioned to {low}, {what}");
                    // a floor beneath everything lifts nothing
                    let was = mm(&k.covariance());
                    let r = k.condition_covariance(t(-0.5));
                    ensure!(r == Ok(()), "conditioning: {r:?} for {what}");
                    vclose(&mm(&k.covariance()).concat(), &was.concat(), 200.0 * T::EPS * (1.0 + v.abs()), &format!("a floor of -0.5, {what}"))?;
                }
                Ok(8)
            }
            _ => {
                // a noise that is no noise
                let mut r = r3();
                let at = slot - 36;
                if at < 3 { r[at][at] = v } else { r[0][1] = v; r[1][0] = v }
                k.set_measurement_noise(lm(&r));
                let was = format!("{k:?}");
                let u = k.update(&Sensor::Place, v3([0.5; 3]));
                let p = to_m(&b.p);
                let s: M = (0..3).map(|i| (0..3).map(|j| p[i][j] + r[i][j]).collect()).collect();
                let low = if ok(v) { feig(&s).0.iter().fold(f64::MAX, |m, x| m.min(*x)) } else { f64::NAN };
                if ok(v) && low < -1e-3 {
                    ensure!(u == Err(E::NotPositiveDefinite) && format!("{k:?}") == was, "{u:?} for {what}");
                    return Ok(7);
                }
                verdict_of(u, !ok(v), &k, &was)
            }
        }
    });
}
/// a sensor of the distance to a beacon, in some unit of length
struct Far(f64);
impl NominalStateFn<1> for Far {
    fn eval<S: Numeric>(&self, s: &NominalState<S>) -> [S; 1] {
        [(s.position() - Vector::<3, S>::new(BEACON.map(|x| S::from_f64(x * self.0)))).norm()]
    }
}
/// The same history told in other units of length and time: the same belief in those units.
fn units<T: Fl>(ck: &Ck) {
    let nm = T::NAME;
    let len: usize = ck.q(3, 4);
    const KINDS: u64 = 8;
    let us: [(i32, i32); 9] = if T::IS32 { [(8, 0), (-8, 0), (0, 4), (0, -4), (8, 4), (-8, -4), (12, -4), (-12, 4), (3, 2)] } else { [(60, 0), (-60, 0), (0, 20), (0, -20), (60, 20), (-60, -20), (100, -30), (-100, 30), (3, 2)] };
    ck.space(&format!("units_{nm}"), 9 * 16 * KINDS.pow(len as u32), |i| format!("units {:?} start {} {:?}", us[(i % 9) as usize], i / 9 % 16, word(i / 144, KINDS, len)), |i| {
        let (lu, tu) = us[(i % 9) as usize];
        let c = i / 9 % 16;
        let (start, joseph, pull) = ((c % 4) as usize, c / 4 % 2 == 0, (c / 8 % 2) as usize);
        let w = word(i / 144, KINDS, len);
        type Out = (Vec<f64>, M, Vec<f64>, f64);
        let go = |lu: i32, tu: i32| -> Result<Vec<Out>, String> {
            let two = |k: i32| 2f64.powi(k);
            let (l, tm) = (two(lu), two(tu));
            let sq = two(tu / 2);
            let by = [l, l / tm, 1.0, 1.0 / tm, l / tm / tm];
            let (n, p) = starts()[start].clone();
            let n = n.rd::<T>();
            let n = Nom { p: sc3(n.p, by[0]), v: sc3(n.v, by[1]), q: n.q, bg: sc3(n.bg, by[3]), ba: sc3(n.ba, by[4]) };
            let p: Sq = (0..15).map(|i| std::array::from_fn(|j| rd::<T>(p[i][j]) * by[i / 3] * by[j / 3])).collect();
            let noise = [0.02 / tm, 0.05 * l / tm / tm, 0.001 / tm / sq, 0.01 * l / tm / tm / sq];
            let mut k = ErrorStateKalmanFilter::<3, T>::new(n.lib(), lm(&to_m(&p)), imu(noise), lm(&r3()))
                .with_covariance_update(if joseph { CovarianceUpdate::Joseph } else { CovarianceUpdate::Naive })
                .with_gravity(v3(sc3(PULL[pull], by[4])));
            let scaled = |z: V3, s: f64| Vector::<3, T>::new(ta(sc3(z, s)));
            let noise3 = |s: f64| lm::<3, 3, T>(&r3().iter().map(|r| r.iter().map(|x| x * s * s).collect()).collect::<Vec<Vec<f64>>>());
            let mut out = vec![];
            for o in &w {
                let mut unit = 1.0;
                let r = match o {
                    0 | 1 => {
                        let (w, a, dt) = [([0.25, -0.5, 1.0], [0.5, 0.25, 9.75], 0.125), ([6.0, 2.0, -9.0], [-3.0, 12.0, 5.0], 0.0625)][*o];
                        k.predict(v3(sc3(w, 1.0 / tm)), v3(sc3(a, by[4])), t(dt * tm))
                    }
                    2 | 3 => {
                        let (s, z) = [(Sensor::Place, [0.75, -0.25, 1.0]), (Sensor::Drift, [0.25, 0.5, -1.0])][o - 2];
                        unit = by[o - 2];
                        k.set_measurement_noise(noise3(unit));
                        k.update(&s, scaled(z, unit))
                    }
                    4 => {
                        k.set_measurement_noise(noise3(1.0));
                        k.update_with_residual(&Sensor::Compass, scaled([0.5, -0.25, 0.125], 1.0))
                    }
                    5 => k.update_other(&Sensor::Yaw, Vector::<1, T>::new([t(-0.375)]), Matrix::new([[t(0.0625)]])),
                    6 => k.update_other(&Far(l), Vector::<1, T>::new([t(1.5 * l)]), Matrix::new([[t(0.25 * l * l)]])),
                    _ => {
                        let e: [f64; 15] = std::array::from_fn(|i| [0.25, -0.5, 0.125, 0.0, 1.0][i % 5] * if i == 7 { 2.0 } else { 0.5 } * by[i / 3]);
                        k.inject_error_and_reset(Vector::new(ta(e)));
                        Ok(())
                    }
                };
                r.map_err(|e| format!("operation {o} refused in units 2^{lu} of length and 2^{tu} of time: {e:?}"))?;
                let n = Nom::of(k.nominal_state());
                let mut st = n.q.to_vec();
                for (v, s) in [(n.p, by[0]), (n.v, by[1]), (n.bg, by[3]), (n.ba, by[4])] {
                    st.extend(v.map(|x| x / s))
                }
                let p = mm(&k.covariance());
                let p = (0..15).map(|i| (0..15).map(|j| p[i][j] / by[i / 3] / by[j / 3]).collect()).collect();
                let (inn, fit) = if (2..5).contains(o) {
                    (vv(&k.innovation()).iter().map(|x| x / unit).collect(), k.normalized_innovation_squared().map(g).map_err(|e| format!("fit refused {e:?}"))?)
                } else {
                    (vec![], 0.0)
                };
                out.push((st, p, inn, fit));
            }
            Ok(out)
        };
        let (a, b) = (go(0, 0)?, go(lu, tu)?);
        for (at, (x, y)) in a.iter().zip(&b).enumerate() {
            op(1);
            let tol = 400.0 * T::EPS * 6f64.powi(at as i32);
            let what = format!("after step {at} in other units");
            vclose(&y.0, &x.0, tol * (1.0 + fnorm(&x.0)), &format!("guess {what}"))?;
            mclose(&y.1, &x.1, tol * fmax_abs(&x.1), &format!("covariance {what}"))?;
            vclose(&y.2, &x.2, tol * (1.0 + fnorm(&x.2)), &format!("innovation {what}"))?;
            ensure_close!(y.3, x.3, 16.0 * tol, 16.0 * tol, "fit {what}");
        }
        Ok(hf(&a[len - 1].0))
    });
}

fn main() {
    let ck = Ck::new("C25");
    histories::<f64>(&ck);
    units::<f64>(&ck);
    algebra::<f64>(&ck);
    long_runs::<f64>(&ck);
    refusals::<f64>(&ck);
    histories::<f32>(&ck);
    units::<f32>(&ck);
    algebra::<f32>(&ck);
    long_runs::<f32>(&ck);
    refusals::<f32>(&ck);
    ck.assume("Sensor jitter enters as (density times step) squared and offset wander as density squared times step, as the filter documents.");
    ck.finish();
}
