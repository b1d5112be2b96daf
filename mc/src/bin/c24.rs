//! C24: linear, extended and unscented Kalman filters and their ready-made models.
use mc::la::*;
use mc::num::*;
use mc::refmodel::*;
use mc::*;
use multicalc::error::EstimationError as E;
use multicalc::estimation::*;
use multicalc::linear_algebra::{Matrix, Vector};
use multicalc::numerical_derivative::FiniteDifferenceMulti;
use multicalc::scalar::{Dual, Numeric, VectorFn};

fn rd<T: Fl>(x: f64) -> f64 {
    g(t::<T>(x))
}
fn rdm<T: Fl>(a: &M) -> M {
    a.iter().map(|r| r.iter().map(|x| rd::<T>(*x)).collect()).collect()
}
/// A linear map as a model, with an offset
#[derive(Clone, Debug)]
struct Lin {
    a: M,
    b: Vec<f64>,
}
impl<const N: usize, const K: usize> VectorFn<N, K> for Lin {
    fn eval<S: Numeric>(&self, x: &[S; N]) -> [S; K] {
        std::array::from_fn(|i| (0..N).fold(S::from_f64(self.b[i]), |s, j| s + S::from_f64(self.a[i][j]) * x[j]))
    }
}
fn lin(a: &M) -> Lin {
    Lin { a: a.clone(), b: vec![0.0; a.len()] }
}
/// Reference belief
#[derive(Clone, Debug)]
struct Belief {
    x: Vec<f64>,
    p: M,
    y: Vec<f64>,
    s: M,
}
impl Belief {
    fn new(x: &[f64], p: &M, m: usize) -> Belief {
        Belief { x: x.to_vec(), p: p.clone(), y: vec![0.0; m], s: vec![vec![0.0; m]; m] }
    }
    fn predict(&mut self, x: Vec<f64>, f: &M, q: &M) {
        self.x = x;
        self.p = fadd(&fmul(&fmul(f, &self.p), &ft(f)), q);
    }
    fn update(&mut self, y: Vec<f64>, h: &M, r: &M, joseph: bool) -> Result<(), String> {
        let s = fadd(&fmul(&fmul(h, &self.p), &ft(h)), r);
        let k = ft(&fsolve(&s, &fmul(h, &ft(&self.p))).ok_or("reference innovation singular")?);
        for (i, d) in fmv(&k, &y).iter().enumerate() {
            self.x[i] += d;
        }
        let res = fsub(&feye(self.x.len()), &fmul(&k, h));
        self.p = if joseph { fadd(&fmul(&fmul(&res, &self.p), &ft(&res)), &fmul(&fmul(&k, r), &ft(&k))) } else { fmul(&res, &self.p) };
        self.y = y;
        self.s = s;
        Ok(())
    }
    fn nis(&self) -> f64 {
        let z = fsolve(&self.s, &col(&self.y)).map(|z| z.iter().map(|r| r[0]).collect::<Vec<_>>());
        fdot(&self.y, &z.unwrap_or(vec![f64::NAN; self.y.len()]))
    }
}
fn diag(d: &[f64]) -> M {
    (0..d.len()).map(|i| (0..d.len()).map(|j| if i == j { d[i] } else { 0.0 }).collect()).collect()
}
fn sub(a: &[f64], b: &[f64]) -> Vec<f64> {
    a.iter().zip(b).map(|(x, y)| x - y).collect()
}
fn add(a: &[f64], b: &[f64]) -> Vec<f64> {
    a.iter().zip(b).map(|(x, y)| x + y).collect()
}
fn psd(p: &M, tol: f64, what: &str) -> Result<(), String> {
    let n = p.len();
    for i in 0..n {
        for j in 0..n {
            ensure_close!(p[i][j], p[j][i], 0.0, tol, "symmetry, {what}");
        }
    }
    let sym: M = (0..n).map(|i| (0..n).map(|j| 0.5 * (p[i][j] + p[j][i])).collect()).collect();
    let low = feig(&sym).0.iter().fold(f64::MAX, |m, x| m.min(*x));
    ensure!(low >= -tol, "covariance not positive: eigenvalue {low}, {p:?}, {what}");
    Ok(())
}
macro_rules! same {
    ($f:expr, $b:expr, $tol:expr, $what:expr) => {{
        let (f, b, tol, what) = (&$f, &$b, $tol, $what);
        let xs = 1.0 + b.x.iter().chain(&b.y).fold(0.0f64, |m, v| m.max(v.abs()));
        let ps = fmax_abs(&b.p).max(fmax_abs(&b.s)).max(1e-300);
        vclose(&vv(&f.state()), &b.x, tol * xs, &format!("state, {what}"))?;
        mclose(&mm(&f.covariance()), &b.p, tol * ps, &format!("covariance, {what}"))?;
        vclose(&vv(&f.innovation()), &b.y, tol * xs, &format!("innovation, {what}"))?;
        mclose(&mm(&f.innovation_covariance()), &b.s, tol * ps, &format!("innovation covariance, {what}"))?;
        let nis = f.normalized_innovation_squared();
        if fmax_abs(&b.s) == 0.0 {
            ensure!(nis == Err(E::NotPositiveDefinite), "fit before the first update: {nis:?}, {what}");
        } else {
            let n = nis.map(g).map_err(|e| format!("fit refused {e:?}, {what}"))?;
            ensure!(n >= -tol, "fit is negative: {n}, {what}");
            ensure_close!(n, b.nis(), 16.0 * tol, 16.0 * tol * xs, "fit, {what}");
        }
    }};
}

// ---------- linear filter, and the extended one on linear models ----------
#[derive(Clone)]
struct Sys {
    f: [M; 2],
    h: [M; 2],
    q: [M; 2],
    r: [M; 2],
    b: M,
    x0: Vec<f64>,
    p0: M,
    z: [Vec<f64>; 3],
}
fn sys1() -> Sys {
    Sys {
        f: [vec![vec![1.0]], vec![vec![-0.75]]],
        h: [vec![vec![1.0]], vec![vec![2.0]]],
        q: [vec![vec![0.25]], vec![vec![0.0]]],
        r: [vec![vec![0.5]], vec![vec![4.0]]],
        b: vec![vec![0.5, -1.0]],
        x0: vec![1.0],
        p0: vec![vec![2.0]],
        z: [vec![0.5], vec![-3.0], vec![10.0]],
    }
}
fn sys2() -> Sys {
    Sys {
        f: [vec![vec![1.0, 0.5], vec![0.0, 1.0]], vec![vec![0.9, 0.3], vec![-0.4, 1.1]]],
        h: [vec![vec![1.0, 0.0]], vec![vec![0.5, -1.0]]],
        q: [vec![vec![0.02, 0.01], vec![0.01, 0.05]], diag(&[0.0, 0.3])],
        r: [vec![vec![0.5]], vec![vec![0.01]]],
        b: vec![vec![0.125, 1.0], vec![0.5, 0.0]],
        x0: vec![1.0, -0.5],
        p0: vec![vec![2.0, 0.5], vec![0.5, 1.0]],
        z: [vec![0.5], vec![-3.0], vec![10.0]],
    }
}
fn sys3() -> Sys {
    Sys {
        f: [vec![vec![1.0, 0.2, 0.02], vec![0.0, 1.0, 0.2], vec![0.0, 0.0, 1.0]], vec![vec![0.5, 0.0, 1.0], vec![0.2, 0.8, 0.0], vec![0.0, -0.3, 0.7]]],
        h: [vec![vec![1.0, 0.0, 0.0], vec![0.0, 0.0, 1.0]], vec![vec![0.3, 1.0, -0.5], vec![1.0, 1.0, 0.0]]],
        q: [diag(&[0.01, 0.02, 0.1]), vec![vec![0.1, 0.02, 0.0], vec![0.02, 0.1, 0.03], vec![0.0, 0.03, 0.2]]],
        r: [vec![vec![0.5, 0.1], vec![0.1, 0.2]], diag(&[0.05, 2.0])],
        b: vec![vec![0.125, 1.0], vec![0.5, 0.0], vec![0.0, -1.0]],
        x0: vec![1.0, -0.5, 0.25],
        p0: vec![vec![2.0, 0.5, 0.1], vec![0.5, 1.0, 0.0], vec![0.1, 0.0, 0.5]],
        z: [vec![0.5, 0.0], vec![-3.0, 1.0], vec![1.0, 10.0]],
    }
}
// any number of states and readings, none like another
fn many(n: usize, k: usize) -> Sys {
    let w = |s: f64, i: usize, j: usize| s * (((7 * i + 3 * j + 2 * i * j) % 11) as f64 - 5.0) / 5.0;
    let grid = |r: usize, c: usize, s: f64, e: f64| -> M { (0..r).map(|i| (0..c).map(|j| w(s, i + 1, j) + if i == j { e } else { 0.0 }).collect()).collect() };
    let round = |d: usize, s: f64| -> M { (0..d).map(|i| (0..d).map(|j| if i == j { s * (1.0 + 0.25 * i as f64) } else { w(s * 0.5 / d as f64, i + j, i * j) }).collect()).collect() };
    Sys {
        f: [grid(n, n, 0.15, 0.9), grid(n, n, -0.2, 0.7)],
        h: [grid(k, n, 1.0, 0.5), grid(k, n, -0.6, 1.0)],
        q: [round(n, 0.04), diag(&(0..n).map(|i| 0.1 * (i % 3) as f64).collect::<Vec<_>>())],
        r: [round(k, 0.5), diag(&(0..k).map(|i| 0.05 + 0.4 * i as f64).collect::<Vec<_>>())],
        b: (0..n).map(|i| vec![w(0.5, i, 1), w(1.0, 2, i)]).collect(),
        x0: (0..n).map(|i| 1.0 - 0.4 * i as f64).collect(),
        p0: round(n, 1.5),
        z: [0.5, -3.0, 6.0].map(|s| (0..k).map(|i| w(s, i, 4) + 0.25).collect()),
    }
}
const OPS: [&str; 9] = ["predict", "drive", "z0", "z1", "z2", "other F", "other H", "other noise", "set state"];
fn history<const N: usize, const K: usize, T: Fl>(y: &Sys, word: &[usize]) -> Result<u64, String> {
    let what = || format!("{:?}", word.iter().map(|i| OPS[*i]).collect::<Vec<_>>());
    let rm = |a: &[M; 2]| [rdm::<T>(&a[0]), rdm::<T>(&a[1])];
    let (f, h, q, r) = (rm(&y.f), rm(&y.h), rm(&y.q), rm(&y.r));
    let b = rdm::<T>(&y.b);
    let p0 = rdm::<T>(&y.p0);
    let model = KalmanModel { state_transition: lm(&f[0]), measurement_model: lm(&h[0]), process_noise: lm(&q[0]), measurement_noise: lm(&r[0]) };
    let x0: Vector<N, T> = lv(&y.x0);
    let kf = KalmanFilter::<N, K, T>::new(x0, lm(&p0), model);
    let ekf = ExtendedKalmanFilter::<N, K, T>::new(x0, lm(&p0), lm(&q[0]), lm(&r[0]));
    let mut kfs = [kf, kf.with_covariance_update(CovarianceUpdate::Naive)];
    let mut ekfs = [ekf, ekf.with_covariance_update(CovarianceUpdate::Naive)];
    let mut want = Belief::new(&y.x0, &p0, K);
    let (mut fi, mut hi, mut ni) = (0, 0, 0);
    let u = [0.5, -2.0];
    let tol = T::EPS * 2000.0;
    for (at, o) in word.iter().enumerate() {
        let before = want.clone();
        match *o {
            0 | 1 => {
                let push = if *o == 1 { fmv(&b, &u) } else { vec![0.0; N] };
                want.predict(add(&fmv(&f[fi], &want.x), &push), &f[fi], &q[ni]);
                let m = Lin { a: f[fi].clone(), b: push };
                for k in &mut kfs {
                    if *o == 1 { k.predict_with_control::<2>(lm(&b), lv(&u)) } else { k.predict() }
                }
                for k in &mut ekfs {
                    k.predict(&m).map_err(|e| format!("predict refused {e:?}, {}", what()))?;
                }
            }
            2..=4 => {
                let z: Vec<f64> = y.z[*o - 2].iter().map(|v| rd::<T>(*v)).collect();
                let res = sub(&z, &fmv(&h[hi], &want.x));
                want.update(res.clone(), &h[hi], &r[ni], true)?;
                for k in &mut kfs {
                    k.update(lv(&z)).map_err(|e| format!("update refused {e:?}, {}", what()))?;
                }
                let m = lin(&h[hi]);
                ekfs[0].update(&m, lv(&z)).map_err(|e| format!("update refused {e:?}, {}", what()))?;
                // the residual formed by the caller
                let own = lv::<K, T>(&z) - Vector::new(m.eval(ekfs[1].state().as_array()));
                ekfs[1].update_with_residual(&m, own).map_err(|e| format!("update refused {e:?}, {}", what()))?;
                // a measurement never makes anything less certain
                psd(&fsub(&before.p, &mm(&kfs[0].covariance())), tol * fmax_abs(&before.p), &format!("certainty gained, {}", what()))?;
            }
            5 => {
                fi = 1 - fi;
                kfs.iter_mut().for_each(|k| k.set_state_transition(lm(&f[fi])));
            }
            6 => {
                hi = 1 - hi;
                kfs.iter_mut().for_each(|k| k.set_measurement_model(lm(&h[hi])));
            }
            7 => {
                ni = 1 - ni;
                for k in &mut kfs {
                    k.set_process_noise(lm(&q[ni]));
                    k.set_measurement_noise(lm(&r[ni]));
                }
                for k in &mut ekfs {
                    k.set_process_noise(lm(&q[ni]));
                    k.set_measurement_noise(lm(&r[ni]));
                }
            }
            _ => {
                want.x = (0..N).map(|i| i as f64 - 2.0).collect();
                kfs.iter_mut().for_each(|k| k.set_state(lv(&want.x)));
                ekfs.iter_mut().for_each(|k| k.set_state(lv(&want.x)));
            }
        }
        for (n, k) in kfs.iter().enumerate() {
            same!(k, want, tol, format!("linear filter ({}) after step {at} of {}", ["Joseph", "naive"][n], what()));
        }
        for (n, k) in ekfs.iter().enumerate() {
            same!(k, want, tol, format!("extended filter ({}) after step {at} of {}", ["Joseph", "naive"][n], what()));
        }
        psd(&mm(&kfs[0].covariance()), tol * fmax_abs(&want.p), &what())?;
    }
    Ok(hf(&want.x.iter().chain(&want.p.concat()).map(|v| (v * 1e3).round()).collect::<Vec<_>>()))
}
fn word(mut i: u64, radix: u64, len: usize) -> Vec<usize> {
    (0..len).map(|_| { let d = (i % radix) as usize; i /= radix; d }).collect()
}
fn linear<T: Fl>(ck: &Ck) {
    let nm = T::NAME;
    let len = ck.q(5, 6);
    let show = |i: u64| format!("{:?}", word(i, 9, len).iter().map(|o| OPS[*o]).collect::<Vec<_>>());
    let n = 9u64.pow(len as u32);
    let (a, b, c) = (sys1(), sys2(), sys3());
    ck.space(&format!("histories_{nm}_1x1"), n, show, |i| history::<1, 1, T>(&a, &word(i, 9, len)));
    ck.space(&format!("histories_{nm}_2x1"), n, show, |i| history::<2, 1, T>(&b, &word(i, 9, len)));
    ck.space(&format!("histories_{nm}_3x2"), n, show, |i| history::<3, 2, T>(&c, &word(i, 9, len)));
    let (d, e, few) = (many(6, 3), many(2, 5), ck.q(4, 5));
    // a start known exactly, or known exactly in some direction
    let short = ck.q(4, 5);
    for (kind, all) in [("certain", 0.0), ("half_certain", 0.5)] {
        let flat = |y: &Sys| { let mut y = y.clone(); let n = y.p0.len(); y.p0 = vec![vec![all; n]; n]; y };
        let (a, b, c) = (flat(&a), flat(&b), flat(&c));
        let show = |i: u64| format!("{:?}", word(i, 9, short).iter().map(|o| OPS[*o]).collect::<Vec<_>>());
        let n = 9u64.pow(short as u32);
        ck.space(&format!("{kind}_{nm}_1x1"), n, show, |i| history::<1, 1, T>(&a, &word(i, 9, short)));
        ck.space(&format!("{kind}_{nm}_2x1"), n, show, |i| history::<2, 1, T>(&b, &word(i, 9, short)));
        ck.space(&format!("{kind}_{nm}_3x2"), n, show, |i| history::<3, 2, T>(&c, &word(i, 9, short)));
    }
    let show = |i: u64| format!("{:?}", word(i, 9, few).iter().map(|o| OPS[*o]).collect::<Vec<_>>());
    let n = 9u64.pow(few as u32);
    ck.space(&format!("histories_{nm}_6x3"), n, show, |i| history::<6, 3, T>(&d, &word(i, 9, few)));
    ck.space(&format!("histories_{nm}_2x5"), n, show, |i| history::<2, 5, T>(&e, &word(i, 9, few)));
    // long runs stay symmetric, positive and true
    let ticks = ck.q(2000, 40000);
    ck.space(&format!("long_runs_{nm}"), 24, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let (rs, qs, every) = (d.pick(&[1e-4, 1.0]), d.pick(&[0.0, 1e-6, 1.0]), d.pick(&[1usize, 3, 10, 50]));
        let y = sys2();
        let (f, h) = (rdm::<T>(&y.f[0]), rdm::<T>(&y.h[0]));
        let (q, r) = (rdm::<T>(&fscale(&y.q[0], qs)), rdm::<T>(&fscale(&y.r[0], rs)));
        let mut k = KalmanFilter::<2, 1, T>::new(lv(&y.x0), lm(&y.p0), KalmanModel { state_transition: lm(&f), measurement_model: lm(&h), process_noise: lm(&q), measurement_noise: lm(&r) });
        let mut want = Belief::new(&y.x0, &y.p0, 1);
        let mut worst = 0.0f64;
        for tick in 0..ticks {
            k.predict();
            want.predict(fmv(&f, &want.x), &f, &q);
            if tick % every == 0 {
                let z = rd::<T>((tick as f64 * 0.1).sin());
                want.update(vec![z - fmv(&h, &want.x)[0]], &h, &r, true)?;
                k.update(Vector::new([t(z)])).map_err(|e| format!("tick {tick}: {e:?}"))?;
            }
            let p = mm(&k.covariance());
            worst = worst.max((p[0][0] - want.p[0][0]).abs() / fmax_abs(&want.p));
            if tick % 100 == 0 || tick < 50 {
                // relative to its own size the belief stays sound
                let sc = fmax_abs(&p);
                psd(&p, 2000.0 * T::EPS * sc, &format!("tick {tick}"))?;
                if qs > 0.0 && !T::IS32 {
                    mclose(&p, &want.p, 1e-9 * fmax_abs(&want.p), &format!("covariance at tick {tick}"))?;
                    vclose(&vv(&k.state()), &want.x, 1e-8 * (1.0 + fmax_abs(&vec![want.x.clone()])), &format!("state at tick {tick}"))?;
                }
            }
        }
        Ok(hf(&[worst.log10().round()]))
    });
    // every order of the same readings, one at a time or together, is the least-squares answer
    let rows = [[1.0, 0.0], [0.0, 1.0], [1.0, 1.0], [2.0, -1.0], [0.5, 0.25]];
    let dec = |i: u64| {
        let mut d = Dig(i);
        (perm(5, d.n(120) as u64), d.arr::<5, _>(&[0.25, 4.0]), d.pick(&[1e-2, 1.0, 1e4]))
    };
    ck.space(&format!("least_squares_{nm}"), 120 * 32 * 3, |i| format!("{:?}", dec(i)), |i| {
        let (order, noise, prior) = dec(i);
        let z = [1.0, -2.0, 0.5, 3.0, -0.25];
        let mut info = diag(&[1.0 / rd::<T>(prior); 2]);
        let mut rhs = vec![info[0][0] * 0.5, info[1][1] * -0.5];
        for k in 0..5 {
            for a in 0..2 {
                for b in 0..2 {
                    info[a][b] += rows[k][a] * rows[k][b] / noise[k];
                }
                rhs[a] += rows[k][a] * z[k] / noise[k];
            }
        }
        let want_p = finv(&info).ok_or("singular")?;
        let want_x = fmv(&want_p, &rhs);
        let start = |_: ()| (lv::<2, T>(&[0.5, -0.5]), lm::<2, 2, T>(&diag(&[rd::<T>(prior); 2])));
        let (x0, p0) = start(());
        let mut k = KalmanFilter::<2, 1, T>::new(x0, p0, KalmanModel { state_transition: Matrix::identity(), measurement_model: Matrix::zeros(), process_noise: Matrix::zeros(), measurement_noise: Matrix::identity() });
        for o in &order {
            k.set_measurement_model(lm(&vec![rows[*o].to_vec()]));
            k.set_measurement_noise(lm(&vec![vec![noise[*o]]]));
            k.update(Vector::new([t(z[*o])])).map_err(|e| format!("{e:?}"))?;
        }
        let all = KalmanModel {
            state_transition: Matrix::identity(),
            measurement_model: lm::<5, 2, T>(&order.iter().map(|o| rows[*o].to_vec()).collect()),
            process_noise: Matrix::zeros(),
            measurement_noise: lm(&diag(&order.iter().map(|o| noise[*o]).collect::<Vec<_>>())),
        };
        let mut together = KalmanFilter::<2, 5, T>::new(x0, p0, all);
        together.update(lv(&order.iter().map(|o| z[*o]).collect::<Vec<_>>())).map_err(|e| format!("{e:?}"))?;
        let tol = 200.0 * T::EPS * (1.0 + if prior > 1.0 { prior * 0.2 } else { 0.0 });
        for (n, x, p) in [("one at a time", k.state(), k.covariance()), ("together", together.state(), together.covariance())] {
            vclose(&vv(&x), &want_x, tol * 4.0, &format!("{n}: estimate"))?;
            mclose(&mm(&p), &want_p, tol * fmax_abs(&want_p).max(0.05), &format!("{n}: covariance"))?;
        }
        Ok(hf(&want_x))
    });
    // a lopsided starting covariance still gets the gain P·Hᵀ·S⁻¹
    ck.space(&format!("lopsided_{nm}"), 81, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let v = d.arr::<4, _>(&[-0.5, 0.25, 1.0]);
        let p = vec![vec![2.0 + v[0], v[1]], vec![v[2], 3.0 + v[3]]];
        let h = vec![vec![1.0, 0.5]];
        let r = vec![vec![0.5]];
        let s = fadd(&fmul(&fmul(&h, &p), &ft(&h)), &r)[0][0];
        let gain: Vec<f64> = fmul(&p, &ft(&h)).iter().map(|x| x[0] / s).collect();
        let mut k = KalmanFilter::<2, 1, T>::new(lv(&[0.0, 0.0]), lm(&p), KalmanModel { state_transition: Matrix::identity(), measurement_model: lm(&h), process_noise: Matrix::zeros(), measurement_noise: lm(&r) });
        k.update(Vector::new([t(2.0)])).map_err(|e| format!("{e:?}"))?;
        vclose(&vv(&k.state()), &[2.0 * gain[0], 2.0 * gain[1]], 64.0 * T::EPS, "estimate")?;
        Ok(hf(&gain))
    });
    // what is refused, and that a refusal leaves the belief alone
    let dec = |i: u64| {
        let mut d = Dig(i);
        (d.n(14), d.n(6), d.n(2) == 1, d.n(3))
    };
    ck.space(&format!("refusals_{nm}"), 14 * 6 * 2 * 3, |i| format!("{:?}", dec(i)), |i| {
        let (sp, place, wide, kind) = dec(i);
        let v = rd::<T>(SPECIAL[sp]);
        let mut p = vec![vec![1.0, 0.25], vec![0.25, 1.0]];
        let mut r = diag(&[0.5, 0.5]);
        let mut h = vec![vec![1.0, 0.0], vec![0.0, 1.0]];
        let mut z = vec![1.0, 2.0];
        let mut x = vec![0.5, 0.5];
        match place {
            0 => z[wide as usize] = v,
            1 => r[0][0] = v,
            2 => h[1][1] = v,
            3 => p[1][1] = v,
            4 => x[0] = v,
            _ => {
                // noise that is no covariance
                r[0][1] = v * 2.0;
                r[1][0] = v * 2.0;
            }
        }
        let s = fadd(&fmul(&fmul(&h, &p), &ft(&h)), &r);
        let huge = |m: &M| m.iter().flatten().any(|a| !a.is_finite() || a.abs() > 1e60);
        let bad_z = z.iter().any(|a| !a.is_finite());
        let det = s[0][0] * s[1][1] - s[0][1] * s[1][0];
        let mut bad = vec![];
        if bad_z || huge(&s) {
            bad.push(E::NonFinite);
        }
        if !huge(&s) && (s[0][0] < -1e-6 || det < -1e-6 || (s[0][0] <= 0.0)) {
            bad.push(E::NotPositiveDefinite);
        }
        // an innovation on the edge of singular, or an estimate that is already lost, may go either way
        let unsure = bad.is_empty() && (det.abs() < 1e-5 || x.iter().any(|a| !a.is_finite()) || !p.iter().flatten().all(|a| a.is_finite()) || v.abs() > 1e15);
        let bad = if v.is_finite() && v.abs() > 1e15 { vec![] } else { bad };
        let mut bad = bad;
        let unsure = unsure || (v.is_finite() && v.abs() > 1e15);
        let what = format!("{} at {place}, {s:?}", SPECIAL[sp]);
        macro_rules! settle { ($k:expr, $r:expr, $before:expr) => {{
            let (res, before) = ($r, $before);
            if unsure {
                op(1);
            } else {
                verdict(res, &bad, &what)?;
            }
            if res.is_err() {
                ensure!(format!("{:?}", $k.state()) == format!("{:?}", before.state()) && format!("{:?}", $k.covariance()) == format!("{:?}", before.covariance()), "a refused update moved the belief: {what}");
            }
            res.is_ok() as u64
        }}; }
        match kind {
            0 => {
                let mut k = KalmanFilter::<2, 2, T>::new(lv(&x), lm(&p), KalmanModel { state_transition: Matrix::identity(), measurement_model: lm(&h), process_noise: Matrix::zeros(), measurement_noise: lm(&r) });
                let before = k;
                ensure!(k.normalized_innovation_squared() == Err(E::NotPositiveDefinite), "fit before the first update");
                Ok(settle!(k, k.update(lv(&z)), before))
            }
            1 => {
                if place == 4 && !v.is_finite() {
                    // the residual itself is not finite
                    bad.push(E::NonFinite);
                }
                let unsure = unsure && bad.is_empty();
                let mut k = ExtendedKalmanFilter::<2, 2, T>::new(lv(&x), lm(&p), Matrix::zeros(), lm(&r));
                let before = k;
                macro_rules! settle2 { ($k:expr, $r:expr, $before:expr) => {{
                    let (res, before) = ($r, $before);
                    if unsure { op(1); } else {
                        let diff = matches!(res, Err(E::Diff(_)));
                        ensure!(!diff || h.iter().flatten().any(|a| !a.is_finite()) || x.iter().any(|a| !a.is_finite()), "Jacobian refused: {what}");
                        if !diff { verdict(res, &bad, &what)?; }
                    }
                    if res.is_err() {
                        ensure!(format!("{:?}", $k.state()) == format!("{:?}", before.state()) && format!("{:?}", $k.covariance()) == format!("{:?}", before.covariance()), "a refused update moved the belief: {what}");
                    }
                    res.is_ok() as u64
                }}; }
                Ok(settle2!(k, k.update(&lin(&h), lv(&z)), before))
            }
            _ => {
                // a model that hands back something broken
                let mut k = ExtendedKalmanFilter::<2, 2, T>::new(lv(&[0.5, 0.5]), lm(&diag(&[1.0, 1.0])), Matrix::zeros(), lm(&diag(&[0.5, 0.5])));
                let mut f = lin(&diag(&[1.0, 1.0]));
                if wide { f.b[1] = v } else { f.a[1][0] = v }
                let before = k;
                let res = k.predict(&f);
                if v.is_finite() {
                    ensure!(res.is_ok(), "predict refused {res:?}: {v}");
                } else {
                    ensure!(matches!(res, Err(E::NonFinite | E::Diff(_))), "predict: {res:?} for {v}");
                    ensure!(format!("{:?}", k.state()) == format!("{:?}", before.state()) && format!("{:?}", k.covariance()) == format!("{:?}", before.covariance()), "a refused predict moved the belief: {v}");
                }
                Ok(res.is_ok() as u64 + 10)
            }
        }
    });
}

/// The same history told with every state component and every reading in units of its own
fn in_units<const N: usize, const K: usize, T: Fl>(y: &Sys, word: &[usize], sx: &[i32], sm: &[i32]) -> Result<u64, String> {
    let what = || format!("{:?}, states in 2^{sx:?}, readings in 2^{sm:?}", word.iter().map(|i| OPS[*i]).collect::<Vec<_>>());
    let two = |e: i32| 2f64.powi(e);
    let put = |a: &M, r: &[i32], c: &[i32], sg: i32| -> M { rdm::<T>(a).iter().enumerate().map(|(i, v)| v.iter().enumerate().map(|(j, x)| x * two(r[i] + sg * c[j])).collect()).collect() };
    let putv = |a: &[f64], r: &[i32]| -> Vec<f64> { a.iter().zip(r).map(|(x, e)| rd::<T>(*x) * two(*e)).collect() };
    let none = [0i32; 2];
    let build = |sx: &[i32], sm: &[i32]| {
        let f: [M; 2] = std::array::from_fn(|i| put(&y.f[i], sx, sx, -1));
        let h: [M; 2] = std::array::from_fn(|i| put(&y.h[i], sm, sx, -1));
        let q: [M; 2] = std::array::from_fn(|i| put(&y.q[i], sx, sx, 1));
        let r: [M; 2] = std::array::from_fn(|i| put(&y.r[i], sm, sm, 1));
        let z: [Vec<f64>; 3] = std::array::from_fn(|i| putv(&y.z[i], sm));
        Sys { f, h, q, r, b: put(&y.b, sx, &none, 1), x0: putv(&y.x0, sx), p0: put(&y.p0, sx, sx, 1), z }
    };
    let run = |y: &Sys, sx: &[i32]| -> Result<Vec<(Vec<f64>, M, Vec<f64>, M, Vec<f64>)>, String> {
        let model = KalmanModel { state_transition: lm(&y.f[0]), measurement_model: lm(&y.h[0]), process_noise: lm(&y.q[0]), measurement_noise: lm(&y.r[0]) };
        let x0: Vector<N, T> = lv(&y.x0);
        let mut k = KalmanFilter::<N, K, T>::new(x0, lm(&y.p0), model);
        let mut e = ExtendedKalmanFilter::<N, K, T>::new(x0, lm(&y.p0), lm(&y.q[0]), lm(&y.r[0]));
        let mut u = UnscentedKalmanFilter::<N, K, T>::new(x0, lm(&y.p0), lm(&y.q[0]), lm(&y.r[0])).with_scaling(T::ONE, T::TWO, T::ZERO).map_err(|e| format!("{e:?}"))?;
        let (mut fi, mut hi, mut ni) = (0, 0, 0);
        let mut out = vec![];
        for o in word {
            match *o {
                0 | 1 => {
                    let push = if *o == 1 { fmv(&y.b, &[0.5, -2.0]) } else { vec![0.0; N] };
                    if *o == 1 { k.predict_with_control::<2>(lm(&y.b), lv(&[0.5, -2.0])) } else { k.predict() }
                    let m = Lin { a: y.f[fi].clone(), b: push };
                    e.predict(&m).map_err(|e| format!("extended predict refused {e:?}, {}", what()))?;
                    u.predict(&m).map_err(|e| format!("unscented predict refused {e:?}, {}", what()))?;
                }
                2..=4 => {
                    let z = lv(&y.z[*o - 2]);
                    k.update(z).map_err(|e| format!("update refused {e:?}, {}", what()))?;
                    e.update(&lin(&y.h[hi]), z).map_err(|e| format!("extended update refused {e:?}, {}", what()))?;
                    u.update(&lin(&y.h[hi]), z).map_err(|e| format!("unscented update refused {e:?}, {}", what()))?;
                }
                5 => { fi = 1 - fi; k.set_state_transition(lm(&y.f[fi])) }
                6 => { hi = 1 - hi; k.set_measurement_model(lm(&y.h[hi])) }
                7 => {
                    ni = 1 - ni;
                    k.set_process_noise(lm(&y.q[ni])); k.set_measurement_noise(lm(&y.r[ni]));
                    e.set_process_noise(lm(&y.q[ni])); e.set_measurement_noise(lm(&y.r[ni]));
                    u.set_process_noise(lm(&y.q[ni])); u.set_measurement_noise(lm(&y.r[ni]));
                }
                _ => {
                    let x: Vec<f64> = (0..N).map(|i| (i as f64 - 2.0) * two(sx[i])).collect();
                    k.set_state(lv(&x)); e.set_state(lv(&x)); u.set_state(lv(&x));
                }
            }
            macro_rules! put { ($f:expr) => { out.push((vv(&$f.state()), mm(&$f.covariance()), vv(&$f.innovation()), mm(&$f.innovation_covariance()), vec![$f.normalized_innovation_squared().map(g).unwrap_or(-1.0)])) } }
            put!(k);
            put!(e);
            put!(u);
        }
        Ok(out)
    };
    let plain = run(&build(&vec![0; N], &vec![0; K]), &vec![0; N]);
    let other = run(&build(sx, sm), sx);
    let (plain, other) = match (plain, other) {
        (Ok(a), Ok(b)) => (a, b),
        // a belief the unscented points cannot be drawn from is refused in any unit
        (Err(_), Err(_)) => return Ok(1),
        (Err(a), _) => return Err(format!("only in plain units: {a}")),
        (_, Err(b)) => return Err(b),
    };
    for (at, (a, b)) in plain.iter().zip(&other).enumerate() {
        let name = format!("{} after step {} of {}", ["linear", "extended", "unscented"][at % 3], at / 3, what());
        let back = |v: &[f64], s: &[i32]| v.iter().zip(s).map(|(x, e)| x * two(-e)).collect::<Vec<_>>();
        let backm = |v: &M, s: &[i32]| -> M { v.iter().enumerate().map(|(i, r)| r.iter().enumerate().map(|(j, x)| x * two(-s[i]) * two(-s[j])).collect()).collect() };
        let tol = 2000.0 * T::EPS;
        let xs = 1.0 + a.0.iter().chain(&a.2).fold(0.0f64, |m, v| m.max(v.abs()));
        let ps = fmax_abs(&a.1).max(fmax_abs(&a.3));
        vclose(&back(&b.0, sx), &a.0, tol * xs, &format!("{name}: state"))?;
        mclose(&backm(&b.1, sx), &a.1, tol * ps, &format!("{name}: covariance"))?;
        vclose(&back(&b.2, sm), &a.2, tol * xs, &format!("{name}: innovation"))?;
        mclose(&backm(&b.3, sm), &a.3, tol * ps, &format!("{name}: innovation covariance"))?;
        ensure_close!(b.4[0], a.4[0], 16.0 * tol, 16.0 * tol * xs, "{name}: fit");
    }
    Ok(hf(&plain.last().map(|l| l.0.clone()).unwrap_or_default()))
}
fn units<T: Fl>(ck: &Ck) {
    let nm = T::NAME;
    let len = ck.q(3, 4);
    let n = 9u64.pow(len as u32);
    // how far apart the units may be with everything formed along the way still representable
    let far: i32 = if T::IS32 { 8 } else { 100 };
    let sets = [-far, -far / 3, 0, far];
    let dec2 = |i: u64| { let mut d = Dig(i); (word(d.n(n as usize) as u64, 9, len), [d.pick(&sets), d.pick(&sets)], [d.pick(&sets)]) };
    let y = sys2();
    ck.space(&format!("units_{nm}_2x1"), n * 64, |i| format!("{:?}", dec2(i)), |i| { let (w, a, b) = dec2(i); in_units::<2, 1, T>(&y, &w, &a, &b) });
    let dec3 = |i: u64| { let mut d = Dig(i); (word(d.n(n as usize) as u64, 9, len), d.arr::<3, _>(&[-far, 0, far]), d.arr::<2, _>(&[-far, 0, far])) };
    let y3 = sys3();
    ck.space(&format!("units_{nm}_3x2"), n * 243, |i| format!("{:?}", dec3(i)), |i| { let (w, a, b) = dec3(i); in_units::<3, 2, T>(&y3, &w, &a, &b) });
    // all in one unit as far as it goes
    let all: Vec<i32> = if T::IS32 { vec![-30, -20, 20, 30] } else { vec![-250, -120, 120, 250] };
    let decf = |i: u64| { let mut d = Dig(i); (word(d.n(n as usize) as u64, 9, len), d.pick(&all)) };
    ck.space(&format!("units_{nm}_throughout"), n * 4, |i| format!("{:?}", decf(i)), |i| { let (w, e) = decf(i); in_units::<3, 2, T>(&y3, &w, &[e; 3], &[e; 2]) });
}

// ---------- nonlinear models ----------
/// Unicycle over a tick, input held: nonlinear in the heading and the speed
#[derive(Clone, Copy, Debug)]
struct Drive {
    dt: f64,
    a: f64,
    w: f64,
}
/// Roots of the chosen elements: no slope at zero
struct Root {
    which: usize,
    power: f64,
}
impl VectorFn<2, 2> for Root {
    fn eval<S: Numeric>(&self, x: &[S; 2]) -> [S; 2] {
        std::array::from_fn(|k| {
            if self.which & (1 << k) == 0 || self.power == 1.0 { x[k] } else if self.power == 0.5 { x[k].sqrt() } else { x[k].cbrt() }
        })
    }
}
impl VectorFn<4, 4> for Drive {
    fn eval<S: Numeric>(&self, s: &[S; 4]) -> [S; 4] {
        let dt = S::from_f64(self.dt);
        [s[0] + s[3] * s[2].cos() * dt, s[1] + s[3] * s[2].sin() * dt, s[2] + S::from_f64(self.w) * dt, s[3] + S::from_f64(self.a) * dt]
    }
}
impl Drive {
    fn f(&self, s: &[f64]) -> Vec<f64> {
        let a: [f64; 4] = self.eval(&[s[0], s[1], s[2], s[3]]);
        a.to_vec()
    }
    fn jac(&self, s: &[f64]) -> M {
        let (c, n) = (s[2].cos() * self.dt, s[2].sin() * self.dt);
        vec![vec![1.0, 0.0, -s[3] * n, c], vec![0.0, 1.0, s[3] * c, n], vec![0.0, 0.0, 1.0, 0.0], vec![0.0, 0.0, 0.0, 1.0]]
    }
}
/// Range and bearing to a landmark
#[derive(Clone, Copy, Debug)]
struct Mark {
    x: f64,
    y: f64,
}
impl VectorFn<4, 2> for Mark {
    fn eval<S: Numeric>(&self, s: &[S; 4]) -> [S; 2] {
        let (dx, dy) = (S::from_f64(self.x) - s[0], S::from_f64(self.y) - s[1]);
        [(dx * dx + dy * dy).sqrt(), dy.atan2(dx) - s[2]]
    }
}
impl Mark {
    fn h(&self, s: &[f64]) -> Vec<f64> {
        let a: [f64; 2] = self.eval(&[s[0], s[1], s[2], s[3]]);
        a.to_vec()
    }
    fn jac(&self, s: &[f64]) -> M {
        let (dx, dy) = (self.x - s[0], self.y - s[1]);
        let r2 = dx * dx + dy * dy;
        let r = r2.sqrt();
        vec![vec![-dx / r, -dy / r, 0.0, 0.0], vec![dy / r2, -dx / r2, -1.0, 0.0]]
    }
}
fn wrap(a: f64) -> f64 {
    let t = std::f64::consts::TAU;
    a - t * (a / t).round()
}
const DRIVES: [Drive; 3] = [Drive { dt: 0.1, a: 0.0, w: 1.0 }, Drive { dt: 0.5, a: 1.0, w: -2.0 }, Drive { dt: 0.25, a: -2.0, w: 0.0 }];
const MARKS: [Mark; 3] = [Mark { x: 3.0, y: 4.0 }, Mark { x: -2.0, y: 0.5 }, Mark { x: 0.5, y: -5.0 }];
/// Unscented reference: points drawn around a belief, pushed through as they are
#[derive(Clone, Debug)]
struct Points {
    pts: Vec<Vec<f64>>,
    wm: Vec<f64>,
    wc: Vec<f64>,
}
fn chol(a: &M) -> M {
    let n = a.len();
    let mut l = vec![vec![0.0; n]; n];
    for j in 0..n {
        let d: f64 = a[j][j] - (0..j).map(|k| l[j][k] * l[j][k]).sum::<f64>();
        l[j][j] = d.max(0.0).sqrt();
        for i in j + 1..n {
            let s: f64 = a[i][j] - (0..j).map(|k| l[i][k] * l[j][k]).sum::<f64>();
            l[i][j] = if l[j][j] > 0.0 { s / l[j][j] } else { 0.0 };
        }
    }
    l
}
fn points(x: &[f64], p: &M, tune: [f64; 3], reg: f64) -> Points {
    let n = x.len();
    let [alpha, beta, kappa] = tune;
    let c = alpha * alpha * (n as f64 + kappa);
    let l = chol(&fscale(&fadd(p, &diag(&vec![reg; n])), c));
    let mut pts = vec![x.to_vec()];
    for sg in [1.0, -1.0] {
        for j in 0..n {
            pts.push((0..n).map(|i| x[i] + sg * l[i][j]).collect());
        }
    }
    let w0 = (c - n as f64) / c;
    let mut wm = vec![1.0 / (2.0 * c); 2 * n + 1];
    let mut wc = wm.clone();
    wm[0] = w0;
    wc[0] = w0 + 1.0 - alpha * alpha + beta;
    Points { pts, wm, wc }
}
fn mean(p: &Points, v: &[Vec<f64>]) -> Vec<f64> {
    // the weights add up to one, so average the departures from the middle point
    (0..v[0].len()).map(|i| v[0][i] + v.iter().zip(&p.wm).skip(1).map(|(r, w)| w * (r[i] - v[0][i])).sum::<f64>()).collect()
}
fn cov(p: &Points, a: &[Vec<f64>], am: &[f64], b: &[Vec<f64>], bm: &[f64]) -> M {
    (0..am.len()).map(|i| (0..bm.len()).map(|j| (0..a.len()).map(|k| p.wc[k] * (a[k][i] - am[i]) * (b[k][j] - bm[j])).sum()).collect()).collect()
}
struct Unscented {
    b: Belief,
    start: Vec<f64>,
    kept: Option<Points>,
    moved: bool,
    tune: [f64; 3],
    reg: f64,
}
impl Unscented {
    fn predict(&mut self, f: &dyn Fn(&[f64]) -> Vec<f64>, q: &M) {
        let mut p = points(&self.b.x, &self.b.p, self.tune, self.reg);
        p.pts = p.pts.iter().map(|x| f(x)).collect();
        let m = mean(&p, &p.pts);
        self.b.p = fadd(&cov(&p, &p.pts, &m, &p.pts, &m), q);
        self.b.x = m;
        self.kept = Some(p);
        self.moved = true;
    }
    fn update(&mut self, h: &dyn Fn(&[f64]) -> Vec<f64>, residual: &dyn Fn(&[f64]) -> Vec<f64>, r: &M) -> Result<(), String> {
        // readings after the first are judged from the belief the first left behind
        if !self.moved && self.kept.is_some() {
            self.kept = Some(points(&self.b.x, &self.b.p, self.tune, self.reg));
        }
        let n = self.b.x.len();
        let p = self.kept.clone().unwrap_or_else(|| points(&self.start, &vec![vec![0.0; n]; n], self.tune, 0.0));
        self.moved = false;
        let z: Vec<Vec<f64>> = p.pts.iter().map(|x| h(x)).collect();
        let zm = mean(&p, &z);
        let s = fadd(&cov(&p, &z, &zm, &z, &zm), r);
        let c = cov(&p, &p.pts, &self.b.x, &z, &zm);
        let k = ft(&fsolve(&s, &ft(&c)).ok_or("reference innovation singular")?);
        let y = residual(&zm);
        self.b.x = add(&self.b.x, &fmv(&k, &y));
        self.b.p = fsub(&self.b.p, &fmul(&fmul(&k, &s), &ft(&k)));
        self.b.y = y;
        self.b.s = s;
        Ok(())
    }
}
fn nonlinear<T: Fl>(ck: &Ck) {
    let nm = T::NAME;
    let len = ck.q(5, 6);
    let ops = 10u64;
    let x0 = [0.5, -0.25, 0.75, 1.5];
    let p0 = vec![vec![0.3, 0.05, 0.0, 0.0], vec![0.05, 0.2, 0.02, 0.0], vec![0.0, 0.02, 0.1, 0.01], vec![0.0, 0.0, 0.01, 0.2]];
    let q = diag(&[0.01, 0.02, 0.005, 0.03]);
    let r = vec![vec![0.2, 0.02], vec![0.02, 0.1]];
    let (p0, q, r) = (rdm::<T>(&p0), rdm::<T>(&q), rdm::<T>(&r));
    // 0..3 drive, 3..6 range and bearing read, 6..9 residual formed outside with its bearing wrapped, 9 re-wrap
    let z = |k: usize| [[5.0, 0.2], [2.0, 3.0], [4.5, -2.5]][k].map(rd::<T>);
    let singular = vec![vec![0.4, 0.2, 0.0, 0.0], vec![0.2, 0.1, 0.0, 0.0], vec![0.0; 4], vec![0.0, 0.0, 0.0, 0.2]];
    let starts = [("", p0.clone(), len), ("_certain", diag(&[0.0; 4]), len - 1), ("_half_certain", rdm::<T>(&singular), len - 1)];
    for (tag, p0, len) in &starts {
    let (p0, len) = (p0.clone(), *len);
    let show = |i: u64| format!("{:?}", word(i, ops, len));
    ck.space(&format!("extended{tag}_{nm}"), ops.pow(len as u32), show, |i| {
        let w = word(i, ops, len);
        let k = ExtendedKalmanFilter::<4, 2, T>::new(lv(&x0), lm(&p0), lm(&q), lm(&r));
        let mut ks = [k, k.with_covariance_update(CovarianceUpdate::Naive)];
        let mut fd = ExtendedKalmanFilter::from_derivator(lv(&x0), lm(&p0), lm(&q), lm(&r), FiniteDifferenceMulti::<T>::default());
        let mut b = Belief::new(&x0, &p0, 2);
        let mut tol = 500.0 * T::EPS;
        for (at, o) in w.iter().enumerate() {
            let er = |e: E| format!("refused {e:?} at {at} of {w:?}");
            match *o {
                0..=2 => {
                    let d = DRIVES[*o];
                    b.predict(d.f(&b.x), &d.jac(&b.x), &q);
                    for k in &mut ks { k.predict(&d).map_err(er)?; }
                    fd.predict(&d).map_err(er)?;
                }
                3..=8 => {
                    let m = MARKS[*o % 3];
                    // sharp turns close to a landmark magnify what is left of rounding
                    let range = m.h(&b.x)[0];
                    if range < 0.2 { return Ok(0) }
                    tol *= 2.0 + 1.0 / range;
                    let read = z(*o % 3);
                    let mut y = sub(&read, &m.h(&b.x));
                    if *o >= 6 { y[1] = wrap(y[1]) }
                    if *o >= 6 && (y[1].abs() - std::f64::consts::PI).abs() < 0.01 { return Ok(1) }
                    b.update(y, &m.jac(&b.x), &r, true)?;
                    for k in &mut ks {
                        if *o < 6 { k.update(&m, lv(&read)).map_err(er)? } else {
                            let predicted = Vector::new(m.eval(k.state().as_array()));
                            k.update_with_residual(&m, residual_with_wrapped_angles(lv(&read), predicted, &[1])).map_err(er)?
                        }
                    }
                    if *o < 6 { fd.update(&m, lv(&read)).map_err(er)? } else {
                        let predicted = Vector::new(m.eval(fd.state().as_array()));
                        fd.update_with_residual(&m, residual_with_wrapped_angles(lv(&read), predicted, &[1])).map_err(er)?
                    }
                }
                _ => {
                    b.x[2] = wrap(b.x[2]);
                    for k in &mut ks {
                        let mut s = k.state();
                        s[2] = t(wrap(g(s[2])));
                        k.set_state(s);
                    }
                    let mut s = fd.state();
                    s[2] = t(wrap(g(s[2])));
                    fd.set_state(s);
                }
            }
            for (n, k) in ks.iter().enumerate() {
                same!(k, b, tol, format!("{} after step {at} of {w:?}", ["Joseph", "naive"][n]));
            }
            if !T::IS32 {
                same!(fd, b, 1e5 * tol + 1e-5, format!("by differences after step {at} of {w:?}"));
            }
            psd(&mm(&ks[0].covariance()), tol * fmax_abs(&b.p), &format!("{w:?}"))?;
        }
        Ok(hf(&b.x.iter().map(|v| (v * 1e3).round()).collect::<Vec<_>>()))
    });
    }
    let tunes: &[([f64; 3], f64)] = if T::IS32 { &[([1.0, 2.0, 0.0], 0.0), ([0.5, 0.0, 1.0], 0.0)] } else { &[([1.0, 2.0, 0.0], 0.0), ([0.5, 0.0, 1.0], 0.0), ([1e-3, 2.0, 0.0], 0.0), ([0.1, 2.0, -1.0], 0.0), ([0.7, 2.0, 0.0], 0.01)] };
    let nt = tunes.len() as u64;
    ck.space(&format!("unscented_{nm}"), nt * ops.pow(len as u32), |i| format!("{:?} {:?}", tunes[(i % nt) as usize], word(i / nt, ops, len)), |i| {
        let (tune, reg) = tunes[(i % nt) as usize];
        let w = word(i / nt, ops, len);
        let mut k = UnscentedKalmanFilter::<4, 2, T>::new(lv(&x0), lm(&p0), lm(&q), lm(&r));
        if tune != [1e-3, 2.0, 0.0] {
            k = k.with_scaling(t(tune[0]), t(tune[1]), t(tune[2])).map_err(|e| format!("{e:?}"))?;
        }
        if reg > 0.0 {
            k = k.with_regularization(t(reg)).map_err(|e| format!("{e:?}"))?;
        }
        let mut u = Unscented { b: Belief::new(&x0, &p0, 2), start: x0.to_vec(), kept: None, moved: true, tune: tune.map(rd::<T>), reg: rd::<T>(reg) };
        let mut tol = 500.0 * T::EPS * (1.0 + 8.0 / (tune[0] * tune[0]));
        for (at, o) in w.iter().enumerate() {
            let er = |e: E| format!("refused {e:?} at {at} of {w:?} {tune:?}");
            match *o {
                0..=2 => {
                    let d = DRIVES[*o];
                    u.predict(&|x| d.f(x), &q);
                    k.predict(&d).map_err(er)?;
                }
                3..=8 => {
                    let m = MARKS[*o % 3];
                    let near = u.kept.iter().flat_map(|p| &p.pts).chain([&u.b.x]).map(|x| m.h(x)[0]).fold(f64::MAX, f64::min);
                    if near < 0.25 { return Ok(0) }
                    let around = points(&u.b.x, &u.b.p, u.tune, u.reg);
                    let bs: Vec<f64> = u.kept.iter().flat_map(|p| &p.pts).chain(&around.pts).map(|x| m.h(x)[1] + x[2]).collect();
                    if bs.iter().fold(f64::MIN, |a, b| a.max(*b)) - bs.iter().fold(f64::MAX, |a, b| a.min(*b)) > 3.0 || around.pts.iter().any(|x| m.h(x)[0] < 0.25) { return Ok(0) }
                    if feig(&u.b.p).0.iter().any(|e| *e < 1e-3) { return Ok(2) }
                    tol *= 3.0 + 1.0 / near;
                    let read = z(*o % 3);
                    let res = |zm: &[f64]| { let mut y = sub(&read, zm); if *o >= 6 { y[1] = wrap(y[1]) } y };
                    if *o < 6 {
                        u.update(&|x| m.h(x), &res, &r)?;
                        k.update(&m, lv(&read)).map_err(er)?;
                    } else {
                        // a caller that knows its residual
                        let own = [0.3, -0.2].map(rd::<T>);
                        u.update(&|x| m.h(x), &|_| own.to_vec(), &r)?;
                        k.update_with_residual(&m, lv(&own)).map_err(er)?;
                    }
                }
                _ => {
                    u.b.x[2] += 0.125;
                    let mut s = k.state();
                    s[2] = s[2] + t(0.125);
                    k.set_state(s);
                }
            }
            same!(k, u.b, tol, format!("after step {at} of {w:?} {tune:?}"));
            let p = mm(&k.covariance());
            ensure!((0..4).all(|a| (0..4).all(|b| p[a][b] == p[b][a])), "exact symmetry after step {at} of {w:?}: {p:?}");
            psd(&p, tol, &format!("unscented {w:?} {tune:?}"))?;
        }
        Ok(hf(&u.b.x.iter().map(|v| (v * 1e3).round()).collect::<Vec<_>>()))
    });
    linear_points::<2, 1, T>(ck, tunes, sys2(), ck.q(6, 7));
    linear_points::<5, 2, T>(ck, tunes, many(5, 2), ck.q(4, 5));
    linear_points::<2, 4, T>(ck, tunes, many(2, 4), ck.q(4, 5));
}
// on linear models the unscented filter is the linear one, process noise folded in after the points are drawn
fn linear_points<const N: usize, const K: usize, T: Fl>(ck: &Ck, tunes: &[([f64; 3], f64)], y: Sys, le: usize) {
    let nm = T::NAME;
    let nt = tunes.len() as u64;
    let lo = 5u64;
    ck.space(&format!("unscented_linear_{nm}_{N}x{K}"), nt * lo.pow(le as u32), |i| format!("{:?} {:?}", tunes[(i % nt) as usize], word(i / nt, lo, le)), |i| {
        let (tune, reg) = tunes[(i % nt) as usize];
        let w = word(i / nt, lo, le);
        let (f, h) = ([rdm::<T>(&y.f[0]), rdm::<T>(&y.f[1])], [rdm::<T>(&y.h[0]), rdm::<T>(&y.h[1])]);
        let r = &y.r[0];
        let mut k = UnscentedKalmanFilter::<N, K, T>::new(lv(&y.x0), lm(&y.p0), Matrix::zeros(), lm(r)).with_scaling(t(tune[0]), t(tune[1]), t(tune[2])).map_err(|e| format!("{e:?}"))?;
        if reg > 0.0 { return Ok(3) }
        let mut b = Belief::new(&y.x0, &y.p0, K);
        let (mut predicted, mut fresh) = (false, false);
        let tol = 4000.0 * T::EPS * (1.0 + 8.0 / (tune[0] * tune[0]));
        for (at, o) in w.iter().enumerate() {
            let er = |e: E| format!("refused {e:?} at {at} of {w:?} {tune:?}");
            match *o {
                0 | 1 => {
                    b.predict(fmv(&f[*o], &b.x), &f[*o], &diag(&[0.0; N]));
                    k.predict(&lin(&f[*o])).map_err(er)?;
                    predicted = true;
                    fresh = true;
                }
                2 | 3 => {
                    if !predicted { return Ok(1) }
                    fresh = false;
                    let z: Vec<f64> = y.z[*o - 2].iter().map(|v| rd::<T>(*v)).collect();
                    b.update(sub(&z, &fmv(&h[*o - 2], &b.x)), &h[*o - 2], r, true)?;
                    k.update(&lin(&h[*o - 2]), lv(&z)).map_err(er)?;
                }
                _ => {
                    // the points a predict left stay where they are when the state is set
                    if fresh { return Ok(2) }
                    b.x[0] -= 0.5;
                    let mut s = k.state();
                    s[0] = s[0] - t(0.5);
                    k.set_state(s);
                }
            }
            same!(k, b, tol, format!("after step {at} of {w:?} {tune:?}"));
        }
        Ok(hf(&b.x))
    });
}
fn tuning<T: Fl>(ck: &Ck) {
    let nm = T::NAME;
    let vals: Vec<f64> = SPECIAL.iter().copied().chain([-2.0, -1.9, 2.0, 1e-3, -0.5, -1e-25]).collect();
    let n = vals.len();
    ck.space(&format!("tuning_{nm}"), (n * n * n) as u64, |i| { let mut d = Dig(i); format!("{:?}", d.arr::<3, _>(&vals)) }, |i| {
        let mut d = Dig(i);
        let [a, b, c] = d.arr::<3, _>(&vals).map(rd::<T>);
        let k = UnscentedKalmanFilter::<2, 1, T>::new(lv(&[1.0, 2.0]), lm(&diag(&[1.0, 2.0])), lm(&diag(&[0.1, 0.1])), lm(&diag(&[0.5])));
        let spread = a * a * (2.0 + c);
        let fin = a.is_finite() && b.is_finite() && c.is_finite();
        let magn = 1e-30..1e30;
        if fin && (spread > 0.0 && !magn.contains(&spread) || a != 0.0 && !magn.contains(&(a * a))) {
            return Ok(5);
        }
        let bad: &[E] = if !fin || !(spread > 0.0) { &[E::InvalidTuning] } else { &[] };
        let what = format!("tuning {a} {b} {c}");
        let reg = verdict(k.with_regularization(t(c)), if c.is_finite() && c >= 0.0 { &[] } else { &[E::InvalidTuning] }, &format!("regularization {c}"))?;
        if let Some(mut k) = reg.filter(|_| c < 1e6 && (c > 1e-3 || c == 0.0)).map(|k| k.with_scaling(t(0.5), t(2.0), t(0.0)).unwrap()) {
            // the little that is added to the diagonal is what the next belief is wider by
            k.predict(&lin(&diag(&[1.0, 1.0]))).map_err(|e| format!("{e:?} with regularization {c}"))?;
            mclose(&mm(&k.covariance()), &diag(&[1.1 + c, 2.1 + c]), 400.0 * T::EPS * (3.0 + c), &format!("covariance with regularization {c}"))?;
        }
        Ok(verdict(k.with_scaling(t(a), t(b), t(c)), bad, &what)?.is_some() as u64)
    });
    // covariances that cannot be factorized, models and readings that break
    let dec = |i: u64| {
        let mut d = Dig(i);
        (d.n(14), d.n(6), d.pick(&[0.0, 0.5]))
    };
    ck.space(&format!("unscented_refusals_{nm}"), 14 * 6 * 2, |i| format!("{:?}", dec(i)), |i| {
        let (sp, place, reg) = dec(i);
        let v = rd::<T>(SPECIAL[sp]);
        let mut p = vec![vec![1.0, 0.25], vec![0.25, 1.0]];
        let mut f = lin(&diag(&[1.0, 1.0]));
        let mut h = lin(&vec![vec![1.0, 0.5]]);
        let (mut r, mut z) = (0.5, 1.0);
        match place {
            0 => p[1][1] = v,
            1 => f.b[1] = v,
            2 => h.b[0] = v,
            3 => r = v,
            4 => z = v,
            _ => { p[0][1] = 2.0 * v; p[1][0] = 2.0 * v }
        }
        if v.is_finite() && v.abs() > 1e9 { return Ok(9) }
        let mut k = UnscentedKalmanFilter::<2, 1, T>::new(lv(&[0.5, -0.5]), lm(&p), Matrix::zeros(), lm(&diag(&[r]))).with_scaling(t(1.0), t(2.0), t(0.0)).unwrap().with_regularization(t(reg)).unwrap();
        let what = format!("{v} at {place} regularized by {reg}");
        let det = (p[0][0] + reg) * (p[1][1] + reg) - p[0][1] * p[1][0];
        let mut bad = vec![];
        if !p.iter().flatten().all(|a| a.is_finite()) || !f.b[1].is_finite() { bad.push(E::NonFinite) }
        else if det < -1e-6 || p[1][1] + reg < 0.0 { bad.push(E::NotPositiveDefinite) }
        else if det < 1e-6 { return Ok(8) }
        let before = k;
        if verdict(k.predict(&f), &bad, &what)?.is_none() {
            ensure!(format!("{:?}{:?}", k.state(), k.covariance()) == format!("{:?}{:?}", before.state(), before.covariance()), "a refused predict moved the belief, {what}");
            return Ok(1);
        }
        let before = k;
        let mut bad = vec![];
        if !z.is_finite() || !h.b[0].is_finite() || !r.is_finite() { bad.push(E::NonFinite) }
        let s = (fmul(&fmul(&h.a, &fadd(&p, &diag(&[reg, reg]))), &ft(&h.a)))[0][0] + r;
        if r.is_finite() && s < 0.0 { bad.push(E::NotPositiveDefinite) }
        if verdict(k.update(&h, Vector::new([t(z)])), &bad, &what)?.is_none() {
            ensure!(format!("{:?}{:?}", k.state(), k.covariance()) == format!("{:?}{:?}", before.state(), before.covariance()), "a refused update moved the belief, {what}");
            return Ok(2);
        }
        Ok(3)
    });
}

// ---------- ready-made models ----------
/// position gained along an arc, in closed form without cancellation: (∫cos, ∫sin) over the tick
fn arc(th: f64, w: f64, dt: f64) -> (f64, f64) {
    let half = w * dt / 2.0;
    let sinc = if half.abs() < 1e-4 { 1.0 - half * half / 6.0 } else { half.sin() / half };
    ((th + half).cos() * sinc * dt, (th + half).sin() * sinc * dt)
}
/// d/dw of the same, by panels of Gauss-Legendre over the tick: ∫ -s·sin(th+ws), ∫ s·cos(th+ws)
fn darc(th: f64, w: f64, dt: f64) -> (f64, f64) {
    let nodes = [(-0.9061798459386640, 0.2369268850561891), (-0.5384693101056831, 0.4786286704993665), (0.0, 0.5688888888888889), (0.5384693101056831, 0.4786286704993665), (0.9061798459386640, 0.2369268850561891)];
    let panels = 64;
    let hstep = dt / panels as f64;
    let (mut a, mut b) = (0.0, 0.0);
    for k in 0..panels {
        for (x, wt) in nodes {
            let s = hstep * (k as f64 + 0.5 + 0.5 * x);
            a += -s * (th + w * s).sin() * wt * hstep / 2.0;
            b += s * (th + w * s).cos() * wt * hstep / 2.0;
        }
    }
    (a, b)
}
fn models<T: Fl>(ck: &Ck) {
    let nm = T::NAME;
    let turns: Vec<f64> = [0.0, 1e-12, 1e-9, 1e-8, 1e-7, 5e-7, 9.9e-7, 1.01e-6, 2e-6, 1e-5, 1e-4, 1e-3, 1e-2, 0.1, 0.5, 1.0, 3.0, 10.0].iter().flat_map(|x| [*x, -x]).collect();
    let nt = turns.len();
    let dec = |i: u64| {
        let mut d = Dig(i);
        (d.pick(&turns), d.pick(&[0.0, 0.75, -1.5, 3.1, -3.1, 2.0, 4.0, -9.5]), d.pick(&[0.0, 1.0, -2.5, 30.0]), d.pick(&[1e-3, 0.1, 1.0, 5.0]))
    };
    ck.space(&format!("turning_{nm}"), (nt * 8 * 4 * 4) as u64, |i| format!("{:?}", dec(i)), |i| {
        let (w, th, v, dt) = dec(i);
        let (w, th, v) = (rd::<T>(w), rd::<T>(th), rd::<T>(v));
        let m = ConstantTurnAndSpeed { timestep: dt };
        let dtr = rd::<T>(dt);
        let s = [0.25, -0.5, th, v, w];
        let n = ga(m.eval(&ta::<T, 5>(s)));
        let (ax, ay) = arc(th, w, dtr);
        let what = || format!("state {s:?} over {dt}: {n:?}");
        let e = T::EPS;
        let reach = (v * dtr).abs();
        let tol = e * (8.0 + 4.0 * (w * dtr).abs() + 8.0 * th.abs()) * reach + 4.0 * e;
        ensure_close!(n[0], 0.25 + v * ax, 0.0, tol, "x, {}", what());
        ensure_close!(n[1], -0.5 + v * ay, 0.0, tol, "y, {}", what());
        let turned = th + w * dtr;
        ensure!(n[2].abs() <= std::f64::consts::PI * (1.0 + e), "heading folded, {}", what());
        ensure_close!(wrap(n[2] - turned), 0.0, 0.0, 8.0 * e * (4.0 + turned.abs()), "heading, {}", what());
        ensure!(n[3] == v && n[4] == w, "speed and turn rate carry over, {}", what());
        // the derivatives a filter takes through it
        let (dx, dy) = darc(th, w, dtr);
        let want = [[1.0, 0.0, -v * ay, ax, v * dx], [0.0, 1.0, v * ax, ay, v * dy], [0.0, 0.0, 1.0, 0.0, dtr]];
        for c in 0..5 {
            let mut seeded: [Dual<T>; 5] = std::array::from_fn(|k| Dual::constant(t(s[k])));
            seeded[c].deriv = T::ONE;
            let out = m.eval(&seeded);
            for (row, want) in want.iter().enumerate() {
                // near no turn at all the change with the turn rate is a small difference
                let slack = if c == 4 && row < 2 { 40.0 * reach * dtr * (e.sqrt() * 0.1 + e * (1.0 + (w * dtr).abs())) + 40.0 * e } else { 64.0 * e * (1.0 + reach + dtr) * (1.0 + (w * dtr).abs()) };
                ensure_close!(g(out[row].deriv), want[c], 0.0, slack, "derivative of {row} with respect to {c}, {}", what());
            }
        }
        Ok(hf(&n.map(|x| (x * 1e3).round())))
    });
    // reading parts of the state
    // a model with no slope at the estimate is refused, and the belief stays
    let roots = [0.0, 1.0, 4.0, -1.0].map(rd::<T>);
    ck.space(&format!("no_slope_{nm}"), 4 * 4 * 4 * 3 * 2, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let x = [d.pick(&roots), d.pick(&roots)];
        let m = Root { which: d.n(4), power: d.pick(&[0.5, 1.0 / 3.0, 1.0]) };
        let p = if d.n(2) == 0 { diag(&[0.0, 0.0]) } else { diag(&[1.0, 2.0]) };
        let k = ExtendedKalmanFilter::<2, 2, T>::new(lv(&x), lm(&p), lm(&diag(&[0.1, 0.1])), lm(&diag(&[1.0, 1.0])));
        let sharp = |v: f64| m.power != 1.0 && (v == 0.0 || (v < 0.0 && m.power == 0.5));
        let bad = (m.which & 1 != 0 && sharp(x[0])) || (m.which & 2 != 0 && sharp(x[1]));
        let mut n = 0;
        for update in [false, true] {
            let mut f = k;
            let r = if update { f.update(&m, lv(&[0.5, 0.5])) } else { f.predict(&m) };
            ensure!(if bad { r == Err(E::NonFinite) } else { r.is_ok() }, "{} from {x:?}: {r:?}", if update { "update" } else { "predict" });
            if bad {
                ensure!(format!("{f:?}") == format!("{k:?}"), "a refused call moved the filter, from {x:?}");
                n += 1;
            } else {
                ensure!(vv(&f.state()).iter().all(|v| v.is_finite()) && mm(&f.covariance()).concat().iter().all(|v| v.is_finite()), "not finite from {x:?}");
            }
        }
        Ok(n)
    });
    ck.space(&format!("direct_{nm}"), 5u64.pow(4) + 25, |i| format!("{i}"), |i| {
        let s = [10.0, 20.0, 30.0, 40.0].map(t::<T>);
        let run = |idx: &[usize], got: Option<Vec<T>>| -> Result<u64, String> {
            ensure!(got.is_some() == idx.iter().all(|k| *k < 4), "indices {idx:?}: {got:?}");
            if let Some(v) = &got {
                ensure!(v.iter().zip(idx).all(|(v, k)| g(*v) == 10.0 * (*k + 1) as f64), "indices {idx:?} read {v:?}");
            }
            Ok(got.is_some() as u64)
        };
        op(1);
        let mut d = Dig(if i < 625 { i } else { i - 625 });
        let big = |k: usize| if k == 4 { [4, usize::MAX, 100][i as usize % 3] } else { k };
        if i < 625 {
            let idx: [usize; 4] = std::array::from_fn(|_| big(d.n(5)));
            let m = DirectMeasurement::<4, 4>::try_new(idx);
            ensure!(m.is_ok() || m == Err(E::StateIndexOutOfRange), "{m:?}");
            if let Ok(m) = &m { ensure!(m.indices() == idx, "indices {idx:?}") }
            run(&idx, m.ok().map(|m| m.eval(&s).to_vec()))
        } else {
            let idx: [usize; 2] = std::array::from_fn(|_| big(d.n(5)));
            let m = DirectMeasurement::<4, 2>::try_new(idx);
            ensure!(m.is_ok() || m == Err(E::StateIndexOutOfRange), "{m:?}");
            run(&idx, m.ok().map(|m| m.eval(&s).to_vec()))
        }
    });
    let angles: Vec<f64> = (-12..=12).map(|k| k as f64 * 0.5).chain([3.14, -3.14, 3.15, -3.15]).collect();
    let na = angles.len();
    ck.space(&format!("residuals_{nm}"), (na * na * 8) as u64, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let (a, b, which) = (rd::<T>(d.pick(&angles)), rd::<T>(d.pick(&angles)), d.n(8));
        let list: Vec<usize> = (0..3).filter(|k| which >> k & 1 == 1).chain(if which == 5 { vec![7, 0] } else { vec![] }).collect();
        let out = ga(residual_with_wrapped_angles(lv::<3, T>(&[a, b, a + b]), lv::<3, T>(&[b, a, -a]), &list).into_array());
        let plain = [a - b, b - a, rd::<T>(a + b) + a];
        for k in 0..3 {
            if list.contains(&k) {
                ensure!(out[k].abs() <= std::f64::consts::PI * (1.0 + T::EPS), "component {k} not folded: {out:?}");
                ensure_close!(wrap(out[k] - plain[k]), 0.0, 0.0, 64.0 * T::EPS, "component {k} of {out:?} from {plain:?}");
            } else {
                ensure_close!(out[k], plain[k], T::EPS, 0.0, "component {k}");
            }
        }
        Ok(hf(&out))
    });
}
fn main() {
    let ck = Ck::new("C24");
    linear::<f64>(&ck);
    units::<f64>(&ck);
    nonlinear::<f64>(&ck);
    tuning::<f64>(&ck);
    models::<f64>(&ck);
    linear::<f32>(&ck);
    units::<f32>(&ck);
    nonlinear::<f32>(&ck);
    tuning::<f32>(&ck);
    models::<f32>(&ck);
    ck.finish();
}
