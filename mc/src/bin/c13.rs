//! C13: nonlinear least squares. Linear problems are compared with exact rational normal equations, a
//! catalogue of nonlinear problems with their known minima from whole grids of starts, and the
//! Levenberg-Marquardt driver is run against an adversary choosing residuals and slopes, its trust region
//! being followed step by step.
use mc::la::{wide, wide_count};
use mc::num::*;
use mc::refmodel::{Rat, rmul, rrank, rsolve, rt};
use mc::*;
use multicalc::error::{DiffError, LinalgError, SolveError as E};
use multicalc::numerical_derivative::*;
use multicalc::optimization::*;
use multicalc::scalar::{Numeric, ScalarFnN, VectorFn};
use std::cell::{Cell, RefCell};

/// counts evaluations on plain scalars only (the Jacobian evaluates on dual numbers)
struct Count<'a, F>(&'a F, Cell<usize>, usize);
impl<F: VectorFn<N, M>, const N: usize, const M: usize> VectorFn<N, M> for Count<'_, F> {
    fn eval<S: Numeric>(&self, x: &[S; N]) -> [S; M] {
        if std::mem::size_of::<S>() == self.2 {
            self.1.set(self.1.get() + 1);
        }
        self.0.eval(x)
    }
}

struct Lin<const N: usize, const M: usize> {
    a: [[f64; N]; M],
    b: [f64; M],
}
impl<const N: usize, const M: usize> VectorFn<N, M> for Lin<N, M> {
    fn eval<S: Numeric>(&self, x: &[S; N]) -> [S; M] {
        std::array::from_fn(|i| {
            let mut s = S::from_f64(-self.b[i]);
            for j in 0..N {
                s += S::from_f64(self.a[i][j]) * x[j];
            }
            s
        })
    }
}

#[derive(Clone, Copy, Debug)]
enum Who {
    Gn(bool),
    Lm(bool, f64),
}
const WHO: [Who; 6] = [Who::Gn(false), Who::Gn(true), Who::Lm(true, 100.0), Who::Lm(false, 100.0), Who::Lm(true, 0.5), Who::Lm(false, 0.1)];

fn go<T: Fl, F: VectorFn<N, M>, const N: usize, const M: usize>(who: Who, f: &F, x0: &[T; N], tol: Option<[f64; 3]>, patience: usize) -> Result<MinimizationReport<N, T>, E> {
    match who {
        Who::Gn(bt) => {
            let mut s = GaussNewton::<AutoDiffMulti<T>>::default().with_backtracking(bt).with_patience(patience);
            if let Some(x) = tol {
                s = s.with_ftol(t(x[0])).with_xtol(t(x[1])).with_gtol(t(x[2]));
            }
            s.minimize(f, x0)
        }
        Who::Lm(sd, sb) => {
            let mut s = LevenbergMarquardt::<AutoDiffMulti<T>>::default().with_scale_diag(sd).with_stepbound(t(sb)).with_patience(patience);
            if let Some(x) = tol {
                s = s.with_ftol(t(x[0])).with_xtol(t(x[1])).with_gtol(t(x[2]));
            }
            s.minimize(f, x0)
        }
    }
}

fn cost<T: Fl, F: VectorFn<N, M>, const N: usize, const M: usize>(f: &F, x: &[T; N]) -> f64 {
    let r: [f64; M] = f.eval(&ga(*x));
    0.5 * r.iter().map(|v| v * v).sum::<f64>()
}

/// The statements every accepted report must satisfy.
fn report_ok<T: Fl, F: VectorFn<N, M>, const N: usize, const M: usize>(who: Who, f: &F, x0: &[T; N], v: &MinimizationReport<N, T>, evals: usize, what: &str) -> Result<(), String> {
    ensure!(v.solution.iter().all(|x| x.is_finite()), "{what}: solution {:?}", v.solution);
    let c = {
        let r: [T; M] = f.eval(&v.solution);
        0.5 * r.iter().map(|v| g(*v) * g(*v)).sum::<f64>()
    };
    if !(T::IS32 && c > 1e38) {
        ensure_close!(g(v.objective_function), c, 16.0 * T::EPS, 1e-38, "{what}: objective");
    }
    ensure_eq!(v.evaluations, evals, "{what}: evaluations");
    if matches!(who, Who::Lm(..)) {
        let c0 = {
            let r: [T; M] = f.eval(x0);
            0.5 * r.iter().map(|v| g(*v) * g(*v)).sum::<f64>()
        };
        ensure!(c <= c0 * (1.0 + 8.0 * T::EPS), "{what}: objective rose from {c0} to {c}");
    }
    Ok(())
}

fn linear<T: Fl, const N: usize, const M: usize>(ck: &Ck, al: &'static [f64]) {
    let ents = (al.len() as u64).pow((N * M) as u32);
    let cap = ck.q(15_000u64, 600_000);
    // whole product when it fits, otherwise every k-th matrix of it for the next size up is left out
    let ents = if ents > cap { (al.len() as u64).pow((N * M).min(if cap > 100_000 { 12 } else { 8 }) as u32) } else { ents };
    let n = ents * 6 * 4 * 3;
    linear_space::<T, N, M>(ck, "", n, move |i| {
        let mut d = Dig(i);
        let who = d.pick(&WHO);
        let bk = d.n(4);
        let xk = d.n(3);
        let mut a = [[0.0; N]; M];
        for r in 0..M {
            for c in 0..N {
                a[r][c] = if d.0 == 0 && N * M > 9 { ((r * 3 + c * 5) % 4) as f64 - 1.0 } else { d.pick(al) };
            }
        }
        (who, bk, xk, a)
    });
}
/// Larger problems: one entry and one row of a base changed.
fn linear_large<T: Fl, const N: usize, const M: usize>(ck: &Ck) {
    linear_space::<T, N, M>(ck, "wide ", wide_count(M, N) * 6 * 2, move |i| {
        let mut d = Dig(i);
        let who = d.pick(&WHO);
        let bk = 1 + d.n(2);
        let a = wide(M, N, d.0);
        (who, bk, bk - 1, std::array::from_fn(|r| std::array::from_fn(|c| a[r][c])))
    });
}
fn linear_space<T: Fl, const N: usize, const M: usize>(ck: &Ck, name: &str, n: u64, dec: impl Fn(u64) -> (Who, usize, usize, [[f64; N]; M]) + Sync + Copy) {
    ck.space(&format!("{name}linear{M}x{N}_{}", T::NAME), n, |i| format!("{i}"), |i| {
        let (who, bk, xk, a) = dec(i);
        let x0: [T; N] = [std::array::from_fn(|_| T::ZERO), std::array::from_fn(|k| t(1.0 + k as f64)), std::array::from_fn(|k| t(if k == 0 { -50.0 } else { 8.0 }))][xk];
        let b: [f64; M] = match bk {
            0 => [0.0; M],
            1 => std::array::from_fn(|k| a[k].iter().sum()),
            2 => std::array::from_fn(|k| [1.0, -2.0, 4.0, 0.5][k % 4]),
            _ => std::array::from_fn(|k| if k == M - 1 { 3.0 } else { 0.0 }),
        };
        let f = Lin::<N, M> { a, b };
        let fc = Count(&f, Cell::new(0), size_of::<T>());
        let what = format!("{who:?} A={a:?} b={b:?} from {x0:?}");
        let r = go(who, &fc, &x0, None, 100);
        if M < N {
            verdict(r.map(|_| ()), &[E::Linalg(LinalgError::Underdetermined)], &what)?;
            return Ok(1);
        }
        let ar: Vec<Vec<Rat>> = a.iter().map(|r| r.iter().map(|&x| Rat::f(x)).collect()).collect();
        let br: Vec<Vec<Rat>> = b.iter().map(|&x| vec![Rat::f(x)]).collect();
        let at = rt(&ar);
        let full = rrank(&ar) == N;
        // minimum of the cost by projecting onto independent columns
        let mut cols: Vec<Vec<Rat>> = vec![];
        for c in &at {
            cols.push(c.clone());
            if rrank(&cols) < cols.len() {
                cols.pop();
            }
        }
        let bb: Rat = br.iter().map(|x| x[0] * x[0]).fold(Rat::ZERO, |s, x| s + x);
        let min = if cols.is_empty() { bb.to_f64() * 0.5 } else {
            let cb = rmul(&cols, &br);
            let z = rsolve(&rmul(&cols, &rt(&cols)), &cb).ok_or("reference")?;
            let red = rmul(&rt(&cb), &z)[0][0];
            (bb - red).to_f64() * 0.5
        };
        let c0 = cost(&f, &x0);
        let sc = 1.0 + bb.to_f64() + a.iter().flatten().map(|x| x * x).sum::<f64>() * x0.iter().map(|x| g(*x).powi(2)).sum::<f64>();
        match (who, full, r) {
            (_, true, Ok(v)) => {
                report_ok(who, &f, &x0, &v, fc.1.get(), &what)?;
                let want = rsolve(&rmul(&at, &ar), &rmul(&at, &br)).ok_or("reference")?;
                for k in 0..N {
                    let w = want[k][0].to_f64();
                    ensure_close!(g(v.solution[k]), w, 0.0, (1.0 + w.abs() + sc.sqrt()) * T::EPS.sqrt() * if T::IS32 { 0.2 } else { 1.0 }, "{what}: x{k}");
                }
                ensure!(g(v.objective_function) >= min * (1.0 - 8.0 * T::EPS) - T::EPS * T::EPS * sc - 8.0 * T::EPS * (min * sc).sqrt(), "{what}: below the minimum {min}");
                ensure!(g(v.objective_function) <= min * (1.0 + 64.0 * T::EPS) + 1e4 * T::EPS * T::EPS * sc + 8.0 * T::EPS * (min * sc).sqrt(), "{what}: objective {:?}, minimum {min}", v.objective_function);
            }
            (Who::Lm(..), false, Ok(v)) => {
                report_ok(who, &f, &x0, &v, fc.1.get(), &what)?;
                ensure!(g(v.objective_function) <= min + 1e4 * T::EPS * (min + T::EPS * sc) , "{what}: objective {:?}, minimum {min}", v.objective_function);
            }
            (Who::Gn(_), false, Ok(v)) => {
                // only a start that is stationary already can be accepted
                report_ok(who, &f, &x0, &v, fc.1.get(), &what)?;
                ensure!(g(v.objective_function) <= min + 1e4 * T::EPS * (min + T::EPS * sc), "{what}: {v:?}, minimum {min}");
            }
            (Who::Gn(_), false, Err(E::Linalg(LinalgError::Singular | LinalgError::IllConditioned))) => ensure!(c0 > min, "{what}: refused a stationary start"),
            // with nothing left to reduce, the damped steps wander along the null space
            (Who::Lm(..), false, Err(E::DidNotConverge { .. })) if min == 0.0 => {}
            (_, _, r) => return Err(format!("{what}: {:?}, minimum {min}", r.map(|v| (v.solution, v.objective_function)))),
        }
        Ok(h64(&(full, bk)))
    });
}

#[derive(Clone, Copy, Debug)]
struct Prob(usize);
const NP: usize = 12;
/// N = 2, M = 4
impl VectorFn<2, 4> for Prob {
    fn eval<S: Numeric>(&self, x: &[S; 2]) -> [S; 4] {
        let c = |v: f64| S::from_f64(v);
        let (a, b) = (x[0], x[1]);
        let z = S::ZERO;
        match self.0 {
            // Rosenbrock
            0 => [(b - a * a) * c(10.0), S::ONE - a, z, z],
            // Beale
            1 => [c(1.5) - a * (S::ONE - b), c(2.25) - a * (S::ONE - b * b), c(2.625) - a * (S::ONE - b * b * b), z],
            // Freudenstein and Roth: global 0 at (5, 4), local 48.98/2
            2 => [c(-13.0) + a + ((c(5.0) - b) * b - c(2.0)) * b, c(-29.0) + a + ((b + S::ONE) * b - c(14.0)) * b, z, z],
            // exponential decay through exact data 2 exp(-t/2)
            3 => std::array::from_fn(|k| a * (b * c(k as f64)).exp() - c(2.0 * (-0.5 * k as f64).exp())),
            // circle of given radius through noisy points (non-zero residual)
            4 => {
                let p = [(1.0, 0.1), (-0.1, 1.0), (-1.05, 0.0), (0.0, -0.9)];
                std::array::from_fn(|k| ((a - c(p[k].0)) * (a - c(p[k].0)) + (b - c(p[k].1)) * (b - c(p[k].1)) + c(1e-12)).sqrt() - S::ONE)
            }
            // singular at the solution
            5 => [a * a, b * b, a * b, z],
            // badly scaled
            6 => [a * c(1e4) * b - S::ONE, (-a).exp() + (-b).exp() - c(1.0001), z, z],
            // saturating
            7 => [(a - c(0.5)).tanh(), (b + c(0.25)).atan(), (a + b).tanh() * c(1e-2), z],
            // bounded away from zero, cubic coupling
            8 => [a - b * b, b + a * a * a * c(0.1), S::ONE, a * b],
            // depends on one unknown only
            9 => [a - c(3.0), (a - c(3.0)) * c(2.0), z, z],
            // logistic curve
            10 => std::array::from_fn(|k| S::ONE / (S::ONE + (a - b * c(k as f64)).exp()) - c(1.0 / (1.0 + (1.0 - 0.75 * k as f64).exp()))),
            // trigonometric
            _ => [a.sin() - c(0.5), b.cos() - c(0.25), (a - b).sin() * c(0.125), z],
        }
    }
}

fn stationarity(p: Prob, x: [f64; 2]) -> (f64, f64, f64) {
    // scaled gradient by complex-step-free exact duals of the reference kind: central differences at f64
    let r = p.eval(&x);
    let fn_ = r.iter().map(|v| v * v).sum::<f64>().sqrt();
    let mut worst = 0.0f64;
    let mut grad = 0.0f64;
    for k in 0..2 {
        let h = 1e-6 * (1.0 + x[k].abs());
        let (mut u, mut l) = (x, x);
        u[k] += h;
        l[k] -= h;
        let (ru, rl) = (p.eval(&u), p.eval(&l));
        let col: Vec<f64> = (0..4).map(|i| (ru[i] - rl[i]) / (2.0 * h)).collect();
        let cn = col.iter().map(|v| v * v).sum::<f64>().sqrt();
        let gr: f64 = col.iter().zip(r).map(|(a, b)| a * b).sum();
        grad = grad.max(gr.abs());
        if cn > 0.0 && fn_ > 0.0 {
            worst = worst.max(gr.abs() / cn / fn_);
        }
    }
    (worst, grad, fn_)
}

fn nonlinear<T: Fl>(ck: &Ck) {
    let gr: Vec<f64> = if ck.thorough() { (-16..=16).map(|k| k as f64 * 0.375).collect() } else { (-6..=6).map(|k| k as f64).collect() };
    let m = gr.len();
    const TOLS: [Option<[f64; 3]>; 4] = [None, Some([1e-4, 1e-4, 1e-4]), Some([0.0, 0.0, 1e-3]), Some([1e-6, 0.0, 0.0])];
    let n = (NP * 6 * m * m * 4) as u64;
    ck.space(&format!("nonlinear_{}", T::NAME), n, |i| {
        let mut d = Dig(i);
        format!("problem {} {:?} from ({}, {}) tol {:?}", d.n(NP), d.pick(&WHO), d.pick(&gr), d.pick(&gr), d.pick(&TOLS))
    }, |i| {
        let mut d = Dig(i);
        let p = Prob(d.n(NP));
        let who = d.pick(&WHO);
        let x0: [T; 2] = [t(d.pick(&gr)), t(d.pick(&gr))];
        let tol = d.pick(&TOLS);
        let fc = Count(&p, Cell::new(0), size_of::<T>());
        let what = format!("{p:?} {who:?} from {x0:?} tol {tol:?}");
        let pat = 1500;
        let r = go(who, &fc, &x0, tol, pat);
        let tl = tol.unwrap_or([30.0 * T::EPS; 3]);
        match r {
            Ok(v) => {
                report_ok(who, &p, &x0, &v, fc.1.get(), &what)?;
                let x = ga(v.solution);
                let (cosg, grad, fn_) = stationarity(p, x);
                if v.termination == TerminationReason::Gtol && x.iter().all(|v| v.abs() < 1e4) {
                    ensure!(cosg <= tl[2] * 1.01 + 64.0 * T::EPS + 1e-8 + if fn_ < 1e3 * T::EPS { 2.0 } else { 1e-7 / fn_.min(1.0) } + if T::IS32 { 1e-3 } else { 0.0 }, "{what}: Gtol at {x:?} with angle {cosg}");
                }
                // A damped descent only stops where it cannot improve: near a stationary point.
                if matches!(who, Who::Lm(..)) && tol.is_none() && !T::IS32 && x.iter().all(|v| v.abs() < 1e4) {
                    ensure!(cosg < 1e-3 || grad < 1e-5 * (1.0 + fn_) || fn_ < 1e-6, "{what}: stopped by {:?} at {x:?} with gradient {grad}, angle {cosg}, residual {fn_}", v.termination);
                }
            }
            Err(E::DidNotConverge { iters }) => ensure!(iters == fc.1.get() && iters >= pat, "{what}: gave up after {iters} evaluations"),
            Err(E::NonFinite) => ensure!(matches!(p.0, 1 | 2 | 3 | 6 | 0 | 8 | 10 | 7 | 5), "{what}: NonFinite"),
            Err(E::Linalg(LinalgError::Singular | LinalgError::IllConditioned)) => ensure!(matches!(who, Who::Gn(_)), "{what}: singular"),
            Err(e) => return Err(format!("{what}: {e:?}")),
        }
        // global convergence of the damped solver
        if matches!(who, Who::Lm(..)) && tol.is_none() {
            let want: Option<&[[f64; 2]]> = match p.0 {
                0 => Some(&[[1.0, 1.0]]),
                9 => Some(&[[3.0, f64::NAN]]),
                _ => None,
            };
            let tolx = if T::IS32 { 2e-2 } else { 1e-5 };
            if let Some(ws) = want {
                let v = r.map_err(|e| format!("{what}: {e:?}"))?;
                ensure!(ws.iter().any(|w| (0..2).all(|k| w[k].is_nan() || (g(v.solution[k]) - w[k]).abs() <= tolx * (1.0 + w[k].abs()))), "{what}: {:?}, expected {ws:?}", v.solution);
            }
        }
        if p.0 == 9 {
            if let Who::Gn(_) = who {
                ensure!(match r { Err(E::Linalg(_)) => true, Ok(v) => g(v.solution[0]) == 3.0, _ => false }, "{what}: {:?}", r.map(|v| v.solution));
            }
        }
        Ok(h64(&(p.0, r.is_ok())))
    });
    ck.space(&format!("bad_starts_{}", T::NAME), (NP * 6 * 14 * 14) as u64, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let p = Prob(d.n(NP));
        let who = d.pick(&WHO);
        let x0: [T; 2] = [t(d.pick(&SPECIAL)), t(d.pick(&SPECIAL))];
        let fc = Count(&p, Cell::new(0), size_of::<T>());
        let what = format!("{p:?} {who:?} from {x0:?}");
        let r = go(who, &fc, &x0, None, 30);
        let r0: [T; 4] = p.eval(&x0);
        match r {
            Ok(v) => {
                ensure!(r0.iter().all(|x| x.is_finite()), "{what}: accepted non-finite residuals");
                ensure!(v.solution.iter().all(|x| x.is_finite()) || x0.iter().any(|x| !x.is_finite()), "{what}: {v:?}");
            }
            Err(E::NonFinite) | Err(E::DidNotConverge { .. }) | Err(E::Linalg(_)) => {}
            e => return Err(format!("{what}: {e:?}")),
        }
        if r0.iter().any(|x| !x.is_finite()) {
            verdict(r.map(|_| ()), &[E::NonFinite], &what)?;
        }
        // no budget
        let z = go(who, &p, &[T::ONE; 2], None, 0);
        verdict(z.map(|_| ()), &[E::DidNotConverge { iters: 1 }], "no budget")?;
        Ok(r.is_ok() as u64)
    });
}

fn read<S: Numeric>(x: &S) -> f64 {
    unsafe {
        match std::mem::size_of::<S>() {
            8 => std::mem::transmute_copy::<S, f64>(x),
            4 => std::mem::transmute_copy::<S, f32>(x) as f64,
            n => unreachable!("scalar of {n} bytes"),
        }
    }
}
struct Adv<'a> {
    ans: &'a [f64],
    log: RefCell<Vec<(f64, f64)>>,
}
impl VectorFn<1, 1> for Adv<'_> {
    fn eval<S: Numeric>(&self, x: &[S; 1]) -> [S; 1] {
        let mut l = self.log.borrow_mut();
        let v = self.ans[l.len().min(self.ans.len() - 1)];
        assert!(l.len() < 50_000, "evaluations without end");
        l.push((read(&x[0]), v));
        [S::from_f64(v)]
    }
}
struct AdvJ<'a, T> {
    ans: &'a [f64],
    /// (point, evaluations so far)
    at: RefCell<Vec<f64>>,
    _t: std::marker::PhantomData<T>,
}
impl<T: Fl> DerivatorMultiVariable for &AdvJ<'_, T> {
    type Scalar = T;
    fn jacobian_column<F: VectorFn<V, P>, const V: usize, const P: usize>(&self, _f: &F, idx: usize, x: &[T; V]) -> Result<[T; P], DiffError> {
        assert!(idx == 0 && V == 1 && P == 1);
        Ok([self.answer(x[0]); P])
    }
    fn differentiate<F: ScalarFnN<V>, const V: usize, const O: usize>(&self, _f: &F, idx: &[usize; O], x: &[T; V]) -> Result<T, DiffError> {
        assert!(O == 1 && idx[0] == 0 && V == 1);
        Ok(self.answer(x[0]))
    }
}
impl<T: Fl> AdvJ<'_, T> {
    fn answer(&self, x: T) -> T {
        let k = self.at.borrow().len();
        self.at.borrow_mut().push(g(x));
        t(self.ans[k.min(self.ans.len() - 1)])
    }
}

/// Follows the trust region of the one-dimensional problem: every trial step, its acceptance, the radius
/// and the stop tests.
fn lm_adversary<T: Fl>(ck: &Ck) {
    const V: [f64; 6] = [4.0, -1.0, 0.25, 3.75, 64.0, 0.0];
    const D: [f64; 5] = [1.0, -4.0, 0.125, 100.0, 0.0];
    let (nv, nd) = (ck.q(5, 6), ck.q(2, 3));
    let n = 6u64.pow(nv) * 5u64.pow(nd) * 3 * 2 * 2 * 2;
    ck.space(&format!("lm_adversary_{}", T::NAME), n, |i| {
        let mut d = Dig(i);
        let h = (d.pick(&[0.0, 2.0, -10.0]), d.pick(&[100.0, 0.25]), d.n(2), d.n(2));
        format!("x0 {} stepbound {} scale {} tol {} residuals {:?} slopes {:?}", h.0, h.1, h.2, h.3, (0..nv).map(|_| V[d.n(6)]).collect::<Vec<_>>(), (0..nd).map(|_| D[d.n(5)]).collect::<Vec<_>>())
    }, |i| {
        let mut d = Dig(i);
        let x0 = d.pick(&[0.0, 2.0, -10.0]);
        let sb = d.pick(&[100.0, 0.25]);
        let sd = d.n(2) == 1;
        let tol = [1e-6, 0.05][d.n(2)];
        let vals: Vec<f64> = (0..nv).map(|_| V[d.n(6)]).collect();
        let ders: Vec<f64> = (0..nd).map(|_| D[d.n(5)]).collect();
        let adv = Adv { ans: &vals, log: RefCell::new(vec![]) };
        let aj = AdvJ::<T> { ans: &ders, at: RefCell::new(vec![]), _t: Default::default() };
        let pat = 6;
        let r = LevenbergMarquardt::from_derivator(&aj).with_ftol(t(tol)).with_xtol(t(tol)).with_gtol(t(tol)).with_stepbound(t(sb)).with_scale_diag(sd).with_patience(pat).minimize(&adv, &[t(x0)]);
        let log = adv.log.borrow();
        let at = aj.at.borrow();
        let rep = |x: f64, fv: f64, why: TerminationReason| -> Res {
            let v = r.as_ref().map_err(|e| format!("expected {why:?} at {x}, got {e:?}"))?;
            ensure_close!(g(v.solution[0]), x, T::EPS * 16.0, T::EPS * 16.0, "solution");
            ensure_close!(g(v.objective_function), 0.5 * fv * fv, T::EPS * 16.0, 0.0, "objective");
            ensure_eq!(v.evaluations, log.len(), "evaluations");
            ensure!(v.termination == why || fv == 0.0, "termination {:?}, expected {why:?}", v.termination);
            Ok(h64(&(why, log.len())))
        };
        let near = |a: f64, b: f64| (a - b).abs() <= 1e-4 * (a.abs() + b.abs() + 1e-3);
        let (mut x, mut res) = (x0, vals[0]);
        ensure!(!log.is_empty() && log[0].0 == x0, "the start is evaluated first");
        let (mut diag, mut delta, mut xnorm) = (0.0, 0.0, 0.0);
        let mut k = 1;
        for outer in 0..pat {
            let dd = ders[outer.min(ders.len() - 1)];
            ensure!(at.len() > outer && near(at[outer], x), "Jacobian {outer} taken at {:?}, expected {x}", at.get(outer));
            if outer == 0 {
                diag = if dd == 0.0 || !sd { 1.0 } else { dd.abs() };
                xnorm = diag * x.abs();
                delta = if xnorm == 0.0 { sb } else { sb * xnorm };
            }
            // one residual: the gradient is parallel to it unless one of them vanishes
            if res == 0.0 || dd == 0.0 {
                return rep(x, res, TerminationReason::Gtol);
            }
            if sd {
                diag = diag.max(dd.abs());
            }
            let mut trials = 0;
            loop {
                if log.len() <= k {
                    return Err(format!("stopped after {k} evaluations at {x}: {r:?}"));
                }
                let (xn, v) = log[k];
                k += 1;
                trials += 1;
                let step = x - xn;
                let gn = res / dd;
                let par;
                if near(diag * gn.abs(), 1.1 * delta) {
                    return Ok(7);
                }
                if step.abs() < 1e5 * T::EPS * (x.abs() + 1e-3) {
                    return Ok(8); // below the resolution of the iterate
                }
                if diag * gn.abs() <= 1.1 * delta {
                    ensure!((step - gn).abs() <= 1e-4 * gn.abs() + 16.0 * T::EPS * x.abs(), "trial {k}: step {step}, the Gauss-Newton step {gn} fits the region {delta}");
                    par = 0.0;
                } else {
                    ensure!(step * gn > 0.0, "trial {k}: step {step} against {gn}");
                    let ps = diag * step.abs();
                    let sl = 1e-4 * delta + 16.0 * T::EPS * diag * x.abs();
                    ensure!(ps >= 0.9 * delta - sl && ps <= 1.1 * delta + sl, "trial {k}: scaled step {ps} for a region {delta}");
                    par = (dd * res / step - dd * dd) / (diag * diag);
                }
                let pnorm = diag * step.abs();
                if outer == 0 && trials == 1 {
                    delta = f64::min(delta, pnorm);
                }
                let (f0, f1) = (res.abs(), v.abs());
                let actred = if 0.1 * f1 < f0 { 1.0 - (f1 / f0).powi(2) } else { -1.0 };
                let t1 = (dd * step).abs() / f0;
                let t2 = par.max(0.0).sqrt() * pnorm / f0;
                let prered = t1 * t1 + 2.0 * t2 * t2;
                let dirder = -(t1 * t1 + t2 * t2);
                let ratio = if prered != 0.0 { actred / prered } else { 0.0 };
                for th in [0.25, 0.75, 1e-4, 2.0] {
                    if near(ratio, th) && ratio != 0.0 {
                        return Ok(9);
                    }
                }
                if ratio <= 0.25 {
                    let mut tm = if actred >= 0.0 { 0.5 } else { 0.5 * dirder / (dirder + 0.5 * actred) };
                    if 0.1 * f1 >= f0 || tm < 0.1 {
                        tm = 0.1;
                    }
                    delta = tm * f64::min(delta, pnorm * 10.0);
                } else if par == 0.0 || ratio >= 0.75 {
                    delta = pnorm * 2.0;
                }
                let acc = ratio >= 1e-4;
                if acc {
                    x = xn;
                    res = v;
                    xnorm = diag * x.abs();
                }
                if near(actred.abs(), tol) || near(prered, tol) || near(delta, tol * xnorm) && xnorm > 0.0 {
                    return Ok(10);
                }
                if actred.abs() <= tol && prered <= tol && ratio <= 2.0 {
                    return rep(x, res, TerminationReason::Ftol);
                }
                if delta <= tol * xnorm {
                    return rep(x, res, TerminationReason::Xtol);
                }
                if acc {
                    break;
                }
                if trials == 60 {
                    return Ok(11);
                }
            }
        }
        verdict(r.map(|_| ()), &[E::DidNotConverge { iters: log.len() }], "budget")?;
        Ok(12)
    });
}

/// Follows Gauss-Newton on one residual: every trial point, every halving, the stop tests, and a budget
/// of exactly as many Jacobians as it was given.
fn gn_adversary<T: Fl>(ck: &Ck) {
    const V: [f64; 7] = [4.0, -1.0, 0.25, 3.75, 64.0, f64::NAN, 0.0];
    const D: [f64; 5] = [1.0, -4.0, 0.125, 100.0, 0.0];
    let (nv, nd) = (ck.q(5, 6), ck.q(2, 3));
    let n = 7u64.pow(nv) * 5u64.pow(nd) * 3 * 2 * 2 * 3;
    let dec = move |i: u64| {
        let mut d = Dig(i);
        (d.pick(&[0.0, 2.0, -10.0]), d.n(2) == 1, [1e-6, 0.05][d.n(2)], [1usize, 2, 4][d.n(3)], (0..nv).map(|_| V[d.n(7)]).collect::<Vec<_>>(), (0..nd).map(|_| D[d.n(5)]).collect::<Vec<_>>())
    };
    ck.space(&format!("gn_adversary_{}", T::NAME), n, |i| format!("{:?}", dec(i)), |i| {
        let (x0, bt, tol, pat, vals, ders) = dec(i);
        let adv = Adv { ans: &vals, log: RefCell::new(vec![]) };
        let aj = AdvJ::<T> { ans: &ders, at: RefCell::new(vec![]), _t: Default::default() };
        let r = GaussNewton::from_derivator(&aj).with_ftol(t(tol)).with_xtol(t(tol)).with_gtol(t(tol)).with_backtracking(bt).with_patience(pat).minimize(&adv, &[t(x0)]);
        let log = adv.log.borrow();
        let at = aj.at.borrow();
        let near = |a: f64, b: f64| (a - b).abs() <= 1e-4 * (a.abs() + b.abs() + 1e-3);
        let rep = |x: f64, fv: f64, why: TerminationReason, jac: usize| -> Res {
            let v = r.as_ref().map_err(|e| format!("expected {why:?} at {x}, got {e:?}"))?;
            ensure!(near(g(v.solution[0]), x), "solution {:?}, expected {x}", v.solution);
            ensure_close!(g(v.objective_function), 0.5 * fv * fv, T::EPS * 16.0, 0.0, "objective");
            ensure_eq!(v.evaluations, log.len(), "evaluations");
            ensure_eq!(at.len(), jac, "Jacobians");
            ensure!(v.termination == why, "termination {:?}, expected {why:?}", v.termination);
            Ok(h64(&(why, log.len())))
        };
        let refused = |k: usize| -> Res {
            ensure!(matches!(r, Err(E::NonFinite)) && log.len() == k, "expected NonFinite after {k} evaluations, got {r:?} after {}", log.len());
            Ok(3)
        };
        let (mut x, mut res) = (x0, vals[0]);
        ensure!(!log.is_empty() && log[0].0 == x0, "the start is evaluated first");
        if !res.is_finite() {
            return refused(1);
        }
        let mut k = 1;
        for outer in 0..pat {
            let dd = ders[outer.min(ders.len() - 1)];
            ensure!(at.len() > outer && near(at[outer], x), "Jacobian {outer} taken at {:?}, expected {x}", at.get(outer));
            if res == 0.0 || dd == 0.0 {
                return rep(x, res, TerminationReason::Gtol, outer + 1);
            }
            let step = res / dd;
            let mut alpha = 1.0;
            let mut halvings = 0;
            let (xn, v) = loop {
                ensure!(log.len() > k, "stopped after {k} evaluations at {x}: {r:?}");
                let (xn, v) = log[k];
                k += 1;
                let want = x - alpha * step;
                ensure!((xn - want).abs() <= 64.0 * T::EPS * (x.abs() + (alpha * step).abs()) + 1e-30, "trial {k} at {xn}, expected {want}: {halvings} halvings of the step {step} from {x}");
                let better = v.is_finite() && v.abs() < res.abs();
                if !bt || better || halvings == 20 {
                    if !v.is_finite() {
                        return refused(k);
                    }
                    break (xn, v);
                }
                alpha *= 0.5;
                halvings += 1;
            };
            let (took, was) = ((alpha * step).abs(), res.abs());
            (x, res) = (xn, v);
            if near(took, tol * x.abs()) || near((was - v.abs()).abs(), tol * was) {
                return Ok(10);
            }
            if took <= tol * x.abs() {
                return rep(x, res, TerminationReason::Xtol, outer + 1);
            }
            if (was - v.abs()).abs() <= tol * was {
                return rep(x, res, TerminationReason::Ftol, outer + 1);
            }
        }
        ensure_eq!(at.len(), pat, "Jacobians before giving up");
        verdict(r.map(|_| ()), &[E::DidNotConverge { iters: log.len() }], "budget")?;
        Ok(12)
    });
}

/// A problem in other units: parameters times u, residuals times w.
struct Units(Prob, f64, f64);
impl VectorFn<2, 4> for Units {
    fn eval<S: Numeric>(&self, x: &[S; 2]) -> [S; 4] {
        self.0.eval(&x.map(|v| v * S::from_f64(1.0 / self.1))).map(|v| v * S::from_f64(self.2))
    }
}
fn units<T: Fl>(ck: &Ck) {
    let us: [(i32, i32); 6] = if T::IS32 { [(-30, 0), (0, -40), (20, 10), (0, 28), (-20, -20), (24, -30)] } else { [(-200, 0), (0, -200), (150, 80), (0, 250), (-100, -100), (120, -200)] };
    let gr: [f64; 6] = [-3.0, -1.0, 0.5, 1.0, 2.0, 6.0];
    const TOLS: [Option<[f64; 3]>; 2] = [None, Some([1e-4, 1e-4, 1e-4])];
    ck.space(&format!("units_{}", T::NAME), NP as u64 * 6 * 36 * 2 * 6, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let p = Prob(d.n(NP));
        let who = d.pick(&WHO);
        let x0: [T; 2] = [t(d.pick(&gr)), t(d.pick(&gr))];
        let tol = d.pick(&TOLS);
        let (a, b) = d.pick(&us);
        let (u, w) = (2f64.powi(a), 2f64.powi(b));
        let z = Units(p, u, w);
        let what = format!("{p:?} {who:?} from {x0:?} tol {tol:?} in units 2^{a}, 2^{b}");
        // where a Jacobian column vanishes its weight is one, in every unit
        let flat = matches!(p.0, 1 | 5 | 9 | 10) || T::IS32 && !matches!(p.0, 0 | 4 | 7 | 8);
        if flat {
            return Ok(1);
        }
        let plain = go(who, &p, &x0, tol, 400);
        // a run to infinity or one that barely ends may end otherwise by rounding
        if !plain.as_ref().is_ok_and(|v| v.evaluations <= 60 && v.solution.iter().all(|x| g(*x).abs() < 1e3)) {
            return Ok(4);
        }
        let other = go(who, &z, &x0.map(|x| x * t(u)), tol, 400);
        match (plain, other) {
            (Ok(v), Ok(o)) => {
                // a residual that has vanished stops in any unit, one of rounding size only in some
                if g(v.objective_function) < 1e-25 && T::IS32 || g(v.objective_function) < 1e-60 {
                    return Ok(2);
                }
                // the norms are summed in other orders far from one: rounding may end the run a step apart
                let (f, h) = (g(o.objective_function) / w / w, g(v.objective_function));
                let small = if T::IS32 { 1e-7 } else { 1e-14 };
                ensure!((f - h).abs() <= 1e-4 * h + small, "{what}: objective {f}, in plain units {h}");
                if tol.is_none() {
                    ensure!(o.evaluations.abs_diff(v.evaluations) <= 25 + v.evaluations / 4 || h < small, "{what}: {} evaluations, in plain units {}", o.evaluations, v.evaluations);
                }
            }
            (Err(E::NonFinite), _) | (_, Err(E::NonFinite)) => return Ok(3),
            (v, o) => {
                if v.as_ref().is_ok_and(|v| g(v.objective_function) < 1e-25) || o.as_ref().is_ok_and(|o| g(o.objective_function) / w / w < 1e-25) {
                    return Ok(2);
                }
                ensure_eq!(format!("{:?}", o.err()), format!("{:?}", v.err()), "{what}: outcome");
            }
        }
        Ok(h64(&p.0))
    });
}
fn run<T: Fl>(ck: &Ck) {
    units::<T>(ck);
    linear_large::<T, 5, 5>(ck);
    linear_large::<T, 4, 8>(ck);
    linear_large::<T, 6, 7>(ck);
    linear::<T, 1, 1>(ck, &[-2.0, 0.0, 0.5, 3.0]);
    linear::<T, 1, 3>(ck, &[-2.0, 0.0, 0.5, 3.0]);
    linear::<T, 2, 1>(ck, &[-2.0, 0.0, 3.0]);
    linear::<T, 2, 2>(ck, &[-2.0, 0.0, 1.0, 3.0]);
    linear::<T, 2, 3>(ck, &[-1.0, 0.0, 1.0, 4.0]);
    linear::<T, 3, 3>(ck, &[-1.0, 0.0, 2.0]);
    linear::<T, 3, 4>(ck, &[-1.0, 0.0, 2.0]);
    nonlinear::<T>(ck);
    lm_adversary::<T>(ck);
    gn_adversary::<T>(ck);
}

fn main() {
    let ck = Ck::new("C13");
    ck.assume("nonlinear problems are a catalogue of twelve two-parameter ones started from every point of a grid");
    run::<f64>(&ck);
    run::<f32>(&ck);
    ck.finish()
}
