//! C12: root finders. The bracketing solvers and Newton are run against an adversary that chooses every
//! function value (and derivative) they ask for; all answer sequences up to a depth are enumerated and the
//! points asked for are compared with the documented algorithm. Closed-form families with known roots
//! check accuracy, budgets and errors.
use mc::la::{wide, wide_count};
use mc::num::*;
use mc::*;
use multicalc::error::{DiffError, LinalgError, SolveError as E};
use multicalc::numerical_derivative::*;
use multicalc::root_finding::*;
use multicalc::scalar::{Numeric, ScalarFn, ScalarFnN, VectorFn};
use std::cell::{Cell, RefCell};

/// The value of a plain scalar behind the generic parameter (the solvers only use `f64`/`f32` here).
fn read<S: Numeric>(x: &S) -> f64 {
    unsafe {
        match std::mem::size_of::<S>() {
            8 => std::mem::transmute_copy::<S, f64>(x),
            4 => std::mem::transmute_copy::<S, f32>(x) as f64,
            n => unreachable!("scalar of {n} bytes"),
        }
    }
}

/// Answers the i-th question with the i-th entry, repeating the last one.
struct Adv {
    ans: Vec<f64>,
    log: RefCell<Vec<(f64, f64)>>,
}
impl Adv {
    fn new(ans: Vec<f64>) -> Adv {
        Adv { ans, log: RefCell::new(vec![]) }
    }
}
impl ScalarFn for Adv {
    fn eval<S: Numeric>(&self, x: S) -> S {
        let mut l = self.log.borrow_mut();
        let v = self.ans[l.len().min(self.ans.len() - 1)];
        assert!(l.len() < 50_000, "evaluations without end");
        l.push((read(&x), v));
        S::from_f64(v)
    }
}

fn pos(v: f64) -> bool {
    v >= 0.0
}

/// The points the bracketing solvers ask for, whatever the answers.
fn bracket_adversary<T: Fl>(ck: &Ck) {
    const A: [f64; 7] = [-2.0, -0.03125, 0.03125, 2.0, 0.5, 0.0, f64::NAN];
    let depth = ck.q(5, 7);
    let br = [(0.0, 1.0), (1.0, 0.0), (-3.0, 5.0), (2.0, 2.0)];
    let n = 2 * br.len() as u64 * 3 * 7u64.pow(depth + 2);
    ck.space(&format!("bracket_adversary_{}", T::NAME), n, |i| {
        let mut d = Dig(i);
        format!("{} bracket {:?} tol {} answers {:?}", ["bisection", "brent"][d.n(2)], d.pick(&br), d.n(3), (0..depth + 2).map(|_| A[d.n(7)]).collect::<Vec<_>>())
    }, |i| {
        let mut d = Dig(i);
        let brent = d.n(2) == 1;
        let (a, b) = d.pick(&br);
        let (xtol, ftol) = [(0.0625, 0.0), (2f64.powi(-12), 0.03125), (0.25, 0.5)][d.n(3)];
        let ans: Vec<f64> = (0..depth + 2).map(|_| A[d.n(7)]).collect();
        // answers behind the first bad one are never asked for: judge each such tree once
        if ans.iter().position(|v| v.is_nan()).is_some_and(|p| ans[p..].iter().any(|v| !v.is_nan())) {
            return Ok(0);
        }
        let f = Adv::new(ans.clone());
        let budget = 60;
        let r = if brent {
            Brent::<T>::new().with_xtol(t(xtol)).with_ftol(t(ftol)).with_max_iterations(budget).solve(&f, t(a), t(b))
        } else {
            Bisection::<T>::new().with_xtol(t(xtol)).with_ftol(t(ftol)).with_max_iterations(budget).solve(&f, t(a), t(b))
        };
        let log = f.log.borrow();
        ensure!(log.len() >= 2 && log[0].0 == a && log[1].0 == b, "the ends are evaluated first: {log:?}");
        let (fa, fb) = (ans[0], ans[1]);
        if fa.is_nan() || fb.is_nan() {
            verdict(r, &[E::NonFinite], "non-finite value at an end")?;
            return Ok(1);
        }
        if fa == 0.0 || fb == 0.0 {
            let v = verdict(r, &[], "root at an end")?.unwrap();
            ensure!(v.iterations == 0 && g(v.residual) == 0.0 && (fa == 0.0 && g(v.root) == a || fb == 0.0 && g(v.root) == b), "root at an end: {v:?}");
            return Ok(2);
        }
        if pos(fa) == pos(fb) {
            verdict(r, &[E::InvalidBracket], "ends of one sign")?;
            return Ok(3);
        }
        // replay the bracket
        let (mut p, mut q) = ((a, fa), (b, fb));
        let mut best = fa.abs().min(fb.abs());
        for (k, &(x, v)) in log[2..].iter().enumerate() {
            ensure!(x >= p.0.min(q.0) && x <= p.0.max(q.0), "evaluation {k} at {x} leaves the bracket [{}, {}]", p.0, q.0);
            if !brent {
                ensure_close!(x, (p.0 + q.0) / 2.0, T::EPS * 2.0, 0.0, "evaluation {k}: midpoint of [{}, {}]", p.0, q.0);
            }
            if v.is_nan() {
                ensure_eq!(k + 3, log.len(), "evaluations after a non-finite value");
                verdict(r, &[E::NonFinite], "non-finite value inside")?;
                return Ok(4);
            }
            // nothing but the last evaluation may satisfy the stop test
            if k + 3 < log.len() {
                ensure!(v.abs() > ftol, "evaluation {k}: |{v}| <= {ftol} but the search went on");
            }
            best = best.min(v.abs());
            if brent || k + 3 < log.len() {
                if pos(v) == pos(p.1) { p = (x, v) } else { q = (x, v) }
            }
        }
        let w = (p.0 - q.0).abs();
        let it = log.len() as usize - 2;
        match r {
            Ok(v) => {
                let x = g(v.root);
                ensure!(log.iter().any(|l| l.0 == x && l.1 == g(v.residual)), "reported root {x} with residual {:?} was never evaluated: {log:?}", v.residual);
                ensure_eq!(v.iterations, it, "iterations");
                ensure!(x >= p.0.min(q.0) && x <= p.0.max(q.0), "root {x} outside the final bracket");
                match v.termination {
                    RootTermination::ResidualTolerance => ensure!(g(v.residual).abs() <= ftol, "residual {:?} above {ftol}", v.residual),
                    RootTermination::BracketWidth => {
                        let tol = xtol * (1.0 + x.abs()) * (1.0 + 1e-6);
                        ensure!(w <= if brent { 2.0 * tol } else { tol }, "bracket of width {w} reported within {tol}");
                        if brent {
                            ensure!(g(v.residual).abs() <= p.1.abs().min(q.1.abs()), "the better end is reported");
                        }
                    }
                    e => return Err(format!("termination {e:?}")),
                }
            }
            Err(E::DidNotConverge { iters }) => {
                ensure!(iters == budget && brent && it == budget, "gave up after {it} of {iters}");
                ensure!(w > xtol * (1.0 + p.0.abs().min(q.0.abs())) * 0.999, "gave up with width {w}");
            }
            Err(e) => return Err(format!("error {e:?}")),
        }
        if !brent {
            // guaranteed budget
            let m = ((b - a).abs() / xtol).log2().ceil().max(0.0) as usize + 1;
            ensure!(it <= m, "{it} halvings, promised {m}");
        } else {
            let m = ((b - a).abs() / xtol).log2().ceil().max(1.0) as usize + 1;
            ensure!(it <= m * m + 2 || it == budget, "{it} steps for {m} halvings");
        }
        Ok(hf(&[w, it as f64, best]))
    });
}

/// Monotone or oscillating functions with one known root in every bracket used.
#[derive(Clone, Copy, Debug)]
struct Fam(usize, f64);
const NFAM: usize = 14;
impl ScalarFn for Fam {
    fn eval<S: Numeric>(&self, x: S) -> S {
        let r = S::from_f64(self.1);
        let y = x - r;
        match self.0 {
            0 => y,
            1 => y * S::from_f64(-1e-3),
            2 => y * y * y,
            3 => y.exp() - S::ONE,
            4 => S::ONE - y.exp(),
            5 => y.tanh(),
            6 => y / (S::ONE + y * y).sqrt(),
            7 => y * (y * y + S::from_f64(1e-6)),
            8 => y.sin() + y * S::TWO,
            9 => y * S::from_f64(1e6) + y * y * y,
            10 => (y * S::from_f64(8.0)).tanh() * S::from_f64(1e-4) + y * S::from_f64(1e-5),
            11 => y * y * y * y * y + y,
            12 => y / (S::ONE + y.abs()),
            _ => y.atan() * S::from_f64(100.0),
        }
    }
}
/// |f| <= ftol implies |x - root| below this
fn inverse_bound(k: usize, ftol: f64) -> f64 {
    match k {
        1 => ftol * 1e3,
        2 => ftol.cbrt(),
        7 => ftol.cbrt(),
        9 => ftol * 1e-6,
        10 => ftol * 1e5,
        13 => ftol,
        8 => ftol,
        _ => ftol * 2.5,
    }
}

/// A function in another unit.
#[derive(Debug)]
struct Unit(Fam, i32);
impl ScalarFn for Unit {
    fn eval<S: Numeric>(&self, x: S) -> S {
        self.0.eval(x) * S::from_f64(2f64.powi(self.1))
    }
}
struct Counted<'a>(&'a Unit, &'a Cell<usize>);
impl ScalarFn for Counted<'_> {
    fn eval<S: Numeric>(&self, x: S) -> S {
        self.1.set(self.1.get() + 1);
        self.0.eval(x)
    }
}

fn known_roots<T: Fl>(ck: &Ck) {
    const R: [f64; 7] = [0.0, 1.0, -2.5, 0.1, 1e-3, 37.0, -1000.3];
    const W: [(f64, f64); 9] = [(1.0, 1.0), (0.25, 3.0), (10.0, 0.125), (1e-3, 5.0), (60.0, 80.0), (0.0, 2.0), (1.5, 0.0), (-4.0, 1.0), (1.0, -4.0)];
    const TOL: [(f64, f64); 5] = [(0.0, 0.0), (1e-3, 0.0), (0.0, 1e-3), (1e-5, 1e-5), (-1.0, -1.0)];
    let n = (NFAM * 7 * 9 * 5 * 2 * 2) as u64;
    ck.space(&format!("known_roots_{}", T::NAME), n, |i| {
        let mut d = Dig(i);
        format!("fam {} root {} bracket {:?} tol {:?} brent {} reversed {}", d.n(NFAM), d.pick(&R), d.pick(&W), d.pick(&TOL), d.n(2), d.n(2))
    }, |i| {
        let mut d = Dig(i);
        let fam = d.n(NFAM);
        let r = g(t::<T>(d.pick(&R)));
        let f = Fam(fam, r);
        let w = d.pick(&W);
        let (mut xtol, mut ftol) = d.pick(&TOL);
        let (brent, rev) = (d.n(2) == 1, d.n(2) == 1);
        let (mut a, mut b) = (t::<T>(r - w.0), t::<T>(r + w.1));
        if rev {
            std::mem::swap(&mut a, &mut b);
        }
        (xtol, ftol) = (g(t::<T>(xtol)), g(t::<T>(ftol)));
        let default = xtol < 0.0;
        if default {
            (xtol, ftol) = (4.0 * T::EPS, 4.0 * T::EPS);
        }
        let (bi, brn) = if default { (Bisection::<T>::default(), Brent::<T>::default()) } else {
            (Bisection::new().with_xtol(t(xtol)).with_ftol(t(ftol)).with_max_iterations(200), Brent::new().with_xtol(t(xtol)).with_ftol(t(ftol)).with_max_iterations(200))
        };
        let res = if brent { brn.solve(&f, a, b) } else { bi.solve(&f, a, b) };
        let (fa, fb) = (g(f.eval(a)), g(f.eval(b)));
        let mut al = vec![];
        if !(fa.is_finite() && fb.is_finite()) {
            al.push(E::NonFinite);
        } else if fa != 0.0 && fb != 0.0 && pos(fa) == pos(fb) {
            al.push(E::InvalidBracket);
        }
        // below the rounding of the bracket no tolerance can be met
        let floor = 4.0 * T::EPS * (1.0 + r.abs());
        if let (true, Err(E::DidNotConverge { iters: 200 })) = (xtol < 4.0 * T::EPS, res) {
            return Ok(9);
        }
        let Some(v) = verdict(res, &al, &format!("{f:?} on {a:?}..{b:?}"))? else { return Ok(0) };
        let x = g(v.root);
        ensure!(x >= g(a).min(g(b)) && x <= g(a).max(g(b)), "root {x} outside the bracket");
        ensure_eq!(v.residual, f.eval(v.root), "residual is the function value");
        let slack = 4.0 * T::EPS * (1.0 + x.abs());
        match v.termination {
            RootTermination::ResidualTolerance => {
                ensure!(g(v.residual).abs() <= ftol, "residual {:?}", v.residual);
                ensure!((x - r).abs() <= inverse_bound(fam, ftol + T::EPS) + slack + T::EPS * 4.0 * r.abs(), "root {x}, expected {r}");
            }
            RootTermination::BracketWidth => {
                ensure!((x - r).abs() <= 2.0 * xtol.max(T::EPS) * (1.0 + x.abs()) + slack + floor, "root {x}, expected {r}");
            }
            e => return Err(format!("termination {e:?}")),
        }
        if default {
            // fits the default budget, as promised; Brent is not worse than a few bisections on these
            ensure!(v.iterations <= 100, "{} iterations", v.iterations);
        }
        Ok(h64(&(x.to_bits(), v.iterations)))
    });
    // whatever unit the function's values are in, and with every budget: the search a large budget makes, cut off
    let un: [i32; 5] = if T::IS32 { [0, -30, -80, 20, 70] } else { [0, -60, -600, -900, 600] };
    let xt = if T::IS32 { 1e-5 } else { 1e-9 };
    ck.space(&format!("budgets_and_units_{}", T::NAME), 10 * 5 * 6 * 2 * 14, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let fam = d.pick(&[0, 1, 3, 4, 5, 6, 8, 11, 12, 13]);
        let f = Unit(Fam(fam, 0.5), d.pick(&un));
        let w = d.pick(&[(1.0, 1.0), (0.25, 3.0), (3.0, 0.125), (1e-3, 2.0), (0.5, 1.5), (2.0, 1e-6)]);
        let brent = d.n(2) == 1;
        let m = d.n(14);
        let (a, b) = (t::<T>(0.5 - w.0), t::<T>(0.5 + w.1));
        let run = |m: usize| {
            let calls = Cell::new(0usize);
            let c = Counted(&f, &calls);
            let r = if brent { Brent::<T>::new().with_xtol(t(xt)).with_ftol(t(0.0)).with_max_iterations(m).solve(&c, a, b) } else { Bisection::<T>::new().with_xtol(t(xt)).with_ftol(t(0.0)).with_max_iterations(m).solve(&c, a, b) };
            (r, calls.get())
        };
        let (full, _) = run(2000);
        let full = full.map_err(|e| format!("{f:?} on {a:?}..{b:?}: {e:?}"))?;
        ensure!((g(full.root) - 0.5).abs() <= 4.0 * xt, "{f:?} on {a:?}..{b:?}: {full:?}");
        let halvings = ((g(b) - g(a)) / xt).log2().ceil() as usize + 1;
        ensure!(full.iterations <= if brent { halvings * 4 } else { halvings }, "{f:?} on {a:?}..{b:?}: {full:?}");
        let (r, calls) = run(m);
        ensure!(calls <= m + 2, "{f:?} on {a:?}..{b:?}: {calls} evaluations on a budget of {m}");
        if full.iterations > m {
            ensure_eq!(r.err(), Some(E::DidNotConverge { iters: m }), "{f:?} on {a:?}..{b:?}");
            ensure_eq!(calls, m + 2, "{f:?} on {a:?}..{b:?}: evaluations");
        } else if full.iterations > 0 {
            ensure_eq!(format!("{r:?}"), format!("{:?}", Ok::<_, E>(full)), "{f:?} on {a:?}..{b:?}: with a budget of {m}");
        }
        op(full.iterations as u64);
        Ok(full.iterations as u64)
    });
    // huge, infinite and undefined brackets: an accepted root is a root
    const X: [f64; 16] = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 0.0, -0.0, 1.0, -1.0, 2.5, f64::MAX, f64::MIN, 1e300, -1e300, 1.2e308, -1.2e308, 1e-300, -1e-300];
    ck.space(&format!("extreme_brackets_{}", T::NAME), (16 * 16 * NFAM * 2 * 2) as u64, |i| {
        let mut d = Dig(i);
        format!("bracket {} {} fam {} root {} brent {}", d.pick(&X), d.pick(&X), d.n(NFAM), [0.0, 1.5][d.n(2)], d.n(2))
    }, |i| {
        let mut d = Dig(i);
        let sc = |x: f64| -> T { if T::IS32 && x.abs() > 1e299 && x.is_finite() { t::<T>((x / f64::MAX) * f32::MAX as f64) } else { t(x) } };
        let (a, b) = (sc(d.pick(&X)), sc(d.pick(&X)));
        let fam = [0, 1, 2, 3, 4, 5, 0, 7, 8, 9, 10, 11, 12, 13][d.n(NFAM)]; // 6 overflows to exact zeros
        let r = [0.0, 1.5][d.n(2)];
        let f = Fam(fam, r);
        let res = if d.n(2) == 1 { Brent::<T>::new().with_max_iterations(3000).solve(&f, a, b) } else { Bisection::<T>::new().with_max_iterations(3000).solve(&f, a, b) };
        let (fa, fb) = (f.eval(a), f.eval(b));
        let ends = a.is_finite() && b.is_finite();
        match res {
            Ok(v) => {
                let x = g(v.root);
                ensure!(x.is_finite() && x >= g(a).min(g(b)) && x <= g(a).max(g(b)), "{f:?} on {a:?}..{b:?}: root {x}");
                ensure!((x - r).abs() <= 0.05, "{f:?} on {a:?}..{b:?}: {v:?} expected {r}");
            }
            Err(E::NonFinite) => ensure!(!ends || !fa.is_finite() || !fb.is_finite() || matches!(fam, 2 | 3 | 4 | 7 | 9 | 11 | 6), "{f:?} on {a:?}..{b:?}: NonFinite"),
            Err(E::InvalidBracket) => ensure!(pos(g(fa)) == pos(g(fb)), "{f:?} on {a:?}..{b:?}: InvalidBracket"),
            e => return Err(format!("{f:?} on {a:?}..{b:?}: {e:?}")),
        }
        Ok(1)
    });
}

/// Newton against an adversary for values and derivatives: the iterates are the documented ones.
struct AdvD<'a, T> {
    ans: &'a [f64],
    n: Cell<usize>,
    at: RefCell<Vec<f64>>,
    _t: std::marker::PhantomData<T>,
}
impl<T: Fl> DerivatorSingleVariable for &AdvD<'_, T> {
    type Scalar = T;
    fn differentiate<F: ScalarFn>(&self, order: usize, _f: &F, x: T) -> Result<T, DiffError> {
        assert_eq!(order, 1);
        let v = self.ans[self.n.get().min(self.ans.len() - 1)];
        self.n.set(self.n.get() + 1);
        self.at.borrow_mut().push(g(x));
        if v == 777.0 { Err(DiffError::StepSizeZero) } else { Ok(t(v)) }
    }
}

fn newton_adversary<T: Fl>(ck: &Ck) {
    const V: [f64; 6] = [8.0, -4.0, 1.0, 0.125, 0.0, f64::INFINITY];
    const D: [f64; 7] = [1.0, -2.0, 0.5, 16.0, 0.0, f64::NAN, 777.0];
    let (nv, nd) = (ck.q(6, 7), ck.q(2, 3));
    let n = 6u64.pow(nv) * 7u64.pow(nd) * 2 * 2 * 2;
    ck.space(&format!("newton_adversary_{}", T::NAME), n, |i| {
        let mut d = Dig(i);
        let (bt, x0, tol) = (d.n(2), d.n(2), d.n(2));
        format!("backtracking {bt} x0 {x0} tol {tol} values {:?} derivatives {:?}", (0..nv).map(|_| V[d.n(6)]).collect::<Vec<_>>(), (0..nd).map(|_| D[d.n(7)]).collect::<Vec<_>>())
    }, |i| {
        let mut d = Dig(i);
        let bt = d.n(2) == 1;
        let x0 = [0.0, 3.0][d.n(2)];
        let (xtol, ftol) = [(2f64.powi(-8), 0.125), (0.0, 0.0)][d.n(2)];
        let vals: Vec<f64> = (0..nv).map(|_| V[d.n(6)]).collect();
        let ders: Vec<f64> = (0..nd).map(|_| D[d.n(7)]).collect();
        let adv = Adv::new(vals.clone());
        let dv = AdvD::<T> { ans: &ders, n: Cell::new(0), at: RefCell::new(vec![]), _t: Default::default() };
        let budget = 4;
        let r = Newton::from_derivator(&dv).with_xtol(t(xtol)).with_ftol(t(ftol)).with_max_iterations(budget).with_backtracking(bt).solve(&adv, t(x0));
        // the documented iteration, driven by the same answers
        let (mut kv, mut kd) = (0usize, 0usize);
        let mut val = || { kv += 1; vals[(kv - 1).min(vals.len() - 1)] };
        let mut der = || { kd += 1; ders[(kd - 1).min(ders.len() - 1)] };
        let mut pts = vec![x0];
        let mut x = x0;
        let mut res = val();
        let want: Result<(f64, f64, usize, bool), E> = 'run: {
            if !res.is_finite() {
                break 'run Err(E::NonFinite);
            }
            for it in 1..=budget {
                if res.abs() <= ftol {
                    break 'run Ok((x, res, it, true));
                }
                let dd = der();
                if dd == 777.0 {
                    break 'run Err(E::Diff(DiffError::StepSizeZero));
                }
                if dd.is_nan() {
                    break 'run Err(E::NonFinite);
                }
                if dd == 0.0 {
                    break 'run Err(E::Linalg(LinalgError::Singular));
                }
                let step = res / dd;
                let mut al = 1.0;
                let mut tries = 0;
                loop {
                    let c = g(t::<T>(x - g(t::<T>(al * step))));
                    pts.push(c);
                    let v = val();
                    if !bt || (v.is_finite() && v.abs() < res.abs()) || tries == 20 {
                        if !v.is_finite() {
                            break 'run Err(E::NonFinite);
                        }
                        let moved = (c - x).abs();
                        x = c;
                        res = v;
                        if moved <= xtol * (1.0 + x.abs()) {
                            break 'run Ok((x, res, it, false));
                        }
                        break;
                    }
                    al /= 2.0;
                    tries += 1;
                }
            }
            Err(E::DidNotConverge { iters: budget })
        };
        for (k, (l, p)) in adv.log.borrow().iter().zip(&pts).enumerate() {
            ensure_close!(l.0, *p, T::EPS * 8.0, T::EPS * 8.0, "evaluation {k}: points {:?} expected {pts:?}", adv.log.borrow());
        }
        match (&want, &r) {
            (Ok((x, v, it, by_res)), Ok(o)) => {
                ensure_close!(g(o.root), *x, T::EPS * 8.0, T::EPS * 8.0, "root");
                ensure_eq!(g(o.residual), *v, "residual");
                // a value inside the tolerance may be recognised at the end of one iteration or the start of the next
                ensure!(o.iterations <= *it && o.iterations + 1 >= *it, "iterations {} expected {it}", o.iterations);
                ensure!(*by_res == (o.termination == RootTermination::ResidualTolerance) || v.abs() <= ftol, "termination {:?}", o.termination);
            }
            (Err(a), Err(b)) => ensure_eq!(a, b, "error"),
            // the budget ran out on a point that already meets the residual tolerance
            (Err(E::DidNotConverge { .. }), Ok(o)) => ensure!(g(o.residual).abs() <= ftol && g(o.residual) == res, "{o:?}"),
            _ => return Err(format!("expected {want:?}, got {r:?}")),
        }
        ensure!(adv.log.borrow().len() <= pts.len(), "more evaluations than documented");
        for (k, p) in dv.at.borrow().iter().enumerate() {
            ensure!(adv.log.borrow().iter().any(|l| l.0 == *p), "derivative {k} taken at {p}, which is no iterate");
        }
        Ok(hf(&[x, res]))
    });
}

/// The same for a system of two: residual vectors and Jacobians are the adversary's.
struct AdvF<'a> {
    ans: &'a [[f64; 2]],
    log: RefCell<Vec<([f64; 2], [f64; 2])>>,
}
impl VectorFn<2, 2> for AdvF<'_> {
    fn eval<S: Numeric>(&self, x: &[S; 2]) -> [S; 2] {
        let mut l = self.log.borrow_mut();
        let v = self.ans[l.len().min(self.ans.len() - 1)];
        assert!(l.len() < 50_000, "evaluations without end");
        l.push(([read(&x[0]), read(&x[1])], v));
        v.map(S::from_f64)
    }
}
struct AdvM<'a, T> {
    ans: &'a [[[f64; 2]; 2]],
    /// columns asked for, with their points
    at: RefCell<Vec<(usize, [f64; 2])>>,
    _t: std::marker::PhantomData<T>,
}
impl<T: Fl> DerivatorMultiVariable for &AdvM<'_, T> {
    type Scalar = T;
    fn jacobian_column<F: VectorFn<V, P>, const V: usize, const P: usize>(&self, _f: &F, idx: usize, x: &[T; V]) -> Result<[T; P], DiffError> {
        assert!(idx < 2 && V == 2 && P == 2);
        let mut at = self.at.borrow_mut();
        let a = self.ans[(at.len() / 2).min(self.ans.len() - 1)];
        at.push((idx, [g(x[0]), g(x[1])]));
        if a[0][0] == 777.0 { Err(DiffError::StepSizeZero) } else { Ok(std::array::from_fn(|r| t(a[r][idx]))) }
    }
    fn differentiate<F: ScalarFnN<V>, const V: usize, const O: usize>(&self, _f: &F, _idx: &[usize; O], _x: &[T; V]) -> Result<T, DiffError> {
        unreachable!("only columns are asked for")
    }
}
fn system_adversary<T: Fl>(ck: &Ck) {
    const V: [[f64; 2]; 7] = [[4.0, -3.0], [-1.0, 0.5], [0.0, 0.125], [3.0, 4.0], [64.0, 8.0], [f64::NAN, 0.0], [0.0, 0.0]];
    const J: [[[f64; 2]; 2]; 7] = [[[1.0, 0.0], [0.0, 1.0]], [[2.0, 1.0], [1.0, -1.0]], [[0.0, 0.125], [4.0, 0.0]], [[100.0, 1.0], [0.0, 16.0]], [[1.0, 2.0], [2.0, 4.0]], [[1.0, 0.0], [0.0, f64::INFINITY]], [[777.0; 2]; 2]];
    let (nv, nd) = (ck.q(5, 6), ck.q(2, 3));
    let n = 7u64.pow(nv) * 7u64.pow(nd) * 2 * 2 * 2 * 3;
    let dec = move |i: u64| {
        let mut d = Dig(i);
        (d.pick(&[[0.0, 0.0], [3.0, -8.0]]), d.n(2) == 1, [(2f64.powi(-8), 0.25), (0.0, 0.0)][d.n(2)], [1usize, 2, 4][d.n(3)], (0..nv).map(|_| V[d.n(7)]).collect::<Vec<_>>(), (0..nd).map(|_| J[d.n(7)]).collect::<Vec<_>>())
    };
    ck.space(&format!("system_adversary_{}", T::NAME), n, |i| format!("{:?}", dec(i)), |i| {
        let (x0, bt, (xtol, ftol), budget, vals, jacs) = dec(i);
        let adv = AdvF { ans: &vals, log: RefCell::new(vec![]) };
        let dv = AdvM::<T> { ans: &jacs, at: RefCell::new(vec![]), _t: Default::default() };
        let r = NewtonSystem::from_derivator(&dv).with_xtol(t(xtol)).with_ftol(t(ftol)).with_max_iterations(budget).with_backtracking(bt).solve(&adv, &x0.map(t));
        let norm = |v: &[f64; 2]| v[0].hypot(v[1]);
        let finite = |v: &[f64; 2]| v.iter().all(|x| x.is_finite());
        let log = adv.log.borrow();
        let at = dv.at.borrow();
        let refused = |e: E, k: usize| -> Res {
            ensure!(r.as_ref().err() == Some(&e) && log.len() == k, "expected {e:?} after {k} evaluations, got {r:?} after {}", log.len());
            Ok(3)
        };
        let found = |x: &[f64; 2], v: &[f64; 2], it: usize, why: RootTermination| -> Res {
            let o = r.as_ref().map_err(|e| format!("expected {why:?} at {x:?}, got {e:?}"))?;
            for c in 0..2 {
                ensure_eq!(g(o.root[c]), x[c], "root");
            }
            ensure_close!(g(o.residual_norm), norm(v), T::EPS * 8.0, 0.0, "residual norm");
            // a residual inside the tolerance may be recognised at the end of one iteration or the start of the next
            ensure!(o.iterations <= it && o.iterations + 1 >= it, "iterations {} expected {it}", o.iterations);
            ensure!(o.termination == why || norm(v) <= ftol, "termination {:?}, expected {why:?}", o.termination);
            Ok(h64(&(it, log.len())))
        };
        ensure!(!log.is_empty() && log[0].0 == x0, "the start is evaluated first");
        let (mut x, mut res) = (x0, vals[0]);
        if !finite(&res) {
            return refused(E::NonFinite, 1);
        }
        let mut k = 1;
        for it in 1..=budget {
            if norm(&res) <= ftol {
                return found(&x, &res, it, RootTermination::ResidualTolerance);
            }
            let a = jacs[(it - 1).min(jacs.len() - 1)];
            ensure!(at.len() > 2 * (it - 1) && at[2 * (it - 1)].1 == x, "Jacobian {it} taken at {:?}, expected {x:?}", at.get(2 * (it - 1)));
            if a[0][0] == 777.0 {
                return refused(E::Diff(DiffError::StepSizeZero), k);
            }
            if !a.iter().all(finite) {
                return refused(E::NonFinite, k);
            }
            let de = a[0][0] * a[1][1] - a[0][1] * a[1][0];
            if de == 0.0 {
                return refused(E::Linalg(LinalgError::Singular), k);
            }
            let step = [-(a[1][1] * res[0] - a[0][1] * res[1]) / de, -(a[0][0] * res[1] - a[1][0] * res[0]) / de];
            let (mut alpha, mut halvings) = (1.0, 0);
            let (xn, v) = loop {
                ensure!(log.len() > k, "stopped after {k} evaluations at {x:?}: {r:?}");
                let (xn, v) = log[k];
                k += 1;
                for c in 0..2 {
                    let want = x[c] + alpha * step[c];
                    ensure!((xn[c] - want).abs() <= 64.0 * T::EPS * (x[c].abs() + alpha * norm(&step)) + 1e-30, "trial {k} at {xn:?}: {halvings} halvings of the step {step:?} from {x:?}");
                }
                if !bt || finite(&v) && norm(&v) < norm(&res) || halvings == 20 {
                    if !finite(&v) {
                        return refused(E::NonFinite, k);
                    }
                    break (xn, v);
                }
                alpha *= 0.5;
                halvings += 1;
            };
            (x, res) = (xn, v);
            let (took, lim) = (alpha * norm(&step), xtol * (1.0 + norm(&x)));
            if (took - lim).abs() <= 1e-4 * lim {
                return Ok(10);
            }
            if took <= lim {
                return found(&x, &res, it, RootTermination::StepTolerance);
            }
        }
        if norm(&res) <= ftol && r.is_ok() {
            return found(&x, &res, budget, RootTermination::ResidualTolerance);
        }
        ensure_eq!(at.len(), 2 * budget, "Jacobian columns before giving up");
        refused(E::DidNotConverge { iters: budget }, k)
    });
}

/// Steps that leave the range of the numbers are never taken, whatever the function says out there
fn system_runaway<T: Fl>(ck: &Ck) {
    let big = g(T::MAX);
    let v = [[big * 0.5, 1.0], [1.0, -big * 0.25], [3.0, -4.0], [0.5, 0.25], [0.0, 0.0], [-big * 0.5, big * 0.5]];
    let j = [[[2f64.powi(-20), 0.0], [0.0, 1.0]], [[1.0, 0.0], [0.0, 2f64.powi(-30)]], [[1.0, 0.5], [0.0, 1.0]]];
    let n = 6u64.pow(4) * 9 * 2 * 2 * 2;
    let dec = |i: u64| {
        let mut d = Dig(i);
        ((0..4).map(|_| v[d.n(6)]).collect::<Vec<_>>(), (0..2).map(|_| j[d.n(3)]).collect::<Vec<_>>(), d.n(2) == 1, d.pick(&[[0.0, 0.0], [big * 0.75, -8.0]]), [3usize, 30][d.n(2)])
    };
    ck.space(&format!("system_runaway_{}", T::NAME), n, |i| format!("{:?}", dec(i)), |i| {
        let (vals, jacs, bt, x0, budget) = dec(i);
        let adv = AdvF { ans: &vals, log: RefCell::new(vec![]) };
        let dv = AdvM::<T> { ans: &jacs, at: RefCell::new(vec![]), _t: Default::default() };
        let r = NewtonSystem::from_derivator(&dv).with_max_iterations(budget).with_backtracking(bt).solve(&adv, &x0.map(t));
        let log = adv.log.borrow();
        let out = log.iter().any(|(x, _)| x.iter().any(|c| !c.is_finite()));
        match &r {
            Ok(o) => {
                let root = o.root.map(g);
                ensure!(root.iter().all(|c| c.is_finite()) && g(o.residual_norm).is_finite(), "answers {root:?} with residual {:?}", o.residual_norm);
                ensure!(log.iter().any(|(x, v)| *x == root && (v[0].hypot(v[1]) - g(o.residual_norm)).abs() <= 8.0 * T::EPS * g(o.residual_norm)), "{root:?} was never looked at");
                ensure!(bt || !out, "a step out of range was passed over");
            }
            Err(e) => ensure!(!out || bt || *e == E::NonFinite, "a step out of range gives {e:?}"),
        }
        // no Jacobian is asked for out there
        ensure!(dv.at.borrow().iter().all(|(_, x)| x.iter().all(|c| c.is_finite())), "a Jacobian out of range");
        Ok(h64(&(r.is_ok(), out, log.len())))
    });
}

#[derive(Clone, Copy, Debug)]
struct Nf(usize);
impl ScalarFn for Nf {
    fn eval<S: Numeric>(&self, x: S) -> S {
        let c = |v: f64| S::from_f64(v);
        match self.0 {
            0 => x * c(3.0) - c(6.0),
            1 => x * x - c(2.0),
            2 => x * x * x - c(8.0),
            3 => x.exp() - c(3.0),
            4 => x.atan(),
            5 => x.cos() - x,
            6 => x * x + S::ONE,
            7 => x * x * x - x * c(2.0) + c(2.0),
            8 => x.ln_or(),
            9 => S::ONE / x - c(4.0),
            10 => x.tanh() - c(0.5),
            _ => c(1.0) + x * S::ZERO,
        }
    }
}
trait LnOr {
    fn ln_or(self) -> Self;
}
impl<S: Numeric> LnOr for S {
    fn ln_or(self) -> S {
        self.log() - S::ONE
    }
}
fn newton_real<T: Fl>(ck: &Ck) {
    let x0s: Vec<f64> = (-24..=24).map(|k| k as f64 * 0.375).chain(SPECIAL).collect();
    let n = (12 * x0s.len() * 2 * 2 * 4) as u64;
    ck.space(&format!("newton_{}", T::NAME), n, |i| {
        let mut d = Dig(i);
        format!("fn {} x0 {} backtracking {} finite-difference {} tol {}", d.n(12), d.pick(&x0s), d.n(2), d.n(2), d.n(4))
    }, |i| {
        let mut d = Dig(i);
        let f = Nf(d.n(12));
        let x0 = d.pick(&x0s);
        let (bt, fd) = (d.n(2) == 1, d.n(2) == 1);
        let k = d.n(4);
        let (xtol, ftol) = [(30.0 * T::EPS, 30.0 * T::EPS), (0.0, 1e-4), (1e-4, 0.0), (1e-3, 1e-3)].map(|p| (g(t::<T>(p.0)), g(t::<T>(p.1))))[k];
        let ad = || if k == 0 { Newton::<AutoDiffSingle<T>>::default() } else { Newton::from_derivator(AutoDiffSingle::<T>::default()).with_xtol(t(xtol)).with_ftol(t(ftol)) };
        let r = if fd {
            let dv = FiniteDifferenceSingle::<T>::from_parameters(t(if T::IS32 { 1e-2 } else { 1e-5 }), FiniteDifferenceMode::Central, t(1.0));
            let s = Newton::from_derivator(dv).with_backtracking(bt);
            if k == 0 { s } else { s.with_xtol(t(xtol)).with_ftol(t(ftol)) }.solve(&f, t(x0))
        } else {
            ad().with_backtracking(bt).solve(&f, t(x0))
        };
        let x0 = t::<T>(x0);
        match r {
            Ok(v) => {
                let x = g(v.root);
                ensure!(x.is_finite(), "root {x}");
                ensure_eq!(v.residual, f.eval(v.root), "residual is the function value");
                ensure!(v.iterations <= 100, "iterations {}", v.iterations);
                match v.termination {
                    RootTermination::ResidualTolerance => ensure!(g(v.residual).abs() <= ftol, "residual {:?} above {ftol}", v.residual),
                    RootTermination::StepTolerance => {
                        // no root exists for 6 and 11: a step can only be small there because it was cut
                        if !bt && (!matches!(f.0, 8 | 9) || g(x0).abs() > 1e-3) {
                            ensure!(f.0 != 6 && f.0 != 11, "a root of a function that has none: {v:?}");
                            let step = xtol.max(T::EPS) * (1.0 + x.abs());
                            let (lo, hi) = (g(f.eval(t::<T>(x - 4.0 * step))), g(f.eval(t::<T>(x + 4.0 * step))));
                            ensure!(pos(lo) != pos(hi) || lo == 0.0 || g(v.residual).abs() <= T::EPS * 64.0 * (1.0 + x.abs()), "no sign change within {step} of {x}: {lo} {hi}");
                        }
                    }
                    e => return Err(format!("termination {e:?}")),
                }
            }
            Err(E::NonFinite) => {
                // some iterate left the domain or overflowed; never from a start at the root, or on the line
                ensure!(f.0 != 0 || !x0.is_finite() || fd && g(x0).abs() > 1e6, "non-finite on a line from {x0:?}");
            }
            Err(E::Linalg(LinalgError::Singular)) => ensure!(f.0 != 0 || fd && g(x0).abs() > 1e6, "zero derivative on a line"),
            Err(E::DidNotConverge { iters: 100 }) => ensure!(f.0 != 0 && (f.0 != 4 || !bt || xtol < 30.0 * T::EPS || ftol < 30.0 * T::EPS || x0.is_finite() && g(x0).abs() > 1e6), "did not converge"),
            Err(e) => return Err(format!("error {e:?}")),
        }
        // where convergence is guaranteed
        let g0 = g(x0);
        let sure = match f.0 {
            0 => g0.is_finite() && (!fd || g0.abs() < 100.0),
            1 => g0.abs() >= 0.375 && g0.abs() < 100.0,
            2 => g0 >= 0.375 && g0 < 100.0,
            3 => g0 > -2.0 && g0 < 5.0 && !fd,
            4 => g0.abs() < 1.3 && !fd,
            9 => g0 > 0.01 && g0 < 0.45 && !fd,
            _ => false,
        };
        if sure && (xtol >= 30.0 * T::EPS && ftol >= 30.0 * T::EPS || k == 2) && !(fd && T::IS32) {
            let want = [2.0, 2f64.sqrt() * g0.signum(), 2.0, 3f64.ln(), 0.0, 0.0, 0.0, 0.0, 0.0, 0.25][f.0];
            let v = r.map_err(|e| format!("from {x0:?}: {e:?}"))?;
            ensure!((g(v.root) - want).abs() <= 2.0 * (xtol.max(ftol) + 30.0 * T::EPS) * (1.0 + want.abs()), "from {x0:?}: root {:?} expected {want}", v.root);
            return Ok(h64(&(f.0, v.iterations)));
        }
        Ok(r.is_ok() as u64)
    });
    // zero budget, and a start at the root
    ck.space(&format!("newton_budget_{}", T::NAME), 6 * 2 * 49, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let (m, bt) = (d.n(6), d.n(2) == 1);
        let x0 = t::<T>(d.n(49) as f64 * 0.25 - 6.0);
        let s = Newton::<AutoDiffSingle<T>>::default().with_max_iterations(m).with_backtracking(bt);
        for k in [0usize, 1, 3] {
            match s.solve(&Nf(k), x0) {
                Ok(v) => ensure!(v.iterations <= m.max(1) && g(v.residual).abs() <= 1e-3, "{v:?} in a budget of {m}"),
                Err(E::DidNotConverge { iters }) => ensure_eq!(iters, m, "reported budget"),
                Err(E::NonFinite) if k == 3 => {}
                Err(E::Linalg(LinalgError::Singular)) if k != 0 => {}
                e => return Err(format!("{e:?}")),
            }
        }
        if m >= 2 {
            let v = s.solve(&Nf(0), x0).map_err(|e| format!("line: {e:?}"))?;
            ensure_close!(g(v.root), 2.0, 40.0 * T::EPS, 0.0, "a line takes one step");
        }
        Ok(1)
    });
}

/// Systems.
#[derive(Clone, Copy, Debug)]
struct Sys<const N: usize> {
    kind: usize,
    a: [[f64; N]; N],
    root: [f64; N],
}
impl<const N: usize> VectorFn<N, N> for Sys<N> {
    fn eval<S: Numeric>(&self, x: &[S; N]) -> [S; N] {
        let y: [S; N] = std::array::from_fn(|i| x[i] - S::from_f64(self.root[i]));
        std::array::from_fn(|i| {
            let mut s = S::ZERO;
            for j in 0..N {
                s += S::from_f64(self.a[i][j]) * y[j];
            }
            match self.kind {
                0 => s,
                1 => s + y[i] * y[(i + 1) % N] * S::from_f64(0.25),
                2 => s.exp() - S::ONE,
                3 => s + y[i] * y[i] * y[i],
                4 => s.tanh(),
                _ => s.abs() + S::ONE,
            }
        })
    }
}
fn det(a: &[Vec<f64>]) -> f64 {
    mc::refmodel::rdet(&a.iter().map(|r| r.iter().map(|&x| mc::refmodel::Rat::f(x)).collect()).collect::<Vec<_>>()).to_f64()
}
fn systems<T: Fl, const N: usize>(ck: &Ck) {
    let al: &[f64] = if N == 1 { &[-2.0, 0.0, 0.5, 3.0] } else { &[-1.0, 0.0, 2.0] };
    let ents: u64 = (al.len() as u64).pow(if N == 3 { 5 } else { (N * N) as u32 });
    let n = ents * 6 * 4 * 2 * 2;
    systems_space::<T, N>(ck, "", n, move |d| {
        let mut a = [[0.0; N]; N];
        for r in 0..N {
            for c in 0..N {
                a[r][c] = if N == 3 && (r + c) % 2 == 1 { [0.5, -0.25, 0.0][(r * 2 + c) % 3] } else { d.pick(al) };
            }
        }
        a
    });
}
/// Larger systems: one entry and one row of a base changed.
fn systems_large<T: Fl, const N: usize>(ck: &Ck) {
    systems_space::<T, N>(ck, "wide_", wide_count(N, N) * 6 * 4 * 2 * 2, |d| {
        let a = wide(N, N, d.0);
        std::array::from_fn(|r| std::array::from_fn(|c| a[r][c]))
    });
}
fn systems_space<T: Fl, const N: usize>(ck: &Ck, name: &str, n: u64, dec: impl Fn(&mut Dig) -> [[f64; N]; N] + Sync + Copy) {
    ck.space(&format!("{name}systems{N}_{}", T::NAME), n, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let kind = d.n(6);
        let x0k = d.n(4);
        let (bt, fd) = (d.n(2) == 1, d.n(2) == 1);
        let a = dec(&mut d);
        let root = std::array::from_fn(|k| [1.0, -2.0, 0.5][k % 3]);
        let f = Sys::<N> { kind, a, root };
        let off = [0.0, 0.0625, -0.125, 0.25][x0k];
        let x0: [T; N] = std::array::from_fn(|k| t(root[k] + off * (k as f64 + 1.0) * if k == 1 { -1.0 } else { 1.0 }));
        let xt = 30.0 * T::EPS;
        let r = if fd {
            let dv = FiniteDifferenceMulti::<T>::from_parameters(t(if T::IS32 { 1e-2 } else { 1e-5 }), FiniteDifferenceMode::Central, t(1.0));
            NewtonSystem::from_derivator(dv).with_backtracking(bt).with_xtol(t(2.0 * xt)).with_ftol(t(2.0 * xt)).solve(&f, &x0)
        } else {
            NewtonSystem::<AutoDiffMulti<T>>::default().with_backtracking(bt).solve(&f, &x0)
        };
        let xt = if fd { 2.0 * xt } else { xt };
        let dt = det(&a.iter().map(|r| r.to_vec()).collect::<Vec<_>>());
        match r {
            Ok(v) => {
                let fx = f.eval(&v.root);
                let nn = fx.iter().map(|v| g(*v).powi(2)).sum::<f64>().sqrt();
                ensure_close!(g(v.residual_norm), nn, T::EPS * 8.0, 1e-40, "residual norm");
                match v.termination {
                    RootTermination::ResidualTolerance => ensure!(nn <= xt * 1.0001, "residual {nn}"),
                    RootTermination::StepTolerance => ensure!(bt || kind != 5, "a root of a system that has none: {v:?}"),
                    e => return Err(format!("termination {e:?}")),
                }
                if dt.abs() > 0.2 && kind != 5 && (kind == 0 || x0k < 2) && !(T::IS32 && fd) {
                    for k in 0..N {
                        ensure!((g(v.root[k]) - root[k]).abs() <= 1e3 * T::EPS * if kind == 0 { 1.0 } else { 4.0 } || kind != 0, "root {:?} expected {root:?}", v.root);
                    }
                }
            }
            Err(E::Linalg(LinalgError::Singular | LinalgError::IllConditioned)) => ensure!(dt.abs() < 1e-9 || kind != 0, "singular with determinant {dt}"),
            Err(E::NonFinite) => ensure!(kind == 2 || kind == 3 || kind == 1 && dt.abs() < 1e-9, "non-finite"),
            Err(E::DidNotConverge { iters: 100 }) => ensure!(kind != 0 || dt.abs() < 1e-9 || fd && T::IS32, "did not converge"),
            Err(e) => return Err(format!("error {e:?}")),
        }
        // a start at the root is recognised; a regular linear system is solved from anywhere
        if kind != 5 && x0k == 0 || kind == 0 && dt.abs() > 1e-9 && !(T::IS32 && fd) {
            let v = r.map_err(|e| format!("det {dt}: {e:?}"))?;
            for k in 0..N {
                ensure!((g(v.root[k]) - root[k]).abs() <= 4e2 * T::EPS / dt.abs().min(1.0).max(1e-2), "root {:?} expected {root:?}", v.root);
            }
            ensure!(v.iterations <= if fd { 8 } else { 4 }, "{} iterations for a linear system", v.iterations);
        }
        Ok(h64(&(kind, r.is_ok(), bt)))
    });
}
fn systems_bad<T: Fl, const N: usize>(ck: &Ck) {
    // non-finite start
    ck.space(&format!("systems_bad{N}_{}", T::NAME), (3 * N * 2) as u64, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let bad = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY][d.n(3)];
        let at = d.n(N);
        let bt = d.n(2) == 1;
        let a = std::array::from_fn(|r| std::array::from_fn(|c| if r == c { 2.0 } else { 0.5 }));
        let f = Sys::<N> { kind: 0, a, root: [0.0; N] };
        let mut x0 = [T::ONE; N];
        x0[at] = t(bad);
        verdict(NewtonSystem::<AutoDiffMulti<T>>::default().with_backtracking(bt).solve(&f, &x0), &[E::NonFinite], "non-finite start")?;
        verdict(NewtonSystem::<AutoDiffMulti<T>>::default().with_max_iterations(0).solve(&f, &[T::ONE; N]), &[E::DidNotConverge { iters: 0 }], "no budget")?;
        Ok(1)
    });
}

fn run<T: Fl>(ck: &Ck) {
    bracket_adversary::<T>(ck);
    known_roots::<T>(ck);
    newton_adversary::<T>(ck);
    system_adversary::<T>(ck);
    system_runaway::<T>(ck);
    newton_real::<T>(ck);
    systems::<T, 1>(ck);
    systems::<T, 2>(ck);
    systems::<T, 3>(ck);
    systems_large::<T, 4>(ck);
    systems_large::<T, 6>(ck);
    systems_bad::<T, 1>(ck);
    systems_bad::<T, 2>(ck);
    systems_bad::<T, 3>(ck);
    systems_bad::<T, 5>(ck);
}

fn main() {
    let ck = Ck::new("C12");
    ck.assume("adversary answers are drawn from a finite alphabet; after the enumerated depth the last answer repeats");
    run::<f64>(&ck);
    run::<f32>(&ck);
    ck.finish()
}
