//! C14: ODE integrators. Fixed-step RK4 against exact rational Taylor series and the classic tableau;
//! adaptive RK45 with every accepted step replayed by an independent Dormand-Prince tableau; dense output;
//! orientation stepping against double-precision quaternions.
use mc::num::*;
use mc::refmodel::*;
use mc::*;
use multicalc::error::IntegrateError as E;
use multicalc::linear_algebra::Vector;
use multicalc::ode::*;
use multicalc::spatial::{Quaternion, SO3};
use multicalc::Numeric;
use std::cell::RefCell;

const NK: usize = 12;
/// right-hand sides on three components, in any scalar
fn rhs<S: Numeric>(k: usize, time: S, y: &[S; 3]) -> [S; 3] {
    let c = |v: f64| S::from_f64(v);
    match k {
        0 => [-y[0] * c(2.0), y[1] * c(0.5), S::ZERO],
        1 => [y[1], -y[0], y[2] - y[0]],
        2 => [time.cos(), time * time, S::ONE],
        3 => [y[0] * (S::ONE - y[0]), y[1] * c(-0.5) + time, y[0] * y[1]],
        4 => [y[1], (S::ONE - y[0] * y[0]) * y[1] - y[0], c(0.25)],
        5 => [(y[0] - time.cos()) * c(-50.0), y[2], -y[1] * c(9.0)],
        6 => [S::ZERO, S::ZERO, S::ZERO],
        7 => [y[0] * y[0], S::ONE, -y[2]],
        8 => [time * time * time * c(4.0), time * time * c(3.0), time * c(2.0)],
        9 => [c(10.0) * (y[1] - y[0]), y[0] * (c(28.0) - y[2]) - y[1], y[0] * y[1] - y[2] * c(8.0 / 3.0)],
        10 => [y[1] * y[2], -y[0] * y[2], y[0] * y[1] * c(-0.5)],
        _ => [(y[0] * time).sin(), S::ONE / (S::ONE + y[1] * y[1]), y[2] * time * c(-1.0)],
    }
}
fn f<T: Fl>(k: usize) -> impl Fn(T, &Vector<3, T>) -> Vector<3, T> {
    move |time, y| Vector::new(rhs(k, time, y.as_array()))
}
fn add(y: [f64; 3], ks: &[[f64; 3]], c: &[f64], h: f64) -> [f64; 3] {
    std::array::from_fn(|i| y[i] + h * ks.iter().zip(c).map(|(k, c)| k[i] * c).sum::<f64>())
}
fn rk4(k: usize, time: f64, y: [f64; 3], h: f64) -> [f64; 3] {
    let a = rhs(k, time, &y);
    let b = rhs(k, time + h / 2.0, &add(y, &[a], &[0.5], h));
    let c = rhs(k, time + h / 2.0, &add(y, &[b], &[0.5], h));
    let d = rhs(k, time + h, &add(y, &[c], &[1.0], h));
    add(y, &[a, b, c, d], &[1.0 / 6.0, 1.0 / 3.0, 1.0 / 3.0, 1.0 / 6.0], h)
}
const DA: [&[f64]; 7] = [
    &[],
    &[1.0 / 5.0],
    &[3.0 / 40.0, 9.0 / 40.0],
    &[44.0 / 45.0, -56.0 / 15.0, 32.0 / 9.0],
    &[19372.0 / 6561.0, -25360.0 / 2187.0, 64448.0 / 6561.0, -212.0 / 729.0],
    &[9017.0 / 3168.0, -355.0 / 33.0, 46732.0 / 5247.0, 49.0 / 176.0, -5103.0 / 18656.0],
    &[35.0 / 384.0, 0.0, 500.0 / 1113.0, 125.0 / 192.0, -2187.0 / 6784.0, 11.0 / 84.0],
];
const DC: [f64; 7] = [0.0, 0.2, 0.3, 0.8, 8.0 / 9.0, 1.0, 1.0];
const DB4: [f64; 7] = [5179.0 / 57600.0, 0.0, 7571.0 / 16695.0, 393.0 / 640.0, -92097.0 / 339200.0, 187.0 / 2100.0, 1.0 / 40.0];
/// fifth-order state and its distance to the embedded fourth-order one
fn dopri(k: usize, time: f64, y: [f64; 3], h: f64) -> ([f64; 3], [f64; 3]) {
    let mut ks: Vec<[f64; 3]> = vec![];
    let mut y5 = y;
    for s in 0..7 {
        y5 = add(y, &ks, DA[s], h);
        ks.push(rhs(k, time + DC[s] * h, &y5));
    }
    let y4 = add(y, &ks, &DB4, h);
    (y5, std::array::from_fn(|i| y5[i] - y4[i]))
}

const Y0: [[f64; 3]; 7] = [[1.0, 0.5, -1.0], [0.25, -2.0, 3.0], [0.0, 0.0, 0.0], [2.0, 1.0, 0.125], [-1.0, 1.0, 10.0], [1e-6, 20.0, -1e-3], [0.5, 0.5, 0.5]];

fn fixed<T: Fl>(ck: &Ck) {
    // linear systems: one step is the Taylor polynomial of degree four, exactly
    let al = [-2.0, 0.0, 1.0, 0.5];
    ck.space(&format!("rk4_taylor_{}", T::NAME), 4u64.pow(4) * 4 * 4 * 3, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let a: [[f64; 2]; 2] = std::array::from_fn(|_| std::array::from_fn(|_| d.pick(&al)));
        let y = [d.pick(&[1.0, 0.0, -3.0, 0.25]), d.pick(&[0.0, 2.0, -1.0, 8.0])];
        let h = d.pick(&[0.5, -0.25, 2.0]);
        let fun = |_t: T, y: &Vector<2, T>| Vector::new(std::array::from_fn(|r| t::<T>(a[r][0]) * y[0] + t::<T>(a[r][1]) * y[1]));
        let got = Rk4::step(&fun, t(1.0), &Vector::new(ta(y)), t(h));
        let mut want = y.map(Rat::f);
        let mut term = want;
        let mut mag = y.map(f64::abs);
        for n in 1..=4 {
            let fac = Rat::f(h) * Rat::new(1, n);
            term = std::array::from_fn(|r| (Rat::f(a[r][0]) * term[0] + Rat::f(a[r][1]) * term[1]) * fac);
            for r in 0..2 {
                want[r] = want[r] + term[r];
                mag[r] += term[r].abs().to_f64() * 4.0;
            }
        }
        for r in 0..2 {
            ensure_close!(g(got[r]), want[r].to_f64(), 0.0, T::EPS * 16.0 * (mag[0] + mag[1]), "y{r}");
        }
        Ok(hf(&[g(got[0]), g(got[1])]))
    });
    ck.space(&format!("rk4_{}", T::NAME), (NK * 7 * 5 * 4 * 6) as u64, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let k = d.n(NK);
        let y0 = d.pick(&Y0);
        let h = d.pick(&[0.125, 0.03125, -0.0625, 0.0, 0.25]);
        let t0 = d.pick(&[0.0, 1.0, -2.5, 100.0]);
        let steps = d.pick(&[0usize, 1, 2, 7, 16, 33]);
        let seen = RefCell::new(vec![]);
        let end = Rk4::integrate(&f::<T>(k), t(t0), &Vector::new(ta(y0)), t(h), steps, |time, y| seen.borrow_mut().push((g(time), ga(*y.as_array()))));
        let seen = seen.into_inner();
        ensure_eq!(seen.len(), steps + 1, "nodes observed");
        let (mut time, mut y) = (t0, y0);
        for (j, (ts, ys)) in seen.iter().enumerate() {
            if j > 0 {
                // each step from the state the library itself had
                y = rk4(k, time, y, h);
                time += h;
            }
            ensure_close!(*ts, time, T::EPS * 4.0, T::EPS * 4.0, "time of node {j}");
            for c in 0..3 {
                if !y[c].is_finite() || y[c].abs() > 1e15 {
                    return Ok(1);
                }
                let m = y.iter().fold(1.0f64, |m, v| m.max(v.abs()));
                ensure_close!(ys[c], y[c], T::EPS * 200.0, T::EPS * 200.0 * (m + m * m) * (1.0 + (h * t0 * t0).abs()) , "y{c} at node {j}");
            }
            (time, y) = (*ts, *ys);
        }
        ensure_eq!(ga(*end.as_array()), seen[steps].1, "the final state is the last node");
        Ok(hf(&seen[steps].1))
    });
}

#[derive(Clone, Copy)]
struct Cfg {
    rtol: f64,
    atol: f64,
    first: f64,
    min: f64,
    max: f64,
}
/// Every tolerance with every first step and every pair of step limits.
const NCFG: usize = 5 * 4 * 4;
fn cfg(i: usize) -> Cfg {
    let mut d = Dig(i as u64);
    let (rtol, atol) = d.pick(&[(1e-6, 1e-9), (1e-3, 1e-3), (1e-4, 1e-5), (0.0, 1e-4), (1e-2, 1e-6)]);
    let first = d.pick(&[0.0, 1e-4, 0.5, 10.0]);
    let (min, max) = d.pick(&[(0.0, f64::INFINITY), (0.0, 0.0625), (1e-6, 0.3), (0.05, 2.0)]);
    Cfg { rtol, atol, first, min, max }
}
fn build<T: Fl>(c: &Cfg) -> Rk45<T> {
    Rk45::default().with_rtol(t(c.rtol)).with_atol(t(c.atol)).with_first_step(t(c.first)).with_min_step(t(c.min)).with_max_step(t(c.max)).with_max_steps(3000)
}
type St = (f64, f64, [f64; 3], [f64; 3], [f64; 3], [f64; 3]);

fn adaptive<T: Fl>(ck: &Ck) {
    let spans: [(f64, f64); 10] = [(0.0, 1.0), (0.0, 3.0), (2.0, 0.5), (-1.0, 1.0), (0.0, 1e-3), (100.0, 101.0), (0.0, -2.0), (0.1, 0.7), (1.0 / 3.0, 2.2), (0.0, 10.0)];
    ck.space(&format!("rk45_{}", T::NAME), (NK * 7 * NCFG * 10) as u64, |i| {
        let mut d = Dig(i);
        format!("rhs {} y0 {:?} cfg {} span {:?}", d.n(NK), d.pick(&Y0), d.n(NCFG), d.pick(&spans))
    }, |i| {
        let mut d = Dig(i);
        let k = d.n(NK);
        let y0: [f64; 3] = ga(ta::<T, 3>(d.pick(&Y0)));
        let c = &cfg(d.n(NCFG));
        let sp = d.pick(&spans);
        let (a, b) = (g(t::<T>(sp.0)), g(t::<T>(sp.1)));
        let ode = build::<T>(c);
        let st: RefCell<Vec<St>> = RefCell::new(vec![]);
        let mut raw: Vec<Step<3, T>> = vec![];
        let r = ode.for_each_step(&f::<T>(k), t(a), &Vector::new(ta(y0)), t(b), |s| {
            raw.push(*s);
            let v = |x: &Vector<3, T>| ga(*x.as_array());
            st.borrow_mut().push((g(s.time_start), g(s.time_end), v(&s.state_start), v(&s.state_end), v(&s.derivative_start), v(&s.derivative_end)))
        });
        let st = st.into_inner();
        let dir = (b - a).signum();
        let slop = 4.0 * T::EPS * (1.0 + b.abs().max(a.abs()));
        let (mut time, mut y) = (a, y0);
        for (j, s) in st.iter().enumerate() {
            ensure!(s.0 == time && s.2 == y, "step {j} starts at {} {:?}, the previous one ended at {time} {y:?}", s.0, s.2);
            let h = s.1 - s.0;
            if h == 0.0 && (k == 7 || k == 3) {
                // at a blow-up the compensated clock takes steps below its own resolution
                return Ok(4);
            }
            ensure!(h * dir > 0.0 || h == 0.0 && T::IS32, "step {j} of size {h} goes the wrong way");
            ensure!((s.1 - b) * dir <= slop, "step {j} to {} overshoots {b}", s.1);
            ensure!(h.abs() <= c.max * (1.0 + 1e-6) + slop, "step {j} of size {h}, maximum {}", c.max);
            if j == 0 && c.first > 0.0 {
                let ask = c.first.min(c.max).min((b - a).abs());
                ensure!(h.abs() <= ask + slop, "first step {h}");
                let er = dopri(k, a, y0, ask * dir).1;
                if (0..3).all(|q| er[q].abs() < 0.3 * (c.atol + c.rtol * y0[q].abs().min(s.3[q].abs())) - T::EPS * 400.0) {
                    ensure!(h.abs() >= ask * (1.0 - 1e-6) - slop, "first step {h}, {ask} was asked for and is accurate enough");
                }
            }
            if c.min > 0.0 && (s.1 - b).abs() > slop && j > 0 {
                ensure!(h.abs() >= c.min * (1.0 - 1e-6) - slop, "step {j} of size {h}, minimum {}", c.min);
            }
            // the derivative is the right-hand side at both ends
            let (ds, de) = (rhs(k, s.0, &s.2), rhs(k, s.1, &s.3));
            let m = s.2.iter().chain(&s.3).fold(1.0f64, |m, v| m.max(v.abs()));
            if m > 1e6 || (k == 3 || k == 7) && m > 1e3 {
                return Ok(3);
            }
            let dm = ds.iter().chain(&de).fold(1.0f64, |m, v| m.max(v.abs()));
            let dt = T::EPS * 200.0 * (dm + m * m * 50.0) * (1.0 + s.1.abs().max(s.0.abs())) * (1.0 + s.1.abs());
            for q in 0..3 {
                ensure_close!(s.4[q], ds[q], 0.0, dt, "step {j}: derivative {q} at the start");
                ensure_close!(s.5[q], de[q], 0.0, dt, "step {j}: derivative {q} at the end");
            }
            // replay
            let (y5, er) = dopri(k, s.0, s.2, h);
            let mut e2 = 0.0;
            let lip = T::EPS * 400.0 * (m + dm * h.abs() + m * m * h.abs() * 50.0) * (1.0 + s.1.abs()) + dm * slop;
            for q in 0..3 {
                ensure_close!(s.3[q], y5[q], 0.0, lip, "step {j} from {} of {h}: state {q}", s.0);
                let sc = c.atol + c.rtol * s.2[q].abs().max(s.3[q].abs());
                e2 += ((er[q].abs() - lip).max(0.0) / sc).powi(2);
            }
            ensure!((e2 / 3.0).sqrt() <= 1.0 + 1e-3, "step {j} of {h} accepted with error {}", (e2 / 3.0).sqrt());
            (time, y) = (s.1, s.3);
        }
        match r {
            Ok(v) => {
                ensure!((time - b).abs() <= slop, "finished at {time}, not {b}");
                ensure_eq!(ga(*v.as_array()), y, "the result is the end of the last step");
                let s = ode.solve(&f::<T>(k), t(a), &Vector::new(ta(y0)), t(b)).map_err(|e| format!("{e:?}"))?;
                ensure_eq!(ga(*s.as_array()), y, "solve agrees with for_each_step");
            }
            Err(E::NonFinite) => ensure!([3, 4, 7, 9, 10].contains(&k), "NonFinite"),
            Err(E::StepSizeTooSmall) => ensure!(c.min > 0.0, "StepSizeTooSmall without a minimum"),
            Err(E::DidNotConverge { steps }) => ensure!(steps == 3000 && (k == 3 || k == 7 || k == 5 || k == 9 || T::IS32 && c.rtol < 1e-5), "DidNotConverge after {steps}"),
            Err(e) => return Err(format!("error {e:?}")),
        }
        // dense output: exact at the ends, and the cubic through both states and slopes
        for s in raw.iter().take(6) {
            let h = g(s.time_end) - g(s.time_start);
            if h == 0.0 {
                let v = ga(*s.interpolate(s.time_start).as_array());
                ensure!(v == ga(*s.state_start.as_array()) || v == ga(*s.state_end.as_array()), "interpolation within a step of no length: {v:?}");
                continue;
            }
            ensure_eq!(s.interpolate(s.time_start), s.state_start, "interpolation at the start");
            ensure_eq!(s.interpolate(s.time_end), s.state_end, "interpolation at the end");
            for u in [0.25, 0.5, 0.875] {
                let time = t::<T>(g(s.time_start) + u * h);
                let u = (g(time) - g(s.time_start)) / h;
                let v = s.interpolate(time);
                for q in 0..3 {
                    let (p0, p3) = (g(s.state_start[q]), g(s.state_end[q]));
                    let (d0, d1) = (g(s.derivative_start[q]), g(s.derivative_end[q]));
                    let (p1, p2) = (p0 + d0 * h / 3.0, p3 - d1 * h / 3.0);
                    let w = 1.0 - u;
                    let want = w * w * w * p0 + 3.0 * w * w * u * p1 + 3.0 * w * u * u * p2 + u * u * u * p3;
                    ensure_close!(g(v[q]), want, 0.0, T::EPS * 40.0 * (p0.abs() + p3.abs() + (d0.abs() + d1.abs()) * h.abs()) + T::EPS * 1e-6, "interpolation at fraction {u}");
                }
            }
        }
        // the same run sampled on grids
        if r.is_ok() {
            for gk in 0..5 {
                let grid: Vec<T> = match gk {
                    0 => (0..=10).map(|j| t(a + (b - a) * j as f64 / 10.0)).collect(),
                    1 => (1..=7).map(|j| t(a + (b - a) * j as f64 / 7.0)).collect(),
                    2 => vec![t(b)],
                    3 => vec![t(a), t(a), t(a + (b - a) * 0.3), t(a + (b - a) * 0.3), t(b), t(b)],
                    _ => raw.iter().map(|s| s.time_start).chain([t(b)]).collect(),
                };
                let mut grid = grid;
                *grid.last_mut().unwrap() = t(b);
                let mut out = vec![Vector::new([T::NAN; 3]); grid.len()];
                let ok = ode.solve_on_grid(&f::<T>(k), t(a), &Vector::new(ta(y0)), &grid, &mut out);
                ensure!(ok.is_ok(), "grid {gk} {grid:?}: {ok:?}");
                for (tq, o) in grid.iter().zip(&out) {
                    let s = raw.iter().find(|s| (g(*tq) - g(s.time_start)) * dir >= 0.0 && (g(*tq) - g(s.time_end)) * dir <= 0.0).or(raw.last()).unwrap();
                    let want = if (g(*tq) - g(s.time_end)) * dir > 0.0 { s.state_end } else { s.interpolate(*tq) };
                    for q in 0..3 {
                        ensure_close!(g(o[q]), g(want[q]), T::EPS * 64.0, T::EPS * 64.0 * (1.0 + g(s.derivative_end[q]).abs()), "grid {gk} at {tq:?}");
                    }
                }
            }
        }
        Ok(h64(&(k, st.len())))
    });
    // the same problem in another unit of time and of the states: every step is the same, scaled
    let us: [(i32, i32); 8] = if T::IS32 { [(-40, 0), (-24, 20), (-60, -30), (30, 0), (0, -40), (0, 40), (50, 30), (-80, 10)] } else { [(-60, 0), (-200, 100), (-40, -300), (300, 0), (0, -300), (0, 300), (80, -80), (-300, 20)] };
    ck.space(&format!("rk45_units_{}", T::NAME), 12 * 5 * 8 * 7 * 8, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let k = d.n(NK);
        let y0 = d.pick(&Y0[..5]);
        let (a, b) = d.pick(&[(0.0, 1.0), (2.0, 0.5), (-1.0, 1.0), (0.0, 1e-3), (0.0, -2.0), (0.125, 0.75), (-0.5, 0.0), (0.0, 3.0)]);
        let (rtol, atol, first, min, max) = d.pick(&[(1e-3, 1e-3, 1e-4, 0.0, f64::INFINITY), (1e-4, 1e-5, 0.5, 0.0, 0.0625), (0.0, 1e-3, 0.01, 0.05, 2.0), (1e-2, 1e-4, 10.0, 1e-6, 0.25), (1e-3, 1e-4, 0.002, 0.01, 0.25), (1e-2, 1e-2, 1e-6, 0.0, 1.0), (1e-4, 1e-3, 0.125, 0.0, f64::INFINITY)]);
        let (p, q) = d.pick(&us);
        let run = |u: f64, w: f64| {
            let ode = Rk45::<T>::default().with_rtol(t(rtol)).with_atol(t::<T>(atol) * t(w)).with_first_step(t::<T>(first) * t(u)).with_min_step(t::<T>(min) * t(u)).with_max_step(t::<T>(max) * t(u)).with_max_steps(400);
            let (u, w) = (t::<T>(u), t::<T>(w));
            let far = RefCell::new(0.0f64);
            let (lo, hi) = (g(t::<T>(a.min(b))), g(t::<T>(a.max(b))));
            let fun = |x: T, y: &Vector<3, T>| {
                let x = x / u;
                let mut far = far.borrow_mut();
                *far = far.max(lo - g(x)).max(g(x) - hi);
                f::<T>(k)(x, &y.scale(T::ONE / w)).scale(w).scale(T::ONE / u)
            };
            let mut st = vec![];
            let r = ode.for_each_step(&fun, t::<T>(a) * u, &Vector::<3, T>::new(ta(y0)).scale(w), t::<T>(b) * u, |s| {
                st.push((g(s.time_start / u), g(s.time_end / u), ga::<T, 3>(*s.state_end.scale(T::ONE / w).as_array()), ga::<T, 3>(*s.interpolate(s.time_start + (s.time_end - s.time_start) * t(0.25)).scale(T::ONE / w).as_array())))
            });
            let far = *far.borrow();
            (r.map(|y| ga::<T, 3>(*y.scale(T::ONE / w).as_array())), st, far)
        };
        let (plain, other) = (run(1.0, 1.0), run(2f64.powi(p), 2f64.powi(q)));
        if plain.1.iter().any(|s| s.2.iter().any(|v| v.abs() > 1e4)) || plain.0 == Err(E::NonFinite) {
            // nothing is promised of a blow-up, which leaves the range sooner in one unit than another
            return Ok(3);
        }
        ensure!(plain.2 <= 4.0 * T::EPS * 3.0 && other.2 <= 4.0 * T::EPS * 3.0, "the right-hand side was asked {} and {} outside the span", plain.2, other.2);
        ensure_eq!(other.1.len(), plain.1.len(), "steps");
        for (j, (o, s)) in other.1.iter().zip(&plain.1).enumerate() {
            ensure!(format!("{o:?}").replace("-0.0", "0.0") == format!("{s:?}").replace("-0.0", "0.0"), "step {j}: {o:?}, in the plain units {s:?}");
        }
        ensure_eq!(format!("{:?}", other.0), format!("{:?}", plain.0), "outcome");
        Ok(h64(&(k, plain.1.len())))
    });
    // a right-hand side that is only defined on the span itself
    ck.space(&format!("rk45_edge_{}", T::NAME), 6 * 7 * 4, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let len = 10f64.powi(-2 * d.n(6) as i32 - 1);
        let (a, b) = d.pick(&[(0.0, 1.0), (-1.0, 0.0), (1.0, 0.0), (0.0, -1.0), (0.5, 1.0), (-1.0, 1.0), (1.0, -1.0)]);
        let (a, b) = (t::<T>(a * len), t::<T>(b * len));
        let y0 = d.pick(&[0.0, 1.0, -1e-30, 1e6]);
        let (lo, hi) = (a.min(b), a.max(b));
        let out = RefCell::new(T::ZERO);
        let fun = |x: T, _: &Vector<1, T>| {
            let past = (lo - x).max(x - hi);
            let mut o = out.borrow_mut();
            *o = o.max(past);
            Vector::new([T::ONE])
        };
        let r = Rk45::<T>::default().solve(&fun, a, &Vector::new([t(y0)]), b).map_err(|e| format!("{e:?}"))?;
        ensure!(g(*out.borrow()) <= 4.0 * T::EPS * len, "the right-hand side was asked {:?} outside the span {a:?} to {b:?}", out.borrow());
        let want = g(t::<T>(y0)) + g(b) - g(a);
        ensure_close!(g(r[0]), want, T::EPS * 32.0, T::EPS * 64.0 * len, "the span travelled at unit rate from {y0}");
        Ok(hf(&[g(r[0])]))
    });
    // known closed forms: the global error is of the size of the tolerance
    ck.space(&format!("rk45_accuracy_{}", T::NAME), 5 * 5 * 6, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let k = d.n(5);
        let tol = d.pick(&[1e-2, 1e-3, 1e-4, 1e-6, 1e-8]);
        let b = d.pick(&[0.5, 1.0, 3.0, -1.0, 6.0, 0.01]);
        if T::IS32 && tol < 1e-4 {
            return Ok(0);
        }
        let r = Rk45::<T>::default().with_rtol(t(tol)).with_atol(t(tol)).solve(&f::<T>([0, 1, 2, 8, 6][k]), T::ZERO, &Vector::new(ta([1.0, 0.5, -1.0])), t(b)).map_err(|e| format!("{e:?}"))?;
        let b = g(t::<T>(b));
        let want = match k {
            0 => [(-2.0 * b).exp(), 0.5 * (0.5 * b).exp(), -1.0],
            1 => [b.cos() + 0.5 * b.sin(), 0.5 * b.cos() - b.sin(), f64::NAN],
            2 => [1.0 + b.sin(), 0.5 + b.powi(3) / 3.0, -1.0 + b],
            3 => [1.0 + b.powi(4), 0.5 + b.powi(3), -1.0 + b * b],
            _ => [1.0, 0.5, -1.0],
        };
        for q in 0..3 {
            if want[q].is_nan() {
                continue;
            }
            ensure_close!(g(r[q]), want[q], 0.0, 20.0 * tol * (1.0 + want[q].abs()) * (1.0 + b.abs()) + 1e3 * T::EPS * (1.0 + want[q].abs()), "rhs {k} tol {tol} to {b}: y{q}");
        }
        Ok(hf(&[g(r[0])]))
    });
    // bad spans, grids and values
    let bad = SPECIAL;
    ck.space(&format!("rk45_bad_{}", T::NAME), 14 * 14, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let (a, b) = (t::<T>(d.pick(&bad)), t::<T>(d.pick(&bad)));
        let al: &[E] = if !a.is_finite() || !b.is_finite() || a == b { &[E::LimitsIllDefined] } else { &[] };
        let ode = Rk45::<T>::default().with_max_steps(2000);
        let y = Vector::new([T::ONE; 3]);
        let r = ode.solve(&f::<T>(6), a, &y, b);
        if al.is_empty() && matches!(r, Err(E::DidNotConverge { .. })) && (g(a) - g(b)).abs() > 1e20 {
            return Ok(2);
        }
        if let Some(v) = verdict(r, al, &format!("{a:?}..{b:?}"))? {
            ensure_eq!(v, y, "a constant solution");
        }
        let nf = |_: T, _: &Vector<3, T>| Vector::new([T::NAN; 3]);
        verdict(ode.solve(&nf, a, &y, b).map(|_| ()), if al.is_empty() { &[E::NonFinite] } else { al }, "non-finite right-hand side")?;
        verdict(ode.solve(&f::<T>(6), a, &Vector::new([T::INFINITY; 3]), b).map(|_| ()), if al.is_empty() { &[E::NonFinite] } else { al }, "non-finite state")?;
        let late = |x: T, _: &Vector<3, T>| if g(x) > 0.3 { Vector::new([T::INFINITY; 3]) } else { Vector::new([T::ONE; 3]) };
        verdict(ode.solve(&late, T::ZERO, &y, T::ONE).map(|_| ()), &[E::NonFinite], "late non-finite")?;
        verdict(ode.with_max_steps(0).solve(&f::<T>(6), T::ZERO, &y, T::ONE).map(|_| ()), &[E::DidNotConverge { steps: 0 }], "no steps")?;
        Ok(al.len() as u64)
    });
    const GT: [f64; 6] = [0.0, 0.25, 0.5, 1.0, f64::NAN, -0.5];
    ck.space(&format!("grids_{}", T::NAME), 6 * 6 * 6 * 2 * 3 * 2, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let back = d.n(2) == 1;
        let ts: [f64; 3] = std::array::from_fn(|_| d.pick(&GT));
        let extra = d.n(3);
        let cfg = d.n(2);
        let s = if back { -1.0 } else { 1.0 };
        let grid: Vec<T> = ts.iter().map(|x| t(s * x)).collect();
        let ode = Rk45::<T>::default().with_max_step(t(if cfg == 0 { f64::INFINITY } else { 0.125 }));
        let y = Vector::new([T::ONE, T::HALF, -T::ONE]);
        let mut out = vec![Vector::new([T::NAN; 3]); 3 + [0, 1, 2][extra] - if extra == 2 { 3 } else { 0 }];
        let r = ode.solve_on_grid(&f::<T>(0), T::ZERO, &y, &grid, &mut out);
        // the last time sets the direction; none may lie behind the start or the one before it
        let dir = if ts[2] > 0.0 { 1.0 } else { -1.0 };
        let sorted = ts[2] != 0.0 && ts.iter().all(|x| x * dir >= 0.0) && ts.windows(2).all(|w| (w[1] - w[0]) * dir >= 0.0);
        let al: &[E] = if out.len() != 3 || !sorted { &[E::LimitsIllDefined] } else { &[] };
        if verdict(r, al, &format!("grid {ts:?}"))?.is_some() {
            for (x, o) in ts.iter().zip(&out) {
                ensure_close!(g(o[0]), (-2.0 * s * x).exp(), if T::IS32 { 2e-5 } else { 2e-5 }, 0.0, "grid {ts:?} at {x}");
                ensure_close!(g(o[1]), 0.5 * (0.5 * s * x).exp(), if T::IS32 { 2e-5 } else { 2e-5 }, 0.0, "grid {ts:?} at {x}");
            }
        }
        verdict(ode.solve_on_grid(&f::<T>(0), T::ZERO, &y, &[], &mut []), &[], "empty grid")?;
        Ok(al.len() as u64)
    });
}

fn attitude<T: Fl>(ck: &Ck) {
    let ws: Vec<V3> = vec![[0.0, 0.0, 0.0], [1.0, 0.0, 0.0], [0.0, -2.0, 0.0], [0.3, 0.4, -1.2], [1e-7, 2e-7, 0.0], [10.0, -20.0, 5.0], [0.0, 0.0, 3.14159]];
    let qs: Vec<Q> = vec![[1.0, 0.0, 0.0, 0.0], qnormed([0.5, 0.5, -0.5, 0.5]), qnormed([0.1, -0.7, 0.2, 0.3]), [0.0, 0.0, 1.0, 0.0], qnormed([-0.9, 0.1, 0.0, 0.3])];
    let n = (7 * 7 * 5 * 5) as u64;
    let so = |q: Q| SO3::<T>::from_quaternion(Quaternion::from_array(ta(q)));
    let qa = |s: SO3<T>| -> Q { ga(s.quaternion().as_array()) };
    ck.space(&format!("attitude_step_{}", T::NAME), n, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let (w, al) = (d.pick(&ws), d.pick(&ws));
        let q = d.pick(&qs);
        let h = d.pick(&[0.01, 0.5, -0.25, 0.0, 1.0]);
        let a = qa(ExponentialMap::attitude_step(so(q), Vector::new(ta(w)), t(h)));
        let m = 1.0 + norm3(w) * h.abs();
        ensure!(qdist(a, qmul(q, qexp(sc3(w, h)))) <= T::EPS * 16.0 * m, "attitude_step {w:?} for {h} from {q:?}: {a:?}");
        ensure_close!(a.iter().map(|x| x * x).sum::<f64>(), 1.0, T::EPS * 8.0, 0.0, "unit length");
        let b = qa(ExponentialMap::attitude_step_with_angular_acceleration(so(q), Vector::new(ta(w)), Vector::new(ta(al)), t(h)));
        let wm = add3(w, sc3(al, h / 2.0));
        ensure!(qdist(b, qmul(q, qexp(sc3(wm, h)))) <= T::EPS * 16.0 * (m + norm3(al) * h * h), "with acceleration {w:?} {al:?} for {h}: {b:?}");
        Ok(hf(&a) ^ hf(&b))
    });
    ck.space(&format!("attitude_integrate_{}", T::NAME), 7 * 7 * 5 * 5 * 4, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let (w, al) = (d.pick(&ws), d.pick(&ws));
        let q = d.pick(&qs);
        let h = d.pick(&[0.125, 0.01, 0.0, -0.5, f64::NAN]);
        let steps = d.pick(&[0usize, 1, 3, 20]);
        let t0 = 0.5;
        // the rate depends on time and on the orientation
        let rate = |time: f64, o: Q| add3(add3(w, sc3(al, time)), sc3(qrot(qconj(o), [0.0, 0.0, 1.0]), 0.5));
        let fun = |time: T, o: SO3<T>| Vector::new(ta(rate(g(time), qnormed(qa(o)))));
        let seen = RefCell::new(vec![]);
        let r = ExponentialMap::integrate_attitude(&fun, t(t0), so(q), t(h), steps, |time, o| seen.borrow_mut().push((g(time), qa(o))));
        let al: &[E] = if !h.is_finite() { &[E::NonFinite] } else if h <= 0.0 { &[E::NonPositiveTimestep] } else { &[] };
        let Some(end) = verdict(r, al, "integrate_attitude")? else { return Ok(0) };
        let seen = seen.into_inner();
        ensure_eq!(seen.len(), steps + 1, "nodes");
        ensure!(qdist(seen[0].1, q) <= 8.0 * T::EPS && seen[0].0 == t0, "the first node is the start");
        for j in 0..steps {
            let (time, o) = seen[j];
            let r1 = rate(time, qnormed(o));
            let half = qmul(o, qexp(sc3(r1, h / 2.0)));
            let r2 = rate(time + h / 2.0, qnormed(half));
            let want = qmul(o, qexp(sc3(r2, h)));
            ensure!(qdist(seen[j + 1].1, want) <= T::EPS * 400.0 * (1.0 + norm3(r2) * h) * (1.0 + norm3(r1) * h), "node {}: {:?} expected {want:?}", j + 1, seen[j + 1].1);
            ensure_close!(seen[j + 1].0, time + h, T::EPS * 4.0, 0.0, "time of node {}", j + 1);
        }
        ensure_eq!(qa(end), seen[steps].1, "the result is the last node");
        // a rate that turns non-finite, at the start or half way
        let cnt = std::cell::Cell::new(0);
        for stop in 0..(2 * steps).min(4) {
            cnt.set(0);
            let fun = |_: T, _: SO3<T>| { cnt.set(cnt.get() + 1); if cnt.get() > stop { Vector::new([T::ZERO, T::NAN, T::ZERO]) } else { Vector::new([T::ONE; 3]) } };
            verdict(ExponentialMap::integrate_attitude(&fun, t(t0), so(q), t(h), steps, |_, _| {}).map(|_| ()), &[E::NonFinite], "non-finite rate")?;
        }
        Ok(hf(&seen[steps].1))
    });
}

fn run<T: Fl>(ck: &Ck) {
    fixed::<T>(ck);
    adaptive::<T>(ck);
    attitude::<T>(ck);
}
fn main() {
    let ck = Ck::new("C14");
    ck.assume("steps of nonlinear systems are replayed in double precision within a rounding allowance");
    run::<f64>(&ck);
    run::<f32>(&ck);
    ck.finish()
}
