//! C05: quadrature tables, Gaussian and composite integration over finite and infinite ranges.
use mc::num::*;
use mc::*;
use multicalc::error::IntegrateError as E;
use multicalc::gaussian_tables::{MAX_ORDER, nodes};
use multicalc::numerical_integration::*;

const FAM: [GaussianQuadratureMethod; 3] = [GaussianQuadratureMethod::GaussLegendre, GaussianQuadratureMethod::GaussHermite, GaussianQuadratureMethod::GaussLaguerre];
const RULES: [IterativeMethod; 3] = [IterativeMethod::Booles, IterativeMethod::Simpsons, IterativeMethod::Trapezoidal];
/// highest degree each composite rule integrates exactly
const DEG: [i32; 3] = [5, 3, 1];

fn moment(fam: usize, k: i32) -> f64 {
    match fam {
        0 => if k % 2 == 1 { 0.0 } else { 2.0 / (k as f64 + 1.0) },
        1 => {
            if k % 2 == 1 {
                return 0.0;
            }
            let mut m = std::f64::consts::PI.sqrt();
            for j in 1..=k / 2 {
                m *= j as f64 - 0.5;
            }
            m
        }
        _ => (1..=k).map(|j| j as f64).product(),
    }
}
fn pw(x: f64, k: i32) -> f64 {
    x.powi(k)
}

fn tables(ck: &Ck) {
    ck.space("tables", 3 * 34 * 62, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let fam = d.n(3);
        let order = [0usize, 31, 32, 1000].get(d.n(34).wrapping_sub(30)).copied().unwrap_or_else(|| (i as usize / 3) % 34 + 1);
        let order = if (i as usize / 3) % 34 >= 30 { order } else { (i as usize / 3) % 34 + 1 };
        let k = d.n(62) as i32;
        let al: &[E] = if order == 0 || order > 30 { &[E::QuadratureOrderOutOfRange] } else { &[] };
        ensure_eq!(MAX_ORDER, 30, "highest order");
        let what = format!("{:?} order {order}", FAM[fam]);
        let Some(tb) = verdict(nodes(FAM[fam], order), al, &what)? else { return Ok(order as u64) };
        ensure_eq!(tb.len(), order, "{what}: number of nodes");
        for (a, (w, x)) in tb.iter().enumerate() {
            ensure!(*w > 0.0 && w.is_finite(), "{what}: weight {w}");
            ensure!(match fam { 0 => x.abs() < 1.0, 1 => x.is_finite(), _ => *x > 0.0 }, "{what}: node {x} outside the domain");
            for (_, y) in &tb[..a] {
                ensure!((x - y).abs() > 1e-6, "{what}: repeated node {x}");
            }
        }
        if k <= 2 * order as i32 - 1 {
            let s: f64 = tb.iter().map(|(w, x)| w * pw(*x, k)).sum();
            let m: f64 = tb.iter().map(|(w, x)| (w * pw(*x, k)).abs()).sum();
            ensure_close!(s, moment(fam, k), 0.0, m * 3e-13, "{what}: moment {k}");
            return Ok(hf(&[s]));
        }
        Ok(1)
    });
}

const LIM: [(f64, f64); 22] = [
    (0.0, 1.0), (-1.0, 1.0), (-2.0, 3.0), (0.5, 0.75), (-3.0, -1.0), (0.0, 1e-3), (10.0, 12.0),
    (0.0, f64::INFINITY), (f64::NEG_INFINITY, f64::INFINITY), (f64::NEG_INFINITY, 0.0), (1.0, f64::INFINITY), (f64::NEG_INFINITY, -2.0), (-1.0, f64::INFINITY),
    (1.0, 1.0), (2.0, 1.0), (f64::NAN, 1.0), (0.0, f64::NAN), (f64::INFINITY, f64::NEG_INFINITY), (f64::INFINITY, 0.0), (0.0, f64::NEG_INFINITY), (f64::INFINITY, f64::INFINITY), (f64::NEG_INFINITY, f64::NEG_INFINITY),
];
fn ill(a: f64, b: f64) -> bool {
    !(a < b)
}
fn dom_ok(fam: usize, a: f64, b: f64) -> bool {
    match fam {
        0 => a.is_finite() && b.is_finite() && a < b,
        1 => a == f64::NEG_INFINITY && b == f64::INFINITY,
        _ => a == 0.0 && b == f64::INFINITY,
    }
}
fn polyint(k: i32, a: f64, b: f64) -> f64 {
    (pw(b, k + 1) - pw(a, k + 1)) / (k as f64 + 1.0)
}
fn lt<T: Fl>(l: (f64, f64)) -> [T; 2] {
    [t(l.0), t(l.1)]
}

fn gauss<T: Fl>(ck: &Ck) {
    let ordn = 33usize;
    ck.space(&format!("gauss_single_{}", T::NAME), (3 * 33 * 22 * 20) as u64, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let fam = d.n(3);
        let order = d.n(ordn);
        let (a, b) = d.pick(&LIM);
        let k = d.n(20) as i32;
        let gq = GaussianSingle::<T>::from_parameters(order, FAM[fam]);
        let what = format!("{:?} order {order} of x^{k} over [{a}, {b}]", FAM[fam]);
        let mut al = vec![];
        if order == 0 || order > 30 {
            al.push(E::QuadratureOrderOutOfRange);
        }
        if !dom_ok(fam, a, b) {
            al.push(E::LimitsIllDefined);
        }
        let f = |x: T| x.powi(k);
        let Some(v) = verdict(gq.single_integral(&f, &lt(( a, b))), &al, &what)? else {
            verdict(gq.integrate(&f, &[lt((a, b)), lt((a, b))]), &al, &what)?;
            return Ok(k as u64);
        };
        let tb = nodes(FAM[fam], order).unwrap();
        let (want, mag) = if fam == 0 {
            let h = (b - a) / 2.0;
            let m: f64 = tb.iter().map(|(w, x)| w * pw(h * x + (a + b) / 2.0, k).abs()).sum::<f64>() * h;
            let r = a.abs().max(b.abs());
            (if k < 2 * order as i32 { polyint(k, a, b) } else { tb.iter().map(|(w, x)| w * pw(h * x + (a + b) / 2.0, k)).sum::<f64>() * h }, m + (b - a) * k as f64 * pw(r, k))
        } else {
            let m: f64 = tb.iter().map(|(w, x)| (w * pw(*x, k)).abs()).sum();
            (if k < 2 * order as i32 { moment(fam, k) } else { tb.iter().map(|(w, x)| w * pw(*x, k)).sum() }, m * (1.0 + k as f64))
        };
        if mag > 1e30 {
            return Ok(1);
        }
        ensure_close!(g(v), want, 0.0, mag * (T::EPS * 8.0 + 1e-12) + T::EPS * 1e-3, "{what}");
        // repeated integration of the same function multiplies by the measure of each outer range
        let outer = (0.0, 2.0);
        let dbl = if fam == 0 { gq.double_integral(&f, &[lt((a, b)), lt(outer)]) } else { gq.double_integral(&f, &[lt((a, b)), lt((a, b))]) };
        let w2 = want * if fam == 0 { 2.0 } else { moment(fam, 0) };
        ensure_close!(g(dbl.map_err(|e| format!("{what}: {e:?}"))?), w2, 0.0, 4.0 * mag * (T::EPS * 10.0 + 1e-12) + T::EPS * 1e-3, "twice: {what}");
        // an integrand that is not finite at a node
        for bad in [T::NAN, T::INFINITY, T::NEG_INFINITY] {
            let hit = std::cell::Cell::new(0);
            let last = order - 1;
            let f = |x: T| { hit.set(hit.get() + 1); if hit.get() - 1 == last { bad } else { x } };
            verdict(gq.single_integral(&f, &lt((a, b))), &[E::NonFinite], &format!("integrand {bad:?} at the last node: {what}"))?;
        }
        Ok(hf(&[g(v)]))
    });
    // the defaults and empty limits
    ck.space(&format!("defaults_{}", T::NAME), 8, |i| format!("{i}"), |k| {
        let k = k as i32;
        let f = |x: T| x.powi(k);
        let fm = |x: &[T; 1]| x[0].powi(k);
        let dv = g(GaussianSingle::<T>::default().single_integral(&f, &lt((0.0, 1.0))).map_err(|e| format!("{e:?}"))?);
        ensure_close!(dv, 1.0 / (k as f64 + 1.0), T::EPS * 8.0, 0.0, "default Gaussian of x^{k}");
        let iv = g(integral(&f, lt::<T>((0.0, 1.0))).map_err(|e| format!("{e:?}"))?);
        let is = g(IterativeSingle::<T>::default().single_integral(&f, &lt((0.0, 1.0))).map_err(|e| format!("{e:?}"))?);
        ensure_close!(iv, 1.0 / (k as f64 + 1.0), T::EPS * 200.0 + 1e-9, 0.0, "integral of x^{k}");
        ensure_eq!(iv, is, "integral and the default integrator differ");
        let c = IterativeSingle::<T>::default().config;
        ensure_eq!(c.total_iterations, DEFAULT_TOTAL_ITERATIONS, "default iterations");
        ensure_eq!(DEFAULT_TOTAL_ITERATIONS, 120, "default iterations");
        ensure!(matches!(c.integration_method, IterativeMethod::Booles), "default rule");
        ensure_eq!(c.summation, SummationMethod::Pairwise, "default summation");
        ensure_eq!(GaussianSingle::<T>::default().config.order, DEFAULT_QUADRATURE_ORDERS, "default order");
        ensure_eq!(IterativeSingle::<T>::default().with_kahan_summation().config.summation, SummationMethod::Kahan, "Kahan");
        ensure_eq!(IterativeMulti::<T>::default().with_kahan_summation().config.summation, SummationMethod::Kahan, "Kahan");
        verdict(IterativeSingle::<T>::default().integrate(&f, &[]), &[E::LimitsIllDefined], "no limits")?;
        verdict(GaussianSingle::<T>::default().integrate(&f, &[]), &[E::LimitsIllDefined], "no limits")?;
        verdict(IterativeMulti::<T>::default().integrate([], &fm, &[], &[T::ONE]), &[E::LimitsIllDefined], "no limits")?;
        verdict(GaussianMulti::<T>::default().integrate([], &fm, &[], &[T::ONE]), &[E::LimitsIllDefined], "no limits")?;
        Ok(hf(&[dv, iv]))
    });
}

fn rounded(rule: usize, n: u64) -> u64 {
    let m = [4, 3, 1][rule];
    if n <= 12000 { n.div_ceil(m) * m } else { n }
}
fn iter_poly<T: Fl>(ck: &Ck) {
    let counts: Vec<u64> = (0..=26).chain([59, 60, 61, 119, 120, 121, 127, 128, 129, 132, 255, 256, 257, 1000, 4095, 12000, 12001, 24000]).collect();
    let nc = counts.len();
    ck.space(&format!("composite_counts_{}", T::NAME), (nc * 3 * 7 * 7 * 2) as u64, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let n = counts[d.n(nc)];
        let rule = d.n(3);
        let (a, b) = LIM[d.n(7)];
        let k = d.n(7) as i32;
        let kahan = d.n(2) == 1;
        let mut it = IterativeSingle::<T>::from_parameters(n, RULES[rule]);
        if kahan {
            it = it.with_kahan_summation();
        }
        let r = rounded(rule, n);
        let what = format!("{:?} with {n} intervals of x^{k} over [{a}, {b}], kahan {kahan}", RULES[rule]);
        ensure_eq!(it.config.total_iterations, r, "{what}: rounded count");
        ensure_eq!(IterativeMulti::<T>::from_parameters(n, RULES[rule]).config.total_iterations, r, "{what}: rounded count");
        let f = |x: T| x.powi(k);
        let al: &[E] = if n == 0 { &[E::IterationsZero] } else { &[] };
        let Some(v) = verdict(it.single_integral(&f, &lt((a, b))), al, &what)? else { return Ok(0) };
        // misaligned counts above 12000 are left untouched and promise nothing more
        if r % [4, 3, 1][rule] != 0 {
            return Ok(2);
        }
        let m = a.abs().max(b.abs());
        let h = (b - a) / r as f64;
        let c = |p: i32| (0..p).map(|j| (k - j).max(0) as f64).product::<f64>() * pw(m, (k - p).max(0));
        let trunc = match rule {
            0 => 8.0 / 945.0 / 4.0 * (b - a) * h.powi(6) * c(6),
            1 => 1.0 / 80.0 * (b - a) * h.powi(4) * c(4),
            _ => 1.0 / 12.0 * (b - a) * h.powi(2) * c(2),
        };
        let trunc = if k <= DEG[rule] { 0.0 } else { 1.001 * trunc };
        // the abscissa is accumulated step by step
        let drift = T::EPS * (r as f64 + 8.0) * m * (b - a) * c(1) + T::EPS * (16.0 + if kahan { 0.0 } else { 130f64.min(r as f64) }) * (b - a) * pw(m, k);
        let drift = drift + T::EPS * m * (r as f64) * pw(m, k) / 2.0;
        ensure_close!(g(v), polyint(k, a, b), 0.0, trunc + drift, "{what}");
        if n % 7 == 0 {
            let dbl = g(it.double_integral(&f, &[lt((a, b)), lt((0.0, 2.0))]).map_err(|e| format!("{e:?}"))?);
            ensure_close!(dbl, 2.0 * polyint(k, a, b), 0.0, 4.0 * (trunc + drift), "twice: {what}");
        }
        if n == 24 || n == 5 {
            for bad in [T::NAN, T::INFINITY, T::NEG_INFINITY] {
                for at in [0, 1, r / 2, r] {
                    let hit = std::cell::Cell::new(0);
                    let f = |x: T| { hit.set(hit.get() + 1); if hit.get() - 1 == at { bad } else { x } };
                    verdict(it.single_integral(&f, &lt((a, b))), &[E::NonFinite], &format!("integrand {bad:?} at sample {at}: {what}"))?;
                }
                // a finite inner integral that overflows outside
                let f = |_: T| T::MAX;
                let w = it.integrate(&f, &[lt((0.0, 1e3)), lt((0.0, 1e3))]);
                verdict(w, &[E::NonFinite], &format!("overflowing inner integral: {what}"))?;
            }
        }
        Ok(hf(&[g(v)]))
    });
    // summation: a large sum followed by very many small ones
    ck.space(&format!("summation_{}", T::NAME), 3 * 2 * 4, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let rule = d.n(3);
        let kahan = d.n(2) == 1;
        let n = [1200u64, 12000, 120_000, 1_200_000][d.n(4)];
        let mut it = IterativeSingle::<T>::from_parameters(n, RULES[rule]);
        if kahan {
            it = it.with_kahan_summation();
        }
        // a constant: the only error is that of the sum itself
        let cst = 0.1f64;
        let v = g(it.single_integral(&|_: T| t::<T>(cst), &lt((0.0, 1.0))).map_err(|e| format!("{e:?}"))?);
        let allowed = T::EPS * if kahan { 8.0 } else { 100.0 };
        ensure_close!(v, g(t::<T>(cst)), allowed, 0.0, "{:?} of a constant with {n} intervals, kahan {kahan}", RULES[rule]);
        Ok(hf(&[v]))
    });
}

fn limits_and_infinite<T: Fl>(ck: &Ck) {
    // integrand, exact integral from a to b, by index
    fn fun<T: Fl>(k: usize, x: T) -> T {
        match k {
            0 => (-x * x).exp(),
            1 => T::ONE / (T::ONE + x * x),
            2 => (-x.abs()).exp(),
            _ => T::ONE / ((T::ONE + x * x) * (T::ONE + x * x)),
        }
    }
    fn erf(x: f64) -> f64 {
        // series / continued fraction are not needed: composite Simpson is exact enough here
        if x.abs() > 6.0 {
            return x.signum();
        }
        let n = 2000;
        let h = x / n as f64;
        let f = |i: usize| (-(i as f64 * h).powi(2)).exp();
        let mut s = f(0) + f(n);
        for i in 1..n {
            s += f(i) * if i % 2 == 1 { 4.0 } else { 2.0 };
        }
        s * h / 3.0 * 2.0 / std::f64::consts::PI.sqrt()
    }
    fn prim(k: usize, x: f64) -> f64 {
        match k {
            0 => erf(x) * std::f64::consts::PI.sqrt() / 2.0,
            1 => x.atan(),
            2 => if x >= 0.0 { 1.0 - (-x).exp() } else { x.exp() - 1.0 },
            _ => if x.is_infinite() { x.atan() / 2.0 } else { 0.5 * (x / (1.0 + x * x) + x.atan()) },
        }
    }
    let counts = [0u64, 1, 12, 120, 1200, 12000];
    ck.space(&format!("infinite_{}", T::NAME), (22 * 4 * 3 * 6 * 2) as u64, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let (a, b) = d.pick(&LIM);
        let k = d.n(4);
        let rule = d.n(3);
        let n = counts[d.n(6)];
        let shift = d.n(2) as f64;
        let it = IterativeSingle::<T>::from_parameters(n, RULES[rule]);
        let what = format!("{:?} with {n} intervals of integrand {k} over [{a}, {b}] (shift {shift})", RULES[rule]);
        let mut al = vec![];
        if n == 0 {
            al.push(E::IterationsZero);
        }
        if ill(a, b) {
            al.push(E::LimitsIllDefined);
        }
        let f = |x: T| fun(k, x - t::<T>(shift));
        let Some(v) = verdict(it.single_integral(&f, &lt((a, b))), &al, &what)? else {
            verdict(it.integrate(&f, &[lt((0.0, 1.0)), lt((a, b))]), &al, &format!("outer: {what}"))?;
            verdict(it.integrate(&f, &[lt((a, b)), lt((0.0, 1.0))]), &al, &format!("inner: {what}"))?;
            return Ok(n);
        };
        if n >= 120 {
            let want = prim(k, b - shift) - prim(k, a - shift);
            let inf = a.is_infinite() || b.is_infinite();
            let kink = k == 2 && a < shift && b > shift;
            // measured accuracy on the base tree, times 10
            let at = match (inf, kink, n) {
                (false, false, 120) => 1e-3,
                (false, false, _) => 1e-5,
                (_, _, 120) => 3e-2,
                (_, _, 1200) => 3e-4,
                _ => 1e-5,
            };
            let at = at + T::EPS * n as f64 * 8.0;
            ensure_close!(g(v), want, 0.0, at, "{what}");
        }
        Ok(hf(&[g(v)]))
    });
}

fn multi<T: Fl, const N: usize>(ck: &Ck) {
    let lims = [(0.0, 1.0), (-1.0, 2.0), (0.5, 0.75)];
    // backends: Gauss orders 3 and 4, Boole, Simpson, trapezoid
    ck.space(&format!("multi_{}_{N}", T::NAME), (5 * 3u64.pow(N as u32) * 9 * 2 * (N as u64 + 1).pow(2) * 3).into(), |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let back = d.n(5);
        let e: [i32; N] = std::array::from_fn(|_| d.n(3) as i32);
        let (l0, l1) = (lims[d.n(3)], lims[d.n(3)]);
        let pt: [f64; N] = if d.n(2) == 0 { std::array::from_fn(|k| 0.5 + k as f64) } else { std::array::from_fn(|k| -1.25 * k as f64 + 0.25) };
        let idx = [d.n(N + 1), d.n(N + 1)];
        let third = d.n(3);
        let f = |x: &[T; N]| {
            let mut m = T::ONE;
            for k in 0..N {
                m = m * (T::ONE + x[k].powi(e[k]) * t::<T>(k as f64 + 1.0));
            }
            m
        };
        let part = |k: usize, l: Option<(f64, f64)>| match l {
            None => 1.0 + pw(pt[k], e[k]) * (k as f64 + 1.0),
            Some((a, b)) => (b - a) + polyint(e[k], a, b) * (k as f64 + 1.0),
        };
        let p = ta::<T, N>(pt);
        let what = format!("backend {back} over variables {idx:?}, limits {l0:?} {l1:?}, exponents {e:?} at {pt:?}");
        let gm = GaussianMulti::<T>::from_parameters(3 + back % 2, FAM[0]);
        let im = IterativeMulti::<T>::from_parameters(if back == 4 { 240 } else { 24 }, RULES[back.saturating_sub(2)]);
        let tol = |m: f64| if back == 4 { 3e-4 * m + T::EPS * 1000.0 * m } else { T::EPS * 300.0 * m };
        let mag: f64 = (0..N).map(|k| 1.0 + (k as f64 + 1.0) * pw(3.0, e[k])).product::<f64>() * 9.0;
        // one variable
        let al: &[E] = if idx[0] >= N { &[E::IndexOutOfRange] } else { &[] };
        let r = if back < 2 { gm.single_partial_integral(&f, idx[0], &lt(l0), &p) } else { im.single_partial_integral(&f, idx[0], &lt(l0), &p) };
        let mut out = vec![];
        if let Some(v) = verdict(r, al, &what)? {
            let want: f64 = (0..N).map(|k| part(k, if k == idx[0] { Some(l0) } else { None })).product();
            ensure_close!(g(v), want, 0.0, tol(mag), "one variable: {what}");
            out.push(g(v));
        }
        // two
        let al: &[E] = if idx.iter().any(|i| *i >= N) { &[E::IndexOutOfRange] } else { &[] };
        let r = if back < 2 { gm.double_partial_integral(&f, idx, &[lt(l0), lt(l1)], &p) } else { im.double_partial_integral(&f, idx, &[lt(l0), lt(l1)], &p) };
        if let Some(v) = verdict(r, al, &what)? {
            if idx[0] != idx[1] {
                let want: f64 = (0..N).map(|k| part(k, if k == idx[0] { Some(l0) } else if k == idx[1] { Some(l1) } else { None })).product();
                ensure_close!(g(v), want, 0.0, tol(mag * 3.0), "two variables: {what}");
            }
            out.push(g(v));
        }
        // errors: a limit that is ill defined at either level, zero counts, a value that is not finite
        if third == 1 && idx.iter().all(|i| *i < N) {
            for bad in [(1.0, 1.0), (2.0, 1.0), (f64::NAN, 0.0), (f64::INFINITY, f64::NEG_INFINITY)] {
                for lv in 0..2 {
                    let l = if lv == 0 { [lt(bad), lt(l1)] } else { [lt(l0), lt(bad)] };
                    let r = if back < 2 { gm.integrate(idx, &f, &l, &p) } else { im.integrate(idx, &f, &l, &p) };
                    verdict(r, &[E::LimitsIllDefined], &format!("limits {bad:?} at level {lv}: {what}"))?;
                }
            }
            let z = IterativeMulti::<T>::from_parameters(0, RULES[back.saturating_sub(2)]);
            verdict(z.integrate(idx, &f, &[lt(l0), lt(l1)], &p), &[E::IterationsZero], "no iterations")?;
            verdict(GaussianMulti::<T>::from_parameters([0, 31][back % 2], FAM[back % 3]).integrate(idx, &f, &[lt(l0), lt(l1)], &p), if back % 3 == 0 { &[E::QuadratureOrderOutOfRange] } else { &[E::QuadratureOrderOutOfRange, E::LimitsIllDefined] }, "order")?;
            for badv in [T::NAN, T::INFINITY] {
                let hit = std::cell::Cell::new(0);
                let fb = |x: &[T; N]| { hit.set(hit.get() + 1); if hit.get() == 8 { badv } else { f(x) } };
                let r = if back < 2 { gm.integrate(idx, &fb, &[lt(l0), lt(l1)], &p) } else { im.integrate(idx, &fb, &[lt(l0), lt(l1)], &p) };
                verdict(r, &[E::NonFinite], &format!("value {badv:?}: {what}"))?;
            }
        }
        // Hermite and Laguerre over two variables; and infinite composite ranges
        if third == 2 && idx[0] < N && idx[1] < N && idx[0] != idx[1] {
            let fam = 1 + back % 2;
            let l: (f64, f64) = if fam == 1 { (f64::NEG_INFINITY, f64::INFINITY) } else { (0.0, f64::INFINITY) };
            let gm = GaussianMulti::<T>::from_parameters(4, FAM[fam]);
            let v = g(gm.integrate(idx, &f, &[lt(l), lt(l)], &p).map_err(|e| format!("{what}: {e:?}"))?);
            let want: f64 = (0..N).map(|k| if idx.contains(&k) { moment(fam, 0) + moment(fam, e[k]) * (k as f64 + 1.0) } else { part(k, None) }).product();
            ensure_close!(v, want, 0.0, T::EPS * 200.0 * mag * 40.0, "{:?}: {what}", FAM[fam]);
            verdict(gm.integrate(idx, &f, &[lt(l), lt(l0)], &p), &[E::LimitsIllDefined], "finite range given to a canonical rule")?;
            if back >= 2 {
                let w = |x: T| T::ONE / (T::ONE + x * x);
                let fi = |x: &[T; N]| w(x[idx[0]]) * w(x[idx[1]]) * x[(idx[0] + 1) % N].powi(0);
                let im = IterativeMulti::<T>::from_parameters(120, RULES[back - 2]);
                let v = g(im.integrate(idx, &fi, &[lt((f64::NEG_INFINITY, f64::INFINITY)), lt((0.0, f64::INFINITY))], &p).map_err(|e| format!("{what}: {e:?}"))?);
                ensure_close!(v, std::f64::consts::PI.powi(2) / 2.0, 0.0, 2e-3, "infinite ranges: {what}");
                let v = g(im.integrate(idx, &fi, &[lt((f64::NEG_INFINITY, -1.0)), lt((0.0, 1.0))], &p).map_err(|e| format!("{what}: {e:?}"))?);
                ensure_close!(v, std::f64::consts::PI.powi(2) / 16.0, 0.0, 2e-3, "infinite ranges: {what}");
            }
        }
        Ok(hf(&out))
    });
}

/// The same integral with its argument and its value in other units: the same number in those units.
fn units<T: Fl>(ck: &Ck) {
    let (us, vs): ([i32; 8], [i32; 5]) = if T::IS32 { ([0, 20, -20, 40, -40, 3, -50, 30], [0, 30, -30, 60, -60]) } else { ([0, 60, -60, 300, -300, 3, -500, 400], [0, 200, -200, 400, -400]) };
    let ranges = [(0.0, 1.0), (-2.0, 3.0), (0.5, 0.75), (-3.0, -1.0), (10.0, 12.0), (0.0, 1e-3)];
    ck.space(&format!("units_{}", T::NAME), 6 * 8 * 5 * 6 * 6, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let back = d.n(6);
        let (u, v) = (d.pick(&us), d.pick(&vs));
        let (a, b) = d.pick(&ranges);
        let (k, kahan) = (d.n(3) as i32 * 2 + 1, d.n(2) == 1);
        let go = |u: i32, v: i32| -> Result<[f64; 4], String> {
            let (l, y) = (2f64.powi(u), 2f64.powi(v));
            let x0 = t::<T>(1.0 / l);
            let f = |x: T| (T::ONE + (x * x0).powi(k)) * t::<T>(y);
            let f2 = |x: &[T; 2]| (T::ONE + (x[0] * x0).powi(k) + x[1]) * t::<T>(y);
            let (a, b) = (rd::<T>(a), rd::<T>(b));
            let l1 = lt((a * l, b * l));
            let l2 = lt((0.0, 2.0));
            let at = ta::<T, 2>([0.25 * l, 0.5]);
            let r = if back < 3 {
                let o = [1, 5, 24][back];
                let (q, m) = (GaussianSingle::<T>::from_parameters(o, FAM[0]), GaussianMulti::<T>::from_parameters(o, FAM[0]));
                [q.single_integral(&f, &l1), q.double_integral(&f, &[l1, l2]), m.single_partial_integral(&f2, 0, &l1, &at), m.double_partial_integral(&f2, [0, 1], &[l1, l2], &at)]
            } else {
                let (mut q, mut m) = (IterativeSingle::<T>::from_parameters(24, RULES[back - 3]), IterativeMulti::<T>::from_parameters(24, RULES[back - 3]));
                if kahan {
                    q = q.with_kahan_summation();
                    m = m.with_kahan_summation();
                }
                [q.single_integral(&f, &l1), q.double_integral(&f, &[l1, l2]), m.single_partial_integral(&f2, 0, &l1, &at), m.double_partial_integral(&f2, [0, 1], &[l1, l2], &at)]
            };
            let mut out = [0.0; 4];
            for (o, r) in out.iter_mut().zip(r) {
                *o = g(r.map_err(|e| format!("refused in units 2^{u} and 2^{v}: {e:?}"))?) / l / y
            }
            // the integral of a constant over the other variable has no length in it
            Ok(out)
        };
        // stay where the answer can be written down
        let span = if T::IS32 { 90 } else { 900 };
        if (u + v).abs() > span { return Ok(1) }
        let (p, q) = (go(0, 0)?, go(u, v)?);
        for j in 0..4 {
            ensure_close!(q[j], p[j], T::EPS * 64.0, T::EPS * 64.0 * p[j].abs().max((b - a) * 1.0), "integral {j} of 1 + x^{k} over [{a}, {b}] with backend {back} in units 2^{u} of argument and 2^{v} of value");
        }
        Ok(hf(&p))
    });
}
fn rd<T: Fl>(x: f64) -> f64 {
    g(t::<T>(x))
}

fn main() {
    let ck = Ck::new("C05");
    ck.assume("accuracy demands: exact to rounding up to the degree each rule is exact for; the textbook truncation bound above it; on infinite ranges a fixed bound per number of intervals for four decaying integrands");
    ck.assume("above 12000 intervals a count that is not a multiple of the rule's panel is documented to be left untouched, so its accuracy is not judged");
    tables(&ck);
    gauss::<f64>(&ck);
    gauss::<f32>(&ck);
    iter_poly::<f64>(&ck);
    iter_poly::<f32>(&ck);
    limits_and_infinite::<f64>(&ck);
    limits_and_infinite::<f32>(&ck);
    units::<f64>(&ck);
    units::<f32>(&ck);
    multi::<f64, 2>(&ck);
    multi::<f64, 3>(&ck);
    multi::<f32, 2>(&ck);
    ck.finish();
}
