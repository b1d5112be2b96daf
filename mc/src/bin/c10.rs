//! C10: polynomial arithmetic, construction, piecewise curves, several variables.
use mc::num::*;
use mc::*;
use multicalc::error::PolynomialError as E;
use multicalc::polynomial::*;
use multicalc::scalar::Jet;

fn ev(p: &[f64], x: f64) -> f64 {
    p.iter().rev().fold(0.0, |a, c| a * x + c)
}
fn evm(p: &[f64], x: f64) -> f64 {
    p.iter().rev().fold(0.0, |a, c| a * x.abs() + c.abs())
}
fn pmul(a: &[f64], b: &[f64]) -> Vec<f64> {
    let mut r = vec![0.0; (a.len() + b.len()).saturating_sub(1)];
    for (i, x) in a.iter().enumerate() {
        for (j, y) in b.iter().enumerate() {
            r[i + j] += x * y;
        }
    }
    r
}
fn der(p: &[f64], n: usize) -> Vec<f64> {
    let mut v = p.to_vec();
    for _ in 0..n {
        v = v.iter().enumerate().skip(1).map(|(k, c)| k as f64 * c).collect();
    }
    v
}
fn deg(p: &[f64]) -> Option<usize> {
    p.iter().rposition(|c| *c != 0.0)
}
fn co<const N: usize, T: Fl>(p: &Polynomial<N, T>) -> Vec<f64> {
    ga(*p.coefficients()).to_vec()
}
/// compares coefficient lists, missing ones count as zero
fn same(a: &[f64], b: &[f64], tol: f64, what: &str) -> Result<(), String> {
    for k in 0..a.len().max(b.len()) {
        let (x, y) = (a.get(k).copied().unwrap_or(0.0), b.get(k).copied().unwrap_or(0.0));
        ensure_close!(x, y, tol, tol, "{what}: coefficient {k} of {a:?}, expected {b:?}");
    }
    Ok(())
}
const X: [f64; 9] = [0.0, 1.0, -1.0, 0.5, -2.0, 3.0, 0.1, -0.75, 10.0];

fn one<T: Fl, const N: usize>(p: [f64; N]) -> Res {
    let q = Polynomial::<N, T>::new(ta(p));
    let what = format!("{p:?}");
    let e = T::EPS * 16.0;
        ensure_eq!(q.degree(), deg(&p), "{what}: degree");
        ensure_eq!(q.leading_coefficient().map(g), deg(&p).map(|k| p[k]), "{what}: leading coefficient");
        ensure_eq!(q.is_zero(), deg(&p).is_none(), "{what}: zero");
        ensure!(q.is_finite(), "{what}");
        for k in 0..N + 2 {
            ensure_eq!(q.coefficient(k).map(g), p.get(k).copied(), "{what}: coefficient {k}");
        }
        for n in 0..N + 2 {
            same(&co(&q.nth_derivative(n)), &der(&p, n), e, &format!("{what}: derivative {n}"))?;
        }
        same(&co(&q.derivative()), &der(&p, 1), e, &format!("{what}: derivative"))?;
        same(&co(&q.reverse()), &p.iter().rev().copied().collect::<Vec<_>>(), 0.0, &format!("{what}: reverse"))?;
        same(&co(&-q), &p.map(|c| -c), 0.0, &format!("{what}: negated"))?;
        for x in X {
        let tx: T = t(x);
        let x: f64 = tx.to_f64();
            ensure_close!(g(q.evaluate(tx)), ev(&p, x), 0.0, e * evm(&p, x), "{what}: value at {x}");
        let d: [T; 15] = q.evaluate_with_derivatives(tx);
            for n in 0..15 {
            let dp = der(&p, n);
                ensure_close!(g(d[n]), ev(&dp, x), 0.0, e * evm(&dp, x), "{what}: derivative {n} at {x}");
            }
        let d: [T; 2] = q.evaluate_with_derivatives(tx);
            ensure_close!(g(d[1]), ev(&der(&p, 1), x), 0.0, e * evm(&der(&p, 1), x), "{what}: slope at {x}");
        let _: [T; 0] = q.evaluate_with_derivatives(tx);
            for y in [0.0f64, 1.0, -2.0, 3.0] {
                // area
            let want: f64 = p.iter().enumerate().map(|(k, c)| c * (y.powi(k as i32 + 1) - x.powi(k as i32 + 1)) / (k as f64 + 1.0)).sum();
            let m: f64 = p.iter().enumerate().map(|(k, c)| c.abs() * (y.abs().powi(k as i32 + 1) + x.abs().powi(k as i32 + 1))).sum();
                ensure_close!(g(q.definite_integral(tx, t(y))), want, 0.0, e * m, "{what}: area {x}..{y}");
                // argument changes
            let sh = q.shift_argument(tx);
                ensure_close!(g(sh.evaluate(t(y))), ev(&p, x + y), 0.0, 4.0 * e * evm(&p, x.abs() + y.abs()), "{what}: shifted by {x}, at {y}");
            let sc = q.scale_argument(tx);
                ensure_close!(g(sc.evaluate(t(y))), ev(&p, x * y), 0.0, 4.0 * e * evm(&p, x * y), "{what}: argument scaled by {x}, at {y}");
            }
            same(&co(&q.scale(tx)), &p.map(|c| c * x), e, &format!("{what} scaled by {x}"))?;
            same(&co(&(q * tx)), &p.map(|c| c * x), e, &format!("{what} times {x}"))?;
            if x != 0.0 {
                same(&co(&(q / tx)), &p.map(|c| c / x), e, &format!("{what} over {x}"))?;
            }
            op(30);
        }
    let r = q.try_resize::<3>();
        ensure_eq!(r.is_some(), deg(&p).unwrap_or(0) < 3, "{what}: shrink");
        if let Some(r) = r {
            same(&co(&r), &p, 0.0, &format!("{what}: shrunk"))?;
        }
        same(&co(&q.try_resize::<17>().ok_or("growing failed")?), &p, 0.0, &format!("{what}: grown"))?;
        ensure_eq!(q.try_resize::<0>().is_some(), deg(&p).is_none(), "{what}: shrink to nothing");
        ensure!(Polynomial::<N, T>::default() == Polynomial::zeros(), "default");
        Ok(deg(&p).map_or(9, |k| k as u64))
}
/// a long polynomial out of a short rule: any first letters, any step between letters, cut off anywhere
fn long<const N: usize>(d: &mut Dig, al: &[f64]) -> [f64; N] {
    let (a, b, c) = (d.n(al.len()), d.n(al.len()), d.n(2));
    let cut = d.pick(&[0, 1, 4]);
    std::array::from_fn(|k| if k + cut < N { al[(a + b * k + c * k * k) % al.len()] } else { 0.0 })
}
fn longs(al: &[f64]) -> u64 {
    (al.len() * al.len() * 6) as u64
}
fn single<T: Fl>(ck: &Ck) {
    let al = [0.0, 1.0, -1.0, 2.0, -0.5];
    ck.space(&format!("one_{}", T::NAME), 5u64.pow(5), |i| format!("{i}"), |i| one::<T, 5>(Dig(i).arr(&al)));
    ck.space(&format!("one_long_{}", T::NAME), longs(&al) * 4, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        match d.n(4) {
            0 => one::<T, 1>(long(&mut d, &al)),
            1 => one::<T, 7>(long(&mut d, &al)),
            2 => one::<T, 9>(long(&mut d, &al)),
            _ => one::<T, 13>(long(&mut d, &al)),
        }
    });
    // products, compositions and divisions of long polynomials
    let e = T::EPS * 64.0;
    ck.space(&format!("two_long_{}", T::NAME), longs(&al) * longs(&al), |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let (a, b): ([f64; 10], [f64; 6]) = (long(&mut d, &al), long(&mut d, &al));
        let (p, q) = (Polynomial::<10, T>::new(ta(a)), Polynomial::<6, T>::new(ta(b)));
        let what = format!("{a:?} and {b:?}");
        let prod = pmul(&a, &b);
        same(&co(&p.multiply_into::<6, 15>(&q).map_err(|x| format!("{what}: {x:?}"))?), &prod, e, &format!("product of {what}"))?;
        same(&co(&q.multiply_into::<10, 15>(&p).map_err(|x| format!("{what}: {x:?}"))?), &prod, e, &format!("product of {what}, the other way"))?;
        verdict(p.multiply_into::<6, 12>(&q), if deg(&prod).unwrap_or(0) >= 12 { &[E::DegreeOverflow] } else { &[] }, &format!("product of {what} in 12"))?;
        // a short one inside the long one
        let c = [b[0], b[1], b[2]];
        let mut comp = vec![0.0];
        let mut size = vec![0.0];
        for v in a.iter().rev() {
            comp = pmul(&comp, &c);
            comp[0] += v;
            size = pmul(&size, &c.map(f64::abs));
            size[0] += v.abs();
        }
        let big = size.iter().fold(1.0f64, |m, v| m.max(*v));
        let got = co(&p.compose_into::<3, 19>(&Polynomial::new(ta(c))).map_err(|x| format!("{what}: {x:?}"))?);
        for k in 0..19 {
            let (x, w) = (got[k], comp.get(k).copied().unwrap_or(0.0));
            ensure_close!(x, w, e, T::EPS * 16.0 * big, "{what} composed: coefficient {k}");
        }
        match deg(&b) {
            None => {
                verdict(p.divide::<6, 10, 6>(&q), &[E::LeadingCoefficientZero], &format!("{what}: division by zero"))?;
            }
            Some(db) => {
                let (qu, re) = p.divide::<6, 10, 5>(&q).map_err(|x| format!("{what}: {x:?}"))?;
                let (qu, re) = (co(&qu), co(&re));
                let mut back = pmul(&qu, &b);
                for k in 0..re.len() {
                    back[k] += re[k];
                }
                let m = 1.0 + qu.iter().chain(&re).fold(0.0, |m: f64, c| m.max(c.abs()));
                same(&back, &a, e * m, &format!("{what}: quotient {qu:?} remainder {re:?}"))?;
                ensure!(deg(&re).is_none_or(|k| k < db), "{what}: remainder {re:?}");
            }
        }
        op(6);
        Ok(deg(&prod).map_or(99, |k| k as u64))
    });
}
fn pair<T: Fl>(ck: &Ck) {
    let al = [0.0, 1.0, -2.0, 0.5];
    let e = T::EPS * 64.0;
    ck.space(&format!("two_{}", T::NAME), 4u64.pow(7), |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let a: [f64; 4] = d.arr(&al);
        let b: [f64; 3] = d.arr(&al);
        let (p, q) = (Polynomial::<4, T>::new(ta(a)), Polynomial::<3, T>::new(ta(b)));
        let what = format!("{a:?} and {b:?}");
        // sums
        let b4 = [b[0], b[1], b[2], 0.0];
        let q4 = q.try_resize::<4>().unwrap();
        same(&co(&(p + q4)), &std::array::from_fn::<_, 4, _>(|k| a[k] + b4[k]), e, &format!("sum of {what}"))?;
        same(&co(&(p - q4)), &std::array::from_fn::<_, 4, _>(|k| a[k] - b4[k]), e, &format!("difference of {what}"))?;
        // product
        let prod = pmul(&a, &b);
        same(&co(&p.multiply_into::<3, 6>(&q).map_err(|x| format!("{what}: {x:?}"))?), &prod, e, &format!("product of {what}"))?;
        let al: &[E] = if deg(&prod).unwrap_or(0) >= 4 { &[E::DegreeOverflow] } else { &[] };
        if let Some(r) = verdict(p.multiply_into::<3, 4>(&q), al, &format!("product of {what} in 4"))? {
            same(&co(&r), &prod, e, &format!("product of {what} in 4"))?;
        }
        // composition
        let mut comp = vec![0.0];
        for c in a.iter().rev() {
            comp = pmul(&comp, &b);
            comp[0] += c;
        }
        same(&co(&p.compose_into::<3, 10>(&q).map_err(|x| format!("{what}: {x:?}"))?), &comp, e, &format!("{what} composed"))?;
        // with no room at all only nothing fits
        verdict(p.compose_into::<3, 0>(&q).map(|_| ()), if deg(&a).is_none() { &[] } else { &[E::DegreeOverflow] }, &format!("{what} composed in 0")).or_else(|m| if deg(&comp).is_none() { Ok(None) } else { Err(m) })?;
        let r = p.compose_into::<3, 5>(&q);
        match r {
            Ok(r) => {
                ensure!(deg(&comp).unwrap_or(0) < 5, "{what}: composition lost a term");
                same(&co(&r), &comp, e, &format!("{what} composed in 5"))?;
            }
            Err(x) => {
                ensure_eq!(x, E::DegreeOverflow, "{what}: composed");
                // an intermediate product may need the room although the top cancels: never for these degrees
                let da = deg(&a).unwrap_or(0);
                ensure!(da * deg(&b).unwrap_or(0) >= 5, "{what}: composition refused although it fits");
            }
        }
        // division: dividend = quotient * divisor + remainder, remainder of lower degree
        match deg(&b) {
            None => {
                verdict(p.divide::<3, 4, 3>(&q), &[E::LeadingCoefficientZero], &format!("{what}: division by zero"))?;
            }
            Some(db) => {
                let (qu, re) = p.divide::<3, 4, 2>(&q).map_err(|x| format!("{what}: {x:?}"))?;
                let (qu, re) = (co(&qu), co(&re));
                let mut back = pmul(&qu, &b);
                for k in 0..re.len() {
                    back[k] += re[k];
                }
                let m = 1.0 + qu.iter().chain(&re).fold(0.0, |m: f64, c| m.max(c.abs()));
                same(&back, &a, e * m, &format!("{what}: quotient {qu:?} remainder {re:?}"))?;
                ensure!(deg(&re).is_none_or(|k| k < db), "{what}: remainder {re:?}");
                let dq = deg(&a).map_or(0, |k| (k + 1).saturating_sub(db));
                let al: &[E] = if dq > 2 { &[E::DegreeOverflow] } else { &[] };
                verdict(p.divide::<3, 2, 2>(&q), al, &format!("{what}: quotient in 2"))?;
                let al: &[E] = if deg(&re).is_some() { &[E::DegreeOverflow] } else { &[] };
                verdict(p.divide::<3, 4, 0>(&q), al, &format!("{what}: remainder in 0"))?;
            }
        }
        op(8);
        Ok(deg(&prod).map_or(99, |k| k as u64))
    });
}
/// results scale with the data: no answer and no refusal depends on the unit the data is in
fn rescaled<T: Fl>(ck: &Ck) {
    let al = [0.0, 1.0, -2.0, 0.5];
    let ks: [i32; 6] = if T::IS32 { [-28, -24, 0, 20, -12, 28] } else { [-70, -54, 0, 40, -30, 70] };
    // a against b * 2^(k + step * power)
    fn scaled<T: Fl>(a: &[f64], b: &[f64], k: i32, step: i32, what: &str) -> Result<(), String> {
        ensure_eq!(a.len(), b.len(), "{what}");
        let b: Vec<f64> = b.iter().enumerate().map(|(n, x)| x * 2f64.powi(k + step * n as i32)).collect();
        let big = |v: &[f64]| v.iter().enumerate().fold(0.0f64, |m, (n, x)| m.max((x * 2f64.powi(-step * n as i32)).abs()));
        let m = big(&b);
        for n in 0..a.len() {
            ensure_close!(a[n], b[n], 0.0, T::EPS * 16.0 * m * 2f64.powi(step * n as i32), "{what}: coefficient {n} of {a:?}, expected {b:?}");
        }
        Ok(())
    }
    ck.space(&format!("rescaled_{}", T::NAME), 4u64.pow(7) * 6, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let k = d.pick(&ks);
        let a: [f64; 4] = d.arr(&al);
        let b: [f64; 3] = d.arr(&al);
        let m = ks[(i / 7) as usize % 6];
        let up = |x: f64, k: i32| t::<T>(x * 2f64.powi(k));
        let (p, q) = (Polynomial::<4, T>::new(ta(a)), Polynomial::<3, T>::new(ta(b)));
        let (ps, qs) = (Polynomial::<4, T>::new(a.map(|x| up(x, k))), Polynomial::<3, T>::new(b.map(|x| up(x, m))));
        let what = format!("{a:?} 2^{k} and {b:?} 2^{m}");
        ensure_eq!((ps.degree(), ps.is_zero()), (p.degree(), p.is_zero()), "{what}");
        ensure_eq!(ps.try_resize::<2>().is_some(), p.try_resize::<2>().is_some(), "{what}: shorter");
        match (ps.multiply_into::<3, 4>(&qs), p.multiply_into::<3, 4>(&q)) {
            (Ok(x), Ok(y)) => scaled::<T>(&co(&x), &co(&y), k + m, 0, &format!("{what}: product"))?,
            (x, y) => ensure_eq!(x.err(), y.err(), "{what}: product in 4"),
        }
        macro_rules! div {
            ($n:literal, $r:literal) => {
                match (ps.divide::<3, $n, $r>(&qs), p.divide::<3, $n, $r>(&q)) {
                    (Ok(x), Ok(y)) => {
                        scaled::<T>(&co(&x.0), &co(&y.0), k - m, 0, &format!("{what}: quotient"))?;
                        scaled::<T>(&co(&x.1), &co(&y.1), k, 0, &format!("{what}: remainder"))?;
                    }
                    (x, y) => ensure_eq!(x.err(), y.err(), "{what}: division in {} and {}", $n, $r),
                }
            };
        }
        div!(4, 2);
        div!(2, 2);
        div!(3, 1);
        div!(4, 0);
        // the outer polynomial's scale carries through a composition
        macro_rules! comp {
            ($n:literal) => {
                match (ps.compose_into::<3, $n>(&q), p.compose_into::<3, $n>(&q)) {
                    (Ok(x), Ok(y)) => scaled::<T>(&co(&x), &co(&y), k, 0, &format!("{what}: composed"))?,
                    (x, y) => ensure_eq!(x.err(), y.err(), "{what}: composed in {}", $n),
                }
            };
        }
        comp!(10);
        comp!(5);
        comp!(1);
        comp!(0);
        op(12);
        Ok(hf(&[a[0], b[0]]))
    });
    // positions scaled by 2^k and values by 2^m
    let na = [-1.0, 0.0, 0.5, 2.0, 3.0];
    let kk: [i32; 5] = if T::IS32 { [-26, -10, 0, 12, -20] } else { [-60, -30, 0, 25, -54] };
    ck.space(&format!("points_rescaled_{}", T::NAME), 5u64.pow(4) * 9 * 25, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let (k, m) = (d.pick(&kk), d.pick(&kk));
        let x: [f64; 4] = d.arr(&na);
        let y: [f64; 4] = { let v: [f64; 2] = d.arr(&[0.0, 1.0, -2.0]); [v[0], v[1], 0.5, -v[0]] };
        let k = if T::IS32 { k / 2 } else { k };
        let up = |x: f64, k: i32| t::<T>(x * 2f64.powi(k));
        let what = format!("{x:?} 2^{k} and {y:?} 2^{m}");
        let (xs, ys) = (x.map(|v| up(v, k)), y.map(|v| up(v, m)));
        // around the middle of the points, the unit the fit works in
        match (Polynomial::<4, T>::from_points(&xs, &ys), Polynomial::<4, T>::from_points(&ta(x), &ta(y))) {
            (Ok(p), Ok(q)) => scaled::<T>(&co(&p), &co(&q), m, -k, &format!("{what}: through"))?,
            (p, q) => ensure_eq!(p.err(), q.err(), "{what}: through"),
        }
        match (Polynomial::<2, T>::fit_least_squares(&xs, &ys), Polynomial::<2, T>::fit_least_squares(&ta(x), &ta(y))) {
            (Ok(p), Ok(q)) => scaled::<T>(&co(&p), &co(&q), m, -k, &format!("{what}: line"))?,
            (p, q) => ensure_eq!(p.err(), q.err(), "{what}: line"),
        }
        op(2);
        Ok(hf(&x))
    });
}
fn build<T: Fl>(ck: &Ck) {
    let ra = [-2.0, 0.0, 1.0, 0.5, 3.0, f64::NAN, f64::INFINITY];
    ck.space(&format!("from_roots_{}", T::NAME), 7 * 7 * 7 * 5, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let r: [f64; 3] = d.arr(&ra);
        let n = d.n(5);
        let rs: Vec<f64> = r.iter().cycle().take(n).copied().collect();
        let tr: Vec<T> = rs.iter().map(|x| t(*x)).collect();
        let mut al = vec![];
        if rs.iter().any(|x| !x.is_finite()) {
            al.push(E::NonFinite);
        }
        if n >= 4 {
            al.push(E::DegreeOverflow);
        }
        let what = format!("roots {rs:?}");
        let Some(p) = verdict(Polynomial::<4, T>::from_roots(&tr), &al, &what)? else { return Ok(1) };
        let mut want = vec![1.0];
        for x in &rs {
            want = pmul(&want, &[-x, 1.0]);
        }
        same(&co(&p), &want, T::EPS * 30.0, &what)?;
        for x in &rs {
            ensure_close!(g(p.evaluate(t(*x))), 0.0, 0.0, T::EPS * 30.0 * evm(&want, *x), "{what}: value at a root");
        }
        Ok(n as u64)
    });
    // many roots, many nodes, many samples
    ck.space(&format!("many_points_{}", T::NAME), 5 * 5 * 3 * 9, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let (u, w, sp, n) = (d.n(5), d.n(5), d.pick(&[0.5, 1.0, 0.25]), d.n(9));
        let rs: Vec<f64> = (0..n).map(|k| (((u + k * (w + 1)) % 9) as f64 - 4.0) * sp).collect();
        let mut want = vec![1.0];
        let mut size = vec![1.0];
        for x in &rs {
            want = pmul(&want, &[-x, 1.0]);
            size = pmul(&size, &[x.abs(), 1.0]);
        }
        let tr: Vec<T> = rs.iter().map(|x| t(*x)).collect();
        let p = co(&Polynomial::<9, T>::from_roots(&tr).map_err(|e| format!("{rs:?}: {e:?}"))?);
        for k in 0..9 {
            let z = |v: &[f64]| v.get(k).copied().unwrap_or(0.0);
            ensure_close!(p[k], z(&want), T::EPS * 8.0, T::EPS * 16.0 * z(&size), "roots {rs:?}: coefficient {k}");
        }
        verdict(Polynomial::<5, T>::from_roots(&tr), if n >= 5 { &[E::DegreeOverflow] } else { &[] }, &format!("{rs:?} in 5"))?;
        // seven nodes in any order
        let x: [f64; 7] = std::array::from_fn(|k| (((u + k * (w % 3 + 1) * 2) % 7) as f64 - 3.0) * sp);
        let y: [f64; 7] = std::array::from_fn(|k| [0.0, 1.0, -2.0][(k * (n + 1) + w) % 3]);
        let fine = (0..7).all(|a| (0..a).all(|b| x[a] != x[b]));
        if let Some(p) = verdict(Polynomial::<7, T>::from_points(&ta(x), &ta(y)), if fine { &[] } else { &[E::DuplicateNode] }, &format!("{x:?}"))? {
            for k in 0..7 {
                ensure_close!(g(p.evaluate(t(x[k]))), y[k], 0.0, T::EPS * 4000.0, "through {x:?} {y:?}: point {k}");
            }
        }
        // a curve of degree 0 to 3 under 24 samples; and what no cubic explains is left at right angles
        let xs: [f64; 24] = std::array::from_fn(|k| (((k * (2 * w + 1) + u) % 24) as f64 - 11.5) * sp / 4.0);
        let ys: [f64; 24] = std::array::from_fn(|k| 0.5 - xs[k] + if n % 2 == 0 { 0.25 * xs[k].powi(3) } else { 2.0 * xs[k] * xs[k] } + if n > 4 { [1.0, -1.0, 0.5][(k + n) % 3] } else { 0.0 });
        let fit = Polynomial::<4, T>::fit_least_squares(&ta(xs), &ta(ys)).map_err(|e| format!("{xs:?}: {e:?}"))?;
        for m in 0..4 {
            let (dot, size) = xs.iter().zip(&ys).fold((0.0, 0.0), |(s, b), (x, y)| {
                let r = (y - ev(&co(&fit), *x)) * x.powi(m);
                (s + r, b + (y.abs() + 1.0) * x.powi(m).abs())
            });
            ensure_close!(dot, 0.0, 0.0, T::EPS * 2000.0 * size, "least squares {xs:?} {ys:?}: power {m}");
        }
        Ok(n as u64)
    });
    ck.space(&format!("from_jet_{}", T::NAME), 4 * 4 * 4, |i| format!("{i}"), |i| {
        let c: [f64; 3] = Dig(i).arr(&[0.0, 1.0, -2.5, 7.0]);
        let mut j = Jet::<T, 3>::constant(T::ZERO);
        j.coeffs = ta(c);
        same(&co(&Polynomial::<3, T>::from_jet(&j).map_err(|e| format!("{e:?}"))?), &c, 0.0, "jet")?;
        same(&co(&Polynomial::<5, T>::from_jet(&j).map_err(|e| format!("{e:?}"))?), &c, 0.0, "jet")?;
        verdict(Polynomial::<2, T>::from_jet(&j), &[E::DegreeOverflow], "jet")?;
        // the series of a function at x: p(h) = f(x + h) for a polynomial f
        let f = Polynomial::<3, Jet<T, 3>>::new(c.map(|v| Jet::constant(t(v))));
        for x in [0.0, 1.0, -3.0] {
            let s = f.evaluate(Jet::variable(t(x)));
            let p = Polynomial::<3, T>::from_jet(&s).map_err(|e| format!("{e:?}"))?.shift_argument(t(-x));
            same(&co(&p), &c, T::EPS * 300.0, &format!("series at {x}"))?;
        }
        Ok(0)
    });
    let lim = [(-1.0, 1.0), (0.0, 1.0), (-3.0, 10.0), (100.0, 101.0)];
    ck.space(&format!("chebyshev_{}", T::NAME), 4, |i| format!("{i}"), |i| {
        let (a, b) = lim[i as usize];
        fn go<T: Fl, const N: usize>(a: f64, b: f64) -> Result<(), String> {
            let x = ga(Polynomial::<N, T>::chebyshev_nodes(t(a), t(b)));
            for k in 0..N {
                let w = (a + b) / 2.0 - (b - a) / 2.0 * ((2 * k + 1) as f64 * std::f64::consts::PI / (2 * N) as f64).cos();
                ensure_close!(x[k], w, 0.0, T::EPS * 8.0 * (a.abs() + b.abs()), "node {k} of {N} in {a}..{b}");
            }
            ensure!(x.windows(2).all(|w| w[0] < w[1]), "order {x:?}");
            Ok(())
        }
        go::<T, 0>(a, b)?;
        go::<T, 1>(a, b)?;
        go::<T, 2>(a, b)?;
        go::<T, 5>(a, b)?;
        go::<T, 8>(a, b)?;
        Ok(i)
    });
    // interpolation and least squares through every choice of positions
    let na = [-1.0, 0.0, 0.5, 2.0, 3.0];
    let va = [0.0, 1.0, -2.0];
    let e = if T::IS32 { 2e-4 } else { 1e-11 };
    ck.space(&format!("points_{}", T::NAME), 5u64.pow(4) * 81 * 3, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let x: [f64; 4] = d.arr(&na);
        let y: [f64; 4] = d.arr(&va);
        let off = d.pick(&[0.0, 5.0, -40.0]);
        let x = x.map(|v| v + off);
        let what = format!("points {x:?} {y:?}");
        let dup = |n: usize| (0..n).any(|a| (0..a).any(|b| x[a] == x[b]));
        let al: &[E] = if dup(4) { &[E::DuplicateNode] } else { &[] };
        let sc = 1.0 + off.abs() * 4.0;
        let tol = e * sc * sc * sc;
        if let Some(p) = verdict(Polynomial::<4, T>::from_points(&ta(x), &ta(y)), al, &what)? {
            for k in 0..4 {
                ensure_close!(g(p.evaluate(t(x[k]))), y[k], 0.0, tol, "{what}: at point {k}");
            }
        }
        let (x3, y3) = ([x[0], x[1], x[2]], [y[0], y[1], y[2]]);
        let al: &[E] = if dup(3) { &[E::DuplicateNode] } else { &[] };
        if let Some(p) = verdict(Polynomial::<3, T>::from_points(&ta(x3), &ta(y3)), al, &what)? {
            for k in 0..3 {
                ensure_close!(g(p.evaluate(t(x[k]))), y[k], 0.0, tol, "{what}: at point {k} of 3");
            }
        }
        ensure_eq!(Polynomial::<1, T>::from_points(&[t(x[0])], &[t(y[0])]).map(|p| g(p.evaluate(t(9.0)))), Ok(y[0]), "{what}: one point");
        // least squares: a line through four points, residual orthogonal to 1 and x
        let all_same = x.iter().all(|v| *v == x[0]);
        let al: &[E] = if all_same { &[E::DuplicateNode] } else { &[] };
        if let Some(p) = verdict(Polynomial::<2, T>::fit_least_squares(&ta(x), &ta(y)), al, &format!("line through {what}"))? {
            let r: Vec<f64> = (0..4).map(|k| g(p.evaluate(t(x[k]))) - y[k]).collect();
            ensure_close!(r.iter().sum::<f64>(), 0.0, 0.0, tol * 8.0, "line through {what}: misses {r:?}");
            ensure_close!(r.iter().zip(&x).map(|(a, b)| a * (b - off)).sum::<f64>(), 0.0, 0.0, tol * 20.0, "line through {what}: misses {r:?}");
        }
        if !dup(4) {
            // as many points as coefficients: the fit goes through them
            let p = Polynomial::<4, T>::fit_least_squares(&ta(x), &ta(y)).map_err(|m| format!("cubic fit through {what}: {m:?}"))?;
            for k in 0..4 {
                ensure_close!(g(p.evaluate(t(x[k]))), y[k], 0.0, tol, "cubic fit through {what}: at point {k}");
            }
        }
        let mut dx = x.to_vec();
        dx.sort_by(|a, b| a.partial_cmp(b).unwrap());
        dx.dedup();
        if dx.len() >= 3 {
            let p = Polynomial::<3, T>::fit_least_squares(&ta(x), &ta(y)).map_err(|m| format!("parabola through {what}: {m:?}"))?;
            let r: Vec<f64> = (0..4).map(|k| g(p.evaluate(t(x[k]))) - y[k]).collect();
            for n in 0..3 {
                ensure_close!(r.iter().zip(&x).map(|(a, b)| a * (b - off).powi(n)).sum::<f64>(), 0.0, 0.0, tol * 60.0, "parabola through {what}: misses {r:?}, moment {n}");
            }
        }
        verdict(Polynomial::<5, T>::fit_least_squares(&ta(x), &ta(y)), &if all_same { vec![E::TooFewSamples, E::DuplicateNode] } else { vec![E::TooFewSamples] }, &what)?;
        op(5);
        Ok(dx.len() as u64)
    });
    // one average is what a constant fit gives
    ck.space(&format!("points_unusable_{}", T::NAME), 6 * 6 * 6 * 6, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let sp = [0.0, 1.0, 2.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY];
        let x: [f64; 2] = d.arr(&sp);
        let y: [f64; 2] = d.arr(&sp);
        let what = format!("{x:?} {y:?}");
        let mut al = vec![];
        if x.iter().chain(&y).any(|v| !v.is_finite()) {
            al.push(E::NonFinite);
        }
        if x[0] == x[1] {
            al.push(E::DuplicateNode);
        }
        verdict(Polynomial::<2, T>::from_points(&ta(x), &ta(y)), &al, &what)?;
        if let Some(p) = verdict(Polynomial::<1, T>::fit_least_squares(&ta(x), &ta(y)), &al, &what)? {
            ensure_close!(g(p.evaluate(t(0.3))), (y[0] + y[1]) / 2.0, T::EPS * 20.0, T::EPS * 20.0, "{what}: constant fit");
        }
        verdict(Polynomial::<0, T>::from_points(&[], &[]).map(|p| p.is_zero()), &[], "no points")?;
        verdict(Polynomial::<1, T>::fit_least_squares::<0>(&[], &[]), &[E::TooFewSamples, E::Empty], "no points")?;
        Ok(al.len() as u64)
    });
    // end conditions
    let da = [0.0, 1.0, -2.0, 0.5];
    let spans = [1.0, 2.0, 0.25, 10.0, 0.0, -1.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY];
    ck.space(&format!("end_slopes_{}", T::NAME), 6u64.pow(4) * 9, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let c: [f64; 4] = d.arr(&[0.0, 1.0, -2.0, 0.5, f64::NAN, f64::INFINITY]);
        let s = d.pick(&spans);
        let what = format!("{c:?} over {s}");
        let al = end_errors(&c, s);
        let Some(p) = verdict(Polynomial::<4, T>::from_endpoint_derivatives(t(c[0]), t(c[1]), t(c[2]), t(c[3]), t(s)), &al, &what)? else { return Ok(1) };
        let a: [T; 2] = p.evaluate_with_derivatives(T::ZERO);
        let b: [T; 2] = p.evaluate_with_derivatives(T::ONE);
        for (got, want) in [(g(a[0]), c[0]), (g(a[1]) / s, c[1]), (g(b[0]), c[2]), (g(b[1]) / s, c[3])] {
            ensure_close!(got, want, 0.0, T::EPS * 300.0 * (1.0 + 1.0 / s), "{what}: end conditions");
        }
        Ok(0)
    });
    let n7 = ck.q(3u64, 4);
    ck.space(&format!("end_jerks_{}", T::NAME), n7.pow(8) * 5, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let a: [f64; 4] = d.arr(&da[..n7 as usize]);
        let b: [f64; 4] = d.arr(&da[..n7 as usize]);
        let s = [1.0, 2.0, 0.25, 0.0, f64::NAN][d.n(5)];
        let what = format!("{a:?} {b:?} over {s}");
        let al = end_errors(&a, s);
        let Some(p) = verdict(Polynomial::<8, T>::from_endpoint_derivatives(&ta(a), &ta(b), t(s)), &al, &what)? else { return Ok(1) };
        let x: [T; 4] = p.evaluate_with_derivatives(T::ZERO);
        let y: [T; 4] = p.evaluate_with_derivatives(T::ONE);
        let m = co(&p).iter().fold(1.0, |m: f64, c| m.max(c.abs()));
        for k in 0..4 {
            let u = s.powi(k as i32);
            let tol = T::EPS * 4e4 * m / u.min(1.0);
            ensure_close!(g(x[k]) / u, a[k], 0.0, tol, "{what}: start order {k}");
            ensure_close!(g(y[k]) / u, b[k], 0.0, tol, "{what}: end order {k}");
        }
        Ok(0)
    });
    ck.space(&format!("end_jerks_unusable_{}", T::NAME), 8 * 3 * 9, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let mut v = [1.0; 8];
        v[d.n(8)] = [f64::NAN, f64::INFINITY, 2.0][d.n(3)];
        let s = d.pick(&spans);
        let al = end_errors(&v, s);
        verdict(Polynomial::<8, T>::from_endpoint_derivatives(&ta([v[0], v[1], v[2], v[3]]), &ta([v[4], v[5], v[6], v[7]]), t(s)), &al, &format!("{v:?} over {s}"))?;
        Ok(al.len() as u64)
    });
}
fn end_errors(v: &[f64], s: f64) -> Vec<E> {
    let mut al = vec![];
    if !s.is_finite() || v.iter().any(|x| !x.is_finite()) {
        al.push(E::NonFinite);
    }
    if s <= 0.0 {
        al.push(E::SpanNotPositive);
    }
    al
}
type Pw<T> = PiecewisePolynomial<3, 4, 2, T>;
const PIECES: [[[f64; 4]; 2]; 3] = [[[1.0, 2.0, -1.0, 0.5], [0.0, 0.0, 3.0, 0.0]], [[-1.0, 0.5, 0.25, 2.0], [4.0, -1.0, 0.0, 1.0]], [[2.0, 0.0, 0.0, -3.0], [1.0, 1.0, 1.0, 1.0]]];
fn piecewise<T: Fl>(ck: &Ck) {
    let sa = [1.0, 0.5, 2.0, 3.0];
    let bad = [0.0, -1.0, f64::NAN, f64::INFINITY, 1.0];
    ck.space(&format!("pieces_unusable_{}", T::NAME), 6 * 6 * 5 * 5, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let (np, ns) = (d.n(6), d.n(6));
        let s: [f64; 2] = d.arr(&bad);
        let ps: Vec<[Polynomial<4, T>; 2]> = (0..np).map(|k| PIECES[k % 3].map(|c| Polynomial::new(ta(c)))).collect();
        let ss: Vec<f64> = (0..ns).map(|k| s[k % 2]).collect();
        let ts: Vec<T> = ss.iter().map(|x| t(*x)).collect();
        let mut al = vec![];
        if np == 0 || ns == 0 {
            al.push(E::Empty);
        }
        if np != ns || np > 3 {
            al.push(E::CapacityExceeded);
        }
        if ss.iter().any(|x| !(x.is_finite() && *x > 0.0)) {
            al.push(E::SpanNotPositive);
        }
        verdict(Pw::<T>::try_from_pieces(&ps, &ts), &al, &format!("{np} pieces, spans {ss:?}"))?;
        Ok(al.len() as u64)
    });
    ck.space(&format!("pieces_{}", T::NAME), 64 * 3 * 6, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let s: [f64; 3] = d.arr(&sa);
        let n = d.n(3) + 1;
        let rot = d.n(3);
        let axes_swapped = d.n(2) == 1;
        let pf: Vec<[[f64; 4]; 2]> = (0..n).map(|k| { let p = PIECES[(k + rot) % 3]; if axes_swapped { [p[1], p[0]] } else { p } }).collect();
        let ps: Vec<[Polynomial<4, T>; 2]> = pf.iter().map(|p| p.map(|c| Polynomial::new(ta(c)))).collect();
        let ts: Vec<T> = s[..n].iter().map(|x| t(*x)).collect();
        let c = Pw::<T>::try_from_pieces(&ps, &ts).map_err(|e| format!("{e:?}"))?;
        let what = format!("{n} pieces from {rot} of spans {:?}", &s[..n]);
        let total: f64 = s[..n].iter().sum();
        ensure_eq!(c.piece_count(), n, "{what}");
        ensure!(!c.is_empty(), "{what}");
        ensure_close!(g(c.total_span()), total, 0.0, 0.0, "{what}: span");
        for k in 0..5 {
            ensure_eq!(c.span(k).map(g), s[..n].get(k).copied(), "{what}: span {k}");
            for a in 0..4 {
                ensure_eq!(c.piece_polynomial(k, a).map(|p| co(p)), if k < n && a < 2 { Some(pf[k][a].to_vec()) } else { None }, "{what}: piece {k} axis {a}");
            }
        }
        let starts: Vec<f64> = (0..n).map(|k| s[..k].iter().sum()).collect();
        // value and derivatives against the shared parameter; at a join either piece is right for
        // rounding but the later one is documented for exact numbers
        let refe = |u: f64, a: usize, ord: usize| -> f64 {
            let (k, al) = if u <= 0.0 { (0, 0.0) } else if u >= total { (n - 1, 1.0) } else {
                let k = (0..n).rev().find(|k| u >= starts[*k]).unwrap();
                (k, (u - starts[k]) / s[k])
            };
            ev(&der(&pf[k][a], ord), al) / s[k].powi(ord as i32)
        };
        let mut us: Vec<f64> = vec![-3.0, -0.0, 0.0, total, total + 2.0, f64::INFINITY, f64::NEG_INFINITY];
        for k in 0..n {
            us.extend([starts[k], starts[k] + s[k] * 0.25, starts[k] + s[k] * 0.875]);
        }
        let tol = T::EPS * 300.0;
        for &u in &us {
            let v = c.evaluate(t(u)).map_err(|e| format!("{e:?}"))?;
            let d: [_; 6] = c.evaluate_with_derivatives(t(u)).map_err(|e| format!("{e:?}"))?;
            for a in 0..2 {
                ensure_close!(g(v[a]), refe(u, a, 0), tol, tol, "{what}: axis {a} at {u}");
                for o in 0..6 {
                    ensure_close!(g(d[o][a]), refe(u, a, o), tol * 8.0, tol * 8.0, "{what}: axis {a} order {o} at {u}");
                    if o > 0 {
                        let w = c.nth_derivative(o).evaluate(t(u)).map_err(|e| format!("{e:?}"))?;
                        ensure_close!(g(w[a]), refe(u, a, o), tol * 8.0, tol * 8.0, "{what}: derivative curve {o} axis {a} at {u}");
                    }
                }
                let w = c.derivative().evaluate(t(u)).map_err(|e| format!("{e:?}"))?;
                ensure_close!(g(w[a]), refe(u, a, 1), tol * 8.0, tol * 8.0, "{what}: slope curve axis {a} at {u}");
                op(12);
            }
            for &w in &us {
                // trimmed area
                let (lo, hi, sg) = if w < u { (w, u, -1.0) } else { (u, w, 1.0) };
                let (lo, hi) = (lo.clamp(0.0, total), hi.clamp(0.0, total));
                let r = c.definite_integral(t(u), t(w)).map_err(|e| format!("{e:?}"))?;
                for a in 0..2 {
                    let mut want = 0.0;
                    for k in 0..n {
                        let (x, y) = (((lo - starts[k]) / s[k]).clamp(0.0, 1.0), ((hi - starts[k]) / s[k]).clamp(0.0, 1.0));
                        want += s[k] * pf[k][a].iter().enumerate().map(|(j, q)| q * (y.powi(j as i32 + 1) - x.powi(j as i32 + 1)) / (j as f64 + 1.0)).sum::<f64>();
                    }
                    ensure_close!(g(r[a]), sg * want, tol, tol * 4.0, "{what}: area axis {a} over {u}..{w}");
                }
                op(1);
            }
        }
        ensure!(c.nth_derivative(0) == c, "{what}: zeroth derivative");
        // the area of the slope curve is the rise, where there are no jumps: inside one piece
        let r = c.derivative().definite_integral(t(starts[n - 1]), t(total)).map_err(|e| format!("{e:?}"))?;
        for a in 0..2 {
            ensure_close!(g(r[a]), ev(&pf[n - 1][a], 1.0) - pf[n - 1][a][0], tol, tol * 4.0, "{what}: rise of axis {a}");
        }
        Ok(n as u64)
    });
}
type Mp<T, const M: usize> = MultivariatePolynomial<2, M, T>;
fn mval(ts: &[(f64, [u32; 2])], x: [f64; 2]) -> f64 {
    ts.iter().map(|(c, e)| c * x[0].powi(e[0] as i32) * x[1].powi(e[1] as i32)).sum()
}
fn collected(ts: &[(f64, [u32; 2])]) -> Vec<(f64, [u32; 2])> {
    let mut r: Vec<(f64, [u32; 2])> = vec![];
    for t in ts {
        match r.iter_mut().find(|x| x.1 == t.1) {
            Some(x) => x.0 += t.0,
            None => r.push(*t),
        }
    }
    r.retain(|x| x.0 != 0.0);
    r
}
fn tms<T: Fl, const M: usize>(p: &Mp<T, M>) -> Vec<(f64, [u32; 2])> {
    p.terms().iter().map(|m| (g(m.coefficient()), *m.exponents())).collect()
}
fn same_terms(a: &[(f64, [u32; 2])], b: &[(f64, [u32; 2])], tol: f64, what: &str) -> Result<(), String> {
    let (mut a, mut b) = (collected(a), collected(b));
    a.sort_by_key(|x| x.1);
    b.sort_by_key(|x| x.1);
    ensure_eq!(a.iter().map(|x| x.1).collect::<Vec<_>>(), b.iter().map(|x| x.1).collect::<Vec<_>>(), "{what}: powers");
    for (x, y) in a.iter().zip(&b) {
        ensure_close!(x.0, y.0, tol, 0.0, "{what}: coefficient of {:?}", x.1);
    }
    Ok(())
}
fn multi<T: Fl>(ck: &Ck) {
    let terms: Vec<(f64, [u32; 2])> = {
        let mut v = vec![];
        for c in [1.0, -2.0, 0.0] {
            for e in [[0, 0], [1, 0], [0, 1], [2, 1], [0, 3]] {
                v.push((c, e));
            }
        }
        v
    };
    let xs = [[0.0, 0.0], [1.0, -2.0], [0.5, 3.0], [-1.5, 0.0], [0.0, 2.0]];
    let nt = terms.len() as u64;
    let e = T::EPS * 64.0;
    let mk = |v: &[(f64, [u32; 2])]| v.iter().map(|(c, e)| MultivariateTerm::<2, T>::new(t(*c), *e)).collect::<Vec<_>>();
    ck.space(&format!("several_variables_{}", T::NAME), nt.pow(3) * 4, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let all = [d.pick(&terms), d.pick(&terms), d.pick(&terms)];
        let n = d.n(4);
        let v = &all[..n];
        let what = format!("{v:?}");
        let p = Mp::<T, 3>::try_from_terms(&mk(v)).map_err(|e| format!("{what}: {e:?}"))?;
        ensure_eq!(p.len(), n, "{what}");
        ensure_eq!(p.is_empty(), n == 0, "{what}");
        ensure!(p.is_finite(), "{what}");
        ensure_eq!(tms(&p), v.to_vec(), "{what}");
        verdict(Mp::<T, 2>::try_from_terms(&mk(v)), if n > 2 { &[E::CapacityExceeded] } else { &[] }, &what)?;
        ensure_eq!(p.total_degree(), v.iter().map(|x| x.1[0] + x.1[1]).max(), "{what}: total degree");
        for k in 0..3 {
            ensure_eq!(p.degree_in(k), if k < 2 { v.iter().map(|x| x.1[k]).max() } else { None }, "{what}: degree in {k}");
        }
        for x in xs {
            ensure_close!(g(p.evaluate(&ta(x))), mval(v, x), e, e, "{what}: value at {x:?}");
            let gr = p.gradient_at(&ta(x));
            for k in 0..2 {
                let dv: Vec<_> = v.iter().filter(|m| m.1[k] > 0).map(|m| { let mut e = m.1; e[k] -= 1; (m.0 * m.1[k] as f64, e) }).collect();
                ensure_close!(g(gr[k]), mval(&dv, x), e, e, "{what}: slope {k} at {x:?}");
                same_terms(&tms(&p.partial_derivative(k).map_err(|e| format!("{e:?}"))?), &dv, e, &format!("{what}: derivative by {k}"))?;
                let iv: Vec<_> = v.iter().map(|m| { let mut e = m.1; e[k] += 1; (m.0 / e[k] as f64, e) }).collect();
                same_terms(&tms(&p.partial_antiderivative(k).map_err(|e| format!("{e:?}"))?), &iv, e, &format!("{what}: antiderivative by {k}"))?;
                let sv: Vec<_> = v.iter().map(|m| { let mut e = m.1; e[k] = 0; (m.0 * x[k].powi(m.1[k] as i32), e) }).collect();
                let s = p.substitute(k, t(x[k])).map_err(|e| format!("{e:?}"))?;
                same_terms(&tms(&s), &sv, e, &format!("{what}: variable {k} fixed at {}", x[k]))?;
                ensure_eq!(s.len(), collected(&sv).len(), "{what}: variable {k} fixed at {}: terms not merged", x[k]);
            }
            op(8);
        }
        for k in [2, 5, usize::MAX] {
            verdict(p.partial_derivative(k), &[E::VariableOutOfRange], &what)?;
            verdict(p.partial_antiderivative(k), &[E::VariableOutOfRange], &what)?;
            verdict(p.substitute(k, T::ONE), &[E::VariableOutOfRange], &what)?;
        }
        let mut q = p;
        q.collect_like_terms();
        same_terms(&tms(&q), v, e, &what)?;
        ensure_eq!(q.len(), collected(v).len(), "{what}: collected");
        // sums and products with the same terms the other way round
        let mut w = v.to_vec();
        w.reverse();
        w.truncate(2);
        let o = Mp::<T, 2>::try_from_terms(&mk(&w)).map_err(|e| format!("{e:?}"))?;
        let cat: Vec<_> = v.iter().chain(&w).copied().collect();
        same_terms(&tms(&p.add_into::<2, 5>(&o).map_err(|e| format!("{e:?}"))?), &cat, e, &format!("{what} + {w:?}"))?;
        verdict(p.add_into::<2, 3>(&o), if cat.len() > 3 { &[E::CapacityExceeded] } else { &[] }, &format!("{what} + {w:?} in 3"))?;
        let pr: Vec<_> = v.iter().flat_map(|a| w.iter().map(move |b| (a.0 * b.0, [a.1[0] + b.1[0], a.1[1] + b.1[1]]))).collect();
        let m = p.multiply_into::<2, 6>(&o).map_err(|e| format!("{e:?}"))?;
        same_terms(&tms(&m), &pr, e, &format!("{what} * {w:?}"))?;
        ensure_eq!(m.len(), collected(&pr).len(), "{what} * {w:?}: terms not merged");
        verdict(p.multiply_into::<2, 3>(&o), if pr.len() > 3 { &[E::CapacityExceeded] } else { &[] }, &format!("{what} * {w:?} in 3"))?;
        Ok(n as u64)
    });
    // four variables, six terms
    let four: Vec<(f64, [u32; 4])> = vec![(1.0, [1, 2, 0, 1]), (-2.0, [0, 0, 3, 1]), (0.5, [2, 1, 1, 0]), (3.0, [0; 4]), (-1.0, [0, 4, 0, 0]), (1.0, [1, 2, 0, 1]), (2.0, [0, 0, 0, 5])];
    ck.space(&format!("four_variables_{}", T::NAME), 7u64.pow(4), |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let v: Vec<(f64, [u32; 4])> = d.arr::<4, _>(&[0usize, 1, 2, 3, 4, 5, 6]).iter().map(|k| four[*k]).collect();
        let what = format!("{v:?}");
        let mkt = |v: &[(f64, [u32; 4])]| v.iter().map(|(c, e)| MultivariateTerm::<4, T>::new(t(*c), *e)).collect::<Vec<_>>();
        let val = |v: &[(f64, [u32; 4])], x: &[f64; 4]| v.iter().map(|m| m.0 * (0..4).map(|k| x[k].powi(m.1[k] as i32)).product::<f64>()).sum::<f64>();
        let p = MultivariatePolynomial::<4, 5, T>::try_from_terms(&mkt(&v)).map_err(|e| format!("{what}: {e:?}"))?;
        let w = [four[(i % 7) as usize], four[2]];
        let o = MultivariatePolynomial::<4, 2, T>::try_from_terms(&mkt(&w)).map_err(|e| format!("{what}: {e:?}"))?;
        let pr: Vec<_> = v.iter().flat_map(|a| w.iter().map(move |b| (a.0 * b.0, std::array::from_fn(|k| a.1[k] + b.1[k])))).collect();
        let cat: Vec<_> = v.iter().chain(&w).copied().collect();
        let (m, s) = (p.multiply_into::<2, 8>(&o).map_err(|e| format!("{what}: {e:?}"))?, p.add_into::<2, 6>(&o).map_err(|e| format!("{what}: {e:?}"))?);
        ensure_eq!(p.total_degree(), v.iter().map(|x| x.1.iter().sum()).max(), "{what}: total degree");
        let mut c = p;
        c.collect_like_terms();
        for x in [[1.0, -2.0, 0.5, 1.5], [0.0, 3.0, -1.0, 2.0], [-1.5, 0.5, 2.0, 0.0]] {
            let close_to = |q: f64, v: &[(f64, [u32; 4])], what: &str| -> Result<(), String> {
                ensure_close!(q, val(v, &x), e, e * (1.0 + v.iter().map(|m| val(&[*m], &x).abs()).sum::<f64>()), "{what} at {x:?}");
                Ok(())
            };
            close_to(g(p.evaluate(&ta(x))), &v, &what)?;
            close_to(g(c.evaluate(&ta(x))), &v, &format!("{what} collected"))?;
            close_to(g(m.evaluate(&ta(x))), &pr, &format!("{what} * {w:?}"))?;
            close_to(g(s.evaluate(&ta(x))), &cat, &format!("{what} + {w:?}"))?;
            let gr = p.gradient_at(&ta(x));
            for k in 0..4 {
                ensure_eq!(p.degree_in(k), v.iter().map(|x| x.1[k]).max(), "{what}: degree in {k}");
                let dv: Vec<_> = v.iter().filter(|m| m.1[k] > 0).map(|m| { let mut e = m.1; e[k] -= 1; (m.0 * m.1[k] as f64, e) }).collect();
                close_to(g(gr[k]), &dv, &format!("{what}: slope {k}"))?;
                close_to(g(p.partial_derivative(k).map_err(|e| format!("{e:?}"))?.evaluate(&ta(x))), &dv, &format!("{what}: derivative by {k}"))?;
                let iv: Vec<_> = v.iter().map(|m| { let mut e = m.1; e[k] += 1; (m.0 / e[k] as f64, e) }).collect();
                close_to(g(p.partial_antiderivative(k).map_err(|e| format!("{e:?}"))?.evaluate(&ta(x))), &iv, &format!("{what}: antiderivative by {k}"))?;
                let f = p.substitute(k, t(2.0)).map_err(|e| format!("{e:?}"))?;
                let sv: Vec<_> = v.iter().map(|m| { let mut e = m.1; e[k] = 0; (m.0 * 2f64.powi(m.1[k] as i32), e) }).collect();
                close_to(g(f.evaluate(&ta(x))), &sv, &format!("{what}: variable {k} fixed at 2"))?;
            }
            op(10);
        }
        Ok(m.len() as u64)
    });
    // one variable, to and from the dense form
    ck.space(&format!("dense_{}", T::NAME), 4u64.pow(4), |i| format!("{i}"), |i| {
        let c: [f64; 4] = Dig(i).arr(&[0.0, 1.0, -2.0, 0.5]);
        let p = Polynomial::<4, T>::new(ta(c));
        let nz = c.iter().filter(|x| **x != 0.0).count();
        let al: &[E] = if nz > 2 { &[E::CapacityExceeded] } else { &[] };
        verdict(MultivariatePolynomial::<1, 2, T>::from_univariate(&p), al, &format!("{c:?}"))?;
        let m = MultivariatePolynomial::<1, 4, T>::from_univariate(&p).map_err(|e| format!("{c:?}: {e:?}"))?;
        ensure_eq!(m.len(), nz, "{c:?}");
        same(&co(&m.to_univariate::<4>().map_err(|e| format!("{e:?}"))?), &c, 0.0, "back")?;
        let al: &[E] = if deg(&c).unwrap_or(0) > 1 { &[E::DegreeOverflow] } else { &[] };
        verdict(m.to_univariate::<2>(), al, &format!("{c:?} in 2"))?;
        let mut r = MultivariatePolynomial::<1, 5, T>::new();
        for k in 0..4 {
            r.push(MultivariateTerm::new(t(c[k]), [1])).map_err(|e| format!("{e:?}"))?;
        }
        same(&co(&r.to_univariate::<2>().map_err(|e| format!("{e:?}"))?), &[0.0, c.iter().sum()], T::EPS * 8.0, "like terms add")?;
        Ok(nz as u64)
    });
    ck.space(&format!("terms_unusable_{}", T::NAME), 6 * 6, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let c = d.pick(&[1.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 0.0, -3.0]);
        let ex = d.pick(&[0u32, 1, 5, u32::MAX - 1, u32::MAX, 1 << 31]);
        let al: &[E] = if c.is_finite() { &[] } else { &[E::NonFinite] };
        let m = MultivariateTerm::<2, T>::new(t(c), [ex, 1]);
        let Some(p) = verdict(Mp::<T, 1>::try_from_array([m]), al, "array")? else {
            verdict(Mp::<T, 1>::try_from_terms(&[m]), al, "terms")?;
            verdict(Mp::<T, 3>::new().push(m), al, "push")?;
            return Ok(1);
        };
        ensure_eq!(p.total_degree(), Some(ex.saturating_add(1)), "total degree");
        let al: &[E] = if ex == u32::MAX { &[E::DegreeOverflow] } else { &[] };
        verdict(p.partial_antiderivative(0), al, "antiderivative")?;
        let al: &[E] = if ex > u32::MAX / 2 { &[E::DegreeOverflow] } else { &[] };
        verdict(p.multiply_into::<1, 1>(&p), al, "square")?;
        let mut q = p;
        verdict(q.push(m), &[E::CapacityExceeded], "push")?;
        ensure_close!(g(p.evaluate(&ta([1.0, 2.0]))), 2.0 * c, 0.0, 0.0, "value at one");
        ensure_close!(g(p.evaluate(&ta([0.0, 2.0]))), if ex == 0 { 2.0 * c } else { 0.0 }, 0.0, 0.0, "value at zero");
        ensure_eq!(Mp::<T, 3>::new().total_degree(), None, "empty");
        ensure_eq!(Mp::<T, 3>::new().degree_in(0), None, "empty");
        Ok(0)
    });
}
fn main() {
    let ck = Ck::new("C10");
    single::<f64>(&ck);
    single::<f32>(&ck);
    pair::<f64>(&ck);
    pair::<f32>(&ck);
    rescaled::<f64>(&ck);
    rescaled::<f32>(&ck);
    build::<f64>(&ck);
    build::<f32>(&ck);
    piecewise::<f64>(&ck);
    piecewise::<f32>(&ck);
    multi::<f64>(&ck);
    multi::<f32>(&ck);
    ck.finish()
}
