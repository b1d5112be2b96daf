//! C11: real roots of a polynomial, closed form and by sign changes.
use mc::num::*;
use mc::refmodel::Rat;
use mc::*;
use multicalc::error::PolynomialError as E;
use multicalc::polynomial::Polynomial;

/// exact Sturm chain of an integer polynomial, lowest power first
fn sturm(p: &[i64]) -> Vec<Vec<Rat>> {
    fn trim(mut v: Vec<Rat>) -> Vec<Rat> {
        while v.last().is_some_and(|x| x.is_zero()) {
            v.pop();
        }
        v
    }
    // entries are scaled to coprime integers so the exact numbers stay small
    fn prim(v: Vec<Rat>) -> Vec<Rat> {
        let mut l: i128 = 1;
        for x in &v {
            let (a, mut b, mut a2) = (l, x.d, l);
            while b != 0 {
                (a2, b) = (b, a2 % b);
            }
            l = a / a2 * x.d;
        }
        let n: Vec<i128> = v.iter().map(|x| x.n * (l / x.d)).collect();
        let mut gg: i128 = 0;
        for x in &n {
            let (mut a, mut b) = (gg.abs(), x.abs());
            while b != 0 {
                (a, b) = (b, a % b);
            }
            gg = a;
        }
        n.iter().map(|x| Rat::new(x / gg.max(1), 1)).collect()
    }
    let a = trim(p.iter().map(|x| Rat::int(*x)).collect());
    let b = trim(a.iter().enumerate().skip(1).map(|(k, x)| *x * Rat::int(k as i64)).collect());
    let mut ch = vec![a];
    if b.is_empty() {
        return ch;
    }
    ch.push(prim(b));
    loop {
        let (x, y) = (&ch[ch.len() - 2], &ch[ch.len() - 1]);
        let mut r = x.clone();
        while r.len() >= y.len() {
            let s = *r.last().unwrap() / *y.last().unwrap();
            let off = r.len() - y.len();
            for (k, c) in y.iter().enumerate() {
                r[off + k] = r[off + k] - s * *c;
            }
            r.pop();
        }
        let r = trim(r);
        if r.is_empty() {
            return ch;
        }
        ch.push(prim(r.iter().map(|c| Rat::ZERO - *c).collect()));
    }
}
fn sgn(p: &[Rat], x: Option<Rat>, neg_inf: bool) -> i32 {
    let v = match x {
        Some(x) => p.iter().rev().fold(Rat::ZERO, |a, c| a * x + *c),
        None => {
            let l = *p.last().unwrap();
            if neg_inf && p.len() % 2 == 0 { Rat::ZERO - l } else { l }
        }
    };
    v.n.signum() as i32
}
fn changes(ch: &[Vec<Rat>], x: Option<Rat>, neg: bool) -> i32 {
    let s: Vec<i32> = ch.iter().map(|p| sgn(p, x, neg)).filter(|s| *s != 0).collect();
    s.windows(2).filter(|w| w[0] != w[1]).count() as i32
}
/// distinct real roots
fn distinct(ch: &[Vec<Rat>]) -> usize {
    (changes(ch, None, true) - changes(ch, None, false)) as usize
}
fn between(ch: &[Vec<Rat>], a: Rat, b: Rat) -> usize {
    (changes(ch, Some(a), false) - changes(ch, Some(b), false)) as usize
}
fn repeated(ch: &[Vec<Rat>]) -> bool {
    ch.len() > 1 && ch.last().unwrap().len() > 1
}
fn ev(p: &[f64], x: f64) -> (f64, f64) {
    let v = p.iter().rev().fold(0.0, |a, c| a * x + c);
    let m = p.iter().rev().fold(0.0, |a, c| a * x.abs() + c.abs());
    (v, m)
}
/// Every returned number must be a root as well as rounding allows: |p(r)| small against the size of
/// its terms. `mult` is the highest multiplicity a root can have.
fn are_roots(p: &[f64], roots: &[f64], eps: f64, slackf: f64, what: &str) -> Result<(), String> {
    // the largest root is at most twice this
    let n = p.iter().rposition(|c| *c != 0.0).unwrap();
    let size = (0..n).map(|k| (p[k] / p[n]).abs().powf(1.0 / (n - k) as f64)).fold(0.0, f64::max);
    for r in roots {
        let v = ev(p, *r).0;
        let m = ev(p, r.abs().max(size)).1;
        ensure!(v.abs() <= m * eps * slackf + f64::MIN_POSITIVE, "{what}: {r} is not a root, value {v} against terms of {m}; all {roots:?}");
    }
    for w in roots.windows(2) {
        ensure!(w[0] <= w[1], "{what}: not in increasing order {roots:?}");
    }
    Ok(())
}
fn gap(r: &[f64]) -> f64 {
    r.windows(2).map(|w| w[1] - w[0]).fold(f64::INFINITY, f64::min)
}
fn lin<T: Fl>(ck: &Ck) {
    let al = [0.0, 1.0, -1.0, 2.0, -3.0, 0.5, 1e-20, 1e20, 3e-7, f64::NAN, f64::INFINITY];
    ck.space(&format!("linear_{}", T::NAME), 121, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let p = [d.pick(&al), d.pick(&al)];
        let what = format!("{p:?}");
        let mut e = vec![];
        if p.iter().any(|x| !x.is_finite()) {
            e.push(E::NonFinite);
        }
        if p[1] == 0.0 {
            e.push(E::LeadingCoefficientZero);
        }
        let Some(r) = verdict(Polynomial::<2, T>::new(ta(p)).real_roots(), &e, &what)? else { return Ok(1) };
        ensure_eq!(r.len(), 1, "{what}");
        ensure!(!r.is_empty(), "{what}: empty");
        let want = -p[0] / p[1];
        if want.abs() < 1e30 {
            ensure_close!(g(r.as_slice()[0]), want, 4.0 * T::EPS, T::EPS * 1e-30, "{what}");
        }
        Ok(hf(&[want]))
    });
}
fn bad<T: Fl>(ck: &Ck) {
    // unusable coefficients, every position
    let al = [0.0, 1.0, -2.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY];
    ck.space(&format!("unusable_{}", T::NAME), 6u64.pow(5), |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let p: [f64; 5] = d.arr(&al);
        fn chk<T: Fl, const N: usize>(p: &[f64; 5], f: impl Fn(Polynomial<N, T>) -> Result<usize, E>, top: bool, what: &str) -> Result<(), String> {
            let mut q = [T::ZERO; N];
            for k in 0..N {
                q[k] = t(p[k]);
            }
            let s = &p[..N];
            let mut e = vec![];
            if s.iter().any(|x| !x.is_finite()) {
                e.push(E::NonFinite);
            }
            if if top { s[N - 1] == 0.0 } else { s.iter().all(|x| *x == 0.0) } {
                e.push(E::LeadingCoefficientZero);
            }
            verdict(f(Polynomial::new(q)), &e, &format!("{what} {s:?}"))?;
            Ok(())
        }
        chk::<T, 3>(&p, |q| q.real_roots().map(|r| r.len()), true, "quadratic")?;
        chk::<T, 4>(&p, |q| q.real_roots().map(|r| r.len()), true, "cubic")?;
        chk::<T, 5>(&p, |q| q.real_roots().map(|r| r.len()), true, "quartic")?;
        chk::<T, 5>(&p, |q| q.cauchy_root_bound().map(|_| 0), false, "bound")?;
        chk::<T, 5>(&p, |q| q.count_real_roots(t(-3.0), t(3.0)), false, "count")?;
        chk::<T, 5>(&p, |q| q.real_roots_in(t(-3.0), t(3.0), t(1e-3), 500).map(|r| r.len()), false, "search")?;
        Ok(0)
    });
    let la = [-2.0, 0.0, 1.0, 3.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY];
    let tl = [1e-3, 0.0, -1.0, f64::NAN, f64::INFINITY, 1e-30, 10.0];
    ck.space(&format!("search_arguments_{}", T::NAME), 7 * 7 * 7 * 4, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let (lo, hi, tol) = (d.pick(&la), d.pick(&la), d.pick(&tl));
        let cap = d.pick(&[0usize, 1, 30, 1000]);
        let what = format!("range {lo}..{hi} tolerance {tol} cap {cap}");
        let mut e = vec![];
        if !lo.is_finite() || !hi.is_finite() || !tol.is_finite() {
            e.push(E::NonFinite);
        }
        if tol <= 0.0 {
            e.push(E::ToleranceNotPositive);
        }
        if lo > hi {
            e.push(E::RangeReversed);
        }
        // roots at -1, 0.3, 2
        let p = Polynomial::<4, T>::new(ta([0.6, -1.7, -1.3, 1.0]));
        let r = p.real_roots_in(t(lo), t(hi), t(tol), cap);
        if !e.is_empty() {
            verdict(r, &e, &what)?;
            return Ok(1);
        }
        let want: Vec<f64> = [-1.0, 0.3, 2.0].into_iter().filter(|x| *x > lo && *x <= hi).collect();
        match r {
            Err(E::DidNotConverge { steps }) => {
                ensure!(steps <= cap, "{what}: {steps} steps");
                ensure!(cap < 100 || tol < T::EPS, "{what}: gave up");
                Ok(2)
            }
            Err(x) => Err(format!("{what}: {x:?}")),
            Ok(s) => {
                ensure_eq!(s.len(), want.len(), "{what}: {s:?}");
                for (a, b) in s.as_slice().iter().zip(&want) {
                    ensure_close!(g(*a), *b, 0.0, tol + 100.0 * T::EPS, "{what}");
                }
                Ok(3)
            }
        }
    });
}
fn quad<T: Fl>(ck: &Ck) {
    let scales = [1.0, 1e-12, 1e12, 0.1];
    ck.space(&format!("quadratic_{}", T::NAME), 13 * 13 * 13 * 4, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let c: [i64; 3] = [d.n(13) as i64 - 6, d.n(13) as i64 - 6, d.n(13) as i64 - 6];
        let sc = d.pick(&scales);
        if c[2] == 0 {
            return Ok(0);
        }
        let tt: [T; 3] = ta(c.map(|x| x as f64 * sc));
        let p = ga(tt);
        let what = format!("{p:?}");
        let r = Polynomial::<3, T>::new(tt).real_roots().map_err(|e| format!("{what}: {e:?}"))?;
        let r: Vec<f64> = r.as_slice().iter().map(|x| g(*x)).collect();
        let disc = c[1] * c[1] - 4 * c[0] * c[2];
        if sc == 1.0 || disc != 0 {
            ensure_eq!(r.len(), if disc < 0 { 0 } else { 2 }, "{what}: discriminant {disc}, {r:?}");
        }
        are_roots(&p, &r, T::EPS, 30.0, &what)?;
        if disc > 0 {
            ensure!(gap(&r) > (disc as f64).sqrt() / c[2].abs() as f64 * 0.9, "{what}: {r:?} is one root twice");
        }
        Ok(r.len() as u64)
    });
    // one root dwarfs the other: both must come back to full relative precision
    ck.space(&format!("quadratic_spread_{}", T::NAME), 19 * 19 * 4, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let (e1, e2) = (d.n(19) as i32 - 9, d.n(19) as i32 - 9);
        let sg = d.n(4);
        let (a, b) = (10f64.powi(e1) * if sg & 1 == 0 { 1.0 } else { -1.0 }, 10f64.powi(e2) * if sg & 2 == 0 { 1.0 } else { -1.0 });
        if (a - b).abs() < 1e-9 * a.abs() || (a + b) == 0.0 {
            return Ok(0);
        }
        let r = Polynomial::<3, T>::new(ta([a * b, -(a + b), 1.0])).real_roots().map_err(|e| format!("{e:?}"))?;
        ensure_eq!(r.len(), 2, "roots {a} and {b}: {r:?}");
        let s = r.as_slice();
        ensure_close!(g(s[0]), a.min(b), 40.0 * T::EPS, 0.0, "roots {a} and {b}: {r:?}");
        ensure_close!(g(s[1]), a.max(b), 40.0 * T::EPS, 0.0, "roots {a} and {b}: {r:?}");
        Ok(1)
    });
}
fn cubic<T: Fl>(ck: &Ck) {
    let scales = [1.0, 1e-12, 1e11];
    ck.space(&format!("cubic_{}", T::NAME), 9u64.pow(4) * 3, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let c: [i64; 4] = std::array::from_fn(|_| d.n(9) as i64 - 4);
        let sc = d.pick(&scales);
        if c[3] == 0 {
            return Ok(0);
        }
        let tt: [T; 4] = ta(c.map(|x| x as f64 * sc));
        let p = ga(tt);
        let what = format!("cubic {p:?}");
        let r = Polynomial::<4, T>::new(tt).real_roots().map_err(|e| format!("{what}: {e:?}"))?;
        let r: Vec<f64> = r.as_slice().iter().map(|x| g(*x)).collect();
        let [dd, cc, b, a] = c;
        let terms = [18 * a * b * cc * dd, -4 * b * b * b * dd, b * b * cc * cc, -4 * a * cc * cc * cc, -27 * a * a * dd * dd];
        let disc: i64 = terms.iter().sum();
        let size: i64 = terms.iter().map(|x| x.abs()).sum();
        let near = (disc.abs() as f64) < T::EPS * 2e4 * size as f64;
        // nearly repeated roots are only as good as the square (cube) root of rounding
        are_roots(&p, &r, T::EPS, if near { 4e3 } else { 1e3 }, &what)?;
        ensure!(r.len() == 1 || r.len() == 3, "{what}: {} roots", r.len());
        if disc == 0 {
            ensure_eq!(r.len(), 3, "{what}: repeated root lost, {r:?}");
        } else if !near {
            ensure_eq!(r.len(), if disc > 0 { 3 } else { 1 }, "{what}: discriminant {disc}, {r:?}");
            if disc > 0 {
                // disc = a^4 * product of squared gaps
                ensure!(gap(&r) > 1e-3, "{what}: {r:?} repeats a root");
            }
        }
        if r.len() == 3 {
            // the roots account for the whole polynomial
            let tol = T::EPS.sqrt() * 50.0;
            let m = 1.0 + r.iter().fold(0.0, |a: f64, x| a.max(x.abs()));
            ensure_close!(r[0] + r[1] + r[2], -p[2] / p[3], 0.0, tol * m, "{what}: sum of {r:?}");
            ensure_close!(r[0] * r[1] + r[1] * r[2] + r[2] * r[0], p[1] / p[3], 0.0, tol * m * m, "{what}: pairs of {r:?}");
        }
        Ok(r.len() as u64)
    });
    // one real root and a small linear or squared term: x^3 + e x = a^3
    ck.space(&format!("cubic_nearly_pure_{}", T::NAME), 5 * 14 * 2 * 2, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let a = d.pick(&[1.0, -2.0, 0.5, 10.0, -0.125]);
        let e = 10f64.powi(-(d.n(14) as i32) - 1) * a * a * if d.n(2) == 0 { 1.0 } else { -1.0 };
        let sq = d.n(2) == 1;
        let c = if sq { [-a * a * a, 0.0, e / a.abs(), 1.0] } else { [-a * a * a, e, 0.0, 1.0] };
        let what = format!("{c:?}");
        let got = Polynomial::<4, T>::new(ta(c)).real_roots().map_err(|x| format!("{what}: {x:?}"))?;
        ensure_eq!(got.len(), 1, "{what}");
        // Newton from the pure root
        let mut x = a;
        for _ in 0..30 {
            x -= ev(&c, x).0 / (3.0 * x * x + 2.0 * c[2] * x + c[1]);
        }
        ensure_close!(g(got.as_slice()[0]), x, 100.0 * T::EPS, 0.0, "{what}");
        Ok(hf(&[x]))
    });
    // every triple of roots, also repeated, shifted and not exactly representable
    let offs = [0.0, 10.0, -33.0, 1000.0];
    ck.space(&format!("cubic_from_roots_{}", T::NAME), 9 * 9 * 9 * 4 * 3, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let k: [i32; 3] = std::array::from_fn(|_| d.n(9) as i32 - 4);
        if k[0] > k[1] || k[1] > k[2] {
            return Ok(0);
        }
        let off = d.pick(&offs);
        let den = d.pick(&[1.0, 3.0, 7.0]);
        let r = k.map(|x| x as f64 / den + off);
        let p: [T; 4] = ta([-r[0] * r[1] * r[2], r[0] * r[1] + r[1] * r[2] + r[2] * r[0], -(r[0] + r[1] + r[2]), 1.0]);
        let what = format!("roots {r:?}");
        let got = Polynomial::<4, T>::new(p).real_roots().map_err(|e| format!("{what}: {e:?}"))?;
        let got: Vec<f64> = got.as_slice().iter().map(|x| g(*x)).collect();
        let big = 1.0 + r[0].abs().max(r[2].abs());
        let mult = if k[0] == k[2] { 3 } else if k[0] == k[1] || k[1] == k[2] { 2 } else { 1 };
        // a root of multiplicity m moves by the m-th root of the coefficient rounding
        let noise = 60.0 * T::EPS * big * big * big;
        if noise * 8.0 > 1.0 / den.powi(3) {
            return Ok(9); // the roots are not separated at this precision
        }
        let tol = match mult { 1 => noise * den * den * 4.0, 2 => (noise * den).sqrt() * 3.0, _ => noise.cbrt() * 3.0 };
        ensure_eq!(got.len(), 3, "{what}: {got:?}");
        for (a, b) in got.iter().zip(&r) {
            ensure_close!(*a, *b, 0.0, tol, "{what}: {got:?}");
        }
        Ok(mult)
    });
}
fn quartic<T: Fl>(ck: &Ck) {
    let m = ck.q(7usize, 11);
    let h = m as i64 / 2;
    let scales = [1.0, 1e-9, 1e9];
    ck.space(&format!("quartic_{}", T::NAME), (m as u64).pow(5) * 3, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let c: [i64; 5] = std::array::from_fn(|_| d.n(m) as i64 - h);
        let sc = d.pick(&scales);
        if c[4] == 0 {
            return Ok(0);
        }
        let ch = sturm(&c);
        let tt: [T; 5] = ta(c.map(|x| x as f64 * sc));
        let p = ga(tt);
        let what = format!("quartic {p:?}");
        let r = Polynomial::<5, T>::new(tt).real_roots().map_err(|e| format!("{what}: {e:?}"))?;
        let r: Vec<f64> = r.as_slice().iter().map(|x| g(*x)).collect();
        let n = distinct(&ch);
        if repeated(&ch) {
            // repeated roots may come back up to rounding; what does come back must be roots
            are_roots(&p, &r, T::EPS.powf(0.4), 1e2, &what)?;
            return Ok(9);
        }
        are_roots(&p, &r, T::EPS, 2e4, &what)?;
        ensure_eq!(r.len(), n, "{what}: {r:?}");
        if n > 1 {
            ensure!(gap(&r) > 1e-3, "{what}: {r:?} repeats a root");
        }
        Ok(n as u64)
    });
    // every set of four roots or two roots and a complex pair, with repeats
    ck.space(&format!("quartic_from_roots_{}", T::NAME), 7u64.pow(4) * 2, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let k: [i64; 4] = std::array::from_fn(|_| d.n(7) as i64 - 3);
        let pair = d.n(2) == 1;
        if k[0] > k[1] || !pair && (k[1] > k[2] || k[2] > k[3]) {
            return Ok(0);
        }
        let mul = |a: &[i64], b: &[i64]| {
            let mut r = vec![0; a.len() + b.len() - 1];
            for (x, u) in a.iter().enumerate() {
                for (y, v) in b.iter().enumerate() {
                    r[x + y] += u * v;
                }
            }
            r
        };
        let mut c = mul(&[-k[0], 1], &[-k[1], 1]);
        let mut want = vec![k[0] as f64, k[1] as f64];
        if pair {
            // (x - k2)^2 + (1 + |k3|)
            c = mul(&c, &[k[2] * k[2] + 1 + k[3].abs(), -2 * k[2], 1]);
        } else {
            c = mul(&c, &mul(&[-k[2], 1], &[-k[3], 1]));
            want.extend([k[2] as f64, k[3] as f64]);
        }
        let what = format!("roots {want:?}, coefficients {c:?}");
        let p: [T; 5] = std::array::from_fn(|j| t(c[j] as f64));
        let got = Polynomial::<5, T>::new(p).real_roots().map_err(|e| format!("{what}: {e:?}"))?;
        let got: Vec<f64> = got.as_slice().iter().map(|x| g(*x)).collect();
        let mut mult = 1;
        let mut run = 1;
        for w in want.windows(2) {
            run = if w[0] == w[1] { run + 1 } else { 1 };
            mult = mult.max(run);
        }
        if mult > 1 && (T::IS32 || pair) {
            return Ok(8);
        }
        ensure_eq!(got.len(), want.len(), "{what}: {got:?}");
        let tol = (2e4 * T::EPS).powf(1.0 / mult as f64) * 4.0;
        for (a, b) in got.iter().zip(&want) {
            ensure_close!(*a, *b, 0.0, tol, "{what}: {got:?}");
        }
        Ok(mult)
    });
    // almost only even powers: (x^2 - a)(x^2 + b) with a small odd part
    ck.space(&format!("quartic_nearly_even_{}", T::NAME), if T::IS32 { 4 * 6 * 12 * 4 } else { 4 * 6 * 20 * 4 }, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let a = d.pick(&[1.0, 4.0, 0.25, 9.0]);
        let b = d.pick(&[4.0, 1.0, 0.5, 9.0, -16.0, -2.0]);
        let e = 10f64.powi(-(d.n(if T::IS32 { 12 } else { 20 }) as i32) - 2) * if d.n(2) == 0 { 1.0 } else { -1.0 };
        let pw = d.n(2) * 2 + 1;
        let mut c = [-a * b, 0.0, b - a, 0.0, 1.0];
        c[pw] = e;
        let what = format!("{c:?}");
        let got = Polynomial::<5, T>::new(ta(c)).real_roots().map_err(|x| format!("{what}: {x:?}"))?;
        let got: Vec<f64> = got.as_slice().iter().map(|x| g(*x)).collect();
        let mut want: Vec<f64> = vec![-a.sqrt(), a.sqrt()];
        if b < 0.0 {
            want.extend([-(-b).sqrt(), (-b).sqrt()]);
        }
        // first order change of each root
        for w in want.iter_mut() {
            let s = 4.0 * *w * *w * *w + 2.0 * (b - a) * *w;
            *w -= e * w.powi(pw as i32) / s;
        }
        want.sort_by(|x, y| x.partial_cmp(y).unwrap());
        ensure_eq!(got.len(), want.len(), "{what}: {got:?}");
        for (x, y) in got.iter().zip(&want) {
            ensure_close!(*x, *y, 0.0, 300.0 * e * e + T::EPS * 3e3, "{what}: {got:?} wanted {want:?}");
        }
        Ok(want.len() as u64)
    });
}
/// The documented repeats of a quartic whose coefficients are not exact: three fixed polynomials.
fn known(ck: &Ck) {
    // (7x - a)(7x - b)(7x - c)(7x - d)
    const R: [[i64; 4]; 2] = [[-2, -1, -1, -1], [-3, -3, -3, 1]];
    ck.space("quartic_repeated_sevenths", 2, |i| format!("roots {:?}/7", R[i as usize]), |i| {
        let k = R[i as usize];
        let mut c = vec![1.0];
        for z in k {
            let mut q = vec![0.0; c.len() + 1];
            for (j, x) in c.iter().enumerate() {
                q[j + 1] += 7.0 * x;
                q[j] -= x * z as f64;
            }
            c = q;
        }
        let got = Polynomial::<5, f64>::new([c[0], c[1], c[2], c[3], c[4]]).real_roots().map_err(|x| format!("{x:?}"))?;
        ensure_eq!(got.len(), 4, "roots {k:?}/7: {:?}", got.as_slice());
        for (a, b) in got.as_slice().iter().zip(k) {
            ensure_close!(*a, b as f64 / 7.0, 0.0, 1e-3, "roots {k:?}/7");
        }
        Ok(0)
    });
}
/// The same polynomial over a finer or coarser unit has the same roots in that unit: scaling the
/// argument by a power of two is exact, so nothing may be lost to absolute thresholds.
fn scaled<T: Fl>(ck: &Ck) {
    let ks: &[i32] = if T::IS32 { &[-6, 6] } else { &[-24, -12, 12, 24] };
    ck.space(&format!("scaled_argument_{}", T::NAME), 7u64.pow(4) * 5 * 3, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let mut c: Vec<i64> = (0..4).map(|_| d.n(7) as i64 - 3).collect();
        c.push(d.n(5) as i64 - 2);
        let deg = d.n(3) + 2;
        if c[deg] == 0 || c[deg + 1..].iter().any(|x| *x != 0) { return Ok(0) }
        let ch = sturm(&c[..=deg]);
        let rep = repeated(&ch);
        fn all<T: Fl>(c: &[i64], deg: usize, k: i32) -> Result<Vec<f64>, String> {
            let v = |j: usize| t::<T>(c[j] as f64 * 2f64.powi(-k * j as i32));
            let e = |e: E| format!("{c:?} by 2^{k}: {e:?}");
            let r: Vec<T> = match deg {
                2 => Polynomial::<3, T>::new(std::array::from_fn(v)).real_roots().map_err(e)?.as_slice().to_vec(),
                3 => Polynomial::<4, T>::new(std::array::from_fn(v)).real_roots().map_err(e)?.as_slice().to_vec(),
                _ => Polynomial::<5, T>::new(std::array::from_fn(v)).real_roots().map_err(e)?.as_slice().to_vec(),
            };
            Ok(r.iter().map(|x| g(*x) * 2f64.powi(-k)).collect())
        }
        let base = all::<T>(&c, deg, 0)?;
        for &k in ks {
            op(1);
            let r = all::<T>(&c, deg, k)?;
            let what = format!("{:?} with roots times 2^{k}: {r:?}, without: {base:?}", &c[..=deg]);
            // between a repeated root and two there is only rounding
            if !(rep && deg > 2) { ensure_eq!(r.len(), base.len(), "{what}") }
            if !rep { for (a, b) in r.iter().zip(&base) { ensure_close!(*a, *b, 0.0, T::EPS.sqrt() * 16.0, "{what}") } }
            let p = Polynomial::<6, T>::new(std::array::from_fn(|j| if j <= deg { t(c[j] as f64 * 2f64.powi(-k * j as i32)) } else { T::ZERO }));
            if T::IS32 && rep { continue }
            for (lo, hi) in [(-8.0, 8.0), (-0.75, 1.25), (-4.0, -0.125)] {
                let u = 2f64.powi(k);
                let n = p.count_real_roots(t(lo * u), t(hi * u)).map_err(|e| format!("{what}: {e:?}"))?;
                ensure_eq!(n, between(&ch, Rat::f(lo), Rat::f(hi)), "number in ({lo}, {hi}], {what}");
            }
        }
        Ok(base.len() as u64)
    });
}
/// Derivative information: implicit function theorem for a simple root.
fn slopes(ck: &Ck) {
    use multicalc::Dual;
    ck.space("closed_form_slopes", 5u64.pow(5) * 3, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let c: [i64; 5] = std::array::from_fn(|_| d.n(5) as i64 - 2);
        let deg = d.n(3) + 2;
        if c[deg] == 0 || c[deg + 1..].iter().any(|x| *x != 0) {
            return Ok(0);
        }
        let ch = sturm(&c[..=deg]);
        if repeated(&ch) {
            return Ok(1);
        }
        let p: Vec<f64> = c[..=deg].iter().map(|x| *x as f64).collect();
        for which in 0..=deg {
            let dv = |k: usize| if k == which { Dual::variable(p[k]) } else { Dual::constant(p[k]) };
            let r: Vec<Dual<f64>> = match deg {
                2 => Polynomial::<3, Dual<f64>>::new(std::array::from_fn(dv)).real_roots().map_err(|e| format!("{e:?}"))?.as_slice().to_vec(),
                3 => Polynomial::<4, Dual<f64>>::new(std::array::from_fn(dv)).real_roots().map_err(|e| format!("{e:?}"))?.as_slice().to_vec(),
                _ => Polynomial::<5, Dual<f64>>::new(std::array::from_fn(dv)).real_roots().map_err(|e| format!("{e:?}"))?.as_slice().to_vec(),
            };
            ensure_eq!(r.len(), distinct(&ch), "{p:?}");
            for x in &r {
                let s: f64 = (1..=deg).map(|k| k as f64 * p[k] * x.value.powi(k as i32 - 1)).sum();
                let want = -x.value.powi(which as i32) / s;
                ensure_close!(x.deriv, want, 1e-5, 1e-5, "{p:?}: slope of root {} by coefficient {which}", x.value);
            }
        }
        Ok(deg as u64)
    });
}
fn search<T: Fl>(ck: &Ck) {
    // integer polynomials: exact count in every range
    let ends = [-4.0, -2.5, -2.0, -1.0, -0.5, 0.0, 0.5, 1.0, 1.5, 2.0, 4.0];
    let m = ck.q(5u64, 7);
    ck.space(&format!("count_{}", T::NAME), m.pow(5) * 11, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let mut c: [i64; 5] = std::array::from_fn(|_| d.n(m as usize) as i64 - m as i64 / 2);
        c[4] += 1;
        if c.iter().all(|x| *x == 0) {
            return Ok(0);
        }
        let lo = d.pick(&ends);
        let ch = sturm(&c);
        let mut q = [T::ZERO; 7];
        for k in 0..5 {
            q[k] = t(c[k] as f64);
        }
        let p = Polynomial::<7, T>::new(q);
        let pf: Vec<f64> = c.iter().map(|x| *x as f64).collect();
        let b = g(p.cauchy_root_bound().map_err(|e| format!("{e:?}"))?);
        let (all, out) = (distinct(&ch), between(&ch, Rat::f(-b.ceil() * 2.0), Rat::f(b.ceil() * 2.0)));
        ensure_eq!(all, out, "{c:?}: reference");
        let top = c.iter().rposition(|x| *x != 0).unwrap();
        let cb = 1.0 + pf[..top].iter().map(|x| (x / pf[top]).abs()).fold(0.0, f64::max);
        ensure!(between(&ch, Rat::new(-((b * 1048576.0) as i128) - 1, 1048576), Rat::new((b * 1048576.0) as i128 + 1, 1048576)) == all, "{c:?}: roots outside the bound {b}");
        ensure!(b <= cb * 4.0 + 4.0, "{c:?}: bound {b} is useless");
        for hi in ends {
            if hi < lo {
                continue;
            }
            let zero_end = |x: f64| ev(&pf, x).0 == 0.0;
            // a repeated root exactly on an end may round to either side
            if (repeated(&ch) || T::IS32 && m > 5) && (zero_end(lo) || zero_end(hi)) {
                continue;
            }
            let want = between(&ch, Rat::f(lo), Rat::f(hi));
            let got = p.count_real_roots(t(lo), t(hi)).map_err(|e| format!("{e:?}"))?;
            op(1);
            ensure_eq!(got, want, "{c:?}: roots in ({lo}, {hi}]");
            let tol = if T::IS32 { 1e-4 } else { 1e-9 };
            let r = p.real_roots_in(t(lo), t(hi), t(tol), 600).map_err(|e| format!("{c:?} in ({lo}, {hi}]: {e:?}"))?;
            let r: Vec<f64> = r.as_slice().iter().map(|x| g(*x)).collect();
            ensure_eq!(r.len(), want, "{c:?}: roots in ({lo}, {hi}] {r:?}");
            for (k, x) in r.iter().enumerate() {
                let w = tol.max(T::EPS.sqrt()) * 3.0;
                let f = |y: f64| Rat::new((y * (1u64 << 40) as f64) as i128, 1 << 40);
                let n = changes_f(&pf, *x - w, *x + w);
                ensure!(n || between_small(&ch, f(*x - w), f(*x + w)), "{c:?}: {x} is not within {w} of a root, {r:?}");
                ensure!(k == 0 || *x > r[k - 1] + w, "{c:?}: {r:?} repeats a root");
                ensure!(*x >= lo - tol && *x <= hi + tol, "{c:?}: root {x} outside ({lo}, {hi}]");
            }
        }
        Ok(all as u64)
    });
    // products of repeated factors, each root counted once
    let nr = ck.q(6u32, 7);
    ck.space(&format!("repeated_{}", T::NAME), 5u64.pow(nr) * 3, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let k: Vec<i32> = (0..nr).map(|_| d.n(5) as i32 - 2).collect();
        let den = d.pick(&[1.0, 3.0, 0.5]);
        if k.windows(2).any(|w| w[0] > w[1]) {
            return Ok(0);
        }
        let mut c = vec![1.0];
        for z in &k {
            let mut q = vec![0.0; c.len() + 1];
            for (j, x) in c.iter().enumerate() {
                q[j + 1] += den * x;
                q[j] -= x * *z as f64;
            }
            c = q;
        }
        let mut q = [T::ZERO; 8];
        for j in 0..c.len() {
            q[j] = t(c[j]);
        }
        let p = Polynomial::<8, T>::new(q);
        let mut want: Vec<f64> = k.iter().map(|z| *z as f64 / den).collect();
        want.dedup();
        let b = g(p.cauchy_root_bound().map_err(|e| format!("{e:?}"))?);
        let what = format!("roots {k:?}/{den}");
        if T::IS32 && nr as usize - want.len() > 0 && nr > 5 {
            return Ok(7);
        }
        if T::IS32 && nr as usize - want.len() > if den == 3.0 { 0 } else { 1 } {
            return Ok(7);
        }
        ensure_eq!(p.count_real_roots(t(-b), t(b)).map_err(|e| format!("{e:?}"))?, want.len(), "{what}");
        let (lo, hi) = (-0.75 / den, 1.25 / den);
        ensure_eq!(p.count_real_roots(t(lo), t(hi)).map_err(|e| format!("{e:?}"))?, want.iter().filter(|x| **x > lo && **x <= hi).count(), "{what} in ({lo}, {hi}]");
        let r = p.real_roots_in(t(-b), t(b), t(if T::IS32 { 1e-4 } else { 1e-10 }), 900).map_err(|e| format!("{what}: {e:?}"))?;
        ensure_eq!(r.len(), want.len(), "{what}: {:?}", r.as_slice());
        for (x, y) in r.as_slice().iter().zip(&want) {
            ensure_close!(g(*x), *y, 0.0, if T::IS32 { 2e-2 } else { 1e-6 }, "{what}: {:?}", r.as_slice());
        }
        Ok(want.len() as u64)
    });
}
/// Two roots close together, or a complex pair close to the axis, are told from a repeated root down
/// to a few hundred roundings.
fn close_pairs<T: Fl>(ck: &Ck) {
    let most = if T::IS32 { 6 } else { 21 };
    ck.space(&format!("close_pairs_{}", T::NAME), most * 2 * 6 * 4, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let j = d.n(most as usize) as i32 + 1;
        let apart = d.n(2) == 0;
        let centre = d.pick(&[1.0, -1.0, 0.5, -2.0, 3.0, 0.25]);
        let others: Vec<f64> = [vec![], vec![-3.0], vec![4.0, -0.5], vec![0.0]][d.n(4)].clone();
        // the remainder sequence of a quartic loses more digits than the pair's gap leaves at these
        if others.len() == 2 && j > if T::IS32 { 3 } else { 14 } { return Ok(8) }
        let dd = 4f64.powi(-j) * centre * centre;
        let mut c = vec![centre * centre + if apart { -dd } else { dd }, -2.0 * centre, 1.0];
        for z in &others {
            let mut q = vec![0.0; c.len() + 1];
            for (k, x) in c.iter().enumerate() { q[k + 1] += x; q[k] -= x * z; }
            c = q;
        }
        // only where the coefficients carry the gap exactly
        if c.iter().any(|x| g(t::<T>(*x)) != *x) { return Ok(9) }
        let p = Polynomial::<6, T>::new(std::array::from_fn(|k| if k < c.len() { t(c[k]) } else { T::ZERO }));
        let what = format!("pair at {centre}, gap 2^-{j} of it, {apart}, others {others:?}");
        let delta = 2f64.powi(-j) * centre.abs();
        for (lo, hi) in [(-9.0, 9.0), (centre - 1.5 * delta, centre + 1.5 * delta), (centre, 9.0)] {
            let mut at: Vec<f64> = others.clone();
            if apart { at.extend([centre - delta, centre + delta]) }
            if at.iter().any(|x| *x == lo || *x == hi) || g(t::<T>(lo)) != lo { continue }
            at.sort_by(|x, y| x.total_cmp(y));
            at.dedup();
            let want = at.iter().filter(|x| **x > lo && **x <= hi).count();
            op(1);
            ensure_eq!(p.count_real_roots(t(lo), t(hi)).map_err(|e| format!("{e:?}"))?, want, "{what}: in ({lo}, {hi}]");
        }
        Ok(j as u64)
    });
}
fn changes_f(p: &[f64], a: f64, b: f64) -> bool {
    let (x, y) = (ev(p, a).0, ev(p, b).0);
    x == 0.0 || y == 0.0 || (x < 0.0) != (y < 0.0)
}
fn between_small(ch: &[Vec<Rat>], a: Rat, b: Rat) -> bool {
    // an even repeated root does not change the sign: ask the last chain entry, which is odd there
    let g = ch.last().unwrap();
    if g.len() < 2 {
        return false;
    }
    let f: Vec<f64> = g.iter().map(|x| x.to_f64()).collect();
    changes_f(&f, a.to_f64(), b.to_f64())
}
fn main() {
    let ck = Ck::new("C11");
    ck.assume("repeated roots of quartics are only demanded where the coefficients are small integers; elsewhere rounding may turn them into a complex pair (listed as known findings)");
    lin::<f64>(&ck);
    lin::<f32>(&ck);
    bad::<f64>(&ck);
    bad::<f32>(&ck);
    quad::<f64>(&ck);
    quad::<f32>(&ck);
    cubic::<f64>(&ck);
    cubic::<f32>(&ck);
    quartic::<f64>(&ck);
    quartic::<f32>(&ck);
    scaled::<f64>(&ck);
    scaled::<f32>(&ck);
    close_pairs::<f64>(&ck);
    close_pairs::<f32>(&ck);
    known(&ck);
    slopes(&ck);
    search::<f64>(&ck);
    search::<f32>(&ck);
    ck.finish()
}
