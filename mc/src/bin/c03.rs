//! C03: differentiation backends, Jacobian, Hessian, Taylor approximations and their metrics.
use mc::num::*;
use mc::*;
use multicalc::approximation::{LinearApproximator, QuadraticApproximator};
use multicalc::error::DiffError;
use multicalc::numerical_derivative::*;
use multicalc::scalar::{Numeric, ScalarFn, ScalarFnN, VectorFn};

/// coef * g(freq * x): every derivative is known in closed form
#[derive(Clone, Copy, Debug)]
struct F1 {
    kind: usize,
    c: f64,
    w: f64,
}
const K1: usize = 8;
impl ScalarFn for F1 {
    fn eval<S: Numeric>(&self, x: S) -> S {
        let y = S::from_f64(self.w) * x;
        S::from_f64(self.c)
            * match self.kind {
                0 => y.sin(),
                1 => y.exp(),
                2 => y * y * y * y * y * y * y - y * y,
                3 => S::ONE / y,
                4 => y.log(),
                5 => y.sqrt(),
                6 => y.cos() * y.exp(),
                _ => y.powi(4),
            }
    }
}
impl F1 {
    fn d(&self, n: usize, x: f64) -> f64 {
        let y = self.w * x;
        let n32 = n as i32;
        let ff = |p: f64| (0..n).map(|k| p - k as f64).product::<f64>();
        let v = match self.kind {
            0 => [y.sin(), y.cos(), -y.sin(), -y.cos()][n % 4],
            1 => y.exp(),
            2 => ff(7.0) * if n <= 7 { y.powi(7 - n32) } else { 0.0 } - if n <= 2 { ff(2.0) * y.powi(2 - n32) } else { 0.0 },
            3 => ff(-1.0) * y.powi(-1 - n32),
            4 => {
                if n == 0 {
                    y.ln()
                } else {
                    (0..n - 1).map(|k| -1.0 - k as f64).product::<f64>() * y.powi(-n32)
                }
            }
            5 => ff(0.5) * y.powf(0.5 - n as f64),
            6 => {
                // re of (1+i)^n e^{(1+i) y}
                let (mut a, mut b) = (1.0, 0.0);
                for _ in 0..n {
                    (a, b) = (a - b, a + b);
                }
                y.exp() * (a * y.cos() - b * y.sin())
            }
            _ => if n <= 4 { ff(4.0) * y.powi(4 - n32) } else { 0.0 },
        };
        self.c * self.w.powi(n32) * v
    }
}

/// Sum of monomials plus a product of sines: mixed partials are known in closed form.
#[derive(Clone, Copy, Debug)]
struct FN<const N: usize> {
    terms: [(f64, [u8; N]); 3],
    s: f64,
    w: [f64; N],
}
impl<const N: usize> ScalarFnN<N> for FN<N> {
    fn eval<S: Numeric>(&self, x: &[S; N]) -> S {
        let mut r = S::ZERO;
        for (c, e) in self.terms {
            let mut m = S::from_f64(c);
            for i in 0..N {
                for _ in 0..e[i] {
                    m = m * x[i];
                }
            }
            r = r + m;
        }
        let mut p = S::from_f64(self.s);
        for i in 0..N {
            p = p * (S::from_f64(self.w[i]) * x[i]).sin();
        }
        r + p
    }
}
impl<const N: usize> FN<N> {
    fn d(&self, k: [usize; N], x: [f64; N]) -> f64 {
        let mut r = 0.0;
        for (c, e) in self.terms {
            let mut m = c;
            for i in 0..N {
                let (e, k) = (e[i] as usize, k[i]);
                m *= if k > e { 0.0 } else { (0..k).map(|j| (e - j) as f64).product::<f64>() * x[i].powi((e - k) as i32) };
            }
            r += m;
        }
        let mut p = self.s;
        for i in 0..N {
            let y = self.w[i] * x[i];
            p *= self.w[i].powi(k[i] as i32) * [y.sin(), y.cos(), -y.sin(), -y.cos()][k[i] % 4];
        }
        r + p
    }
    /// a bound on the size of the intermediate terms, for tolerances
    fn mag(&self, x: [f64; N]) -> f64 {
        let m = x.iter().fold(1.0f64, |a, b| a.max(b.abs()));
        self.terms.iter().map(|(c, e)| c.abs() * m.powi(e.iter().map(|v| *v as i32).sum())).sum::<f64>() + self.s.abs() * 30.0 + 1e-300
    }
}
struct VF<const N: usize, const M: usize>([FN<N>; M]);
impl<const N: usize, const M: usize> VectorFn<N, M> for VF<N, M> {
    fn eval<S: Numeric>(&self, x: &[S; N]) -> [S; M] {
        std::array::from_fn(|i| self.0[i].eval(x))
    }
}
fn fns<const N: usize>(d: &mut Dig) -> FN<N> {
    let e1 = if N <= 3 {
        std::array::from_fn(|_| d.n(4) as u8)
    } else {
        let (a, b) = (d.n(4), d.n(4));
        std::array::from_fn(|i| ((a + b * i) % 3) as u8)
    };
    let e2 = {
        let k = d.n(3);
        std::array::from_fn(|i| if i % 3 == k { 2 } else { 1 })
    };
    FN { terms: [(d.pick(&[1.5, -2.0]), e1), (0.5, e2), (3.0, [0; N])], s: d.pick(&[0.0, 0.7]), w: std::array::from_fn(|i| [1.0, -0.5, 2.0][i % 3]) }
}
/// how many words of length N over a letters are tried: all of them, or the arithmetic ones when there are many variables
const fn words<const N: usize>(a: u64) -> u64 {
    if N <= 3 { a.pow(N as u32) } else { a * a }
}
const FNN: u64 = 3 * 2 * 2;

const XS: [f64; 10] = [0.25, 0.5, 1.0, 1.25, 2.0, 3.0, -0.5, -1.0, -2.0, 0.0];

fn auto1<T: Fl>(ck: &Ck) {
    let ws = [1.0, -1.0, 0.5, 2.0, 1.5];
    ck.space(&format!("autodiff_single_{}", T::NAME), (K1 * 5 * 2 * 10 * 8) as u64, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let f = F1 { kind: d.n(K1), w: d.pick(&ws), c: d.pick(&[1.0, -0.75]) };
        let x = d.pick(&XS);
        let n = d.n(8);
        let y = f.w * x;
        if (f.kind == 3 && y == 0.0) || (matches!(f.kind, 4 | 5) && y <= 0.0) {
            return Ok(0);
        }
        let ad = AutoDiffSingle::<T>::new();
        ensure_eq!(ad, AutoDiffSingle::<T>::default(), "new and default differ");
        let allowed: &[DiffError] = if n == 0 { &[DiffError::OrderZero] } else if n > 6 { &[DiffError::OrderUnsupported] } else { &[] };
        let what = format!("{f:?} order {n} at {x}");
        if let Some(v) = verdict(ad.differentiate(n, &f, t::<T>(x)), allowed, &what)? {
            let want = f.d(n, x);
            let scale = (0..=n).map(|k| f.d(k, x).abs() * (1.0 + y.abs()).powi((n - k) as i32)).fold(1e-3, f64::max);
            ensure_close!(g(v), want, T::EPS * 64.0, T::EPS * 400.0 * scale, "{what}");
            if n == 1 {
                ensure_eq!(ad.first_derivative(&f, t::<T>(x)), Ok(v), "{what}: first_derivative");
            }
            if n == 2 {
                ensure_eq!(ad.second_derivative(&f, t::<T>(x)), Ok(v), "{what}: second_derivative");
            }
            return Ok(hf(&[g(v)]));
        }
        Ok(n as u64)
    });
}

fn modes() -> [FiniteDifferenceMode; 3] {
    [FiniteDifferenceMode::Forward, FiniteDifferenceMode::Backward, FiniteDifferenceMode::Central]
}
/// reference stencil in f64 on an arbitrary function, innermost variable last
fn ref_fd<const N: usize>(f: &dyn Fn([f64; N]) -> f64, idx: &[usize], x: [f64; N], m: usize, h: f64, mult: f64) -> (f64, f64, f64) {
    if idx.is_empty() {
        let v = f(x);
        return (v, v.abs(), 1.0);
    }
    let (lo, hi, den) = [(0.0, 1.0, 1.0), (-1.0, 0.0, 1.0), (-1.0, 1.0, 2.0)][m];
    let v = *idx.last().unwrap();
    let (mut a, mut b) = (x, x);
    a[v] += lo * h;
    b[v] += hi * h;
    let r = &idx[..idx.len() - 1];
    let l = ref_fd(f, r, a, m, h * mult, mult);
    let u = ref_fd(f, r, b, m, h * mult, mult);
    // value, rounding magnitude
    ((u.0 - l.0) / (den * h), (u.1 + l.1) / (den * h), u.2 / (den * h))
}

fn fd1<T: Fl>(ck: &Ck) {
    let hs = [0.25, 0.0625, -0.125, 0.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -0.0];
    ck.space(&format!("fd_single_{}", T::NAME), (K1 * 2 * 8 * 3 * 2 * 10 * 5) as u64, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let f = F1 { kind: d.n(K1), w: d.pick(&[1.0, -0.5]), c: 1.5 };
        let h = d.pick(&hs);
        let m = d.n(3);
        let mult = d.pick(&[1.0, 2.0]);
        let x = d.pick(&XS);
        let n = d.n(5);
        let y = f.w * x;
        if matches!(f.kind, 3 | 4 | 5) && y < 0.0 || matches!(f.kind, 3 | 4 | 5) && y - 0.25 * 15.0 <= 0.1 && h == 0.25 || matches!(f.kind, 3 | 4 | 5) && y <= 1.0 {
            return Ok(0);
        }
        let fd = FiniteDifferenceSingle::<T>::from_parameters(t(h), modes()[m], t(mult));
        let mut al = vec![];
        if n == 0 {
            al.push(DiffError::OrderZero);
        }
        if h == 0.0 {
            al.push(DiffError::StepSizeZero);
        } else if !(h > 0.0 && h.is_finite()) {
            al.push(DiffError::InvalidStepSize);
        }
        let what = format!("{f:?} order {n} at {x}, step {h} x {mult}, mode {m}");
        if let Some(v) = verdict(fd.differentiate(n, &f, t::<T>(x)), &al, &what)? {
            let (want, mag, _) = ref_fd(&|p: [f64; 1]| f.d(0, p[0]), &vec![0; n], [x], m, h, mult);
            if want.is_finite() {
                ensure_close!(g(v), want, T::EPS * 8.0, T::EPS * 40.0 * (mag + 1e-3), "{what}");
                // and it approximates the derivative: the error shrinks with the step
                if n == 1 {
                    let reach = h;
                    let m3 = (0..=8).map(|k| f.d(if m == 2 { 3 } else { 2 }, x - reach + 2.0 * reach * k as f64 / 8.0).abs()).fold(0.0, f64::max);
                    let bound = if m == 2 { h * h / 6.0 * m3 } else { h / 2.0 * m3 };
                    ensure!((g(v) - f.d(1, x)).abs() <= 1.2 * bound + T::EPS * 40.0 * (mag + 1e-3), "{what}: {} is too far from {}", g(v), f.d(1, x));
                }
            }
            if n == 1 {
                ensure_eq!(fd.first_derivative(&f, t::<T>(x)).map(g), Ok(g(v)), "{what}: first_derivative");
            }
            if n == 2 {
                ensure_eq!(fd.second_derivative(&f, t::<T>(x)).map(g), Ok(g(v)), "{what}: second_derivative");
            }
            return Ok(hf(&[g(v)]));
        }
        Ok(n as u64)
    });
    // the defaults
    ck.space(&format!("fd_defaults_{}", T::NAME), (K1 * 10 * 4) as u64, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let f = F1 { kind: d.n(K1), w: 1.0, c: 1.0 };
        let x = d.pick(&XS);
        let which = d.n(4);
        if matches!(f.kind, 3 | 4 | 5) && x <= 0.2 {
            return Ok(0);
        }
        let c = FiniteDifferenceConfig::<T>::default();
        ensure_eq!(c.method, FiniteDifferenceMode::Central, "default mode");
        let e = T::EPS;
        ensure_close!(g(c.step_size), e.cbrt(), 1e-6, 0.0, "default central step");
        ensure_close!(g(FiniteDifferenceMode::Forward.default_step_size::<T>()), e.sqrt(), 1e-6, 0.0, "default forward step");
        ensure_close!(g(FiniteDifferenceMode::Backward.default_step_size::<T>()), e.sqrt(), 1e-6, 0.0, "default backward step");
        let (h, fd) = if which == 0 {
            (e.cbrt(), FiniteDifferenceSingle::<T>::default())
        } else {
            let m = modes()[which - 1];
            let h: T = m.default_step_size();
            (g(h), FiniteDifferenceSingle::<T>::from_parameters(h, m, t(10.0)))
        };
        let v = g(fd.first_derivative(&f, t::<T>(x)).map_err(|e| format!("{e:?}"))?);
        let m3 = |k| [x - h, x, x + h].iter().map(|z| f.d(k, *z).abs()).fold(0.0, f64::max);
        let trunc = if which == 0 || which == 3 { h * h / 6.0 * m3(3) } else { h / 2.0 * m3(2) };
        let round = e * (4.0 * m3(0) + 2.0 * m3(1) * (1.0 + x.abs())) / h * 2.0;
        ensure!((v - f.d(1, x)).abs() <= 1.5 * trunc + round + 1e-300, "{f:?} at {x} with default {which}: {v} vs {} (allowed {})", f.d(1, x), trunc + round);
        Ok(hf(&[v]))
    });
}

fn orders<const N: usize, const K: usize>(idx: [usize; K]) -> Option<[usize; N]> {
    let mut k = [0; N];
    for i in idx {
        if i >= N {
            return None;
        }
        k[i] += 1;
    }
    Some(k)
}
fn multi_one<T: Fl, const N: usize, const K: usize>(f: &FN<N>, x: [f64; N], idx: [usize; K]) -> Res {
    let ad = AutoDiffMulti::<T>::new();
    let mut al = vec![];
    let k = orders::<N, K>(idx);
    if K == 0 {
        al.push(DiffError::OrderZero);
    }
    if K > 3 {
        al.push(DiffError::OrderUnsupported);
    }
    if k.is_none() {
        al.push(DiffError::IndexOutOfRange);
    }
    let p = ta::<T, N>(x);
    let what = format!("{f:?} d{idx:?} at {x:?}");
    let r = ad.differentiate(f, &idx, &p);
    if K == 1 {
        ensure_eq!(ad.first_partial_derivative(f, idx[0], &p).map(|v| g(v).to_bits()), r.map(|v| g(v).to_bits()), "{what}: first_partial_derivative");
    }
    if K == 2 {
        ensure_eq!(ad.second_partial_derivative(f, &[idx[0], idx[1]], &p).map(|v| g(v).to_bits()), r.map(|v| g(v).to_bits()), "{what}: second_partial_derivative");
    }
    let mut h = K as u64;
    if let Some(v) = verdict(r, &al, &what)? {
        ensure_close!(g(v), f.d(k.unwrap(), x), T::EPS * 32.0, T::EPS * 60.0 * 27.0 * f.mag(x), "{what}");
        h = hf(&[g(v)]);
    }
    // finite differences: same call, every mode
    for m in 0..3 {
        for (step, mult) in [(0.125, 2.0), (0.0, 2.0), (-1.0, 2.0), (f64::NAN, 1.0)] {
            let fd = FiniteDifferenceMulti::<T>::from_parameters(t(step), modes()[m], t(mult));
            let mut al = vec![];
            if K == 0 {
                al.push(DiffError::OrderZero);
            }
            if k.is_none() {
                al.push(DiffError::IndexOutOfRange);
            }
            if step == 0.0 {
                al.push(DiffError::StepSizeZero);
            } else if !(step > 0.0) {
                al.push(DiffError::InvalidStepSize);
            }
            let what = format!("finite difference mode {m} step {step}: {what}");
            if let Some(v) = verdict(fd.differentiate(f, &idx, &p), &al, &what)? {
                let (want, mag, _) = ref_fd(&|q| f.d([0; N], q), &idx, x, m, step, mult);
                ensure_close!(g(v), want, T::EPS * 8.0, T::EPS * 40.0 * (mag + f.mag(x)), "{what}");
            }
        }
    }
    Ok(h)
}
fn pt<const N: usize>(d: &mut Dig) -> [f64; N] {
    if N > 3 {
        let (a, b) = (d.n(3), d.n(3));
        return std::array::from_fn(|i| [0.5, -1.0, 2.0][(a + b * i) % 3]);
    }
    d.arr(&[0.5, -1.0, 2.0])
}
fn multi<T: Fl, const N: usize>(ck: &Ck) {
    let pts: &[f64] = if N == 3 && !ck.thorough() { &[-1.0, 2.0] } else { &[0.5, -1.0, 2.0] };
    let base = FNN * words::<N>(4) * if N <= 3 { (pts.len() as u64).pow(N as u32) } else { 9 };
    let idxn = 1 + (N as u64 + 1) + (N as u64 + 1).pow(2) + (N as u64 + 1).pow(3) + 2;
    ck.space(&format!("multi_{}_{N}", T::NAME), base * idxn, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let mut q = d.n(idxn as usize) as u64;
        let f = fns::<N>(&mut d);
        let x: [f64; N] = if N <= 3 { d.arr(pts) } else { pt(&mut d) };
        let r = N as u64 + 1;
        // index N is out of range
        if q == 0 {
            return multi_one::<T, N, 0>(&f, x, []);
        }
        q -= 1;
        if q < r {
            return multi_one::<T, N, 1>(&f, x, [q as usize]);
        }
        q -= r;
        if q < r * r {
            return multi_one::<T, N, 2>(&f, x, [(q % r) as usize, (q / r) as usize]);
        }
        q -= r * r;
        if q < r * r * r {
            return multi_one::<T, N, 3>(&f, x, [(q % r) as usize, (q / r % r) as usize, (q / r / r) as usize]);
        }
        q -= r * r * r;
        if q == 0 { multi_one::<T, N, 4>(&f, x, [0; 4]) } else { multi_one::<T, N, 4>(&f, x, [0, N, 0, usize::MAX]) }
    });
}

fn jac_one<T: Fl, const N: usize, const M: usize>(fs: &[FN<N>; M], x: [f64; N]) -> Res {
    let v = VF(*fs);
    let p = ta::<T, N>(x);
    let j = Jacobian::<AutoDiffMulti<T>>::default();
    let what = format!("{fs:?} at {x:?}");
    let al: &[DiffError] = if M == 0 { &[DiffError::EmptyFunctionSet] } else { &[] };
    let r = verdict(j.evaluate(&v, &p), al, &what)?;
    let rh = verdict(j.evaluate_on_heap(&v, &p), al, &what)?;
    let mut h = 0;
    if let (Some(a), Some(b)) = (r, rh) {
        ensure_eq!(b.len(), M, "{what}: heap rows");
        for i in 0..M {
            ensure_eq!(b[i].len(), N, "{what}: heap columns");
            for c in 0..N {
                let mut k = [0; N];
                k[c] = 1;
                ensure_close!(g(a[(i, c)]), fs[i].d(k, x), T::EPS * 32.0, T::EPS * 200.0 * fs[i].mag(x), "Jacobian ({i},{c}) of {what}");
                ensure_eq!(g(b[i][c]), g(a[(i, c)]), "heap Jacobian ({i},{c}) of {what}");
                h ^= hf(&[g(a[(i, c)])]).rotate_left(c as u32);
            }
        }
    }
    for m in 0..3 {
        for step in [0.125, 0.0, -2.0, f64::INFINITY] {
            let fd = FiniteDifferenceMulti::<T>::from_parameters(t(step), modes()[m], t(10.0));
            let e = if step == 0.0 { DiffError::StepSizeZero } else { DiffError::InvalidStepSize };
            let mut al = vec![];
            if M == 0 {
                al.push(DiffError::EmptyFunctionSet);
            }
            if step != 0.125 {
                al.push(e);
            }
            for c in 0..N + 2 {
                let mut al = if step != 0.125 { vec![e] } else { vec![] };
                if c >= N {
                    al.push(DiffError::IndexOutOfRange);
                }
                verdict(fd.jacobian_column(&v, c, &p), &al, &format!("column {c} of {what}"))?;
                let ad = AutoDiffMulti::<T>::new();
                let col = verdict(ad.jacobian_column(&v, c, &p), if c >= N { &[DiffError::IndexOutOfRange] } else { &[] }, "autodiff column")?;
                if let Some(col) = col {
                    let mut k = [0; N];
                    k[c] = 1;
                    for i in 0..M {
                        ensure_close!(g(col[i]), fs[i].d(k, x), T::EPS * 32.0, T::EPS * 200.0 * fs[i].mag(x), "autodiff column {c} of {what}");
                    }
                }
            }
            let r = verdict(Jacobian::from_derivator(fd).evaluate(&v, &p), &al, &what)?;
            let rh = verdict(Jacobian::from_derivator(fd).evaluate_on_heap(&v, &p), &al, &what)?;
            if let (Some(a), Some(b)) = (r, rh) {
                for i in 0..M {
                    for c in 0..N {
                        let (want, mag, _) = ref_fd(&|q| fs[i].d([0; N], q), &[c], x, m, step, 1.0);
                        ensure_close!(g(a[(i, c)]), want, T::EPS * 8.0, T::EPS * 40.0 * (mag + fs[i].mag(x)), "mode {m} Jacobian ({i},{c}) of {what}");
                        ensure_eq!(g(b[i][c]), g(a[(i, c)]), "mode {m} heap Jacobian ({i},{c}) of {what}");
                    }
                }
            }
        }
    }
    Ok(h & (u64::MAX >> 1))
}
fn jac<T: Fl, const N: usize>(ck: &Ck) {
    let base = FNN * words::<N>(4) * words::<N>(3);
    ck.space(&format!("jacobian_{}_{N}", T::NAME), base * 5, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let m = d.n(5);
        let f0 = fns::<N>(&mut d);
        let x = pt::<N>(&mut d);
        let mut f1 = f0;
        f1.terms[0].0 = -1.0;
        f1.terms[0].1.rotate_left(1);
        f1.s = 1.0;
        let f2 = FN { terms: [(2.0, f0.terms[1].1), (1.0, std::array::from_fn(|i| (i == 0) as u8)), (0.0, [0; N])], s: 0.0, w: f0.w };
        match m {
            0 => jac_one::<T, N, 0>(&[], x),
            1 => jac_one::<T, N, 1>(&[f0], x),
            2 => jac_one::<T, N, 2>(&[f0, f1], x),
            3 => jac_one::<T, N, 3>(&[f2, f1, f0], x),
            _ => {
                let mut f3 = f1;
                f3.terms[1].0 = 4.0;
                f3.w.reverse();
                jac_one::<T, N, 7>(&[f3, f2, f1, f0, f1, f2, f3], x)
            }
        }
    });
}

fn hess_approx<T: Fl, const N: usize>(ck: &Ck) {
    let base = FNN * words::<N>(4) * words::<N>(3);
    ck.space(&format!("hessian_taylor_{}_{N}", T::NAME), base, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let f = fns::<N>(&mut d);
        let x = pt::<N>(&mut d);
        let p = ta::<T, N>(x);
        let what = format!("{f:?} at {x:?}");
        let mag = f.mag(x);
        let k1 = |a: usize| {
            let mut k = [0; N];
            k[a] += 1;
            f.d(k, x)
        };
        let k2 = |a: usize, b: usize| {
            let mut k = [0; N];
            k[a] += 1;
            k[b] += 1;
            f.d(k, x)
        };
        let h = Hessian::<AutoDiffMulti<T>>::default().evaluate(&f, &p).map_err(|e| format!("{what}: {e:?}"))?;
        let lin = LinearApproximator::<AutoDiffMulti<T>>::default().approximate(&f, &p).map_err(|e| format!("{what}: {e:?}"))?;
        let quad = QuadraticApproximator::<AutoDiffMulti<T>>::default().approximate(&f, &p).map_err(|e| format!("{what}: {e:?}"))?;
        let tol = T::EPS * 600.0 * mag;
        ensure_eq!(ga(*lin.point()), x, "linear base point");
        ensure_eq!(ga(*quad.point()), x, "quadratic base point");
        let mut icpt = f.d([0; N], x);
        for a in 0..N {
            ensure_close!(g(lin.coefficients()[a]), k1(a), 0.0, tol, "linear gradient {a}, {what}");
            ensure_close!(g(quad.gradient()[a]), k1(a), 0.0, tol, "quadratic gradient {a}, {what}");
            icpt -= k1(a) * x[a];
            for b in 0..N {
                ensure_close!(g(h[(a, b)]), k2(a, b), 0.0, tol, "Hessian ({a},{b}), {what}");
                ensure_close!(g(quad.hessian()[a][b]), k2(a, b), 0.0, tol, "quadratic Hessian ({a},{b}), {what}");
                ensure_eq!(g(h[(a, b)]), g(h[(b, a)]), "symmetry, {what}");
            }
        }
        ensure_close!(g(lin.intercept()), icpt, 0.0, tol * 8.0, "intercept, {what}");
        // predictions on the base point and around it
        let mut out = vec![];
        for q in 0..5u64.pow(N.min(4) as u32) {
            let mut dq = Dig(q);
            let dx: [f64; N] = dq.arr(&[0.0, 0.5, -1.0, 4.0, -0.125]);
            let y: [f64; N] = std::array::from_fn(|i| x[i] + dx[i]);
            let mut l = f.d([0; N], x);
            let mut qd = 0.0;
            for a in 0..N {
                l += k1(a) * dx[a];
                for b in 0..N {
                    qd += 0.5 * k2(a, b) * dx[a] * dx[b];
                }
            }
            ensure_close!(g(lin.predict(&ta(y))), l, 0.0, tol * 20.0, "linear prediction at {y:?}, {what}");
            ensure_close!(g(quad.predict(&ta(y))), l + qd, 0.0, tol * 200.0, "quadratic prediction at {y:?}, {what}");
            out.push(l);
        }
        // bad step sizes reach the caller
        for (step, e) in [(0.0, DiffError::StepSizeZero), (-1.0, DiffError::InvalidStepSize), (f64::NAN, DiffError::InvalidStepSize)] {
            let fd = FiniteDifferenceMulti::<T>::from_parameters(t(step), FiniteDifferenceMode::Central, t(10.0));
            verdict(Hessian::from_derivator(fd).evaluate(&f, &p), &[e], "Hessian step")?;
            verdict(LinearApproximator::from_derivator(fd).approximate(&f, &p), &[e], "linear step")?;
            verdict(QuadraticApproximator::from_derivator(fd).approximate(&f, &p), &[e], "quadratic step")?;
        }
        // and with a coarse finite difference, all the way through
        let fd = FiniteDifferenceMulti::<T>::from_parameters(t(0.125), FiniteDifferenceMode::Central, t(2.0));
        let hf_ = Hessian::from_derivator(fd).evaluate(&f, &p).map_err(|e| format!("{e:?}"))?;
        let qf = QuadraticApproximator::from_derivator(fd).approximate(&f, &p).map_err(|e| format!("{e:?}"))?;
        let lf = LinearApproximator::from_derivator(fd).approximate(&f, &p).map_err(|e| format!("{e:?}"))?;
        for a in 0..N {
            let (w1, m1, _) = ref_fd(&|q| f.d([0; N], q), &[a], x, 2, 0.125, 2.0);
            ensure_close!(g(qf.gradient()[a]), w1, 0.0, T::EPS * 40.0 * (m1 + mag), "stencil gradient");
            ensure_close!(g(lf.coefficients()[a]), w1, 0.0, T::EPS * 40.0 * (m1 + mag), "stencil gradient");
            for b in 0..N {
                // either order of the steps is a valid stencil
                let (w, m, _) = ref_fd(&|q| f.d([0; N], q), &[a, b], x, 2, 0.125, 2.0);
                let (w_, _, _) = ref_fd(&|q| f.d([0; N], q), &[b, a], x, 2, 0.125, 2.0);
                for v in [g(hf_[(a, b)]), g(qf.hessian()[a][b])] {
                    let t = T::EPS * 40.0 * (m + mag);
                    ensure!(close(v, w, 0.0, t) || close(v, w_, 0.0, t), "stencil Hessian ({a},{b}): {v}, expected {w} or {w_}");
                }
            }
        }
        Ok(hf(&out))
    });
}

/// A function measured in another unit.
struct InUnit<'a, const N: usize>(&'a FN<N>, f64);
impl<const N: usize> ScalarFnN<N> for InUnit<'_, N> {
    fn eval<S: Numeric>(&self, x: &[S; N]) -> S {
        self.0.eval(x) * S::from_f64(self.1)
    }
}
fn metrics_one<T: Fl, const N: usize, const P: usize>(f: &FN<N>, x: [f64; N], pts: &[[f64; N]; P], kahan: bool, quad: bool) -> Res {
    let p = ta::<T, N>(x);
    let pt: [[T; N]; P] = pts.map(ta);
    let e = |e: DiffError| format!("{e:?}");
    let (m, pred): ([f64; 5], Vec<f64>) = if quad {
        let mut a = QuadraticApproximator::<AutoDiffMulti<T>>::default();
        if kahan {
            a = a.with_kahan_summation();
        }
        let q = a.approximate(f, &p).map_err(e)?;
        let m = q.prediction_metrics(&pt, f);
        ([m.mean_absolute_error, m.mean_squared_error, m.root_mean_squared_error, m.r_squared, m.adjusted_r_squared].map(g), pt.iter().map(|y| g(q.predict(y))).collect())
    } else {
        let mut a = LinearApproximator::<AutoDiffMulti<T>>::default();
        if kahan {
            a = a.with_kahan_summation();
        }
        let q = a.approximate(f, &p).map_err(e)?;
        let m = q.prediction_metrics(&pt, f);
        ([m.mean_absolute_error, m.mean_squared_error, m.root_mean_squared_error, m.r_squared, m.adjusted_r_squared].map(g), pt.iter().map(|y| g(q.predict(y))).collect())
    };
    // the same in a tiny unit
    let unit = if T::IS32 { 2f64.powi(-40) } else { 2f64.powi(-300) };
    let small = InUnit(f, unit);
    let s: [f64; 5] = if quad {
        let a = QuadraticApproximator::<AutoDiffMulti<T>>::default();
        let m = if kahan { a.with_kahan_summation() } else { a }.approximate(&small, &p).map_err(e)?.prediction_metrics(&pt, &small);
        [m.mean_absolute_error, m.mean_squared_error, m.root_mean_squared_error, m.r_squared, m.adjusted_r_squared].map(g)
    } else {
        let a = LinearApproximator::<AutoDiffMulti<T>>::default();
        let m = if kahan { a.with_kahan_summation() } else { a }.approximate(&small, &p).map_err(e)?.prediction_metrics(&pt, &small);
        [m.mean_absolute_error, m.mean_squared_error, m.root_mean_squared_error, m.r_squared, m.adjusted_r_squared].map(g)
    };
    let exact = !T::IS32 || m[0] == 0.0 || m[1] > 1e-8;
    for (k, back) in [1.0 / unit, 1.0 / unit / unit, 1.0 / unit, 1.0, 1.0].into_iter().enumerate() {
        ensure!(!exact || s[k].is_nan() && m[k].is_nan() || close(s[k] * back, m[k], T::EPS * 8.0, 0.0), "{f:?} about {x:?} on {P} points, kahan {kahan}, quadratic {quad}: metric {k} is {} in a unit of {unit}, {} otherwise", s[k], m[k]);
    }
    let truth: Vec<f64> = pt.iter().map(|y| g(f.eval(y))).collect();
    let n = P as f64;
    let preds = if quad { N + N * (N + 1) / 2 } else { N };
    let mean = truth.iter().sum::<f64>() / n;
    let sst: f64 = truth.iter().map(|y| (y - mean).powi(2)).sum();
    let ssr: f64 = truth.iter().zip(&pred).map(|(y, p)| (p - y).powi(2)).sum();
    let mae = truth.iter().zip(&pred).map(|(y, p)| (p - y).abs()).sum::<f64>() / n;
    let what = format!("{f:?} about {x:?} on {P} points, kahan {kahan}, quadratic {quad}");
    let big = truth.iter().chain(&pred).fold(0.0f64, |a, b| a.max(b.abs()));
    let tol = T::EPS * 16.0;
    ensure_close!(m[0], mae, tol * 4.0, tol * big, "mean absolute error, {what}");
    ensure_close!(m[1], ssr / n, tol * 8.0, tol * big * (mae + tol * big), "mean squared error, {what}");
    ensure_close!(m[2], (ssr / n).sqrt(), tol * 8.0, tol * big, "root mean squared error, {what}");
    let constant = truth.iter().all(|y| *y == truth[0]);
    if constant {
        // exact mean of equal representable numbers
        let exact = (truth[0] * n / n == truth[0]) && !T::IS32;
        ensure!(m[3].is_nan() || !exact, "R2 of a constant truth is {}, {what}", m[3]);
    } else if sst > 1e-6 * big * big {
        let k = T::EPS * 60.0 * n * big * big / sst;
        let r2 = 1.0 - ssr / sst;
        ensure_close!(m[3], r2, k.max(tol), k * (1.0 + ssr / sst), "R2, {what}");
        if P <= preds + 1 {
            ensure!(m[4].is_nan(), "adjusted R2 with {P} points and {preds} predictors is {}", m[4]);
        } else {
            let f = (n - 1.0) / (n - preds as f64 - 1.0);
            ensure_close!(m[4], 1.0 - (1.0 - r2) * f, k.max(tol), k * f * (1.0 + ssr / sst), "adjusted R2, {what}");
        }
    }
    if P <= preds + 1 {
        ensure!(m[4].is_nan(), "adjusted R2 with {P} points and {preds} predictors is {}", m[4]);
    }
    Ok(hf(&m))
}
fn metrics<T: Fl, const N: usize>(ck: &Ck) {
    let base = FNN * words::<N>(4) * words::<N>(3);
    ck.space(&format!("metrics_{}_{N}", T::NAME), base * 4 * 7 * 2, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let (kahan, quad) = (d.n(2) == 1, d.n(2) == 1);
        let np = d.n(7);
        let off = d.n(2) as f64 * 3.0;
        let f = fns::<N>(&mut d);
        let x = pt::<N>(&mut d);
        let at = |k: usize| -> [f64; N] { std::array::from_fn(|i| x[i] + ((k * (3 + 2 * i) + i) % 7) as f64 * 0.25 - 0.5 + off) };
        match np {
            0 => metrics_one::<T, N, 1>(&f, x, &std::array::from_fn(at), kahan, quad),
            1 => metrics_one::<T, N, 2>(&f, x, &std::array::from_fn(at), kahan, quad),
            2 => metrics_one::<T, N, 3>(&f, x, &std::array::from_fn(at), kahan, quad),
            3 => metrics_one::<T, N, 4>(&f, x, &std::array::from_fn(at), kahan, quad),
            4 => metrics_one::<T, N, 7>(&f, x, &std::array::from_fn(at), kahan, quad),
            5 => metrics_one::<T, N, 12>(&f, x, &std::array::from_fn(at), kahan, quad),
            _ => metrics_one::<T, N, 300>(&f, x, &std::array::from_fn(at), kahan, quad),
        }
    });
}

fn main() {
    let ck = Ck::new("C03");
    ck.assume("derivatives are compared on functions whose derivatives are known in closed form: sums of monomials, products of sines, powers, roots, logarithms and exponentials");
    auto1::<f64>(&ck);
    auto1::<f32>(&ck);
    fd1::<f64>(&ck);
    fd1::<f32>(&ck);
    multi::<f64, 1>(&ck);
    multi::<f64, 2>(&ck);
    multi::<f32, 2>(&ck);
    multi::<f64, 3>(&ck);
    multi::<f64, 5>(&ck);
    jac::<f64, 1>(&ck);
    jac::<f64, 2>(&ck);
    jac::<f32, 2>(&ck);
    jac::<f64, 3>(&ck);
    jac::<f64, 5>(&ck);
    jac::<f32, 6>(&ck);
    hess_approx::<f64, 1>(&ck);
    hess_approx::<f64, 2>(&ck);
    hess_approx::<f32, 2>(&ck);
    hess_approx::<f64, 3>(&ck);
    hess_approx::<f64, 5>(&ck);
    metrics::<f64, 1>(&ck);
    metrics::<f64, 2>(&ck);
    metrics::<f32, 2>(&ck);
    metrics::<f64, 3>(&ck);
    ck.finish();
}
