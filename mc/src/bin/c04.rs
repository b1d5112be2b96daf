//! C04: curl, divergence, line integrals and flux integrals.
use mc::num::*;
use mc::*;
use multicalc::error::{DiffError, IntegrateError};
use multicalc::numerical_derivative::*;
use multicalc::scalar::{Numeric, VectorFn};
use multicalc::vector_field::*;

/// component i: sum of two monomials plus a product of a sine and an exponential-free factor
#[derive(Clone, Copy, Debug)]
struct Vf<const N: usize, const M: usize> {
    c: [[(f64, [u8; N]); 2]; M],
    s: [f64; M],
}
impl<const N: usize, const M: usize> VectorFn<N, M> for Vf<N, M> {
    fn eval<S: Numeric>(&self, x: &[S; N]) -> [S; M] {
        std::array::from_fn(|i| {
            let mut r = S::from_f64(self.s[i]);
            for k in 0..N {
                r = r * (S::from_f64(0.5 + k as f64 * 0.5) * x[k]).sin();
            }
            for (c, e) in self.c[i] {
                let mut m = S::from_f64(c);
                for k in 0..N {
                    for _ in 0..e[k] {
                        m = m * x[k];
                    }
                }
                r = r + m;
            }
            r
        })
    }
}
impl<const N: usize, const M: usize> Vf<N, M> {
    fn d(&self, i: usize, v: usize, x: [f64; N]) -> f64 {
        let mut r = self.s[i];
        for k in 0..N {
            let w = 0.5 + k as f64 * 0.5;
            r *= if k == v { w * (w * x[k]).cos() } else { (w * x[k]).sin() };
        }
        for (c, e) in self.c[i] {
            let mut m = c;
            for k in 0..N {
                let p = e[k] as i32;
                m *= if k == v { if p == 0 { 0.0 } else { p as f64 * x[k].powi(p - 1) } } else { x[k].powi(p) };
            }
            r += m;
        }
        r
    }
}
fn vf<const N: usize, const M: usize>(d: &mut Dig) -> Vf<N, M> {
    let e: [u8; N] = std::array::from_fn(|_| d.n(3) as u8);
    let sh = d.n(N + 1);
    Vf {
        c: std::array::from_fn(|i| {
            let mut a = e;
            a.rotate_left((i * sh) % N);
            let b: [u8; N] = std::array::from_fn(|k| (k == (i + sh) % N) as u8);
            [([1.5, -2.0, 0.5][i % 3], a), ([-1.0, 3.0, 0.25][i % 3], b)]
        }),
        s: if d.n(2) == 0 { [0.0; M] } else { std::array::from_fn(|i| 1.0 - 0.75 * i as f64) },
    }
}
fn operators<T: Fl>(ck: &Ck) {
    // (NUM_VARS may exceed the dimension of the field: the extra variables are parameters)
    fn run<T: Fl, const N: usize>(ck: &Ck, three: bool) {
        let pts = [0.5, -1.0, 2.0, 0.0];
        let n = 3u64.pow(N as u32) * (N as u64 + 1) * 2 * 4u64.pow(N as u32) * 5;
        ck.space(&format!("operators_{}_{}d_{N}vars", T::NAME, if three { 3 } else { 2 }), n, |i| format!("{i}"), |i| {
            let mut d = Dig(i);
            let back = d.n(5);
            let x: [f64; N] = d.arr(&pts);
            let p = ta::<T, N>(x);
            let (step, mode) = [(0.0, 2), (-0.5, 0), (1e-2, 2), (1e-3, 0), (0.0, 0)][back];
            let fd = FiniteDifferenceMulti::<T>::from_parameters(t(step), [FiniteDifferenceMode::Forward, FiniteDifferenceMode::Backward, FiniteDifferenceMode::Central][mode], t(10.0));
            let al: &[DiffError] = match back {
                0 => &[],
                1 => &[DiffError::InvalidStepSize],
                4 => &[DiffError::StepSizeZero],
                _ => &[],
            };
            let (rt, at) = match back {
                0 => (T::EPS * 32.0, T::EPS * 1000.0),
                2 => (1e-3, if T::IS32 { 1e-2 } else { 3e-3 }),
                _ => (2e-2, if T::IS32 { 3e-1 } else { 5e-2 }),
            };
            macro_rules! call { ($f:ident, $v:expr) => { if back == 0 { $f(AutoDiffMulti::<T>::new(), $v, &p) } else { $f(fd, $v, &p) } }; }
            let mut h = 0;
            if three {
                let f = vf::<N, 3>(&mut d);
                let what = format!("{f:?} at {x:?}, backend {back}");
                if let Some(c) = verdict(call!(curl_3d, &f), al, &what)? {
                    let w = [f.d(2, 1, x) - f.d(1, 2, x), f.d(0, 2, x) - f.d(2, 0, x), f.d(1, 0, x) - f.d(0, 1, x)];
                    for k in 0..3 {
                        ensure_close!(g(c[k]), w[k], rt, at, "curl {k} of {what}");
                    }
                    h = hf(&ga(c));
                }
                if let Some(v) = verdict(call!(divergence_3d, &f), al, &what)? {
                    ensure_close!(g(v), f.d(0, 0, x) + f.d(1, 1, x) + f.d(2, 2, x), rt, at, "divergence of {what}");
                }
            } else {
                let f = vf::<N, 2>(&mut d);
                let what = format!("{f:?} at {x:?}, backend {back}");
                if let Some(c) = verdict(call!(curl_2d, &f), al, &what)? {
                    ensure_close!(g(c), f.d(1, 0, x) - f.d(0, 1, x), rt, at, "curl of {what}");
                    h = hf(&[g(c)]);
                }
                if let Some(v) = verdict(call!(divergence_2d, &f), al, &what)? {
                    ensure_close!(g(v), f.d(0, 0, x) + f.d(1, 1, x), rt, at, "divergence of {what}");
                }
            }
            Ok(h)
        });
    }
    run::<T, 2>(ck, false);
    run::<T, 3>(ck, false);
    run::<T, 3>(ck, true);
    if ck.thorough() {
        run::<T, 4>(ck, true);
    }
}

const TV: [f64; 3] = [0.0, 1.0, -0.5];
/// field components as polynomials in position; curve components as functions of t
fn fval<const N: usize>(k: usize, comp: usize, x: &[f64; N]) -> f64 {
    let y = x[(comp + 1) % N];
    let z = x[comp];
    match k {
        0 => 2.0,
        1 => z,
        2 => y,
        3 => 0.5 * z - 2.0 * y + 1.0,
        4 => z * y,
        5 => y * y,
        6 => (z - y).sin(),
        _ => -y * y * y + z,
    }
}
fn cval(k: usize, comp: usize, t: f64) -> f64 {
    let a = [1.0, -2.0, 0.5][comp % 3];
    match k {
        0 => a * t + comp as f64,
        1 => if comp == 0 { t.cos() } else if comp == 1 { t.sin() } else { t },
        2 => a * t * t - t,
        _ => (a * t).exp(),
    }
}
fn cder(k: usize, comp: usize, t: f64) -> f64 {
    let a = [1.0, -2.0, 0.5][comp % 3];
    match k {
        0 => a,
        1 => if comp == 0 { -t.sin() } else if comp == 1 { t.cos() } else { 1.0 },
        2 => 2.0 * a * t - 1.0,
        _ => a * (a * t).exp(),
    }
}
/// integral of field component `fc` against d(axis) by a fine composite Gauss rule
fn exact<const N: usize>(ks: &[usize; N], ck_: usize, fc: usize, axis: usize, a: f64, b: f64) -> f64 {
    let n = 128;
    let h = (b - a) / n as f64;
    let gx = [-0.7745966692414834, 0.0, 0.7745966692414834];
    let gw = [5.0 / 9.0, 8.0 / 9.0, 5.0 / 9.0];
    let mut s = 0.0;
    for i in 0..n {
        let m = a + (i as f64 + 0.5) * h;
        for q in 0..3 {
            let t = m + gx[q] * h / 2.0;
            let x: [f64; N] = std::array::from_fn(|c| cval(ck_, c, t));
            s += gw[q] * h / 2.0 * fval(ks[fc], fc, &x) * cder(ck_, axis, t);
        }
    }
    s
}
fn integrals<T: Fl, const N: usize>(ck: &Ck) {
    let limits = [(0.0, 1.0), (-1.0, 0.5), (0.0, std::f64::consts::TAU), (0.25, 0.5), (0.0, 0.0), (1.0, 0.0), (f64::NAN, 1.0), (0.0, f64::NAN)];
    let iters: [u64; 9] = [0, 1, 2, 3, 5, 50, 120, 121, 1000];
    let fk = 8u64;
    ck.space(&format!("path_integrals_{}_{N}d", T::NAME), 8 * 9 * fk.pow(2) * 4, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let (a, b) = d.pick(&limits);
        let n = d.pick(&iters);
        let k0 = d.n(8);
        let k1 = d.n(8);
        let ks: [usize; N] = std::array::from_fn(|i| [k0, k1, (k0 + 3 * k1) % 8][i % 3]);
        let cv = d.n(4);
        if cv == 3 && b > 2.0 {
            return Ok(0);
        }
        let mk = |c: usize| move |x: &[T; N]| t::<T>(fval(ks[c], c, &ga(*x)));
        let (f0, f1, f2) = (mk(0), mk(1), mk(2));
        let mt = |c: usize| move |p: T| t::<T>(cval(cv, c, g(p)));
        let (c0, c1, c2) = (mt(0), mt(1), mt(2));
        let al: Vec<IntegrateError> = [(n == 0, IntegrateError::IterationsZero), (!(a < b), IntegrateError::LimitsIllDefined)].iter().filter(|x| x.0).map(|x| x.1).collect();
        let lim = [t::<T>(a), t::<T>(b)];
        let what = format!("field {ks:?} along curve {cv} over [{a}, {b}] in {n} steps");
        // truncation: second order in the step; exact when curve and field are straight
        let straight = cv == 0 && ks.iter().all(|k| *k <= 3);
        let hstep = (b - a) / n as f64;
        // |error| <= h^2 (b-a)/6 (|F''| |c'| + |F'| |c''|), from the sizes along the curve
        let (mut amp, mut mag) = (0.0f64, 1.0f64);
        if al.is_empty() {
            for m in 0..=64 {
                let e = (b - a) / 256.0;
                let s = (a + (b - a) * m as f64 / 64.0).clamp(a + e, b - e);
                let cf = |ax: usize, s: f64| cder(cv, ax, s);
                for c in 0..N {
                    let ff = |s: f64| fval(ks[c], c, &std::array::from_fn::<f64, N, _>(|k| cval(cv, k, s)));
                    let f1 = ((ff(s + e) - ff(s - e)) / (2.0 * e)).abs();
                    let f2 = ((ff(s + e) - 2.0 * ff(s) + ff(s - e)) / (e * e)).abs();
                    for ax in 0..N {
                        let c2 = ((cf(ax, s + e) - cf(ax, s - e)) / (2.0 * e)).abs();
                        amp = amp.max(f2 * cf(ax, s).abs() + f1 * c2);
                        mag = mag.max((ff(s).abs() + 1.0) * (cf(ax, s).abs() * (b - a) + cval(cv, ax, s).abs()) + f1 * (1.0 + s.abs()) * (cf(ax, s).abs() + 1.0));
                    }
                }
            }
        }
        let at = if straight { 0.0 } else { 0.5 * amp * (b - a) * hstep * hstep };
        let tol = at + T::EPS * (20.0 + 4.0 * n as f64) * mag;
        let part = |c: usize, ax: usize| if al.is_empty() { exact(&ks, cv, c, ax, a, b) } else { 0.0 };
        let check = |r: Result<T, IntegrateError>, want: f64, name: &str| -> Result<f64, String> {
            let what = format!("{name}: {what}");
            if let Some(v) = verdict(r, &al, &what)? {
                ensure_close!(g(v), want, 0.0, tol, "{what}");
                return Ok(g(v));
            }
            Ok(0.0)
        };
        let mut out = vec![];
        macro_rules! go { ($fs:expr, $cs:expr, $li:ident, $lic:ident, $part:ident, $fl:ident, $flc:ident, $dim:expr) => {{
            let fs = $fs; let cs = $cs;
            let mut ps = vec![];
            for c in 0..$dim {
                ps.push(check($part(&fs, &cs, &lim, n, c), part(c, c), &format!("partial {c}"))?);
            }
            for c in [$dim, usize::MAX] {
                let mut al = al.clone();
                al.push(IntegrateError::IndexOutOfRange);
                verdict($part(&fs, &cs, &lim, n, c), &al, &format!("component {c}"))?;
            }
            let want: f64 = (0..$dim).map(|c| part(c, c)).sum();
            out.push(check($lic(&fs, &cs, &lim, n), want, "line")?);
            let flux = if $dim == 2 { part(0, 1) - part(1, 0) } else { part(0, 0) - part(1, 1) - part(2, 2) };
            out.push(check($flc(&fs, &cs, &lim, n), flux, "flux")?);
            if n == 120 {
                // the short forms use the default count
                let bits = |r: Result<T, IntegrateError>| r.map(|v| g(v).to_bits());
                ensure_eq!(bits($li(&fs, &cs, &lim)), bits($lic(&fs, &cs, &lim, 120)), "line integral with the default count, {what}");
                ensure_eq!(bits($fl(&fs, &cs, &lim)), bits($flc(&fs, &cs, &lim, 120)), "flux integral with the default count, {what}");
            }
        }}; }
        if N == 2 {
            let w = |f: &dyn Fn(&[T; N]) -> T, x: &[T; 2]| { let mut p = [T::ZERO; N]; p[..2].copy_from_slice(x); f(&p) };
            let (g0, g1) = (|x: &[T; 2]| w(&f0, x), |x: &[T; 2]| w(&f1, x));
            let fs: [&dyn Fn(&[T; 2]) -> T; 2] = [&g0, &g1];
            let cs: [&dyn Fn(T) -> T; 2] = [&c0, &c1];
            go!(fs, cs, line_integral_2d, line_integral_2d_custom, line_integral_partial_2d, flux_integral_2d, flux_integral_2d_custom, 2);
        } else {
            let w = |f: &dyn Fn(&[T; N]) -> T, x: &[T; 3]| { let mut p = [T::ZERO; N]; p[..3].copy_from_slice(x); f(&p) };
            let (g0, g1, g2) = (|x: &[T; 3]| w(&f0, x), |x: &[T; 3]| w(&f1, x), |x: &[T; 3]| w(&f2, x));
            let fs: [&dyn Fn(&[T; 3]) -> T; 3] = [&g0, &g1, &g2];
            let cs: [&dyn Fn(T) -> T; 3] = [&c0, &c1, &c2];
            go!(fs, cs, line_integral_3d, line_integral_3d_custom, line_integral_partial_3d, flux_integral_3d, flux_integral_3d_custom, 3);
        }
        let _ = TV;
        Ok(hf(&out))
    });
    // conservative fields of a quadratic potential: the answer is the difference of potential
    // whatever the curve and the number of steps
    ck.space(&format!("conservative_{}_{N}d", T::NAME), 4 * 4 * 6 * 27, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let (a, b) = limits[d.n(4)];
        let cv = d.n(4);
        let n = [1u64, 2, 3, 7, 120, 500][d.n(6)];
        let q: [f64; 3] = d.arr(&[0.0, 1.0, -2.0]);
        if cv == 3 && b > 2.0 {
            return Ok(0);
        }
        // phi = q0 x^2/2 + q1 x y + q2 y + x (and z^2/2 in 3D)
        let phi = |p: [f64; 3]| q[0] * p[0] * p[0] / 2.0 + q[1] * p[0] * p[1] + q[2] * p[1] + p[0] + if N == 3 { p[2] * p[2] / 2.0 } else { 0.0 };
        let at = |s: f64| -> [f64; 3] { std::array::from_fn(|c| cval(cv, c, s)) };
        let want = phi(at(b)) - phi(at(a));
        let mag = [a, b, (a + b) / 2.0].iter().map(|s| at(*s).iter().map(|v| v * v + v.abs() + 1.0).sum::<f64>()).fold(0.0, f64::max) * 6.0;
        let lim = [t::<T>(a), t::<T>(b)];
        let (c0, c1, c2) = (|s: T| t::<T>(cval(cv, 0, g(s))), |s: T| t::<T>(cval(cv, 1, g(s))), |s: T| t::<T>(cval(cv, 2, g(s))));
        let (fx, fy) = (|x: f64, y: f64| q[0] * x + q[1] * y + 1.0, |x: f64| q[1] * x + q[2]);
        let v = if N == 2 {
            let (g0, g1) = (|p: &[T; 2]| t::<T>(fx(g(p[0]), g(p[1]))), |p: &[T; 2]| t::<T>(fy(g(p[0]))));
            line_integral_2d_custom::<T>(&[&g0, &g1], &[&c0, &c1], &lim, n)
        } else {
            let (g0, g1, g2) = (|p: &[T; 3]| t::<T>(fx(g(p[0]), g(p[1]))), |p: &[T; 3]| t::<T>(fy(g(p[0]))), |p: &[T; 3]| p[2]);
            line_integral_3d_custom::<T>(&[&g0, &g1, &g2], &[&c0, &c1, &c2], &lim, n)
        }
        .map_err(|e| format!("{e:?}"))?;
        // the parameter is accumulated, so the last point is off by the rounding of n additions
        let slope = (0..3).map(|c| cder(cv, c, b).abs()).fold(1.0, f64::max);
        ensure_close!(g(v), want, 0.0, T::EPS * (20.0 + 4.0 * n as f64) * mag * slope, "potential {q:?} curve {cv} over [{a},{b}] in {n}");
        Ok(hf(&[g(v)]))
    });
}

fn main() {
    let ck = Ck::new("C04");
    ck.assume("a path integral in n steps may differ from the exact one by a second-order amount in the step; it must be exact when field and curve are straight, or when the field is the gradient of a quadratic");
    ck.assume("the 3D flux along a curve has no textbook meaning; it is taken as x minus y minus z partial integrals, the definition the suite pins");
    operators::<f64>(&ck);
    operators::<f32>(&ck);
    integrals::<f64, 2>(&ck);
    integrals::<f32, 2>(&ck);
    integrals::<f64, 3>(&ck);
    integrals::<f32, 3>(&ck);
    ck.finish();
}
