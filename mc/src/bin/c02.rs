//! C02: the scalars: plain float helpers, Dual, HyperDual, Jet and nestings of them.
use mc::num::*;
use mc::*;
use multicalc::scalar::{Dual, HyperDual, Jet, Numeric, Primal, constant};

// ---------------------------------------------------------------- reference: truncated series
// coefficient [i][j] multiplies s^i t^j, i <= 4, j <= 1
const I: usize = 5;
#[derive(Clone, Copy, Debug)]
struct Se([[f64; 2]; I]);
fn c0(x: f64) -> Se {
    let mut r = Se([[0.0; 2]; I]);
    r.0[0][0] = x;
    r
}
fn sadd(a: Se, b: Se) -> Se {
    Se(std::array::from_fn(|i| std::array::from_fn(|j| a.0[i][j] + b.0[i][j])))
}
fn ssc(a: Se, k: f64) -> Se {
    Se(a.0.map(|r| r.map(|x| x * k)))
}
fn smul(a: Se, b: Se) -> Se {
    let mut r = c0(0.0);
    for i in 0..I {
        for j in 0..2 {
            for k in 0..I - i {
                for l in 0..2 - j {
                    r.0[i + k][j + l] += a.0[i][j] * b.0[k][l];
                }
            }
        }
    }
    r
}
/// f(a) given the Taylor coefficients of f about a's constant term
fn comp(a: Se, f: &[f64; 6]) -> Se {
    let mut d = a;
    d.0[0][0] = 0.0;
    let mut r = c0(f[5]);
    for k in (0..5).rev() {
        r = smul(r, d);
        r.0[0][0] += f[k];
    }
    r
}
/// Taylor coefficients of x^p
fn tpow(x: f64, p: f64, val: f64) -> [f64; 6] {
    let mut c = [val; 6];
    for k in 1..6 {
        c[k] = c[k - 1] * (p - (k as f64 - 1.0)) / (k as f64 * x);
    }
    c
}
/// 1-D helpers on plain coefficient arrays
fn pm(a: &[f64; 6], b: &[f64; 6]) -> [f64; 6] {
    let mut r = [0.0; 6];
    for i in 0..6 {
        for j in 0..6 - i {
            r[i + j] += a[i] * b[j];
        }
    }
    r
}
fn pcomp(f: &[f64; 6], inner: &[f64; 6]) -> [f64; 6] {
    let mut d = *inner;
    d[0] = 0.0;
    let mut r = [0.0; 6];
    for k in (0..6).rev() {
        r = pm(&r, &d);
        r[0] += f[k];
    }
    r
}
fn pint(a: &[f64; 6], c: f64) -> [f64; 6] {
    let mut r = [c; 6];
    for k in 1..6 {
        r[k] = a[k - 1] / k as f64;
    }
    r
}
fn geo(vals: [f64; 4], period: usize) -> [f64; 6] {
    let f = [1.0, 1.0, 2.0, 6.0, 24.0, 120.0];
    std::array::from_fn(|k| vals[k % period] / f[k])
}
/// solves y' = q(y) by power series, y0 given; q quadratic 1 + s y^2
fn tanlike(y0: f64, s: f64) -> [f64; 6] {
    let mut y = [0.0; 6];
    y[0] = y0;
    for k in 0..5 {
        let y2 = pm(&y, &y);
        y[k + 1] = ((if k == 0 { 1.0 } else { 0.0 }) + s * y2[k]) / (k as f64 + 1.0);
    }
    y
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum U {
    Sin, Cos, Tan, Exp, Expm1, Log, Ln1p, Log2, Log10, Sqrt, Cbrt, Atan, Asin, Acos, Sinh, Cosh, Tanh, Recip, Neg, Abs, Pow2, Pow3, PowM2, PowM1, Pow0, Pow7, Powf, ToRad, ToDeg, Floor, Ceil, Round, Trunc, Signum, ClampIn, WrapPi, Square,
}
use U::*;
const UN: [U; 37] = [Sin, Cos, Tan, Exp, Expm1, Log, Ln1p, Log2, Log10, Sqrt, Cbrt, Atan, Asin, Acos, Sinh, Cosh, Tanh, Recip, Neg, Abs, Pow2, Pow3, PowM2, PowM1, Pow0, Pow7, Powf, ToRad, ToDeg, Floor, Ceil, Round, Trunc, Signum, ClampIn, WrapPi, Square];
/// Taylor coefficients of the function at x, None outside (or near the edge of) its smooth domain.
fn taylor(u: U, x: f64) -> Option<[f64; 6]> {
    let (s, c) = (x.sin(), x.cos());
    let e = x.exp();
    let k1 = |a: f64, b: f64| [a, b, 0.0, 0.0, 0.0, 0.0];
    let frac = (x - x.round()).abs();
    Some(match u {
        Sin => geo([s, c, -s, -c], 4),
        Cos => geo([c, -s, -c, s], 4),
        Tan if c.abs() > 0.2 => tanlike(x.tan(), 1.0),
        Exp if x < 20.0 => geo([e; 4], 1),
        Expm1 if x < 20.0 => {
            let mut r = geo([e; 4], 1);
            r[0] = x.exp_m1();
            r
        }
        Log if x > 0.05 => pint(&tpow(x, -1.0, 1.0 / x), x.ln()),
        Ln1p if x > -0.9 => pint(&tpow(1.0 + x, -1.0, 1.0 / (1.0 + x)), x.ln_1p()),
        Log2 if x > 0.05 => pint(&tpow(x, -1.0, 1.0 / x), x.ln()).map(|v| v / std::f64::consts::LN_2),
        Log10 if x > 0.05 => pint(&tpow(x, -1.0, 1.0 / x), x.ln()).map(|v| v / std::f64::consts::LN_10),
        Sqrt if x > 0.05 => tpow(x, 0.5, x.sqrt()),
        Cbrt if x.abs() > 0.05 => tpow(x, 1.0 / 3.0, x.cbrt()),
        Atan => {
            let q = 1.0 + x * x;
            pint(&pcomp(&tpow(q, -1.0, 1.0 / q), &[q, 2.0 * x, 1.0, 0.0, 0.0, 0.0]), x.atan())
        }
        Asin | Acos if x.abs() < 0.9 => {
            let q = 1.0 - x * x;
            let d = pcomp(&tpow(q, -0.5, 1.0 / q.sqrt()), &[q, -2.0 * x, -1.0, 0.0, 0.0, 0.0]);
            if u == Asin { pint(&d, x.asin()) } else { pint(&d.map(|v| -v), x.acos()) }
        }
        Sinh if x.abs() < 20.0 => geo([x.sinh(), x.cosh(), 0.0, 0.0], 2),
        Cosh if x.abs() < 20.0 => geo([x.cosh(), x.sinh(), 0.0, 0.0], 2),
        Tanh => tanlike(x.tanh(), -1.0),
        Recip | PowM1 if x.abs() > 0.05 => tpow(x, -1.0, 1.0 / x),
        Neg => k1(-x, -1.0),
        Abs if x != 0.0 => k1(x.abs(), x.signum()),
        Pow2 | Square => [x * x, 2.0 * x, 1.0, 0.0, 0.0, 0.0],
        Pow3 => [x.powi(3), 3.0 * x * x, 3.0 * x, 1.0, 0.0, 0.0],
        Pow7 => [x.powi(7), 7.0 * x.powi(6), 21.0 * x.powi(5), 35.0 * x.powi(4), 35.0 * x.powi(3), 21.0 * x * x],
        PowM2 if x.abs() > 0.05 => tpow(x, -2.0, 1.0 / (x * x)),
        Pow0 => k1(1.0, 0.0),
        Powf if x > 0.05 => tpow(x, 1.75, x.powf(1.75)),
        ToRad => k1(x * std::f64::consts::PI / 180.0, std::f64::consts::PI / 180.0),
        ToDeg => k1(x * 180.0 / std::f64::consts::PI, 180.0 / std::f64::consts::PI),
        Floor if frac > 0.01 => k1(x.floor(), 0.0),
        Ceil if frac > 0.01 => k1(x.ceil(), 0.0),
        Round if (frac - 0.5).abs() > 0.01 => k1(x.round(), 0.0),
        Trunc if frac > 0.01 => k1(x.trunc(), 0.0),
        Signum if x.abs() > 0.01 => k1(x.signum(), 0.0),
        // clamp to [-0.5, 2]
        ClampIn if (x + 0.5).abs() > 0.01 && (x - 2.0).abs() > 0.01 => {
            if x < -0.5 { k1(-0.5, 0.0) } else if x > 2.0 { k1(2.0, 0.0) } else { k1(x, 1.0) }
        }
        WrapPi => {
            let tau = std::f64::consts::TAU;
            let q = x / tau;
            if (q - q.floor() - 0.5).abs() < 0.01 {
                return None;
            }
            k1(x - tau * q.round(), 1.0)
        }
        _ => return None,
    })
}
fn real<S: Numeric>(u: U, x: S, lo: S::Constant, hi: S::Constant) -> S {
    match u {
        Sin => x.sin(),
        Cos => x.cos(),
        Tan => x.tan(),
        Exp => x.exp(),
        Expm1 => x.expm1(),
        Log => x.log(),
        Ln1p => x.ln_1p(),
        Log2 => x.log2(),
        Log10 => x.log10(),
        Sqrt => x.sqrt(),
        Cbrt => x.cbrt(),
        Atan => x.atan(),
        Asin => x.asin(),
        Acos => x.acos(),
        Sinh => x.sinh(),
        Cosh => x.cosh(),
        Tanh => x.tanh(),
        Recip => Numeric::recip(x),
        Neg => -x,
        Abs => x.abs(),
        Pow2 => x.powi(2),
        Pow3 => x.powi(3),
        PowM2 => x.powi(-2),
        PowM1 => x.powi(-1),
        Pow0 => x.powi(0),
        Pow7 => x.powi(7),
        Powf => x.powf(S::from_f64(1.75)),
        ToRad => x.to_radians(),
        ToDeg => x.to_degrees(),
        Floor => x.floor(),
        Ceil => x.ceil(),
        Round => x.round(),
        Trunc => x.trunc(),
        Signum => x.signum(),
        ClampIn => Numeric::clamp(x, lo, hi),
        WrapPi => x.wrap_to_pi(),
        Square => x * x,
    }
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum B {
    Add, Sub, Mul, Div, SafeDiv, RSub, RDiv, Atan2, Hypot, Max, Min, CopySign, MulAdd, AddAssign, SubAssign, MulAssign, DivAssign, Powf,
}
const BI: [B; 18] = [B::Add, B::Sub, B::Mul, B::Div, B::SafeDiv, B::RSub, B::RDiv, B::Atan2, B::Hypot, B::Max, B::Min, B::CopySign, B::MulAdd, B::AddAssign, B::SubAssign, B::MulAssign, B::DivAssign, B::Powf];
fn rb(o: B, a: Se, b: Se) -> Option<Se> {
    let (x, y) = (a.0[0][0], b.0[0][0]);
    let inv = |v: Se| -> Option<Se> { Some(comp(v, &taylor(Recip, v.0[0][0])?)) };
    Some(match o {
        B::Add | B::AddAssign => sadd(a, b),
        B::Sub | B::SubAssign => sadd(a, ssc(b, -1.0)),
        B::RSub => sadd(b, ssc(a, -1.0)),
        B::Mul | B::MulAssign => smul(a, b),
        B::Div | B::SafeDiv | B::DivAssign => smul(a, inv(b)?),
        B::RDiv => smul(b, inv(a)?),
        B::MulAdd => sadd(smul(a, b), b),
        B::Atan2 => {
            if x.hypot(y) < 0.1 || (y < 0.0 && x.abs() < 1e-3) {
                return None;
            }
            // rotate so that a plain arctangent of a ratio applies
            let mut r = if y.abs() >= x.abs() {
                let q = smul(a, inv(b)?);
                comp(q, &taylor(Atan, q.0[0][0])?)
            } else {
                let q = smul(b, inv(a)?);
                ssc(comp(q, &taylor(Atan, q.0[0][0])?), -1.0)
            };
            r.0[0][0] = x.atan2(y);
            r
        }
        B::Hypot => {
            if x.hypot(y) < 0.1 {
                return None;
            }
            let q = sadd(smul(a, a), smul(b, b));
            comp(q, &taylor(Sqrt, q.0[0][0]).or_else(|| Some(tpow(q.0[0][0], 0.5, q.0[0][0].sqrt())))?)
        }
        B::Max | B::Min => {
            if (x - y).abs() < 1e-3 {
                return None;
            }
            if (x > y) == (o == B::Max) { a } else { b }
        }
        B::CopySign => {
            if x.abs() < 1e-3 || y.abs() < 1e-3 {
                return None;
            }
            if (x < 0.0) == (y < 0.0) { a } else { ssc(a, -1.0) }
        }
        B::Powf => {
            if x < 0.05 {
                return None;
            }
            let l = comp(a, &taylor(Log, x)?);
            let p = smul(b, l);
            comp(p, &taylor(Exp, p.0[0][0])?)
        }
    })
}
fn realb<S: Numeric>(o: B, a: S, b: S) -> S {
    let mut m = a;
    match o {
        B::Add => a + b,
        B::Sub => a - b,
        B::RSub => b - a,
        B::Mul => a * b,
        B::Div => a / b,
        B::SafeDiv => a.safe_div(b),
        B::RDiv => b / a,
        B::Atan2 => a.atan2(b),
        B::Hypot => a.hypot(b),
        B::Max => Numeric::max(a, b),
        B::Min => Numeric::min(a, b),
        B::CopySign => a.copysign(b),
        B::MulAdd => a.mul_add(b, b),
        B::AddAssign => {
            m += b;
            m
        }
        B::SubAssign => {
            m -= b;
            m
        }
        B::MulAssign => {
            m *= b;
            m
        }
        B::DivAssign => {
            m /= b;
            m
        }
        B::Powf => a.powf(b),
    }
}

// ---------------------------------------------------------------- how each scalar sees a series
trait View: Numeric {
    fn make(s: &Se) -> Self;
    /// the coefficients it holds, paired with those of the reference
    fn read(&self, s: &Se) -> Vec<(f64, f64)>;
    fn lim(x: f64) -> Self::Constant;
    const WHAT: &'static str;
}
macro_rules! plain {
    ($t:ty, $n:literal) => {
        impl View for $t {
            fn make(s: &Se) -> Self { s.0[0][0] as $t }
            fn read(&self, s: &Se) -> Vec<(f64, f64)> { vec![(*self as f64, s.0[0][0])] }
            fn lim(x: f64) -> $t { x as $t }
            const WHAT: &'static str = $n;
        }
        impl View for Dual<$t> {
            fn make(s: &Se) -> Self { Dual::new(s.0[0][0] as $t, s.0[1][0] as $t) }
            fn read(&self, s: &Se) -> Vec<(f64, f64)> { vec![(self.value as f64, s.0[0][0]), (self.deriv as f64, s.0[1][0])] }
            fn lim(x: f64) -> $t { x as $t }
            const WHAT: &'static str = concat!("Dual<", $n, ">");
        }
        impl View for HyperDual<$t> {
            fn make(s: &Se) -> Self { HyperDual::new(s.0[0][0] as $t, s.0[1][0] as $t, s.0[0][1] as $t, s.0[1][1] as $t) }
            fn read(&self, s: &Se) -> Vec<(f64, f64)> {
                vec![(self.real as f64, s.0[0][0]), (self.eps1 as f64, s.0[1][0]), (self.eps2 as f64, s.0[0][1]), (self.eps1eps2 as f64, s.0[1][1])]
            }
            fn lim(x: f64) -> $t { x as $t }
            const WHAT: &'static str = concat!("HyperDual<", $n, ">");
        }
        impl View for Jet<$t, 5> {
            fn make(s: &Se) -> Self { Jet::new(std::array::from_fn(|i| s.0[i][0] as $t)) }
            fn read(&self, s: &Se) -> Vec<(f64, f64)> { (0..5).map(|i| (self.coeffs[i] as f64, s.0[i][0])).collect() }
            fn lim(x: f64) -> $t { x as $t }
            const WHAT: &'static str = concat!("Jet<", $n, ",5>");
        }
    };
}
plain!(f64, "f64");
plain!(f32, "f32");
impl View for Dual<Dual<f64>> {
    fn make(s: &Se) -> Self {
        Dual::new(Dual::new(s.0[0][0], s.0[1][0]), Dual::new(s.0[0][1], s.0[1][1]))
    }
    fn read(&self, s: &Se) -> Vec<(f64, f64)> {
        vec![(self.value.value, s.0[0][0]), (self.value.deriv, s.0[1][0]), (self.deriv.value, s.0[0][1]), (self.deriv.deriv, s.0[1][1])]
    }
    fn lim(x: f64) -> Dual<f64> {
        Dual::constant(x)
    }
    const WHAT: &'static str = "Dual<Dual<f64>>";
}
impl View for Dual<Jet<f64, 5>> {
    fn make(s: &Se) -> Self {
        Dual::new(Jet::new(std::array::from_fn(|i| s.0[i][0])), Jet::new(std::array::from_fn(|i| s.0[i][1])))
    }
    fn read(&self, s: &Se) -> Vec<(f64, f64)> {
        (0..5).flat_map(|i| [(self.value.coeffs[i], s.0[i][0]), (self.deriv.coeffs[i], s.0[i][1])]).collect()
    }
    fn lim(x: f64) -> Jet<f64, 5> {
        Jet::constant(x)
    }
    const WHAT: &'static str = "Dual<Jet<f64,5>>";
}
impl View for Jet<Dual<f64>, 3> {
    fn make(s: &Se) -> Self {
        Jet::new(std::array::from_fn(|i| Dual::new(s.0[i][0], s.0[i][1])))
    }
    fn read(&self, s: &Se) -> Vec<(f64, f64)> {
        (0..3).flat_map(|i| [(self.coeffs[i].value, s.0[i][0]), (self.coeffs[i].deriv, s.0[i][1])]).collect()
    }
    fn lim(x: f64) -> Dual<f64> {
        Dual::constant(x)
    }
    const WHAT: &'static str = "Jet<Dual<f64>,3>";
}
impl View for HyperDual<Dual<f64>> {
    fn make(s: &Se) -> Self {
        HyperDual::new(Dual::constant(s.0[0][0]), Dual::constant(s.0[1][0]), Dual::constant(s.0[0][1]), Dual::constant(s.0[1][1]))
    }
    fn read(&self, s: &Se) -> Vec<(f64, f64)> {
        vec![(self.real.value, s.0[0][0]), (self.eps1.value, s.0[1][0]), (self.eps2.value, s.0[0][1]), (self.eps1eps2.value, s.0[1][1]), (self.real.deriv, 0.0)]
    }
    fn lim(x: f64) -> Dual<f64> {
        Dual::constant(x)
    }
    const WHAT: &'static str = "HyperDual<Dual<f64>>";
}
fn smax(s: &Se) -> f64 {
    s.0.iter().flatten().fold(0.0f64, |m, x| m.max(x.abs()))
}
fn agree<S: View>(v: &S, want: &Se, tol: f64, what: &str) -> Result<(), String> {
    for (k, (got, w)) in v.read(want).into_iter().enumerate() {
        op(1);
        if !((got - w).abs() <= tol) {
            return Err(format!("{what}: part {k} is {got:?}, expected {w:?} (tolerance {tol:e})"));
        }
    }
    Ok(())
}

const PTS: [f64; 22] = [-7.0, -3.25, -2.0, -1.625, -1.0, -0.875, -0.5625, -0.25, -0.0625, 0.0, 0.015625, 0.125, 0.3125, 0.6875, 0.875, 1.0, 1.375, 1.5, 2.25, 3.1875, 6.5, 19.0];
const SD: [f64; 4] = [1.0, 0.0, -0.75, 2.0];

fn seed(d: &mut Dig, x: f64) -> Se {
    let mut s = c0(x);
    s.0[1][0] = d.pick(&SD);
    s.0[2][0] = d.pick(&[0.0, 0.5]);
    s.0[3][0] = [0.0, -0.25][(s.0[2][0] != 0.0) as usize];
    s.0[0][1] = d.pick(&SD);
    s.0[1][1] = d.pick(&[0.0, -1.5]);
    s.0[2][1] = s.0[1][1] * 0.25;
    s
}
fn unary<S: View>(ck: &Ck, eps: f64) {
    let n = UN.len() as u64 * PTS.len() as u64 * 64;
    let dec = |i: u64| {
        let mut d = Dig(i);
        let u = d.pick(&UN);
        let x = d.pick(&PTS);
        (u, seed(&mut d, x))
    };
    ck.space(&format!("one argument {}", S::WHAT), n, |i| format!("{:?}", dec(i)), |i| {
        let (u, s) = dec(i);
        let Some(t) = taylor(u, s.0[0][0]) else { return Ok(0) };
        let want = comp(s, &t);
        let tmax = t.iter().fold(0.0f64, |m, x| m.max(x.abs()));
        let ds = smax(&Se({ let mut q = s.0; q[0][0] = 0.0; q })).max(1.0);
        let x = S::make(&s);
        let r = real(u, x, S::lim(-0.5), S::lim(2.0));
        // sinh/cosh/tanh/wrap go through larger intermediates
        let mid = if matches!(u, Sinh | Cosh) { s.0[0][0].abs().exp() } else if u == WrapPi { 8.0 } else { 1.0 };
        let tol = 64.0 * eps * (tmax.max(mid) * ds.powi(4)).max(smax(&want)).max(1.0) * (1.0 + s.0[0][0].abs());
        agree(&r, &want, tol, &format!("{u:?}"))?;
        Ok(hf(&want.0.concat()))
    });
}
fn binary<S: View>(ck: &Ck, eps: f64) {
    const P: [f64; 11] = [-3.25, -1.5, -1.0, -0.25, 0.0, 0.125, 0.75, 1.0, 1.25, 2.5, 5.0];
    let n = BI.len() as u64 * 121 * 4096;
    let full = ck.thorough();
    let n = if full { n } else { n / 8 };
    let dec = move |i: u64| {
        let mut d = Dig(i);
        let o = d.pick(&BI);
        let (x, y) = (d.pick(&P), d.pick(&P));
        let a = seed(&mut d, x);
        let b = seed(&mut d, y);
        (o, a, b)
    };
    ck.space(&format!("two arguments {}", S::WHAT), n, |i| format!("{:?}", dec(i)), |i| {
        let (o, a, b) = dec(i);
        let Some(want) = rb(o, a, b) else { return Ok(0) };
        let r = realb(o, S::make(&a), S::make(&b));
        let (x, y) = (a.0[0][0], b.0[0][0]);
        let inv = match o {
            B::Div | B::SafeDiv | B::DivAssign => (1.0 / y.abs()).max(1.0).powi(5),
            B::RDiv => (1.0 / x.abs()).max(1.0).powi(5),
            B::Powf => (1.0 / x).max(1.0).powi(4) * 8.0,
            B::Atan2 | B::Hypot => (1.0 / x.hypot(y)).max(1.0).powi(4),
            _ => 1.0,
        };
        let tol = 256.0 * eps * smax(&want).max(smax(&a)).max(smax(&b)).max(1.0) * inv * 4.0;
        agree(&r, &want, tol, &format!("{o:?}"))?;
        Ok(hf(&want.0.concat()))
    });
}
fn head<S: View>(r: &S) -> f64 {
    r.read(&c0(0.0))[0].0
}
/// The same operands in any unit: a quotient and an angle do not change, a distance scales.
fn units<S: View>(ck: &Ck, eps: f64) {
    const OPS: [B; 6] = [B::Div, B::DivAssign, B::SafeDiv, B::RDiv, B::Atan2, B::Hypot];
    let is32 = S::WHAT.contains("32");
    let ks: [i32; 4] = if is32 { [-75, 75, -52, 52] } else { [-560, 560, -340, 340] };
    const P: [f64; 9] = [-7.0, -1.625, -0.5625, -0.25, 0.0, 0.3125, 1.0, 1.375, 6.5];
    let n = 6 * 4 * 81 * 64;
    let dec = move |i: u64| {
        let mut d = Dig(i);
        let o = d.pick(&OPS);
        let k = d.pick(&ks);
        let (x, y) = (d.pick(&P), d.pick(&P));
        (o, k, seed(&mut d, x), seed(&mut Dig(i.wrapping_mul(7919) >> 3), y))
    };
    ck.space(&format!("any units {}", S::WHAT), n, |i| { let (o, k, a, b) = dec(i); format!("{o:?} in units of 2^{k}: {:?} {:?}", a.0, b.0) }, |i| {
        let (o, k, a, b) = dec(i);
        let Some(w) = rb(o, a, b) else { return Ok(0) };
        let s = 2f64.powi(k);
        let r = realb(o, S::make(&ssc(a, s)), S::make(&ssc(b, s)));
        // read where the numbers are ordinary again
        let r = if o == B::Hypot { r * S::from_f64(1.0 / s) } else { r };
        let m = match o {
            B::RDiv => 1.0 / a.0[0][0].abs(),
            B::Atan2 | B::Hypot => 1.0 / a.0[0][0].hypot(b.0[0][0]),
            _ => 1.0 / b.0[0][0].abs(),
        };
        agree(&r, &w, eps * m.max(1.0).powi(5) * smax(&w).max(1.0) * 512.0, "result")?;
        Ok(hf(&[head(&r)]))
    });
}
/// The first derivative in closed form.
fn slope(u: U, x: f64) -> Option<f64> {
    let side = (1.0 - x) * (1.0 + x);
    Some(match u {
        Sin => x.cos(),
        Exp | Expm1 => x.exp(),
        Log if x > 0.0 => 1.0 / x,
        Ln1p if x > -0.999 => 1.0 / (1.0 + x),
        Sqrt if x > 0.0 => 0.5 / x.sqrt(),
        Cbrt => 1.0 / (3.0 * x.cbrt() * x.cbrt()),
        Atan => 1.0 / (1.0 + x * x),
        Asin if side > 0.0 => 1.0 / side.sqrt(),
        Acos if side > 0.0 => -1.0 / side.sqrt(),
        Sinh => x.cosh(),
        Tanh => 1.0 / (x.cosh() * x.cosh()),
        Recip | PowM1 => -1.0 / (x * x),
        Pow2 | Square => 2.0 * x,
        Pow3 => 3.0 * x * x,
        Abs => x.signum(),
        _ => return None,
    })
}
/// The value part is what the plain number gives, relative to its own size.
fn values<S: View>(ck: &Ck) {
    let is32 = S::WHAT.contains("32");
    let top = if is32 { 24 } else { 60 };
    let n = UN.len() as u64 * top * 8;
    let dec = move |i: u64| {
        let mut d = Dig(i);
        let u = d.pick(&UN);
        let e = -(d.n(top as usize) as i32);
        let m = d.pick(&[1.0, -1.0, 1.6875, -1.6875]) * 2f64.powi(e);
        let x = match d.n(2) {
            0 => m,
            // next to one, from below
            _ => (1.0 - m.abs() * 0.5) * m.signum(),
        };
        (u, if is32 { x as f32 as f64 } else { x })
    };
    ck.space(&format!("values {}", S::WHAT), n, |i| { let (u, x) = dec(i); format!("{u:?} at {x:e}") }, |i| {
        let (u, x) = dec(i);
        let want = if is32 { real::<f32>(u, x as f32, -0.5, 2.0) as f64 } else { real::<f64>(u, x, -0.5, 2.0) };
        let got = head(&real(u, S::make(&c0(x)), S::lim(-0.5), S::lim(2.0)));
        if !want.is_finite() {
            ensure!(got == want || (got.is_nan() && want.is_nan()), "{u:?} at {x:e} has the value {got:e}, the plain number gives {want:e}");
            return Ok(0);
        }
        let tol = if is32 { 4e-6 } else { 3e-14 };
        ensure!((got - want).abs() <= tol * want.abs(), "{u:?} at {x:e} has the value {got:e}, the plain number gives {want:e}");
        // and the slope, relative to its own size
        if let (Some(d), true) = (slope(u, x), S::WHAT.matches('<').count() == 1) {
            let mut a = c0(x);
            a.0[1][0] = 1.0;
            let mut w = c0(want);
            w.0[1][0] = d;
            let (got, _) = real(u, S::make(&a), S::lim(-0.5), S::lim(2.0)).read(&w)[1];
            ensure!((got - d).abs() <= tol * d.abs(), "{u:?} at {x:e} has the slope {got:e}, the true one is {d:e}");
        }
        Ok(hf(&[got]))
    });
}
/// Every straight-line program of a few steps over two variables.
fn programs<S: View>(ck: &Ck, eps: f64, depth: u32) {
    const UO: [U; 12] = [Sin, Cos, Exp, Log, Sqrt, Atan, Tanh, Recip, Abs, Pow3, Cbrt, Asin];
    const BO: [B; 8] = [B::Add, B::Sub, B::Mul, B::Div, B::RDiv, B::Atan2, B::Hypot, B::Max];
    let steps = UO.len() + BO.len() * 2;
    let n = (steps as u64).pow(depth) * 4;
    let pts = [(0.75, 1.5), (-0.5, 0.625), (1.25, -2.0), (2.0, 0.375)];
    let dec = move |i: u64| {
        let mut d = Dig(i);
        let p = d.pick(&pts);
        let st: Vec<usize> = (0..depth).map(|_| d.n(steps)).collect();
        (p, st)
    };
    let name = |st: &[usize]| st.iter().map(|k| if *k < UO.len() { format!("{:?}", UO[*k]) } else { format!("{:?} {}", BO[(k - UO.len()) / 2], ["x", "y"][(k - UO.len()) % 2]) }).collect::<Vec<_>>().join(", ");
    ck.space(&format!("programs of {depth} steps {}", S::WHAT), n, |i| { let (p, st) = dec(i); format!("at {p:?}: r = x; {}", name(&st)) }, |i| {
        let ((px, py), st) = dec(i);
        let mut sx = c0(px);
        sx.0[1][0] = 1.0;
        let mut sy = c0(py);
        sy.0[0][1] = 1.0;
        sy.0[1][0] = -0.5;
        let (rx, ry) = (S::make(&sx), S::make(&sy));
        let mut want = sx;
        let mut got = rx;
        let mut err = eps;
        for k in st {
            if k < UO.len() {
                let u = UO[k];
                let Some(t) = taylor(u, want.0[0][0]) else { return Ok(0) };
                if u == Abs && want.0[0][0].abs() < 1e-3 {
                    return Ok(0);
                }
                let tm = t.iter().fold(1.0f64, |m, x| m.max(x.abs()));
                let d = smax(&want).max(1.0);
                // worst growth of an error through the composition
                err = err * tm * 8.0 * d.powi(3).min(1e9) + eps;
                want = comp(want, &t);
                got = real(u, got, S::lim(-0.5), S::lim(2.0));
            } else {
                let (o, second) = (BO[(k - UO.len()) / 2], if (k - UO.len()) % 2 == 0 { (sx, rx) } else { (sy, ry) });
                let Some(w) = rb(o, want, second.0) else { return Ok(0) };
                let inv = match o {
                    B::RDiv => (1.0 / want.0[0][0].abs()).max(1.0).powi(5),
                    B::Div => 40.0,
                    B::Atan2 | B::Hypot => (1.0 / want.0[0][0].hypot(second.0.0[0][0])).max(1.0).powi(5),
                    _ => 1.0,
                };
                err = err * 16.0 * inv * smax(&want).max(1.0) + eps;
                want = w;
                got = realb(o, got, second.1);
            }
            if !(smax(&want) < 1e6) {
                return Ok(0);
            }
        }
        let tol = (err * smax(&want).max(1.0) * 64.0).max(256.0 * eps);
        // a tolerance that has grown past usefulness decides nothing
        if tol > 0.01 * smax(&want).max(0.05) {
            return Ok(1);
        }
        agree(&got, &want, tol, "program")?;
        Ok(hf(&want.0.concat()))
    });
}

fn spec<S: View + Primal>(ck: &Ck) {
    // comparisons, selection and classification look at the value alone
    let vals = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -2.0, -0.0, 0.0, 0.5, 2.0];
    ck.space(&format!("value semantics {}", S::WHAT), 64, |i| format!("{} and {}", vals[i as usize % 8], vals[i as usize / 8]), |i| {
        let (x, y) = (vals[i as usize % 8], vals[i as usize / 8]);
        let mut a = c0(x);
        a.0[1][0] = 3.0;
        a.0[0][1] = 4.0;
        let mut b = c0(y);
        b.0[1][0] = -1.0;
        let (p, q) = (S::make(&a), S::make(&b));
        ensure_eq!(p == q, x == y, "==");
        ensure_eq!(p < q, x < y, "<");
        ensure_eq!(p <= q, x <= y, "<=");
        ensure_eq!(p.partial_cmp(&q), x.partial_cmp(&y), "partial_cmp");
        ensure_eq!(p.is_nan(), x.is_nan(), "is_nan");
        ensure_eq!(p.is_finite(), x.is_finite(), "is_finite");
        ensure_eq!(p.is_infinite(), x.is_infinite(), "is_infinite");
        let bits = |v: f64| if v.is_nan() { f64::NAN.to_bits() } else { v.to_bits() };
        ensure_eq!(bits(p.to_f64()), bits(x), "to_f64");
        ensure_eq!(bits(p.to_f32() as f64), bits(x), "to_f32");
        if !x.is_nan() {
            ensure_eq!(bits(p.copysign(q).to_f64().abs()), bits(x.abs()), "copysign magnitude");
            if !y.is_nan() {
                ensure_eq!(p.copysign(q).to_f64().is_sign_negative(), y.is_sign_negative(), "copysign sign");
            }
        }
        for u in [Floor, Ceil, Round, Trunc, Abs] {
            let r = real(u, p, S::lim(-0.5), S::lim(2.0)).to_f64();
            let w = match u {
                Floor => x.floor(),
                Ceil => x.ceil(),
                Round => x.round(),
                Trunc => x.trunc(),
                _ => x.abs(),
            };
            ensure!(bits(r) == bits(w) || r == w, "{u:?}: got {r}, expected {w}");
        }
        // clamp: NaN stays, everything else ends in the interval
        let r = Numeric::clamp(p, S::lim(-0.5), S::lim(2.0)).to_f64();
        ensure_eq!(bits(r), bits(x.clamp(-0.5, 2.0)), "clamp");
        // derivative payloads follow the selected operand and the copied sign
        if x.is_finite() && y.is_finite() && x != y {
            let m = Numeric::max(p, q);
            agree(&m, if x > y { &a } else { &b }, 0.0, "max")?;
            let m = Numeric::min(p, q);
            agree(&m, if x < y { &a } else { &b }, 0.0, "min")?;
        }
        if x != 0.0 && x.is_finite() && !y.is_nan() {
            let w = if x.is_sign_negative() == y.is_sign_negative() { a } else { ssc(a, -1.0) };
            agree(&p.copysign(q), &w, 0.0, "copysign")?;
        }
        // division helpers follow the floating point rules
        if y == 0.0 {
            let w = if x.is_nan() || x == 0.0 { f64::NAN } else if x > 0.0 { f64::INFINITY } else { f64::NEG_INFINITY };
            ensure_eq!(bits(p.safe_div(q).to_f64()), bits(w), "safe_div by zero");
        }
        Ok(hf(&[x, y]))
    });
    // value part agrees with the plain evaluation far from the origin too
    let far = [-800.0, -100.0, -40.0, 40.0, 100.0, 800.0];
    ck.space(&format!("far out {}", S::WHAT), 6 * 5, |i| format!("{:?} at {}", [Tanh, Atan, Cbrt, Sin, Signum][i as usize % 5], far[i as usize / 5]), |i| {
        let u = [Tanh, Atan, Cbrt, Sin, Signum][i as usize % 5];
        let x = far[i as usize / 5];
        let mut a = c0(x);
        a.0[1][0] = 1.0;
        let r = real(u, S::make(&a), S::lim(-0.5), S::lim(2.0));
        let t = taylor(u, x).unwrap();
        agree(&r, &comp(a, &t), if S::WHAT.contains("32") { 1e-4 } else { 1e-12 }, &format!("{u:?}"))?;
        Ok(i)
    });
    // sides of zero are told apart however close to it
    let tiny = [1e-20f32, -1e-20, 1e-30, -1e-30, 1e-12, -1e-12].map(|x| x as f64);
    ck.space(&format!("next to zero {}", S::WHAT), 6 * 6 * 4096, |i| format!("{} and {}", tiny[i as usize % 6], tiny[i as usize / 6 % 6]), |i| {
        let mut d = Dig(i);
        let (x, y) = (d.pick(&tiny), d.pick(&tiny));
        let (a, b) = (seed(&mut d, x), seed(&mut Dig(i / 36 * 7 % 4096), y));
        let (p, q) = (S::make(&a), S::make(&b));
        let flip = |s: f64| Se(a.0.map(|r| r.map(|v| v * s)));
        agree(&p.abs(), &flip(x.signum()), 0.0, "abs")?;
        agree(&p.copysign(q), &flip(x.signum() * y.signum()), 0.0, "copysign")?;
        agree(&Numeric::max(p, q), if x >= y { &a } else { &b }, if x == y { f64::INFINITY } else { 0.0 }, "max")?;
        agree(&Numeric::min(p, q), if x <= y { &a } else { &b }, if x == y { f64::INFINITY } else { 0.0 }, "min")?;
        let (lo, hi) = (S::lim(-1.0), S::lim(1.0));
        agree(&p.clamp(lo, hi), &a, 0.0, "clamp")?;
        op(5);
        Ok(hf(&[x, y]))
    });
    // constants carry no derivative
    ck.space(&format!("constants {}", S::WHAT), 18, |i| format!("constant {i}"), |i| {
        let is32 = S::WHAT.contains("32");
        let pick = |a: f32, b: f64| if is32 { a as f64 } else { b };
        let (v, w) = match i {
            0 => (S::ZERO, 0.0),
            1 => (S::ONE, 1.0),
            2 => (S::TWO, 2.0),
            3 => (S::THREE, 3.0),
            4 => (S::HALF, 0.5),
            5 => (S::TEN, 10.0),
            6 => (S::HUNDRED, 100.0),
            7 => (S::ONE_HUNDRED_EIGHTY, 180.0),
            8 => (S::PI, pick(std::f32::consts::PI, std::f64::consts::PI)),
            9 => (S::TWO_PI, pick(std::f32::consts::TAU, std::f64::consts::TAU)),
            10 => (S::EPSILON, pick(f32::EPSILON, f64::EPSILON)),
            11 => (S::EPSILON_X4, pick(f32::EPSILON * 4.0, f64::EPSILON * 4.0)),
            12 => (S::EPSILON_X30, pick(f32::EPSILON * 30.0, f64::EPSILON * 30.0)),
            13 => (S::MAX, pick(f32::MAX, f64::MAX)),
            14 => (S::MIN_POSITIVE, pick(f32::MIN_POSITIVE, f64::MIN_POSITIVE)),
            15 => (S::from_f64(0.375), 0.375),
            16 => (S::from_u64(12345), 12345.0),
            _ => (S::from_usize(777), 777.0),
        };
        agree(&v, &c0(w), 0.0, "constant")?;
        ensure!(S::NAN.is_nan() && S::INFINITY.is_infinite() && S::NEG_INFINITY < S::ZERO && S::NEG_INFINITY.is_infinite(), "NaN and infinities");
        let two = S::TWO;
        agree(&(constant(3.0) * two), &c0(6.0), 0.0, "constant * x")?;
        agree(&(constant(3.0) + two), &c0(5.0), 0.0, "constant + x")?;
        agree(&(constant(3.0) - two), &c0(1.0), 0.0, "constant - x")?;
        agree(&(constant(3.0) / two), &c0(1.5), 0.0, "constant / x")?;
        Ok(i)
    });
    let ns = [i32::MIN + 1, -1000, -17, -9, -8, -5, -4, -3, 4, 5, 6, 8, 9, 12, 13, 16, 17, 31, 33, 1000, i32::MAX];
    let xs = [-1.0, -0.5, 0.75, 1.0, 1.25, 2.0, -3.0];
    ck.space(&format!("integer powers {}", S::WHAT), 21 * 7, |i| format!("{}^{}", xs[i as usize / 21], ns[i as usize % 21]), |i| {
        let (n, x) = (ns[i as usize % 21], xs[i as usize / 21]);
        let mut a = c0(x);
        a.0[1][0] = 1.0;
        let r = a_powi(S::make(&a), n);
        let w = x.powi(n);
        let is32 = S::WHAT.contains("32");
        if w.is_finite() && w.abs() > if is32 { 1e-37 } else { 1e-300 } && (!is32 || w.abs() < 1e36) && (n.unsigned_abs() < 100 || x.abs() == 1.0) {
            let rtol = if is32 { 1e-5 } else { 1e-13 };
            ensure_close!(r.to_f64(), w, rtol, 0.0, "value");
            if n.unsigned_abs() < 20 {
                let t = tpow(x, n as f64, w);
                agree(&r, &comp(a, &t), t.iter().fold(0.0f64, |m, v| m.max(v.abs())) * rtol * 10.0, "derivatives")?;
            }
        }
        Ok(hf(&[w]))
    });
}
fn a_powi<S: Numeric>(x: S, n: i32) -> S {
    x.powi(n)
}
/// Jets of every length through the differential equation each function obeys: the same
/// coefficients whatever the order kept, and right at every order.
fn lengths<const N: usize>(ck: &Ck) {
    type A<const N: usize> = [f64; N];
    fn p<const N: usize>(a: &A<N>, b: &A<N>) -> A<N> {
        std::array::from_fn(|k| (0..=k).map(|j| a[j] * b[k - j]).sum())
    }
    fn d<const N: usize>(a: &A<N>) -> A<N> {
        std::array::from_fn(|k| if k + 1 < N { a[k + 1] * (k + 1) as f64 } else { 0.0 })
    }
    fn m<const N: usize>(a: &A<N>) -> A<N> {
        a.map(f64::abs)
    }
    fn lin<const N: usize>(c: f64, k: f64, a: &A<N>) -> A<N> {
        std::array::from_fn(|i| k * a[i] + if i == 0 { c } else { 0.0 })
    }
    let base = [0.375, 0.8125, -0.625, 1.5];
    let pats = (11 * 10 / 2 + 11 + 4) as u64;
    let input = move |i: u64| -> [[f64; N]; 2] {
        let mut g = Dig(i);
        let x = g.pick(&base);
        let y = g.pick(&base);
        let w = g.n(pats as usize);
        let mut a = [0.0; N];
        let mut b = [0.0; N];
        let mut full = [0.0; 17];
        match w {
            0 => full = std::array::from_fn(|k| if k % 2 == 0 { 0.5 } else { -0.5 }),
            1 => full = std::array::from_fn(|k| 1.0 / (k + 1) as f64),
            2 => full[1] = 1.0,
            3 => {}
            w => {
                let mut w = w - 4;
                'o: for j in 1..12 {
                    for k in j..12 {
                        if w == 0 {
                            full[j] += 0.75;
                            full[k] -= 0.5;
                            break 'o;
                        }
                        w -= 1;
                    }
                }
            }
        }
        for k in 0..N {
            a[k] = full[k];
            b[k] = full[(k + 1) % 17] * -0.75;
        }
        a[0] = x;
        b[0] = y;
        [a, b]
    };
    ck.space(&format!("jets of length {N}"), pats * 16, move |i| format!("{:?}", input(i)), move |i| {
        let [a, b] = input(i);
        let (x, y) = (Jet::<f64, N>::new(a), Jet::<f64, N>::new(b));
        let one = lin(1.0, 0.0, &a);
        // l = r where l, r are sums of products; size is the same sum over magnitudes
        // the last coefficient of a derivative is not known
        let eq = |what: &str, l: &A<N>, r: &A<N>, size: &A<N>, n: usize| -> Result<(), String> {
            let mut big = 0.0f64;
            for k in 0..n {
                big = big.max(size[k]);
                ensure_close!(l[k], r[k], 0.0, 1e-11 * (1.0 + big), "{what} at order {k}");
            }
            Ok(())
        };
        // f obeys w f' = v  (checked below the last coefficient) and starts from f(x)
        let ode = |what: &str, f: Jet<f64, N>, w: &A<N>, v: &A<N>, size: &A<N>, start: f64| -> Result<(), String> {
            ensure_close!(f.coeffs[0], start, 1e-13, 1e-15, "{what} value");
            let l = p(w, &d(&f.coeffs));
            let sz: A<N> = std::array::from_fn(|k| p(&m(w), &m(&d(&f.coeffs)))[k] + size[k]);
            eq(what, &l, v, &sz, N - 1)
        };
        let da = d(&a);
        let xv = a[0];
        let (s, c) = (x.sin().coeffs, x.cos().coeffs);
        ode("sin", x.sin(), &one, &p(&c, &da), &p(&m(&c), &m(&da)), xv.sin())?;
        ode("cos", x.cos(), &one, &lin(0.0, -1.0, &p(&s, &da)), &p(&m(&s), &m(&da)), xv.cos())?;
        let f = x.tan().coeffs;
        eq("tan", &p(&f, &c), &s, &p(&m(&f), &m(&c)), N)?;
        let f = x.exp().coeffs;
        ode("exp", x.exp(), &one, &p(&f, &da), &p(&m(&f), &m(&da)), xv.exp())?;
        let f = lin(1.0, 1.0, &x.expm1().coeffs);
        ode("expm1", x.expm1(), &one, &p(&f, &da), &p(&m(&f), &m(&da)), xv.exp_m1())?;
        let (sh, ch) = (x.sinh().coeffs, x.cosh().coeffs);
        ode("sinh", x.sinh(), &one, &p(&ch, &da), &p(&m(&ch), &m(&da)), xv.sinh())?;
        ode("cosh", x.cosh(), &one, &p(&sh, &da), &p(&m(&sh), &m(&da)), xv.cosh())?;
        let f = x.tanh().coeffs;
        eq("tanh", &p(&f, &ch), &sh, &p(&m(&f), &m(&ch)), N)?;
        let q = lin(1.0, 1.0, &p(&a, &a));
        ode("atan", x.atan(), &q, &da, &m(&da), xv.atan())?;
        ode("ln_1p", x.ln_1p(), &lin(1.0, 1.0, &a), &da, &m(&da), xv.ln_1p())?;
        if xv > 0.0 {
            ode("log", x.log(), &a, &da, &m(&da), xv.ln())?;
            ode("log2", x.log2(), &lin(0.0, std::f64::consts::LN_2, &a), &da, &m(&da), xv.log2())?;
            ode("log10", x.log10(), &lin(0.0, std::f64::consts::LN_10, &a), &da, &m(&da), xv.log10())?;
            let f = x.sqrt().coeffs;
            ensure!(f[0] > 0.0, "sqrt sign");
            eq("sqrt", &p(&f, &f), &a, &p(&m(&f), &m(&f)), N)?;
            let f = Numeric::powf(x, Jet::constant(1.75)).coeffs;
            ode("powf", Numeric::powf(x, Jet::constant(1.75)), &a, &lin(0.0, 1.75, &p(&f, &da)), &p(&m(&f), &m(&da)), xv.powf(1.75))?;
        }
        let f = x.cbrt().coeffs;
        eq("cbrt", &p(&f, &p(&f, &f)), &a, &p(&m(&f), &p(&m(&f), &m(&f))), N)?;
        if xv.abs() < 1.0 {
            let r = (Jet::<f64, N>::new(one) - x * x).sqrt().coeffs;
            ode("asin", x.asin(), &r, &da, &m(&da), xv.asin())?;
            ode("acos", x.acos(), &lin(0.0, -1.0, &r), &da, &m(&da), xv.acos())?;
        }
        let f = Numeric::recip(x).coeffs;
        eq("recip", &p(&f, &a), &one, &p(&m(&f), &m(&a)), N)?;
        let a2 = p(&a, &a);
        let a3 = p(&a2, &a);
        eq("powi 2", &x.powi(2).coeffs, &a2, &p(&m(&a), &m(&a)), N)?;
        eq("powi 3", &x.powi(3).coeffs, &a3, &p(&p(&m(&a), &m(&a)), &m(&a)), N)?;
        eq("powi 7", &x.powi(7).coeffs, &p(&p(&a3, &a3), &a), &p(&p(&p(&m(&a3), &m(&a3)), &m(&a)), &m(&one)), N)?;
        let f = x.powi(-2).coeffs;
        eq("powi -2", &p(&f, &a2), &one, &p(&m(&f), &p(&m(&a), &m(&a))), N)?;
        eq("product", &(x * y).coeffs, &p(&a, &b), &p(&m(&a), &m(&b)), N)?;
        let f = (y / x).coeffs;
        eq("quotient", &p(&f, &a), &b, &p(&m(&f), &m(&a)), N)?;
        let (h, r2) = (x.hypot(y).coeffs, std::array::from_fn(|k| a2[k] + p(&b, &b)[k]));
        ensure!(h[0] > 0.0, "hypot sign");
        eq("hypot", &p(&h, &h), &r2, &p(&m(&h), &m(&h)), N)?;
        let v: A<N> = std::array::from_fn(|k| p(&b, &da)[k] - p(&a, &d(&b))[k]);
        let sz: A<N> = std::array::from_fn(|k| p(&m(&b), &m(&da))[k] + p(&m(&a), &m(&d(&b)))[k]);
        ode("atan2", x.atan2(y), &r2, &v, &sz, a[0].atan2(b[0]))?;
        let ma: A<N> = std::array::from_fn(|k| p(&a, &b)[k] + b[k]);
        eq("mul_add", &x.mul_add(y, y).coeffs, &ma, &p(&m(&a), &lin(1.0, 1.0, &m(&b))), N)?;
        if xv > 0.0 && N <= 12 {
            let f = Numeric::powf(x, y);
            ode("power of jets", f, &one, &p(&f.coeffs, &d(&(y * x.log()).coeffs)), &p(&m(&f.coeffs), &m(&d(&(y * x.log()).coeffs))), xv.powf(b[0]))?;
        }
        Ok(hf(&s))
    });
}
fn accessors(ck: &Ck) {
    ck.space("constructors and accessors", 1, |_| "all".into(), |_| {
        let d = Dual::variable(2.5);
        ensure!(d.value == 2.5 && d.deriv == 1.0 && Dual::constant(2.5).deriv == 0.0 && Dual::constant(2.5).value == 2.5, "Dual");
        let h = HyperDual::variable(2.5);
        ensure!(h.real == 2.5 && h.eps1 == 1.0 && h.eps2 == 1.0 && h.eps1eps2 == 0.0, "HyperDual::variable");
        let h = HyperDual::constant(2.5);
        ensure!(h.real == 2.5 && h.eps1 == 0.0 && h.eps2 == 0.0 && h.eps1eps2 == 0.0, "HyperDual::constant");
        let j = Jet::<f64, 4>::variable(2.5);
        ensure!(j.coeffs == [2.5, 1.0, 0.0, 0.0] && j.value() == 2.5, "Jet::variable");
        ensure!(Jet::<f64, 1>::constant(2.5).coeffs == [2.5], "Jet::constant");
        let j = Jet::<f64, 7>::new([1.0, 2.0, 3.0, 4.0, 5.0, 6.0, 7.0]);
        let f = [1.0, 1.0, 2.0, 6.0, 24.0, 120.0, 720.0];
        for k in 0..7 {
            ensure_eq!(j.coefficient(k), (k + 1) as f64, "coefficient");
            ensure_eq!(j.derivative(k), (k + 1) as f64 * f[k], "derivative {k}");
        }
        Ok(0)
    });
    let xs: Vec<f64> = (-48..=48).map(|k| k as f64 * std::f64::consts::PI / 8.0).collect();
    ck.space("angle folding", xs.len() as u64 * 3, |i| format!("{}", xs[i as usize / 3]), |i| {
        let x = xs[i as usize / 3] + [0.0, 0.01, -0.01][i as usize % 3];
        let r = Numeric::wrap_to_pi(x);
        ensure!(r.abs() <= std::f64::consts::PI + 1e-12, "{r} outside ±π");
        let turns = (x - r) / std::f64::consts::TAU;
        ensure!((turns - turns.round()).abs() < 1e-12, "not whole turns");
        let r = Numeric::wrap_to_pi(x as f32) as f64;
        ensure!(r.abs() <= std::f64::consts::PI + 1e-5, "f32 {r} outside ±π");
        let turns = (x as f32 as f64 - r) / std::f64::consts::TAU;
        ensure!((turns - turns.round()).abs() < 1e-5, "f32 not whole turns");
        Ok(hf(&[r]))
    });
}

fn main() {
    let ck = Ck::new("C02");
    macro_rules! each {
        ($($t:ty, $e:expr, $d:expr);*) => { $( unary::<$t>(&ck, $e); binary::<$t>(&ck, $e); programs::<$t>(&ck, $e, $d); spec::<$t>(&ck); units::<$t>(&ck, $e); values::<$t>(&ck); )* };
    }
    let (e64, e32) = (f64::EPSILON, f32::EPSILON as f64);
    let d = ck.q(3, 4);
    each!(f64, e64, d; f32, e32, d; Dual<f64>, e64, d; Dual<f32>, e32, 3; HyperDual<f64>, e64, d; HyperDual<f32>, e32, 3; Jet<f64, 5>, e64, d; Jet<f32, 5>, e32, 3; Dual<Dual<f64>>, e64, 3; Dual<Jet<f64, 5>>, e64, 3; Jet<Dual<f64>, 3>, e64, 3; HyperDual<Dual<f64>>, e64, 3);
    accessors(&ck);
    lengths::<1>(&ck);
    lengths::<2>(&ck);
    lengths::<3>(&ck);
    lengths::<4>(&ck);
    lengths::<6>(&ck);
    lengths::<8>(&ck);
    lengths::<9>(&ck);
    lengths::<12>(&ck);
    lengths::<16>(&ck);
    ck.assume("points where a function is not smooth, or within a small margin of such a point, are only checked for the value semantics; results and derivatives stay representable");
    ck.finish();
}
