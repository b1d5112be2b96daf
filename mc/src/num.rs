//! Scalars the harnesses instantiate the generic library code with.
use multicalc::Numeric;
use multicalc::scalar::Primal;

pub trait Fl: Numeric + Primal + Send + Sync + 'static {
    const EPS: f64;
    const NAME: &'static str;
    const IS32: bool;
}
impl Fl for f64 {
    const EPS: f64 = f64::EPSILON;
    const NAME: &'static str = "f64";
    const IS32: bool = false;
}
impl Fl for f32 {
    const EPS: f64 = f32::EPSILON as f64;
    const NAME: &'static str = "f32";
    const IS32: bool = true;
}
/// to the library scalar
#[inline]
pub fn t<T: Numeric>(x: f64) -> T {
    T::from_f64(x)
}
/// from the library scalar
#[inline]
pub fn g<T: Primal>(x: T) -> f64 {
    x.to_f64()
}
pub fn ga<T: Primal + Copy, const N: usize>(x: [T; N]) -> [f64; N] {
    x.map(|v| v.to_f64())
}
pub fn ta<T: Numeric, const N: usize>(x: [f64; N]) -> [T; N] {
    x.map(|v| T::from_f64(v))
}

/// Checks a fallible constructor: `allowed` lists every error that documents one of the defects of
/// the arguments. Empty means it must succeed.
pub fn verdict<V, E: PartialEq + std::fmt::Debug>(r: Result<V, E>, allowed: &[E], what: &str) -> Result<Option<V>, String> {
    crate::op(1);
    match r {
        Ok(v) if allowed.is_empty() => Ok(Some(v)),
        Ok(_) => Err(format!("{what}: accepted, expected one of {allowed:?}")),
        Err(e) if allowed.contains(&e) => Ok(None),
        Err(e) => Err(format!("{what}: error {e:?}, expected {}", if allowed.is_empty() { "success".into() } else { format!("one of {allowed:?}") })),
    }
}

/// Special values every argument domain is probed with.
pub const SPECIAL: [f64; 14] = [
    f64::NAN,
    f64::INFINITY,
    f64::NEG_INFINITY,
    -1.0,
    -0.0,
    0.0,
    1e-30,
    0.25,
    0.5,
    1.0,
    1.0000002384185791,
    2.0,
    7.5,
    1e30,
];
