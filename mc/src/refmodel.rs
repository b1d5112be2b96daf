//! Reference arithmetic: exact rationals and a plain dense solver, written independently of the
//! library under test.
use std::cmp::Ordering;
use std::ops::{Add, Div, Mul, Neg, Sub};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct Rat {
    pub n: i128,
    pub d: i128,
}
fn gcd(mut a: i128, mut b: i128) -> i128 {
    a = a.abs();
    b = b.abs();
    while b != 0 {
        (a, b) = (b, a % b);
    }
    a
}
impl Rat {
    pub const ZERO: Rat = Rat { n: 0, d: 1 };
    pub const ONE: Rat = Rat { n: 1, d: 1 };
    pub fn new(n: i128, d: i128) -> Rat {
        assert!(d != 0, "rational with zero denominator");
        let g = gcd(n, d).max(1);
        let s = if d < 0 { -1 } else { 1 };
        Rat { n: s * n / g, d: s * d / g }
    }
    pub fn int(n: i64) -> Rat {
        Rat { n: n as i128, d: 1 }
    }
    /// exact value of a float that is a small dyadic number
    pub fn f(x: f64) -> Rat {
        let mut d: i128 = 1;
        let mut y = x;
        while y != y.trunc() {
            y *= 2.0;
            d *= 2;
            assert!(d < 1 << 60);
        }
        Rat::new(y as i128, d)
    }
    pub fn to_f64(self) -> f64 {
        self.n as f64 / self.d as f64
    }
    pub fn is_zero(self) -> bool {
        self.n == 0
    }
    pub fn abs(self) -> Rat {
        Rat { n: self.n.abs(), d: self.d }
    }
}
impl Add for Rat {
    type Output = Rat;
    fn add(self, o: Rat) -> Rat {
        Rat::new(self.n * o.d + o.n * self.d, self.d * o.d)
    }
}
impl Sub for Rat {
    type Output = Rat;
    fn sub(self, o: Rat) -> Rat {
        Rat::new(self.n * o.d - o.n * self.d, self.d * o.d)
    }
}
impl Mul for Rat {
    type Output = Rat;
    fn mul(self, o: Rat) -> Rat {
        Rat::new(self.n * o.n, self.d * o.d)
    }
}
impl Div for Rat {
    type Output = Rat;
    fn div(self, o: Rat) -> Rat {
        Rat::new(self.n * o.d, self.d * o.n)
    }
}
impl Neg for Rat {
    type Output = Rat;
    fn neg(self) -> Rat {
        Rat { n: -self.n, d: self.d }
    }
}
impl PartialOrd for Rat {
    fn partial_cmp(&self, o: &Rat) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Rat {
    fn cmp(&self, o: &Rat) -> Ordering {
        (self.n * o.d).cmp(&(o.n * self.d))
    }
}

/// Exact Gauss-Jordan: solves `a x = b` for several right-hand sides. None when singular.
pub fn rsolve(a: &[Vec<Rat>], b: &[Vec<Rat>]) -> Option<Vec<Vec<Rat>>> {
    let n = a.len();
    let m = b[0].len();
    let mut w: Vec<Vec<Rat>> = (0..n).map(|i| a[i].iter().chain(b[i].iter()).copied().collect()).collect();
    for c in 0..n {
        let p = (c..n).find(|&r| !w[r][c].is_zero())?;
        w.swap(c, p);
        let pv = w[c][c];
        for x in w[c].iter_mut() {
            *x = *x / pv;
        }
        for r in 0..n {
            if r != c && !w[r][c].is_zero() {
                let f = w[r][c];
                for k in 0..n + m {
                    let v = w[c][k];
                    w[r][k] = w[r][k] - f * v;
                }
            }
        }
    }
    Some(w.into_iter().map(|r| r[n..].to_vec()).collect())
}
pub fn rdet(a: &[Vec<Rat>]) -> Rat {
    let n = a.len();
    let mut w = a.to_vec();
    let mut det = Rat::ONE;
    for c in 0..n {
        let Some(p) = (c..n).find(|&r| !w[r][c].is_zero()) else { return Rat::ZERO };
        if p != c {
            w.swap(c, p);
            det = -det;
        }
        det = det * w[c][c];
        for r in c + 1..n {
            let f = w[r][c] / w[c][c];
            for k in c..n {
                let v = w[c][k];
                w[r][k] = w[r][k] - f * v;
            }
        }
    }
    det
}
pub fn rrank(a: &[Vec<Rat>]) -> usize {
    let (m, n) = (a.len(), a[0].len());
    let mut w = a.to_vec();
    let mut r0 = 0;
    for c in 0..n {
        let Some(p) = (r0..m).find(|&r| !w[r][c].is_zero()) else { continue };
        w.swap(r0, p);
        for r in r0 + 1..m {
            let f = w[r][c] / w[r0][c];
            for k in c..n {
                let v = w[r0][k];
                w[r][k] = w[r][k] - f * v;
            }
        }
        r0 += 1;
        if r0 == m {
            break;
        }
    }
    r0
}
pub fn rmul(a: &[Vec<Rat>], b: &[Vec<Rat>]) -> Vec<Vec<Rat>> {
    (0..a.len())
        .map(|i| (0..b[0].len()).map(|j| (0..b.len()).fold(Rat::ZERO, |s, k| s + a[i][k] * b[k][j])).collect())
        .collect()
}
pub fn rt(a: &[Vec<Rat>]) -> Vec<Vec<Rat>> {
    (0..a[0].len()).map(|j| (0..a.len()).map(|i| a[i][j]).collect()).collect()
}

/// Plain f64 dense helpers on row-major vectors of vectors.
pub type M = Vec<Vec<f64>>;
pub fn fmul(a: &M, b: &M) -> M {
    (0..a.len()).map(|i| (0..b[0].len()).map(|j| (0..b.len()).map(|k| a[i][k] * b[k][j]).sum()).collect()).collect()
}
pub fn fadd(a: &M, b: &M) -> M {
    a.iter().zip(b).map(|(r, s)| r.iter().zip(s).map(|(x, y)| x + y).collect()).collect()
}
pub fn fsub(a: &M, b: &M) -> M {
    a.iter().zip(b).map(|(r, s)| r.iter().zip(s).map(|(x, y)| x - y).collect()).collect()
}
pub fn ft(a: &M) -> M {
    (0..a[0].len()).map(|j| (0..a.len()).map(|i| a[i][j]).collect()).collect()
}
pub fn fscale(a: &M, s: f64) -> M {
    a.iter().map(|r| r.iter().map(|x| x * s).collect()).collect()
}
pub fn feye(n: usize) -> M {
    (0..n).map(|i| (0..n).map(|j| if i == j { 1.0 } else { 0.0 }).collect()).collect()
}
pub fn fmax_abs(a: &M) -> f64 {
    a.iter().flatten().fold(0.0, |m: f64, x| if x.is_nan() { f64::NAN } else { m.max(x.abs()) })
}
/// Gauss with complete row pivoting.
pub fn fsolve(a: &M, b: &M) -> Option<M> {
    let n = a.len();
    let m = b[0].len();
    let mut w: M = (0..n).map(|i| a[i].iter().chain(b[i].iter()).copied().collect()).collect();
    for c in 0..n {
        let p = (c..n).max_by(|&x, &y| w[x][c].abs().total_cmp(&w[y][c].abs()))?;
        if w[p][c] == 0.0 || !w[p][c].is_finite() {
            return None;
        }
        w.swap(c, p);
        for r in 0..n {
            if r != c {
                let f = w[r][c] / w[c][c];
                if f != 0.0 {
                    for k in c..n + m {
                        w[r][k] -= f * w[c][k];
                    }
                }
            }
        }
    }
    Some((0..n).map(|i| (0..m).map(|j| w[i][n + j] / w[i][i]).collect()).collect())
}
pub fn finv(a: &M) -> Option<M> {
    fsolve(a, &feye(a.len()))
}

/// Quaternions [w, x, y, z] and small vectors in double precision.
pub type Q = [f64; 4];
pub type V3 = [f64; 3];
pub fn qmul(a: Q, b: Q) -> Q {
    [
        a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3],
        a[0] * b[1] + a[1] * b[0] + a[2] * b[3] - a[3] * b[2],
        a[0] * b[2] - a[1] * b[3] + a[2] * b[0] + a[3] * b[1],
        a[0] * b[3] + a[1] * b[2] - a[2] * b[1] + a[3] * b[0],
    ]
}
pub fn qconj(a: Q) -> Q {
    [a[0], -a[1], -a[2], -a[3]]
}
pub fn qnormed(a: Q) -> Q {
    let n = a.iter().map(|x| x * x).sum::<f64>().sqrt();
    a.map(|x| x / n)
}
/// rotation by the vector `w` (angle its length)
pub fn qexp(w: V3) -> Q {
    let th = norm3(w);
    let s = if th < 1e-8 { 0.5 - th * th / 48.0 } else { (th / 2.0).sin() / th };
    [(th / 2.0).cos(), w[0] * s, w[1] * s, w[2] * s]
}
pub fn qrot(q: Q, v: V3) -> V3 {
    let r = qmul(qmul(q, [0.0, v[0], v[1], v[2]]), qconj(q));
    [r[1], r[2], r[3]]
}
/// row-major rotation matrix of a unit quaternion
pub fn qmat(q: Q) -> [[f64; 3]; 3] {
    let c = [qrot(q, [1.0, 0.0, 0.0]), qrot(q, [0.0, 1.0, 0.0]), qrot(q, [0.0, 0.0, 1.0])];
    std::array::from_fn(|r| std::array::from_fn(|k| c[k][r]))
}
pub fn cross(a: V3, b: V3) -> V3 {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
pub fn dot3(a: V3, b: V3) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
pub fn norm3(a: V3) -> f64 {
    let d = dot3(a, a);
    if d.is_finite() && d > 1e-290 { return d.sqrt() }
    let m = a.iter().fold(0.0f64, |m, v| m.max(v.abs()));
    if m == 0.0 || !m.is_finite() { return d.sqrt() }
    let b = a.map(|v| v / m);
    m * dot3(b, b).sqrt()
}
pub fn add3(a: V3, b: V3) -> V3 {
    std::array::from_fn(|k| a[k] + b[k])
}
pub fn sub3(a: V3, b: V3) -> V3 {
    std::array::from_fn(|k| a[k] - b[k])
}
pub fn sc3(a: V3, s: f64) -> V3 {
    a.map(|x| x * s)
}
/// distance between two rotations given as quaternions of either sign
pub fn qdist(a: Q, b: Q) -> f64 {
    let d = |s: f64| (0..4).map(|k| (a[k] - s * b[k]).powi(2)).sum::<f64>().sqrt();
    d(1.0).min(d(-1.0))
}
pub fn mv3(m: [[f64; 3]; 3], v: V3) -> V3 {
    std::array::from_fn(|r| dot3(m[r], v))
}
pub fn mm3(a: [[f64; 3]; 3], b: [[f64; 3]; 3]) -> [[f64; 3]; 3] {
    std::array::from_fn(|r| std::array::from_fn(|c| (0..3).map(|k| a[r][k] * b[k][c]).sum()))
}
pub fn mt3(a: [[f64; 3]; 3]) -> [[f64; 3]; 3] {
    std::array::from_fn(|r| std::array::from_fn(|c| a[c][r]))
}
