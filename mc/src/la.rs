//! Conversions between the library's matrices and the reference forms.
use crate::num::*;
use crate::refmodel::*;
use multicalc::linear_algebra::{Matrix, Vector};

/// library matrix -> f64 rows
pub fn mm<const R: usize, const C: usize, T: Fl>(a: &Matrix<R, C, T>) -> M {
    (0..R).map(|i| (0..C).map(|j| g(a[(i, j)])).collect()).collect()
}
pub fn vv<const N: usize, T: Fl>(a: &Vector<N, T>) -> Vec<f64> {
    (0..N).map(|i| g(a[i])).collect()
}
/// f64 rows -> library matrix
pub fn lm<const R: usize, const C: usize, T: Fl>(a: &M) -> Matrix<R, C, T> {
    Matrix::new(std::array::from_fn(|i| std::array::from_fn(|j| T::from_f64(a[i][j]))))
}
pub fn lv<const N: usize, T: Fl>(a: &[f64]) -> Vector<N, T> {
    Vector::new(std::array::from_fn(|i| T::from_f64(a[i])))
}
pub fn rr(a: &M) -> Vec<Vec<Rat>> {
    a.iter().map(|r| r.iter().map(|x| Rat::f(*x)).collect()).collect()
}
pub fn rf(a: &[Vec<Rat>]) -> M {
    a.iter().map(|r| r.iter().map(|x| x.to_f64()).collect()).collect()
}
pub fn col(v: &[f64]) -> M {
    v.iter().map(|x| vec![*x]).collect()
}
/// entrywise comparison within an absolute tolerance (NaN matches NaN, infinities themselves)
pub fn mclose(a: &M, b: &M, tol: f64, what: &str) -> Result<(), String> {
    crate::op(1);
    if a.len() != b.len() {
        return Err(format!("{what}: {} rows, expected {}", a.len(), b.len()));
    }
    for i in 0..a.len() {
        if a[i].len() != b[i].len() {
            return Err(format!("{what}: {} columns, expected {}", a[i].len(), b[i].len()));
        }
        for j in 0..a[i].len() {
            if !crate::close(a[i][j], b[i][j], 0.0, tol) {
                return Err(format!("{what}: entry ({i},{j}) is {:?}, expected {:?} (tolerance {tol:e}); got {a:?}, expected {b:?}", a[i][j], b[i][j]));
            }
        }
    }
    Ok(())
}
pub fn vclose(a: &[f64], b: &[f64], tol: f64, what: &str) -> Result<(), String> {
    mclose(&vec![a.to_vec()], &vec![b.to_vec()], tol, what)
}
/// hash of the entries
pub fn mh(a: &M) -> u64 {
    crate::hf(&a.concat())
}
pub fn fdot(a: &[f64], b: &[f64]) -> f64 {
    a.iter().zip(b).map(|(x, y)| x * y).sum()
}
pub fn fnorm(a: &[f64]) -> f64 {
    fdot(a, a).sqrt()
}
pub fn fcross(a: &[f64], b: &[f64]) -> Vec<f64> {
    vec![a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
pub fn fmv(a: &M, v: &[f64]) -> Vec<f64> {
    a.iter().map(|r| fdot(r, v)).collect()
}
/// Matrix exponential reference: heavy scaling and a long Taylor series.
pub fn fexpm(a: &M) -> M {
    let n = a.len();
    let norm = fmax_abs(a) * n as f64;
    let mut s = 0;
    let mut x = norm;
    while x > 0.25 {
        x *= 0.5;
        s += 1;
    }
    let b = fscale(a, 0.5f64.powi(s));
    // result kept as (e^B - I) so that squaring loses no digits of the small part
    let mut r = vec![vec![0.0; n]; n];
    for k in (1..=18).rev() {
        // r = (B/k) (I + r)
        r = fscale(&fmul(&b, &fadd(&feye(n), &r)), 1.0 / k as f64);
    }
    for _ in 0..s {
        r = fadd(&fscale(&r, 2.0), &fmul(&r, &r));
    }
    fadd(&feye(n), &r)
}
/// All permutations of 0..n, the k-th in lexicographic order.
pub fn perm(n: usize, mut k: u64) -> Vec<usize> {
    let mut left: Vec<usize> = (0..n).collect();
    let mut out = vec![];
    let mut f: u64 = (1..=n as u64).product();
    for i in 0..n {
        f /= (n - i) as u64;
        out.push(left.remove((k / f) as usize));
        k %= f;
    }
    out
}
pub fn fact(n: usize) -> u64 {
    (1..=n as u64).product()
}
/// Eigenvalues (ascending) and eigenvectors (columns) of a symmetric matrix, by cyclic Jacobi.
pub fn feig(a: &M) -> (Vec<f64>, M) {
    let n = a.len();
    let (mut a, mut v) = (a.clone(), feye(n));
    for _ in 0..60 {
        let off: f64 = (0..n).flat_map(|i| (0..n).map(move |j| (i, j))).filter(|(i, j)| i != j).map(|(i, j)| a[i][j] * a[i][j]).sum();
        if off == 0.0 {
            break;
        }
        for p in 0..n {
            for q in p + 1..n {
                if a[p][q] == 0.0 {
                    continue;
                }
                let th = (a[q][q] - a[p][p]) / (2.0 * a[p][q]);
                let t = th.signum() / (th.abs() + (th * th + 1.0).sqrt());
                let t = if th == 0.0 { 1.0 } else { t };
                let c = 1.0 / (t * t + 1.0).sqrt();
                let s = t * c;
                for k in 0..n {
                    let (x, y) = (a[k][p], a[k][q]);
                    a[k][p] = c * x - s * y;
                    a[k][q] = s * x + c * y;
                }
                for k in 0..n {
                    let (x, y) = (a[p][k], a[q][k]);
                    a[p][k] = c * x - s * y;
                    a[q][k] = s * x + c * y;
                }
                for row in v.iter_mut() {
                    let (x, y) = (row[p], row[q]);
                    row[p] = c * x - s * y;
                    row[q] = s * x + c * y;
                }
            }
        }
    }
    let mut ord: Vec<usize> = (0..n).collect();
    ord.sort_by(|i, j| a[*i][*i].total_cmp(&a[*j][*j]));
    (ord.iter().map(|i| a[*i][*i]).collect(), (0..n).map(|r| ord.iter().map(|c| v[r][*c]).collect()).collect())
}

/// How many matrices [`wide`] lists.
pub fn wide_count(r: usize, c: usize) -> u64 {
    (4 * r * c * 3 * r) as u64
}
/// Matrices of any size around well-conditioned integer ones: four bases (second difference,
/// reversed bidiagonal, arrow, and the dense `min(i, j) + 1`), one entry changed anywhere, and
/// the first row swapped with any other.
pub fn wide(r: usize, c: usize, i: u64) -> M {
    let mut d = crate::Dig(i);
    let base = d.n(4);
    let mut a: M = (0..r)
        .map(|i| {
            (0..c)
                .map(|j| match base {
                    0 => if i == j { 2.0 } else if i.abs_diff(j) == 1 { -1.0 } else { 0.0 },
                    1 => if i + j + 1 == r.max(c) { 1.0 } else if i + j + 2 == r.max(c) { -1.0 } else { 0.0 },
                    2 => if i == j { 3.0 } else if i == 0 || j == 0 { 1.0 } else { 0.0 },
                    _ => (i.min(j) + 1) as f64,
                })
                .collect()
        })
        .collect();
    let (p, q) = (d.n(r), d.n(c));
    a[p][q] += d.pick(&[0.0, 1.0, -2.0]);
    let k = d.n(r);
    a.swap(0, k);
    a
}
