//! C08: singular values, symmetric eigendecomposition and pseudo-inverse.
use mc::la::*;
use mc::num::*;
use mc::refmodel::*;
use mc::*;
use multicalc::error::LinalgError as E;
use multicalc::linear_algebra::Matrix;
use multicalc::scalar::Dual;

fn mat(d: &mut Dig, r: usize, c: usize, al: &[f64]) -> M {
    (0..r).map(|_| (0..c).map(|_| d.pick(al)).collect()).collect()
}
const B: [f64; 16] = [3.0, -1.0, 4.0, 1.0, -5.0, 9.0, 2.0, -6.0, 5.0, 3.0, -5.0, 8.0, -9.0, 7.0, 9.0, 3.0];

/// exact pseudo-inverse of an integer matrix, through a rank factorization A = F G
fn rpinv(a: &M) -> M {
    let ra = rr(a);
    let (m, n) = (a.len(), a[0].len());
    let r = rrank(&ra);
    if r == 0 {
        return vec![vec![0.0; m]; n];
    }
    // pivot columns of A
    let mut cols: Vec<usize> = vec![];
    for c in 0..n {
        let mut try_ = cols.clone();
        try_.push(c);
        let sub: Vec<Vec<Rat>> = ra.iter().map(|row| try_.iter().map(|k| row[*k]).collect()).collect();
        if rrank(&sub) == try_.len() {
            cols = try_;
        }
    }
    let f: Vec<Vec<Rat>> = ra.iter().map(|row| cols.iter().map(|k| row[*k]).collect()).collect();
    let ft_ = rt(&f);
    let gm = rsolve(&rmul(&ft_, &f), &rmul(&ft_, &ra)).unwrap(); // A = F G
    let gt = rt(&gm);
    // A+ = Gᵀ (G Gᵀ)⁻¹ (Fᵀ F)⁻¹ Fᵀ
    let x = rsolve(&rmul(&ft_, &f), &ft_).unwrap();
    let y = rsolve(&rmul(&gm, &gt), &x).unwrap();
    rf(&rmul(&gt, &y))
}

fn svd_case<T: Fl, const R: usize, const C: usize>(a: &M) -> Res {
    let x = lm::<R, C, T>(a);
    let big = fmax_abs(a);
    let nf = (R * C) as f64;
    let r = x.svd();
    let want = rpinv(a);
    let pb = fmax_abs(&want).max(1.0);
    let ptol = 128.0 * T::EPS * nf * pb * pb * big.max(1.0);
    let pinv = x.pseudo_inverse().map_err(|e| format!("pseudo_inverse refused: {e:?}"))?;
    mclose(&mm(&pinv), &want, ptol, "pseudo-inverse")?;
    if R < C {
        ensure!(matches!(r, Err(E::Underdetermined)), "a wide matrix was accepted");
        return Ok(mh(&want));
    }
    let s = r.map_err(|e| format!("refused: {e:?}"))?;
    let (u, sv, v) = (mm(&s.left()), vv(&s.singular_values()), mm(&s.right()));
    let tol = 32.0 * T::EPS * nf;
    mclose(&fmul(&ft(&v), &v), &feye(C), tol, "VT*V")?;
    mclose(&fmul(&ft(&u), &u), &feye(C), tol, "UT*U")?;
    for k in 0..C {
        ensure!(sv[k] >= 0.0 && (k == 0 || sv[k] <= sv[k - 1]), "singular values not descending and non-negative: {sv:?}");
    }
    let us: M = u.iter().map(|row| row.iter().zip(&sv).map(|(x, s)| x * s).collect()).collect();
    mclose(&fmul(&us, &ft(&v)), a, tol * big, "U*S*VT")?;
    let rank = rrank(&rr(a));
    let cut = if nf > 24.0 { 4.0 } else { 64.0 } * T::EPS * nf * sv[0];
    ensure_eq!(s.rank(t::<T>(cut)), rank, "rank above {cut}");
    ensure_eq!(s.rank(t::<T>(sv[0] + 1.0)), 0, "rank above the largest singular value");
    ensure_eq!(s.rank(t::<T>(-1.0)), C, "rank above -1");
    // strictly greater than the tolerance
    for k in 0..C {
        let n = sv.iter().filter(|x| **x > sv[k]).count();
        ensure_eq!(s.rank(t::<T>(sv[k])), n, "rank above a singular value");
    }
    let cond = g(s.condition_number());
    if sv[C - 1] == 0.0 {
        ensure_eq!(cond, f64::INFINITY, "condition number of a singular matrix");
    } else {
        ensure_close!(cond, sv[0] / sv[C - 1], 4.0 * T::EPS, 0.0, "condition number");
    }
    mclose(&mm(&s.pseudo_inverse()), &want, ptol, "Svd::pseudo_inverse")?;
    let bv = &B[..R];
    vclose(&vv(&s.solve(lv::<R, T>(bv))), &fmv(&want, bv), 40.0 * ptol, "least-squares solve")?;
    // dropping everything, dropping nothing but the top
    mclose(&mm(&s.pseudo_inverse_tol(t::<T>(sv[0]))), &vec![vec![0.0; R]; C], 0.0, "pseudo-inverse with everything dropped")?;
    let gap = (1..C).find(|k| sv[*k] < 0.7 * sv[0]);
    if let Some(k) = gap {
        let cutoff = 0.5 * (sv[k - 1] + sv[k]);
        let mut w = vec![vec![0.0; R]; C];
        for q in 0..k {
            for i in 0..C {
                for j in 0..R {
                    w[i][j] += v[i][q] * u[j][q] / sv[q];
                }
            }
        }
        mclose(&mm(&s.pseudo_inverse_tol(t::<T>(cutoff))), &w, 16.0 * T::EPS * nf * (1.0 + 1.0 / sv[k - 1]), "truncated pseudo-inverse")?;
    }
    Ok(hf(&sv))
}
fn svd<T: Fl, const R: usize, const C: usize>(ck: &Ck, al: &'static [f64]) {
    let n = (al.len() as u64).pow((R * C) as u32);
    let dec = move |i: u64| mat(&mut Dig(i), R, C, al);
    ck.space(&format!("SVD {R}x{C} {}", T::NAME), n, |i| format!("{:?}", dec(i)), |i| svd_case::<T, R, C>(&dec(i)));
    // column scalings far apart
    let sc: [f64; 3] = if T::IS32 { [1.0, 9.313225746154785e-10, 1048576.0] } else { [1.0, 7.888609052210118e-31, 1.2676506002282294e30] };
    let base = [[1.0, 2.0, -1.0], [0.0, 3.0, 1.0], [2.0, -1.0, 1.0], [1.0, 1.0, 4.0]];
    let dec = move |i: u64| -> M {
        let mut d = Dig(i);
        let s = [d.pick(&sc), d.pick(&sc), d.pick(&sc)];
        let q = [d.pick(&sc), d.pick(&sc), 1.0, 1.0];
        (0..R).map(|r| (0..C).map(|c| base[r % 4][c % 3] * s[c % 3] * if i % 2 == 0 { q[r % 4] } else { 1.0 }).collect()).collect()
    };
    if R < C {
        return;
    }
    ck.space(&format!("SVD badly scaled {R}x{C} {}", T::NAME), 243, |i| format!("{:?}", dec(i)), |i| {
        let a = dec(i);
        let s = lm::<R, C, T>(&a).svd().map_err(|e| format!("refused: {e:?}"))?;
        let (u, sv, v) = (mm(&s.left()), vv(&s.singular_values()), mm(&s.right()));
        let us: M = u.iter().map(|row| row.iter().zip(&sv).map(|(x, s)| x * s).collect()).collect();
        let nf = (R * C) as f64;
        mclose(&fmul(&us, &ft(&v)), &a, 64.0 * T::EPS * nf * fmax_abs(&a), "U*S*VT")?;
        mclose(&fmul(&ft(&v), &v), &feye(C), 64.0 * T::EPS * nf, "VT*V")?;
        for k in 0..C {
            ensure!(sv[k] >= 0.0 && (k == 0 || sv[k] <= sv[k - 1]), "singular values not descending and non-negative: {sv:?}");
        }
        Ok(hf(&sv))
    });
}
/// Larger matrices: one entry and one row of a base changed.
fn svd_large<T: Fl, const R: usize, const C: usize>(ck: &Ck) {
    let dec = move |i: u64| wide(R, C, i);
    ck.space(&format!("wide SVD {R}x{C} {}", T::NAME), wide_count(R, C), |i| format!("{:?}", dec(i)), |i| svd_case::<T, R, C>(&dec(i)));
}
fn non_finite<T: Fl>(ck: &Ck) {
    let bad = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY];
    ck.space(&format!("non-finite entries {}", T::NAME), 27, |i| format!("entry {} is {}", i / 3, bad[i as usize % 3]), |i| {
        let (p, b) = (i as usize / 3, bad[i as usize % 3]);
        let x = Matrix::<3, 3, T>::from_fn(|r, c| t(if r * 3 + c == p { b } else { (r == c) as u8 as f64 * 2.0 + 1.0 }));
        ensure!(matches!(x.svd(), Err(E::NonFinite)), "svd accepted it");
        ensure!(matches!(x.pseudo_inverse(), Err(E::NonFinite)), "pseudo_inverse accepted it");
        ensure!(matches!(x.symmetric_eigendecomposition(), Err(E::NonFinite) | Err(E::NotSymmetric)), "eigendecomposition accepted it");
        if p % 4 == 0 {
            ensure!(matches!(x.symmetric_eigendecomposition(), Err(E::NonFinite)), "eigendecomposition");
        }
        let w = Matrix::<2, 3, T>::from_fn(|r, c| t(if r * 3 + c == p % 6 { b } else { 1.0 }));
        ensure!(matches!(w.pseudo_inverse(), Err(E::NonFinite)), "wide pseudo_inverse accepted it");
        Ok(0)
    });
}

fn eig<T: Fl, const N: usize>(ck: &Ck, dg: &'static [f64], off: &'static [f64]) {
    let no = N * (N - 1) / 2;
    let n = (dg.len() as u64).pow(N as u32) * (off.len() as u64).pow(no as u32);
    let dec = move |i: u64| -> M {
        let mut d = Dig(i);
        let mut l = vec![vec![0.0; N]; N];
        for r in 0..N {
            l[r][r] = d.pick(dg);
            for c in 0..r {
                l[r][c] = d.pick(off);
                l[c][r] = l[r][c];
            }
        }
        l
    };
    eig_space::<T, N>(ck, "", n, dec);
}
/// Larger symmetric matrices: a base plus one entry, and its mirror, changed.
fn eig_large<T: Fl, const N: usize>(ck: &Ck) {
    let dec = move |i: u64| -> M {
        let a = wide(N, N, i);
        fadd(&a, &ft(&a))
    };
    eig_space::<T, N>(ck, "wide ", wide_count(N, N), dec);
}
fn eig_space<T: Fl, const N: usize>(ck: &Ck, what: &str, n: u64, dec: impl Fn(u64) -> M + Sync + Copy) {
    let no = N * (N - 1) / 2;
    ck.space(&format!("{what}symmetric eigen {N}x{N} {}", T::NAME), n, |i| format!("{:?}", dec(i)), |i| {
        let a = dec(i);
        let x = lm::<N, N, T>(&a);
        let e = x.symmetric_eigendecomposition().map_err(|e| format!("refused: {e:?}"))?;
        let (w, v) = (vv(&e.eigenvalues()), mm(&e.eigenvectors()));
        let nf = (N * N) as f64;
        let tol = 32.0 * T::EPS * nf;
        let big = fmax_abs(&a);
        mclose(&fmul(&ft(&v), &v), &feye(N), tol, "VT*V")?;
        for k in 1..N {
            ensure!(w[k] <= w[k - 1], "eigenvalues not descending: {w:?}");
        }
        let rebuild = |w: &[f64]| -> M {
            (0..N).map(|r| (0..N).map(|c| (0..N).map(|k| v[r][k] * w[k] * v[c][k]).sum()).collect()).collect()
        };
        mclose(&rebuild(&w), &a, tol * big, "V*L*VT")?;
        let det = rdet(&rr(&a)).to_f64();
        ensure_close!(g(e.determinant()), det, tol, tol * N as f64 * (big * N as f64).powi(N as i32), "determinant");
        let mn = w.iter().fold(f64::INFINITY, |m: f64, x| m.min(x.abs()));
        let mx = w.iter().fold(0.0, |m: f64, x| m.max(x.abs()));
        let cond = g(e.condition_number());
        if mn == 0.0 {
            ensure_eq!(cond, f64::INFINITY, "condition number");
        } else {
            ensure_close!(cond, mx / mn, 8.0 * T::EPS, 0.0, "condition number");
        }
        ensure_eq!(e.is_positive_definite(), w[N - 1] > 0.0, "is_positive_definite against the eigenvalues");
        // exact verdict from the leading minors, away from singular
        let pd = (1..=N).all(|k| rdet(&a[..k].iter().map(|r| r[..k].iter().map(|x| Rat::f(*x)).collect()).collect::<Vec<_>>()) > Rat::ZERO);
        if mn > 1e-3 {
            ensure_eq!(e.is_positive_definite(), pd, "positive definite");
        }
        for m in [-1.0, 0.0, 0.5, 3.0] {
            let c = e.clamped(t(m));
            let cm = mm(&c);
            let raised: Vec<f64> = w.iter().map(|x| x.max(m)).collect();
            mclose(&cm, &rebuild(&raised), tol * (big + m.abs()) * 2.0, &format!("clamped({m})"))?;
            for r in 0..N {
                for q in 0..r {
                    ensure_eq!(cm[r][q], cm[q][r], "clamped({m}) symmetry");
                }
            }
        }
        Ok(hf(&w))
    });
    ck.space(&format!("{what}asymmetric {N}x{N} {}", T::NAME), (no * 4) as u64, |i| format!("lopsided pair {i}"), |i| {
        let (k, f) = (i as usize / 4, [0.5, -1.0, 1e-3, 4.0][i as usize % 4]);
        let mut x = Matrix::<N, N, T>::identity();
        let mut n = 0;
        for r in 0..N {
            for c in 0..r {
                if n == k {
                    x[(r, c)] = t(f);
                }
                n += 1;
            }
        }
        ensure!(matches!(x.symmetric_eigendecomposition(), Err(E::NotSymmetric)), "accepted a lopsided matrix");
        Ok(0)
    });
}

/// Derivatives: dλ = vᵀ dA v, and the derivative of the pseudo-inverse of a full-rank matrix.
fn duals(ck: &Ck) {
    let al: &[f64] = &[-1.0, 0.0, 2.0, 5.0];
    ck.space("dual eigenvalues 2x2", 4u64.pow(6), |i| format!("{:?}", Dig(i).arr::<6, f64>(al)), |i| {
        let [a, b, c, da, db, dc] = Dig(i).arr::<6, f64>(al);
        let gap = (((a - c) * (a - c)) + 4.0 * b * b).sqrt();
        if gap < 0.5 || b == 0.0 {
            return Ok(0);
        }
        let e = Matrix::<2, 2, Dual<f64>>::new([[Dual::new(a, da), Dual::new(b, db)], [Dual::new(b, db), Dual::new(c, dc)]])
            .symmetric_eigendecomposition()
            .map_err(|e| format!("{e:?}"))?;
        for (k, s) in [(0, 1.0), (1, -1.0)] {
            ensure_close!(e.eigenvalues()[k].value, 0.5 * (a + c + s * gap), 1e-12, 1e-12, "eigenvalue {k}");
            let dgap = ((a - c) * (da - dc) + 4.0 * b * db) / gap;
            ensure_close!(e.eigenvalues()[k].deriv, 0.5 * (da + dc + s * dgap), 1e-11, 1e-11, "derivative of eigenvalue {k}");
        }
        Ok(hf(&[a, b, c, da, db, dc]))
    });
}

/// The decompositions of a matrix in any unit are those of the matrix, scaled.
fn units<T: Fl, const R: usize, const C: usize>(ck: &Ck, al: &'static [f64]) {
    let ks: [i32; 8] = if T::IS32 { [-55, -40, -26, -12, 12, 26, 40, 55] } else { [-480, -300, -150, -54, 54, 150, 300, 480] };
    let n = (al.len() as u64).pow((R * C) as u32);
    ck.space(&format!("units {R}x{C} {}", T::NAME), n * 8, |i| format!("{:?} times 2^{}", mat(&mut Dig(i / 8), R, C, al), ks[i as usize % 8]), |i| {
        let u = 2f64.powi(ks[i as usize % 8]);
        let a = mat(&mut Dig(i / 8), R, C, al);
        let x = lm::<R, C, T>(&a);
        let b = x.scale(t(u));
        let e = |e: E| format!("refused: {e:?}");
        let nf = (R * C) as f64;
        let tol = 64.0 * T::EPS * nf;
        let pinv = mm(&x.pseudo_inverse().map_err(e)?);
        let pb = fmax_abs(&pinv);
        mclose(&fscale(&mm(&b.pseudo_inverse().map_err(e)?), u), &pinv, 4.0 * tol * pb * pb * fmax_abs(&a), "pseudo-inverse")?;
        if R >= C {
            let (s, z) = (b.svd().map_err(e)?, x.svd().map_err(e)?);
            let (l, r) = (mm(&s.left()), mm(&s.right()));
            let sv: Vec<f64> = vv(&s.singular_values()).iter().map(|x| x / u).collect();
            let big = vv(&z.singular_values())[0];
            vclose(&sv, &vv(&z.singular_values()), tol * big, "singular values")?;
            mclose(&fmul(&ft(&r), &r), &feye(C), tol, "VT*V")?;
            mclose(&fmul(&ft(&l), &l), &feye(C), tol, "UT*U")?;
            let us: M = l.iter().map(|row| row.iter().zip(&sv).map(|(x, s)| x * s).collect()).collect();
            mclose(&fmul(&us, &ft(&r)), &a, tol * big, "U*S*VT")?;
        }
        if R == C {
            let sym = fadd(&a, &ft(&a));
            let y = lm::<R, R, T>(&sym);
            let (p, q) = (y.scale(t(u)).symmetric_eigendecomposition().map_err(e)?, y.symmetric_eigendecomposition().map_err(e)?);
            let big = fmax_abs(&sym);
            let w: Vec<f64> = vv(&p.eigenvalues()).iter().map(|x| x / u).collect();
            vclose(&w, &vv(&q.eigenvalues()), tol * big, "eigenvalues")?;
            let v = mm(&p.eigenvectors());
            mclose(&fmul(&ft(&v), &v), &feye(R), tol, "eigenvectors")?;
            let vw: M = v.iter().map(|row| row.iter().zip(&w).map(|(x, s)| x * s).collect()).collect();
            mclose(&fmul(&vw, &ft(&v)), &sym, tol * big, "V*L*VT")?;
            if w[R - 1].abs() > 1e-3 {
                ensure_eq!(p.is_positive_definite(), q.is_positive_definite(), "positive definite");
            }
        }
        op(4);
        Ok(mh(&pinv))
    });
}
fn all<T: Fl>(ck: &Ck) {
    units::<T, 2, 2>(ck, &[-2.0, -1.0, 0.0, 1.0, 3.0]);
    units::<T, 3, 2>(ck, &[-1.0, 0.0, 2.0]);
    units::<T, 2, 3>(ck, &[-1.0, 0.0, 2.0]);
    units::<T, 3, 3>(ck, &[-1.0, 0.0, 2.0]);

    svd::<T, 1, 1>(ck, &[-2.0, -1.0, 0.0, 1.0, 3.0]);
    svd::<T, 2, 1>(ck, &[-2.0, -1.0, 0.0, 1.0, 3.0]);
    svd::<T, 2, 2>(ck, &[-2.0, -1.0, 0.0, 1.0, 3.0, 7.0]);
    svd::<T, 3, 2>(ck, ck.q(&[-1.0, 0.0, 2.0], &[-1.0, 0.0, 2.0, 1.0]));
    svd::<T, 3, 3>(ck, &[-1.0, 0.0, 2.0]);
    svd::<T, 4, 2>(ck, &[-1.0, 0.0, 2.0]);
    svd::<T, 4, 3>(ck, ck.q(&[0.0, 2.0], &[0.0, 2.0, -1.0]));
    svd::<T, 4, 4>(ck, &[0.0, 1.0]);
    svd::<T, 1, 3>(ck, &[-1.0, 0.0, 2.0]);
    svd::<T, 2, 3>(ck, &[-1.0, 0.0, 2.0]);
    svd::<T, 2, 4>(ck, &[-1.0, 2.0]);
    svd_large::<T, 5, 5>(ck);
    svd_large::<T, 6, 4>(ck);
    svd_large::<T, 4, 7>(ck);
    svd_large::<T, 8, 8>(ck);
    svd_large::<T, 9, 6>(ck);
    svd_large::<T, 12, 3>(ck);
    svd_large::<T, 3, 11>(ck);
    svd_large::<T, 12, 12>(ck);
    eig_large::<T, 5>(ck);
    eig_large::<T, 6>(ck);
    eig_large::<T, 12>(ck);
    eig_large::<T, 8>(ck);
    eig_large::<T, 9>(ck);
    eig::<T, 1>(ck, &[-1.0, 0.0, 2.0], &[0.0]);
    eig::<T, 2>(ck, &[-3.0, -1.0, 0.0, 1.0, 2.0, 6.0], &[-3.0, -1.0, 0.0, 1.0, 2.0]);
    eig::<T, 3>(ck, &[-1.0, 0.0, 1.0, 2.0, 6.0], &[-3.0, -1.0, 0.0, 1.0, 2.0]);
    eig::<T, 4>(ck, ck.q(&[-1.0, 2.0], &[-1.0, 2.0, 0.0]), &[-1.0, 0.0, 1.0, 2.0]);
    if ck.thorough() {
        eig::<T, 5>(ck, &[1.0, 3.0], &[0.0, 2.0, -1.0]);
    } else {
        eig::<T, 5>(ck, &[1.0, 3.0], &[0.0, 2.0]);
    }
    non_finite::<T>(ck);
}
fn main() {
    let ck = Ck::new("C08");
    all::<f64>(&ck);
    all::<f32>(&ck);
    duals(&ck);
    ck.finish();
}
