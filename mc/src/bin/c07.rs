//! C07: determinants, inverses and the LU / Cholesky / pivoted-QR solves against exact rationals.
use mc::la::*;
use mc::num::*;
use mc::refmodel::*;
use mc::*;
use multicalc::error::LinalgError as E;
use multicalc::linear_algebra::{Matrix, PivotedQr, Vector};
use multicalc::scalar::Dual;

fn mat(d: &mut Dig, r: usize, c: usize, al: &[f64]) -> M {
    (0..r).map(|_| (0..c).map(|_| d.pick(al)).collect()).collect()
}
const B: [f64; 16] = [3.0, -1.0, 4.0, 1.0, -5.0, 9.0, 2.0, -6.0, 5.0, 3.0, -5.0, 8.0, -9.0, 7.0, 9.0, 3.0];

/// Everything a square matrix promises, given its exact form.
fn square<T: Fl, const N: usize>(a: &M) -> Res {
    let ra = rr(a);
    let det = rdet(&ra);
    let x = lm::<N, N, T>(a);
    let big = fmax_abs(a).max(1e-300);
    let nf = N as f64;
    // error of a backward-stable determinant: cofactors bounded by n! max^(n-1)
    let dtol = 16.0 * T::EPS * fact(N) as f64 * big.powi(N as i32);
    if N <= 7 {
        ensure_close!(g(x.determinant()), det.to_f64(), 0.0, dtol, "determinant");
    }
    let exact = rsolve(&ra, &rr(&feye(N)));
    let inv = x.inverse();
    let lu = x.lu_decompose();
    let bv: Vec<f64> = B[..N].to_vec();
    let sol = x.solve(lv::<N, T>(&bv));
    let lu_ok = lu.is_ok();
    match exact {
        None => {
            // A factorization that ends with a pivot of rounding size may pass the documented threshold.
            if let Ok(f) = &lu {
                let u = mm(&f.upper());
                let small = (0..N).map(|k| u[k][k].abs()).fold(f64::INFINITY, f64::min);
                ensure!(small <= 64.0 * T::EPS * big * nf, "a singular matrix was factored with smallest pivot {small}");
                if N > 4 {
                    return Ok(1);
                }
            }
            for (what, e) in [("inverse", inv.err()), ("lu_decompose", lu.err()), ("solve", sol.err())] {
                match e {
                    None if what != "inverse" && lu_ok => {}
                    Some(E::Singular) => {}
                    Some(E::IllConditioned) if what != "inverse" || N > 4 => {}
                    o => return Err(format!("{what} of a singular matrix gave {o:?}")),
                }
            }
            Ok(0)
        }
        Some(ie) => {
            let ie = rf(&ie);
            let kappa = nf * big * fmax_abs(&ie) * nf;
            // The enumerated matrices are integer with |det| >= 1, so the pivots and determinants are far
            // above the documented thresholds.
            let tol = 32.0 * T::EPS * kappa * fmax_abs(&ie) * nf;
            if N > 7 {
                ensure_close!(g(x.determinant()), det.to_f64(), 16.0 * T::EPS * kappa, 0.0, "determinant");
            }
            let inv = inv.map_err(|e| format!("inverse refused: {e:?}"))?;
            mclose(&mm(&inv), &ie, tol, "inverse")?;
            let lu = lu.map_err(|e| format!("lu_decompose refused: {e:?}"))?;
            let (l, u, p) = (mm(&lu.lower()), mm(&lu.upper()), lu.permutation());
            let mut seen = [false; N];
            for i in 0..N {
                ensure!(p[i] < N && !seen[p[i]], "permutation {p:?} is not one");
                seen[p[i]] = true;
                for j in 0..N {
                    if i == j {
                        ensure_eq!(l[i][j], 1.0, "L diagonal");
                    } else if j > i {
                        ensure_eq!(l[i][j], 0.0, "L above the diagonal");
                    } else {
                        ensure_eq!(u[i][j], 0.0, "U below the diagonal");
                        ensure!(l[i][j].abs() <= 1.0 + 4.0 * T::EPS, "partial pivoting: multiplier {} above one", l[i][j]);
                    }
                }
            }
            let pa: M = p.iter().map(|k| a[*k].clone()).collect();
            let back = 8.0 * T::EPS * nf * nf * 2f64.powi(N as i32) * big;
            mclose(&fmul(&l, &u), &pa, back, "L*U against the permuted matrix")?;
            ensure_close!(g(lu.determinant()), det.to_f64(), 16.0 * T::EPS * kappa, if N > 7 { 0.0 } else { dtol }, "LU determinant");
            let want = fmul(&ie, &col(&bv));
            let stol = tol * 10.0 * nf;
            mclose(&col(&vv(&lu.solve(lv::<N, T>(&bv)))), &want, stol, "LU solve")?;
            mclose(&col(&vv(&sol.map_err(|e| format!("solve refused: {e:?}"))?)), &want, stol, "solve")?;
            mclose(&mm(&lu.inverse()), &ie, tol, "LU inverse")?;
            let rhs: M = (0..N).map(|i| vec![B[i], B[15 - i], (i * i) as f64]).collect();
            mclose(&mm(&lu.solve_matrix(lm::<N, 3, T>(&rhs))), &fmul(&ie, &rhs), 4.0 * stol, "LU solve_matrix")?;
            Ok(mh(&ie))
        }
    }
}

fn squares<T: Fl, const N: usize>(ck: &Ck, al: &'static [f64]) {
    let n = (al.len() as u64).pow((N * N) as u32);
    let dec = move |i: u64| mat(&mut Dig(i), N, N, al);
    ck.space(&format!("all {N}x{N} matrices {}", T::NAME), n, |i| format!("{:?}", dec(i)), |i| square::<T, N>(&dec(i)));
}
/// Every zero pattern of one fixed matrix of distinct entries.
fn masks<T: Fl, const N: usize>(ck: &Ck, w: &'static [f64]) {
    let n = 1u64 << (N * N);
    let dec = move |i: u64| -> M { (0..N).map(|r| (0..N).map(|c| if i >> (r * N + c) & 1 == 1 { w[r * N + c] } else { 0.0 }).collect()).collect() };
    ck.space(&format!("zero patterns {N}x{N} {}", T::NAME), n, |i| format!("{:?}", dec(i)), |i| square::<T, N>(&dec(i)));
}
/// Permutation matrices with distinct weights, plus one extra entry anywhere.
fn perms<T: Fl, const N: usize>(ck: &Ck) {
    let n = fact(N) * (N * N) as u64 * 3;
    let dec = move |i: u64| -> M {
        let mut d = Dig(i);
        let (r, c, e) = (d.n(N), d.n(N), d.pick(&[0.0, -2.0, 5.0]));
        let p = perm(N, d.0);
        let mut a = vec![vec![0.0; N]; N];
        for k in 0..N {
            a[k][p[k]] = [2.0, -1.0, 3.0, -4.0, 1.0, 5.0, -2.0][k];
        }
        a[r][c] += e;
        a
    };
    ck.space(&format!("permutations plus one entry {N}x{N} {}", T::NAME), n, |i| format!("{:?}", dec(i)), |i| square::<T, N>(&dec(i)));
}
/// Dense larger matrices: rank-two updates of a diagonal.
fn dense<T: Fl, const N: usize>(ck: &Ck) {
    let n = 4u64.pow(N as u32) * 9;
    let dec = move |i: u64| -> M {
        let mut d = Dig(i);
        let dg: Vec<f64> = (0..N).map(|_| d.pick(&[1.0, -2.0, 4.0, 0.0])).collect();
        let (s, q) = (d.pick(&[0.0, 1.0, -1.0]), d.pick(&[1.0, 2.0, -1.0]));
        (0..N).map(|r| (0..N).map(|c| (if r == c { dg[r] } else { 0.0 }) + s * ((r + 1) as f64) + q * if (r + c) % 3 == 0 { 1.0 } else { 0.0 }).collect()).collect()
    };
    ck.space(&format!("dense {N}x{N} {}", T::NAME), n, |i| format!("{:?}", dec(i)), |i| square::<T, N>(&dec(i)));
}

/// Matrices too large to list in full: one entry and one row of a base changed.
fn large<T: Fl, const N: usize>(ck: &Ck) {
    let dec = move |i: u64| wide(N, N, i);
    ck.space(&format!("wide {N}x{N} {}", T::NAME), wide_count(N, N), |i| format!("{:?}", dec(i)), |i| square::<T, N>(&dec(i)));
}

/// The documented acceptance thresholds.
fn thresholds<T: Fl>(ck: &Ck) {
    let k = [-4.0, -1.0, 0.0, 1.0, 4.0];
    let scales = [1.0, 1024.0, 1.0 / 1024.0];
    ck.space(&format!("pivot threshold {}", T::NAME), (k.len() * 3 * 5) as u64, |i| {
        let mut d = Dig(i);
        format!("pivot 2^{} eps, scale {}, position {}", d.pick(&k), d.pick(&scales), d.n(5))
    }, |i| {
        let mut d = Dig(i);
        let (k, s, pos) = (d.pick(&k), d.pick(&scales), d.n(5));
        let piv = T::EPS * 2f64.powf(k) * s;
        let mut a = feye(5);
        for r in 0..5 {
            a[r][r] = s;
        }
        a[pos][pos] = piv;
        let x = lm::<5, 5, T>(&a);
        let want = if k <= 0.0 { Some(E::IllConditioned) } else { None };
        ensure_eq!(x.lu_decompose().err(), want, "lu_decompose");
        ensure_eq!(x.inverse().err(), want, "inverse");
        ensure_eq!(x.solve(lv::<5, T>(&B[..5])).err(), want, "solve");
        let det = piv * s.powi(4);
        ensure_close!(g(x.determinant()), det, 8.0 * T::EPS, 0.0, "determinant of an ill-conditioned matrix");
        // all zero column: exactly singular
        a[pos][pos] = 0.0;
        let x = lm::<5, 5, T>(&a);
        ensure_eq!(x.lu_decompose().err(), Some(E::Singular), "lu_decompose, zero column");
        ensure_eq!(g(x.determinant()), 0.0, "determinant, zero column");
        Ok(want.is_some() as u64)
    });
}

/// Cholesky of every G Gᵀ with small integer lower factors, and of every small symmetric matrix.
fn chol<T: Fl, const N: usize>(ck: &Ck, dg: &'static [f64], off: &'static [f64]) {
    let no = N * (N - 1) / 2;
    let n = (dg.len() as u64).pow(N as u32) * (off.len() as u64).pow(no as u32);
    let dec = move |i: u64| -> M {
        let mut d = Dig(i);
        let mut l = vec![vec![0.0; N]; N];
        for r in 0..N {
            l[r][r] = d.pick(dg);
            for c in 0..r {
                l[r][c] = d.pick(off);
            }
        }
        l
    };
    chol_space::<T, N>(ck, "", n, dec);
}
/// Factors with a base triangle, one entry changed.
fn chol_large<T: Fl, const N: usize>(ck: &Ck) {
    let dec = move |i: u64| -> M {
        let mut d = Dig(i);
        let w = d.n(3);
        let mut l: M = (0..N)
            .map(|r| {
                (0..N)
                    .map(|c| match w {
                        _ if c > r => 0.0,
                        0 => 1.0,
                        1 => if r == c { 2.0 } else if r == c + 1 { -1.0 } else { 0.0 },
                        _ => if r == c { 3.0 } else if c == 0 || r == N - 1 { 1.0 } else { 0.0 },
                    })
                    .collect()
            })
            .collect();
        let (r, c) = (d.n(N), d.n(N));
        if r == c {
            l[r][c] = d.pick(&[2.0, 1.0, 0.0]);
        } else if r > c {
            l[r][c] += d.pick(&[1.0, -1.0, 2.0]);
        }
        l
    };
    chol_space::<T, N>(ck, "wide ", (N * N * 9) as u64, dec);
}
fn chol_space<T: Fl, const N: usize>(ck: &Ck, what: &str, n: u64, dec: impl Fn(u64) -> M + Sync + Copy) {
    ck.space(&format!("{what}Cholesky of G*GT {N}x{N} {}", T::NAME), n, |i| format!("G = {:?}", dec(i)), |i| {
        let l = dec(i);
        let a = fmul(&l, &ft(&l));
        let r = lm::<N, N, T>(&a).cholesky();
        if (0..N).any(|k| l[k][k] == 0.0) {
            ensure!(matches!(r, Err(E::NotPositiveDefinite)), "a matrix with a zero pivot was factored");
            return Ok(0);
        }
        let ch = r.map_err(|e| format!("refused: {e:?}"))?;
        let big = fmax_abs(&a) * N as f64;
        mclose(&mm(&ch.lower()), &l, 64.0 * T::EPS * big, "lower factor")?;
        let det: f64 = (0..N).map(|k| l[k][k] * l[k][k]).product();
        ensure_close!(g(ch.determinant()), det, 256.0 * T::EPS * big, 0.0, "determinant");
        let ie = rf(&rsolve(&rr(&a), &rr(&feye(N))).unwrap());
        let tol = 32.0 * T::EPS * big * (N as f64).powi(2) * fmax_abs(&ie).powi(2);
        mclose(&mm(&ch.inverse()), &ie, tol, "inverse")?;
        let bv = B[..N].to_vec();
        mclose(&col(&vv(&ch.solve(lv::<N, T>(&bv)))), &fmul(&ie, &col(&bv)), 40.0 * tol, "solve")?;
        let rhs: M = (0..N).map(|i| vec![B[i], B[15 - i]]).collect();
        mclose(&mm(&ch.solve_matrix(lm::<N, 2, T>(&rhs))), &fmul(&ie, &rhs), 40.0 * tol, "solve_matrix")?;
        // only the lower triangle is read
        let y = Matrix::<N, N, T>::from_fn(|r, c| t(if c > r { f64::NAN } else { a[r][c] }));
        let c2 = y.cholesky().map_err(|e| format!("upper triangle was read: {e:?}"))?;
        mclose(&mm(&c2.lower()), &mm(&ch.lower()), 0.0, "factor with a spoiled upper triangle")?;
        Ok(mh(&l))
    });
}
fn chol_sym<T: Fl, const N: usize>(ck: &Ck, dg: &'static [f64], off: &'static [f64]) {
    let no = N * (N - 1) / 2;
    let n = (dg.len() as u64).pow(N as u32) * (off.len() as u64).pow(no as u32);
    let dec = move |i: u64| -> M {
        let mut d = Dig(i);
        let mut l = vec![vec![0.0; N]; N];
        for r in 0..N {
            l[r][r] = d.pick(dg);
            for c in 0..r {
                l[r][c] = d.pick(off);
                l[c][r] = l[r][c];
            }
        }
        l
    };
    ck.space(&format!("Cholesky of symmetric {N}x{N} {}", T::NAME), n, |i| format!("{:?}", dec(i)), |i| {
        let a = dec(i);
        let r = lm::<N, N, T>(&a).cholesky();
        let mut verdict = 1;
        for k in 1..=N {
            let m = rdet(&a[..k].iter().map(|r| r[..k].iter().map(|x| Rat::f(*x)).collect()).collect::<Vec<_>>()).to_f64();
            if m < 0.0 {
                verdict = -1;
                break;
            }
            if m == 0.0 {
                verdict = 0;
                break;
            }
        }
        match (verdict, r) {
            (1, Ok(ch)) => {
                let l = mm(&ch.lower());
                for r in 0..N {
                    ensure!(l[r][r] > 0.0, "diagonal of the factor is not positive");
                    for c in r + 1..N {
                        ensure_eq!(l[r][c], 0.0, "above the diagonal");
                    }
                }
                mclose(&fmul(&l, &ft(&l)), &a, 32.0 * T::EPS * fmax_abs(&a) * N as f64, "L*LT")?;
                Ok(mh(&l))
            }
            (1, Err(e)) => Err(format!("positive definite matrix refused: {e:?}")),
            (-1, Ok(_)) => Err("an indefinite matrix was factored".into()),
            (0, Ok(_)) => Ok(2), // borderline: rounding may land on either side
            (_, Err(E::NotPositiveDefinite)) => Ok(1),
            (_, Err(e)) => Err(format!("wrong error {e:?}")),
            _ => unreachable!(),
        }
    });
    // not a number in the lower triangle: no factor exists
    ck.space(&format!("Cholesky with a NaN {N}x{N} {}", T::NAME), (N * (N + 1) / 2) as u64, |i| format!("NaN at lower entry {i}"), |i| {
        let mut k = 0;
        let mut x = Matrix::<N, N, T>::identity();
        for r in 0..N {
            for c in 0..=r {
                if k == i {
                    x[(r, c)] = T::NAN;
                    x[(c, r)] = T::NAN;
                }
                k += 1;
            }
        }
        ensure!(matches!(x.cholesky(), Err(E::NotPositiveDefinite)), "a matrix holding NaN was factored");
        Ok(i)
    });
}

fn qr<T: Fl, const R: usize, const C: usize>(ck: &Ck, al: &'static [f64]) {
    let n = (al.len() as u64).pow((R * C) as u32);
    qr_space::<T, R, C>(ck, "", n, move |i| mat(&mut Dig(i), R, C, al));
}
fn qr_large<T: Fl, const R: usize, const C: usize>(ck: &Ck) {
    qr_space::<T, R, C>(ck, "wide ", wide_count(R, C), move |i| wide(R, C, i));
}
fn qr_space<T: Fl, const R: usize, const C: usize>(ck: &Ck, what: &str, n: u64, dec: impl Fn(u64) -> M + Sync + Copy) {
    ck.space(&format!("{what}pivoted QR {R}x{C} {}", T::NAME), n, |i| format!("{:?}", dec(i)), |i| {
        let a = dec(i);
        let r = PivotedQr::decompose(lm::<R, C, T>(&a));
        if R < C {
            ensure!(matches!(r, Err(E::Underdetermined)), "a wide matrix was accepted");
            return Ok(0);
        }
        let qr = r.map_err(|e| format!("refused: {e:?}"))?;
        let (q, rt_, p) = (mm(&qr.orthogonal()), mm(&qr.triangular()), qr.permutation());
        let nf = (R * C) as f64;
        let big = fmax_abs(&a);
        mclose(&fmul(&ft(&q), &q), &feye(C), 16.0 * T::EPS * nf, "QT*Q")?;
        let mut seen = [false; C];
        for j in 0..C {
            ensure!(p[j] < C && !seen[p[j]], "permutation {p:?} is not one");
            seen[p[j]] = true;
            for k in 0..j {
                ensure_eq!(rt_[j][k], 0.0, "R below the diagonal");
            }
            if j > 0 {
                ensure!(rt_[j][j].abs() <= rt_[j - 1][j - 1].abs() * (1.0 + 1e-3) + 32.0 * T::EPS * big, "column pivoting: R diagonal grows: {rt_:?}");
            }
        }
        let ap: M = a.iter().map(|row| p.iter().map(|j| row[*j]).collect()).collect();
        mclose(&fmul(&q, &rt_), &ap, 16.0 * T::EPS * nf * big, "Q*R against the pivoted matrix")?;
        let ra = rr(&a);
        let ata = rmul(&rt(&ra), &ra);
        let bv = B[..R].to_vec();
        let atb = rmul(&rt(&ra), &rr(&col(&bv)));
        let sol = qr.solve_least_squares(lv::<R, T>(&bv));
        let full = rrank(&ra) == C;
        let dl = qr.into_damped(lv::<R, T>(&bv));
        // scaled gradient |Aᵀb|_j / (‖b‖ ‖a_j‖)
        let bn = fnorm(&bv);
        let mut grad: f64 = 0.0;
        for j in 0..C {
            let cn = fnorm(&a.iter().map(|r| r[j]).collect::<Vec<_>>());
            if cn > 0.0 {
                grad = grad.max(atb[j][0].to_f64().abs() / (bn * cn));
            }
        }
        ensure_close!(g(dl.max_a_t_b_scaled(t::<T>(bn))), grad, 0.0, 32.0 * T::EPS * nf, "scaled gradient");
        ensure_eq!(g(dl.max_a_t_b_scaled(T::ZERO)), 0.0, "scaled gradient of a zero right-hand side");
        for v in [[1.0, 0.0, 0.0], [1.0, -2.0, 3.0], [0.0, 4.0, -1.0]] {
            let v: Vec<f64> = (0..C).map(|k| v[k % 3]).collect();
            let v = &v[..];
            ensure_close!(g(dl.a_x_norm(&lv::<C, T>(v))), fnorm(&fmv(&a, v)), 0.0, 32.0 * T::EPS * nf * big, "norm of A x");
        }
        if full {
            let kap = (C as f64 * fmax_abs(&rf(&ata)) * fmax_abs(&rf(&rsolve(&ata, &rr(&feye(C))).unwrap()))).sqrt();
            let want = rf(&rsolve(&ata, &atb).unwrap());
            let tol = 64.0 * T::EPS * nf * kap * kap * (fmax_abs(&want) + 10.0);
            let s = sol.map_err(|e| format!("full-rank least squares refused: {e:?}"))?;
            mclose(&col(&vv(&s)), &want, tol, "least squares")?;
            ensure!(dl.is_non_singular(), "full-rank matrix reported singular");
            mclose(&col(&vv(&dl.solve_with_zero_diagonal().0)), &want, tol, "undamped solve")?;
        } else if (0..C).any(|j| (0..R).all(|i| a[i][j] == 0.0)) {
            ensure!(matches!(sol, Err(E::Singular)), "a zero column was solved: {sol:?}");
            ensure!(!dl.is_non_singular(), "a zero column reported non-singular");
        }
        // damped solves: (AᵀA + D²) x = Aᵀ b
        for dd in [[1.0, 1.0, 1.0], [0.5, 2.0, 4.0], [0.0, 1.0, 3.0], [3.0, 0.0, 0.5], [2.0, 0.25, 0.0]] {
            let mut m = ata.clone();
            for j in 0..C {
                m[j][j] = m[j][j] + Rat::f(dd[j % 3]) * Rat::f(dd[j % 3]);
            }
            let Some(x) = rsolve(&m, &atb) else { continue };
            let inv = rf(&rsolve(&m, &rr(&feye(C))).unwrap());
            let (x, mf) = (rf(&x), rf(&m));
            let kap = C as f64 * fmax_abs(&mf) * fmax_abs(&inv);
            let dg: [T; C] = std::array::from_fn(|j| t(dd[j % 3]));
            let (s, f) = dl.solve_with_diagonal(&dg);
            mclose(&col(&vv(&s)), &x, 64.0 * T::EPS * nf * kap * (fmax_abs(&x) + 10.0 * fmax_abs(&inv).sqrt()), &format!("damped solve, D = {dd:?}"))?;
            // Sᵀ w = rhs in pivot order: |w|² = rhsᵀ (Pᵀ(AᵀA+D²)P)⁻¹ rhs
            let rhs: Vec<f64> = B[..C].to_vec();
            let w = f.solve(std::array::from_fn(|j| t(rhs[j])));
            let w2: f64 = w.iter().map(|v| g(*v) * g(*v)).sum();
            let ip: M = (0..C).map(|i| (0..C).map(|j| inv[p[i]][p[j]]).collect()).collect();
            let want = fdot(&rhs, &fmv(&ip, &rhs));
            ensure_close!(w2, want, 64.0 * T::EPS * nf * kap, 0.0, "damped factor, D = {dd:?}");
        }
        Ok(mh(&rt_))
    });
}

/// Derivatives flow through every solve: each operation over dual numbers gives the classical
/// derivative formula.
fn duals(ck: &Ck) {
    let al: &[f64] = &[-1.0, 0.0, 2.0];
    fn run<const N: usize>(a: &M, da: &M) -> Res {
        let x = Matrix::<N, N, Dual<f64>>::from_fn(|r, c| Dual::new(a[r][c], da[r][c]));
        let Some(ie) = rsolve(&rr(a), &rr(&feye(N))) else { return Ok(0) };
        let ie = rf(&ie);
        let det = rdet(&rr(a)).to_f64();
        let m = fmul(&ie, da);
        let tr: f64 = (0..N).map(|k| m[k][k]).sum();
        let scale = fmax_abs(&ie).max(1.0).powi(3) * 1e-11;
        ensure_close!(x.determinant().deriv, det * tr, 1e-11, scale, "derivative of the determinant");
        let di = fscale(&fmul(&m, &ie), -1.0);
        let got = x.inverse().map_err(|e| format!("{e:?}"))?;
        mclose(&(0..N).map(|r| (0..N).map(|c| got[(r, c)].deriv).collect()).collect(), &di, scale, "derivative of the inverse")?;
        let b = Vector::<N, Dual<f64>>::from_fn(|k| Dual::new(B[k], B[15 - k]));
        // d(A⁻¹b) = A⁻¹(db − dA x)
        let xs = fmv(&ie, &B[..N]);
        let rhs: Vec<f64> = (0..N).map(|k| B[15 - k] - fdot(&da[k], &xs)).collect();
        let want = fmv(&ie, &rhs);
        let s = x.solve(b).map_err(|e| format!("{e:?}"))?;
        vclose(&(0..N).map(|k| s[k].deriv).collect::<Vec<_>>(), &want, scale * 100.0, "derivative of solve")?;
        let q = PivotedQr::decompose(x).unwrap().solve_least_squares(b).map_err(|e| format!("{e:?}"))?;
        vclose(&(0..N).map(|k| q[k].value).collect::<Vec<_>>(), &xs, scale * 100.0, "value of the QR solve")?;
        vclose(&(0..N).map(|k| q[k].deriv).collect::<Vec<_>>(), &want, scale * 100.0, "derivative of the QR solve")?;
        // symmetric positive definite: A Aᵀ
        let s = fmul(a, &ft(a));
        let ds = fadd(&fmul(da, &ft(a)), &fmul(a, &ft(da)));
        let y = Matrix::<N, N, Dual<f64>>::from_fn(|r, c| Dual::new(s[r][c], ds[r][c]));
        let l = y.cholesky().map_err(|e| format!("{e:?}"))?.lower();
        let (lv_, ld): (M, M) = ((0..N).map(|r| (0..N).map(|c| l[(r, c)].value).collect()).collect(), (0..N).map(|r| (0..N).map(|c| l[(r, c)].deriv).collect()).collect());
        mclose(&fadd(&fmul(&ld, &ft(&lv_)), &fmul(&lv_, &ft(&ld))), &ds, scale * 10.0, "derivative of the Cholesky factor")?;
        Ok(mh(&di))
    }
    let dec2 = move |i: u64| {
        let mut d = Dig(i);
        (mat(&mut d, 2, 2, al), mat(&mut d, 2, 2, al))
    };
    ck.space("dual 2x2", 3u64.pow(8), |i| format!("{:?}", dec2(i)), |i| {
        let (a, b) = dec2(i);
        run::<2>(&a, &b)
    });
    let dec3 = move |i: u64| {
        let mut d = Dig(i);
        let a = mat(&mut d, 3, 3, al);
        let mut b = vec![vec![0.0; 3]; 3];
        b[d.n(3)][d.n(3)] = 1.0;
        (a, b)
    };
    ck.space("dual 3x3", 3u64.pow(11), |i| format!("{:?}", dec3(i)), |i| {
        let (a, b) = dec3(i);
        run::<3>(&a, &b)
    });
}

/// The factors and solutions of a matrix in any unit are those of the matrix, scaled.
fn units<T: Fl, const R: usize, const C: usize>(ck: &Ck, al: &'static [f64]) {
    let ks: [(i32, i32); 9] = if T::IS32 { [(-56, 3), (-40, -40), (-26, 26), (-12, -50), (0, -60), (0, 60), (26, 40), (40, -30), (56, 20)] } else { [(-480, 40), (-300, -300), (-150, 200), (-54, -400), (0, -420), (0, 450), (54, 80), (300, 300), (480, -200)] };
    let n = (al.len() as u64).pow((R * C) as u32);
    ck.space(&format!("units {R}x{C} {}", T::NAME), n * 9, |i| format!("{:?} times 2^{:?}", mat(&mut Dig(i / 9), R, C, al), ks[i as usize % 9]), |i| {
        let (k, m) = ks[i as usize % 9];
        let (u, w) = (2f64.powi(k), 2f64.powi(m));
        let a = mat(&mut Dig(i / 9), R, C, al);
        let bv = B[..R].to_vec();
        let (x, xs) = (lm::<R, C, T>(&a), lm::<R, C, T>(&a).scale(t(u)));
        let (b, bs) = (lv::<R, T>(&bv), lv::<R, T>(&bv.iter().map(|x| x * w).collect::<Vec<_>>()));
        let rel = if T::IS32 { 2e-4 } else { 1e-12 };
        let near = |got: &M, by: f64, want: &M, what: &str| mclose(&fscale(got, by), want, rel * fmax_abs(want).max(1e-9), what);
        let c = |v: &multicalc::linear_algebra::Vector<C, T>, by: f64| col(&vv(v).iter().map(|x| x * by).collect::<Vec<_>>());
        // the quotient is taken in two steps: each alone stays in range
        let back = |v: &multicalc::linear_algebra::Vector<C, T>| c(v, 1.0).iter().map(|r| vec![r[0] / w * u]).collect::<M>();
        let (q, qs) = (PivotedQr::decompose(x).map_err(|e| format!("{e:?}"))?, PivotedQr::decompose(xs).map_err(|e| format!("{e:?}"))?);
        ensure_eq!(qs.permutation(), q.permutation(), "pivots");
        near(&mm(&qs.orthogonal()), 1.0, &mm(&q.orthogonal()), "orthogonal factor")?;
        near(&mm(&qs.triangular()), 1.0 / u, &mm(&q.triangular()), "triangular factor")?;
        let rd: Vec<f64> = (0..C).map(|j| mm(&q.triangular())[j][j].abs()).collect();
        let regular = rd.iter().all(|x| *x > 1e-3);
        if regular {
            near(&back(&qs.solve_least_squares(bs).map_err(|e| format!("{e:?}"))?), 1.0, &c(&q.solve_least_squares(b).map_err(|e| format!("{e:?}"))?, 1.0), "least squares")?;
        } else if rd.contains(&0.0) {
            ensure_eq!(qs.solve_least_squares(bs).err(), q.solve_least_squares(b).err(), "least squares");
        }
        let (d, ds) = (q.into_damped(b), qs.into_damped(bs));
        ensure!(!regular || ds.is_non_singular(), "reported singular");
        let bn = fnorm(&bv);
        ensure_close!(g(ds.max_a_t_b_scaled(t(bn * w))), g(d.max_a_t_b_scaled(t(bn))), rel, rel, "scaled gradient");
        let v: Vec<f64> = (0..C).map(|k| [1.0, -2.0, 3.0][k % 3]).collect();
        ensure_close!(g(ds.a_x_norm(&lv::<C, T>(&v))) / u, g(d.a_x_norm(&lv::<C, T>(&v))), rel, rel * 1e-3, "norm of A x");
        for dd in [[1.0, 1.0, 1.0], [0.5, 2.0, 4.0], [0.0, 1.0, 3.0], [3.0, 0.0, 0.5], [0.0, 0.0, 0.0]] {
            if !regular && dd.iter().any(|x| *x == 0.0) { continue }
            let (p, f) = d.solve_with_diagonal(&std::array::from_fn(|j| t(dd[j % 3])));
            let (ps, fs) = ds.solve_with_diagonal(&std::array::from_fn(|j| t(dd[j % 3] * u)));
            near(&back(&ps), 1.0, &c(&p, 1.0), &format!("damped by {dd:?}"))?;
            let rhs: [T; C] = std::array::from_fn(|j| t(B[j]));
            let z = |f: &multicalc::linear_algebra::CholeskyFactor<C, T>, by: f64| col(&f.solve(rhs).map(|x| g(x) * by));
            near(&z(&fs, u), 1.0, &z(&f, 1.0), &format!("damped factor by {dd:?}"))?;
        }
        let mut out = hf(&rd);
        if R == C {
            let (y, ys) = (lm::<R, R, T>(&a), lm::<R, R, T>(&a).scale(t(u)));
            match (ys.lu_decompose(), y.lu_decompose()) {
                (Ok(l), Ok(o)) => {
                    ensure_eq!(l.permutation(), o.permutation(), "LU rows");
                    near(&mm(&l.lower()), 1.0, &mm(&o.lower()), "L")?;
                    near(&mm(&l.upper()), 1.0 / u, &mm(&o.upper()), "U")?;
                    near(&mm(&l.inverse()), u, &mm(&o.inverse()), "inverse of the factors")?;
                    near(&mm(&ys.inverse().map_err(|e| format!("{e:?}"))?), u, &mm(&o.inverse()), "inverse")?;
                    let by = |v: &multicalc::linear_algebra::Vector<R, T>| -> M { vv(v).iter().map(|x| vec![x / w * u]).collect() };
                    near(&by(&ys.solve(bs).map_err(|e| format!("{e:?}"))?), 1.0, &col(&vv(&o.solve(b))), "solution")?;
                    near(&by(&l.solve(bs)), 1.0, &col(&vv(&o.solve(b))), "solution of the factors")?;
                }
                (l, o) => ensure_eq!(l.err(), o.err(), "LU"),
            }
            if (k.abs() as usize) * R < if T::IS32 { 120 } else { 1000 } {
                ensure_close!(g(ys.determinant()) / u.powi(R as i32), g(y.determinant()), rel, 0.0, "determinant");
            }
            // of the symmetric product: what may or may not be positive definite keeps its verdict
            let s = fmul(&a, &ft(&a));
            let s = fadd(&s, &fscale(&feye(R), [0.0, 1.0, -1.0][(i / 9) as usize % 3]));
            let (y, ys) = (lm::<R, R, T>(&s), lm::<R, R, T>(&s).scale(t(u)));
            match (ys.cholesky(), y.cholesky()) {
                (Ok(l), Ok(o)) => {
                    let r = |v: &M| -> M { fmul(v, &ft(v)) };
                    near(&r(&mm(&l.lower())), 1.0 / u, &r(&mm(&o.lower())), "Cholesky factor")?;
                    if vv(&o.lower().try_column(R - 1).unwrap())[R - 1] > 0.1 {
                        near(&mm(&l.inverse()), u, &mm(&o.inverse()), "inverse by Cholesky")?;
                        near(&vv(&l.solve(bs)).iter().map(|x| vec![x / w * u]).collect(), 1.0, &col(&vv(&o.solve(b))), "solution by Cholesky")?;
                    }
                    out ^= 1;
                }
                (l, o) => ensure_eq!(l.err(), o.err(), "Cholesky"),
            }
        }
        op(8);
        Ok(out)
    });
}
fn all<T: Fl>(ck: &Ck) {
    units::<T, 2, 2>(ck, &[-2.0, -1.0, 0.0, 1.0, 3.0]);
    units::<T, 3, 2>(ck, &[-1.0, 0.0, 2.0]);
    units::<T, 3, 3>(ck, &[-1.0, 0.0, 2.0]);
    units::<T, 4, 2>(ck, &[1.0, 0.0, -3.0]);

    squares::<T, 1>(ck, &[-3.0, -1.0, 0.0, 0.5, 7.0]);
    squares::<T, 2>(ck, ck.q(&[-3.0, -1.0, 0.0, 1.0, 2.0, 5.0], &[-7.0, -3.0, -1.0, 0.0, 1.0, 2.0, 5.0, 8.0]));
    squares::<T, 3>(ck, ck.q(&[-1.0, 0.0, 2.0], &[-1.0, 0.0, 2.0, 3.0]));
    masks::<T, 3>(ck, &[2., -3., 5., 7., -1., 3., 4., 6., -2.]);
    masks::<T, 4>(ck, &[2., -3., 5., 1., 7., -1., 3., 4., 6., -2., 1., 3., -4., 5., 2., 1.]);
    perms::<T, 4>(ck);
    perms::<T, 5>(ck);
    if ck.thorough() {
        perms::<T, 6>(ck);
        perms::<T, 7>(ck);
        dense::<T, 7>(ck);
    }
    dense::<T, 5>(ck);
    large::<T, 7>(ck);
    large::<T, 8>(ck);
    large::<T, 9>(ck);
    large::<T, 12>(ck);
    dense::<T, 6>(ck);
    thresholds::<T>(ck);
    chol::<T, 1>(ck, &[0.0, 1.0, 3.0], &[0.0]);
    chol::<T, 2>(ck, &[0.0, 1.0, 2.0, 3.0], &[-2.0, 0.0, 1.0, 5.0]);
    chol::<T, 3>(ck, &[0.0, 1.0, 2.0, 4.0], &[-2.0, 0.0, 1.0, 3.0]);
    chol::<T, 4>(ck, ck.q(&[0.0, 1.0, 2.0], &[0.0, 1.0, 2.0, 3.0]), ck.q(&[-1.0, 0.0, 2.0], &[-1.0, 0.0, 2.0, 1.0]));
    chol_sym::<T, 2>(ck, &[-1.0, 0.0, 1.0, 2.0, 5.0], &[-2.0, -1.0, 0.0, 1.0, 3.0]);
    chol_sym::<T, 3>(ck, &[-1.0, 0.0, 1.0, 2.0, 5.0], &[-2.0, -1.0, 0.0, 1.0, 3.0]);
    chol_sym::<T, 4>(ck, ck.q(&[1.0, 3.0], &[0.0, 1.0, 3.0]), &[-1.0, 0.0, 1.0, 2.0]);
    chol_large::<T, 5>(ck);
    chol_large::<T, 6>(ck);
    chol_large::<T, 8>(ck);
    chol_large::<T, 9>(ck);
    chol_large::<T, 12>(ck);
    qr_large::<T, 5, 5>(ck);
    qr_large::<T, 6, 4>(ck);
    qr_large::<T, 8, 8>(ck);
    qr_large::<T, 9, 6>(ck);
    qr_large::<T, 12, 3>(ck);
    qr::<T, 2, 1>(ck, &[-2.0, -1.0, 0.0, 1.0, 3.0]);
    qr::<T, 2, 2>(ck, &[-2.0, -1.0, 0.0, 1.0, 3.0]);
    qr::<T, 3, 2>(ck, &[-1.0, 0.0, 2.0]);
    qr::<T, 3, 3>(ck, &[-1.0, 0.0, 2.0]);
    qr::<T, 4, 2>(ck, &[-1.0, 0.0, 2.0]);
    qr::<T, 4, 3>(ck, ck.q(&[0.0, 2.0], &[-1.0, 0.0, 2.0]));
    qr::<T, 5, 2>(ck, &[0.0, 2.0]);
    qr::<T, 1, 2>(ck, &[-1.0, 0.0, 2.0]);
    qr::<T, 2, 3>(ck, &[-1.0, 0.0, 2.0]);
}

fn main() {
    let ck = Ck::new("C07");
    all::<f64>(&ck);
    all::<f32>(&ck);
    duals(&ck);
    ck.assume("results are compared with exact rational arithmetic within a tolerance proportional to machine epsilon and the condition number");
    ck.finish();
}
