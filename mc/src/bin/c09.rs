//! C09: matrix exponential, discretization, Riccati / Lyapunov equations and the LQR built on them.
use mc::la::*;
use mc::num::*;
use mc::refmodel::*;
use mc::*;
use multicalc::control::Lqr;
use multicalc::discretization::{q_discrete_white_noise, van_loan, zoh};
use multicalc::error::{ControlError, LinalgError as E};
use multicalc::linear_algebra::{Matrix, Vector, solve_discrete_lyapunov, solve_discrete_riccati};
use multicalc::scalar::Dual;

fn mat(d: &mut Dig, r: usize, c: usize, al: &[f64]) -> M {
    (0..r).map(|_| (0..c).map(|_| d.pick(al)).collect()).collect()
}
fn sym(d: &mut Dig, n: usize, dg: &[f64], off: &[f64]) -> M {
    let mut l = vec![vec![0.0; n]; n];
    for r in 0..n {
        l[r][r] = d.pick(dg);
        for c in 0..r {
            l[r][c] = d.pick(off);
            l[c][r] = l[r][c];
        }
    }
    l
}
fn norm1(a: &M) -> f64 {
    (0..a[0].len()).map(|j| a.iter().map(|r| r[j].abs()).sum::<f64>()).fold(0.0, f64::max)
}
fn f32max<T: Fl>() -> f64 {
    if T::IS32 { f32::MAX as f64 } else { f64::MAX }
}

fn expm_case<T: Fl, const N: usize>(a: &M) -> Res {
    let x = lm::<N, N, T>(a);
    let want = if N == 1 { vec![vec![a[0][0].exp()]] } else { fexpm(a) };
    let r = x.expm();
    let peak = fmax_abs(&want);
    if !(peak < 0.4 * f32max::<T>()) {
        if !peak.is_finite() || peak > f32max::<T>() * 4.0 {
            ensure!(matches!(r, Err(E::NonFinite)), "an exponential that overflows was returned: {r:?}");
        }
        return Ok(0);
    }
    let r = match r {
        Ok(r) => r,
        // the intermediate squares of a decaying exponential stay finite, so no error is due
        Err(e) => return Err(format!("refused: {e:?}")),
    };
    let n1 = norm1(a).max(1.0);
    let cond = norm1(&want) * n1 + norm1(&want) * norm1(&fexpm(&fscale(a, -1.0))).min(50.0);
    mclose(&mm(&r), &want, 64.0 * T::EPS * N as f64 * cond, "exponential")?;
    Ok(mh(&want))
}
fn expms<T: Fl>(ck: &Ck) {
    fn go<T: Fl, const N: usize>(ck: &Ck, al: &'static [f64]) {
        let n = (al.len() as u64).pow((N * N) as u32);
        let dec = move |i: u64| mat(&mut Dig(i), N, N, al);
        ck.space(&format!("expm {N}x{N} {}", T::NAME), n, |i| format!("{:?}", dec(i)), |i| expm_case::<T, N>(&dec(i)));
    }
    go::<T, 1>(ck, &[-1000.0, -87.0, -20.0, -1.0, -0.5, -1e-9, 0.0, 1e-12, 0.25, 0.5, 1.0, 3.0, 10.0, 20.0, 80.0, 88.0, 95.0, 700.0, 712.0, 5000.0]);
    go::<T, 2>(ck, &[-4.0, -1.0, -0.25, 0.0, 1e-6, 0.5, 2.0, 9.0]);
    go::<T, 3>(ck, ck.q(&[-1.5, 0.0, 0.5], &[-1.5, 0.0, 0.5, 3.0]));
    if ck.thorough() {
        go::<T, 4>(ck, &[0.0, -1.25]);
    }
    // nilpotent: the exponential is a finite sum, exactly
    ck.space(&format!("expm nilpotent {}", T::NAME), 4u64.pow(6), |i| format!("{:?}", Dig(i).arr::<6, f64>(&[-4.0, 0.0, 1.0, 64.0])), |i| {
        let e = Dig(i).arr::<6, f64>(&[-4.0, 0.0, 1.0, 64.0]);
        let a = vec![vec![0.0, e[0], e[1], e[2]], vec![0.0, 0.0, e[3], e[4]], vec![0.0, 0.0, 0.0, e[5]], vec![0.0; 4]];
        let a2 = fmul(&a, &a);
        let want = fadd(&fadd(&feye(4), &a), &fadd(&fscale(&a2, 0.5), &fscale(&fmul(&a2, &a), 1.0 / 6.0)));
        let r = lm::<4, 4, T>(&a).expm().map_err(|e| format!("{e:?}"))?;
        mclose(&mm(&r), &want, 64.0 * T::EPS * fmax_abs(&want) , "exponential")?;
        Ok(mh(&want))
    });
    // skew-symmetric: a rotation
    ck.space(&format!("expm rotations {}", T::NAME), 9 * 9 * 9, |i| format!("{:?}", Dig(i).arr::<3, f64>(&[-12.0, -3.0, -1.0, -0.1, 0.0, 0.01, 0.5, 2.0, 7.0])), |i| {
        let [x, y, z] = Dig(i).arr::<3, f64>(&[-12.0, -3.0, -1.0, -0.1, 0.0, 0.01, 0.5, 2.0, 7.0]);
        let a = vec![vec![0.0, -z, y], vec![z, 0.0, -x], vec![-y, x, 0.0]];
        let r = mm(&lm::<3, 3, T>(&a).expm().map_err(|e| format!("{e:?}"))?);
        let th = (x * x + y * y + z * z).sqrt();
        let tol = 64.0 * T::EPS * (1.0 + th);
        let (s, c) = if th == 0.0 { (1.0, 0.5) } else { (th.sin() / th, (1.0 - th.cos()) / (th * th)) };
        let want = fadd(&feye(3), &fadd(&fscale(&a, s), &fscale(&fmul(&a, &a), c)));
        mclose(&r, &want, tol, "Rodrigues")?;
        Ok(mh(&want))
    });
    let bad = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY];
    // decay at every rate up to the largest numbers: nothing is left, and a mode at rest stays
    let top = if T::NAME == "f32" { 120 } else { 1000 };
    ck.space(&format!("expm decays {}", T::NAME), 256 * (top + 10), |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let modes: Vec<f64> = (0..4).map(|_| [0.0, 0.5, 1.0, 2.0][d.n(4)]).collect();
        let s = 2f64.powi(d.n(top as usize + 10) as i32 - 10);
        let rest = modes.contains(&0.0);
        if rest && s * T::EPS > 1e-3 { return Ok(1) }
        // a reflection with entries of a half, so the matrix is exact
        let h = |r: usize, c: usize| if r == c { 0.5 } else { -0.5 };
        let a: M = (0..4).map(|r| (0..4).map(|c| (0..4).map(|k| -h(r, k) * modes[k] * s * h(k, c)).sum()).collect()).collect();
        let got = mm(&lm::<4, 4, T>(&a).expm().map_err(|e| format!("decay at {s}: {e:?}"))?);
        for r in 0..4 {
            for c in 0..4 {
                let want: f64 = (0..4).map(|k| h(r, k) * (-modes[k] * s).exp() * h(k, c)).sum();
                ensure!((got[r][c] - want).abs() <= T::EPS * 64.0 * if rest { s.max(1.0) } else { 1.0 }, "decay at {s} of {modes:?}: entry {r} {c} is {}, expected {want}", got[r][c]);
            }
        }
        Ok(0)
    });
    ck.space(&format!("expm non-finite {}", T::NAME), 27, |i| format!("entry {} is {}", i / 3, bad[i as usize % 3]), |i| {
        let x = Matrix::<3, 3, T>::from_fn(|r, c| t(if r * 3 + c == i as usize / 3 { bad[i as usize % 3] } else { 0.5 }));
        ensure!(matches!(x.expm(), Err(E::NonFinite)), "accepted");
        let y = Matrix::<2, 2, T>::identity();
        let m = Matrix::<2, 1, T>::new([[T::ONE], [T::ONE]]);
        let _ = (y, m);
        Ok(0)
    });
}
fn expm_dual(ck: &Ck) {
    let al: &[f64] = &[-1.0, 0.0, 0.5, 3.0];
    ck.space("expm derivative", 4u64.pow(8), |i| format!("{:?}", Dig(i).arr::<8, f64>(al)), |i| {
        let e = Dig(i).arr::<8, f64>(al);
        let a = vec![vec![e[0], e[1]], vec![e[2], e[3]]];
        let d = vec![vec![e[4], e[5]], vec![e[6], e[7]]];
        // exp [[A, D], [0, A]] holds the derivative in its corner
        let big: M = (0..4).map(|r| (0..4).map(|c| if (r < 2) == (c < 2) { a[r % 2][c % 2] } else if r < 2 { d[r][c - 2] } else { 0.0 }).collect()).collect();
        let w = fexpm(&big);
        let x = Matrix::<2, 2, Dual<f64>>::from_fn(|r, c| Dual::new(a[r][c], d[r][c]));
        let r = x.expm().map_err(|e| format!("{e:?}"))?;
        let scale = fmax_abs(&w).max(1.0) * 1e-12;
        for p in 0..2 {
            for q in 0..2 {
                ensure_close!(r[(p, q)].value, w[p][q], 0.0, scale, "value ({p},{q})");
                ensure_close!(r[(p, q)].deriv, w[p][q + 2], 0.0, scale * 4.0, "derivative ({p},{q})");
            }
        }
        Ok(mh(&w))
    });
}

/// ∫₀ᵗ f by 20-point Gauss-Legendre on 4 panels (f is analytic and mild).
fn integral(t1: f64, f: &dyn Fn(f64) -> M) -> M {
    let xs = [0.0765265211334973, 0.2277858511416451, 0.3737060887154195, 0.5108670019508271, 0.6360536807265150, 0.7463319064601508, 0.8391169718222188, 0.9122344282513259, 0.9639719272779138, 0.9931285991850949];
    let ws = [0.1527533871307258, 0.1491729864726037, 0.1420961093183820, 0.1316886384491766, 0.1181945319615184, 0.1019301198172404, 0.0832767415767048, 0.0626720483341091, 0.0406014298003869, 0.0176140071391521];
    let h = t1 / 4.0;
    let mut s: Option<M> = None;
    for p in 0..4 {
        let mid = (p as f64 + 0.5) * h;
        for k in 0..10 {
            for sg in [-1.0, 1.0] {
                let m = fscale(&f(mid + sg * xs[k] * h * 0.5), ws[k] * h * 0.5);
                s = Some(match s {
                    None => m,
                    Some(q) => fadd(&q, &m),
                });
            }
        }
    }
    s.unwrap()
}

fn discretize<T: Fl>(ck: &Ck) {
    let al: &[f64] = &[-2.0, 0.0, 0.5, 1.0];
    let dts: [f64; 4] = [0.0, 0.015625, 0.5, 2.0];
    ck.space(&format!("zoh 2 states 1 input {}", T::NAME), 4u64.pow(6) * 4, |i| {
        let mut d = Dig(i);
        format!("A,B = {:?}, step {}", d.arr::<6, f64>(al), d.pick(&dts))
    }, |i| {
        let mut d = Dig(i);
        let e = d.arr::<6, f64>(al);
        let dt = d.pick(&dts);
        let a = vec![vec![e[0], e[1]], vec![e[2], e[3]]];
        let b = vec![vec![e[4]], vec![e[5]]];
        let (f, gm) = zoh::<2, 1, 3, T>(lm(&a), lm(&b), t(dt)).map_err(|e| format!("{e:?}"))?;
        let wf = fexpm(&fscale(&a, dt));
        let wg = if dt == 0.0 { vec![vec![0.0], vec![0.0]] } else { integral(dt, &|s| fmul(&fexpm(&fscale(&a, s)), &b)) };
        let tol = 256.0 * T::EPS * (1.0 + fmax_abs(&wf)) * (1.0 + 4.0 * dt);
        mclose(&mm(&f), &wf, tol, "F")?;
        mclose(&mm(&gm), &wg, tol * 4.0, "G")?;
        Ok(mh(&wg))
    });
    ck.space(&format!("zoh 1 state 2 inputs {}", T::NAME), 4u64.pow(3) * 4, |i| {
        let mut d = Dig(i);
        format!("a,b = {:?}, step {}", d.arr::<3, f64>(al), d.pick(&dts))
    }, |i| {
        let mut d = Dig(i);
        let e = d.arr::<3, f64>(al);
        let dt = d.pick(&dts);
        let (f, gm) = zoh::<1, 2, 3, T>(lm(&vec![vec![e[0]]]), lm(&vec![vec![e[1], e[2]]]), t(dt)).map_err(|e| format!("{e:?}"))?;
        let ph = if e[0] == 0.0 { dt } else { (e[0] * dt).exp_m1() / e[0] };
        ensure_close!(g(f[(0, 0)]), (e[0] * dt).exp(), 64.0 * T::EPS, 0.0, "F");
        for k in 0..2 {
            ensure_close!(g(gm[(0, k)]), ph * e[1 + k], 64.0 * T::EPS, 8.0 * T::EPS, "G");
        }
        Ok(hf(&e))
    });
    let qd: &[f64] = &[0.0, 1.0, 4.0];
    let qo: &[f64] = &[-1.0, 0.0, 0.5];
    ck.space(&format!("van_loan 2 states {}", T::NAME), 4u64.pow(4) * 27 * 4, |i| {
        let mut d = Dig(i);
        format!("A = {:?}, Q = {:?}, step {}", mat(&mut d, 2, 2, al), sym(&mut d, 2, qd, qo), d.pick(&dts))
    }, |i| {
        let mut d = Dig(i);
        let a = mat(&mut d, 2, 2, al);
        let q = sym(&mut d, 2, qd, qo);
        let dt = d.pick(&dts);
        let (f, qm) = van_loan::<2, 4, T>(lm(&a), lm(&q), t(dt)).map_err(|e| format!("{e:?}"))?;
        let wf = fexpm(&fscale(&a, dt));
        let wq = if dt == 0.0 {
            vec![vec![0.0; 2]; 2]
        } else {
            integral(dt, &|s| {
                let m = fexpm(&fscale(&a, s));
                fmul(&fmul(&m, &q), &ft(&m))
            })
        };
        let inv = fmax_abs(&fexpm(&fscale(&a, -dt))).max(1.0);
        let tol = 512.0 * T::EPS * (1.0 + fmax_abs(&wf)) * (1.0 + fmax_abs(&wf)) * inv * inv * (1.0 + 4.0 * dt);
        mclose(&mm(&f), &wf, tol, "F")?;
        mclose(&mm(&qm), &wq, tol * 8.0, "Q")?;
        Ok(mh(&wq))
    });
    let steps = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -1.0, -1e-30];
    ck.space(&format!("discretization refusals {}", T::NAME), 5, |i| format!("step {}", steps[i as usize]), |i| {
        let dt = t::<T>(steps[i as usize]);
        let a = Matrix::<2, 2, T>::identity();
        ensure!(matches!(zoh::<2, 1, 3, T>(a, Matrix::zeros(), dt), Err(E::InvalidTimestep)), "zoh");
        ensure!(matches!(van_loan::<2, 4, T>(a, a, dt), Err(E::InvalidTimestep)), "van_loan");
        let bad = Matrix::<2, 2, T>::new([[T::NAN, T::ZERO], [T::ZERO, T::ONE]]);
        ensure!(matches!(zoh::<2, 1, 3, T>(bad, Matrix::zeros(), T::ONE), Err(E::NonFinite)), "zoh of NaN");
        ensure!(matches!(van_loan::<2, 4, T>(bad, a, T::ONE), Err(E::NonFinite)), "van_loan of NaN");
        ensure!(matches!(van_loan::<2, 4, T>(a, bad, T::ONE), Err(E::NonFinite)), "van_loan of NaN noise");
        Ok(0)
    });
    // the white-noise covariance is var · g gᵀ with g the response of the chain to a constant push
    let dts2 = [0.0, 0.25, 0.5, 1.0, 3.0, -1.0];
    let vars = [0.0, 1.0, 2.5, 9.0];
    ck.space(&format!("white noise covariance {}", T::NAME), 24, |i| format!("step {}, variance {}", dts2[i as usize % 6], vars[i as usize / 6]), |i| {
        let (dt, v): (f64, f64) = (dts2[i as usize % 6], vars[i as usize / 6]);
        fn outer(gv: &[f64], v: f64) -> M {
            gv.iter().map(|x| gv.iter().map(|y| x * y * v).collect()).collect()
        }
        let tol = 16.0 * T::EPS * (1.0 + dt.abs().powi(6)) * v;
        mclose(&mm(&q_discrete_white_noise::<2, T>(t(dt), t(v))), &outer(&[dt * dt / 2.0, dt], v), tol, "2 states")?;
        mclose(&mm(&q_discrete_white_noise::<3, T>(t(dt), t(v))), &outer(&[dt * dt / 2.0, dt, 1.0], v), tol, "3 states")?;
        mclose(&mm(&q_discrete_white_noise::<4, T>(t(dt), t(v))), &outer(&[dt.powi(3) / 6.0, dt * dt / 2.0, dt, 1.0], v), tol, "4 states")?;
        Ok(i)
    });
}

/// Spectral radius of a 2x2.
fn rho2(a: &M) -> f64 {
    let (tr, det) = (a[0][0] + a[1][1], a[0][0] * a[1][1] - a[0][1] * a[1][0]);
    let disc = tr * tr / 4.0 - det;
    if disc >= 0.0 {
        (tr / 2.0).abs() + disc.sqrt()
    } else {
        det.sqrt()
    }
}
/// AᵀPA − P + Q = 0 through the n²-by-n² linear system.
fn flyap(a: &M, q: &M) -> Option<M> {
    let n = a.len();
    let mut s = vec![vec![0.0; n * n]; n * n];
    let mut b = vec![vec![0.0]; n * n];
    for i in 0..n {
        for j in 0..n {
            b[i * n + j][0] = q[i][j];
            for k in 0..n {
                for l in 0..n {
                    s[i * n + j][k * n + l] = (if i == k && j == l { 1.0 } else { 0.0 }) - a[k][i] * a[l][j];
                }
            }
        }
    }
    let x = fsolve(&s, &b)?;
    Some((0..n).map(|i| (0..n).map(|j| x[i * n + j][0]).collect()).collect())
}

fn lyapunov<T: Fl>(ck: &Ck) {
    let al: &[f64] = &[-1.5, -0.75, 0.0, 0.5, 1.0];
    let qd: &[f64] = &[0.0, 1.0, 4.0];
    let qo: &[f64] = &[-0.5, 0.0, 0.5];
    ck.space(&format!("Lyapunov 2x2 {}", T::NAME), 625 * 27, |i| {
        let mut d = Dig(i);
        format!("A = {:?}, Q = {:?}", mat(&mut d, 2, 2, al), sym(&mut d, 2, qd, qo))
    }, |i| {
        let mut d = Dig(i);
        let a = mat(&mut d, 2, 2, al);
        let q = sym(&mut d, 2, qd, qo);
        let r = solve_discrete_lyapunov::<2, T>(lm(&a), lm(&q));
        let rho = rho2(&a);
        if rho < 0.999 {
            let want = flyap(&a, &q).ok_or("reference failed")?;
            let p = r.map_err(|e| format!("a shrinking system was refused: {e:?}"))?;
            let p = mm(&p);
            ensure_eq!(p[0][1], p[1][0], "symmetry");
            let tol = 256.0 * T::EPS * fmax_abs(&want).max(1.0) / (1.0 - rho).powi(2);
            mclose(&p, &want, tol, "solution")?;
            return Ok(mh(&want));
        }
        // positive definite Q with a system that does not shrink: no solution adds up
        let pd = q[0][0] > 0.0 && q[0][0] * q[1][1] - q[0][1] * q[0][1] > 0.0;
        if pd && rho > 1.01 {
            ensure!(matches!(r, Err(E::DidNotConverge { .. })), "a system that does not shrink was certified: {r:?}");
            return Ok(1);
        }
        if let Ok(p) = r {
            let p = mm(&p);
            let res = fadd(&fsub(&fmul(&fmul(&ft(&a), &p), &a), &p), &q);
            mclose(&res, &vec![vec![0.0; 2]; 2], 4.0 * T::EPS.sqrt() * (1.0 + fmax_abs(&p)), "residual")?;
        }
        Ok(2)
    });
    let al3: &[f64] = &[-0.5, 0.0, 0.25];
    ck.space(&format!("Lyapunov 3x3 {}", T::NAME), 3u64.pow(9) , |i| {
        let mut d = Dig(i);
        format!("A = {:?}", mat(&mut d, 3, 3, al3))
    }, |i| {
        let mut d = Dig(i);
        let a = mat(&mut d, 3, 3, al3);
        let q = vec![vec![2.0, 0.5, 0.0], vec![0.5, 1.0, -0.25], vec![0.0, -0.25, 3.0]];
        // spectral radius through a high power
        let mut pw = a.clone();
        for _ in 0..6 {
            pw = fmul(&pw, &pw);
        }
        let rho = fmax_abs(&pw).powf(1.0 / 64.0);
        if rho > 0.93 {
            let r = solve_discrete_lyapunov::<3, T>(lm(&a), lm(&q));
            if rho > 1.1 {
                ensure!(matches!(r, Err(E::DidNotConverge { .. })), "a growing system was certified");
            }
            return Ok(0);
        }
        let p = mm(&solve_discrete_lyapunov::<3, T>(lm(&a), lm(&q)).map_err(|e| format!("refused: {e:?}"))?);
        let want = flyap(&a, &q).ok_or("reference failed")?;
        mclose(&p, &want, 512.0 * T::EPS * fmax_abs(&want) / (1.0 - rho).powi(2), "solution")?;
        ensure!(p == ft(&p), "symmetry");
        Ok(mh(&want))
    });
}

/// Fixed point of the Riccati recursion by plain iteration. None if it does not settle.
fn friccati(a: &M, b: &M, q: &M, r: &M) -> Option<(M, M)> {
    let mut p = q.clone();
    let mut k = vec![];
    for it in 0..3000 {
        let bt = ft(b);
        let w = fadd(r, &fmul(&fmul(&bt, &p), b));
        k = fsolve(&w, &fmul(&fmul(&bt, &p), a))?;
        let cl = fsub(a, &fmul(b, &k));
        // Joseph form keeps it symmetric positive
        let n = fadd(&fadd(&fmul(&fmul(&ft(&cl), &p), &cl), &fmul(&fmul(&ft(&k), r), &k)), q);
        let d = fmax_abs(&fsub(&n, &p));
        p = n;
        if !(fmax_abs(&p) < 1e9) {
            return None;
        }
        if d <= 8e-15 * fmax_abs(&p).max(1.0) && it > 3 {
            return Some((p, k));
        }
    }
    None
}

/// Whether a mode that clearly grows is out of the input's reach.
fn unreachable_growth(a: &M, b: &M) -> bool {
    let (tr, det) = (a[0][0] + a[1][1], a[0][0] * a[1][1] - a[0][1] * a[1][0]);
    let disc = tr * tr / 4.0 - det;
    if fmax_abs(b) == 0.0 {
        return rho2(a) > 1.1;
    }
    if disc < 1e-9 {
        return false;
    }
    [tr / 2.0 + disc.sqrt(), tr / 2.0 - disc.sqrt()].iter().any(|l| {
        // left eigenvector: w (A - l I) = 0
        let c = [[a[0][0] - l, a[0][1]], [a[1][0], a[1][1] - l]];
        let w = if c[0][0].abs() + c[1][0].abs() > 1e-9 { [-c[1][0], c[0][0]] } else { [-c[1][1], c[0][1]] };
        l.abs() > 1.1 && (0..b[0].len()).all(|j| (w[0] * b[0][j] + w[1] * b[1][j]).abs() < 1e-12)
    })
}

fn riccati<T: Fl, const NM: usize>(ck: &Ck, name: &str, al: &'static [f64], bl: &'static [f64]) {
    let qd: &[f64] = &[0.0, 1.0, 4.0];
    let qo: &[f64] = &[0.0, 0.5];
    let rs = [0.25, 1.0, 16.0];
    let n = (al.len() as u64).pow(4) * (bl.len() as u64).pow(2 * NM as u32) * 18 * 3;
    let dec = move |i: u64| {
        let mut d = Dig(i);
        let a = mat(&mut d, 2, 2, al);
        let b = mat(&mut d, 2, NM, bl);
        let q = sym(&mut d, 2, qd, qo);
        let r0 = d.pick(&rs);
        let r: M = (0..NM).map(|r| (0..NM).map(|c| if r == c { r0 * (1.0 + r as f64) } else { 0.125 }).collect()).collect();
        (a, b, q, r)
    };
    ck.space(&format!("LQR {name} {}", T::NAME), n, |i| format!("A, B, Q, R = {:?}", dec(i)), |i| {
        let (a, b, q, r) = dec(i);
        // a state cost has to be positive semidefinite to mean anything
        if q[0][0] * q[1][1] - q[0][1] * q[0][1] < 0.0 {
            return Ok(0);
        }
        let (la, lb, lq, lr) = (lm::<2, 2, T>(&a), lm::<2, NM, T>(&b), lm::<2, 2, T>(&q), lm::<NM, NM, T>(&r));
        let res = solve_discrete_riccati(la, lb, lq, lr);
        let lq_ = Lqr::new(la, lb, lq, lr);
        match (&res, &lq_) {
            (Ok(_), Ok(_)) => {}
            (Err(x), Err(ControlError::Linalg(y))) if x == y => {}
            (x, y) => return Err(format!("solver gave {x:?}, controller {y:?}")),
        }
        let pd = q[0][0] > 0.0 && q[0][0] * q[1][1] - q[0][1] * q[0][1] > 0.0;
        let reference = friccati(&a, &b, &q, &r);
        let (p, kk) = match reference {
            Some(x) => x,
            None => {
                if unreachable_growth(&a, &b) {
                    // cost grows without bound: the runaway direction cannot be reached
                    ensure!(!res.is_ok(), "an uncontrollable runaway system got an answer");
                }
                return Ok(1);
            }
        };
        let cl = fsub(&a, &fmul(&b, &kk));
        let rho = rho2(&cl);
        if !pd || rho > 0.995 {
            // not promised to settle; if it answers, the answer must satisfy the equation
            if let Ok(x) = &res {
                let x = mm(x);
                let bt = ft(&b);
                let w = fadd(&r, &fmul(&fmul(&bt, &x), &b));
                let k2 = fsolve(&w, &fmul(&fmul(&bt, &x), &a)).ok_or("reference")?;
                let rhs = fadd(&fsub(&fmul(&fmul(&ft(&a), &x), &a), &fmul(&fmul(&ft(&a), &fmul(&x, &b)), &k2)), &q);
                mclose(&rhs, &x, 4.0 * T::EPS.sqrt() * fmax_abs(&x).max(1.0) * 2.0, "the returned matrix does not satisfy the equation")?;
            }
            return Ok(2);
        }
        let scale = fmax_abs(&p).max(1.0);
        if T::IS32 && scale > 2e3 {
            return Ok(3);
        }
        let tol = 2048.0 * T::EPS * scale / (1.0 - rho).powi(2) * (1.0 + fmax_abs(&a)).powi(2);
        let x = res.map_err(|e| format!("refused: {e:?}"))?;
        let got = mm(&x);
        mclose(&got, &p, tol, "cost-to-go")?;
        ensure_eq!(got[0][1], got[1][0], "symmetry of the cost-to-go");
        let lqr = lq_.unwrap();
        mclose(&mm(&lqr.cost_to_go()), &got, 0.0, "Lqr::cost_to_go")?;
        let kt = tol * (1.0 + fmax_abs(&b)) * (1.0 + fmax_abs(&a)) / r[0][0] * 4.0;
        mclose(&mm(&lqr.gain()), &kk, kt, "gain")?;
        mclose(&mm(&lqr.closed_loop()), &cl, kt * (1.0 + 2.0 * fmax_abs(&b)), "closed loop")?;
        let gk = mm(&lqr.gain());
        let s = [3.0, -2.0];
        let want: Vec<f64> = fmv(&gk, &s).iter().map(|x| -x).collect();
        let kb = 16.0 * T::EPS * (1.0 + fmax_abs(&gk)) * 10.0;
        vclose(&vv(&lqr.control(lv::<2, T>(&s))), &want, kb, "control")?;
        let rf_ = [1.0, 4.0];
        let ff: Vec<f64> = (0..NM).map(|k| 0.5 + k as f64).collect();
        let want: Vec<f64> = fmv(&gk, &[s[0] - rf_[0], s[1] - rf_[1]]).iter().zip(&ff).map(|(x, f)| f - x).collect();
        vclose(&vv(&lqr.control_tracking(lv::<2, T>(&s), lv::<2, T>(&rf_), lv::<NM, T>(&ff))), &want, kb, "control_tracking")?;
        let z = Vector::<NM, T>::zeros();
        vclose(&vv(&lqr.control_tracking(lv::<2, T>(&s), Vector::zeros(), z)), &vv(&lqr.control(lv::<2, T>(&s))), kb, "tracking the origin")?;
        let cert = mm(&lqr.certify_stability().map_err(|e| format!("a settling loop was not certified: {e:?}"))?);
        let wc = flyap(&cl, &q).ok_or("reference")?;
        mclose(&cert, &wc, (tol + kt) * 64.0 * fmax_abs(&wc) / (1.0 - rho), "certificate")?;
        Ok(mh(&p))
    });
}
/// The same problems in other units of cost, state, input and time: the answers are the ordinary
/// ones in those units, and a loop that grows stays uncertified however little it costs.
fn units<T: Fl>(ck: &Ck) {
    let al: &[f64] = &[-1.5, -0.75, 0.0, 0.5, 1.0];
    let us: [i32; 6] = if T::IS32 { [-60, -30, -24, -12, 12, 40] } else { [-200, -100, -53, -20, 20, 150] };
    let p2 = |k: i32| 2f64.powi(k);
    let dec = move |i: u64| {
        let mut d = Dig(i);
        (d.pick(&us), mat(&mut d, 2, 2, al))
    };
    ck.space(&format!("units of a Lyapunov cost {}", T::NAME), 6 * 625, |i| format!("cost x2^{}, A = {:?}", dec(i).0, dec(i).1), |i| {
        let (u, a) = dec(i);
        let q = vec![vec![1.0, 0.5], vec![0.5, 4.0]];
        let rho = rho2(&a);
        let r = solve_discrete_lyapunov::<2, T>(lm(&a), lm(&fscale(&q, p2(u))));
        if rho > 1.01 {
            ensure!(matches!(r, Err(E::DidNotConverge { .. })), "a system that does not shrink was certified: {r:?}");
            return Ok(1);
        }
        if rho > 0.999 {
            return Ok(2);
        }
        let want = flyap(&a, &q).ok_or("reference failed")?;
        let p = mm(&r.map_err(|e| format!("a shrinking system was refused: {e:?}"))?);
        mclose(&fscale(&p, p2(-u)), &want, 256.0 * T::EPS * fmax_abs(&want).max(1.0) / (1.0 - rho).powi(2), "solution")?;
        Ok(mh(&want))
    });
    let (ks, ms): ([i32; 3], [i32; 3]) = if T::IS32 { ([-12, 0, 14], [-13, 0, 12]) } else { ([-60, 0, 50], [-55, 0, 60]) };
    let bl: &[f64] = &[-0.5, 0.0, 1.0];
    let ac: &[f64] = &[-1.0, 0.0, 0.5, 1.25];
    let dec = move |i: u64| {
        let mut d = Dig(i);
        (mat(&mut d, 2, 2, ac), mat(&mut d, 2, 1, bl))
    };
    ck.space(&format!("units of an LQR problem {}", T::NAME), 256 * 9, |i| format!("A, B = {:?}, in every unit of cost, state and input", dec(i)), |i| {
        let (a, b) = dec(i);
        let (q, r) = (vec![vec![1.0, 0.5], vec![0.5, 4.0]], vec![vec![0.25]]);
        let make = |u: i32, k: i32, m: i32| Lqr::new(lm::<2, 2, T>(&a), lm::<2, 1, T>(&fscale(&b, p2(k - m))), lm::<2, 2, T>(&fscale(&q, p2(u - 2 * k))), lm::<1, 1, T>(&fscale(&r, p2(u - 2 * m))));
        let reference = friccati(&a, &b, &q, &r);
        let base = make(0, 0, 0);
        for u in us {
            for k in ks {
                for m in ms {
                    // squares of the costs have to be representable
                    if T::IS32 && (u - 2 * k).abs().max((u - 2 * m).abs()) > 40 {
                        continue;
                    }
                    let got = make(u, k, m);
                    op(1);
                    let Some((p, kk)) = &reference else {
                        if unreachable_growth(&a, &b) {
                            ensure!(got.is_err(), "an uncontrollable runaway system got an answer, cost x2^{u}, state x2^{k}, input x2^{m}");
                        }
                        continue;
                    };
                    let cl = fsub(&a, &fmul(&b, kk));
                    let rho = rho2(&cl);
                    let scale = fmax_abs(p).max(1.0);
                    if rho > 0.995 || base.is_err() || T::IS32 && scale > 2e3 {
                        continue;
                    }
                    let at = |e: String| format!("cost x2^{u}, state x2^{k}, input x2^{m}: {e}");
                    let got = got.map_err(|e| at(format!("refused: {e:?}")))?;
                    let tol = 2048.0 * T::EPS * scale / (1.0 - rho).powi(2) * (1.0 + fmax_abs(&a)).powi(2);
                    mclose(&fscale(&mm(&got.cost_to_go()), p2(2 * k - u)), p, tol, "cost-to-go").map_err(at)?;
                    let kt = tol * (1.0 + fmax_abs(&b)) * (1.0 + fmax_abs(&a)) / r[0][0] * 4.0;
                    mclose(&fscale(&mm(&got.gain()), p2(k - m)), kk, kt, "gain").map_err(at)?;
                    mclose(&mm(&got.closed_loop()), &cl, kt * (1.0 + 2.0 * fmax_abs(&b)), "closed loop").map_err(at)?;
                    let cert = mm(&got.certify_stability().map_err(|e| at(format!("a settling loop was not certified: {e:?}")))?);
                    let wc = flyap(&cl, &q).ok_or("reference")?;
                    mclose(&fscale(&cert, p2(2 * k - u)), &wc, (tol + kt) * 64.0 * fmax_abs(&wc) / (1.0 - rho), "certificate").map_err(at)?;
                }
            }
        }
        Ok(reference.map_or(0, |r| mh(&r.0)))
    });
    // a discretization: time and input units
    let ws: [i32; 4] = if T::IS32 { [-60, -20, 0, 40] } else { [-300, -60, 0, 200] };
    let az: &[f64] = &[-2.0, 0.0, 0.5, 1.0];
    let dec = move |i: u64| {
        let mut d = Dig(i);
        (d.pick(&us), d.pick(&ws), mat(&mut d, 2, 2, az), mat(&mut d, 2, 1, &[0.0, 1.0, -0.5]), d.pick(&[0.015625, 0.5, 2.0]))
    };
    ck.space(&format!("units of a discretization {}", T::NAME), 24 * 256 * 9 * 3, |i| format!("powers of two for input, time; A, B, step = {:?}", dec(i)), |i| {
        let (u, w, a, b, dt) = dec(i);
        let zero = |m: &M| m.iter().all(|r| r.iter().all(|x| *x == 0.0));
        let am = fscale(&a, p2(-w));
        let h: T = t(dt * p2(w));
        let (f0, g0) = zoh::<2, 1, 3, T>(lm(&a), lm(&b), t(dt)).map_err(|e| format!("{e:?}"))?;
        let (f, gm) = zoh::<2, 1, 3, T>(lm(&am), lm(&fscale(&b, p2(u - w))), h).map_err(|e| format!("{e:?}"))?;
        let tol = 512.0 * T::EPS * (1.0 + fmax_abs(&mm(&f0))) * (1.0 + 4.0 * dt);
        mclose(&mm(&f), &mm(&f0), tol, "F")?;
        mclose(&fscale(&mm(&gm), p2(-u)), &mm(&g0), tol * 4.0, "G")?;
        if zero(&b) {
            return Ok(0);
        }
        let q = vec![vec![b[0][0].abs() + 1.0, 0.25], vec![0.25, b[1][0].abs() + 0.5]];
        let (f0, q0) = van_loan::<2, 4, T>(lm(&a), lm(&q), t(dt)).map_err(|e| format!("{e:?}"))?;
        let (f, qm) = van_loan::<2, 4, T>(lm(&am), lm(&fscale(&q, p2(u - w))), h).map_err(|e| format!("{e:?}"))?;
        let inv = fmax_abs(&fexpm(&fscale(&a, -dt))).max(1.0);
        let tol = 1024.0 * T::EPS * (1.0 + fmax_abs(&mm(&f0))).powi(2) * inv * inv * (1.0 + 4.0 * dt);
        mclose(&mm(&f), &mm(&f0), tol, "F")?;
        mclose(&fscale(&mm(&qm), p2(-u)), &mm(&q0), tol * 8.0, "Q")?;
        Ok(mh(&mm(&q0)))
    });
}
fn refusals<T: Fl>(ck: &Ck) {
    // each argument spoiled in each way; the reported error must be one of those that apply
    let kinds = ["nan", "inf", "lopsided", "negative"];
    ck.space(&format!("Riccati refusals {}", T::NAME), 4 * 16 + 1, |i| format!("{:?}", (i, kinds[i as usize % 4])), |i| {
        let mut a = vec![vec![1.0, 0.1], vec![0.0, 1.0]];
        let mut b = vec![vec![0.0, 0.5], vec![0.1, 0.0]];
        let mut q = feye(2);
        let mut r = feye(2);
        let mut allowed: Vec<E> = vec![];
        if i < 64 {
            let (w, k) = (i as usize / 4, i as usize % 4);
            let (arg, e) = (w / 4, w % 4);
            let m = [&mut a, &mut b, &mut q, &mut r].into_iter().nth(arg).unwrap();
            match k {
                0 | 1 => {
                    m[e / 2][e % 2] = if k == 0 { f64::NAN } else { f64::INFINITY };
                    allowed.push(E::NonFinite);
                    if arg >= 2 {
                        allowed.push(E::NotSymmetric);
                    }
                }
                2 if arg >= 2 && (e == 1 || e == 2) => {
                    m[e / 2][e % 2] = 0.25;
                    allowed.push(E::NotSymmetric);
                }
                3 if arg == 3 && (e == 0 || e == 3) => {
                    m[e / 2][e % 2] = -1.0;
                    allowed.push(E::NotPositiveDefinite);
                }
                _ => return Ok(0),
            }
        }
        let res = solve_discrete_riccati::<2, 2, T>(lm(&a), lm(&b), lm(&q), lm(&r));
        verdict(res, &allowed, "solve_discrete_riccati")?;
        let res = Lqr::<2, 2, T>::new(lm(&a), lm(&b), lm(&q), lm(&r)).map_err(|e| match e {
            ControlError::Linalg(l) => l,
            o => {
                let _ = o;
                E::Underdetermined
            }
        });
        verdict(res, &allowed, "Lqr::new")?;
        if i < 64 {
            let (w, k) = (i as usize / 4, i as usize % 4);
            let arg = w / 4;
            if (arg == 0 || arg == 2) && k < 3 {
                verdict(solve_discrete_lyapunov::<2, T>(lm(&fscale(&a, 0.5)), lm(&q)), &allowed, "solve_discrete_lyapunov")?;
            }
        }
        Ok(allowed.len() as u64)
    });
    // a state cost blind to a direction that never moves: the loop does not settle or is not provable
    ck.space(&format!("uncertifiable loops {}", T::NAME), 3, |i| format!("case {i}"), |i| {
        let (a, b, q) = match i {
            0 => (vec![vec![0.5, 0.0], vec![0.0, 0.25]], vec![vec![1.0], vec![0.0]], vec![vec![1.0, 0.0], vec![0.0, 0.0]]),
            1 => (vec![vec![0.5, 0.0], vec![0.0, 0.25]], vec![vec![1.0], vec![0.0]], vec![vec![0.0, 0.0], vec![0.0, 0.0]]),
            _ => (vec![vec![0.5, 0.0], vec![0.0, 0.0]], vec![vec![1.0], vec![0.0]], vec![vec![1.0, 0.0], vec![0.0, 0.0]]),
        };
        let l = Lqr::<2, 1, T>::new(lm(&a), lm(&b), lm(&q), lm(&vec![vec![1.0]])).map_err(|e| format!("{e:?}"))?;
        let c = l.certify_stability();
        ensure!(matches!(c, Err(ControlError::Linalg(E::NotPositiveDefinite))), "certificate {c:?}");
        Ok(i)
    });
}

/// How many [`plant`]s there are of a size.
fn plants(n: usize) -> u64 {
    (4 * n * n * 4) as u64
}
/// Larger systems: integrator chain, decaying rotations, diffusion, companion; one entry changed anywhere.
fn plant(n: usize, d: &mut Dig) -> M {
    let base = d.n(4);
    let mut a: M = (0..n)
        .map(|i| {
            (0..n)
                .map(|j| match base {
                    0 => if i == j { 1.0 } else if j == i + 1 { 0.5 } else { 0.0 },
                    1 => if i == j { 0.5 } else if i / 2 == j / 2 { if j > i { -0.625 } else { 0.625 } } else { 0.0 },
                    2 => if i == j { 0.375 } else if i.abs_diff(j) == 1 { 0.25 } else { 0.0 },
                    _ => if j == i + 1 { 1.0 } else if i == n - 1 { -0.125 * ((j % 3) as f64 - 1.0) } else { 0.0 },
                })
                .collect()
        })
        .collect();
    let (p, q) = (d.n(n), d.n(n));
    a[p][q] += d.pick(&[0.0, 0.25, -0.5, -1.0]);
    a
}
fn cost(n: usize) -> M {
    (0..n).map(|i| (0..n).map(|j| if i == j { 1.0 + (i % 3) as f64 } else if i.abs_diff(j) == 1 { 0.25 } else { 0.0 }).collect()).collect()
}
fn inputs(n: usize, m: usize, w: usize) -> M {
    (0..n).map(|i| (0..m).map(|j| match w { 0 => if i + j + 1 == n { 1.0 } else { 0.0 }, _ => if (i + j) % m == 0 { 1.0 } else { -0.25 * j as f64 } }).collect()).collect()
}
/// spectral radius through a high power
fn rho(a: &M) -> f64 {
    let mut pw = a.clone();
    let mut e = 0.0;
    for _ in 0..9 {
        pw = fmul(&pw, &pw);
        let m = fmax_abs(&pw);
        if m == 0.0 || !m.is_finite() {
            return if m == 0.0 { 0.0 } else { f64::INFINITY };
        }
        pw = fscale(&pw, 1.0 / m);
        e = 2.0 * e + m.ln();
    }
    (e / 512.0).exp()
}
fn large<T: Fl>(ck: &Ck) {
    fn ex<T: Fl, const N: usize>(ck: &Ck) {
        let dec = move |i: u64| fscale(&wide(N, N, i / 2), [0.25, -0.5][i as usize % 2]);
        ck.space(&format!("wide expm {N}x{N} {}", T::NAME), wide_count(N, N) * 2, |i| format!("{:?}", dec(i)), |i| expm_case::<T, N>(&dec(i)));
    }
    ex::<T, 4>(ck);
    ex::<T, 5>(ck);
    ex::<T, 6>(ck);
    ex::<T, 8>(ck);
    fn hold<T: Fl, const N: usize, const C: usize, const NC: usize>(ck: &Ck) {
        let dts = [0.125, 0.5, 1.5];
        let dec = move |i: u64| {
            let mut d = Dig(i);
            let a = plant(N, &mut d);
            (a, inputs(N, C, d.n(2)), d.pick(&dts))
        };
        ck.space(&format!("wide zoh {N} states {C} inputs {}", T::NAME), plants(N) * 6, |i| format!("A, B, step = {:?}", dec(i)), |i| {
            let (a, b, dt) = dec(i);
            let (f, gm) = zoh::<N, C, NC, T>(lm(&a), lm(&b), t(dt)).map_err(|e| format!("{e:?}"))?;
            let wf = fexpm(&fscale(&a, dt));
            let wg = integral(dt, &|s| fmul(&fexpm(&fscale(&a, s)), &b));
            let tol = 128.0 * T::EPS * N as f64 * (1.0 + fmax_abs(&wf)) * (1.0 + 4.0 * dt);
            mclose(&mm(&f), &wf, tol, "F")?;
            mclose(&mm(&gm), &wg, tol * 4.0, "G")?;
            Ok(mh(&wg))
        });
    }
    hold::<T, 3, 2, 5>(ck);
    hold::<T, 4, 2, 6>(ck);
    hold::<T, 5, 3, 8>(ck);
    fn vl<T: Fl, const N: usize, const N2: usize>(ck: &Ck) {
        let dts = [0.125, 0.5, 1.5];
        let dec = move |i: u64| {
            let mut d = Dig(i);
            let a = plant(N, &mut d);
            let mut q = cost(N);
            if d.n(2) == 1 {
                q[0] = vec![0.0; N];
                for r in q.iter_mut() {
                    r[0] = 0.0;
                }
            }
            (a, q, d.pick(&dts))
        };
        ck.space(&format!("wide van_loan {N} states {}", T::NAME), plants(N) * 6, |i| format!("A, Q, step = {:?}", dec(i)), |i| {
            let (a, q, dt) = dec(i);
            let (f, qm) = van_loan::<N, N2, T>(lm(&a), lm(&q), t(dt)).map_err(|e| format!("{e:?}"))?;
            let wf = fexpm(&fscale(&a, dt));
            let wq = integral(dt, &|s| {
                let m = fexpm(&fscale(&a, s));
                fmul(&fmul(&m, &q), &ft(&m))
            });
            let inv = fmax_abs(&fexpm(&fscale(&a, -dt))).max(1.0);
            let tol = 256.0 * T::EPS * N as f64 * (1.0 + fmax_abs(&wf)).powi(2) * inv * inv * (1.0 + 4.0 * dt);
            mclose(&mm(&f), &wf, tol, "F")?;
            mclose(&mm(&qm), &wq, tol * 8.0, "Q")?;
            Ok(mh(&wq))
        });
    }
    vl::<T, 3, 6>(ck);
    vl::<T, 4, 8>(ck);
    vl::<T, 6, 12>(ck);
    fn ly<T: Fl, const N: usize>(ck: &Ck) {
        let dec = move |i: u64| plant(N, &mut Dig(i));
        ck.space(&format!("wide Lyapunov {N}x{N} {}", T::NAME), plants(N), |i| format!("A = {:?}", dec(i)), |i| {
            let a = dec(i);
            let q = cost(N);
            let r = rho(&a);
            let got = solve_discrete_lyapunov::<N, T>(lm(&a), lm(&q));
            if r > 0.93 {
                if r > 1.1 {
                    ensure!(matches!(got, Err(E::DidNotConverge { .. })), "a growing system was certified");
                }
                return Ok(0);
            }
            let p = mm(&got.map_err(|e| format!("refused: {e:?}"))?);
            let want = flyap(&a, &q).ok_or("reference failed")?;
            mclose(&p, &want, 512.0 * T::EPS * fmax_abs(&want) / (1.0 - r).powi(2), "solution")?;
            ensure!(p == ft(&p), "symmetry");
            Ok(mh(&want))
        });
    }
    ly::<T, 4>(ck);
    ly::<T, 5>(ck);
    fn lq<T: Fl, const N: usize, const C: usize>(ck: &Ck) {
        let dec = move |i: u64| {
            let mut d = Dig(i);
            let a = plant(N, &mut d);
            let b = inputs(N, C, d.n(2));
            let r0 = d.pick(&[0.25, 1.0, 16.0]);
            let r: M = (0..C).map(|r| (0..C).map(|c| if r == c { r0 * (1.0 + r as f64) } else { 0.125 }).collect()).collect();
            (a, b, r)
        };
        ck.space(&format!("wide LQR {N} states {C} inputs {}", T::NAME), plants(N) * 6, |i| format!("A, B, R = {:?}", dec(i)), |i| {
            let (a, b, r) = dec(i);
            let q = cost(N);
            let Some((p, kk)) = friccati(&a, &b, &q, &r) else { return Ok(0) };
            let cl = fsub(&a, &fmul(&b, &kk));
            let rh = rho(&cl);
            let scale = fmax_abs(&p).max(1.0);
            if rh > 0.97 || scale > if T::IS32 { 500.0 } else { 1e6 } {
                return Ok(1);
            }
            let x = solve_discrete_riccati(lm::<N, N, T>(&a), lm::<N, C, T>(&b), lm::<N, N, T>(&q), lm::<C, C, T>(&r)).map_err(|e| format!("refused: {e:?}"))?;
            let lqr = Lqr::new(lm::<N, N, T>(&a), lm::<N, C, T>(&b), lm::<N, N, T>(&q), lm::<C, C, T>(&r)).map_err(|e| format!("refused: {e:?}"))?;
            let got = mm(&x);
            let tol = 1024.0 * N as f64 * T::EPS * scale / (1.0 - rh).powi(2) * (1.0 + fmax_abs(&a)).powi(2);
            mclose(&got, &p, tol, "cost-to-go")?;
            ensure!(got == ft(&got), "symmetry of the cost-to-go");
            mclose(&mm(&lqr.cost_to_go()), &got, 0.0, "Lqr::cost_to_go")?;
            let kt = tol * (1.0 + fmax_abs(&b)) * (1.0 + fmax_abs(&a)) / r[0][0] * 4.0;
            let gk = mm(&lqr.gain());
            mclose(&gk, &kk, kt, "gain")?;
            mclose(&mm(&lqr.closed_loop()), &cl, kt * (1.0 + 2.0 * fmax_abs(&b)), "closed loop")?;
            let s: Vec<f64> = (0..N).map(|k| 3.0 - 1.5 * k as f64).collect();
            let rf_: Vec<f64> = (0..N).map(|k| if k % 2 == 0 { 1.0 } else { -2.0 }).collect();
            let ff: Vec<f64> = (0..C).map(|k| 0.5 + k as f64).collect();
            let kb = 32.0 * N as f64 * T::EPS * (1.0 + fmax_abs(&gk)) * 10.0;
            let want: Vec<f64> = fmv(&gk, &s).iter().map(|x| -x).collect();
            vclose(&vv(&lqr.control(lv::<N, T>(&s))), &want, kb, "control")?;
            let e: Vec<f64> = s.iter().zip(&rf_).map(|(x, y)| x - y).collect();
            let want: Vec<f64> = fmv(&gk, &e).iter().zip(&ff).map(|(x, f)| f - x).collect();
            vclose(&vv(&lqr.control_tracking(lv::<N, T>(&s), lv::<N, T>(&rf_), lv::<C, T>(&ff))), &want, kb, "control_tracking")?;
            let cert = mm(&lqr.certify_stability().map_err(|e| format!("a settling loop was not certified: {e:?}"))?);
            let wc = flyap(&cl, &q).ok_or("reference")?;
            mclose(&cert, &wc, (tol + kt) * 64.0 * fmax_abs(&wc) / (1.0 - rh), "certificate")?;
            Ok(mh(&p))
        });
    }
    lq::<T, 3, 1>(ck);
    lq::<T, 3, 2>(ck);
    lq::<T, 4, 3>(ck);
    lq::<T, 6, 2>(ck);
}

fn main() {
    let ck = Ck::new("C09");
    fn all<T: Fl>(ck: &Ck) {
        expms::<T>(ck);
        discretize::<T>(ck);
        lyapunov::<T>(ck);
        riccati::<T, 1>(ck, "2 states 1 input", ck.q(&[-1.0, 0.0, 0.5, 1.25], &[-1.0, 0.0, 0.5, 1.0, 1.25]), &[-0.5, 0.0, 1.0]);
        riccati::<T, 2>(ck, "2 states 2 inputs", &[0.0, -0.75, 1.25], &[0.0, 1.0]);
        units::<T>(ck);
        large::<T>(ck);
        refusals::<T>(ck);
    }
    all::<f64>(&ck);
    all::<f32>(&ck);
    expm_dual(&ck);
    ck.finish();
}
