//! C06: vector and matrix algebra against exact integer arithmetic.
use mc::la::*;
use mc::num::*;
use mc::refmodel::*;
use mc::*;
use multicalc::linear_algebra::{Matrix, Vector};
use multicalc::{matrix, vector};

/// distinct primes with signs: entry (i,j) can be told from every other one
const P: [f64; 36] = [
    2., -3., 5., 7., -11., 13., 17., 19., -23., 29., -31., 37., 41., 43., -47., 53., 59., -61., 67., 71., 73., -79., 83., 89.,
    -97., 101., 103., 107., -109., 113., 127., -131., 137., 139., 149., 151.,
];

fn mat<const R: usize, const C: usize>(d: &mut Dig, al: &[f64]) -> M {
    (0..R).map(|_| (0..C).map(|_| d.pick(al)).collect()).collect()
}

fn products<T: Fl, const A: usize, const B: usize, const C: usize>(ck: &Ck, al: &'static [f64]) {
    let n = (al.len() as u64).pow((A * B + B * C) as u32);
    let dec = move |i: u64| {
        let mut d = Dig(i);
        (mat::<A, B>(&mut d, al), mat::<B, C>(&mut d, al))
    };
    products_space::<T, A, B, C>(ck, "", n, dec);
}
/// Larger factors: one entry and one row of a base changed in either.
fn products_large<T: Fl, const A: usize, const B: usize, const C: usize>(ck: &Ck) {
    let (na, nb) = (wide_count(A, B), wide_count(B, C));
    // every left factor with 16 right ones, and the other way about
    let dec = move |i: u64| {
        let (k, j) = (i / 16, i % 16);
        if k < na { (wide(A, B, k), wide(B, C, (j * 7919 + 5) % nb)) } else { (wide(A, B, (j * 7919 + 5) % na), wide(B, C, k - na)) }
    };
    products_space::<T, A, B, C>(ck, "wide ", (na + nb) * 16, dec);
}
fn products_space<T: Fl, const A: usize, const B: usize, const C: usize>(ck: &Ck, what: &str, n: u64, dec: impl Fn(u64) -> (M, M) + Sync + Copy) {
    ck.space(&format!("{what}product {A}x{B} by {B}x{C} {}", T::NAME), n, |i| format!("{:?}", dec(i)), |i| {
        let (a, b) = dec(i);
        let r = lm::<A, B, T>(&a) * lm::<B, C, T>(&b);
        let want = fmul(&a, &b);
        mclose(&mm(&r), &want, 0.0, "A*B")?;
        for c in 0..C {
            let v: Vec<f64> = b.iter().map(|r| r[c]).collect();
            let got = lm::<A, B, T>(&a) * lv::<B, T>(&v);
            vclose(&vv(&got), &fmv(&a, &v), 0.0, "A*v")?;
        }
        // (AB)^T = B^T A^T
        let t = lm::<B, C, T>(&b).transpose() * lm::<A, B, T>(&a).transpose();
        mclose(&mm(&t), &ft(&want), 0.0, "BT*AT")?;
        Ok(mh(&want))
    });
}

fn unary<T: Fl, const R: usize, const C: usize>(ck: &Ck, al: &'static [f64]) {
    let n = (al.len() as u64).pow((R * C) as u32);
    unary_space::<T, R, C>(ck, "", n, move |i: u64| mat::<R, C>(&mut Dig(i), al));
}
fn unary_large<T: Fl, const R: usize, const C: usize>(ck: &Ck) {
    unary_space::<T, R, C>(ck, "wide ", wide_count(R, C), move |i| wide(R, C, i));
}
fn unary_space<T: Fl, const R: usize, const C: usize>(ck: &Ck, what: &str, n: u64, dec: impl Fn(u64) -> M + Sync + Copy) {
    let pb: M = (0..R).map(|i| (0..C).map(|j| P[(i * C + j) % 36] + ((i * C + j) / 36 * 200) as f64).collect()).collect();
    ck.space(&format!("{what}entrywise {R}x{C} {}", T::NAME), n, |i| format!("{:?}", dec(i)), |i| {
        let a = dec(i);
        let x = lm::<R, C, T>(&a);
        let b = lm::<R, C, T>(&pb);
        mclose(&mm(&x), &a, 0.0, "round trip")?;
        mclose(&mm(&(x + b)), &fadd(&a, &pb), 0.0, "A+B")?;
        mclose(&mm(&(x - b)), &fsub(&a, &pb), 0.0, "A-B")?;
        let mut y = x;
        y += b;
        mclose(&mm(&y), &fadd(&a, &pb), 0.0, "A+=B")?;
        let mut y = x;
        y -= b;
        mclose(&mm(&y), &fsub(&a, &pb), 0.0, "A-=B")?;
        mclose(&mm(&(-x)), &fscale(&a, -1.0), 0.0, "-A")?;
        mclose(&mm(&(x * t::<T>(-3.0))), &fscale(&a, -3.0), 0.0, "A*s")?;
        mclose(&mm(&x.scale(t::<T>(0.5))), &fscale(&a, 0.5), 0.0, "A.scale")?;
        mclose(&mm(&(x / t::<T>(4.0))), &fscale(&a, 0.25), 0.0, "A/s")?;
        let z = x / t::<T>(0.0);
        for r in 0..R {
            for c in 0..C {
                let want = if a[r][c] > 0.0 { f64::INFINITY } else if a[r][c] < 0.0 { f64::NEG_INFINITY } else { f64::NAN };
                ensure_close!(g(z[(r, c)]), want, 0.0, 0.0, "A/0 entry ({r},{c})");
            }
        }
        mclose(&mm(&x.transpose()), &ft(&a), 0.0, "transpose")?;
        let fr: f64 = a.concat().iter().map(|v| v * v).sum::<f64>().sqrt();
        ensure_close!(g(x.frobenius_norm()), fr, 4.0 * T::EPS, 0.0, "frobenius norm");
        mclose(&mm(&(x + Matrix::<R, C, T>::zeros())), &a, 0.0, "A+0")?;
        // element access
        for r in 0..R + 2 {
            for c in 0..C + 2 {
                let want = if r < R && c < C { Some(a[r][c]) } else { None };
                ensure_eq!(x.get(r, c).map(|v| g(*v)), want, "get({r},{c})");
                let mut y = x;
                let hit = match y.get_mut(r, c) {
                    Some(e) => {
                        *e = t::<T>(99.0);
                        true
                    }
                    None => false,
                };
                ensure_eq!(hit, want.is_some(), "get_mut({r},{c})");
                let mut w = a.clone();
                if hit {
                    w[r][c] = 99.0;
                }
                mclose(&mm(&y), &w, 0.0, "write through get_mut")?;
                if hit {
                    let mut y = x;
                    y[(r, c)] = t::<T>(99.0);
                    mclose(&mm(&y), &w, 0.0, "write through index")?;
                    let mut y = x;
                    y.as_mut_slice_rows()[r][c] = t::<T>(99.0);
                    mclose(&mm(&y), &w, 0.0, "write through as_mut_slice_rows")?;
                    ensure!(y != x || a[r][c] == 99.0, "matrices that differ compare equal");
                }
            }
            ensure_eq!(x.try_row(r).map(|v| vv(&v)), a.get(r).cloned(), "try_row({r})");
        }
        for c in 0..C + 2 {
            let want = if c < C { Some(a.iter().map(|r| r[c]).collect::<Vec<_>>()) } else { None };
            ensure_eq!(x.try_column(c).map(|v| vv(&v)), want, "try_column({c})");
        }
        let flat: Vec<T> = a.concat().iter().map(|v| t(*v)).collect();
        for len in 0..=R * C + 2 {
            let s: Vec<T> = (0..len).map(|k| flat.get(k).copied().unwrap_or(T::ONE)).collect();
            let got = Matrix::<R, C, T>::try_from_row_slice(&s);
            ensure_eq!(got.is_some(), len == R * C, "try_from_row_slice of length {len}");
            if let Some(m) = got {
                mclose(&mm(&m), &a, 0.0, "try_from_row_slice")?;
            }
        }
        let arr: [[T; C]; R] = x.into_array();
        ensure!(Matrix::from(arr) == x && Matrix::new(*x.as_slice_rows()) == x, "array round trip");
        let ff = Matrix::<R, C, T>::from_fn(|r, c| t(a[r][c]));
        ensure!(ff == x, "from_fn");
        Ok(mh(&a))
    });
}

fn square<T: Fl, const N: usize>(ck: &Ck, al: &'static [f64]) {
    let n = (al.len() as u64).pow((N * N) as u32);
    square_space::<T, N>(ck, "", n, move |i: u64| mat::<N, N>(&mut Dig(i), al));
}
fn square_large<T: Fl, const N: usize>(ck: &Ck) {
    square_space::<T, N>(ck, "wide ", wide_count(N, N) * 2, move |i| {
        let a = wide(N, N, i / 2);
        if i % 2 == 0 { a } else { fadd(&a, &ft(&a)) }
    });
}
fn square_space<T: Fl, const N: usize>(ck: &Ck, what: &str, n: u64, dec: impl Fn(u64) -> M + Sync + Copy) {
    ck.space(&format!("{what}square {N}x{N} {}", T::NAME), n, |i| format!("{:?}", dec(i)), |i| {
        let a = dec(i);
        let x = lm::<N, N, T>(&a);
        ensure_eq!(g(x.trace()), (0..N).map(|k| a[k][k]).sum::<f64>(), "trace");
        ensure_eq!(ga(x.diagonal()).to_vec(), (0..N).map(|k| a[k][k]).collect::<Vec<_>>(), "diagonal");
        let d = Matrix::<N, N, T>::from_diagonal(x.diagonal());
        let mut wd = vec![vec![0.0; N]; N];
        for k in 0..N {
            wd[k][k] = a[k][k];
        }
        mclose(&mm(&d), &wd, 0.0, "from_diagonal")?;
        ensure!(x * Matrix::<N, N, T>::identity() == x && Matrix::<N, N, T>::identity() * x == x, "identity");
        let sym = a == ft(&a);
        ensure_eq!(x.is_symmetric(), sym, "is_symmetric");
        let want = fscale(&fadd(&a, &ft(&a)), 0.5);
        mclose(&mm(&x.symmetrized()), &want, 0.0, "symmetrized")?;
        // power of a product through repeated multiplication
        mclose(&mm(&(x * x * x)), &fmul(&fmul(&a, &a), &a), 0.0, "A*A*A")?;
        Ok(mh(&a))
    });
}

fn specials<T: Fl>(ck: &Ck) {
    let sp: [f64; 6] = [1.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MAX, -0.0];
    let n = 6u64.pow(6);
    let dec = move |i: u64| mat::<2, 3>(&mut Dig(i), &sp);
    ck.space(&format!("finiteness 2x3 {}", T::NAME), n, |i| format!("{:?}", dec(i)), |i| {
        let a = dec(i);
        // f64::MAX is infinite in f32
        let fin = a.concat().iter().all(|v| if T::IS32 { (*v as f32).is_finite() } else { v.is_finite() });
        ensure_eq!(lm::<2, 3, T>(&a).is_finite(), fin, "matrix is_finite");
        ensure_eq!(lv::<6, T>(&a.concat()).is_finite(), fin, "vector is_finite");
        Ok(fin as u64)
    });
    // symmetry tolerance: "agree to within rounding": a pair apart by a few ulps is symmetric, a pair
    // apart by a thousandth of the scale is not
    let scales: [f64; 7] = [0.0, 0.125, 1.0, 8.0, 1e6, -1e6, -1.0];
    let rel: [f64; 6] = [0.0, 1.0, 2.0, 1e5, -1.0, -1e5];
    ck.space(&format!("symmetry tolerance {}", T::NAME), (scales.len() * rel.len() * 6) as u64, |i| {
        let mut d = Dig(i);
        format!("scale {:?} ulps {:?} position {}", d.pick(&scales), d.pick(&rel), d.n(6))
    }, |i| {
        let mut d = Dig(i);
        let (s, r, p) = (d.pick(&scales), d.pick(&rel), d.n(6));
        let (row, c) = [(0, 1), (1, 0), (0, 2), (2, 0), (1, 2), (2, 1)][p];
        let mut x = Matrix::<3, 3, T>::from_fn(|i, j| t(if i == j { i as f64 } else { 0.0 }));
        let sc = s.abs().max(1.0);
        x[(row, c)] = t(s + r * T::EPS * sc);
        x[(c, row)] = t(s);
        let want = r.abs() < 10.0;
        ensure_eq!(x.is_symmetric(), want, "is_symmetric");
        let y = x.symmetrized();
        ensure!(y[(row, c)] == y[(c, row)], "symmetrized halves differ");
        ensure_close!(g(y[(c, row)]), s + 0.5 * r * T::EPS * sc, 0.0, 2.0 * T::EPS * sc, "symmetrized");
        Ok(want as u64)
    });
}

fn vectors<T: Fl, const N: usize>(ck: &Ck, al: &'static [f64]) {
    let n = (al.len() as u64).pow(2 * N as u32);
    vectors_space::<T, N>(ck, "", n, move |i: u64| {
        let mut d = Dig(i);
        (d.arr::<N, f64>(al), d.arr::<N, f64>(al))
    });
}
/// Longer vectors: ramps with one entry of each replaced.
fn vectors_large<T: Fl, const N: usize>(ck: &Ck) {
    vectors_space::<T, N>(ck, "wide ", (N * N * 25) as u64, move |i: u64| {
        let mut d = Dig(i);
        let mut a: [f64; N] = std::array::from_fn(|k| k as f64 - 3.0);
        let mut b: [f64; N] = std::array::from_fn(|k| if k % 3 == 0 { -2.0 } else { 1.0 + k as f64 });
        a[d.n(N)] = d.pick(&[0.0, -1.0, 5.0, 11.0, -20.0]);
        b[d.n(N)] = d.pick(&[0.0, -1.0, 5.0, 11.0, -20.0]);
        (a, b)
    });
}
fn vectors_space<T: Fl, const N: usize>(ck: &Ck, what: &str, n: u64, dec: impl Fn(u64) -> ([f64; N], [f64; N]) + Sync + Copy) {
    ck.space(&format!("{what}vectors {N} {}", T::NAME), n, |i| format!("{:?}", dec(i)), |i| {
        let (a, b) = dec(i);
        let (x, y) = (lv::<N, T>(&a), lv::<N, T>(&b));
        let z = |f: &dyn Fn(usize) -> f64| -> Vec<f64> { (0..N).map(f).collect() };
        vclose(&vv(&(x + y)), &z(&|k| a[k] + b[k]), 0.0, "a+b")?;
        vclose(&vv(&(x - y)), &z(&|k| a[k] - b[k]), 0.0, "a-b")?;
        vclose(&vv(&(-x)), &z(&|k| -a[k]), 0.0, "-a")?;
        vclose(&vv(&(x * t::<T>(-3.0))), &z(&|k| -3.0 * a[k]), 0.0, "a*s")?;
        vclose(&vv(&(x.scale(t::<T>(5.0)))), &z(&|k| 5.0 * a[k]), 0.0, "a.scale")?;
        vclose(&vv(&(x / t::<T>(-2.0))), &z(&|k| a[k] / -2.0), 0.0, "a/s")?;
        let mut w = x;
        w += y;
        vclose(&vv(&w), &z(&|k| a[k] + b[k]), 0.0, "a+=b")?;
        let mut w = x;
        w -= y;
        vclose(&vv(&w), &z(&|k| a[k] - b[k]), 0.0, "a-=b")?;
        ensure_eq!(g(x.dot(y)), fdot(&a, &b), "dot");
        let ns = fdot(&a, &a);
        ensure_eq!(g(x.norm_squared()), ns, "norm_squared");
        ensure_close!(g(x.norm()), ns.sqrt(), 2.0 * T::EPS, 0.0, "norm");
        let unit = z(&|k| a[k] / ns.sqrt());
        let tn = x.try_normalized();
        let mut q = x;
        let r = q.try_normalize();
        ensure_eq!(tn.is_some(), ns > 0.0, "try_normalized");
        ensure_eq!(r.is_some(), ns > 0.0, "try_normalize");
        if ns > 0.0 {
            vclose(&vv(&tn.unwrap()), &unit, 8.0 * T::EPS, "try_normalized")?;
            vclose(&vv(&q), &unit, 8.0 * T::EPS, "try_normalize")?;
            vclose(&vv(&x.normalized()), &unit, 8.0 * T::EPS, "normalized")?;
            let mut q = x;
            q.normalize();
            vclose(&vv(&q), &unit, 8.0 * T::EPS, "normalize")?;
        } else {
            vclose(&vv(&q), &a, 0.0, "a refused try_normalize changed the vector")?;
        }
        vclose(&vv(&x.map(|v| v * v)), &z(&|k| a[k] * a[k]), 0.0, "map")?;
        for k in 0..N + 2 {
            ensure_eq!(x.get(k).map(|v| g(*v)), a.get(k).copied(), "get({k})");
            let mut q = x;
            ensure_eq!(q.get_mut(k).is_some(), k < N, "get_mut({k})");
            if k < N {
                q[k] = t(77.0);
                vclose(&vv(&q), &z(&|j| if j == k { 77.0 } else { a[j] }), 0.0, "index write")?;
            }
            let s: Vec<T> = (0..k).map(|j| if j < N { x[j] } else { T::ONE }).collect();
            let got = Vector::<N, T>::try_from_slice(&s);
            ensure_eq!(got.map(|v| vv(&v)), if k == N { Some(a.to_vec()) } else { None }, "try_from_slice length {k}");
        }
        ensure!(Vector::from(x.into_array()) == x && Vector::new(*x.as_array()) == x && x.as_slice() == x.as_array(), "array round trip");
        Ok(hf(&a) ^ hf(&b))
    });
}

/// Unit vectors of entries across the whole range of the scalar: the direction is known however
/// far the squares leave the range, and a zero, infinite or NaN vector has none.
fn unit_extremes<T: Fl, const N: usize>(ck: &Ck) {
    let (tiny, small, sml, big, huge) = if T::EPS > 1e-10 {
        (1e-44, 2e-38, 3e-22, 4e25, 3.3e38)
    } else {
        (1e-322, 3e-308, 3e-170, 4e180, 1.7e308)
    };
    let al = [0.0, -0.0, 1.0, -3.0, tiny, -small, sml, big, -huge, f64::INFINITY, f64::NAN];
    let dec = move |i: u64| Dig(i).arr::<N, f64>(&al);
    ck.space(&format!("unit_extremes {N} {}", T::NAME), (al.len() as u64).pow(N as u32), |i| format!("{:?}", dec(i)), |i| {
        let a = dec(i);
        let x = lv::<N, T>(&a);
        // what the scalar type stores
        let stored: Vec<f64> = vv(&x);
        let largest = stored.iter().fold(0.0f64, |m, v| m.max(v.abs()));
        let sound = largest > 0.0 && stored.iter().all(|v| v.is_finite());
        let got = x.try_normalized();
        let mut q = x;
        let changed = q.try_normalize();
        ensure_eq!(got.is_some(), sound, "try_normalized");
        ensure_eq!(changed.is_some(), sound, "try_normalize");
        if let Some(unit) = got {
            // dividing a subnormal by another is exact enough in f64; scale first for the f64 range
            let s: Vec<f64> = stored.iter().map(|v| v / largest).collect();
            let n = fdot(&s, &s).sqrt();
            let want: Vec<f64> = s.iter().map(|v| v / n).collect();
            for k in 0..N {
                ensure_close!(g(unit[k]), want[k], 8.0 * T::EPS, if T::EPS > 1e-10 { 1e-44 } else { 1e-322 }, "entry {k}");
                ensure_close!(g(q[k]), want[k], 8.0 * T::EPS, if T::EPS > 1e-10 { 1e-44 } else { 1e-322 }, "entry {k} in place");
            }
        } else {
            for k in 0..N {
                ensure!(g(q[k]).to_bits() == stored[k].to_bits() || stored[k].is_nan(), "a refused try_normalize changed the vector");
            }
        }
        Ok(h64(&stored.iter().map(|v| v.to_bits()).collect::<Vec<_>>()))
    });
}

fn cross<T: Fl>(ck: &Ck) {
    let al: &[f64] = &[-2.0, 0.0, 3.0];
    let n = 3u64.pow(9);
    let dec = move |i: u64| {
        let mut d = Dig(i);
        [d.arr::<3, f64>(al), d.arr::<3, f64>(al), d.arr::<3, f64>(al)]
    };
    ck.space(&format!("cross and triple products {}", T::NAME), n, |i| format!("{:?}", dec(i)), |i| {
        let [a, b, c] = dec(i);
        let (x, y, z) = (lv::<3, T>(&a), lv::<3, T>(&b), lv::<3, T>(&c));
        vclose(&vv(&x.cross(y)), &fcross(&a, &b), 0.0, "cross")?;
        ensure_eq!(g(x.scalar_triple(y, z)), fdot(&a, &fcross(&b, &c)), "scalar triple");
        let (p, q) = (Vector::<2, T>::new([x[0], x[1]]), Vector::<2, T>::new([y[0], y[1]]));
        ensure_eq!(g(p.cross(q)), a[0] * b[1] - a[1] * b[0], "2-D cross");
        Ok(hf(&fcross(&a, &b)))
    });
}

fn macros(ck: &Ck) {
    let al: &[f64] = &[-1.0, 0.5, 4.0];
    ck.space("literal macros", 3u64.pow(6), |i| format!("{:?}", Dig(i).arr::<6, f64>(al)), |i| {
        let e = Dig(i).arr::<6, f64>(al);
        let [a, b, c, d, f, h] = e;
        ensure!(matrix![[a, b, c], [d, f, h]] == Matrix::new([[a, b, c], [d, f, h]]), "matrix rows");
        ensure!(matrix![[a, b], [c, d], [f, h],] == Matrix::new([[a, b], [c, d], [f, h]]), "matrix rows with trailing comma");
        ensure!(matrix![[a, b]; 3] == Matrix::new([[a, b], [a, b], [a, b]]), "repeated row");
        ensure!(matrix![[a; 2]; 3] == Matrix::new([[a; 2]; 3]), "repeated entry");
        ensure!(vector![a, b, c] == Vector::new([a, b, c]) && vector![a; 4] == Vector::new([a; 4]), "vector literal");
        // documented: M Mᵀ plus a quarter on the diagonal
        let s = Matrix::<2, 2>::symmetric_positive_definite(&e[..4]);
        let m = vec![vec![a, b], vec![c, d]];
        mclose(&mm(&s), &fadd(&fmul(&m, &ft(&m)), &fscale(&feye(2), 0.25)), 1e-12, "symmetric_positive_definite")?;
        Ok(hf(&e))
    });
}

fn all<T: Fl>(ck: &Ck) {
    products::<T, 2, 3, 2>(ck, &[-1.0, 0.0, 2.0]);
    products::<T, 1, 3, 3>(ck, &[-1.0, 0.0, 3.0]);
    products::<T, 3, 1, 2>(ck, &[-1.0, 0.0, 2.0, 5.0]);
    products::<T, 2, 2, 2>(ck, &[-2.0, 0.0, 1.0]);
    products::<T, 4, 2, 1>(ck, &[-1.0, 2.0]);
    unary::<T, 2, 3>(ck, ck.q(&[-2.0, 0.0, 1.0], &[-2.0, 0.0, 1.0, 6.0, -9.0]));
    unary::<T, 3, 1>(ck, &[-2.0, 0.0, 1.0, 5.0]);
    unary::<T, 1, 4>(ck, &[-2.0, 0.0, 1.0, 5.0]);
    square::<T, 1>(ck, &[-2.0, 0.0, 1.0, 3.0]);
    square::<T, 2>(ck, &[-2.0, 0.0, 1.0, 3.0]);
    square::<T, 3>(ck, ck.q(&[-1.0, 0.0, 2.0], &[-2.0, 0.0, 1.0, 3.0]));
    square::<T, 4>(ck, ck.q(&[0.0, 3.0], &[0.0, 3.0, -2.0]));
    vectors::<T, 1>(ck, &[-3.0, -1.0, 0.0, 1.0, 4.0]);
    vectors::<T, 2>(ck, &[-3.0, -1.0, 0.0, 1.0, 4.0]);
    vectors::<T, 3>(ck, &[-3.0, 0.0, 1.0, 4.0]);
    vectors::<T, 4>(ck, &[-3.0, 0.0, 1.0, 4.0]);
    products_large::<T, 5, 6, 7>(ck);
    products_large::<T, 8, 8, 8>(ck);
    products_large::<T, 3, 9, 4>(ck);
    products_large::<T, 12, 3, 5>(ck);
    unary_large::<T, 5, 5>(ck);
    unary_large::<T, 8, 8>(ck);
    unary_large::<T, 4, 9>(ck);
    unary_large::<T, 12, 3>(ck);
    square_large::<T, 5>(ck);
    square_large::<T, 6>(ck);
    square_large::<T, 8>(ck);
    square_large::<T, 9>(ck);
    square_large::<T, 12>(ck);
    vectors_large::<T, 5>(ck);
    vectors_large::<T, 7>(ck);
    vectors_large::<T, 8>(ck);
    vectors_large::<T, 9>(ck);
    vectors_large::<T, 16>(ck);
    vectors_large::<T, 17>(ck);
    unit_extremes::<T, 1>(ck);
    unit_extremes::<T, 2>(ck);
    unit_extremes::<T, 3>(ck);
    unit_extremes::<T, 4>(ck);
    vectors::<T, 6>(ck, &[0.0, -2.0]);
    specials::<T>(ck);
    cross::<T>(ck);
}

fn main() {
    let ck = Ck::new("C06");
    all::<f64>(&ck);
    all::<f32>(&ck);
    macros(&ck);
    ck.assume("entries come from small integer alphabets, so the expected results are exact in both precisions");
    ck.finish();
}
