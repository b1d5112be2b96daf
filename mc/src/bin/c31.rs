//! C31: minimum-snap plans are the unique smoothest path through their waypoints.
use mc::num::*;
use mc::refmodel::*;
use mc::*;
use multicalc::error::MotionError as E;
use multicalc::linear_algebra::Vector;
use multicalc::motion::*;

fn rd<T: Fl>(x: f64) -> f64 {
    g(t::<T>(x))
}
/// velocity, acceleration, jerk of one axis at the two ends
#[derive(Clone, Copy, Debug, PartialEq)]
struct Ends {
    s: [f64; 3],
    e: [f64; 3],
}
const REST: Ends = Ends { s: [0.0; 3], e: [0.0; 3] };
fn falling(k: usize, d: usize) -> f64 {
    (0..d).map(|i| k as f64 - i as f64).product::<f64>()
}
/// Reference for one axis: the optimality conditions of the variational problem, written against
/// polynomial coefficients on each segment's own clock, with time in units of the mean duration:
/// every join is continuous up to the sixth derivative. Returns coefficients on the 0-to-1 clock.
fn reference(w: &[Vec<f64>], ends: &[Ends], dur: &[f64]) -> Vec<Vec<[f64; 8]>> {
    let n = dur.len();
    let mean = dur.iter().sum::<f64>() / n as f64;
    let tau: Vec<f64> = dur.iter().map(|x| x / mean).collect();
    let dim = w[0].len();
    let mut a = vec![];
    let mut b: M = vec![];
    // derivative k of segment s at its start or end, in mean-duration units
    let row = |s: usize, end: bool, k: usize, sign: f64, r: &mut Vec<f64>| {
        for c in 0..8 {
            let v = if end { falling(c, k) } else if c == k { falling(c, k) } else { 0.0 };
            r[8 * s + c] += sign * v / tau[s].powi(k as i32);
        }
    };
    let mut push = |r: Vec<f64>, rhs: Vec<f64>| {
        let m = r.iter().fold(0.0f64, |x, y| x.max(y.abs()));
        a.push(r.iter().map(|x| x / m).collect::<Vec<f64>>());
        b.push(rhs.iter().map(|x| x / m).collect());
    };
    for s in 0..n {
        for (end, p) in [(false, s), (true, s + 1)] {
            let mut r = vec![0.0; 8 * n];
            row(s, end, 0, 1.0, &mut r);
            push(r, w[p].clone());
        }
    }
    for k in 1..=3 {
        let mut r = vec![0.0; 8 * n];
        row(0, false, k, 1.0, &mut r);
        push(r, (0..dim).map(|i| ends[i].s[k - 1] * mean.powi(k as i32)).collect());
        let mut r = vec![0.0; 8 * n];
        row(n - 1, true, k, 1.0, &mut r);
        push(r, (0..dim).map(|i| ends[i].e[k - 1] * mean.powi(k as i32)).collect());
    }
    for s in 1..n {
        for k in 1..=6 {
            let mut r = vec![0.0; 8 * n];
            row(s - 1, true, k, 1.0, &mut r);
            row(s, false, k, -1.0, &mut r);
            push(r, vec![0.0; dim]);
        }
    }
    let x = fsolve(&a, &b).expect("the variational problem has one solution");
    (0..dim).map(|d| (0..n).map(|s| std::array::from_fn(|c| x[8 * s + c][d])).collect()).collect()
}
fn bounds<const D: usize, T: Fl>(v: &[[f64; 3]]) -> BoundaryDerivatives<D, T> {
    let at = |k: usize| Vector::from_fn(|i| t(v[i][k]));
    BoundaryDerivatives { velocity: at(0), acceleration: at(1), jerk: at(2) }
}
fn pts<const D: usize, T: Fl>(w: &[Vec<f64>]) -> Vec<Vector<D, T>> {
    w.iter().map(|p| Vector::from_fn(|i| t(p[i]))).collect()
}
/// Plans with the given capacities and holds the plan against the optimality conditions
fn plan<const S: usize, const F: usize, const D: usize, T: Fl>(w: &[Vec<f64>], ends: &[Ends], dur: &[f64]) -> Result<u64, String> {
    let w: Vec<Vec<f64>> = w.iter().map(|p| p.iter().map(|x| rd::<T>(*x)).collect()).collect();
    let ends: Vec<Ends> = ends.iter().map(|e| Ends { s: e.s.map(rd::<T>), e: e.e.map(rd::<T>) }).collect();
    let dur: Vec<f64> = dur.iter().map(|x| rd::<T>(*x)).collect();
    let what = || format!("through {w:?} in {dur:?} with {ends:?} (room for {S} segments, {F} derivatives)");
    let (st, en): (Vec<_>, Vec<_>) = ends.iter().map(|e| (e.s, e.e)).unzip();
    let mut planner = MinimumSnapPlanner::<S, F, D, T>::new();
    if ends.iter().any(|e| *e != REST) {
        planner = planner.with_start(bounds(&st)).with_end(bounds(&en));
    }
    let ds: Vec<T> = dur.iter().map(|x| t(*x)).collect();
    op(1);
    let path = planner.plan(&pts(&w), &ds).map_err(|e| format!("refused {e:?}: {}", what()))?;
    let n = dur.len();
    ensure_eq!(path.piece_count(), n, "pieces, {}", what());
    for s in 0..n {
        ensure_eq!(path.span(s).map(g), Some(dur[s]), "span {s}, {}", what());
    }
    let r = reference(&w, &ends, &dur);
    let (lo, hi) = dur.iter().fold((f64::MAX, 0.0f64), |(l, h), x| (l.min(*x), h.max(*x)));
    let ratio = hi / lo;
    let mut h = vec![];
    for d in 0..D {
        let size = r[d].iter().flatten().fold(0.0f64, |m, x| m.max(x.abs()));
        let tol = T::EPS * size * 200.0 * ratio.powi(3) * (n as f64).powi(2);
        for s in 0..n {
            let p = path.piece_polynomial(s, d).ok_or("no piece")?;
            let mut c = [0.0; 8];
            for k in 0..8 {
                c[k] = g(p.coefficients()[k]);
            }
            for k in 0..8 {
                ensure_close!(c[k], r[d][s][k], 0.0, tol, "axis {d} segment {s} power {k} (of {c:?}, smoothest {:?}), {}", r[d][s], what());
            }
            // through its waypoints, whatever else
            let local = c.iter().fold(0.0f64, |m, x| m.max(x.abs())).max(w[s][d].abs()).max(w[s + 1][d].abs());
            ensure_close!(c[0], w[s][d], 4.0 * T::EPS, 0.0, "axis {d} start of segment {s}, {}", what());
            ensure_close!(c.iter().sum::<f64>(), w[s + 1][d], 0.0, 500.0 * T::EPS * local, "axis {d} end of segment {s}, {}", what());
            h.extend(c.map(|x| (x / tol.max(1e-300) / 16.0).round()));
        }
    }
    Ok(hf(&h))
}
fn planning<T: Fl>(ck: &Ck) {
    let nm = T::NAME;
    let pos = [-1.0, 0.0, 2.5];
    // every way through up to five waypoints at every pacing
    for segs in 1..=ck.q(5usize, 6) {
        let paces: &[f64] = if segs < 5 { &[0.5, 1.0, 3.0] } else { &[0.7, 2.0] };
        let total = 3u64.pow(segs as u32 + 1) * (paces.len() as u64).pow(segs as u32);
        let dec = |mut i: u64| {
            let w: Vec<Vec<f64>> = (0..=segs).map(|_| { let v = pos[(i % 3) as usize]; i /= 3; vec![v] }).collect();
            let k = paces.len() as u64;
            let d: Vec<f64> = (0..segs).map(|_| { let v = paces[(i % k) as usize]; i /= k; v }).collect();
            (w, d)
        };
        ck.space(&format!("lattice_{nm}_{segs}_segments"), total, |i| format!("{:?}", dec(i)), |i| {
            let (w, d) = dec(i);
            match segs {
                1 => plan::<1, 1, 1, T>(&w, &[REST], &d),
                2 => plan::<2, 3, 1, T>(&w, &[REST], &d),
                3 => plan::<3, 6, 1, T>(&w, &[REST], &d),
                4 => plan::<4, 9, 1, T>(&w, &[REST], &d),
                5 => plan::<5, 12, 1, T>(&w, &[REST], &d),
                _ => plan::<6, 15, 1, T>(&w, &[REST], &d),
            }
        });
    }
    // every motion at the two ends
    let vals = [0.0, 1.0, -2.0];
    let dec = |i: u64| {
        let mut g = Dig(i);
        let s = g.arr::<3, _>(&vals);
        let e = g.arr::<3, _>(&vals);
        let segs = 1 + g.n(3) as usize;
        let pace = g.pick(&[0.5, 2.0]);
        (s, e, segs, pace)
    };
    ck.space(&format!("ends_{nm}"), 729 * 3 * 2, |i| format!("{:?}", dec(i)), |i| {
        let (s, e, segs, pace) = dec(i);
        let w: Vec<Vec<f64>> = [0.0, 1.5, 1.0, 4.0][..=segs].iter().map(|x| vec![*x]).collect();
        let d: Vec<f64> = [1.0, 1.5, 0.75][..segs].iter().map(|x| x * pace).collect();
        match segs {
            1 => plan::<1, 1, 1, T>(&w, &[Ends { s, e }], &d),
            2 => plan::<2, 3, 1, T>(&w, &[Ends { s, e }], &d),
            _ => plan::<3, 6, 1, T>(&w, &[Ends { s, e }], &d),
        }
    });
    // pace, size, room and axes: from microseconds to days, micrometres to megametres
    let top = if T::IS32 { 3 } else { 6 };
    let ns = (2 * top + 1) as usize;
    let dec = |i: u64| {
        let mut g = Dig(i);
        let pace = 10f64.powi(g.n(ns) as i32 - top);
        let size = 10f64.powi(3 * g.n(5) as i32 - 6);
        let segs = 1 + g.n(4) as usize;
        let room = g.n(3);
        let moving = g.n(2) == 1;
        let shape = g.n(3);
        (pace, size, segs, room, moving, shape)
    };
    ck.space(&format!("scales_{nm}"), ns as u64 * 5 * 4 * 3 * 2 * 3, |i| format!("{:?}", dec(i)), |i| {
        let (pace, size, segs, room, moving, shape) = dec(i);
        let w: Vec<Vec<f64>> = (0..=segs).map(|k| (0..3).map(|d| size * [[0.0, 1.0, 2.5, 2.5, -1.0], [3.0, 3.0, 3.0, 3.0, 3.0], [0.0, -2.0, 0.0, 1.0, 4.0]][d][k]).collect()).collect();
        let d: Vec<f64> = (0..segs).map(|k| pace * [[1.0, 1.0, 1.0, 1.0], [0.5, 2.0, 1.0, 0.25], [3.0, 1.0, 0.5, 4.0]][shape as usize][k]).collect();
        let (v, a, j) = (size / pace, size / pace / pace, size / pace / pace / pace);
        let ends: [Ends; 3] = if moving { [Ends { s: [v, -a, 2.0 * j], e: [0.0, a, 0.0] }, Ends { s: [0.0, 0.0, 0.0], e: [-v, 0.0, j] }, REST] } else { [REST; 3] };
        match room {
            0 => match segs {
                1 => plan::<1, 1, 3, T>(&w, &ends, &d),
                2 => plan::<2, 3, 3, T>(&w, &ends, &d),
                3 => plan::<3, 6, 3, T>(&w, &ends, &d),
                _ => plan::<4, 9, 3, T>(&w, &ends, &d),
            },
            1 => plan::<4, 11, 3, T>(&w, &ends, &d),
            _ => plan::<8, 21, 3, T>(&w, &ends, &d),
        }
    });
    // uneven pacing and long paths
    let dec = |i: u64| {
        let mut g = Dig(i);
        let uneven = g.pick(&[1.0, 3.0, 10.0, 30.0]);
        let pattern = g.n(256);
        let pace = g.pick(&[0.02, 1.0, 50.0]) * (1.0 + g.n(8) as f64 / 8.0);
        (uneven, pattern, pace)
    };
    ck.space(&format!("long_uneven_{nm}"), 4 * 256 * 3 * ck.q(1, 8), |i| format!("{:?}", dec(i)), |i| {
        let (uneven, pattern, pace) = dec(i);
        let d: Vec<f64> = (0..8).map(|k| pace * if pattern >> k & 1 == 1 { uneven } else { 1.0 }).collect();
        let w: Vec<Vec<f64>> = (0..9).map(|k| vec![[0.0, 1.0, 3.0, 2.0, 2.0, -1.0, 0.5, 4.0, 4.5][k], k as f64 * 0.5]).collect();
        plan::<8, 21, 2, T>(&w, &[REST; 2], &d)
    });
}
fn smoothness<T: Fl>(ck: &Ck) {
    // No rival through the same waypoints, continuous up to jerk, has less snap.
    let dec = |i: u64| {
        let mut g = Dig(i);
        (g.arr::<4, _>(&[0.0, 1.0, -2.0]), g.arr::<3, _>(&[0.5, 1.0, 2.0]), g.n(6), g.pick(&[1e-2, 0.1, 1.0, -1e-2, -0.1, -1.0]))
    };
    ck.space(&format!("rivals_{}", T::NAME), 81 * 27 * 36, |i| format!("{:?}", dec(i)), |i| {
        let (w, dur, which, by) = dec(i);
        let path = MinimumSnapPlanner::<3, 6, 1, T>::new().plan(&w.map(|x| Vector::new([t(x)])), &ta(dur)).map_err(|e| format!("{e:?}"))?;
        op(1);
        let cost = |c: &[f64; 8], d: f64| {
            let mut q = 0.0;
            for a in 4..8 {
                for b in 4..8 {
                    q += falling(a, 4) * falling(b, 4) * c[a] * c[b] / d.powi(7) / (a + b - 7) as f64;
                }
            }
            q
        };
        let (mut own, mut rival) = (0.0, 0.0);
        for s in 0..3 {
            let p = path.piece_polynomial(s, 0).ok_or("no piece")?;
            let c: [f64; 8] = ga(*p.coefficients());
            own += cost(&c, dur[s]);
            // a bump in one derivative at one of the two joins, in each of the segments it touches
            let (join, order) = (1 + which / 3, 1 + which % 3);
            let mut c2 = c;
            for (at_end, touched) in [(false, s == join), (true, s + 1 == join)] {
                if touched {
                    let bump = hermite(order, at_end, dur[s]);
                    for k in 0..8 {
                        c2[k] += by * bump[k];
                    }
                }
            }
            rival += cost(&c2, dur[s]);
        }
        ensure!(rival >= own - 1e3 * T::EPS * (own + rival), "through {w:?} in {dur:?}: snap {own}, a rival has {rival}");
        Ok(hf(&[rival > own * 1.001].map(|x| x as u8 as f64)))
    });
}
/// the degree-7 curve with every value at both ends zero but derivative `order` at one end, which is 1
fn hermite(order: usize, at_end: bool, d: f64) -> [f64; 8] {
    let mut a = vec![];
    let mut b = vec![];
    for k in 0..4 {
        a.push((0..8).map(|c| if c == k { falling(c, k) } else { 0.0 }).collect::<Vec<_>>());
        b.push(vec![(k == order && !at_end) as u8 as f64 * d.powi(k as i32)]);
        a.push((0..8).map(|c| falling(c, k)).collect());
        b.push(vec![(k == order && at_end) as u8 as f64 * d.powi(k as i32)]);
    }
    let x = fsolve(&a, &b).unwrap();
    std::array::from_fn(|c| x[c][0])
}
fn refusals<T: Fl>(ck: &Ck) {
    let nm = T::NAME;
    // every count of waypoints and durations, with one special value anywhere
    let dec = |i: u64| {
        let mut g = Dig(i);
        (g.n(6) as usize, g.n(5) as usize, g.n(14) as usize, g.n(13) as usize, g.n(3))
    };
    ck.space(&format!("refusals_{nm}"), 6 * 5 * 14 * 13 * 3, |i| format!("{:?}", dec(i)), |i| {
        let (nw, nd, sp, place, room) = dec(i);
        let sv = t::<T>(SPECIAL[sp]);
        let mut w: Vec<Vector<2, T>> = (0..nw).map(|k| Vector::new([t(k as f64), t((k * k) as f64 * 0.25)])).collect();
        let mut d: Vec<T> = (0..nd).map(|k| t(1.0 + k as f64 * 0.5)).collect();
        let mut s = BoundaryDerivatives::<2, T>::default();
        let mut e = BoundaryDerivatives::<2, T>::default();
        match place {
            0..=2 => if let Some(p) = w.get_mut(place as usize) { p[1] = sv },
            3..=5 => if let Some(p) = d.get_mut(place - 3) { *p = sv },
            6 => s.velocity[0] = sv,
            7 => s.acceleration[1] = sv,
            8 => s.jerk[0] = sv,
            9 => e.velocity[1] = sv,
            10 => e.acceleration[0] = sv,
            11 => e.jerk[1] = sv,
            _ => {}
        }
        let segs = nw.saturating_sub(1);
        let (cap, free) = [(3, 6), (4, 6), (2, 1)][room as usize];
        let mut bad = vec![];
        if nw < 2 {
            bad.push(E::PathTooShort);
        }
        if segs > cap {
            bad.push(E::CapacityExceeded);
        }
        if nd != segs {
            bad.push(E::SegmentCountMismatch);
        }
        if d.iter().any(|x| !(g(*x) > 0.0) || !g(*x).is_finite()) {
            bad.push(E::DurationNotPositive);
        }
        let fin = |v: &Vector<2, T>| v.is_finite();
        if !w.iter().all(fin) || ![s.velocity, s.acceleration, s.jerk, e.velocity, e.acceleration, e.jerk].iter().all(fin) {
            bad.push(E::NonFinite);
        }
        if 3 * segs.saturating_sub(1) > free {
            bad.push(E::WorkspaceTooSmall);
        }
        let what = format!("{nw} waypoints, {nd} durations, {} at {place}, room {cap} {free}", SPECIAL[sp]);
        // extreme but allowed values may be beyond what the arithmetic carries
        let extreme = (3..=11).contains(&place) && bad.is_empty() && !(0.1..=100.0).contains(&g(sv).abs()) && g(sv) != 0.0;
        macro_rules! go { ($s:literal, $f:literal) => {{
            let r = MinimumSnapPlanner::<$s, $f, 2, T>::new().with_start(s).with_end(e).plan(&w, &d);
            if extreme {
                op(1);
                return Ok(r.is_ok() as u64);
            }
            Ok(verdict(r, &bad, &what)?.map_or(bad.len() as u64, |p| 100 + p.piece_count() as u64))
        }}; }
        match room { 0 => go!(3, 6), 1 => go!(4, 6), _ => go!(2, 1) }
    });
    // pacing from a speed
    let dec = |i: u64| {
        let mut g = Dig(i);
        (g.n(4) as usize, g.n(4) as usize, g.arr::<3, _>(&[0, 1, 2, 3]), g.n(14 + 7) as usize, g.n(15) as usize, g.n(3) as usize)
    };
    ck.space(&format!("pacing_{nm}"), 4 * 4 * 64 * 21 * 15 * 3, |i| format!("{:?}", dec(i)), |i| {
        let (nw, nd, sites, sp, at, place) = dec(i);
        let speed = if sp < 14 { SPECIAL[sp] } else { [0.1, 3.0, 20.0, 1e-6, 1e6, 1e-17, 1e-24][sp - 14] };
        let site = [[0.0, 0.0], [3.0, 4.0], [3.0, -1.0], [1e-18, 0.0]];
        let mut w: Vec<Vector<2, T>> = (0..nw).map(|k| Vector::new(ta(site[sites[k % 3] as usize]))).collect();
        if at < 14 {
            if let Some(p) = w.get_mut(place) {
                p[0] = t(SPECIAL[at]);
            }
        }
        let v = rd::<T>(speed);
        let mut bad = vec![];
        if nw < 2 { bad.push(E::PathTooShort) }
        if nd + 1 != nw { bad.push(E::SegmentCountMismatch) }
        if !(v > 0.0) || !v.is_finite() { bad.push(E::DurationNotPositive) }
        if w.iter().any(|p| !p.is_finite()) { bad.push(E::NonFinite) }
        let gaps: Vec<f64> = w.windows(2).map(|p| (g(p[1][0]) - g(p[0][0])).hypot(g(p[1][1]) - g(p[0][1]))).collect();
        if gaps.iter().any(|x| *x == 0.0) { bad.push(E::DurationNotPositive) }
        let mut out = vec![t::<T>(-7.0); nd];
        let r = durations_from_average_speed(&w, t(speed), &mut out);
        let what = format!("{w:?} at {speed} into {nd}");
        if bad.is_empty() && gaps.iter().any(|x| !(1e-15..1e15).contains(x) || !(1e-15..1e15).contains(&(x / v))) {
            op(1);
            return Ok(r.is_ok() as u64);
        }
        if verdict(r, &bad, &what)?.is_some() {
            for (o, gap) in out.iter().zip(&gaps) {
                ensure_close!(g(*o), gap / v, 8.0 * T::EPS, 0.0, "duration, {what}");
            }
            // and the pacing is one a planner takes
            return Ok(7 + nd as u64);
        }
        Ok(bad.len() as u64)
    });
}
fn main() {
    let ck = Ck::new("C31");
    planning::<f64>(&ck);
    planning::<f32>(&ck);
    smoothness::<f64>(&ck);
    smoothness::<f32>(&ck);
    refusals::<f64>(&ck);
    refusals::<f32>(&ck);
    ck.finish();
}
