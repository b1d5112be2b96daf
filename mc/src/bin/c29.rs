//! C29: waypoint paths and pure pursuit against plane and space geometry.
use mc::num::*;
use mc::*;
use multicalc::control::*;
use multicalc::error::{ControlError as CE, MotionError as E};
use multicalc::linear_algebra::Vector;
use multicalc::motion::*;
use multicalc::spatial::{SE2, SO2};
use std::f64::consts::{PI, TAU};

fn rd<T: Fl>(x: f64) -> f64 {
    g(t::<T>(x))
}
fn dist<const D: usize>(a: [f64; D], b: [f64; D]) -> f64 {
    (0..D).map(|k| (a[k] - b[k]).powi(2)).sum::<f64>().sqrt()
}
fn lerp<const D: usize>(a: [f64; D], b: [f64; D], u: f64) -> [f64; D] {
    core::array::from_fn(|k| a[k] + (b[k] - a[k]) * u)
}
/// Reference: arc length before each waypoint
fn sums<const D: usize>(p: &[[f64; D]]) -> Vec<f64> {
    let mut s = vec![0.0];
    for w in p.windows(2) {
        s.push(s[s.len() - 1] + dist(w[0], w[1]));
    }
    s
}
fn at<const D: usize>(p: &[[f64; D]], s: f64) -> [f64; D] {
    let c = sums(p);
    if s <= 0.0 {
        return p[0];
    }
    for k in 1..p.len() {
        if c[k] >= s && c[k] > c[k - 1] {
            return lerp(p[k - 1], p[k], (s - c[k - 1]) / (c[k] - c[k - 1]));
        }
    }
    p[p.len() - 1]
}
fn nearest<const D: usize>(p: &[[f64; D]], q: [f64; D]) -> f64 {
    let mut best = dist(p[0], q);
    for w in p.windows(2) {
        let d: f64 = (0..D).map(|k| (w[1][k] - w[0][k]).powi(2)).sum();
        if d > 0.0 {
            let u = (0..D).map(|k| (q[k] - w[0][k]) * (w[1][k] - w[0][k])).sum::<f64>() / d;
            best = best.min(dist(lerp(w[0], w[1], u.clamp(0.0, 1.0)), q));
        }
    }
    best
}
fn built<const N: usize, const D: usize, T: Fl>(path: &PolylinePath<N, D, T>, p: &[[f64; D]], scale: f64) -> Result<(), String> {
    ensure_eq!(path.len(), p.len(), "length");
    ensure_eq!(path.is_empty(), p.is_empty(), "emptiness");
    ensure_eq!(path.waypoints().iter().map(|v| ga(v.into_array())).collect::<Vec<_>>(), p.to_vec(), "waypoints");
    let total = if p.is_empty() { 0.0 } else { sums(p)[p.len() - 1] };
    ensure_close!(g(path.total_arc_length()), total, 16.0 * T::EPS, 16.0 * T::EPS * scale, "total arc length of {p:?}");
    Ok(())
}
/// Every query of a built path
fn query<const N: usize, const D: usize, T: Fl>(path: &PolylinePath<N, D, T>, p: &[[f64; D]], mode: EndOfPath, qs: &[[f64; D]], scale: f64) -> Res {
    built(path, p, scale)?;
    let v = |q: [f64; D]| Vector::<D, T>::new(ta(q));
    if p.is_empty() {
        ensure_eq!(path.closest_point(v(qs[0])).err(), Some(E::PathTooShort), "closest point of no path");
        ensure_eq!(path.lookahead_point(T::ZERO, T::ONE).err(), Some(E::PathTooShort), "lookahead of no path");
        return Ok(2);
    }
    let c = sums(p);
    let total = c[p.len() - 1];
    let tol = 64.0 * T::EPS * (scale + total);
    let mut out = 0u64;
    for &q in qs {
        let r = path.closest_point(v(q)).map_err(|e| format!("{q:?}: {e:?}"))?;
        let (pt, s, d, i) = (ga(r.point().into_array()), g(r.arc_length()), g(r.distance()), r.segment_index());
        let what = || format!("closest point of {p:?} to {q:?}: {r:?}");
        let far = T::EPS * 64.0 * (scale + total + dist(q, p[0]));
        ensure_close!(d, nearest(p, q), 0.0, far, "distance, {}", what());
        ensure_close!(dist(pt, q), d, 0.0, far, "the point is that far, {}", what());
        ensure!(i == 0 || i + 1 < p.len(), "segment index, {}", what());
        if p.len() == 1 {
            ensure!(i == 0 && s == 0.0 && pt == p[0], "single point, {}", what());
        } else {
            ensure!(s >= c[i] - tol && s <= c[i + 1] + tol, "arc length {s} outside segment {i}, {}", what());
            let len = c[i + 1] - c[i];
            let there = if len > 0.0 { lerp(p[i], p[i + 1], (s - c[i]) / len) } else { p[i] };
            ensure!(dist(there, pt) <= far, "arc length {s} is at {there:?}, {}", what());
            // the two queries agree with each other
            if s < total - tol {
                let l = ga(path.lookahead_point(r.arc_length(), T::ZERO).map_err(|e| format!("{e:?}"))?.into_array());
                ensure!(dist(l, pt) <= far + tol, "lookahead of nothing from {s} is {l:?}, {}", what());
            }
        }
        op(1);
        out ^= hf(&[d]);
    }
    let span = if total > 0.0 { total } else { scale };
    for from in [-1.3, -0.25, 0.0, 0.1, 0.5, 0.75, 1.0, 1.4, 2.0] {
        for ahead in [0.0, 0.125, 0.5, 1.0, 2.25, 7.0, -0.3] {
            let (f, a) = (rd::<T>(from * span), rd::<T>(ahead * span));
            let l = path.lookahead_point(t(f), t(a)).map_err(|e| format!("{e:?}"))?;
            let l = ga(l.into_array());
            let s = f + a;
            let what = || format!("{mode:?} lookahead {a} from {f} on {p:?}: {l:?}");
            let tol = tol * 16.0;
            op(1);
            out ^= hf(&l);
            if p.len() == 1 {
                ensure!(l == p[0], "{}", what());
                continue;
            }
            match mode {
                EndOfPath::Stop => ensure!(dist(l, at(p, s.clamp(0.0, total))) <= tol, "expected {:?}, {}", at(p, s.clamp(0.0, total)), what()),
                EndOfPath::Loop => {
                    if total == 0.0 {
                        ensure!(dist(l, p[0]) <= tol, "{}", what());
                        continue;
                    }
                    let w = s - total * (s / total).floor();
                    // at the seam either end of the path is the same arc length
                    let seam = w < tol || w > total - tol;
                    let ok = dist(l, at(p, w)) <= tol || seam && (dist(l, p[0]) <= tol || dist(l, p[p.len() - 1]) <= tol);
                    ensure!(ok, "expected {:?}, {}", at(p, w), what());
                }
            }
        }
    }
    Ok(out)
}

fn histories<T: Fl>(ck: &Ck) {
    #[derive(Clone)]
    struct S<T: Fl> {
        path: PolylinePath<4, 2, T>,
        p: Vec<[f64; 2]>,
        mode: EndOfPath,
    }
    const P: [[f64; 2]; 6] = [[0.0, 0.0], [1.0, 0.0], [1.0, 2.0], [-0.5, 1.25], [f64::NAN, 1.0], [0.0, f64::INFINITY]];
    let qs = [[0.3, 0.4], [-1.0, -1.0], [2.0, 1.0], [0.5, 0.0], [1.0, 2.0]];
    ck.bfs::<S<T>>(
        &format!("path_history_{}", T::NAME),
        ck.q(7, 9),
        &|| Ok(S { path: PolylinePath::default(), p: vec![], mode: EndOfPath::Stop }),
        9,
        &|a| match a {
            0..=5 => format!("push {:?}", P[a as usize]),
            6 => "stop at the end".into(),
            7 => "loop at the end".into(),
            _ => "rebuild from waypoints".into(),
        },
        &|s, a| {
            match a {
                0..=5 => {
                    let q = P[a as usize];
                    let mut al = vec![];
                    if s.p.len() == 4 {
                        al.push(E::CapacityExceeded);
                    }
                    if !q.iter().all(|x| x.is_finite()) {
                        al.push(E::NonFinite);
                    }
                    if verdict(s.path.push(Vector::new(ta(q))), &al, "push")?.is_some() {
                        s.p.push(q);
                    }
                }
                6 => {
                    s.path = s.path.with_end_of_path(EndOfPath::Stop);
                    s.mode = EndOfPath::Stop;
                }
                7 => {
                    s.path = s.path.with_end_of_path(EndOfPath::Loop);
                    s.mode = EndOfPath::Loop;
                }
                _ => {
                    let r = PolylinePath::<4, 2, T>::try_from_points(s.path.waypoints()).map_err(|e| format!("{e:?}"))?;
                    ensure_eq!(r.with_end_of_path(s.mode), s.path, "rebuilding gives the same path");
                    let small = PolylinePath::<2, 2, T>::try_from_points(s.path.waypoints());
                    ensure_eq!(small.err(), (s.p.len() > 2).then_some(E::CapacityExceeded), "smaller capacity");
                }
            }
            query(&s.path, &s.p, s.mode, &qs, 3.0)?;
            Ok(h64(&(&s.p, s.mode)))
        },
        &|s| Some(hkey(&(&s.p, s.mode))),
    );
    ck.space(&format!("from_points_{}", T::NAME), 6 * 6 * 6 * 6 * 6 * 6, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let n = d.n(6);
        let p: Vec<[f64; 2]> = (0..n).map(|_| d.pick(&P)).collect();
        let mut al = vec![];
        if n > 4 {
            al.push(E::CapacityExceeded);
        }
        if p.iter().flatten().any(|x| !x.is_finite()) {
            al.push(E::NonFinite);
        }
        let v: Vec<Vector<2, T>> = p.iter().map(|q| Vector::new(ta(*q))).collect();
        let Some(path) = verdict(PolylinePath::<4, 2, T>::try_from_points(&v), &al, &format!("path of {p:?}"))? else { return Ok(0) };
        let mut by = PolylinePath::new();
        for q in &v {
            by.push(*q).map_err(|e| format!("{e:?}"))?;
        }
        ensure_eq!(by, path, "pushing and slicing give the same path");
        built(&path, &p, 3.0)?;
        Ok(n as u64)
    });
}

fn lattice<const D: usize, T: Fl>(ck: &Ck, pts: &[[f64; D]], n: usize, place: (f64, f64)) {
    let (scale, shift) = place;
    let k = pts.len() as u64;
    ck.space(&format!("lattice_{D}d_{n}_{scale:e}_{shift}_{}", T::NAME), k.pow(n as u32) * 2, |i| {
        let mut d = Dig(i);
        let m = d.n(2);
        format!("{} {:?}", ["stop", "loop"][m], (0..n).map(|_| d.pick(pts)).collect::<Vec<_>>())
    }, |i| {
        let mut d = Dig(i);
        let mode = [EndOfPath::Stop, EndOfPath::Loop][d.n(2)];
        let f = |q: [f64; D]| q.map(|x| rd::<T>(x * scale + shift));
        let p: Vec<[f64; D]> = (0..n).map(|_| f(d.pick(pts))).collect();
        let v: Vec<Vector<D, T>> = p.iter().map(|q| Vector::new(ta(*q))).collect();
        let path = PolylinePath::<8, D, T>::try_from_points(&v).map_err(|e| format!("{e:?}"))?.with_end_of_path(mode);
        let mut qs: Vec<[f64; D]> = vec![];
        for s in [-0.7, 0.3, 0.5, 1.0, 1.6] {
            for u in [-0.2, 0.5, 1.3] {
                let mut q = [0.45; D];
                q[0] = s;
                q[D - 1] = u;
                qs.push(f(q));
            }
        }
        query(&path, &p, mode, &qs, 3.0 * scale + shift.abs())
    });
}

fn pursuit<T: Fl>(ck: &Ck) {
    let xs = [-2.0, 0.0, 0.3, 5.0, 1000.0];
    let hs = [0.0, 0.4, PI / 2.0, 2.5, PI, -1.2, -3.0];
    let bs: Vec<f64> = (0..16).map(|k| k as f64 * TAU / 16.0 + 0.05).chain([0.0, PI / 2.0, PI, -PI / 2.0]).collect();
    let rs = [1e-3, 0.5, 1.0, 3.0, 40.0];
    let n = (5 * 5 * 7 * 20 * 5) as u64;
    let far = if T::IS32 { 1e14 } else { 1e140 };
    let unit = [1.0, 1e-9, 1e9, 1.0 / far, far];
    ck.space(&format!("pursuit_{}", T::NAME), n * 5, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let [x, y, h, b, r] = [d.pick(&xs), d.pick(&xs), d.pick(&hs), d.pick(&bs), d.pick(&rs)];
        let u = d.pick(&unit);
        let (x, y, r) = (x * u, y * u, r * u);
        let pose = SE2::<T>::from_parts(SO2::from_angle(t(h)), Vector::new(ta([x, y])));
        let p = [x + r * b.cos(), y + r * b.sin()].map(rd::<T>);
        let [x, y, h] = [x, y, h].map(rd::<T>);
        let (dx, dy) = (p[0] - x, p[1] - y);
        let away = dx.hypot(dy);
        let slip = 16.0 * T::EPS * (u + x.abs() + y.abs() + r);
        if away < slip * 16.0 {
            return Ok(0);
        }
        let l = rd::<T>(away);
        let k = g(pure_pursuit_curvature(pose, Vector::new(ta(p)), t(l)).map_err(|e| format!("{e:?}"))?.value());
        let alpha = dy.atan2(dx) - h;
        let what = || format!("from ({x}, {y}) heading {h} to {p:?}: {k}");
        ensure_close!(k, 2.0 * alpha.sin() / away, 32.0 * T::EPS, 4.0 * slip / (l * l), "curvature, {}", what());
        // driving the arc of that curvature passes through the point
        let (fx, fy) = (dx * h.cos() + dy * h.sin(), dy * h.cos() - dx * h.sin());
        ensure!((k * (fx * fx + fy * fy) - 2.0 * fy).abs() <= 64.0 * slip + 64.0 * T::EPS * l, "the arc misses the point, {}", what());
        for m in [0.5, 2.0, 10.0] {
            let k2 = g(pure_pursuit_curvature(pose, Vector::new(ta(p)), t(l * m)).map_err(|e| format!("{e:?}"))?.value());
            ensure_close!(k2, k / (m * m), 32.0 * T::EPS, 32.0 * slip / (l * l * m * m), "distance {m} times, {}", what());
        }
        for v in [-1.0, 0.0, 0.7, 3.0] {
            let tw = Curvature::<T>::new(t(k)).to_body_twist(t(v));
            ensure_eq!(g(tw.linear()), rd::<T>(v), "forward speed");
            ensure_close!(g(tw.angular()), rd::<T>(v) * k, 4.0 * T::EPS, 0.0, "turn rate");
        }
        op(4);
        Ok(hf(&[k]))
    });
    ck.space(&format!("pursuit_domain_{}", T::NAME), 14 * 14 * 14, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let [a, b, l] = [d.pick(&SPECIAL), d.pick(&SPECIAL), d.pick(&SPECIAL)].map(rd::<T>);
        let mut al = vec![];
        if !l.is_finite() || l <= 0.0 {
            al.push(CE::NonPositiveLookaheadDistance);
        }
        if !a.is_finite() || !b.is_finite() {
            al.push(CE::NonFinite);
        }
        verdict(pure_pursuit_curvature(SE2::<T>::identity(), Vector::new(ta([a, b])), t(l)), &al, &format!("pursue ({a}, {b}) {l}"))?;
        Ok(1)
    });
    // the whole loop: project, look ahead, steer, drive the exact arc
    let paths: [&[[f64; 2]]; 4] = [&[[0.0, 0.0], [40.0, 0.0]], &[[0.0, 0.0], [8.0, 0.0], [16.0, 3.0], [40.0, 3.0]], &[[0.0, 0.0], [0.0, 10.0], [-30.0, 10.0]], &[[0.0, 0.0], [12.0, 12.0], [12.0, 40.0]]];
    let (nl, ns) = (9usize, 9usize);
    ck.space(&format!("following_{}", T::NAME), (4 * nl * ns * 2) as u64, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let p = d.pick(&paths);
        let off = -2.0 + d.n(nl) as f64 * 0.5;
        let head = -1.2 + d.n(ns) as f64 * 0.3;
        let look = d.pick(&[1.0, 1.6]);
        let v: Vec<Vector<2, T>> = p.iter().map(|q| Vector::new(ta(*q))).collect();
        let path = PolylinePath::<4, 2, T>::try_from_points(&v).map_err(|e| format!("{e:?}"))?;
        let dir = (p[1][1] - p[0][1]).atan2(p[1][0] - p[0][0]);
        let (mut x, mut y, mut h) = (-off * dir.sin(), off * dir.cos(), dir + head);
        let total = sums(p)[p.len() - 1];
        let mut seen = 0.0f64;
        for step in 0..2000 {
            let r = path.closest_point(Vector::new(ta([x, y]))).map_err(|e| format!("{e:?}"))?;
            let (s, e) = (g(r.arc_length()), g(r.distance()));
            ensure!(s >= seen - 2.5, "progress lost: {s} after {seen}");
            seen = seen.max(s);
            if s > total - 3.0 {
                ensure!(e < 0.05, "arrived {e} off the path after {step} steps");
                return Ok(step);
            }
            let aim = path.lookahead_point(r.arc_length(), t(look)).map_err(|e| format!("{e:?}"))?;
            let a = ga(aim.into_array());
            let pose = SE2::<T>::from_parts(SO2::from_angle(t(h)), Vector::new(ta([x, y])));
            let l = (a[0] - x).hypot(a[1] - y);
            let tw = pure_pursuit_curvature(pose, aim, t(l)).map_err(|e| format!("{e:?}"))?.to_body_twist(T::ONE);
            let (v, w) = (g(tw.linear()), g(tw.angular()));
            let dt = 0.05;
            let mid = h + w * dt / 2.0;
            let chord = v * dt * if (w * dt).abs() < 1e-9 { 1.0 } else { (w * dt / 2.0).sin() / (w * dt / 2.0) };
            x += chord * mid.cos();
            y += chord * mid.sin();
            h += w * dt;
        }
        Err(format!("never arrived, {seen} of {total}"))
    });
}

fn all<T: Fl>(ck: &Ck) {
    histories::<T>(ck);
    let mut sq = vec![];
    for x in 0..3 {
        for y in 0..3 {
            sq.push([x as f64 * 0.6, y as f64 * 0.8]);
        }
    }
    for pl in [(1.0, 0.0), (1e-3, 0.0), (1e-9, 0.0), (10.0, 1000.0), if T::IS32 { (1e-15, 0.0) } else { (1e-140, 0.0) }, if T::IS32 { (1e15, 0.0) } else { (1e140, 0.0) }] {
        lattice::<2, T>(ck, &sq, 3, pl);
    }
    lattice::<2, T>(ck, &sq, 4, (1.0, 0.0));
    lattice::<2, T>(ck, &sq, 5, (1.0, 0.0));
    if ck.thorough() {
        lattice::<2, T>(ck, &sq, 6, (1.0, 0.0));
    }
    let cube: Vec<[f64; 3]> = (0..8).map(|i| [(i & 1) as f64, (i >> 1 & 1) as f64 * 0.7, (i >> 2) as f64 * 1.1]).collect();
    lattice::<3, T>(ck, &cube, 4, (1.0, 0.0));
    lattice::<1, T>(ck, &[[0.0], [0.5], [1.0], [-1.0]], ck.q(6, 8), (1.0, 0.0));
    pursuit::<T>(ck);
}
fn main() {
    let ck = Ck::new("C29");
    ck.assume("Where two places on the path are equally close within rounding, either may be reported; at the seam of a looping path either end may be.");
    all::<f64>(&ck);
    all::<f32>(&ck);
    ck.finish();
}
