//! C30: point-to-point motion profiles: limits, targets, continuity, time-optimality, synchronisation.
use mc::num::*;
use mc::*;
use multicalc::error::MotionError as E;
use multicalc::motion::*;
use multicalc::scalar::Dual;

fn rd<T: Fl>(x: f64) -> f64 {
    g(t::<T>(x))
}
type S4 = [f64; 4];
fn st<T: Fl>(s: ProfileState<T>) -> S4 {
    [g(s.position), g(s.velocity), g(s.acceleration), g(s.jerk)]
}
/// Reference: the fastest rest-to-rest move, from the ramp to each peak speed
struct Best {
    time: f64,
    peak: f64,
}
fn ramp(v: f64, a: f64, j: Option<f64>) -> f64 {
    match j {
        None => v / a,
        Some(j) if v >= a * a / j => v / a + a / j,
        Some(j) => 2.0 * (v / j).sqrt(),
    }
}
fn best(d: f64, v: f64, a: f64, j: Option<f64>) -> Best {
    if d == 0.0 {
        return Best { time: 0.0, peak: 0.0 };
    }
    // a ramp up and a ramp down to peak p cover p times the ramp
    let (mut lo, mut hi) = (0.0, v);
    if v * ramp(v, a, j) > d {
        for _ in 0..200 {
            let m = (lo + hi) / 2.0;
            if m * ramp(m, a, j) > d { hi = m } else { lo = m }
        }
        return Best { time: 2.0 * ramp(hi, a, j), peak: hi };
    }
    Best { time: 2.0 * ramp(v, a, j) + (d - v * ramp(v, a, j)) / v, peak: v }
}
/// Everything a planned (or stretched) profile owes; `slow` is how much it was slowed down
fn owes<T: Fl>(p: &MotionProfile<T>, d: f64, v: f64, a: f64, j: Option<f64>, slow: f64) -> Result<u64, String> {
    let e = T::EPS;
    let b = best(d.abs(), v, a, j);
    let sg = if d < 0.0 { -1.0 } else { 1.0 };
    let total = g(p.duration());
    let what = || format!("distance {d} limits {v} {a} {j:?} slowed {slow}: {p:?}");
    ensure_close!(total, b.time * slow, 32.0 * e, 0.0, "time taken, {}", what());
    ensure_close!(g(p.distance()), d, 64.0 * e, 0.0, "displacement, {}", what());
    ensure_close!(g(p.peak_speed()), sg * b.peak / slow, 64.0 * e, 0.0, "cruise speed, {}", what());
    let ph = ga(p.phase_durations());
    ensure!(ph.iter().all(|x| *x >= 0.0), "a phase of negative length, {}", what());
    ensure_close!(ph.iter().sum::<f64>(), total, 16.0 * e, 0.0, "phases add up, {}", what());
    if j.is_none() {
        ensure!(ph[0] == 0.0 && ph[2] == 0.0 && ph[4] == 0.0 && ph[6] == 0.0, "a trapezoid has three phases, {}", what());
    }
    // symmetric: speeding up and slowing down take as long
    for k in 0..3 {
        ensure_close!(ph[k], ph[6 - k], 16.0 * e, 4.0 * e * total, "phase {k} against its mirror, {}", what());
    }
    let at = |x: f64| p.state_at(t(x)).map(st).map_err(|e| format!("{e:?}"));
    let (vl, al, jl) = (b.peak / slow, a / slow / slow, j.map_or(0.0, |j| j / slow.powi(3)));
    let end = at(total)?;
    ensure_close!(end[0], d, 64.0 * e, 0.0, "the end is the target, {}", what());
    ensure!(end[1] == 0.0 && end[2] == 0.0 && end[3] == 0.0, "not at rest at the end: {end:?}, {}", what());
    ensure_eq!(at(total * 2.0 + 1.0)?, end, "past the end");
    let start = at(0.0)?;
    ensure!(start[0] == 0.0 && start[1] == 0.0, "not at rest at the start: {start:?}, {}", what());
    if total > 0.0 {
        ensure_eq!(at(-1.0)?, start, "before the start");
    }
    // walk the phases
    let mut times = vec![];
    let mut s = 0.0;
    for k in 0..7 {
        for u in [0.0, 0.25, 0.5, 0.8] {
            times.push((k, u, s + ph[k] * u));
        }
        s += ph[k];
    }
    let sz = d.abs();
    let mut last = (0.0, [0.0; 4]);
    let mut out = 0u64;
    for (k, u, x) in times {
        let x = rd::<T>(x.min(total));
        let q = at(x)?;
        out ^= hf(&q);
        op(1);
        // at a boundary rounding may read either phase
        let edge = 16.0 * e * total;
        ensure!(q[1].abs() <= vl * (1.0 + 32.0 * e) + al * edge, "speed {} over {vl} at {x}, {}", q[1], what());
        ensure!(q[2].abs() <= al * (1.0 + 32.0 * e) + jl * edge, "acceleration {} over {al} at {x}, {}", q[2], what());
        ensure!(q[3].abs() <= jl * (1.0 + 32.0 * e), "jerk {} over {jl} at {x}, {}", q[3], what());
        ensure!(sg * q[1] >= -al * edge - 64.0 * e * vl, "moving backwards at {x}: {q:?}, {}", what());
        ensure!(sg * q[0] >= -64.0 * e * sz && sg * q[0] <= sz * (1.0 + 64.0 * e), "outside the move at {x}: {q:?}, {}", what());
        // each state is the one before carried forward: no jumps of position or velocity
        let h = x - last.0;
        let (p0, v0) = (last.1[0], last.1[1]);
        if h > 0.0 {
            let dv = q[1] - v0;
            ensure!(dv.abs() <= al * h * (1.0 + 64.0 * e) + 128.0 * e * vl + 4.0 * al * edge, "velocity jumps at {x}: {:?} to {q:?}, {}", last, what());
            let dp = q[0] - p0;
            // within one phase the mean speed lies within its two ends plus the bow of the cubic
            let bow = jl * h * h;
            let (lo, hi) = (v0.min(q[1]) - bow, v0.max(q[1]) + bow);
            let slip = 256.0 * e * (sz + vl * total);
            ensure!(dp >= lo * h - slip && dp <= hi * h + slip, "position jumps at {x}: {:?} to {q:?}, {}", last, what());
            if j.is_some() {
                ensure!((q[2] - last.1[2]).abs() <= jl * h * (1.0 + 64.0 * e) + 256.0 * e * al + 4.0 * jl * edge, "acceleration jumps at {x}: {:?} to {q:?}, {}", last, what());
            }
        }
        // the kind of each phase
        let kind = [[1.0, 1.0], [1.0, 0.0], [1.0, -1.0], [0.0, 0.0], [-1.0, -1.0], [-1.0, 0.0], [-1.0, 1.0]][k];
        if ph[k] * u > 64.0 * e * total {
            ensure_close!(q[3] * sg, kind[1] * jl, 64.0 * e, 0.0, "jerk in phase {k}, {}", what());
            ensure!(q[2] * sg * kind[0] >= -128.0 * e * al && (kind[0] != 0.0 || q[2].abs() <= 128.0 * e * al), "acceleration {} in phase {k}, {}", q[2], what());
        }
        last = (x, q);
    }
    Ok(out)
}
fn plan<T: Fl>(d: f64, v: f64, a: f64, j: Option<f64>, s: ProfileStrategy) -> Result<Result<MotionProfile<T>, E>, String> {
    let l = ProfileLimits::try_new(t(v), t(a), j.map(t)).map_err(|e| format!("{e:?}"))?;
    let p = MotionProfilePlanner::new(l).with_strategy(s);
    ensure!(p.limits() == l && p.strategy() == s, "planner keeps its settings");
    ensure!(g(l.speed()) == rd::<T>(v) && g(l.acceleration()) == rd::<T>(a) && l.jerk().map(g) == j.map(rd::<T>), "limits kept");
    Ok(p.plan(t(d)))
}
const STR: [ProfileStrategy; 3] = [ProfileStrategy::Automatic, ProfileStrategy::Trapezoidal, ProfileStrategy::JerkLimited];

fn planning<T: Fl>(ck: &Ck) {
    // log grids straddle every change of shape
    let dn = ck.q(61usize, 241);
    let ln = ck.q(7usize, 13);
    let js = ln + 1;
    ck.space(&format!("profiles_{}", T::NAME), (dn * ln * ln * js * 3 * 2) as u64, |i| format!("{i}"), |i| {
        let mut x = Dig(i);
        let neg = x.n(2) == 1;
        let s = x.pick(&STR);
        let d = 1e-4 * 10f64.powf(x.n(dn) as f64 * 8.0 / (dn - 1) as f64);
        let lim = |k: usize| 0.05 * 10f64.powf(k as f64 * 4.0 / (ln - 1) as f64);
        let (v, a, k) = (lim(x.n(ln)), lim(x.n(ln)) * 1.1, x.n(js));
        let j = (k > 0).then(|| lim(k - 1) * 3.3);
        let [d, v, a] = [if neg { -d } else { d }, v, a].map(rd::<T>);
        let j = j.map(rd::<T>);
        let p = plan::<T>(d, v, a, j, s)?;
        if s == ProfileStrategy::JerkLimited && j.is_none() {
            ensure_eq!(p.err(), Some(E::JerkLimitRequired), "no jerk limit");
            return Ok(0);
        }
        let p = p.map_err(|e| format!("{e:?}"))?;
        let j = if s == ProfileStrategy::Trapezoidal { None } else { j };
        let out = owes(&p, d, v, a, j, 1.0)?;
        // mirrored exactly
        let m = plan::<T>(-d, v, a, j, s)?;
        if let Ok(m) = m {
            ensure_eq!(m.duration(), p.duration(), "a mirrored move takes as long");
            for u in [0.1, 0.5, 0.9] {
                let x = t::<T>(u) * p.duration();
                let (a, b) = (st(p.state_at(x).unwrap()), st(m.state_at(x).unwrap()));
                ensure!((0..4).all(|k| a[k] == -b[k]), "mirrored: {a:?} and {b:?}");
            }
        }
        // slowed down, twice
        for f in [1.0000001, 1.7, 3.0, 29.0] {
            let want = p.duration() * t(f);
            let q = p.stretched_to(want);
            let f = g(want) / g(p.duration());
            if f > 1.0 {
                ensure_eq!(q.duration(), want, "stretched duration");
                owes(&q, d, v, a, j, f).map_err(|e| format!("stretched {f} times: {e}"))?;
                let w2 = want * t(1.3);
                owes(&q.stretched_to(w2), d, v, a, j, g(w2) / g(p.duration())).map_err(|e| format!("stretched twice: {e}"))?;
            } else {
                ensure_eq!(q, p, "not stretched");
            }
        }
        Ok(out)
    });
    // exactly on the changes of shape, with limits that make every number exact
    ck.space(&format!("exact_{}", T::NAME), 33 * 5 * 5 * 6, |i| format!("{i}"), |i| {
        let mut x = Dig(i);
        let (d, v, a) = (x.n(33) as f64 * 0.5, 0.5 * (1 + x.n(5)) as f64, 0.5 * (1 + x.n(5)) as f64);
        let k = x.n(6);
        let j = (k > 0).then(|| k as f64 * 0.5);
        let p = plan::<T>(d, v, a, j, ProfileStrategy::Automatic)?.map_err(|e| format!("{e:?}"))?;
        owes(&p, d, v, a, j, 1.0)
    });
    // the same in units of length and time that make every distance tiny or huge
    let (us, ts): ([i32; 5], [i32; 4]) = if T::IS32 { ([-40, -26, -14, 12, 22], [-26, -6, 0, 5]) } else { ([-120, -70, -30, 25, 60], [-60, -30, 0, 20]) };
    ck.space(&format!("units_{}", T::NAME), 8 * 4 * 4 * 4 * 20, |i| format!("{i}"), |i| {
        let mut x = Dig(i);
        let (u, w) = (x.pick(&us), x.pick(&ts));
        let p2 = |k: i32| 2f64.powi(k);
        // squared accelerations have to be representable
        if T::IS32 && 2 * (u - 2 * w) > 110 {
            return Ok(0);
        }
        let (d, v, a) = (x.pick(&[0.0, 0.5, -0.5, 2.0, -3.0, 7.5, 16.0, -40.0]) * p2(u), 0.5 * (1 + x.n(4)) as f64 * p2(u - w), 0.5 * (1 + x.n(4)) as f64 * p2(u - 2 * w));
        let k = x.n(4);
        let j = (k > 0).then(|| k as f64 * 0.5 * p2(u - 3 * w));
        let p = plan::<T>(d, v, a, j, ProfileStrategy::Automatic)?.map_err(|e| format!("{e:?}"))?;
        if d != 0.0 {
            let q = SynchronizedProfile::from_profiles([p, plan::<T>(d / 4.0, v, a, j, ProfileStrategy::Automatic)?.unwrap()]);
            ensure_eq!(g(q.duration()), g(p.duration()), "the longer move decides");
            owes(q.axis(1).unwrap(), d / 4.0, v, a, j, g(p.duration()) / best(d.abs() / 4.0, v, a, j).time).map_err(|e| format!("shorter axis: {e}"))?;
            for f in [0.5, 1.5, 8.0] {
                let over = p.duration() * t(f);
                let r = SynchronizedProfile::try_from_profiles_over([p], over).map_err(|e| format!("over {}: {e:?}", g(over)))?;
                owes(r.axis(0).unwrap(), d, v, a, j, f.max(1.0)).map_err(|e| format!("over {f} times its duration: {e}"))?;
                owes(&p.stretched_to(over), d, v, a, j, f.max(1.0)).map_err(|e| format!("stretched {f} times: {e}"))?;
            }
        }
        owes(&p, d, v, a, j, 1.0)
    });
    // no sequence of jerks on a time grid that respects the limits gets there sooner
    let n = ck.q(11usize, 14);
    ck.space(&format!("optimal_{}", T::NAME), 3u64.pow(n as u32) * 3, |i| format!("{i}"), |i| {
        let mut x = Dig(i);
        let (vm, am) = x.pick(&[(100.0, 100.0), (3.0, 2.0), (2.0, 100.0)]);
        let (mut p, mut v, mut a) = (0.0f64, 0.0f64, 0.0f64);
        let (mut top_v, mut top_a) = (0.0f64, 0.0f64);
        for _ in 0..n {
            let j = x.n(3) as f64 - 1.0;
            p += v + a / 2.0 + j / 6.0;
            // the speed may peak inside the step where the acceleration passes zero
            if a * (a + j) < 0.0 {
                top_v = top_v.max((v - a * a / (2.0 * j)).abs());
            }
            v += a + j / 2.0;
            a += j;
            top_v = top_v.max(v.abs());
            top_a = top_a.max(a.abs());
        }
        if v != 0.0 || a != 0.0 || top_v > vm || top_a > am || p.abs() < 1e-9 {
            return Ok(0);
        }
        let q = plan::<T>(p, vm, am, Some(1.0), ProfileStrategy::Automatic)?.map_err(|e| format!("{e:?}"))?;
        ensure!(g(q.duration()) <= n as f64 * (1.0 + 32.0 * T::EPS), "a jerk sequence covers {p} in {n}, the plan takes {}", g(q.duration()));
        Ok((p * 64.0) as u64)
    });
    let sp = SPECIAL;
    ck.space(&format!("profile_domain_{}", T::NAME), 14 * 14 * 15 * 14, |i| format!("{i}"), |i| {
        let mut x = Dig(i);
        let [v, a, d] = [x.pick(&sp), x.pick(&sp), x.pick(&sp)].map(rd::<T>);
        let k = x.n(15);
        let j = (k > 0).then(|| rd::<T>(sp[k - 1]));
        let pos = |x: f64| x.is_finite() && x > 0.0;
        let al = if !pos(v) || !pos(a) || j.is_some_and(|j| !pos(j)) { vec![E::LimitNotPositive] } else { vec![] };
        let Some(l) = verdict(ProfileLimits::<T>::try_new(t(v), t(a), j.map(t)), &al, &format!("limits {v} {a} {j:?}"))? else { return Ok(0) };
        for s in STR {
            let mut al = vec![];
            if !d.is_finite() {
                al.push(E::NonFinite);
            }
            if s == ProfileStrategy::JerkLimited && j.is_none() {
                al.push(E::JerkLimitRequired);
            }
            let Some(p) = verdict(MotionProfilePlanner::new(l).with_strategy(s).plan(t(d)), &al, &format!("plan {d}"))? else { continue };
            for x in sp.map(rd::<T>) {
                let al = if x.is_finite() { vec![] } else { vec![E::NonFinite] };
                verdict(p.state_at(t(x)), &al, &format!("state at {x}"))?;
                let q = p.stretched_to(t(x));
                if !x.is_finite() || x <= g(p.duration()) || g(p.duration()) <= 0.0 {
                    ensure_eq!(format!("{q:?}"), format!("{p:?}"), "stretching to {x} changes nothing");
                }
            }
            if d == 0.0 {
                ensure!(g(p.duration()) == 0.0 && g(p.distance()) == 0.0 && g(p.peak_speed()) == 0.0, "no displacement: {p:?}");
            }
        }
        Ok(1)
    });
}

fn together<T: Fl>(ck: &Ck) {
    let ds = [0.0, 1e-3, 0.4, -1.0, 2.5, -30.0];
    let ls = [(1.0, 2.0, None), (0.7, 1.3, Some(4.0)), (3.0, 0.5, Some(0.2))];
    ck.space(&format!("synchronized_{}", T::NAME), 18 * 18 * 18 * 6, |i| format!("{i}"), |i| {
        let mut x = Dig(i);
        let ax: Vec<(f64, (f64, f64, Option<f64>))> = (0..3).map(|_| (rd::<T>(x.pick(&ds)), x.pick(&ls))).collect();
        let over = x.n(6);
        let ps: Vec<MotionProfile<T>> = ax.iter().map(|(d, l)| plan::<T>(*d, l.0, l.1, l.2, ProfileStrategy::Automatic).unwrap().unwrap()).collect();
        let arr = [ps[0], ps[1], ps[2]];
        let slow = ps.iter().map(|p| g(p.duration())).fold(0.0, f64::max);
        let (s, want) = match over {
            0 => (SynchronizedProfile::from_profiles(arr), slow),
            k => {
                let w = [f64::NAN, 0.5, 3.0, 100.0, 0.0, -1.0][k];
                let al = if w > 0.0 { vec![] } else { vec![E::DurationNotPositive] };
                match verdict(SynchronizedProfile::try_from_profiles_over(arr, t(w)), &al, "over")? {
                    None => return Ok(0),
                    Some(s) => (s, slow.max(rd::<T>(w))),
                }
            }
        };
        ensure_eq!(g(s.duration()), want, "common duration");
        ensure!(s.axis(3).is_none(), "axis past the last");
        for k in 0..3 {
            let (d, l) = ax[k];
            let q = s.axis(k).ok_or("axis missing")?;
            let own = g(ps[k].duration());
            let r = |x: f64| rd::<T>(x);
            if own > 0.0 {
                ensure_eq!(g(q.duration()), want, "axis {k} finishes with the rest");
                owes(q, d, r(l.0), r(l.1), l.2.map(r), want / own).map_err(|e| format!("axis {k}: {e}"))?;
            } else {
                ensure_eq!(*q, ps[k], "a still axis is left alone");
            }
            for u in [-0.1, 0.0, 0.2, 0.5, 0.77, 1.0, 1.3] {
                let x = t::<T>(want * u);
                let all = s.state_at(x).map_err(|e| format!("{e:?}"))?;
                let one = q.state_at(x).map_err(|e| format!("{e:?}"))?;
                ensure!(all.position[k] == one.position && all.velocity[k] == one.velocity && all.acceleration[k] == one.acceleration && all.jerk[k] == one.jerk, "axis {k} at {u}");
                if u >= 1.0 {
                    ensure!(g(one.velocity) == 0.0 && g(one.acceleration) == 0.0, "axis {k} not at rest when all are done: {one:?}");
                }
            }
        }
        ensure_eq!(s.state_at(t(f64::NAN)).err(), Some(E::NonFinite), "time not a number");
        Ok(hf(&[want]))
    });
    for w in [f64::NAN, f64::INFINITY, 0.0, -1.0] {
        let p = plan::<T>(1.0, 1.0, 1.0, None, ProfileStrategy::Automatic).unwrap().unwrap();
        let r = SynchronizedProfile::try_from_profiles_over([p], t(w));
        ck.space(&format!("over_{w}_{}", T::NAME), 1, |_| format!("{w}"), |_| {
            ensure_eq!(r.err(), Some(E::DurationNotPositive), "over {w}");
            Ok(0)
        });
    }
}

fn derivative(ck: &Ck) {
    type D = Dual<f64>;
    let ds = [0.01, 0.3, 2.0, 40.0, -5.0];
    let us = [0.05, 0.3, 0.5, 0.66, 0.95];
    ck.space("derivative", 5 * 5 * 4 * 4 * 4, |i| format!("{i}"), |i| {
        let mut x = Dig(i);
        let (d, u) = (x.pick(&ds), x.pick(&us));
        let (v, a) = (x.pick(&[0.3, 1.0, 3.0, 9.0]), x.pick(&[0.4, 1.0, 3.0, 9.0]));
        let j = x.pick(&[None, Some(0.5), Some(3.0), Some(20.0)]);
        // a number carrying its derivative with respect to each of the arguments in turn
        let f = |d: f64, v: f64, a: f64| plan::<f64>(d, v, a, j, ProfileStrategy::Automatic).unwrap().unwrap();
        let p = f(d, v, a);
        let at = u * p.duration();
        let h = 1e-6;
        for k in 0..3 {
            let s = |y: f64, n: usize| D::new(y, if n == k { 1.0 } else { 0.0 });
            let l = ProfileLimits::try_new(s(v, 1), s(a, 2), j.map(|j| D::new(j, 0.0))).map_err(|e| format!("{e:?}"))?;
            let q = MotionProfilePlanner::new(l).plan(s(d, 0)).map_err(|e| format!("{e:?}"))?;
            let w = q.state_at(D::new(at, 0.0)).map_err(|e| format!("{e:?}"))?;
            let m = |z: f64| match k {
                0 => f(d + z * h, v, a),
                1 => f(d, v + z * h, a),
                _ => f(d, v, a + z * h),
            };
            let (lo, hi) = (m(-1.0), m(1.0));
            let shape = |p: &MotionProfile<f64>| p.phase_durations().map(|x| x > 1e-9);
            if shape(&lo) != shape(&hi) {
                continue;
            }
            op(1);
            ensure_close!(q.duration().deriv, (hi.duration() - lo.duration()) / (2.0 * h), 1e-5, 1e-6, "duration by argument {k}");
            let phase = |p: &MotionProfile<f64>| { let mut s = 0.0; p.phase_durations().iter().filter(|d| { s += **d; s <= at }).count() };
            if phase(&lo) != phase(&hi) {
                continue;
            }
            let (sl, sh) = (lo.state_at(at).unwrap(), hi.state_at(at).unwrap());
            ensure_close!(w.position.deriv, (sh.position - sl.position) / (2.0 * h), 1e-4, 1e-5, "position by argument {k}, distance {d} limits {v} {a} {j:?} at {at}");
            ensure_close!(w.velocity.deriv, (sh.velocity - sl.velocity) / (2.0 * h), 1e-4, 1e-5, "velocity by argument {k}, distance {d} limits {v} {a} {j:?} at {at}");
        }
        Ok(hf(&[at]))
    });
}

fn main() {
    let ck = Ck::new("C30");
    planning::<f64>(&ck);
    together::<f64>(&ck);
    planning::<f32>(&ck);
    together::<f32>(&ck);
    derivative(&ck);
    ck.finish();
}
