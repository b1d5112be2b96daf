//! C33: rotor mixing and rotor lag against the physics they stand for.
use mc::num::*;
use mc::refmodel::*;
use mc::*;
use multicalc::error::PlantError as E;
use multicalc::linear_algebra::Vector;
use multicalc::plant::*;

fn rd<T: Fl>(x: f64) -> f64 {
    g(t::<T>(x))
}
fn up(s: RotorSpin) -> f64 {
    if s == RotorSpin::Clockwise { 1.0 } else { -1.0 }
}
fn alloc<const N: usize>(p: &[V3; N], s: &[RotorSpin; N], k: f64) -> M {
    vec![
        vec![1.0; N],
        p.iter().map(|q| q[1]).collect(),
        p.iter().map(|q| -q[0]).collect(),
        s.iter().map(|s| k * up(*s)).collect(),
    ]
}
/// Reference: rows scaled to size one, so how far the layout is from dependent does not hang on the units
fn inverse(a: &M) -> Option<(M, f64)> {
    let sc: Vec<f64> = a.iter().map(|r| r.iter().fold(0.0f64, |m, x| m.max(x.abs()))).collect();
    if sc.iter().any(|s| *s == 0.0) {
        return None;
    }
    let b: M = (0..4).map(|r| a[r].iter().map(|x| x / sc[r]).collect()).collect();
    let gram = fmul(&b, &ft(&b));
    // determinant of the scaled Gram matrix tells dependence
    let inv = finv(&gram)?;
    let size = fmax_abs(&inv);
    let d = fmul(&ft(&b), &inv);
    Some(((0..d.len()).map(|r| (0..4).map(|c| d[r][c] / sc[c]).collect()).collect(), size))
}
const LIM: [(f64, f64); 3] = [(0.0, 6.0), (-2.0, 3.0), (0.5, 1.0)];

fn mixer<const N: usize, T: Fl>(p: [V3; N], s: [RotorSpin; N], k: f64, cond_bar: f64) -> Res {
    let p = p.map(|q| q.map(rd::<T>));
    let k = rd::<T>(k);
    let a = alloc(&p, &s, k);
    let what = || format!("rotors at {p:?} turning {s:?} ratio {k}");
    let inv = inverse(&a);
    let r = MultirotorMixer::<N, T>::new(p.map(|q| Vector::new(ta(q))), s, t(k), t(LIM[0].0), t(LIM[0].1));
    op(1);
    let Some((dist, size)) = inv.filter(|(_, size)| *size < 1e12) else {
        ensure!(r.is_err(), "accepted rotors that cannot produce every push and turn: {}", what());
        return Ok(0);
    };
    if size > cond_bar {
        return Ok(1); // close to dependent: either answer
    }
    let m = r.map_err(|e| format!("{e:?}, {}", what()))?;
    let al = m.allocation();
    for row in 0..4 {
        for c in 0..N {
            ensure_eq!(g(al[(row, c)]), a[row][c], "allocation row {row}, {}", what());
        }
    }
    let mut out = 0;
    let reach = p.iter().flat_map(|q| [q[0].abs(), q[1].abs()]).fold(0.0, f64::max);
    for (lo, hi) in LIM {
        let m = MultirotorMixer::<N, T>::new(p.map(|q| Vector::new(ta(q))), s, t(k), t(lo), t(hi)).map_err(|e| format!("{e:?}, {}", what()))?;
        ensure!(g(m.minimum_thrust()) == rd::<T>(lo) && g(m.maximum_thrust()) == rd::<T>(hi), "limits");
        let (lo, hi) = (rd::<T>(lo), rd::<T>(hi));
        for f in [0.0, 2.0, 0.9 * N as f64, 8.0 * N as f64, -3.0] {
            for tx in [0.0, 0.3, -2.0] {
                for ty in [0.0, -0.2, 1.0] {
                    for tz in [0.0, 0.1, -3.0] {
                        let w = [f, tx * reach, ty * reach, tz * k].map(rd::<T>);
                        let share: Vec<f64> = dist.iter().map(|r| (0..4).map(|c| r[c] * w[c]).sum()).collect();
                        let c = m.rotor_thrusts(t(w[0]), Vector::new(ta([w[1], w[2], w[3]])));
                        let got = ga(c.thrusts().into_array());
                        op(1);
                        let top = share.iter().fold(1.0f64, |m, x| m.max(x.abs()));
                        let tol = 256.0 * T::EPS * size * (top + f.abs() + 5.0);
                        let mut sure = false;
                        let mut edge = false;
                        for r in 0..N {
                            ensure_close!(got[r], share[r].clamp(lo, hi), 0.0, tol, "rotor {r} of {got:?} asked {w:?} limits {lo}..{hi} share {share:?}, {}", what());
                            ensure!(got[r] >= lo && got[r] <= hi, "rotor {r} outside {lo}..{hi}: {got:?}");
                            sure |= share[r] < lo - tol || share[r] > hi + tol;
                            edge |= (share[r] - lo).abs() <= tol || (share[r] - hi).abs() <= tol;
                        }
                        ensure!(!sure || c.saturated(), "held back without saying so: share {share:?} limits {lo}..{hi} {}", what());
                        ensure!(sure || edge || !c.saturated(), "called held back: share {share:?} limits {lo}..{hi} {}", what());
                        // what the rotors then produce
                        let wr = m.wrench(c.thrusts());
                        let (fo, to) = (ga(wr.force().into_array()), ga(wr.torque().into_array()));
                        let mut tor = [0.0; 3];
                        for r in 0..N {
                            tor = add3(tor, cross(p[r], [0.0, 0.0, got[r]]));
                            tor[2] += k * up(s[r]) * got[r];
                        }
                        let mag: f64 = got.iter().map(|x| x.abs()).sum();
                        ensure!(fo[0] == 0.0 && fo[1] == 0.0, "rotors push along z: {fo:?}");
                        ensure_close!(fo[2], got.iter().sum::<f64>(), 0.0, 8.0 * T::EPS * mag, "push");
                        for q in 0..3 {
                            ensure_close!(to[q], tor[q], 0.0, 8.0 * T::EPS * mag * (reach + k), "turn {to:?}, expected {tor:?}, {}", what());
                        }
                        if !c.saturated() && !edge && !sure {
                            ensure_close!(fo[2], w[0], 0.0, tol * N as f64, "push asked");
                            for q in 0..3 {
                                ensure_close!(to[q], w[q + 1], 0.0, tol * N as f64 * if q < 2 { reach } else { k }, "turn asked {w:?} produced {to:?}, {}", what());
                            }
                        }
                        out ^= hf(&got);
                    }
                }
            }
        }
    }
    Ok(out)
}
fn spins<const N: usize>(x: usize) -> [RotorSpin; N] {
    core::array::from_fn(|r| if x >> r & 1 == 1 { RotorSpin::Clockwise } else { RotorSpin::CounterClockwise })
}
fn mixing<T: Fl>(ck: &Ck) {
    let sites: [V3; 7] = [[0.3, -0.2, 0.0], [-0.3, 0.2, 0.05], [0.2, 0.3, 0.0], [-0.25, -0.3, 0.0], [0.0, 0.4, -0.1], [0.4, 0.0, 0.0], [0.0, 0.0, 0.0]];
    for scale in [1.0, 0.1, 10.0] {
        for k in [0.016, 0.3] {
            let n = 7u64.pow(4) * 16;
            ck.space(&format!("layouts_4_{scale}_{k}_{}", T::NAME), n, |i| {
                let mut d = Dig(i);
                format!("spins {:?} at {:?}", spins::<4>(d.n(16)), (0..4).map(|_| d.pick(&sites)).collect::<Vec<_>>())
            }, |i| {
                let mut d = Dig(i);
                let s = spins::<4>(d.n(16));
                let p: [V3; 4] = core::array::from_fn(|_| sc3(d.pick(&sites), scale));
                mixer::<4, T>(p, s, k, 300.0)
            });
        }
    }
    fn ring<const N: usize, T: Fl>(ck: &Ck) {
        ck.space(&format!("ring_{N}_{}", T::NAME), (1u64 << N) * 3 * 3 * 3, |i| format!("{i}"), |i| {
            let mut d = Dig(i);
            let s = spins::<N>(d.n(1 << N));
            let (l, k, off) = (d.pick(&[0.05, 0.25, 4.0]), d.pick(&[0.005, 0.02, 1.0]), d.pick(&[0.0, 0.3, -1.0]));
            let p: [V3; N] = core::array::from_fn(|r| {
                let a = (r as f64 + 0.3) * std::f64::consts::TAU / N as f64;
                [l * (a.cos() + off), l * (a.sin() - off * 0.5), 0.02 * r as f64]
            });
            mixer::<N, T>(p, s, k, 300.0)
        });
    }
    ring::<1, T>(ck);
    ring::<2, T>(ck);
    ring::<3, T>(ck);
    ring::<4, T>(ck);
    ring::<5, T>(ck);
    ring::<6, T>(ck);
    ring::<8, T>(ck);
    // airframes from the size of a coin to the size of a bus
    ck.space(&format!("frame_size_{}", T::NAME), 11 * 11 * 2, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let l = d.pick(&[1e-9, 1e9, 0.003, 0.01, 0.03, 0.1, 0.25, 1.0, 5.0, 20.0, 100.0]);
        let k = d.pick(&[1e-17, 1e9, 1e-4, 1e-3, 3e-3, 0.01, 0.016, 0.05, 0.2, 1.0, 3.0]);
        if d.n(2) == 0 {
            let c = RotorSpin::Clockwise;
            let w = RotorSpin::CounterClockwise;
            let h = l / 2f64.sqrt();
            mixer::<4, T>([[h, -h, 0.0], [-h, h, 0.0], [h, h, 0.0], [-h, -h, 0.0]], [c, c, w, w], k, 300.0)
        } else {
            let s = spins::<6>(0b101010);
            let p: [V3; 6] = core::array::from_fn(|r| {
                let a = r as f64 * std::f64::consts::PI / 3.0;
                [l * a.cos(), l * a.sin(), 0.0]
            });
            mixer::<6, T>(p, s, k, 300.0)
        }
    });
    let sp = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -1.0, -0.0, 0.0, 0.2, 1.0, 3.0];
    ck.space(&format!("quadrotor_x_{}", T::NAME), 9u64.pow(4), |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let [l, k, lo, hi] = d.arr::<4, f64>(&sp).map(rd::<T>);
        let mut al = vec![];
        if ![l, k, lo, hi].iter().all(|x| x.is_finite()) {
            al.push(E::NonFinite);
        }
        if l <= 0.0 {
            al.push(E::NonPositiveArmLength);
        }
        if k <= 0.0 {
            al.push(E::NonPositiveTorqueRatio);
        }
        if hi <= lo {
            al.push(E::InvalidThrustLimits);
        }
        let Some(m) = verdict(MultirotorMixer::<4, T>::quadrotor_x(t(l), t(k), t(lo), t(hi)), &al, &format!("quadrotor {l} {k} {lo} {hi}"))? else { return Ok(0) };
        let h = l / 2f64.sqrt();
        // front right, back left, front left, back right: pushing one alone tips away from it
        let at: [V3; 4] = [[h, -h, 0.0], [-h, h, 0.0], [h, h, 0.0], [-h, -h, 0.0]];
        for r in 0..4 {
            let mut f = [0.0; 4];
            f[r] = 1.0;
            let w = ga(m.wrench(Vector::new(ta(f))).torque().into_array());
            let want = add3(cross(at[r], [0.0, 0.0, 1.0]), [0.0, 0.0, if r < 2 { k } else { -k }]);
            for q in 0..3 {
                ensure_close!(w[q], want[q], 8.0 * T::EPS, 0.0, "rotor {r} of a quadrotor, {w:?}");
            }
        }
        ensure!(g(m.minimum_thrust()) == lo && g(m.maximum_thrust()) == hi, "limits");
        Ok(1)
    });
    ck.space(&format!("mixer_domain_{}", T::NAME), 9u64.pow(5), |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let [x, y, k, lo, hi] = d.arr::<5, f64>(&sp).map(rd::<T>);
        let mut al = vec![];
        if ![x, y, k, lo, hi].iter().all(|v| v.is_finite()) {
            al.push(E::NonFinite);
        }
        if k <= 0.0 {
            al.push(E::NonPositiveTorqueRatio);
        }
        if hi <= lo {
            al.push(E::InvalidThrustLimits);
        }
        let p: [V3; 4] = [[x, y, 0.0], [-0.4, 0.5, 0.0], [0.5, 0.4, 0.0], [-0.5, -0.5, 0.0]];
        let s = spins::<4>(0b0011);
        let size = inverse(&alloc(&p, &s, k)).map_or(f64::INFINITY, |v| v.1);
        let ok = size < 1e12;
        let r = MultirotorMixer::<4, T>::new(p.map(|q| Vector::new(ta(q))), s, t(k), t(lo), t(hi));
        op(1);
        if al.is_empty() && size > 300.0 && ok {
            return Ok(3); // close to dependent: either answer
        }
        if al.is_empty() && !ok {
            ensure!(matches!(r, Err(E::RotorLayoutNotIndependent | E::Linalg(_))), "{r:?}");
            return Ok(2);
        }
        verdict(r, &al, &format!("mixer {x} {y} {k} {lo} {hi}"))?;
        // every layout short of a direction says so
        let one = MultirotorMixer::<3, T>::new(core::array::from_fn(|r| Vector::new(ta(p[r + 1]))), spins::<3>(1), t(k), t(lo), t(hi));
        if al.is_empty() {
            ensure!(matches!(one, Err(E::RotorLayoutNotIndependent | E::Linalg(_))), "three rotors: {one:?}");
        }
        Ok(1)
    });
}

fn lag<T: Fl>(ck: &Ck) {
    #[derive(Clone)]
    struct S<T: Fl> {
        m: RotorLag<3, T>,
        f: [f64; 3],
        n: u32,
    }
    let cmds: [[f64; 3]; 5] = [[0.0, 0.0, 0.0], [1.0, 5.0, -2.0], [4.0, 4.0, 4.0], [100.0, 1e-3, 0.5], [-3.0, 5.0, 5.0]];
    let overs = [1e-4, 0.02, 3.0, 0.0];
    for (tau, dt) in [(0.05, 0.005), (0.05, 0.05), (1.0, 1e-4), (0.02, 1.0), (0.1, 30.0)] {
        let (tau, dt) = (rd::<T>(tau), rd::<T>(dt));
        ck.bfs::<S<T>>(
            &format!("lag_{tau}_{dt}_{}", T::NAME),
            ck.q(5, 6),
            &|| {
                let m = RotorLag::new(t(tau), t(dt)).map_err(|e| format!("{e:?}"))?;
                ensure!(g(m.time_constant()) == tau && g(m.timestep()) == dt && ga(m.thrusts().into_array()) == [0.0; 3], "start");
                Ok(S { m, f: [0.0; 3], n: 0 })
            },
            5 + 8 + 2,
            &|a| match a {
                0..=4 => format!("step toward {:?}", cmds[a as usize]),
                5..=12 => format!("step over {} toward {:?}", overs[(a - 5) as usize % 4], cmds[1 + (a - 5) as usize / 4]),
                13 => "reset".into(),
                _ => "start at [2, 0.5, -1]".into(),
            },
            &|s, a| {
                let (c, h) = match a {
                    0..=4 => (cmds[a as usize], dt),
                    5..=12 => (cmds[1 + (a - 5) as usize / 4], rd::<T>(overs[(a - 5) as usize % 4])),
                    13 => {
                        s.m.reset();
                        s.f = [0.0; 3];
                        s.n = 0;
                        ensure_eq!(ga(s.m.thrusts().into_array()), s.f, "reset");
                        return Ok(1);
                    }
                    _ => {
                        s.f = [2.0, 0.5, -1.0];
                        s.n = 0;
                        s.m = s.m.with_thrusts(Vector::new(ta(s.f)));
                        ensure_eq!(ga(s.m.thrusts().into_array()), s.f, "with thrusts");
                        return Ok(2);
                    }
                };
                let c = c.map(rd::<T>);
                let before = ga(s.m.thrusts().into_array());
                let rate = ga(s.m.rate(Vector::new(ta(c))).into_array());
                let got = ga(if a < 5 { s.m.stepped(Vector::new(ta(c))) } else { s.m.stepped_over(Vector::new(ta(c)), t(h)) }.into_array());
                s.n += 1;
                ensure_eq!(ga(s.m.thrusts().into_array()), got, "thrusts after a step");
                for k in 0..3 {
                    let mag = before[k].abs() + c[k].abs();
                    let want = c[k] + (s.f[k] - c[k]) * (-h / tau).exp();
                    s.f[k] = want;
                    ensure_close!(got[k], want, 0.0, 16.0 * T::EPS * (100.0 * s.n as f64).min(mag + 100.0 * (s.n - 1) as f64), "rotor {k}: {before:?} toward {c:?} over {h}: {got:?}");
                    // one tick on its own: the share of the gap closed is exact, never past the command
                    let close = -(-h / tau).exp_m1() * (c[k] - before[k]);
                    ensure_close!(got[k] - before[k], close, 8.0 * T::EPS, 2.0 * T::EPS * mag, "gap closed by rotor {k}");
                    let (lo, hi) = (before[k].min(c[k]), before[k].max(c[k]));
                    ensure!(got[k] >= lo - 2.0 * T::EPS * mag && got[k] <= hi + 2.0 * T::EPS * mag, "overshoot of rotor {k}: {before:?} toward {c:?}: {got:?}");
                    ensure_close!(rate[k], (c[k] - before[k]) / tau, 8.0 * T::EPS, 0.0, "rate of rotor {k}");
                }
                Ok(hf(&got))
            },
            &|_| None,
        );
    }
    // a short tick is as exact as a long one, and ticks add up
    let taus = [0.01, 0.05, 0.7, 10.0];
    let hs = [1e-7, 1e-5, 1e-3, 0.03, 1.0, 40.0];
    ck.space(&format!("lag_shares_{}", T::NAME), 4 * 6 * 5, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let (tau, h, n) = (rd::<T>(d.pick(&taus)), rd::<T>(d.pick(&hs)), d.pick(&[1u32, 2, 10, 1000, 20000]));
        let mut m = RotorLag::<2, T>::new(t(tau), t(h)).map_err(|e| format!("{e:?}"))?;
        let c = Vector::new(ta([2.0, -1.0]));
        let first = ga(m.stepped(c).into_array())[0];
        ensure_close!(first, -2.0 * (-h / tau).exp_m1(), 16.0 * T::EPS, 0.0, "first tick of {h} with lag {tau}");
        let mut last = first;
        for _ in 1..n {
            let v = ga(m.stepped(c).into_array())[0];
            ensure!(v >= last - 2.0 * T::EPS && v <= 2.0 + 4.0 * T::EPS, "thrust falls back or overshoots: {last} then {v}");
            last = v;
        }
        op(n as u64);
        let want = -2.0 * (-(n as f64) * h / tau).exp_m1();
        // rounding of each tick is forgotten at the lag's own pace
        let memory = (n as f64).min(1.0 + tau / h);
        ensure_close!(last, want, 16.0 * T::EPS, 16.0 * T::EPS * memory * want.abs().min(2.0), "after {n} ticks of {h} with lag {tau}");
        let mut one = RotorLag::<2, T>::new(t(tau), t(h)).map_err(|e| format!("{e:?}"))?;
        let whole = rd::<T>(h * n as f64);
        let v = ga(one.stepped_over(c, t(whole)).into_array());
        ensure_close!(v[0], -2.0 * (-whole / tau).exp_m1(), 16.0 * T::EPS, 0.0, "one tick of {whole}");
        ensure_close!(v[1], -v[0] / 2.0, 4.0 * T::EPS, 0.0, "both rotors alike");
        Ok(hf(&[last]))
    });
    ck.space(&format!("lag_domain_{}", T::NAME), 14 * 14 * 14, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let [tau, h, c] = d.arr::<3, f64>(&SPECIAL).map(rd::<T>);
        let mut al = vec![];
        if !tau.is_finite() || !h.is_finite() {
            al.push(E::NonFinite);
        }
        if tau <= 0.0 {
            al.push(E::NonPositiveTimeConstant);
        }
        if h <= 0.0 {
            al.push(E::NonPositiveTimestep);
        }
        let Some(mut m) = verdict(RotorLag::<1, T>::new(t(tau), t(h)), &al, &format!("lag {tau} tick {h}"))? else { return Ok(0) };
        let v = g(m.stepped(Vector::new([t(c)]))[0]);
        if c.is_finite() {
            ensure!(v.is_finite() && v.abs() <= c.abs() * (1.0 + 4.0 * T::EPS), "lag {tau} tick {h} toward {c}: {v}");
        } else {
            ensure!(!v.is_finite(), "a command that is not finite comes back not finite: {v}");
        }
        Ok(1)
    });
}
fn main() {
    let ck = Ck::new("C33");
    ck.assume("Rotor layouts within a factor 300 of dependent (rows scaled to size one) may be accepted or refused.");
    mixing::<f64>(&ck);
    lag::<f64>(&ck);
    mixing::<f32>(&ck);
    lag::<f32>(&ck);
    ck.finish();
}
