//! C26: the Mahony and Madgwick attitude filters.
use mc::kin::{so, v3};
use mc::la::*;
use mc::num::*;
use mc::refmodel::*;
use mc::*;
use multicalc::error::EstimationError as E;
use multicalc::estimation::*;
use multicalc::linear_algebra::Vector;
use multicalc::scalar::Numeric;

fn rd<T: Fl>(x: f64) -> f64 {
    g(t::<T>(x))
}
fn rd3<T: Fl>(x: V3) -> V3 {
    x.map(rd::<T>)
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Filter<T: Numeric> {
    Mahony(MahonyFilter<T>),
    Madgwick(MadgwickFilter<T>),
}
use Filter::*;
impl<T: Fl> Filter<T> {
    fn new(kind: usize, q: Q) -> Self {
        if kind == 0 { Mahony(MahonyFilter::new(so(q))) } else { Madgwick(MadgwickFilter::new(so(q))) }
    }
    fn gains(self, a: f64, b: f64) -> Self {
        match self {
            Mahony(f) => Mahony(f.with_proportional_gain(t(a)).with_integral_gain(t(b))),
            Madgwick(f) => Madgwick(f.with_correction_gain(t(a)).with_bias_gain(t(b))),
        }
    }
    fn world(self, up: V3, north: V3) -> Self {
        match self {
            Mahony(f) => Mahony(f.with_reference_directions(v3(up), v3(north))),
            Madgwick(f) => Madgwick(f.with_reference_directions(v3(up), v3(north))),
        }
    }
    fn step(&mut self, w: V3, a: V3, m: Option<V3>, dt: f64) -> Result<(), E> {
        let m = m.map(v3::<T>);
        match self {
            Mahony(f) => f.step(v3(w), v3(a), m, t(dt)),
            Madgwick(f) => f.step(v3(w), v3(a), m, t(dt)),
        }
    }
    fn step_without(&mut self, w: V3, a: V3, dt: f64) -> Result<(), E> {
        match self {
            Mahony(f) => f.step_without_magnetometer(v3(w), v3(a), t(dt)),
            Madgwick(f) => f.step_without_magnetometer(v3(w), v3(a), t(dt)),
        }
    }
    fn set(&mut self, q: Q, b: V3) {
        match self {
            Mahony(f) => { f.set_orientation(so(q)); f.set_gyroscope_bias(v3(b)) }
            Madgwick(f) => { f.set_orientation(so(q)); f.set_gyroscope_bias(v3(b)) }
        }
    }
    fn q(&self) -> Q {
        ga(match self { Mahony(f) => f.orientation(), Madgwick(f) => f.orientation() }.quaternion().as_array())
    }
    fn bias(&self) -> V3 {
        ga(match self { Mahony(f) => f.gyroscope_bias(), Madgwick(f) => f.gyroscope_bias() }.into_array())
    }
}
/// reference filter
#[derive(Clone, Copy, Debug)]
struct Ref {
    kind: usize,
    q: Q,
    b: V3,
    gain: f64,
    bias_gain: f64,
    up: V3,
    north: V3,
}
fn unit(v: V3) -> V3 {
    let n = norm3(v);
    if n > 0.0 && n.is_finite() { sc3(v, 1.0 / n) } else { [0.0; 3] }
}
impl Ref {
    /// the correction, and how much of the field is level
    fn correction(&self, a: V3, m: Option<V3>) -> (V3, f64) {
        let to_body = qconj(self.q);
        let mut c = cross(unit(a), qrot(to_body, self.up));
        let mut lying = 1.0;
        if let Some(m) = m {
            let m = unit(m);
            let w = qrot(self.q, m);
            let vertical = dot3(w, self.up);
            // the level part, laid along north
            let level = norm3(sub3(w, sc3(self.up, vertical)));
            c = add3(c, cross(m, qrot(to_body, add3(sc3(self.north, level), sc3(self.up, vertical)))));
            if norm3(m) > 0.0 { lying = level; }
        }
        (c, lying)
    }
    /// how big the correction is, before anything is scaled, and how much of the field is level
    fn step(&mut self, w: V3, a: V3, m: Option<V3>, dt: f64) -> (f64, f64) {
        let (raw, level) = self.correction(a, m);
        let c = if self.kind == 0 { raw } else { unit(raw) };
        self.b = sub3(self.b, sc3(c, self.bias_gain * dt));
        let rate = add3(sub3(w, self.b), sc3(c, self.gain));
        self.q = qnormed(qmul(self.q, qexp(sc3(rate, dt))));
        (norm3(raw), level)
    }
}
fn starts() -> Vec<Q> {
    vec![[1.0, 0.0, 0.0, 0.0], qexp([0.5, -0.75, 1.0]), qexp([0.0, 0.0, 2.5]), qexp([-1.5, 1.0, 0.25]), [0.0, 0.6, 0.0, 0.8]]
}
fn histories<T: Fl>(ck: &Ck) {
    let nm = T::NAME;
    let rates: Vec<V3> = vec![[0.0; 3], [0.5, -1.0, 2.0], [20.0, -30.0, 10.0]];
    let pushes: Vec<V3> = vec![[0.0; 3], [0.0, 0.0, 9.75], [3.0, -6.0, 2.0], [0.0, 0.0, -4.0], [1e-6, 2e-6, -1e-6], [1e8, 0.0, 1e8]];
    let fields: Vec<Option<V3>> = vec![None, Some([0.0; 3]), Some([0.5, 0.0, 0.0]), Some([0.25, -0.5, -0.75]), Some([0.0, 0.0, 45.0]), Some([-3e7, 1e7, 2e7])];
    let steps = [0.0, 0.01, 0.5];
    let ops = (3 * 6 * 6 * 3) as u64;
    let nq = ck.q(3usize, 5);
    let worlds: Vec<Option<(V3, V3)>> = vec![None, Some(([0.0, 0.0, -2.0], [1.0, 1.0, 5.0])), Some(([1.0, 2.0, -2.0], [0.0, 3.0, 1.0]))];
    let gains = [[1.0, 0.1], [4.0, 0.0], [0.0, 2.0]];
    let len = 2;
    let configs: u64 = 2 * nq as u64 * 3 * 3;
    let dec = move |i: u64| {
        let mut d = Dig(i);
        let (kind, start) = (d.n(2), d.n(nq));
        let (world, gain) = (d.n(3), d.n(3));
        let w: Vec<[usize; 4]> = (0..len).map(|_| [d.n(3), d.n(6), d.n(6), d.n(3)]).collect();
        (kind, start, world, gain, w)
    };
    let run = |(kind, start, world, gain, w): (usize, usize, usize, usize, Vec<[usize; 4]>)| -> Result<u64, String> {
        let [ga_, gb] = gains[gain].map(rd::<T>);
        let q = qnormed(starts()[start].map(rd::<T>));
        let b = [0.0625, -0.125, 0.25];
        let mut f = Filter::<T>::new(kind, q).gains(ga_, gb);
        let mut r = Ref { kind, q, b, gain: ga_, bias_gain: gb, up: [0.0, 0.0, 1.0], north: [1.0, 0.0, 0.0] };
        if let Some((u, n)) = worlds[world] {
            f = f.world(u, n);
            r.up = unit(u);
            r.north = unit(sub3(n, sc3(r.up, dot3(n, r.up))));
        }
        f.set(q, b);
        let e = T::EPS;
        let mut tol = 32.0 * e;
        for (at, k) in w.iter().enumerate() {
            op(1);
            let (rate, push, field, dt) = (rates[k[0]], rd3::<T>(pushes[k[1]]), fields[k[2]].map(rd3::<T>), rd::<T>(steps[k[3]]));
            let before = f;
            let (size, level) = r.step(rate, push, field, dt);
            f.step(rate, push, field, dt).map_err(|e| format!("refused {e:?}"))?;
            let (fc, rc) = (f, r);
            let what = || format!("step {at} of {w:?} from {start}, {fc:?} for {rc:?}");
            if field.is_none() {
                let mut other = before;
                other.step_without(rate, push, dt).map_err(|e| format!("refused {e:?}"))?;
                ensure!(other == f, "a step without a magnetometer is another step: {other:?}, {}", what());
            }
            if kind == 1 && size < 1e-3 {
                // too small to say which way it points: only how far it may go
                let most = (norm3(rate) + norm3(before.bias()) + ga_ + gb * dt) * dt;
                let went = 2.0 * (qdist(before.q(), f.q()) / 2.0).asin();
                ensure!(2.0 * went <= most * (1.0 + 1e-3) + 64.0 * e, "moved {went}, at most {most}, {}", what());
                (r.q, r.b) = (qnormed(f.q()), f.bias());
            }
            tol = tol * (2.0 + 8.0 * dt * (ga_ + gb) * if kind == 1 { 1.0 / size.max(1e-3) } else { 2.0 }) + 64.0 * e * (1.0 + norm3(rate) * dt + dt * (ga_ + gb) * if kind == 1 { 1.0 / size.max(1e-3) } else { 1.0 });
            // a field that stands nearly upright says its level part only to a square root of the rounding
            tol += 8.0 * dt * (ga_ + gb) * (e / level.max(e.sqrt()) - e) * if kind == 1 { 1.0 / size.max(1e-3) } else { 1.0 };
            let d = qdist(f.q(), r.q);
            ensure!(d <= tol, "facing {d} off (allowed {tol}), {}", what());
            vclose(&f.bias(), &r.b, tol * (1.0 + norm3(r.b)), &format!("offset, {}", what()))?;
            let len = f.q().iter().map(|x| x * x).sum::<f64>().sqrt();
            ensure!((len - 1.0).abs() <= 4.0 * e, "length {len}, {}", what());
        }
        Ok(hf(&r.q))
    };
    ck.space(&format!("histories_{nm}"), configs * ops.pow(len as u32), |i| format!("{:?}", dec(i)), |i| run(dec(i)));
    // longer ones from a narrower choice
    let long: usize = ck.q(3, 4);
    let deep = |i: u64| {
        let mut d = Dig(i);
        let (kind, start, world, gain) = (d.n(2), 1 + d.n(2), d.n(2), d.n(3));
        let w: Vec<[usize; 4]> = (0..long).map(|_| [1 + d.n(2), 2 * d.n(2), d.pick(&[0, 3]), 1 + d.n(2)]).collect();
        (kind, start, world, gain, w)
    };
    ck.space(&format!("long_histories_{nm}"), 24 * 16u64.pow(long as u32), |i| format!("{:?}", deep(i)), |i| run(deep(i)));
}
/// Any unit of push and of field, and any unit of time, gives the same facing.
fn units<T: Fl>(ck: &Ck) {
    let nm = T::NAME;
    let two = |e: i32| 2f64.powi(e);
    let rates: [V3; 2] = [[0.5, -1.0, 2.0], [0.0; 3]];
    let pushes: [V3; 3] = [[3.0, -6.0, 2.0], [0.0, 0.0, 9.75], [0.0, 0.0, -4.0]];
    let fields: [Option<V3>; 3] = [None, Some([0.25, -0.5, -0.75]), Some([-1.5, 0.5, 1.0])];
    let far = if T::IS32 { 110 } else { 900 };
    let mags = [0, -far, far, -far / 2, far / 2];
    let times = if T::IS32 { [0, -14, 14] } else { [0, -100, 100] };
    let len = ck.q(2usize, 3);
    let ops = 18u64;
    let dec = move |i: u64| {
        let mut d = Dig(i);
        let c = (d.n(2), d.n(5), d.n(2), d.pick(&mags), d.pick(&mags), d.pick(&times));
        let w: Vec<[usize; 3]> = (0..len).map(|_| [d.n(2), d.n(3), d.n(3)]).collect();
        (c, w)
    };
    ck.space(&format!("units_{nm}"), 20 * 75 * ops.pow(len as u32), |i| format!("{:?}", dec(i)), |i| {
        let ((kind, start, world, pu, fu, tu), w) = dec(i);
        let go = |pu: i32, fu: i32, tu: i32| -> Result<Vec<(Q, V3)>, String> {
            let mut f = Filter::<T>::new(kind, qnormed(starts()[start].map(rd::<T>))).gains(2.0 * two(-tu), 0.5 * two(-2 * tu));
            if world == 1 { f = f.world(sc3([1.0, 2.0, -2.0], two(pu / 2)), sc3([0.0, 3.0, 1.0], two(fu / 2))) }
            f.set(qnormed(starts()[start].map(rd::<T>)), sc3([0.0625, -0.125, 0.25], two(-tu)));
            let mut out = vec![];
            for k in &w {
                f.step(sc3(rates[k[0]], two(-tu)), sc3(pushes[k[1]], two(pu)), fields[k[2]].map(|m| sc3(m, two(fu))), 0.125 * two(tu)).map_err(|e| format!("refused {e:?}"))?;
                out.push((f.q(), sc3(f.bias(), two(tu))));
            }
            Ok(out)
        };
        let (a, b) = (go(0, 0, 0)?, go(pu, fu, tu)?);
        for (at, ((q, x), (r, y))) in a.iter().zip(&b).enumerate() {
            op(1);
            let slack = if kind == 1 { 1e4 } else { 200.0 } * T::EPS;
            ensure!(qdist(*q, *r) <= slack, "facing after {at} steps: {r:?}, in plain units {q:?}");
            vclose(y, x, slack, "offset")?;
        }
        Ok(hf(&a[a.len() - 1].0))
    });
}
fn lattice() -> Vec<V3> {
    let mut v = vec![];
    for i in 0..27 {
        let a = [i % 3, i / 3 % 3, i / 9].map(|x| x as f64 - 1.0);
        if norm3(a) > 0.0 { v.push(unit(a)) }
    }
    v
}
fn settling<T: Fl>(ck: &Ck) {
    let nm = T::NAME;
    let axes = lattice();
    let na = axes.len();
    let angles = [0.05, 0.4, 1.0, 1.8, 2.5, 3.0];
    let dips: [f64; 4] = [0.0, 1.0, -1.0, 0.4];
    let turning = [[0.0; 3], [0.25, -0.125, 0.5]];
    let off = [[0.0; 3], [0.03, -0.02, 0.04]];
    let dec = |i: u64| {
        let mut d = Dig(i);
        (d.n(2), d.pick(&axes), d.pick(&angles), d.pick(&dips), d.n(2), d.n(2), d.n(2))
    };
    let dt = 0.02;
    ck.space(&format!("settling_{nm}"), 2 * na as u64 * 6 * 4 * 2 * 2 * 2, |i| format!("{:?}", dec(i)), |i| {
        let (kind, axis, angle, dip, turn, bias, world) = dec(i);
        let (up, north) = if world == 0 { ([0.0, 0.0, 1.0], [1.0, 0.0, 0.0]) } else { ([0.0, 0.6, -0.8], [0.0, 0.8, 0.6]) };
        let field = add3(sc3(north, 40.0 * dip.cos()), sc3(up, -40.0 * dip.sin()));
        let mut truth = qexp([0.3, 0.2, -0.4]);
        let q0 = qmul(truth, qexp(sc3(axis, angle)));
        let mut f = Filter::<T>::new(kind, q0).gains(if kind == 0 { 1.0 } else { 0.25 }, if kind == 0 { 0.2 } else { 0.02 });
        if world == 1 { f = f.world(up, north) }
        let (w, b) = (turning[turn], rd3::<T>(off[bias]));
        let n = ck.q(12_000, 20_000);
        let mut worst = 0.0f64;
        for k in 0..n {
            op(1);
            let back = qconj(truth);
            f.step(add3(w, b), qrot(back, sc3(up, 9.81)), Some(qrot(back, field)), dt).map_err(|e| format!("refused {e:?}"))?;
            truth = qnormed(qmul(truth, qexp(sc3(w, dt))));
            if k + 500 > n { worst = worst.max(2.0 * qdist(truth, f.q())) }
        }
        // the fixed nudge hunts about the answer by a few of its own steps
        let near = if kind == 0 { 2e-3 } else { 0.25 * dt * 4.0 + 2e-3 };
        ensure!(worst <= near + 400.0 * T::EPS, "the facing is still {worst} off");
        let left = norm3(sub3(f.bias(), b));
        ensure!(left <= if kind == 0 { 2e-3 } else { 1e-2 }, "the offset is still {left} off: {:?}", f.bias());
        Ok(kind as u64)
    });
    // whatever the field does, the lean is the push sensor's
    let deca = |i: u64| {
        let mut d = Dig(i);
        (d.n(2), d.pick(&axes), d.pick(&angles), d.pick(&axes))
    };
    ck.space(&format!("no_lean_{nm}"), 2 * (na * 6 * na) as u64, |i| format!("{:?}", deca(i)), |i| {
        let (kind, axis, angle, field) = deca(i);
        if kind == 0 && angle > 2.4 && axis[2].abs() < 0.1 { return Ok(3) }
        // a heading exactly opposite balances on an edge: start beside it
        let mut f = Filter::<T>::new(kind, qmul(qexp([0.01, 0.02, 0.03]), qexp(sc3(axis, angle)))).gains(if kind == 0 { 1.0 } else { 0.1 }, 0.0);
        let lean = |q: Q| { let u = qrot(q, [0.0, 0.0, 1.0]); norm3([u[0], u[1], 0.0]).atan2(u[2]) };
        for _ in 0..16_000 {
            op(1);
            f.step([0.0; 3], [0.0, 0.0, 9.81], Some(field), dt).map_err(|e| format!("refused {e:?}"))?;
        }
        let mut most = 0.0f64;
        for _ in 0..50 {
            f.step([0.0; 3], [0.0, 0.0, 9.81], Some(field), dt).map_err(|e| format!("refused {e:?}"))?;
            most = most.max(lean(qnormed(f.q())));
        }
        ensure!(most <= if kind == 0 { 1e-3 } else { 0.1 * dt * 4.0 }, "still leans {most}");
        Ok(1)
    });
    // no magnetometer: the lean comes in without ever growing and the heading is nobody's business
    ck.space(&format!("lean_only_{nm}"), 2 * (na * 6 * 3) as u64, |i| format!("{:?}", deca(i)), |i| {
        let mut d = Dig(i);
        let (kind, axis, angle, scale) = (d.n(2), d.pick(&axes), d.pick(&angles), d.pick(&[9.81, 1e-3, 1e4]));
        let gain = if kind == 0 { 1.0 } else { 0.25 };
        let mut f = Filter::<T>::new(kind, qexp(sc3(axis, angle))).gains(gain, 0.0);
        let lean = |q: Q| { let u = qrot(q, [0.0, 0.0, 1.0]); norm3([u[0], u[1], 0.0]).atan2(u[2]) };
        let mut now = lean(qnormed(f.q()));
        for k in 0..2000 {
            op(1);
            let before = qnormed(f.q());
            f.step([0.0; 3], [0.0, 0.0, scale], None, dt).map_err(|e| format!("refused {e:?}"))?;
            let after = qnormed(f.q());
            let turn = qmul(after, qconj(before));
            ensure!((2.0 * turn[3]).abs() <= 16.0 * T::EPS, "step {k} moved the heading by {}", 2.0 * turn[3]);
            let next = lean(after);
            let slack = if kind == 0 { 0.0 } else { gain * dt };
            ensure!(next <= (now + 16.0 * T::EPS).max(slack * 1.001), "step {k}: the lean grew from {now} to {next}");
            // how fast it comes in: by its sine, or at the walking rate
            let want = if kind == 0 { now - gain * dt * now.sin() } else { now - gain * dt };
            if now > 0.02 && now < 3.1 { ensure_close!(next, want, 0.0, 64.0 * T::EPS + 1e-9, "step {k}: lean after {now}") }
            now = next;
        }
        ensure!(now <= 0.02 || angle > 2.9 , "still leans {now}");
        Ok(1)
    });
}
fn worlds<T: Fl>(ck: &Ck) {
    let nm = T::NAME;
    let pts: Vec<V3> = (0..125).map(|i| [i % 5, i / 5 % 5, i / 25].map(|x| x as f64 - 2.0)).collect();
    let scales = [[1.0, 1.0], [1e6, 1e-6], [0.1, 7.3]];
    ck.space(&format!("worlds_{nm}"), 2 * 125 * 125 * 3, |i| { let mut d = Dig(i); format!("{} {:?} {:?} {:?}", d.n(2), d.pick(&pts), d.pick(&pts), d.pick(&scales)) }, |i| {
        let mut d = Dig(i);
        let (kind, u, n, [su, sn]) = (d.n(2), d.pick(&pts), d.pick(&pts), d.pick(&scales));
        let (up, north) = (rd3::<T>(sc3(u, su)), rd3::<T>(sc3(n, sn)));
        let q = qnormed(qexp([0.5, -0.75, 1.0]).map(rd::<T>));
        let base = Filter::<T>::new(kind, q).gains(1.0, 0.5);
        let before = base.world([0.0, 0.0, 2.0], [1.0, 0.0, 1.0]);
        let f = before.world(up, north);
        let usable = norm3(cross(u, n)) > 0.0;
        let what = format!("up {up:?} north {north:?}: {f:?}");
        if !usable {
            ensure!(f == before, "no two directions, but they were taken, {what}");
            return Ok(0);
        }
        let up = unit(up);
        let mut r = Ref { kind, q, b: [0.0; 3], gain: 1.0, bias_gain: 0.5, up, north: unit(sub3(north, sc3(up, dot3(north, up)))) };
        let mut f = f;
        let (a, m) = (rd3::<T>([1.0, 2.0, 8.0]), rd3::<T>([0.25, 0.75, -0.5]));
        let (size, _) = r.step([0.0; 3], a, Some(m), 0.5);
        f.step([0.0; 3], a, Some(m), 0.5).map_err(|e| format!("refused {e:?}, {what}"))?;
        let tol = T::EPS * 64.0 * (1.0 + 1.0 / size.max(1e-3));
        ensure!(qdist(f.q(), r.q) <= tol, "facing {:?} for {:?}, {what}", f.q(), r.q);
        vclose(&f.bias(), &r.b, tol, &what)?;
        Ok(hf(&r.q))
    });
    // north almost upright is still squared up: a field lying level turns the body about up alone
    let ups: Vec<V3> = pts.iter().copied().filter(|p| norm3(*p) > 0.0).collect();
    let deep = if T::IS32 { 18 } else { 45 };
    ck.space(&format!("almost_upright_{nm}"), 2 * 124 * deep * 6, |i| { let mut d = Dig(i); format!("filter {} up {:?} north 2^-{} off it, field {}", d.n(2), d.pick(&ups), d.n(deep as usize), d.n(6)) }, |i| {
        let mut d = Dig(i);
        let (kind, u, off, field) = (d.n(2), unit(d.pick(&ups)), 2f64.powi(-(d.n(deep as usize) as i32)), d.n(6));
        let aside = unit(cross(u, if u[0].abs() < 0.6 { [1.0, 0.0, 0.0] } else { [0.0, 1.0, 0.0] }));
        let north = add3(u, sc3(aside, off));
        let f = Filter::<T>::new(kind, [1.0, 0.0, 0.0, 0.0]).gains(0.0, 1.0);
        let mut f = f.world(u, north);
        f.set([1.0, 0.0, 0.0, 0.0], [0.0; 3]);
        let (sn, cs) = (field as f64 + 0.5).sin_cos();
        let lying = add3(sc3(aside, cs), sc3(cross(u, aside), sn));
        f.step([0.0; 3], [0.0; 3], Some(lying), 1.0).map_err(|e| format!("refused {e:?}"))?;
        let b = f.bias();
        let slip = norm3(sub3(b, sc3(u, dot3(b, u))));
        ensure!(norm3(b) > 0.0 || off < 64.0 * T::EPS, "a field off north turns nothing, {f:?}");
        ensure!(slip <= 64.0 * T::EPS * if kind == 1 { 1.0 / 0.25 } else { 1.0 } || norm3(b) < 1e-2 || off < 64.0 * T::EPS, "the turn leans {slip} away from up: {f:?}");
        Ok(hf(&[(dot3(b, u) * 1e3).round()]))
    });
    let sp = SPECIAL.len() as u64;
    ck.space(&format!("refusals_{nm}"), 2 * sp * 26, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let (kind, v, slot) = (d.n(2), rd::<T>(d.pick(&SPECIAL)), d.n(26));
        let what = format!("kind {kind}, {v} in slot {slot}");
        let mut x = [0.25, -0.5, 0.75, 1.0, -2.0, 9.0, 0.5, 0.25, -0.5, 0.125, 0.5, 0.25, 0.0, 0.5, 0.25];
        if slot < 15 { x[slot] = v }
        let mut f = Filter::<T>::new(kind, qexp([0.1, 0.2, 0.3])).gains(x[10], x[11]);
        f.set(qexp([0.1, 0.2, 0.3]), [x[12], x[13], x[14]]);
        if (15..21).contains(&slot) {
            let mut y = [0.0, 0.0, 1.0, 1.0, 0.0, 0.0];
            y[slot - 15] = v;
            let was = f;
            f = f.world([y[0], y[1], y[2]], [y[3], y[4], y[5]]);
            if !v.is_finite() { ensure!(f == was, "a broken direction was taken, {what}: {f:?}") }
        }
        if (21..25).contains(&slot) {
            let mut q = [1.0, 0.25, -0.5, 0.75];
            q[slot - 21] = v;
            f.set(q, [0.0; 3]);
        }
        let was = f;
        let none = slot == 25;
        let r = f.step([x[0], x[1], x[2]], [x[3], x[4], x[5]], if none { None } else { Some([x[6], x[7], x[8]]) }, x[9]);
        let finite = |f: &Filter<T>| f.q().iter().all(|x| x.is_finite()) && f.bias().iter().all(|x| x.is_finite());
        match r {
            Ok(()) => {
                ensure!(slot >= 15 && slot < 21 || slot >= 21 || v.is_finite(), "a broken value was taken, {what}");
                ensure!(finite(&f), "the answer is not finite, {what}: {f:?}");
                let len = f.q().iter().map(|x| x * x).sum::<f64>().sqrt();
                ensure!((len - 1.0).abs() < 16.0 * T::EPS, "length {len}, {what}");
            }
            Err(E::NonFinite) => {
                ensure!(!v.is_finite() || v.abs() > 1e6 || slot >= 21, "refused, {what}");
                ensure!(format!("{f:?}") == format!("{was:?}"), "a refused step changed the filter, {what}");
            }
            Err(e) => return Err(format!("{e:?}, {what}")),
        }
        Ok(r.is_ok() as u64)
    });
    // hours at a kilohertz
    let ticks = ck.q(200_000, 4_000_000);
    ck.space(&format!("long_runs_{nm}"), 2 * 4, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let (kind, w) = (d.n(2), d.pick(&[[0.5, -0.25, 1.0], [20.0, 3.0, -7.0], [0.0, 0.0, 0.01], [0.0, 0.0, 0.0]]));
        let mut f = Filter::<T>::new(kind, qexp([0.1, 0.2, 0.3]));
        for k in 0..ticks {
            let push = [0.1 * (k % 17) as f64, 0.5, 9.0];
            f.step(w, if k % 3 == 0 { [0.0; 3] } else { push }, None, 0.001).map_err(|e| format!("refused {e:?}"))?;
            if k % 100 == 99 {
                op(1);
                let len = f.q().iter().map(|x| x * x).sum::<f64>().sqrt();
                ensure!((len - 1.0).abs() < 4.0 * T::EPS, "length {len} after {k}");
            }
        }
        Ok(hf(&f.q()))
    });
}
fn main() {
    let ck = Ck::new("C26");
    histories::<f64>(&ck);
    units::<f64>(&ck);
    settling::<f64>(&ck);
    worlds::<f64>(&ck);
    histories::<f32>(&ck);
    units::<f32>(&ck);
    settling::<f32>(&ck);
    worlds::<f32>(&ck);
    ck.assume("Readings and directions whose squares leave the range of the scalar are not used.");
    ck.finish();
}
