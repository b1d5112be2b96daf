//! C23: differential drive, unicycle and odometry against planar motion in closed form.
use mc::num::*;
use mc::*;
use multicalc::error::KinematicsError as E;
use multicalc::kinematics::*;
use multicalc::linear_algebra::Vector;
use multicalc::numerical_derivative::{AutoDiffMulti, Jacobian};
use multicalc::ode::{Rk4, Rk45};
use multicalc::scalar::VectorFn;
use multicalc::spatial::{SE2, SO2};

fn rd<T: Fl>(x: f64) -> f64 {
    g(t::<T>(x))
}
/// sin(w)/w and (1 - cos w)/w with their derivatives, by series where they cancel
fn sc(w: f64) -> (f64, f64, f64, f64) {
    if w.abs() < 0.3 {
        let (mut s, mut c, mut ds, mut dc) = (0.0, 0.0, 0.0, 0.0);
        // sum of (-1)^k w^2k / (2k+1)!  and  (-1)^k w^(2k+1) / (2k+2)!
        let mut f = 1.0;
        for k in 0..12 {
            let n = 2 * k;
            let sg = if k % 2 == 0 { 1.0 } else { -1.0 };
            let f1 = f * (n + 1) as f64;
            let f2 = f1 * (n + 2) as f64;
            s += sg * w.powi(n) / f1;
            c += sg * w.powi(n + 1) / f2;
            if n > 0 {
                ds += sg * n as f64 * w.powi(n - 1) / f1;
            }
            dc += sg * (n + 1) as f64 * w.powi(n) / f2;
            f = f2;
        }
        (s, c, ds, dc)
    } else {
        let (s, c) = (w.sin() / w, (1.0 - w.cos()) / w);
        (s, c, (w.cos() - s) / w, (w.sin() - c) / w)
    }
}
type P = [f64; 3];
/// The pose after an arc of length `s` turning by `w`
fn advance(p: P, s: f64, w: f64) -> P {
    let (a, b, _, _) = sc(w);
    let (c, d) = (p[2].cos(), p[2].sin());
    [p[0] + s * (c * a - d * b), p[1] + s * (d * a + c * b), p[2] + w]
}
fn pose<T: Fl>(p: P) -> SE2<T> {
    SE2::from_parts(SO2::from_angle(t(p[2])), Vector::new(ta([p[0], p[1]])))
}
/// x, y, cos and sin of the heading agree
fn same<T: Fl>(got: SE2<T>, want: P, tol: f64, what: &str) -> Result<(), String> {
    let (c, s) = got.rotation().cos_sin();
    let tr = got.translation();
    let x = [g(tr[0]), g(tr[1]), g(c), g(s)];
    let y = [want[0], want[1], want[2].cos(), want[2].sin()];
    for i in 0..4 {
        let sc = if i < 2 { 1.0 + want[0].abs().max(want[1].abs()) } else { 1.0 };
        ensure!((x[i] - y[i]).abs() <= tol * sc, "{what}: entry {i} is {}, expected {} (pose {want:?})", x[i], y[i]);
    }
    Ok(())
}

const GEO: [(f64, f64); 6] = [(0.1, 0.5), (0.035, 0.16), (1.0, 1.0), (0.5, 3.0), (1e-3, 20.0), (7.0, 0.01)];
const WH: [f64; 11] = [0.0, 1.0, -1.0, 0.1, 3.7, -12.5, 1e-4, 1e-9, -1e-6, 250.0, 1.0001];

fn drive<T: Fl>(ck: &Ck) {
    ck.space(&format!("drive_{}", T::NAME), 6 * 11 * 11 * 5, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let (r, b) = d.pick(&GEO);
        let (l, w) = (d.pick(&WH), d.pick(&WH));
        let h: f64 = d.pick(&[0.01, 1.0, 0.0, 1e-3, -0.5]);
        let dd = DifferentialDrive::new(t::<T>(r), t(b)).map_err(|e| format!("{e:?}"))?;
        let (r, b, l, w, h) = (rd::<T>(r), rd::<T>(b), rd::<T>(l), rd::<T>(w), rd::<T>(h));
        ensure_eq!((g(dd.wheel_radius()), g(dd.wheelbase())), (r, b), "geometry");
        let (lin, ang) = (r * (l + w) / 2.0, r * (w - l) / b);
        let e = T::EPS * 8.0;
        let m = l.abs().max(w.abs());
        let wv = WheelVelocities::new(t::<T>(l), t(w));
        ensure_eq!((g(wv.left()), g(wv.right())), (l, w), "wheel velocities");
        let tw = dd.forward(wv);
        ensure!((g(tw.linear()) - lin).abs() <= e * r * m && (g(tw.angular()) - ang).abs() <= e * r * m / b, "twist {tw:?} of wheels {l} {w}, expected {lin} {ang}");
        let back = dd.inverse(tw);
        ensure!((g(back.left()) - l).abs() <= e * 4.0 * m && (g(back.right()) - w).abs() <= e * 4.0 * m, "wheels {back:?} of the twist of wheels {l} {w}");
        let rot = WheelRotations::new(t::<T>(l), t(w));
        ensure_eq!((g(rot.left()), g(rot.right())), (l, w), "wheel rotations");
        let arc = dd.forward_arc(rot);
        ensure!((g(arc.linear()) - lin).abs() <= e * r * m && (g(arc.angular()) - ang).abs() <= e * r * m / b, "arc {arc:?} of rotations {l} {w}, expected {lin} {ang}");
        let back = dd.inverse_arc(arc);
        ensure!((g(back.left()) - l).abs() <= e * 4.0 * m && (g(back.right()) - w).abs() <= e * 4.0 * m, "rotations {back:?} of the arc of {l} {w}");
        // from the body side
        let (v, o) = (l, w);
        let wl = dd.inverse(BodyTwist::new(t::<T>(v), t(o)));
        let (x, y) = ((v - o * b / 2.0) / r, (v + o * b / 2.0) / r);
        let mm = (v.abs() + (o * b).abs()) / r;
        ensure!((g(wl.left()) - x).abs() <= e * mm && (g(wl.right()) - y).abs() <= e * mm, "wheels {wl:?} for twist {v} {o}, expected {x} {y}");
        let wr = dd.inverse_arc(BodyArc::new(t::<T>(v), t(o)));
        ensure!((g(wr.left()) - x).abs() <= e * mm && (g(wr.right()) - y).abs() <= e * mm, "rotations {wr:?} for arc {v} {o}, expected {x} {y}");
        // travel
        let tr = dd.wheel_rotations_from_travel(t(l), t(w));
        ensure_close!(g(tr.left()), l / r, e, 1e-300, "left rotation from travel");
        ensure_close!(g(tr.right()), w / r, e, 1e-300, "right rotation from travel");
        let (x, y) = dd.wheel_travel(rot);
        ensure_close!(g(x), l * r, e, 1e-300, "left travel");
        ensure_close!(g(y), w * r, e, 1e-300, "right travel");
        // holding a twist
        let a = BodyTwist::new(t::<T>(l), t(w)).integrate_over(t(h));
        ensure_close!(g(a.linear()), l * h, e, 1e-300, "arc of a held twist");
        ensure_close!(g(a.angular()), w * h, e, 1e-300, "turn of a held twist");
        // a twist as a planar motion
        let tg = Vector::new(ta::<T, 3>([l, 0.375, w]));
        let p = BodyTwist::project_tangent(tg);
        ensure_eq!((g(p.linear()), g(p.angular()), g(BodyTwist::tangent_slip(tg))), (l, w, 0.375), "projection and slip");
        ensure_eq!(ga(*p.to_tangent().as_array()), [l, 0.0, w], "tangent");
        ensure_eq!(BodyTwist::<T>::zeros(), BodyTwist::new(T::ZERO, T::ZERO), "no twist");
        ensure_eq!(BodyArc::<T>::zeros(), BodyArc::new(T::ZERO, T::ZERO), "no arc");
        ensure_eq!(WheelVelocities::<T>::zeros(), WheelVelocities::new(T::ZERO, T::ZERO), "no velocity");
        ensure_eq!(WheelRotations::<T>::zeros(), WheelRotations::new(T::ZERO, T::ZERO), "no rotation");
        Ok(hf(&[lin, ang]))
    });
    let sp = SPECIAL;
    let n = sp.len() as u64;
    ck.space(&format!("bad_geometry_{}", T::NAME), n * n, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let (a, b) = (rd::<T>(d.pick(&sp)), rd::<T>(d.pick(&sp)));
        let mut al = vec![];
        if !a.is_finite() || !b.is_finite() {
            al.push(E::NonFinite);
        }
        if a <= 0.0 || b <= 0.0 {
            al.push(E::NonPositiveParameter);
        }
        verdict(DifferentialDrive::new(t::<T>(a), t(b)), &al, &format!("geometry {a} {b}"))?;
        Ok(al.len() as u64)
    });
}

const PO: [P; 6] = [[0.0, 0.0, 0.0], [1.5, -2.0, 0.7], [-3.0, 4.0, 3.0], [100.0, 7.0, -1.5707963267948966], [0.1, 0.2, -3.1], [-0.5, 0.25, 2.356]];
const TURN: [f64; 21] = [0.0, 1e-12, 1e-8, 1e-6, 1e-5, 3e-5, 1e-4, 3e-4, 1e-3, 3e-3, 0.01, 0.03, 0.1, 0.29, 0.5, 1.0, 1.5707963267948966, 2.5, 3.141592653589793, 4.0, 6.283185307179586];
const LEN: [f64; 7] = [0.0, 1.0, -1.0, 0.01, 1e-6, 25.0, -3.5];

fn arcs<T: Fl>(ck: &Ck) {
    ck.space(&format!("arcs_{}", T::NAME), 6 * 21 * 2 * 7, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let p = d.pick(&PO).map(rd::<T>);
        let w = rd::<T>(d.pick(&TURN) * [1.0, -1.0][d.n(2)]);
        let s = rd::<T>(d.pick(&LEN));
        let e = T::EPS * 16.0 * (1.0 + s.abs());
        let want = advance(p, s, w);
        let got = integrate(pose::<T>(p), BodyArc::new(t(s), t(w)));
        same(got, want, e, &format!("arc {s} turning {w} from {p:?}"))?;
        // there and back
        same(integrate(got, BodyArc::new(t(-s), t(-w))), p, e * 4.0, "the arc retraced")?;
        // in equal pieces it is the same motion
        for n in [2, 3, 10] {
            let mut q = pose::<T>(p);
            for _ in 0..n {
                q = integrate(q, BodyArc::new(t(s / n as f64), t(w / n as f64)));
            }
            same(q, want, e * 3.0 * n as f64, &format!("the arc in {n} pieces"))?;
        }
        // the chord is the arc times sin(w/2)/(w/2)
        let chord = (g(got.translation()[0]) - p[0]).hypot(g(got.translation()[1]) - p[1]);
        let k = if w == 0.0 { 1.0 } else { ((w / 2.0).sin() / (w / 2.0)).abs() };
        ensure_close!(chord, s.abs() * k, 0.0, e * 4.0 * (1.0 + p[0].abs().max(p[1].abs())), "chord");
        Ok(hf(&want))
    });
    // the plant, integrated numerically, follows the same arcs
    ck.space(&format!("unicycle_{}", T::NAME), 6 * 11 * 7 * 3, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let p = d.pick(&PO).map(rd::<T>);
        let o = rd::<T>(d.pick(&[0.0, 1e-6, 0.1, -0.7, 1.0, 2.0, -2.5, 3.0, -1e-3, 0.5, -5.0]));
        let v = rd::<T>(d.pick(&[0.0, 1.0, -1.0, 0.01, 3.0, -2.5, 1e-6]));
        let time = rd::<T>(d.pick(&[0.5, 1.0, 2.0]));
        let u = Unicycle::new(BodyTwist::new(t::<T>(v), t(o)));
        let y0 = Vector::new(ta::<T, 3>(p));
        let want = [v * p[2].cos(), v * p[2].sin(), o];
        let dv = ga(*u.derivative(&y0).as_array());
        let fv = ga(*u.field()(t(17.5), &y0).as_array());
        for q in 0..3 {
            ensure_close!(dv[q], want[q], 0.0, T::EPS * 8.0 * v.abs(), "derivative {q}");
            ensure_eq!(fv[q], dv[q], "the field is the derivative");
        }
        let want = advance(p, v * time, o * time);
        let n = 64;
        let h = time / n as f64;
        // global error of the fourth-order method: about L (o h)^4 / 2880 per unit of length
        let trunc = (v * time).abs() * (o * h).powi(4) / 100.0;
        let end = Rk4::integrate(&u.field(), t(0.0), &y0, t(h), n as usize, |_, _| {});
        let end = ga(*end.as_array());
        for q in 0..3 {
            let sc = 1.0 + want.iter().fold(0.0f64, |m, x| m.max(x.abs()));
            ensure_close!(end[q], want[q], 0.0, trunc + T::EPS * 200.0 * sc, "Rk4 end {q} of twist {v} {o} over {time}");
        }
        let tol = if T::IS32 { 1e-5 } else { 1e-10 };
        let s = Rk45::default().with_rtol(t(tol)).with_atol(t(tol)).solve(&u.field(), T::ZERO, &y0, t(time)).map_err(|e| format!("{e:?}"))?;
        let s = ga(*s.as_array());
        for q in 0..3 {
            let sc = 1.0 + want.iter().fold(0.0f64, |m, x| m.max(x.abs()));
            ensure_close!(s[q], want[q], 0.0, tol * 50.0 * sc, "Rk45 end {q} of twist {v} {o} over {time}");
        }
        Ok(hf(&want))
    });
}

fn model<T: Fl>(ck: &Ck) {
    ck.space(&format!("process_model_{}", T::NAME), 6 * 21 * 2 * 7 * 9, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let mut p = d.pick(&PO).map(rd::<T>);
        let w = rd::<T>(d.pick(&TURN) * [1.0, -1.0][d.n(2)]);
        let s = rd::<T>(d.pick(&LEN));
        // states with an unwrapped heading are fine too
        p[2] = rd::<T>(p[2] + d.n(9) as f64 * 1.5707963267948966 - 6.283185307179586);
        let x = ta::<T, 5>([p[0], p[1], p[2], s, w]);
        let got = ga(OdometryStep.eval(&x));
        let want = advance(p, s, w);
        let e = T::EPS * 16.0 * (1.0 + s.abs()) * (1.0 + want[0].abs().max(want[1].abs()) + want[2].abs());
        ensure_close!(got[0], want[0], 0.0, e, "x");
        ensure_close!(got[1], want[1], 0.0, e, "y");
        let pi = g(t::<T>(std::f64::consts::PI)).max(std::f64::consts::PI);
        ensure!(got[2] > -pi - T::EPS * 4.0 && got[2] <= pi, "heading {} not wrapped", got[2]);
        let dh = (got[2] - want[2]).rem_euclid(std::f64::consts::TAU);
        let dh = dh.min(std::f64::consts::TAU - dh);
        ensure!(dh <= e, "heading {} expected {} (to a turn)", got[2], want[2]);
        // both Jacobians of it by automatic differentiation
        let j = Jacobian::from_derivator(AutoDiffMulti::<T>::new()).evaluate(&OdometryStep, &x).map_err(|e| format!("{e:?}"))?;
        let (a, b, da, db) = sc(w);
        let (c, sn) = (p[2].cos(), p[2].sin());
        let jw = [
            [1.0, 0.0, s * (-sn * a - c * b), c * a - sn * b, s * (c * da - sn * db)],
            [0.0, 1.0, s * (c * a - sn * b), sn * a + c * b, s * (sn * da + c * db)],
            [0.0, 0.0, 1.0, 0.0, 1.0],
        ];
        let je = T::EPS * 64.0 * (1.0 + s.abs()) * (1.0 + p[2].abs());
        // away from the series the turn's derivative cancels one more digit per factor of the turn
        let jc = je + T::EPS * 4.0 * s.abs() / w.abs().max(T::EPS.sqrt());
        for q in 0..3 {
            for k in 0..5 {
                ensure_close!(g(j[(q, k)]), jw[q][k], 0.0, if k == 4 { jc } else { je }, "Jacobian entry {q},{k} at {p:?} arc {s} turn {w}");
            }
        }
        Ok(hf(&got))
    });
}

/// Every sequence of wheel ticks: the pose stays on the exact path and its heading is the total turn.
fn histories<T: Fl>(ck: &Ck) {
    const TICK: [(f64, f64); 7] = [(0.5, 0.5), (0.5, 0.25), (-0.25, 0.5), (1.0, -1.0), (0.0, 1e-5), (-2.0, -2.0), (30.0, 31.0)];
    for (gi, (r, b)) in [(0.1, 0.5), (1.0, 1.0)].into_iter().enumerate() {
        #[derive(Clone)]
        struct S<T: Fl> {
            dd: DifferentialDrive<T>,
            at: SE2<T>,
            re: P,
            n: u32,
            len: f64,
        }
        ck.bfs::<S<T>>(
            &format!("ticks_{gi}_{}", T::NAME),
            ck.q(6, 7),
            &|| Ok(S { dd: DifferentialDrive::new(t(r), t(b)).map_err(|e| format!("{e:?}"))?, at: SE2::identity(), re: [0.0; 3], n: 0, len: 0.0 }),
            TICK.len() as u64,
            &|a| format!("{:?}", TICK[a as usize]),
            &|s, a| {
                let (l, w) = TICK[a as usize];
                let (l, w) = (rd::<T>(l), rd::<T>(w));
                let (r, b) = (rd::<T>(r), rd::<T>(b));
                let before = s.at;
                s.at = s.dd.odometry_step(s.at, WheelRotations::new(t(l), t(w)));
                let arc = integrate(before, s.dd.forward_arc(WheelRotations::new(t(l), t(w))));
                let e = T::EPS * 16.0 * (1.0 + s.len + l.abs() + w.abs());
                let (p, q) = ((s.at.rotation().cos_sin(), s.at.translation()), (arc.rotation().cos_sin(), arc.translation()));
                for (a, b) in [(p.0.0, q.0.0), (p.0.1, q.0.1), (p.1[0], q.1[0]), (p.1[1], q.1[1])] {
                    ensure_close!(g(a), g(b), 0.0, e, "odometry step is the arc of the wheels");
                }
                s.re = advance(s.re, r * (l + w) / 2.0, r * (w - l) / b);
                s.n += 1;
                s.len += (r * (l + w) / 2.0).abs() + (r * (w - l) / b).abs();
                let e = T::EPS * 16.0 * s.n as f64 * (1.0 + s.len);
                same(s.at, s.re, e, "pose after the ticks")?;
                let th = g(s.at.rotation().log());
                let dh = (th - s.re[2]).rem_euclid(std::f64::consts::TAU);
                ensure!(dh.min(std::f64::consts::TAU - dh) <= e, "heading {th}, total turn {}", s.re[2]);
                Ok(hf(&s.re))
            },
            &|_| None,
        );
    }
    // one tick over and over: no drift beyond rounding
    ck.space(&format!("long_runs_{}", T::NAME), 7 * 6, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let (l, w) = d.pick(&TICK);
        let (r, b) = d.pick(&GEO);
        let dd = DifferentialDrive::new(t::<T>(r), t(b)).map_err(|e| format!("{e:?}"))?;
        let (l, w, r, b) = (rd::<T>(l), rd::<T>(w), rd::<T>(r), rd::<T>(b));
        let (mut at, mut re, mut len) = (SE2::identity(), [0.0; 3], 1.0);
        let n = ck.q(20_000, 400_000);
        for j in 1..=n as u64 {
            at = dd.odometry_step(at, WheelRotations::new(t(l), t(w)));
            re = advance(re, r * (l + w) / 2.0, r * (w - l) / b);
            re[2] %= std::f64::consts::TAU;
            len += (r * (l + w) / 2.0).abs();
            if j.is_power_of_two() || j == n as u64 {
                // each tick adds a rounding error to the heading, which tilts the rest of the path
                let e = T::EPS * 4.0 * j as f64 * (1.0 + (r * (w - l) / b).abs());
                let (c, s) = at.rotation().cos_sin();
                ensure!((g(c).hypot(g(s)) - 1.0).abs() <= T::EPS * j as f64 + T::EPS, "heading of length {} after {j} ticks", g(c).hypot(g(s)));
                same(at, re, e * (1.0 + len), &format!("pose after {j} ticks of {l} {w}"))?;
            }
        }
        op(n as u64);
        Ok(hf(&re))
    });
}

/// The same motion with lengths and times in other units: exactly the same numbers in those units
fn units<T: Fl>(ck: &Ck) {
    let us: [i32; 8] = if T::IS32 { [0, -8, 9, -25, 26, -48, 49, 3] } else { [0, -20, 21, -100, 101, -300, 301, 3] };
    let wh = [0.0, 1.0, -1.0, 3.7, -12.5, 1e-4, 0.9999];
    ck.space(&format!("units_{}", T::NAME), 4 * 7 * 7 * 6 * 8 * 8, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let (r, b) = d.pick(&GEO[..4]);
        let (l, w) = (rd::<T>(d.pick(&wh)), rd::<T>(d.pick(&wh)));
        let p = d.pick(&PO).map(rd::<T>);
        let (lu, tu) = (2f64.powi(d.pick(&us)), 2f64.powi(d.pick(&us)));
        let h = 0.375;
        // everything in units of `x` of length and `y` of time, read back in plain ones
        let go = |x: f64, y: f64| -> Result<Vec<f64>, String> {
            let dd = DifferentialDrive::new(t::<T>(rd::<T>(r) * x), t(rd::<T>(b) * x)).map_err(|e| format!("refused: {e:?}"))?;
            let tw = dd.forward(WheelVelocities::new(t(l / y), t(w / y)));
            let back = dd.inverse(tw);
            let rot = WheelRotations::new(t(l), t(w));
            let arc = dd.forward_arc(rot);
            let there = dd.inverse_arc(arc);
            let (ta, tb) = dd.wheel_travel(rot);
            let fr = dd.wheel_rotations_from_travel(ta, tb);
            let held = tw.integrate_over(t(h * y));
            let at = dd.odometry_step(pose::<T>([p[0] * x, p[1] * x, p[2]]), rot);
            let (c, sn) = at.rotation().cos_sin();
            let o = ga(OdometryStep.eval(&ta5::<T>([p[0] * x, p[1] * x, p[2], g(arc.linear()), g(arc.angular())])));
            let u = Unicycle::new(tw);
            let dv = ga(*u.derivative(&Vector::new(ta3::<T>([p[0] * x, p[1] * x, p[2]]))).as_array());
            Ok(vec![
                g(tw.linear()) / x * y, g(tw.angular()) * y, g(back.left()) * y, g(back.right()) * y, g(arc.linear()) / x, g(arc.angular()),
                g(there.left()), g(there.right()), g(ta) / x, g(tb) / x, g(fr.left()), g(fr.right()), g(held.linear()) / x, g(held.angular()),
                g(at.translation()[0]) / x, g(at.translation()[1]) / x, g(c), g(sn), o[0] / x, o[1] / x, o[2], dv[0] / x * y, dv[1] / x * y, dv[2] * y,
            ])
        };
        let (a, z) = (go(1.0, 1.0)?, go(lu, tu)?);
        let m = a.iter().fold(1.0f64, |m, v| m.max(v.abs()));
        for (k, (q, v)) in a.iter().zip(&z).enumerate() {
            ensure!((q - v).abs() <= T::EPS * 16.0 * m, "entry {k} is {v} with a length unit of {lu:e} and a time unit of {tu:e}, {q} in plain units");
        }
        Ok(hf(&a))
    });
}
fn ta5<T: Fl>(x: [f64; 5]) -> [T; 5] {
    ta(x)
}
fn ta3<T: Fl>(x: [f64; 3]) -> [T; 3] {
    ta(x)
}

fn main() {
    let ck = Ck::new("C23");
    ck.assume("Reference: planar constant-twist motion in closed form (series below 0.3 rad) in f64 on the inputs rounded to the scalar type.");
    drive::<f64>(&ck);
    arcs::<f64>(&ck);
    model::<f64>(&ck);
    histories::<f64>(&ck);
    units::<f64>(&ck);
    drive::<f32>(&ck);
    arcs::<f32>(&ck);
    model::<f32>(&ck);
    histories::<f32>(&ck);
    units::<f32>(&ck);
    ck.finish();
}
