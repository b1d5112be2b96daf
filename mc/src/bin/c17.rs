//! C17: PID output, saturation, anti-windup and bumpless transfer.
//! All alphabets are dyadic, so the reference arithmetic is exact in both precisions and no rounding
//! can move a saturation decision.
use mc::num::*;
use mc::*;
use multicalc::control::Pid;
use multicalc::error::{ControlError as E, SignalError};

#[derive(Clone, Debug)]
struct Ref {
    k: [f64; 3],
    dt: f64,
    lim: (f64, f64),
    alpha: f64,
    integral: f64,
    filt: Option<f64>,
    prev: Option<(f64, f64)>, // measurement, error
}
impl Ref {
    fn update(&mut self, sp: f64, m: f64) -> f64 {
        let e = sp - m;
        let raw = match self.prev {
            Some((pm, _)) => (pm - m) / self.dt,
            None => 0.0,
        };
        let d = match self.filt {
            None => raw,
            Some(f) => self.alpha * raw + (1.0 - self.alpha) * f,
        };
        self.filt = Some(d);
        self.prev = Some((m, e));
        let cand = self.integral + self.k[1] * e * self.dt;
        let u = self.k[0] * e + cand + self.k[2] * d;
        let deeper = (u > self.lim.1 && e > 0.0) || (u < self.lim.0 && e < 0.0);
        if !deeper {
            self.integral = cand;
        }
        if u > self.lim.1 {
            self.lim.1
        } else if u < self.lim.0 {
            self.lim.0
        } else {
            u
        }
    }
    fn set_gains(&mut self, n: [f64; 3]) {
        if let Some((_, e)) = self.prev {
            self.integral += (self.k[0] - n[0]) * e + (self.k[2] - n[2]) * self.filt.unwrap_or(0.0);
        }
        self.k = n;
    }
    fn resume(&mut self, out: f64, sp: f64, m: f64) {
        let e = sp - m;
        self.integral = out - self.k[0] * e - self.k[1] * e * self.dt;
        self.filt = None;
        self.prev = Some((m, e));
    }
    fn reset(&mut self) {
        self.integral = 0.0;
        self.filt = None;
        self.prev = None;
    }
}

const UPD: [(f64, f64); 9] = [(0.0, 0.0), (1.0, 0.0), (1.0, 0.5), (0.0, 2.0), (1.0, -4.0), (-8.0, 0.0), (16.0, 1.0), (0.5, 0.5), (0.0, 1.0)];
const GAINS: [[f64; 3]; 3] = [[2.0, 0.5, 0.25], [0.5, 2.0, 0.0], [-1.0, 0.25, 1.0]];
const RES: [(f64, f64, f64); 3] = [(3.0, 1.0, 0.5), (-2.0, 0.0, 0.0), (64.0, 1.0, 2.0)];
const BAD: usize = 6;

fn name(a: u64) -> String {
    let a = a as usize;
    let (u, gn, r) = (UPD.len(), GAINS.len(), RES.len());
    if a < u {
        format!("update{:?}", UPD[a])
    } else if a < u + gn {
        format!("set_gains{:?}", GAINS[a - u])
    } else if a < u + gn + r {
        format!("resume_from{:?}", RES[a - u - gn])
    } else if a < u + gn + r + BAD {
        format!("refused#{}", a - u - gn - r)
    } else {
        "reset".into()
    }
}

fn run<T: Fl>(ck: &Ck, k: [f64; 3], dt: f64, lim: Option<(f64, f64)>, alpha: Option<f64>, depth: usize, unit: f64) {
    let lim = lim.map(|(a, b)| (a * unit, b * unit));
    let na = (UPD.len() + GAINS.len() + RES.len() + BAD + 1) as u64;
    let show = |a: u64| name(a);
    ck.bfs::<(Pid<T>, Ref)>(
        &format!("pid {k:?} dt={dt} limits={lim:?} smoothing={alpha:?} unit={unit:e} {}", T::NAME),
        depth,
        &|| {
            let er = |e: E| format!("{e:?}");
            let mut p = Pid::new(t(k[0]), t(k[1]), t(k[2]), t(dt)).map_err(er)?;
            if let Some((lo, hi)) = lim {
                p = p.with_output_limits(t(lo), t(hi)).map_err(er)?;
            }
            if let Some(a) = alpha {
                p = p.with_derivative_filter(t(a)).map_err(er)?;
            }
            Ok((p, Ref { k, dt, lim: lim.unwrap_or((f64::NEG_INFINITY, f64::INFINITY)), alpha: alpha.unwrap_or(1.0), integral: 0.0, filt: None, prev: None }))
        },
        na,
        &show,
        &|s, a| {
            let mut a = a as usize;
            let mut out = 0.0;
            if a < UPD.len() {
                let (sp, m) = (UPD[a].0 * unit, UPD[a].1 * unit);
                let want = s.1.update(sp, m);
                out = g(s.0.update(t(sp), t(m)));
                ensure_eq!(out, want, "update({sp}, {m})");
                ensure!(out <= s.1.lim.1 && out >= s.1.lim.0, "output {out} outside the limits");
            } else {
                a -= UPD.len();
                if a < GAINS.len() {
                    let n = GAINS[a];
                    s.0.set_gains(t(n[0]), t(n[1]), t(n[2])).map_err(|e| format!("{e:?}"))?;
                    s.1.set_gains(n);
                } else {
                    a -= GAINS.len();
                    if a < RES.len() {
                        let (o, sp, m) = (RES[a].0 * unit, RES[a].1 * unit, RES[a].2 * unit);
                        s.0.resume_from(t(o), t(sp), t(m)).map_err(|e| format!("{e:?}"))?;
                        s.1.resume(o, sp, m);
                        // the very next update with the same pair returns the command (inside the limits)
                        let mut c = s.0;
                        ensure_eq!(g(c.update(t(sp), t(m))), o.min(s.1.lim.1).max(s.1.lim.0), "update right after resume_from({o}, {sp}, {m})");
                    } else {
                        a -= RES.len();
                        if a < BAD {
                            let before = s.0;
                            let (nan, inf, x) = (t::<T>(f64::NAN), t::<T>(f64::INFINITY), t::<T>(1.0));
                            let r = match a {
                                0 => s.0.set_gains(nan, x, x),
                                1 => s.0.set_gains(x, inf, x),
                                2 => s.0.set_gains(x, x, nan),
                                3 => s.0.resume_from(inf, x, x),
                                4 => s.0.resume_from(x, nan, x),
                                _ => s.0.resume_from(x, x, -inf),
                            };
                            ensure_eq!(r, Err(E::NonFinite), "a call with a value that is not finite");
                            ensure_eq!(s.0, before, "controller after a refused call");
                        } else {
                            s.0.reset();
                            s.1.reset();
                        }
                    }
                }
            }
            ensure_eq!(g(s.0.integral()), s.1.integral, "integral()");
            Ok(hf(&[out, s.1.integral]))
        },
        &|s| Some(hkey(s)),
    );
}

fn construct<T: Fl>(ck: &Ck) {
    let sp = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -1.0, -0.0, 0.0, 1e-30, 2.0];
    ck.space(&format!("new {}", T::NAME), 8u64.pow(4), |i| format!("{:?}", Dig(i).arr::<4, f64>(&sp)), |i| {
        let [a, b, c, h] = Dig(i).arr::<4, f64>(&sp);
        let mut e = vec![];
        if ![a, b, c, h].iter().all(|x| x.is_finite()) {
            e.push(E::NonFinite);
        }
        if h <= 0.0 {
            e.push(E::NonPositiveTimestep);
        }
        verdict(Pid::<T>::new(t(a), t(b), t(c), t(h)), &e, "new")?;
        Ok(i)
    });
    ck.space(&format!("limits and filter {}", T::NAME), 64 + SPECIAL.len() as u64, |i| format!("{i}"), |i| {
        let p = Pid::<T>::new(t(1.0), t(1.0), t(1.0), t(1.0)).map_err(|e| format!("{e:?}"))?;
        if i < 64 {
            let (lo, hi) = (sp[i as usize % 8], sp[i as usize / 8]);
            let mut e = vec![];
            if lo.is_nan() || hi.is_nan() {
                e.push(E::NonFinite)
            } else if lo > hi {
                e.push(E::InvalidOutputLimits)
            }
            if let Some(mut p) = verdict(p.with_output_limits(t(lo), t(hi)), &e, "with_output_limits")? {
                for m in [-1e6, 0.0, 1e6] {
                    let o = g(p.update(t(0.0), t(m)));
                    ensure!(o >= g(t::<T>(lo)) && o <= g(t::<T>(hi)), "output {o} outside [{lo}, {hi}]");
                }
            }
        } else {
            let a = g(t::<T>(SPECIAL[i as usize - 64]));
            let e = if !a.is_finite() {
                vec![E::Signal(SignalError::NonFinite)]
            } else if !(0.0..=1.0).contains(&a) {
                vec![E::Signal(SignalError::CoefficientOutOfRange)]
            } else {
                vec![]
            };
            verdict(p.with_derivative_filter(t(a)), &e, "with_derivative_filter")?;
        }
        Ok(i)
    });
}

/// Values that are not dyadic, over long runs: the law within rounding, including a long stay in
/// saturation and the way out of it.
fn long_run<T: Fl>(ck: &Ck) {
    let lims = [(f64::NEG_INFINITY, f64::INFINITY), (-2.0, 2.0), (0.0, 1.5)];
    let n = (3 * 4 * 5 * 5) as u64;
    ck.space(&format!("long_run {}", T::NAME), n, |i| format!("case {i}"), |i| {
        let mut d = Dig(i);
        let lim = d.pick(&lims);
        let k = d.pick(&[[1.0, 0.5, 0.125], [0.0, 1.0, 0.0], [4.0, 0.0, 0.5], [0.25, 0.25, 0.0]]);
        let (n1, n2) = (d.n(5) * 37 + 1, d.n(5) * 53 + 1);
        let er = |e: E| format!("{e:?}");
        let mut p = Pid::<T>::new(t(k[0]), t(k[1]), t(k[2]), t(0.25)).map_err(er)?.with_output_limits(t(lim.0), t(lim.1)).map_err(er)?;
        let mut r = Ref { k, dt: 0.25, lim, alpha: 1.0, integral: 0.0, filt: None, prev: None };
        let mut h = 0.0;
        for j in 0..n1 + n2 + 300 {
            let (sp, m) = if j < n1 { (4.0, 0.5 * (j % 3) as f64) } else if j < n1 + n2 { (-4.0, 1.0) } else { (0.0, if j % 2 == 0 { 0.25 } else { -0.25 }) };
            let (a, b) = (g(p.update(t(sp), t(m))), r.update(sp, m));
            ensure_eq!(a, b, "update {j} ({sp}, {m})");
            ensure_eq!(g(p.integral()), r.integral, "integral after update {j}");
            h += a;
        }
        Ok(hf(&[h]))
    });
}

fn main() {
    let ck = Ck::new("C17");
    ck.assume("gains, timesteps, set points and measurements are dyadic rationals small enough for exact arithmetic");
    let d = ck.q(4, 5);
    run::<f64>(&ck, [2.0, 0.5, 0.25], 0.5, None, None, d, 1.0);
    run::<f64>(&ck, [2.0, 0.5, 0.25], 0.5, Some((-4.0, 4.0)), None, d + 1, 1.0);
    run::<f64>(&ck, [2.0, 1.0, 0.25], 0.25, Some((-4.0, 4.0)), Some(0.5), d, 1.0);
    run::<f64>(&ck, [1.0, 4.0, 0.0], 1.0, Some((0.0, 6.0)), Some(0.25), d, 1.0);
    run::<f64>(&ck, [0.0, 1.0, 0.0], 1.0, Some((-2.0, f64::INFINITY)), None, d, 1.0);
    run::<f64>(&ck, [-1.0, -0.5, 0.5], 0.5, Some((f64::NEG_INFINITY, 3.0)), Some(1.0), d, 1.0);
    run::<f64>(&ck, [1.0, 0.0, 2.0], 2.0, Some((1.0, 1.0)), Some(0.0), d, 1.0);
    run::<f32>(&ck, [2.0, 0.5, 0.25], 0.5, Some((-4.0, 4.0)), Some(0.5), d, 1.0);
    run::<f32>(&ck, [0.5, 2.0, 1.0], 0.25, None, None, d, 1.0);
    // in units that make every error tiny or huge
    run::<f64>(&ck, [2.0, 0.5, 0.25], 0.5, Some((-4.0, 4.0)), Some(0.5), d, 2f64.powi(-80));
    run::<f64>(&ck, [2.0, 0.5, 0.25], 0.5, Some((-2.0, 4.0)), None, d, 2f64.powi(200));
    run::<f32>(&ck, [2.0, 0.5, 0.25], 0.5, Some((-4.0, 2.0)), None, d, 2f64.powi(-60));
    construct::<f64>(&ck);
    construct::<f32>(&ck);
    long_run::<f64>(&ck);
    long_run::<f32>(&ck);
    ck.finish()
}
