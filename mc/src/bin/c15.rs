//! C15: streaming filters and conditioners equal their reference recurrences.
use mc::num::*;
use mc::refmodel::*;
use mc::*;
use multicalc::error::SignalError as E;
use multicalc::{Deadband, Hysteresis, MovingAverage, OnePoleLowPass, RunningMedian, SavitzkyGolay, SlewRateLimiter};
use std::collections::VecDeque;

/// Reference window: the first sample fills it.
#[derive(Clone, Debug)]
struct Win {
    w: usize,
    q: VecDeque<f64>,
}
impl Win {
    fn new(w: usize) -> Win {
        Win { w, q: VecDeque::new() }
    }
    fn push(&mut self, x: f64) {
        if self.q.is_empty() {
            self.q.extend(std::iter::repeat_n(x, self.w));
        } else {
            self.q.pop_front();
            self.q.push_back(x);
        }
    }
    fn mean(&self) -> f64 {
        if self.q.is_empty() { 0.0 } else { self.q.iter().sum::<f64>() / self.w as f64 }
    }
    fn scale(&self) -> f64 {
        self.q.iter().filter(|x| x.is_finite()).fold(0.0, |m: f64, x| m.max(x.abs()))
    }
    fn median(&self) -> f64 {
        if self.q.is_empty() {
            return 0.0;
        }
        let mut v: Vec<f64> = self.q.iter().copied().collect();
        v.sort_by(f64::total_cmp);
        v[self.w / 2]
    }
}

fn avg<const W: usize, T: Fl>(ck: &Ck, vals: &[f64], depth: usize) {
    type St<const W: usize, T> = (MovingAverage<W, T>, Win);
    let nv = vals.len() as u64;
    ck.bfs::<St<W, T>>(
        &format!("moving_average W={W} {}", T::NAME),
        depth,
        &|| Ok((MovingAverage::new().map_err(|e| format!("{e:?}"))?, Win::new(W))),
        nv + 1,
        &|a| if a < nv { format!("filter({})", vals[a as usize]) } else { "reset".into() },
        &|s, a| {
            if a < nv {
                let x = vals[a as usize];
                let r = g(s.0.filter(t(x)));
                s.1.push(g(t::<T>(x)));
                ensure_close!(r, s.1.mean(), 4.0 * W as f64 * T::EPS, 4.0 * W as f64 * T::EPS * s.1.scale(), "filter({x})");
            } else {
                s.0.reset();
                s.1.q.clear();
            }
            let v = g(s.0.value());
            ensure_close!(v, s.1.mean(), 4.0 * W as f64 * T::EPS, 4.0 * W as f64 * T::EPS * s.1.scale(), "value()");
            ensure_close!(g(s.0.value()), v, 0.0, 0.0, "second value()");
            Ok(hf(&[v]))
        },
        &|s| Some(hkey(s)),
    );
}
fn med<const W: usize, T: Fl>(ck: &Ck, vals: &[f64], depth: usize) {
    type St<const W: usize, T> = (RunningMedian<W, T>, Win);
    let nv = vals.len() as u64;
    ck.bfs::<St<W, T>>(
        &format!("running_median W={W} {}", T::NAME),
        depth,
        &|| Ok((RunningMedian::new().map_err(|e| format!("{e:?}"))?, Win::new(W))),
        nv + 1,
        &|a| if a < nv { format!("filter({})", vals[a as usize]) } else { "reset".into() },
        &|s, a| {
            if a < nv {
                let x = g(t::<T>(vals[a as usize]));
                let r = g(s.0.filter(t(x)));
                s.1.push(x);
                ensure_eq!(r, s.1.median(), "filter({x})");
            } else {
                s.0.reset();
                s.1.q.clear();
            }
            let v = g(s.0.value());
            ensure_eq!(v, s.1.median(), "value()");
            ensure_eq!(g(s.0.value()), v, "second value()");
            Ok(hf(&[v]))
        },
        &|s| Some(hkey(s)),
    );
}
/// Long streams on a long window: baseline shape with two marked samples and one reset at every
/// position.
fn long_windows<const W: usize, T: Fl>(ck: &Ck) {
    let len = 3 * W + 4;
    let n = (3 * len * len * 3) as u64;
    let show = move |i: u64| {
        let mut d = Dig(i);
        format!("W={W} {} base={} marks at {} and {} reset kind {}", T::NAME, d.n(3), d.n(len), d.n(len), d.n(3))
    };
    ck.space(&format!("long_window W={W} {}", T::NAME), n, show, move |i| {
        let mut d = Dig(i);
        let (base, a, b, rs) = (d.n(3), d.n(len), d.n(len), d.n(3));
        let mut m = MovingAverage::<W, T>::new().map_err(|e| format!("{e:?}"))?;
        let mut wm = Win::new(W);
        let mut md = RunningMedian::<W, T>::new();
        if (W % 2 == 0) != md.is_err() {
            return Err(format!("running median with window {W}: {md:?}"));
        }
        let mut last = 0.0;
        for k in 0..len {
            if (rs == 1 && k == a) || (rs == 2 && k == b) {
                m.reset();
                if let Ok(x) = md.as_mut() {
                    x.reset()
                }
                wm.q.clear();
            }
            let x = match base {
                0 => 1.0,
                1 => k as f64,
                _ => ((k * 7) % 5) as f64 - 2.0,
            } + if k == a { 64.0 } else { 0.0 }
                + if k == b { -1024.0 } else { 0.0 };
            wm.push(x);
            let got = g(m.filter(t(x)));
            ensure_close!(got, wm.mean(), 4.0 * W as f64 * T::EPS, 4.0 * W as f64 * T::EPS * wm.scale(), "average at sample {k}");
            if let Ok(md) = md.as_mut() {
                let got = g(md.filter(t(x)));
                ensure_eq!(got, wm.median(), "median at sample {k}");
                last += got;
            }
            last += got;
        }
        Ok(hf(&[last]))
    });
}

fn one_pole<T: Fl>(ck: &Ck, depth: usize) {
    let vals = [0.0, 1.0, -3.0, 1024.5];
    for alpha in [0.0, 0.125, 0.5, 0.9, 1.0] {
        ck.bfs::<(OnePoleLowPass<T>, Option<f64>, f64)>(
            &format!("one_pole alpha={alpha} {}", T::NAME),
            depth,
            &|| Ok((OnePoleLowPass::new(t(alpha)).map_err(|e| format!("{e:?}"))?, None, 0.0)),
            5,
            &|a| if a < 4 { format!("filter({})", vals[a as usize]) } else { "reset".into() },
            &|s, a| {
                let al = g(t::<T>(alpha));
                if a < 4 {
                    let x = vals[a as usize];
                    let y = match s.1 {
                        None => x,
                        Some(p) => al * x + (1.0 - al) * p,
                    };
                    s.1 = Some(y);
                    s.2 = s.2.max(x.abs());
                    ensure_close!(g(s.0.filter(t(x))), y, 64.0 * T::EPS, 64.0 * T::EPS * s.2, "filter({x})");
                } else {
                    s.0.reset();
                    s.1 = None;
                    s.2 = 0.0;
                }
                let v = g(s.0.value());
                ensure_close!(v, s.1.unwrap_or(0.0), 64.0 * T::EPS, 64.0 * T::EPS * s.2, "value()");
                ensure_close!(g(s.0.value()), v, 0.0, 0.0, "second value()");
                Ok(hf(&[v]))
            },
            &|s| Some(hkey(s)),
        );
    }
    // construction
    ck.space(&format!("one_pole_new {}", T::NAME), SPECIAL.len() as u64, |i| format!("new({})", SPECIAL[i as usize]), |i| {
        let a = SPECIAL[i as usize];
        let ai = g(t::<T>(a));
        let mut e = vec![];
        if !ai.is_finite() {
            e.push(E::NonFinite)
        } else if !(0.0..=1.0).contains(&ai) {
            e.push(E::CoefficientOutOfRange)
        }
        verdict(OnePoleLowPass::<T>::new(t(a)), &e, "new")?;
        Ok(i)
    });
    let cut = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -1.0, -1e-18, -0.0, 0.0, 1e-18, 0.1, 1.0, 50.0, 5e5, 1e18];
    let dt = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -0.5, -0.0, 0.0, 1e-18, 1e-6, 0.001, 0.25, 3.0];
    ck.space(
        &format!("one_pole_from_cutoff {}", T::NAME),
        (cut.len() * dt.len()) as u64,
        |i| format!("from_cutoff({}, {})", cut[i as usize % cut.len()], dt[i as usize / cut.len()]),
        |i| {
            let (c, h) = (cut[i as usize % cut.len()], dt[i as usize / cut.len()]);
            let mut e = vec![];
            if !c.is_finite() || !h.is_finite() {
                e.push(E::NonFinite)
            }
            if h <= 0.0 {
                e.push(E::NonPositiveTimestep)
            }
            if c < 0.0 {
                e.push(E::FrequencyOutOfRange)
            }
            if let Some(mut f) = verdict(OnePoleLowPass::<T>::from_cutoff(t(c), t(h)), &e, "from_cutoff")? {
                let a = 2.0 * std::f64::consts::PI * c * h;
                let al = a / (a + 1.0);
                let _ = f.filter(t(0.0));
                let step = g(f.filter(t(1.0)));
                ensure_close!(step, al, 64.0 * T::EPS, 0.0, "step response");
                let al = step;
                ensure_close!(g(f.filter(t(1.0))), al + (1.0 - al) * step, 64.0 * T::EPS, 0.0, "second step response");
            }
            Ok(i)
        },
    );
}

/// Very long periodic streams: nothing may change with the age of the filter.
fn long_streams<T: Fl>(ck: &Ck) {
    let pats: [&[f64]; 6] = [&[1.0], &[1.0, -1.0], &[0.0, 4.0, -2.0], &[3.0, 3.0, 5.0, 7.0, 100.0], &[1e6, 1e6, 0.0], &[0.5, 1.5, 2.5, 3.5, 4.5, 5.5, 6.5]];
    ck.space(&format!("long_streams {}", T::NAME), pats.len() as u64, |i| format!("70000 samples of {:?}", pats[i as usize]), |i| {
        let p = pats[i as usize];
        let er = |e: E| format!("{e:?}");
        let mut ma = MovingAverage::<4, T>::new().map_err(er)?;
        let mut md = RunningMedian::<5, T>::new().map_err(er)?;
        let mut op = OnePoleLowPass::<T>::new(t(0.25)).map_err(er)?;
        let mut sl = SlewRateLimiter::<T>::new(t(4.0), t(8.0), t(0.25)).map_err(er)?;
        let mut sg = SavitzkyGolay::<5, 3, T>::latest(t(0.5)).map_err(er)?;
        let wt = sg_weights(5, 3, 4);
        let (mut w4, mut w5) = (Win::new(4), Win::new(5));
        let (mut y, mut z) = (f64::NAN, f64::NAN);
        let sc = p.iter().fold(0.0f64, |a, b| a.max(b.abs()));
        for k in 0..70_000usize {
            let x = p[k % p.len()];
            w4.push(x);
            w5.push(x);
            y = if k == 0 { x } else { 0.25 * x + 0.75 * y };
            z = if k == 0 { x } else { z + (x - z).clamp(-2.0, 1.0) };
            ensure_close!(g(ma.filter(t(x))), w4.mean(), 16.0 * T::EPS, 16.0 * T::EPS * sc, "average at {k}");
            ensure_close!(g(md.filter(t(x))), w5.median(), 0.0, 0.0, "median at {k}");
            ensure_close!(g(op.filter(t(x))), y, 64.0 * T::EPS, 64.0 * T::EPS * sc, "one pole at {k}");
            ensure_close!(g(sl.filter(t(x))), z, 8.0 * T::EPS, 0.0, "slew at {k}");
            let want: f64 = wt[0].iter().zip(&w5.q).map(|(a, b)| a * b).sum();
            let tol = if T::IS32 { 1e-4 } else { 1e-12 };
            ensure_close!(g(sg.filter(t(x))), want, tol, tol * sc, "savitzky-golay at {k}");
        }
        Ok(i)
    });
}

fn deadband<T: Fl>(ck: &Ck) {
    let th = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -1.0, -1e-30, -0.0, 0.0, 0.25, 1.0, 3.0, 1e30];
    let xs = [0.0, -0.0, 0.25, -0.25, 0.2500001, -0.2500001, 1.0, -1.0, 0.5, -0.5, 3.0, -3.0, 4.5, -4.5, 1e30, -1e30, 1e31, -1e31, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 1e-30];
    let n = th.len() * xs.len() * 2;
    ck.space(
        &format!("deadband {}", T::NAME),
        n as u64,
        |i| format!("threshold {} input {} kind {}", th[i as usize % th.len()], xs[i as usize / th.len() % xs.len()], i as usize / th.len() / xs.len()),
        |i| {
            let mut d = Dig(i);
            let (h, x, rec) = (d.pick(&th), d.pick(&xs), d.n(2) == 1);
            let (h, x) = (g(t::<T>(h)), g(t::<T>(x)));
            let e = if !h.is_finite() {
                vec![E::NonFinite]
            } else if h < 0.0 {
                vec![E::NegativeThreshold]
            } else {
                vec![]
            };
            let r = if rec { Deadband::<T>::recentered(t(h)) } else { Deadband::<T>::plain(t(h)) };
            if let Some(b) = verdict(r, &e, "deadband")? {
                ensure_eq!(g(b.threshold()), h, "threshold()");
                let y = g(b.apply(t(x)));
                let want = if x.is_nan() {
                    f64::NAN
                } else if x.abs() <= h {
                    0.0
                } else if !rec {
                    x
                } else if x > 0.0 {
                    x - h
                } else {
                    x + h
                };
                ensure_close!(y, want, 4.0 * T::EPS, 0.0, "apply({x})");
                return Ok(hf(&[y]));
            }
            Ok(0)
        },
    );
}

fn hysteresis<T: Fl>(ck: &Ck) {
    let b = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -2.0, -1.0, 0.0, 1.0, 1.5];
    for lo in b {
        for hi in b {
            let e = if !lo.is_finite() || !hi.is_finite() {
                vec![E::NonFinite]
            } else if lo >= hi {
                vec![E::ThresholdsOutOfOrder]
            } else {
                vec![]
            };
            let name = format!("hysteresis({lo},{hi}) {}", T::NAME);
            if !e.is_empty() {
                ck.space(&name, 1, |_| "new".into(), |_| {
                    verdict(Hysteresis::<T>::new(t(lo), t(hi)), &e, "new")?;
                    Ok(0)
                });
                continue;
            }
            let xs = [lo - 1.0, lo - 1e-6, lo, lo + 1e-6, (lo + hi) / 2.0, hi - 1e-6, hi, hi + 1e-6, hi + 1.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN];
            let nx = xs.len() as u64;
            ck.bfs::<(Hysteresis<T>, bool)>(
                &name,
                12,
                &|| {
                    let h = Hysteresis::new(t(lo), t(hi)).map_err(|e| format!("{e:?}"))?;
                    if h.is_high() {
                        return Err("starts high".into());
                    }
                    Ok((h, false))
                },
                nx + 1,
                &|a| if a < nx { format!("update({})", xs[a as usize]) } else { "reset".into() },
                &|s, a| {
                    if a < nx {
                        let x = g(t::<T>(xs[a as usize]));
                        if x > hi {
                            s.1 = true
                        } else if x < lo {
                            s.1 = false
                        }
                        ensure_eq!(s.0.update(t(x)), s.1, "update({x})");
                    } else {
                        s.0.reset();
                        s.1 = false;
                    }
                    ensure_eq!(s.0.is_high(), s.1, "is_high()");
                    Ok(s.1 as u64)
                },
                &|s| Some(hkey(s)),
            );
        }
    }
}

fn slew<T: Fl>(ck: &Ck, depth: usize) {
    for (rise, fall, dt, sym) in [(1.0, 2.0, 0.5, false), (3.0, 0.5, 0.25, false), (2.0, 2.0, 1.0, true), (1e3, 1.0, 0.001, false), (0.5, 1e9, 2.0, false)] {
        let vals = [0.0f64, 0.25, 1.0, -1.0, 5.0, -7.5, 1e6];
        let nv = vals.len() as u64;
        ck.bfs::<(SlewRateLimiter<T>, Option<f64>, f64)>(
            &format!("slew({rise},{fall},{dt}) {}", T::NAME),
            depth,
            &|| {
                let s = if sym { SlewRateLimiter::symmetric(t(rise), t(dt)) } else { SlewRateLimiter::new(t(rise), t(fall), t(dt)) };
                Ok((s.map_err(|e| format!("{e:?}"))?, None, 0.0))
            },
            nv + 1,
            &|a| if a < nv { format!("filter({})", vals[a as usize]) } else { "reset".into() },
            &|s, a| {
                if a < nv {
                    let x = vals[a as usize];
                    s.2 = s.2.max(x.abs());
                    let y = match s.1 {
                        None => x,
                        Some(p) => {
                            if x - p > rise * dt {
                                p + rise * dt
                            } else if x - p < -fall * dt {
                                p - fall * dt
                            } else {
                                x
                            }
                        }
                    };
                    let before = g(s.0.value());
                    let r = g(s.0.filter(t(x)));
                    ensure_close!(r, y, 32.0 * T::EPS, 32.0 * T::EPS * s.2, "filter({x})");
                    if s.1.is_some() {
                        let slack = 32.0 * T::EPS * s.2;
                        ensure!(r - before <= rise * dt + slack && before - r <= fall * dt + slack, "moved from {before} to {r}");
                    }
                    // follow the real value so that rounding at a decision edge cannot accumulate
                    s.1 = Some(r);
                } else {
                    s.0.reset();
                    s.1 = None;
                    s.2 = 0.0;
                }
                let v = g(s.0.value());
                ensure_close!(v, s.1.unwrap_or(0.0), 0.0, 0.0, "value()");
                Ok(hf(&[v]))
            },
            &|s| Some(hkey(s)),
        );
    }
    let sp = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -1.0, -0.0, 0.0, 1e-30, 0.5, 2.0];
    let n = sp.len().pow(3) * 2;
    ck.space(&format!("slew_new {}", T::NAME), n as u64, |i| { let mut d = Dig(i); format!("{:?} {}", d.arr::<3, f64>(&sp), d.n(2)) }, |i| {
        let mut d = Dig(i);
        let [r, f, h] = d.arr::<3, f64>(&sp);
        let sym = d.n(2) == 1;
        let f = if sym { r } else { f };
        let mut e = vec![];
        if !r.is_finite() || !f.is_finite() || !h.is_finite() {
            e.push(E::NonFinite)
        }
        if h <= 0.0 {
            e.push(E::NonPositiveTimestep)
        }
        if r <= 0.0 || f <= 0.0 {
            e.push(E::NonPositiveRate)
        }
        let v = if sym { SlewRateLimiter::<T>::symmetric(t(r), t(h)) } else { SlewRateLimiter::<T>::new(t(r), t(f), t(h)) };
        verdict(v, &e, "new")?;
        Ok(i)
    });
}

/// Every filter on every short stream, in units that make samples and timestep tiny or huge: the
/// answers are the ordinary ones in those units.
fn units<T: Fl>(ck: &Ck) {
    let (us, ws): ([i32; 4], [i32; 4]) = if T::IS32 { ([-60, -26, -10, 40], [-40, -25, 0, 30]) } else { ([-400, -80, -54, 300], [-200, -60, 0, 120]) };
    let vals = [0.0f64, 1.0, -3.0, 0.375, 1024.5];
    let len = 5u32;
    ck.space(&format!("units {}", T::NAME), 16 * 5u64.pow(len), |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let (u, w) = (d.pick(&us), d.pick(&ws));
        let (sx, st) = (2f64.powi(u), 2f64.powi(w));
        let xs: Vec<f64> = (0..len).map(|_| d.pick(&vals)).collect();
        let er = |e: E| format!("{e:?}");
        let run = |sx: f64, st: f64| -> Result<Vec<f64>, String> {
            let mut ma = MovingAverage::<3, T>::new().map_err(er)?;
            let mut md = RunningMedian::<3, T>::new().map_err(er)?;
            let mut op = OnePoleLowPass::<T>::from_cutoff(t(0.5 / st), t(0.25 * st)).map_err(er)?;
            let bands = [Deadband::<T>::plain(t(0.5 * sx)).map_err(er)?, Deadband::<T>::recentered(t(0.5 * sx)).map_err(er)?];
            let mut hy = Hysteresis::<T>::new(t(-sx), t(0.25 * sx)).map_err(er)?;
            let mut sl = SlewRateLimiter::<T>::new(t(2.0 * sx / st), t(4.0 * sx / st), t(0.5 * st)).map_err(er)?;
            let mut sg = SavitzkyGolay::<3, 2, T>::latest(t(0.5 * st)).map_err(er)?;
            let mut out = vec![];
            for x in &xs {
                let x: T = t(x * sx);
                let mut put = |y: T| out.push(g(y) / sx);
                put(ma.filter(x));
                put(md.filter(x));
                put(op.filter(x));
                bands.iter().for_each(|b| put(b.apply(x)));
                put(if hy.update(x) { t(sx) } else { t(0.0) });
                put(sl.filter(x));
                put(sg.filter(x));
                put(sg.first_derivative() * t(st));
            }
            Ok(out)
        };
        let (got, want) = (run(sx, st)?, run(1.0, 1.0)?);
        for (k, (a, b)) in got.iter().zip(&want).enumerate() {
            ensure_close!(*a, *b, 16.0 * T::EPS, 16.0 * T::EPS * 1024.5, "{xs:?} samples x2^{u}, timestep x2^{w}: output {} at sample {}", k % 9, k / 9);
        }
        Ok(hf(&got))
    });
}

/// exact least-squares weights: row k gives the k-th coefficient from the samples
fn sg_weights(w: usize, p: usize, read: i64) -> Vec<Vec<f64>> {
    let a: Vec<Vec<Rat>> = (0..w)
        .map(|s| {
            let o = Rat::int(s as i64 - read);
            (0..p).scan(Rat::ONE, |acc, _| { let v = *acc; *acc = *acc * o; Some(v) }).collect()
        })
        .collect();
    let at = rt(&a);
    let x = rsolve(&rmul(&at, &a), &at).expect("full rank");
    x.iter().map(|r| r.iter().map(|v| v.to_f64()).collect()).collect()
}

fn sg<const W: usize, const P: usize, T: Fl>(ck: &Ck, depth: usize, tol: f64) {
    for (centered, dt) in [(false, 0.5), (true, 0.5), (false, 0.001)] {
        let name = format!("savitzky_golay W={W} terms={P} centered={centered} dt={dt} {}", T::NAME);
        let make = || if centered { SavitzkyGolay::<W, P, T>::centered(t(dt)) } else { SavitzkyGolay::<W, P, T>::latest(t(dt)) };
        let mut e = vec![];
        if centered && W % 2 == 0 {
            e.push(E::WindowEvenLength)
        }
        if W == 0 || P == 0 {
            e.push(E::WindowTooShort)
        }
        if P > W {
            e.push(E::PolynomialOrderTooHigh)
        }
        if !e.is_empty() {
            ck.space(&name, 1, |_| "construct".into(), |_| {
                verdict(make(), &e, "construct")?;
                Ok(0)
            });
            continue;
        }
        let read = if centered { (W as i64 - 1) / 2 } else { W as i64 - 1 };
        let wt = sg_weights(W, P, read);
        let vals = [0.0, 1.0, -2.0, 10.0];
        let check = |s: &SavitzkyGolay<W, P, T>, q: &Win| -> Result<f64, String> {
            let dot = |k: usize| -> f64 { if P > k && !q.q.is_empty() { wt[k].iter().zip(&q.q).map(|(a, b)| a * b).sum() } else { 0.0 } };
            let mag = |k: usize| -> f64 { if P > k { wt[k].iter().map(|a| a.abs()).sum::<f64>() * q.scale() } else { 0.0 } };
            ensure_close!(g(s.value()), dot(0), tol, tol * mag(0), "value()");
            ensure_close!(g(s.first_derivative()), dot(1) / dt, tol, tol * mag(1) / dt, "first_derivative()");
            ensure_close!(g(s.second_derivative()), 2.0 * dot(2) / dt / dt, tol, 2.0 * tol * mag(2) / dt / dt, "second_derivative()");
            ensure_close!(g(s.delay()), (W as i64 - 1 - read) as f64 * dt, 8.0 * T::EPS, 0.0, "delay()");
            Ok(g(s.value()))
        };
        ck.bfs::<(SavitzkyGolay<W, P, T>, Win)>(
            &name,
            depth,
            &|| {
                let s = (make().map_err(|e| format!("{e:?}"))?, Win::new(W));
                check(&s.0, &s.1)?;
                Ok(s)
            },
            5,
            &|a| if a < 4 { format!("filter({})", vals[a as usize]) } else { "reset".into() },
            &|s, a| {
                if a < 4 {
                    let x = vals[a as usize];
                    s.1.push(x);
                    let r = g(s.0.filter(t(x)));
                    ensure_close!(r, g(s.0.value()), 0.0, 0.0, "filter({x}) against value()");
                } else {
                    s.0.reset();
                    s.1.q.clear();
                }
                Ok(hf(&[check(&s.0, &s.1)?]))
            },
            &|s| Some(hkey(&(format!("{:?}", s.0), &s.1))),
        );
        // a curve inside the fitted family is reproduced exactly once the window is full
        ck.space(&format!("{name} reproduces its own family"), 5u64.pow(P as u32), |i| format!("{:?}", (0..P).scan(i, |a, _| { let v = (*a % 5) as i64 - 2; *a /= 5; Some(v) }).collect::<Vec<_>>()), |i| {
            let mut d = Dig(i);
            let c: Vec<f64> = (0..P).map(|_| d.n(5) as f64 - 2.0).collect();
            let mut s = make().map_err(|e| format!("{e:?}"))?;
            let ev = |x: f64| c.iter().rev().fold(0.0, |a, b| a * x + b);
            let d1 = |x: f64| (1..P).rev().fold(0.0, |a, k| a * x + k as f64 * c[k]);
            let d2 = |x: f64| (2..P).rev().fold(0.0, |a, k| a * x + (k * (k - 1)) as f64 * c[k]);
            let mut big = 0.0f64;
            for k in 0..W + 3 {
                let x = k as f64 * 0.25;
                big = big.max(ev(x).abs());
                let _ = s.filter(t(ev(x)));
                if k + 1 >= W {
                    // the stream is sampled every 0.25 in x; dt is the library's unit
                    let at = (k as i64 - (W as i64 - 1 - read)) as f64 * 0.25;
                    let m: Vec<f64> = (0..3).map(|k| if k < P { wt[k].iter().map(|a| a.abs()).sum::<f64>() } else { 0.0 }).collect();
                    ensure_close!(g(s.value()), ev(at), tol, tol * m[0] * big, "value at sample {k}");
                    ensure_close!(g(s.first_derivative()) * dt / 0.25, d1(at), tol, tol * m[1] * big * 4.0, "slope at sample {k}");
                    ensure_close!(g(s.second_derivative()) * dt * dt / 0.0625, d2(at), tol, tol * m[2] * big * 32.0, "bend at sample {k}");
                }
            }
            Ok(i)
        });
    }
    let sp = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -1.0, -0.0, 0.0];
    ck.space(&format!("savitzky_golay_bad_timestep W={W} terms={P} {}", T::NAME), sp.len() as u64 * 2, |i| format!("{}", sp[i as usize / 2]), |i| {
        let h = sp[i as usize / 2];
        let mut e = vec![];
        if !h.is_finite() {
            e.push(E::NonFinite)
        }
        if h <= 0.0 {
            e.push(E::NonPositiveTimestep)
        }
        if i % 2 == 1 && W % 2 == 0 {
            e.push(E::WindowEvenLength)
        }
        if W == 0 || P == 0 {
            e.push(E::WindowTooShort)
        }
        if P > W {
            e.push(E::PolynomialOrderTooHigh)
        }
        let r = if i % 2 == 0 { SavitzkyGolay::<W, P, T>::latest(t(h)) } else { SavitzkyGolay::<W, P, T>::centered(t(h)) };
        verdict(r, &e, "bad timestep")?;
        Ok(i)
    });
}

fn main() {
    let ck = Ck::new("C15");
    ck.assume("sample alphabets are finite; the window filters, the hysteresis switch and the Savitzky-Golay smoother are explored until no new state appears or to the stated depth");
    let deep = ck.thorough();
    let inf = f64::INFINITY;
    let v5 = [0.0, 1.0, -2.0, 8.5, inf];
    let v3 = [0.0, 1.0, -8.5];
    avg::<1, f64>(&ck, &v5, 40);
    avg::<2, f64>(&ck, &v5, 40);
    avg::<3, f64>(&ck, &v5, 40);
    avg::<4, f64>(&ck, &v5, 40);
    avg::<5, f64>(&ck, &v3, 40);
    avg::<6, f64>(&ck, &v3, 40);
    avg::<7, f64>(&ck, &v3, if deep { 40 } else { 10 });
    avg::<3, f32>(&ck, &v5, 40);
    avg::<4, f32>(&ck, &v3, 40);
    avg::<5, f32>(&ck, &v3, 40);
    med::<1, f64>(&ck, &v5, 40);
    med::<3, f64>(&ck, &v5, 40);
    med::<5, f64>(&ck, &[0.0, 1.0, -2.0, inf], 40);
    med::<7, f64>(&ck, &v3, if deep { 40 } else { 11 });
    med::<3, f32>(&ck, &v5, 40);
    med::<5, f32>(&ck, &v3, 40);
    long_windows::<8, f64>(&ck);
    long_windows::<9, f64>(&ck);
    long_windows::<11, f32>(&ck);
    long_windows::<16, f64>(&ck);
    long_windows::<17, f32>(&ck);
    long_windows::<33, f64>(&ck);
    ck.space("window_construction", 1, |_| "windows 0,2,4,8".into(), |_| {
        verdict(MovingAverage::<0, f64>::new(), &[E::WindowTooShort], "MovingAverage<0>")?;
        verdict(RunningMedian::<0, f64>::new(), &[E::WindowTooShort], "RunningMedian<0>")?;
        verdict(RunningMedian::<2, f64>::new(), &[E::WindowEvenLength], "RunningMedian<2>")?;
        verdict(RunningMedian::<4, f32>::new(), &[E::WindowEvenLength], "RunningMedian<4>")?;
        verdict(RunningMedian::<8, f64>::new(), &[E::WindowEvenLength], "RunningMedian<8>")?;
        Ok(0)
    });
    units::<f64>(&ck);
    units::<f32>(&ck);
    long_streams::<f64>(&ck);
    long_streams::<f32>(&ck);
    one_pole::<f64>(&ck, ck.q(8, 10));
    one_pole::<f32>(&ck, ck.q(7, 8));
    deadband::<f64>(&ck);
    deadband::<f32>(&ck);
    hysteresis::<f64>(&ck);
    hysteresis::<f32>(&ck);
    slew::<f64>(&ck, ck.q(6, 8));
    slew::<f32>(&ck, ck.q(5, 6));
    let (d, e64, e32) = (ck.q(9, 14), 1e-11, 2e-3);
    sg::<1, 1, f64>(&ck, d, e64);
    sg::<2, 1, f64>(&ck, d, e64);
    sg::<2, 2, f64>(&ck, d, e64);
    sg::<3, 1, f64>(&ck, d, e64);
    sg::<3, 2, f64>(&ck, d, e64);
    sg::<3, 3, f64>(&ck, d, e64);
    sg::<4, 2, f64>(&ck, d, e64);
    sg::<4, 3, f64>(&ck, d, e64);
    sg::<5, 3, f64>(&ck, ck.q(7, 11), e64);
    sg::<5, 4, f64>(&ck, ck.q(7, 11), e64);
    sg::<7, 3, f64>(&ck, ck.q(7, 8), e64);
    sg::<11, 3, f64>(&ck, ck.q(6, 7), e64);
    sg::<3, 2, f32>(&ck, d, e32);
    sg::<5, 3, f32>(&ck, ck.q(7, 10), e32);
    sg::<0, 2, f64>(&ck, d, e64);
    sg::<3, 0, f64>(&ck, d, e64);
    sg::<2, 3, f64>(&ck, d, e64);
    sg::<3, 5, f32>(&ck, d, e64);
    ck.finish()
}
