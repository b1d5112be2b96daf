//! C16: biquad designs, responses, running filters, cascades and channels.
use mc::num::*;
use mc::*;
use multicalc::error::SignalError as E;
use multicalc::linear_algebra::Vector;
use multicalc::signal_processing::{Biquad, BiquadCascade, BiquadCoefficients, MultiChannelBiquad, harmonic_notch_coefficients};
use std::f64::consts::{PI, TAU};

fn rd<T: Fl>(x: f64) -> f64 {
    g(t::<T>(x))
}
/// b0 b1 b2 a1 a2 with a leading output weight of one
type W = [f64; 5];
#[derive(Clone, Copy, Debug, PartialEq)]
enum D {
    Low,
    High,
    Band,
    Notch,
}
const DS: [D; 4] = [D::Low, D::High, D::Band, D::Notch];
fn design<T: Fl>(d: D, f: f64, q: f64, h: f64) -> Result<BiquadCoefficients<T>, E> {
    let (f, q, h) = (t(f), t(q), t(h));
    match d {
        D::Low => BiquadCoefficients::low_pass(f, q, h),
        D::High => BiquadCoefficients::high_pass(f, q, h),
        D::Band => BiquadCoefficients::band_pass(f, q, h),
        D::Notch => BiquadCoefficients::notch(f, q, h),
    }
}
fn weights(d: D, f: f64, q: f64, h: f64) -> W {
    let w = TAU * f * h;
    let (c, s2) = (w.cos(), (w / 2.0).sin().powi(2));
    let (al, b) = match d {
        D::Low => (w.sin() / (2.0 * q), [s2, 2.0 * s2, s2]),
        D::High => (w.sin() / (2.0 * q), [1.0 - s2, -2.0 * (1.0 - s2), 1.0 - s2]),
        D::Band => {
            let a = (w / (2.0 * q)).tan();
            (a, [a, 0.0, -a])
        }
        D::Notch => ((w / (2.0 * q)).tan(), [1.0, -2.0 * c, 1.0]),
    };
    let l = 1.0 + al;
    [b[0] / l, b[1] / l, b[2] / l, -2.0 * c / l, (1.0 - al) / l]
}
fn of<T: Fl>(c: &BiquadCoefficients<T>) -> W {
    let (b, a) = (ga(c.feed_forward()), ga(c.feedback()));
    [b[0], b[1], b[2], a[0], a[1]]
}
/// largest pole radius
fn radius(w: &W) -> f64 {
    let disc = w[3] * w[3] / 4.0 - w[4];
    if disc >= 0.0 { (w[3].abs() / 2.0) + disc.sqrt() } else { w[4].sqrt() }
}
/// numerator and denominator of the transfer function at an angle
fn parts(w: &W, th: f64) -> ((f64, f64), (f64, f64)) {
    let (c, s, c2, s2) = (th.cos(), th.sin(), (2.0 * th).cos(), (2.0 * th).sin());
    ((w[0] + w[1] * c + w[2] * c2, -(w[1] * s + w[2] * s2)), (1.0 + w[3] * c + w[4] * c2, -(w[3] * s + w[4] * s2)))
}
/// What the designs document as refused.
fn refused(d: D, f: f64, q: f64, h: f64, half_band: bool, fh: bool) -> Vec<E> {
    let mut al = vec![];
    if !f.is_finite() || !q.is_finite() || !h.is_finite() {
        al.push(E::NonFinite);
    }
    if h <= 0.0 {
        al.push(E::NonPositiveTimestep);
    }
    if q <= 0.0 {
        al.push(E::NonPositiveQualityFactor);
    }
    if f <= 0.0 || fh || matches!(d, D::Band | D::Notch) && half_band {
        al.push(E::FrequencyOutOfRange);
    }
    al
}

const FH: [f64; 18] = [0.001, 0.004, 0.01, 0.02, 0.05, 0.1, 0.125, 0.18, 0.2, 0.25, 0.3, 0.35, 0.4, 0.45, 0.48, 0.49, 0.495, 0.499];
const QS: [f64; 16] = [0.05, 0.1, 0.2, 0.3, 0.4, 0.5, 0.6, 0.7071067811865476, 0.9, 1.0, 1.3, 2.0, 4.0, 10.0, 30.0, 100.0];
const HS: [f64; 5] = [1.0, 0.5, 0.001, 2.5e-4, 64.0];

fn designs<T: Fl>(ck: &Ck) {
    ck.space(&format!("designs_{}", T::NAME), 4 * 18 * 16 * 5, |i| {
        let mut d = Dig(i);
        let (k, fh, q, h) = (d.pick(&DS), d.pick(&FH), d.pick(&QS), d.pick(&HS));
        format!("{k:?} {fh} of the sampling rate, Q {q}, dt {h}")
    }, |i| {
        let mut d = Dig(i);
        let (k, fh, q, h) = (d.pick(&DS), d.pick(&FH), d.pick(&QS), d.pick(&HS));
        let (h, q) = (rd::<T>(h), rd::<T>(q));
        let f = rd::<T>(fh / h);
        let band = f * h / q;
        if (band - 0.5).abs() < 1e-6 {
            return Ok(9);
        }
        let Some(c) = verdict(design::<T>(k, f, q, h), &refused(k, f, q, h, band >= 0.5, f * h >= 0.5), "design")? else { return Ok(1) };
        let (got, want) = (of(&c), weights(k, f, q, h));
        ensure_eq!(g(c.timestep()), h, "timestep");
        // the tangent of a half band close to a right angle multiplies rounding
        let al = if matches!(k, D::Band | D::Notch) { (PI * f * h / q).tan() } else { 0.0 };
        let e = T::EPS * 16.0 * (1.0 + al);
        for j in 0..5 {
            ensure_close!(got[j], want[j], e, e, "weight {j}");
        }
        ensure!(c.is_stable(), "not stable: {got:?}");
        ensure!(radius(&got) < 1.0, "poles of {got:?} at radius {}", radius(&got));
        // defining gains; the response divides by a denominator that all weights round into
        let gain = |x: f64| g(c.magnitude_at(t(x)));
        let tol = |th: f64| {
            let ((nr, ni), (dr, di)) = parts(&want, th);
            let den = dr.hypot(di);
            T::EPS * 32.0 * (1.0 + al) * (1.0 / den + nr.hypot(ni) / (den * den)).max(1.0)
        };
        let ny = 0.5 / h;
        let three: [(f64, f64); 3] = match k {
            D::Low => [(0.0, 1.0), (ny, 0.0), (f, q)],
            D::High => [(0.0, 0.0), (ny, 1.0), (f, q)],
            D::Band => [(0.0, 0.0), (ny, 0.0), (f, 1.0)],
            D::Notch => [(0.0, 1.0), (ny, 1.0), (f, 0.0)],
        };
        for (at, w) in three {
            let x = gain(at);
            // at the centre the frequency itself rounds
            let e = tol(TAU * at * h) * (1.0 + w) + T::EPS * 16.0 * q;
            if e < 0.3 {
                ensure_close!(x, w, e, e, "gain at {at}");
            }
        }
        // the whole response, from the weights the filter has
        for j in 0..=24 {
            let fr = rd::<T>(ny * j as f64 / 24.0);
            let th = TAU * fr * h;
            let ((nr, ni), (dr, di)) = parts(&got, th);
            let (n, de) = (nr.hypot(ni), dr.hypot(di));
            let m = n / de;
            let (en, ed) = (T::EPS * 8.0 * got[..3].iter().map(|x| x.abs()).sum::<f64>(), T::EPS * 8.0 * (1.0 + got[3].abs() + got[4].abs()));
            let e = en / de + m * ed / de;
            if ed < 0.1 * de {
                ensure_close!(gain(fr), m, T::EPS * 8.0, e * 2.0, "magnitude at {fr}");
                let x = g(c.magnitude_at(t(fr)));
                let db = g(c.magnitude_in_decibels_at(t(fr)));
                let want = 20.0 * x.log10();
                if x == 0.0 {
                    ensure_eq!(db, f64::NEG_INFINITY, "decibels of nothing");
                } else {
                    ensure_close!(db, want, T::EPS * 16.0, T::EPS * 32.0, "decibels at {fr}");
                }
                if en < 0.1 * n {
                    let ph = g(c.phase_at(t(fr)));
                    let want = ni.atan2(nr) - di.atan2(dr);
                    let et = 2.0 * (en / n + ed / de) + T::EPS * 16.0;
                    let dp = (ph - want).rem_euclid(TAU);
                    ensure!(dp.min(TAU - dp) <= et, "phase {ph} at {fr}, expected {want}");
                    let dl = g(c.delay_at(t(fr)));
                    let want = if fr == 0.0 { 0.0 } else { -ph / (TAU * fr) };
                    ensure_close!(dl, want, T::EPS * 8.0, 0.0, "delay at {fr}");
                }
            }
        }
        Ok(hf(&got))
    });
    // the same design in another unit of time
    ck.space(&format!("units_{}", T::NAME), 4 * 18 * 16 * 5 * 6, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let (k, fh, q, h) = (d.pick(&DS), d.pick(&FH), d.pick(&QS), d.pick(&HS));
        let u = 2f64.powi(d.pick(if T::IS32 { &[-60, -30, -24, 24, 40, 60] } else { &[-200, -80, -53, 53, 100, 200] }));
        let (h, q) = (rd::<T>(h), rd::<T>(q));
        let f = rd::<T>(fh / h);
        match (design::<T>(k, f, q, h), design::<T>(k, f / u, q, h * u)) {
            (Ok(a), Ok(b)) => {
                ensure_eq!((a.feed_forward(), a.feedback()), (b.feed_forward(), b.feedback()), "weights of {k:?} {f} Hz Q {q} dt {h} in units of {u}");
                for j in 0..=8 {
                    let fr = rd::<T>(0.5 / h * j as f64 / 8.0);
                    ensure_eq!(b.magnitude_at(t(fr / u)), a.magnitude_at(t(fr)), "magnitude at {fr}");
                    let (p, r) = (g(a.phase_at(t(fr))), g(b.phase_at(t(fr / u))));
                    ensure!(p == r || p.is_nan() && r.is_nan(), "phase at {fr}: {r}, expected {p}");
                    let (p, r) = (g(a.delay_at(t(fr))), g(b.delay_at(t(fr / u))));
                    ensure!(r == p * u || (r - p * u).abs() <= 4.0 * T::EPS * r.abs() || p.is_nan() && r.is_nan(), "delay at {fr}: {r}, expected {}", p * u);
                    let s = BiquadCascade::new([b, b]);
                    let r = g(s.delay_at(t(fr / u)));
                    ensure!((r - 2.0 * p * u).abs() <= 4.0 * T::EPS * r.abs() || p.is_nan() && r.is_nan(), "delay of two sections at {fr}: {r}, expected {}", 2.0 * p * u);
                }
                op(36);
                Ok(hf(&of(&a)))
            }
            (a, b) => {
                ensure_eq!(format!("{:?}", b.err()), format!("{:?}", a.err()), "{k:?} {f} Hz Q {q} dt {h} in units of {u}");
                Ok(1)
            }
        }
    });
    // a quality that spreads the notch over everything, or a hair of it
    ck.space(&format!("sharpness_{}", T::NAME), 2 * 6 * 4, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let k = [D::Low, D::High][d.n(2)];
        let q = rd::<T>(d.pick(&[1e-30, 1e-20, 1e-17, 1e-12, 1e12, 1e25]));
        let f = rd::<T>(d.pick(&[0.01, 0.1, 0.25, 0.4]));
        let c = design::<T>(k, f, q, 1.0).map_err(|e| format!("{k:?} {f} Q {q}: {e:?}"))?;
        let (got, want) = (of(&c), weights(k, f, q, 1.0));
        for j in 0..5 {
            ensure_close!(got[j], want[j], T::EPS * 16.0, T::EPS * 16.0, "weight {j} of {k:?} {f} Q {q}");
        }
        Ok(hf(&got))
    });
    // the domain of a design
    let sp = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -1.0, -0.0, 0.0, 1e-3, 0.25, 0.4999, 0.5, 0.500001, 1.0, 2.0, 1000.0];
    ck.space(&format!("design_domain_{}", T::NAME), 4 * 14 * 14 * 14, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let k = d.pick(&DS);
        let [f, q, h] = [d.pick(&sp), d.pick(&sp), d.pick(&sp)].map(rd::<T>);
        let band = f * h / q;
        if (band - 0.5).abs() < 1e-6 || f * h < 1e-5 && f * h > 0.0 || (f * h - 0.5).abs() < 1e-6 && f * h != 0.5 {
            return Ok(9);
        }
        let c = verdict(design::<T>(k, f, q, h), &refused(k, f, q, h, band >= 0.5, f * h >= 0.5), &format!("{k:?} {f} Hz Q {q} dt {h}"))?;
        if let Some(c) = c {
            ensure!(of(&c).iter().all(|x| x.is_finite()), "weights {:?}", of(&c));
        }
        Ok(c.is_some() as u64)
    });
    // weights handed in
    let sp = SPECIAL;
    ck.space(&format!("given_weights_{}", T::NAME), 6 * 14 * 14, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let at = d.n(6);
        let v = [d.pick(&sp), d.pick(&sp)].map(rd::<T>);
        let mut w = [0.5, -0.25, 0.125, 0.1, 0.2, 0.01].map(rd::<T>);
        w[at] = v[0];
        w[(at + 1) % 6] = v[1];
        let mut al = vec![];
        if w.iter().any(|x| !x.is_finite()) {
            al.push(E::NonFinite);
        }
        if w[5] <= 0.0 {
            al.push(E::NonPositiveTimestep);
        }
        let c = verdict(BiquadCoefficients::new(ta([w[0], w[1], w[2]]), ta([w[3], w[4]]), t::<T>(w[5])), &al, "weights")?;
        if let Some(c) = c {
            ensure_eq!(of(&c), [w[0], w[1], w[2], w[3], w[4]], "weights kept");
            ensure_eq!(g(c.timestep()), w[5], "timestep kept");
        }
        Ok(c.is_some() as u64)
    });
    ck.space(&format!("stability_{}", T::NAME), 81 * 49, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let (a1, a2) = (rd::<T>(d.n(81) as f64 * 0.05 - 2.0 + 0.003), rd::<T>(d.n(49) as f64 * 0.05 - 1.2 + 0.007));
        let c = BiquadCoefficients::new([T::ONE, T::ZERO, T::ZERO], ta([a1, a2]), T::ONE).map_err(|e| format!("{e:?}"))?;
        let r = radius(&of(&c));
        ensure_eq!(c.is_stable(), r < 1.0, "stability of {a1} {a2}, poles at radius {r}");
        Ok(c.is_stable() as u64)
    });
}

/// The difference equation with each past sample weighted as when it was fed.
#[derive(Clone, Copy, Debug)]
struct Ref {
    w: W,
    /// weights, input, output of the previous and the one before it
    past: [(W, f64, f64); 2],
    last: f64,
    big: f64,
    n: f64,
}
impl Ref {
    fn new(w: W) -> Ref {
        Ref { w, past: [(w, 0.0, 0.0); 2], last: 0.0, big: 0.0, n: 0.0 }
    }
    fn step(&mut self, x: f64) -> f64 {
        let [p, q] = self.past;
        let y = self.w[0] * x + (p.0[1] * p.1 - p.0[3] * p.2) + (q.0[2] * q.1 - q.0[4] * q.2);
        self.past = [(self.w, x, y), p];
        self.last = y;
        self.big = self.big.max(x.abs()).max(y.abs());
        self.n += 1.0;
        y
    }
    fn settle(&mut self, v: f64) {
        let w = self.w;
        let y = v * (w[0] + w[1] + w[2]) / (1.0 + w[3] + w[4]);
        self.past = [(w, v, y); 2];
        self.last = y;
        self.big = self.big.max(v.abs()).max(y.abs());
        self.n += 1.0;
    }
    fn reset(&mut self) {
        *self = Ref { big: self.big, n: self.n, ..Ref::new(self.w) };
        self.last = 0.0;
    }
    fn tol<T: Fl>(&self) -> f64 {
        T::EPS * 64.0 * (1.0 + self.n) * self.big / (1.0 + self.w[3] + self.w[4]).abs().clamp(1e-3, 1.0)
    }
}

const IN: [f64; 5] = [0.0, 1.0, -2.5, 1000.0, 1e-3];
fn shapes<T: Fl>() -> Vec<BiquadCoefficients<T>> {
    vec![
        design(D::Low, 50.0, 0.7071, 0.001).unwrap(),
        design(D::Notch, 180.0, 4.0, 0.001).unwrap(),
        design(D::Band, 60.0, 2.0, 0.002).unwrap(),
        design(D::High, 200.0, 0.6, 0.001).unwrap(),
        BiquadCoefficients::new(ta([0.3, -0.7, 0.11]), ta([0.5, -0.2]), t(0.01)).unwrap(),
    ]
}
fn running<T: Fl>(ck: &Ck) {
    let sh = shapes::<T>();
    let na = IN.len() as u64 + 5 + 2 + 1;
    for start in 0..5 {
        ck.bfs::<(Biquad<T>, Ref)>(
            &format!("filter_from_{start}_{}", T::NAME),
            ck.q(5, 7),
            &|| Ok((Biquad::new(sh[start]), Ref::new(of(&sh[start])))),
            na,
            &|a| match a as usize { a @ 0..5 => format!("filter({})", IN[a]), a @ 5..10 => format!("set_coefficients({})", a - 5), 10 => "settle_to(2)".into(), 11 => "settle_to(-300)".into(), _ => "reset".into() },
            &|s, a| {
                match a as usize {
                    a @ 0..5 => {
                        let x = rd::<T>(IN[a]);
                        let y = g(s.0.filter(t(x)));
                        let want = s.1.step(x);
                        ensure_close!(y, want, 0.0, s.1.tol::<T>(), "filter({x})");
                    }
                    a @ 5..10 => {
                        s.0.set_coefficients(sh[a - 5]);
                        s.1.w = of(&sh[a - 5]);
                        ensure_eq!(s.0.coefficients(), sh[a - 5], "weights after the swap");
                    }
                    10 => {
                        s.0.settle_to(t(2.0));
                        s.1.settle(2.0);
                    }
                    11 => {
                        s.0.settle_to(t(-300.0));
                        s.1.settle(-300.0);
                    }
                    _ => {
                        s.0.reset();
                        s.1.reset();
                        ensure_eq!(s.0, Biquad::new(s.0.coefficients()), "reset is as new");
                    }
                }
                ensure_close!(g(s.0.value()), s.1.last, 0.0, s.1.tol::<T>(), "value");
                // what comes next, whatever it is
                for x in [0.0, 3.0] {
                    let (mut f, mut r) = *s;
                    for _ in 0..3 {
                        let (y, w) = (g(f.filter(t(x))), r.step(x));
                        ensure_close!(y, w, 0.0, r.tol::<T>(), "next outputs for {x}");
                    }
                }
                Ok(hf(&[s.1.last]))
            },
            &|_| None,
        );
    }
    // cascades: every section in order, nothing shared
    const N: usize = 3;
    let pick = |j: usize| [sh[0], sh[1], sh[4]][j];
    ck.bfs::<(BiquadCascade<N, T>, [Ref; N])>(
        &format!("cascade_{}", T::NAME),
        ck.q(4, 5),
        &|| Ok((BiquadCascade::new([0, 1, 2].map(pick)), [0, 1, 2].map(|j| Ref::new(of(&pick(j)))))),
        5 + 2 + 5 * 4 + 1,
        &|a| match a as usize { a @ 0..5 => format!("filter({})", IN[a]), 5 => "settle_to(2)".into(), 6 => "reset".into(), 27 => "settle_to(-70)".into(), a => format!("set_section({}, {})", (a - 7) / 5, (a - 7) % 5) },
        &|s, a| {
            match a as usize {
                a @ 0..5 => {
                    let x = rd::<T>(IN[a]);
                    let y = g(s.0.filter(t(x)));
                    let want = s.1.iter_mut().fold(x, |v, r| r.step(v));
                    ensure_close!(y, want, 0.0, s.1.iter().map(|r| r.tol::<T>()).sum::<f64>() * 16.0, "filter({x})");
                }
                k @ (5 | 27) => {
                    let v = if k == 5 { 2.0 } else { -70.0 };
                    s.0.settle_to(t(v));
                    s.1.iter_mut().fold(v, |v, r| {
                        r.settle(v);
                        r.last
                    });
                }
                6 => {
                    s.0.reset();
                    s.1.iter_mut().for_each(|r| r.reset());
                }
                a => {
                    let (at, k) = ((a - 7) / 5, (a - 7) % 5);
                    let before = s.0;
                    let at_ix = if at == 3 { [3, 99, usize::MAX, 3, 4][k] } else { at };
                    if verdict(s.0.set_section(at_ix, sh[k]), &if at >= N { vec![E::SectionIndexOutOfRange] } else { vec![] }, "set_section")?.is_some() {
                        s.1[at].w = of(&sh[k]);
                    } else {
                        ensure_eq!(s.0, before, "a refused swap changes nothing");
                    }
                }
            }
            ensure_close!(g(s.0.value()), s.1[N - 1].last, 0.0, s.1.iter().map(|r| r.tol::<T>()).sum::<f64>() * 16.0, "value");
            // the chain's response is the product of its sections'
            let cs: Vec<BiquadCoefficients<T>> = sh.iter().copied().filter(|c| s.1.iter().any(|r| r.w == of(c))).collect();
            ensure_eq!(s.0.is_stable(), cs.iter().all(|c| c.is_stable()), "stability");
            for f in [0.0, 17.0, 90.0, 333.0] {
                let sec = |r: &Ref| *sh.iter().find(|c| of(*c) == r.w).unwrap();
                let m: f64 = s.1.iter().map(|r| g(sec(r).magnitude_at(t(f)))).product();
                let ph: f64 = s.1.iter().map(|r| g(sec(r).phase_at(t(f)))).sum();
                ensure_close!(g(s.0.magnitude_at(t(f))), m, T::EPS * 16.0, 0.0, "magnitude at {f}");
                let db = g(s.0.magnitude_in_decibels_at(t(f)));
                if m > 0.0 {
                    ensure_close!(db, 20.0 * m.log10(), T::EPS * 64.0, T::EPS * 64.0, "decibels at {f}");
                } else {
                    ensure_eq!(db, f64::NEG_INFINITY, "decibels of nothing");
                }
                let pe = T::EPS * 64.0;
                ensure_close!(g(s.0.phase_at(t(f))), ph, pe, pe, "phase at {f}");
                ensure_close!(g(s.0.delay_at(t(f))), if f == 0.0 { 0.0 } else { -ph / (TAU * f) }, pe, pe, "delay at {f}");
            }
            Ok(hf(&[s.1[2].last]))
        },
        &|_| None,
    );
    // channels: independent filters of one shape
    const VEC: [[f64; 2]; 4] = [[1.0, 0.0], [0.0, -5.0], [300.0, 0.25], [-1.0, -1.0]];
    ck.bfs::<(MultiChannelBiquad<2, T>, [Ref; 2])>(
        &format!("channels_{}", T::NAME),
        ck.q(6, 7),
        &|| Ok((MultiChannelBiquad::new(sh[0]), [Ref::new(of(&sh[0])); 2])),
        4 + 3 + 2 + 1,
        &|a| format!("{a}"),
        &|s, a| {
            match a as usize {
                a @ 0..4 => {
                    let x = VEC[a].map(rd::<T>);
                    let y = ga(*s.0.filter(Vector::new(ta(x))).as_array());
                    for c in 0..2 {
                        let want = s.1[c].step(x[c]);
                        ensure_close!(y[c], want, 0.0, s.1[c].tol::<T>(), "channel {c}");
                    }
                }
                a @ 4..7 => {
                    s.0.set_coefficients(sh[a - 4]);
                    s.1.iter_mut().for_each(|r| r.w = of(&sh[a - 4]));
                }
                a @ 7..9 => {
                    let v = [[2.0, -30.0], [0.0, 1.0]][a - 7];
                    s.0.settle_to(Vector::new(ta(v)));
                    (0..2).for_each(|c| s.1[c].settle(v[c]));
                }
                _ => {
                    s.0.reset();
                    s.1.iter_mut().for_each(|r| r.reset());
                }
            }
            let v = ga(*s.0.value().as_array());
            for c in 0..2 {
                ensure_close!(v[c], s.1[c].last, 0.0, s.1[c].tol::<T>(), "value of channel {c}");
            }
            Ok(hf(&v))
        },
        &|_| None,
    );
}

/// A long run: settling is where a constant ends up, and an oscillation comes through as reported.
fn steady<T: Fl>(ck: &Ck) {
    ck.space(&format!("steady_{}", T::NAME), 4 * 6 * 4 * 5, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let (k, fh, q) = (d.pick(&DS), d.pick(&[0.02, 0.05, 0.1, 0.2, 0.3, 0.42]), d.pick(&[0.5, 0.7071, 1.0, 3.0]));
        let h = 0.001;
        let c = match design::<T>(k, fh / h, q, h) { Ok(c) => c, Err(_) => return Ok(1) };
        let w = of(&c);
        let r = radius(&w);
        let n = ((T::EPS * 1e-2).ln() / r.ln()).ceil() as usize + 50;
        op(n as u64 * 2);
        // a constant
        let v = [1.0, -3.5, 0.0, 1e3, 1e-4][d.n(5)];
        let (mut run, mut set) = (Biquad::new(c), Biquad::new(c));
        for _ in 0..n {
            run.filter(t(v));
        }
        set.settle_to(t(v));
        let e = T::EPS * 400.0 * v.abs() / (1.0 + w[3] + w[4]);
        ensure_close!(g(run.value()), g(set.value()), 0.0, e, "{k:?} {fh} Q {q}: settled on {v}");
        let dc = match k { D::Low | D::Notch => v, _ => 0.0 };
        ensure_close!(g(set.value()), dc, 0.0, e, "{k:?} {fh} Q {q}: steady output for {v}");
        for x in [v, 0.0, v * 2.0, -1.0] {
            let (a, b) = (g(run.filter(t(x))), g(set.filter(t(x))));
            ensure_close!(a, b, 0.0, e + T::EPS * 400.0 / (1.0 + w[3] + w[4]), "{k:?} {fh} Q {q}: after settling, {x}");
        }
        // an oscillation
        let fr = [13.0, 60.0, 180.0, 250.0, 401.0][i as usize % 5];
        let th = TAU * fr * h;
        let (m, ph) = (g(c.magnitude_at(t(fr))), g(c.phase_at(t(fr))));
        let mut f = Biquad::new(c);
        for j in 0..n + 40 {
            let a = (th * j as f64).rem_euclid(TAU);
            let y = g(f.filter(t(a.cos())));
            if j > n {
                ensure_close!(y, m * (a + ph).cos(), 0.0, T::EPS * (600.0 + 20.0 * j as f64) / (1.0 + w[3] + w[4]).min(1.0), "{k:?} {fh} Q {q}: sample {j} of an oscillation at {fr}");
            }
        }
        Ok(hf(&[m, ph]))
    });
    ck.space(&format!("harmonics_{}", T::NAME), 16 * 10 * 5, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let sp = [f64::NAN, f64::INFINITY, -1.0, 0.0, 1.0, 20.0, 60.0, 90.0, 100.0, 120.0, 124.0, 125.5, 166.0, 170.0, 249.0, 499.0];
        let (f, q, h) = (rd::<T>(d.pick(&sp)), rd::<T>(d.pick(&[0.25, 0.3, 0.7, 1.5, 4.0, 30.0, 0.0, -2.0, f64::NAN, f64::INFINITY])), rd::<T>(d.pick(&[0.001, 0.0005, 0.0, -1.0, f64::NAN])));
        fn go<const S: usize, T: Fl>(f: f64, q: f64, h: f64) -> Result<u64, String> {
            let mut al = refused(D::Notch, f, q, h, false, false);
            if S == 0 {
                al.push(E::WindowTooShort);
            }
            let top = f * S.max(1) as f64;
            if (top * h - 0.5).abs() < 1e-6 || (top * h / q - 0.5).abs() < 1e-6 {
                return Ok(9);
            }
            if top * h >= 0.5 || top * h / q >= 0.5 {
                al.push(E::FrequencyOutOfRange);
            }
            let Some(c) = verdict(harmonic_notch_coefficients::<S, T>(t(f), t(q), t(h)), &al, &format!("{S} harmonics of {f} Q {q} dt {h}"))? else { return Ok(S as u64) };
            for (j, c) in c.iter().enumerate() {
                let (got, want) = (of(c), weights(D::Notch, f * (j + 1) as f64, q, h));
                let e = T::EPS * 32.0 * (1.0 + (PI * top * h / q).tan());
                for n in 0..5 {
                    ensure_close!(got[n], want[n], e, e, "section {j} weight {n}");
                }
            }
            Ok(hf(&[f, q, h]))
        }
        Ok([go::<0, T>(f, q, h)?, go::<1, T>(f, q, h)?, go::<2, T>(f, q, h)?, go::<4, T>(f, q, h)?].iter().fold(0, |a, b| a * 31 + b % 1000))
    });
    ck.space(&format!("no_sections_{}", T::NAME), 5, |i| format!("{i}"), |i| {
        let x = t::<T>(IN[i as usize]);
        let mut c = BiquadCascade::<0, T>::new([]);
        ensure_eq!(c.value(), T::ZERO, "value");
        ensure_eq!(c.filter(x), x, "nothing in the way");
        ensure!(c.is_stable() && c.magnitude_at(x) == T::ONE && c.phase_at(x) == T::ZERO, "response of nothing");
        Ok(0)
    });
}

fn main() {
    let ck = Ck::new("C16");
    ck.assume("Centre frequencies from a thousandth of the sampling rate up; below, the second-order form itself loses its weights to rounding in single precision.");
    ck.assume("Weights are compared with the published design formulas evaluated in f64; responses with the transfer function of the weights the filter reports.");
    designs::<f64>(&ck);
    running::<f64>(&ck);
    steady::<f64>(&ck);
    designs::<f32>(&ck);
    running::<f32>(&ck);
    steady::<f32>(&ck);
    ck.finish();
}
