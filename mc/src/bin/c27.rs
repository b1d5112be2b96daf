//! C27: random numbers, the particle filter and Monte Carlo localisation.
use mc::la::*;
use mc::num::*;
use mc::refmodel::*;
use mc::*;
use multicalc::error::EstimationError as E;
use multicalc::estimation::*;
use multicalc::linear_algebra::Vector;
use multicalc::mapping::{DynamicOccupancyGrid, MutableOccupancyMap, OccupancyMap, ScanGeometry};
use multicalc::random::{Pcg32, RandomScalar, RandomSource};
use multicalc::scalar::{Numeric, Primal, VectorFn};

trait Rs: Fl + RandomScalar + Primal {
    const BITS: u32;
    const LEAST: f64;
    /// a unit draw straight from the words
    fn unit(words: &mut dyn FnMut() -> u32) -> f64;
}
impl Rs for f64 {
    const BITS: u32 = 53;
    const LEAST: f64 = f64::MIN_POSITIVE;
    fn unit(w: &mut dyn FnMut() -> u32) -> f64 {
        let hi = w() as u64;
        let lo = w() as u64;
        (((hi << 32) | lo) >> 11) as f64 / 2f64.powi(53)
    }
}
impl Rs for f32 {
    const BITS: u32 = 24;
    const LEAST: f64 = f32::MIN_POSITIVE as f64;
    fn unit(w: &mut dyn FnMut() -> u32) -> f64 {
        (w() >> 8) as f64 / 2f64.powi(24)
    }
}
fn rd<T: Fl>(x: f64) -> f64 {
    g(t::<T>(x))
}
/// words laid down in advance, then a plain running mix of their number
#[derive(Clone, Debug)]
struct Tape<T> {
    words: Vec<u32>,
    at: usize,
    cache: Option<T>,
}
fn mix(k: u64) -> u32 {
    let mut z = (k + 1).wrapping_mul(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    (z ^ (z >> 31)) as u32
}
impl<T> Tape<T> {
    fn new(words: Vec<u32>) -> Self {
        Tape { words, at: 0, cache: None }
    }
    fn word(&mut self) -> u32 {
        let w = self.words.get(self.at).copied().unwrap_or_else(|| mix(self.at as u64));
        self.at += 1;
        w
    }
}
impl<T: RandomScalar> RandomSource<T> for Tape<T> {
    fn next_u32(&mut self) -> u32 {
        self.word()
    }
    fn get_cache(&mut self) -> Option<T> {
        self.cache.take()
    }
    fn set_cache(&mut self, v: T) {
        self.cache = Some(v);
    }
}
/// the same draws, worked out again
#[derive(Clone, Debug)]
struct Draws {
    tape: Tape<f64>,
    kept: Option<f64>,
}
impl Draws {
    fn unit<T: Rs>(&mut self) -> f64 {
        let tape = &mut self.tape;
        T::unit(&mut || tape.word())
    }
    fn normal<T: Rs>(&mut self) -> f64 {
        if let Some(v) = self.kept.take() { return v }
        loop {
            let x = 2.0 * self.unit::<T>() - 1.0;
            let y = 2.0 * self.unit::<T>() - 1.0;
            let s = x * x + y * y;
            if s > 0.0 && s < 1.0 {
                let k = (-2.0 * s.ln() / s).sqrt();
                self.kept = Some(y * k);
                return x * k;
            }
        }
    }
}
fn random<T: Rs>(ck: &Ck) {
    let nm = T::NAME;
    let vals = [0u64, 1, 2, 42, 54, 7, u64::MAX, 1 << 63, 0x5555555555555555, 0xda3e39cb94b95bdb, 20260804, 1 << 32];
    ck.space(&format!("words_{nm}"), 12 * 13, |i| format!("{} {}", vals[(i % 12) as usize], i / 12), |i| {
        let (seed, stream) = (vals[(i % 12) as usize], i / 12);
        let stream = if stream == 12 { None } else { Some(vals[stream as usize]) };
        let make = || match stream { None => Pcg32::<T>::new(seed), Some(s) => Pcg32::<T>::with_stream(seed, s) };
        let (mut a, mut b) = (make(), make());
        // the published generator: seeded, one step, output from the state before the step
        let inc = (stream.unwrap_or(0xda3e39cb94b95bdb) << 1) | 1;
        let step = |s: u64| s.wrapping_mul(6364136223846793005).wrapping_add(inc);
        let mut s = step(step(0).wrapping_add(seed));
        let mut words = vec![];
        for k in 0..2000 {
            op(1);
            let w = (((s >> 18) ^ s) >> 27) as u32;
            let want = w.rotate_right((s >> 59) as u32);
            s = step(s);
            words.push(want);
            let got = a.next_u32();
            ensure!(got == want, "word {k} is {got:#x}, published {want:#x}");
        }
        for k in (0..200).step_by(2) {
            ensure!(b.next_u64() == (words[k] as u64) << 32 | words[k + 1] as u64, "long word {k}");
        }
        if seed == 42 && stream == Some(54) {
            ensure!(words[..6] == [0xa15c02b7, 0x7b47f409, 0xba1d3330, 0x83d2f293, 0xbfa4784b, 0xcbed606e], "the published first words: {words:x?}");
        }
        // unit and normal draws are those of the words
        let (mut c, mut d) = (make(), Draws { tape: Tape::new(words.clone()), kept: None });
        for k in 0..200 {
            if k % 3 == 0 {
                let (x, y) = (g(c.next_unit()), d.unit::<T>());
                ensure!(x == y && (0.0..1.0).contains(&x), "unit draw {k}: {x} for {y}");
            } else {
                let (x, y) = (g(c.standard_normal()), d.normal::<T>());
                ensure_close!(x, y, 64.0 * T::EPS, 64.0 * T::EPS, "normal draw {k}");
            }
        }
        ensure!(a.clone() == a, "a clone is equal");
        Ok(h64(&words[..16].to_vec()))
    });
    // every unit draw there is (single), or every choice of high and low parts (double)
    ck.space(&format!("units_{nm}"), 1 << 12, |i| format!("{i}"), |i| {
        let mut last = -1.0;
        for k in 0..1u64 << 12 {
            let top = (i << 12 | k) as u32;
            let (words, want) = if T::IS32 { (vec![top << 8 | 0xff * (k & 1) as u32], top as f64 / 2f64.powi(24)) } else {
                let low = [0, u32::MAX, 0x800, 0x7ff][(k % 4) as usize];
                (vec![top << 8 | 0xab, low], ((((top << 8 | 0xab) as u64) << 32 | low as u64) >> 11) as f64 / 2f64.powi(53))
            };
            let n = words.len();
            let mut tape = Tape::<T>::new(words);
            let u = g(<Tape<T> as RandomSource<T>>::next_unit(&mut tape));
            ensure!(u == want && (0.0..1.0).contains(&u) && tape.at == n, "unit draw {u} for {want} from {:?}", tape.words);
            if T::IS32 { ensure!(u > last, "not increasing at {k}") }
            last = u;
            op(1);
        }
        Ok(i)
    });
    // normals over a full grid of pairs of uniform draws: the map, the pairing, and the shape
    let side = ck.q(9u32, 11);
    let n = 1u64 << side;
    let top = |c: u64| ((2 * c + 1) << (31 - side)) as u32;
    let words = move |a: u64, b: u64| if T::IS32 { vec![top(a), top(b)] } else { vec![top(a), 0, top(b), 0] };
    ck.space(&format!("normals_{nm}"), n, |i| format!("row {i} of {n}"), |i| {
        for j in 0..n {
            op(1);
            let (x, y) = ((2 * i + 1) as f64 / n as f64 - 1.0, (2 * j + 1) as f64 / n as f64 - 1.0);
            let s = x * x + y * y;
            let mut tape = Tape::<T>::new(words(i, j));
            let used = tape.words.len();
            let (a, b) = (g(<Tape<T> as RandomSource<T>>::standard_normal(&mut tape)), g(<Tape<T> as RandomSource<T>>::standard_normal(&mut tape)));
            if s < 1.0 {
                let k = (-2.0 * s.ln() / s).sqrt();
                let tol = 16.0 * T::EPS * (1.0 + (1.0 / (1.0 - s)).sqrt());
                ensure_close!(a, x * k, tol, tol, "first of the pair at {x} {y}");
                ensure_close!(b, y * k, tol, tol, "second of the pair at {x} {y}");
                ensure!(tape.at == used, "{} words used for a pair at {x} {y}", tape.at);
            } else {
                ensure!(tape.at > used && a.is_finite() && b.is_finite(), "a pair outside the disc was used: {x} {y}");
            }
        }
        Ok(i)
    });
    // the very centre and the rim of the disc have no direction to give: the pair is drawn again
    ck.space(&format!("normal_redraws_{nm}"), 5 * 5 * 4, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let edge = [1u32 << 31, 0, 1 << 31, 3 << 30, 1 << 30];
        let (a, b) = (edge[d.n(5)], edge[d.n(5)]);
        let again = d.n(4) as u32;
        let pair = |a: u32, b: u32| if T::IS32 { vec![a, b] } else { vec![a, 0, b, 0] };
        let value = |w: u32| 2.0 * w as f64 / 2f64.powi(32) - 1.0;
        let mut w = pair(a, b);
        let per = w.len();
        for _ in 0..again {
            w.extend(pair(a, b));
        }
        w.extend(pair(5 << 29, 1 << 30));
        let s = value(a).powi(2) + value(b).powi(2);
        let good = s > 0.0 && s < 1.0;
        let (x, y, used) = if good { (value(a), value(b), per) } else { (0.25, -0.5, w.len()) };
        let mut tape = Tape::<T>::new(w);
        let (p, q) = (g(<Tape<T> as RandomSource<T>>::standard_normal(&mut tape)), g(<Tape<T> as RandomSource<T>>::standard_normal(&mut tape)));
        let k = (-2.0 * (x * x + y * y).ln() / (x * x + y * y)).sqrt();
        ensure_close!(p, x * k, 16.0 * T::EPS, 16.0 * T::EPS, "first of the pair");
        ensure_close!(q, y * k, 16.0 * T::EPS, 16.0 * T::EPS, "second of the pair");
        ensure_eq!(tape.at, used, "words drawn");
        Ok(i)
    });
    ck.space(&format!("normal_shape_{nm}"), 1, |_| "whole grid".into(), |_| {
        let (mut count, mut m1, mut m2, mut m4, mut xy, mut within) = (0.0f64, 0.0f64, 0.0f64, 0.0f64, 0.0f64, [0.0f64; 4]);
        for i in 0..n {
            for j in 0..n {
                let (x, y) = ((2 * i + 1) as f64 / n as f64 - 1.0, (2 * j + 1) as f64 / n as f64 - 1.0);
                if x * x + y * y >= 1.0 { continue }
                let mut tape = Tape::<T>::new(words(i, j));
                for k in 0..2 {
                    op(1);
                    let z = g(<Tape<T> as RandomSource<T>>::standard_normal(&mut tape));
                    count += 1.0;
                    m1 += z;
                    m2 += z * z;
                    m4 += z.powi(4);
                    xy += if k == 0 { z } else { 0.0 };
                    for (c, w) in within.iter_mut().enumerate() {
                        if z.abs() < 0.5 + 0.5 * c as f64 { *w += 1.0 }
                    }
                }
            }
        }
        let (m1, m2, m4) = (m1 / count, m2 / count, m4 / count);
        ensure!(m1.abs() < 1e-4 && (xy / count).abs() < 1e-4, "mean {m1}");
        ensure_close!(m2, 1.0, 0.01, 0.0, "variance");
        ensure_close!(m4, 3.0, 0.03, 0.0, "fourth moment");
        for (w, p) in within.iter().zip([0.382925, 0.682689, 0.866386, 0.954500]) {
            ensure_close!(w / count, p, 0.0, 0.004, "share within");
        }
        Ok(1)
    });
}

const SCHEMES: [ResamplingScheme; 4] = [ResamplingScheme::Systematic, ResamplingScheme::Stratified, ResamplingScheme::Multinomial, ResamplingScheme::Residual];
/// the words that give the unit draw at `top` of 2^16, or just below one
fn draw_words<T: Rs>(c: u64) -> Vec<u32> {
    let w = if c >= 1 << 16 { u32::MAX } else { (c << 16) as u32 };
    if T::IS32 { vec![w] } else { vec![w, if c >= 1 << 16 { u32::MAX } else { 0 }] }
}
/// Picks for the draws: each pick must be one the draw allows, and never one with no weight.
/// `None` when a draw falls on an edge between two picks and rounding decides.
fn picks<T: Rs>(scheme: usize, w: &[f64], d: &mut Draws, tol: f64) -> Vec<Option<usize>> {
    let n = w.len();
    let find = |w: &[f64], at: f64| -> Option<usize> {
        let total: f64 = w.iter().sum();
        let mut cum = 0.0;
        for (i, x) in w.iter().enumerate() {
            let low = cum;
            cum += x / total;
            if *x > 0.0 && at > low + tol && at < cum - tol { return Some(i) }
        }
        None
    };
    match scheme {
        0 => {
            let u = d.unit::<T>();
            (0..n).map(|k| find(w, (u + k as f64) / n as f64)).collect()
        }
        1 => (0..n).map(|k| { let u = d.unit::<T>(); find(w, (u + k as f64) / n as f64) }).collect(),
        2 => (0..n).map(|_| { let u = d.unit::<T>(); find(w, u) }).collect(),
        _ => {
            let mut out = vec![];
            let mut left = vec![];
            let mut edge = false;
            for (i, x) in w.iter().enumerate() {
                let share = x * n as f64;
                if *x > 0.0 && (share - share.round()).abs() < tol * n as f64 && (share - share.round()).abs() > 0.0 { edge = true }
                out.extend(std::iter::repeat_n(Some(i), share.floor() as usize));
                left.push(share - share.floor());
            }
            if edge {
                // whole shares up to rounding: only what has to be there is known
                return vec![None; n];
            }
            while out.len() < n {
                let u = d.unit::<T>();
                out.push(find(&left, u));
            }
            out
        }
    }
}
fn judge<T: Rs>(scheme: usize, w: &[f64], got: &[usize], want: &[Option<usize>], what: &str) -> Result<(), String> {
    let n = w.len();
    ensure!(got.iter().all(|i| *i < n), "picked beyond the weights: {got:?}, {what}");
    for (k, i) in got.iter().enumerate() {
        ensure!(w[*i] > 0.0, "slot {k} picked source {i}, which has no weight: {got:?} for {w:?}, {what}");
        ensure!(want[k].is_none_or(|x| x == *i), "slot {k} picked {i} for {:?}: {got:?} for {w:?}, {what}", want[k]);
    }
    let slack = T::EPS * 8.0 * (n * n) as f64;
    for (i, x) in w.iter().enumerate() {
        let c = got.iter().filter(|k| **k == i).count() as f64;
        let share = x * n as f64;
        let (low, high) = match scheme {
            0 => ((share - slack).floor(), (share + slack).ceil()),
            1 => ((share - 1.0 - slack).floor(), (share + 1.0 + slack).ceil()),
            3 => ((share - slack).floor(), f64::MAX),
            _ => (0.0, f64::MAX),
        };
        ensure!(c >= low && c <= high, "source {i} of share {share} was picked {c} times: {got:?}, {what}");
    }
    Ok(())
}
/// the ways to split `total` parts over `n`
fn splits(n: usize, total: usize) -> Vec<Vec<f64>> {
    if n == 1 { return vec![vec![total as f64]] }
    (0..=total).flat_map(|k| splits(n - 1, total - k).into_iter().map(move |mut v| { v.push(k as f64); v })).collect()
}
fn schemes<T: Rs>(ck: &Ck) {
    let nm = T::NAME;
    for (n, total) in [(1usize, 1usize), (2, 8), (3, 8), (3, 7), (4, 8), (5, ck.q(6, 10)), (6, ck.q(4, 6)), (8, ck.q(4, 5))] {
        let all = splits(n, total);
        let offs: Vec<u64> = (0..=16).map(|k| k * 4096).chain([1, 4097, 65535]).collect();
        let no = offs.len() as u64;
        let nw = all.len() as u64;
        // systematic has one draw: all of them. The rest: three draws of the alphabet, the others mixed
        ck.space(&format!("schemes_{nm}_{n}_in_{total}"), 4 * nw * no * no * if n > 2 { 5 } else { 1 }, |i| format!("{i}"), |i| {
            let mut d = Dig(i);
            let (scheme, w) = (d.n(4), &all[d.n(nw as usize)]);
            let w: Vec<f64> = w.iter().map(|x| x / total as f64).collect();
            let mut words = draw_words::<T>(offs[d.n(no as usize)]);
            words.extend(draw_words::<T>(offs[d.n(no as usize)]));
            words.extend(draw_words::<T>(offs[(d.0 as usize * 5) % offs.len()]));
            let what = format!("{:?} on {w:?} with {words:x?}", SCHEMES[scheme]);
            let weights: Vec<T> = w.iter().map(|x| t(*x)).collect();
            let mut tape = Tape::<T>::new(words.clone());
            let mut got = vec![usize::MAX; n];
            SCHEMES[scheme].resample_indices(&weights, &mut tape, &mut got);
            let seen: Vec<f64> = w.iter().map(|x| rd::<T>(*x)).collect();
            let mut draws = Draws { tape: Tape::new(words), kept: None };
            let want = picks::<T>(scheme, &seen, &mut draws, T::EPS * 8.0 * n as f64);
            judge::<T>(scheme, &seen, &got, &want, &what)?;
            // as many draws as each scheme says
            let per = if T::IS32 { 1 } else { 2 };
            let used = match scheme { 0 => 1, 1 | 2 => n, _ => if want.iter().all(Option::is_none) { tape.at / per } else { n - w.iter().map(|x| (rd::<T>(*x) * n as f64).floor() as usize).sum::<usize>() } };
            ensure!(tape.at == used * per, "{} words drawn, {} expected, {what}", tape.at, used * per);
            Ok(h64(&got))
        });
    }
    // over all offsets each source is picked as often as its weight says
    let all = splits(4, 8);
    ck.space(&format!("fair_{nm}"), all.len() as u64 * 4, |i| format!("{:?} {:?}", all[(i / 4) as usize], SCHEMES[(i % 4) as usize]), |i| {
        let (scheme, w) = ((i % 4) as usize, &all[(i / 4) as usize]);
        let weights: Vec<T> = w.iter().map(|x| t(*x / 8.0)).collect();
        let grid = 4096u64;
        let mut counts = vec![0u64; 4];
        for k in 0..grid {
            op(1);
            // the middle of each cell, so no draw falls on an edge; all four draws alike but for a shift
            let words: Vec<u32> = (0..4).flat_map(|s| draw_words::<T>((k * 16 + 8 + s * 16384) % 65536)).collect();
            let mut got = vec![0; 4];
            SCHEMES[scheme].resample_indices(&weights, &mut Tape::<T>::new(words), &mut got);
            for g in got { counts[g] += 1 }
        }
        for (c, x) in counts.iter().zip(w) {
            ensure_close!(*c as f64 / grid as f64, x / 2.0, 0.0, 4.0 / grid as f64, "source picked {c} times of {grid}, {counts:?} for {w:?}");
        }
        Ok(h64(&counts))
    });
    // big clouds, dead particles at either end, draws at the very ends of their range
    let sizes = [10usize, 100, 333, 1000, 2000, 5000];
    ck.space(&format!("big_{nm}"), 6 * 4 * 5 * 9, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let (n, scheme, dead, off) = (d.pick(&sizes), d.n(4), d.n(5), d.n(9));
        let alive: Vec<bool> = (0..n).map(|k| match dead { 0 => true, 1 => k < n / 2, 2 => k >= n / 2, 3 => k % 3 == 1, _ => k == n / 3 }).collect();
        let raw: Vec<T> = (0..n).map(|k| if alive[k] { t::<T>(1.0 + (mix(k as u64) % 1000) as f64 / 100.0) } else { T::ZERO }).collect();
        let mut sum = T::ZERO;
        for w in &raw { sum += *w }
        let weights: Vec<T> = raw.iter().map(|w| *w / sum).collect();
        let seen: Vec<f64> = weights.iter().map(|w| g(*w)).collect();
        let words: Vec<u32> = match off {
            0 => (0..2 * n).map(|_| 0).collect(),
            1 => (0..2 * n).map(|_| u32::MAX).collect(),
            2 => (0..2 * n).map(|k| if k % 2 == 0 { u32::MAX } else { 0 }).collect(),
            k => draw_words::<T>(k as u64 * 7919),
        };
        let what = format!("{n} with pattern {dead}, offsets {off}");
        let mut got = vec![usize::MAX; n];
        SCHEMES[scheme].resample_indices(&weights, &mut Tape::<T>::new(words.clone()), &mut got);
        op(n as u64);
        ensure!(got.iter().all(|i| *i < n), "picked beyond the weights, {what}");
        for (k, i) in got.iter().enumerate() {
            ensure!(alive[*i], "slot {k} picked source {i}, which has no weight, {what}");
        }
        if scheme != 2 {
            let mut counts = vec![0f64; n];
            for i in &got { counts[*i] += 1.0 }
            for (i, c) in counts.iter().enumerate() {
                // the draws are free in the residual's leftovers
                let share = seen[i] * n as f64;
                let slack = T::EPS * (n as f64) * 8.0;
                let (low, high) = ((share - if scheme == 1 { 1.0 } else { 0.0 } - slack * 4.0 * share.max(1.0)).floor(), (share + if scheme == 1 { 1.0 } else { 0.0 } + slack * 4.0 * share.max(1.0)).ceil());
                let high = if scheme == 3 { f64::MAX } else { high + if T::IS32 { 1.0 } else { 0.0 } };
                ensure!(*c >= low - if T::IS32 { 1.0 } else { 0.0 } && *c <= high, "source {i} of share {share} was picked {c} times, {what}");
            }
        }
        Ok(h64(&got))
    });
}

// ---------- the filter ----------
struct ModelA;
struct ModelB;
struct Seen;
impl VectorFn<2, 2> for ModelA {
    fn eval<S: Numeric>(&self, x: &[S; 2]) -> [S; 2] {
        [x[0] + S::from_f64(0.5) * x[1], S::from_f64(0.75) * x[1]]
    }
}
impl VectorFn<2, 2> for ModelB {
    fn eval<S: Numeric>(&self, x: &[S; 2]) -> [S; 2] {
        [x[1].sin() + S::ONE, x[0] * S::from_f64(-0.5)]
    }
}
impl VectorFn<2, 1> for Seen {
    fn eval<S: Numeric>(&self, x: &[S; 2]) -> [S; 1] {
        [x[0] + S::from_f64(0.25) * x[1]]
    }
}
#[derive(Clone, Debug)]
struct Cloud {
    x: Vec<Vec<f64>>,
    w: Vec<f64>,
    factor: M,
    d: Draws,
    scheme: usize,
    threshold: f64,
    rough: f64,
    tol: f64,
}
fn chol(a: &M) -> M {
    let n = a.len();
    let mut l = vec![vec![0.0; n]; n];
    for i in 0..n {
        for j in 0..=i {
            let s: f64 = a[i][j] - (0..j).map(|k| l[i][k] * l[j][k]).sum::<f64>();
            l[i][j] = if i == j { s.sqrt() } else { s / l[j][j] };
        }
    }
    l
}
/// `false` when what happens next is decided by rounding
type Clear = bool;
impl Cloud {
    fn start<T: Rs>(n: usize, mean: &[f64], cov: &M, noise: &M, d: Draws) -> Cloud {
        let mut c = Cloud { x: vec![], w: vec![1.0 / n as f64; n], factor: chol(noise), d, scheme: 0, threshold: n as f64 / 2.0, rough: 0.0, tol: T::EPS * 64.0 };
        let l = chol(cov);
        for _ in 0..n {
            let z: Vec<f64> = mean.iter().map(|_| c.d.normal::<T>()).collect();
            let p = mean.iter().zip(fmv(&l, &z)).map(|(m, k)| m + k).collect();
            c.x.push(p);
        }
        c
    }
    fn predict<T: Rs>(&mut self, f: &dyn Fn(&[f64]) -> Vec<f64>) {
        for k in 0..self.x.len() {
            let moved = f(&self.x[k]);
            let z: Vec<f64> = moved.iter().map(|_| self.d.normal::<T>()).collect();
            self.x[k] = moved.iter().zip(fmv(&self.factor, &z)).map(|(m, k)| m + k).collect();
        }
    }
    fn ess(&self) -> f64 {
        1.0 / self.w.iter().map(|w| w * w).sum::<f64>()
    }
    fn weigh<T: Rs>(&mut self, score: &dyn Fn(&[f64]) -> f64) -> Clear {
        // a weight too small for the scalar counts as the smallest there is
        let logs: Vec<f64> = self.x.iter().zip(&self.w).map(|(x, w)| if rd::<T>(*w) == 0.0 { T::LEAST.ln() } else { w.ln() } + score(x)).collect();
        let top = logs.iter().cloned().fold(f64::MIN, f64::max);
        self.w = logs.iter().map(|l| (l - top).exp()).collect();
        let sum: f64 = self.w.iter().sum();
        for w in &mut self.w { *w /= sum }
        if self.w.iter().any(|w| *w > 0.0 && *w < T::LEAST * 1e6 && rd::<T>(*w) != 0.0) { return false }
        if (self.ess() - self.threshold).abs() < 300.0 * self.tol { return false }
        if self.ess() < self.threshold { self.resample::<T>() } else { true }
    }
    fn resample<T: Rs>(&mut self) -> Clear {
        let (w, mut d) = (self.w.clone(), self.d.clone());
        let p = picks::<T>(self.scheme, &w, &mut d, 16.0 * self.tol);
        self.d = d;
        let Some(p) = p.into_iter().collect::<Option<Vec<usize>>>() else { return false };
        self.x = p.iter().map(|i| self.x[*i].clone()).collect();
        let n = w.len();
        self.w = vec![1.0 / n as f64; n];
        if self.rough > 0.0 {
            for axis in 0..self.x[0].len() {
                let (lo, hi) = self.x.iter().fold((f64::MAX, f64::MIN), |(a, b), x| (a.min(x[axis]), b.max(x[axis])));
                if hi - lo <= 0.0 { continue }
                for k in 0..n { let z = self.d.normal::<T>(); self.x[k][axis] += self.rough * (hi - lo) * z }
            }
        }
        true
    }
    fn mean(&self) -> Vec<f64> {
        (0..self.x[0].len()).map(|a| self.x.iter().zip(&self.w).map(|(x, w)| x[a] * w).sum()).collect()
    }
}
fn compare<T: Rs>(c: &Cloud, f: &ParticleFilter<2, 1, T, Tape<T>>, what: &str) -> Result<(), String> {
    let tol = c.tol;
    ensure!(f.particles().len() == c.x.len() && f.weights().len() == c.w.len(), "size, {what}");
    for (k, (p, x)) in f.particles().iter().zip(&c.x).enumerate() {
        vclose(&vv(p), x, tol * (1.0 + fnorm(x)), &format!("particle {k}, {what}"))?;
    }
    let w: Vec<f64> = f.weights().iter().map(|w| g(*w)).collect();
    vclose(&w, &c.w, 64.0 * tol, &format!("weights, {what}"))?;
    ensure_close!(w.iter().sum::<f64>(), 1.0, 32.0 * T::EPS, 0.0, "total weight, {what}");
    vclose(&vv(&f.mean()), &c.mean(), 64.0 * tol * (1.0 + c.x.iter().map(|x| fnorm(x)).fold(0.0, f64::max)), &format!("mean, {what}"))?;
    let ess = g(f.effective_sample_size());
    ensure_close!(ess, c.ess(), 256.0 * tol, 0.0, "effective size, {what}");
    ensure!(ess >= 1.0 - 1e-4 && ess <= w.len() as f64 * (1.0 + 1e-4), "effective size {ess}, {what}");
    let best = vv(&f.maximum_a_posteriori_state());
    let top = w.iter().cloned().fold(0.0, f64::max);
    ensure!(f.particles().iter().zip(&w).any(|(p, w)| vv(p) == best && *w == top), "the likeliest is {best:?}, {what}");
    Ok(())
}
fn histories<T: Rs>(ck: &Ck) {
    let nm = T::NAME;
    let ops = 15u64;
    let len: usize = ck.q(3, 5);
    let dec = |i: u64| {
        let mut d = Dig(i);
        (d.n(4), d.n(3), d.n(2), d.n(2), (0..len).map(|_| d.n(ops as usize)).collect::<Vec<_>>())
    };
    ck.space(&format!("histories_{nm}"), 4 * 3 * 2 * 2 * ops.pow(len as u32), |i| format!("{:?}", dec(i)), |i| {
        let (scheme, thr, rough, seed, w) = dec(i);
        let n = 6;
        let cov = vec![vec![1.0, 0.25], vec![0.25, 0.5]];
        let noise = [vec![vec![0.0625, 0.0], vec![0.0, 0.25]], vec![vec![0.5, -0.25], vec![-0.25, 1.0]]];
        let words: Vec<u32> = (0..if seed == 0 { 0 } else { 64 }).map(|k| mix(k * 977 + 5)).collect();
        let mut c = Cloud::start::<T>(n, &[0.5, -1.0], &cov, &noise[0], Draws { tape: Tape::new(words.clone()), kept: None });
        let mut f = ParticleFilter::<2, 1, T, Tape<T>>::from_random(n, lv(&[0.5, -1.0]), lm(&cov), lm(&noise[0]), Tape::new(words)).map_err(|e| format!("{e:?}"))?;
        compare(&c, &f, "at the start")?;
        f = f.with_resampling(SCHEMES[scheme]);
        c.scheme = scheme;
        if thr > 0 {
            c.threshold = [0.0, 7.0][thr - 1];
            f = f.with_resample_threshold(t(c.threshold));
        }
        if rough == 1 {
            c.rough = 0.25;
            f = f.with_roughening(t(0.25));
        }
        let lk = GaussianLikelihood::<1, T>::new(lm(&vec![vec![0.5]])).map_err(|e| format!("{e:?}"))?;
        for (at, o) in w.iter().enumerate() {
            op(1);
            let er = |e: E| format!("refused {e:?} at {at} of {w:?}");
            let before: (Vec<Vec<f64>>, Vec<f64>) = (f.particles().iter().map(vv).collect(), f.weights().iter().map(|w| g(*w)).collect());
            let same = |f: &ParticleFilter<2, 1, T, Tape<T>>| (f.particles().iter().map(vv).collect::<Vec<_>>(), f.weights().iter().map(|w| g(*w)).collect::<Vec<_>>()) == before;
            c.tol *= 4.0;
            let clear = match *o {
                0 => { c.predict::<T>(&|x| ModelA.eval(&[x[0], x[1]]).to_vec()); f.predict(&ModelA).map_err(er)?; true }
                1 => { c.predict::<T>(&|x| ModelB.eval(&[x[0], x[1]]).to_vec()); f.predict(&ModelB).map_err(er)?; true }
                2 | 3 => {
                    let z = [0.5, -2.0][*o - 2];
                    let ok = c.weigh::<T>(&|x| { let r = z - (x[0] + 0.25 * x[1]); -r * r });
                    f.update(&Seen, &lk, Vector::new([t(z)])).map_err(er)?;
                    ok
                }
                4 => {
                    let ok = c.weigh::<T>(&|x| 1000.0 - 3.0 * (x[0] - 0.5).abs());
                    f.update_with_log_weights(|x| t::<T>(1000.0) - t::<T>(3.0) * (x[0] - T::HALF).abs()).map_err(er)?;
                    c.tol = c.tol.max(4000.0 * T::EPS);
                    ok
                }
                5 => { let ok = c.weigh::<T>(&|_| -5.0); f.update_with_log_weights(|_| t(-5.0)).map_err(er)?; ok }
                6 => {
                    // all but those on one side next to impossible
                    let m = c.mean()[0];
                    if c.x.iter().any(|x| (x[0] - m).abs() < 1e3 * c.tol) { return Ok(2) }
                    let ok = c.weigh::<T>(&|x| if x[0] > m { 0.0 } else { -200.0 });
                    f.update_with_log_weights(|x| if g(x[0]) > m { T::ZERO } else { t(-200.0) }).map_err(er)?;
                    ok
                }
                7 => { let ok = c.resample::<T>(); f.resample(); ok }
                8 => { c.factor = chol(&noise[1]); f.set_process_noise(lm(&noise[1])).map_err(er)?; true }
                9 => {
                    for bad in [vec![vec![1.0, 2.0], vec![2.0, 1.0]], vec![vec![0.0, 0.0], vec![0.0, 0.0]], vec![vec![f64::NAN, 0.0], vec![0.0, 1.0]]] {
                        ensure!(f.set_process_noise(lm(&bad)) == Err(E::NotPositiveDefinite), "noise {bad:?} was taken");
                    }
                    true
                }
                10 => {
                    ensure!(f.update(&Seen, &lk, Vector::new([t(f64::NAN)])) == Err(E::NonFinite) && f.update(&Seen, &lk, Vector::new([t(f64::INFINITY)])) == Err(E::NonFinite), "a broken measurement was taken");
                    ensure!(same(&f), "a refused measurement changed the cloud");
                    true
                }
                11 => {
                    ensure!(f.update_with_log_weights(|_| T::NEG_INFINITY) == Err(E::WeightsDegenerate), "impossible for all, but taken");
                    ensure!(f.update_with_log_weights(|_| t(f64::NAN)) == Err(E::WeightsDegenerate), "no score for any, but taken");
                    ensure!(same(&f), "a refused scoring changed the cloud from {before:?} to {:?} {:?}", f.particles(), f.weights());
                    true
                }
                13 | 14 => {
                    // one side very unlikely, by less than the next score can make up for
                    let m = c.x.iter().map(|x| x[0]).sum::<f64>() / n as f64;
                    if c.x.iter().any(|x| (x[0] - m).abs() < 1e3 * c.tol) { return Ok(2) }
                    let side = *o == 13;
                    let ok = c.weigh::<T>(&|x| if (x[0] > m) == side { 0.0 } else { -60.0 });
                    f.update_with_log_weights(|x| if (g(x[0]) > m) == side { T::ZERO } else { t(-60.0) }).map_err(er)?;
                    c.tol = c.tol.max(1000.0 * T::EPS);
                    ok
                }
                _ => {
                    // one score that is not a number
                    let mut k = 0;
                    let r = f.update_with_log_weights(|_| { k += 1; if k == 3 { t(f64::NAN) } else { T::ZERO } });
                    ensure!(r == Err(E::WeightsDegenerate), "a broken score was taken: {r:?}");
                    ensure!(same(&f), "a refused scoring changed the cloud from {before:?} to {:?} {:?}", f.particles(), f.weights());
                    true
                }
            };
            if !clear { return Ok(1) }
            compare(&c, &f, &format!("after step {at} of {w:?}"))?;
        }
        Ok(hf(&c.mean()))
    });
    ck.space(&format!("refusals_{nm}"), 14 * 8 * 3, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let (v, slot, n) = (rd::<T>(d.pick(&SPECIAL)), d.n(8), d.pick(&[0usize, 1, 3]));
        let mut mean = [0.5, 0.25];
        let mut m = [vec![vec![1.0, 0.25], vec![0.25, 1.0]], vec![vec![1.0, 0.25], vec![0.25, 1.0]]];
        match slot { 0 => mean[1] = v, 1 => m[0][0][0] = v, 2 => m[0][1][1] = v, 3 => { m[0][1][0] = v; m[0][0][1] = v } 4 => m[1][0][0] = v, 5 => m[1][1][1] = v, 6 => { m[1][1][0] = v; m[1][0][1] = v } _ => {} }
        let what = format!("{v} in slot {slot} with {n} particles");
        let good = |a: &M| a.iter().flatten().all(|x| x.is_finite()) && a[0][0] > 0.0 && a[0][0] * a[1][1] - a[0][1] * a[1][0] > 0.0;
        let mut bad = vec![];
        if n == 0 { bad.push(E::WeightsDegenerate) }
        if !m.iter().all(good) { bad.push(E::NotPositiveDefinite) }
        if m.iter().flatten().flatten().any(|x| x.is_finite() && *x != 0.0 && (x.abs() > 1e15 || x.abs() < 1e-15)) { return Ok(9) }
        let f = verdict(ParticleFilter::<2, 1, T>::new(n, lv(&mean), lm(&m[0]), lm(&m[1]), 7), &bad, &what)?;
        if let Some(mut f) = f {
            let p = f.predict(&ModelA);
            ensure!(p == if v.is_finite() || slot != 0 { Ok(()) } else { Err(E::NonFinite) } || v.abs() > 1e30, "{p:?}, {what}");
            ensure!(f.weights().iter().all(|w| g(*w) == rd::<T>(1.0 / n as f64)), "{what}");
        }
        // the ready-made likelihood
        if slot == 7 {
            let r = vec![vec![if v.is_nan() { v } else { v.abs().min(1e9) }, 0.25], vec![0.25, 0.5]];
            let det = r[0][0] * 0.5 - 0.0625;
            let l = verdict(GaussianLikelihood::<2, T>::new(lm(&r)), if !v.is_finite() && v.is_nan() || det <= 0.0 { &[E::NotPositiveDefinite] } else { &[] }, &what)?;
            if let (Some(l), false) = (l, v.is_nan()) {
                let e = [0.5 - 2.0, -1.0 - 0.25];
                let z = fsolve(&r, &col(&e)).ok_or("reference")?;
                let want = -0.5 * (e[0] * z[0][0] + e[1] * z[1][0]);
                ensure_close!(g(l.log_weight(&ta([2.0, 0.25]), &ta([0.5, -1.0]))), want, 64.0 * T::EPS / det.min(1.0), 64.0 * T::EPS, "log weight, {what}");
            }
        }
        Ok(1)
    });
    // the same seed gives the same run, and a seeded filter is one around that generator
    ck.space(&format!("seeds_{nm}"), 64, |i| format!("{i}"), |i| {
        let cov = vec![vec![1.0, 0.25], vec![0.25, 0.5]];
        let mut a = ParticleFilter::<2, 1, T>::new(20, lv(&[0.5, -1.0]), lm(&cov), lm(&cov), i).map_err(|e| format!("{e:?}"))?.with_roughening(t(0.1));
        let mut b = ParticleFilter::<2, 1, T, Pcg32<T>>::from_random(20, lv(&[0.5, -1.0]), lm(&cov), lm(&cov), Pcg32::new(i)).map_err(|e| format!("{e:?}"))?.with_roughening(t(0.1));
        let lk = GaussianLikelihood::<1, T>::new(lm(&vec![vec![0.5]])).map_err(|e| format!("{e:?}"))?;
        for k in 0..20 {
            op(1);
            for f in [&mut a, &mut b] {
                f.predict(&ModelA).map_err(|e| format!("{e:?}"))?;
                f.update(&Seen, &lk, Vector::new([t(0.25 * k as f64)])).map_err(|e| format!("{e:?}"))?;
            }
            ensure!(a.particles() == b.particles() && a.weights() == b.weights(), "runs part at {k}");
        }
        Ok(hf(&vv(&a.mean())))
    });
}

// ---------- localisation ----------
struct Ring;
impl Ring {
    fn cast(p: [f64; 2], bearing: f64) -> Option<f64> {
        // a round wall about an off-centre point, with a gap to the west
        let (dx, dy) = (bearing.cos(), bearing.sin());
        if dx < -0.7 { return None }
        let (x, y) = (p[0] - 0.5, p[1] + 0.25);
        let b = x * dx + y * dy;
        let d = b * b - (x * x + y * y - 36.0);
        Some(-b + d.max(0.0).sqrt())
    }
}
impl<T: Rs> OccupancyMap<T> for Ring {
    fn columns(&self) -> usize { 1 }
    fn rows(&self) -> usize { 1 }
    fn resolution(&self) -> T { T::ONE }
    fn origin(&self) -> [T; 2] { [T::ZERO; 2] }
    fn is_occupied(&self, _: usize, _: usize) -> bool { false }
    fn cast_ray(&self, p: [T; 2], bearing: T, reach: T) -> Option<T> {
        Ring::cast(ga(p), g(bearing)).filter(|d| *d <= g(reach)).map(t)
    }
}
fn wrap(a: f64) -> f64 {
    a.sin().atan2(a.cos())
}
fn localizer<T: Rs>(ck: &Ck) {
    let nm = T::NAME;
    let len: usize = ck.q(4, 6);
    let dec = |i: u64| {
        let mut d = Dig(i);
        (d.n(3), d.n(2), (0..len).map(|_| d.n(8)).collect::<Vec<_>>())
    };
    ck.space(&format!("localizer_{nm}"), 6 * 8u64.pow(len as u32), |i| format!("{:?}", dec(i)), |i| {
        let (seed, setup, w) = dec(i);
        let n = 7;
        let hint = [0.25, -0.5, 3.0];
        let (pv, hv) = [(0.16, 4.0), (0.5, 0.25)][setup];
        let model = BeamModel::<T> { range_deviation: t([0.1, 0.5][setup]), ..Default::default() };
        let (reward, penalty, dev) = (rd::<T>(0.1), -5.0, g(model.range_deviation));
        let cloud = InitialParticleCloud { particle_count: n, position_variance: t(pv), heading_variance: t(hv) };
        let mut mcl = MonteCarloLocalizer::<3, T>::new(hint.map(t), cloud, model, seed as u64).map_err(|e| format!("{e:?}"))?;
        // the generator's words are checked on their own
        let mut source = Pcg32::<T>::new(seed as u64);
        let words: Vec<u32> = (0..4000).map(|_| source.next_u32()).collect();
        let diag = |v: [f64; 3]| -> M { (0..3).map(|i| (0..3).map(|j| if i == j { rd::<T>(v[i]) } else { 0.0 }).collect()).collect() };
        let mut c = Cloud::start::<T>(n, &hint, &diag([pv, pv, hv]), &diag([1e-4; 3]), Draws { tape: Tape::new(words), kept: None });
        let geometry = ScanGeometry::<3, T>::try_new(t(2.0), t(6.5)).and_then(|g| g.with_minimum_range(t(0.5))).map_err(|e| format!("{e:?}"))?;
        for (at, o) in w.iter().enumerate() {
            op(1);
            c.tol *= 2.0;
            let er = |e: E| format!("refused {e:?} at {at} of {w:?}");
            let mut clear = true;
            match *o {
                0..=2 => {
                    let (s, th) = [(0.5, 0.25), (-0.25, -2.5), (0.0, 0.0)][*o];
                    c.predict::<T>(&|x| vec![x[0] + s * x[2].cos(), x[1] + s * x[2].sin(), wrap(x[2] + th)]);
                    mcl.predict(t(s), t(th)).map_err(er)?;
                    // a heading is brought within a turn on every move, up to the noise of that move
                    let stray = 6.5 * c.factor.as_slice()[2][2];
                    for p in mcl.particles() { ensure!(g(p[2]).abs() <= std::f64::consts::PI + stray + 1e-5, "heading {} after move {at} of {w:?}", g(p[2])) }
                }
                3..=5 => {
                    let scan = [[6.0, 5.75, 6.25], [f64::INFINITY, 5.5, 0.25], [f64::NAN, 6.75, 6.0]][*o - 3];
                    let ok = [[true; 3], [false, true, false], [false, false, true]][*o - 3];
                    let mut near = false;
                    let score = |x: &[f64], near: &mut bool| -> f64 {
                        (0..3).map(|b| {
                            let bearing = x[2] + [-1.0, 0.0, 1.0][b];
                            let seen = Ring::cast([x[0], x[1]], bearing);
                            *near |= (bearing.cos() + 0.7).abs() < 20.0 * c.tol || seen.is_some_and(|d| (d - 6.5).abs() < 20.0 * c.tol);
                            match (seen.filter(|d| *d <= 6.5), ok[b]) {
                                (Some(r), true) => -0.5 * ((r - scan[b]) / dev).powi(2),
                                (None, false) => reward,
                                _ => penalty,
                            }
                        }).sum()
                    };
                    let scores: Vec<f64> = c.x.iter().map(|x| score(x, &mut near)).collect();
                    let mut k = std::cell::Cell::new(0);
                    let most = scores.iter().fold(0.0f64, |m, s| m.max(s.abs()));
                    c.tol = c.tol.max(T::EPS * 64.0 * most) * (1.0 + 1.0 / dev);
                    if most > 60.0 && T::IS32 || near { return Ok(5) }
                    k.set(0);
                    clear = c.weigh::<T>(&|_| { let i = k.get(); k.set(i + 1); scores[i] });
                    let _ = k.get_mut();
                    mcl.update(&scan.map(t), &Ring, &geometry).map_err(er)?;
                }
                6 => { c.factor = chol(&diag([0.25, 0.0625, 0.5])); mcl.set_motion_noise([0.25, 0.0625, 0.5].map(t)).map_err(er)? }
                _ => {
                    for bad in [[0.0, 1.0, 1.0], [1.0, -1.0, 1.0], [1.0, 1.0, f64::NAN]] {
                        ensure!(mcl.set_motion_noise(bad.map(t)) == Err(E::NotPositiveDefinite), "noise {bad:?} was taken");
                    }
                }
            }
            if !clear || c.tol > 1e-2 { return Ok(1) }
            let what = format!("after step {at} of {w:?}");
            ensure!(mcl.particle_count() == n, "size, {what}");
            for (k, (p, x)) in mcl.particles().iter().zip(&c.x).enumerate() {
                let p = vv(p);
                vclose(&p[..2], &x[..2], c.tol * (1.0 + fnorm(x)), &format!("guess {k}, {what}"))?;
                ensure!(wrap(p[2] - x[2]).abs() <= c.tol * (1.0 + fnorm(x)), "heading of {k} is {} for {}, {what}", p[2], x[2]);
            }
            ensure_close!(g(mcl.effective_sample_size()), c.ess(), 512.0 * c.tol, 0.0, "effective size, {what}");
            let (est, spread) = mcl.estimate();
            let (est, spread) = (vv(&est), mm(&spread));
            let m = c.mean();
            let tol = 512.0 * c.tol;
            vclose(&est[..2], &m[..2], tol * 8.0, &format!("place, {what}"))?;
            let dir = c.x.iter().zip(&c.w).fold([0.0, 0.0], |a, (x, w)| [a[0] + w * x[2].cos(), a[1] + w * x[2].sin()]);
            let long = dir[0].hypot(dir[1]);
            if long > 1e-3 { ensure!(wrap(est[2] - dir[1].atan2(dir[0])).abs() <= tol / long, "heading {} for {dir:?}, {what}", est[2]) }
            let cov = |a: usize, b: usize| c.x.iter().zip(&c.w).map(|(x, w)| w * (x[a] - m[a]) * (x[b] - m[b])).sum::<f64>();
            let heading = (2.0 * (1.0 - long)).max(1e-6);
            mclose(&spread, &vec![vec![cov(0, 0), cov(0, 1), 0.0], vec![cov(0, 1), cov(1, 1), 0.0], vec![0.0, 0.0, heading]], tol * 64.0, &format!("spread, {what}"))?;
            let total = spread[0][0] + spread[1][1];
            for (a, b) in [(1.1, 1.1), (0.9, 1.1), (1.1, 0.9)] {
                ensure!(mcl.is_converged(t(total * a), t(heading * b)) == (a > 1.0 && b > 1.0) || total < 1e-6, "settled, {what}");
            }
        }
        Ok(hf(&c.x[0]))
    });
    ck.space(&format!("localizer_refusals_{nm}"), 14 * 2 * 3, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let (v, slot, n) = (rd::<T>(d.pick(&SPECIAL)), d.n(2), d.pick(&[0usize, 1, 5]));
        if v.is_finite() && v != 0.0 && (v.abs() < 1e-15 || v.abs() > 1e15) { return Ok(2) }
        let cloud = InitialParticleCloud { particle_count: n, position_variance: t(if slot == 0 { v } else { 0.5 }), heading_variance: t(if slot == 1 { v } else { 0.5 }) };
        let mut bad = vec![];
        if n == 0 { bad.push(E::WeightsDegenerate) }
        if !(v.is_finite() && v > 0.0) { bad.push(E::NotPositiveDefinite) }
        let r = MonteCarloLocalizer::<3, T>::new([T::ZERO; 3], cloud, BeamModel::default(), 5);
        let mut m = match verdict(r, &bad, &format!("{v} in {slot} of {n}"))? { Some(m) => m, None => return Ok(0) };
        let (usual, beam) = (InitialParticleCloud::<T>::default(), BeamModel::<T>::default());
        ensure!(usual.particle_count == 2000 && usual.position_variance == t(0.16) && usual.heading_variance == t(4.0), "the usual cloud is {usual:?}");
        ensure!(beam.range_deviation == t(0.1) && beam.agreement_reward == t(0.1) && beam.mismatch_penalty == t(-5.0), "the usual beam is {beam:?}");
        ensure!(m.predict(t(f64::NAN), T::ZERO) == Err(E::NonFinite), "a broken step was taken");
        Ok(1)
    });
}
/// A robot in a room is found, wherever it stands
fn found(ck: &Ck) {
    let mut room = DynamicOccupancyGrid::try_new(80, 60, 0.05_f64, [-0.2, -0.2]).unwrap();
    room.occupy_polyline(&[[0.0, 0.0], [3.5, 0.0], [3.5, 2.5], [0.0, 2.5]], true);
    room.occupy_circle([2.6, 1.9], 0.25);
    let geometry = ScanGeometry::<24, f64>::try_new(4.0, 6.0).unwrap();
    let scan = |p: [f64; 3]| -> [f64; 24] { std::array::from_fn(|b| room.cast_ray([p[0], p[1]], p[2] + geometry.beam_angle(b).unwrap(), 6.0).unwrap_or(f64::INFINITY)) };
    let seeds = ck.q(2, 10);
    let dec = |i: u64| {
        let mut d = Dig(i);
        (d.n(3), d.n(3), d.n(4), d.n(4), d.n(seeds))
    };
    ck.space("found", 9 * 16 * seeds as u64, |i| format!("{:?}", dec(i)), |i| {
        let (x, y, th, hint, seed) = dec(i);
        let mut p = [0.6 + 0.7 * x as f64, 0.5 + 0.6 * y as f64, -3.0 + 1.6 * th as f64];
        let off = [[0.2, 0.1, 0.2], [-0.2, 0.15, -0.3], [0.1, -0.25, 0.0], [0.0, 0.0, 0.4]][hint];
        let cloud = InitialParticleCloud { particle_count: 500, position_variance: 0.09, heading_variance: 0.25 };
        let mut m = MonteCarloLocalizer::<24>::new([p[0] + off[0], p[1] + off[1], p[2] + off[2]], cloud, BeamModel { range_deviation: 0.15, ..Default::default() }, 100 + seed as u64).map_err(|e| format!("{e:?}"))?;
        m.set_motion_noise([4e-4, 4e-4, 4e-4]).map_err(|e| format!("{e:?}"))?;
        let mut step = 0.0;
        for k in 0..20 {
            op(1);
            if k > 0 {
                // a step back and forth while turning
                let (s, turn) = ([0.05, 0.05, -0.05, -0.05][k % 4], 0.1);
                step += s;
                p = [p[0] + s * p[2].cos(), p[1] + s * p[2].sin(), p[2] + turn];
                m.predict(s, turn).map_err(|e| format!("{e:?}"))?;
            }
            m.update(&scan(p), &room, &geometry).map_err(|e| format!("{e:?} at {k}"))?;
        }
        let (e, _) = m.estimate();
        let (miss, turn) = ((e[0] - p[0]).hypot(e[1] - p[1]), wrap(e[2] - p[2]).abs());
        ensure!(miss < 0.12 && turn < 0.12, "robot at {p:?} placed at {:?}: {miss} and {turn} off after {step}", vv(&e));
        ensure!(m.is_converged(0.05, 0.05), "not settled: {:?}", m.estimate().1);
        Ok((miss * 100.0) as u64)
    });
}
fn main() {
    let ck = Ck::new("C27");
    random::<f64>(&ck);
    schemes::<f64>(&ck);
    histories::<f64>(&ck);
    localizer::<f64>(&ck);
    random::<f32>(&ck);
    schemes::<f32>(&ck);
    histories::<f32>(&ck);
    localizer::<f32>(&ck);
    found(&ck);
    ck.assume("A history whose next step is decided by rounding (a draw on the edge of a weight, an effective size on the threshold) is followed up to that step only.");
    ck.finish();
}
