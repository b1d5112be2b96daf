//! C28: occupancy maps, beams, drawing and scan geometry against plane geometry.
use mc::num::*;
use mc::*;
use multicalc::error::MappingError as E;
use multicalc::mapping::*;
use std::f64::consts::{PI, TAU};

fn rd<T: Fl>(x: f64) -> f64 {
    g(t::<T>(x))
}
type G<T> = DynamicOccupancyGrid<T>;
#[derive(Clone, Copy, Debug)]
struct Map {
    c: usize,
    r: usize,
    res: f64,
    o: [f64; 2],
}
impl Map {
    fn build<T: Fl>(&self) -> G<T> {
        G::try_new(self.c, self.r, t(self.res), ta(self.o)).unwrap()
    }
    fn round<T: Fl>(&self) -> Map {
        Map { res: rd::<T>(self.res), o: self.o.map(rd::<T>), ..*self }
    }
    fn square(&self, row: usize, col: usize) -> [f64; 4] {
        let (x, y) = (self.o[0] + col as f64 * self.res, self.o[1] + row as f64 * self.res);
        [x, y, x + self.res, y + self.res]
    }
    fn span(&self) -> f64 {
        self.o[0].abs() + self.o[1].abs() + (self.c + self.r) as f64 * self.res
    }
}
/// Where a line enters and leaves a closed square
fn slab(s: [f64; 4], p: [f64; 2], d: [f64; 2]) -> (f64, f64) {
    let (mut near, mut far) = (f64::NEG_INFINITY, f64::INFINITY);
    for k in 0..2 {
        if d[k] == 0.0 {
            if p[k] < s[k] || p[k] > s[k + 2] {
                return (f64::INFINITY, f64::NEG_INFINITY);
            }
        } else {
            let (a, b) = ((s[k] - p[k]) / d[k], (s[k + 2] - p[k]) / d[k]);
            near = near.max(a.min(b));
            far = far.min(a.max(b));
        }
    }
    (near, far)
}
fn grow(s: [f64; 4], e: f64) -> [f64; 4] {
    [s[0] - e, s[1] - e, s[2] + e, s[3] + e]
}

/// What one beam must read. `on` lists the blocked cells.
fn check_ray<T: Fl>(m: &Map, map: &G<T>, on: &[(usize, usize)], p: [f64; 2], b: f64, range: f64) -> Result<u64, String> {
    let b = rd::<T>(b);
    let got = map.cast_ray(ta(p), t(b), t(range)).map(g);
    let dir = [b.cos(), b.sin()];
    let what = || format!("{m:?} blocked {on:?} from {p:?} bearing {b} range {range}: {got:?}");
    let here = map.cell_of(ta(p));
    if let Some(d) = got {
        ensure!(d >= 0.0 && d <= range, "a reading outside the range: {}", what());
    }
    if here.is_some_and(|c| on.contains(&c)) {
        ensure!(got == if range >= 0.0 { Some(0.0) } else { None }, "starting on a blocked cell: {}", what());
        return Ok(1);
    }
    // how far rounding moves a crossing along and across the beam
    let far = m.span() + p[0].abs() + p[1].abs();
    let slip = T::EPS * (16.0 + 4.0 * (m.c + m.r) as f64) * far;
    let along = |x: f64| slip * (1.0 + x.abs() / m.res.max(1e-3) * T::EPS) * 2.0 / dir[0].abs().min(dir[1].abs()).max(if dir[0].abs().min(dir[1].abs()) < 1e-6 { 1.0 } else { 1e-6 });
    let mut sure = f64::INFINITY;
    let mut maybe: Vec<f64> = vec![];
    for &(r, c) in on {
        let s = m.square(r, c);
        // clearly through the inside, or only within rounding of it
        let (a, z) = slab(grow(s, -slip), p, dir);
        if slip < 0.4 * m.res && z - a > 0.0 && z > 0.0 && a > -slip {
            sure = sure.min(a.max(0.0));
        }
        let (a, z) = slab(grow(s, slip), p, dir);
        if a <= z && z >= 0.0 {
            maybe.push(a.max(0.0));
        }
    }
    match got {
        Some(d) => {
            let e = along(d);
            ensure!(maybe.iter().any(|x| (x - d).abs() <= e), "no blocked cell is met there ({maybe:?} within {e:e}): {}", what());
            ensure!(d <= sure + along(sure.min(1e6)), "a nearer blocked cell at {sure} was passed: {}", what());
        }
        None => ensure!(sure > range - along(sure.min(1e6)), "a blocked cell at {sure} was missed: {}", what()),
    }
    Ok(hf(&[got.unwrap_or(-1.0)]))
}

const BEAR: [f64; 30] = [0.0, 0.5 * PI, PI, -0.5 * PI, 0.25 * PI, 0.75 * PI, -0.25 * PI, -0.75 * PI, 0.1, -0.1, 1.0, 2.0, 3.0, -2.5, 1.4, -1.7, 0.4636476090008061, 1.1071487177940904, 2.677945044588987, -0.4636476090008061, 1e-4, -1e-4, 1.5708, 3.1416, 7.0, -40.0, 1.5 * PI, TAU, -2.0344439357957027, 0.32175055439664213];
fn rays<T: Fl>(ck: &Ck) {
    let maps = [Map { c: 3, r: 3, res: 1.0, o: [0.0, 0.0] }, Map { c: 4, r: 2, res: 0.25, o: [-0.5, 2.0] }, Map { c: 2, r: 4, res: 0.3, o: [0.1, -0.7] }, Map { c: 1, r: 1, res: 0.05, o: [10.0, -3.0] }, Map { c: 5, r: 2, res: 7.0, o: [-100.0, 33.3] }];
    for (k, m) in maps.into_iter().enumerate() {
        let m = m.round::<T>();
        // the lattice of half cells from one cell off the map on every side
        let (nx, ny) = ((2 * m.c + 5) as u64, (2 * m.r + 5) as u64);
        let pats = 1u64 << (m.c * m.r);
        let ranges = [1.0, 2.5, 0.0, 100.0, 4.0];
        let n = pats * nx * ny * 2;
        ck.space(&format!("rays_{k}_{}", T::NAME), n, |i| format!("{i}"), |i| {
            let mut d = Dig(i);
            let pat = d.n(pats as usize);
            let (ix, iy) = (d.n(nx as usize), d.n(ny as usize));
            // on the lattice, or off it by an odd amount
            let (ex, ey) = if d.n(2) == 0 { (0.0, 0.0) } else { (0.137, -0.211) };
            let p = [m.o[0] + (ix as f64 * 0.5 - 1.0 + ex) * m.res, m.o[1] + (iy as f64 * 0.5 - 1.0 + ey) * m.res].map(rd::<T>);
            let mut map = m.build::<T>();
            let mut on = vec![];
            for q in 0..m.c * m.r {
                if pat >> q & 1 == 1 {
                    map.set_cell(q / m.c, q % m.c, true);
                    on.push((q / m.c, q % m.c));
                }
            }
            let mut h = 0;
            for (bi, b) in BEAR.into_iter().enumerate() {
                for (ri, r) in ranges.into_iter().enumerate() {
                    // the farthest range for every beam, the short ones in turn
                    if ri == 3 || (ri + bi + pat) % 4 == 0 {
                        h ^= check_ray::<T>(&m, &map, &on, p, b, rd::<T>(r * m.res))?.rotate_left(bi as u32);
                        op(1);
                    }
                }
            }
            Ok(h)
        });
    }
    // long walks: one blocked cell far down a long map
    ck.space(&format!("long_rays_{}", T::NAME), 6 * 40 * 12, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let (c, r, res) = d.pick(&[(2000, 1, 0.05), (1, 2000, 0.05), (300, 300, 0.1), (1000, 3, 1.0 / 3.0), (64, 900, 0.01), (500, 500, 2.0)]);
        let m = Map { c, r, res, o: [-0.35, 1.7] }.round::<T>();
        let at = d.n(40);
        let (row, col) = ((r * at * 7 / 40) % r, (c - 1) * at / 39);
        let mut map = m.build::<T>();
        map.set_cell(row, col, true);
        let s = m.square(row, col);
        let aim = d.n(12);
        let from = [[0.0, 0.0], [0.999, 0.999], [0.5, 0.0], [-0.2, 0.5]][aim % 4];
        let p = [m.o[0] + from[0] * c as f64 * m.res, m.o[1] + from[1] * r as f64 * m.res].map(rd::<T>);
        // at the cell's middle, a quarter off it, or just past its corner
        let f = [0.5, 0.25, -0.02][aim / 4];
        let b = (s[1] + f * m.res - p[1]).atan2(s[0] + f * m.res - p[0]);
        check_ray::<T>(&m, &map, &[(row, col)], p, b, rd::<T>(1e5))
    });
}

/// Every sequence of markings on a small map against the set of cells it names.
fn marking<T: Fl>(ck: &Ck) {
    for (k, m) in [Map { c: 3, r: 2, res: 0.5, o: [-0.25, 1.0] }, Map { c: 2, r: 3, res: 1.0, o: [0.0, 0.0] }].into_iter().enumerate() {
        let m = m.round::<T>();
        let idx: Vec<(usize, usize)> = (0..m.r + 1).flat_map(|r| (0..m.c + 1).map(move |c| (r, c))).chain([(usize::MAX, 0), (0, usize::MAX), (usize::MAX, usize::MAX)]).collect();
        // world points in cells, on edges, off the map and not numbers
        let fr = [-1.0, -1e-3, 0.0, 0.5, 1.0, 1.75, 2.0, 2.999, 3.0, 1e30, f64::NAN, f64::INFINITY, f64::NEG_INFINITY];
        let pts: Vec<[f64; 2]> = fr.iter().flat_map(|x| fr.iter().map(move |y| [*x, *y])).collect();
        let pts: Vec<[f64; 2]> = pts.into_iter().map(|p| [m.o[0] + p[0] * m.res, m.o[1] + p[1] * m.res].map(rd::<T>)).collect();
        let inside = |p: [f64; 2]| {
            (0..m.r).flat_map(|r| (0..m.c).map(move |c| (r, c))).find(|&(r, c)| {
                let s = m.square(r, c);
                p[0] >= s[0] && p[0] < s[2] && p[1] >= s[1] && p[1] < s[3]
            })
        };
        let (ni, np) = (idx.len(), pts.len());
        let na = (2 * ni + np + 1).min(256);
        let np = na - 1 - 2 * ni;
        type S<T> = (G<T>, u32);
        ck.bfs::<S<T>>(
            &format!("marking_{k}_{}", T::NAME),
            ck.q(7, 9),
            &|| Ok((m.build::<T>(), 0)),
            na as u64,
            &|a| { let a = a as usize; if a < 2 * ni { format!("set_cell({:?}, {})", idx[a / 2], a % 2 == 0) } else if a < 2 * ni + np { format!("occupy_point({:?})", pts[a - 2 * ni]) } else { "clear".into() } },
            &|s, a| {
                let a = a as usize;
                let bit = |r: usize, c: usize| if r < m.r && c < m.c { 1u32 << (r * m.c + c) } else { 0 };
                if a < 2 * ni {
                    let (r, c) = idx[a / 2];
                    s.0.set_cell(r, c, a % 2 == 0);
                    if a % 2 == 0 { s.1 |= bit(r, c) } else { s.1 &= !bit(r, c) }
                } else if a < 2 * ni + np {
                    let p = pts[a - 2 * ni];
                    s.0.occupy_point(ta(p));
                    let want = inside(p);
                    ensure_eq!(s.0.cell_of(ta(p)), want, "cell of {p:?}");
                    if let Some((r, c)) = want {
                        s.1 |= bit(r, c);
                    }
                } else {
                    s.0.clear();
                    s.1 = 0;
                }
                for &(r, c) in &idx {
                    ensure_eq!(s.0.is_occupied(r, c), s.1 & bit(r, c) != 0, "cell {r},{c}");
                }
                ensure_eq!((s.0.columns(), s.0.rows(), g(s.0.resolution()), ga(s.0.origin())), (m.c, m.r, m.res, m.o), "the map itself");
                Ok(s.1 as u64)
            },
            &|s| Some(s.1 as u128),
        );
        // all the points, those beyond the action limit included
        let fine: Vec<f64> = (-8..=32).map(|k| k as f64 / 8.0).chain(fr).collect();
        let nf = fine.len();
        ck.space(&format!("cell_of_{k}_{}", T::NAME), (nf * nf) as u64, |i| format!("{i}"), |i| {
            let mut d = Dig(i);
            let p = [m.o[0] + fine[d.n(nf)] * m.res, m.o[1] + fine[d.n(nf)] * m.res].map(rd::<T>);
            let map = m.build::<T>();
            ensure_eq!(map.cell_of(ta(p)), inside(p), "cell of {p:?} on {m:?}");
            Ok(h64(&inside(p)))
        });
    }
    let sz = [0, 1, 3, usize::MAX, usize::MAX / 2 + 1, 1 << 33];
    let sp = SPECIAL;
    ck.space(&format!("bad_maps_{}", T::NAME), 6 * 6 * 14 * 14 * 2, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let (c, r) = (d.pick(&sz), d.pick(&sz));
        let (res, o) = (rd::<T>(d.pick(&sp)), rd::<T>(d.pick(&sp)));
        let o = [[o, 0.5], [-1.0, o]][d.n(2)];
        let mut al = vec![];
        if c == 0 || r == 0 {
            al.push(E::EmptyGrid);
        }
        if c.checked_mul(r).is_none() {
            al.push(E::GridTooLarge);
        }
        if !res.is_finite() || o.iter().any(|x| !x.is_finite()) {
            al.push(E::NonFinite);
        }
        if res <= 0.0 {
            al.push(E::NonPositiveResolution);
        }
        if al.is_empty() && c as u128 * r as u128 > 1 << 20 {
            // a map that could be counted but not held
            return Ok(7);
        }
        let map = verdict(G::<T>::try_new(c, r, t(res), ta(o)), &al, &format!("{c}x{r} of {res} at {o:?}"))?;
        if let Some(map) = map {
            ensure!((0..r).all(|a| (0..c).all(|b| !map.is_occupied(a, b))), "starts free");
        }
        Ok(al.len() as u64)
    });
}

fn marked<T: Fl>(m: &Map, map: &G<T>) -> Vec<(usize, usize)> {
    (0..m.r).flat_map(|r| (0..m.c).map(move |c| (r, c))).filter(|&(r, c)| map.is_occupied(r, c)).collect()
}
/// Does the segment meet the closed square, and over what length
fn crosses(s: [f64; 4], a: [f64; 2], b: [f64; 2]) -> Option<f64> {
    let d = [b[0] - a[0], b[1] - a[1]];
    let l = d[0].hypot(d[1]);
    if l == 0.0 {
        return (a[0] >= s[0] && a[0] <= s[2] && a[1] >= s[1] && a[1] <= s[3]).then_some(0.0);
    }
    let (x, y) = slab(s, a, d);
    let (x, y) = (x.max(0.0), y.min(1.0));
    (x <= y).then_some((y - x) * l)
}
fn polylines<T: Fl>(ck: &Ck) {
    let maps = [Map { c: 7, r: 5, res: 1.0, o: [0.0, 0.0] }, Map { c: 6, r: 9, res: 0.05, o: [-0.1, 3.0] }, Map { c: 5, r: 4, res: 0.3, o: [100.0, -7.0] }];
    let al = [[0.5, 0.5], [0.0, 0.0], [3.0, 2.0], [6.9, 4.9], [-2.0, 1.3], [4.2, 0.1], [1.7, 8.0], [5.0, 5.0], [2.5, 2.5], [30.0, 2.2], [3.0, -40.0]];
    let n = 3 * 11u64.pow(3) * 2 * 4;
    ck.space(&format!("polylines_{}", T::NAME), n, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let m = d.pick(&maps).round::<T>();
        let pt = |p: [f64; 2]| [m.o[0] + p[0] * m.res, m.o[1] + p[1] * m.res].map(rd::<T>);
        let p: [[f64; 2]; 3] = [pt(d.pick(&al)), pt(d.pick(&al)), pt(d.pick(&al))];
        let closed = d.n(2) == 1;
        let len = d.n(4);
        let p = &p[..len];
        let mut map = m.build::<T>();
        map.set_cell(0, 0, true);
        let q: Vec<[T; 2]> = p.iter().map(|v| ta(*v)).collect();
        map.occupy_polyline(&q, closed);
        let mut edges: Vec<_> = p.windows(2).map(|w| (w[0], w[1])).collect();
        if closed && len > 0 {
            edges.push((p[len - 1], p[0]));
        }
        let slip = T::EPS * 32.0 * (m.span() + 50.0 * m.res);
        let on = marked(&m, &map);
        ensure!(on.contains(&(0, 0)), "a cell that was blocked already");
        for r in 0..m.r {
            for c in 0..m.c {
                let s = m.square(r, c);
                let is = on.contains(&(r, c));
                let near = edges.iter().any(|e| crosses(grow(s, slip), e.0, e.1).is_some());
                ensure!(!is || near || (r, c) == (0, 0), "cell {r},{c} is marked, the line {p:?} (closed {closed}) does not meet it, map {m:?}");
                let most = edges.iter().filter_map(|e| crosses(grow(s, -slip), e.0, e.1)).fold(0.0, f64::max);
                // sampled well inside a cell width
                ensure!(is || most <= 0.5 * m.res, "cell {r},{c} is not marked, the line {p:?} (closed {closed}) runs {most} inside it, map {m:?}");
            }
        }
        // the ends of every edge, when on the map
        for e in &edges {
            for v in [e.0, e.1] {
                if let Some(c) = map.cell_of(ta(v)) {
                    let mid = [m.square(c.0, c.1)[0] + 0.5 * m.res, m.square(c.0, c.1)[1] + 0.5 * m.res];
                    let deep = (v[0] - mid[0]).abs().max((v[1] - mid[1]).abs()) < 0.5 * m.res - slip;
                    ensure!(!deep || on.contains(&c), "the end {v:?} of an edge is not marked");
                }
            }
        }
        // no gap: walking an edge, marked cells touch
        for e in &edges {
            let l = (e.1[0] - e.0[0]).hypot(e.1[1] - e.0[1]);
            let steps = (l / m.res * 20.0).ceil() as usize + 1;
            let mut gap = 0.0;
            for k in 0..=steps {
                let u = k as f64 / steps as f64;
                let v = [e.0[0] + u * (e.1[0] - e.0[0]), e.0[1] + u * (e.1[1] - e.0[1])];
                let off = v[0] <= m.o[0] || v[1] <= m.o[1] || v[0] >= m.o[0] + m.c as f64 * m.res || v[1] >= m.o[1] + m.r as f64 * m.res;
                let covered = on.iter().any(|c| { let s = grow(m.square(c.0, c.1), slip); v[0] >= s[0] && v[0] <= s[2] && v[1] >= s[1] && v[1] <= s[3] });
                gap = if off || covered { 0.0 } else { gap + l / steps as f64 };
                ensure!(gap <= 0.5 * m.res, "a gap of {gap} along the edge {e:?}");
            }
        }
        Ok(on.len() as u64)
    });
    // maps, outlines and beams in another unit of length
    let us: [i32; 6] = if T::IS32 { [-60, -36, -24, 20, 40, 60] } else { [-300, -100, -54, 40, 100, 300] };
    ck.space(&format!("units_{}", T::NAME), 3 * 6 * 11u64.pow(2) * 4 * 30, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let m = d.pick(&maps).round::<T>();
        let u = 2f64.powi(d.pick(&us));
        let big = Map { res: m.res * u, o: m.o.map(|x| x * u), ..m };
        let pt = |p: [f64; 2]| [m.o[0] + p[0] * m.res, m.o[1] + p[1] * m.res].map(rd::<T>);
        let (p, q) = (pt(d.pick(&al)), pt(d.pick(&al)));
        let kind = d.n(4);
        let b = rd::<T>(d.pick(&BEAR));
        let of = |m: &Map, u: f64| {
            let mut map = m.build::<T>();
            let s = |p: [f64; 2]| ta::<T, 2>(p.map(|x| x * u));
            match kind {
                0 => map.occupy_polyline(&[s(p), s(q), s([p[0], q[1]])], true),
                1 => map.occupy_polyline(&[s(p), s(q)], false),
                2 => map.occupy_circle(s(p), t(u * 1.75 * m.res / u)),
                _ => map.set_cell(1, 2, true),
            };
            let far = rd::<T>(20.0 * m.res / u);
            let beams: Vec<Option<f64>> = (0..3).map(|k| map.cast_ray(s(if k == 2 { [p[0], q[1]] } else { [p, q][k] }), t(b + k as f64), t(far * u)).map(|x| g(x) / u)).collect();
            let cells = [p, q, [p[0], q[1]], [q[0], p[1]]].map(|v| map.cell_of(s(v)));
            (marked(m, &map), beams, cells)
        };
        op(5);
        let (a, z) = (of(&m, 1.0), of(&big, u));
        ensure_eq!(z.0, a.0, "cells marked in units of {u}, {m:?} kind {kind} {p:?} {q:?}");
        ensure_eq!(z.2, a.2, "cells of the points in units of {u}");
        for (k, (z, a)) in z.1.iter().zip(&a.1).enumerate() {
            ensure!(z == a || z.is_some() && a.is_some() && (z.unwrap() - a.unwrap()).abs() <= 8.0 * T::EPS * a.unwrap(), "beam {k} at {b} from {p:?} {q:?} in units of {u}: {z:?}, in plain units {a:?}");
        }
        Ok(a.0.len() as u64)
    });
    // edges that are not there
    ck.space(&format!("bad_polylines_{}", T::NAME), 6 * 6 * 2, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let sp = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 1.5, -3.0, 2.0];
        let (x, y, closed) = (d.pick(&sp), d.pick(&sp), d.n(2) == 1);
        let m = maps[0];
        let mut map = m.build::<T>();
        map.occupy_polyline(&[ta([x, 2.5]), ta([y, 2.5])], closed);
        let on = marked(&m, &map);
        ensure!(on.iter().all(|c| c.0 == 2), "cells off the row of the line: {on:?}");
        if !(x.is_finite() && y.is_finite()) {
            ensure!(on.len() <= 2, "an edge without ends marks {on:?}");
        }
        Ok(on.len() as u64)
    });
}

fn circles<T: Fl>(ck: &Ck) {
    let maps = [Map { c: 12, r: 12, res: 1.0, o: [0.0, 0.0] }, Map { c: 9, r: 16, res: 0.1, o: [-0.4, 0.3] }, Map { c: 40, r: 40, res: 0.01, o: [2.0, 2.0] }];
    let cen = [[6.0, 6.0], [0.0, 0.0], [3.3, 7.7], [-4.0, 2.0], [20.0, 6.0], [6.5, 6.5], [-1000.0, 5.5], [3.0, 4000.0]];
    let rad = [0.0, 0.2, 0.5, 1.0, 2.5, 4.0, 5.9, 8.0, 14.0, 25.0, 1006.0, 1003.5, 3996.25, 4005.0, 1e5, -3.0];
    ck.space(&format!("circles_{}", T::NAME), 3 * 8 * 16, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let m = d.pick(&maps).round::<T>();
        let c = d.pick(&cen);
        let c = [m.o[0] + c[0] * m.res, m.o[1] + c[1] * m.res].map(rd::<T>);
        let r = rd::<T>(d.pick(&rad) * m.res);
        let mut map = m.build::<T>();
        map.occupy_circle(ta(c), t(r));
        let r = r.abs();
        let on = marked(&m, &map);
        let slip = T::EPS * 32.0 * (m.span() + c[0].abs() + c[1].abs() + r);
        for &(row, col) in &on {
            let s = m.square(row, col);
            let (dx, dy) = ((s[0] - c[0]).max(c[0] - s[2]).max(0.0), (s[1] - c[1]).max(c[1] - s[3]).max(0.0));
            let near = dx.hypot(dy);
            let far = [[s[0], s[1]], [s[2], s[1]], [s[0], s[3]], [s[2], s[3]]].iter().map(|p| (p[0] - c[0]).hypot(p[1] - c[1])).fold(0.0, f64::max);
            ensure!(near <= r + slip && far >= r - slip, "cell {row},{col} is not on the rim of {r} about {c:?} on {m:?}");
        }
        // walk the rim: every stretch on the map of half a cell has a marked cell
        let mid = [m.o[0] + m.c as f64 * m.res / 2.0, m.o[1] + m.r as f64 * m.res / 2.0];
        let half = (m.c as f64).hypot(m.r as f64) * m.res / 2.0;
        let away = (mid[0] - c[0]).hypot(mid[1] - c[1]);
        let (from, wide) = if away > half { ((mid[1] - c[1]).atan2(mid[0] - c[0]), (half / away).asin()) } else { (0.0, PI) };
        let steps = (2.0 * wide * r / m.res * 20.0).ceil() as usize + 1;
        let mut gap = 0.0;
        for k in 0..=steps {
            let a = from - wide + 2.0 * wide * k as f64 / steps as f64;
            let v = [c[0] + r * a.cos(), c[1] + r * a.sin()];
            let off = v[0] <= m.o[0] || v[1] <= m.o[1] || v[0] >= m.o[0] + m.c as f64 * m.res || v[1] >= m.o[1] + m.r as f64 * m.res;
            let covered = on.iter().any(|c| { let s = grow(m.square(c.0, c.1), slip); v[0] >= s[0] && v[0] <= s[2] && v[1] >= s[1] && v[1] <= s[3] });
            gap = if off || covered { 0.0 } else { gap + 2.0 * wide * r / steps as f64 };
            ensure!(gap <= 0.5 * m.res, "a gap of {gap} in the rim of {r} about {c:?} at {v:?}, map {m:?}");
            op(1);
        }
        Ok(on.len() as u64)
    });
    ck.space(&format!("bad_circles_{}", T::NAME), 14 * 14 * 14, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let sp = SPECIAL;
        let v = [d.pick(&sp), d.pick(&sp), d.pick(&sp)].map(rd::<T>);
        let m = maps[0];
        let mut map = m.build::<T>();
        map.occupy_circle(ta([v[0], v[1]]), t(v[2]));
        let on = marked(&m, &map);
        ensure!(v.iter().all(|x| x.is_finite()) || on.is_empty(), "a circle {v:?} marks {on:?}");
        Ok(on.len() as u64)
    });
}

fn scan<const N: usize, T: Fl>(ck: &Ck) {
    let fovs = [0.1, 0.3, 1.0, 1.5707963267948966, 2.0, 2.7, 3.0, 3.141592653589793, 4.0, 4.71238898038469, 5.9, 6.283185307179586, 1e-3, 0.7, 1.1, 1.9];
    ck.space(&format!("scan_{N}_{}", T::NAME), 16 * (N as u64 + 1), |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let fov = rd::<T>(d.pick(&fovs)).min(g(T::TWO_PI));
        let s = ScanGeometry::<N, T>::try_new(t(fov), t(10.0)).map_err(|e| format!("{e:?}"))?;
        let k = d.n(N + 1);
        ensure_eq!((g(s.field_of_view()), g(s.minimum_range()), g(s.maximum_range()), s.num_beams()), (fov, 0.0, 10.0, N), "as built");
        let inc = fov / (N - 1) as f64;
        let e = T::EPS * 4.0 * fov;
        ensure_close!(g(s.angle_increment()), inc, T::EPS * 4.0, 0.0, "increment");
        let a = s.beam_angle(k).map(g);
        if k == N {
            ensure!(a.is_none() && s.beam_angle(usize::MAX).is_none(), "a beam too many");
            for x in [fov * 0.5000011, -fov * 0.5000011, fov, 100.0, f64::INFINITY, f64::NAN, f64::NEG_INFINITY] {
                ensure_eq!(s.nearest_beam_index(t(x)), None, "nearest beam of {x}, off the arc");
            }
            return Ok(0);
        }
        let a = a.ok_or("no angle")?;
        ensure!((a - (-fov / 2.0 + inc * k as f64)).abs() <= e, "beam {k} of {N} over {fov} at {a}");
        ensure_eq!(s.nearest_beam_index(t(a)), Some(k), "nearest beam of the angle {a:e} of beam {k} of {N} over {fov}");
        for (off, want) in [(0.45, k + 1), (0.55, k + 2), (-0.45, k + 1), (-0.55, k), (0.01, k + 1), (-0.01, k + 1)] {
            let x = a + off * inc;
            if x.abs() < fov / 2.0 - e && want > 0 && want <= N {
                ensure_eq!(s.nearest_beam_index(t(x)), Some(want - 1), "nearest beam of {x}, {off} past beam {k} of {N} over {fov}");
            }
        }
        Ok(hf(&[a]))
    });
}
fn scans<T: Fl>(ck: &Ck) {
    scan::<2, T>(ck);
    scan::<3, T>(ck);
    scan::<4, T>(ck);
    scan::<7, T>(ck);
    scan::<8, T>(ck);
    scan::<11, T>(ck);
    scan::<16, T>(ck);
    scan::<50, T>(ck);
    scan::<181, T>(ck);
    scan::<360, T>(ck);
    scan::<1081, T>(ck);
    let sp = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -1.0, -0.0, 0.0, 1e-3, 0.5, 1.0, 6.28, 6.283185307179586, 6.3, 10.0, 1e9, 1e-20, -1e-20];
    ck.space(&format!("scan_domain_{}", T::NAME), 16 * 16 * 16 * 16, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let [f, hi, lo, x] = [d.pick(&sp), d.pick(&sp), d.pick(&sp), d.pick(&sp)].map(rd::<T>);
        fn mk<const N: usize, T: Fl>(f: f64, hi: f64) -> Result<Option<ScanGeometry<N, T>>, String> {
            let mut al = vec![];
            if N < 2 {
                al.push(E::TooFewBeams);
            }
            if !f.is_finite() || !hi.is_finite() {
                al.push(E::NonFinite);
            }
            if f <= 0.0 || f > g(T::TWO_PI) {
                al.push(E::InvalidFieldOfView);
            }
            if hi <= 0.0 {
                al.push(E::NonPositiveRange);
            }
            verdict(ScanGeometry::<N, T>::try_new(t(f), t(hi)), &al, &format!("scan {f} {hi}"))
        }
        mk::<0, T>(f, hi)?;
        mk::<1, T>(f, hi)?;
        let Some(s) = mk::<5, T>(f, hi)? else { return Ok(0) };
        let mut al = vec![];
        if !lo.is_finite() {
            al.push(E::NonFinite);
        }
        if lo < 0.0 || lo >= hi {
            al.push(E::InvalidRangeLimits);
        }
        let valid = |s: &ScanGeometry<5, T>, lo: f64| { ensure_eq!(s.range_is_valid(t(x)), x.is_finite() && x >= lo && x <= hi, "range {x} within {lo}..{hi}"); Ok::<(), String>(()) };
        valid(&s, 0.0)?;
        let Some(s) = verdict(s.with_minimum_range(t(lo)), &al, "minimum range")? else { return Ok(1) };
        ensure_eq!(g(s.minimum_range()), lo, "minimum range");
        valid(&s, lo)?;
        Ok(2)
    });
}

fn main() {
    let ck = Ck::new("C28");
    ck.assume("A beam grazing an edge or corner within rounding may read either of the cells that meet there; a beam through the inside of a blocked cell must stop at it.");
    rays::<f64>(&ck);
    marking::<f64>(&ck);
    polylines::<f64>(&ck);
    circles::<f64>(&ck);
    scans::<f64>(&ck);
    rays::<f32>(&ck);
    marking::<f32>(&ck);
    polylines::<f32>(&ck);
    circles::<f32>(&ck);
    scans::<f32>(&ck);
    ck.finish();
}
