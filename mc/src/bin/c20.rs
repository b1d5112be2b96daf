//! C20: kinematic trees: poses and Jacobians against a reference tree differentiated numerically.
use mc::kin::*;
use mc::la::*;
use mc::num::*;
use mc::refmodel::*;
use mc::*;
use multicalc::error::KinematicsError as E;
use multicalc::kinematics::*;
use multicalc::linear_algebra::Vector;
use multicalc::spatial::SE3;

const ID: Pose = ([1.0, 0.0, 0.0, 0.0], [0.0; 3]);
fn origins() -> [Pose; 4] {
    [ID, (ID.0, [0.4, -0.3, 0.7]), (qexp([0.0, 0.0, 1.5707963]), [1.0, 0.0, 0.0]), (qexp([0.5, -1.1, 0.8]), [-0.2, 0.6, 0.3])]
}
const AXES: [V3; 5] = [[0.0, 0.0, 1.0], [1.0, 0.0, 0.0], [0.0, -2.0, 0.0], [0.3, 0.4, -0.5], [10.0, 10.0, 1.0]];
const KINDS: [K; 5] = [K::Rev, K::Pris, K::Fix, K::Cont, K::Float];

/// Every pose, and the Jacobian of every frame in both frames of reference.
fn compare<const J: usize, const C: usize, T: Fl>(r: &RTree, c: &[f64]) -> Res {
    // the reference sees exactly the numbers the code sees
    let rd = |x: f64| g(t::<T>(x));
    let r = RTree {
        j: r.j.iter().map(|j| RJ { k: j.k, axis: j.axis.map(rd), anchor: j.anchor.map(rd), origin: (qnormed(j.origin.0.map(rd)), j.origin.1.map(rd)), zero: rd(j.zero) }).collect(),
        p: r.p.clone(),
    };
    let c: Vec<f64> = c.iter().map(|x| rd(*x)).collect();
    let tr = r.build::<J, C, T>()?;
    ensure_eq!((tr.len(), tr.is_empty()), (r.j.len(), r.j.is_empty()), "len");
    ensure_eq!((tr.config_len(), tr.velocity_len(), tr.has_floating_base()), (r.cfg(), r.vel(), r.floating()), "configuration and velocity sizes");
    for i in 0..J + 2 {
        let inside = i < r.j.len();
        ensure_eq!((tr.config_offset(i), tr.velocity_offset(i)), (inside.then(|| r.off(i)), inside.then(|| r.voff(i))), "offsets of joint {i}");
        ensure_eq!(tr.parent(i), inside.then(|| par(r.p[i])), "parent {i}");
        ensure_eq!(tr.joint(i).map(|j| j.kind()), inside.then(|| joint::<T>(&r.j[i]).kind()), "joint {i}");
    }
    let mut full = [0.0; C];
    full[..c.len()].copy_from_slice(&c);
    // slots past the configuration are not read, and neither are those of fixed joints
    for x in full.iter_mut().skip(c.len()) {
        *x = f64::NAN;
    }
    for (i, j) in r.j.iter().enumerate() {
        if j.k == K::Fix {
            full[r.off(i)] = f64::INFINITY;
        }
    }
    let q = Vector::<C, T>::new(ta(full));
    let st = tr.forward_kinematics(&q).map_err(|e| format!("forward kinematics: {e:?}"))?;
    let want = r.fk(&c);
    let tol = T::EPS * 60.0 * (1.0 + c.iter().fold(0.0f64, |m, x| m.max(x.abs())));
    ensure_eq!((st.len(), st.poses().len(), st.is_empty()), (want.len(), want.len(), want.is_empty()), "state len");
    let mut acc = vec![];
    for i in 0..want.len() {
        let p = st.pose(i).ok_or("pose")?;
        pose_close(p, want[i], tol, &format!("pose {i}"))?;
        ensure!(st.poses()[i] == p, "poses()");
        acc.extend(pose_of(p).1);
    }
    ensure_eq!(st.pose(want.len()), None, "pose past the end");
    let reach = want.iter().fold(1.0f64, |m, p| m.max(norm3(p.1)));
    let jt = if T::IS32 { 3e-5 } else { 2e-8 } * reach * (1.0 + c.iter().fold(0.0f64, |m, x| m.max(x.abs())));
    for tool in 0..want.len() {
        for body in [false, true] {
            let f = if body { JacobianFrame::Body } else { JacobianFrame::World };
            let ja = tr.geometric_jacobian(&st, tool, f).map_err(|e| format!("jacobian: {e:?}"))?;
            let jw = r.jac(&c, tool, body);
            ensure_eq!((ja.columns(), ja.frame(), ja.is_empty()), (r.vel(), f, false), "jacobian shape");
            let m = mm(&ja.matrix());
            for k in 0..C {
                let col: Vec<f64> = m.iter().map(|x| x[k]).collect();
                let w: Vec<f64> = if k < r.vel() { jw.iter().map(|x| x[k]).collect() } else { vec![0.0; 6] };
                vclose(&col, &w, if k < r.vel() { jt } else { 0.0 }, &format!("column {k} of the Jacobian of frame {tool}, {f:?}"))?;
                ensure_eq!(ja.column(k).map(|x| ga(x.as_array()).to_vec()), (k < r.vel()).then(|| col.clone()), "column({k})");
            }
            let rates: [f64; C] = std::array::from_fn(|k| 0.5 - 0.25 * k as f64);
            let tw = ja.tool_twist(&Vector::new(ta(rates)));
            vclose(&ga(tw.as_array()), &fmv(&m, &rates), T::EPS * 100.0 * reach * 8.0, "tool_twist")?;
            ensure!(tr.geometric_jacobian_at(&q, tool, f) == Ok(ja), "geometric_jacobian_at");
            acc.push(fmax_abs(&m));
        }
    }
    ensure_eq!(tr.geometric_jacobian(&st, want.len(), JacobianFrame::World).err(), Some(E::ToolIndexOutOfRange), "tool past the end");
    Ok(hf(&acc))
}

/// All shapes of trees of four joints, all kinds.
fn trees<T: Fl>(ck: &Ck) {
    let os = origins();
    let reads: [[f64; 4]; 3] = [[0.0; 4], [0.7, -1.2, 2.5, 0.3], [-3.5, 0.4, 1.0, -9.0]];
    let quats: [[f64; 4]; 3] = [[1.0, 0.0, 0.0, 0.0], [0.5, -0.5, 1.5, 0.1], [-0.2, 0.9, 0.1, -0.4]];
    let n = 24 * 5 * 64 * 3u64;
    ck.space(&format!("trees_{}", T::NAME), ck.q(n, n * 4), |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let cfgi = d.n(3);
        let par: Vec<Option<usize>> = (0..4).map(|k| d.n(k + 1)).map(|x| x.checked_sub(1)).collect();
        let kinds: Vec<K> = (0..4).map(|k| KINDS[d.n(if k == 0 { 5 } else { 4 })]).collect();
        let var = d.n(4);
        let r = RTree {
            j: (0..4)
                .map(|k| RJ { k: kinds[k], axis: AXES[(k + var + kinds[k] as usize) % 5], anchor: if (k + var) % 2 == 0 { [0.2, -0.1, 0.4] } else { [0.0; 3] }, origin: os[(k + var + cfgi) % 4], zero: [0.0, 0.35][(k + cfgi) % 2] })
                .collect(),
            p: par,
        };
        let mut c: Vec<f64> = vec![];
        for (k, j) in r.j.iter().enumerate() {
            if j.k == K::Float {
                c.extend([0.3, -1.0, 2.0]);
                c.extend(quats[cfgi]);
            } else {
                c.push(reads[cfgi][k]);
            }
        }
        compare::<5, 12, T>(&r, &c)
    });
    // one and two joints: every axis, anchor, origin, reference reading and reading
    let reads = [0.0, 0.5, -2.0, 3.1415926, 7.0];
    let n = 5 * 5 * 2 * 4 * 2 * 5 * 4u64;
    ck.space(&format!("joints_{}", T::NAME), n, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let k = KINDS[d.n(5)];
        let j = RJ { k, axis: d.pick(&AXES), anchor: d.pick(&[[0.0; 3], [1.0, -0.5, 0.25]]), origin: d.pick(&os), zero: d.pick(&[0.0, -1.25]) };
        let x = d.pick(&reads);
        let second = [K::Rev, K::Pris, K::Fix, K::Cont][d.n(4)];
        let r = RTree { j: vec![j, RJ { anchor: [0.1, 0.2, 0.3], ..rj(second, [1.0, 2.0, -2.0], os[3]) }], p: vec![None, Some(0)] };
        let mut c = if k == K::Float { vec![x, -1.0, 0.5, 0.1 + x, 0.7, -0.2, 0.4] } else { vec![x] };
        c.push(0.6);
        compare::<2, 9, T>(&r, &c)
    });
}

#[derive(Clone, Copy, Debug)]
struct Cand {
    k: K,
    axis: V3,
    anchor: V3,
    origin: Pose,
    zero: f64,
    lim: Option<(f64, f64)>,
    dyn_: [f64; 3],
}
fn cands() -> Vec<Cand> {
    let b = Cand { k: K::Rev, axis: [0.0, 0.0, 1.0], anchor: [0.0; 3], origin: ID, zero: 0.0, lim: None, dyn_: [0.0; 3] };
    let (nan, inf) = (f64::NAN, f64::INFINITY);
    let mut v = vec![];
    for k in KINDS {
        v.push(Cand { k, ..b });
        v.push(Cand { k, lim: Some((-1.0, 1.0)), ..b });
        v.push(Cand { k, lim: Some((1.0, 1.0)), ..b });
        v.push(Cand { k, lim: Some((1.0, -1.0)), ..b });
        v.push(Cand { k, lim: Some((nan, 1.0)), ..b });
        v.push(Cand { k, lim: Some((0.0, inf)), ..b });
        v.push(Cand { k, axis: [0.0; 3], ..b });
        v.push(Cand { k, axis: [0.0, nan, 1.0], ..b });
        v.push(Cand { k, axis: [inf, 0.0, 1.0], ..b });
        v.push(Cand { k, axis: [3.0, -4.0, 12.0], anchor: [1.0, 2.0, 3.0], zero: 0.5, dyn_: [0.1, 0.2, 0.3], ..b });
        v.push(Cand { k, anchor: [nan, 0.0, 0.0], ..b });
        v.push(Cand { k, zero: inf, ..b });
        for i in 0..3 {
            let mut d = [0.0; 3];
            d[i] = -inf;
            v.push(Cand { k, dyn_: d, ..b });
        }
        v.push(Cand { k, origin: (ID.0, [0.0, inf, 0.0]), ..b });
        v.push(Cand { k, origin: ([nan, 0.0, 0.0, 1.0], [0.0; 3]), ..b });
        v.push(Cand { k, lim: Some((1.0, nan)), axis: [0.0; 3], zero: nan, ..b });
    }
    v
}
fn mk<T: Fl>(c: &Cand) -> Joint<T> {
    let mut j = joint::<T>(&RJ { k: c.k, axis: c.axis, anchor: c.anchor, origin: c.origin, zero: c.zero }).with_armature(t(c.dyn_[0])).with_damping(t(c.dyn_[1])).with_friction_loss(t(c.dyn_[2]));
    if let Some((a, b)) = c.lim {
        j = j.with_limits(t(a), t(b));
    }
    j
}

/// Every sequence of attempts to add a joint: exactly the documented refusals, and a refused one leaves no trace.
fn building<T: Fl>(ck: &Ck) {
    let cs = cands();
    // two good starts (fixed base, floating base) plus empty, then any candidate on any parent
    const J: usize = 3;
    const C: usize = 9;
    let ps = [None, Some(0), Some(1), Some(2), Some(3), Some(usize::MAX)];
    let starts: Vec<Vec<K>> = vec![vec![], vec![K::Rev], vec![K::Float], vec![K::Float, K::Fix], vec![K::Pris, K::Cont], vec![K::Fix, K::Rev, K::Rev], vec![K::Float, K::Rev, K::Rev]];
    let n = cs.len();
    let check = |tr: &mut KinematicTree<J, C, T>, kinds: &mut Vec<K>, c: &Cand, p: Option<usize>| -> Result<u64, String> {
        let len = kinds.len();
        let fl = len > 0 && kinds[0] == K::Float;
        let mut al = vec![];
        if len == J {
            al.push(E::CapacityExceeded);
        }
        if p.is_some_and(|i| i >= len) {
            al.push(E::ParentOutOfOrder);
        }
        if c.k == K::Float && (len != 0 || p.is_some()) {
            al.push(E::FloatingJointNotAtRoot);
        }
        let movable = matches!(c.k, K::Rev | K::Pris | K::Cont);
        // a weld's and a floating joint's axis is a placeholder
        let axis_read = movable;
        let bad = |x: &f64| !x.is_finite();
        if c.origin.1.iter().any(bad) || c.origin.0.iter().any(bad) || (axis_read && c.axis.iter().any(bad)) || c.anchor.iter().any(bad) || bad(&c.zero) || c.dyn_.iter().any(bad) || c.lim.is_some_and(|l| bad(&l.0) || bad(&l.1)) {
            al.push(E::NonFinite);
        }
        if c.lim.is_some_and(|l| l.0 > l.1) {
            al.push(E::LimitsReversed);
        }
        if c.k == K::Cont && c.lim.is_some() {
            al.push(E::ContinuousJointHasLimits);
        }
        if axis_read && c.axis == [0.0; 3] {
            al.push(E::AxisHasNoDirection);
        }
        let cfg = len + if fl { 6 } else { 0 } + if c.k == K::Float { 7 } else { 1 };
        if cfg > C {
            al.push(E::ConfigurationCapacityExceeded);
        }
        let before = *tr;
        let r = verdict(tr.push(mk::<T>(c), par(p)), &al, &format!("push {c:?} under {p:?} onto {kinds:?}"))?;
        if r.is_none() {
            ensure!(*tr == before, "a refused joint changed the tree");
            return Ok(1);
        }
        kinds.push(c.k);
        ensure_eq!(tr.len(), len + 1, "len");
        let j = tr.joint(len).ok_or("joint")?;
        let src = mk::<T>(c);
        if axis_read {
            let a = ga::<T, 3>(*j.axis().as_array());
            vclose(&a, &sc3(c.axis, 1.0 / norm3(c.axis)), 4.0 * T::EPS, "stored axis")?;
        }
        ensure!(
            (j.kind(), j.anchor(), j.origin(), j.zero_offset(), j.limits(), j.armature(), j.damping(), j.friction_loss()) == (src.kind(), src.anchor(), src.origin(), src.zero_offset(), src.limits(), src.armature(), src.damping(), src.friction_loss()),
            "stored joint {j:?}, pushed {src:?}"
        );
        ensure_eq!(tr.parent(len), Some(par(p)), "stored parent");
        for i in 0..len {
            ensure!(tr.joint(i) == before.joint(i) && tr.parent(i) == before.parent(i), "joint {i} changed");
        }
        Ok(2)
    };
    ck.space(&format!("building_{}", T::NAME), (starts.len() * ps.len() * ps.len() * n * n) as u64, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let st = &starts[d.n(starts.len())];
        let mut tr = KinematicTree::<J, C, T>::new();
        let mut kinds = vec![];
        for k in st {
            let base = Cand { k: *k, axis: [0.0, 1.0, 0.0], anchor: [0.0; 3], origin: ID, zero: 0.0, lim: None, dyn_: [0.0; 3] };
            let p = kinds.len().checked_sub(1);
            check(&mut tr, &mut kinds, &base, p)?;
        }
        let mut h = 0;
        for _ in 0..2 {
            let c = &cs[d.n(n)];
            let p = d.pick(&ps);
            h = h * 3 + check(&mut tr, &mut kinds, c, p)?;
        }
        Ok(h)
    });
    // every order of setting the optional values: each setter changes its own value and nothing else
    let at = origins();
    ck.space(&format!("setters_{}", T::NAME), 6 * 13u64.pow(4), |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let o = se::<T>(at[3]);
        let ax = v3::<T>([0.5, -2.0, 1.0]);
        let z = v3::<T>([0.0; 3]);
        let w = d.n(6);
        let (mut j, kind, axis, o) = match w {
            0 => (Joint::revolute(ax, o), JointKind::Revolute, Some(ax), o),
            1 => (Joint::continuous(ax, o), JointKind::Continuous, Some(ax), o),
            2 => (Joint::prismatic(ax, o), JointKind::Prismatic, Some(ax), o),
            3 => (Joint::fixed(o), JointKind::Fixed, None, o),
            4 => (Joint::floating(o), JointKind::Floating, None, o),
            _ => (Joint::<T>::default(), JointKind::Fixed, None, SE3::<T>::identity()),
        };
        let (mut anchor, mut zero, mut lim, mut n) = (z, t::<T>(0.0), None, [t::<T>(0.0); 3]);
        for _ in 0..4 {
            let (x, y): (T, T) = (t(1.5), t(-0.25));
            match d.n(13) {
                0 => {}
                1 => { anchor = v3([1.0, -2.0, 3.0]); j = j.with_anchor(anchor) }
                2 => { anchor = v3([0.0, 0.5, 0.0]); j = j.with_anchor(anchor) }
                3 => { zero = x; j = j.with_zero_offset(x) }
                4 => { zero = y; j = j.with_zero_offset(y) }
                5 => { lim = Some((y, x)); j = j.with_limits(y, x) }
                6 => { lim = Some((x, y)); j = j.with_limits(x, y) }
                k => {
                    let q = if k % 2 == 0 { x } else { y };
                    n[(k - 7) / 2] = q;
                    j = match (k - 7) / 2 { 0 => j.with_armature(q), 1 => j.with_damping(q), _ => j.with_friction_loss(q) };
                }
            }
        }
        ensure!(axis.is_none_or(|a| a == j.axis()), "axis {:?}", j.axis());
        ensure_eq!(j.kind(), kind, "kind");
        ensure!(
            (j.anchor(), j.origin(), j.zero_offset(), j.limits(), [j.armature(), j.damping(), j.friction_loss()]) == (anchor, o, zero, lim, n),
            "values {j:?}"
        );
        Ok(w as u64)
    });
    // a list of joints is the same as adding them one by one
    let good: Vec<Cand> = cs.iter().filter(|c| c.lim.is_none_or(|l| l.0 <= l.1)).take(8).copied().collect();
    ck.space(&format!("lists_{}", T::NAME), 8u64.pow(3) * 4 * 36, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let n = d.n(4);
        let js: Vec<Cand> = (0..3).map(|_| good[d.n(good.len())]).collect();
        let ps2: Vec<Option<usize>> = vec![None, d.pick(&ps), d.pick(&ps)];
        let jl: Vec<Joint<T>> = js.iter().take(n).map(mk::<T>).collect();
        let mut pl: Vec<JointParent> = ps2.iter().take(n).map(|p| par(*p)).collect();
        let mut tr = KinematicTree::<J, C, T>::default();
        let mut want: Result<(), E> = Ok(());
        for k in 0..n {
            want = want.and_then(|_| tr.push(jl[k], pl[k]));
        }
        let got = KinematicTree::<J, C, T>::try_from_joints(&jl, &pl);
        ensure!(got == want.map(|_| tr), "try_from_joints gives {got:?}, pushing gives {want:?}");
        pl.push(JointParent::World);
        ensure_eq!(KinematicTree::<J, C, T>::try_from_joints(&jl, &pl).err(), Some(E::JointCountMismatch), "lists of different length");
        Ok(h64(&want))
    });
}

/// Bad readings, states of other trees, distances.
fn queries<T: Fl>(ck: &Ck) {
    let os = origins();
    let kinds = [[K::Rev, K::Pris, K::Fix], [K::Float, K::Fix, K::Cont], [K::Cont, K::Fix, K::Rev], [K::Float, K::Rev, K::Pris]];
    let tree = |ks: &[K]| RTree { j: ks.iter().enumerate().map(|(i, k)| rj(*k, AXES[i], os[i])).collect(), p: (0..ks.len()).map(|i| i.checked_sub(1)).collect() };
    let sp = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 0.0, -0.0, 1e30, -1e-30, 1.0];
    ck.space(&format!("bad_readings_{}", T::NAME), 4 * 9 * 8 * 9 * 8, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let ks = kinds[d.n(4)];
        let r = tree(&ks);
        let tr = r.build::<4, 10, T>()?;
        let mut c = [0.5; 10];
        let (a, x, b, y) = (d.n(9), d.pick(&sp), d.n(9), d.pick(&sp));
        c[a] = x;
        c[b] = y;
        let mut al = vec![];
        for k in 0..3 {
            let w = if ks[k] == K::Float { 7 } else { 1 };
            if ks[k] != K::Fix && c[r.off(k)..r.off(k) + w].iter().any(|v| !v.is_finite()) {
                al.push(E::NonFinite);
            }
        }
        if ks[0] == K::Float {
            // huge components overflow the square of the length; the direction cannot be taken
            let n: f64 = c[3..7].iter().map(|v| v * v).sum::<f64>();
            if n == 0.0 || (T::IS32 && c[3..7].iter().any(|v| v.abs() > 1e18)) {
                al.push(E::OrientationHasNoDirection);
            }
        }
        let st = verdict(tr.forward_kinematics(&Vector::new(ta(c))), &al, &format!("configuration {c:?}"))?;
        if let Some(s) = st {
            // a turn whose square leaves the number range has no direction left to speak of
            let huge = (0..3).any(|k| matches!(ks[k], K::Rev | K::Cont) && c[r.off(k)].abs() > 1e18);
            for p in s.poses().iter().filter(|_| !(T::IS32 && huge)) {
                let q = ga(p.rotation().quaternion().as_array());
                let n = q.iter().map(|v| v * v).sum::<f64>();
                ensure!((n - 1.0).abs() < 1e-4, "rotation is not unit: {q:?} at {c:?}");
            }
        }
        Ok(al.len() as u64)
    });
    // states of a tree with another number of joints are refused
    ck.space(&format!("foreign_states_{}", T::NAME), 5 * 5 * 7, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let (n, m, tool) = (d.n(5), d.n(5), d.n(7));
        let ks = [K::Rev; 4];
        let a = tree(&ks[..n]).build::<4, 4, T>()?;
        let b = tree(&ks[..m]).build::<4, 4, T>()?;
        let q = Vector::new([t::<T>(0.3); 4]);
        let st = b.forward_kinematics(&q).map_err(|e| format!("{e:?}"))?;
        let mut al = vec![];
        if tool >= n {
            al.push(E::ToolIndexOutOfRange);
        }
        if n != m {
            al.push(E::StateShapeMismatch);
        }
        verdict(a.geometric_jacobian(&st, tool, JacobianFrame::World), &al, "state of another tree")?;
        let al2 = if tool >= n { vec![E::ToolIndexOutOfRange] } else { vec![] };
        verdict(a.geometric_jacobian_at(&q, tool, JacobianFrame::Body), &al2, "tool index")?;
        Ok(al.len() as u64)
    });
    let vals = [0.0, 1.0, 3.0, -3.0, 6.0];
    let qs: [[f64; 4]; 5] = [[1.0, 0.0, 0.0, 0.0], [-1.0, 0.0, 0.0, 0.0], [0.6, 0.8, 0.0, 0.0], [0.5, -0.5, 0.5, 0.5], [0.2, 0.0, 0.0, -1.4]];
    ck.space(&format!("distance_{}", T::NAME), 4 * 25 * 25 * 25 * 25, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let ks = kinds[d.n(4)];
        let r = tree(&ks);
        let tr = r.build::<4, 10, T>()?;
        let mut a = [0.25; 10];
        let mut b = [0.25; 10];
        let mut want = 0.0;
        for k in 0..3 {
            let o = r.off(k);
            if ks[k] == K::Float {
                let (q, p) = (d.pick(&qs), d.pick(&qs));
                let (x, y) = (d.pick(&vals), d.pick(&vals));
                a[o..o + 7].copy_from_slice(&[x, 0.0, 1.0, q[0], q[1], q[2], q[3]]);
                b[o..o + 7].copy_from_slice(&[y, 0.5, 1.0, p[0], p[1], p[2], p[3]]);
                let rel = qmul(qconj(qnormed(q)), qnormed(p));
                let ang = 2.0 * norm3([rel[1], rel[2], rel[3]]).atan2(rel[0].abs());
                want += (x - y).powi(2) + 0.25 + ang * ang;
            } else {
                let (x, y) = (d.pick(&vals), d.pick(&vals));
                a[o] = x;
                b[o] = y;
                let mut e: f64 = x - y;
                if ks[k] == K::Cont {
                    e = e.sin().atan2(e.cos());
                }
                if ks[k] != K::Fix {
                    want += e * e;
                }
            }
        }
        let (va, vb) = (Vector::<10, T>::new(ta(a)), Vector::<10, T>::new(ta(b)));
        let got = g(tr.configuration_distance(&va, &vb));
        ensure_close!(got, want.sqrt(), T::EPS * 40.0, T::EPS * 40.0, "distance between {a:?} and {b:?}");
        ensure_close!(g(tr.configuration_distance(&vb, &va)), got, T::EPS * 8.0, T::EPS * 8.0, "distance the other way");
        ensure!(g(tr.configuration_distance(&va, &va)) <= T::EPS * 8.0, "distance to itself");
        Ok(hf(&[want]))
    });
}

/// Arms at chosen readings: damped inverse, projector, singular values, singularity kinds.
fn arms() -> Vec<(&'static str, RTree)> {
    let o = |x: f64, y: f64, z: f64| (ID.0, [x, y, z]);
    let chain = |v: Vec<RJ>| {
        let n = v.len();
        RTree { j: v, p: (0..n).map(|i| i.checked_sub(1)).collect() }
    };
    let (x, y, z) = ([1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]);
    vec![
        ("planar", chain(vec![rj(K::Rev, z, ID), rj(K::Rev, z, o(1.0, 0.0, 0.0)), rj(K::Rev, z, o(0.7, 0.0, 0.0)), rj(K::Fix, z, o(0.4, 0.0, 0.0))])),
        ("six", chain(vec![rj(K::Rev, z, ID), rj(K::Rev, y, o(0.0, 0.0, 0.5)), rj(K::Rev, y, o(0.6, 0.0, 0.0)), rj(K::Rev, x, o(0.5, 0.0, 0.0)), rj(K::Rev, y, ID), rj(K::Rev, x, o(0.1, 0.0, 0.0)), rj(K::Fix, x, o(0.1, 0.05, 0.0))])),
        ("gantry", chain(vec![rj(K::Pris, x, ID), rj(K::Pris, y, ID), rj(K::Pris, z, ID), rj(K::Cont, z, ID), rj(K::Cont, y, ID), rj(K::Cont, x, ID)])),
        ("seven", chain(vec![rj(K::Rev, z, ID), rj(K::Rev, y, o(0.0, 0.0, 0.4)), rj(K::Rev, z, o(0.0, 0.0, 0.3)), rj(K::Rev, y, o(0.1, 0.0, 0.3)), rj(K::Rev, z, o(0.0, 0.0, 0.3)), rj(K::Rev, y, o(0.0, 0.0, 0.2)), rj(K::Rev, x, o(0.1, 0.0, 0.1))])),
        ("free", chain(vec![rj(K::Float, z, ID), rj(K::Rev, y, o(0.2, 0.0, 0.1)), rj(K::Pris, x, o(0.3, 0.0, 0.0))])),
    ]
}
fn inverses<T: Fl>(ck: &Ck) {
    const C: usize = 10;
    let ar = arms();
    let reads = [0.0, 0.4, -1.1];
    let weights = [1.0, 0.25, 5.0];
    let damps = [0.0, 1e-3, 0.1, 2.0];
    ck.space(&format!("inverses_{}", T::NAME), 5 * 243 * 9 * 4, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let (name, r) = &ar[d.n(5)];
        let mut c = [0.0; C];
        let rd: [f64; 5] = d.arr(&reads);
        for (k, v) in c.iter_mut().enumerate() {
            *v = rd[k % 5] + 0.05 * (k / 5) as f64;
        }
        if r.floating() {
            c[3..7].copy_from_slice(&[0.9, rd[0], rd[1], rd[2]]);
        }
        let (w0, w1) = (d.pick(&weights), d.pick(&weights));
        let lam = d.pick(&damps);
        let tr = r.build::<8, C, T>()?;
        let q = Vector::<C, T>::new(ta(c));
        let ja = tr.geometric_jacobian_at(&q, r.j.len() - 1, JacobianFrame::World).map_err(|e| format!("{e:?}"))?;
        let m = mm(&ja.matrix());
        let n = r.vel();
        // slots past the active columns are not validated
        let w: [f64; C] = std::array::from_fn(|k| if k >= n { -1.0 } else if k % 2 == 0 { w0 } else { w1 });
        let wv = Vector::<C, T>::new(ta(w));
        let gram = fmul(&m, &ft(&m));
        let (ev, evec) = feig(&gram);
        let top = ev[5].sqrt();
        let smin = ev[0].max(0.0).sqrt();
        let got = g(ja.smallest_singular_value().map_err(|e| format!("{e:?}"))?);
        // taken through the Gram matrix: an error of a few eps in its eigenvalue
        let err = T::EPS * 60.0 * ev[5];
        ensure!((got * got - smin * smin).abs() <= err && got >= 0.0, "{name}: smallest singular value {got}, expected {smin}, largest {top}");
        for th in [1e-4, 1e-2, 0.1, 1.0, 100.0] {
            let k = ja.classify_singularity(t(th)).map_err(|e| format!("{e:?}"))?;
            if smin * smin - err > th * th * (1.0 + 1e-5) {
                ensure_eq!(k, SingularityKind::None, "{name}: smallest singular value {smin} against {th}");
            } else if smin * smin + err < th * th * (1.0 - 1e-5) {
                ensure!(k != SingularityKind::None, "{name}: smallest singular value {smin} under {th} called full rank");
                if ev[1] - ev[0] > 1e3 * err {
                    let lin: f64 = (0..3).map(|r| evec[r][0].powi(2)).sum();
                    let slack = 1e-2;
                    if lin > 2.0 / 3.0 + slack {
                        ensure_eq!(k, SingularityKind::Positional, "{name}: direction {lin} linear");
                    } else if lin < 1.0 / 3.0 - slack {
                        ensure_eq!(k, SingularityKind::Rotational, "{name}: direction {lin} linear");
                    } else if lin > 1.0 / 3.0 + slack && lin < 2.0 / 3.0 - slack {
                        ensure_eq!(k, SingularityKind::Mixed, "{name}: direction {lin} linear");
                    }
                }
            }
        }
        // X solves X (J W^-1 J' + l^2 I) = W^-1 J'
        let wi: M = (0..C).map(|a| (0..C).map(|b| if a == b && a < n { 1.0 / w[a] } else { 0.0 }).collect()).collect();
        let wt = fmul(&wi, &ft(&m));
        let s = fadd(&fmul(&m, &wt), &fscale(&feye(6), lam * lam));
        let (sv, _) = feig(&s);
        let x = mm(&ja.damped_pseudo_inverse(&wv, t(lam)).map_err(|e| format!("{e:?}"))?);
        for k in n..C {
            ensure!(x[k].iter().all(|v| *v == 0.0), "{name}: inactive rows of the inverse");
        }
        let p = mm(&ja.null_space_projector(&wv, t(lam)).map_err(|e| format!("{e:?}"))?);
        mclose(&p, &fsub(&feye(C), &fmul(&x, &m)), T::EPS * 200.0 * (1.0 + fmax_abs(&x) * fmax_abs(&m)), "null_space_projector")?;
        // rank decided by the code where the spectrum has a clear gap only
        let clear = sv.iter().all(|v| *v > sv[5] * T::EPS * 1e5 || *v < sv[5] * T::EPS * 20.0);
        let small = sv.iter().filter(|v| **v > sv[5] * T::EPS * 1e5).fold(f64::MAX, |a, b| a.min(*b));
        let cond = sv[5] / small;
        if lam > 0.0 && sv[0] > sv[5] * T::EPS * 1e4 {
            let want = fmul(&wt, &finv(&s).ok_or("reference")?);
            mclose(&x, &want, T::EPS * 200.0 * cond * fmax_abs(&want).max(1.0), &format!("{name}: damped inverse, damping {lam}"))?;
        }
        if lam == 0.0 && clear && cond * T::EPS < 1e-4 {
            let tol = T::EPS * 300.0 * cond * top.max(1.0) * fmax_abs(&x).max(1.0);
            mclose(&fmul(&fmul(&m, &x), &m), &m, tol, &format!("{name}: J X J"))?;
            mclose(&fmul(&fmul(&x, &m), &x), &x, tol * fmax_abs(&x).max(1.0), &format!("{name}: X J X"))?;
            mclose(&fmul(&m, &p), &fscale(&m, 0.0), tol, &format!("{name}: J P"))?;
            mclose(&fmul(&p, &p), &p, tol * fmax_abs(&p).max(1.0), &format!("{name}: P P"))?;
            // least weighted norm: W X J is symmetric
            let wm: M = (0..n).map(|a| (0..n).map(|b| if a == b { w[a] } else { 0.0 }).collect()).collect();
            let xj: M = fmul(&x, &m).iter().take(n).map(|v| v[..n].to_vec()).collect();
            let wx = fmul(&wm, &xj);
            mclose(&wx, &ft(&wx), tol * 5.0, &format!("{name}: W X J symmetric"))?;
        }
        Ok(hf(&[smin, lam, fmax_abs(&x)]))
    });
    // weights
    let ws = [1.0, 0.0, -0.0, -1.0, f64::NEG_INFINITY, f64::NAN, 1e30, 2.5];
    ck.space(&format!("weights_{}", T::NAME), 5 * 10 * 8, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let (name, r) = &ar[d.n(5)];
        let (slot, x) = (d.n(C), d.pick(&ws));
        let mut c = [0.3; C];
        c[0] = 0.7;
        let tr = r.build::<8, C, T>()?;
        let ja = tr.geometric_jacobian_at(&Vector::new(ta(c)), r.j.len() - 1, JacobianFrame::Body).map_err(|e| format!("{e:?}"))?;
        let mut w = [1.0; C];
        w[slot] = x;
        let wv = Vector::<C, T>::new(ta(w));
        let bad = slot < r.vel() && !(x > 0.0);
        for lam in [0.0, 0.1] {
            let a = ja.damped_pseudo_inverse(&wv, t(lam));
            let b = ja.null_space_projector(&wv, t(lam));
            ensure_eq!((a.is_err(), b.is_err()), (bad, bad), "{name}: weight {x} in slot {slot} of {} columns: {a:?}", r.vel());
            if bad && !x.is_nan() {
                ensure_eq!((a.err(), b.err()), (Some(E::NonPositiveWeight), Some(E::NonPositiveWeight)), "weight {x}");
            }
            if let Ok(a) = a {
                ensure!(a.is_finite(), "{name}: inverse is not finite for weight {x}");
            }
        }
        Ok(bad as u64)
    });
}

/// The same tree with its lengths, its axes and the weights of its motors in other units: the same numbers in those units.
fn units<T: Fl>(ck: &Ck) {
    let us: [i32; 7] = if T::IS32 { [3, 20, -20, 40, -40, 55, -55] } else { [3, 100, -100, 300, -300, 450, -450] };
    let os = origins();
    let reads: [[f64; 4]; 2] = [[0.7, -1.2, 2.5, 0.3], [-3.5, 0.4, 1.0, 0.125]];
    ck.space(&format!("units_{}", T::NAME), 7 * 7 * 24 * 5 * 64 * 2, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let (lu, au) = (2f64.powi(d.pick(&us)), 2f64.powi(d.pick(&us)));
        let cfgi = d.n(2);
        let par: Vec<Option<usize>> = (0..4).map(|k| d.n(k + 1)).map(|x| x.checked_sub(1)).collect();
        let kinds: Vec<K> = (0..4).map(|k| KINDS[d.n(if k == 0 { 5 } else { 4 })]).collect();
        let rdv = |v: V3| v.map(|x| g(t::<T>(x)));
        let go = |l: f64, a: f64| -> Result<(Vec<f64>, Vec<[f64; 6]>), String> {
            let r = RTree {
                j: (0..4)
                    .map(|k| {
                        let o = os[(k + cfgi) % 4];
                        RJ { k: kinds[k], axis: sc3(rdv(AXES[(k + kinds[k] as usize) % 5]), a), anchor: if k % 2 == 0 { sc3(rdv([0.2, -0.1, 0.4]), l) } else { [0.0; 3] }, origin: (o.0, sc3(rdv(o.1), l)), zero: [0.0, 0.375][k % 2] * if kinds[k] == K::Pris { l } else { 1.0 } }
                    })
                    .collect(),
                p: par.clone(),
            };
            let mut c = vec![];
            for (k, j) in r.j.iter().enumerate() {
                if j.k == K::Float {
                    c.extend(sc3([0.25, -1.0, 2.0], l));
                    c.extend([0.5, -0.5, 1.5, 0.125]);
                } else {
                    c.push(g(t::<T>(reads[cfgi][k])) * if j.k == K::Pris { l } else { 1.0 });
                }
            }
            c.resize(12, 0.0);
            let tr = r.build::<5, 12, T>()?;
            let q = Vector::<12, T>::new(std::array::from_fn(|k| t(c[k])));
            let st = tr.forward_kinematics(&q).map_err(|e| format!("forward kinematics in a unit of {l:e}: {e:?}"))?;
            let mut out = vec![];
            for p in st.poses() {
                let (q, x) = pose_of(*p);
                out.extend(q);
                out.extend(sc3(x, 1.0 / l));
            }
            let mut cols = vec![];
            for f in [JacobianFrame::World, JacobianFrame::Body] {
                for tool in 0..4 {
                    let ja = tr.geometric_jacobian(&st, tool, f).map_err(|e| format!("{e:?}"))?;
                    for k in 0..r.vel() {
                        let x = ga(ja.column(k).ok_or("column")?.as_array());
                        let x: [f64; 6] = x.to_vec().try_into().map_err(|_| "column length")?;
                        cols.push(x);
                    }
                }
            }
            Ok((out, cols))
        };
        let ((a, ca), (b, cb)) = (go(1.0, 1.0)?, go(lu, au)?);
        op(1);
        let e = T::EPS * 100.0;
        vclose(&b, &a, e * 20.0, &format!("poses in a unit of {lu:e}, axes of {au:e}"))?;
        for (k, (x, y)) in ca.iter().zip(&cb).enumerate() {
            // a column that turns nothing is a slide, whose part along has no length in it
            let l = if x[3..].iter().all(|v| v.abs() <= e) { 1.0 } else { lu };
            for j in 0..6 {
                let v = if j < 3 { y[j] / l } else { y[j] };
                ensure!((v - x[j]).abs() <= e * 20.0, "row {j} of column {k} over all frames is {v} in a unit of {lu:e} with axes of {au:e}, {} in plain units", x[j]);
            }
        }
        Ok(hf(&a))
    });
    // only the ratios of the weights matter, once the damping is counted in the same unit
    const C: usize = 10;
    let ar = arms();
    let us: [i32; 6] = if T::IS32 { [1, 4, -4, 10, -10, 15] } else { [1, 10, -10, 40, -40, 100] };
    ck.space(&format!("weight_units_{}", T::NAME), 5 * 27 * 6 * 2 * 3, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let (name, r) = &ar[d.n(5)];
        let x: [f64; 3] = d.arr(&[0.25, 0.4, -1.1]);
        let h = 2f64.powi(d.pick(&us));
        let body = d.n(2) == 1;
        let lam = d.pick(&[0.0, 0.0625, 1.0]);
        let mut c: [f64; C] = std::array::from_fn(|k| x[k % 3] + 0.0625 * (k / 3) as f64);
        if r.floating() {
            c[3..7].copy_from_slice(&[0.9, x[0], x[1], x[2]])
        }
        let tr = r.build::<8, C, T>()?;
        let ja = tr.geometric_jacobian_at(&Vector::new(ta(c)), r.j.len() - 1, if body { JacobianFrame::Body } else { JacobianFrame::World }).map_err(|e| format!("{e:?}"))?;
        let m = mm(&ja.matrix());
        let (ev, _) = feig(&fmul(&m, &ft(&m)));
        // undamped, only where the rank is beyond doubt
        if lam == 0.0 && ev[0] < ev[5] * 1e-4 {
            return Ok(0);
        }
        let go = |h: f64| {
            let w = Vector::<C, T>::new(std::array::from_fn(|k| t([1.0, 0.25, 4.0][k % 3] * h * h)));
            ja.damped_pseudo_inverse(&w, t(lam / h)).map(|x| mm(&x)).map_err(|e| format!("{name}: refused with weights of {:e}: {e:?}", h * h))
        };
        let (a, b) = (go(1.0)?, go(h)?);
        mclose(&b, &a, T::EPS * 400.0 * (ev[5] / ev[0].max(lam * lam)) * (1.0 + fmax_abs(&a)), &format!("{name}: inverse with weights of {:e} and damping {lam} with them", h * h))?;
        Ok(hf(&a[0]))
    });
}

fn main() {
    let ck = Ck::new("C20");
    trees::<f64>(&ck);
    trees::<f32>(&ck);
    building::<f64>(&ck);
    building::<f32>(&ck);
    queries::<f64>(&ck);
    queries::<f32>(&ck);
    units::<f64>(&ck);
    units::<f32>(&ck);
    inverses::<f64>(&ck);
    inverses::<f32>(&ck);
    ck.finish();
}
