//! Comparing a loaded robot with the independent reading of the same document.
use crate::kin::*;
use crate::num::*;
use crate::refmodel::*;
use crate::xmlref::*;
use crate::*;
use multicalc::kinematics::*;
use multicalc::linear_algebra::Vector;
use multicalc_robot_model::*;

pub fn kind(k: K) -> JointKind {
    match k {
        K::Rev => JointKind::Revolute,
        K::Cont => JointKind::Continuous,
        K::Pris => JointKind::Prismatic,
        K::Fix => JointKind::Fixed,
        K::Float => JointKind::Floating,
    }
}
/// the joint of one body, as the tree should hold it
pub fn slot(b: &RBody) -> RJ {
    match &b.joint {
        None => rj(K::Fix, [1.0, 0.0, 0.0], b.pose),
        Some(j) if j.k == K::Float => rj(K::Float, [1.0, 0.0, 0.0], ([1.0, 0.0, 0.0, 0.0], [0.0; 3])),
        Some(j) => {
            let mut r = rj(j.k, j.axis, b.pose);
            r.zero = j.n[0];
            if j.k != K::Pris { r.anchor = j.anchor }
            r
        }
    }
}
pub fn error_name(e: &ModelError) -> String {
    let s = format!("{e:?}");
    s.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string()
}
/// The loader's answer against the reading's.
pub fn agree(got: Result<RobotModel, ModelError>, want: &Result<RModel, Bad>, format: ModelFormat) -> Result<Option<RobotModel>, String> {
    match (got, want) {
        (Ok(m), Ok(w)) => {
            same(&m, w, format)?;
            Ok(Some(m))
        }
        (Ok(_), Err(b)) => Err(format!("loaded, though it should be refused for one of {b:?}")),
        (Err(e), Ok(_)) => Err(format!("refused with {e:?}, though nothing is wrong")),
        (Err(e), Err(b)) => {
            let n = error_name(&e);
            ensure!(b.iter().any(|x| x.0 == n), "refused with {e:?}, expected one of {b:?}");
            let s = format!("{e:?}");
            ensure!(n == "BadAttribute" || b.iter().any(|x| x.0 == n && s.contains(&format!("{:?}", x.1).trim_matches('"').to_string())), "refused with {e:?}, which does not name one of {b:?}");
            ensure!(!e.to_string().is_empty(), "no message for {e:?}");
            Ok(None)
        }
    }
}
const TOL: f64 = 1e-12;
pub fn same(m: &RobotModel, w: &RModel, format: ModelFormat) -> Result<(), String> {
    ensure!(m.name() == w.name && m.format() == format, "called {} of {:?}, expected {}", m.name(), m.format(), w.name);
    ensure!(m.body_count() == w.bodies.len() && m.bodies().len() == w.bodies.len(), "{} bodies, expected {}", m.body_count(), w.bodies.len());
    ensure!(m.has_floating_base() == w.floating, "floating base {}", m.has_floating_base());
    ensure!(m.ignored() == w.ignored, "passed over {:?}, expected {:?}", m.ignored(), w.ignored);
    ensure!(m.movable_joint_count() == w.bodies.iter().filter(|b| b.joint.is_some()).count(), "movable joints {}", m.movable_joint_count());
    ensure!(m.body(w.bodies.len()).is_none() && m.body_named("no such body").is_none(), "a body beyond the last");
    for (i, b) in w.bodies.iter().enumerate() {
        let x = m.body(i).ok_or("body missing")?;
        let what = format!("body {i} {:?}", b.name);
        ensure!(x.name() == b.name && x.parent() == b.parent, "{what} is {:?} under {:?}, expected under {:?}", x.name(), x.parent(), b.parent);
        let first = w.bodies.iter().position(|o| o.name == b.name).unwrap();
        ensure!(m.body_named(&b.name) == m.body(first), "{what} by name");
        pose_close(x.pose(), b.pose, TOL, &what)?;
        match (x.inertia(), &b.inertia) {
            (None, None) => {}
            (Some(g), Some((mass, c, t))) => {
                ensure_close!(g.mass(), *mass, TOL, 0.0, "mass of {what}");
                let c2 = *g.center_of_mass().as_array();
                for k in 0..3 { ensure_close!(c2[k], c[k], TOL, TOL * norm3(*c), "balance point of {what}") }
                let size = (0..3).map(|k| t[k][k].abs()).fold(0.0, f64::max);
                for r in 0..3 { for k in 0..3 { ensure_close!(g.rotational_inertia()[(r, k)], t[r][k], TOL, TOL * size, "inertia {r} {k} of {what}") } }
            }
            _ => return Err(format!("inertia of {what} is {:?}, expected {:?}", x.inertia(), b.inertia)),
        }
        match (x.joint(), &b.joint) {
            (None, None) => {}
            (Some(g), Some(j)) => {
                ensure!(g.name() == j.name && g.kind() == kind(j.k), "joint of {what} is {:?} {:?}, expected {j:?}", g.name(), g.kind());
                for k in 0..3 {
                    ensure_close!(g.axis()[k], j.axis[k], TOL, TOL, "axis of {what}");
                    ensure_close!(g.anchor()[k], j.anchor[k], TOL, 0.0, "anchor of {what}");
                }
                match (g.limits(), j.limits) {
                    (None, None) => {}
                    (Some(a), Some(b)) => {
                        ensure_close!(a.0, b.0, TOL, 0.0, "lower limit of {what}");
                        ensure_close!(a.1, b.1, TOL, 0.0, "upper limit of {what}");
                    }
                    (a, b) => return Err(format!("limits of {what} are {a:?}, expected {b:?}")),
                }
                let n = [g.zero_offset(), g.armature(), g.damping(), g.friction_loss(), g.spring_reference(), g.spring_stiffness()];
                for k in 0..6 { ensure_close!(n[k], j.n[k], TOL, 0.0, "setting {k} of {what}") }
                let mm = g.mimic().map(|m| (m.joint().to_string(), m.multiplier(), m.offset()));
                ensure!(mm == j.mimic, "{what} follows {mm:?}, expected {:?}", j.mimic);
            }
            _ => return Err(format!("joint of {what} is {:?}, expected {:?}", x.joint(), b.joint)),
        }
    }
    Ok(())
}
/// The chain of bodies from the root down to one.
pub fn chain(w: &RModel, tip: usize) -> Vec<usize> {
    let mut p = vec![tip];
    while let Some(x) = w.bodies[p[0]].parent { p.insert(0, x) }
    p
}
pub fn rtree(w: &RModel, slots: &[usize]) -> RTree {
    RTree { j: slots.iter().map(|i| slot(&w.bodies[*i])).collect(), p: slots.iter().map(|i| w.bodies[*i].parent.and_then(|p| slots.iter().position(|s| *s == p))).collect() }
}
/// Whether a tree of these slots can be built, and the error if not.
pub fn tree_refusal(w: &RModel, slots: &[usize], joints: usize, config: usize) -> Option<Vec<&'static str>> {
    let mut bad = vec![];
    if slots.iter().any(|i| w.bodies[*i].joint.as_ref().is_some_and(|j| j.mimic.is_some())) { return Some(vec!["MimicJointInTree"]) }
    if slots.len() > joints { bad.push("TreeCapacityExceeded") }
    for (k, i) in slots.iter().enumerate() {
        if w.bodies[*i].pose.1.iter().chain(&w.bodies[*i].pose.0).any(|x| !x.is_finite()) { bad.push("NonFinite") }
        if let Some(j) = &w.bodies[*i].joint {
            if j.anchor.iter().any(|x| !x.is_finite()) { bad.push("NonFinite") }
            if j.k == K::Float && k > 0 { bad.push("FloatingJointNotAtRoot") }
            if j.limits.is_some_and(|l| !l.0.is_finite() || !l.1.is_finite()) || j.n[..4].iter().any(|x| !x.is_finite()) { bad.push("NonFinite") }
            if j.limits.is_some_and(|l| l.0 > l.1) { bad.push("LimitsReversed") }
        }
    }
    if rtree(w, slots).cfg() > config { bad.push("ConfigurationCapacityExceeded") }
    if bad.is_empty() { None } else { Some(bad) }
}
pub fn check_tree<const J: usize, const C: usize>(got: Result<KinematicTree<J, C>, ModelError>, w: &RModel, slots: &[usize], what: &str) -> Result<(), String> {
    match (got, tree_refusal(w, slots, J, C)) {
        (Ok(t), None) => fk_same(&t, w, slots, 1e-11, what),
        (Err(e), Some(b)) => {
            let s = format!("{e:?}");
            ensure!(b.iter().any(|n| s.contains(n)), "{what}: {s}, expected one of {b:?}");
            Ok(())
        }
        (Ok(_), Some(b)) => Err(format!("{what}: a tree, though {b:?}")),
        (Err(e), None) => Err(format!("{what}: no tree: {e:?}")),
    }
}
pub fn fk_same<const J: usize, const C: usize, T: Fl>(t: &KinematicTree<J, C, T>, w: &RModel, slots: &[usize], tol: f64, what: &str) -> Result<(), String> {
    let r = rtree(w, slots);
    ensure!(t.len() == slots.len() && t.config_len() == r.cfg(), "{what}: {} slots, {} readings", t.len(), t.config_len());
    for (k, i) in slots.iter().enumerate() {
        let g = t.joint(k).ok_or("no joint")?;
        let b = &w.bodies[*i];
        ensure!(g.kind() == b.joint.as_ref().map_or(JointKind::Fixed, |j| kind(j.k)), "{what}: slot {k} is {:?}", g.kind());
        ensure!(t.parent(k) == Some(par(r.p[k])), "{what}: slot {k} hangs off {:?}", t.parent(k));
        if let Some(j) = b.joint.as_ref().filter(|j| j.k != K::Float) {
            let n = [g.zero_offset(), g.armature(), g.damping(), g.friction_loss()].map(crate::num::g);
            for q in 0..4 { ensure_close!(n[q], j.n[q], tol, 0.0, "{what}: setting {q} of slot {k}") }
            match (g.limits(), j.limits) {
                (None, None) => {}
                (Some(a), Some(b)) => {
                    ensure_close!(crate::num::g(a.0), b.0, tol, 0.0, "{what}: lower limit of slot {k}");
                    ensure_close!(crate::num::g(a.1), b.1, tol, 0.0, "{what}: upper limit of slot {k}");
                }
                (a, b) => return Err(format!("{what}: limits of slot {k} {a:?}, expected {b:?}")),
            }
        }
    }
    for v in 0..3usize {
        let c: Vec<f64> = (0..r.cfg()).map(|k| [0.0, 0.3 + 0.45 * k as f64, -0.7 + 0.31 * k as f64][v]).collect();
        let mut c = c;
        if r.floating() && v == 0 { c[3] = 1.0 }
        let mut x = [0.0; C];
        x[..c.len()].copy_from_slice(&c);
        op(1);
        let f = t.forward_kinematics(&Vector::new(ta(x))).map_err(|e| format!("{what}: {e:?}"))?;
        for (k, p) in r.fk(&c).iter().enumerate() {
            let size = 1.0 + norm3(p.1);
            pose_close(f.pose(k).ok_or("no pose")?, *p, tol * size, &format!("{what}: pose {k} at reading {v}"))?;
        }
    }
    Ok(())
}
/// Text that is broken anywhere is refused or read as some sound model, never worse
pub fn broken(ck: &Ck, name: &str, texts: &[String], load: &(dyn Fn(&str) -> Result<RobotModel, ModelError> + Sync)) {
    const PUT: &[u8] = b"<>/\"= 0-.&;en\x00\xff";
    let modes = 2 + 2 * PUT.len();
    let dec = |i: u64| {
        // which text, where, what
        let mut at = i;
        for (k, t) in texts.iter().enumerate() {
            let n = (t.len() * modes) as u64;
            if at < n { return (k, (at / modes as u64) as usize, (at % modes as u64) as usize) }
            at -= n;
        }
        unreachable!()
    };
    let total: u64 = texts.iter().map(|t| (t.len() * modes) as u64).sum();
    ck.space(name, total, |i| format!("{:?}", dec(i)), |i| {
        let (k, at, mode) = dec(i);
        let b = texts[k].as_bytes();
        let mut x = b.to_vec();
        match mode {
            0 => x.truncate(at),
            1 => { x.remove(at); }
            m if m < 2 + PUT.len() => x[at] = PUT[m - 2],
            m => x.insert(at, PUT[m - 2 - PUT.len()]),
        }
        let Ok(s) = String::from_utf8(x) else { return Ok(0) };
        op(1);
        match load(&s) {
            Err(e) => { ensure!(!e.to_string().is_empty(), "no message"); Ok(h64(&error_name(&e))) }
            Ok(m) => {
                sound(&m)?;
                Ok(1)
            }
        }
    });
}
/// a model that loaded describes a tree of real bodies
pub fn sound(m: &RobotModel) -> Result<(), String> {
    ensure!(m.body_count() > 0, "no bodies");
    for (i, b) in m.bodies().iter().enumerate() {
        ensure!(b.parent().is_none_or(|p| p < i), "body {i} under {:?}", b.parent());
        if let Some(x) = b.inertia() { ensure!(x.mass() > 0.0 && x.mass().is_finite() && x.rotational_inertia().is_finite(), "mass of {i} is {}", x.mass()) }
    }
    if let Ok(t) = m.kinematic_tree::<8, 14>() {
        let mut c = [0.25; 14];
        c[3] = 1.0;
        let f = t.forward_kinematics(&multicalc::linear_algebra::Vector::new(c)).map_err(|e| format!("{e:?}"))?;
        for k in 0..t.len() { ensure!(f.pose(k).is_some_and(|p| p.translation().is_finite()), "pose {k} is not finite") }
    }
    Ok(())
}
