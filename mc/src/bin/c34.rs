//! C34: MJCF documents load as MuJoCo reads them, or are refused by name.
use mc::robot::*;
use mc::xmlref::*;
use mc::*;
use multicalc_robot_model::*;
use std::path::{Path, PathBuf};

fn load(doc: &El) -> Result<RobotModel, ModelError> {
    op(1);
    mjcf::load_str(&doc.text())
}
fn verdict_of(doc: &El) -> Res {
    let want = mjcf(doc);
    agree(load(doc), &want, ModelFormat::Mjcf)?;
    Ok(h64(&match &want { Ok(w) => format!("{w:?}"), Err(b) => format!("{:?}", b.first()) }))
}
fn mass(m: f64) -> El {
    el("inertial").a("mass", ns(&[m])).a("diaginertia", "1 1 1")
}
/// Which settings reach a joint or a shape through the default blocks
fn defaults(ck: &Ck) {
    const JOINT: [&str; 11] = ["type", "axis", "pos", "range", "limited", "armature", "damping", "frictionloss", "ref", "springref", "stiffness"];
    const GEOM: [&str; 7] = ["type", "size", "fromto", "pos", "quat", "mass", "density"];
    let val = |geom: bool, k: &str, level: usize| -> String {
        let x = 0.25 * (level as f64 + 1.0);
        match (geom, k) {
            (false, "type") => ["slide", "hinge", "slide", "hinge", "slide", "hinge"][level].into(),
            (true, "type") => ["box", "ellipsoid", "box", "capsule", "ellipsoid", "box"][level].into(),
            (_, "axis") => ns(&[x, 1.0, -x]),
            (_, "pos") => ns(&[x, 0.0, -x]),
            (_, "range") => ns(&[-x, x * 2.0]),
            (_, "limited") => ["false", "auto", "true", "false", "auto", "true"][level].into(),
            (_, "size") => ns(&[0.5, x, 0.25 + x]),
            (_, "fromto") => ns(&[0.0, x, 0.0, x, 0.5, 1.0]),
            (_, "quat") => ns(&[1.0, x, 0.0, -0.5]),
            _ => ns(&[x]),
        }
    };
    let dec = |i: u64| {
        let mut d = Dig(i);
        (d.n(18), d.arr::<6, bool>(&[false, true]), d.n(4), d.n(4), d.n(5), d.n(3))
    };
    let doc = |i: u64| -> El {
        let (attr, set, c1, c2, own, main) = dec(i);
        let geom = attr >= 11;
        let k = if geom { GEOM[attr - 11] } else { JOINT[attr] };
        let tag = if geom { "geom" } else { "joint" };
        // levels: first block, a, b inside a, second block, c inside it, the element's own
        let put = |e: El, level: usize| if set[level] { e.c(el(tag).a(k, val(geom, k, level))) } else { e };
        let cls = [None, Some("a"), Some("b"), Some("c")];
        let b = put(el("default").a("class", "b"), 2);
        let a = put(el("default").a("class", "a"), 1).c(b);
        let top = put(el("default").oa("class", [None, Some("main"), None][main]), 0).c(a);
        let c = put(el("default").a("class", "c"), 4);
        let second = put(el("default").oa("class", [None, None, Some("main")][main]), 3).c(c);
        let mut e = el(tag).oa("class", [None, Some("a"), Some("b"), Some("c"), Some("main")][own]);
        if set[5] { e = e.a(k, val(geom, k, 5)) }
        let mut inner = el("body").oa("childclass", cls[c2]);
        if geom {
            // what the shape needs besides the setting under test
            if k != "type" { e = e.a("type", if k == "fromto" { "capsule" } else { "box" }) }
            if k != "size" { e = e.a("size", if k == "type" { "0.5 0.25 0.75" } else if k == "fromto" { "0.125" } else { "0.25 0.5 0.75" }) }
            inner = inner.c(e).c(el("geom").a("type", "sphere").a("size", "0.5").a("mass", "2").a("pos", "0 0 0.5"));
        } else {
            inner = inner.c(e).c(mass(1.0));
        }
        let outer = el("body").oa("childclass", cls[c1]).c(mass(1.0)).c(inner);
        el("mujoco").c(el("compiler").a("angle", "radian")).c(top).c(second).c(el("worldbody").c(outer))
    };
    ck.space("defaults", 18 * 64 * 16 * 5 * 3, |i| doc(i).text(), |i| verdict_of(&doc(i)));
    // three settings at once, each stated at a level of its own: none of them speaks for another
    for geom in [false, true] {
        let names: &[&str] = if geom { &GEOM } else { &JOINT };
        let n = names.len();
        let dec = |i: u64| {
            let mut d = Dig(i);
            ([d.n(n), d.n(n), d.n(n)], [d.n(4), d.n(4), d.n(4)], d.n(2))
        };
        let doc = |i: u64| -> El {
            let (which, level, other) = dec(i);
            let tag = if geom { "geom" } else { "joint" };
            let put = |mut e: El, l: usize| {
                for (w, at) in which.iter().zip(level) {
                    if at == l { e = e.a(names[*w], val(geom, names[*w], [0, 1, 2, 5][l])) }
                }
                e
            };
            let some = |l: usize| level.contains(&l).then(|| put(el(tag), l));
            let b = el("default").a("class", "b").cs(some(2));
            let a = el("default").a("class", "a").cs(some(1)).c(b);
            let mut root = el("default").cs(some(0));
            if geom && !which.iter().any(|w| names[*w] == "size") { root = root.c(el("geom").a("size", "0.5 0.25 0.75")) }
            if geom && which.iter().any(|w| names[*w] == "fromto") && !which.iter().any(|w| names[*w] == "type") { root = root.c(el("geom").a("type", "capsule")) }
            let e = put(el(tag).a("class", "b"), 3);
            let mut inner = el("body").c(e);
            if geom { inner = inner.c(el("geom").a("type", "sphere").a("size", "0.5").a("mass", "2")) } else { inner = inner.c(mass(1.0)) }
            el("mujoco").c(el("compiler").a("angle", ["radian", "degree"][other])).c(root.c(a)).c(el("worldbody").c(inner))
        };
        ck.space(if geom { "defaults_together_geom" } else { "defaults_together_joint" }, (n as u64).pow(3) * 128, |i| doc(i).text(), |i| {
            let w = dec(i).0;
            if w[0] == w[1] || w[1] == w[2] || w[0] == w[2] { return Ok(0) }
            verdict_of(&doc(i))
        });
    }
    // names that are never defined, and blocks that are nested without one
    let dec = |i: u64| {
        let mut d = Dig(i);
        (d.n(7), d.n(7), d.n(7), d.n(2), d.n(4), d.n(3))
    };
    let doc = |i: u64| -> El {
        let (c1, c2, own, geom, blocks, between) = dec(i);
        let cls = [None, Some("a"), Some("b"), Some("nowhere"), Some(""), Some("main"), Some("default")];
        let leaf = |k: &str| el("default").a("class", k).c(el("joint").a("damping", "3")).c(el("geom").a("density", "300"));
        let defs = match blocks {
            0 => vec![el("default").c(leaf("a")).c(leaf("b"))],
            1 => vec![el("default").c(leaf("a").c(leaf("b")))],
            2 => vec![el("default").c(leaf("default")).c(leaf("a").c(leaf("b")))],
            _ => vec![el("default").c(leaf("a")).c(el("default").c(el("geom").a("density", "100")).c(leaf("b")))],
        };
        let e = if geom == 1 { el("geom").a("size", "0.5") } else { el("joint") }.oa("class", cls[own]);
        let mut inner = el("body").oa("childclass", cls[c2]).c(e);
        if geom == 0 { inner = inner.c(mass(1.0)) }
        // bodies in between that say nothing of classes pass on what they inherit
        for k in 0..between { inner = el("body").c(mass(2.0 + k as f64)).c(inner) }
        el("mujoco").cs(defs).c(el("worldbody").c(el("body").oa("childclass", cls[c1]).c(mass(1.0)).c(inner)))
    };
    ck.space("class_names", 7 * 7 * 7 * 2 * 4 * 3, |i| doc(i).text(), |i| verdict_of(&doc(i)));
}
/// File-wide settings, repeated sections, and the limits and sources of inertia they govern
fn compiler(ck: &Ck) {
    let dec = |i: u64| {
        let mut d = Dig(i);
        ([d.n(49), d.n(49)], d.n(3), d.n(5), d.n(2), d.n(4), d.n(2))
    };
    let doc = |i: u64| -> El {
        let (c, ty, lim, range, src, tail) = dec(i);
        let section = |k: usize| -> Option<El> {
            if k == 0 { return None }
            let mut d = Dig(k as u64 - 1);
            Some(el("compiler").oa("angle", [None, Some("degree"), Some("radian"), Some("turns")][d.n(4)])
                .oa("autolimits", [None, Some("true"), Some("false")][d.n(3)]).oa("inertiafromgeom", [None, Some("auto"), Some("true"), Some("false")][d.n(4)]))
        };
        let j = el("joint").a("name", "turn").oa("type", [None, Some("hinge"), Some("slide")][ty])
            .oa("limited", [None, Some("auto"), Some("true"), Some("false"), Some("maybe")][lim])
            .oa("range", [None, Some("-0.5 45")][range]).a("ref", "10").a("springref", "-20").a("stiffness", "3").a("armature", "0.5").a("damping", "0.25");
        let mut b = el("body").a("name", "arm").a("pos", "0 1 0.5").c(j);
        if src & 1 == 1 { b = b.c(mass(2.0)) }
        if src & 2 == 2 { b = b.c(el("geom").a("size", "0.25")) }
        let world = el("worldbody").c(b);
        let r = el("mujoco");
        // a later section says the last word, wherever it stands
        let [x, y] = c.map(section);
        if tail == 1 { r.cs(x).c(world).cs(y) } else { r.cs(x).cs(y).c(world) }
    };
    ck.space("compiler", 49 * 49 * 30 * 8, |i| doc(i).text(), |i| verdict_of(&doc(i)));
    // settings that would change the masses are taken only at the value that does not
    let values = [None, Some("-1"), Some("0"), Some("0 5"), Some("5 0"), Some("0 4"), Some("1 5"), Some("0 5 5"), Some("0.0"), Some("-0"), Some("1e-9"), Some(" -1.0 "), Some("0\t5"), Some(""), Some("x"), Some("0 x"), Some("true"), Some("false"), Some("nan")];
    let settings = ["settotalmass", "boundmass", "boundinertia", "inertiagrouprange", "balanceinertia"];
    let dec = |i: u64| {
        let mut d = Dig(i);
        ([d.n(5), d.n(5)], [d.n(19), d.n(19)], d.n(2))
    };
    let doc = |i: u64| -> El {
        let (k, v, apart) = dec(i);
        let b = el("worldbody").c(el("body").c(el("geom").a("size", "0.5")));
        let one = |e: El, n: usize| e.oa(settings[k[n]], values[v[n]]);
        if apart == 1 { el("mujoco").c(one(el("compiler"), 0)).c(b).c(one(el("compiler"), 1)) } else { el("mujoco").c(one(one(el("compiler"), 0), 1)).c(b) }
    };
    ck.space("compiler_masses", 25 * 361 * 2, |i| doc(i).text(), |i| {
        let (k, _, apart) = dec(i);
        if k[0] == k[1] && apart == 0 { return Ok(0) }
        verdict_of(&doc(i))
    });
}
fn pose_at(k: usize) -> (String, String) {
    (ns(&[0.5 - 0.25 * k as f64, 0.125 * k as f64, 0.75]), ns(&[1.0, 0.5 - 0.25 * k as f64, 0.25, 0.125 * k as f64]))
}
/// Every shape of body tree, with every joint on each body
fn trees(ck: &Ck) {
    for n in 1..=ck.q(5usize, 6) {
        let shapes: u64 = (1..=n as u64).product();
        let kinds = 4u64.pow(n as u32);
        let dec = |i: u64| {
            let mut d = Dig(i);
            let parent: Vec<Option<usize>> = (0..n).map(|k| match d.n(k + 1) { 0 => None, p => Some(p - 1) }).collect();
            (parent, (0..n).map(|_| d.n(4)).collect::<Vec<_>>(), d.n(2), d.n(3), d.n(2))
        };
        let doc = |i: u64| -> El {
            let (parent, kind, free, split, same) = dec(i);
            fn make(k: usize, parent: &[Option<usize>], kind: &[usize], free: bool, same: bool) -> El {
                let (p, q) = pose_at(k);
                let mut b = el("body").a("name", if same { format!("b{}", k % 2) } else { format!("b{k}") }).a("pos", p).a("quat", q);
                let j = el("joint").a("name", format!("j{k}")).a("pos", ns(&[0.25, -0.5, 0.125 * k as f64])).a("axis", ns(&[1.0, k as f64 - 1.0, 0.5]));
                let j = match kind[k] {
                    1 => Some(j.a("range", "-90 45").a("ref", "15")),
                    2 => Some(j.a("damping", "0.5")),
                    3 => Some(j.a("type", "slide").a("ref", "0.25").a("armature", "2")),
                    _ => None,
                };
                if free && k == 0 { b = b.c(el("freejoint")) } else { b = b.cs(j) }
                b = b.c(mass(1.0 + k as f64));
                for c in 0..parent.len() { if parent[c] == Some(k) { b = b.c(make(c, parent, kind, free, same)) } }
                b
            }
            let tops: Vec<El> = (0..n).filter(|k| parent[*k].is_none()).map(|k| make(k, &parent, &kind, free == 1, same == 1)).collect();
            let r = el("mujoco").a("model", "grown").c(el("option"));
            match split {
                0 => r.c(el("worldbody").cs(tops)),
                1 => tops.into_iter().fold(r, |r, t| r.c(el("worldbody").c(t))).c(el("actuator")),
                _ => r.c(el("worldbody").c(el("geom").a("type", "plane")).cs(tops.into_iter().map(|t| el("worldbody").c(t)))),
            }
        };
        ck.space(&format!("trees_{n}"), shapes * kinds * 12, |i| doc(i).text(), |i| {
            let d = doc(i);
            let want = mjcf(&d);
            let m = agree(load(&d), &want, ModelFormat::Mjcf)?.ok_or("refused")?;
            let w = want.unwrap();
            let all: Vec<usize> = (0..n).collect();
            check_tree(m.kinematic_tree::<6, 12>(), &w, &all, "whole")?;
            check_tree(m.kinematic_tree::<3, 12>(), &w, &all, "whole in three")?;
            check_tree(m.kinematic_tree::<6, 4>(), &w, &all, "whole in four readings")?;
            for b in 0..n {
                let name = &w.bodies[b].name;
                let b = w.bodies.iter().position(|x| x.name == *name).unwrap();
                let c = chain(&w, b);
                ensure!(m.path_to(name).as_ref() == Ok(&c), "way to {name} is {:?}, expected {c:?}", m.path_to(name));
                check_tree(m.kinematic_tree_to::<6, 12>(name), &w, &c, &format!("chain to {name}"))?;
                check_tree(m.kinematic_tree_to::<2, 8>(name), &w, &c, &format!("chain to {name} in two"))?;
            }
            ensure!(m.path_to("nothing") == Err(ModelError::UnknownBody { name: "nothing".into() }), "{:?}", m.path_to("nothing"));
            ensure!(m.kinematic_tree_to::<6, 12>("nothing").err() == Some(ModelError::UnknownBody { name: "nothing".into() }), "a chain to nothing");
            Ok(h64(&format!("{w:?}")))
        });
    }
}
const QUATS: [[f64; 4]; 10] = [
    [1.0, 0.0, 0.0, 0.0], [0.0, 1.0, 0.0, 0.0], [0.5, 0.5, 0.5, 0.5], [0.7071067811865476, 0.0, 0.7071067811865476, 0.0], [2.0, -1.0, 0.5, 3.0],
    [-0.1, 0.2, 0.0, 0.0], [0.3, 0.4, -0.5, 0.6], [1e-3, 0.0, 0.0, 1e-3], [0.9999, 0.01, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0],
];
/// Stated and measured mass properties
fn masses(ck: &Ck) {
    let one = |b: El| el("mujoco").c(el("worldbody").c(el("body").a("name", "only").c(b)));
    let dec = |i: u64| {
        let mut d = Dig(i);
        (d.n(5), d.n(4), d.n(11), d.n(6), d.n(6), d.n(4))
    };
    let doc = |i: u64| -> El {
        let (m, pos, q, diag, full, scale) = dec(i);
        let k = [1.0, 1e-6, 1e4, 3e7][scale];
        let sc = |v: &[f64]| ns(&v.iter().map(|x| x * k).collect::<Vec<_>>());
        let e = el("inertial").oa("mass", [Some("2.5"), Some("0"), Some("-1"), None, Some("heavy")][m])
            .oa("pos", [None, Some("0.1 -0.2 0.3"), Some("1 2"), Some(" 1e1\t+2  -.5 ")][pos])
            .oa("quat", if q == 10 { None } else { Some(ns(&QUATS[q])) })
            .oa("diaginertia", [None, Some(sc(&[1.0, 1.0, 1.0])), Some(sc(&[0.7, 1.1, 1.3])), Some(sc(&[1.0, 2.0, 0.0])), Some(sc(&[3.0, 3.0, 0.001])), Some("1 2".into())][diag].clone())
            .oa("fullinertia", [None, Some(sc(&[1.0, 2.0, 2.5, 0.1, -0.2, 0.3])), Some(sc(&[1.0, 1.0, 1.0, 0.0, 0.0, 0.0])), Some(sc(&[-1.0, 1.0, 1.0, 0.0, 0.0, 0.0])), Some("1 2 3".into()), Some(sc(&[2.0, 3.0, 4.0, 0.5, 0.25, 0.125]))][full].clone());
        one(e)
    };
    ck.space("stated", 5 * 4 * 11 * 36 * 4, |i| doc(i).text(), |i| verdict_of(&doc(i)));
    // one shape
    let sizes: [&str; 12] = ["0.5", "0.25 0.75", "0.5 0.25 1", "0.05 0.06 0.07", "2 1e-3", "100 40 30", "0", "0.5 0", "0 0.5 1", "-0.5", "0.5 -0.25", "0.5 -0.5 1"];
    let shapes = ["sphere", "ellipsoid", "box", "cylinder", "capsule", "mesh", "plane"];
    let dec = |i: u64| {
        let mut d = Dig(i);
        (d.n(8), d.n(13), d.n(11), d.n(3), d.n(6), d.n(4), d.n(7))
    };
    let shape = |d: (usize, usize, usize, usize, usize, usize, usize)| -> El {
        let (ty, size, q, pos, m, dens, ends) = d;
        el("geom").oa("type", (ty < 7).then(|| shapes[ty])).oa("size", (size < 12).then(|| sizes[size]))
            .oa("quat", if q == 10 { None } else { Some(ns(&QUATS[q])) })
            .oa("pos", [None, Some("0.5 -0.25 1"), Some("nowhere 0 0")][pos])
            .oa("mass", [None, Some("3"), Some("0"), Some("0.001"), Some("-2"), Some("1 2")][m])
            .oa("density", [None, Some("250"), Some("0"), Some("-50")][dens])
            .oa("fromto", [None, Some("0 0 0 0 0 1"), Some("0 0 1 0 0 -2"), Some("0.1 0.2 0.3 -0.5 1 0.25"), Some("1 2 3 1 2 3"), Some("0 0 0 1e-3 0 -5"), Some("0 0 0 1")][ends])
    };
    ck.space("shapes", 8 * 13 * 11 * 3 * 6 * 4 * 7, |i| one(shape(dec(i))).text(), |i| verdict_of(&one(shape(dec(i)))));
    // several shapes make one body
    let dec2 = |i: u64| {
        let mut d = Dig(i);
        let n = 2 + d.n(2);
        let g: Vec<_> = (0..n).map(|k| (d.n(5), d.n(5), [k, 3 + k][d.n(2)])).collect();
        (g, d.n(3))
    };
    let doc = |i: u64| -> El {
        let (g, extra) = dec2(i);
        let mut b = el("body").a("name", "made").a("pos", "1 2 3");
        for (k, (ty, m, at)) in g.iter().enumerate() {
            let (p, q) = pose_at(*at);
            b = b.c(el("geom").a("type", shapes[*ty]).a("size", ["0.5", "0.5 0.25 0.125", "0.25 0.5 0.125", "0.25 0.5", "0.125 0.5"][*ty])
                .a("pos", p).a("quat", q).oa("mass", [None, Some("2"), Some("0"), None, Some("0.25")][*m]).oa("density", if *m == 3 { Some("40") } else { None }));
            if k == 0 && extra == 1 { b = b.c(el("body").c(el("geom").a("size", "1"))) }
        }
        if extra == 2 { b = b.c(el("site")).c(el("geom").a("type", "hfield").a("mass", "0")) }
        el("mujoco").c(el("worldbody").c(b))
    };
    ck.space("built", 2 * 50u64.pow(3) * 3, |i| doc(i).text(), |i| verdict_of(&doc(i)));
}
/// Everything the reader does not take is refused by name, wherever it stands
fn refusals(ck: &Ck) {
    let odd: Vec<El> = vec![
        el("frame").c(el("body").a("name", "hidden").c(mass(1.0))), el("frame").a("pos", "0 0 1"), el("replicate").a("count", "3").c(el("geom").a("size", "1")),
        el("attach").a("model", "m"), el("composite").a("type", "cable"), el("flexcomp").a("type", "grid"),
        el("joint").a("type", "ball"), el("joint").a("type", "free"), el("freejoint"), el("joint").a("limited", "true"), el("joint").a("axis", "0 0 0"),
        el("joint").a("axis", "0 0"), el("joint").a("damping", "thick"), el("joint").a("class", "ghost"), el("joint").a("type", "hinges"),
        el("geom").a("type", "mesh").a("mesh", "m"), el("geom").a("type", "hfield"), el("geom").a("type", "sdf"), el("geom").a("size", "1").a("euler", "0 0 0"),
        el("geom").a("size", "1").a("axisangle", "0 0 1 0"), el("geom").a("size", "1").a("xyaxes", "1 0 0 0 1 0"), el("geom").a("size", "1").a("zaxis", "0 0 1"),
        el("geom").a("size", "1").a("class", "ghost"), el("geom"), el("geom").a("size", "1").a("class", "leaning"), el("geom").a("size", "1").a("class", "leaning").a("mass", "0"),
        el("body").a("euler", "0 0 90").c(mass(1.0)), el("body").a("zaxis", "0 0 1").c(mass(1.0)), el("body").a("axisangle", "1 0 0 3").c(mass(1.0)), el("body").a("xyaxes", "1 0 0 0 1 0").c(mass(1.0)),
        el("body"), el("body").a("quat", "0 0 0 0").c(mass(1.0)), el("body").a("pos", "1 2 3 4").c(mass(1.0)),
        el("body").c(mass(1.0).a("euler", "0 0 0")), el("body").c(mass(1.0).a("zaxis", "0 0 1")), el("body").c(el("inertial").a("mass", "1")),
        el("body").c(el("joint")).c(el("joint")).c(mass(1.0)), el("body").c(el("freejoint")).c(el("joint")).c(mass(1.0)), el("site"), el("camera"), el("light"), el("plugin"), el("include").a("file", "x.xml"),
    ];
    let tops: Vec<El> = vec![
        el("compiler").a("settotalmass", "5"), el("compiler").a("boundmass", "0.1"), el("compiler").a("boundinertia", "0.1"), el("compiler").a("balanceinertia", "true"), el("compiler").a("inertiagrouprange", "0 1"),
        el("compiler").a("meshdir", "x"), el("asset"), el("tendon"), el("equality"), el("keyframe"), el("sensor"), el("include").a("file", "x.xml"), el("default").c(el("default")), el("default").c(el("default").a("class", "")),
        el("default").c(el("geom").a("size", "big")), el("default").c(el("joint").a("range", "1")), el("worldbody"), el("extension"), el("compiler").a("inertiafromgeom", "false"), el("compiler").a("inertiafromgeom", "true"),
    ];
    let places = 6;
    let n = odd.len() + 1;
    let k = tops.len() + 1;
    let doc = |i: u64| -> El {
        let mut d = Dig(i);
        let (o, p, t, before, src) = (d.n(n), d.n(places), d.n(k), d.n(2), d.n(2));
        let o = (o < odd.len()).then(|| odd[o].clone());
        let t = (t < tops.len()).then(|| tops[t].clone());
        let leaf = |k: usize, name: &str| -> El {
            let b = el("body").a("name", name).c(if src == 0 { mass(1.0) } else { el("geom").a("size", "0.5") });
            if p == k { b.cs(o.clone()) } else { b }
        };
        let chain = leaf(1, "one").c(leaf(2, "two").c(leaf(3, "three"))).c(leaf(4, "four"));
        let mut w = el("worldbody").c(el("geom").a("type", "plane").a("size", "1 1 1"));
        if p == 0 { w = w.cs(o.clone()) }
        w = w.c(chain);
        if p == 5 { w = w.cs(o.clone()) }
        let blocks = el("default").c(el("default").a("class", "leaning").c(el("geom").a("euler", "90 0 0")));
        let r = el("mujoco").c(blocks);
        if before == 1 { r.cs(t).c(w) } else { r.c(w).cs(t) }
    };
    ck.space("refusals", n as u64 * places as u64 * k as u64 * 4, |i| doc(i).text(), |i| {
        let d = doc(i);
        if d.text().contains("<include") {
            let r = load(&d);
            ensure!(r == Err(ModelError::IncludeNeedsFile), "an include in text gave {r:?}");
            return Ok(3);
        }
        let want = mjcf(&d);
        agree(load(&d), &want, ModelFormat::Mjcf)?;
        Ok(h64(&format!("{:?}", want.err().map(|b| b[0].clone()))))
    });
    let roots = ["mujoco", "robot", "mujocoinclude", "Mujoco", "urdf", "worldbody"];
    ck.space("roots", 6 * 4, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let (r, body) = (d.pick(&roots), d.n(4));
        let mut e = el(r);
        if body & 1 == 1 { e = e.c(el("worldbody").c(el("body").c(mass(1.0)))) }
        if body & 2 == 2 { e = e.c(el("link").a("name", "base")) }
        let got = load_str(&e.text());
        match r {
            "mujoco" => { agree(got, &mjcf(&e), ModelFormat::Mjcf)?; }
            "robot" => { agree(got, &urdf(&e), ModelFormat::Urdf)?; }
            _ => ensure!(got == Err(ModelError::UnexpectedRootElement { found: r.into() }), "{r} gave {got:?}"),
        }
        Ok(i)
    });
}
fn texts(ck: &Ck) {
    let full = el("mujoco").a("model", "m").c(el("compiler").a("angle", "radian").a("autolimits", "true")).c(el("default").c(el("geom").a("density", "10")).c(el("default").a("class", "a").c(el("joint").a("range", "-1 1"))))
        .c(el("worldbody").c(el("body").a("name", "b").a("childclass", "a").a("pos", "0 0 1").a("quat", "1 0 0 0").c(el("joint").a("axis", "0 1 0").a("limited", "true")).c(el("geom").a("type", "capsule").a("size", "0.1").a("fromto", "0 0 0 0 0 1"))
            .c(el("body").c(el("inertial").a("mass", "1").a("fullinertia", "1 1 1 0 0 0")))));
    let small = el("mujoco").c(el("worldbody").c(el("body").c(el("freejoint")).c(mass(1.0))));
    let mut v = vec![full.text(), small.text(), format!("<?xml version=\"1.0\"?>\n<!-- c -->{}", small.text()), "<!DOCTYPE mujoco [<!ENTITY e \"1\">]><mujoco><worldbody><body><inertial mass=\"&e;\" diaginertia=\"1 1 1\"/></body></worldbody></mujoco>".into()];
    if ck.thorough() {
        v.push(full.c(el("include").a("file", "x")).text());
    }
    broken(ck, "broken_text", &v, &|s| mjcf::load_str(s));
    broken(ck, "broken_text_any", &v[..3], &|s| load_str(s));
}
/// A scratch folder of this process
struct Scratch(PathBuf);
impl Scratch {
    fn new(tag: &str) -> Scratch {
        let p = std::env::temp_dir().join(format!("mc-c34-{}-{tag}", std::process::id()));
        let _ = std::fs::remove_dir_all(&p);
        std::fs::create_dir_all(&p).unwrap();
        Scratch(p)
    }
    fn put(&self, rel: &str, text: &str) -> PathBuf {
        let p = self.0.join(rel);
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        std::fs::write(&p, text).unwrap();
        p
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
/// What the whole of a set of files says once every include is followed, or how it goes wrong
fn spliced(files: &[(&str, El)], at: usize, depth: usize) -> Result<El, &'static str> {
    if depth > 8 { return Err("IncludeTooDeep") }
    fn fill(e: &El, files: &[(&str, El)], dir: &str, depth: usize) -> Result<El, &'static str> {
        let mut out = El { tag: e.tag.clone(), at: e.at.clone(), ch: vec![] };
        for c in &e.ch {
            if c.tag == "include" {
                let Some(f) = c.get("file") else { return Err("BadAttribute") };
                if !c.ch.is_empty() { return Err("Xml") }
                let mut want: Vec<&str> = if dir.is_empty() { vec![] } else { dir.split('/').collect() };
                for p in f.split('/') { if p == ".." { want.pop(); } else { want.push(p) } }
                let want = want.join("/");
                let Some(k) = files.iter().position(|x| x.0 == want) else { return Err("FileRead") };
                out.ch.extend(spliced(files, k, depth + 1)?.ch);
            } else {
                out.ch.push(fill(c, files, dir, depth)?);
            }
        }
        Ok(out)
    }
    let dir = files[at].0.rsplit_once('/').map_or("", |x| x.0);
    fill(&files[at].1, files, dir, depth)
}
fn include_case(tag: &str, files: &[(&str, El)]) -> Res {
    let s = Scratch::new(tag);
    for (n, e) in files { s.put(n, &e.text()); }
    op(1);
    let got = mjcf::load_path(&s.0.join(files[0].0));
    match spliced(files, 0, 0) {
        Err(n) => {
            let e = match got { Ok(_) => return Err(format!("loaded, though {n}")), Err(e) => e };
            // files are read as their includes are met, so a loop beside a missing file may show as either
            ensure!(error_name(&e) == n || ["IncludeTooDeep", "FileRead"].contains(&error_name(&e).as_str()) && ["IncludeTooDeep", "FileRead"].contains(&n), "{e:?}, expected {n}");
            Ok(h64(&n.to_string()))
        }
        Ok(d) => {
            let w = mjcf(&d);
            agree(got, &w, ModelFormat::Mjcf)?;
            Ok(h64(&format!("{:?}", w.map(|w| w.bodies.iter().map(|b| b.name.clone()).collect::<Vec<_>>()))))
        }
    }
}
fn includes(ck: &Ck) {
    // three files in different folders, each including up to two of the others in either place
    const NAMES: [&str; 3] = ["main.xml", "parts/arm.xml", "parts/deep/hand.xml"];
    const TO: [[&str; 4]; 3] = [["main.xml", "parts/arm.xml", "parts/deep/hand.xml", "gone.xml"], ["../main.xml", "arm.xml", "deep/hand.xml", "gone.xml"], ["../../main.xml", "../arm.xml", "hand.xml", "../gone.xml"]];
    let dec = |i: u64| {
        let mut d = Dig(i);
        // per file: an include at the top and one among the bodies (4 targets, or none)
        (d.arr::<6, usize>(&[0, 1, 2, 3, 4]), d.n(2), d.n(2))
    };
    let files = |i: u64| -> Vec<(&'static str, El)> {
        let (to, empty, nested) = dec(i);
        (0..3).map(|f| {
            let inc = |k: usize| {
                let e = (to[2 * f + k] < 4).then(|| el("include").a("file", TO[f][to[2 * f + k]]));
                if nested == 1 && f == 0 { e.map(|e| e.c(el("include").a("file", TO[f][2]))) } else { e }
            };
            let mut r = el(if f == 0 { "mujoco" } else { "mujocoinclude" });
            if f == 1 { r = r.c(el("compiler").a("angle", "radian")).c(el("default").c(el("joint").a("damping", "2"))) }
            r = r.cs(inc(0));
            let (p, q) = pose_at(f);
            if !(empty == 1 && f == 2) { r = r.c(el("worldbody").c(el("body").a("name", format!("b{f}")).a("pos", p).a("quat", q).c(el("joint").a("range", "-1 2")).c(mass(1.0 + f as f64))).cs(inc(1))) }
            (NAMES[f], r)
        }).collect()
    };
    ck.space("includes", 5u64.pow(6) * 4, |i| format!("{:?}", dec(i)), |i| include_case(&format!("i{i}"), &files(i)));
    // chains of files, and where an include may stand
    ck.space("include_chains", 14 * 4, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let (n, place) = (1 + d.n(14), d.n(4));
        let names: Vec<String> = (0..n).map(|k| format!("{}f{k}.xml", "d/".repeat(k))).collect();
        let files: Vec<(&str, El)> = (0..n).map(|k| {
            let inc = (k + 1 < n).then(|| el("include").a("file", format!("d/f{}.xml", k + 1)));
            let leaf = |k: usize| el("body").a("name", format!("b{k}")).c(mass(1.0));
            let r = el("mujoco");
            let e = match place {
                0 => r.cs(inc).c(el("worldbody").c(leaf(k))),
                1 => r.c(el("worldbody").c(leaf(k)).cs(inc)),
                2 => r.c(el("worldbody").cs(inc).c(leaf(k))),
                // bodies spliced right inside a body
                _ => if k == 0 { r.c(el("worldbody").c(leaf(k).cs(inc))) } else { r.c(leaf(k).cs(inc)) },
            };
            (names[k].as_str(), e)
        }).collect();
        include_case(&format!("c{i}"), &files)
    });
    // what an included file may hold
    let bits = ["", "<mujoco/>", "<mujoco>", "not xml", "<include file=\"main.xml\"/>", "<mujoco><worldbody/></mujoco>", "<mujoco><!-- <include file=\"gone.xml\"/> --><worldbody><body name=\"é ü\"><inertial mass=\"1\" diaginertia=\"1 1 1\"/></body></worldbody></mujoco>", "<?xml version=\"1.0\"?><mujoco><worldbody><body><inertial mass=\"1\" diaginertia=\"1 1 1\"/></body></worldbody></mujoco>"];
    let mains = ["<mujoco><include file=\"a.xml\"/></mujoco>", "<include file=\"a.xml\"/>", "<mujoco><include/></mujoco>", "<mujoco><include file=\"a.xml\"><include file=\"a.xml\"/></include></mujoco>", "<mujoco><include file=\"a.xml\"></include><include file=\"a.xml\"/></mujoco>",
        "<mujoco><worldbody><body name=\"ü\"><inertial mass=\"1\" diaginertia=\"1 1 1\"/></body><include file=\"a.xml\"/></worldbody></mujoco>", "<mujoco><include file=\"\"/></mujoco>", "<mujoco><include file=\".\"/></mujoco>", "<mujoco><include file=\"a.xml\">text é</include></mujoco>", "<mujoco><include file=\"a.xml\"><x/><include file=\"a.xml\"/><include file=\"a.xml\"/></include></mujoco>"];
    ck.space("include_texts", (bits.len() * mains.len()) as u64, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let (b, m) = (d.pick(&bits), d.pick(&mains));
        let s = Scratch::new(&format!("t{i}"));
        let p = s.put("main.xml", m);
        s.put("a.xml", b);
        op(1);
        match mjcf::load_path(&p) {
            Ok(m) => sound(&m).map(|_| 1),
            Err(e) => Ok(h64(&error_name(&e))),
        }
    });
    // which reader a path gets
    let ends = ["robot.urdf", "robot.URDF", "robot.Urdf", "robot.xml", "robot", "robot.mjcf", "robot.urdf.xml", ".urdf", "robot.xml.urdf"];
    let docs = ["<mujoco><worldbody><body><inertial mass=\"1\" diaginertia=\"1 1 1\"/></body></worldbody></mujoco>", "<robot><link name=\"l\"/></robot>", "<other/>"];
    ck.space("paths", (ends.len() * 4) as u64, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let (e, k) = (d.pick(&ends), d.n(4));
        let s = Scratch::new(&format!("p{i}"));
        let p = if k < 3 { s.put(e, docs[k]) } else { s.0.join(e) };
        let is_urdf = Path::new(e).extension().is_some_and(|x| x.eq_ignore_ascii_case("urdf"));
        op(3);
        let (got, a, b) = (load_path(&p), mjcf::load_path(&p), multicalc_robot_model::urdf::load_path(&p));
        ensure!(got == if is_urdf { b.clone() } else { a.clone() }, "{e} was read as the other kind: {got:?}");
        ensure!(b.is_ok() == (k == 1), "URDF reader on document {k}: {b:?}");
        ensure!(a.is_ok() == (k == 0), "MJCF reader on document {k}: {a:?}");
        if k == 3 { ensure!(matches!(got, Err(ModelError::FileRead(_))), "{got:?}") }
        if k < 3 {
            ensure!(mjcf::load_str(docs[k]) == a && multicalc_robot_model::urdf::load_str(docs[k]) == b, "text and file differ");
        }
        Ok(i)
    });
}
fn main() {
    let ck = Ck::new("C34");
    ck.assume("Scratch files under the system's temporary folder, removed as each case ends.");
    defaults(&ck);
    compiler(&ck);
    trees(&ck);
    masses(&ck);
    refusals(&ck);
    texts(&ck);
    includes(&ck);
    ck.finish();
}
