//! C35: URDF documents load as the robots they describe, or are refused by name.
use mc::robot::*;
use mc::xmlref::*;
use mc::*;
use multicalc_robot_model::*;

fn load(doc: &El) -> Result<RobotModel, ModelError> {
    op(1);
    urdf::load_str(&doc.text())
}
fn verdict_of(doc: &El) -> Res {
    let want = urdf(doc);
    agree(load(doc), &want, ModelFormat::Urdf)?;
    Ok(h64(&match &want { Ok(w) => format!("{w:?}"), Err(b) => format!("{:?}", b.first()) }))
}
fn whole(doc: &El) -> Res {
    let want = urdf(doc);
    if let Some(m) = agree(load(doc), &want, ModelFormat::Urdf)? {
        let w = want.as_ref().unwrap();
        let all: Vec<usize> = (0..w.bodies.len()).collect();
        check_tree(m.kinematic_tree::<6, 12>(), w, &all, "whole")?;
        check_tree(m.kinematic_tree::<3, 12>(), w, &all, "whole in three")?;
        check_tree(m.kinematic_tree::<6, 2>(), w, &all, "whole in two readings")?;
        for b in all {
            let name = &w.bodies[b].name;
            let c = chain(w, w.bodies.iter().position(|x| x.name == *name).unwrap());
            ensure!(m.path_to(name).as_ref() == Ok(&c), "way to {name} is {:?}, expected {c:?}", m.path_to(name));
            check_tree(m.kinematic_tree_to::<6, 12>(name), w, &c, &format!("chain to {name}"))?;
            check_tree(m.kinematic_tree_to::<2, 8>(name), w, &c, &format!("chain to {name} in two"))?;
        }
        ensure!(m.path_to("nothing") == Err(ModelError::UnknownBody { name: "nothing".into() }), "{:?}", m.path_to("nothing"));
    }
    Ok(h64(&match &want { Ok(w) => format!("{w:?}"), Err(b) => format!("{:?}", b.first()) }))
}
fn inertial(m: f64) -> El {
    el("inertial").c(el("mass").a("value", ns(&[m]))).c(el("inertia").a("ixx", "1").a("ixy", "0").a("ixz", "0").a("iyy", "1").a("iyz", "0").a("izz", "1"))
}
fn link(k: usize) -> El {
    let l = el("link").a("name", format!("l{k}"));
    if k % 2 == 0 { l.c(inertial(1.0 + k as f64)) } else { l }
}
/// one joint of each kind, placed where no other is
fn joint(k: usize, kind: usize, p: &str, c: &str) -> El {
    let j = el("joint").a("name", format!("j{k}")).c(el("parent").a("link", p)).c(el("child").a("link", c))
        .c(el("origin").a("xyz", ns(&[0.5 - 0.25 * k as f64, 0.125 * k as f64, 0.75])).a("rpy", ns(&[0.3, -0.2 + 0.4 * k as f64, 1.0 - k as f64])))
        .c(el("axis").a("xyz", ns(&[1.0, k as f64 - 1.0, 0.5])));
    match kind {
        0 => j.a("type", "fixed"),
        1 => j.a("type", "revolute").c(el("limit").a("lower", "-1").a("upper", "1.5").a("effort", "3")),
        2 => j.a("type", "continuous").c(el("dynamics").a("damping", "0.5").a("friction", "0.25")),
        3 => j.a("type", "prismatic").c(el("limit").a("lower", "-0.25").a("upper", "0.5")),
        4 => j.a("type", "continuous").c(el("mimic").a("joint", "j0").a("multiplier", "2")),
        5 => j.a("type", "floating"),
        _ => j.a("type", "planar"),
    }
}
/// Every graph of links and joints: trees load, everything else is refused
fn graphs(ck: &Ck) {
    for (n, m) in [(0, 1), (1, 0), (1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 1), (3, 2), (3, 3), (3, 4), (4, 3), (4, 4)] {
        let tags = if (n, m) == (4, 4) && !ck.thorough() { 1 } else { 4 };
        // a joint may also name a link there is none of
        let ends = ((n + 1) * (n + 1)) as u64;
        let dec = move |i: u64| {
            let mut d = Dig(i);
            ((0..m).map(|_| (d.n(n + 1), d.n(n + 1))).collect::<Vec<_>>(), d.n(2), d.n(2))
        };
        let doc = move |i: u64| -> El {
            let (e, order, same) = dec(i);
            let name = |k: usize| format!("l{k}");
            let js: Vec<El> = e.iter().enumerate().map(|(k, (p, c))| joint(k, 1 + (k + same) % 3, &name(*p), &name(*c))).collect();
            let ls: Vec<El> = (0..n).map(link).collect();
            let r = el("robot").a("name", "graph");
            if order == 0 { r.cs(ls).cs(js) } else { r.cs(js.into_iter().rev()).c(el("material")).cs(ls.into_iter().rev()) }
        };
        ck.space(&format!("graphs_{n}_{m}"), ends.pow(m as u32) * tags, |i| doc(i).text(), |i| whole(&doc(i)));
    }
    if ck.thorough() {
        let dec = |i: u64| {
            let mut d = Dig(i);
            (0..4).map(|_| (d.n(5), d.n(5))).collect::<Vec<_>>()
        };
        let doc = |i: u64| el("robot").cs(dec(i).iter().enumerate().map(|(k, (p, c))| joint(k, 1 + k % 3, &format!("l{p}"), &format!("l{c}")))).cs((0..5).map(link));
        ck.space("graphs_5_4", 25u64.pow(4), |i| doc(i).text(), |i| whole(&doc(i)));
    }
}
/// Every tree, with every kind of joint, in several orders of writing
fn trees(ck: &Ck) {
    for n in 1..=ck.q(5usize, 6) {
        let shapes: u64 = (1..n as u64).product();
        let kinds = 6u64.pow(n as u32 - 1);
        // the order links and joints are written in: as they hang, backwards, interleaved by a stride
        let dec = move |i: u64| {
            let mut d = Dig(i);
            let parent: Vec<usize> = (1..n).map(|k| d.n(k)).collect();
            let kind: Vec<usize> = (1..n).map(|_| d.n(6)).collect();
            (parent, kind, d.n(4))
        };
        let doc = move |i: u64| -> El {
            let (parent, kind, order) = dec(i);
            let mut v: Vec<El> = (0..n).map(link).collect();
            for k in 1..n { v.push(joint(k, kind[k - 1], &format!("l{}", parent[k - 1]), &format!("l{k}"))) }
            let len = v.len();
            let v: Vec<El> = match order {
                0 => v,
                1 => v.into_iter().rev().collect(),
                2 => (0..len).map(|k| v[(k * (if len % 3 == 0 { 5 } else { 3 })) % len].clone()).collect(),
                _ => { let mut w = v[n..].to_vec(); w.extend(v[..n].to_vec()); w }
            };
            el("robot").a("name", "tree").c(el("gazebo")).cs(v).c(el("transmission"))
        };
        ck.space(&format!("trees_{n}"), shapes * kinds * 4, |i| doc(i).text(), |i| whole(&doc(i)));
    }
}
const TURNS: [f64; 11] = [0.0, 0.3, -0.7, 1.5707963267948966, -1.5707963267948966, 1.2, 3.141592653589793, -3.141592653589793, 2.5, 6.5, -100.25];
/// Where joints and masses sit
fn places(ck: &Ck) {
    let xyz = [None, Some("0.1 -0.2 0.3"), Some("100 0 -50"), Some(" 1e1\t+2  -.5 "), Some("1 2")];
    let dec = |i: u64| {
        let mut d = Dig(i);
        (d.arr::<3, f64>(&TURNS), d.n(5), d.n(3), d.n(3))
    };
    let doc = |i: u64| -> El {
        let (r, x, on, form) = dec(i);
        let o = el("origin").oa("xyz", xyz[x]).oa("rpy", match form { 0 => Some(ns(&r)), 1 => Some(format!(" {:e}\n{}   {:?} ", r[0], r[1], r[2])), _ => Some(format!("{} {}", r[0], r[1])) });
        let mut j = el("joint").a("name", "j").a("type", "continuous").c(el("parent").a("link", "a")).c(el("child").a("link", "b"));
        if on != 1 { j = j.c(o.clone()).c(el("origin").a("xyz", "9 9 9")) }
        let mut b = el("link").a("name", "b").c(el("visual").c(el("origin").a("xyz", "7 7 7")));
        if on != 0 {
            b = b.c(el("inertial").c(el("mass").a("value", "2")).c(o).c(el("inertia").a("ixx", "0.5").a("ixy", "0.05").a("ixz", "-0.1").a("iyy", "0.7").a("iyz", "0.02").a("izz", "0.9")));
        }
        el("robot").a("name", "placed").c(el("link").a("name", "a")).c(b).c(j)
    };
    ck.space("places", 11 * 11 * 11 * 5 * 9, |i| doc(i).text(), |i| verdict_of(&doc(i)));
}
/// Every way a link may state its mass
fn masses(ck: &Ck) {
    let terms: [[f64; 6]; 8] = [
        [1.0, 0.0, 0.0, 1.0, 0.0, 1.0], [0.5, 0.05, -0.1, 0.7, 0.02, 0.9], [2.0, 0.5, 0.25, 3.0, 0.125, 4.0], [1.0, 0.0, 0.0, 2.0, 0.0, 0.0],
        [1.0, 0.0, 0.0, -2.0, 0.0, 5.0], [0.001, 0.0, 0.0, 3.0, 0.0, 3.0], [0.0; 6], [1.0, 0.3, 0.2, 1.0, -0.4, 1.5],
    ];
    let scales = [1.0, 1e-9, 1e4, 3e7];
    let rpy = ["0 0 0", "0.3 0.5 -0.7", "0 1.5707963267948966 0", "1 2 3", "0 0 0.7853981633974483"];
    let dec = |i: u64| {
        let mut d = Dig(i);
        (d.n(6), d.n(8), d.n(4), d.n(6), d.n(9), d.n(3))
    };
    let doc = |i: u64| -> El {
        let (m, t, s, r, miss, dup) = dec(i);
        let mut e = el("inertial");
        if r < 5 { e = e.c(el("origin").a("rpy", rpy[r]).a("xyz", "0.1 0.2 -0.3")) }
        if miss != 7 { e = e.c(el("mass").oa("value", [Some("2.5"), Some("0"), Some("-1"), None, Some("heavy"), Some("1 2")][m])) }
        if miss != 8 {
            let mut x = el("inertia");
            for (k, n) in ["ixx", "ixy", "ixz", "iyy", "iyz", "izz"].iter().enumerate() {
                if miss != k { x = x.a(n, ns(&[terms[t][k] * scales[s]])) }
            }
            e = e.c(x)
        }
        let l = el("link").a("name", "only");
        el("robot").c(match dup { 0 => l.c(e), 1 => l.c(el("collision")).c(e).c(inertial(9.0)), _ => l.c(el("visual").c(inertial(7.0))).c(e) })
    };
    ck.space("masses", 6 * 8 * 4 * 6 * 9 * 3, |i| doc(i).text(), |i| verdict_of(&doc(i)));
}
/// Every way a joint may state how it moves
fn joints(ck: &Ck) {
    let kinds = [None, Some("revolute"), Some("continuous"), Some("prismatic"), Some("fixed"), Some("floating"), Some("planar"), Some("spherical"), Some("Revolute")];
    let axes = [None, Some("0 0 1"), Some("0 -2 0"), Some("1 2 -2"), Some("1e-5 0 1e-5"), Some("0 0 0"), Some("1 0"), Some("x 0 0")];
    let bound = [None, Some("-0.5"), Some("0"), Some("2e0"), Some("low")];
    let dec = |i: u64| {
        let mut d = Dig(i);
        (d.n(9), d.n(9), d.n(5), d.n(5), d.n(2), d.n(5), d.n(4), d.n(5))
    };
    let doc = |i: u64| -> El {
        let (k, a, lo, hi, nolimit, damp, fric, mimic) = dec(i);
        let mut j = el("joint").a("name", "turn").oa("type", kinds[k]).c(el("parent").a("link", "a")).c(el("child").a("link", "b"));
        if a < 8 { j = j.c(el("axis").oa("xyz", axes[a])) }
        if nolimit == 0 { j = j.c(el("limit").oa("lower", bound[lo]).oa("upper", bound[hi]).a("velocity", "1")) }
        if damp > 0 || fric > 0 { j = j.c(el("dynamics").oa("damping", [None, None, Some("0.5"), Some("-1"), Some("much")][damp]).oa("friction", [None, Some("0.125"), Some("-0.25"), Some("")][fric])) }
        match mimic {
            1 => j = j.c(el("mimic").a("joint", "other")),
            2 => j = j.c(el("mimic").a("joint", "other").a("multiplier", "-2.5").a("offset", "0.1")),
            3 => j = j.c(el("mimic").a("multiplier", "2")),
            4 => j = j.c(el("mimic").a("joint", "x").a("offset", "far")),
            _ => {}
        }
        el("robot").c(el("link").a("name", "a")).c(el("link").a("name", "b")).c(j)
    };
    ck.space("joints", 81 * 50 * 100, |i| doc(i).text(), |i| whole(&doc(i)));
}
/// Names left out, repeated or odd
fn names(ck: &Ck) {
    let n = [None, Some(""), Some("a"), Some("b"), Some("link"), Some("é \"<&>'\n"), Some("joint")];
    let dec = |i: u64| {
        let mut d = Dig(i);
        ([d.n(7), d.n(7)], [d.n(7), d.n(7)], d.n(7), d.n(7))
    };
    let doc = |i: u64| -> El {
        let (l, e, j, r) = dec(i);
        el("robot").oa("name", n[r]).c(el("link").oa("name", n[l[0]]).c(inertial(1.0))).c(el("link").oa("name", n[l[1]]))
            .c(el("joint").oa("name", n[j]).a("type", "continuous").c(el("parent").oa("link", n[e[0]])).c(el("child").oa("link", n[e[1]])))
    };
    ck.space("names", 7u64.pow(6), |i| doc(i).text(), |i| whole(&doc(i)));
}
/// One thing wrong or odd, in every place of a sound robot
fn refusals(ck: &Ck) {
    fn base() -> El {
        el("robot").a("name", "r").c(link(0)).c(link(1)).c(link(2)).c(joint(1, 1, "l0", "l1")).c(joint(2, 3, "l1", "l2"))
    }
    fn spots(e: &El, at: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        out.push(at.clone());
        for (k, c) in e.ch.iter().enumerate() {
            at.push(k);
            spots(c, at, out);
            at.pop();
        }
    }
    fn edit(e: &mut El, at: &[usize], f: &mut dyn FnMut(&mut El)) {
        if at.is_empty() { f(e) } else { edit(&mut e.ch[at[0]], &at[1..], f) }
    }
    let mut at = vec![];
    spots(&base(), &mut vec![], &mut at);
    let extra: Vec<El> = vec![
        link(1), link(3), joint(3, 2, "l0", "l2"), joint(3, 2, "l2", "l0"), joint(3, 2, "l2", "l2"), joint(3, 0, "l2", "nowhere"), joint(3, 6, "l0", "l1"), joint(3, 5, "l0", "l1"),
        inertial(3.0), inertial(0.0), el("inertial"), el("mass"), el("mass").a("value", "1"), el("inertia"), el("origin"), el("origin").a("rpy", "1"), el("origin").a("xyz", "1 2 x"), el("axis").a("xyz", "0 0 0"), el("axis"), el("limit"),
        el("limit").a("lower", "1").a("upper", "-1"), el("dynamics").a("damping", "x"), el("mimic"), el("mimic").a("joint", "j1"), el("parent"), el("child").a("link", "l0"), el("visual"), el("include").a("file", "x"), el("robot").c(link(7)), el("safety_controller"),
    ];
    let values = ["", "x", "0", "0 0 0", "1 2 3 4", "-1", "nowhere", "l1", "1e400", "fixed", "revolute"];
    // put something in at a place, first or last; take a place out; or change or drop each attribute of it
    let modes = 2 * extra.len() + 1 + 3 * (values.len() + 1);
    let dec = |i: u64| {
        let mut d = Dig(i);
        (d.n(modes), d.n(at.len()), d.n(2))
    };
    let doc = |i: u64| -> El {
        let (mode, spot, tail) = dec(i);
        let mut e = base();
        if tail == 1 { e = e.c(el("gazebo")).c(el("material")).c(el("gazebo")) }
        let x = 2 * extra.len();
        if mode == x {
            if let Some((last, up)) = at[spot].split_last() { edit(&mut e, up, &mut |p| { p.ch.remove(*last); }) }
        } else {
            edit(&mut e, &at[spot], &mut |p| {
                if mode < x {
                    let add = extra[mode / 2].clone();
                    if mode % 2 == 0 { p.ch.push(add) } else { p.ch.insert(0, add) }
                } else {
                    let (a, v) = ((mode - x - 1) / (values.len() + 1), (mode - x - 1) % (values.len() + 1));
                    if a < p.at.len() { if v < values.len() { p.at[a].1 = values[v].into() } else { p.at.remove(a); } }
                }
            });
        }
        e
    };
    ck.space("refusals", (modes * at.len() * 2) as u64, |i| doc(i).text(), |i| {
        let d = doc(i);
        // an extra root element would be another document
        if d.tag != "robot" { return Ok(0) }
        whole(&d)
    });
    if ck.thorough() {
        // two such changes at once
        let n = (modes * at.len() * 2) as u64;
        let two = |i: u64| -> El {
            let (a, b) = (i % n, i / n);
            let mut e = doc(a);
            let (mode, spot, _) = dec(b * 2 % n);
            if mode < 2 * extra.len() && at[spot].len() <= 1 {
                if at[spot].is_empty() { e.ch.push(extra[mode / 2].clone()) } else if let Some(p) = e.ch.get_mut(at[spot][0]) { p.ch.insert(0, extra[mode / 2].clone()) }
            }
            e
        };
        ck.space("refusals_twice", n * n / 8, |i| two(i).text(), |i| whole(&two(i)));
    }
}
fn texts(ck: &Ck) {
    let full = el("robot").a("name", "r").c(link(0)).c(link(1)).c(joint(1, 1, "l0", "l1").c(el("dynamics").a("damping", "0.5")).c(el("mimic").a("joint", "j")));
    let small = el("robot").c(el("link").a("name", "a"));
    let v = vec![full.text(), small.text(), format!("<?xml version=\"1.0\"?>\n<!-- c -->{}", small.text()), "<!DOCTYPE robot [<!ENTITY e \"1\">]><robot><link name=\"&e;\"/></robot>".into()];
    broken(ck, "broken_text", &v, &|s| urdf::load_str(s));
    broken(ck, "broken_text_any", &v[..3], &|s| load_str(s));
    // the same from a file, and from text of either format
    let docs = [full, small, el("robot"), el("mujoco").c(el("link")), el("Robot").c(el("link")), el("robot").c(el("robot").c(el("link")))];
    ck.space("files", docs.len() as u64 * 3, |i| format!("{i}"), |i| {
        let (d, how) = (&docs[i as usize % docs.len()], i as usize / docs.len());
        let want = if d.tag == "robot" { urdf(d) } else if d.tag == "mujoco" && how == 2 { mjcf(d) } else { Err(vec![("UnexpectedRootElement", d.tag.clone())]) };
        let dir = std::env::temp_dir().join(format!("mc-c35-{}-{i}", std::process::id()));
        let _ = std::fs::remove_dir_all(&dir);
        std::fs::create_dir_all(&dir).unwrap();
        let p = dir.join("robot.uRdf");
        std::fs::write(&p, d.text()).unwrap();
        let got = match how { 0 => urdf::load_path(&p), 1 => load_path(&p), _ => load_str(&d.text()) };
        let gone = if how == 0 { urdf::load_path(&dir.join("gone.urdf")) } else { load_path(&dir.join("gone.urdf")) };
        let _ = std::fs::remove_dir_all(&dir);
        ensure!(matches!(gone, Err(ModelError::FileRead(_))), "a missing file gave {gone:?}");
        agree(got, &want, if d.tag == "mujoco" { ModelFormat::Mjcf } else { ModelFormat::Urdf })?;
        Ok(i)
    });
}
fn main() {
    let ck = Ck::new("C35");
    graphs(&ck);
    trees(&ck);
    places(&ck);
    masses(&ck);
    joints(&ck);
    names(&ck);
    refusals(&ck);
    texts(&ck);
    ck.assume("numbers are finite; a link's tensor is clearly positive or clearly not");
    ck.finish()
}
