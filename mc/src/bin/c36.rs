//! C36: the Rust source written from a model compiles and builds that very model.
use mc::kin::*;
use mc::refmodel::*;
use mc::robot::*;
use mc::xmlref::*;
use mc::*;
use multicalc_robot_model::*;
use std::collections::{HashMap, HashSet};
use std::fmt::Write as _;
use std::path::PathBuf;
use std::process::Command;

/// One model to be written, built and looked at.
#[derive(Clone)]
struct Job {
    doc: El,
    tip: Option<String>,
    single: bool,
    cap: usize,
    cfg: usize,
    header: String,
    note: String,
}
impl Job {
    fn new(doc: El) -> Job {
        Job { doc, tip: None, single: false, cap: 0, cfg: 0, header: String::new(), note: String::new() }
    }
    fn show(&self) -> String {
        format!("single={} tip={:?} cap={} cfg={} header={:?} note={:?} {}", self.single, self.tip, self.cap, self.cfg, self.header, self.note, self.doc.text())
    }
    fn want(&self) -> Result<RModel, Bad> {
        if self.doc.tag == "robot" { urdf(&self.doc) } else { mjcf(&self.doc) }
    }
    fn options(&self, name: &str) -> RustSourceOptions {
        let mut o = RustSourceOptions::new(name).with_scalar(if self.single { GeneratedScalar::F32 } else { GeneratedScalar::F64 });
        if let Some(t) = &self.tip { o = o.with_tip(t) }
        if self.cap > 0 { o = o.with_capacity(self.cap) }
        if self.cfg > 0 { o = o.with_configuration_capacity(self.cfg) }
        if !self.header.is_empty() { o = o.with_header(&self.header) }
        if !self.note.is_empty() { o = o.with_documentation(&self.note) }
        o
    }
    /// the slots the source should build, and the room it should have, or why it may not be written
    fn slots(&self, w: &RModel) -> Result<(Vec<usize>, usize, usize), Vec<&'static str>> {
        let slots = match &self.tip {
            Some(t) => match w.bodies.iter().position(|b| b.name == *t) { Some(i) => chain(w, i), None => return Err(vec!["UnknownBody"]) },
            None => (0..w.bodies.len()).collect(),
        };
        let cap = if self.cap == 0 { slots.len() } else { self.cap };
        let cfg = if self.cfg == 0 { cap + if w.floating { 6 } else { 0 } } else { self.cfg };
        if let Some(b) = tree_refusal(w, &slots, cap, cfg) { return Err(b) }
        if self.single {
            let mut all: Vec<f64> = vec![];
            for i in &slots {
                let b = &w.bodies[*i];
                all.extend(b.pose.1);
                if let Some(j) = &b.joint {
                    all.extend(&j.n[..4]);
                    if j.k != K::Pris { all.extend(j.anchor) }
                    if let Some(l) = j.limits { all.extend([l.0, l.1]) }
                }
            }
            if all.iter().any(|x| x.is_finite() && !(*x as f32).is_finite()) { return Err(vec!["NonFinite"]) }
        }
        Ok((slots, cap, cfg))
    }
}
fn readings(n: usize, floating: bool, v: usize) -> Vec<f64> {
    let mut c: Vec<f64> = (0..n).map(|k| [0.0, 0.3 + 0.45 * k as f64, -0.7 + 0.31 * k as f64][v]).collect();
    if floating && v == 0 { c[3] = 1.0 }
    c
}
const LOOK: &str = r#"
use multicalc::kinematics::*;
use multicalc::linear_algebra::Vector;
trait Num: multicalc::scalar::Numeric { fn see(self) -> f64; fn put(x: f64) -> Self; }
impl Num for f32 { fn see(self) -> f64 { self as f64 } fn put(x: f64) -> f32 { x as f32 } }
impl Num for f64 { fn see(self) -> f64 { self } fn put(x: f64) -> f64 { x } }
fn look<const J: usize, const C: usize, T: Num>(id: usize, make: fn() -> KinematicTree<J, C, T>) {
    let Ok(t) = std::panic::catch_unwind(make) else { println!("{id} panicked"); return };
    println!("{id} tree {J} {C} {} {}", t.len(), t.config_len());
    for k in 0..t.len() {
        let j = t.joint(k).unwrap();
        let p = match t.parent(k).unwrap() { JointParent::World => -1, JointParent::Joint(i) => i as i64 };
        print!("{id} joint {:?} {p}", j.kind());
        let o = j.origin();
        let q = o.rotation().quaternion().as_array();
        for x in q { print!(" {:?}", x.see()) }
        for x in *o.translation().as_array() { print!(" {:?}", x.see()) }
        for x in *j.axis().as_array() { print!(" {:?}", x.see()) }
        for x in *j.anchor().as_array() { print!(" {:?}", x.see()) }
        for x in [j.zero_offset(), j.armature(), j.damping(), j.friction_loss()] { print!(" {:?}", x.see()) }
        if let Some((l, u)) = j.limits() { print!(" {:?} {:?}", l.see(), u.see()) }
        println!();
    }
    for v in 0..3 {
        let mut x = [T::put(0.0); C];
        for k in 0..t.config_len() { x[k] = T::put([0.0, 0.3 + 0.45 * k as f64, -0.7 + 0.31 * k as f64][v]) }
        if v == 0 && t.len() > 0 && t.joint(0).unwrap().kind() == JointKind::Floating { x[3] = T::put(1.0) }
        print!("{id} fk");
        match t.forward_kinematics(&Vector::new(x)) {
            Ok(f) => for k in 0..t.len() {
                let p = f.pose(k).unwrap();
                for x in p.rotation().quaternion().as_array() { print!(" {:?}", x.see()) }
                for x in *p.translation().as_array() { print!(" {:?}", x.see()) }
            },
            Err(e) => print!(" error {e:?}"),
        }
        println!();
    }
}
"#;
/// What the built program said of each job
#[derive(Default)]
struct Built {
    said: HashMap<usize, Vec<String>>,
    broken: HashSet<usize>,
    log: String,
}
fn root() -> PathBuf {
    std::env::var("VERIF_ROOT").map(PathBuf::from).unwrap_or_else(|_| std::env::current_dir().unwrap())
}
fn build(sources: &[(usize, String)]) -> Built {
    let base = root();
    let repo = [base.join("../repo"), PathBuf::from("/repo")].into_iter().find(|p| p.join("crates/multicalc").exists()).expect("no repository").canonicalize().unwrap();
    let dir = base.join("target/c36-source");
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(dir.join("src")).unwrap();
    std::fs::write(dir.join("Cargo.toml"), format!(
        "[package]\nname = \"written\"\nversion = \"0.1.0\"\nedition = \"2024\"\npublish = false\n[workspace]\n[dependencies]\nmulticalc = {{ path = {:?} }}\n[profile.dev]\ndebug = false\nopt-level = 0\nincremental = false\ncodegen-units = 32\n",
        repo.join("crates/multicalc"))).unwrap();
    let mut main = String::from(LOOK);
    let mut broken = HashSet::new();
    loop {
        let live: Vec<_> = sources.iter().filter(|s| !broken.contains(&s.0)).collect();
        let mut body = String::new();
        for (id, text) in &live {
            std::fs::write(dir.join(format!("src/m{id}.rs")), text).unwrap();
            let _ = writeln!(main, "mod m{id};");
            let _ = writeln!(body, "    look({id}, m{id}::built_{id});");
        }
        let _ = write!(main, "fn main() {{\n    std::panic::set_hook(Box::new(|_| {{}}));\n{body}}}\n");
        std::fs::write(dir.join("src/main.rs"), &main).unwrap();
        let out = Command::new("cargo").args(["build", "--offline", "--message-format", "short"]).current_dir(&dir).env("CARGO_TARGET_DIR", base.join("target/c36-built")).output().expect("cargo does not run");
        let log = String::from_utf8_lossy(&out.stderr).to_string();
        if out.status.success() {
            let run = Command::new(base.join("target/c36-built/debug/written")).output().expect("the written program does not run");
            assert!(run.status.success(), "the written program ended badly: {:?}", run.status);
            let mut said: HashMap<usize, Vec<String>> = HashMap::new();
            for l in String::from_utf8(run.stdout).unwrap().lines() {
                let (id, rest) = l.split_once(' ').unwrap();
                said.entry(id.parse().unwrap()).or_default().push(rest.into());
            }
            return Built { said, broken, log };
        }
        // take out what does not compile and look at the rest
        let before = broken.len();
        for l in log.lines().filter(|l| l.contains("error")) {
            if let Some(r) = l.strip_prefix("src/m") {
                let n: String = r.chars().take_while(|c| c.is_ascii_digit()).collect();
                if let Ok(n) = n.parse() { broken.insert(n); }
            }
        }
        if broken.len() == before {
            eprintln!("{log}");
            panic!("the written crate does not build, for no source of its own");
        }
        main = String::from(LOOK);
    }
}
/// The built tree against the document's own reading
fn judge(job: &Job, w: &RModel, slots: &[usize], cap: usize, cfg: usize, said: &[String]) -> Result<(), String> {
    let r = rtree(w, slots);
    let tol = if job.single { 3e-6 } else { 1e-12 };
    let first: Vec<&str> = said[0].split(' ').collect();
    ensure!(first[0] != "panicked", "the written function panics");
    let want = [cap, cfg, slots.len(), r.cfg()].map(|x| x.to_string());
    ensure!(first[0] == "tree" && first[1..] == want, "built {}, expected {want:?}", said[0]);
    let lines = |tag: &str| -> Vec<(String, Vec<f64>)> {
        said.iter().filter_map(|l| l.strip_prefix(tag)).map(|l| {
            let w: Vec<&str> = l.split_whitespace().collect();
            let (head, nums) = w.split_at(if tag == "joint" { 1 } else { 0 });
            (head.join(" "), nums.iter().map(|x| x.parse().unwrap_or(f64::NAN)).collect())
        }).collect()
    };
    let js = lines("joint");
    ensure!(js.len() == slots.len(), "{} joints", js.len());
    // single precision keeps every number to a part in ten million, or underflows
    let low = if job.single { 1e-37 } else { 0.0 };
    for (k, (name, v)) in js.iter().enumerate() {
        let b = &w.bodies[slots[k]];
        let s = slot(b);
        let kind_name = format!("{:?}", b.joint.as_ref().map_or(multicalc::kinematics::JointKind::Fixed, |j| kind(j.k)));
        ensure!(*name == kind_name, "slot {k} is {name}, expected {kind_name}");
        ensure!(v[0] == r.p[k].map_or(-1.0, |p| p as f64), "slot {k} hangs off {}", v[0]);
        let q = [v[1], v[2], v[3], v[4]];
        pose_close_at((q, [v[5], v[6], v[7]]), s.origin, tol, low, &format!("slot {k}"))?;
        if let Some(j) = b.joint.as_ref().filter(|j| j.k != K::Float) {
            for i in 0..3 { ensure_close!(v[8 + i], j.axis[i], tol, tol, "axis of slot {k}") }
            if j.k != K::Pris { for i in 0..3 { ensure_close!(v[11 + i], j.anchor[i], tol, low, "anchor of slot {k}") } }
            for i in 0..4 { ensure_close!(v[14 + i], j.n[i], tol, low, "setting {i} of slot {k}") }
            match j.limits {
                None => ensure!(v.len() == 18, "slot {k} has limits"),
                Some(l) => {
                    ensure!(v.len() == 20, "slot {k} has no limits");
                    ensure_close!(v[18], l.0, tol, low, "lower limit of slot {k}");
                    ensure_close!(v[19], l.1, tol, low, "upper limit of slot {k}");
                }
            }
        }
    }
    // turns so large that their own rounding is many turns say nothing
    if slots.iter().any(|i| w.bodies[*i].joint.as_ref().is_some_and(|j| j.n[0].abs() > 1e6)) { return Ok(()) }
    let fk = lines("fk");
    ensure!(fk.len() == 3, "{} lots of poses", fk.len());
    for (v, (_, x)) in fk.iter().enumerate() {
        ensure!(x.len() == 7 * slots.len(), "poses {:?}", said.iter().filter(|l| l.starts_with("fk")).collect::<Vec<_>>());
        let p = r.fk(&readings(r.cfg(), r.floating(), v));
        // how far the numbers that make up a pose reach
        let reach: f64 = 1.0 + slots.iter().map(|i| { let b = &w.bodies[*i]; norm3(b.pose.1) + b.joint.as_ref().map_or(0.0, |j| 2.0 * norm3(j.anchor) + j.n[0].abs()) }).sum::<f64>();
        for k in 0..slots.len() {
            let y = &x[7 * k..7 * k + 7];
            let t = 20.0 * tol * reach;
            pose_close_at(([y[0], y[1], y[2], y[3]], [y[4], y[5], y[6]]), p[k], t, 0.0, &format!("pose {k} at reading {v}"))?;
        }
    }
    Ok(())
}
fn pose_close_at(a: Pose, b: Pose, tol: f64, low: f64, what: &str) -> Result<(), String> {
    let d: f64 = (0..4).map(|i| a.0[i] * b.0[i]).sum();
    let s = if d < 0.0 { -1.0 } else { 1.0 };
    for i in 0..4 { ensure_close!(a.0[i], s * b.0[i], 0.0, tol, "facing of {what}") }
    let size = norm3(b.1);
    for i in 0..3 { ensure_close!(a.1[i], b.1[i], 0.0, tol * size.max(if low == 0.0 { 1.0 } else { size }) + low, "place of {what}") }
    Ok(())
}
fn mass() -> El {
    el("inertial").a("mass", "1").a("diaginertia", "1 1 1")
}
/// one of the shapes of tree on n bodies, with a joint word
fn grown(n: usize, parent: &[Option<usize>], kind: &[usize], free: bool) -> El {
    fn make(k: usize, parent: &[Option<usize>], kind: &[usize], free: bool) -> El {
        let mut b = el("body").a("name", format!("b{k}")).a("pos", ns(&[0.5 - 0.25 * k as f64, 0.125 * k as f64, 0.75])).a("quat", ns(&[1.0, 0.5 - 0.25 * k as f64, 0.25, 0.125 * k as f64]));
        let j = el("joint").a("pos", ns(&[0.25, -0.5, 0.125 * k as f64])).a("axis", ns(&[1.0, k as f64 - 1.0, 0.5]));
        let j = match kind[k] {
            1 => Some(j.a("range", "-90 45").a("ref", "15").a("frictionloss", "0.3")),
            2 => Some(j.a("damping", "0.5").a("armature", "0.7")),
            3 => Some(j.a("type", "slide").a("ref", "0.25").a("range", "-0.1 0.9")),
            _ => None,
        };
        if free && k == 0 { b = b.c(el("freejoint")) } else { b = b.cs(j) }
        b = b.c(mass());
        for c in 0..parent.len() { if parent[c] == Some(k) { b = b.c(make(c, parent, kind, free)) } }
        b
    }
    el("mujoco").c(el("worldbody").cs((0..n).filter(|k| parent[*k].is_none()).map(|k| make(k, parent, kind, free))))
}
fn jobs(ck: &Ck) -> Vec<(&'static str, Vec<Job>)> {
    let mut out = vec![];
    // every small tree, whole and down to each tip, in both precisions
    let mut v = vec![];
    for n in 1..=ck.q(3usize, 4) {
        let shapes: u64 = (1..=n as u64).product();
        for i in 0..shapes * 4u64.pow(n as u32) * 2 {
            let mut d = Dig(i);
            let parent: Vec<Option<usize>> = (0..n).map(|k| match d.n(k + 1) { 0 => None, p => Some(p - 1) }).collect();
            let kind: Vec<usize> = (0..n).map(|_| d.n(4)).collect();
            let free = d.n(2) == 1;
            if free && kind[0] != 0 { continue }
            let doc = grown(n, &parent, &kind, free);
            v.push(Job { single: (i + i / 7) % 2 == 0, ..Job::new(doc.clone()) });
            if n < 3 || i % 5 == 0 {
                v.push(Job { single: (i + i / 7) % 2 == 1, ..Job::new(doc.clone()) });
                for t in 0..n { v.push(Job { tip: Some(format!("b{t}")), single: (i + t as u64) % 2 == 0, ..Job::new(doc.clone()) }) }
            }
        }
    }
    out.push(("trees", v));
    // every number in every slot
    let mut v = vec![];
    let numbers = ["0.1", "-0.0", "1e-300", "5e-324", "1e-44", "1.1754944e-38", "16777217", "-3.3e38", "3.5e38", "1e300", "0.30000000000000004", "123456789.123456789", "-1e22", "nan", "inf"];
    for x in numbers {
        for place in 0..9 {
            for single in [false, true] {
                let at = |k: usize, n: usize| -> Option<String> { (place == k).then(|| (0..n).map(|i| if i == n - 1 { x } else { "0.5" }).collect::<Vec<_>>().join(" ")) };
                let mut j = el("joint").oa("pos", at(1, 3)).oa("axis", at(2, 3)).oa("ref", at(3, 1)).oa("armature", at(4, 1)).oa("damping", at(5, 1)).oa("frictionloss", at(6, 1));
                if place == 7 { j = j.a("type", "slide").a("range", if x.starts_with('-') { format!("{x} 7") } else { format!("-7 {x}") }) }
                let b = el("body").a("name", "b").oa("pos", at(0, 3)).oa("quat", at(8, 4)).c(j).c(mass());
                v.push(Job { single, ..Job::new(el("mujoco").c(el("compiler").a("angle", "radian")).c(el("worldbody").c(b))) });
            }
        }
    }
    out.push(("numbers", v));
    // numbers of every size, down to the smallest and up to the largest of either precision
    let mut v = vec![];
    for single in [false, true] {
        let sizes: Vec<i32> = if single { (-44..=37).collect() } else { (-304..=304).step_by(7).collect() };
        for some in sizes.chunks(8) {
            for place in 0..8 {
                for digits in ["1", "2.7182818284590452"] {
                    let one = |n: usize, e: i32| -> El {
                        let x = format!("{digits}e{e}");
                        let at = |k: usize, n: usize| -> Option<String> { (place == k).then(|| (0..n).map(|i| if i == n - 1 { x.as_str() } else { "0.5" }).collect::<Vec<_>>().join(" ")) };
                        let mut j = el("joint").oa("pos", at(1, 3)).oa("axis", at(2, 3)).oa("ref", at(3, 1)).oa("armature", at(4, 1)).oa("damping", at(5, 1)).oa("frictionloss", at(6, 1));
                        if place == 7 { j = j.a("type", "slide").a("range", format!("-{x} {x}")) }
                        el("body").a("name", format!("b{n}")).oa("pos", at(0, 3)).c(j).c(mass())
                    };
                    v.push(Job { single, ..Job::new(el("mujoco").c(el("compiler").a("angle", "radian")).c(el("worldbody").cs(some.iter().enumerate().map(|(n, e)| one(n, *e))))) });
                }
            }
        }
    }
    out.push(("decades", v));
    // names and lines of text that could break out of a comment
    let mut v = vec![];
    let odd = ["", "plain", "two\nlines", "cr\rend", "*/ /*", "// x", "\"quoted\" \\ 'it'", "é ü 漢", "\u{202e}desrever", "\u{2028}sep", "tab\there", "}\nfn main() {", "b\u{85}c", "{name}", "\u{feff}bom"];
    for x in odd {
        for single in [false, true] {
            let b = |n: &str| el("body").a("name", n).c(el("joint").a("name", x)).c(mass());
            let doc = el("mujoco").a("model", x).c(el("worldbody").c(b(x).c(b("tip"))));
            for tip in [None, Some("tip".to_string()), Some(x.to_string())] {
                v.push(Job { tip, single, ..Job::new(doc.clone()) });
            }
        }
        if !x.contains(['\n', '\r', '\u{202e}', '\u{feff}', '\u{2028}', '\u{85}']) {
            v.push(Job { header: x.into(), note: x.into(), ..Job::new(grown(1, &[None], &[1], false)) });
            v.push(Job { header: x.into(), single: true, ..Job::new(grown(1, &[None], &[1], false)) });
            v.push(Job { note: x.into(), single: true, ..Job::new(grown(1, &[None], &[1], false)) });
        }
    }
    out.push(("texts", v));
    // room asked for
    let mut v = vec![];
    for free in [false, true] {
        for word in 0..16usize {
            let kind = [word % 4, word / 4];
            if free && kind[0] != 0 { continue }
            for chain in [true, false] {
                let doc = grown(2, &[None, if chain { Some(0) } else { None }], &kind, free);
                for cap in 0..5 { for cfg in 0..11 { v.push(Job { cap, cfg, single: (cap + cfg) % 2 == 0, ..Job::new(doc.clone()) }) } }
            }
        }
    }
    out.push(("room", v));
    // URDF models
    let mut v = vec![];
    for i in 0..64 * 3 {
        let mut d = Dig(i);
        let k: [usize; 3] = [d.n(4), d.n(4), d.n(4)];
        let hang = d.n(3);
        let mut r = el("robot").a("name", "u").cs((0..4).rev().map(|k| el("link").a("name", format!("l{k}"))));
        for (n, kind) in k.iter().enumerate() {
            let p = match hang { 0 => n, 1 => 0, _ => n / 2 };
            let j = el("joint").a("name", format!("j{n}")).c(el("parent").a("link", format!("l{p}"))).c(el("child").a("link", format!("l{}", n + 1)))
                .c(el("origin").a("xyz", ns(&[0.5 - 0.25 * n as f64, 0.125 * n as f64, 0.75])).a("rpy", ns(&[0.3, -0.2 + 0.4 * n as f64, 1.0 - n as f64]))).c(el("axis").a("xyz", ns(&[1.0, n as f64 - 1.0, 0.5])));
            r = r.c(match kind {
                0 => j.a("type", "fixed"),
                1 => j.a("type", "revolute").c(el("limit").a("lower", "-1").a("upper", "1.5")),
                2 => j.a("type", "continuous").c(el("dynamics").a("damping", "0.5").a("friction", "0.25")),
                _ => j.a("type", "prismatic").c(el("limit").a("lower", if n == 2 { "0.9" } else { "-0.25" }).a("upper", "0.5")).cs((n == 1).then(|| el("mimic").a("joint", "j0"))),
            });
        }
        v.push(Job { single: i % 2 == 0, ..Job::new(r.clone()) });
        for t in 0..4 { v.push(Job { single: (i + t) % 2 == 0, tip: Some(format!("l{t}")), ..Job::new(r.clone()) }) }
        v.push(Job { tip: Some("l9".into()), ..Job::new(r) });
    }
    out.push(("urdf", v));
    out
}
fn main() {
    let ck = Ck::new("C36");
    let all = jobs(&ck);
    // written by the code under test, all at once; what it refuses is looked at below
    let mut sources = vec![];
    let mut id = 0;
    let mut texts: HashMap<usize, Result<String, ModelError>> = HashMap::new();
    for (_, v) in &all {
        for j in v {
            let text = j.doc.text();
            let made = std::panic::catch_unwind(|| load_str(&text).map(|m| m.to_rust_source(&j.options(&format!("built_{id}")))));
            if let Ok(Ok(r)) = made {
                if let Ok(s) = &r { sources.push((id, s.clone())) }
                texts.insert(id, r);
            }
            id += 1;
        }
    }
    let count = sources.len();
    let built = build(&sources);
    let _ = &built.log;
    let mut from = 0;
    for (name, v) in &all {
        let base = from;
        ck.space(name, v.len() as u64, |i| v[i as usize].show(), |i| {
            let (j, id) = (&v[i as usize], base + i as usize);
            op(1);
            let want = j.want();
            let w = match (&want, load_str(&j.doc.text())) {
                (Ok(w), Ok(_)) => w,
                (Err(_), Err(_)) => return Ok(7),
                (w, g) => return Err(format!("loaded as {g:?}, expected {w:?}")),
            };
            let Some(got) = texts.get(&id) else { return Err("writing the source panicked".into()) };
            match (got, j.slots(w)) {
                (Ok(_), Ok((slots, cap, cfg))) => {
                    ensure!(!built.broken.contains(&id), "the source does not compile");
                    let said = built.said.get(&id).ok_or("the program said nothing")?;
                    judge(j, w, &slots, cap, cfg, said)?;
                    // the same model and options always write the same text
                    let again = load_str(&j.doc.text()).unwrap().to_rust_source(&j.options(&format!("built_{id}")));
                    ensure!(again == *got, "written differently the second time");
                    Ok(h64(&said.join("|")))
                }
                (Err(e), Err(b)) => {
                    let s = format!("{e:?}");
                    ensure!(b.iter().any(|n| s.contains(n)), "refused with {s}, expected one of {b:?}");
                    Ok(h64(&s))
                }
                (Ok(_), Err(b)) => Err(format!("written, though {b:?}{}", if built.broken.contains(&id) { " (and does not compile)" } else { "" })),
                (Err(e), Ok(_)) => Err(format!("refused with {e:?}")),
            }
        });
        from += v.len();
    }
    ck.assume(&format!("{count} sources were compiled as modules of one crate against this tree and run"));
    ck.finish()
}
