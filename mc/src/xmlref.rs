//! A small document tree, and an independent reading of MJCF and URDF documents from it.
use crate::kin::*;
use crate::refmodel::*;
use std::collections::HashMap;

#[derive(Clone, Debug, Default)]
pub struct El {
    pub tag: String,
    pub at: Vec<(String, String)>,
    pub ch: Vec<El>,
}
pub fn el(tag: &str) -> El {
    El { tag: tag.into(), ..Default::default() }
}
impl El {
    pub fn a(mut self, k: &str, v: impl Into<String>) -> El {
        self.at.push((k.into(), v.into()));
        self
    }
    pub fn oa(self, k: &str, v: Option<impl Into<String>>) -> El {
        match v { Some(v) => self.a(k, v), None => self }
    }
    pub fn c(mut self, e: El) -> El {
        self.ch.push(e);
        self
    }
    pub fn cs(mut self, e: impl IntoIterator<Item = El>) -> El {
        self.ch.extend(e);
        self
    }
    pub fn get(&self, k: &str) -> Option<&str> {
        self.at.iter().find(|x| x.0 == k).map(|x| x.1.as_str())
    }
    pub fn kids<'a>(&'a self, t: &'a str) -> impl Iterator<Item = &'a El> {
        self.ch.iter().filter(move |c| c.tag == t)
    }
    pub fn kid(&self, t: &str) -> Option<&El> {
        self.ch.iter().find(|c| c.tag == t)
    }
    pub fn text(&self) -> String {
        let mut s = format!("<{}", self.tag);
        for (k, v) in &self.at {
            let v = v.replace('&', "&amp;").replace('<', "&lt;").replace('"', "&quot;").replace('\n', "&#10;").replace('\r', "&#13;").replace('\t', "&#9;");
            s += &format!(" {k}=\"{v}\"");
        }
        if self.ch.is_empty() { return s + "/>" }
        s += ">";
        for c in &self.ch { s += &c.text() }
        s + &format!("</{}>", self.tag)
    }
}
/// numbers, as the files write them
pub fn ns(v: &[f64]) -> String {
    v.iter().map(|x| format!("{x:?}")).collect::<Vec<_>>().join(" ")
}
#[derive(Clone, Debug, PartialEq)]
pub struct RJoint {
    pub name: String,
    pub k: K,
    pub axis: V3,
    pub anchor: V3,
    pub limits: Option<(f64, f64)>,
    /// zero, armature, damping, friction, spring rest, stiffness
    pub n: [f64; 6],
    pub mimic: Option<(String, f64, f64)>,
}
#[derive(Clone, Debug)]
pub struct RBody {
    pub name: String,
    pub parent: Option<usize>,
    pub pose: Pose,
    pub inertia: Option<(f64, V3, [[f64; 3]; 3])>,
    pub joint: Option<RJoint>,
}
#[derive(Clone, Debug, Default)]
pub struct RModel {
    pub name: String,
    pub bodies: Vec<RBody>,
    pub floating: bool,
    pub ignored: Vec<String>,
}
/// what may be said of a document that is refused: the error's name and a word in its details
pub type Bad = Vec<(&'static str, String)>;
pub fn nums(v: &str) -> Option<Vec<f64>> {
    v.split_ascii_whitespace().map(|x| x.parse().ok()).collect()
}
type At = HashMap<String, String>;
fn over(base: &At, top: &At) -> At {
    let mut r = base.clone();
    r.extend(top.clone());
    r
}
fn own(e: &El) -> At {
    e.at.iter().cloned().collect()
}
struct Rd<'a> {
    bad: &'a mut Bad,
}
impl Rd<'_> {
    fn list(&mut self, a: &At, k: &str) -> Option<Vec<f64>> {
        let v = a.get(k)?;
        let r = nums(v);
        if r.is_none() { self.bad.push(("BadAttribute", k.into())) }
        r
    }
    fn fixed<const N: usize>(&mut self, a: &At, k: &str) -> Option<[f64; N]> {
        let v = self.list(a, k)?;
        if v.len() != N { self.bad.push(("BadAttribute", k.into())) }
        v.try_into().ok()
    }
    fn one(&mut self, a: &At, k: &str) -> Option<f64> {
        self.fixed::<1>(a, k).map(|x| x[0])
    }
    fn quat(&mut self, a: &At, k: &str) -> Q {
        let q = self.fixed::<4>(a, k).unwrap_or([1.0, 0.0, 0.0, 0.0]);
        let n = q.iter().map(|x| x * x).sum::<f64>();
        if n == 0.0 || !n.is_finite() {
            self.bad.push(("BadAttribute", k.into()));
            return [1.0, 0.0, 0.0, 0.0];
        }
        qnormed(q)
    }
    fn all(&mut self, a: &At) {
        for k in ["pos", "axis"] { self.fixed::<3>(a, k); }
        self.fixed::<4>(a, "quat");
        self.fixed::<2>(a, "range");
        self.fixed::<6>(a, "fromto");
        self.list(a, "size");
        for k in ["armature", "damping", "frictionloss", "ref", "springref", "stiffness", "mass", "density"] { self.one(a, k); }
    }
}
#[derive(Clone, Default)]
struct Class {
    geom: At,
    joint: At,
}
fn classes(e: &El, from: &Class, top: bool, map: &mut HashMap<String, Class>, bad: &mut Bad) {
    let mut c = from.clone();
    for x in &e.ch {
        if x.tag == "geom" { c.geom = over(&c.geom, &own(x)); Rd { bad }.all(&own(x)) }
        if x.tag == "joint" { c.joint = over(&c.joint, &own(x)); Rd { bad }.all(&own(x)) }
    }
    match e.get("class") {
        Some(n) => { map.insert(n.into(), c.clone()); }
        None if !top => bad.push(("BadAttribute", "class".into())),
        None => {}
    }
    if top { map.insert("main".into(), c.clone()); }
    for x in e.kids("default") { classes(x, &c, false, map, bad) }
}
fn settle(e: &El, childclass: Option<&str>, map: &HashMap<String, Class>, geom: bool, bad: &mut Bad) -> At {
    let name = e.get("class").or(childclass).unwrap_or("main");
    let none = Class::default();
    let c = match map.get(name) {
        Some(c) => c,
        None => {
            if name != "main" { bad.push(("UndefinedClass", name.into())) }
            &none
        }
    };
    over(if geom { &c.geom } else { &c.joint }, &own(e))
}
const TURNS: [&str; 4] = ["euler", "axisangle", "xyaxes", "zaxis"];
fn turned(a: &At, bad: &mut Bad) {
    for k in TURNS { if a.contains_key(k) { bad.push(("UnsupportedOrientation", k.into())) } }
}
/// volume, and mass moments (zero to second about the centre, along each own axis) of unit density
fn measure(shape: &str, s: [f64; 3]) -> (f64, [f64; 3]) {
    // eight-point Gauss on each smooth stretch of slices is exact for all of these
    const X: [f64; 4] = [0.18343464249564980, 0.52553240991632899, 0.79666647741362674, 0.96028985649753623];
    const W: [f64; 4] = [0.36268378337836198, 0.31370664587788729, 0.22238103445337447, 0.10122853629037626];
    let mut v = 0.0;
    let mut m = [0.0; 3];
    let mut stretch = |lo: f64, hi: f64, slice: &dyn Fn(f64) -> (f64, f64, f64)| {
        for i in 0..4 {
            for sg in [-1.0, 1.0] {
                let z = 0.5 * (lo + hi) + 0.5 * (hi - lo) * X[i] * sg;
                let w = 0.5 * (hi - lo) * W[i];
                let (area, xx, yy) = slice(z);
                v += w * area;
                m[0] += w * xx;
                m[1] += w * yy;
                m[2] += w * area * z * z;
            }
        }
    };
    let pi = std::f64::consts::PI;
    // an ellipse with half axes a and b: area, and its second moments
    let ell = move |a: f64, b: f64| (pi * a * b, pi * a * a * a * b / 4.0, pi * a * b * b * b / 4.0);
    match shape {
        "box" => stretch(-s[2], s[2], &|_| (4.0 * s[0] * s[1], 4.0 * s[0].powi(3) * s[1] / 3.0, 4.0 * s[0] * s[1].powi(3) / 3.0)),
        "cylinder" => stretch(-s[2], s[2], &|_| ell(s[0], s[0])),
        "capsule" => {
            stretch(-s[2], s[2], &|_| ell(s[0], s[0]));
            for sg in [-1.0, 1.0] {
                let (a, b) = (s[2] * sg, (s[2] + s[0]) * sg);
                stretch(a.min(b), a.max(b), &|z| { let r = (s[0] * s[0] - (z.abs() - s[2]).powi(2)).max(0.0).sqrt(); ell(r, r) });
            }
        }
        _ => stretch(-s[2], s[2], &|z| { let k = (1.0 - z * z / (s[2] * s[2])).max(0.0).sqrt(); ell(s[0] * k, s[1] * k) }),
    }
    (v, m)
}
struct Piece {
    m: f64,
    c: V3,
    i: [[f64; 3]; 3],
}
fn turn_tensor(q: Q, d: [[f64; 3]; 3]) -> [[f64; 3]; 3] {
    let r = qmat(q);
    mm3(mm3(r, d), mt3(r))
}
fn diag(d: V3) -> [[f64; 3]; 3] {
    [[d[0], 0.0, 0.0], [0.0, d[1], 0.0], [0.0, 0.0, d[2]]]
}
fn geom(e: &El, childclass: Option<&str>, map: &HashMap<String, Class>, body: &str, bad: &mut Bad) -> Option<Piece> {
    Rd { bad }.all(&own(e));
    let a = settle(e, childclass, map, true, bad);
    turned(&own(e), bad);
    let stated = Rd { bad }.one(&a, "mass");
    if stated == Some(0.0) { return None }
    turned(&a, bad);
    let shape = a.get("type").map_or("sphere", |s| s.as_str()).to_string();
    match shape.as_str() {
        "sphere" | "ellipsoid" | "box" | "cylinder" | "capsule" => {}
        "mesh" => { bad.push(("MeshInertiaUnsupported", body.into())); return None }
        _ => { bad.push(("UnsupportedGeomType", body.into())); return None }
    }
    let round = shape == "cylinder" || shape == "capsule";
    let ends = Rd { bad }.fixed::<6>(&a, "fromto");
    let size = Rd { bad }.list(&a, "size").unwrap_or_default();
    let mut pos = Rd { bad }.fixed::<3>(&a, "pos").unwrap_or([0.0; 3]);
    let mut q = if ends.is_none() { Rd { bad }.quat(&a, "quat") } else { [1.0, 0.0, 0.0, 0.0] };
    if size.iter().any(|s| *s < 0.0) { bad.push(("BadAttribute", "size".into())) }
    if stated.is_some_and(|m| m < 0.0) { bad.push(("BadAttribute", "mass".into())) }
    let density = Rd { bad }.one(&a, "density");
    if density.is_some_and(|m| m < 0.0) && stated.is_none() { bad.push(("BadAttribute", "density".into())) }
    if let Some(x) = ends {
        if !round { bad.push(("UnsupportedFromTo", body.into())) }
        if round && a.contains_key("pos") { bad.push(("ConflictingPlacement", body.into())) }
        if x[..3] == x[3..] { bad.push(("BadAttribute", "fromto".into())) }
    }
    let full = match (shape.as_str(), ends, size.len()) {
        ("sphere", None, 1) => [size[0]; 3],
        ("cylinder" | "capsule", None, 2) => [size[0], size[0], size[1]],
        ("cylinder" | "capsule", Some(_), 1..) => [size[0], size[0], 0.0],
        ("box" | "ellipsoid", None, 3) => [size[0], size[1], size[2]],
        (_, Some(_), _) if !round => return None,
        _ => { bad.push(("BadAttribute", "size".into())); return None }
    };
    let mut full = full;
    if let Some(x) = ends {
        if a.contains_key("pos") || x[..3] == x[3..] { return None }
        let (from, to) = ([x[0], x[1], x[2]], [x[3], x[4], x[5]]);
        let d = sub3(to, from);
        let l = norm3(d);
        full[2] = l / 2.0;
        pos = sc3(add3(from, to), 0.5);
        // any turn that takes the third axis onto the line
        let z = sc3(d, 1.0 / l);
        let ax = cross([0.0, 0.0, 1.0], z);
        let s = norm3(ax);
        q = if s < 1e-12 { [1.0, 0.0, 0.0, 0.0] } else { qexp(sc3(ax, s.atan2(z[2]) / s)) };
    }
    let (v, m2) = measure(&shape, full);
    let mass = stated.unwrap_or_else(|| density.unwrap_or(1000.0) * v);
    if mass == 0.0 { return None }
    // a shape with no room of its own: no capsule, and of the others the limit of ever flatter or thinner ones
    let (w, m2) = if v == 0.0 { measure(&shape, full.map(|s| if s == 0.0 { 1e-12 } else { s })) } else { (v, m2) };
    let k = if v == 0.0 && shape == "capsule" { 0.0 } else { mass / w };
    let d = [k * (m2[1] + m2[2]), k * (m2[0] + m2[2]), k * (m2[0] + m2[1])].map(|x| if x.abs() < 1e-20 { 0.0 } else { x });
    Some(Piece { m: mass, c: pos, i: turn_tensor(q, diag(d)) })
}
/// the reading of a whole MJCF document, or everything that is wrong with it
pub fn mjcf(doc: &El) -> Result<RModel, Bad> {
    let mut bad: Bad = vec![];
    let mut set = [("angle", "degree"), ("autolimits", "true"), ("inertiafromgeom", "auto")].map(|(k, v)| (k, v.to_string()));
    for c in doc.kids("compiler") {
        for (k, v) in set.iter_mut() { if let Some(x) = c.get(k) { *v = x.into() } }
        for (k, off) in [("settotalmass", vec![-1.0]), ("boundmass", vec![0.0]), ("boundinertia", vec![0.0]), ("inertiagrouprange", vec![0.0, 5.0])] {
            let v = Rd { bad: &mut bad }.list(&own(c), k);
            if v.is_some_and(|v| v != off) { bad.push(("UnsupportedCompilerSetting", k.into())) }
        }
        match c.get("balanceinertia") {
            None | Some("false") => {}
            Some("true") => bad.push(("UnsupportedCompilerSetting", "balanceinertia".into())),
            _ => bad.push(("BadAttribute", "balanceinertia".into())),
        }
        let ok: [(&str, &[&str]); 3] = [("angle", &["degree", "radian"]), ("autolimits", &["true", "false"]), ("inertiafromgeom", &["true", "false", "auto"])];
        for (k, o) in ok { if c.get(k).is_some_and(|x| !o.contains(&x)) { bad.push(("BadAttribute", k.into())) } }
    }
    let degrees = set[0].1 == "degree";
    let auto = set[1].1 == "true";
    let mut map = HashMap::new();
    for d in doc.kids("default") {
        let from = map.get("main").cloned().unwrap_or_default();
        classes(d, &from, true, &mut map, &mut bad);
    }
    let mut out = RModel { name: doc.get("model").unwrap_or("model").into(), ..Default::default() };
    if doc.kid("worldbody").is_none() { bad.push(("MissingWorldbody", String::new())) }
    struct Cx<'a> { degrees: bool, auto: bool, ifg: &'a str, map: &'a HashMap<String, Class> }
    const ODD: [&str; 5] = ["frame", "replicate", "attach", "composite", "flexcomp"];
    fn body(b: &El, parent: Option<usize>, cc: Option<&str>, cx: &Cx, out: &mut RModel, bad: &mut Bad) {
        let name = b.get("name").unwrap_or("body").to_string();
        let a = own(b);
        turned(&a, bad);
        let pos = Rd { bad }.fixed::<3>(&a, "pos").unwrap_or([0.0; 3]);
        let q = Rd { bad }.quat(&a, "quat");
        let cc = b.get("childclass").or(cc);
        let joints: Vec<&El> = b.ch.iter().filter(|c| c.tag == "joint" || c.tag == "freejoint").collect();
        let mut joint = None;
        if joints.len() > 1 { bad.push(("MultipleJoints", name.clone())) }
        for j in joints {
            if j.tag == "freejoint" || j.get("type") == Some("free") {
                if parent.is_some() { bad.push(("FreeJointNotAtRoot", name.clone())) }
                out.floating = true;
                joint = Some(RJoint { name: name.clone(), k: K::Float, axis: [1.0, 0.0, 0.0], anchor: [0.0; 3], limits: None, n: [0.0; 6], mimic: None });
                continue;
            }
            Rd { bad }.all(&own(j));
            let s = settle(j, cc, cx.map, false, bad);
            let kind = s.get("type").map_or("hinge", |x| x.as_str());
            if kind != "hinge" && kind != "slide" { bad.push(("UnsupportedJoint", name.clone())) }
            let hinge = kind == "hinge";
            let u = if hinge && cx.degrees { std::f64::consts::PI / 180.0 } else { 1.0 };
            let axis = Rd { bad }.fixed::<3>(&s, "axis").unwrap_or([0.0, 0.0, 1.0]);
            let n = norm3(axis);
            if n == 0.0 || axis.iter().any(|x| !x.is_finite()) { bad.push(("BadAttribute", "axis".into())) }
            let anchor = Rd { bad }.fixed::<3>(&s, "pos").unwrap_or([0.0; 3]);
            let range = Rd { bad }.fixed::<2>(&s, "range");
            let limits = match (s.get("limited").map_or("auto", |x| x.as_str()), range) {
                ("false", _) => None,
                ("true", Some(r)) => Some(r),
                ("auto", Some(r)) if cx.auto => Some(r),
                ("auto", None) => None,
                ("true" | "auto", _) => { bad.push(("LimitsNeedRange", name.clone())); None }
                _ => { bad.push(("BadAttribute", "limited".into())); None }
            };
            let mut num = |k: &str, u: f64| Rd { bad }.one(&s, k).unwrap_or(0.0) * u;
            let nn = [num("ref", u), num("armature", 1.0), num("damping", 1.0), num("frictionloss", 1.0), num("springref", u), num("stiffness", 1.0)];
            joint = Some(RJoint {
                name: j.get("name").unwrap_or("joint").into(),
                k: if !hinge { K::Pris } else if limits.is_some() { K::Rev } else { K::Cont },
                axis: sc3(axis, 1.0 / n), anchor, limits: limits.map(|r| (r[0] * u, r[1] * u)), n: nn, mimic: None,
            });
        }
        let stated = b.kid("inertial");
        let inertia = match (cx.ifg, stated) {
            ("false", None) => { bad.push(("NoInertiaSource", name.clone())); None }
            ("false" | "auto", Some(i)) => {
                let a = own(i);
                turned(&a, bad);
                let c = Rd { bad }.fixed::<3>(&a, "pos").unwrap_or([0.0; 3]);
                let m = Rd { bad }.one(&a, "mass");
                if m.is_none() { bad.push(("BadAttribute", "mass".into())) }
                let t = match (Rd { bad }.fixed::<3>(&a, "diaginertia"), Rd { bad }.fixed::<6>(&a, "fullinertia")) {
                    (Some(d), None) => {
                        if d.iter().any(|x| !(*x > 0.0)) { bad.push(("Inertia", String::new())) }
                        turn_tensor(Rd { bad }.quat(&a, "quat"), diag(d))
                    }
                    (None, Some(f)) => [[f[0], f[3], f[4]], [f[3], f[1], f[5]], [f[4], f[5], f[2]]],
                    _ => { bad.push(("BadAttribute", "fullinertia".into())); diag([1.0; 3]) }
                };
                Some((m.unwrap_or(1.0), c, t))
            }
            _ => {
                let p: Vec<Piece> = b.kids("geom").filter_map(|g| geom(g, cc, cx.map, &name, bad)).collect();
                let m: f64 = p.iter().map(|p| p.m).sum();
                if m == 0.0 { bad.push(("NoInertiaSource", name.clone())) }
                let c = sc3(p.iter().fold([0.0; 3], |s, p| add3(s, sc3(p.c, p.m))), 1.0 / m);
                let mut t = [[0.0; 3]; 3];
                for p in &p {
                    let d = sub3(p.c, c);
                    for i in 0..3 { for j in 0..3 { t[i][j] += p.i[i][j] + p.m * (if i == j { dot3(d, d) } else { 0.0 } - d[i] * d[j]) } }
                }
                Some((m, c, t))
            }
        };
        if let Some((m, x, t)) = &inertia {
            if !m.is_finite() || x.iter().chain(t.iter().flatten()).any(|v| !v.is_finite()) { bad.push(("Inertia", String::new())) }
            if !(*m > 0.0) || (0..3).any(|i| !(t[i][i] > 0.0)) { bad.push(("Inertia", String::new())) }
        }
        let at = out.bodies.len();
        out.bodies.push(RBody { name: name.clone(), parent, pose: (q, pos), inertia, joint });
        for c in &b.ch {
            if ODD.contains(&c.tag.as_str()) { bad.push(("UnsupportedElement", c.tag.clone())) }
            if c.tag == "worldbody" { bad.push(("UnsupportedElement", c.tag.clone())) }
            if c.tag == "body" { body(c, Some(at), cc, cx, out, bad) }
        }
    }
    fn world(w: &El, cx: &Cx, out: &mut RModel, bad: &mut Bad) {
        for c in &w.ch {
            if ODD.contains(&c.tag.as_str()) { bad.push(("UnsupportedElement", c.tag.clone())) }
            match c.tag.as_str() { "body" => body(c, None, None, cx, out, bad), "worldbody" => world(c, cx, out, bad), _ => {} }
        }
    }
    let cx = Cx { degrees, auto, ifg: &set[2].1, map: &map };
    for w in doc.kids("worldbody") { world(w, &cx, &mut out, &mut bad) }
    if out.bodies.is_empty() { bad.push(("NoBodies", String::new())) }
    out.ignored = doc.ch.iter().map(|c| c.tag.clone()).filter(|t| !["compiler", "default", "worldbody"].contains(&t.as_str())).collect();
    out.ignored.sort();
    out.ignored.dedup();
    if bad.is_empty() { Ok(out) } else { Err(bad) }
}
/// the reading of a whole URDF document
pub fn urdf(doc: &El) -> Result<RModel, Bad> {
    let mut bad: Bad = vec![];
    let origin = |e: &El, bad: &mut Bad| -> Pose {
        let Some(o) = e.kid("origin") else { return ([1.0, 0.0, 0.0, 0.0], [0.0; 3]) };
        let a = own(o);
        let x = Rd { bad }.fixed::<3>(&a, "xyz").unwrap_or([0.0; 3]);
        let r = Rd { bad }.fixed::<3>(&a, "rpy").unwrap_or([0.0; 3]);
        (qmul(qmul(qexp([0.0, 0.0, r[2]]), qexp([0.0, r[1], 0.0])), qexp([r[0], 0.0, 0.0])), x)
    };
    let need = |e: &El, k: &str, bad: &mut Bad| -> f64 {
        let a = own(e);
        if !a.contains_key(k) { bad.push(("BadAttribute", k.into())) }
        Rd { bad }.one(&a, k).unwrap_or(1.0)
    };
    let mut links: Vec<(String, Option<(f64, V3, [[f64; 3]; 3])>)> = vec![];
    for l in doc.kids("link") {
        let i = l.kid("inertial").map(|i| {
            let (q, x) = origin(i, &mut bad);
            let m = match i.kid("mass") { Some(e) => need(e, "value", &mut bad), None => { bad.push(("BadAttribute", "mass".into())); 1.0 } };
            let t = match i.kid("inertia") {
                Some(e) => {
                    let v = ["ixx", "ixy", "ixz", "iyy", "iyz", "izz"].map(|k| need(e, k, &mut bad));
                    [[v[0], v[1], v[2]], [v[1], v[3], v[4]], [v[2], v[4], v[5]]]
                }
                None => { bad.push(("BadAttribute", "inertia".into())); diag([1.0; 3]) }
            };
            if (0..3).any(|i| !(t[i][i] > 0.0)) { bad.push(("Inertia", String::new())) }
            let t = turn_tensor(q, t);
            if !m.is_finite() || x.iter().chain(t.iter().flatten()).any(|v| !v.is_finite()) { bad.push(("Inertia", String::new())) }
            if !(m > 0.0) || (0..3).any(|i| !(t[i][i] > 0.0)) { bad.push(("Inertia", String::new())) }
            (m, x, t)
        });
        links.push((l.get("name").unwrap_or("link").into(), i));
    }
    struct J { name: String, p: String, c: String, o: Pose, d: Option<RJoint>, float: bool }
    let mut js: Vec<J> = vec![];
    for j in doc.kids("joint") {
        let name = j.get("name").unwrap_or("joint").to_string();
        let mut end = |t: &str| match j.kid(t).and_then(|e| e.get("link")) { Some(l) => l.to_string(), None => { bad.push(("BadAttribute", t.into())); String::new() } };
        let (p, c) = (end("parent"), end("child"));
        let o = origin(j, &mut bad);
        let kind = j.get("type").unwrap_or("");
        let k = match kind { "revolute" => K::Rev, "continuous" => K::Cont, "prismatic" => K::Pris, "fixed" => K::Fix, "floating" => K::Float, _ => { bad.push(("UnsupportedJoint", c.clone())); K::Fix } };
        let mut d = None;
        if matches!(k, K::Rev | K::Cont | K::Pris) {
            let axis = match j.kid("axis") { Some(a) => Rd { bad: &mut bad }.fixed::<3>(&own(a), "xyz").unwrap_or([1.0, 0.0, 0.0]), None => [1.0, 0.0, 0.0] };
            let n = norm3(axis);
            if n == 0.0 || axis.iter().any(|x| !x.is_finite()) { bad.push(("BadAttribute", "xyz".into())) }
            let mut limits = None;
            if k != K::Cont {
                let a = j.kid("limit").map(own).unwrap_or_default();
                match (Rd { bad: &mut bad }.one(&a, "lower"), Rd { bad: &mut bad }.one(&a, "upper")) {
                    (Some(l), Some(u)) => limits = Some((l, u)),
                    _ => bad.push(("JointNeedsLimit", name.clone())),
                }
            }
            let dy = j.kid("dynamics").map(own).unwrap_or_default();
            let damping = Rd { bad: &mut bad }.one(&dy, "damping").unwrap_or(0.0);
            let friction = Rd { bad: &mut bad }.one(&dy, "friction").unwrap_or(0.0);
            let mimic = j.kid("mimic").map(|m| {
                if m.get("joint").is_none() { bad.push(("BadAttribute", "joint".into())) }
                let a = own(m);
                (m.get("joint").unwrap_or("").to_string(), Rd { bad: &mut bad }.one(&a, "multiplier").unwrap_or(1.0), Rd { bad: &mut bad }.one(&a, "offset").unwrap_or(0.0))
            });
            d = Some(RJoint { name: name.clone(), k, axis: sc3(axis, 1.0 / n), anchor: [0.0; 3], limits, n: [0.0, 0.0, damping, friction, 0.0, 0.0], mimic });
        }
        js.push(J { name, p, c, o, d, float: k == K::Float });
    }
    let find = |n: &str| links.iter().position(|l| l.0 == n);
    let mut ok = true;
    let mut ends = vec![];
    for j in &js {
        for l in [&j.p, &j.c] { if find(l).is_none() { bad.push(("UnknownLink", l.clone())); ok = false } }
        ends.push((find(&j.p), find(&j.c)));
        if j.float { bad.push(("FreeJointNotAtRoot", j.c.clone())) }
    }
    let mut out = RModel { name: doc.get("name").unwrap_or("model").into(), ..Default::default() };
    out.ignored = doc.ch.iter().map(|c| c.tag.clone()).filter(|t| t != "link" && t != "joint").collect();
    out.ignored.sort();
    out.ignored.dedup();
    if links.is_empty() { bad.push(("MissingRootLink", String::new())); bad.push(("NoBodies", String::new())) }
    for (i, l) in links.iter().enumerate() {
        if ends.iter().filter(|e| e.1 == Some(i)).count() > 1 { bad.push(("LinkHasTwoParents", l.0.clone())); ok = false }
    }
    if ok {
        let roots: Vec<usize> = (0..links.len()).filter(|i| !ends.iter().any(|e| e.1 == Some(*i))).collect();
        match roots.len() {
            0 => bad.push(("MissingRootLink", String::new())),
            1 => {
                fn go(l: usize, parent: Option<usize>, via: Option<usize>, links: &[(String, Option<(f64, V3, [[f64; 3]; 3])>)], js: &[J], ends: &[(Option<usize>, Option<usize>)], out: &mut RModel) {
                    let at = out.bodies.len();
                    out.bodies.push(RBody { name: links[l].0.clone(), parent, pose: via.map_or(([1.0, 0.0, 0.0, 0.0], [0.0; 3]), |j| js[j].o), inertia: links[l].1, joint: via.and_then(|j| js[j].d.clone()) });
                    for (j, e) in ends.iter().enumerate() {
                        if e.0 == Some(l) { go(e.1.unwrap(), Some(at), Some(j), links, js, ends, out) }
                    }
                }
                go(roots[0], None, None, &links, &js, &ends, &mut out);
                if out.bodies.len() != links.len() { bad.push(("CyclicLinkage", String::new())) }
            }
            _ => bad.push(("MultipleRootLinks", String::new())),
        }
    }
    let _ = js.iter().map(|j| &j.name).count();
    if bad.is_empty() { Ok(out) } else { Err(bad) }
}
