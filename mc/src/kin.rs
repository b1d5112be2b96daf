//! Reference kinematic tree in f64: forward kinematics and its derivative.
use crate::la::*;
use crate::num::*;
use crate::refmodel::*;
use multicalc::kinematics::*;
use multicalc::linear_algebra::Vector;
use multicalc::spatial::*;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum K {
    Rev,
    Cont,
    Pris,
    Fix,
    Float,
}
#[derive(Clone, Copy, Debug)]
pub struct RJ {
    pub k: K,
    pub axis: V3,
    pub anchor: V3,
    pub origin: (Q, V3),
    pub zero: f64,
}
#[derive(Clone, Debug)]
pub struct RTree {
    pub j: Vec<RJ>,
    pub p: Vec<Option<usize>>,
}
pub type Pose = (Q, V3);
pub fn pmul(a: Pose, b: Pose) -> Pose {
    (qmul(a.0, b.0), add3(a.1, qrot(a.0, b.1)))
}
pub fn pinv(a: Pose) -> Pose {
    let q = qconj(a.0);
    (q, sc3(qrot(q, a.1), -1.0))
}
pub fn rj(k: K, axis: V3, origin: Pose) -> RJ {
    RJ { k, axis, anchor: [0.0; 3], origin, zero: 0.0 }
}
pub fn v3<T: Fl>(a: V3) -> Vector<3, T> {
    Vector::new(ta(a))
}
pub fn so<T: Fl>(q: Q) -> SO3<T> {
    SO3::from_quaternion(Quaternion::from_array(ta(q)))
}
pub fn se<T: Fl>(p: Pose) -> SE3<T> {
    SE3::from_parts(so(p.0), v3(p.1))
}
pub fn pose_of<T: Fl>(x: SE3<T>) -> Pose {
    (qnormed(ga(x.rotation().quaternion().as_array())), ga(*x.translation().as_array()))
}
pub fn joint<T: Fl>(j: &RJ) -> Joint<T> {
    let o = se::<T>(j.origin);
    let x = match j.k {
        K::Rev => Joint::revolute(v3(j.axis), o),
        K::Cont => Joint::continuous(v3(j.axis), o),
        K::Pris => Joint::prismatic(v3(j.axis), o),
        K::Fix => Joint::fixed(o),
        K::Float => Joint::floating(o),
    };
    // a zero anchor or reference reading is what a joint starts with
    let x = if j.anchor == [0.0; 3] { x } else { x.with_anchor(v3(j.anchor)) };
    if j.zero == 0.0 { x } else { x.with_zero_offset(t(j.zero)) }
}
pub fn par(p: Option<usize>) -> JointParent {
    p.map_or(JointParent::World, JointParent::Joint)
}
impl RTree {
    pub fn floating(&self) -> bool {
        !self.j.is_empty() && self.j[0].k == K::Float
    }
    pub fn off(&self, i: usize) -> usize {
        if self.floating() && i > 0 { i + 6 } else { i }
    }
    pub fn voff(&self, i: usize) -> usize {
        if self.floating() && i > 0 { i + 5 } else { i }
    }
    pub fn cfg(&self) -> usize {
        self.j.len() + if self.floating() { 6 } else { 0 }
    }
    pub fn vel(&self) -> usize {
        self.j.len() + if self.floating() { 5 } else { 0 }
    }
    pub fn build<const J: usize, const C: usize, T: Fl>(&self) -> Result<KinematicTree<J, C, T>, String> {
        let mut tr = KinematicTree::new();
        for (j, p) in self.j.iter().zip(&self.p) {
            tr.push(joint(j), par(*p)).map_err(|e| format!("push {j:?}: {e:?}"))?;
        }
        Ok(tr)
    }
    pub fn fk(&self, c: &[f64]) -> Vec<Pose> {
        let mut out: Vec<Pose> = vec![];
        for (i, j) in self.j.iter().enumerate() {
            let base = self.p[i].map_or(([1.0, 0.0, 0.0, 0.0], [0.0; 3]), |p| out[p]);
            let o = self.off(i);
            let ax = sc3(j.axis, 1.0 / norm3(j.axis));
            let local = match j.k {
                K::Rev | K::Cont => {
                    let q = qexp(sc3(ax, c[o] - j.zero));
                    (q, sub3(j.anchor, qrot(q, j.anchor)))
                }
                K::Pris => ([1.0, 0.0, 0.0, 0.0], sc3(ax, c[o] - j.zero)),
                K::Fix => ([1.0, 0.0, 0.0, 0.0], [0.0; 3]),
                K::Float => (qnormed([c[o + 3], c[o + 4], c[o + 5], c[o + 6]]), [c[o], c[o + 1], c[o + 2]]),
            };
            out.push(pmul(pmul(base, j.origin), local));
        }
        out
    }
    /// the configuration after moving velocity coordinate `k` by `h`
    pub fn nudge(&self, c: &[f64], k: usize, h: f64) -> Vec<f64> {
        let mut c = c.to_vec();
        if self.floating() {
            if k < 3 {
                c[k] += h;
            } else if k < 6 {
                let mut w = [0.0; 3];
                w[k - 3] = h;
                let q = qmul(qnormed([c[3], c[4], c[5], c[6]]), qexp(w));
                c[3..7].copy_from_slice(&q);
            } else {
                c[k + 1] += h;
            }
        } else {
            c[k] += h;
        }
        c
    }
    /// twist [v; w] of `tool` per velocity coordinate, world axes, by central differences
    pub fn jac(&self, c: &[f64], tool: usize, body: bool) -> M {
        let h = 1e-5;
        let mut m = vec![vec![0.0; self.vel()]; 6];
        let here = self.fk(c)[tool];
        for k in 0..self.vel() {
            let a = self.fk(&self.nudge(c, k, h))[tool];
            let b = self.fk(&self.nudge(c, k, -h))[tool];
            let v = sc3(sub3(a.1, b.1), 0.5 / h);
            let mut d = qmul(a.0, qconj(b.0));
            if d[0] < 0.0 {
                d = d.map(|x| -x);
            }
            let w = sc3([d[1], d[2], d[3]], 1.0 / h);
            let (v, w) = if body { (qrot(qconj(here.0), v), qrot(qconj(here.0), w)) } else { (v, w) };
            for r in 0..3 {
                m[r][k] = v[r];
                m[r + 3][k] = w[r];
            }
        }
        m
    }
}
pub fn pose_close<T: Fl>(got: SE3<T>, want: Pose, tol: f64, what: &str) -> Result<(), String> {
    let gq = pose_of(got);
    let n: f64 = ga(got.rotation().quaternion().as_array()).iter().map(|x| x * x).sum::<f64>().sqrt();
    if (n - 1.0).abs() > tol || !n.is_finite() {
        return Err(format!("{what}: rotation not unit ({n})"));
    }
    if !(qdist(gq.0, want.0) <= tol) {
        return Err(format!("{what}: rotation {:?}, expected {:?}", gq.0, want.0));
    }
    vclose(&gq.1, &want.1, tol * (1.0 + norm3(want.1)), what)
}
