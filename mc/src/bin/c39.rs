//! C39: a call that is refused leaves the object exactly as it was.
//! Every history of accepted and refused calls is run twice: once whole, once without the calls that
//! were refused. Nothing that can be asked of the two objects may ever tell them apart.
use mc::kin::*;
use mc::la::*;
use mc::refmodel::M;
use mc::num::*;
use mc::*;
use multicalc::control::Pid;
use multicalc::estimation::*;
use multicalc::kinematics::{CollisionQuery, Joint, JointParent, KinematicTree, Primitive};
use multicalc::linear_algebra::{Matrix, Vector};
use multicalc::mapping::{DynamicOccupancyGrid, MutableOccupancyMap, ScanGeometry};
use multicalc::motion::{EndOfPath, PolylinePath};
use multicalc::polynomial::{MultivariatePolynomial, MultivariateTerm};
use multicalc::scalar::{Numeric, VectorFn};
use multicalc::signal_processing::{BiquadCascade, BiquadCoefficients};
use multicalc::spatial::{SE3, SO3};
use std::fmt::Debug;

trait Obj: Clone + Send + Sync {
    /// every call of the alphabet, by name
    const ACTS: &'static [&'static str];
    fn act(&mut self, a: &str) -> Result<String, String>;
    /// everything the object can be asked
    fn look(&self) -> String;
}
fn done<V: Debug, E: Debug>(r: Result<V, E>) -> Result<String, String> {
    r.map(|v| format!("{v:?}")).map_err(|e| format!("{e:?}"))
}
fn ok<V: Debug>(v: V) -> Result<String, String> {
    Ok(format!("{v:?}"))
}

#[derive(Clone)]
struct Pair<O> {
    whole: O,
    kept: O,
    refused: bool,
}
fn run<O: Obj>(ck: &Ck, name: &str, depth: usize, make: impl Fn() -> O + Sync) {
    ck.bfs::<Pair<O>>(name, depth, &|| Ok(Pair { whole: make(), kept: make(), refused: false }), O::ACTS.len() as u64, &|a| O::ACTS[a as usize].to_string(),
        &|p, a| {
            let call = O::ACTS[a as usize];
            op(2);
            let got = p.whole.act(call);
            match &got {
                Err(_) => p.refused = true,
                Ok(v) => {
                    let want = p.kept.act(call).map_err(|e| format!("{call} answers {v} after the refused calls and is refused ({e}) without them"))?;
                    ensure!(*v == want, "{call} answers {v} after the refused calls and {want} without them");
                }
            }
            let (w, k) = (p.whole.look(), p.kept.look());
            ensure!(w == k, "after {call} -> {got:?}, a refused call shows:\n   with    {w}\n   without {k}");
            // a call the undisturbed object would take is taken
            if let Err(e) = &got {
                if let Ok(v) = p.kept.clone().act(call) {
                    return Err(format!("{call} is refused ({e}) after the refused calls and answers {v} without them"));
                }
            }
            Ok(h64(&(w, got.is_err())))
        },
        &|_| None);
}

// ---------------------------------------------------------------- filters of a linear model
struct Model(u8);
impl VectorFn<2, 2> for Model {
    fn eval<S: Numeric>(&self, x: &[S; 2]) -> [S; 2] {
        match self.0 {
            0 => [x[0] + S::HALF * x[1], x[1] * S::from_f64(0.75) + x[0] * x[0] * S::from_f64(0.125)],
            1 => [x[0], (-S::ONE - x[1] * x[1]).sqrt()],
            _ => [x[0], (x[1] - x[1]).sqrt()],
        }
    }
}
impl VectorFn<2, 1> for Model {
    fn eval<S: Numeric>(&self, x: &[S; 2]) -> [S; 1] {
        match self.0 {
            0 => [x[0] + x[1] * x[1] * S::from_f64(0.25)],
            1 => [(-S::ONE - x[1] * x[1]).sqrt()],
            _ => [(x[1] - x[1]).sqrt()],
        }
    }
}
const KF: &[&str] = &["predict", "update", "update with NaN", "update with infinity", "indefinite noise", "plain noise", "huge spread", "no spread", "set state"];
#[derive(Clone)]
struct Kf<T: Fl>(KalmanFilter<2, 1, T>);
impl<T: Fl> Obj for Kf<T> {
    const ACTS: &'static [&'static str] = KF;
    fn act(&mut self, a: &str) -> Result<String, String> {
        let k = &mut self.0;
        match a {
            "predict" => ok(k.predict()),
            "update" => done(k.update(lv(&[1.25]))),
            "update with NaN" => done(k.update(lv(&[f64::NAN]))),
            "update with infinity" => done(k.update(lv(&[f64::INFINITY]))),
            "indefinite noise" => ok(k.set_measurement_noise(lm(&vec![vec![-64.0]]))),
            "plain noise" => ok(k.set_measurement_noise(lm(&vec![vec![0.5]]))),
            "huge spread" => ok(k.set_process_noise(Matrix::identity().scale(T::MAX))),
            "no spread" => ok(k.set_process_noise(Matrix::zeros())),
            _ => ok(k.set_state(lv(&[0.5, 2.0]))),
        }
    }
    fn look(&self) -> String {
        let k = &self.0;
        format!("{:?}", (k.state(), k.covariance(), k.innovation(), k.innovation_covariance(), k.normalized_innovation_squared()))
    }
}
macro_rules! nonlinear {
    ($t:ident, $f:ident, $acts:ident) => {
        #[derive(Clone)]
        struct $t<T: Fl>($f<2, 1, T>);
        impl<T: Fl> Obj for $t<T> {
            const ACTS: &'static [&'static str] = $acts;
            fn act(&mut self, a: &str) -> Result<String, String> {
                let k = &mut self.0;
                match a {
                    "predict" => done(k.predict(&Model(0))),
                    "predict with a NaN model" => done(k.predict(&Model(1))),
                    "predict with an endless slope" => done(k.predict(&Model(2))),
                    "update" => done(k.update(&Model(0), lv(&[1.25]))),
                    "update with residual" => done(k.update_with_residual(&Model(0), lv(&[-0.5]))),
                    "update with NaN" => done(k.update(&Model(0), lv(&[f64::NAN]))),
                    "residual of infinity" => done(k.update_with_residual(&Model(0), lv(&[f64::INFINITY]))),
                    "update with a NaN model" => done(k.update(&Model(1), lv(&[1.25]))),
                    "update with an endless slope" => done(k.update(&Model(2), lv(&[1.25]))),
                    "indefinite noise" => ok(k.set_measurement_noise(lm(&vec![vec![-64.0]]))),
                    "plain noise" => ok(k.set_measurement_noise(lm(&vec![vec![0.5]]))),
                    "huge spread" => ok(k.set_process_noise(Matrix::identity().scale(T::MAX))),
                    "indefinite spread" => ok(k.set_process_noise(lm(&diag(&[0.0, -64.0])))),
                    "no spread" => ok(k.set_process_noise(Matrix::zeros())),
                    _ => ok(k.set_state(lv(&[0.5, 2.0]))),
                }
            }
            fn look(&self) -> String {
                let k = &self.0;
                format!("{:?}", (k.state(), k.covariance(), k.innovation(), k.innovation_covariance(), k.normalized_innovation_squared()))
            }
        }
    };
}
const NONLINEAR: &[&str] = &["predict", "predict with a NaN model", "predict with an endless slope", "update", "update with residual", "update with NaN", "residual of infinity", "update with a NaN model", "update with an endless slope", "indefinite noise", "plain noise", "huge spread", "indefinite spread", "no spread", "set state"];
nonlinear!(Ekf, ExtendedKalmanFilter, NONLINEAR);
nonlinear!(Ukf, UnscentedKalmanFilter, NONLINEAR);
fn diag(d: &[f64]) -> M {
    (0..d.len()).map(|i| (0..d.len()).map(|j| if i == j { d[i] } else { 0.0 }).collect()).collect()
}

// ---------------------------------------------------------------- error state filter
struct Sensor(u8);
impl NominalStateFn<3> for Sensor {
    fn eval<S: Numeric>(&self, s: &NominalState<S>) -> [S; 3] {
        let p = s.position();
        match self.0 {
            0 => [p[0], p[1], p[2]],
            1 => [(-S::ONE - p[0] * p[0]).sqrt(), p[1], p[2]],
            _ => [(p[0] - p[0]).sqrt(), p[1], p[2]],
        }
    }
}
impl NominalStateFn<1> for Sensor {
    fn eval<S: Numeric>(&self, s: &NominalState<S>) -> [S; 1] {
        match self.0 {
            0 => [s.velocity()[0]],
            _ => [(s.velocity()[0] - s.velocity()[0]).sqrt()],
        }
    }
}
#[derive(Clone)]
struct Eskf<T: Fl>(ErrorStateKalmanFilter<3, T>);
impl<T: Fl> Obj for Eskf<T> {
    const ACTS: &'static [&'static str] = &["predict", "predict with a NaN gyroscope", "predict with an infinite push", "predict with a NaN timestep", "predict past the largest number", "update", "update with NaN", "update with a NaN model", "update with an endless slope", "update other", "update other with an endless slope", "update other with indefinite noise", "indefinite noise", "plain noise", "condition", "condition to NaN"];
    fn act(&mut self, a: &str) -> Result<String, String> {
        let k = &mut self.0;
        let (w, f) = (lv(&[0.1, -0.2, 0.3]), lv(&[0.5, 0.25, 9.75]));
        let big = g(T::MAX).sqrt();
        match a {
            "predict" => done(k.predict(w, f, t(0.125))),
            "predict with a NaN gyroscope" => done(k.predict(lv(&[f64::NAN, 0.0, 0.0]), f, t(0.125))),
            "predict with an infinite push" => done(k.predict(w, lv(&[0.0, f64::INFINITY, 0.0]), t(0.125))),
            "predict with a NaN timestep" => done(k.predict(w, f, t(f64::NAN))),
            "predict past the largest number" => done(k.predict(lv(&[0.0; 3]), lv(&[big, 0.0, 0.0]), t(16.0))),
            "update" => done(k.update(&Sensor(0), lv(&[0.25, -0.5, 1.0]))),
            "update with NaN" => done(k.update(&Sensor(0), lv(&[0.25, f64::NAN, 1.0]))),
            "update with a NaN model" => done(k.update(&Sensor(1), lv(&[0.25, -0.5, 1.0]))),
            "update with an endless slope" => done(k.update(&Sensor(2), lv(&[0.25, -0.5, 1.0]))),
            "update other" => done(k.update_other(&Sensor(0), lv::<1, T>(&[0.25]), lm(&vec![vec![0.5]]))),
            "update other with an endless slope" => done(k.update_other(&Sensor(2), lv::<1, T>(&[0.25]), lm(&vec![vec![0.5]]))),
            "update other with indefinite noise" => done(k.update_other(&Sensor(0), lv::<1, T>(&[0.25]), lm(&vec![vec![-1e6]]))),
            "indefinite noise" => ok(k.set_measurement_noise(lm(&diag(&[0.5, -1e6, 0.5])))),
            "plain noise" => ok(k.set_measurement_noise(lm(&diag(&[0.5; 3])))),
            "condition" => done(k.condition_covariance(t(0.0625))),
            _ => done(k.condition_covariance(t(0.0))),
        }
    }
    fn look(&self) -> String {
        let k = &self.0;
        format!("{:?}", (k.nominal_state(), k.covariance(), k.innovation(), k.innovation_covariance(), k.normalized_innovation_squared()))
    }
}

// ---------------------------------------------------------------- attitude filters
macro_rules! attitude {
    ($t:ident, $f:ident) => {
        #[derive(Clone)]
        struct $t<T: Fl>($f<T>);
        impl<T: Fl> Obj for $t<T> {
            const ACTS: &'static [&'static str] = &["step", "step without magnetometer", "free fall", "NaN gyroscope", "infinite accelerometer", "NaN magnetometer", "NaN timestep", "gyroscope past the largest number", "infinite timestep without magnetometer", "set orientation"];
            fn act(&mut self, a: &str) -> Result<String, String> {
                let k = &mut self.0;
                let (w, f, m, dt) = (lv(&[0.1, -0.2, 0.3]), lv(&[0.5, 0.25, 9.75]), lv(&[0.5, 0.125, -0.75]), t(0.125));
                match a {
                    "step" => done(k.step(w, f, Some(m), dt)),
                    "step without magnetometer" => done(k.step_without_magnetometer(w, f, dt)),
                    "free fall" => done(k.step(w, lv(&[0.0; 3]), Some(m), dt)),
                    "NaN gyroscope" => done(k.step(lv(&[0.0, f64::NAN, 0.0]), f, Some(m), dt)),
                    "infinite accelerometer" => done(k.step(w, lv(&[0.0, 0.0, f64::INFINITY]), Some(m), dt)),
                    "NaN magnetometer" => done(k.step(w, f, Some(lv(&[f64::NAN, 0.0, 0.0])), dt)),
                    "NaN timestep" => done(k.step(w, f, Some(m), t(f64::NAN))),
                    "gyroscope past the largest number" => done(k.step(Vector::new([T::MAX, T::MAX, T::MAX]), f, Some(m), t(16.0))),
                    "infinite timestep without magnetometer" => done(k.step_without_magnetometer(w, f, t(f64::INFINITY))),
                    _ => ok(k.set_orientation(SO3::exp(lv(&[0.5, 0.0, -0.25])))),
                }
            }
            fn look(&self) -> String {
                format!("{:?}", (self.0.orientation(), self.0.gyroscope_bias()))
            }
        }
    };
}
attitude!(Mahony, MahonyFilter);
attitude!(Madgwick, MadgwickFilter);

// ---------------------------------------------------------------- particles
trait Rs: Fl + multicalc::random::RandomScalar {}
impl Rs for f64 {}
impl Rs for f32 {}
struct Spread;
impl<T: Numeric> Likelihood<1, T> for Spread {
    fn log_weight(&self, p: &[T; 1], m: &[T; 1]) -> T {
        -(p[0] - m[0]) * (p[0] - m[0])
    }
}
#[derive(Clone)]
struct Cloud<T: Rs>(ParticleFilter<2, 1, T>);
impl<T: Rs> Obj for Cloud<T> {
    const ACTS: &'static [&'static str] = &["predict", "update", "update with NaN", "score", "every score minus infinity", "every score NaN", "one score infinite", "set noise", "indefinite noise", "NaN noise", "resample"];
    fn act(&mut self, a: &str) -> Result<String, String> {
        let k = &mut self.0;
        match a {
            "predict" => done(k.predict(&Model(0))),
            "update" => done(k.update(&Model(0), &Spread, lv(&[1.25]))),
            "update with NaN" => done(k.update(&Model(0), &Spread, lv(&[f64::NAN]))),
            "score" => done(k.update_with_log_weights(|p| -p[0] * p[0])),
            "every score minus infinity" => done(k.update_with_log_weights(|_| t(f64::NEG_INFINITY))),
            "every score NaN" => done(k.update_with_log_weights(|_| t(f64::NAN))),
            "one score infinite" => { let mut n = 0; done(k.update_with_log_weights(|_| { n += 1; if n == 3 { t(f64::INFINITY) } else { t(0.0) } })) }
            "set noise" => done(k.set_process_noise(lm(&diag(&[0.25, 0.125])))),
            "indefinite noise" => done(k.set_process_noise(lm(&diag(&[0.25, -0.125])))),
            "NaN noise" => done(k.set_process_noise(lm(&diag(&[f64::NAN, 0.125])))),
            _ => ok(k.resample()),
        }
    }
    fn look(&self) -> String {
        let mut next = self.0.clone();
        let after = next.predict(&Model(0));
        let k = &self.0;
        format!("{:?}", (k.particles(), k.weights(), k.effective_sample_size(), k.mean(), after, next.particles()))
    }
}
#[derive(Clone)]
struct Lost<T: Rs>(MonteCarloLocalizer<3, T>);
impl<T: Rs> Obj for Lost<T> {
    const ACTS: &'static [&'static str] = &["predict", "predict NaN travel", "predict infinite turn", "update", "update in a NaN scan", "set noise", "negative noise", "NaN noise"];
    fn act(&mut self, a: &str) -> Result<String, String> {
        let k = &mut self.0;
        let mut room = DynamicOccupancyGrid::try_new(12, 12, t::<T>(0.25), [T::ZERO; 2]).unwrap();
        room.occupy_polyline(&[[0.1, 0.1], [2.9, 0.1], [2.9, 2.9], [0.1, 2.9]].map(|p: [f64; 2]| p.map(t)), true);
        let scan = ScanGeometry::<3, T>::try_new(t(2.0), t(4.0)).map_err(|e| format!("{e:?}"))?;
        match a {
            "predict" => done(k.predict(t(0.125), t(0.25))),
            "predict NaN travel" => done(k.predict(t(f64::NAN), t(0.25))),
            "predict infinite turn" => done(k.predict(t(0.125), t(f64::NEG_INFINITY))),
            "update" => done(k.update(&[1.0, 1.25, 1.5].map(t), &room, &scan)),
            "update in a NaN scan" => done(k.update(&[f64::NAN; 3].map(t), &room, &scan)),
            "set noise" => done(k.set_motion_noise([0.25, 0.125, 0.0625].map(t))),
            "negative noise" => done(k.set_motion_noise([0.25, -0.125, 0.0625].map(t))),
            _ => done(k.set_motion_noise([0.25, 0.125, f64::NAN].map(t))),
        }
    }
    fn look(&self) -> String {
        let mut next = self.0.clone();
        let after = next.predict(t(0.125), t(0.25));
        let k = &self.0;
        format!("{:?}", (k.particles(), k.estimate(), k.effective_sample_size(), after, next.particles()))
    }
}

// ---------------------------------------------------------------- controllers and filters
#[derive(Clone)]
struct P<T: Fl>(Pid<T>);
impl<T: Fl> Obj for P<T> {
    const ACTS: &'static [&'static str] = &["update", "update high", "gains", "NaN gain", "infinite integral gain", "NaN derivative gain", "resume", "resume from NaN", "resume to an infinite setpoint", "resume at a NaN measurement", "reset"];
    fn act(&mut self, a: &str) -> Result<String, String> {
        let k = &mut self.0;
        match a {
            "update" => ok(k.update(t(1.0), t(0.25))),
            "update high" => ok(k.update(t(64.0), t(-0.5))),
            "gains" => done(k.set_gains(t(0.5), t(2.0), t(0.25))),
            "NaN gain" => done(k.set_gains(t(f64::NAN), t(3.0), t(0.75))),
            "infinite integral gain" => done(k.set_gains(t(4.0), t(f64::INFINITY), t(0.75))),
            "NaN derivative gain" => done(k.set_gains(t(4.0), t(3.0), t(f64::NAN))),
            "resume" => done(k.resume_from(t(2.0), t(1.0), t(0.5))),
            "resume from NaN" => done(k.resume_from(t(f64::NAN), t(1.0), t(0.5))),
            "resume to an infinite setpoint" => done(k.resume_from(t(3.0), t(f64::INFINITY), t(0.5))),
            "resume at a NaN measurement" => done(k.resume_from(t(3.0), t(1.5), t(f64::NAN))),
            _ => ok(k.reset()),
        }
    }
    fn look(&self) -> String {
        let mut next = self.0.clone();
        format!("{:?}", (self.0.integral(), next.update(t(0.5), t(0.75))))
    }
}
#[derive(Clone)]
struct Cascade<T: Fl>(BiquadCascade<2, T>);
impl<T: Fl> Obj for Cascade<T> {
    const ACTS: &'static [&'static str] = &["filter", "set section 0", "set section 1", "set section 2", "set section usize::MAX", "settle", "reset"];
    fn act(&mut self, a: &str) -> Result<String, String> {
        let k = &mut self.0;
        let notch = BiquadCoefficients::notch(t(40.0), t(0.75), t(0.001)).map_err(|e| format!("{e:?}"))?;
        match a {
            "filter" => ok(k.filter(t(1.5))),
            "set section 0" => done(k.set_section(0, notch)),
            "set section 1" => done(k.set_section(1, notch)),
            "set section 2" => done(k.set_section(2, notch)),
            "set section usize::MAX" => done(k.set_section(usize::MAX, notch)),
            "settle" => ok(k.settle_to(t(0.75))),
            _ => ok(k.reset()),
        }
    }
    fn look(&self) -> String {
        let k = &self.0;
        let mut next = k.clone();
        format!("{:?}", (k.value(), k.is_stable(), [3.0, 40.0, 200.0].map(|f| (k.magnitude_at(t(f)), k.phase_at(t(f)))), next.filter(t(-0.5)), next.filter(t(0.25))))
    }
}

// ---------------------------------------------------------------- things built one piece at a time
#[derive(Clone)]
struct Tree<T: Fl>(KinematicTree<3, 9, T>);
fn limb<T: Fl>() -> Joint<T> {
    Joint::revolute(lv(&[0.0, 3.0, 4.0]), se(([0.9238795325112867, 0.3826834323650898, 0.0, 0.0], [0.5, 0.25, -1.0])))
}
impl<T: Fl> Obj for Tree<T> {
    const ACTS: &'static [&'static str] = &["hinge on the world", "slide on the last", "fixed on the first", "floating base", "floating on a joint", "parent not there yet", "parent usize::MAX", "no axis", "NaN axis", "NaN origin", "limits reversed", "infinite limit", "continuous with limits", "NaN damping", "NaN zero"];
    fn act(&mut self, a: &str) -> Result<String, String> {
        let k = &mut self.0;
        let n = k.len();
        let last = if n == 0 { JointParent::World } else { JointParent::Joint(n - 1) };
        let nan = t::<T>(f64::NAN);
        done(match a {
            "hinge on the world" => k.push(limb().with_limits(t(-1.0), t(2.0)).with_damping(t(0.5)), JointParent::World),
            "slide on the last" => k.push(Joint::prismatic(lv(&[0.0, 0.0, -2.0]), SE3::identity()), last),
            "fixed on the first" => k.push(Joint::fixed(limb().origin()), JointParent::Joint(0)),
            "floating base" => k.push(Joint::floating(SE3::identity()), JointParent::World),
            "floating on a joint" => k.push(Joint::floating(limb().origin()), last),
            "parent not there yet" => k.push(limb(), JointParent::Joint(n)),
            "parent usize::MAX" => k.push(limb(), JointParent::Joint(usize::MAX)),
            "no axis" => k.push(Joint::revolute(lv(&[0.0; 3]), SE3::identity()), last),
            "NaN axis" => k.push(Joint::prismatic(lv(&[0.0, f64::NAN, 1.0]), SE3::identity()), last),
            "NaN origin" => k.push(Joint::fixed(SE3::from_parts(SO3::identity(), lv(&[0.0, 0.0, f64::NAN]))), last),
            "limits reversed" => k.push(limb().with_limits(t(2.0), t(-1.0)), last),
            "infinite limit" => k.push(limb().with_limits(t(-1.0), t(f64::INFINITY)), last),
            "continuous with limits" => k.push(Joint::continuous(lv(&[1.0, 0.0, 0.0]), SE3::identity()).with_limits(t(-1.0), t(1.0)), last),
            "NaN damping" => k.push(limb().with_damping(nan), last),
            _ => k.push(limb().with_zero_offset(nan), last),
        })
    }
    fn look(&self) -> String {
        let k = &self.0;
        let n = k.config_len();
        let mut q = Vector::<9, T>::from_fn(|i| if i < n { t(0.25) } else { t(0.0) });
        if n >= 7 && k.joint(0).is_some_and(|j| j.kind() == multicalc::kinematics::JointKind::Floating) {
            q[3] = T::ONE;
        }
        let poses = k.forward_kinematics(&q).map(|s| (0..k.len()).map(|i| s.pose(i)).collect::<Vec<_>>());
        format!("{:?}", (k.len(), k.is_empty(), n, k.velocity_len(), (0..4).map(|i| (k.joint(i), k.parent(i))).collect::<Vec<_>>(), poses))
    }
}
#[derive(Clone)]
struct Shapes<T: Fl>(CollisionQuery<2, 2, 1, T>, KinematicTree<2, 8, T>);
impl<T: Fl> Obj for Shapes<T> {
    const ACTS: &'static [&'static str] = &["ball on 0", "capsule on 1", "ball on a frame not there", "ball in the world", "capsule in the world", "exclude 0 1", "exclude 7 9"];
    fn act(&mut self, a: &str) -> Result<String, String> {
        let k = &mut self.0;
        let at = limb::<T>().origin();
        let (ball, capsule) = (Primitive::Sphere { radius: t(0.25) }, Primitive::Capsule { radius: t(0.125), half_length: t(0.5) });
        match a {
            "ball on 0" => done(k.push_self_primitive(0, ball, at)),
            "capsule on 1" => done(k.push_self_primitive(1, capsule, SE3::identity())),
            "ball on a frame not there" => done(k.push_self_primitive(5, ball, SE3::identity())),
            "ball in the world" => done(k.push_environment_primitive(ball, at * at)),
            "capsule in the world" => done(k.push_environment_primitive(capsule, at)),
            "exclude 0 1" => done(k.exclude_pair(0, 1)),
            _ => done(k.exclude_pair(7, 9)),
        }
    }
    fn look(&self) -> String {
        let state = self.1.forward_kinematics(&lv(&[0.5, -0.75, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0])).unwrap();
        format!("{:?}", (self.0.self_primitive_count(), self.0.environment_primitive_count(), self.0.check(&state)))
    }
}
#[derive(Clone)]
struct Path<T: Fl>(PolylinePath<3, 2, T>);
impl<T: Fl> Obj for Path<T> {
    const ACTS: &'static [&'static str] = &["push a", "push b", "push NaN", "push infinity", "loop"];
    fn act(&mut self, a: &str) -> Result<String, String> {
        let k = &mut self.0;
        match a {
            "push a" => done(k.push(lv(&[3.0, 4.0]))),
            "push b" => done(k.push(lv(&[-1.0, 0.5]))),
            "push NaN" => done(k.push(lv(&[f64::NAN, 0.5]))),
            "push infinity" => done(k.push(lv(&[0.5, f64::NEG_INFINITY]))),
            _ => { *k = k.clone().with_end_of_path(EndOfPath::Loop); ok(()) }
        }
    }
    fn look(&self) -> String {
        let k = &self.0;
        format!("{:?}", (k.len(), k.is_empty(), k.waypoints(), k.total_arc_length(), [[0.0, 0.0], [5.0, 5.0], [-2.0, 1.0]].map(|q| k.closest_point(lv(&q))), [0.0, 1.0, 4.0, 9.0].map(|s| k.lookahead_point(t(s), t(0.75)))))
    }
}
#[derive(Clone)]
struct Terms<T: Fl>(MultivariatePolynomial<2, 3, T>);
impl<T: Fl> Obj for Terms<T> {
    const ACTS: &'static [&'static str] = &["push 3xy", "push -xy", "push y^3", "push NaN", "push infinity", "collect"];
    fn act(&mut self, a: &str) -> Result<String, String> {
        let k = &mut self.0;
        match a {
            "push 3xy" => done(k.push(MultivariateTerm::new(t(3.0), [1, 1]))),
            "push -xy" => done(k.push(MultivariateTerm::new(t(-1.0), [1, 1]))),
            "push y^3" => done(k.push(MultivariateTerm::new(t(0.5), [0, 3]))),
            "push NaN" => done(k.push(MultivariateTerm::new(t(f64::NAN), [2, 0]))),
            "push infinity" => done(k.push(MultivariateTerm::new(t(f64::INFINITY), [2, 0]))),
            _ => ok(k.collect_like_terms()),
        }
    }
    fn look(&self) -> String {
        let k = &self.0;
        format!("{:?}", (k.len(), k.is_empty(), k.terms(), k.is_finite(), k.evaluate(&[t(1.5), t(-2.0)]), k.gradient_at(&[t(1.5), t(-2.0)]), k.total_degree(), k.degree_in(0), k.degree_in(1)))
    }
}
#[derive(Clone)]
struct Entries<T: Fl>(Vector<3, T>, Matrix<2, 3, T>);
impl<T: Fl> Obj for Entries<T> {
    const ACTS: &'static [&'static str] = &["normalize", "set 1", "set 3", "zero out", "make NaN", "make infinite", "make huge", "set (1, 2)", "set (2, 0)", "set (0, 3)"];
    fn act(&mut self, a: &str) -> Result<String, String> {
        let at = |o: Option<&mut T>, v: f64| match o {
            Some(x) => { *x = t(v); ok(()) }
            None => Err("none".into()),
        };
        match a {
            "normalize" => self.0.try_normalize().map(|_| String::new()).ok_or("none".into()),
            "set 1" => at(self.0.get_mut(1), 0.75),
            "set 3" => at(self.0.get_mut(3), 0.75),
            "zero out" => { for i in 0..3 { self.0[i] = T::ZERO } ok(()) }
            "make NaN" => at(self.0.get_mut(2), f64::NAN),
            "make infinite" => at(self.0.get_mut(0), f64::INFINITY),
            "make huge" => { self.0[0] = T::MAX; ok(()) }
            "set (1, 2)" => at(self.1.get_mut(1, 2), 0.5),
            "set (2, 0)" => at(self.1.get_mut(2, 0), 0.5),
            _ => at(self.1.get_mut(0, 3), 0.5),
        }
    }
    fn look(&self) -> String {
        format!("{:?}", (self.0.as_array(), self.1))
    }
}

fn all<T: Rs>(ck: &Ck) {
    let nm = T::NAME;
    let (x0, p0) = (lv(&[0.25, -0.5]), lm(&vec![vec![1.0, 0.25], vec![0.25, 0.5]]));
    let (q, r) = (lm(&diag(&[0.125, 0.0625])), lm(&vec![vec![0.5]]));
    for (how, name) in [(CovarianceUpdate::Joseph, "joseph"), (CovarianceUpdate::Naive, "naive")] {
        run(ck, &format!("kalman {name} {nm}"), ck.q(6, 7), || {
            Kf(KalmanFilter::<2, 1, T>::new(x0, p0, KalmanModel { state_transition: lm(&vec![vec![1.0, 0.5], vec![0.0, 1.0]]), measurement_model: lm(&vec![vec![1.0, 0.25]]), process_noise: q, measurement_noise: r }).with_covariance_update(how))
        });
        run(ck, &format!("extended {name} {nm}"), ck.q(5, 6), || Ekf(ExtendedKalmanFilter::<2, 1, T>::new(x0, p0, q, r).with_covariance_update(how)));
        run(ck, &format!("error state {name} {nm}"), ck.q(4, 5), || {
            let start = NominalState::new(lv(&[0.0, 0.5, -0.25]), lv(&[0.5, 0.0, 0.0]), SO3::exp(lv(&[0.25, -0.5, 0.125])), lv(&[0.01, 0.0, -0.02]), lv(&[0.0, 0.03, 0.0]));
            let noise = ImuNoise { gyroscope_noise_density: t(0.01), accelerometer_noise_density: t(0.1), gyroscope_bias_random_walk: t(0.001), accelerometer_bias_random_walk: t(0.002) };
            Eskf(ErrorStateKalmanFilter::<3, T>::new(start, Matrix::identity().scale(t(0.25)), noise, lm(&diag(&[0.5; 3]))).with_covariance_update(how))
        });
    }
    run(ck, &format!("unscented {nm}"), ck.q(5, 6), || Ukf(UnscentedKalmanFilter::<2, 1, T>::new(x0, p0, q, r)));
    run(ck, &format!("unscented, tuned {nm}"), ck.q(5, 6), || Ukf(UnscentedKalmanFilter::<2, 1, T>::new(x0, p0, q, r).with_scaling(t(0.5), t(2.0), t(1.0)).unwrap().with_regularization(t(0.001)).unwrap()));
    run(ck, &format!("mahony {nm}"), ck.q(5, 6), || Mahony(MahonyFilter::<T>::new(SO3::exp(lv(&[0.25, -0.5, 0.125])))));
    run(ck, &format!("madgwick {nm}"), ck.q(5, 6), || Madgwick(MadgwickFilter::<T>::new(SO3::exp(lv(&[0.25, -0.5, 0.125])))));
    for (scheme, name) in [(ResamplingScheme::Systematic, "systematic"), (ResamplingScheme::Residual, "residual")] {
        run(ck, &format!("particles {name} {nm}"), ck.q(4, 5), || Cloud(ParticleFilter::<2, 1, T>::new(5, x0, p0, q, 11).unwrap().with_resampling(scheme).with_roughening(t(0.05))));
    }
    run(ck, &format!("localizer {nm}"), ck.q(5, 6), || Lost(MonteCarloLocalizer::<3, T>::new([1.5, 1.5, 0.25].map(t), InitialParticleCloud { particle_count: 6, position_variance: t(0.0625), heading_variance: t(0.0625) }, BeamModel::default(), 3).unwrap()));
    run(ck, &format!("pid {nm}"), ck.q(5, 6), || P(Pid::<T>::new(t(1.5), t(0.5), t(0.25), t(0.125)).unwrap().with_output_limits(t(-4.0), t(4.0)).unwrap().with_derivative_filter(t(0.5)).unwrap()));
    run(ck, &format!("cascade {nm}"), ck.q(6, 7), || { let c = BiquadCoefficients::low_pass(t(20.0), t(0.7), t(0.001)).unwrap(); Cascade(BiquadCascade::<2, T>::new([c, c])) });
    run(ck, &format!("tree {nm}"), ck.q(5, 5), || Tree(KinematicTree::<3, 9, T>::new()));
    run(ck, &format!("shapes {nm}"), ck.q(6, 7), || {
        let mut tree = KinematicTree::<2, 8, T>::new();
        tree.push(limb(), JointParent::World).unwrap();
        tree.push(limb(), JointParent::Joint(0)).unwrap();
        Shapes(CollisionQuery::new(), tree)
    });
    run(ck, &format!("path {nm}"), ck.q(7, 8), || Path(PolylinePath::<3, 2, T>::new()));
    run(ck, &format!("terms {nm}"), ck.q(7, 8), || Terms(MultivariatePolynomial::<2, 3, T>::new()));
    run(ck, &format!("entries {nm}"), ck.q(5, 6), || Entries::<T>(lv(&[3.0, -4.0, 0.5]), Matrix::<2, 3, T>::zeros()));
}
fn main() {
    let ck = Ck::new("C39");
    all::<f64>(&ck);
    all::<f32>(&ck);
    ck.assume("a particle filter's predict is left out: it moves every particle and reports afterwards, as its text says");
    ck.finish()
}
