//! C38: differentiating an algorithm end to end gives its derivative: every algorithm run on dual,
//! hyper-dual and Taylor scalars keeps its value and its decisions and carries the true derivatives.
use mc::*;
use multicalc::control::*;
use multicalc::discretization::*;
use multicalc::dynamics::*;
use multicalc::estimation::*;
use multicalc::kinematics::*;
use multicalc::linear_algebra::*;
use multicalc::motion::*;
use multicalc::ode::*;
use multicalc::plant::*;
use multicalc::polynomial::*;
use multicalc::scalar::*;
use multicalc::signal_processing::*;
use multicalc::spatial::*;
use multicalc::*;

type H = HyperDual<f64>;
type J4 = Jet<f64, 4>;
type DD = Dual<Dual<f64>>;

/// One algorithm from its inputs to its outputs. No output at all: it refused.
trait Alg: Sync {
    const NAME: &'static str;
    fn base() -> Vec<f64>;
    fn run<T: Numeric>(s: &[T], o: &mut Vec<T>) -> Option<()>;
}
fn call<A: Alg, T: Numeric>(s: &[T]) -> Vec<T> {
    let mut o = vec![];
    op(1);
    if A::run(s, &mut o).is_none() { o.clear() }
    o
}
fn k<T: Numeric>(x: f64) -> T { T::from_f64(x) }
fn v3<T: Numeric>(s: &[T]) -> Vector<3, T> { Vector::new([s[0], s[1], s[2]]) }
fn v2<T: Numeric>(s: &[T]) -> Vector<2, T> { Vector::new([s[0], s[1]]) }
fn quat<T: Numeric>(s: &[T]) -> Quaternion<T> { Quaternion::new(s[0], s[1], s[2], s[3]) }
fn pv<const N: usize, T: Numeric>(o: &mut Vec<T>, v: Vector<N, T>) { o.extend(v.into_array()) }
fn pm<const R: usize, const C: usize, T: Numeric>(o: &mut Vec<T>, m: &Matrix<R, C, T>) { for i in 0..R { for j in 0..C { o.push(m[(i, j)]) } } }
fn pq<T: Numeric>(o: &mut Vec<T>, q: Quaternion<T>) { o.push(q.w()); pv(o, q.vec()) }
fn pr<T: Numeric>(o: &mut Vec<T>, r: SO3<T>) { pm(o, &r.to_matrix()) }
fn pp<T: Numeric>(o: &mut Vec<T>, p: SE3<T>) { pr(o, p.rotation()); pv(o, p.translation()) }
fn p2<T: Numeric>(o: &mut Vec<T>, p: SE2<T>) { let r = p.rotation(); pm(o, &r.to_matrix()); pv(o, p.translation()) }
fn turn<T: Numeric>(s: &[T]) -> SO3<T> { SO3::exp(v3(s)) }

macro_rules! algs {
    ($($n:ident $b:expr, |$s:ident, $o:ident| $body:block)*) => {
        $(
            #[allow(non_camel_case_types)]
            struct $n;
            impl Alg for $n {
                const NAME: &'static str = stringify!($n);
                fn base() -> Vec<f64> { $b.to_vec() }
                #[allow(unused_variables)]
                fn run<T: Numeric>($s: &[T], $o: &mut Vec<T>) -> Option<()> { $body Some(()) }
            }
        )*
        fn all(ck: &Ck) { $( explore::<$n>(ck); )* }
    };
}
algs! {
    quaternion_product [0.9, 0.1, -0.2, 0.3, 0.4, 0.5, 0.6, -0.7], |s, o| {
        let (a, b) = (quat(s), quat(&s[4..]));
        for q in [a * b, a.conjugate(), a.inverse(), a.exp(), a.log(), a.normalized()] { pq(o, q) }
        o.extend([a.norm(), a.dot(b), a.rotation_angle_to(b)]);
    }
    slerp [0.9, 0.1, -0.2, 0.3, 0.4, 0.5, 0.6, -0.7, 0.35], |s, o| {
        let (a, b) = (quat(s).normalized(), quat(&s[4..]).normalized());
        pq(o, a.slerp(b, s[8]));
        pr(o, SO3::exp(a.vec()).interpolate(SO3::exp(b.vec()), s[8]));
    }
    euler [0.4, -0.3, 0.9], |s, o| {
        let q = Quaternion::from_euler_zyx(s[0], s[1], s[2]);
        pq(o, q);
        let (r, p, y) = q.to_euler_zyx();
        o.extend([r, p, y]);
        pm(o, &q.to_rotation_matrix());
        pv(o, q.to_scaled_axis());
    }
    two_vectors [0.3, -0.5, 0.8, -0.2, 0.7, 0.4], |s, o| {
        let q = Quaternion::from_two_vectors(v3(s), v3(&s[3..]));
        pm(o, &q.to_rotation_matrix());
    }
    so3_exp [0.4, -0.7, 0.2, 0.5, 0.6, -0.4], |s, o| {
        let (a, b) = (turn(s), turn(&s[3..]));
        pr(o, a.compose(b));
        pv(o, a.act(v3(&s[3..])));
        pm(o, &SO3::left_jacobian(v3(s)));
        pm(o, &SO3::right_jacobian(v3(s)));
        pm(o, &SO3::left_jacobian_inverse(v3(s)));
        pm(o, &SO3::right_jacobian_inverse(v3(s)));
    }
    so3_log [0.4, -0.7, 0.2, 0.5, 0.6, -0.4], |s, o| {
        let (a, b) = (turn(s), turn(&s[3..]));
        pv(o, a.inverse().compose(b).log());
    }
    se3_exp [0.4, -0.7, 0.2, 0.5, 0.6, -0.4], |s, o| {
        let x = Vector::new(core::array::from_fn::<T, 6, _>(|i| s[i]));
        let a = SE3::exp(x);
        pp(o, a);
        pv(o, a.log());
        pm(o, &a.adjoint());
        pm(o, &SE3::left_jacobian(x));
        pm(o, &SE3::right_jacobian_inverse(x));
    }
    se3_interpolate [0.4, -0.7, 0.2, 0.5, 0.6, -0.4, 0.1, 0.9, -0.3, 0.2, 0.3, 0.8, 0.35], |s, o| {
        let x = |i: usize| Vector::new(core::array::from_fn::<T, 6, _>(|j| s[i + j]));
        pp(o, SE3::exp(x(0)).interpolate(SE3::exp(x(6)), s[12]));
        pv(o, SE3::exp(x(0)).inverse().compose(SE3::exp(x(6))).log());
    }
    se2 [0.5, -0.8, 0.7, 0.2, 0.3, -0.4, 0.6], |s, o| {
        let (x, y) = (v3(s), v3(&s[3..]));
        let (a, b) = (SE2::exp(x), SE2::exp(y));
        p2(o, a.compose(b));
        pv(o, a.log());
        pv(o, a.inverse().compose(b).log());
        p2(o, a.interpolate(b, s[6]));
        pv(o, a.act(Vector::new([s[3], s[4]])));
        pm(o, &SE2::left_jacobian(x));
        pm(o, &SE2::right_jacobian_inverse(x));
    }
    so2 [0.7, -1.9, 0.35], |s, o| {
        let (a, b) = (SO2::from_angle(s[0]), SO2::from_angle(s[1]));
        let c = a.compose(b).interpolate(b, s[2]);
        pm(o, &c.to_matrix());
        o.extend([a.log(), a.compose(b).log()]);
    }
    spatial [0.4, -0.7, 0.2, 0.5, 0.6, -0.4, 0.1, 0.9, -0.3, 0.2, 0.3, 0.8, 2.0, 0.1, 0.2, -0.1, 1.0, 1.5, 2.0], |s, o| {
        let p = SE3::from_parts(turn(s), v3(&s[3..]));
        let (v, w) = (Twist::new(v3(&s[6..]), v3(&s[9..])), Wrench::new(v3(&s[3..]), v3(&s[6..])));
        let i = SpatialInertia::from_diagonal_inertia(s[12], v3(&s[13..]), v3(&s[16..])).ok()?;
        for x in [p.act_twist(v), p.inverse_act_twist(v), v.cross(v)] { pv(o, x.to_vector()) }
        for x in [p.act_wrench(w), p.inverse_act_wrench(w), v.cross_wrench(w), i.momentum(v), i.bias_wrench(v)] { pv(o, x.to_vector()) }
        o.extend([v.dot_wrench(w), i.kinetic_energy(v)]);
        pm(o, &p.act_inertia(i).to_matrix());
        pm(o, &p.inverse_act_inertia(i).combined(i).to_matrix());
        let b = RigidBody::new(i, v3(&s[6..])).ok()?;
        let n = b.stepped(FreeJointState::new(p, v), w, k(0.05));
        pp(o, n.pose());
        pv(o, n.velocity().to_vector());
        o.extend(b.state_derivative(&state_vector_from_free_joint(n), w).into_array());
    }
    attitude_integration [0.4, -0.7, 0.2, 0.5, 0.6, -0.4, 0.1, 0.2, 0.3, 0.25], |s, o| {
        let a = turn(s);
        pr(o, ExponentialMap::attitude_step(a, v3(&s[3..]), s[9]));
        pr(o, ExponentialMap::attitude_step_with_angular_acceleration(a, v3(&s[3..]), v3(&s[6..]), s[9]));
        pr(o, ExponentialMap::integrate_attitude(&|t: T, r: SO3<T>| v3(&s[3..]) * (k::<T>(1.0) + t) + r.act(v3(&s[6..])), s[0], a, s[9], 3, |_, _| ()).ok()?);
    }
    vectors [0.4, -0.7, 0.2, 0.5, 0.6, -0.4, 1.1, -0.3, 0.8], |s, o| {
        let (a, b, c) = (v3(s), v3(&s[3..]), v3(&s[6..]));
        o.extend([a.norm(), a.dot(b), a.scalar_triple(b, c)]);
        pv(o, a.cross(b));
        pv(o, a.try_normalized()?);
        pv(o, b.normalized());
    }
    square_matrix [2.0, 0.5, 0.1, 0.4, 3.0, -0.2, 0.1, 0.3, 1.5, 0.7, -1.2, 0.4], |s, o| {
        let m = Matrix::new([[s[0], s[1], s[2]], [s[3], s[4], s[5]], [s[6], s[7], s[8]]]);
        let b = v3(&s[9..]);
        o.extend([m.determinant(), m.trace(), m.frobenius_norm()]);
        pm(o, &m.inverse().ok()?);
        pv(o, m.solve(b).ok()?);
        let l = m.lu_decompose().ok()?;
        pv(o, l.solve(b));
        pm(o, &l.solve_matrix(m * m));
        let y = m * m.transpose() + Matrix::identity();
        let c = y.cholesky().ok()?;
        pm(o, &c.lower());
        pv(o, c.solve(b));
        o.push(c.determinant());
        pm(o, &c.inverse());
    }
    matrix_exponential [0.3, 0.5, 0.1, 0.4, -0.6, -0.2, 0.1, 0.3, 0.9], |s, o| {
        let m = Matrix::new([[s[0], s[1], s[2]], [s[3], s[4], s[5]], [s[6], s[7], s[8]]]);
        pm(o, &m.expm().ok()?);
        pm(o, &m.scale(k(7.0)).expm().ok()?);
    }
    least_squares [2.0, 0.5, 0.4, 3.0, -0.2, 0.1, 0.3, 1.5, 0.7, -1.2, 0.4, 0.9], |s, o| {
        let m = Matrix::<4, 2, T>::from_fn(|i, j| s[2 * i + j]);
        let b = Vector::new([s[8], s[9], s[10], s[11]]);
        pv(o, PivotedQr::decompose(m).ok()?.solve_least_squares(b).ok()?);
    }
    eigenvalues [2.0, 0.5, 0.1, 3.0, -0.2, 1.5], |s, o| {
        let m = Matrix::new([[s[0], s[1], s[2]], [s[1], s[3], s[4]], [s[2], s[4], s[5]]]);
        pv(o, m.symmetric_eigendecomposition().ok()?.eigenvalues());
    }
    singular_values [2.0, 0.5, 0.1, 0.4, 3.0, -0.2], |s, o| {
        let m = Matrix::<3, 2, T>::from_fn(|i, j| s[2 * i + j]);
        pv(o, m.svd().ok()?.singular_values());
        pm(o, &m.pseudo_inverse().ok()?);
    }
    discretization [0.3, 0.5, -0.4, 0.8, 0.2, 0.7, 1.0, 0.3, 0.6, 0.15], |s, o| {
        let a = Matrix::new([[s[0], s[1]], [s[2], s[3]]]);
        let (p, q) = zoh::<2, 1, 3, T>(a, Matrix::new([[s[4]], [s[5]]]), s[9]).ok()?;
        pm(o, &p);
        pm(o, &q);
        let (p, q) = van_loan::<2, 4, T>(a, Matrix::new([[s[6], s[7]], [s[7], s[8]]]), s[9]).ok()?;
        pm(o, &p);
        pm(o, &q);
        pm(o, &q_discrete_white_noise::<4, T>(s[9], s[6]));
    }
    riccati [0.9, 0.2, -0.1, 0.8, 0.1, 0.7, 1.0, 0.5, 0.3], |s, o| {
        let a = Matrix::new([[s[0], s[1]], [s[2], s[3]]]);
        let b = Matrix::new([[s[4]], [s[5]]]);
        let q = Matrix::from_diagonal([s[6], s[7]]);
        pm(o, &solve_discrete_riccati(a, b, q, Matrix::new([[s[8]]])).ok()?);
        pm(o, &Lqr::new(a, b, q, Matrix::new([[s[8]]])).ok()?.gain());
        pm(o, &solve_discrete_lyapunov(a, q).ok()?);
    }
    polynomial [0.5, -1.0, 2.0, 0.3, 1.0, -1.5, 2.5], |s, o| {
        let p = Polynomial::new([s[0], s[1], s[2], s[3], s[4]]);
        let q = Polynomial::new([s[0], s[1], s[2]]);
        let (x, y) = (s[5], s[6]);
        o.push(p.evaluate(x));
        o.extend(p.evaluate_with_derivatives::<7>(x));
        o.extend([p.derivative().evaluate(x), p.nth_derivative(3).evaluate(y), p.definite_integral(x, y), p.shift_argument(x).evaluate(y), p.scale_argument(x).evaluate(y)]);
        o.push(p.multiply_into::<3, 7>(&q).ok()?.evaluate(x));
        o.push(q.compose_into::<3, 5>(&q).ok()?.evaluate(y));
        let (d, r) = p.divide::<3, 5, 2>(&q).ok()?;
        o.extend([d.evaluate(x), r.evaluate(x)]);
    }
    interpolation [-1.0, 0.2, 1.1, 0.5, -0.4, 0.8, 0.3, 1.7], |s, o| {
        o.push(Polynomial::<3, T>::from_points(&[s[0], s[1], s[2]], &[s[3], s[4], s[5]]).ok()?.evaluate(s[6]));
        o.push(Polynomial::<2, T>::fit_least_squares(&[s[0], s[1], s[2]], &[s[3], s[4], s[5]]).ok()?.evaluate(s[6]));
        o.push(Polynomial::<8, T>::from_endpoint_derivatives(&[s[0], s[1], s[2], s[3]], &[s[3], s[4], s[5], s[6]], s[7]).ok()?.evaluate(s[6]));
        o.push(Polynomial::<4, T>::from_roots(&[s[0], s[1], s[2]]).ok()?.evaluate(s[6]));
    }
    roots_of_low_degree [-6.0, 11.5, -6.3, 1.1], |s, o| {
        let q = Polynomial::new([s[2], s[1], s[3]]).real_roots().ok()?;
        o.extend(q.as_slice());
        o.push(k(77.0));
        let c = Polynomial::new([s[0], s[1], s[2], s[3]]).real_roots().ok()?;
        o.extend(c.as_slice());
    }
    many_variables [0.5, -1.2, 0.8, 1.3, -0.7], |s, o| {
        let x = MultivariatePolynomial::<2, 4, T>::try_from_terms(&[MultivariateTerm::new(s[0], [2, 1]), MultivariateTerm::new(s[1], [0, 3]), MultivariateTerm::new(s[2], [1, 0])]).ok()?;
        o.push(x.evaluate(&[s[3], s[4]]));
        pv(o, x.gradient_at(&[s[3], s[4]]));
        o.push(x.partial_antiderivative(0).ok()?.evaluate(&[s[3], s[4]]));
        o.push(x.substitute(0, s[3]).ok()?.evaluate(&[s[3], s[4]]));
    }
    quadrature [0.4, 1.3, 0.2, 1.9], |s, o| {
        use multicalc::numerical_integration::*;
        let f = |x: T| (s[0] * x).sin() + s[1] * x * x;
        let lim = [s[2], s[3]];
        for m in [IterativeMethod::Booles, IterativeMethod::Simpsons, IterativeMethod::Trapezoidal] {
            o.push(IterativeSingle::<T>::from_parameters(12, m).single_integral(&f, &lim).ok()?);
            o.push(IterativeSingle::<T>::from_parameters(12, m).with_kahan_summation().double_integral(&f, &[lim, lim]).ok()?);
        }
        o.push(GaussianSingle::<T>::from_parameters(7, GaussianQuadratureMethod::GaussLegendre).single_integral(&f, &lim).ok()?);
        let f2 = |x: &[T; 2]| (s[0] * x[0]).sin() * x[1];
        o.push(GaussianMulti::<T>::from_parameters(7, GaussianQuadratureMethod::GaussLegendre).single_partial_integral(&f2, 0, &lim, &[s[0], s[1]]).ok()?);
    }
    runge_kutta [0.4, 1.3, 0.2, 0.9, 0.05], |s, o| {
        let f = |t: T, y: &Vector<2, T>| Vector::new([y[1] * s[0] + t, -y[0] * s[1] - y[1] * y[1]]);
        pv(o, Rk4::step(&f, s[4], &v2(&s[2..]), s[4]));
        pv(o, Rk4::integrate(&f, s[4], &v2(&s[2..]), s[4], 4, |_, _| ()));
    }
    adaptive_runge_kutta [0.4, 1.3, 0.2, 0.9], |s, o| {
        let f = |t: T, y: &Vector<2, T>| Vector::new([y[1] * s[0] + t, -y[0] * s[1] - y[1] * y[1]]);
        pv(o, Rk45::default().with_rtol(k(1e-9)).with_atol(k(1e-9)).with_first_step(k(0.01)).with_max_step(k(0.02)).solve(&f, k(0.0), &v2(&s[2..]), k(0.1)).ok()?);
    }
    forward_kinematics [0.4, -0.7, 0.2, 0.5, 0.6, -0.4, 0.1, 0.9, -0.3, 0.3, -0.4, 0.25, 1.1, 0.6, 0.8], |s, o| {
        let at = SE3::from_parts(turn(s), v3(&s[3..]));
        let js = [Joint::revolute(v3(&s[6..]), at).with_zero_offset(s[9]).with_anchor(v3(&s[3..])), Joint::prismatic(v3(&s[1..]), at), Joint::continuous(v3(&s[6..]), SE3::identity()), Joint::fixed(at)];
        let t = KinematicTree::<4, 4, T>::try_from_joints(&js, &[JointParent::World, JointParent::Joint(0), JointParent::Joint(1), JointParent::Joint(2)]).ok()?;
        let c = Vector::new([s[10], s[11], s[12], k(0.0)]);
        let st = t.forward_kinematics(&c).ok()?;
        for i in 0..4 { pp(o, st.pose(i)?) }
        for f in [JacobianFrame::World, JacobianFrame::Body] { pm(o, &t.geometric_jacobian(&st, 3, f).ok()?.matrix()) }
        let j = t.geometric_jacobian(&st, 3, JacobianFrame::World).ok()?;
        pv(o, j.tool_twist(&c).to_vector());
        o.push(t.configuration_distance(&c, &Vector::new([s[13], s[14], s[10], k(0.0)])));
    }
    damped_inverse [0.3, 0.8, 0.5, -0.7, 0.4, 1.1, 0.6], |s, o| {
        let t = KinematicTree::<2, 2, T>::try_from_joints(&[Joint::revolute(v3(s), SE3::identity()), Joint::prismatic(v3(&s[1..]), SE3::from_parts(SO3::identity(), v3(&s[3..]) + Vector::new([k(2.0), k(-1.5), k(1.8)])))], &[JointParent::World, JointParent::Joint(0)]).ok()?;
        let st = t.forward_kinematics(&Vector::new([s[3], s[4]])).ok()?;
        pm(o, &t.geometric_jacobian(&st, 1, JacobianFrame::World).ok()?.damped_pseudo_inverse(&Vector::new([k(1.0); 2]), s[6]).ok()?);
    }
    floating_tree [0.4, -0.7, 0.2, 0.9, 0.1, -0.2, 0.3, 0.6, -0.4], |s, o| {
        let mut t = KinematicTree::<2, 8, T>::new();
        t.push(Joint::floating(SE3::identity()), JointParent::World).ok()?;
        t.push(Joint::revolute(v3(&s[4..]), SE3::identity()), JointParent::Joint(0)).ok()?;
        let mut c = Vector::<8, T>::zeros();
        for i in 0..8 { c[i] = s[i] }
        let st = t.forward_kinematics(&c).ok()?;
        pp(o, st.pose(1)?);
        pm(o, &t.geometric_jacobian(&st, 1, JacobianFrame::World).ok()?.matrix());
    }
    wheels [0.05, 0.4, 3.0, -2.0, 0.5, 0.3, 0.7, 0.25, 0.1], |s, o| {
        let d = DifferentialDrive::new(s[0], s[1]).ok()?;
        let a = SE2::from_parts(SO2::from_angle(s[6]), v2(&s[7..]));
        let f = d.forward(WheelVelocities::new(s[2], s[3]));
        o.extend([f.linear(), f.angular()]);
        let i = d.inverse(BodyTwist::new(s[4], s[5]));
        o.extend([i.left(), i.right()]);
        p2(o, d.odometry_step(a, WheelRotations::new(s[2], s[3])));
        p2(o, integrate(a, BodyArc::new(s[4], s[5])));
        o.extend(OdometryStep.eval(&[s[7], s[8], s[6], s[4], s[5]]));
        pv(o, Unicycle::new(BodyTwist::new(s[4], s[5])).derivative(&v3(&s[6..])));
    }
    biquad [10.0, 0.7, 0.003, 0.5, -0.25, 20.0], |s, o| {
        for c in [BiquadCoefficients::low_pass(s[0], s[1], s[2]).ok()?, BiquadCoefficients::high_pass(s[0], s[1], s[2]).ok()?, BiquadCoefficients::band_pass(s[0], s[1], s[2]).ok()?, BiquadCoefficients::notch(s[0], s[1], s[2]).ok()?] {
            let mut x = Biquad::new(c);
            x.settle_to(s[3]);
            o.extend([x.filter(s[4]), x.filter(s[3]), x.filter(s[3])]);
            o.extend([c.magnitude_at(s[5]), c.phase_at(s[5]), c.delay_at(s[5])]);
            let mut x = BiquadCascade::new([c, c]);
            o.extend([x.filter(s[4]), x.filter(s[3]), x.magnitude_at(s[5]), x.phase_at(s[5])]);
        }
    }
    conditioning [0.3, 0.7, 0.1, 0.5, -2.0, 0.45], |s, o| {
        o.extend([Deadband::plain(s[0]).ok()?.apply(s[3]), Deadband::recentered(s[0]).ok()?.apply(s[4])]);
        let mut x = SlewRateLimiter::new(s[0], s[1], s[2]).ok()?;
        o.extend([x.filter(s[3]), x.filter(s[4]), x.filter(s[5])]);
        for mut x in [OnePoleLowPass::new(s[1]).ok()?, OnePoleLowPass::from_cutoff(s[1], s[2]).ok()?] { o.extend([x.filter(s[3]), x.filter(s[4]), x.filter(s[5])]) }
        let mut x = MovingAverage::<3, T>::new().ok()?;
        for i in 0..6 { o.push(x.filter(s[i])) }
        let mut x = RunningMedian::<3, T>::new().ok()?;
        for i in 0..6 { o.push(x.filter(s[i])) }
        let mut x = SavitzkyGolay::<5, 3, T>::latest(s[2]).ok()?;
        for i in 0..6 { o.push(x.filter(s[i])); o.extend([x.first_derivative(), x.second_derivative()]) }
    }
    pid [1.0, 0.5, 0.1, 0.1, 0.8, 1.0, 0.2, 0.7, 5.0, 0.4], |s, o| {
        let mut x = Pid::new(s[0], s[1], s[2], s[3]).ok()?.with_output_limits(-s[8], s[8]).ok()?.with_derivative_filter(s[4]).ok()?;
        o.extend([x.update(s[5], s[6]), x.update(s[7], s[5]), x.update(s[6], s[6]), x.integral()]);
        x.resume_from(s[7], s[5], s[9]).ok()?;
        o.extend([x.update(s[5], s[6]), x.update(s[6], s[7])]);
    }
    attitude_control [2.0, 0.5, 1.0, 2.0, 3.0, 0.4, 0.1, -0.2, 0.3, 0.6, 0.1, 0.2, -0.3, 0.5], |s, o| {
        let x = GeometricAttitudeController::new(s[0], s[1], Matrix::from_diagonal([s[2], s[3], s[4]])).ok()?;
        pv(o, x.torque(turn(&s[5..]), v3(&s[8..]), turn(&s[11..]), v3(&s[6..]), v3(&s[9..])));
        pv(o, GeometricAttitudeController::attitude_error(turn(&s[5..]), turn(&s[11..])));
        let c = thrust_command_from_acceleration(v3(&s[7..]), s[11], s[2]).ok()?;
        pr(o, c.attitude());
        o.extend([c.thrust_acceleration(), c.thrust_force(s[0])]);
    }
    pursuit [0.4, 0.2, -0.5, 1.3, 0.8, 0.6, 0.0, 0.0, 1.0, 0.5, 2.0, -1.0, 0.7, 0.3], |s, o| {
        let p = SE2::from_parts(SO2::from_angle(s[0]), v2(&s[1..]));
        let c = pure_pursuit_curvature(p, v2(&s[3..]), s[5]).ok()?;
        o.push(c.value());
        let w = [v2(&s[6..]), v2(&s[8..]), v2(&s[10..])];
        let path = PolylinePath::<3, 2, T>::try_from_points(&w).ok()?;
        let c = path.closest_point(v2(&s[12..])).ok()?;
        pv(o, c.point());
        o.extend([c.arc_length(), c.distance(), path.total_arc_length()]);
        pv(o, path.lookahead_point(s[5], s[13]).ok()?);
    }
    profile [1.0, 2.0, 5.0, 3.0, 0.7, 4.0, 1.3], |s, o| {
        for (jerk, st) in [(None, ProfileStrategy::Trapezoidal), (Some(s[2]), ProfileStrategy::JerkLimited)] {
            let p = MotionProfilePlanner::new(ProfileLimits::try_new(s[0], s[1], jerk).ok()?).with_strategy(st).plan(s[3]).ok()?;
            o.extend([p.duration(), p.peak_speed(), p.distance()]);
            for t in [s[4], s[6]] { let x = p.state_at(t).ok()?; o.extend([x.position, x.velocity, x.acceleration]); let x = p.stretched_to(s[5] + p.duration()).state_at(t).ok()?; o.extend([x.position, x.velocity]) }
        }
    }
    minimum_snap [0.0, 0.0, 1.0, 0.5, 2.0, -1.0, 0.7, 1.3, 0.4, 0.9, 0.6], |s, o| {
        let w = [v2(s), v2(&s[2..]), v2(&s[4..])];
        let b = BoundaryDerivatives { velocity: v2(&s[8..]), acceleration: v2(&s[9..]), jerk: v2(&s[1..]) };
        let x = MinimumSnapPlanner::<2, 3, 2, T>::new().with_start(b).plan(&w, &[s[6], s[7]]).ok()?;
        for d in x.evaluate_with_derivatives::<5>(s[10]).ok()? { pv(o, d) }
        pv(o, x.evaluate(s[7]).ok()?);
        let mut d = [k::<T>(0.0); 2];
        durations_from_average_speed(&w, s[6], &mut d).ok()?;
        o.extend(d);
    }
    rotors [0.2, 0.02, 0.0, 5.0, 8.0, 0.1, -0.1, 0.05, 0.06, 0.01, 1.5, 2.5], |s, o| {
        let m = MultirotorMixer::quadrotor_x(s[0], s[1], s[2], s[3]).ok()?;
        let c = m.rotor_thrusts(s[4], v3(&s[5..]));
        pv(o, c.thrusts());
        pv(o, m.wrench(c.thrusts()).to_vector());
        let mut x = RotorLag::<2, T>::new(s[8], s[9]).ok()?.with_thrusts(v2(&s[10..]));
        pv(o, x.stepped(v2(&s[4..])));
        pv(o, x.stepped_over(v2(&s[4..]), s[8]));
        pv(o, x.rate(v2(&s[4..])));
    }
    clearance [0.4, -0.7, 0.2, 0.5, 0.6, -0.4, 0.3, 0.4, 0.25, 0.6], |s, o| {
        let (a, b) = (SE3::identity(), SE3::from_parts(turn(s), v3(&s[3..]) + Vector::new([k(0.2), k(0.3), k(-1.9)])));
        for p in [Primitive::Sphere { radius: s[6] }, Primitive::Capsule { radius: s[6], half_length: s[7] }] {
            for q in [Primitive::Sphere { radius: s[8] }, Primitive::Capsule { radius: s[8], half_length: s[9] }] { o.push(p.distance_to(a, q, b)) }
        }
    }
    kalman [0.1, 1.0, 1.0, 0.2, 0.9, 1.1, 0.1, -0.2, 0.9, 0.1, 0.2, 1.0, 0.4, 0.5, 0.7, 0.3], |s, o| {
        let model = KalmanModel { state_transition: Matrix::new([[s[5], s[6]], [s[7], s[8]]]), measurement_model: Matrix::new([[s[11], s[12]]]), process_noise: Matrix::from_diagonal([s[9], s[10]]), measurement_noise: Matrix::new([[s[13]]]) };
        for u in [CovarianceUpdate::Joseph, CovarianceUpdate::Naive] {
            let mut f = KalmanFilter::new(v2(s), Matrix::new([[s[2], s[3]], [s[3], s[4]]]), model).with_covariance_update(u);
            f.predict();
            f.update(Vector::new([s[14]])).ok()?;
            f.predict_with_control(Matrix::new([[s[0]], [s[1]]]), Vector::new([s[15]]));
            f.update(Vector::new([s[15]])).ok()?;
            pv(o, f.state());
            pm(o, &f.covariance());
            o.push(f.normalized_innovation_squared().ok()?);
        }
    }
    nonlinear_kalman [0.6, 0.8, 1.0, 0.2, 0.9, 0.1, 0.2, 0.5, 0.7, 0.3], |s, o| {
        let (p, q, r) = (Matrix::new([[s[2], s[3]], [s[3], s[4]]]), Matrix::from_diagonal([s[5], s[6]]), Matrix::from_diagonal([s[7], s[7]]));
        let mut f = ExtendedKalmanFilter::<2, 2, T, AutoDiffMulti<T>>::from_derivator(v2(s), p, q, r, AutoDiffMulti::new());
        f.predict(&Bent).ok()?;
        f.update(&Bent, v2(&s[8..])).ok()?;
        pv(o, f.state());
        pm(o, &f.covariance());
        let mut f = UnscentedKalmanFilter::<2, 2, T>::new(v2(s), p, q, r).with_scaling(k(1.0), k(2.0), k(0.5)).ok()?;
        f.predict(&Bent).ok()?;
        f.update(&Bent, v2(&s[8..])).ok()?;
        pv(o, f.state());
        pm(o, &f.covariance());
    }
    error_state [0.4, -0.3, 0.2, 0.1, 0.2, -0.1, 0.5, 0.3, 9.8, 0.4, -0.1, 0.2, 0.05, 0.6, 0.1, 0.02, 0.03, 1.0, 0.2], |s, o| {
        let st = NominalState::new(v3(&s[3..]), v3(&s[9..]), turn(s), v3(&s[14..]), v3(&s[12..]));
        let noise = ImuNoise { gyroscope_noise_density: s[14], accelerometer_noise_density: s[15], gyroscope_bias_random_walk: s[16], accelerometer_bias_random_walk: s[13] };
        let mut e = ErrorStateKalmanFilter::<3, T>::new(st, Matrix::identity().scale(s[17]), noise, Matrix::identity().scale(s[18]));
        e.predict(v3(&s[3..]), v3(&s[6..]), s[12]).ok()?;
        e.update(&Place, v3(&s[9..])).ok()?;
        let n = e.nominal_state();
        pv(o, n.position());
        pv(o, n.velocity());
        pr(o, n.orientation());
        pm(o, &e.covariance());
        pv(o, n.error_from(st));
    }
    attitude_filters [0.4, -0.3, 0.2, 0.1, 0.2, -0.1, 0.5, 0.3, 9.8, 0.4, -0.1, 0.2, 0.05, 0.6, 0.1], |s, o| {
        let mut f = MahonyFilter::new(turn(s)).with_proportional_gain(s[13]).with_integral_gain(s[14]);
        f.step(v3(&s[3..]), v3(&s[6..]), Some(v3(&s[9..])), s[12]).ok()?;
        f.step_without_magnetometer(v3(&s[3..]), v3(&s[6..]), s[12]).ok()?;
        pr(o, f.orientation());
        pv(o, f.gyroscope_bias());
        let mut f = MadgwickFilter::new(turn(s)).with_correction_gain(s[13]).with_bias_gain(s[14]);
        f.step(v3(&s[3..]), v3(&s[6..]), Some(v3(&s[9..])), s[12]).ok()?;
        f.step_without_magnetometer(v3(&s[3..]), v3(&s[6..]), s[12]).ok()?;
        pr(o, f.orientation());
        pv(o, f.gyroscope_bias());
    }
}
struct Bent;
impl VectorFn<2, 2> for Bent {
    fn eval<S: Numeric>(&self, x: &[S; 2]) -> [S; 2] { [(x[0] * x[1]).sin() + x[0], x[1] + x[0] * x[0] * S::from_f64(0.3)] }
}
struct Place;
impl NominalStateFn<3> for Place {
    fn eval<S: Numeric>(&self, x: &NominalState<S>) -> [S; 3] { x.orientation().act(x.position()).into_array() }
}

/// The derivative by differences of sixth order at two step sizes: `None` where they disagree, as at
/// a corner of the function, or beside a refusal.
fn slope(h: f64, want_len: usize, f: &dyn Fn(f64) -> Vec<f64>, tol: f64) -> Vec<Option<(f64, f64)>> {
    let at = |h: f64| -> Option<(Vec<f64>, f64)> {
        let v: Vec<Vec<f64>> = [1.0, -1.0, 2.0, -2.0, 3.0, -3.0].iter().map(|m| f(m * h)).collect();
        if v.iter().any(|x| x.len() != want_len) { return None }
        Some(((0..want_len).map(|i| (45.0 * (v[0][i] - v[1][i]) - 9.0 * (v[2][i] - v[3][i]) + (v[4][i] - v[5][i])) / (60.0 * h)).collect(), h))
    };
    let (Some((a, _)), Some((b, _))) = (at(h), at(h * 0.4)) else { return vec![None; want_len] };
    // a corner looks the same at both step sizes, but not from its two sides
    let side = |h: f64| -> Vec<f64> {
        let v: Vec<Vec<f64>> = [0.0, 1.0, 2.0, 3.0, 4.0].iter().map(|m| f(m * h)).collect();
        if v.iter().any(|x| x.len() != want_len) { return vec![f64::NAN; want_len] }
        (0..want_len).map(|i| (-25.0 * v[0][i] + 48.0 * v[1][i] - 36.0 * v[2][i] + 16.0 * v[3][i] - 3.0 * v[4][i]) / (12.0 * h)).collect()
    };
    let (up, down) = (side(h * 0.5), side(-h * 0.5));
    let corner: Vec<bool> = up.iter().zip(&down).map(|(u, d)| !((u - d).abs() <= 30.0 * tol * (1.0 + u.abs()))).collect();
    let a: Vec<f64> = a.into_iter().zip(corner).map(|(x, c)| if c { f64::NAN } else { x }).collect();
    a.into_iter().zip(b).map(|(x, y)| {
        let e = (x - y).abs();
        (x.is_finite() && y.is_finite() && e <= tol * (1.0 + x.abs())).then_some((x, e))
    }).collect()
}
/// Inputs at which an algorithm has a corner, is singular, or takes a documented short cut.
fn corner(name: &str, x: &[f64]) -> bool {
    match name {
        // repeated eigenvalues
        "eigenvalues" => x[3] == x[5] && x[4] == 0.0 && (x[1] == 0.0 || x[2] == 0.0),
        // the iteration stops once the values stand still
        "forward_kinematics" => x[9..] == [0.0; 6],
        "riccati" => x[6] * x[7] == 0.0,
        // repeated roots
        "roots_of_low_degree" => (x[0] == 0.0 && x[1] == 0.0) || x[1] * x[1] == 4.0 * x[2] * x[3],
        // terms with a zero coefficient are not kept
        "many_variables" => x[..4].contains(&0.0),
        // no response at all has no phase
        "biquad" => x[5] == 0.0,
        // steps and limits that leave no room
        "conditioning" => x[3..6] == [0.0; 3],
        // a segment of no length, or a query on the path
        "pursuit" => x[6..8] == x[8..10] || x[6..8] == x[10..12] || x[8..10] == x[10..12] || (x[8] == 0.0 && x[12] == 0.0) || (x[9] == 0.0 && x[13] == 0.0) || x[12..14] == x[6..8] || x[12..14] == x[8..10],
        // output limits that leave no room
        "pid" => x[8] == 0.0,
        // equal ends are joined by a straight line; at right angles the shorter way changes
        "slerp" => x[..4] == x[4..8] || (0..4).map(|i| x[i] * x[i + 4]).sum::<f64>() == 0.0,
        // columns that point the same way
        "singular_values" => x[0] * x[3] == x[1] * x[2] && x[0] * x[5] == x[1] * x[4] && x[2] * x[5] == x[3] * x[4],
        "quaternion_product" => x[..4] == [0.0; 4] || x[4..] == [0.0; 4],
        // the divisor's degree drops
        "polynomial" => x[2] == 0.0,
        // no spread at all, or a step of many seconds, whose covariance is nothing but rounding
        "error_state" => (x[17] == 0.0 && x[18] == 0.0) || x[12] > 1.0,
        // undamped, or with structural zeros, on a chain with fewer directions than the tool
        "damped_inverse" => x.contains(&0.0),
        // a profile that goes nowhere, or its very start
        "profile" => x[3] == 0.0 || x[4] * x[6] == 0.0,
        // rotors held at their lower limit
        "rotors" => x[4] == 0.0,
        _ => false,
    }
}
fn explore<A: Alg>(ck: &Ck) {
    let base = A::base();
    let n = base.len();
    let alts = |b: f64| [0.0, 1.7 * b, b, -b, 0.6 * b + 0.11];
    let m = if ck.thorough() { 5usize } else if n > 16 { 2 } else if n > 12 { 3 } else { 5 };
    let pairs: Vec<(usize, usize)> = (0..n).flat_map(|a| (a + 1..n).map(move |b| (a, b))).collect();
    // whole blocks of inputs at zero, and blocks that repeat the one before
    let mut blocks: Vec<Vec<f64>> = vec![];
    for l in [3, 4, 6] {
        for a in 0..(n + 1).saturating_sub(l) {
            let mut x = base.clone();
            x[a..a + l].fill(0.0);
            blocks.push(x);
            let mut x = base.clone();
            if a >= l { for q in 0..l { x[a + q] = x[a + q - l] } }
            blocks.push(x);
        }
    }
    let full = 1 + (pairs.len() * m * m) as u64;
    let total = full + blocks.len() as u64;
    let dec = |i: u64| -> Vec<f64> {
        let mut x = base.clone();
        if i == 0 { return x }
        if i >= full { return blocks[(i - full) as usize].clone() }
        let i = i as usize - 1;
        let (a, b) = pairs[i / (m * m)];
        x[a] = alts(base[a])[i % m];
        x[b] = alts(base[b])[i / m % m];
        x
    };
    ck.space(A::NAME, total, |i| format!("{:?}", dec(i)), |i| {
        let x = dec(i);
        if corner(A::NAME, &x) { return Ok(0) }
        let v = call::<A, f64>(&x);
        let c = |j: usize, a: f64| -> Vec<f64> { let mut y = x.clone(); y[j] += a; y };
        let dual = |x: &[f64], j: usize| call::<A, Dual<f64>>(&x.iter().enumerate().map(|(q, v)| Dual::new(*v, if q == j { 1.0 } else { 0.0 })).collect::<Vec<_>>());
        let hyper = |x: &[f64], j: usize, l: usize| call::<A, H>(&x.iter().enumerate().map(|(q, v)| H::new(*v, if q == j { 1.0 } else { 0.0 }, if q == l { 1.0 } else { 0.0 }, 0.0)).collect::<Vec<_>>());
        // values and decisions are those of plain numbers
        let same = |what: &str, got: Vec<f64>| -> Result<(), String> {
            ensure!(got.len() == v.len(), "{what}: {} outputs instead of {}", got.len(), v.len());
            for (q, (a, b)) in got.iter().zip(&v).enumerate() { ensure!(a == b || (a - b).abs() <= 1e-11 * (1.0 + b.abs()) || (a.is_nan() && b.is_nan()), "{what}: output {q} is {a}, with plain numbers {b}"); }
            Ok(())
        };
        // the slopes agree between the scalars; a filter far below its sample rate magnifies rounding
        let slack = if A::NAME == "biquad" { 1e-6 } else { 2e-8 };
        let mut firsts: Vec<Vec<f64>> = vec![];
        let mut sure = 0u64;
        let mut unsure = 0u64;
        for j in 0..n {
            let d = dual(&x, j);
            same("dual", d.iter().map(|d| d.value).collect())?;
            let h = 2e-3 * x[j].abs().max(0.3);
            let r = slope(h, v.len(), &|a| call::<A, f64>(&c(j, a)), 1e-6);
            let noise = v.iter().fold(0.0f64, |m, x| if x.is_finite() { m.max(x.abs()) } else { m }) * 4e-14 / h;
            for (q, r) in r.iter().enumerate() {
                let Some((r, e)) = r else { unsure += 1; continue };
                sure += 1;
                let got = d[q].deriv;
                ensure!((got - r).abs() <= 2e-7 * (1.0 + r.abs()) + 6.0 * e + noise, "dual: d output {q} / d input {j} is {got}, by differences {r}");
            }
            firsts.push(d.iter().map(|d| d.deriv).collect());
        }
        ensure!(i != 0 || (sure > 0 && unsure == 0), "{unsure} of {} derivatives cannot be checked at the base point", sure + unsure);
        // second derivatives and the agreement of the scalars, along and across
        for j in 0..n {
            for l in [j, (j + 1) % n] {
                let w = hyper(&x, j, l);
                same("hyper-dual", w.iter().map(|d| d.real).collect())?;
                let h = 2e-3 * x[l].abs().max(0.3);
                let r = slope(h, v.len(), &|a| dual(&c(l, a), j).iter().map(|d| d.deriv).collect(), 1e-5);
                let nested = call::<A, DD>(&x.iter().enumerate().map(|(q, v)| DD::new(Dual::new(*v, if q == l { 1.0 } else { 0.0 }), Dual::new(if q == j { 1.0 } else { 0.0 }, 0.0))).collect::<Vec<_>>());
                same("dual of dual", nested.iter().map(|d| d.value.value).collect())?;
                for q in 0..v.len() {
                    // where differences could not confirm a first derivative there may be a corner
                    let Some((r, e)) = r[q] else { continue };
                    let near = |a: f64, b: f64| (a - b).abs() <= slack * (1.0 + b.abs());
                    ensure!(near(w[q].eps1, firsts[j][q]) && near(w[q].eps2, firsts[l][q]), "hyper-dual: slopes of output {q} by inputs {j}, {l} are {}, {}, by dual {}, {}", w[q].eps1, w[q].eps2, firsts[j][q], firsts[l][q]);
                    ensure!((w[q].eps1eps2 - r).abs() <= 2e-6 * (1.0 + r.abs()) + 6.0 * e, "hyper-dual: d2 output {q} / d {j} d {l} is {}, by differences {r}", w[q].eps1eps2);
                    let nn = nested[q].deriv.deriv;
                    ensure!((nn - r).abs() <= 2e-6 * (1.0 + r.abs()) + 6.0 * e, "dual of dual: d2 output {q} / d {j} d {l} is {nn}, by differences {r}");
                }
                // the damped inverse repeats singular values, among which rounding alone turns the
                // directions: third derivatives drown in it
                if l != j || A::NAME == "damped_inverse" { continue }
                let w3 = call::<A, J4>(&x.iter().enumerate().map(|(q, v)| if q == j { J4::variable(*v) } else { J4::constant(*v) }).collect::<Vec<_>>());
                same("jet", w3.iter().map(|d| d.value()).collect())?;
                let r3 = slope(h, v.len(), &|a| hyper(&c(j, a), j, j).iter().map(|d| d.eps1eps2).collect(), 1e-4);
                for q in 0..v.len() {
                    let (Some((r, e)), Some((r3, e3))) = (r[q], r3[q]) else { continue };
                    ensure!((w3[q].derivative(1) - firsts[j][q]).abs() <= slack * (1.0 + firsts[j][q].abs()), "jet: slope of output {q} by input {j} is {}, by dual {}", w3[q].derivative(1), firsts[j][q]);
                    ensure!((w3[q].derivative(2) - r).abs() <= 2e-6 * (1.0 + r.abs()) + 6.0 * e, "jet: second derivative of output {q} by input {j} is {}, by differences {r}", w3[q].derivative(2));
                    ensure!((w3[q].derivative(3) - r3).abs() <= 5e-5 * (1.0 + r3.abs()) + 6.0 * e3, "jet: third derivative of output {q} by input {j} is {}, by differences {r3}", w3[q].derivative(3));
                }
            }
        }
        Ok(h64(&(v.len(), sure, unsure)))
    });
}
fn main() {
    let ck = Ck::new("C38");
    all(&ck);
    ck.finish()
}
