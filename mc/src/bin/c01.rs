//! C01: every public call returns - no panic, no endless work, no heap, a typed error or an answer -
//! for every input, special values in every slot included.
use mc::*;
use multicalc::control::*;
use multicalc::discretization::*;
use multicalc::dynamics::*;
use multicalc::estimation::*;
use multicalc::kinematics::*;
use multicalc::linear_algebra::*;
use multicalc::mapping::*;
use multicalc::motion::*;
use multicalc::ode::*;
use multicalc::plant::*;
use multicalc::polynomial::*;
use multicalc::random::*;
use multicalc::scalar::*;
use multicalc::signal_processing::*;
use multicalc::spatial::*;
use multicalc::vector_field::*;
use multicalc::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::fmt::Write as _;
use std::hint::black_box as see;

struct Counting;
thread_local!(static HEAP: Cell<u64> = const { Cell::new(0) });
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let _ = HEAP.try_with(|h| h.set(h.get() + 1));
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let _ = HEAP.try_with(|h| h.set(h.get() + 1));
        unsafe { System.realloc(p, l, n) }
    }
}
#[global_allocator]
static A: Counting = Counting;

/// Counts what a message writes without keeping it.
struct Len(usize);
impl std::fmt::Write for Len {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0 += s.len();
        Ok(())
    }
}
trait Sc: Numeric + Send + Sync + 'static {
    const NAME: &'static str;
    const SINGLE: bool = false;
}
impl Sc for f64 { const NAME: &'static str = "f64"; }
impl Sc for f32 { const NAME: &'static str = "f32"; const SINGLE: bool = true; }
impl Sc for Dual<f64> { const NAME: &'static str = "dual"; }

/// Looks at a result; an error must have something to say and convert into the umbrella error.
fn er<V, E: Into<CalcError> + std::fmt::Display + Copy>(r: Result<V, E>) -> Option<V> {
    op(1);
    match r {
        Ok(v) => Some(v),
        Err(e) => {
            let (mut own, mut all) = (Len(0), Len(0));
            let _ = write!(own, "{e}");
            let c: CalcError = e.into();
            let _ = write!(all, "{c}");
            assert!(own.0 > 0 && all.0 > 0, "an error with nothing to say");
            None
        }
    }
}
fn specials<T: Sc>() -> Vec<f64> {
    let (sub, min, max) = if T::SINGLE { (1e-44, 1.1754943508222875e-38, 3.4028234663852886e38) } else { (5e-324, f64::MIN_POSITIVE, f64::MAX) };
    vec![f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 0.0, -0.0, 1.0, -1.0, max, -max, sub, min, if T::SINGLE { 1e-23 } else { 1e-170 }, if T::SINGLE { 1e25 } else { 1e200 }, 1e-9, 0.3, 3.0, 1e18, -1e18]
}
/// One call site: every special value in every slot, every pair of slots with every pair of special
/// values of a shorter list, and every slot at once.
fn job<T: Sc, const N: usize>(ck: &Ck, name: &str, base: [f64; N], heap: bool, f: impl Fn(&[T; N]) + Sync) {
    let all = specials::<T>();
    let few = all.clone();
    let trio = [f64::NAN, f64::INFINITY, 0.0, -1.0, all[7], all[9], 1.0];
    let (s, p) = (all.len() as u64, few.len() as u64);
    let n = N as u64;
    let ones = n * s;
    let pairs = n * n.saturating_sub(1) / 2 * p * p;
    let small: [f64; 5] = [f64::NAN, f64::INFINITY, 0.0, -1.0, 1.0];
    let words = if N <= 5 { 5u64.pow(N as u32) } else { 0 };
    let threes = if ck.thorough() { n * n.saturating_sub(1) * n.saturating_sub(2) / 6 * 343 } else { 0 };
    let dec = |i: u64| -> [f64; N] {
        let mut x = base;
        if i == 0 { return x }
        let mut i = i - 1;
        if i < s {
            return [all[i as usize]; N];
        }
        i -= s;
        if i < ones {
            x[(i / s) as usize] = all[(i % s) as usize];
            return x;
        }
        i -= ones;
        if i < pairs {
            let (mut k, v) = (i / (p * p), i % (p * p));
            let mut a = 0u64;
            while k >= n - 1 - a { k -= n - 1 - a; a += 1 }
            x[a as usize] = few[(v / p) as usize];
            x[(a + 1 + k) as usize] = few[(v % p) as usize];
            return x;
        }
        i -= pairs;
        if i < threes {
            let (mut k, v) = (i / 343, i % 343);
            let mut slots = [0usize; 3];
            'found: for a in 0..N { for b in a + 1..N { for c in b + 1..N {
                if k == 0 { slots = [a, b, c]; break 'found }
                k -= 1;
            } } }
            for (j, slot) in slots.into_iter().enumerate() { x[slot] = trio[(v / 7u64.pow(j as u32) % 7) as usize] }
            return x;
        }
        i -= threes;
        let mut d = Dig(i);
        for v in x.iter_mut() { *v = d.pick(&small) }
        x
    };
    ck.space(&format!("{name} {}", T::NAME), 1 + s + ones + pairs + threes + words, |i| format!("{:?}", dec(i)), |i| {
        let x = dec(i).map(|v| T::from_f64(v));
        let before = HEAP.with(|h| h.get());
        f(&x);
        op(1);
        let took = HEAP.with(|h| h.get()) - before;
        ensure!(heap || took == 0, "{took} heap allocations");
        Ok(i)
    });
}
fn v3<T: Sc>(s: &[T]) -> Vector<3, T> { Vector::new([s[0], s[1], s[2]]) }
fn quat<T: Sc>(s: &[T]) -> Quaternion<T> { Quaternion::new(s[0], s[1], s[2], s[3]) }
fn rot<T: Sc>(s: &[T]) -> SO3<T> { SO3::from_quaternion(quat(s)) }
fn pose<T: Sc>(s: &[T]) -> SE3<T> { SE3::from_parts(rot(s), v3(&s[4..])) }
fn k<T: Sc>(x: f64) -> T { T::from_f64(x) }

fn scalars<T: Sc>(ck: &Ck) {
    job::<T, 3>(ck, "scalar", [0.7, -0.4, 1.3], false, |s| {
        let [x, y, z] = *s;
        for v in [x, y, z] {
            see((v.sqrt(), v.sin(), v.cos(), v.tan(), v.exp(), v.log(), v.log2(), v.log10(), v.abs(), v.signum(), v.recip()));
            see((v.asin(), v.acos(), v.atan(), v.sinh(), v.cosh(), v.tanh(), v.floor(), v.ceil(), v.round(), v.trunc()));
            see((v.is_nan(), v.is_finite(), v.is_infinite()));
            for n in [0, 1, -1, 2, 7, -7, i32::MAX, i32::MIN] { see(v.powi(n)); }
        }
        see((x.atan2(y), x.powf(y), x.max(y), x.min(y), x.safe_div(y), x.hypot(y), x.mul_add(y, z), x + y - z * x / y));
    });
}
fn signal<T: Sc>(ck: &Ck) {
    job::<T, 6>(ck, "biquad", [10.0, 0.7, 0.001, 0.5, -0.25, 20.0], false, |s| {
        let [f, q, dt, a, b, w] = *s;
        for c in [BiquadCoefficients::low_pass(f, q, dt), BiquadCoefficients::high_pass(f, q, dt), BiquadCoefficients::band_pass(f, q, dt), BiquadCoefficients::notch(f, q, dt), BiquadCoefficients::new([f, q, a], [b, w], dt)] {
            let Some(c) = er(c) else { continue };
            see((c.magnitude_at(w), c.magnitude_in_decibels_at(w), c.phase_at(w), c.delay_at(w), c.is_stable(), c.feed_forward(), c.feedback(), c.timestep()));
            let mut x = Biquad::new(c);
            see((x.filter(a), x.filter(b), x.value()));
            x.settle_to(w);
            see(x.filter(a));
            x.set_coefficients(c);
            x.reset();
            let mut x = BiquadCascade::new([c, c]);
            see((x.filter(a), x.filter(b), x.value(), x.magnitude_at(w), x.magnitude_in_decibels_at(w), x.phase_at(w), x.delay_at(w), x.is_stable()));
            x.settle_to(w);
            for i in [0, 1, 2, usize::MAX] { er(x.set_section(i, c)); }
            x.reset();
            let mut x = BiquadCascade::<0, T>::new([]);
            see((x.filter(a), x.value(), x.magnitude_at(w), x.phase_at(w), x.delay_at(w), x.magnitude_in_decibels_at(w), x.is_stable()));
            x.settle_to(w);
            let mut x = MultiChannelBiquad::<2, T>::new(c);
            see((x.filter(Vector::new([a, b])), x.value()));
            x.settle_to(Vector::new([w, a]));
            x.set_coefficients(c);
            x.reset();
        }
        see((er(harmonic_notch_coefficients::<3, T>(f, q, dt)), er(harmonic_notch_coefficients::<0, T>(f, q, dt))));
    });
    job::<T, 5>(ck, "conditioning", [0.3, 0.6, 0.01, 0.5, -2.0], false, |s| {
        let [p, q, dt, a, b] = *s;
        for x in [Deadband::plain(p), Deadband::recentered(p)] { if let Some(x) = er(x) { see((x.apply(a), x.apply(b), x.threshold())); } }
        if let Some(mut x) = er(Hysteresis::new(p, q)) { see((x.update(a), x.update(b), x.is_high())); x.reset(); }
        for x in [SlewRateLimiter::new(p, q, dt), SlewRateLimiter::symmetric(p, dt)] { if let Some(mut x) = er(x) { see((x.filter(a), x.filter(b), x.value())); x.reset(); see(x.filter(b)); } }
        for x in [OnePoleLowPass::new(p), OnePoleLowPass::from_cutoff(p, dt)] { if let Some(mut x) = er(x) { see((x.filter(a), x.filter(b), x.value())); x.reset(); } }
        if let Some(mut x) = er(MovingAverage::<3, T>::new()) { for v in [a, b, p, q, dt] { see((x.filter(v), x.value())); } x.reset(); }
        if let Some(mut x) = er(RunningMedian::<3, T>::new()) { for v in [a, b, p, q, dt] { see((x.filter(v), x.value())); } x.reset(); }
        see((er(MovingAverage::<0, T>::new()).is_some(), er(RunningMedian::<0, T>::new()).is_some()));
        for x in [SavitzkyGolay::<5, 3, T>::centered(dt), SavitzkyGolay::<5, 3, T>::latest(dt)] { if let Some(mut x) = er(x) { for v in [a, b, p, q, dt] { see((x.filter(v), x.first_derivative(), x.second_derivative(), x.value(), x.delay())); } x.reset(); } }
        see((er(SavitzkyGolay::<3, 4, T>::centered(dt)).is_some(), er(SavitzkyGolay::<1, 1, T>::latest(dt)).is_some(), er(SavitzkyGolay::<4, 1, T>::centered(dt)).is_some()));
    });
}
fn control<T: Sc>(ck: &Ck) {
    job::<T, 10>(ck, "pid", [1.0, 0.5, 0.1, 0.01, -2.0, 2.0, 0.8, 1.0, 0.2, 0.7], false, |s| {
        let [p, i, d, dt, lo, hi, sm, a, b, c] = *s;
        let Some(x) = er(Pid::new(p, i, d, dt)) else { return };
        let x = [Some(x), er(x.with_output_limits(lo, hi)), er(x.with_derivative_filter(sm)), er(x.with_output_limits(lo, hi)).and_then(|x| er(x.with_derivative_filter(sm)))];
        for mut x in x.into_iter().flatten() {
            see((x.update(a, b), x.update(b, c), x.integral()));
            er(x.resume_from(c, a, b));
            see((x.update(c, a), er(x.set_gains(i, d, p))));
            see(x.update(a, b));
            x.reset();
            see(x.update(a, b));
        }
    });
    job::<T, 15>(ck, "follow_the_gap", [4.0, 10.0, 0.5, 2.0, 1.0, 0.8, 0.3, 0.5, 2.0, 0.4, 3.0, 1.0, 5.0, 0.2, 0.1], false, |s| {
        for x in [er(FollowTheGap::<4, T>::try_new(s[0], s[1], s[2], s[3], s[4]))] {
            let Some(x) = x else { continue };
            let forms = [Some(x), er(x.with_steering_gain(s[5])), er(x.with_goal_bias(s[6])), er(x.with_speed_scaling(s[7], s[8])), er(x.with_frontal_half_angle(s[9]))];
            for x in forms.into_iter().flatten() {
                if let Some(o) = er(x.compute(&[s[10], s[11], s[12], s[13]], s[14])) { see((o.body_twist(), o.heading(), o.gap_start_index(), o.gap_end_index(), o.minimum_clearance(), o.is_blocked())); }
                see((x.beam_angle(0), x.beam_angle(3), x.beam_angle(4), x.beam_angle(usize::MAX)));
            }
        }
        if let Some(x) = er(FollowTheGap::<1, T>::try_new(s[0], s[1], s[2], s[3], s[4])) { er(x.compute(&[s[10]], s[14])); }
        if let Some(x) = er(FollowTheGap::<0, T>::try_new(s[0], s[1], s[2], s[3], s[4])) { er(x.compute(&[], s[14])); see(x.beam_angle(0)); }
    });
    job::<T, 16>(ck, "attitude", [2.0, 0.5, 1.0, 2.0, 3.0, 0.9, 0.1, -0.2, 0.3, 1.0, 0.1, 0.2, -0.3, 0.5, -0.5, 0.25], false, |s| {
        if let Some(x) = er(GeometricAttitudeController::new(s[0], s[1], Matrix::from_diagonal([s[2], s[3], s[4]]))) {
            see(x.torque(rot(&s[5..]), v3(&s[9..]), rot(&s[12..]), v3(&s[7..]), v3(&s[10..])));
            see((GeometricAttitudeController::attitude_error(rot(&s[5..]), rot(&s[12..])), x.attitude_gain(), x.rate_gain(), x.inertia()));
        }
        if let Some(c) = er(thrust_command_from_acceleration(v3(&s[5..]), s[8], s[9])) { see((c.attitude(), c.thrust_acceleration(), c.thrust_force(s[0]))); }
        let p = SE2::from_parts(SO2::from_angle(s[0]), Vector::new([s[1], s[2]]));
        if let Some(c) = er(pure_pursuit_curvature(p, Vector::new([s[3], s[4]]), s[5])) { see((c.value(), c.to_body_twist(s[6]))); }
    });
    job::<T, 10>(ck, "lqr", [1.0, 0.1, 0.0, 1.0, 0.005, 0.1, 1.0, 0.5, 0.3, 0.2], false, |s| {
        let a = Matrix::new([[s[0], s[1]], [s[2], s[3]]]);
        let b = Matrix::new([[s[4]], [s[5]]]);
        let q = Matrix::new([[s[6], k(0.0)], [k(0.0), s[7]]]);
        if let Some(x) = er(Lqr::new(a, b, q, Matrix::new([[s[8]]]))) {
            let v = Vector::new([s[9], s[0]]);
            see((x.control(v), x.control_tracking(v, v, Vector::new([s[1]])), er(x.certify_stability()), x.gain(), x.closed_loop(), x.cost_to_go()));
        }
        see((er(solve_discrete_riccati(a, b, q, Matrix::new([[s[8]]]))), er(solve_discrete_lyapunov(a, q))));
        see(er(zoh::<2, 1, 3, T>(a, b, s[9])));
        see(er(van_loan::<2, 4, T>(a, q, s[9])));
        see((q_discrete_white_noise::<2, T>(s[0], s[1]), q_discrete_white_noise::<3, T>(s[0], s[1]), q_discrete_white_noise::<4, T>(s[0], s[1])));
    });
}
fn plants<T: Sc>(ck: &Ck) {
    job::<T, 19>(ck, "mixer", [0.2, 0.2, 0.0, -0.2, 0.2, 0.0, -0.2, -0.2, 0.0, 0.2, -0.2, 0.0, 0.02, 0.0, 5.0, 8.0, 0.1, -0.1, 0.05], false, |s| {
        let spins = [RotorSpin::Clockwise, RotorSpin::CounterClockwise, RotorSpin::Clockwise, RotorSpin::CounterClockwise];
        let full = MultirotorMixer::new([v3(s), v3(&s[3..]), v3(&s[6..]), v3(&s[9..])], spins, s[12], s[13], s[14]);
        for m in [full, MultirotorMixer::quadrotor_x(s[0], s[12], s[13], s[14])] {
            let Some(m) = er(m) else { continue };
            let c = m.rotor_thrusts(s[15], v3(&s[16..]));
            see((c.thrusts(), c.saturated(), m.wrench(c.thrusts()), m.allocation(), m.minimum_thrust(), m.maximum_thrust()));
        }
        see(er(MultirotorMixer::<0, T>::new([], [], s[12], s[13], s[14])).is_some());
        see(er(MultirotorMixer::<1, T>::new([v3(s)], [spins[0]], s[12], s[13], s[14])).is_some());
    });
    job::<T, 6>(ck, "rotor_lag", [0.05, 0.01, 1.0, 2.0, 0.5, 0.03], false, |s| {
        let Some(mut x) = er(RotorLag::<2, T>::new(s[0], s[1])) else { return };
        x = x.with_thrusts(Vector::new([s[2], s[3]]));
        let c = Vector::new([s[4], s[2]]);
        see((x.stepped(c), x.stepped_over(c, s[5]), x.rate(c), x.thrusts(), x.time_constant(), x.timestep()));
        x.reset();
        see(x.stepped(c));
    });
    job::<T, 26>(ck, "rigid_body", [2.0, 0.1, 0.2, -0.1, 1.0, 1.5, 2.0, 0.0, 0.0, -9.81, 0.9, 0.1, -0.2, 0.3, 1.0, 2.0, 3.0, 0.1, 0.2, 0.3, 0.4, 0.5, 0.6, 1.0, -1.0, 0.01], false, |s| {
        let made = [er(SpatialInertia::from_diagonal_inertia(s[0], v3(&s[1..]), v3(&s[4..]))), er(SpatialInertia::new(s[0], v3(&s[1..]), Matrix::new([[s[4], s[1], s[2]], [s[1], s[5], s[3]], [s[2], s[3], s[6]]])))];
        for i in made.into_iter().flatten() {
            let v = Twist::new(v3(&s[17..]), v3(&s[20..]));
            let p = pose(&s[10..]);
            see((i.momentum(v), i.bias_wrench(v), i.kinetic_energy(v), i.to_matrix(), i.combined(i), i.inertia_about(v3(&s[14..])), p.act_inertia(i), p.inverse_act_inertia(i), i.is_finite()));
            let Some(b) = er(RigidBody::new(i, v3(&s[7..]))) else { continue };
            let w = Wrench::new(v3(&s[14..]), v3(&s[22..]));
            see(b.accelerations(rot(&s[10..]), v3(&s[17..]), w));
            let st = FreeJointState::new(p, v);
            let n = b.stepped(st, w, s[25]);
            let y = state_vector_from_free_joint(n);
            see((b.state_derivative(&y, w), free_joint_from_state_vector(&y), n.generalized_position(), n.generalized_velocity()));
        }
        see(FreeJointState::from_generalized_vectors(core::array::from_fn(|i| s[i + 10]), core::array::from_fn(|i| s[i + 17])));
    });
}
fn space<T: Sc>(ck: &Ck) {
    job::<T, 9>(ck, "quaternion", [0.9, 0.1, -0.2, 0.3, 0.4, 0.5, 0.6, -0.7, 0.35], false, |s| {
        let (a, b, v, u) = (quat(s), quat(&s[4..]), v3(&s[1..]), v3(&s[4..]));
        see((a.conjugate(), a.norm(), a.inverse(), a.normalized(), a.try_normalized(), a.exp(), a.log(), a.dot(b), a * b, a + b, a - b, -a));
        see((Quaternion::from_axis_angle(v, s[8]), Quaternion::from_scaled_axis(v), Quaternion::from_euler_zyx(s[0], s[1], s[2]), Quaternion::from_two_vectors(v, u), a.to_rotation_matrix(), a.to_axis_angle(), a.to_scaled_axis(), a.to_euler_zyx()));
        see((a.transform_point(u), a.inverse_transform_point(u), a.rotation_angle_to(b), a.slerp(b, s[8]), Quaternion::try_from_rotation_matrix(a.to_rotation_matrix())));
        see(Quaternion::try_from_rotation_matrix(Matrix::new([[s[0], s[1], s[2]], [s[3], s[4], s[5]], [s[6], s[7], s[8]]])));
        let (p, q) = (rot(s), rot(&s[4..]));
        see((SO3::try_from_quaternion(a), p.compose(q), p.inverse(), p.act(u), SO3::exp(v), p.log(), SO3::hat(v), SO3::vee(SO3::hat(u)), p.adjoint(), p.to_matrix(), p.interpolate(q, s[8]), p.normalized()));
        see((SO3::left_jacobian(v), SO3::right_jacobian(v), SO3::left_jacobian_inverse(v), SO3::right_jacobian_inverse(v), SO3::from_two_direction_pairs(v, u, v3(&s[3..]), v3(&s[6..]))));
        see(SO3::try_from_matrix(Matrix::new([[s[0], s[1], s[2]], [s[3], s[4], s[5]], [s[6], s[7], s[8]]])));
    });
    job::<T, 8>(ck, "planar", [0.5, 1.0, 2.0, -0.4, 0.3, -1.0, 0.6, 0.25], false, |s| {
        let (r, q) = (SO2::from_angle(s[0]), SO2::exp(s[3]));
        see((r.compose(q), r.inverse(), r.act(Vector::new([s[1], s[2]])), r.log(), SO2::hat(s[0]), r.to_matrix(), r.interpolate(q, s[7]), r.norm(), r.normalized(), r.adjoint(), SO2::try_from_matrix(Matrix::new([[s[0], s[1]], [s[2], s[3]]]))));
        let (a, b, w) = (SE2::from_parts(r, Vector::new([s[1], s[2]])), SE2::exp(v3(&s[3..])), v3(s));
        see((a.compose(b), a.inverse(), a.act(Vector::new([s[4], s[5]])), b.log(), a.log(), a.adjoint(), SE2::hat(w), SE2::vee(SE2::hat(w)), a.to_matrix(), SE2::try_from_matrix(a.to_matrix()), a.interpolate(b, s[7])));
        see((SE2::left_jacobian(w), SE2::right_jacobian(w), SE2::left_jacobian_inverse(w), SE2::right_jacobian_inverse(w)));
        if let Some(d) = er(DifferentialDrive::new(s[0], s[1])) {
            let x = WheelRotations::new(s[2], s[3]);
            see((d.forward(WheelVelocities::new(s[2], s[3])), d.inverse(BodyTwist::new(s[4], s[5])), d.forward_arc(x), d.inverse_arc(BodyArc::new(s[4], s[5])), d.wheel_rotations_from_travel(s[6], s[7]), d.wheel_travel(x), d.odometry_step(a, x)));
        }
        let tw = BodyTwist::new(s[2], s[3]);
        see((tw.to_tangent(), BodyTwist::project_tangent(w), BodyTwist::tangent_slip(w), tw.integrate_over(s[7]), multicalc::kinematics::integrate(a, BodyArc::new(s[4], s[5])), Unicycle::new(tw).derivative(&w), (Unicycle::new(tw).field())(s[0], &w)));
        see(OdometryStep.eval(&[s[0], s[1], s[2], s[3], s[4]]));
    });
    job::<T, 14>(ck, "rigid_motion", [0.9, 0.1, -0.2, 0.3, 1.0, 2.0, 3.0, 0.7, -0.5, 0.1, 0.4, -1.0, 0.5, 0.25], false, |s| {
        let (a, b) = (pose(s), pose(&s[7..]));
        let x = Vector::new(core::array::from_fn(|i| s[i + 2]));
        let (tw, wr) = (Twist::from_vector(x), Wrench::from_vector(x));
        see((a.compose(b), a.inverse(), a.act(v3(&s[4..])), SE3::exp(x), a.log(), a.adjoint(), a.force_adjoint(), a.act_twist(tw), a.act_wrench(wr), a.inverse_act_twist(tw), a.inverse_act_wrench(wr)));
        see((SE3::hat(x), SE3::vee(SE3::hat(x)), a.to_matrix(), SE3::try_from_matrix(a.to_matrix()), a.interpolate(b, s[13]), tw.cross(tw), tw.cross_wrench(wr), tw.dot_wrench(wr), tw.scale(s[0]), wr.scale(s[0])));
        see((SE3::left_jacobian(x), SE3::right_jacobian(x), SE3::left_jacobian_inverse(x), SE3::right_jacobian_inverse(x)));
        for p in [Primitive::Sphere { radius: s[0] }, Primitive::Capsule { radius: s[1], half_length: s[2] }] {
            for q in [Primitive::Sphere { radius: s[3] }, Primitive::Capsule { radius: s[4], half_length: s[5] }] { see(p.distance_to(a, q, b)); }
        }
        see((ExponentialMap::attitude_step(rot(s), v3(&s[4..]), s[13]), ExponentialMap::attitude_step_with_angular_acceleration(rot(s), v3(&s[4..]), v3(&s[7..]), s[13])));
        see(er(ExponentialMap::integrate_attitude(&|_, _| v3(&s[4..]), s[0], rot(s), s[13], 3, |_, _| ())));
    });
}
fn trees<T: Sc>(ck: &Ck) {
    job::<T, 20>(ck, "tree", [0.0, 0.0, 1.0, 0.9, 0.1, -0.2, 0.3, 0.5, 0.2, 0.1, 0.1, -1.0, 1.0, 0.3, -0.4, 0.2, 0.6, 1.0, 0.2, 0.1], false, |s| {
        let o = pose(&s[3..]);
        use JointParent::{Joint as J, World as W};
        let js = [
            Joint::revolute(v3(s), o).with_limits(s[11], s[12]).with_zero_offset(s[10]).with_anchor(v3(&s[7..])),
            Joint::prismatic(v3(&s[1..]), o).with_limits(s[11], s[12]).with_damping(s[13]),
            Joint::continuous(v3(&s[13..]), SE3::identity()).with_armature(s[14]).with_friction_loss(s[15]),
            Joint::fixed(o),
        ];
                let mut made = [None, None, None];
        made[0] = er(KinematicTree::<4, 6, T>::try_from_joints(&js, &[W, J(0), J(1), J(2)]));
        let mut t = KinematicTree::<4, 10, T>::new();
        er(t.push(Joint::floating(o), W));
        for j in js { er(t.push(j, J(0))); }
        let c10 = Vector::<10, T>::from_fn(|i| s[i + 7]);
        if let Some(st) = er(t.forward_kinematics(&c10)) {
            see((st.len(), st.pose(0), st.pose(9)));
            for f in [JacobianFrame::World, JacobianFrame::Body] { for i in 0..5 { if let Some(j) = er(t.geometric_jacobian(&st, i, f)) { see((j.matrix(), er(j.smallest_singular_value()), er(j.classify_singularity(s[19])))); } } }
        }
        see(t.configuration_distance(&c10, &c10));
        made[1] = er(KinematicTree::<4, 6, T>::try_from_joints(&js[..2], &[W, W]));
        made[2] = Some(KinematicTree::<4, 6, T>::new());
        for t in made.into_iter().flatten() {
            let c = Vector::<6, T>::from_fn(|i| s[i + 13]);
            let target = pose(&s[12..]);
            if let Some(st) = er(t.forward_kinematics(&c)) {
                let mut q = CollisionQuery::<3, 2, 2, T>::new();
                er(q.push_self_primitive(0, Primitive::Sphere { radius: s[16] }, o));
                er(q.push_self_primitive(1, Primitive::Capsule { radius: s[17], half_length: s[18] }, o));
                er(q.push_environment_primitive(Primitive::Sphere { radius: s[19] }, target));
                for (a, b) in [(0, 1), (0, 0), (5, 1), (usize::MAX, 0)] { er(q.exclude_pair(a, b)); }
                if let Some(r) = er(q.check(&st)) { see(r.is_clear(s[0])); }
                for i in [0, 3, 4, usize::MAX] {
                    if let Some(j) = er(t.geometric_jacobian(&st, i, JacobianFrame::World)) {
                        see((er(j.damped_pseudo_inverse(&c, s[19])), er(j.null_space_projector(&c, s[19])), j.tool_twist(&c), j.column(0), j.column(9)));
                    }
                }
            }
            let ik = InverseKinematics::<6, T>::new().with_maximum_iterations(4);
            let forms = [ik, ik.with_joint_weights(c).with_maximum_damping(s[16]), ik.with_position_tolerance(s[17]).with_orientation_tolerance(s[18]).with_maximum_step_norm(s[19]).with_minimum_step_norm(s[16]), ik.with_secondary_objective(SecondaryObjective::PreferredPosture(c)).with_secondary_gain(s[16]).with_singular_value_threshold(s[17]), ik.with_secondary_objective(SecondaryObjective::JointLimitMargin).with_respect_limits(false)];
            for x in forms { if let Some(r) = er(x.solve(&t, 3, target, &c)) { assert!(r.iterations <= 4, "{} iterations", r.iterations) } }
            er(MultiStartInverseKinematics::<2, 6, T>::new().with_solver(ik).with_distinct_threshold(s[16]).with_jitter_span(s[17]).solve_from_seeds(&t, 3, target, &[c, c]));
        }
    });
}
fn motions<T: Sc>(ck: &Ck) {
    job::<T, 7>(ck, "profile", [1.0, 2.0, 5.0, 3.0, 0.7, 4.0, -2.0], false, |s| {
        for jerk in [None, Some(s[2])] {
            let Some(l) = er(ProfileLimits::try_new(s[0], s[1], jerk)) else { continue };
            for st in [ProfileStrategy::Automatic, ProfileStrategy::Trapezoidal, ProfileStrategy::JerkLimited] {
                let p = MotionProfilePlanner::new(l).with_strategy(st);
                let (Some(x), Some(y)) = (er(p.plan(s[3])), er(p.plan(s[6]))) else { continue };
                see((x.duration(), x.peak_speed(), x.distance(), x.phase_durations(), er(x.state_at(s[4])), er(x.stretched_to(s[5]).state_at(s[4]))));
                let z = SynchronizedProfile::from_profiles([x, y]);
                see((z.duration(), er(z.state_at(s[4])), z.axis(0), z.axis(2)));
                if let Some(z) = er(SynchronizedProfile::try_from_profiles_over([x, y], s[5])) { see(er(z.state_at(s[4]))); }
            }
        }
    });
    job::<T, 10>(ck, "polyline", [0.0, 0.0, 1.0, 0.5, 2.0, -1.0, 0.7, 0.3, 0.4, 0.9], false, |s| {
        let w = [Vector::new([s[0], s[1]]), Vector::new([s[2], s[3]]), Vector::new([s[4], s[5]])];
        for n in 0..4 {
            let Some(p) = er(PolylinePath::<3, 2, T>::try_from_points(&w[..n])) else { continue };
            for e in [EndOfPath::Stop, EndOfPath::Loop] {
                let mut p = p.with_end_of_path(e);
                see((er(p.closest_point(Vector::new([s[6], s[7]]))), er(p.lookahead_point(s[8], s[9])), p.total_arc_length(), p.len()));
                er(p.push(Vector::new([s[9], s[8]])));
            }
        }
        let mut d = [k::<T>(0.0); 3];
        for n in 0..4 { for m in 0..4 { er(durations_from_average_speed(&w[..n], s[6], &mut d[..m])); } }
    });
    job::<T, 15>(ck, "minimum_snap", [0.0, 0.0, 1.0, 0.5, 2.0, -1.0, 0.7, 1.3, 0.4, 0.9, -0.5, 0.2, 0.1, 0.3, 0.6], false, |s| {
        let w = [Vector::new([s[0], s[1]]), Vector::new([s[2], s[3]]), Vector::new([s[4], s[5]])];
        let b = BoundaryDerivatives { velocity: Vector::new([s[8], s[9]]), acceleration: Vector::new([s[10], s[11]]), jerk: Vector::new([s[12], s[13]]) };
        for n in 1..4 {
            let p = MinimumSnapPlanner::<2, 3, 2, T>::new().with_start(b).with_end(b);
            if let Some(x) = er(p.plan(&w[..n], &[s[6], s[7]][..n - 1])) {
                see((er(x.evaluate(s[14])), er(x.evaluate_with_derivatives::<5>(s[14])), er(x.definite_integral(s[13], s[14])), x.total_span()));
                see((er(x.derivative().evaluate(s[14])), er(x.nth_derivative(9).evaluate(s[14]))));
            }
        }
        er(MinimumSnapPlanner::<2, 0, 2, T>::new().plan(&w, &[s[6], s[7]]));
        er(MinimumSnapPlanner::<0, 0, 2, T>::new().plan(&w[..1], &[]));
        er(MinimumSnapPlanner::<2, 3, 2, T>::new().plan(&w[..2], &[s[6], s[7]]));
    });
}
fn algebra<T: Sc>(ck: &Ck) {
    job::<T, 9>(ck, "matrix", [2.0, 0.5, 0.1, 0.4, 3.0, -0.2, 0.1, 0.3, 1.5], false, |s| {
        let m = Matrix::new([[s[0], s[1], s[2]], [s[3], s[4], s[5]], [s[6], s[7], s[8]]]);
        let y = m.symmetrized();
        let b = v3(s);
        see((m.determinant(), er(m.inverse()), m.trace(), m.transpose(), m.frobenius_norm(), m.is_finite(), m.is_symmetric(), er(m.solve(b)), er(m.expm()), m * m, m * b, m + m, m - m, -m, m / s[8]));
        if let Some(x) = er(m.lu_decompose()) { see((x.determinant(), x.inverse(), x.solve(b), x.lower(), x.upper(), x.permutation(), x.solve_matrix(m))); }
        for c in [y, m] { if let Some(x) = er(c.cholesky()) { see((x.determinant(), x.inverse(), x.solve(b), x.lower(), x.solve_matrix(m))); } }
        if let Some(x) = er(m.svd()) { see((x.singular_values(), x.rank(s[8]), x.condition_number(), x.pseudo_inverse(), x.pseudo_inverse_tol(s[8]), x.solve(b), x.left(), x.right())); }
        see(er(m.pseudo_inverse()));
        if let Some(x) = er(y.symmetric_eigendecomposition()) { see((x.eigenvalues(), x.eigenvectors(), x.condition_number(), x.determinant(), x.is_positive_definite(), x.clamped(s[8]))); }
        if let Some(x) = er(PivotedQr::decompose(m)) {
            see((x.triangular(), x.orthogonal(), x.permutation(), er(x.solve_least_squares(b))));
            let d = x.into_damped(b);
            let (a, c) = d.solve_with_diagonal(&[s[0], s[4], s[8]]);
            see((d.solve_with_zero_diagonal().0, d.max_a_t_b_scaled(s[0]), d.a_x_norm(&a), d.is_non_singular(), c.solve([s[0], s[1], s[2]])));
        }
        let r = Matrix::new([[s[0], s[1]], [s[2], s[3]], [s[4], s[5]]]);
        see((er(r.svd()).is_some(), er(r.pseudo_inverse()), er(r.transpose().pseudo_inverse()), er(PivotedQr::decompose(r)).map(|x| er(x.solve_least_squares(b))), er(PivotedQr::decompose(r.transpose())).is_some()));
        let n4 = Matrix::<4, 4, T>::from_fn(|i, j| s[(3 * i + j) % 9]);
        see((n4.determinant(), er(n4.inverse()), er(n4.expm()), er(n4.svd()).is_some(), er(n4.symmetrized().symmetric_eigendecomposition()).is_some()));
        see((b.norm(), b.normalized(), b.try_normalized(), b.cross(b), b.dot(b), b.scalar_triple(b, b)));
        let e = Matrix::<0, 0, T>::zeros();
        see((e.determinant(), er(e.inverse()), er(e.expm()), er(e.cholesky()).is_some(), er(e.svd()).is_some(), er(e.symmetric_eigendecomposition()).is_some(), er(PivotedQr::decompose(e)).is_some()));
        see((Matrix::<2, 2, T>::try_from_row_slice(s), m.try_row(3), m.try_column(9), m.get(3, 0), b.get(3)));
    });
    job::<T, 7>(ck, "polynomial", [0.5, -1.0, 2.0, 0.3, 1.0, -1.5, 2.5], false, |s| {
        let p = Polynomial::new([s[0], s[1], s[2], s[3], s[4]]);
        let q = Polynomial::new([s[0], s[1], s[2]]);
        let (lo, hi) = (s[5], s[6]);
        see((p.degree(), p.leading_coefficient(), p.evaluate(lo), p.evaluate_with_derivatives::<7>(lo), p.derivative(), p.nth_derivative(usize::MAX), p.definite_integral(lo, hi), p.scale(hi), p.shift_argument(lo), p.scale_argument(hi), p.reverse(), p.is_zero(), p.try_resize::<3>(), p.coefficient(9)));
        see((er(p.multiply_into::<3, 7>(&q)), er(p.multiply_into::<3, 2>(&q)), er(q.compose_into::<3, 5>(&q)), er(q.compose_into::<3, 2>(&q)), er(p.divide::<3, 5, 2>(&q)), er(p.divide::<3, 0, 0>(&q))));
        see((er(p.real_roots()), er(q.real_roots()), er(Polynomial::new([s[0], s[1], s[2], s[3]]).real_roots()), er(Polynomial::new([s[0], s[1]]).real_roots())));
        see((er(p.cauchy_root_bound()), er(p.count_real_roots(lo, hi)), er(p.real_roots_in(lo, hi, k(1e-9), 20)), er(p.real_roots_in(lo, hi, s[0], 3)), er(p.real_roots_in(lo, hi, s[0], 0))));
        see((er(Polynomial::<4, T>::from_roots(&s[..3])), er(Polynomial::<4, T>::from_roots(&s[..5])), Polynomial::<4, T>::chebyshev_nodes(lo, hi), er(Polynomial::<3, T>::from_points(&[s[0], s[1], s[2]], &[s[3], s[4], s[5]])), er(Polynomial::<2, T>::fit_least_squares(&[s[0], s[1], s[2]], &[s[3], s[4], s[5]]))));
        see((er(Polynomial::<4, T>::from_endpoint_derivatives(s[0], s[1], s[2], s[3], s[4])), er(Polynomial::<8, T>::from_endpoint_derivatives(&[s[0], s[1], s[2], s[3]], &[s[3], s[4], s[5], s[6]], s[6])).is_some()));
        see((Polynomial::<0, T>::new([]).evaluate(lo), Polynomial::<0, T>::new([]).degree(), Polynomial::<0, T>::new([]).definite_integral(lo, hi), er(Polynomial::<0, T>::new([]).count_real_roots(lo, hi)), er(Polynomial::<1, T>::new([lo]).real_roots_in(lo, hi, k(1e-9), 5)).is_some()));
        if let Some(x) = er(PiecewisePolynomial::<2, 3, 1, T>::try_from_pieces(&[[q], [q]], &[s[3], s[4]])) { see((er(x.evaluate(lo)), er(x.evaluate_with_derivatives::<4>(hi)), er(x.definite_integral(lo, hi)), x.span(2), x.piece_polynomial(2, 0), x.piece_polynomial(0, 1))); }
        for e in [[0, 0], [1, 2], [7, 3], [u32::MAX, 1], [u32::MAX, u32::MAX]] {
            let tm = [MultivariateTerm::new(s[0], e), MultivariateTerm::new(s[1], [e[1], e[0]])];
            let Some(mut x) = er(MultivariatePolynomial::<2, 4, T>::try_from_terms(&tm)) else { continue };
            if e[0] < 100 { see((x.evaluate(&[lo, hi]), x.gradient_at(&[lo, hi]), er(x.substitute(0, lo)).is_some())); }
            see((x.total_degree(), x.degree_in(0), x.degree_in(2), er(x.partial_derivative(0)).is_some(), er(x.partial_derivative(2)).is_some(), er(x.partial_antiderivative(0)).is_some(), er(x.add_into::<4, 8>(&x)).is_some(), er(x.multiply_into::<4, 16>(&x)).is_some(), er(x.multiply_into::<4, 1>(&x)).is_some()));
            x.collect_like_terms();
        }
    });
}
/// A function that counts how often it is asked.
struct Odd<'a>(u8, &'a Cell<u64>, f64);
impl ScalarFn for Odd<'_> {
    fn eval<S: Numeric>(&self, x: S) -> S {
        self.1.set(self.1.get() + 1);
        let c = S::from_f64(self.2);
        match self.0 { 0 => x * x * x - c, 1 => (x - c).sqrt(), 2 => c / x, 3 => x.exp() - c, 4 => c, 5 => x - x / x + c, _ => (x * c).sin() }
    }
}
impl ScalarFnN<2> for Odd<'_> {
    fn eval<S: Numeric>(&self, x: &[S; 2]) -> S { ScalarFn::eval(self, x[0] * x[1]) + x[1] }
}
impl VectorFn<2, 2> for Odd<'_> {
    fn eval<S: Numeric>(&self, x: &[S; 2]) -> [S; 2] { [ScalarFn::eval(self, x[0]) - x[1], x[0] * x[1]] }
}
impl VectorFn<3, 3> for Odd<'_> {
    fn eval<S: Numeric>(&self, x: &[S; 3]) -> [S; 3] { [ScalarFn::eval(self, x[0]) - x[1], x[0] * x[1], x[2] - x[0]] }
}
impl VectorFn<2, 3> for Odd<'_> {
    fn eval<S: Numeric>(&self, x: &[S; 2]) -> [S; 3] { [ScalarFn::eval(self, x[0]) - x[1], x[0] * x[1], x[1] - x[0]] }
}
fn solvers<T: Sc>(ck: &Ck) {
    let ask = |n: &Cell<u64>, at_most: u64, what: &str| { let got = n.replace(0); assert!(got <= at_most, "{what}: asked {got} times, at most {at_most}") };
    job::<T, 5>(ck, "roots", [0.1, 2.0, 1e-9, 1e-9, 1.0], false, |s| {
        let [a, b, x, f, c] = *s;
        let n = Cell::new(0);
        for kind in 0..7 {
            let g = Odd(kind, &n, if c.is_finite() { 1.5 } else { f64::NAN });
            for m in [0usize, 1, 25] {
                er(root_finding::Bisection::new().with_xtol(x).with_ftol(f).with_max_iterations(m).solve(&g, a, b));
                ask(&n, m as u64 + 4, "bisection");
                er(root_finding::Brent::new().with_xtol(x).with_ftol(f).with_max_iterations(m).solve(&g, a, b));
                ask(&n, m as u64 + 4, "brent");
                for back in [false, true] {
                    er(root_finding::Newton::from_derivator(AutoDiffSingle::<T>::new()).with_xtol(x).with_ftol(f).with_max_iterations(m).with_backtracking(back).solve(&g, a));
                    ask(&n, 100 * (m as u64 + 2), "newton");
                    er(root_finding::NewtonSystem::from_derivator(AutoDiffMulti::<T>::new()).with_xtol(x).with_ftol(f).with_max_iterations(m).with_backtracking(back).solve(&g, &[a, b]));
                    ask(&n, 100 * (m as u64 + 2), "newton system");
                    er(optimization::GaussNewton::from_derivator(AutoDiffMulti::<T>::new()).with_ftol(f).with_xtol(x).with_gtol(f).with_patience(m).with_backtracking(back).minimize::<_, 2, 3>(&g, &[a, b]));
                    ask(&n, 400 * (m as u64 + 2), "gauss newton");
                    er(optimization::LevenbergMarquardt::from_derivator(AutoDiffMulti::<T>::new()).with_ftol(f).with_xtol(x).with_gtol(f).with_patience(m).with_stepbound(c).with_scale_diag(back).minimize::<_, 2, 3>(&g, &[a, b]));
                    ask(&n, 400 * (m as u64 + 2), "levenberg marquardt");
                }
            }
        }
    });
    job::<T, 6>(ck, "ode", [0.0, 1.0, 1e-3, 1e-3, 0.1, 0.5], false, |s| {
        let n = Cell::new(0u64);
        for kind in 0..4 {
            let f = |t: T, y: &Vector<2, T>| { n.set(n.get() + 1); match kind { 0 => Vector::new([y[1], -y[0]]), 1 => Vector::new([y[0] * y[0], t]), 2 => Vector::new([k::<T>(1.0) / t, y[0].sqrt()]), _ => Vector::new([s[5], s[4]]) } };
            let y = Vector::new([s[4], s[5]]);
            see(Rk4::step(&f, s[0], &y, s[4]));
            see(Rk4::integrate(&f, s[0], &y, s[4], 3, |_, _| ()));
            n.set(0);
            for x in [Rk45::default().with_rtol(s[2]).with_atol(s[3]), Rk45::default().with_first_step(s[2]), Rk45::default().with_min_step(s[2]).with_max_step(s[3])] {
                let x = x.with_max_steps(40);
                er(x.solve(&f, s[0], &y, s[1]));
                ask(&n, 7 * 40 * 12, "rk45");
                let mut out = [y; 2];
                er(x.solve_on_grid(&f, s[0], &y, &[s[1], s[5]], &mut out));
                er(x.solve_on_grid(&f, s[0], &y, &[s[1]], &mut out));
                er(x.for_each_step(&f, s[0], &y, s[1], |p| { see(p.interpolate(s[4])); }));
                n.set(0);
            }
        }
    });
    job::<T, 5>(ck, "calculus", [0.1, 2.0, 0.5, 0.7, 1e-4], false, |s| {
        use numerical_derivative::*;
        use numerical_integration::*;
        let n = Cell::new(0);
        for kind in 0..7 {
            let g = Odd(kind, &n, 1.5);
            let f = |x: T| ScalarFn::eval(&g, x);
            let f2 = |x: &[T; 2]| ScalarFn::eval(&g, x[0]) * x[1];
            let p = [s[2], s[3]];
            for m in [FiniteDifferenceMode::Forward, FiniteDifferenceMode::Backward, FiniteDifferenceMode::Central] {
                let (d1, dn) = (FiniteDifferenceSingle::from_parameters(s[4], m, s[1]), FiniteDifferenceMulti::from_parameters(s[4], m, s[1]));
                for o in 0..5 { er(d1.differentiate(o, &g, s[2])); }
                for i in [0, 1, 2, usize::MAX] { er(dn.first_partial_derivative(&g, i, &p)); er(dn.second_partial_derivative(&g, &[i, 0], &p)); }
                er(Jacobian::from_derivator(dn).evaluate::<_, 3, 2>(&g, &p));
                er(Hessian::from_derivator(dn).evaluate(&g, &p));
            }
            let (d1, dn) = (AutoDiffSingle::<T>::new(), AutoDiffMulti::<T>::new());
            for o in 0..12 { er(d1.differentiate(o, &g, s[2])); }
            for i in [0, 1, 2, usize::MAX] { er(dn.first_partial_derivative(&g, i, &p)); er(dn.second_partial_derivative(&g, &[i, 0], &p)); er(partial(&g, i, &p)); er(dn.differentiate(&g, &[i, 0, 0, 1], &p)); }
            er(Jacobian::from_derivator(dn).evaluate::<_, 3, 2>(&g, &p));
            er(Hessian::from_derivator(dn).evaluate(&g, &p));
            see((derivative(&g, s[2]), second_derivative(&g, s[2])));
            if let Some(x) = er(LinearApproximator::from_derivator(dn).approximate(&g, &p)) { see((x.predict(&[s[0], s[1]]), x.intercept(), x.prediction_metrics(&[[s[0], s[1]], p], &g))); see(x.prediction_metrics::<_, 0>(&[], &g)); }
            if let Some(x) = er(QuadraticApproximator::from_derivator(dn).approximate(&g, &p)) { see((x.predict(&[s[0], s[1]]), x.prediction_metrics(&[[s[0], s[1]], p], &g))); see(x.prediction_metrics::<_, 0>(&[], &g)); }
            let lim = [s[0], s[1]];
            for m in [IterativeMethod::Booles, IterativeMethod::Simpsons, IterativeMethod::Trapezoidal] {
                for steps in [0u64, 1, 3, 12] {
                    let x = IterativeSingle::<T>::from_parameters(steps, m);
                    n.set(0);
                    see((er(x.single_integral(&f, &lim)), er(x.with_kahan_summation().double_integral(&f, &[lim, lim]))));
                    ask(&n, 8 * (steps + 2) * (steps + 2), "iterative");
                    let x = IterativeMulti::<T>::from_parameters(steps, m);
                    for i in [0, 1, 2, usize::MAX] { er(x.single_partial_integral(&f2, i, &lim, &p)); er(x.double_partial_integral(&f2, [i, 0], &[lim, lim], &p)); }
                }
            }
            for m in [GaussianQuadratureMethod::GaussLegendre, GaussianQuadratureMethod::GaussHermite, GaussianQuadratureMethod::GaussLaguerre] {
                for order in [0, 1, 4, 30, 31, usize::MAX] {
                    let x = GaussianSingle::<T>::from_parameters(order, m);
                    er(x.single_integral(&f, &lim));
                    if order < 5 { er(x.double_integral(&f, &[lim, lim])); }
                    let x = GaussianMulti::<T>::from_parameters(order, m);
                    for i in [0, 1, 2, usize::MAX] { er(x.single_partial_integral(&f2, i, &lim, &p)); }
                }
            }
            er(integral(&f, lim));
        }
        let (u, w): (&dyn Fn(T) -> T, &dyn Fn(T) -> T) = (&|x| x * s[2], &|x| x.exp());
        let (a, b): (&dyn Fn(&[T; 2]) -> T, &dyn Fn(&[T; 2]) -> T) = (&|x| x[0] * s[3], &|x| x[1] / x[0]);
        let (c, d): (&dyn Fn(&[T; 3]) -> T, &dyn Fn(&[T; 3]) -> T) = (&|x| x[0] * s[3], &|x| x[1] / x[2]);
        let lim = [s[0], s[1]];
        for m in [0, 1, 5] {
            er(line_integral_2d_custom(&[a, b], &[u, w], &lim, m));
            er(line_integral_3d_custom(&[c, d, c], &[u, w, u], &lim, m));
            er(flux_integral_2d_custom(&[a, b], &[u, w], &lim, m));
            er(flux_integral_3d_custom(&[c, d, c], &[u, w, u], &lim, m));
            for i in [0, 1, 2, 3, usize::MAX] { er(line_integral_partial_2d(&[a, b], &[u, w], &lim, m, i)); er(line_integral_partial_3d(&[c, d, c], &[u, w, u], &lim, m, i)); }
        }
        let g = Odd(0, &n, 1.5);
        let dn = AutoDiffMulti::<T>::new();
        see((er(curl_3d(dn, &g, &[s[0], s[1], s[2]])), er(divergence_3d(dn, &g, &[s[0], s[1], s[2]])), er(curl_2d::<_, Odd, 2>(dn, &g, &[s[0], s[1]])), er(divergence_2d::<_, Odd, 2>(dn, &g, &[s[0], s[1]]))));
    });
}
fn estimators<T: Sc>(ck: &Ck) {
    job::<T, 18>(ck, "kalman", [0.0, 1.0, 1.0, 0.2, 0.2, 1.0, 1.0, 0.1, 0.0, 1.0, 0.1, 0.1, 1.0, 0.0, 0.5, 0.7, 0.01, 0.3], false, |s| {
        let x = Vector::new([s[0], s[1]]);
        let p = Matrix::new([[s[2], s[3]], [s[4], s[5]]]);
        let f = Matrix::new([[s[6], s[7]], [s[8], s[9]]]);
        let q = Matrix::new([[s[10], k(0.0)], [k(0.0), s[11]]]);
        let h = Matrix::new([[s[12], s[13]]]);
        let (r, z) = (Matrix::new([[s[14]]]), Vector::new([s[15]]));
        for u in [CovarianceUpdate::Joseph, CovarianceUpdate::Naive] {
            let mut kf = KalmanFilter::new(x, p, KalmanModel { state_transition: f, measurement_model: h, process_noise: q, measurement_noise: r }).with_covariance_update(u);
            kf.predict();
            er(kf.update(z));
            kf.predict_with_control(Matrix::new([[s[16]], [s[17]]]), z);
            see((er(kf.update(z)), kf.state(), er(kf.normalized_innovation_squared())));
            let n = Cell::new(0);
            for kind in 0..4 {
                let g = Odd(kind, &n, 1.5);
                let r2 = Matrix::from_diagonal([s[14], s[14]]);
                let z2 = Vector::new([s[15], s[17]]);
                let mut e = ExtendedKalmanFilter::<2, 2, T, AutoDiffMulti<T>>::from_derivator(x, p, q, r2, AutoDiffMulti::new()).with_covariance_update(u);
                see((er(e.predict(&g)), er(e.update(&g, z2)), er(e.update_with_residual(&g, z2)), er(e.normalized_innovation_squared())));
                let mut e = UnscentedKalmanFilter::<2, 2, T>::new(x, p, q, r2);
                see((er(e.predict(&g)), er(e.update(&g, z2)), er(e.update_with_residual(&g, z2)), er(e.normalized_innovation_squared())));
                for e in [er(e.with_scaling(s[16], s[17], s[9])), er(e.with_regularization(s[16]))] { if let Some(mut e) = e { see((er(e.predict(&g)), er(e.update(&g, z2)))); } }
            }
        }
        see(residual_with_wrapped_angles(x, Vector::new([s[2], s[3]]), &[0, 1, 2, usize::MAX]));
    });
    job::<T, 20>(ck, "attitude_filters", [0.9, 0.1, -0.2, 0.3, 0.1, 0.2, -0.1, 0.5, 0.3, 9.8, 0.4, -0.1, 0.2, 0.01, 0.6, 0.05, 0.0, 0.1, 1.0, 0.2], false, |s| {
        let o = rot(s);
        let mut m = [MahonyFilter::new(o), MahonyFilter::new(o).with_proportional_gain(s[14]).with_integral_gain(s[15]), MahonyFilter::new(o).with_reference_directions(v3(&s[16..]), v3(&s[17..]))];
        for x in m.iter_mut() { see((er(x.step(v3(&s[4..]), v3(&s[7..]), Some(v3(&s[10..])), s[13])), er(x.step_without_magnetometer(v3(&s[4..]), v3(&s[7..]), s[13])), x.orientation(), x.gyroscope_bias())); x.set_gyroscope_bias(v3(&s[1..])); x.set_orientation(o); er(x.step(v3(&s[4..]), v3(&s[7..]), None, s[13])); }
        let mut m = [MadgwickFilter::new(o), MadgwickFilter::new(o).with_correction_gain(s[14]).with_bias_gain(s[15]), MadgwickFilter::new(o).with_reference_directions(v3(&s[16..]), v3(&s[17..]))];
        for x in m.iter_mut() { see((er(x.step(v3(&s[4..]), v3(&s[7..]), Some(v3(&s[10..])), s[13])), er(x.step_without_magnetometer(v3(&s[4..]), v3(&s[7..]), s[13])), x.orientation(), x.gyroscope_bias())); x.set_gyroscope_bias(v3(&s[1..])); x.set_orientation(o); er(x.step(v3(&s[4..]), v3(&s[7..]), None, s[13])); }
        struct Place;
        impl NominalStateFn<3> for Place { fn eval<S: Numeric>(&self, x: &NominalState<S>) -> [S; 3] { x.position().into_array() } }
        let st = NominalState::new(v3(&s[4..]), v3(&s[7..]), o, v3(&s[10..]), v3(&s[14..]));
        let noise = ImuNoise { gyroscope_noise_density: s[14], accelerometer_noise_density: s[15], gyroscope_bias_random_walk: s[16], accelerometer_bias_random_walk: s[17] };
        let mut e = ErrorStateKalmanFilter::<3, T>::new(st, Matrix::identity().scale(s[18]), noise, Matrix::identity().scale(s[19])).with_gravity(v3(&s[1..]));
        see((er(e.predict(v3(&s[4..]), v3(&s[7..]), s[13])), er(e.update(&Place, v3(&s[10..]))), er(e.update_with_residual(&Place, v3(&s[10..]))), er(e.update_other(&Place, v3(&s[10..]), Matrix::identity())), er(e.normalized_innovation_squared()), er(e.normalized_estimation_error_squared(st))));
        e.inject_error_and_reset(Vector::from_fn(|i| s[i]));
        see((er(e.condition_covariance(s[13])), e.error_state_transition(v3(&s[4..]), v3(&s[7..]), s[13]), st.plus_error(Vector::from_fn(|i| s[i])), st.error_from(e.nominal_state()), st.propagated(v3(&s[4..]), v3(&s[7..]), s[13], v3(&s[1..])), st.is_finite()));
    });
}
fn plain<T: Sc + Primal + RandomScalar>(ck: &Ck) {
    job::<T, 3>(ck, "clamp", [0.5, -1.0, 1.0], false, |s| {
        let c = |x: T| <T as Numeric>::Constant::from_f64(x.to_f64());
        see(<T as Numeric>::clamp(s[0], c(s[1]), c(s[2])));
    });
    job::<T, 9>(ck, "maps", [0.5, -1.0, -1.0, 0.3, 0.2, 0.7, 2.0, 1.5, -0.5], true, |s| {
        for (c, r) in [(4, 4), (1, 1), (0, 3), (3, 0)] {
            let Some(mut m) = er(DynamicOccupancyGrid::try_new(c, r, s[0], [s[1], s[2]])) else { continue };
            let (p, q) = ([s[3], s[4]], [s[7], s[8]]);
            m.occupy_point(p);
            see((m.cell_of(p), m.cell_of(q), m.cast_ray(p, s[5], s[6]), m.is_occupied(0, 0), m.is_occupied(9, 9), m.is_occupied(usize::MAX, usize::MAX)));
            for closed in [false, true] { m.occupy_polyline(&[p, q, [s[5], s[6]]], closed); m.occupy_polyline(&[p], closed); m.occupy_polyline(&[], closed); }
            m.occupy_circle(p, s[6]);
            see((m.cast_ray(q, s[5], s[6]), m.cast_ray(p, s[3], s[7])));
            m.set_cell(usize::MAX, 0, true);
            m.clear();
        }
        if let Some(g) = er(ScanGeometry::<5, T>::try_new(s[0], s[6])) {
            see((g.nearest_beam_index(s[5]), g.beam_angle(4), g.beam_angle(5), g.range_is_valid(s[3]), g.angle_increment()));
            if let Some(g) = er(g.with_minimum_range(s[7])) { see(g.range_is_valid(s[3])); }
        }
        see((er(ScanGeometry::<0, T>::try_new(s[0], s[6])).is_some(), er(ScanGeometry::<1, T>::try_new(s[0], s[6])).map(|g| (g.nearest_beam_index(s[5]), g.angle_increment()))));
    });
    job::<T, 14>(ck, "particles", [0.5, -1.0, 1.0, 0.2, 0.2, 1.0, 0.1, 0.1, 0.5, 0.7, 0.3, 2.0, 0.05, 0.4], true, |s| {
        let n = Cell::new(0);
        let cov = Matrix::new([[s[2], s[3]], [s[4], s[5]]]);
        for count in [0, 1, 7] {
            for scheme in [ResamplingScheme::Systematic, ResamplingScheme::Stratified, ResamplingScheme::Multinomial, ResamplingScheme::Residual] {
                let Some(f) = er(ParticleFilter::<2, 2, T>::new(count, Vector::new([s[0], s[1]]), cov, Matrix::from_diagonal([s[6], s[7]]), 7)) else { continue };
                let mut f = f.with_resampling(scheme).with_resample_threshold(s[8]).with_roughening(s[9]);
                let l = er(GaussianLikelihood::new(Matrix::from_diagonal([s[10], s[11]])));
                for kind in [0, 1, 4] {
                    let g = Odd(kind, &n, 1.5);
                    er(f.predict(&g));
                    if let Some(l) = &l { er(f.update(&g, l, Vector::new([s[12], s[13]]))); }
                    er(f.update_with_log_weights(|x| x[0] * s[13]));
                }
                f.resample();
                see((f.mean(), f.effective_sample_size(), f.maximum_a_posteriori_state()));
                er(f.set_process_noise(cov));
            }
        }
        let cloud = InitialParticleCloud { particle_count: 5, position_variance: s[0], heading_variance: s[1] };
        let beam = BeamModel { range_deviation: s[2], agreement_reward: s[3], mismatch_penalty: s[4] };
        if let Some(mut m) = er(MonteCarloLocalizer::<3, T>::new([s[5], s[6], s[7]], cloud, beam, 3)) {
            let Some(map) = er(DynamicOccupancyGrid::try_new(4, 4, k(0.5), [k(-1.0), k(-1.0)])) else { return };
            er(m.set_motion_noise([s[8], s[9], s[10]]));
            er(m.predict(s[11], s[12]));
            if let Some(g) = er(ScanGeometry::<3, T>::try_new(s[13], s[11])) { er(m.update(&[s[8], s[9], s[10]], &map, &g)); }
            see((m.estimate(), m.is_converged(s[12], s[13]), m.effective_sample_size()));
        }
    });
    job::<T, 6>(ck, "draws", [0.1, 0.2, 0.3, 0.4, 1.0, 0.5], false, |s| {
        for seed in [0, 1, u64::MAX] {
            let mut r = Pcg32::<T>::with_stream(seed, seed);
            let mut out = [0usize; 5];
            for scheme in [ResamplingScheme::Systematic, ResamplingScheme::Stratified, ResamplingScheme::Multinomial, ResamplingScheme::Residual] {
                scheme.resample_indices(&[s[0], s[1], s[2], s[3], s[4]], &mut r, &mut out);
                assert!(out.iter().all(|i| *i < 5), "an index past the end");
                scheme.resample_indices::<T, _>(&[], &mut r, &mut []);
            }
            see((r.standard_normal(), r.next_u32()));
        }
    });
}
fn main() {
    let ck = Ck::new("C01");
    macro_rules! over { ($($f:ident),*) => { $( $f::<f64>(&ck); $f::<f32>(&ck); $f::<Dual<f64>>(&ck); )* } }
    over!(scalars, signal, control, plants, space, trees, motions, algebra, solvers, estimators);
    plain::<f64>(&ck);
    plain::<f32>(&ck);
    ck.finish()
}
