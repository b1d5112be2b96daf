//! C37: an error says what happened, and still does after every conversion it can go through.
#![allow(deprecated)]
use mc::*;
use multicalc::error::*;
use multicalc_robot_model::{ModelError, ModelFormat};
use std::any::Any;
use std::error::Error;

const NUMS: [usize; 6] = [0, 1, 2, 17, 4294967296, usize::MAX];

macro_rules! kinds {
    ($($k:ident = $t:ident : [$($v:ident),*] [$($n:ident . $f:ident),*] [$($w:ident ( $inner:ident )),*];)*) => {
        #[derive(Clone, Copy, PartialEq, Debug)]
        enum E { $($k($t)),* }
        impl E {
            fn dynamic(&self) -> &(dyn Error + 'static) { match self { $(E::$k(e) => e),* } }
            fn any(&self) -> &dyn Any { match self { $(E::$k(e) => e),* } }
            fn kind(&self) -> &'static str { match self { $(E::$k(_) => stringify!($t)),* } }
            fn is(&self, other: &(dyn Error + 'static)) -> bool { match self { $(E::$k(e) => other.downcast_ref::<$t>() == Some(e)),* } }
        }
        /// every error that wraps no other, with every number it can carry
        fn plain() -> Vec<(E, &'static str, Option<usize>)> {
            let mut all = vec![];
            $( $( all.push((E::$k($t::$v), stringify!($v), None)); )* $( for n in NUMS { all.push((E::$k($t::$n { $f: n }), stringify!($n), Some(n))); } )* )*
            all
        }
        /// every error `e` can turn into by one conversion, with the same thing built by hand
        fn wraps(e: &E) -> Vec<(E, E)> {
            let mut all = vec![];
            $( $( if let E::$inner(x) = *e { all.push((E::$k($t::from(x)), E::$k($t::$w(x)))); } )* )*
            all
        }
    };
}
kinds! {
    Linalg = LinalgError: [Singular, IllConditioned, NotPositiveDefinite, Underdetermined, NonFinite, NotSymmetric, InvalidTimestep] [DidNotConverge.iters] [];
    Diff = DiffError: [OrderZero, OrderUnsupported, StepSizeZero, InvalidStepSize, IndexOutOfRange, EmptyFunctionSet] [] [];
    Integrate = IntegrateError: [IterationsZero, LimitsIllDefined, QuadratureOrderOutOfRange, StepSizeTooSmall, NonFinite, IndexOutOfRange, NonPositiveTimestep] [DidNotConverge.steps] [];
    Solve = SolveError: [NonFinite, InvalidBracket] [DidNotConverge.iters] [Linalg(Linalg), Diff(Diff)];
    Kinematics = KinematicsError: [NonPositiveParameter, NonFinite, CapacityExceeded, JointCountMismatch, ParentOutOfOrder, AxisHasNoDirection, LimitsReversed, ToolIndexOutOfRange, StateShapeMismatch, NonPositiveWeight, FloatingJointNotAtRoot, ConfigurationCapacityExceeded, OrientationHasNoDirection, ContinuousJointHasLimits, StartCapacityExceeded, CollisionCapacityExceeded] [] [Linalg(Linalg)];
    Spatial = SpatialError: [NonPositiveMass, NonFinite, NotSymmetric, NonPositiveInertia] [] [];
    Estimation = EstimationError: [NotPositiveDefinite, NonFinite, WeightsDegenerate, InvalidTuning, StateIndexOutOfRange] [] [Diff(Diff)];
    Signal = SignalError: [NonFinite, NonPositiveTimestep, CoefficientOutOfRange, FrequencyOutOfRange, NonPositiveQualityFactor, NegativeThreshold, ThresholdsOutOfOrder, NonPositiveRate, WindowTooShort, WindowEvenLength, PolynomialOrderTooHigh, SectionIndexOutOfRange] [] [Linalg(Linalg)];
    Control = ControlError: [NonFinite, NonPositiveTimestep, InvalidOutputLimits, FilterCoefficientOutOfRange, NonPositiveLookaheadDistance, InvalidBeamCount, InvalidFieldOfView, NonPositiveRange, NonPositiveChassisWidth, NonPositiveSpeed, InvalidSpeedScaling, NegativeGoalBias, NonPositiveGain, NotSymmetricInertia, NonPositiveInertia, UndefinedThrustDirection, UndefinedHeadingDirection] [] [Linalg(Linalg), Signal(Signal)];
    Dynamics = DynamicsError: [NonFinite, NonPositiveInertia] [] [Linalg(Linalg)];
    Plant = PlantError: [NonFinite, NonPositiveArmLength, NonPositiveTorqueRatio, InvalidThrustLimits, RotorLayoutNotIndependent, NonPositiveTimeConstant, NonPositiveTimestep] [] [Linalg(Linalg)];
    Mapping = MappingError: [NonFinite, NonPositiveResolution, EmptyGrid, GridTooLarge, TooFewBeams, InvalidFieldOfView, NonPositiveRange, InvalidRangeLimits] [] [];
    Polynomial = PolynomialError: [NonFinite, LeadingCoefficientZero, DegreeOverflow, CapacityExceeded, Empty, VariableOutOfRange, DuplicateNode, TooFewSamples, SpanNotPositive, ToleranceNotPositive, RangeReversed] [DidNotConverge.steps] [Linalg(Linalg)];
    Motion = MotionError: [NonFinite, CapacityExceeded, OutOfSync, PathTooShort, SegmentCountMismatch, DurationNotPositive, WorkspaceTooSmall, LimitNotPositive, JerkLimitRequired] [] [Linalg(Linalg), Polynomial(Polynomial)];
    Calc = CalcError: [] [] [Linalg(Linalg), Solve(Solve), Integrate(Integrate), Differentiate(Diff), Kinematics(Kinematics), Spatial(Spatial), Estimation(Estimation), Signal(Signal), Control(Control), Dynamics(Dynamics), Plant(Plant), Mapping(Mapping), Motion(Motion), Polynomial(Polynomial)];
}
/// An error and everything it was made from, innermost first.
#[derive(Clone)]
struct Chain(Vec<E>);

fn look(c: &Chain) -> Res {
    let top = c.0.last().unwrap();
    let text = top.dynamic().to_string();
    ensure!(!text.trim().is_empty(), "{top:?} says nothing");
    ensure!(!format!("{top:?}").is_empty(), "no debug text");
    // the source chain is exactly the conversions, outermost first
    let mut at: &(dyn Error + 'static) = top.dynamic();
    for want in c.0.iter().rev().skip(1) {
        let Some(s) = at.source() else { return Err(format!("{top:?}: the cause {want:?} is lost")) };
        ensure!(want.is(s), "{top:?}: the cause is {s:?}, not {want:?}");
        at = s;
    }
    ensure!(at.source().is_none(), "{:?} has a cause of its own: {:?}", c.0[0], at.source());
    // whoever prints only the outer error still reads what happened
    let root = c.0[0].dynamic().to_string();
    ensure!(text.contains(&root), "{top:?} reads {text:?}, which does not say {root:?}");
    Ok(h64(&text))
}
fn main() {
    let ck = Ck::new("C37");
    let base = plain();
    let show = |i: u64| format!("{:?}", base[i as usize].0);
    // every error alone: its text tells it from every other of its kind, and carries its number
    ck.space("plain", base.len() as u64, show, |i| {
        let (e, name, n) = &base[i as usize];
        op(base.len() as u64);
        let text = e.dynamic().to_string();
        if let Some(n) = n { ensure!(text.contains(&n.to_string()), "{name} reads {text:?} without {n}"); }
        for (j, (o, _, _)) in base.iter().enumerate() {
            let same = j == i as usize;
            ensure!((o == e) == same, "{o:?} == {e:?} is {}", o == e);
            if !same && o.kind() == e.kind() { ensure!(o.dynamic().to_string() != text, "{o:?} and {e:?} both read {text:?}"); }
            let _ = o.any().type_id();
        }
        look(&Chain(vec![*e]))
    });
    // every sequence of conversions of every error
    for (k, (e, name, n)) in base.iter().enumerate() {
        let name = format!("{} {name}{}", e.kind(), n.map_or(String::new(), |n| format!(" {n}")));
        let _ = k;
        ck.bfs::<Chain>(&format!("convert {name}"), 5, &|| { let c = Chain(vec![*e]); look(&c)?; Ok(c) }, 8,
            &|a| format!("conversion {a}"),
            &|c, a| {
                let out = wraps(c.0.last().unwrap());
                let Some((got, want)) = out.get(a as usize) else { return Ok(u64::MAX) };
                ensure!(got == want, "{:?} became {got:?}, not {want:?}", c.0.last());
                c.0.push(*got);
                look(c)
            },
            &|_| None);
    }
    // the loader's errors: every text they carry is in what they say
    let words = ["", "arm", "a b", "\u{e9}\u{4e16}", "{}", "{0}", "%s", "\"q\"", "line\nbreak", "0", "-1"];
    type Make = fn(String, String, String) -> ModelError;
    let makes: Vec<(&str, usize, Make)> = vec![
        ("Xml", 1, |a, _, _| ModelError::Xml(a)),
        ("FileRead", 1, |a, _, _| ModelError::FileRead(a)),
        ("MissingWorldbody", 0, |_, _, _| ModelError::MissingWorldbody),
        ("NoBodies", 0, |_, _, _| ModelError::NoBodies),
        ("FreeJointNotAtRoot", 1, |body, _, _| ModelError::FreeJointNotAtRoot { body }),
        ("UnsupportedJoint", 2, |body, joint_type, _| ModelError::UnsupportedJoint { body, joint_type }),
        ("UnsupportedElement", 2, |body, element, _| ModelError::UnsupportedElement { body, element }),
        ("UnsupportedCompilerSetting", 1, |setting, _, _| ModelError::UnsupportedCompilerSetting { setting }),
        ("UnsupportedOrientation", 2, |element, attribute, _| ModelError::UnsupportedOrientation { element, attribute }),
        ("LimitsNeedRange", 1, |body, _, _| ModelError::LimitsNeedRange { body }),
        ("NoInertiaSource", 1, |body, _, _| ModelError::NoInertiaSource { body }),
        ("UnsupportedGeomType", 2, |body, geom_type, _| ModelError::UnsupportedGeomType { body, geom_type }),
        ("MeshInertiaUnsupported", 1, |body, _, _| ModelError::MeshInertiaUnsupported { body }),
        ("UnsupportedFromTo", 2, |body, geom_type, _| ModelError::UnsupportedFromTo { body, geom_type }),
        ("ConflictingPlacement", 1, |body, _, _| ModelError::ConflictingPlacement { body }),
        ("BadAttribute", 3, |element, attribute, value| ModelError::BadAttribute { element, attribute, value }),
        ("UndefinedClass", 1, |name, _, _| ModelError::UndefinedClass { name }),
        ("UnknownBody", 1, |name, _, _| ModelError::UnknownBody { name }),
        ("IncludeNeedsFile", 0, |_, _, _| ModelError::IncludeNeedsFile),
        ("MissingRootLink", 0, |_, _, _| ModelError::MissingRootLink),
        ("UnknownLink", 2, |joint, link, _| ModelError::UnknownLink { joint, link }),
        ("CyclicLinkage", 1, |link, _, _| ModelError::CyclicLinkage { link }),
        ("JointNeedsLimit", 1, |joint, _, _| ModelError::JointNeedsLimit { joint }),
        ("MimicJointInTree", 2, |joint, follows, _| ModelError::MimicJointInTree { joint, follows }),
        ("UnexpectedRootElement", 1, |found, _, _| ModelError::UnexpectedRootElement { found }),
        ("MultipleRootLinks", 2, |a, b, _| ModelError::MultipleRootLinks { names: vec![a, b] }),
        ("LinkHasTwoParents", 3, |link, a, b| ModelError::LinkHasTwoParents { link, joints: vec![a, b] }),
        ("FormatNotEnabled mjcf", 0, |_, _, _| ModelError::FormatNotEnabled { format: ModelFormat::Mjcf }),
        ("FormatNotEnabled urdf", 0, |_, _, _| ModelError::FormatNotEnabled { format: ModelFormat::Urdf }),
    ];
    let w = words.len() as u64;
    let dec = |i: u64| { let mut d = Dig(i); let m = d.n(makes.len()); let (a, b, c) = (d.pick(&words), d.pick(&words), d.pick(&words)); (m, a, b, c) };
    ck.space("loader", makes.len() as u64 * w * w * w, |i| { let (m, a, b, c) = dec(i); format!("{} {a:?} {b:?} {c:?}", makes[m].0) }, |i| {
        let (m, a, b, c) = dec(i);
        let (name, n, f) = &makes[m];
        let e = f(a.into(), b.into(), c.into());
        let text = e.to_string();
        ensure!(text.trim().len() > 5, "{name} reads {text:?}");
        for part in &[a, b, c][..*n] { ensure!(text.contains(part), "{name} reads {text:?} without {part:?}"); }
        ensure!(e.source().is_none(), "{name} has a cause");
        ensure!(e.clone() == e, "a copy differs");
        for (o, no, g) in &makes {
            if o == name { continue }
            let x = g("\u{1}".into(), "\u{2}".into(), "\u{3}".into());
            let y = f("\u{1}".into(), "\u{2}".into(), "\u{3}".into());
            let _ = no;
            ensure!(x != y && x.to_string() != y.to_string(), "{name} and {o} read alike");
        }
        Ok(h64(&text))
    });
    let pair = |i: u64| (NUMS[(i % 6) as usize], NUMS[(i / 6) as usize]);
    ck.space("loader_numbers", 36, |i| format!("{:?}", pair(i)), |i| {
        let (a, b) = pair(i);
        for (e, all) in [(ModelError::TreeCapacityExceeded { needed: a, capacity: b }, vec![a, b]), (ModelError::IncludeTooDeep { depth: a }, vec![a]), (ModelError::MultipleJoints { body: "arm".into(), count: b }, vec![b])] {
            let text = e.to_string();
            for n in all { ensure!(text.contains(&n.to_string()), "{e:?} reads {text:?}"); }
            ensure!(e.source().is_none(), "{e:?} has a cause");
        }
        Ok(i)
    });
    let causes: Vec<E> = base.iter().map(|b| b.0).filter(|e| matches!(e, E::Spatial(_) | E::Kinematics(_) | E::Linalg(_))).collect();
    ck.space("loader_causes", causes.len() as u64, |i| format!("{:?}", causes[i as usize]), |i| {
        let c = causes[i as usize];
        let (e, chain): (ModelError, Vec<E>) = match c {
            E::Spatial(x) => { let e: ModelError = x.into(); ensure_eq!(e, ModelError::Inertia(x), "inertia"); (e, vec![c]) }
            E::Kinematics(x) => { let e: ModelError = x.into(); ensure_eq!(e, ModelError::Kinematics(x), "kinematics"); (e, vec![c]) }
            E::Linalg(x) => { let k = KinematicsError::from(x); (k.into(), vec![E::Kinematics(k), c]) }
            _ => return Ok(0),
        };
        let mut at: &(dyn Error + 'static) = &e;
        for want in chain {
            let Some(s) = at.source() else { return Err(format!("{e:?}: {want:?} is lost")) };
            ensure!(want.is(s), "{e:?}: the cause is {s:?}");
            at = s;
        }
        ensure!(at.source().is_none(), "a further cause");
        ensure!(e.to_string().contains(&c.dynamic().to_string()), "{e:?} reads {e}");
        Ok(h64(&e.to_string()))
    });
    ck.finish()
}
