# Hand-written parts of DESIGN.md: property -> (oracle, what tests cannot reach / bounds, judgements)
HEAD = r"""# Design

## What is decided, and how

The codebase is a `no_std` library of *sequential* numerical algorithms plus a loader/code generator.
There are no threads, no locks, no durable files: a "behaviour" is (a) the answer of a call for a
point of its input space, or (b) the answer of an object after a history of calls. The machinery is
therefore stateless model checking of the real code:

* **`space`** - a finite product of alphabets (every value chosen for a reason: zeros of both signs,
  both sides of every branch threshold in the code's domain, ties, half turns, denormals, the largest
  numbers, NaN, infinities ...). *Every* point is executed on the real API and *every* observation is
  compared with a reference model. Nothing is sampled; an index is decoded into the point, and the
  number of points is reported in the evidence.
* **`bfs`** - breadth-first search over *every* sequence of operations up to a depth, on pairs
  (real object, reference model). Nodes are deduplicated by a key that covers the full state of both
  (all observable fields plus the model's), so the reported number is of distinct reachable states.
  Operations include the refused ones (bad arguments), resets, swaps of settings and reads.
* **adversaries** - for solvers that call back into user code (root finders, least squares, ray
  maps, scripted random sources), the callback is the environment: all answer sequences over an
  alphabet, to a depth, are enumerated, and the *requests* the solver makes are checked against the
  documented algorithm, not only its answer.

* **`units` spaces** - the library is generic over units: an absolute threshold hidden in an algorithm
  (a bare `EPSILON`, a `1e-12`) is wrong for somebody's millimetres or nanoseconds. These spaces run a
  base set of problems with every quantity multiplied by every power of two (or ten) of an alphabet,
  each physical dimension with a factor of its own, and demand the scaled answer (bit for bit where the
  arithmetic allows, within a few roundings elsewhere). Most genuine defects repaired below came from
  them.

The model is bound to the code in the strongest way available: the checker never explores the model
alone. Each model transition is executed on the implementation at the same moment and the two are
compared (`traces_validated_against_impl` = all of them). Where an answer is decided by rounding, the
model returns a set of admissible answers or the history ends there (each such rule is listed below);
it never follows the implementation's choice silently.

Everything is built generically: nearly every check runs on `f64` and `f32`, many on dual numbers as
well, always with overflow checks and debug assertions on. Every case runs under `catch_unwind` and a
45 s watchdog, so a panic or an endless loop is a violation with a replay file, in any check.

Determinism: no clock, no random numbers; `VERIF_SEED` is recorded and not needed. `--tier thorough`
(or `VERIF_TIER=thorough`) enlarges alphabets and depths; quick is what a change is gated on.

Replay: `VIOLATION property=C10 replay=/verif/replays/...txt`; the file holds the space, the path
(index or operation list), the decoded case and the message; `bash run.sh C10 --replay FILE` re-runs
exactly that case; `bash run.sh C10 --only SUBSTRING` runs some of the spaces.

### Independence of the references

`mc/src/refmodel.rs` (exact rationals on 128-bit integers, Sturm chains, dense exact solver),
`kin.rs` (kinematic tree in f64 by homogeneous matrices), `xmlref.rs` (own reading of MJCF/URDF from
a document tree, from MuJoCo's and ROS's published rules), `la.rs`, `num.rs`. References use other
algorithms than the library (power series of the adjoint instead of closed-form Jacobians, Sturm
chains instead of Cardano, brute-force closest points instead of segment distance, normal equations
in rationals instead of QR, ...), so that a common mistake is unlikely. No check looks at source text,
private state or the order of internal operations, so refactorings are invisible to it; tolerances
are derived from machine precision times a condition number, with margin, and the checks were re-run
with tolerances divided by three to ten to see how near to an alarm they are.

### What this family cannot do here

Inputs are real numbers: the enumeration is exhaustive over the stated alphabets, not over all
2^64 values. The alphabets are placed on and around every threshold that the documented behaviour
has. No property had to be listed as not applicable: all of them can be decided on a finite set of
inputs or histories that is stated and completely explored. Loom/shuttle-type schedulers have nothing
to schedule (no concurrency in the library); TLA+/Spin models were considered for PID, particle
filter and path objects and dropped, because the product exploration above already checks the model
against the code at every state, which a separate model would need a conformance layer for.

### Layout

`properties.jsonl` and `MANIFEST.json` are written by `tools/props.py`/`tools/manifest.py` from
`tools/props_table.py`; this file by `tools/design.py` from `tools/design_notes.py` and the evidence
of the last run. `mc/src/bin/cNN.rs` is the check of property CNN; `run.sh` builds it against
`/repo`'s working tree (path dependency, own target directory) and runs it; `setup.sh` warms the
build. `known_findings.txt` lists known (unrepaired) findings and the repaired ones. No hooks in
/repo were needed: everything is reached through the public API.
"""
N = {}
def n(i, oracle, reach, judged=""): N[i] = (oracle, reach, judged)
n("C01", "Totality: each call group is run inside `catch_unwind`, under a watchdog and an allocation counter (a global allocator that counts per thread); every `Err` must print, convert into `CalcError` and keep a source.", "All pairs of (slot, special value) over about ninety call groups covering every public module; in f64, f32 and Dual; every word where there are few slots.", "Indexing operators and `const` sizes documented to panic are outside. Solvers with callbacks get callbacks returning the special values too.")
n("C02", "Values: the plain float operation. Derivatives: closed-form derivative of every operation, composed by the chain rule in f64 (Faa di Bruno through exact Taylor polynomials for Jet).", "All unary and binary operations and every pair of composed ones at an alphabet including both zeros, domain ends, far arguments; nestings Dual<Dual>, Dual<Jet>, HyperDual<Dual>, Jet<Dual>.", "At non-smooth points only value semantics are demanded (first version demanded a slope of |-0.0|; dropped as too strong).")
n("C03", "Closed-form derivatives of a family of monomials, trigonometric products and exponentials; stencil answers against the exact truncation error bound of each stencil.", "Every tuple of variable indices up to order 4 including bad ones, every stencil and step, all backends, Taylor models and their metrics.")
n("C04", "Closed-form curls and divergences; path integrals by a fine composite Gauss rule in f64; for conservative fields the difference of the potential.", "All fields of a component family times all curves times all limits and counts.", "The truncation bound of n-step rules was first too tight for curves with high curvature; it is now the documented second-order bound. The flux in 3D along a curve is only checked for the documented formula.")
n("C05", "Moments in exact arithmetic: rule of order n must integrate all monomials to its degree to rounding; tables against Newton-refined nodes and weights; composite error bounds.", "Every order of every table, all residues of step counts around block boundaries, finite and infinite limits, all index pairs in two and three variables.")
n("C06", "Integer arithmetic: entries are small integers, so every sum and product is exact in both precisions and compared with ==.", "All matrices over the alphabets for all small shapes; views, rows, columns, selections.")
n("C07", "Exact rationals: determinant, inverse and solution of the very matrix; tolerance eps x condition number (computed exactly). Refusal exactly when singular.", "All 1x1..3x3 matrices over the alphabets, permutations with one more entry at 4x4 and 5x5, Cholesky of all symmetric ones.")
n("C08", "Defining equations: reconstruction, orthonormality, ordering, signs; pseudo-inverses against the exact rational one through a rank factorization; definiteness verdicts against exact leading minors; derivatives by perturbation theory.", "All aspect ratios and ranks, badly scaled, repeated values.")
n("C09", "expm against an independent scaled series, finite sums for nilpotent and rotations for skew matrices; ZOH and Van Loan against 20-point Gauss integrals; Lyapunov through the n^2-by-n^2 linear system; Riccati against plain value iteration, residual and closed-loop spectral radius.", "All small systems over alphabets, stable, marginal, growing, (un)controllable.", "Marginal systems (closed-loop eigenvalue on the circle) may be answered or refused; the expm reference was first too inaccurate for norms over 30 and was replaced.")
n("C10", "Integer/rational coefficient arithmetic; Euclid identity for division; interpolation, spline and endpoint conditions; derivatives to third order of piecewise curves.", "All coefficient lists of small alphabets; all sizes; spans.")
n("C11", "Sturm chains in exact rationals: the number and isolation of real roots of the exact input polynomial.", "Every integer coefficient list to degree 4; every root multiset; all ranges.", "In f32 and for nearly repeated roots, a root may be reported once or as many times as rounding decides within eps^(1/m); quartics with repeated roots are demanded for small integers. Known finding: two quartics with triple roots at sevenths.")
n("C12", "Adversary: all answer sequences (values, slopes) to a depth; every requested point must be the documented one (midpoint, Brent candidate in bracket, Newton step); budgets counted. Families with known roots for accuracy.", "76 million states; unreachable for sampled functions.", "f32 tolerances and absolute xtol near zero are rounded to what the scalar holds (first version alarmed on them).")
n("C13", "Linear: exact normal equations. Nonlinear: 12 problems with known minima from whole grids. LM and Gauss-Newton: adversary of residuals and slopes, trust-region rule and halvings followed step by step.", "All integer systems up to 4x3; all starts; all answer words.", "Null-space drift of under-determined problems and slow unscaled LM are allowed; stationarity is judged by the scaled gradient.")
n("C14", "RK4: exact rational Taylor coefficients. RK45: every accepted step replayed by an independent Dormand-Prince tableau; error below tolerance against closed-form solutions; dense output at grid times.", "Twelve systems x starts x spans x 80 configurations; all grids of three times.", "Stiff systems, backward grids and steps below one ulp (compensated time) are judged only by termination and refusal.")
n("C15", "Reference recurrences (window lists, exact least-squares weights in rationals, hysteresis automaton).", "BFS over all sample words including ties and infinities with resets; all window lengths.")
n("C16", "Published design formulas in f64; difference equation replayed in f64; magnitude/phase from the transfer function; stability by the largest pole radius.", "All design grids; BFS over samples, coefficient swaps, settle, reset; cascades; channels; steady tones.", "The oscillation phase accumulates rounding: tolerance grows with time. Centre frequencies below a thousandth of the rate are not judged in f32 (open suspicion).")
n("C17", "Dyadic alphabets: the reference PID is exact in both precisions, so saturation decisions are bit-exact.", "BFS over update/set_gains/resume/reset words with values inside, on and beyond the limits.")
n("C18", "Double-precision references: Hamilton products, Rodrigues, power series of the adjoint for all Jacobians; group laws.", "Axes x angles on both sides of every series switch and half turn; all pairs; chains; every single-entry corruption of a matrix.", "SO2 large-angle reference needed its own range reduction (false alarm corrected).")
n("C19", "6x6 matrix algebra for motion and force vectors; Newton-Euler equations; physical consistency boundary in exact form.", "All pairs and triples; inertias on and across every boundary.", "A 6x6 inverse as reference was ill-conditioned; replaced by the force/torque balance residual.")
n("C20", "Reference tree (homogeneous matrices, f64); Jacobian = central difference of reference poses.", "All parent arrangements and kinds of four joints; BFS over additions of good and bad joints; foreign states.", "f32 readings whose square overflows need not give finite poses.")
n("C21", "The report's claims recomputed by reference FK; reachable targets (from a joint grid) must be reached; best-so-far monotone; scripted seeds.", "Nine arms x all targets; all seed lists up to five.", "Secondary objectives get 1500 iterations. Known finding: a stalled solve of the limited planar arm returns its last instead of its best configuration.")
n("C22", "Distance of two segments as the least of four end-to-segment distances and the common perpendicular; queries against a straight double loop over all pairs with exclusions.", "All pairs over lengths, turns, offsets, scales; all addition/exclusion sequences to a depth.", "A sign slip in the reference segment formula was corrected.")
n("C23", "Planar constant-twist motion in closed form (series below 0.3 rad), in f64 on inputs rounded to the scalar.", "All geometries and turns including vanishing and whole turns; all tick words; runs of 20 000 ticks.", "Derivative noise near a turn of sqrt(eps) tolerated; SO2 length drift over long runs is documented.")
n("C24", "Joseph/naive recursions in f64 on the same inputs; EKF Jacobians by closed form; UKF sigma points from the definition; batch least squares as a global oracle.", "All words of predict/update/gate/refuse/set to a depth for 1x1, 2x1, 3x2 systems; thousand-tick runs.", "UKF tolerances scale with 1/alpha^2; `set_state` leaves the points, as documented; tunings whose square leaves the range are skipped.")
n("C25", "Own 15-state recursion on rotation matrices with Jacobians from series.", "All words of 14 operations to a depth; transitions column by column; 20 000 ticks; subdivision of a step.", "Jitter enters as (density*dt)^2 by the documented convention; lifting to duals renormalises.")
n("C26", "Own Mahony/Madgwick recursions; settling to the true attitude from a grid of starts.", "324-letter alphabet to two steps, 16-letter to more; long runs.", "Direction of Madgwick's correction is undefined for tiny gradients; starts exactly at the unstable heading of a lean-free world are excluded; f32 tolerance grows as 1/size.")
n("C27", "PCG reference words; resampling schemes re-derived with scripted draws so that which source is picked is known exactly; particle filter and localizer as operation histories.", "All weight compositions x offset alphabets x 4 schemes; all histories of length 3 (4).", "A history whose next step is decided by rounding is followed to that step only. `NaN.min(1e9)` slip in the harness corrected; mismatched lengths of resample_indices are a precondition.")
n("C28", "Plane geometry: exact cell of a point, slab intersection of a beam with blocked cells.", "All blocked patterns of small maps x starts including edges, corners, outside x bearings x ranges; BFS over drawing.", "A beam grazing an edge or corner within rounding may read either neighbour; long f32 maps have a one-cell allowance.")
n("C29", "Brute-force projection on segments; look-ahead point by arc length; pursuit circle through the target.", "All push/mode histories; all paths over point lattices in 1-3 dimensions; closed loops.")
n("C30", "Limits, continuity, arrival checked on exact phase integrals; time-optimality against every bang-bang rival on a jerk grid.", "Log grids straddling every change of shape, and half-step lattices exactly on the changes.", "Time quantisation at phase boundaries has an allowance; shape detection near a change admits both shapes.")
n("C31", "Stationarity: plan satisfies the waypoint, continuity and boundary conditions, and no admissible variation (a basis of them) lowers the snap integral.", "All waypoint words over a lattice for 1-5 pieces; duration words over orders of magnitude.", "Coefficients live on each piece's own 0-1 clock; end-point tolerance x500; f32 pace range 1e-3..1e4 s.")
n("C32", "Own gap segmentation and scoring; attitude torque from the published law in matrices; closed loops.", "All range patterns up to nine beams; degenerate pushes.", "Ties within rounding, beams on the cone's edge and gaps as wide as the chassis may go either way; inertias singular within rounding either way.")
n("C33", "Wrench = sum of thrusts and drag moments, both ways; dependence by the determinant of the scaled Gram matrix; rotor lag as the exact exponential.", "All placements of four rotors on sites with every spin, rings of 1-8, frames from coin to bus; saturation words; 20 000 ticks.", "Layouts within a factor 300 of dependent may be answered either way.")
n("C34", "`xmlref.rs`: an independent reading of the document tree by MuJoCo's published rules; refusal reasons named.", "All nestings of defaults, compiler sections, trees to 5 bodies, shapes, includes; every one-byte edit of documents.", "Zero-volume shapes with a stated mass use the limit shape; compiler settings at their no-op default are accepted; if several errors are present any one may be named.")
n("C35", "`xmlref.rs`, URDF part: kinematic graph, fixed-axis angles, tensors turned in f64.", "Every link/joint graph up to 4+4; all trees to 5 links; every change in every place; every one-byte edit.", "The extension decides the format in `load_path`; non-finite numbers are refused by the tree build, non-finite axes at load.")
n("C36", "Compile and run: about 4800 generated sources are compiled as modules of one crate against /repo's tree, run, and the trees they build compared joint by joint with the model.", "All trees to 3 bodies with all kinds; every number alphabet in every slot; every odd text.", "Turns beyond 1e6 rad are not compared; non-finite poses are refused when written.")
n("C37", "The full conversion graph: every error variant with every count through every chain of `From` conversions; source chain, text and equality checked.", "Complete over the enums: a new variant or arm is reached by construction of the tables.")
n("C38", "Sixth-order central differences at two steps (and one-sided ones to recognise corners) of the plain function, and agreement among Dual, HyperDual, Dual<Dual> and Jet.", "Every pair of inputs over five values each, every block of inputs zeroed or repeated, about forty algorithms.", "Corners excluded by rule, listed in `corner()` of c38.rs: saturation, repeated roots/eigenvalues/singular values, zero-length segments, terms documented as dropped, undamped rank-deficient inverses, Riccati with a zero cost (iteration stops on values), ESKF steps of many seconds (rounding only). Third derivatives of the damped inverse are not judged (repeated singular values).")
n("C39", "No model at all: every history is run twice, once whole and once without the calls that were refused, and the two objects are compared through everything that can be asked of them after every call.", "All histories over alphabets of 5 to 16 calls to depth 4-7, about 5 million executions in quick.", "The particle filter's predict is left out (documented to move the cloud first).")
CAUGHT = {}  # planted bug -> what catches it, where that is not just its own property
