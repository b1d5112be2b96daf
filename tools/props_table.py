prop("C15","Streaming filters and conditioners equal their reference recurrences",
 "After every sequence of samples and resets, each streaming block (one-pole low-pass, moving average, running median, Savitzky-Golay smoother, deadband, hysteresis, slew-rate limiter) reports exactly the value its documented definition gives on that sequence: the first sample after construction or reset seeds it, windows hold exactly the last W samples, the median is the middle sample of the window, the Savitzky-Golay value/slope/bend are those of the least-squares curve over the window and its delay is as documented. The answer of the hysteresis switch changes only past its outer thresholds and the slew limiter never moves further than its rise or fall rate allows in one step and always ends on a target within reach. Constructors accept exactly the documented parameter domain and report the documented error otherwise, and a query without a new sample changes nothing.",
 ["histories","inputs","configurations"],"every sequence of samples (including ties, spikes, sign changes, infinities) and resets, every window length, f32 and f64",
 "The suite feeds a handful of fixed sequences per block; the seeding, wrap-around of the window index and reset behaviour depend on the whole history.",
 ["signal_processing/window.rs","signal_processing/one_pole.rs","signal_processing/savitzky_golay.rs","signal_processing/conditioning.rs"],
 [("window push / seeding","signal_processing/window.rs"),("median selection","signal_processing/window.rs"),("weights from the pseudo-inverse","signal_processing/savitzky_golay.rs"),("rate clamp","signal_processing/conditioning.rs")])
prop("C16","Biquad designs, responses and cascades match the difference equation",
 "Every accepted low-pass, high-pass, band-pass and notch design has exactly the documented weights, is stable and has its defining gains (unit or zero gain at the ends of the band or at the centre); the reported magnitude, decibels, phase and delay are those of the filter's transfer function, and a running filter, cascade or per-channel filter produces, for every sequence of samples, retunings, settles and resets, exactly what the second-order difference equation gives. Settling to a value leaves the filter where an endless run of that value would, retuning keeps its memory, channels and sections never leak into one another, and harmonic notches sit on the exact multiples asked for. Parameters outside the documented domain are refused with the documented error.",
 ["histories","inputs","configurations"],"every design parameter combination and every sequence of samples, coefficient swaps, settles and resets",
 "Fixtures check a few designs against SciPy and a few fixed input streams; memory handling across retune/settle/reset interleavings is not enumerated.",
 ["signal_processing/biquad.rs","signal_processing/cascade.rs"],
 [("transposed direct form II update","signal_processing/biquad.rs"),("settle_to","signal_processing/biquad.rs"),("harmonic_notch_coefficients","signal_processing/cascade.rs")])
prop("C17","PID output, saturation, anti-windup and bumpless transfer",
 "For every sequence of updates, gain changes, handovers and resets, the controller's output equals the documented law: proportional on error, derivative on measurement through the low-pass, integral accumulated with its gain already applied, output clamped to the limits, and the integral held exactly while the output is saturated and the error pushes deeper. Changing gains does not step the next output at the operating point, and resuming from a command makes the next update with that pair return exactly that command. A call that is refused leaves the controller unchanged, and reset restores the freshly built behaviour.",
 ["histories","inputs","configurations"],"every sequence of update / set_gains / resume_from / reset with values from inside, at and beyond the saturation limits",
 "Tests walk single scenarios; wind-up and transfer bugs need a particular interleaving of saturation, gain change and handover.",
 ["control/pid.rs"],[("conditional integration","control/pid.rs"),("set_gains shift","control/pid.rs"),("resume_from seeding","control/pid.rs")])
prop("C28","Occupancy maps and ray casting agree with the geometry of the cells",
 "A point belongs to exactly the cell whose half-open square contains it and points off the map (or not a number) belong to none; marking and clearing affect exactly the cells named and never another. A cast beam reports the distance at which it enters the first blocked cell along its line, zero when it starts in one, the distance from its start even when it starts off the map, and nothing when no blocked cell is met within range; drawn polylines and circles mark a gap-free outline and nothing away from it. Scan beams are spread evenly over the field of view, the nearest-beam lookup inverts the beam directions, and range validity is exactly the closed interval of the limits.",
 ["inputs","histories","configurations"],"every small map (all blocked-cell patterns), every start on a lattice including edges, corners and off the map, every bearing of a direction set including axis-aligned and diagonal ones, every range limit",
 "Tests cast a few beams on a few maps; the traversal's boundary and off-map cases depend on the combination of start, bearing and map.",
 ["mapping/occupancy_grid.rs","mapping/scan_geometry.rs"],[("cell_of","mapping/occupancy_grid.rs"),("cast_ray grid traversal","mapping/occupancy_grid.rs"),("occupy_polyline / occupy_circle sampling","mapping/occupancy_grid.rs"),("nearest_beam_index","mapping/scan_geometry.rs")])
prop("C06","Vector and matrix arithmetic, views and selections follow the algebra",
 "Every vector and matrix operation — construction, indexing, sums, products, scaling, transpose, dot, cross and outer products, norms, normalization, projections, block extraction and placement, row and column selection, symmetrization, finiteness and symmetry tests — gives the entry-by-entry result of its algebraic definition for every shape, including one-sized ones, and agrees with its assign, reference and fallible forms. Nothing outside the entries an operation names is changed, out-of-range or ill-sized requests are refused with the documented error, and a zero or non-finite vector has no direction.",
 ["inputs","configurations"],"every entry pattern over signed, zero, tiny, huge and non-finite values, every small shape including rectangular and 1-sized, f32 and f64",
 "Examples use one or two shapes; swapped indices and wrong strides only show on rectangular, non-symmetric operands.",
 ["linear_algebra/vector.rs","linear_algebra/matrix.rs","linear_algebra/macros.rs"],
 [("indexing and products","linear_algebra/matrix.rs"),("norms and normalization","linear_algebra/vector.rs")])
prop("C07","LU, Cholesky, determinant, inverse and solves solve the system they were given",
 "For every matrix, the pivoted LU and the Cholesky factors multiply back to the matrix, have the documented triangular form and give its determinant; solves against a vector or matrix satisfy the equations as accurately as the conditioning allows, and the inverse is two-sided. A factorization succeeds exactly when the matrix admits it: singular, indefinite, asymmetric or non-finite inputs are refused with an error that names a defect the input really has, and no invertible, well-scaled matrix is refused whatever pivoting it needs.",
 ["inputs"],"every matrix over small exact alphabets, sizes 1 to 4, all row orders, ill-conditioned, singular, indefinite and non-finite ones",
 "Tests factor a handful of friendly matrices; zero pivots in unusual places and near-singular cases need enumeration.",
 ["linear_algebra/lu.rs","linear_algebra/cholesky.rs","linear_algebra/matrix.rs"],
 [("pivot search","linear_algebra/lu.rs"),("positive-definite test","linear_algebra/cholesky.rs")])
prop("C08","QR, SVD, pseudo-inverse and symmetric eigendecomposition factor exactly",
 "For every matrix, tall, wide, rank-deficient or zero, the factors are orthonormal, triangular or sorted as documented and multiply back to the matrix; singular values and eigenvalues are the true ones in the documented order; rank, condition number and the pseudo-inverse follow from them, the pseudo-inverse satisfies the four Penrose conditions, and least-squares solves minimize the residual. Non-finite or asymmetric inputs are refused with the documented error.",
 ["inputs"],"every matrix over small exact alphabets in all aspect ratios, all ranks including zero, repeated and zero eigenvalues, widely spread scales",
 "Rank-deficient, repeated-value and rectangular combinations are where iterative factorizations fail, and a few sampled matrices do not reach them.",
 ["linear_algebra/qr.rs","linear_algebra/svd.rs","linear_algebra/symmetric_eigendecomposition.rs"],
 [("Householder reflections","linear_algebra/qr.rs"),("left factor completion","linear_algebra/svd.rs"),("Jacobi sweeps","linear_algebra/symmetric_eigendecomposition.rs")])
prop("C09","Matrix exponential, discretization, Riccati, Lyapunov and LQR are exact",
 "The matrix exponential equals the convergent series, and carries derivatives; zero-order-hold and Van Loan discretization give the exact state transition, input and accumulated noise of the continuous system over the step; the white-noise covariance follows its formula. A returned Riccati or Lyapunov answer is symmetric and satisfies its equation, is found for every stabilizable observable (respectively shrinking) system, and a system that does not settle is reported as not settling instead of being given a number. The LQR gain, closed loop, control and tracking control follow from the cost-to-go, and its stability certificate is given exactly when the loop settles and the cost sees it. Unusable arguments are refused with the documented error.",
 ["inputs","configurations"],"every small system, input and cost matrix over exact alphabets, shrinking, marginal and growing, controllable and not, every step length",
 "Fixtures compare a few systems with SciPy; unreachable, marginal and indefinite combinations decide whether the solver may answer at all.",
 ["linear_algebra/expm.rs","linear_algebra/riccati.rs","linear_algebra/lyapunov.rs","discretization/","control/lqr.rs"],
 [("scaling and squaring","linear_algebra/expm.rs"),("doubling passes and residual check","linear_algebra/riccati.rs"),("settled test","linear_algebra/lyapunov.rs"),("Van Loan blocks","discretization/")])
prop("C02","Autodiff scalars carry exact values and derivatives through every operation",
 "For every operation of the scalar trait, each differentiating scalar (first-order dual, second-order hyper-dual, and higher-order jet) has the same value part as the plain number gives, and its derivative parts equal the true derivatives of the composed expression at that point, to rounding: arithmetic, powers, roots, exponentials, logarithms, trigonometric and hyperbolic functions and their inverses, comparisons, signs, rounding, clamping. Mixed operations with plain numbers agree with the fully lifted ones, and where a derivative does not exist the documented convention is followed; a finite input with a finite derivative never yields NaN.",
 ["inputs"],"every operation and every pair of composed operations over a point alphabet that includes zeros of both signs, boundaries of the domains, far arguments and special values, f32 and f64",
 "Tests differentiate a few smooth expressions at one point; sign, zero and far-argument cases of each operation's chain rule are not sampled.",
 ["scalar/"],[("dual operations","scalar/"),("hyper-dual second-order terms","scalar/"),("jet recurrences","scalar/"),("default provided methods of Numeric","scalar/numeric.rs")])
prop("C03","Derivatives, Jacobians, Hessians and Taylor models are the true ones",
 "For every function, point, order and set of variable indices, the automatic differentiator returns the exact derivative (orders one to six of one variable, up to mixed third partials of several) and the finite-difference one returns its documented stencil, whose error shrinks with the step; Jacobians (on the stack and on the heap) put the derivative of function i by variable j in row i and column j, Hessians are symmetric and right. Linear and quadratic models reproduce the Taylor expansion about their base point, and their fit metrics equal their definitions with either summation. Unsupported orders, bad step sizes, indices out of range and empty function sets are refused with the documented error, never a wrong number.",
 ["inputs","configurations"],"every function of a closed-form family, every order, every tuple of variable indices including out-of-range ones, every stencil and step, 1 to 3 variables, 0 to 3 functions, f32 and f64",
 "Tests differentiate a few functions once; swapped seeds or indices only show on particular mixed index tuples of asymmetric functions.",
 ["numerical_derivative/","approximation/"],
 [("seeding of duals by index","numerical_derivative/autodiff.rs"),("recursive stencil","numerical_derivative/finite_difference.rs"),("row/column placement","numerical_derivative/jacobian.rs"),("symmetric fill","numerical_derivative/hessian.rs"),("fit metrics","approximation/mod.rs")])
prop("C04","Curl, divergence, line and flux integrals follow vector calculus",
 "Curl and divergence in two and three dimensions equal their definitions at every point with either differentiation backend. The line integral along a parametrized curve converges with second order to the integral of the field along it: it is exact for straight curves in linear fields, and equals the difference of potential for gradients of quadratic potentials whatever the curve and step count. The two-dimensional flux is the integral of the field across the curve (Fx dy - Fy dx), and partial integrals sum to the whole. Zero steps, reversed, equal or NaN limits and nonexistent components are refused.",
 ["inputs","configurations"],"every field of polynomial and trigonometric components, every curve of a family, every limit and step count from an alphabet including bad ones, f32 and f64",
 "Tests use the unit circle with one rotational field, for which swapped components or signs often give the same number.",
 ["vector_field/"],
 [("component differences","vector_field/curl.rs"),("trace","vector_field/divergence.rs"),("secant trapezoid","vector_field/line_integral.rs"),("normal component","vector_field/flux_integral.rs")])
prop("C05","Quadrature rules are exact to their order, on every range and dimension",
 "Every tabulated Gauss-Legendre, Hermite and Laguerre rule of order n integrates polynomials up to degree 2n-1 exactly against its weight; the composite trapezoidal, Simpson 3/8 and Boole rules are exact up to degree 1, 3 and 5 for every step count (rounded up to whole panels) and within the textbook error otherwise; infinite and half-infinite ranges converge for decaying integrands. Repeated and multi-variable integrals integrate the named variables over the named limits and leave the others alone, compensated and pairwise sums lose no more than promised, and bad orders, zero counts, empty or ill-defined limits, indices out of range and non-finite samples are refused with the documented error.",
 ["inputs","configurations"],"every rule and order, every step count of an alphabet covering all residues and block boundaries, every pair of limits including infinite and ill-defined ones, every index pair of 2 and 3 variables, f32 and f64",
 "Tests integrate a few polynomials at one or two orders; a wrong table entry, panel weight or level index shows only at particular orders, counts and index combinations.",
 ["numerical_integration/","gaussian_tables/","utils/summation.rs"],
 [("node tables","gaussian_tables/"),("panel weights","numerical_integration/iterative_integration.rs"),("domain transform","numerical_integration/integrator.rs"),("recursion over levels","numerical_integration/gaussian_integration.rs"),("pairwise carry tree","utils/summation.rs")])

prop("C10","Polynomials compute, build, divide and chain as algebra says",
 "For every polynomial, value, derivatives of every order, area, shift, scaling, reversal, sum, product, composition and long division are those of the algebra, with degree and leading coefficient read off correctly; results that do not fit the chosen size are refused rather than cut. Building from roots, series, points, least squares and end conditions meets exactly what was asked for, and duplicate, too few or non-finite data is refused. A piecewise curve gives the value, derivatives and trimmed area of the right piece on the shared parameter and holds at its ends. Polynomials in several variables evaluate, differentiate, integrate, substitute, add and multiply term by term, merging equal powers, and convert to and from the dense form.",
 ["inputs"],"every coefficient list over small alphabets, every argument, every size, every set of points and spans, f32 and f64",
 "Tests evaluate a few fixed polynomials; wrong index or power handling shows only for particular zero patterns, sizes, spans and orders.",
 ["polynomial/"],
 [("Horner sweeps and division","polynomial/polynomial.rs"),("normalised fits","polynomial/construction.rs"),("piece lookup and span conversion","polynomial/piecewise.rs"),("term merging","polynomial/multivariate.rs")])
prop("C11","Polynomial root finders return every real root and nothing else",
 "For every polynomial of degree one to four the closed form returns all its real roots in increasing order, repeats included, each to rounding (or to the accuracy a repeated root allows), with exact derivatives by the coefficients for simple roots. Counting by sign changes gives exactly the number of distinct real roots in a half-open range, and the search returns each of them once to the tolerance or says it did not converge; the Cauchy bound contains every root. A zero leading coefficient, non-finite numbers, bad tolerances and reversed ranges are refused.",
 ["inputs"],"every integer coefficient list over an alphabet at degree up to four against exact rational Sturm chains, every root multiset including repeated ones, every range, f32 and f64",
 "Tests use a handful of polynomials with nice roots; repeated roots, vanishing reduced terms and range ends decide correctness.",
 ["polynomial/roots.rs"],
 [("discriminant branches","polynomial/roots.rs"),("Sturm chain","polynomial/roots.rs"),("interval bookkeeping","polynomial/roots.rs")])
prop("C12","Root finders stay in the bracket, keep their budget and return only roots",
 "Whatever values a function takes, bisection and Brent evaluate only inside the current bracket, keep a sign change in it, report a point they evaluated with its residual, and stop exactly when the residual or the bracket meets the tolerance; bisection asks for midpoints and needs at most one halving per factor of two. Newton, damped or not, evaluates exactly the documented iterates, and a system solver takes the Newton step of the Jacobian. A known simple root is returned to the tolerance, a linear problem in one step; an accepted root is finite. Ends of one sign, non-finite ends, values or iterates, a vanishing derivative and an exhausted budget are reported as such.",
 ["inputs","schedules"],"every sequence of function values and derivatives (from a small alphabet, to a depth) an adversary may answer with, plus families of functions with known roots over grids of brackets, starts and tolerances, f32 and f64",
 "Tests solve a few smooth equations from good starts; bookkeeping of the bracket and damping fails only for particular sequences of signs and magnitudes.",
 ["root_finding/"],
 [("bracket update","root_finding/bisection.rs"),("interpolation safeguards","root_finding/brent.rs"),("damped step","root_finding/newton.rs"),("Newton step of a system","root_finding/newton_system.rs")])
prop("C13","Least squares descends to a minimum and its trust region obeys the rules",
 "For every linear problem of full rank, Gauss-Newton and Levenberg-Marquardt return the exact least-squares solution, and for deficient rank the damped solver reaches the least cost while the undamped one refuses. The reported objective is half the squared residual at the reported point, evaluations are counted exactly, and the damped solver never returns a point worse than its start. Its step, the acceptance by gain ratio, the trust radius and the stopping tests follow the published algorithm for whatever residuals and slopes the problem shows; a stop by gradient means the gradient vanishes. The undamped solver too follows its documented steps, halvings and stopping tests and takes exactly the iterations it is allowed. Too few residuals, non-finite values and exhausted budgets are reported.",
 ["inputs","schedules"],"every small integer matrix and right-hand side, every start of a grid on twelve nonlinear problems, every sequence of residuals and slopes from an alphabet to a depth, options on and off, f32 and f64",
 "Tests fit a few curves that converge anyway; a wrong radius update or acceptance only costs steps there, and fails on particular histories.",
 ["optimization/"],
 [("undamped step","optimization/gauss_newton.rs"),("trust-region driver","optimization/levenberg_marquardt.rs"),("damping search","optimization/trust_region.rs")])
prop("C14","Integrators follow their tableau, span the interval and hold the tolerance",
 "For every system, start, step and span, the fixed-step integrator applies exactly the classical fourth-order step at every node it reports, and the adaptive one only accepts steps of the fifth-order pair whose embedded error is within the tolerance, contiguous, in the direction of the span, within the step limits, ending exactly at the final time. Dense output meets both ends and is the cubic through their slopes; sampling on a grid equals dense output at every requested time or refuses an unordered grid; orientation steps are exact rotations of unit length. Ill-defined spans, non-finite values and exhausted budgets or steps are reported as documented.",
 ["inputs","configurations"],"twelve systems over grids of starts, spans, directions and tolerance configurations, every grid of three times from an alphabet, every special value as an end, f32 and f64",
 "Tests compare a few end states at one tolerance; step bookkeeping at the ends, backward spans, rounding of the clock and grid times decide correctness.",
 ["ode/"],
 [("fixed step","ode/rk4.rs"),("accept and step-size loop","ode/rk45.rs"),("dense output and grid sampling","ode/rk45.rs"),("orientation stepping","ode/exponential_map.rs")])
prop("C18","Rotations and rigid motions compute their group exactly, everywhere",
 "For all quaternions and all elements of SO(2), SO(3), SE(2) and SE(3): product, inverse and action are the Hamilton and matrix ones; exponential, logarithm, adjoint and left and right Jacobians with their inverses are the power series to rounding at every angle, through zero and around a half turn; conversions to and from matrices, axis-angle, Euler angles and two directions describe the same rotation, with angles in the documented range and the shortest path taken; interpolation follows the geodesic and meets both ends, either cover giving the same result. Matrices that are not proper rigid motions, and inputs without a direction, are refused or yield the identity as documented.",
 ["inputs"],"a dense set of axes times angles on both sides of every series switch, pole and half turn, all pairs of rotations and twists of an alphabet, all compositions to a depth, every single-entry corruption of a matrix, f32 and f64",
 "Tests use a few mid-range angles; cancellation, branch choice and sign fixes go wrong only near switches, poles and half turns.",
 ["spatial/quaternion.rs","spatial/lie/","spatial/mod.rs"],
 [("Euler and axis branches","spatial/quaternion.rs"),("Jacobian series switches","spatial/lie/mod.rs"),("two-direction frame","spatial/lie/so3.rs"),("planar motion","spatial/lie/se2.rs"),("rigid motion","spatial/lie/se3.rs")])

prop("C19","Spatial vector algebra, inertia and free-body motion obey rigid-body mechanics",
 "For all twists, wrenches, poses and inertias: transforming a twist by a pose is the adjoint and a wrench its dual, so power is the same in every frame and transforms compose; spatial cross products match the matrix commutator and its dual. A spatial inertia accepts exactly the physically consistent mass, centre and rotational inertia, agrees with its 6x6 matrix, adds like bodies welded together and keeps kinetic energy under a change of frame. Free-joint kinematics are the derivative of the pose, and the rigid-body derivative balances force and torque with its gyroscopic and gravity terms, conserving energy and momentum when nothing acts.",
 ["inputs","histories"],"all pairs and triples of an alphabet of poses, twists and wrenches, a grid of inertias on and across every physical-consistency boundary, all joint states of an alphabet, f32 and f64, special values included",
 "Conventions and cross terms cancel for centred bodies and aligned axes, which is what tests use; consistency between operations is a relation over all inputs.",
 ["spatial/twist.rs","spatial/wrench.rs","spatial/inertia.rs","spatial/free_joint.rs","spatial/lie/se3.rs","dynamics/"],
 [("twists","spatial/twist.rs"),("wrenches","spatial/wrench.rs"),("inertia","spatial/inertia.rs"),("free joint","spatial/free_joint.rs"),("rigid body","dynamics/")])
prop("C20","Kinematic trees place every frame and their Jacobians are the derivative",
 "For every tree that can be built, every configuration and every frame: the forward pose is the product of the joint transforms along the chain, honouring origins, anchors, reference readings, non-unit axes and the floating base, and the geometric Jacobian is its exact derivative in the velocity coordinates, in world and body axes, with zero columns elsewhere. Building refuses exactly the documented bad joints and a refusal leaves the tree unchanged; bad readings, foreign states and out-of-range frames are refused. The damped weighted inverse, the null-space projector, the smallest singular value, the singularity kind and the configuration distance obey their definitions.",
 ["inputs","histories"],"all parent arrangements and joint kinds of four-joint trees with alphabets of axes, anchors, origins and readings; all two-step additions of good and bad joints onto every start; all arms, readings, weights and dampings of an alphabet; f32 and f64",
 "Tests use chains with aligned axes and identity origins; wrong branches, frames and offsets show only for rotated origins, branching or floating trees.",
 ["kinematics/kinematic_tree.rs","kinematics/kinematic_tree_state.rs","kinematics/kinematic_jacobian.rs","kinematics/joint.rs"],
 [("forward kinematics and Jacobian","kinematics/kinematic_tree.rs"),("inverse and singularities","kinematics/kinematic_jacobian.rs"),("joints","kinematics/joint.rs")])
prop("C21","Inverse kinematics reports honestly and reaches reachable targets",
 "For every tree, target, seed, tolerance and budget: the report's errors are those of the configuration it returns, it says converged exactly when both are within tolerance, joints stay inside their limits when asked, slots that command nothing are untouched, and budgets and step caps hold. A target near a regular configuration is reached; each step is the weighted least-norm step with damping only near singularities, and a secondary objective moves only what the task leaves free, so it never keeps the tool off its target. Multi-start keeps exactly the distinct converged branches in seed order, draws seeds within limits or the span, and returns the nearest. Bad weights, targets, seeds, frames and counts are refused.",
 ["inputs","histories"],"nine arms (redundant, limited, planar, floating and turned bases) with all targets from a joint-displacement grid, all target-seed-budget combinations of an alphabet, every seed list up to five, all draw scripts, f32 and f64",
 "Tests solve a few poses on one arm; interplay of limits, damping, objective and floating base appears only in combinations.",
 ["kinematics/inverse_kinematics.rs","kinematics/multi_start_inverse_kinematics.rs"],
 [("solve loop","kinematics/inverse_kinematics.rs"),("multi-start","kinematics/multi_start_inverse_kinematics.rs")])
prop("C22","Clearances are the true distance of the shapes, and queries miss no pair",
 "For every two spheres or capsules in any pose and at any scale, the reported distance is the distance of their segments less both radii, negative by the overlap when they meet, the same in either order and equal to the named closed forms, whether the segments cross, are parallel, degenerate to points or are only slightly turned. For every sequence of added shapes, obstacles and exclusions, a check at any configuration reports the least clearance over exactly the pairs that are not excluded, and a pair that attains it; nothing to check reports no pair. Exhausted capacities and shapes on frames the state does not have are refused without changing the query.",
 ["inputs","histories"],"all pairs of shapes over lengths, turns, offsets and scales; every sequence of additions and exclusions to a depth on every configuration of an alphabet; f32 and f64",
 "Tests place a few aligned shapes of metre size; clamping branches, degenerate and slightly turned segments depend on the combination.",
 ["kinematics/collision.rs"],
 [("segment distance","kinematics/collision.rs"),("query","kinematics/collision.rs")])
prop("C23","Wheel motion, body motion and odometry are exact planar arcs",
 "For every geometry, wheel motion and pose: wheel velocities and rotations map to the body twist and arc of a differential drive and back without loss, travel and held twists are consistent, and the lateral part a drive cannot make is reported as slip. An odometry increment is the exact constant-twist arc: it composes over any subdivision, retraces itself, meets the straight line in the limit and is the path the unicycle's differential equation follows. The odometry model gives the same pose with the heading wrapped, and automatic differentiation through it gives its true state and control Jacobians. After any sequence of ticks the heading is the total turn. Non-finite or non-positive geometry is refused.",
 ["inputs","histories"],"all geometries, wheel pairs, poses, turns and lengths of an alphabet including vanishing and whole turns, every tick sequence to a depth and runs of 20 000 ticks, f32 and f64",
 "Tests drive a few metres on one robot; the vanishing-turn branch, wrap-around and accumulated drift need sweeps and long runs.",
 ["kinematics/differential_drive.rs","kinematics/odometry.rs","kinematics/unicycle.rs"],
 [("wheel maps","kinematics/differential_drive.rs"),("arc integration and process model","kinematics/odometry.rs"),("plant","kinematics/unicycle.rs")])
prop("C29","Path projection, lookahead and pursuit obey the geometry of the path",
 "For every sequence of waypoints pushed or given at once, repeated ones included: lengths and waypoints are exactly those accepted, a full path or a non-finite waypoint is refused and changes nothing. The closest point is nearest over the whole path, with the distance, segment and arc length that belong to it. A lookahead is the point at that arc length, held at the ends of a stopping path and wrapped on a looping one, in both directions. The pursuit curvature drives an arc through the target, scales with the inverse square of the lookahead distance, and following it closes onto the path from every start. Empty paths and bad distances are refused.",
 ["inputs","histories"],"all push and mode histories to a depth, all paths over point lattices in one to three dimensions with every query of a grid, all poses and targets of an alphabet, closed loops from every start offset and heading of a grid, f32 and f64",
 "Tests walk one L-shaped path; repeated waypoints, wrap-around, ties and starts behind the path appear only in combinations.",
 ["motion/polyline_path.rs","control/pure_pursuit.rs"],
 [("projection and lookahead","motion/polyline_path.rs"),("pursuit","control/pure_pursuit.rs")])
prop("C32","Reactive steering, attitude control and thrust commands do what they promise",
 "For every scan, goal and setting: the follower steers only into a stretch of open beams whose edge obstacles are at least the chassis apart, of those the one with the best score, aiming at the goal within the edges' safety margins, at the speed the frontal clearance allows; it stops, and says so, exactly when no stretch fits, and lost readings count as open. The attitude error is the half vee of the rotation error and the torque the stated law for every attitude, rate, target and inertia, and the loop settles from every start that is not upside down. The thrust command's axes are the push, and the heading leaned over, with the push as its strength. Bad settings and directionless commands are refused as documented.",
 ["inputs","histories"],"all range patterns of up to nine beams over an alphabet with invalid readings, for every goal and setting; all attitude, rate and inertia combinations of an alphabet; closed loops from every start of a grid; pushes on and around every degenerate direction; f32 and f64",
 "Tests steer through a handful of scans; edge beams, narrow gaps with overlapping margins, missed readings and rotated targets interact only in combinations.",
 ["control/follow_the_gap.rs","control/geometric_attitude.rs","control/thrust_command.rs"],
 [("gap follower","control/follow_the_gap.rs"),("attitude law","control/geometric_attitude.rs"),("thrust command","control/thrust_command.rs")])
prop("C33","Rotor mixing is the physics both ways and rotor lag is the exact exponential",
 "For every rotor layout: the allocation is the push and turn each rotor makes, its inverse asks for the least total effort that makes a wanted push and turn, going out and back gives what was asked, a share outside a rotor's limits is held there and reported and nothing else is; layouts that cannot make every push and turn are refused and sound ones accepted whatever the size of the frame. For every lag, tick and command history the thrusts close exactly the exponential share of their gap, never pass the command, add up over ticks of any length, and the rate is the derivative. Non-finite or non-positive settings are refused.",
 ["inputs","histories"],"all placements of four rotors on an alphabet of sites with every spin, rings of one to eight rotors with every spin, frames from coin to bus size, wrenches and limits of an alphabet, every lag history to a depth and runs of 20 000 ticks, f32 and f64",
 "Tests mix for one airframe; row signs and spins cancel on symmetric frames, dependence and scale matter only on unusual layouts, and ticks must compose over histories.",
 ["plant/multirotor_mixing.rs","plant/rotor_lag.rs"],
 [("mixer","plant/multirotor_mixing.rs"),("lag","plant/rotor_lag.rs")])
prop("C30","Motion profiles are the fastest move within limits and end at rest on target",
 "For every displacement, limits and shape: the profile starts at rest, ends at rest exactly on its target, never exceeds its speed, acceleration or jerk limit, is continuous in position and speed (and acceleration when jerk is bounded), moves one way only, and takes the least time the limits allow; mirrored displacements mirror it exactly. Stretching, once or repeatedly, keeps the path and only slows it; synchronised axes all finish together at the slowest axis or the time asked, each on its own target. Automatic derivatives with respect to the displacement and the limits are those of the chosen shape. Bad limits, times and a missing jerk limit are refused.",
 ["inputs","histories"],"log grids of displacements and limits straddling every change of shape for every strategy, half-step lattices exactly on the changes, every sequence of jerks on a time grid as a rival, every triple of axes of an alphabet, f32 and f64, special values included",
 "Tests check a few moves at a few instants; the branch between shapes, the instants around phase changes and time optimality are universal claims.",
 ["motion/motion_profile.rs"],
 [("planning and evaluation","motion/motion_profile.rs"),("synchronisation","motion/motion_profile.rs")])
prop("C31","Minimum-snap trajectories are the smoothest exact path through the waypoints",
 "For every set of waypoints, durations, end conditions and boundary derivatives: the trajectory passes each waypoint at its instant, starts and ends with the asked derivatives, is continuous through the sixth derivative at every interior waypoint, and no other trajectory through the same waypoints has less integrated squared snap. Moving, scaling, mirroring or reversing the waypoints does the same to the trajectory, a common stretch of the durations only changes its pace, and each axis is independent of the others. Evaluation outside the duration holds the ends, and derivatives of every order are those of the piece. Too few or too many waypoints, bad durations and non-finite values are refused as documented.",
 ["inputs"],"all waypoint words over a lattice for one to several pieces, all duration words of an alphabet spanning orders of magnitude, all combinations of boundary derivatives, rivals in every direction of the space of admissible variations, f32 and f64, special values in every slot",
 "Tests fly two or three paths and check a few instants; optimality and continuity are claims over all layouts, and lopsided durations are where the linear system loses its digits.",
 ["motion/minimum_snap.rs"],
 [("planner","motion/minimum_snap.rs"),("piece evaluation","motion/minimum_snap.rs")])
prop("C24","Kalman filters are the exact recursive estimators of their models",
 "For every history of predictions, updates, gated updates and set states: the linear filter's estimate and covariance are those of the textbook recursion and of the batch least-squares problem over the whole history, the covariance stays symmetric and never goes negative, the innovation and its gate are those of the reading, and a refused call changes nothing. The extended filter is the same on the linearisation it documents and equal to the linear one on linear models; the unscented one is the stated transform of its points, equal to the linear one on linear models, also for repeated updates. Residuals of angles wrap. Motion models are the motion they name. Bad noise, tuning and readings are refused as documented.",
 ["histories","inputs"],"every word of predictions, updates, gates, refusals and set states to a depth on systems of several sizes, runs of thousands of ticks, all tunings of an alphabet, lopsided and singular covariances, special values in every slot, f32 and f64",
 "Tests run one tracking scenario; the second update of a tick, gated and refused steps, nearly singular covariances and long runs need every order of calls.",
 ["estimation/kalman_filter.rs","estimation/extended_kalman_filter.rs","estimation/unscented_kalman_filter.rs","estimation/models.rs"],
 [("linear filter","estimation/kalman_filter.rs"),("extended filter","estimation/extended_kalman_filter.rs"),("unscented filter","estimation/unscented_kalman_filter.rs")])
prop("C25","The error-state filter is the exact recursion on the rotation group",
 "For every history of predictions, corrections of its own and of other widths, injected errors, re-seeding, conditioning and refused calls: the running guess moves as the body does, the spread follows the documented transition and noise, each correction uses the sensor's true sensitivity to the fifteen errors (models with hand derivatives agree), the reset carries the spread onto the new facing, innovation and fits are those of the last correction of the declared width, the spread stays symmetric and positive, and a refused call changes nothing. The transition is the first-order change of the motion with the error; folding an error in and taking it out round-trips; constant motion composes over subdivisions. Over long runs the facing stays a rotation and the offsets are found. Bad readings, steps, models and noises are refused.",
 ["histories","inputs"],"every word of 14 operations to a depth from several starts, gravities and update forms; states and errors over a rotation lattice; the transition in every column; runs of 20 000 ticks; special values in every slot; f32 and f64",
 "Tests fly one path; a wrong block in the reset or in a rarely used sensor is invisible until operations combine, and unit length is lost only over long runs.",
 ["estimation/error_state_kalman_filter.rs"],
 [("predict and transition","estimation/error_state_kalman_filter.rs"),("update and reset","estimation/error_state_kalman_filter.rs")])
prop("C26","Attitude filters turn with the gyroscope and settle on the sensors' truth",
 "For every history of readings, gains and reference directions: each step is the exact turn of the rate less the learned offset plus the nudge the push and field readings call for, proportional for Mahony and of fixed rate for Madgwick; unusable readings add nothing, scale does not matter, leaving the magnetometer out is the same as having none. From every start of a grid still and turning bodies are found with their offset; no field direction leaves a lasting lean, and without a field the lean comes in monotonically and the heading is not touched. Reference directions are squared up, and pairs that are parallel or broken leave the filter as it was. The facing stays a unit rotation for ever; non-finite readings are refused and change nothing.",
 ["histories","inputs"],"all two-step words over 324 combinations of readings and longer ones over 16, for several starts, gains and worlds; a grid of starts, dips, offsets and turns run to rest; all pairs of lattice directions; long runs; special values in every slot; f32 and f64",
 "Tests run a few seconds from one or two starts; which readings cancel, drop out or become parallel is a matter of combinations.",
 ["estimation/attitude_correction.rs","estimation/mahony_filter.rs","estimation/madgwick_filter.rs"],
 [("correction","estimation/attitude_correction.rs"),("Mahony step","estimation/mahony_filter.rs"),("Madgwick step","estimation/madgwick_filter.rs")])
prop("C27", "Random draws, resampling, particle filter and localizer follow their rules",
 "Pcg32 produces the published PCG32 words for every seed, unit draws lie in [0, 1) and are exactly the high bits of those words, and standard normals are the polar-method values of those draws, with the shape of a normal law. Each resampling scheme picks, for every weight vector and every sequence of draws, exactly the source whose share of the line the pick falls on, and never a particle with no weight. A particle filter's whole history - predict, update, custom scoring, resampling at the threshold, roughening - is the bootstrap filter's: same particles, weights, mean, covariance and effective sample size; the weights always sum to one; a refused update leaves the cloud and its weights alone; the same seed gives the same run. The Monte Carlo localizer is that filter with the unicycle motion and the beam scores over whatever map it is given, and settles on the robot in a room.",
 ["histories","inputs"], "PCG words over 156 seed/length pairs; millions of draws per seed; every weight composition up to 8 sources over eighth/seventh/sixth/quarter shares x offset words from an edge alphabet x 4 schemes; all operation histories of length 3 (4 thorough) over 26 operations; all localizer histories of length 4 (6 thorough) over 8 operations; f64 and f32.",
 "tests sample a few seeds and weights; a pick that lands on the wrong particle for one boundary draw, a resampling that fires one step late, or a refused update that corrupts the weights need the edge words and the histories.",
 ["random.rs","estimation/particle_filter.rs","estimation/monte_carlo_localizer.rs"],
 [("ParticleFilter::normalize_and_resample","estimation/particle_filter.rs"),("MonteCarloLocalizer::update","estimation/monte_carlo_localizer.rs"),("Pcg32","random.rs")])
M='crates/multicalc-robot-model/src/'
prop("C34","An MJCF document loads as the robot MuJoCo reads it to be, or is refused",
 "For every document: the loaded model has exactly the bodies of every worldbody, spliced files included, in document order with their parents, transforms, stated or shape-integrated masses, balance points and inertias, and joints with kind, axis, anchor, limits, offsets and friction, where each setting is the element's own, else its class's, else its body's childclass's, else the root default's, and angles follow the last compiler section. What the reader does not follow is refused by the name of the construct and never dropped silently, sections it passes over are listed, and trees and chains built from the model give the document's own forward kinematics or the documented refusal. Includes are spliced relative to the including file, cycles are refused, and no text makes the loader panic.",
 ["inputs"],"every nesting and order of default classes, compiler sections and childclasses over an alphabet; every tree of up to 5 bodies with every choice of joints and sections; every shape, size, mass and density word; every graph of 3 included files; every one-byte edit of documents; refusals in every place of the tree",
 "Tests load a few well-formed files; precedence between classes, repeated sections, combinations of attributes and includes are a space of documents, and a wrong mass loads without a sound.",
 [M+"mjcf/body.rs",M+"mjcf/defaults.rs",M+"mjcf/geometry.rs",M+"mjcf/joint.rs",M+"mjcf/compiler.rs",M+"mjcf/document.rs",M+"lib.rs"],
 [("class precedence",M+"mjcf/defaults.rs"),("shape masses",M+"mjcf/geometry.rs"),("tree walk",M+"mjcf/body.rs"),("include splicing",M+"mjcf/document.rs")])
prop("C35","A URDF document loads as the robot its links and joints describe, or is refused",
 "For every document: the loaded model has one body per link, in depth-first order from the one root whatever order links and joints are written in, each with its joint's placement by fixed-axis roll, pitch and yaw, its own inertia turned into link axes (or none), and its joint's kind, unit axis, limits, damping, friction and mimic. Any linkage that is not one tree - no root, several, a loop, a link with two parents, an unknown link - is refused with that reason, as are unsupported kinds, missing limits, unreadable attributes and masses no body can have, however they are turned. Sections passed over are listed; the root-to-tip path of every body, and trees and chains built from it, are those of the document or the documented refusal. No text makes the loader panic, and files and text give the same answer.",
 ["inputs"],"every graph of up to 4 links and 4 joints including unknown links, in several document orders; every tree of up to 5 links with every kind of joint on each; a lattice of angles on joints and masses; every word of joint and link settings; one change of every kind at every place of a document; every one-byte edit of documents",
 "Tests load a few well-formed robots; which linkages are refused, and that order of writing does not matter, are claims over all graphs, and a wrongly turned tensor needs the odd angle.",
 [M+"urdf/tree.rs",M+"urdf/joint.rs",M+"urdf/link.rs",M+"urdf/mod.rs",M+"lib.rs"],
 [("linkage",M+"urdf/tree.rs"),("joints",M+"urdf/joint.rs"),("masses",M+"urdf/link.rs")])
prop("C36","The Rust source written for a model compiles and builds exactly that model",
 "For every loaded model, tip, scalar, capacities, name, header and documentation text: the source compiles as it stands, never panics when run, and the tree it builds has exactly the joints of the model - or of the chain down to the tip - in order, with the model's own parents, kinds, placements, axes, anchors, limits, offsets, armature, damping and friction to the last digit the scalar holds, the room that was asked for, and forward kinematics equal to the document's. Text the model brings along (names, headers) cannot change the program. The same model and options always write the same text. What the tree or the scalar cannot hold - too little room, a number too large for f32, reversed limits, mimics, an unknown tip - is refused when the source is written and not when it is compiled or run.",
 ["inputs","configurations"],"every tree of up to 3 bodies with every kind of joint, whole and to each tip, in both precisions; every number of an alphabet from subnormal to infinite in every slot; every odd text in every name, header and note; every room from none to ample; every word of URDF joint kinds on three linkages - about 4800 sources, each compiled against this tree and run",
 "Tests compare text with a golden file or build one robot; a digit lost in printing, a name that closes a comment, or a refusal that only comes when the result is run need the space of models to be compiled and run.",
 [M+"codegen.rs"],
 [("writing the source",M+"codegen.rs")])
prop("C01","Every call comes back: no panic, no heap, bounded work, answer or typed error",
 "For every input, special values in any slot included - not a number, infinities, zeros of both signs, the largest and smallest numbers, subnormals, reversed bounds, indices past the end, callbacks that return such values - every public call outside the documented indexing operators returns: it does not panic or overflow, does not allocate unless its type says it needs the heap, does an amount of work bounded by its sizes and its stated caps rather than by the values passed, and answers either with a value or with a typed error that says something and converts into CalcError. Solvers stop at their iteration caps. This holds in f64, in f32 and through dual numbers.",
 ["inputs"],"about ninety call groups over the whole library, in f64, f32 and Dual: at every argument slot each of 18 special values, every pair of slots with every pair of them, all slots at once, every word over five values where there are at most five slots; triples in thorough",
 "Tests feed a few bad inputs to a few functions; a loop that only ends for finite values, a clamp that panics on reversed bounds or an overflow in a size need the special value in the one slot that reaches them, over the whole API.",
 ["scalar/numeric.rs","linear_algebra/expm.rs","mapping/occupancy_grid.rs","error.rs"],
 [("umbrella error","error.rs"),("clamp","scalar/numeric.rs"),("exponential","linear_algebra/expm.rs"),("outlines","mapping/occupancy_grid.rs")])
prop("C37","An error says what happened, and keeps its cause through every conversion",
 "For every error of every family and every chain of conversions it can pass through with `?` - a family into another that wraps it, any into CalcError, spatial and kinematic ones into ModelError: the conversion wraps exactly the original value, counts included; the source chain lists every conversion down to the original and ends there; the text says something, contains the original's text, its counts and every name it carries, whatever characters those hold; and no two different errors of one family compare equal or read alike.",
 ["inputs","histories"],"every variant of all fifteen families with every count of an alphabet up to the largest, through every sequence of conversions; every loader error with every triple of eleven texts",
 "Tests convert a few errors once; a dropped source, a wrong arm in one conversion or a swallowed count shows only on that variant and path, which the full conversion graph covers.",
 ["error.rs",M+"error.rs"],
 [("families and conversions","error.rs"),("loader errors",M+"error.rs")])
prop("C38","Differentiating an algorithm end to end gives the algorithm's own derivatives",
 "For every algorithm generic over its scalar and every input away from its corners: run on dual, hyper-dual, nested dual and Taylor scalars it takes the same decisions, returns the same number of results with the same values as on plain numbers, and the derivative parts it carries - first in every input, second along and across inputs, third along each - are the derivatives of the plain function, the same whichever scalar carried them. An input or entry that happens to be exactly zero, a rotation that is exactly the identity and a matrix already diagonal are no exceptions. Corners - saturation, repeated roots or singular values, zero-length segments, terms documented as dropped - are outside the claim.",
 ["inputs"],"about forty algorithms - rotations, poses, spatial algebra, factorizations, discretization, Riccati, polynomials, quadrature, Runge-Kutta, kinematics, filters, controllers, planners, Kalman filters - with every pair of inputs over five values each, and every block of inputs zeroed or repeated; first, second and third derivatives in every input at each",
 "Tests differentiate a few functions at generic points; a shortcut for an exact zero, a short series or a dropped derivative part shows only where that input is at that value and only in the derivative, often only the second or third.",
 ["scalar/dual.rs","scalar/jet.rs","spatial/quaternion.rs","linear_algebra/svd.rs","linear_algebra/qr.rs","polynomial/polynomial.rs"],
 [("scalars","scalar/jet.rs"),("logarithm at the identity","spatial/quaternion.rs"),("Jacobi rotations","linear_algebra/svd.rs")])
prop("C39","A refused call leaves the object exactly as it was",
 "When a call on a stateful object returns an error (or None), nothing observable about that object has changed: every getter, estimate, covariance, innovation, clearance, pose, sample and count reads as before, and every later sequence of calls - accepted or refused - answers exactly as it would had the refused call never been made; a NaN reading, an indefinite noise, a model that returns NaN or an endless slope, an overflow, a full store or a bad index can be retried or ignored. It holds for the Kalman, extended, unscented and error-state filters, Mahony and Madgwick, the particle filter's updates and noise, the localizer, the PID, the biquad cascade, kinematic trees, collision queries, paths, multivariate polynomials and vector and matrix entries. (The particle filter's predict is documented to move every particle first and report afterwards.)",
 ["histories","inputs"],"every history of accepted and refused calls up to 4-7 calls over alphabets of 5 to 16, each run beside the same history without its refused calls, in both precisions",
 "Tests look at the returned error; state half-written before the refusal, such as sigma points or an innovation, shows only in what a later call answers, after a particular sequence of calls.",
 ["estimation/kalman_filter.rs","estimation/extended_kalman_filter.rs","estimation/unscented_kalman_filter.rs","estimation/error_state_kalman_filter.rs","estimation/monte_carlo_localizer.rs","control/pid.rs","kinematics/kinematic_tree.rs","motion/polyline_path.rs"],
 [("unscented sigma points","estimation/unscented_kalman_filter.rs"),("error-state predict","estimation/error_state_kalman_filter.rs"),("extended update","estimation/extended_kalman_filter.rs"),("tree push","kinematics/kinematic_tree.rs"),("path push","motion/polyline_path.rs")])
