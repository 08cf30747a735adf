"""the properties: text for properties.jsonl and the MANIFEST entries"""
PROPS = []
NA = []


def P(id, title, statement, over, quant, why, files, mech, technique, note, observe=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, technique=technique, note=note, observe=observe))


def N(id, title, statement, over, quant, why, files, mech, reason):
    NA.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, reason=reason))


P('C01', 'Default build is heap-free and free of unsafe or hidden state',
  'With the default features, no public operation ever allocates on the heap, executes unsafe code, or reads or writes any state other than its arguments, so the same arguments always give the same result. Turning the alloc feature on changes none of the functions that exist without it, and only the numeric core, the libm routines and (with alloc) the allocator are ever called.',
  ['programs', 'configurations', 'inputs'],
  'every function of the core crate, in the default and in the full feature configuration, and everything it can call, for every instantiation',
  'a test observes the absence of allocation or hidden state only on the paths it runs, and only for one instantiation',
  ['crates/multicalc/src/lib.rs', 'crates/multicalc/src'],
  [('feature-gated use of the allocator', 'crates/multicalc/src/lib.rs'), ('unsafe-free, const-only shared data', 'crates/multicalc/src/gaussian_tables')],
  'effect analysis over rustc MIR: call-graph closure, allocation, unsafe, static and interior-mutability effects',
  'Every function body of the type-checked crate in two feature configurations is visited; external calls are restricted to core, libm and (gated) alloc. Libm and core themselves are trusted.')

P('C02', 'Every operation terminates within a budget fixed by its arguments',
  'Every loop of the numeric core makes progress on every iteration toward a bound fixed before the loop starts, whatever the numbers are, including NaN, infinities and non-converging problems; recursion always shrinks its argument. The one stated exception is rejection sampling, whose length depends on the caller-supplied random source.',
  ['inputs', 'programs'],
  'every loop and every recursive cycle of the core crate, for all argument values and all user callbacks that themselves return',
  'a test can only show that the inputs it tried terminated; NaN, overflow or pathological callbacks reach paths the tests never take',
  ['crates/multicalc/src'],
  [('iteration budgets', 'crates/multicalc/src/root_finding'), ('sweep limits', 'crates/multicalc/src/linear_algebra'), ('step-size floor', 'crates/multicalc/src/ode/rk45.rs')],
  'termination analysis over MIR: loop forests with lexicographic ranking by abstract interpretation, recursion size-change',
  'Each natural loop needs a well-founded measure found by the analysis; caller-supplied closures and random sources are assumed to return.')

P('C03', 'Errors are never swallowed and keep their cause',
  'When any fallible step inside an operation fails, the operation itself returns an error: no failure is replaced by a default, a partial result or a success. Converting an error to a wider error type keeps the original error inside it, and asking the wide error for its source yields that original; every error type of the numeric core converts into the common one.',
  ['inputs', 'programs'],
  'every call in both crates that returns a Result, every conversion between error types, and every variant that carries another error',
  'tests provoke a handful of failures; a swallowed failure shows only on the input that makes that particular nested call fail',
  ['crates/multicalc/src', 'crates/multicalc/src/error.rs', 'crates/multicalc-robot-model/src'],
  [('error types and conversions', 'crates/multicalc/src/error.rs'), ('question-mark propagation', 'crates/multicalc/src')],
  'result-flow analysis over MIR (typestate of every Result value)',
  'Covers every Result-returning call site. Exempt, as documented in DESIGN.md: the determinant of an unfactorisable matrix is 0, and integer/slice conversion probes.')

P('C04', 'No public operation of the numeric core panics',
  'No public function of the numeric core ever panics, whatever its arguments: every index is in bounds, integer arithmetic does not overflow, nothing unwraps an absent value and no explicit panic is reachable, including for NaN, infinite, empty, mismatched or adversarial inputs and for every size of the const-generic dimensions. Misuse comes back as an error value. The only documented exceptions are the indexing operators and the compile-time check on a jet variable.',
  ['inputs', 'programs', 'configurations'],
  'every public function of the core crate with all features on, for all arguments, all const dimensions from 1 up, all user callbacks that do not themselves panic',
  'tests exercise a few sizes and valid inputs; an out-of-bounds index or an underflow shows only for one particular size, order, length or degenerate value',
  ['crates/multicalc/src'],
  [('index and length handling', 'crates/multicalc/src'), ('validation before use', 'crates/multicalc/src/numerical_integration/iterative_integration.rs'), ('struct invariants behind private fields', 'crates/multicalc/src/kinematics/kinematic_tree.rs')],
  'abstract interpretation of MIR (linear inequalities, enum-variant facts, inferred struct invariants) discharging every panicking construct',
  'Every public function is an entry point with unknown arguments; about 10^5 panic sites are discharged. Assumptions: const dimensions in 1..2^20, machine-word sums and products of lengths and counters do not overflow, recursive calls repeat the first level. Not decided: vector-length relations in ParticleFilter and Jacobian::evaluate_on_heap, one index in FollowTheGap::compute, the robot-model crate.')

VN = 'global value numbering (random interpretation over a prime field) of the monomorphised MIR'
VNOTE = 'Decided in real arithmetic: rounding, NaN and overflow are outside; elementary functions are related only by their algebraic identities. '

P('C06', 'Forward-mode scalars carry exact derivatives',
  'Evaluating any expression on a Dual, HyperDual or Jet gives, in the derivative parts, exactly the derivatives the chain rule prescribes for that expression, and in the value part exactly what the same expression gives on plain numbers. Constants and rounding operations have zero derivative, clamping freezes the derivative outside its range, comparisons look at the value only, and a Jet coefficient times the factorial of its order is the derivative of that order.',
  ['inputs', 'programs'],
  'every operation of the Numeric trait and every arithmetic operator on Dual, HyperDual and Jet (orders 2 to 5), for all component values in the domain of the operation',
  'a wrong term in one derivative rule shows only for points and directions where that term does not vanish; tests sample a few',
  ['crates/multicalc/src/scalar'],
  [('chain rules', 'crates/multicalc/src/scalar/dual.rs'), ('second-order chain rule', 'crates/multicalc/src/scalar/hyper_dual.rs'), ('Taylor recurrences', 'crates/multicalc/src/scalar/jet.rs'), ('default methods', 'crates/multicalc/src/scalar/numeric.rs')],
  VN + ' against the textbook derivative formulas',
  VNOTE + 'Points where a function is not differentiable (0 for abs, equal arguments of max) are excluded.')

P('C07', 'Derivative operators return exactly the derivatives they name',
  'The automatic-differentiation operators return, for every function, point and requested order or list of variables, the mathematical partial derivative in exactly that order of variables: gradients, Jacobians and Hessians put each entry at the row of its function and the column of its variable, the Hessian is symmetric, curl and divergence combine the right entries, and the linear and quadratic approximations agree with the function in value and in every derivative up to their degree at the expansion point. Finite-difference rules are exact on the polynomials their order promises and evaluate the function only at the stencil points; orders outside the supported range are refused.',
  ['inputs', 'programs'],
  'every derivative operator, on polynomial functions whose coefficients and evaluation points are arbitrary, for every supported order and variable list tried',
  'a swapped index or a missing factorial cancels out on symmetric or low-degree sample functions; arbitrary coefficients leave no room for cancellation',
  ['crates/multicalc/src/numerical_derivative', 'crates/multicalc/src/approximation', 'crates/multicalc/src/vector_field'],
  [('autodiff orders', 'crates/multicalc/src/numerical_derivative/autodiff.rs'), ('stencils', 'crates/multicalc/src/numerical_derivative/finite_difference.rs'), ('entry placement', 'crates/multicalc/src/numerical_derivative/jacobian.rs'), ('Taylor models', 'crates/multicalc/src/approximation')],
  VN + ' against closed-form derivatives of generic polynomials',
  VNOTE + 'Functions under differentiation are generic polynomials and the elementary functions; Jacobian and Hessian sizes up to 3.')

P('C08', 'Linear algebra: definitions hold and factorisations multiply back',
  'Matrix and vector arithmetic, transposes, products, determinants and inverses agree with their definitions for every entry; every factorisation the library returns (LU with its row permutation, Cholesky, pivoted QR, singular values, symmetric eigenvectors) has the stated shape and multiplies back to the matrix it was given, whichever pivots were chosen; solves, least squares and damped least squares satisfy their defining equations; the exponential, Lyapunov and Riccati solvers satisfy theirs. Checked access never returns a neighbouring entry, and a wrong-length slice is refused.',
  ['inputs', 'programs'],
  'all entries of matrices of sizes 1 to 5 (shape by shape), every pivot order and sign pattern of the intermediate quantities',
  'a wrong pivot swap, sign or index shows only for the matrices that take that pivoting path; tests use a few well-conditioned ones',
  ['crates/multicalc/src/linear_algebra'],
  [('LU and its permutation', 'crates/multicalc/src/linear_algebra/lu.rs'), ('Cholesky', 'crates/multicalc/src/linear_algebra/cholesky.rs'), ('pivoted QR and damped least squares', 'crates/multicalc/src/linear_algebra/qr.rs'), ('closed-form determinant and inverse', 'crates/multicalc/src/linear_algebra/matrix.rs'), ('Jacobi eigenvalues and SVD', 'crates/multicalc/src/linear_algebra/svd.rs')],
  VN + ' against the defining equations',
  VNOTE + 'Fixed small sizes; iterative methods (exponential scaling, Lyapunov and Riccati doubling, Jacobi sweeps) only where they stop after finitely many exact steps. A square root missing from the random assignment drops the paths that need it, so several assignments are used.')

P('C09', 'Rotations, rigid motions and spatial vectors obey their group and duality laws',
  'Unit quaternions, SO(2), SE(2), SO(3) and SE(3) compose, invert, act and convert to and from matrices, axis-angle and Euler angles exactly as the rotation and rigid-motion matrices they stand for; exp and log are inverse to each other and equal the matrix exponential; left and right Jacobians equal their defining series and multiply with their inverses to the identity, and the small-angle branches continue the closed forms to every order they carry. The adjoint transports twists, the force adjoint transports wrenches so that power is invariant, moved and combined inertias are the congruence and the sum of their 6x6 matrices, and matrices that are not rotations are refused.',
  ['inputs'],
  'all quaternions, axes, angles, translations, twists, wrenches and inertias, in every branch (four matrix-to-quaternion formulas, both hemispheres, gimbal lock, small and large angles)',
  'a wrong sign or block in a branch, or a Taylor coefficient, shows only for the orientations that take it; tests sample a few orientations',
  ['crates/multicalc/src/spatial'],
  [('quaternion conversions and slerp', 'crates/multicalc/src/spatial/quaternion.rs'), ('exponential, Jacobians, thresholds', 'crates/multicalc/src/spatial/lie/mod.rs'), ('planar motions', 'crates/multicalc/src/spatial/lie/se2.rs'), ('spatial motions and adjoints', 'crates/multicalc/src/spatial/lie/se3.rs'), ('inertia congruence', 'crates/multicalc/src/spatial/inertia.rs')],
  VN + ' against matrix definitions, with jets for the Taylor branches',
  VNOTE + 'Large-angle laws start at an angle of about 0.03 to 0.5 rad; the Taylor branches are compared coefficient by coefficient to the order the code carries.')
P('C10', 'Bodies, trees, drives and collision shapes obey rigid mechanics',
  'Newton-Euler accelerations and wrenches are inverse to each other and conserve momentum and power; forward kinematics of a tree is the composition of its mounts and joint motions for every joint type, and the geometric Jacobian is its derivative; malformed trees are refused. Drive inverse and forward maps are inverse to each other, odometry composes the exact arcs, rotor lag is its exponential, and the distance, clearance and contact queries between collision shapes are the Euclidean ones.',
  ['inputs'],
  'all bodies, joint values, mounts, velocities and shape poses, for every joint and shape kind',
  'a wrong frame, sign or block is invisible at the symmetric poses and identity mounts unit tests use: the floating-joint Jacobian was wrong for every rotated mount and no test noticed',
  ['crates/multicalc/src/dynamics', 'crates/multicalc/src/kinematics', 'crates/multicalc/src/plant'],
  [('rigid bodies', 'crates/multicalc/src/dynamics/rigid_body.rs'), ('trees and Jacobians', 'crates/multicalc/src/kinematics/kinematic_tree_state.rs'), ('collision queries', 'crates/multicalc/src/kinematics/collision.rs'), ('drives and odometry', 'crates/multicalc/src/kinematics/odometry.rs')],
  VN + ' against rigid-motion definitions, Jacobians against dual-number derivatives',
  VNOTE + 'Motor mixing, inverse kinematics and the singular-value functions of the Jacobian are not covered.')
P('C11', 'Integrators take the steps their order and settings promise',
  'One classical Runge-Kutta step agrees with the Taylor series of the solution through fourth order and one adaptive step through fifth, for every polynomial field; the error test is the weighted root mean square of the embedded difference, accepted steps join up with their slopes, grow and shrink within their bounds, never leave the span or exceed the maximum, and end exactly on the final time; dense output is the Hermite cubic and a grid is filled from the step that covers each time; attitude steps are exact rotations and the midpoint rule. Budget, minimum step, ill-posed spans and values that are not numbers are reported as the error they are.',
  ['inputs'],
  'all fields (uninterpreted, or polynomial with arbitrary coefficients for the order conditions), times, states, steps and settings',
  'a coefficient of the tableau off in a high-order condition, a grid time rounded off the end of the last step, or a stale slope only costs accuracy or fails on rare spans; tests compare a few solutions loosely',
  ['crates/multicalc/src/ode'],
  [('classical steps', 'crates/multicalc/src/ode/rk4.rs'), ('adaptive steps, error test, dense output, grids', 'crates/multicalc/src/ode/rk45.rs'), ('attitude', 'crates/multicalc/src/ode/exponential_map.rs')],
  VN + ' with jets over the timestep for the order conditions',
  VNOTE + 'Step sequences are decided for up to two attempts.')
P('C05', 'Quadrature tables hold the Gauss nodes and every rule integrates',
  'Every tabulated Gauss-Legendre, Gauss-Hermite and Gauss-Laguerre rule of order 1 to 30 holds all roots of its orthogonal polynomial with their Christoffel weights, is selected by its own method and order, and orders outside 1..=30 are refused. The Gaussian rules are the weighted sums of the integrand at the mapped nodes, the composite rules are exact through their degree (5, 3, 1) for every number of panels the count is rounded up to, improper domains go through their substitution with its Jacobian, and partial and repeated integrals move exactly the variables they name. Ill-posed limits, indices out of range, zero counts and samples that are not finite are reported.',
  ['inputs'],
  'all integrands (uninterpreted, or polynomials with arbitrary coefficients), limits and evaluation points; all 90 tables entry by entry',
  'one wrong digit in one of 1395 node or weight entries, or one wrong panel weight, loses accuracy only for orders and degrees no test integrates',
  ['crates/multicalc/src/numerical_integration', 'crates/multicalc/src/gaussian_tables'],
  [('tables', 'crates/multicalc/src/gaussian_tables/mod.rs'), ('Gaussian rules', 'crates/multicalc/src/numerical_integration/gaussian_integration.rs'), ('composite rules', 'crates/multicalc/src/numerical_integration/iterative_integration.rs'), ('domains', 'crates/multicalc/src/numerical_integration/integrator.rs')],
  'constant folding of the node tables, compared with the exact nodes; ' + VN,
  VNOTE + 'Table entries are accepted within 4e-15 (abscissa) and 2e-12 (weight, relative). Counts above 12,000 are documented not to be rounded and are excluded.')
P('C12', 'Filters compute the estimates and covariances their equations define',
  'Kalman, extended, unscented and error-state filters predict and update to the mean, covariance and gain of their defining equations for every model, noise and measurement, in particular with measurements of fewer components than the state; updates that cannot be carried out are refused and leave the filter as it was; rejected innovations are those beyond the stated gate. Attitude filters turn by the measured rate plus exactly the stated correction. Motion and measurement models are the stated functions with the stated derivatives, log-likelihoods are those of the named densities, and every resampling scheme selects each particle exactly on its share of the draw, never one of zero weight.',
  ['inputs', 'histories'],
  'all states, covariances, gains, models and measurements of the sizes tried (1 to 4 components), every draw of the random source',
  'a transposed gain, a stale covariance or a cross-term that is zero in the sample model is invisible in a convergence test, which only checks that the estimate ends up near the truth',
  ['crates/multicalc/src/estimation', 'crates/multicalc/src/random.rs'],
  [('linear and extended filters', 'crates/multicalc/src/estimation'), ('resampling', 'crates/multicalc/src/estimation/particle_filter.rs')],
  VN + ' against the filter equations written out in matrices',
  VNOTE + 'Unscented updates are compared with zero process noise (the documented additive form). The heap-backed particle cloud and the localisation front end are not covered.')
P('C13', 'Controllers issue the command their control law defines',
  'A PID controller gives the textbook sum over its whole history, with the derivative taken on the filtered measurement, clamped to its limits; its integral is held exactly when its next step would push a saturated output further out, and changing gains, taking over from a given command or resetting never makes the output jump. The quadratic regulator has the gain, closed loop and cost of its Riccati solution and certifies that loop. Pure pursuit steers the circle through the point, the attitude controller applies the geometric torque, the thrust command carries the push and faces the heading, and gap following picks the admissible gap, keeps the chassis clear of its edges and slows linearly. Settings out of range are refused.',
  ['inputs', 'histories'],
  'all gains, timesteps, setpoints and measurements over up to four updates; all attitudes, rates and pushes; scans of five beams with symbolic readings around each gap shape',
  'anti-windup, bumpless transfer and gap margins matter only in saturated, switching or grazing situations, with signs of gains no test uses: the integral of a negative-gain controller wound up unnoticed',
  ['crates/multicalc/src/control'],
  [('controller and anti-windup', 'crates/multicalc/src/control/pid.rs'), ('regulator', 'crates/multicalc/src/control/lqr.rs'), ('attitude', 'crates/multicalc/src/control/geometric_attitude.rs'), ('gap following', 'crates/multicalc/src/control/follow_the_gap.rs')],
  VN + ' against the control laws written out',
  VNOTE + 'The regulator is decided on chains whose Riccati recursion ends after finitely many steps.')
P('C14', 'Polynomials compute exactly and root finders report roots',
  'Polynomial arithmetic, composition, division, calculus, shifts and fits are the algebraic operations for every coefficient, results that do not fit are refused, and interpolants pass through every node and slope given. Closed-form roots are all the real roots with their multiplicities, in ascending order; Sturm counts are the number of distinct real roots in the stated interval. Newton steps solve the linear model and halve only steps that would enlarge the residual; bisection and Brent keep the sign change bracketed, return a point within the tolerance of a root, report the residual at that very point and the true reason they stopped, and refuse brackets without a sign change and functions that are not finite.',
  ['inputs'],
  'all coefficients, nodes and values of polynomials of up to seven coefficients; lines, quadratics and systems with arbitrary coefficients for the iterations',
  'repeated and clustered roots, nodes in special position and steps that just fail to shrink the residual are a null set no sampled test meets: a triple root was reported only once',
  ['crates/multicalc/src/polynomial', 'crates/multicalc/src/root_finding'],
  [('closed-form roots and Sturm counts', 'crates/multicalc/src/polynomial/roots.rs'), ('interpolation and fits', 'crates/multicalc/src/polynomial/construction.rs'), ('root finders', 'crates/multicalc/src/root_finding')],
  VN + ', thirds of angles and cube roots taken exactly in the field',
  VNOTE + 'Iterations are decided for up to two Newton steps, whole bisections of an interval of sixteen, and one Brent step.')
P('C15', 'Least-squares fits and discretised systems satisfy their equations',
  'A Gauss-Newton step minimises the linearised residual; a linear problem is solved by its normal equations, a step that would enlarge the residual is halved, and the reported objective, evaluation count and reason for stopping are those of the reported point. A Levenberg-Marquardt step that fits its trust region is the undamped one, one that does not ends on the boundary, and one that enlarges the residual is undone. Rank-deficient, underdetermined and non-finite problems are refused. Discretised systems satisfy A G = (F - 1) B for a held input and A Q + Q A^T = F Q0 F^T - Q0 for the gathered noise, white-noise blocks are the stated outer products, and scores that are not defined are not a number.',
  ['inputs'],
  'all data of linear and quadratic residuals in one or two unknowns, one symbol at a time where the damping decides; all systems within one halving of the scaling threshold',
  'the step bound, the damping and the reason for stopping only matter on hard problems; a fit that still converges hides a wrong step, and a wrong noise block hides behind tuning',
  ['crates/multicalc/src/optimization', 'crates/multicalc/src/discretization', 'crates/multicalc/src/approximation'],
  [('undamped steps', 'crates/multicalc/src/optimization/gauss_newton.rs'), ('damped steps', 'crates/multicalc/src/optimization/levenberg_marquardt.rs'), ('damping', 'crates/multicalc/src/optimization/trust_region.rs'), ('discretisation', 'crates/multicalc/src/discretization/mod.rs')],
  VN,
  VNOTE + 'The damping iteration is decided in one unknown, where its secular equation is solved in one step.')
P('C16', 'Motion profiles, paths and minimum-snap curves go where they should',
  'A planned move has exactly the phases its limits allow: ramp, cruise and ramp, or a triangle when the way is too short; with a jerk limit all seven phases, in each of the cases of reached and unreached limits, mirrored for a move backwards. The state at any time is the running integral of the phases, zero before and resting at the goal after; a stretched move is the same motion slowed down, and synchronised axes start and stop together. A path reports its true nearest point, arc length and look-ahead point, whether it stops or loops. Minimum-snap curves meet the ends in position, velocity, acceleration and jerk, pass through every waypoint, are six times smooth there, and do not mix axes. Unusable limits, times and waypoints are refused.',
  ['inputs'],
  'all limits, distances and times of each kind of profile; all query points on two segments; all waypoints and end conditions of up to three segments',
  'phase boundaries, degenerate moves and the sixth derivative at a joint are not visible at the sampled instants: a wrong phase shifts the goal slightly and the snap only in magnitude',
  ['crates/multicalc/src/motion'],
  [('profiles', 'crates/multicalc/src/motion/motion_profile.rs'), ('paths', 'crates/multicalc/src/motion/polyline_path.rs'), ('minimum snap', 'crates/multicalc/src/motion/minimum_snap.rs')],
  VN + ' against the kinematics written out',
  VNOTE + 'Times inside a profile are decided with its phase lengths fixed and its scale free; segment times of snap curves are fixed.')
P('C17', 'Filters and conditioning blocks respond as their design states',
  'A second-order section has the stated transfer function: low and high pass, band pass and notch meet their gain and phase at the cutoff, at rest and at half the sampling rate, with the edges of their band where the quality says, and every design that is accepted is stable. Filtering is that difference equation over the whole history; a cascade is the product of its sections; settling, resetting and changing coefficients leave the states the response needs. Magnitude and phase agree with the transfer function. Dead bands, hysteresis, slew limits and one-pole smoothing map every input and timestep as stated, moving averages and medians are those of exactly the last samples through wrap-around, and Savitzky-Golay smoothing fits the least-squares polynomial. Settings outside the range that works are refused.',
  ['inputs', 'histories'],
  'all cutoffs, quality factors, gains and samples over several updates, windows of up to five samples wrapped around',
  'a filter that is wrong is still smooth: an error shows at particular frequencies or after a wrap-around or a reset, and an unstable design only in the long run: wide bands were accepted that diverged',
  ['crates/multicalc/src/signal_processing'],
  [('designs', 'crates/multicalc/src/signal_processing/biquad.rs'), ('cascades and channels', 'crates/multicalc/src/signal_processing/cascade.rs'), ('conditioning', 'crates/multicalc/src/signal_processing/conditioning.rs'), ('windows', 'crates/multicalc/src/signal_processing/window.rs'), ('smoothing', 'crates/multicalc/src/signal_processing/savitzky_golay.rs')],
  VN + ' against the transfer functions and difference equations written out',
  VNOTE + 'The pseudo-inverse of a full-rank matrix is summarised by its definition in the Savitzky-Golay laws; C08 decides the summary\'s ingredients.')
P('C18', 'Field integrals, maps, rotors and random draws are the stated ones',
  'A line integral adds the work along the chords of the curve with the mean of the field at their ends, and the planar flux what crosses the curve; both refuse unusable limits. A scan\'s beams, limits and nearest valid reading are those of its sweep. A map\'s cells tile the world, each owning its lower edges, and a point that is off the map or not a number is in none; a beam travels exactly to the first blocked cell on its line, and never past its range; marking points and outlines blocks exactly the cells they touch. A rotor mixer\'s thrusts produce the wrench asked for whenever none saturates, and report when one does. Random normals are the polar transform of the uniforms they draw and the generator is the published sequence.',
  ['inputs', 'histories'],
  'polynomial and arbitrary fields and curves; every one of the 4096 occupancies of a map at once for eight families of beams; all thrust and torque demands',
  'beams through corners, along grid lines, from outside the map or past the last cell, and fields whose parts cancel, are the cases samples avoid: the flux of the circle examples agrees with a wrong formula',
  ['crates/multicalc/src/vector_field', 'crates/multicalc/src/mapping', 'crates/multicalc/src/plant', 'crates/multicalc/src/random.rs'],
  [('line and flux integrals', 'crates/multicalc/src/vector_field'), ('beams and cells', 'crates/multicalc/src/mapping/occupancy_grid.rs'), ('scans', 'crates/multicalc/src/mapping/scan_geometry.rs'), ('mixing', 'crates/multicalc/src/plant/multirotor_mixing.rs'), ('random numbers', 'crates/multicalc/src/random.rs')],
  VN,
  VNOTE + 'Flux along a curve in space is not a defined quantity and is left out. Bearings and starting points of beams are fixed; the map is not.')
P('C19', 'Inverse kinematics steps, stops and reports as it says',
  'A step towards a target is the weighted, damped least-squares one, with the damping ramped in by the smallest singular value, shortened to its cap only when longer, held inside the joint limits, and the secondary objective moves only what the task leaves over: the damped inverse P satisfies P (J W^-1 J^T + l^2) = W^-1 J^T and the projector is 1 - P J. Readings, residuals, iteration count and reason for stopping are those of the configuration returned: arrived, stalled against a stop, or out of budget. Many starts keep each distinct solution once, draw inside the limits or around the first, and the nearest solution is the nearest by the tree\'s own distance, turns the short way. Unusable tools, targets, seeds and weights are refused.',
  ['inputs'],
  'all seeds, targets, weights, damping and postures for sliding, turning and floating joints over one or two iterations; all draws of three starts',
  'convergence hides a wrong step, a wrong weight or a posture that disturbs the task, and the reason reported matters exactly when the search does not end well: a search that arrived on its last iteration was reported as out of budget with the residual of the configuration before',
  ['crates/multicalc/src/kinematics'],
  [('steps, limits and reports', 'crates/multicalc/src/kinematics/inverse_kinematics.rs'), ('several starts', 'crates/multicalc/src/kinematics/multi_start_inverse_kinematics.rs'), ('the Jacobian as a map', 'crates/multicalc/src/kinematics/kinematic_jacobian.rs'), ('distances', 'crates/multicalc/src/kinematics/kinematic_tree.rs')],
  VN,
  VNOTE + 'The singular value decomposition is summarised by the matrix it stands for (its solve is the Moore-Penrose inverse, its values positive up to the rank); C08 decides the decomposition itself as far as it is decided.')

P('C20', 'Particle clouds scatter, move, weigh and renew themselves as they say',
  'A fresh cloud is its mean plus the lower factor of the covariance applied to one normal draw per coordinate, particle by particle, with equal weights. A step moves every particle by the model and adds the process noise drawn the same way, leaves the weights alone, and finishes the pass before it reports a particle that is lost. A reading multiplies each weight by the exponential of its score and divides by the sum; a particle given up can come back; a reading that is not a number changes nothing; a cloud that explains nothing is reported dead. Renewal happens below the threshold only, each scheme picks the particle whose share of the total covers its draw, the new weights are equal, and roughening moves coordinate by coordinate in proportion to its reach. Means, sample size and most probable state are those of the weights. The localiser moves by arc and turn, scores agreement, silence and disagreement of every beam, and estimates by mean place, mean direction and spread.',
  ['inputs'],
  'all places, scores, noises, draws and models of clouds of one to three particles; draws against the edges of the weights at given values for each scheme',
  'a filter that resamples the wrong particle, weighs with last step\'s weights or averages headings as numbers still tracks in a test with one seed; the laws hold the arithmetic of every particle for any draw',
  ['crates/multicalc/src/estimation/particle_filter.rs', 'crates/multicalc/src/estimation/monte_carlo_localizer.rs'],
  [('cloud, weights and renewal', 'crates/multicalc/src/estimation/particle_filter.rs'), ('beams and estimates', 'crates/multicalc/src/estimation/monte_carlo_localizer.rs')],
  VN,
  VNOTE + 'Draws are named inputs of a tape handed in as the random source (the localiser uses the generator seeded as the law seeds its own copy); probabilistic statements about the schemes are out of reach and not claimed.')

N('N01', 'Results are accurate to the rounding the documentation promises',
  'Every operation returns the exact real-number result to within a few units in the last place, or to the tolerance it documents; compensated sums stay accurate when the terms cancel, and nothing overflows or underflows on the way to a representable result.',
  ['inputs'],
  'every finite input of every numeric operation, in single and double precision',
  'tests compare a few values against references; cancellation and overflow show only on particular magnitudes',
  ['crates/multicalc/src'],
  [('compensated and pairwise sums', 'crates/multicalc/src/utils'), ('small-angle branches', 'crates/multicalc/src/spatial')],
  'Rounding errors are runtime quantities: a sound bound needs an interval or error-term analysis per input box for thousands of operations, and the useful ones (cancellation, conditioning) have no input-independent bound. The value numbering of C05 to C20 identifies expressions over the reals, so it decides which formula is computed, not how it rounds.')

N('N02', 'Iterative solvers converge from every start their theory covers',
  'Newton, Brent, Gauss-Newton, Levenberg-Marquardt, trust-region, inverse kinematics, Riccati and eigenvalue iterations reach a solution within their default budget from every start for which the method is known to converge, at the order the method promises.',
  ['inputs', 'histories'],
  'every smooth problem and start in the basin of the method, over the whole run of iterations',
  'tests run a handful of problems; convergence over all problems is a statement about unboundedly many iterations',
  ['crates/multicalc/src/root_finding', 'crates/multicalc/src/optimization', 'crates/multicalc/src/linear_algebra'],
  [('iteration drivers', 'crates/multicalc/src/optimization')],
  'Convergence is a limit statement about caller-supplied functions: no dataflow, typestate or value-graph fact bounds the number of iterations a particular function needs. What is decidable is claimed elsewhere: one step is the one the method defines (C08, C14, C15, C19), loops end (C02), and giving up is reported (C03, C14, C15).')

N('N03', 'Random streams are statistically sound and particle filters consistent',
  'Random draws are uniform or normal and independent to the quality the generator promises, different seeds give unrelated streams, and the particle filter mean and covariance tend to those of the posterior as the cloud grows.',
  ['inputs', 'histories'],
  'every seed, every length of stream and every cloud size',
  'a statistical test samples a few seeds and lengths; it can only fail to reject',
  ['crates/multicalc/src/random.rs', 'crates/multicalc/src/estimation/particle_filter.rs'],
  [('generator and transforms', 'crates/multicalc/src/random.rs'), ('resampling', 'crates/multicalc/src/estimation/particle_filter.rs')],
  'Distribution statements quantify over runs and need probabilistic reasoning; static analysis can only say which recurrence and transform is computed, which C18 (generator, transforms) and C20 (weights, resampling as functions of the draws) already decide.')

N('N04', 'A loaded robot model is the one its file describes',
  'Reading a robot description gives exactly the bodies, poses, inertias, joints, limits and defaults the file states, in an order that puts parents first, rejects by name what it does not support, and the generated source rebuilds the same tree.',
  ['inputs'],
  'every well-formed and malformed description document in both supported formats',
  'tests load a few sample files; defaults, units and nesting interact in ways the samples do not cover',
  ['crates/multicalc-robot-model/src/lib.rs', 'crates/multicalc-robot-model/src/xml.rs', 'crates/multicalc-robot-model/src/codegen.rs'],
  [('urdf reader', 'crates/multicalc-robot-model/src/urdf/mod.rs'), ('mjcf reader', 'crates/multicalc-robot-model/src/mjcf/mod.rs'), ('source generation', 'crates/multicalc-robot-model/src/codegen.rs')],
  'The meaning of a document is decided by string contents, hash maps keyed by names and heap vectors of unbounded length; the value numbering has no model of text, and the abstract interpreter keeps no facts about the elements of a vector (which body indexes which), so neither the content nor the index safety of the built tree is in reach. Its error handling is covered by C03.')
