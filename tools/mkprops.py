"""Writes /verif/properties.jsonl (run by hand after editing)."""
import json
A = 'active_subspaces/'
U = 'active_subspaces/utils/'
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None)))

p('P01', 'Gradient eigenpairs decompose the weighted gradient outer product',
  'For every set of M gradient samples in m dimensions and every set of nonnegative weights, the gradient-based active subspace estimate returns m eigenvalues that are nonnegative and in decreasing order and an orthonormal m-by-m eigenvector matrix whose columns have a nonnegative first component. '
  'Together they reproduce exactly the matrix sum_i w_i g_i g_i^T (eigenvector matrix times diagonal times transpose), column k belonging to eigenvalue k.',
  ['inputs'], 'all M, m >= 1, all gradient samples and nonnegative weights, including zero, tied and rank-deficient spectra',
  'The tests decompose one or two seeded random matrices and mostly compare shapes or a stored result; ties, zero first components, rank deficiency and unequal weights are never reached.',
  [A+'subspaces.py'], [('active_subspace', A+'subspaces.py:active_subspace'), ('sorted_eigh', A+'subspaces.py:sorted_eigh')],
  ['active_subspace return value', 'sorted_eigh return value', 'Subspaces.eigenvals / eigenvecs'])
p('P02', 'A Subspaces object is always a consistent partition of its eigenvectors',
  'After any sequence of compute and partition calls, whether they succeed or raise, the active and inactive bases are exactly the first n and the last m-n columns of the stored eigenvector matrix for some 1 <= n <= m, and eigenvalues, eigenvectors, bases and bootstrap ranges all stem from one and the same successful compute call. '
  'A successful compute stores the eigenpairs of the requested estimator on the given data and weights (equal weights 1/M when none are given) and the dimension chosen by the requested rule; a call that raises leaves the object as it was, and a dimension that is not an integer in 1..m is refused.',
  ['histories', 'inputs'], 'all finite sequences of compute/partition calls with any data, estimator, partition rule and bootstrap count (m >= 2), including invalid ones',
  'Each test builds a fresh object and makes one valid call; no test reuses an object, looks at it after an exception, or compares the bases with the eigenvectors.',
  [A+'subspaces.py'], [('Subspaces.compute', A+'subspaces.py:Subspaces.compute'), ('Subspaces.partition', A+'subspaces.py:Subspaces.partition')],
  ['Subspaces attributes after each call'], [('Subspaces.W1/W2', 'bases of the active / inactive subspace', A+'subspaces.py:Subspaces'), ('Subspaces.eigenvecs', 'all eigenvectors', A+'subspaces.py:Subspaces')])
p('P03', 'Data-driven estimators are exact for affine and quadratic data',
  'If the outputs are an affine function of the inputs with gradient b (enough samples in general position, any positive weights), the global linear estimator returns first eigenvalue |b|^2, all others zero, and first eigenvector parallel to b, and the local-linear estimator returns the same. '
  'If the outputs are a quadratic with gradient b at the origin and Hessian A, the global quadratic estimator returns the eigenpairs of b b^T + gamma A A^T, with gamma 1/3 when every input lies in [-1,1] and gamma 1 as soon as one input lies outside on either side.',
  ['inputs'], 'all affine / quadratic functions, sample sets of full rank, positive weights, dimensions m >= 1 (m >= 2 for the local-linear estimator)',
  'Tests run the estimators on one random data set and check shapes; the uniform-data branch of the quadratic estimator and exactness are never exercised.',
  [A+'subspaces.py', A+'gradients.py', U+'response_surfaces.py'],
  [('ols_subspace', A+'subspaces.py:ols_subspace'), ('qphd_subspace', A+'subspaces.py:qphd_subspace'), ('opg_subspace', A+'subspaces.py:opg_subspace')],
  ['return values of the three estimators'])
p('P04', 'Automatic dimension choices optimise the documented criterion',
  'For every decreasing nonnegative spectrum of length m >= 2, the gap rule returns a dimension n in 1..m-1 for which the gap between eigenvalues n and n+1 is the largest; the error-bound rule returns, in 1..m-1, a minimiser of sqrt(sum of first n eigenvalues) * subspace error(n) + sqrt(sum of the remaining eigenvalues). '
  'The ladle rule returns the position (counted from 1) of a minimum of the subspace variability plus normalised eigenvalue; each rule also returns the full vector of its criterion values.',
  ['inputs'], 'all spectra of any length >= 2 and all subspace-error vectors, including ties and zeros',
  'Tests evaluate each rule on one spectrum of fixed length.',
  [A+'subspaces.py'], [('eig_partition', A+'subspaces.py:eig_partition'), ('errbnd_partition', A+'subspaces.py:errbnd_partition'), ('ladle_partition', A+'subspaces.py:ladle_partition')],
  ['return values of the three partition rules'])
p('P05', 'Bootstrap ranges come from joint row resampling and bracket the mean',
  'Each bootstrap replicate consists of M rows drawn with replacement from the data, the same rows for inputs, outputs, gradients and weights, and the requested estimator is run once on each of the nboot replicates. '
  'Column 1 and 2 of the eigenvalue ranges are the minimum and maximum over the replicates, columns 1 to 3 of the subspace error are minimum, mean and maximum over the replicates of the spectral norm of W_a(:,1:j)^T W_b(:,j+1:m), which lies in [0,1]; the order-determination metric is nonnegative, starts with 0 and sums to 1.',
  ['inputs', 'histories'], 'all data sets, weights, estimators, nboot >= 1, m >= 2, and all outcomes of the random number generator (for the normalisation of the metric: when the replicates are not all perfect)',
  'Tests fix the seed and look at shapes; whether rows stay paired and what each column holds is never checked.',
  [A+'subspaces.py'], [('_bootstrap_replicate', A+'subspaces.py:_bootstrap_replicate'), ('_bootstrap_ranges', A+'subspaces.py:_bootstrap_ranges')],
  ['e_br, sub_br of Subspaces', 'return values of the bootstrap routines'])
p('P06', 'Finite-difference gradients are forward differences at the right point',
  'For every function, point set (M by m) and step h, row i, column j of the finite-difference gradient equals (f(x_i + h e_j) - f(x_i)) / h. '
  'The function is evaluated exactly once at each of the M base points and at each of the M*m perturbed points and nowhere else, so the result is exact for affine functions; a plain function and a simulation runner give the same result.',
  ['inputs', 'programs'], 'all M, m >= 1, all h != 0, all (black-box) functions',
  'The tests difference one function at a few points and check a shape or a loose tolerance, which hides swapped points or coordinates for symmetric functions.',
  [A+'gradients.py', U+'simrunners.py'], [('finite_difference_gradients', A+'gradients.py:finite_difference_gradients'), ('SimulationRunner.run', U+'simrunners.py:SimulationRunner.run')],
  ['return value', 'the sequence of calls of the user function'])
p('P07', 'Local linear gradients fit true nearest neighbours, exactly for affine data',
  'Every row of the local-linear gradient estimate is the slope part of a least-squares affine fit to the p samples nearest to one randomly chosen sample, excluding the samples that coincide with it (the point itself), inputs and outputs of the same samples being paired. '
  'For outputs that are affine in the inputs and samples in general position every row therefore equals the true gradient; the estimate has min(ceil(10 m log m), M-1) rows and a neighbour count outside m+1..M or of non-integer type is refused.',
  ['inputs', 'histories'], 'all M > m >= 2, m+1 <= p <= M-1, all inputs, positive weights and random draws',
  'Tests check shapes on one seeded data set; with a nonlinear or permuted fit the shapes stay the same.',
  [A+'gradients.py'], [('local_linear_gradients', A+'gradients.py:local_linear_gradients')], ['return value of local_linear_gradients'])
p('P08', 'Normalizers are exact inverses with the stated image',
  'For bounds lb < ub the bounded normalizer maps lb to -1, ub to 1, the box onto [-1,1]^m componentwise and affinely, and unnormalize inverts normalize in both orders for every matrix of points. '
  'For mean mu and positive definite covariance C the unbounded normalizer maps x to L^-1 (x - mu) with L L^T = C (so the mean maps to 0 and normalized samples have identity covariance), and unnormalize inverts it in both orders.',
  ['inputs'], 'all dimensions, all bounds lb < ub (row or column arrays), all mu and positive definite C, all point sets',
  'Tests normalise one random data set; only some components, bounds and orders are seen.',
  [U+'misc.py'], [('BoundedNormalizer', U+'misc.py:BoundedNormalizer'), ('UnboundedNormalizer', U+'misc.py:UnboundedNormalizer')],
  ['normalize / unnormalize return values'])
p('P09', 'Forward and inverse active-variable maps are mutually consistent',
  'For every orthonormal eigenvector matrix and every split n, forward(X) returns Y = X W1 and Z = X W2, and X is recovered as Y W1^T + Z W2^T. '
  'inverse(Y, N) returns N full-space points per row of Y (NY*N rows) and an index column with values in 0..NY-1, each value occurring N times, such that forward of the k-th point returns the row of Y its index names; in the unbounded map the inactive coordinates are the standard normal draws, one per point.',
  ['inputs', 'histories'], 'all m, n with 1 <= n <= m, all orthonormal W, all Y, N >= 1, all random draws',
  'Tests use fixed small sizes and check shapes or one projection, so row/column mix-ups for NY, N and m-n different from each other are not seen.',
  [A+'domains.py'], [('ActiveVariableMap.forward', A+'domains.py:ActiveVariableMap.forward'), ('ActiveVariableMap.inverse', A+'domains.py:ActiveVariableMap.inverse'), ('_rotate_x', A+'domains.py:_rotate_x')],
  ['forward / inverse return values'])
p('P10', 'Samples of the inactive variables keep the point inside the hypercube',
  'For every orthonormal split [W1 W2] and every active point y that is strictly feasible (some x in the open hypercube has W1^T x = y), each of the N inactive samples z returned by rejection sampling, hit-and-run, the random walk or the combined sampler satisfies -1 <= W1 y + W2 z <= 1 up to rounding. '
  'The bounded inverse map therefore returns only points of the hypercube [-1,1]^m, whichever sampler it falls back to.',
  ['inputs', 'histories'], 'all m, n < m, all orthonormal bases (including ones with zero entries or zero rows), all strictly feasible y, N >= 1, all random draws',
  'Tests check feasibility for a handful of seeded draws with generic bases; the fall-back samplers and bases with zero rows are hardly reached.',
  [A+'domains.py', U+'qp_solver.py'], [('sample_z', A+'domains.py:sample_z'), ('hit_and_run_z', A+'domains.py:hit_and_run_z'), ('rejection_sampling_z', A+'domains.py:rejection_sampling_z'), ('random_walk_z', A+'domains.py:random_walk_z'), ('BoundedActiveVariableMap.regularize_z', A+'domains.py:BoundedActiveVariableMap.regularize_z')],
  ['samples returned by each sampler', 'BoundedActiveVariableMap.inverse'])
p('P11', 'The bounded active-variable domain is the image of the hypercube',
  'For a one-dimensional active subspace the domain of a bounded problem is the interval [-|w|_1, |w|_1] in increasing order; for n >= 2 every returned vertex is W1^T x for the returned corner x in {-1,1}^m (w without zero rows), the vertex set is symmetric about the origin without repetitions and has at most 2*sum_{i<n} C(m-1,i) members, attaining it when all are found. '
  'In both cases the two endpoint/vertex arrays correspond row by row, every x in [-1,1]^m maps into the domain when all vertices are found, and the constraint function handed to optimisers is nonnegative exactly on the domain with the matching Jacobian.',
  ['inputs', 'histories'], 'all m > n >= 1, all bases in general position, all random draws of the vertex search',
  'Tests check the number of vertices for a few seeded bases and print the interval for one vector.',
  [A+'domains.py'], [('interval_endpoints', A+'domains.py:interval_endpoints'), ('zonotope_vertices', A+'domains.py:zonotope_vertices'), ('nzv', A+'domains.py:nzv'), ('BoundedActiveVariableDomain.compute_boundary', A+'domains.py:BoundedActiveVariableDomain.compute_boundary')],
  ['vertY, vertX, convhull, constraints of the domain'])
p('P12', 'Integrals weight each conditional mean by its own quadrature weight',
  'Conditional expectations and variances are, for each index value k, the mean and the (population) variance of exactly the outputs carrying index k, in order of k. '
  'The integral estimate equals sum_k w_k * mean of the NMC function values at the points whose active variables are quadrature node k (w_k the weight of that node), its bounds are the estimate -/+ 1.96 sqrt(sum_k w_k^2 var_k / NMC), the full-space weights of a rule sum to the sum of the active-variable weights, and integrating a function of the active variables only sums weight times value (so constants integrate to the constant times the total weight).',
  ['inputs', 'programs'], 'all outputs and index vectors, all functions, all rules with any number of nodes, any NMC >= 1, bounded and unbounded maps',
  'Tests integrate a few functions with loose tolerances or compare shapes; pairing of weights with groups is invisible for equal weights or smooth functions.',
  [A+'integrals.py', U+'misc.py'], [('integrate', A+'integrals.py:integrate'), ('av_integrate', A+'integrals.py:av_integrate'), ('quadrature_rule', A+'integrals.py:quadrature_rule'), ('conditional_expectations', U+'misc.py:conditional_expectations')],
  ['return values of integrate, av_integrate, quadrature_rule, conditional_expectations'])
p('P13', 'Gauss-Hermite and Gauss-Legendre rules have full polynomial exactness',
  'The one-dimensional N-point rules integrate every polynomial of degree up to 2N-1 exactly against the standard normal density and the uniform density on [-1,1]; their recurrence coefficients are those of the orthogonal polynomials (general Jacobi weights and intervals included) and their Jacobi matrix is the symmetric tridiagonal matrix of these coefficients, whose eigenvalues are the increasing nodes and whose squared first eigenvector components are the weights (nonnegative, sum 1). '
  'The multi-dimensional rules are full tensor products: N_1*...*N_d rows, row r pairing the nodes of the mixed-radix digits of r (last dimension fastest) with the product of their weights.',
  ['inputs'], 'all numbers of points N >= 1, all dimensions and mixed orders, all admissible Jacobi parameters and intervals',
  'Tests compare one or two tabulated rules; other orders, mixed orders and intervals are not seen.',
  [U+'quadrature.py'], [('r_hermite', U+'quadrature.py:r_hermite'), ('r_jacobi', U+'quadrature.py:r_jacobi'), ('jacobi_matrix', U+'quadrature.py:jacobi_matrix'), ('g1d', U+'quadrature.py:g1d'), ('gauss_hermite', U+'quadrature.py:gauss_hermite'), ('gauss_legendre', U+'quadrature.py:gauss_legendre')],
  ['return values of the quadrature routines'])
p('P14', 'Active-variable quadrature rules are probability weights on their cells',
  'On an interval domain the N nodes are the midpoints of N equal cells and each weight is the fraction of the projected uniform samples that fall into that cell, so weights are nonnegative and sum to one; on a zonotope the nodes are the centroids of the simplices of a triangulation of vertices and design points, and each weight is the fraction of the samples found in that simplex, so weights are nonnegative and sum to at most one. '
  'On an unbounded domain the rule is the tensor Gauss-Hermite rule with k points per dimension, k the largest integer with k^n <= N.',
  ['inputs', 'histories'], 'all domains, all N >= 1, all dimensions n, all random draws',
  'Tests look at shapes for one seeded domain; off-by-one cells, rounding in the n-th root and misassigned weights keep the shapes.',
  [A+'integrals.py', U+'quadrature.py'], [('interval_quadrature_rule', A+'integrals.py:interval_quadrature_rule'), ('zonotope_quadrature_rule', A+'integrals.py:zonotope_quadrature_rule'), ('av_quadrature_rule', A+'integrals.py:av_quadrature_rule'), ('points_per_dimension', U+'quadrature.py:points_per_dimension')],
  ['return values of the quadrature rules'])
p('P15', 'Polynomial surfaces: complete basis, exact reproduction, exact gradients',
  'The order-N basis in m variables consists of every monomial of total degree at most N exactly once (comb(N+m,m) of them, constant first, then x_1..x_m), the basis gradient is its exact partial derivative, and predicted gradients are the derivative of the predictions. '
  'Training on data from a polynomial of degree at most N with enough samples in general position (any positive weights) reproduces it everywhere, with linear coefficients g, Hessian H (symmetric, for order >= 2) and R-squared 1; with fewer than comb(N+m,m) samples training is refused.',
  ['inputs'], 'all orders N >= 1 and dimensions m >= 1, all polynomials, sample sets in general position and evaluation points, including zero coordinates',
  'Tests train order-2 surfaces on one data set in one or two dimensions with a tolerance and compare shapes of gradients.',
  [U+'response_surfaces.py'], [('PolynomialApproximation.train', U+'response_surfaces.py:PolynomialApproximation.train'), ('PolynomialApproximation.predict', U+'response_surfaces.py:PolynomialApproximation.predict'), ('polynomial_bases', U+'response_surfaces.py:polynomial_bases'), ('grad_polynomial_bases', U+'response_surfaces.py:grad_polynomial_bases'), ('index_set', U+'response_surfaces.py:index_set')],
  ['predict, gradient, g, H, poly_weights, Rsqr'])
p('P16', 'Radial basis surfaces solve the kriging system and differentiate right',
  'After training, the weights solve the symmetric saddle-point system: (kernel + noise) times radial weights plus basis times polynomial weights equals the data, and the radial weights are orthogonal to the polynomial basis; the noise variance is at least 1e-6 and at least the given one, the kernel is exp(-sum_k (x_k - y_k)^2 / ell_k), symmetric with unit diagonal. '
  'Predictions are kernel to the training points times radial weights plus basis times polynomial weights (so predictions at training points deviate from the data by exactly noise times radial weight and polynomials of degree at most N are reproduced), and predicted gradients are the exact derivative of the predictions.',
  ['inputs'], 'all training sets with at least comb(N+m,m) samples in general position, optional noise and eigenvalues, any scale parameter the tuning selects, all evaluation points',
  'Tests train on one data set and check shapes; tuning is a black box and gradients are compared at few points.',
  [U+'response_surfaces.py'], [('RadialBasisApproximation.train', U+'response_surfaces.py:RadialBasisApproximation.train'), ('RadialBasisApproximation.predict', U+'response_surfaces.py:RadialBasisApproximation.predict'), ('exponential_squared', U+'response_surfaces.py:exponential_squared'), ('grad_exponential_squared', U+'response_surfaces.py:grad_exponential_squared')],
  ['predict, gradient, K, ell, radial_weights, poly_weights'])
p('P17', 'Active-subspace surfaces use active variables only, with the chain rule',
  'Prediction at x equals the underlying surface at W1^T x (hence is invariant along inactive directions) and its gradient is W1 times the active-variable gradient. '
  'Training with data fits the surface to pairs (W1^T x_i, f_i) in order; training with an interface evaluates the function once at each of the NMC points generated per design point (plus once per vertex of a bounded domain) and fits the surface to pairs (design point or vertex, mean of its own evaluations) with the variance of its own evaluations as noise.',
  ['inputs', 'programs', 'histories'], 'all maps (bounded and unbounded, any n), surfaces, functions, N, NMC and random draws',
  'Tests check shapes of predictions for one map; pairing of designs, vertices and averages is not observed.',
  [A+'response_surfaces.py', U+'misc.py'], [('ActiveSubspaceResponseSurface', A+'response_surfaces.py:ActiveSubspaceResponseSurface'), ('av_design', A+'response_surfaces.py:av_design')],
  ['predict, gradient, data passed to the surface'])
p('P18', 'Minimisers stay in the active domain and report their own best value',
  'Minimising over an interval or zonotope returns one active point inside the domain, over an unbounded domain one active point of dimension n, together with the value of the given function at that point. '
  'With multiple starting points the reported value is the smallest over all restarts and the reported point belongs to it, and if a local solver reports failure the call raises instead of returning; on a failure or success the result never mixes two restarts.',
  ['inputs', 'programs'], 'all active functions with or without gradient for which the local solver terminates, all domains',
  'Tests minimise one quadratic surface and check shapes.',
  [A+'optimizers.py'], [('av_minimize', A+'optimizers.py:av_minimize'), ('interval_minimize', A+'optimizers.py:interval_minimize'), ('zonotope_minimize', A+'optimizers.py:zonotope_minimize'), ('unbounded_minimize', A+'optimizers.py:unbounded_minimize'), ('minimize', A+'optimizers.py:minimize')],
  ['return values of the minimisers'])
p('P19', 'Minimising maps choose inactive variables that minimise the quadratic model',
  'The minimising maps fit a full quadratic to the data on the leading p eigenvector coordinates (p = n+2 if m-n > 2, else n+1), with gradient b and Hessian A at the origin, and for each active point y return exactly one full-space point whose active coordinates are y and whose inactive coordinates z minimise (b + A W1 y)^T W2 z + z^T (W2^T A W2 + 0.01 I) z / 2. '
  'The minimisation is over all z in the unbounded case and over the z with -1 <= W1 y + W2 z <= 1 in the bounded case, and N different from 1 is refused there.',
  ['inputs'], 'all data sets whose regularised inactive Hessian is positive definite, all bases with n < m, all feasible y',
  'Tests check that an answer of the right shape comes back.',
  [A+'optimizers.py', U+'qp_solver.py', A+'domains.py'], [('MinVariableMap.train', A+'optimizers.py:MinVariableMap.train'), ('BoundedMinVariableMap.regularize_z', A+'optimizers.py:BoundedMinVariableMap.regularize_z'), ('UnboundedMinVariableMap.regularize_z', A+'optimizers.py:UnboundedMinVariableMap.regularize_z')],
  ['inverse of the minimising maps'])
p('P20', 'Both solver back ends pose the documented linear and quadratic programs',
  'With either back end the four solvers minimise c^T x subject to A x = b and lb <= x <= ub, c^T x subject to A x >= b with x free, c^T x + x^T Q x (Q symmetric) subject to lb <= x <= ub, and c^T x + x^T Q x subject to A x >= b with x free, and return the optimal x as an n-by-1 array. '
  'If the underlying solver does not report an optimum the call raises; a request for an unavailable back end falls back to the available one.',
  ['inputs', 'configurations'], 'all problem data of any size, both back ends, all solver outcomes',
  'The commercial back end is not installed, so half of this code never runs in the tests; the other half runs on one or two problems.',
  [U+'qp_solver.py'], [('QPSolver', U+'qp_solver.py:QPSolver'), ('_scipy_*', U+'qp_solver.py:_scipy_linear_program_eq'), ('_gurobi_*', U+'qp_solver.py:_gurobi_linear_program_eq')],
  ['the program given to the underlying solver', 'return values of QPSolver methods'])
p('P21', 'Simulation runners call the model once per row, in order, and keep every result',
  'For every black-box model and M-by-m input matrix a simulation runner calls the model exactly M times, the i-th call with row i as a 1-by-m array, and returns the M-by-1 array of results in row order; a gradient runner does the same with M-by-m gradients. '
  'A non-callable model and inputs that are not two-dimensional are refused, and an exception of the model reaches the caller.',
  ['inputs', 'programs', 'histories'], 'all models (stateful ones included), all M >= 0 and m >= 1',
  'Tests run pure functions on one matrix, for which repeated or reordered calls are invisible.',
  [U+'simrunners.py'], [('SimulationRunner.run', U+'simrunners.py:SimulationRunner.run'), ('SimulationGradientRunner.run', U+'simrunners.py:SimulationGradientRunner.run')],
  ['run return values', 'the sequence of model calls'])
p('P22', 'Designs lie inside their domain and the maximin objective has its true gradient',
  'The interval design consists of the N interior equispaced points a + (b-a) k/(N+1), k = 1..N, the Gauss-Hermite design of the tensor quadrature nodes, and the maximin design of N points inside the polytope of the given vertices, with the random generator state restored on return. '
  'The maximin objective is minus the smallest squared distance among design points and between design points and vertices, and the gradient supplied to the optimiser is its derivative wherever the closest pair is unique.',
  ['inputs'], 'all intervals, N >= 1, all polytopes (symmetric or not), all design configurations',
  'Tests check shapes; the gradient is never compared with the objective and non-symmetric polytopes are not used.',
  [U+'designs.py'], [('interval_design', U+'designs.py:interval_design'), ('maximin_design', U+'designs.py:maximin_design'), ('_maximin_design_obj', U+'designs.py:_maximin_design_obj'), ('_maximin_design_grad', U+'designs.py:_maximin_design_grad'), ('gauss_hermite_design', U+'designs.py:gauss_hermite_design')],
  ['return values of the design routines'])
p('P23', 'The bundled models return the exact gradient of the function they compute',
  'For every bundled test model (borehole, OTL circuit, piston, robot arm, wing weight) the gradient routine returns, for every matrix of normalized inputs, row by row the exact partial derivatives with respect to the normalized inputs of the value the model routine returns for that row. '
  'The j-th column corresponds to the j-th input.',
  ['inputs'], 'all inputs in the normalized domain [-1,1]^m, any number of rows',
  'No test covers the bundled models; a wrong derivative changes a figure, not an exit code.',
  ['tutorials/test_functions/borehole/borehole_functions.py', 'tutorials/test_functions/otl_circuit/otlcircuit_functions.py', 'tutorials/test_functions/piston/piston_functions.py', 'tutorials/test_functions/robot/robot_functions.py', 'tutorials/test_functions/wing_weight/wing_functions.py'],
  [('model and gradient functions', 'tutorials/test_functions')], ['return values of the model and gradient functions'])
p('P24', 'Computations never modify the caller\'s arrays or the random generator covertly',
  'No estimator, map, sampler, surface, quadrature, design, optimiser or runner changes an array that the caller passed in, directly or through a view of it it keeps, and results that are returned are not altered by later calls. '
  'Routines that need reproducible internal randomness (the multi-start optimisers and the maximin design) leave the global random generator exactly in the state in which they found it when they succeed.',
  ['inputs', 'histories'], 'all public routines, all argument values, all sequences of calls on the same data',
  'Tests never compare an argument with a copy of itself after the call, nor the generator state.',
  [A+'subspaces.py', A+'gradients.py', A+'domains.py', A+'integrals.py', A+'optimizers.py', A+'response_surfaces.py', U+'misc.py', U+'response_surfaces.py', U+'designs.py', U+'quadrature.py', U+'qp_solver.py', U+'simrunners.py'],
  [('copies on write', A+'subspaces.py:_bootstrap_replicate'), ('get_state/set_state', U+'designs.py:maximin_design'), ('get_state/set_state', A+'optimizers.py:zonotope_minimize')],
  ['arguments and numpy.random state after each call'])
p('P25', 'Malformed arguments are refused before any computation',
  'Inputs that are not two-dimensional raise ValueError, and outputs that are not one column, or not one row per input row, raise an exception: inputs in every gradient or subspace estimator, surface, runner, normalizer and map, outputs in every subspace estimator, surface, minimising map and optimiser that takes them. '
  'Non-integer point counts, objects of the wrong class, uncomputed subspaces, unknown estimator or partition names and missing data raise an exception instead of returning a result, while every well-formed call is accepted.',
  ['inputs'], 'all argument shapes and types at every public entry point that documents them',
  'Tests check a few of the entry points with one bad argument each.',
  [U+'misc.py', A+'subspaces.py', A+'domains.py', A+'integrals.py', A+'response_surfaces.py', U+'simrunners.py', U+'quadrature.py'],
  [('process_inputs', U+'misc.py:process_inputs'), ('process_inputs_outputs', U+'misc.py:process_inputs_outputs')], ['exceptions raised by public calls'])
with open('/verif/properties.jsonl', 'w') as f:
    for q in P:
        f.write(json.dumps(q) + '\n')
print(len(P))
