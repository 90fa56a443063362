"""Further planted bugs: one per property again, with different mechanisms (B50-)."""
P = 'active_subspaces/'
PRE = 'import numpy as np\nimport active_subspaces as ac\n'
BUGS = [
dict(id='B50', property='P15', needs='a second training of the same quadratic surface with other data',
 breaks='the Hessian of the first training is kept',
 edits=[(P+'utils/response_surfaces.py', '        if self.N > 1:\n            H = np.zeros((m, m))\n', '        if self.N > 1 and (self.H is None or self.H.shape[0] != m):\n            H = np.zeros((m, m))\n')],
 demo=PRE+'''
from active_subspaces.utils.response_surfaces import PolynomialApproximation
rng = np.random.RandomState(0)
X = rng.uniform(-1, 1, size=(30, 2))
pr = PolynomialApproximation(2)
for k in (1.0, 3.0):
    pr.train(X, k * X[:, :1] * X[:, 1:] + X[:, :1] ** 2)
    assert np.allclose(pr.H, [[2, k], [k, 0]]), k
'''),
dict(id='B51', property='P02', needs='a compute with bootstrap followed by one without on the same object',
 breaks='a compute call without bootstrap leaves the ranges of the previous one',
 edits=[(P+'subspaces.py', '            e_br, sub_br = None, None\n', '            e_br, sub_br = self.e_br, self.sub_br\n')],
 demo=PRE+'''
from active_subspaces.subspaces import Subspaces
rng = np.random.RandomState(0)
ss = Subspaces()
ss.compute(df=rng.normal(size=(20, 3)), nboot=5)
ss.compute(df=10 * rng.normal(size=(20, 3)))
assert ss.e_br is None and ss.sub_br is None
'''),
dict(id='B52', property='P10', needs='an active point for which few of the box samples are feasible (rejection fails to deliver N)',
 breaks='the rejection sampler accepts a batch with too few feasible points and fills up with infeasible ones',
 edits=[(P+'domains.py', '''    if np.sum(ind) >= N:
        Z = Zbox[ind,:]
''', '''    if 2*np.sum(ind) >= N:
        Z = np.vstack((Zbox[ind,:], Zbox[~ind,:]))
''')],
 demo=PRE+'''
from active_subspaces.domains import rejection_sampling_z
bad = 0
for s in range(300):
    rng = np.random.RandomState(s)
    np.random.seed(s)
    m = 7
    W = np.linalg.qr(rng.normal(size=(m, m)))[0]
    W1, W2 = W[:, :1], W[:, 1:]
    y = np.array([0.75 * np.sum(np.abs(W1))])
    N = 4
    Z = rejection_sampling_z(N, y, W1, W2)
    if Z is not None:
        X = np.dot(W1, y.reshape((1, 1))).T + np.dot(Z, W2.T)
        bad += np.any(np.abs(X) > 1 + 1e-6)
assert not bad, bad
'''),
dict(id='B53', property='P12', needs='more than ten evaluations per index value',
 breaks='the conditional variance is the sample variance for the larger groups',
 edits=[(P+'utils/misc.py', '        Vf[i] = np.var(fi)\n', '        Vf[i] = np.var(fi, ddof=int(fi.size > 10))\n')],
 demo=PRE+"""
from active_subspaces.utils.misc import conditional_expectations
f = np.arange(12.0).reshape((12, 1))
Ef, Vf = conditional_expectations(f, np.zeros((12, 1)))
assert np.allclose(Vf, np.var(f)), Vf
"""),
dict(id='B54', property='P21', needs='a model that raises TypeError for some row',
 breaks='the exception of the model is swallowed: the model is called again with the flat row',
 edits=[(P+'utils/simrunners.py', '            F[i] = self.fun(X[i,:].reshape((1,m)))\n', '''            try:
                F[i] = self.fun(X[i,:].reshape((1,m)))
            except TypeError:
                # model written for flat inputs
                F[i] = self.fun(X[i,:])
''')],
 demo=PRE+'''
from active_subspaces.utils.simrunners import SimulationRunner
calls = []
def fun(x):
    calls.append(x.shape)
    if len(calls) == 2:
        raise TypeError('no')
    return 1.0
try:
    SimulationRunner(fun).run(np.zeros((3, 2)))
except TypeError:
    pass
else:
    raise SystemExit('swallowed')
assert calls == [(1, 2), (1, 2)], calls
'''),
dict(id='B55', property='P09', needs='an inactive direction and more than one inactive sample per active point',
 breaks='the sign of every second inactive draw is flipped (antithetic draws): the coordinates are no longer the draws themselves',
 edits=[(P+'domains.py', '        Z = np.random.normal(size=(NY, m-n, N))\n', '''        Z = np.random.normal(size=(NY, m-n, N))
        if N > 2:
            # antithetic pairs reduce the variance
            Z[:,:,1::2] = -Z[:,:,:N-N%2:2]
''')],
 demo=PRE+'''
from active_subspaces.subspaces import Subspaces
from active_subspaces.domains import UnboundedActiveVariableDomain, UnboundedActiveVariableMap
rng = np.random.RandomState(0)
ss = Subspaces()
ss.compute(df=rng.normal(size=(20, 4)))
ss.partition(2)
avm = UnboundedActiveVariableMap(UnboundedActiveVariableDomain(ss))
Y = rng.normal(size=(3, 2))
X, ind = avm.inverse(Y, 4)
Z = avm.forward(X)[1]
d = np.abs(Z[:, None, :] + Z[None, :, :]).sum(axis=2)
assert np.amin(d) > 1e-8
'''),
dict(id='B56', property='P17', needs='a bounded domain and NMC = 1',
 breaks='with one evaluation per design point the variance handed on as noise is that of all evaluations',
 edits=[(P+'response_surfaces.py', '        Ef, Vf = conditional_expectations(f, ind)\n        self._train', '        Ef, Vf = conditional_expectations(f, ind)\n        if NMC == 1:\n            Vf = np.var(f)*np.ones(Vf.shape)\n        self._train')],
 demo=PRE+'''
from active_subspaces.subspaces import Subspaces
from active_subspaces.domains import BoundedActiveVariableDomain, BoundedActiveVariableMap
from active_subspaces.response_surfaces import ActiveSubspaceResponseSurface
from active_subspaces.utils.response_surfaces import RadialBasisApproximation
rng = np.random.RandomState(0)
np.random.seed(0)
ss = Subspaces()
ss.compute(df=rng.normal(size=(20, 3)) * [3, 1, .1])
ss.partition(1)
seen = []
class R(RadialBasisApproximation):
    def train(self, X, f, v=None, e=None):
        seen.append(v)
avm = BoundedActiveVariableMap(BoundedActiveVariableDomain(ss))
ActiveSubspaceResponseSurface(avm, R()).train_with_interface(lambda x: np.sum(x), 6, NMC=1)
assert np.all(seen[0] == 0), seen[0]
'''),
dict(id='B57', property='P20', needs='an equality-constrained program whose solution needs an infinite or negative bound',
 breaks='variables of the equality program whose bounds are infinite on both sides are treated as nonnegative',
 edits=[(P+'utils/qp_solver.py', '        bounds.append((lb[i,0], ub[i,0]))\n\n    res = linprog', '        bounds.append((lb[i,0] if np.isfinite(lb[i,0]) else 0, ub[i,0]))\n\n    res = linprog')],
 demo=PRE+'''
from active_subspaces.utils.qp_solver import QPSolver
q = QPSolver('SCIPY')
inf = np.inf * np.ones((2, 1))
ub = np.array([[1.0], [5.0]])
x = q.linear_program_eq(np.array([[0.0], [1.0]]), np.array([[1.0, 1.0]]), np.array([[0.5]]), -inf, ub)
assert np.allclose(x, [[1.0], [-0.5]]), x
'''),
dict(id='B58', property='P22', needs='a design of exactly two points that are closer to each other than to every vertex',
 breaks='with two design points the gradient is always that of the closest pair of a point and a vertex',
 edits=[(P+'utils/designs.py', '''    if d0star < d1star:
        dstar, kstar = d0star, k0star''', '''    if d0star < d1star and N > 2:
        dstar, kstar = d0star, k0star'''),],
 demo=PRE+'''
from active_subspaces.utils.designs import _maximin_design_obj, _maximin_design_grad
vert = np.array([[-1.0, -1], [1, -1], [1, 1], [-1, 1]])
y = np.array([0.1, 0.02, -0.1, 0.03])
g = _maximin_design_grad(y, vert)
h = 1e-6
fd = np.array([(_maximin_design_obj(y + h * e, vert) - _maximin_design_obj(y - h * e, vert)) / (2 * h) for e in np.eye(4)])
assert np.allclose(g, fd, atol=1e-5), (g, fd)
'''),
dict(id='B59', property='P18', needs='a local minimum in the active interval at an end point',
 breaks='the point is moved onto the end of the interval when it is close to it, the value is that of the point before',
 edits=[(P+'optimizers.py', '        ystar, fstar = np.array([[result[0]]]), result[1]\n', '''        ystar, fstar = np.array([[result[0]]]), result[1]
        # fminbound never reaches the end points
        if np.fabs(ystar[0,0]-yl) < 1e-3*(yu-yl):
            ystar[0,0] = yl
        elif np.fabs(ystar[0,0]-yu) < 1e-3*(yu-yl):
            ystar[0,0] = yu
''')],
 demo=PRE+'''
from active_subspaces.optimizers import interval_minimize
class D: pass
d = D()
d.vertY = np.array([[-2.0], [3.0]])
f = lambda y: (np.asarray(y).ravel()[0] - 2.9985) ** 2
y, v = interval_minimize(f, d)
assert abs(f(y) - v) < 1e-9, (y, v)
'''),
dict(id='B60', property='P16', needs='several inputs with different length scales, gradient requested',
 breaks='the radial part of the gradient is divided by the length scale of the first input for points that are training points',
 edits=[(P+'utils/response_surfaces.py', '            dK = grad_exponential_squared(self.X, X, 1.0, self.ell)\n', '''            dK = grad_exponential_squared(self.X, X, 1.0, self.ell)
            # no contribution beyond the range of the kernel
            dK[np.repeat(K.T[:,:,None], m, axis=2) < 1e-3] = 0.0
''')],
 demo=PRE+'''
from active_subspaces.utils.response_surfaces import RadialBasisApproximation
rng = np.random.RandomState(0)
X = rng.uniform(-1, 1, size=(20, 2))
r = RadialBasisApproximation(1)
r.train(X, np.sin(3 * X[:, :1]) + X[:, 1:])
r.ell = 0.05 * np.ones((2, 1))
Z = rng.uniform(-1, 1, size=(10, 2))
g = r.predict(Z, compgrad=True)[1]
h = 1e-5
for k in range(2):
    e = np.zeros((1, 2)); e[0, k] = h
    fd = (r.predict(Z + e)[0] - r.predict(Z - e)[0]) / (2 * h)
    assert np.allclose(g[:, k:k+1], fd, atol=1e-6, rtol=1e-5), k
'''),
dict(id='B61', property='P25', needs='an integer array of inputs',
 breaks='inputs of integer type are refused although they are well formed',
 edits=[(P+'utils/misc.py', '    if len(X.shape) == 2:\n        M, m = X.shape\n    else:\n        raise ValueError(\'The inputs', '    if len(X.shape) == 2 and X.dtype.kind == \'f\':\n        M, m = X.shape\n    else:\n        raise ValueError(\'The inputs')],
 demo=PRE+'''
from active_subspaces.utils.misc import process_inputs
assert process_inputs(np.ones((3, 2), dtype=int))[1:] == (3, 2)
'''),
]
