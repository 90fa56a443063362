"""Further planted bugs (B62-)."""
P = 'active_subspaces/'
PRE = 'import numpy as np\nimport active_subspaces as ac\n'
BUGS = [
dict(id='B62', property='P05', needs='four or more dimensions (below, one factor of the product has one row or column)',
 breaks='the Frobenius norm is used for the subspace error instead of the spectral norm: it may exceed 1',
 edits=[(P+'subspaces.py', 'W0[:,j+1:]), ord=2)', "W0[:,j+1:]), ord='fro')")],
 demo=PRE+'''
import active_subspaces.subspaces as ss
rng = np.random.RandomState(1); np.random.seed(1)
df = rng.normal(size=(12, 6)); w = np.ones((12, 1)) / 12
e, W = ss.active_subspace(df, w)
br = ss._bootstrap_ranges(e, W, None, None, df, w, lambda X, f, df, w: ss.active_subspace(df, w), 20)[1]
assert np.amax(br) <= 1 + 1e-9, np.amax(br)
'''),
dict(id='B63', property='P07', needs='few samples, so that M-1 is the smaller of the two counts',
 breaks='one gradient too many is estimated for small samples',
 edits=[(P+'gradients.py', 'MM = np.minimum(int(np.ceil(10*m*np.log(m))), M-1)', 'MM = np.minimum(int(np.ceil(10*m*np.log(m))), M)')],
 demo=PRE+'''
from active_subspaces.gradients import local_linear_gradients
X = np.random.RandomState(0).normal(size=(9, 3))
assert local_linear_gradients(X, X[:, :1]).shape == (8, 3)
'''),
dict(id='B64', property='P08', needs='a covariance with correlated variables',
 breaks='unnormalize multiplies with the untransposed factor: no inverse of normalize for correlated variables',
 edits=[(P+'utils/misc.py', 'X0 = np.dot(X,self.L.T)', 'X0 = np.dot(X,self.L)')],
 demo=PRE+'''
from active_subspaces.utils.misc import UnboundedNormalizer
u = UnboundedNormalizer(np.array([1.0, 2.0]), np.array([[2.0, 1.0], [1.0, 3.0]]))
X = np.random.RandomState(0).normal(size=(5, 2))
assert np.allclose(u.unnormalize(u.normalize(X)), X)
'''),
dict(id='B65', property='P01', needs='weights whose sum is not one',
 breaks='the weights are normalised, so the matrix is the weighted mean instead of the weighted sum',
 edits=[(P+'subspaces.py', '    C = np.dot(df.transpose(), df * weights)\n', '    C = np.dot(df.transpose(), df * (weights / np.sum(weights)))\n')],
 demo=PRE+'''
from active_subspaces.subspaces import active_subspace
df = np.random.RandomState(0).normal(size=(10, 3)); w = np.ones((10, 1))
e, W = active_subspace(df, w)
assert np.allclose(W.dot(np.diag(e[:, 0])).dot(W.T), df.T.dot(df))
'''),
dict(id='B66', property='P11', needs='the constraint function evaluated close to the boundary of a zonotope',
 breaks='the faces are computed from rounded vertices: the constraint is off by up to half a percent',
 edits=[(P+'domains.py', 'convhull = ConvexHull(Y)\n            A', 'convhull = ConvexHull(np.round(Y, 2))\n            A')],
 demo=PRE+'''
from active_subspaces.subspaces import Subspaces
from active_subspaces.domains import BoundedActiveVariableDomain
np.random.seed(0); rng = np.random.RandomState(0)
s = Subspaces()
s.compute(df=rng.normal(size=(20, 4)))
s.partition(2)
d = BoundedActiveVariableDomain(s)
for v in d.vertY:
    assert np.amin(d.constraints['fun'](v)) > -1e-9 and abs(np.amin(d.constraints['fun'](v))) < 1e-9
'''),
dict(id='B67', property='P14', needs='samples outside the triangulation (vertices missing or on the boundary)',
 breaks='samples found in no simplex are counted for the last one',
 edits=[(P+'integrals.py', '    I = T.find_simplex(Y_samples)\n', '    I = T.find_simplex(Y_samples)\n    I[I < 0] = T.nsimplex - 1\n')],
 demo=PRE+'''
import active_subspaces.integrals as ig
from active_subspaces.subspaces import Subspaces
from active_subspaces.domains import BoundedActiveVariableDomain, BoundedActiveVariableMap
np.random.seed(0); rng = np.random.RandomState(0)
s = Subspaces()
s.compute(df=rng.normal(size=(20, 4)))
s.partition(2)
d = BoundedActiveVariableDomain(s)
d.vertY = 0.5 * d.vertY
w = ig.zonotope_quadrature_rule(BoundedActiveVariableMap(d), 3)[1]
assert np.sum(w) < 0.9, np.sum(w)
'''),
dict(id='B68', property='P19', needs='several active points in one call of the bounded minimising map',
 breaks='the linear term of the programs is that of the first active point',
 edits=[(P+'optimizers.py', '''        A_ineq = np.vstack((W2, -W2))
        for y in Y:
            c = self._bz.reshape((m-n, 1)) + np.dot(self._zAy, y).reshape((m-n, 1))
''', '''        A_ineq = np.vstack((W2, -W2))
        c = self._bz.reshape((m-n, 1)) + np.dot(self._zAy, Y[0]).reshape((m-n, 1))
        for y in Y:
''')],
 demo=PRE+'''
from active_subspaces.subspaces import Subspaces
from active_subspaces.domains import BoundedActiveVariableDomain
from active_subspaces.optimizers import BoundedMinVariableMap
rng = np.random.RandomState(0); np.random.seed(0)
X = rng.uniform(-1, 1, size=(60, 3))
s = Subspaces()
B = rng.normal(size=(3, 3)); A = B.dot(B.T)
s.compute(df=X.dot(A))
s.partition(1)
mv = BoundedMinVariableMap(BoundedActiveVariableDomain(s))
mv.train(X, np.sum(X.dot(A) * X, axis=1).reshape((-1, 1)) + X.dot(rng.normal(size=(3, 1))))
Y = np.array([[-0.4], [0.0], [0.5]])
Z = mv.inverse(Y)[0]
for i in range(3):
    assert np.allclose(Z[i], mv.inverse(Y[i:i+1])[0], atol=1e-4), i
'''),
dict(id='B69', property='P04', needs='the largest gap is the last one (m > 2)',
 breaks='the last gap is never chosen by the gap rule',
 edits=[(P+'subspaces.py', '    n = np.argmax(ediff) + 1\n', '    n = np.argmax(ediff[:-1] if ediff.size > 3 else ediff) + 1\n')],
 demo=PRE+'''
from active_subspaces.subspaces import eig_partition
assert eig_partition(np.array([[9.0], [8.9], [8.8], [8.7], [1.0]]))[0] == 4
'''),
dict(id='B70', property='P24', needs='tiny eigenvalues and the error-bound rule',
 breaks='the eigenvalues of the caller are thresholded in place',
 edits=[(P+'subspaces.py', '    errbnd = np.zeros((m-1, 1))\n', '    e[e < 1e-12] = 0.0\n    errbnd = np.zeros((m-1, 1))\n')],
 demo=PRE+'''
from active_subspaces.subspaces import errbnd_partition
e = np.array([[1.0], [0.1], [1e-14]]); k = e.copy()
errbnd_partition(e, np.array([[0.1], [0.2]]))
assert np.array_equal(e, k)
'''),
dict(id='B71', property='P20', needs='the Gurobi back end and a quadratic form with off-diagonal entries',
 breaks='only one triangle of the quadratic form is passed to the solver',
 edits=[(P+'utils/qp_solver.py', '''ub=ub[j,0], vtype=gpy.GRB.CONTINUOUS))
    model.update()

    # Populate objective
    obj = gpy.QuadExpr()
    for i in range(n):
        for j in range(n):
''', '''ub=ub[j,0], vtype=gpy.GRB.CONTINUOUS))
    model.update()

    # Populate objective
    obj = gpy.QuadExpr()
    for i in range(n):
        for j in range(i, n):
''')],
 demo='''
import sys, types
import numpy as np
class E(object):
    """a quadratic expression: coefficients of sorted variable pairs / variables"""
    def __init__(self, t=None): self.t = dict(t or {})
    def __add__(self, o):
        t = dict(self.t)
        for k, v in o.t.items(): t[k] = t.get(k, 0) + v
        return E(t)
    __iadd__ = __add__
    def __mul__(self, o):
        if isinstance(o, E):
            return E(dict((tuple(sorted(a + b)), x * y) for a, x in self.t.items() for b, y in o.t.items()))
        return E(dict((k, float(o) * v) for k, v in self.t.items()))
    __rmul__ = __mul__
    __array_priority__ = 100
last = []
class Model(object):
    status = 2
    def __init__(self): self.n = 0
    def setParam(self, *a): pass
    def update(self): pass
    def addVar(self, **k):
        self.n += 1
        return E({(self.n - 1,): 1.0})
    def setObjective(self, o, *a): last.append(o)
    def optimize(self): pass
    def getAttr(self, nm, vars): return [0.0] * len(vars)
g = types.ModuleType('gurobipy')
g.Model, g.LinExpr, g.QuadExpr = Model, E, E
g.GRB = types.SimpleNamespace(OPTIMAL=2, CONTINUOUS='C', EQUAL='=', GREATER_EQUAL='>', LESS_EQUAL='<', INFINITY=1e100, MINIMIZE=1)
sys.modules['gurobipy'] = g
import active_subspaces as ac
from active_subspaces.utils import qp_solver as q
Q = np.array([[2.0, 1.0], [1.0, 3.0]]); c = np.array([[1.0], [-1.0]])
q.QPSolver('GUROBI').quadratic_program_bnd(c, Q, -np.ones((2, 1)), np.ones((2, 1)))
assert abs(last[-1].t.get((0, 1), 0) - 2.0) < 1e-12, last[-1].t
'''),
dict(id='B72', property='P21', needs='a model that returns NaN for some row',
 breaks='results that are not a number are replaced by zero',
 edits=[(P+'utils/simrunners.py', '            F[i] = self.fun(X[i,:].reshape((1,m)))\n', '            F[i] = self.fun(X[i,:].reshape((1,m)))\n\n        # failed simulations do not count\n        F[np.isnan(F)] = 0.0\n')],
 demo=PRE+'''
from active_subspaces.utils.simrunners import SimulationRunner
F = SimulationRunner(lambda x: np.nan if x[0, 0] > 0 else 1.0).run(np.array([[-1.0], [1.0]]))
assert F[0, 0] == 1 and np.isnan(F[1, 0])
'''),
dict(id='B73', property='P03', needs='data weights that are not all equal, for the global linear estimator with noise-free affine data of large offset',
 breaks='the intercept column is not weighted: exact only for equal weights or zero offset',
 edits=[(P+'subspaces.py', '    A = np.hstack((np.ones((M, 1)), X)) * np.sqrt(weights)\n    b', '    A = np.hstack((np.ones((M, 1)), X * np.sqrt(weights)))\n    b')],
 demo=PRE+'''
from active_subspaces.subspaces import ols_subspace
rng = np.random.RandomState(0)
X = rng.normal(size=(30, 2)); w = rng.uniform(0.5, 2, size=(30, 1))
e, W = ols_subspace(X, X.dot([[3.0], [4.0]]) + 10, w)
assert np.allclose(e[0], 25)
'''),
]
