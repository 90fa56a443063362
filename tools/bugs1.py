P = 'active_subspaces/'
PRE = 'import numpy as np\nimport active_subspaces as ac\n'
BUGS = [
dict(id='B01', property='P01', needs='an eigenvector whose first component is exactly zero (an input the function does not depend on, listed first)',
 breaks='the sign normalisation multiplies that eigenvector by zero, so the eigenvector matrix is no longer orthonormal',
 edits=[(P+'subspaces.py', '    s[s==0] = 1\n', '')],
 demo=PRE+'''
from active_subspaces.subspaces import active_subspace
rng = np.random.RandomState(0)
df = np.hstack((np.zeros((20, 1)), rng.normal(size=(20, 3))))
e, W = active_subspace(df, np.ones((20, 1))/20)
assert np.allclose(W.T.dot(W), np.eye(4)), W.T.dot(W)
'''),
dict(id='B02', property='P02', needs='partition called with exactly m+1 after a compute',
 breaks='a dimension outside 1..m is accepted: the bases are W and an empty matrix with the wrong recorded split',
 edits=[(P+'subspaces.py', 'if n<1 or n>m:', 'if n<1 or n>m+1:')],
 demo=PRE+'''
from active_subspaces.subspaces import Subspaces
rng = np.random.RandomState(0)
s = Subspaces(); s.compute(df=rng.normal(size=(20, 3)))
try:
    s.partition(4)
except ValueError:
    pass
else:
    raise AssertionError('partition(m+1) accepted')
'''),
dict(id='B05', property='P05', needs='a bootstrap with weights that are not all equal',
 breaks='the weights of a bootstrap replicate are no longer those of the resampled rows',
 edits=[(P+'subspaces.py', 'weights0 = weights[ind,:].copy()', 'weights0 = weights[np.sort(ind),:].copy()')],
 demo=PRE+'''
from active_subspaces.subspaces import _bootstrap_replicate
rng = np.random.RandomState(0)
X = np.arange(20.).reshape((10, 2)); w = np.arange(1., 11.).reshape((10, 1))
np.random.seed(3)
X0, f0, df0, w0 = _bootstrap_replicate(X, None, None, w)
assert np.array_equal(w0[:, 0], X0[:, 0]/2 + 1), (w0, X0)
'''),
dict(id='B09', property='P09', needs='several active points and several inactive samples per point (NY > 1 and N > 1)',
 breaks='the index column of the inverse map names the wrong row of Y',
 edits=[(P+'domains.py', 'np.kron(np.arange(NY), np.ones(N)).reshape', 'np.kron(np.ones(N), np.arange(NY)).reshape')],
 demo=PRE+'''
from active_subspaces.subspaces import Subspaces
from active_subspaces.domains import UnboundedActiveVariableDomain, UnboundedActiveVariableMap
rng = np.random.RandomState(0)
s = Subspaces(); s.compute(df=rng.normal(size=(20, 4))); s.partition(2)
m = UnboundedActiveVariableMap(UnboundedActiveVariableDomain(s))
Y = rng.normal(size=(3, 2))
X, ind = m.inverse(Y, 2)
assert np.allclose(m.forward(X)[0], Y[ind[:, 0].astype(int)])
'''),
dict(id='B10', property='P10', needs='hit-and-run (rejection found too few points) and a direction nearly parallel to a face of the cube',
 breaks='constraints whose slope along the direction is small are ignored when the step bounds are computed, so samples leave the hypercube',
 edits=[(P+'domains.py', '        f, g = b - np.dot(A,z0), np.dot(A, d)\n', '        f, g = b - np.dot(A,z0), np.dot(A, d)\n        g[np.fabs(g) < 0.1*np.amax(np.fabs(g))] = 0.0\n')],
 demo=PRE+'''
from active_subspaces.domains import hit_and_run_z
rng = np.random.RandomState(0)
for t in range(20):
    W = np.linalg.qr(rng.normal(size=(5, 5)))[0]
    W1, W2 = W[:, :1], W[:, 1:]
    y = W1.T.dot(rng.uniform(-.9, .9, size=5))
    np.random.seed(t)
    Z = hit_and_run_z(50, y, W1, W2)
    X = W1.dot(y).reshape((5, 1)) + W2.dot(Z.T)
    assert np.amax(np.fabs(X)) <= 1 + 1e-6, np.amax(np.fabs(X))
'''),
dict(id='B12', property='P12', needs='quadrature weights that are not all equal and a function that varies along the inactive variables',
 breaks='the error bound averages the conditional variances with w_k/n instead of w_k^2, which agrees only for equal weights',
 edits=[(P+'integrals.py', 'np.dot(Vf.T, w*w)', 'np.dot(Vf.T, w*np.mean(w))')],
 demo=PRE+'''
from active_subspaces.subspaces import Subspaces
from active_subspaces.domains import UnboundedActiveVariableDomain, UnboundedActiveVariableMap
from active_subspaces.integrals import integrate, quadrature_rule
rng = np.random.RandomState(0)
s = Subspaces(); s.compute(df=rng.normal(size=(20, 3))); s.partition(1)
m = UnboundedActiveVariableMap(UnboundedActiveVariableDomain(s))
f = lambda x: float(np.sum(x**2))
np.random.seed(1); Xp, Xw, ind = quadrature_rule(m, 3, 5)
np.random.seed(1); mu, lb, ub = integrate(f, m, 3, 5)
F = np.array([f(x) for x in Xp]).reshape((3, 5)); w = Xw.reshape((3, 5)).sum(axis=1)
s2 = np.sum(w**2*F.var(axis=1))/5
assert abs(ub - mu - 1.96*np.sqrt(s2)) < 1e-9, (ub - mu, 1.96*np.sqrt(s2))
'''),
dict(id='B13', property='P13', needs='a Jacobi weight with a + b = -1 (Chebyshev)',
 breaks='the first off-diagonal recurrence coefficient is 0/0 instead of its limit',
 edits=[(P+'utils/quadrature.py', '        if k==1:\n', '        if k==0:\n')],
 demo=PRE+'''
from active_subspaces.utils.quadrature import r_jacobi
ab = r_jacobi(4, -1, 1, -.5, -.5)
assert np.allclose(ab[1:, 1], [.5, .25, .25, .25]), ab
'''),
dict(id='B15', property='P15', needs='three or more variables and a quadratic with mixed terms, H read from the trained surface',
 breaks='off-diagonal entries of the Hessian are set on one side only',
 edits=[(P+'utils/response_surfaces.py', '                    H[loc[1],loc[0]] = poly_weights[i]\n', '                    H[loc[1],loc[0]] = H[loc[1],loc[0]] if loc[1] - loc[0] > 1 else poly_weights[i]\n')],
 demo=PRE+'''
from active_subspaces.utils.response_surfaces import PolynomialApproximation
rng = np.random.RandomState(0)
X = rng.uniform(-1, 1, size=(40, 3)); f = (X[:, 0]*X[:, 2]).reshape((40, 1))
p = PolynomialApproximation(2); p.train(X, f)
assert np.allclose(p.H, p.H.T), p.H
'''),
dict(id='B18', property='P18', needs='a function whose values differ between the restarts of the multi-start minimiser',
 breaks='the reported point is that of the last restart, the reported value that of the best one',
 edits=[(P+'optimizers.py', '''            minres = result

    np.random.set_state(curr_state)
    ystar, fstar = minres.x, minres.fun
''', '''            minres = result

    np.random.set_state(curr_state)
    ystar, fstar = result.x, minres.fun
''')],
 demo=PRE+'''
from active_subspaces.subspaces import Subspaces
from active_subspaces.domains import BoundedActiveVariableDomain
from active_subspaces.optimizers import zonotope_minimize
rng = np.random.RandomState(0)
s = Subspaces(); s.compute(df=rng.normal(size=(20, 4))); s.partition(2)
np.random.seed(0)
d = BoundedActiveVariableDomain(s)
f = lambda y: float(np.sin(3*y[0]) + .3*np.cos(5*y[1]) + .1*y[0])
y, v = zonotope_minimize(f, d, None)
assert abs(f(y) - v) < 1e-9, (f(y), v)
'''),
dict(id='B21', property='P21', needs='an input matrix with one row only and several columns / any matrix with repeated rows',
 breaks='a row equal to the previous one is not evaluated again: the model is called fewer than M times',
 edits=[(P+'utils/simrunners.py', '            F[i] = self.fun(X[i,:].reshape((1,m)))\n', '            if i > 0 and np.array_equal(X[i,:], X[i-1,:]):\n                F[i] = F[i-1]\n            else:\n                F[i] = self.fun(X[i,:].reshape((1,m)))\n')],
 demo=PRE+'''
from active_subspaces.utils.simrunners import SimulationRunner
n = []
def f(x):
    n.append(1)
    return float(len(n))
F = SimulationRunner(f).run(np.ones((3, 2)))
assert len(n) == 3 and np.array_equal(F[:, 0], [1., 2., 3.]), F
'''),
dict(id='B24', property='P24', needs='a caller that keeps using the eigenvalue array it passed to the surface',
 breaks='training a radial basis surface rescales the eigenvalue array of the caller in place',
 edits=[(P+'utils/response_surfaces.py', '        K += np.diag(v.reshape((M,)))\n        B = polynomial_bases(X, self.N)[0]\n', '        K += np.diag(v.reshape((M,)))\n        if e is not None:\n            e /= np.sum(e)\n        B = polynomial_bases(X, self.N)[0]\n')],
 demo=PRE+'''
from active_subspaces.utils.response_surfaces import RadialBasisApproximation
rng = np.random.RandomState(0)
X = rng.normal(size=(20, 2)); f = X[:, :1]**2; e = np.array([[4.], [2.], [1.]])
e0 = e.copy()
RadialBasisApproximation(1).train(X, f, e=e)
assert np.array_equal(e, e0), e
'''),
dict(id='B25', property='P25', needs='outputs with more rows than the inputs',
 breaks='surplus outputs are silently accepted and then dropped or misread instead of being refused',
 edits=[(P+'utils/misc.py', '    if Mf != M:\n', '    if Mf < M:\n'), (P+'utils/misc.py', '    f = f.reshape((M, 1))\n', '    f = f[:M].reshape((M, 1))\n')],
 demo=PRE+'''
from active_subspaces.utils.misc import process_inputs_outputs
try:
    process_inputs_outputs(np.ones((3, 2)), np.ones((4, 1)))
except Exception:
    pass
else:
    raise AssertionError('accepted')
'''),
]
