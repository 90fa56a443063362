P = 'active_subspaces/'
PRE = 'import numpy as np\nimport active_subspaces as ac\n'
BUGS = [
dict(id='B26', property='P02', needs='a second compute on the same object (other data) that chooses the same dimension',
 breaks='the bases are kept when the dimension is unchanged: they stem from the previous compute call',
 edits=[(P+'subspaces.py', '        self.W1, self.W2 = self.eigenvecs[:,:n], self.eigenvecs[:,n:]\n', '''        if self.W1 is None or self.W1.shape != (m, n):
            self.W1, self.W2 = self.eigenvecs[:,:n], self.eigenvecs[:,n:]
''')],
 demo=PRE+'''
from active_subspaces.subspaces import Subspaces
rng = np.random.RandomState(0)
ss = Subspaces()
for k in range(3):
    df = rng.normal(size=(20, 3)) * np.roll([10.0, 1.0, 0.5], k)
    ss.compute(df=df)
    n = ss.W1.shape[1]
    assert np.array_equal(ss.W1, ss.eigenvecs[:, :n]) and np.array_equal(ss.W2, ss.eigenvecs[:, n:]), k
'''),
dict(id='B27', property='P01', needs='fewer gradient samples than dimensions',
 breaks='a thin factorisation is used: only M eigenvalues and an m-by-M eigenvector matrix are returned',
 edits=[(P+'subspaces.py', '''    # compute the matrix
    C = np.dot(df.transpose(), df * weights)
    
''', '''    if M < m:
        # cheaper from the singular values of the few weighted rows
        U, s, V = np.linalg.svd(df * np.sqrt(weights), full_matrices=False)
        return (s**2).reshape((s.size, 1)), V.T * np.where(V[:,0] < 0, -1.0, 1.0)

    # compute the matrix
    C = np.dot(df.transpose(), df * weights)
    
''')],
 demo=PRE+'''
from active_subspaces.subspaces import active_subspace
rng = np.random.RandomState(0)
for M in (8, 4, 2, 1):
    df = rng.normal(size=(M, 4)); w = rng.uniform(size=(M, 1))
    e, W = active_subspace(df, w)
    assert e.shape == (4, 1) and W.shape == (4, 4), M
    assert np.allclose(W.dot(np.diag(e[:, 0])).dot(W.T), (df*w).T.dot(df)), M
'''),
dict(id='B28', property='P05', needs='any bootstrap; visible when the last row matters (few rows, or an outlier in the last row)',
 breaks='the last row of the data is never drawn into a replicate',
 edits=[(P+'subspaces.py', '    ind = np.random.randint(M, size=(M, ))\n', '    ind = np.random.randint(0, max(M-1, 1), size=(M, ))\n')],
 demo=PRE+'''
from active_subspaces.subspaces import _bootstrap_replicate
np.random.seed(3)
X = np.arange(6.0).reshape((6, 1))
seen = set()
for k in range(300):
    seen |= set(_bootstrap_replicate(X, None, None, np.ones((6, 1)))[0][:, 0])
assert seen == set(range(6)), seen
'''),
dict(id='B29', property='P06', needs='points with coordinates larger than 1 in absolute value',
 breaks='the step is scaled with the coordinate but the difference is divided by the unscaled step',
 edits=[(P+'gradients.py', '''    XX = np.kron(np.ones((m+1, 1)),X) + \\
        h*np.kron(np.vstack((np.zeros((1, m)), np.eye(m))), np.ones((M, 1)))
''', '''    XX = np.kron(np.ones((m+1, 1)),X) + \\
        h*np.kron(np.vstack((np.zeros((1, m)), np.eye(m))), np.ones((M, 1)))*\\
        np.maximum(1.0, np.fabs(np.kron(np.ones((m+1, 1)),X)))
''')],
 demo=PRE+'''
from active_subspaces.gradients import finite_difference_gradients
b = np.array([[1.0], [-2.0]])
for s in (1.0, 3.0):
    X = s*np.array([[0.5, -1.0], [1.0, 0.25]])
    assert np.allclose(finite_difference_gradients(X, lambda x: x.dot(b)[0, 0], h=2.0**-10), np.tile(b.T, (2, 1))), s
'''),
dict(id='B30', property='P09', needs='several active points in one call to the unbounded inverse map',
 breaks='one set of inactive draws is shared by all active points',
 edits=[(P+'domains.py', '        Z = np.random.normal(size=(NY, m-n, N))\n', '        Z = np.tile(np.random.normal(size=(1, m-n, N)), (NY, 1, 1))\n')],
 demo=PRE+'''
from active_subspaces.subspaces import Subspaces
from active_subspaces.domains import UnboundedActiveVariableDomain, UnboundedActiveVariableMap
rng = np.random.RandomState(0)
ss = Subspaces(); ss.compute(df=rng.normal(size=(20, 4))); ss.partition(2)
mp = UnboundedActiveVariableMap(UnboundedActiveVariableDomain(ss))
X = mp.inverse(rng.normal(size=(5, 2)), 3)[0]
Z = X.dot(ss.W2)
assert len(set(np.round(Z[:, 0], 9))) == 15
'''),
dict(id='B31', property='P10', needs='the random walk sampler at a step that lands within 1e-4 outside a face',
 breaks='a tolerance of 1e-4 on the faces lets the walk keep points outside the hypercube',
 edits=[(P+'domains.py', '''    # sample
    Z = np.zeros((m-n, N))
    for i in range(N):
        zc = z0 + sig*np.random.normal(size=z0.shape)
        if np.all(np.dot(W2, zc) <= 1-s) and np.all(np.dot(W2, zc) >= -1-s):
''', '''    # sample
    Z = np.zeros((m-n, N))
    for i in range(N):
        zc = z0 + sig*np.random.normal(size=z0.shape)
        if np.all(np.fabs(np.dot(W2, zc) + s) <= 1 + 1e-4):
''')],
 demo=PRE+'''
from active_subspaces.domains import random_walk_z
np.random.seed(0)
Q = np.linalg.qr(np.random.normal(size=(3, 3)))[0]
W1, W2 = Q[:, :1], Q[:, 1:]
y = 0.999*W1.T.dot(np.sign(W1))[0]
for k in range(40):
    Z = random_walk_z(200, y, W1, W2)
    assert np.abs(W1.dot(y).reshape((1, 3)) + Z.dot(W2.T)).max() <= 1 + 1e-9
'''),
dict(id='B32', property='P11', needs='n >= 2; a use of the corners together with the vertices',
 breaks='the vertices are sorted on their own, so vertex i is no longer the image of corner i',
 edits=[(P+'domains.py', '''    Y = np.dot(X, W1)
    return Y.reshape((numverts, n)), X.reshape((numverts, m))
''', '''    Y = unique_rows(np.dot(X, W1))
    return Y.reshape((numverts, n)), X.reshape((numverts, m))
''')],
 demo=PRE+'''
from active_subspaces.domains import zonotope_vertices
np.random.seed(0)
W1 = np.linalg.qr(np.random.normal(size=(4, 4)))[0][:, :2]
Y, X = zonotope_vertices(W1)
assert np.allclose(X.dot(W1), Y)
'''),
dict(id='B33', property='P12', needs='an index column that is not sorted (points permuted, or indices interleaved)',
 breaks='the outputs of index k are assumed to be the k-th block of rows',
 edits=[(P+'utils/misc.py', '        fi = f[ind == i]\n', '        n0 = int(np.sum(ind < i))\n        fi = f[n0:n0+int(np.sum(ind == i)),0]\n')],
 demo=PRE+'''
from active_subspaces.utils.misc import conditional_expectations
ind = np.array([[0.0], [1.0], [0.0], [1.0], [1.0]]); f = np.array([[1.0], [10.0], [3.0], [20.0], [30.0]])
Ef, Vf = conditional_expectations(f, ind)
assert np.allclose(Ef[:, 0], [2.0, 20.0]), Ef
'''),
dict(id='B34', property='P13', needs='recurrence coefficients on an interval other than [-1,1] with unequal Jacobi parameters',
 breaks='the first diagonal coefficient is not scaled to the interval',
 edits=[(P+'utils/quadrature.py', '    ab[0,0] = s*a0 + o\n', '    ab[0,0] = a0 + o\n')],
 demo=PRE+'''
from active_subspaces.utils.quadrature import r_jacobi
a, b = 1.0, 0.0
x, w = np.polynomial.legendre.leggauss(20)
for (l, r) in ((-1.0, 1.0), (0.0, 4.0)):
    t = (r-l)/2*x + (r+l)/2; v = w*(r-t)**a*(t-l)**b
    assert np.isclose(r_jacobi(3, l, r, a, b)[0, 0], np.sum(v*t)/np.sum(v)), (l, r)
'''),
dict(id='B35', property='P15', needs='the gradient at a point with a coordinate that is exactly zero',
 breaks='the derivative is computed as exponent * monomial / x_k, with 0 where x_k is 0: linear terms lose their derivative there',
 edits=[(P+'utils/response_surfaces.py', '''                ind[k] -= 1
                B[:,i,k] = indk*np.prod(np.power(X, ind), axis=1)
''', '''                xk = X[:,k]
                p = indk*np.prod(np.power(X, ind), axis=1)
                B[:,i,k] = np.where(xk == 0, 0.0, p / np.where(xk == 0, 1.0, xk))
''')],
 demo=PRE+'''
from active_subspaces.utils.response_surfaces import grad_polynomial_bases
for x in ([[0.5, -2.0]], [[0.0, 3.0]]):
    x = np.array(x)
    G = grad_polynomial_bases(x, 1)
    assert np.allclose(np.sort(G[0, :, 0]), [0, 0, 1]), (x, G)
'''),
dict(id='B36', property='P16', needs='a prediction at exactly the training points (the noise is then added to the kernel)',
 breaks='the stored covariance, which contains the noise, is reused for predictions at the training points: the surface interpolates noisy data',
 edits=[(P+'utils/response_surfaces.py', '        K = exponential_squared(X, self.X, 1.0, self.ell)\n', '''        if np.array_equal(X, self.X):
            K = self.K
        else:
            K = exponential_squared(X, self.X, 1.0, self.ell)
''')],
 demo=PRE+'''
from active_subspaces.utils.response_surfaces import RadialBasisApproximation
rng = np.random.RandomState(0)
X = rng.uniform(-1, 1, (15, 2)); f = np.sin(3*X[:, :1]) + X[:, 1:]**2
r = RadialBasisApproximation(N=1); r.train(X, f, v=0.1*np.ones((15, 1)))
assert np.allclose(r.predict(X)[0], r.predict(np.vstack((X, X[:1])))[0][:15])
'''),
dict(id='B37', property='P17', needs='a subspace recomputed or repartitioned after the surface was built',
 breaks='the gradient uses the basis of the subspace at construction while the prediction uses the current one',
 edits=[(P+'response_surfaces.py', '        self.avmap = avmap\n', '        self.avmap = avmap\n        self.W1 = avmap.domain.subspaces.W1\n'),
        (P+'response_surfaces.py', '            W1 = self.avmap.domain.subspaces.W1\n            dfdx = np.dot(dfdy, W1.T)\n', '            dfdx = np.dot(dfdy, self.W1.T)\n')],
 demo=PRE+'''
from active_subspaces.subspaces import Subspaces
from active_subspaces.domains import UnboundedActiveVariableDomain, UnboundedActiveVariableMap
from active_subspaces.response_surfaces import ActiveSubspaceResponseSurface
from active_subspaces.utils.response_surfaces import PolynomialApproximation
rng = np.random.RandomState(0)
ss = Subspaces(); ss.compute(df=rng.normal(size=(20, 3))*[3, 1, 1]); ss.partition(1)
s = ActiveSubspaceResponseSurface(UnboundedActiveVariableMap(UnboundedActiveVariableDomain(ss)), PolynomialApproximation(N=2))
for k in range(2):
    X = rng.normal(size=(20, 3)); s.train_with_data(X, X.dot(ss.W1)**2)
    g = s.gradient(X)
    assert np.allclose(g, 2*X.dot(ss.W1).dot(ss.W1.T)), k
    ss.compute(df=rng.normal(size=(20, 3))*[1, 3, 1]); ss.partition(1)
'''),
dict(id='B38', property='P18', needs='restarts whose values improve by less than 0.1 percent',
 breaks='small improvements over the best restart so far are ignored, so the reported value is not the smallest',
 edits=[(P+'optimizers.py', '''        if not result.success:
            raise Exception('SLSQP failed with message: {}.'.format(result.message))
        if result.fun < minf:
''', '''        if not result.success:
            raise Exception('SLSQP failed with message: {}.'.format(result.message))
        if result.fun < minf - 1e-3*abs(minf):
''')],
 demo=PRE+'''
import active_subspaces.optimizers as op
class Dom: pass
class R: pass
vals = iter([1.0, 0.9995, 0.9999] + [2.0]*7)
def fake(fun, y0, **kw):
    r = R(); r.success = True; r.fun = next(vals); r.x = np.array([r.fun, 0.0]); r.message = ''; return r
d = Dom(); d.subspaces = Dom(); d.subspaces.W1 = np.eye(3)[:, :2]; d.constraints = ()
op.scopt.minimize = fake
y, f = op.zonotope_minimize(lambda y: 0.0, d, None)
assert f == 0.9995 and y[0] == 0.9995, (y, f)
'''),
dict(id='B39', property='P19', needs='a map that is trained a second time with other data',
 breaks='the model of the first training is kept',
 edits=[(P+'optimizers.py', '''        # some private attributes used in the regularize_z function
        self._bz''', '''        # some private attributes used in the regularize_z function
        if hasattr(self, '_bz') and self._bz.shape[0] == m-n:
            return
        self._bz''')],
 demo=PRE+'''
from active_subspaces.subspaces import Subspaces
from active_subspaces.domains import UnboundedActiveVariableDomain
from active_subspaces.optimizers import UnboundedMinVariableMap
rng = np.random.RandomState(0)
ss = Subspaces(); ss.compute(df=rng.normal(size=(20, 3))*[3, 1, 1]); ss.partition(1)
X = rng.normal(size=(30, 3)); W = ss.eigenvecs
mp = UnboundedMinVariableMap(UnboundedActiveVariableDomain(ss))
for t in (1.0, -2.0):
    mp.train(X, (X.dot(W[:, 1:2]) - t)**2)
    x = mp.inverse(np.array([[0.3]]))[0]
    assert np.allclose(x.dot(W[:, 1])[0], 2*t/2.01), t
'''),
dict(id='B40', property='P20', needs='an equality program with a zero cost vector (a feasibility problem)',
 breaks='the least-norm solution of the equations is returned, which need not satisfy the bounds',
 edits=[(P+'utils/qp_solver.py', '''        bounds.append((lb[i,0], ub[i,0]))

    res''', '''        bounds.append((lb[i,0], ub[i,0]))

    if not np.any(c):
        # any solution of the equations will do
        return np.linalg.lstsq(A, b)[0].reshape((c.size,1))

    res''')],
 demo=PRE+'''
from active_subspaces.utils.qp_solver import QPSolver
qp = QPSolver('SCIPY')
A = np.array([[3.0, 1.0, 1.0]])
for t in (1.0, 4.0):
    x = qp.linear_program_eq(np.zeros((3, 1)), A, np.array([[t]]), -np.ones((3, 1)), np.ones((3, 1)))
    assert np.all(np.abs(x) <= 1 + 1e-9) and np.allclose(A.dot(x), t), x
'''),
dict(id='B41', property='P21', needs='an integer-valued (integer dtype) input matrix',
 breaks='the results take the type of the inputs: with integer inputs they are truncated',
 edits=[(P+'utils/simrunners.py', '        F = np.zeros((M, 1))\n', '        F = np.zeros((M, 1), dtype=X.dtype)\n')],
 demo=PRE+'''
from active_subspaces.utils.simrunners import SimulationRunner
for X in (np.ones((3, 2)), np.ones((3, 2), dtype=int)):
    assert np.allclose(SimulationRunner(lambda x: 0.5*x[0, 0]).run(X), 0.5), X.dtype
'''),
dict(id='B42', property='P22', needs='an end point and a number of points for which the rounded last step falls short of b',
 breaks='the design is built with arange and may hold N+1 points, the last one the end point b',
 edits=[(P+'utils/designs.py', '    y = np.linspace(a, b, N+2)\n    design = mi.atleast_2d_col(y[1:-1])\n', '    y = np.arange(a, b, (b - a)/(N + 1.0))\n    design = mi.atleast_2d_col(y[1:])\n')],
 demo=PRE+'''
from active_subspaces.utils.designs import interval_design
for (a, b) in ((-1.0, 1.0), (-1.3, 1.3), (-0.7, 0.7), (-1.1, 2.2)):
    for N in range(1, 60):
        y = interval_design(a, b, N)
        assert y.shape == (N, 1) and np.allclose(y[:, 0], a + (b-a)*np.arange(1, N+1)/(N+1.0)), (a, b, N)
'''),
dict(id='B43', property='P24', needs='two runs of the same runner with the same number of rows, the first result kept',
 breaks='the result array is a buffer of the runner that the next run overwrites',
 edits=[(P+'utils/simrunners.py', '        F = np.zeros((M, 1))\n', '''        if getattr(self, '_F', None) is None or self._F.shape[0] != M:
            self._F = np.zeros((M, 1))
        F = self._F
''')],
 demo=PRE+'''
from active_subspaces.utils.simrunners import SimulationRunner
r = SimulationRunner(lambda x: x[0, 0])
F = r.run(np.ones((3, 2))); r.run(np.zeros((4, 2))); G = r.run(2*np.ones((4, 2))); H = G.copy(); r.run(np.zeros((4, 2)))
assert np.array_equal(G, H) and np.all(F == 1)
'''),
dict(id='B44', property='P25', needs='a number of points given as a float to av_integrate',
 breaks='a fractional number of points is rounded instead of refused',
 edits=[(P+'integrals.py', '''    if not isinstance(N, int):
        raise TypeError('N should be an integer.')

    Yp, Yw = av_quadrature_rule(avmap, N)
''', '''    N = int(N)

    Yp, Yw = av_quadrature_rule(avmap, N)
''')],
 demo=PRE+'''
from active_subspaces.subspaces import Subspaces
from active_subspaces.domains import UnboundedActiveVariableDomain, UnboundedActiveVariableMap
from active_subspaces.integrals import av_integrate
ss = Subspaces(); ss.compute(df=np.random.RandomState(0).normal(size=(20, 3))); ss.partition(1)
mp = UnboundedActiveVariableMap(UnboundedActiveVariableDomain(ss))
try:
    av_integrate(lambda y: 1.0, mp, 7.5)
except Exception:
    pass
else:
    raise AssertionError('accepted')
'''),
dict(id='B46', property='P07', needs='weights that are not all equal',
 breaks='the rows of the least-squares problem are scaled with the weights of the neighbours, the right-hand side with that of the centre',
 edits=[(P+'gradients.py', '        u = np.linalg.lstsq(A, b)[0]\n        df[i', '        u = np.linalg.lstsq(A * np.sqrt(weights[ind] / weights[ii]), b)[0]\n        df[i')],
 demo=PRE+'''
from active_subspaces.gradients import local_linear_gradients
rng = np.random.RandomState(0); np.random.seed(0)
X = rng.normal(size=(20, 2)); b = np.array([[1.0], [-2.0]])
for w in (None, rng.uniform(0.5, 2, (20, 1))):
    assert np.allclose(local_linear_gradients(X, X.dot(b) + 1, p=5, weights=w), b.T)
'''),
dict(id='B47', property='P08', needs='points outside the box [-1,1]^m handed to unnormalize',
 breaks='points are clipped to the box before they are mapped back, so unnormalize no longer inverts normalize outside the bounds',
 edits=[(P+'utils/misc.py', '        X_unnorm = (self.ub - self.lb) * (X + 1.0) / 2.0 + self.lb\n', '        X_unnorm = (self.ub - self.lb) * (np.clip(X, -1.0, 1.0) + 1.0) / 2.0 + self.lb\n')],
 demo=PRE+'''
from active_subspaces.utils.misc import BoundedNormalizer
bn = BoundedNormalizer(np.array([[0.0, 1.0]]), np.array([[2.0, 5.0]]))
for X in (np.array([[1.0, 2.0]]), np.array([[-3.0, 9.0]])):
    assert np.allclose(bn.unnormalize(bn.normalize(X)), X)
'''),
dict(id='B48', property='P03', needs='inputs mostly inside [-1,1] with single rows outside',
 breaks='the kind of the inputs is decided by the average row instead of every entry: a few inputs outside still get gamma 1/3',
 edits=[(P+'subspaces.py', '        gamma = 1.0\n    else', '        gamma = 1.0 if np.amax(np.mean(X, axis=1)) > 1.0 or np.amin(X) < -1.0 else 1.0/3.0\n    else')],
 demo=PRE+'''
from active_subspaces.subspaces import qphd_subspace
rng = np.random.RandomState(0)
X = rng.uniform(-1, 1, (40, 2)); A = np.diag([2.0, 6.0]); b = np.array([1.0, 1.0])
for top in (0.5, 1.4):
    X[0] = [top, -0.9]
    f = (X.dot(b) + 0.5*np.sum(X.dot(A)*X, axis=1)).reshape((-1, 1))
    e, W = qphd_subspace(X, f, np.ones((40, 1))/40)
    assert np.allclose(W.dot(np.diag(e[:, 0])).dot(W.T), np.outer(b, b) + (1.0 if top > 1 else 1/3.0)*A.dot(A)), top
'''),
dict(id='B49', property='P04', needs='a spectrum whose sum is not large compared with 1',
 breaks='the eigenvalues in the ladle criterion are divided by 1 + their sum, so the choice depends on the scale of the function',
 edits=[(P+'subspaces.py', '    G = li_F + e.reshape((e.size, 1)) / np.sum(e)\n', '    G = li_F + e.reshape((e.size, 1)) / (1.0 + np.sum(e))\n')],
 demo=PRE+'''
from active_subspaces.subspaces import ladle_partition
F = np.array([[0.0], [0.2], [0.3], [0.5]]); e = np.array([[0.5], [0.3], [0.1], [0.05]])
ref = F + e/np.sum(e)
n, G = ladle_partition(e, F)
assert np.allclose(G, ref) and n == np.argmin(ref) + 1
'''),
]
