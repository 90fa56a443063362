P = 'active_subspaces/'
PRE = 'import numpy as np\nimport active_subspaces as ac\n'
BUGS = [
dict(id='B03', property='P03', needs='inputs whose columns have very different scales (ratio above 1e3)',
 breaks='small singular values are cut off, so the linear model no longer reproduces affine data whose inputs differ in scale',
 edits=[(P+'subspaces.py', 'u = np.linalg.lstsq(A, b)[0]', 'u = np.linalg.lstsq(A, b, rcond=1e-3)[0]')],
 demo=PRE+'''
from active_subspaces.subspaces import ols_subspace
rng = np.random.RandomState(0)
X = rng.uniform(-1, 1, (40, 3)) * np.array([1e-4, 1.0, 1.0])
b = np.array([[1.0], [2.0], [-1.0]])
e, W = ols_subspace(X, X.dot(b) + 3.0, np.ones((40, 1))/40)
assert np.allclose(e[:, 0], [6.0, 0.0, 0.0], atol=1e-6), e
'''),
dict(id='B04', property='P04', needs='a spectrum whose gaps are all below 1e-12 (a function with tiny gradients)',
 breaks='the largest gap is looked for among rounded gaps, so the first dimension is returned although another gap is larger',
 edits=[(P+'subspaces.py', '    n = np.argmax(ediff) + 1\n', '    n = np.argmax(np.round(ediff, 12)) + 1\n')],
 demo=PRE+'''
from active_subspaces.subspaces import eig_partition
e = np.array([[3.0], [2.9], [1.0], [0.9]])
for scale in (1.0, 1e-6, 1e-13, 1e-20):
    assert eig_partition(scale*e)[0] == 2, scale
'''),
dict(id='B06', property='P06', needs='a point with a coordinate on (or within h of) the upper bound 1',
 breaks='the perturbed point is snapped back to the bound, so the difference quotient in that coordinate is wrong',
 edits=[(P+'gradients.py', '''        h*np.kron(np.vstack((np.zeros((1, m)), np.eye(m))), np.ones((M, 1)))
''', '''        h*np.kron(np.vstack((np.zeros((1, m)), np.eye(m))), np.ones((M, 1)))
    XX = np.where(np.logical_and(XX > 1.0, XX <= 1.0 + h), 1.0, XX)
''')],
 demo=PRE+'''
from active_subspaces.gradients import finite_difference_gradients
b = np.array([[1.0], [-2.0], [0.5]])
X = np.array([[0.1, 0.2, 0.3], [1.0, 0.0, -1.0], [-0.5, 1.0, 1.0]])
df = finite_difference_gradients(X, lambda x: x.dot(b)[0, 0], h=2.0**-10)
assert np.allclose(df, np.tile(b.T, (3, 1)), atol=1e-6), df
'''),
dict(id='B07', property='P07', needs='an off-centre cloud, where the nearest points in the sum of absolute differences are not the nearest points',
 breaks='neighbours are chosen by the sum of absolute differences instead of the distance',
 edits=[(P+'gradients.py', 'D2 = np.sum((X - x)**2, axis=1)', 'D2 = np.sum(np.fabs(X - x), axis=1)')],
 demo=PRE+'''
from active_subspaces.gradients import local_linear_gradients
rng = np.random.RandomState(1)
X = rng.normal(size=(30, 2)); f = np.sin(3*X[:, :1]) + X[:, 1:]**3
got = local_linear_gradients(X, f, p=4)
def fit(i):
    d = np.sqrt(np.sum((X - X[i])**2, axis=1)); k = np.argsort(d)[1:5]
    return np.linalg.lstsq(np.hstack((np.ones((4, 1)), X[k])), f[k], rcond=None)[0][1:, 0]
ref = np.array([fit(i) for i in range(30)])
for g in got:
    assert np.min(np.abs(ref - g).max(axis=1)) < 1e-6, g
'''),
dict(id='B08', property='P08', needs='a covariance matrix with small entries (variables with a standard deviation of about 1e-5)',
 breaks='a jitter is added to the covariance, so normalized samples of small variables do not have identity covariance',
 edits=[(P+'utils/misc.py', 'self.L = np.linalg.cholesky(C)', 'self.L = np.linalg.cholesky(C + 1e-10*np.eye(C.shape[0]))')],
 demo=PRE+'''
from active_subspaces.utils.misc import UnboundedNormalizer
for s in (1.0, 1e-5):
    C = s**2*np.array([[2.0, 0.5], [0.5, 1.0]])
    un = UnboundedNormalizer(np.zeros((1, 2)), C)
    Z = un.normalize(np.linalg.cholesky(C).T)
    assert np.allclose(Z.T.dot(Z), np.eye(2), atol=1e-6) and np.allclose(Z, np.eye(2), atol=1e-6), Z
'''),
dict(id='B11', property='P11', needs='a zonotope whose vertices are not all found in the first round (few samples, or many thin vertices) and whose search stops early',
 breaks='the corners found in later rounds are added without their mirror images: the vertex set is not symmetric',
 edits=[(P+'domains.py', '        X0 = unique_rows(np.vstack((X0, -X0)))\n', '')],
 demo=PRE+'''
from active_subspaces.domains import zonotope_vertices
import contextlib, io
rng = np.random.RandomState(0)
for t in range(30):
    W = np.linalg.qr(rng.normal(size=(8, 3)))[0]
    np.random.seed(t)
    with contextlib.redirect_stdout(io.StringIO()):
        Y, X = zonotope_vertices(W, Nsamples=3, maxcount=4)
    rows = set(map(tuple, X.astype(int).tolist()))
    assert rows == set(tuple(-c for c in r) for r in rows), t
'''),
dict(id='B14', property='P14', needs='a zonotope domain of which not all vertices were found, so that samples fall outside the triangulation',
 breaks='the weights are rescaled to sum to one and are no longer the fraction of all samples in each cell',
 edits=[(P+'integrals.py', 'weights[i] = np.sum(I==i) / float(NX)', 'weights[i] = np.sum(I==i) / float(np.sum(I>=0))')],
 demo=PRE+'''
from active_subspaces.subspaces import Subspaces
from active_subspaces.domains import BoundedActiveVariableDomain, BoundedActiveVariableMap
from active_subspaces.integrals import zonotope_quadrature_rule
rng = np.random.RandomState(0)
s = Subspaces(); s.compute(df=rng.normal(size=(30, 4))); s.partition(2)
d = BoundedActiveVariableDomain(s)
keep = np.argsort(np.arctan2(d.vertY[:, 1], d.vertY[:, 0]))[::2]
d.vertY, d.vertX = d.vertY[keep], d.vertX[keep]
np.random.seed(1)
Yp, Yw = zonotope_quadrature_rule(BoundedActiveVariableMap(d), 5, NX=4000)
from scipy.spatial import Delaunay
np.random.seed(7)
inside = np.mean(Delaunay(d.vertY).find_simplex(np.random.uniform(-1, 1, (40000, 4)).dot(s.W1)) >= 0)
assert inside < 0.95 and abs(Yw.sum() - inside) < 0.03, (Yw.sum(), inside)
'''),
dict(id='B16', property='P16', needs='a given noise variance that is positive but below 1e-6',
 breaks='the floor of the noise variance is applied to zeros only, so a tiny given noise is used as it is',
 edits=[(P+'utils/response_surfaces.py', '''        # ensure conditioning
        v = np.amax([v.reshape(f.shape), 1e-6*np.ones(f.shape)], axis=0)
''', '''        # ensure conditioning
        v = np.where(v.reshape(f.shape) > 0, v.reshape(f.shape), 1e-6)
''')],
 demo=PRE+'''
from active_subspaces.utils.response_surfaces import RadialBasisApproximation
rng = np.random.RandomState(0)
X = rng.uniform(-1, 1, (25, 2)); f = np.sin(X[:, :1]) + X[:, 1:]**2
for noise in (1e-2, 0.0, 1e-9):
    rb = RadialBasisApproximation(1)
    rb.train(X, f, v=noise*np.ones((25, 1)))
    res = f - rb.predict(X)[0]
    assert np.allclose(res, max(noise, 1e-6)*rb.radial_weights.reshape((25, 1)), rtol=1e-2, atol=1e-8), noise
'''),
dict(id='B17', property='P17', needs='an interface that is not constant along the inactive variables, evaluated several times per design point',
 breaks='the noise handed to the surface is the variance of the mean instead of the variance of the evaluations',
 edits=[(P+'response_surfaces.py', 'self._train(Y, Ef, v=Vf)', 'self._train(Y, Ef, v=Vf/NMC)')],
 demo=PRE+'''
from active_subspaces.subspaces import Subspaces
from active_subspaces.domains import UnboundedActiveVariableDomain, UnboundedActiveVariableMap
from active_subspaces.response_surfaces import ActiveSubspaceResponseSurface
rng = np.random.RandomState(0)
s = Subspaces(); s.compute(df=rng.normal(size=(30, 3))); s.partition(1)
r = ActiveSubspaceResponseSurface(UnboundedActiveVariableMap(UnboundedActiveVariableDomain(s)))
vals = []
def fun(x):
    vals.append(float(np.sin(x).sum() + x[0, 1]*x[0, 2])); return vals[-1]
got = {}
keep = r.respsurf.train
def train(X, f, v=None, e=None):
    got.update(f=f.copy(), v=v.copy()); return keep(X, f, v=v, e=e)
r.respsurf.train = train
r.train_with_interface(fun, 6, NMC=5)
V = np.array(vals).reshape((-1, 5))
assert np.allclose(got['f'][:, 0], V.mean(axis=1)) and np.allclose(got['v'][:, 0], V.var(axis=1)), got
'''),
dict(id='B19', property='P19', needs='exactly two inactive variables (m - n = 2)',
 breaks='the quadratic model uses n+2 coordinates although only n+1 are documented for two inactive variables',
 edits=[(P+'optimizers.py', '        if m-n>2:\n', '        if m-n>1:\n')],
 demo=PRE+'''
from active_subspaces.subspaces import Subspaces
from active_subspaces.domains import UnboundedActiveVariableDomain
from active_subspaces.optimizers import UnboundedMinVariableMap
rng = np.random.RandomState(0)
X = rng.normal(size=(60, 4)); f = np.exp(0.5*X[:, :1]) + X[:, 1:2]**2*0.3 + 0.2*X[:, 2:3]*X[:, 3:] + 0.1*X[:, 3:]**2
s = Subspaces(); s.compute(df=rng.normal(size=(30, 4))*np.array([4., 3., 2., 1.])); s.partition(2)
mp = UnboundedMinVariableMap(UnboundedActiveVariableDomain(s)); mp.train(X, f)
W, W1, W2 = s.eigenvecs, s.W1, s.W2
from active_subspaces.utils.response_surfaces import PolynomialApproximation
pr = PolynomialApproximation(2); pr.train(X.dot(W[:, :3]), f)
b, A = W[:, :3].dot(pr.g), W[:, :3].dot(pr.H).dot(W[:, :3].T)
y = np.array([[0.3, -0.2]])
z = mp.regularize_z(y, 1).reshape((2, 1))
g = W2.T.dot(b + A.dot(W1).dot(y.T)) + (W2.T.dot(A).dot(W2) + 0.01*np.eye(2)).dot(z)
assert np.allclose(g, 0, atol=1e-8), g
'''),
dict(id='B20', property='P20', needs='a linear program at which the solver stops at its iteration limit (status 1) without having found an optimum',
 breaks='the last iterate is returned as if it were the minimiser instead of raising',
 edits=[(P+'utils/qp_solver.py', '''    res = linprog(c, A_eq=A, b_eq=b, bounds=bounds, options={"disp": False})
    if res.success:
''', '''    res = linprog(c, A_eq=A, b_eq=b, bounds=bounds, options={"disp": False})
    if res.success or res.status == 1:
''')],
 demo=PRE+'''
import active_subspaces.utils.qp_solver as q
from scipy.optimize import OptimizeResult
q.linprog = lambda c, **k: OptimizeResult(success=False, status=1, x=np.zeros(len(c)), fun=0.0, message='iteration limit')
try:
    x = q.QPSolver('SCIPY').linear_program_eq(np.ones((2, 1)), np.ones((1, 2)), np.ones((1, 1)), np.zeros((2, 1)), np.ones((2, 1)))
except Exception as ex:
    pass
else:
    raise AssertionError('no optimum was reported, but %r was returned' % (x,))
'''),
dict(id='B22', property='P22', needs='design points that are all more than 10 apart from each other and from the vertices (a large domain)',
 breaks='the diagonal of the distance matrix is no longer out of the way: the objective is -100 instead of minus the smallest squared distance',
 edits=[(P+'utils/designs.py', '''    D0 = distance_matrix(Y, Y) + 1e5*np.eye(N)
    d0 = np.power(D0.flatten(), 2)
    d0star = np.amin(d0)
''', '''    D0 = distance_matrix(Y, Y) + 1e1*np.eye(N)
    d0 = np.power(D0.flatten(), 2)
    d0star = np.amin(d0)
''')],
 demo=PRE+'''
from active_subspaces.utils.designs import _maximin_design_obj
v = np.array([[-1., -1.], [1., -1.], [1., 1.], [-1., 1.]])
Y = np.array([[0.1, 0.2], [-0.3, 0.4], [0.5, -0.6]])
small = _maximin_design_obj(Y.reshape((6,)), v)
for s in (1.0, 10.0, 100.0, 1000.0):
    assert np.isclose(_maximin_design_obj(s*Y.reshape((6,)), s*v), s*s*small, rtol=1e-9), s
'''),
]
