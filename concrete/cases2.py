"""Executable contracts, P12-P25."""
import sys
import types
import itertools
import numpy as np
import scipy.optimize
import scipy.spatial
from math import comb
from .base import case, check, close, raises, Skip, Fail, _real_get_state
from .cases1 import subspace_of, weights_of, posweights, good_zono, affine, blackbox, check_inverse, spectrum
from active_subspaces import subspaces as ss, gradients as gr, domains as dom, integrals as ig, optimizers as op, response_surfaces as rs
from active_subspaces.utils import misc, simrunners, designs as dn, quadrature as gq, qp_solver as qp, response_surfaces as rsu


def interval_map(r, m=None):
    m = m or r.int(2, 4)
    W = r.orth(m, ('qr',))
    s = subspace_of(W, 1)
    return dom.BoundedActiveVariableMap(dom.BoundedActiveVariableDomain(s)), s, W


def zono_map(r):
    W, m, n, u = good_zono(r)
    s = subspace_of(W, n)
    return dom.BoundedActiveVariableMap(dom.BoundedActiveVariableDomain(s)), s, W


def unb_map(r, m=None, n=None):
    m = m or r.int(1, 5)
    n = n or r.int(1, m)
    W = r.orth(m)
    s = subspace_of(W, n)
    return dom.UnboundedActiveVariableMap(dom.UnboundedActiveVariableDomain(s)), s, W


# P12 -------------------------------------------------------------------------------------------------------
@case('P12', 200)
def conditional(r):
    n = r.int(1, 6)
    cnt = r.randint(1, r.pick(5, 5, 40), size=n)
    ind = np.repeat(np.arange(n), cnt).astype(float).reshape((-1, 1))
    ind = ind[r.permutation(ind.shape[0])]
    f = r.mat(ind.shape[0], 1) * 10.0 ** r.uniform(-2, 2)
    if r.chance(.2):
        f = f + 1e3
    E, V = misc.conditional_expectations(f, ind)
    close(E, [[np.mean(f[ind == k])] for k in range(n)], 'conditional means', 1e-9, 1e-9)
    close(V, [[np.mean((f[ind == k] - np.mean(f[ind == k])) ** 2)] for k in range(n)], 'conditional variances', 1e-7, 1e-7)


@case('P12', 60)
def rule_weights(r):
    avm, s, W = r.pick(unb_map, interval_map)(r)
    N, NMC = r.int(1, 6), r.int(1, 4)
    sd = r.int(0, 10 ** 6)
    np.random.seed(sd)
    Xp, Xw, ind = ig.quadrature_rule(avm, N, NMC) if NMC != 10 else ig.quadrature_rule(avm, N)
    np.random.seed(sd)
    Yp, Yw = ig.av_quadrature_rule(avm, N)
    K = Yp.shape[0]
    check(Xw.shape == (K * NMC, 1), 'weight shape')
    check_inverse(avm, Yp, Xp, ind, NMC, W.shape[0])
    close(Xw, Yw[np.rint(ind[:, 0]).astype(int)] / NMC, 'full-space weights', 1e-9, 1e-12)
    close(Xw.sum(), Yw.sum(), 'total weight')


@case('P12', 80)
def integral(r):
    avm, s, W = r.pick(unb_map, interval_map)(r)
    m, n = s.W1.shape
    N, NMC = r.int(1, 7), r.pick(1, 2, 3, 10)
    f = blackbox(r, m)
    log = []

    def g(x):
        v = f(x)
        log.append((np.array(x).reshape(-1).copy(), v))
        return v
    sd = r.int(0, 10 ** 6)
    np.random.seed(sd)
    Yp, Yw = ig.av_quadrature_rule(avm, N)
    np.random.seed(sd)
    fun = simrunners.SimulationRunner(g) if r.chance(.5) else g
    mu, lb, ub = ig.integrate(fun, avm, N) if NMC == 10 else ig.integrate(fun, avm, N, NMC=NMC)
    K = Yp.shape[0]
    check(len(log) == K * NMC, 'function called %d times for %d points' % (len(log), K * NMC))
    vals = [[] for _ in range(K)]
    for x, v in log:
        d = np.sum((Yp - x.dot(s.W1)) ** 2, axis=1)
        check(d.min() < 1e-10, 'function evaluated away from the quadrature nodes')
        vals[int(np.argmin(d))].append(v)
    check(all(len(v) == NMC for v in vals), 'nodes do not get NMC evaluations each')
    E = np.array([np.mean(v) for v in vals])
    V = np.array([np.var(v) for v in vals])
    w = Yw[:, 0]
    close(mu, w.dot(E), 'integral', 1e-9, 1e-9)
    sig = np.sqrt(np.sum(w ** 2 * V) / NMC)
    close(lb, mu - 1.96 * sig, 'lower bound', 1e-8, 1e-8)
    close(ub, mu + 1.96 * sig, 'upper bound', 1e-8, 1e-8)


@case('P12', 40)
def constants(r):
    avm, s, W = r.pick(unb_map, interval_map)(r)
    c = float(r.mat(1)[0])
    N = r.int(1, 9)
    mu, lb, ub = ig.integrate(lambda x: c, avm, N, NMC=r.int(1, 3))
    close([mu, lb, ub], [c, c, c], 'integral of a constant', 1e-9, 1e-9)
    close(ig.av_integrate(lambda y: c, avm, N), c, 'av_integrate of a constant', 1e-9, 1e-9)


@case('P12', 60)
def active_only(r):
    avm, s, W = r.pick(unb_map, interval_map)(r)
    m, n = s.W1.shape
    N = r.int(1, 9)
    f = blackbox(r, n)
    sd = r.int(0, 10 ** 6)
    np.random.seed(sd)
    Yp, Yw = ig.av_quadrature_rule(avm, N)
    want = sum(Yw[k, 0] * f(Yp[k]) for k in range(Yp.shape[0]))
    np.random.seed(sd)
    close(ig.av_integrate(f, avm, N), want, 'av_integrate', 1e-9, 1e-9)
    np.random.seed(sd)
    mu, lb, ub = ig.integrate(lambda x: f(x.dot(s.W1)), avm, N, NMC=2)
    close(mu, want, 'integral of a function of the active variables', 1e-7, 1e-7)
    a = rs.ActiveSubspaceResponseSurface(avm, rsu.PolynomialApproximation(1))
    X = r.mat(20, m)
    b, c = affine(r, n)
    a.train_with_data(X, X.dot(s.W1).dot(b) + c)
    np.random.seed(sd)
    close(ig.av_integrate(a, avm, N), Yw[:, 0].dot(Yp.dot(b)[:, 0] + c), 'av_integrate of a response surface', 1e-6, 1e-6)


@case('P12', 8, True)
def zonotope_integral(r):
    avm, s, W = zono_map(r)
    N = r.int(1, 3)
    sd = r.int(0, 10 ** 6)
    np.random.seed(sd)
    Yp, Yw = ig.av_quadrature_rule(avm, N)
    np.random.seed(sd)
    mu, lb, ub = ig.integrate(lambda x: 2.0, avm, N, NMC=1)
    close(mu, 2 * Yw.sum(), 'integral of a constant over a zonotope', 1e-9, 1e-9)


# P13 -------------------------------------------------------------------------------------------------------
def mom(kind, k):
    if k % 2:
        return 0.0
    if kind == 'H':
        v = 1.0
        for i in range(1, k, 2):
            v *= i
        return v
    return 1.0 / (k + 1)


@case('P13', 60)
def one_dim(r):
    N = r.int(1, 14)
    for kind, f, g in (('H', gq.gh1d, gq.gauss_hermite), ('L', gq.gl1d, gq.gauss_legendre)):
        for x, w in (f(N), g(N), g([N])):
            check(x.shape == (N, 1) and w.shape == (N, 1), 'rule shape', x.shape, w.shape)
            check(np.all(np.diff(x[:, 0]) > 0), 'nodes not increasing')
            check(np.all(w >= 0), 'negative weight')
            for k in range(2 * N):
                m = mom(kind, k)
                s = np.sum(w * np.abs(x) ** k)
                close(np.sum(w * x ** k) / max(s, 1e-30), m / max(s, 1e-30), '%s rule, N=%d, degree %d' % (kind, N, k), 0, 1e-8)


@case('P13', 60)
def recurrences(r):
    N = r.int(1, 9)
    ab = gq.r_hermite(N)
    if N == 1:
        close(ab, [[0, 1]], 'Hermite recurrence')
    else:
        close(ab, np.column_stack((np.zeros(N + 1), [1] + list(range(1, N + 1)))), 'Hermite recurrence')
    a, b = r.pick((0, 0), (1, 2), (0.5, -0.3), (-.5, -.5), (0, 3), (2.5, 0), tuple(r.uniform(-.9, 3, size=2)))
    l, rr = r.pick((-1, 1), (0, 1), (-2, 3), (1.0, 4.5))
    ab = gq.r_jacobi(N, l, rr, a, b)
    check(ab.shape == (N + 1, 2), 'Jacobi recurrence shape')
    k = np.arange(N + 1.)
    A0 = np.empty(N + 1)
    B0 = np.empty(N + 1)
    A0[0] = (b - a) / (a + b + 2.)
    B0[0] = 1
    for i in range(1, N + 1):
        A0[i] = (b * b - a * a) / ((2 * i + a + b) * (2 * i + 2 + a + b))
        if i == 1:
            B0[i] = 4. * (1 + a) * (1 + b) / ((2 + a + b) ** 2 * (3. + a + b))
        else:
            B0[i] = 4. * i * (i + a) * (i + b) * (i + a + b) / ((2 * i + a + b) ** 2 * (2 * i + a + b + 1.) * (2 * i + a + b - 1.))
    h = (rr - l) / 2.
    B1 = B0 * h * h
    B1[0] = 1
    close(ab, np.column_stack((A0 * h + (l + rr) / 2., B1)), 'Jacobi recurrence (%r,%r) on [%r,%r]' % (a, b, l, rr))


@case('P13', 40)
def jacobi_rule(r):
    import scipy.special as sp
    N = r.int(1, 7)
    a, b = r.pick((0, 0), (1, 2), (.5, -.3), (0, 3), (2.5, 0))
    l, rr = r.pick((-1, 1), (0, 1), (-2, 3))
    J = np.atleast_2d(gq.jacobi_matrix(gq.r_jacobi(N, l, rr, a, b)))
    check(J.shape == (N, N), 'Jacobi matrix shape')
    e, V = np.linalg.eigh(J)
    x, w = sp.roots_jacobi(N, a, b)
    close(e, l + (rr - l) / 2. * (x + 1), 'nodes of the Jacobi matrix', 1e-8, 1e-8)
    close(V[0] ** 2, w / w.sum(), 'weights of the Jacobi matrix', 1e-7, 1e-7)


@case('P13', 60)
def jacobi_mat(r):
    n = r.int(1, 7)
    ab = r.uniform(.1, 3, size=(n + 1, 2))
    J = np.atleast_2d(gq.jacobi_matrix(ab.copy()))
    want = np.diag(ab[:n, 0]) + np.diag(np.sqrt(ab[1:n, 1]), 1) + np.diag(np.sqrt(ab[1:n, 1]), -1)
    close(J, want, 'Jacobi matrix')
    check(raises(lambda: gq.jacobi_matrix(ab[:, 0])) and raises(lambda: gq.jacobi_matrix(r.mat(3, 3))), 'bad recurrence arrays accepted')


@case('P13', 80)
def tensor(r):
    d = r.int(1, 4)
    N = [r.int(1, 4) for _ in range(d)]
    for g, g1 in ((gq.gauss_hermite, gq.gh1d), (gq.gauss_legendre, gq.gl1d)):
        x, w = g(list(N))
        rows = list(itertools.product(*[range(k) for k in N]))
        rules = [g1(k) for k in N]
        close(x, [[rules[c][0][i[c], 0] for c in range(d)] for i in rows], 'tensor nodes %s' % N, 1e-9, 1e-9)
        close(w, [[np.prod([rules[c][1][i[c], 0] for c in range(d)])] for i in rows], 'tensor weights %s' % N, 1e-9, 1e-12)


@case('P13', 10)
def bad_orders(r):
    for g in (gq.gauss_hermite, gq.gauss_legendre):
        check(raises(lambda: g(2.5)) and raises(lambda: g('3')) and raises(lambda: g((2, 3))), 'bad order accepted')
    for f in (gq.r_hermite, lambda n: gq.r_jacobi(n, -1, 1, 0, 0)):
        check(raises(lambda: f(2.0)) and raises(lambda: f(0)) and raises(lambda: f(-1)), 'bad order accepted')


# P14 -------------------------------------------------------------------------------------------------------
class Draws(object):
    """records what np.random.uniform handed out"""

    def __enter__(self):
        self.old = np.random.uniform
        self.log = []

        def u(*a, **k):
            v = self.old(*a, **k)
            self.log.append(np.array(v))
            return v
        np.random.uniform = u
        return self

    def __exit__(self, *a):
        np.random.uniform = self.old

    def sample(self, m, N):
        """the points drawn, when they were drawn as N points of the hypercube"""
        v = np.concatenate([v.ravel() for v in self.log]) if self.log else np.zeros(0)
        return v.reshape((N, m)) if v.size == N * m and np.all(np.abs(v) <= 1) else None


def tol_share(f, N):
    """how far the fraction of N samples may be from the probability f (known from 10^5 samples)"""
    return 8 * np.sqrt((f * (1 - f) + 1e-3) * (1. / N + 1e-5)) + 8. / N


def fair_share(r, Yw, N, edges, W1):
    v = r.uniform(-1, 1, size=(100000, len(W1))).dot(W1)[:, 0]
    for k in range(len(edges) - 1):
        f = np.mean((v >= edges[k]) & (v < edges[k + 1]))
        check(abs(Yw[k, 0] - f) <= tol_share(f, N), 'a weight is not the share of its interval', Yw[k, 0], f)


@case('P14', 60)
def interval_rule(r):
    avm, s, W = interval_map(r)
    N, NX = r.int(1, 9), r.pick(50, 500, 10000)
    with Draws() as D:
        Yp, Yw = ig.interval_quadrature_rule(avm, N, NX) if NX != 10000 else ig.interval_quadrature_rule(avm, N)
    a = np.sum(np.abs(s.W1))
    edges = np.linspace(-a, a, N + 1)
    close(Yp, ((edges[1:] + edges[:-1]) / 2).reshape((N, 1)), 'interval nodes')
    check(Yw.shape == (N, 1), 'weight shape')
    close(Yw.sum(), 1, 'weights do not sum to one')
    check(np.all(Yw >= 0), 'negative weight')
    fair_share(r, Yw, NX, edges, s.W1)
    X = D.sample(W.shape[0], NX)
    if X is None:
        return
    y = X.dot(s.W1)[:, 0]
    close(Yw[:, 0], [np.mean((y >= edges[k]) & (y < edges[k + 1])) for k in range(N)], 'weights are not the fractions of samples', 0, 1.1 / NX)


@case('P14', 12, True)
def zonotope_rule(r):
    avm, s, W = zono_map(r)
    N, NX = r.int(1, 4), r.pick(200, 2000)
    with Draws() as D:
        Yp, Yw = ig.zonotope_quadrature_rule(avm, N, NX)
    n = s.W1.shape[1]
    y = np.vstack((avm.domain.vertY, dn.maximin_design(avm.domain.vertY, N)))
    T = scipy.spatial.Delaunay(y)
    check(Yp.shape == (T.nsimplex, n) and Yw.shape == (T.nsimplex, 1), 'rule shape')
    check(np.all(Yw >= 0) and Yw.sum() <= 1 + 1e-9, 'weights are no sub-probability', Yw.sum())
    check(Yw.sum() > .9, 'most samples are not counted', Yw.sum())
    X = D.sample(W.shape[0], NX)
    ref = T.find_simplex(r.uniform(-1, 1, size=(100000, W.shape[0])).dot(s.W1))
    left = list(range(T.nsimplex))
    for k in range(T.nsimplex):
        c = y[T.simplices[k]].mean(axis=0)
        j = [q for q in left if np.allclose(Yp[q], c, atol=1e-8)]
        check(j, 'a node is missing', c)
        left.remove(j[0])
        f = np.mean(ref == k)
        check(abs(Yw[j[0], 0] - f) <= tol_share(f, NX), 'the weight of a simplex is not its share of the hypercube', Yw[j[0], 0], f)
        if X is not None:
            close(Yw[j[0], 0], np.mean(T.find_simplex(X.dot(s.W1)) == k), 'weight of a simplex', 0, 1e-9)


@case('P14', 8, True)
def partial_zonotope(r):
    """a domain of which only some vertices were found: samples outside all simplices count in the denominator"""
    avm, s, W = zono_map(r)
    d = avm.domain
    K, n = np.shape(d.vertY)
    if K < n + 3:
        raise Skip()
    keep = np.argsort(d.vertY.dot(r.mat(n)))[:max(n + 2, (2 * K) // 3)]
    V = d.vertY[keep]
    if np.linalg.matrix_rank(V[1:] - V[0], tol=1e-3) < n:
        raise Skip()
    d.vertY, d.vertX = V, d.vertX[keep]
    NX = 2000
    Yp, Yw = ig.zonotope_quadrature_rule(avm, r.int(1, 3), NX)
    f = np.mean(scipy.spatial.Delaunay(V).find_simplex(r.uniform(-1, 1, size=(20000, W.shape[0])).dot(s.W1)) >= 0)
    check(np.all(Yw >= 0) and abs(Yw.sum() - f) <= tol_share(f, NX), 'weights are not the shares of all samples', Yw.sum(), f)


@case('P14', 8, True)
def dispatch(r):
    avm, s, W = zono_map(r)
    N = r.int(1, 3)
    st = np.random.get_state()
    got = ig.av_quadrature_rule(avm, N)
    np.random.set_state(st)
    want = ig.zonotope_quadrature_rule(avm, N)
    close(got[0], want[0], 'rule on a zonotope: nodes')
    close(got[1], want[1], 'rule on a zonotope: weights')
    avm, s, W = interval_map(r)
    np.random.set_state(st)
    got = ig.av_quadrature_rule(avm, N)
    np.random.set_state(st)
    want = ig.interval_quadrature_rule(avm, N)
    close(got[0], want[0], 'rule on an interval: nodes')
    close(got[1], want[1], 'rule on an interval: weights')


def root(N, n):
    k = 1
    while (k + 1) ** n <= N:
        k += 1
    return k


@case('P14', 80)
def unbounded_rule(r):
    n = r.int(1, 3)
    k = r.int(1, {1: 80, 2: 8, 3: 6}[n])
    N = max(1, k ** n + r.pick(0, 0, -1, 1))
    if r.chance(.2):
        n, N = r.pick((1, 51), (1, 102), (3, 125), (3, 216), (2, 49))
    avm, s, W = unb_map(r, r.int(n, n + 2), n)
    Yp, Yw = ig.av_quadrature_rule(avm, N)
    x, w = gq.gauss_hermite([root(N, n)] * n)
    close(Yp, x, 'unbounded rule N=%d n=%d: nodes' % (N, n))
    close(Yw, w, 'unbounded rule N=%d n=%d: weights' % (N, n))


# P15 -------------------------------------------------------------------------------------------------------
def monos(N, m):
    return [a for a in itertools.product(range(N + 1), repeat=m) if sum(a) <= N]


@case('P15', 100)
def basis(r):
    m, N = r.int(1, 4), r.int(1, 4)
    I = rsu.index_set(N, m)
    check(I.shape == (comb(N + m, m), m), 'index set shape', I.shape)
    rows = [tuple(int(v) for v in row) for row in I]
    check(sorted(rows) == sorted(monos(N, m)), 'index set is not complete or repeats')
    check(rows[0] == (0,) * m and rows[1:m + 1] == [tuple(int(i == j) for j in range(m)) for i in range(m)], 'order of the first basis functions')
    M = r.int(1, 6)
    X = r.mat(M, m)
    if r.chance(.4):
        X[r.randint(M), r.randint(m)] = 0
    X = r.layout(X)
    B, I2 = rsu.polynomial_bases(X, N)
    close(I2, I, 'indices returned with the basis')
    close(B, np.array([[np.prod([x[k] ** a[k] for k in range(m)]) for a in rows] for x in X]), 'basis values', 1e-9, 1e-9)
    G = rsu.grad_polynomial_bases(X, N)
    close(G, np.array([[[a[k] * np.prod([x[q] ** (a[q] - (q == k)) if a[q] - (q == k) >= 0 else 0 for q in range(m)]) if a[k] else 0. for k in range(m)]
                        for a in rows] for x in X]), 'basis gradient', 1e-9, 1e-9)


def polyval(X, c):
    return np.array([[sum(v * np.prod([x[k] ** a[k] for k in range(len(a))]) for a, v in c.items())] for x in X])


def polyder(X, c):
    m = X.shape[1]
    out = np.zeros(X.shape)
    for k in range(m):
        d = {}
        for a, v in c.items():
            if a[k]:
                b = tuple(a[q] - (q == k) for q in range(m))
                d[b] = d.get(b, 0) + v * a[k]
        out[:, k] = polyval(X, d)[:, 0] if d else 0
    return out


def used(r, surf, m):
    """sometimes train the surface with other data first, or predict with it"""
    if not r.chance(.3):
        return surf
    n = comb(surf.N + m, m) + r.int(0, 6)
    X = r.uniform(-1, 1, size=(n, m))
    kw = {}
    if isinstance(surf, rsu.PolynomialApproximation):
        if r.chance(.5):
            kw['weights'] = posweights(r, n)
    else:
        if r.chance(.5):
            kw['v'] = r.uniform(0, .1, size=(n, 1))
        if r.chance(.5):
            kw['e'] = spectrum(r, m + r.int(0, 2)) + .05
    surf.train(X, r.mat(n, 1), **kw)
    if r.chance(.5):
        surf.predict(X[:2] + .1, compgrad=r.chance(.5))
    return surf


@case('P15', 120)
def reproduction(r):
    m, N = r.int(1, 4), r.int(1, 3)
    p = comb(N + m, m)
    M = r.int(p, p + 15)
    X = r.uniform(-1.5, 1.5, size=(M, m))
    rows = monos(N, m)
    c = dict((a, float(r.mat(1)[0])) for a in rows)
    w = r.pick(None, posweights(r, M))
    B = np.array([[np.prod([x[k] ** a[k] for k in range(m)]) for a in rows] for x in X])
    if np.linalg.cond(B * (1 if w is None else w)) > 1e5:
        raise Skip()
    pr = rsu.PolynomialApproximation(N) if r.chance(.5) else rsu.PolynomialApproximation(N=N)
    f = polyval(X, c)
    used(r, pr, m)
    if w is None:
        pr.train(r.layout(X), f)
    else:
        pr.train(X, f, weights=w)
    Z = r.uniform(-2, 2, size=(r.int(1, 5), m))
    if r.chance(.3):
        Z[0] = 0
    close(pr.predict(Z)[0], polyval(Z, c), 'reproduction', 1e-6, 1e-6)
    check(pr.predict(Z)[1] is None, 'gradient computed although not asked for')
    fv, df = pr.predict(Z, compgrad=True)
    close(fv, polyval(Z, c), 'reproduction with gradient', 1e-6, 1e-6)
    close(df, polyder(Z, c), 'gradient', 1e-5, 1e-5)
    close(pr.gradient(Z), polyder(Z, c), 'gradient', 1e-5, 1e-5)
    close(pr(Z), polyval(Z, c), 'call', 1e-6, 1e-6)
    z = np.zeros((1, m))
    close(pr.g, polyder(z, c).T, 'linear coefficients g', 1e-5, 1e-5)
    if N >= 2:
        H = np.zeros((m, m))
        for a in itertools.product(range(m), repeat=2):
            key = [0] * m
            key[a[0]] += 1
            key[a[1]] += 1
            H[a] = c[tuple(key)] * (2 if a[0] == a[1] else 1)
        close(pr.H, H, 'Hessian', 1e-5, 1e-5)
        check(np.array_equal(pr.H, pr.H.T), 'Hessian not symmetric')
    if np.var(f) > 1e-6:
        close(pr.Rsqr, 1, 'R squared', 0, 1e-6)


@case('P15', 60)
def gradient_of_predictions(r):
    m, N = r.int(1, 3), r.int(1, 4)
    p = comb(N + m, m)
    M = p + r.int(0, 10)
    X = r.uniform(-1, 1, size=(M, m))
    pr = used(r, rsu.PolynomialApproximation(N), m)
    pr.train(X, r.mat(M, 1))
    B, I = rsu.polynomial_bases(X, N)
    c = {}
    for a, v in zip(I, pr.poly_weights[:, 0]):
        c[tuple(int(t) for t in a)] = v
    Z = r.uniform(-1, 1, size=(4, m))
    f, df = pr.predict(Z, True)
    s = max(1, np.max(np.abs(pr.poly_weights)))
    close(f / s, polyval(Z, c) / s, 'prediction', 1e-8, 1e-8)
    close(df / s, polyder(Z, c) / s, 'predicted gradient is not the derivative of the prediction', 1e-8, 1e-8)
    close(pr.g / s, polyder(np.zeros((1, m)), c).T / s, 'g', 1e-8, 1e-8)


@case('P15', 30)
def too_few(r):
    m, N = r.int(1, 3), r.int(1, 3)
    p = comb(N + m, m)
    pr = rsu.PolynomialApproximation(N)
    M = r.int(1, p - 1)
    check(raises(lambda: pr.train(r.mat(M, m), r.mat(M, 1))), 'training accepted %d < %d samples' % (M, p))


# P16 -------------------------------------------------------------------------------------------------------
def rbf_setup(r):
    m, N = r.int(1, 3), r.pick(1, 2, 2)
    p = comb(N + m, m)
    M = p + r.int(1, 8)
    X = r.uniform(-1, 1, size=(M, m))
    rb = rsu.RadialBasisApproximation(N)
    f = np.sin(2 * X.dot(r.mat(m, 1))) + .2 * X[:, :1] ** 2
    v = r.pick(None, None, r.uniform(0, .1, size=(M, 1)), np.zeros((M, 1)))
    e = r.pick(None, spectrum(r, m + r.int(0, 2)))
    if e is not None:
        e = e + .05
    B = rsu.polynomial_bases(X, N)[0]
    if np.linalg.cond(B) > 1e4:
        raise Skip()
    used(r, rb, m)
    return m, N, M, X, f, v, e, rb, B


def kern(X, Y, ell):
    l = np.asarray(ell).ravel()
    return np.exp(-np.sum((X[:, None, :] - Y[None, :, :]) ** 2 / l, axis=2))


@case('P16', 60)
def saddle(r):
    m, N, M, X, f, v, e, rb, B = rbf_setup(r)
    rb.train(X.copy(), f.copy(), v=None if v is None else v.copy(), e=None if e is None else e.copy())
    ell = np.ravel(rb.ell)
    check(ell.size == m and np.all(ell > 0), 'length scales', ell)
    if e is not None:
        g = ell * e[:m, 0] / np.sum(e)
        close(g, np.full(m, g[0]), 'length scales are not inversely proportional to the eigenvalues', 1e-8, 0)
        if v is None:
            v = g[0] * np.sum(e[m:]) * np.ones((M, 1))
    else:
        close(ell, np.full(m, ell[0]), 'length scales differ')
        if v is None:
            v = np.zeros((M, 1))
    noise = np.maximum(v, 1e-6)
    K = kern(X, X, ell)
    close(rb.K, K + np.diag(noise[:, 0]), 'covariance matrix', 1e-9, 1e-12)
    s = max(1, np.max(np.abs(rb.radial_weights)))
    close((rb.K.dot(rb.radial_weights) + B.dot(rb.poly_weights) - f) / s, np.zeros((M, 1)), 'first block of the saddle-point system', 0, 1e-7)
    close(B.T.dot(rb.radial_weights) / s, np.zeros((B.shape[1], 1)), 'radial weights not orthogonal to the polynomials', 0, 1e-7)
    close((rb.predict(X)[0] - (f - noise * rb.radial_weights)) / s, np.zeros((M, 1)), 'prediction at the training points', 0, 1e-7)
    Z = r.uniform(-1.2, 1.2, size=(4, m))
    want = kern(Z, X, ell).dot(rb.radial_weights) + rsu.polynomial_bases(Z, N)[0].dot(rb.poly_weights)
    fz, none = rb.predict(Z)
    check(none is None, 'gradient computed although not asked for')
    close(fz / s, want / s, 'prediction', 1e-8, 1e-8)
    f2, df = rb.predict(Z, compgrad=True)
    close(f2 / s, want / s, 'prediction with gradient', 1e-8, 1e-8)
    dk = kern(Z, X, ell)[:, :, None] * (-2 * (Z[:, None, :] - X[None, :, :]) / ell)
    dB = rsu.grad_polynomial_bases(Z, N)
    wd = np.array([[(dk[i, :, k].dot(rb.radial_weights) + dB[i, :, k].dot(rb.poly_weights))[0] for k in range(m)] for i in range(4)])
    close(df / s, wd / s, 'predicted gradient', 1e-8, 1e-7)
    close(rb.gradient(Z) / s, wd / s, 'gradient', 1e-8, 1e-7)
    close(rb(Z) / s, want / s, 'call', 1e-8, 1e-8)


@case('P16', 30)
def rbf_poly(r):
    m, N, M, X, f, v, e, rb, B = rbf_setup(r)
    c = dict((a, float(r.mat(1)[0])) for a in monos(N, m))
    rb.train(X, polyval(X, c), v=v, e=e)
    Z = r.uniform(-1, 1, size=(4, m))
    close(rb.predict(Z)[0], polyval(Z, c), 'polynomial reproduction', 1e-4, 1e-4)


@case('P16', 80)
def kernels(r):
    m, a, b = r.int(1, 4), r.int(1, 6), r.int(1, 6)
    X, Y = r.layout(r.mat(a, m)), r.mat(b, m)
    ell = r.uniform(.2, 3, size=(m, 1))
    s = r.pick(1.0, 2.5)
    close(rsu.exponential_squared(X, Y, s, ell), s * kern(X, Y, ell), 'kernel', 1e-9, 1e-12)
    G = rsu.grad_exponential_squared(X, Y, s, ell)
    close(G, s * kern(X, Y, ell)[:, :, None] * (-2 * (X[:, None, :] - Y[None, :, :]) / ell.ravel()) * 1.0, 'kernel gradient', 1e-9, 1e-12) \
        if rbf_sign() > 0 else close(G, s * kern(X, Y, ell)[:, :, None] * (2 * (X[:, None, :] - Y[None, :, :]) / ell.ravel()), 'kernel gradient', 1e-9, 1e-12)


def rbf_sign():
    return -1      # the helper differentiates with respect to the points of its second argument


@case('P16', 20)
def rbf_too_few(r):
    m, N = r.int(1, 3), r.int(1, 2)
    M = r.int(1, comb(N + m, m) - 1)
    rb = rsu.RadialBasisApproximation(N)
    check(raises(lambda: rb.train(r.mat(M, m), r.mat(M, 1))), 'training accepted too few samples')


# P17 -------------------------------------------------------------------------------------------------------
class Recorder(rsu.ResponseSurface):
    def train(self, X, f, *a, **k):
        self.data = (np.array(X), np.array(f), a, dict(k))


class RecorderRBF(rsu.RadialBasisApproximation):
    def train(self, X, f, v=None, e=None):
        self.data = (np.array(X), np.array(f), None if v is None else np.array(v), None if e is None else np.array(e))


@case('P17', 60)
def chain_rule(r):
    avm, s, W = r.pick(lambda q: unb_map(q, q.int(2, 5)), interval_map)(r)
    m, n = s.W1.shape
    N = r.int(1, 2)
    M = comb(N + n, n) + 10
    surf = r.pick(rsu.PolynomialApproximation(N), rsu.RadialBasisApproximation(N))
    a = rs.ActiveSubspaceResponseSurface(avm, surf)
    X = r.uniform(-1, 1, size=(M, m))
    f = np.sin(X.dot(r.mat(m, 1)))
    a.train_with_data(X, f)
    Z = r.uniform(-1, 1, size=(r.int(1, 4), m))
    Y = Z.dot(s.W1)
    fv, dv = surf.predict(Y, compgrad=True)
    sc = max(1, np.max(np.abs(fv)), np.max(np.abs(dv)))
    p, none = a.predict(Z)
    check(none is None, 'gradient computed although not asked for')
    close(p / sc, fv / sc, 'prediction')
    p, g = a.predict(Z, compgrad=True)
    close(p / sc, fv / sc, 'prediction with gradient')
    close(g / sc, dv.dot(s.W1.T) / sc, 'chain rule')
    close(a.gradient(Z) / sc, dv.dot(s.W1.T) / sc, 'gradient')
    close(a(Z) / sc, fv / sc, 'call')
    pa, ga = a.predict_av(Y, compgrad=True)
    close(pa / sc, fv / sc, 'predict_av')
    close(ga / sc, dv / sc, 'predict_av gradient')
    close(a.gradient_av(Y) / sc, dv / sc, 'gradient_av')
    if r.chance(.4):
        # the subspace is recomputed or partitioned anew with the same dimension: everything follows
        B = r.orth(m)
        s.eigenvecs = B
        s.partition(n)
        p, g = a.predict(Z, compgrad=True)
        fv, dv = surf.predict(Z.dot(B[:, :n]), compgrad=True)
        close(p / sc, fv / sc, 'prediction after the subspace has changed')
        close(g / sc, dv.dot(B[:, :n].T) / sc, 'chain rule after the subspace has changed')
    if n < m:
        close(a.predict(Z + r.mat(Z.shape[0], m - n).dot(s.W2.T))[0] / sc, fv / sc, 'invariance along inactive directions', 1e-5, 1e-5)


@case('P17', 80)
def training_data(r):
    avm, s, W = r.pick(lambda q: unb_map(q, q.int(2, 5)), interval_map)(r)
    m, n = s.W1.shape
    X, f = r.mat(r.int(2, 9), m), None
    f = r.mat(X.shape[0], 1)
    v = r.pick(None, r.uniform(0, 1, size=f.shape))
    rec = r.pick(Recorder, RecorderRBF)()
    a = rs.ActiveSubspaceResponseSurface(avm, rec)
    a.train_with_data(X, f, v=v) if v is not None else a.train_with_data(X, f)
    close(rec.data[0], X.dot(s.W1), 'training inputs')
    close(rec.data[1], f, 'training outputs')
    if isinstance(rec, RecorderRBF):
        check((rec.data[2] is None) == (v is None) and (v is None or np.array_equal(rec.data[2], v)), 'noise not handed on')
        check(rec.data[3] is not None and np.array_equal(rec.data[3], s.eigenvals), 'eigenvalues not handed on')


@case('P17', 60)
def interface_data(r):
    bounded = r.chance(.5)
    avm, s, W = interval_map(r) if bounded else unb_map(r, r.int(2, 4), r.int(1, 2))
    m, n = s.W1.shape
    NMC, N = r.pick(1, 2, 3, 10), r.int(1, 6)
    f = blackbox(r, m)
    log = []

    def g(x):
        check(np.shape(x) == (1, m), 'model called with shape %s' % (np.shape(x),))
        v = f(x)
        log.append((np.array(x).reshape(-1).copy(), v))
        return v
    rec = RecorderRBF()
    a = rs.ActiveSubspaceResponseSurface(avm, rec)
    fun = simrunners.SimulationRunner(g) if r.chance(.5) else g
    a.train_with_interface(fun, N) if NMC == 10 else a.train_with_interface(fun, N, NMC=NMC)
    Y = rec.data[0]
    if bounded:
        D = dn.interval_design(avm.domain.vertY[0, 0], avm.domain.vertY[1, 0], N)
        close(Y[N:], avm.domain.vertY, 'vertices missing from the training points')
    else:
        D = gq.gauss_hermite([root(N, n)] * n)[0]
    K = D.shape[0]
    nv = 2 if bounded else 0
    close(Y[:K], D, 'design points')
    check(Y.shape == (K + nv, n), 'training set size', Y.shape)
    check(rec.data[1].shape == (K + nv, 1), 'training outputs shape')
    check(len(log) == K * NMC + nv, 'model called %d times, expected %d' % (len(log), K * NMC + nv))
    groups = [[] for _ in range(K + nv)]
    rest = list(log)
    if bounded:
        for q in range(nv):
            hit = [t for t in rest if np.allclose(t[0], avm.domain.vertX[q])]
            check(hit, 'model not evaluated at a vertex')
            groups[K + q].append(hit[0][1])
            rest = [t for t in rest if t is not hit[0]]
    for x, v in rest:
        d = np.sum((D - x.dot(s.W1)) ** 2, axis=1)
        check(d.min() < 1e-10, 'model evaluated away from the design')
        groups[int(np.argmin(d))].append(v)
    check(all(len(groups[k]) == NMC for k in range(K)), 'design points do not get NMC evaluations each')
    close(rec.data[1][:, 0], [np.mean(t) for t in groups], 'training outputs are not the means of their own evaluations', 1e-8, 1e-8)
    check(rec.data[2] is not None, 'noise not handed on')
    close(np.ravel(rec.data[2]), [np.var(t) for t in groups], 'noise is not the variance of its own evaluations', 1e-7, 1e-8)


@case('P17', 6, True)
def interface_zonotope(r):
    avm, s, W = zono_map(r)
    m, n = s.W1.shape
    f = blackbox(r, n)
    rec = RecorderRBF()
    a = rs.ActiveSubspaceResponseSurface(avm, rec)
    N = r.int(1, 3)
    a.train_with_interface(lambda x: f(x.dot(s.W1)), N, NMC=1)
    Y = rec.data[0]
    check(Y.shape[0] == N + avm.domain.vertY.shape[0], 'training set size')
    close(Y[N:], avm.domain.vertY, 'vertices')
    close(rec.data[1][:, 0], [f(y) for y in Y], 'outputs do not belong to their inputs', 1e-6, 1e-6)


@case('P17', 20)
def default_surface(r):
    avm, s, W = unb_map(r, 3, 1)
    a = rs.ActiveSubspaceResponseSurface(avm)
    check(isinstance(a.respsurf, rsu.RadialBasisApproximation), 'default surface')
    b = rs.ActiveSubspaceResponseSurface(avm)
    check(a.respsurf is not b.respsurf, 'two surfaces share one fit')


# P18 -------------------------------------------------------------------------------------------------------
class FakeMinimize(object):
    """stand-in for scipy.optimize.minimize with scripted outcomes"""

    def __init__(self, script):
        self.script, self.calls = list(script), []

    def __call__(self, fun, x0, *a, **k):
        t = self.script[min(len(self.calls), len(self.script) - 1)]
        self.calls.append((np.array(x0), a, k))
        ok, x = t
        return scipy.optimize.OptimizeResult(success=ok, x=np.array(x), fun=float(fun(np.array(x))), message='scripted')

    def __enter__(self):
        self.old = scipy.optimize.minimize
        scipy.optimize.minimize = self
        self.old2 = getattr(op, 'minimize', None)
        return self

    def __exit__(self, *a):
        scipy.optimize.minimize = self.old


def fake_domain(kind, n, m=None):
    m = m or n + 1
    s = subspace_of(np.eye(m), n)
    if kind == 'u':
        return dom.UnboundedActiveVariableDomain(s)

    class D(dom.BoundedActiveVariableDomain):
        def __init__(self, s):
            self.subspaces = s
            self.m, self.n = s.W1.shape
            self.vertY = np.array(list(itertools.product([-1., 1.], repeat=n)))
            A = np.vstack((np.eye(n), -np.eye(n)))
            self.constraints = ({'type': 'ineq', 'fun': lambda x: np.dot(A, x) + 1.0, 'jac': lambda x: A})
    return D(s)


@case('P18', 80)
def restarts(r):
    n = r.int(1, 3)
    kind = r.pick('u', 'b') if n > 1 else 'u'
    d = fake_domain(kind, n)
    c = r.mat(n)
    f = lambda y: float(np.sum((np.asarray(y).reshape(-1) - c) ** 2)) + 0.0
    df = r.pick(None, lambda y: 2 * (np.asarray(y).reshape(-1) - c))
    script = [(True, r.uniform(-1, 1, size=n)) for _ in range(40)]
    if r.chance(.3):
        # values that differ little between the restarts, or not at all, of either sign
        tiny, f1, off = r.pick(0, 1e-5, 1e-9), f, r.pick(3.0, -3.0, 1e4)
        f = lambda y: off + tiny * f1(y)
    with FakeMinimize(script) as F:
        y, v = op.av_minimize(f, d, df)
    k = len(F.calls)
    check(k >= 1, 'no local solve')
    vals = [f(x) for ok, x in script[:k]]
    check(np.shape(y) == (1, n), 'minimiser shape', np.shape(y))
    close(v, min(vals), 'reported value is not the smallest over the restarts', 0, 0)
    close(f(y), v, 'reported point does not have the reported value', 0, 0)


@case('P18', 40)
def solver_failure(r):
    n = r.int(1, 3)
    kind = r.pick('u', 'b') if n > 1 else 'u'
    d = fake_domain(kind, n)
    f = lambda y: float(np.sum(np.asarray(y).reshape(-1) ** 2))
    bad = r.int(0, 9)
    script = [(i != bad, r.uniform(-1, 1, size=n)) for i in range(40)]
    with FakeMinimize(script) as F:
        try:
            op.av_minimize(f, d, r.pick(None, lambda y: 2 * np.asarray(y).reshape(-1)))
        except Exception:
            return
    check(len(F.calls) <= bad, 'a failed local solve was ignored')


@case('P18', 60)
def interval_min(r):
    avm, s, W = interval_map(r)
    d = avm.domain
    a = d.vertY[1, 0]
    k = r.pick('quad', 'lin', 'cos')
    c = r.uniform(-2, 2)
    f = {'quad': lambda y: (float(np.ravel(y)[0]) - c) ** 2, 'lin': lambda y: c * float(np.ravel(y)[0]), 'cos': lambda y: np.cos(3 * float(np.ravel(y)[0]) + c)}[k]
    y, v = op.av_minimize(f, d)
    check(np.shape(y) == (1, 1), 'shape')
    check(-a - 1e-9 <= y[0, 0] <= a + 1e-9, 'outside the interval')
    close(v, f(y), 'reported value')
    if k == 'quad':
        close(y[0, 0], min(max(c, -a), a), 'not the minimiser', 0, 1e-3)
    if k == 'lin' and abs(c) > .1:
        close(y[0, 0], -a * np.sign(c), 'not the minimiser', 0, 1e-3)


@case('P18', 12, True)
def zono_min(r):
    avm, s, W = zono_map(r)
    n = s.W1.shape[1]
    c = r.mat(n) * r.pick(.2, 3)
    f = lambda y: float(np.sum((np.ravel(y) - c) ** 2))
    y, v = op.av_minimize(f, avm.domain, r.pick(None, lambda y: 2 * (np.ravel(y) - c)))
    check(np.shape(y) == (1, n), 'shape')
    con = avm.domain.constraints
    con = con if isinstance(con, dict) else con[0]
    check(np.all(avm.domain.convhull.equations[:, :n].dot(y[0]) + avm.domain.convhull.equations[:, n] <= 1e-6), 'outside the zonotope')
    close(v, f(y), 'reported value')
    for k in range(30):
        x = r.uniform(-1, 1, size=s.W1.shape[0])
        check(v <= f(x.dot(s.W1)) + 1e-5, 'a feasible point is better')


@case('P18', 20)
def unb_min(r):
    n = r.int(1, 3)
    d = fake_domain('u', n)
    c = r.mat(n)
    f = lambda y: float(np.sum((np.ravel(y) - c) ** 2)) + 1
    y, v = op.av_minimize(f, d, r.pick(None, lambda y: 2 * (np.ravel(y) - c)))
    close(y, c.reshape((1, n)), 'not the minimiser', 0, 1e-3)
    close(v, f(y), 'reported value')


@case('P18', 30)
def full_minimize(r):
    bounded = r.chance(.5)
    m = r.int(3, 4)
    avm, s, W = interval_map(r, m) if bounded else unb_map(r, m, 1)
    M = 40
    X = r.uniform(-1, 1, size=(M, m))
    A = np.diag(r.uniform(.5, 2, size=m))
    b = .3 * r.mat(m, 1)
    f = X.dot(b) + .5 * np.sum(X.dot(A) * X, axis=1, keepdims=True)
    a = rs.ActiveSubspaceResponseSurface(avm, rsu.PolynomialApproximation(2))
    a.train_with_data(X, f)
    if a.respsurf.H[0, 0] < .05:
        raise Skip()
    x, v = op.minimize(a, X, f)
    check(np.shape(x) == (1, m), 'shape')
    close(a.predict(x)[0][0, 0], v, 'reported value is not that of the surface at the reported point', 1e-6, 1e-6)
    if bounded:
        check(np.max(np.abs(x)) <= 1 + 1e-6, 'outside the hypercube')
    for k in range(20):
        z = r.uniform(-1, 1, size=(1, m))
        check(v <= a.predict(z)[0][0, 0] + 1e-4, 'surface lower elsewhere in the domain')


# P19 -------------------------------------------------------------------------------------------------------
def minmap_setup(r, bounded):
    m = r.int(2, 5)
    n = r.int(1, m - 1)
    W = r.orth(m, ('qr', 'qr', 'block'))
    s = subspace_of(W, n)
    p = n + 2 if m - n > 2 else n + 1
    M = comb(p + 2, 2) + 15
    X = r.uniform(-1, 1, size=(M, m))
    B = r.mat(m, m)
    A = B.dot(B.T) * .3 + .1 * np.eye(m)
    A = W[:, :p].dot(W[:, :p].T).dot(A).dot(W[:, :p]).dot(W[:, :p].T)
    b = W[:, :p].dot(r.mat(p, 1))
    f = 1 + X.dot(b) + .5 * np.sum(X.dot(A) * X, axis=1, keepdims=True)
    if bounded:
        class D(dom.BoundedActiveVariableDomain):
            def __init__(self, s):
                self.subspaces = s
                self.m, self.n = s.W1.shape
        mv = op.BoundedMinVariableMap(D(s))
    else:
        mv = op.UnboundedMinVariableMap(dom.UnboundedActiveVariableDomain(s))
    if r.chance(.3):
        mv.train(r.uniform(-1, 1, size=(M, m)), r.mat(M, 1))
        if r.chance(.5):
            try:
                mv.inverse(np.zeros((1, n)))
            except Exception:
                pass
    mv.train(X, f)
    x0 = r.uniform(-.8, .8, size=(r.int(1, 3), m))
    return m, n, W, s, A, b, mv, x0.dot(W[:, :n])


@case('P19', 60)
def unbounded_minmap(r):
    m, n, W, s, A, b, mv, Y = minmap_setup(r, False)
    W1, W2 = W[:, :n], W[:, n:]
    X, ind = mv.inverse(Y)
    check_inverse(mv, Y, X, ind, 1, m)
    for k in range(Y.shape[0]):
        y = Y[int(ind[k, 0])]
        c = W2.T.dot(b[:, 0] + A.dot(W1.dot(y)))
        z = np.linalg.solve(W2.T.dot(A).dot(W2) + .01 * np.eye(m - n), -c)
        close(W2.T.dot(X[k]), z, 'inactive variables are not the minimiser', 1e-5, 1e-5)


@case('P19', 60)
def fitted_model(r):
    """data that is no quadratic of the leading coordinates: the model is the least-squares one on exactly p of them"""
    m = r.int(2, 6)
    n = r.int(1, m - 1)
    W = r.orth(m, ('qr', 'qr', 'block'))
    s = subspace_of(W, n)
    p = n + 2 if m - n > 2 else n + 1
    M = comb(m + 2, 2) + 15
    X = r.mat(M, m)
    B = r.mat(m, m)
    f = np.cos(X.dot(r.mat(m, 1))) + X.dot(r.mat(m, 1)) + .5 * np.sum(X.dot(B.dot(B.T) + np.eye(m)) * X, axis=1, keepdims=True)
    Y = X.dot(W[:, :p])
    I = [(i, j) for i in range(p) for j in range(i, p)]
    V = np.hstack([np.ones((M, 1)), Y] + [Y[:, i:i + 1] * Y[:, j:j + 1] for i, j in I])
    if np.linalg.cond(V) > 1e4:
        raise Skip()
    u = np.linalg.lstsq(V, f, rcond=-1)[0][:, 0]
    g, H = u[1:p + 1], np.zeros((p, p))
    for q, (i, j) in enumerate(I):
        H[i, j] += u[p + 1 + q]
        H[j, i] += u[p + 1 + q]
    b, A = W[:, :p].dot(g), W[:, :p].dot(H).dot(W[:, :p].T)
    mv = op.UnboundedMinVariableMap(dom.UnboundedActiveVariableDomain(s))
    mv.train(X, f)
    W1, W2 = W[:, :n], W[:, n:]
    Q = W2.T.dot(A).dot(W2) + .01 * np.eye(m - n)
    if np.linalg.eigvalsh(Q)[0] < 1e-3:
        raise Skip()
    Y = r.mat(r.int(1, 3), n)
    Z = mv.regularize_z(Y, 1)
    check(np.shape(Z) == (Y.shape[0], m - n, 1), 'shape of the inactive variables')
    for k in range(Y.shape[0]):
        z = np.linalg.solve(Q, -W2.T.dot(b + A.dot(W1.dot(Y[k]))))
        close(Z[k, :, 0], z, 'inactive variables do not minimise the model fitted on %d of %d coordinates' % (p, m), 1e-5, 1e-5)


@case('P19', 80)
def bounded_minmap(r):
    m, n, W, s, A, b, mv, Y = minmap_setup(r, True)
    W1, W2 = W[:, :n], W[:, n:]
    X, ind = mv.inverse(Y, 1)
    check_inverse(mv, Y, X, ind, 1, m)
    check(np.max(np.abs(X)) <= 1 + 1e-5, 'outside the hypercube')
    for k in range(Y.shape[0]):
        y = Y[int(ind[k, 0])]
        c = W2.T.dot(b[:, 0] + A.dot(W1.dot(y)))
        Q = W2.T.dot(A).dot(W2) + .01 * np.eye(m - n)
        obj = lambda z: c.dot(z) + .5 * z.dot(Q).dot(z)
        z = W2.T.dot(X[k])
        res = scipy.optimize.minimize(obj, z, jac=lambda z: c + Q.dot(z), method='SLSQP', options={'ftol': 1e-12},
                                      constraints=({'type': 'ineq', 'fun': lambda z: 1 - W1.dot(y) - W2.dot(z), 'jac': lambda z: -W2},
                                                   {'type': 'ineq', 'fun': lambda z: 1 + W1.dot(y) + W2.dot(z), 'jac': lambda z: W2}))
        for z2 in (res.x, .5 * z + .5 * res.x):
            if np.max(np.abs(W1.dot(y) + W2.dot(z2))) <= 1 + 1e-7:
                check(obj(z) <= obj(z2) + 1e-4 * (1 + abs(obj(z2))), 'a feasible point has a smaller model value', obj(z), obj(z2))


@case('P19', 20)
def only_one(r):
    m, n, W, s, A, b, mv, Y = minmap_setup(r, r.chance(.5))
    check(raises(lambda: mv.inverse(Y, r.int(2, 4))), 'N != 1 accepted')


# P20 -------------------------------------------------------------------------------------------------------
class Lin(object):
    """expressions of the stand-in for the commercial solver: polynomials of degree <= 2 in the variables"""

    def __init__(self, d=None):
        self.d = dict(d or {})

    def _add(self, o, s):
        r = Lin(self.d)
        for k, v in (o.d.items() if isinstance(o, Lin) else {(): float(o)}.items()):
            r.d[k] = r.d.get(k, 0) + s * v
        return r

    def __add__(self, o): return self._add(o, 1)
    __radd__ = __add__
    def __sub__(self, o): return self._add(o, -1)
    def __rsub__(self, o): return Lin()._add(o, 1)._add(self, -1)
    def __neg__(self): return self * -1
    def addTerms(self, c, v):
        for k, x in self._add(v * float(c), 1).d.items():
            self.d[k] = x

    def add(self, o, mult=1.0):
        for k, x in self._add(o * mult, 1).d.items():
            self.d[k] = x

    def __mul__(self, o):
        if not isinstance(o, Lin):
            return Lin((k, v * float(o)) for k, v in self.d.items())
        r = Lin()
        for k, v in self.d.items():
            for l, w in o.d.items():
                q = tuple(sorted(k + l))
                r.d[q] = r.d.get(q, 0) + v * w
        return r
    __rmul__ = __mul__
    def __le__(self, o): return (self, '<', o)
    def __ge__(self, o): return (self, '>', o)
    def __eq__(self, o): return (self, '=', o)
    __hash__ = None


def fake_gurobi(outcome):
    g = types.ModuleType('gurobipy')
    log = []

    class GRB(object):
        CONTINUOUS, BINARY, INTEGER = 'C', 'B', 'I'
        INFINITY = 1e100
        EQUAL, LESS_EQUAL, GREATER_EQUAL = '=', '<', '>'
        MINIMIZE, MAXIMIZE = 1, -1
        OPTIMAL, INFEASIBLE, UNBOUNDED, SUBOPTIMAL = 2, 3, 5, 13

    class Model(object):
        def __init__(self, *a):
            self.lb, self.ub, self.cons, self.obj, self.sense, self.status = [], [], [], Lin(), 1, 1
            self.done = False
            log.append(self)

        def setParam(self, *a): pass
        def update(self): pass

        def addVar(self, lb=0.0, ub=1e100, obj=0.0, vtype='C', name=''):
            if vtype != 'C':
                raise Fail('a variable is not continuous')
            self.lb.append(float(lb))
            self.ub.append(float(ub))
            v = Lin({(len(self.lb) - 1,): 1.0})
            if obj:
                self.obj = self.obj + v * obj
            return v

        def addConstr(self, lhs, sense=None, rhs=None, name=''):
            if isinstance(lhs, tuple):
                lhs, sense, rhs = lhs
            self.cons.append((Lin(lhs.d), sense, float(rhs) if not isinstance(rhs, Lin) else rhs))

        def setObjective(self, expr, sense=1):
            self.obj, self.sense = Lin(expr.d), sense

        def parts(self):
            n = len(self.lb)
            c, Q = np.zeros(n), np.zeros((n, n))
            for k, v in self.obj.d.items():
                if len(k) == 1:
                    c[k[0]] += v
                elif len(k) == 2:
                    Q[k] += v / 2
                    Q[k[::-1]] += v / 2
            A, s, b = [], [], []
            for e, sense, rhs in self.cons:
                row = np.zeros(n)
                for k, v in e.d.items():
                    if len(k) == 1:
                        row[k[0]] += v
                    elif len(k) == 0:
                        rhs = rhs - v
                A.append(row)
                s.append(sense)
                b.append(rhs)
            return c, Q, np.array(A).reshape((-1, n)), s, np.array(b)

        def optimize(self):
            self.done = True
            self.status = outcome[0]
            c, Q, A, s, b = self.parts()
            n = len(c)
            self.x = np.linspace(1, 2, n) if outcome[1] is None else np.array(outcome[1])

        def getAttr(self, what, vs=None):
            if not self.done or what not in ('x', 'X'):
                raise AttributeError(what)
            ids = [list(v.d)[0][0] for v in vs] if vs is not None else range(len(self.lb))
            return [float(self.x[i]) for i in ids]

        def getVars(self): return [Lin({(i,): 1.0}) for i in range(len(self.lb))]
    g.GRB, g.Model, g.LinExpr, g.QuadExpr = GRB, Model, Lin, Lin
    g.quicksum = lambda it: sum(it, Lin())
    g.log = log
    return g


class Gurobi(object):
    def __init__(self, outcome):
        self.g = fake_gurobi(outcome)

    def __enter__(self):
        self.old = (qp.HAS_GUROBI, getattr(qp, 'gpy', None), sys.modules.get('gurobipy'))
        qp.HAS_GUROBI, qp.gpy = True, self.g
        sys.modules['gurobipy'] = self.g
        return self.g

    def __exit__(self, *a):
        qp.HAS_GUROBI = self.old[0]
        if self.old[1] is None:
            del qp.gpy
        else:
            qp.gpy = self.old[1]
        if self.old[2] is None:
            del sys.modules['gurobipy']


def gurobi_case(kind):
    def f(r):
        n, k = r.int(1, 5), r.int(1, 6)
        c, A, b = r.mat(n, 1), r.mat(k, n), r.mat(k, 1)
        B = r.mat(n, n)
        Q = B.dot(B.T)
        if r.chance(.3):
            Q = B + B.T
        lb = -r.uniform(0, 2, size=(n, 1))
        ub = lb + r.uniform(.5, 3, size=(n, 1))
        x = r.mat(n)
        ok = r.chance(.85)
        with Gurobi((2 if ok else r.pick(3, 5, 13), x)) as g:
            q = qp.QPSolver('GUROBI') if r.chance(.5) else qp.QPSolver()
            check(q.solver == 'GUROBI', 'available back end not used')
            call = {'lp_eq': lambda: q.linear_program_eq(c, A, b, lb, ub), 'lp_ineq': lambda: q.linear_program_ineq(c, A, b),
                    'qp_bnd': lambda: q.quadratic_program_bnd(c, Q, lb, ub), 'qp_ineq': lambda: q.quadratic_program_ineq(c, Q, A, b)}[kind]
            if not ok:
                check(raises(call), '%s returns a result without an optimum' % kind)
                return
            out = call()
        check(np.shape(out) == (n, 1), 'result shape', np.shape(out))
        close(out[:, 0], x, 'the optimum is not what is returned', 0, 0)
        M = g.log[-1]
        c2, Q2, A2, s2, b2 = M.parts()
        sg = M.sense
        close(sg * c2, c[:, 0], kind + ': linear objective', 1e-9, 1e-12)
        close(sg * Q2, Q if kind.startswith('qp') else np.zeros((n, n)), kind + ': quadratic objective', 1e-9, 1e-12)
        if kind in ('lp_eq', 'qp_bnd'):
            close(M.lb, lb[:, 0], 'lower bounds')
            close(M.ub, ub[:, 0], 'upper bounds')
        else:
            check(np.all(np.array(M.lb) <= -1e20) and np.all(np.array(M.ub) >= 1e20), 'variables are not free')
        if kind == 'qp_bnd':
            check(len(s2) == 0, 'unexpected constraints')
        else:
            want = []
            for i in range(k):
                want.append((tuple(np.round(A[i], 9)), '=' if kind == 'lp_eq' else '>', round(b[i, 0], 9)))
            got = []
            for row, s, rhs in zip(A2, s2, b2):
                if s == '<':
                    row, s, rhs = -row, '>', -rhs
                got.append((tuple(np.round(row, 9)), s, round(rhs, 9)))
            check(sorted(got) == sorted(want), kind + ': constraints', got, want)
    f.__name__ = 'gurobi_' + kind
    case('P20', 40)(f)


for _k in ('lp_eq', 'lp_ineq', 'qp_bnd', 'qp_ineq'):
    gurobi_case(_k)


def poly_lp(r):
    n = r.int(1, 4)
    k = r.int(1, 4)
    B = r.mat(k, n)
    A = np.vstack((B, np.eye(n), -np.eye(n)))
    x0 = r.uniform(-.5, .5, size=(n, 1))
    b = np.vstack((B.dot(x0) - r.uniform(.1, 1, size=(k, 1)), -2 * np.ones((2 * n, 1))))
    return n, A, b, x0


def best_vertex(c, A, b):
    n = A.shape[1]
    best = np.inf
    for idx in itertools.combinations(range(A.shape[0]), n):
        S = A[list(idx)]
        if abs(np.linalg.det(S)) < 1e-9:
            continue
        x = np.linalg.solve(S, b[list(idx), 0])
        if np.all(A.dot(x) >= b[:, 0] - 1e-9):
            best = min(best, c[:, 0].dot(x))
    return best


def solver(r):
    q = r.pick(qp.QPSolver(), qp.QPSolver('SCIPY'), qp.QPSolver('GUROBI'), qp.QPSolver('nonsense'), qp.QPSolver(solver='SCIPY'))
    check(q.solver == 'SCIPY', 'back end')
    return q


@case('P20', 80)
def scipy_lp_ineq(r):
    n, A, b, x0 = poly_lp(r)
    c = r.mat(n, 1) * r.pick(1, 1, 1, 0)
    x = solver(r).linear_program_ineq(c, A, b)
    check(np.shape(x) == (n, 1), 'shape')
    check(np.all(A.dot(x) >= b - 1e-7), 'infeasible', A.dot(x) - b)
    close(c[:, 0].dot(x[:, 0]), best_vertex(c, A, b), 'not optimal', 1e-6, 1e-6)


@case('P20', 80)
def scipy_lp_eq(r):
    n = r.int(1, 5)
    k = r.int(1, n)
    A = r.mat(k, n)
    lb = -r.uniform(0, 2, size=(n, 1)) - r.pick(0, 0, 5)
    ub = lb + r.uniform(.5, 3, size=(n, 1))
    x0 = lb + r.uniform(.2, .8, size=(n, 1)) * (ub - lb)
    b = A.dot(x0)
    c = r.mat(n, 1) * r.pick(1, 1, 0)
    if r.chance(.3):
        x0 = np.where(r.mat(n, 1) > 0, lb + .01 * (ub - lb), ub - .01 * (ub - lb))
        b = A.dot(x0)
    if r.chance(.3):
        # bounds that do not matter may be infinite: the program stays bounded because the cost is a combination of the rows of A
        lb, ub = np.where(r.mat(n, 1) > 0, -np.inf, lb), np.where(r.mat(n, 1) > 0, np.inf, ub)
        c = A.T.dot(r.mat(k, 1)) + np.where(np.isfinite(lb), 1., 0) - np.where(np.isfinite(ub), 1., 0)
    x = solver(r).linear_program_eq(c, A, b, lb, ub)
    check(np.shape(x) == (n, 1), 'shape')
    close(A.dot(x), b, 'equality violated', 1e-6, 1e-6)
    check(np.all(x >= lb - 1e-7) and np.all(x <= ub + 1e-7), 'bounds violated')
    N = np.linalg.svd(A)[2][k:].T
    for _ in range(20):
        z = x + N.dot(r.mat(n - k, 1)) * 10 ** r.uniform(-3, 0) if n > k else x
        if np.all(z >= lb) and np.all(z <= ub):
            check(c[:, 0].dot(x[:, 0]) <= c[:, 0].dot(z[:, 0]) + 1e-6, 'not optimal')
    check(c[:, 0].dot(x[:, 0]) <= c[:, 0].dot(x0[:, 0]) + 1e-6, 'not optimal')


@case('P20', 60)
def scipy_qp(r):
    n, A, b, x0 = poly_lp(r)
    B = r.mat(n, n)
    Q = B.dot(B.T) + .1 * np.eye(n)
    c = r.mat(n, 1) * r.pick(.3, 3, .3, 3, 0)
    obj = lambda x: float(c[:, 0].dot(x) + x.dot(Q).dot(x))
    q = solver(r)
    ineq = r.chance(.5)
    if ineq:
        x = q.quadratic_program_ineq(c, Q, A, b)
        check(np.all(A.dot(x) >= b - 1e-6), 'infeasible')
        feas = lambda z: np.all(A.dot(z) >= b[:, 0])
    else:
        lb = -r.uniform(0, 1, size=(n, 1))
        ub = lb + r.uniform(.5, 2, size=(n, 1))
        x = q.quadratic_program_bnd(c, Q, lb, ub)
        check(np.all(x >= lb - 1e-7) and np.all(x <= ub + 1e-7), 'bounds violated')
        feas = lambda z: np.all(z >= lb[:, 0]) and np.all(z <= ub[:, 0])
    check(np.shape(x) == (n, 1), 'shape')
    # the solver itself sometimes stops early and reports an optimum: posed by hand, the documented program then has the same outcome
    how = dict(method='SLSQP', constraints=({'type': 'ineq', 'fun': lambda x: A.dot(x) - b[:, 0], 'jac': lambda x: A})) if ineq else \
        dict(method='L-BFGS-B', bounds=[(lb[i, 0], ub[i, 0]) for i in range(n)])
    ref = scipy.optimize.minimize(obj, np.zeros(n), jac=lambda x: c[:, 0] + 2 * Q.dot(x), **how)
    z0 = np.linalg.solve(2 * Q, -c)[:, 0]
    grid = [x[:, 0] + d for d in r.mat(200, n) * 10.0 ** r.uniform(-2, .5, size=(200, 1))]
    if ref.success and abs(ref.fun - obj(x[:, 0])) < 1e-9 * (1 + abs(ref.fun)) and any(obj(z) < ref.fun - 1e-4 * (1 + abs(obj(z))) for z in grid + [z0] if feas(z)):
        raise Skip()
    if feas(z0):
        close(x[:, 0], z0, 'not the unconstrained optimum', 1e-3, 1e-3)
    for _ in range(60):
        z = x[:, 0] + r.mat(n) * 10.0 ** r.uniform(-2, .5)
        if feas(z):
            check(obj(x[:, 0]) <= obj(z) + 1e-4 * (1 + abs(obj(z))), 'not optimal', obj(x[:, 0]), obj(z))


@case('P20', 20)
def scipy_failure(r):
    q = qp.QPSolver('SCIPY')
    A, b = np.array([[1.0], [-1.0]]), np.array([[1.0], [1.0]])
    check(raises(lambda: q.linear_program_ineq(np.array([[1.0]]), A, b)), 'infeasible program solved')
    check(raises(lambda: q.linear_program_ineq(np.array([[-1.0]]), A[:1], b[:1])), 'unbounded program solved')
    check(raises(lambda: q.linear_program_eq(np.array([[1.0]]), A[:1], b[:1] * 5, np.zeros((1, 1)), np.ones((1, 1)))), 'infeasible program solved')
    check(raises(lambda: q.quadratic_program_ineq(np.array([[1.0]]), np.eye(1), A, b)), 'infeasible program solved')


@case('P20', 40)
def scipy_outcome(r):
    n, A, b, x0 = poly_lp(r)
    ok = r.chance(.5)
    x = r.mat(n)
    res = scipy.optimize.OptimizeResult(success=ok, x=x, fun=0.0, status=0 if ok else r.pick(1, 2, 3, 4), nit=1, message='scripted')
    old = qp.__dict__.get('linprog'), qp.__dict__.get('minimize')
    if old[0] is None or old[1] is None:
        raise Skip()
    qp.linprog = lambda *a, **k: res
    qp.minimize = lambda *a, **k: res
    q = qp.QPSolver('SCIPY')
    c, Q, lb, ub = r.mat(n, 1), np.eye(n), -np.ones((n, 1)), np.ones((n, 1))
    try:
        for call in (lambda: q.linear_program_ineq(c, A, b), lambda: q.linear_program_eq(c, A[:1], b[:1], lb, ub),
                     lambda: q.quadratic_program_bnd(c, Q, lb, ub), lambda: q.quadratic_program_ineq(c, Q, A, b)):
            if ok:
                close(call(), x.reshape((n, 1)), 'the optimum is not what is returned', 0, 0)
            else:
                check(raises(call), 'a failed solve returns a result')
    finally:
        qp.linprog, qp.minimize = old


# P21 -------------------------------------------------------------------------------------------------------
@case('P21', 150)
def runner(r):
    M, m = r.int(0, 8), r.int(1, 6)
    X = r.layout(r.mat(M, m)) if M else np.zeros((0, m))
    if r.chance(.2):
        X = np.round(3 * X).astype(int)
    if M > 1 and r.chance(.4):
        X[r.randint(M)] = X[r.randint(M)]
    log, vals = [], r.mat(M + 3)
    if r.chance(.2):
        vals[r.randint(M + 3)] = r.pick(np.nan, np.inf, -np.inf)
    form = r.pick('scalar', 'arr', 'np')

    def f(x):
        check(np.shape(x) == (1, m), 'model called with shape %s' % (np.shape(x),))
        log.append(np.array(x).copy())
        v = vals[len(log) - 1]
        return {'scalar': float(v), 'arr': np.array([[v]]), 'np': v}[form]
    run = simrunners.SimulationRunner(f)
    first = None
    if r.chance(.3):
        first = run.run(r.mat(r.pick(M, M + 1), m))
        keep, vals = first.copy(), vals[::-1].copy()
        del log[:]
    F = run.run(X)
    check(first is None or np.array_equal(first, keep, equal_nan=True), 'an earlier result is altered by a later run')
    check(len(log) == M, 'model called %d times for %d rows' % (len(log), M))
    for i in range(M):
        check(np.array_equal(log[i][0], X[i]), 'call %d does not get row %d' % (i, i))
    check(F.shape == (M, 1) and np.array_equal(F, vals[:M].reshape((M, 1)), equal_nan=True), 'results', F, vals)


@case('P21', 150)
def grad_runner(r):
    M, m = r.int(0, 8), r.int(1, 6)
    X = r.layout(r.mat(M, m)) if M else np.zeros((0, m))
    if r.chance(.2):
        X = np.round(3 * X).astype(int)
    log, vals = [], r.mat(M + 3, m)
    if r.chance(.2):
        vals[r.randint(M + 3)] = r.pick(np.nan, np.inf, -np.inf)
    shp = r.pick((m,), (1, m), (m, 1))

    def f(x):
        check(np.shape(x) == (1, m), 'model called with shape %s' % (np.shape(x),))
        log.append(np.array(x).copy())
        return vals[len(log) - 1].reshape(shp)
    run = simrunners.SimulationGradientRunner(f)
    first = None
    if r.chance(.3):
        first = run.run(r.mat(r.pick(M, M + 1), m))
        keep, vals = first.copy(), vals[::-1].copy()
        del log[:]
    F = run.run(X)
    check(first is None or np.array_equal(first, keep, equal_nan=True), 'an earlier result is altered by a later run')
    check(len(log) == M, 'model called %d times for %d rows' % (len(log), M))
    for i in range(M):
        check(np.array_equal(log[i][0], X[i]), 'call %d does not get row %d' % (i, i))
    check(F.shape == (M, m) and np.array_equal(F, vals[:M], equal_nan=True), 'results', F, vals)


@case('P21', 60)
def runner_errors(r):
    for cls in (simrunners.SimulationRunner, simrunners.SimulationGradientRunner):
        for bad in (3, None, 'f', np.zeros(2), [len]):
            check(raises(lambda: cls(bad)), 'non-callable model accepted')
        run = cls(lambda x: np.zeros(x.size))
        check(raises(lambda: run.run(r.mat(4))) and raises(lambda: run.run(r.mat(2, 3, 1))), 'inputs that are not 2-d accepted')

        class E(r.pick(Exception, Exception, TypeError, ValueError, ArithmeticError, LookupError, AttributeError, RuntimeError)):
            pass
        k = r.int(0, 3)
        c = [0]

        def f(x):
            c[0] += 1
            if c[0] == k + 1:
                raise E('model')
            return 0.0 if cls is simrunners.SimulationRunner else np.zeros(2)
        try:
            cls(f).run(r.mat(4, 2))
        except E:
            pass
        else:
            raise Fail('exception of the model swallowed')
        check(c[0] == k + 1, 'model called again after an exception')


# P22 -------------------------------------------------------------------------------------------------------
@case('P22', 60)
def interval_pts(r):
    a = float(r.mat(1)[0]) * 3
    b = a + 10.0 ** r.uniform(-2, 1)
    for k in (r.uniform(.1, 3), 1.0, 1.1):
        for N in range(1, 80):
            check(dn.interval_design(-k, k, N).shape == (N, 1), 'number of points', -k, k, N)
    N = r.int(1, 12)
    y = dn.interval_design(a, b, N)
    close(y, np.array([[a + (b - a) * k / (N + 1.0)] for k in range(1, N + 1)]), 'interval design', 1e-9, 1e-9)
    K = [r.int(1, 4) for _ in range(r.int(1, 3))]
    close(dn.gauss_hermite_design(K), gq.gauss_hermite(K)[0], 'Gauss-Hermite design')


def mm_obj(y, vert):
    n = vert.shape[1]
    Y = y.reshape((-1, n))
    d = [np.sum((Y[i] - Y[j]) ** 2) for i in range(len(Y)) for j in range(i)] + [np.sum((p - v) ** 2) for p in Y for v in vert]
    return -min(d), sorted(d)


@case('P22', 200)
def maximin_gradient(r):
    n, N, nv = r.int(1, 4), r.int(1, 5), r.int(2, 7)
    vert = r.mat(nv, n) * r.pick(1, 3, 10)
    y = r.mat(N * n)
    v, d = mm_obj(y, vert)
    close(dn._maximin_design_obj(y.copy(), vert), v, 'maximin objective', 1e-8, 1e-8)
    close(dn._maximin_design_obj(y.copy(), vert=vert), v, 'maximin objective', 1e-8, 1e-8)
    if len(d) > 1 and d[1] - d[0] < 1e-3:
        raise Skip()
    h = 1e-6
    want = np.array([(mm_obj(y + h * t, vert)[0] - mm_obj(y - h * t, vert)[0]) / (2 * h) for t in np.eye(N * n)])
    g = dn._maximin_design_grad(y.copy(), vert)
    close(np.ravel(g), want, 'maximin gradient', 1e-5, 1e-5)


@case('P22', 30, True)
def maximin(r):
    n = 2
    k = r.int(3, 6)
    t = 2 * np.pi * (np.arange(k) + r.uniform(-.25, .25, size=k)) / k + r.uniform(0, 7)
    vert = np.column_stack((np.cos(t), np.sin(t))) * r.pick(1, 2) + r.pick(0, .3)
    N = r.int(1, 4)
    np.random.seed(r.int(0, 10 ** 6))
    st = _real_get_state()
    try:
        Y = dn.maximin_design(vert, N)
    except Exception as e:
        if 'SLSQP failed' in str(e):
            raise Skip()
        raise
    st2 = _real_get_state()
    check(st[2] == st2[2] and np.array_equal(st[1], st2[1]), 'random state not restored')
    check(Y.shape == (N, n), 'design shape')
    H = scipy.spatial.ConvexHull(vert)
    check(np.all(H.equations[:, :n].dot(Y.T) + H.equations[:, n:] <= 1e-5), 'design leaves the polytope', Y, vert)


# P23 -------------------------------------------------------------------------------------------------------
MODELS = {'borehole': ('borehole', 'borehole', 8), 'otl_circuit': ('otlcircuit', 'circuit', 6), 'piston': ('piston', 'piston', 7),
          'robot': ('robot', 'robot', 8), 'wing_weight': ('wing', 'wing', 10)}


def model(name):
    import importlib
    mod, fun, m = MODELS[name]
    p = '/repo/tutorials/test_functions/' + name
    if p not in sys.path:
        sys.path.insert(0, p)
    M = importlib.import_module(mod + '_functions')
    return getattr(M, fun), getattr(M, fun + '_grad'), m


def model_case(name):
    def f(r):
        fun, grad, m = model(name)
        M = r.int(1, 6)
        X = r.uniform(-.999, .999, size=(M, m))
        if r.chance(.3):
            X[r.randint(M)] = r.choice([-.99, .99], size=m)
        if name == 'robot':
            X = X * .98
        X0 = X.copy()
        G = grad(X)
        check(np.array_equal(X, X0), 'inputs changed')
        check(G.shape == (M, m), 'gradient shape', G.shape)
        F = fun(X)
        check(np.array_equal(X, X0), 'inputs changed')
        check(F.shape == (M, 1), 'output shape')
        for i in range(M):
            close(fun(X[i:i + 1]), F[i:i + 1], 'rows are not evaluated independently', 1e-9, 1e-12)
            for j in range(m):
                t = np.zeros(m)
                t[j] = 1
                D = lambda h: (fun((X[i] + h * t).reshape((1, m))) - fun((X[i] - h * t).reshape((1, m))))[0, 0] / (2 * h)
                h = 1e-3
                d = (4 * D(h / 2) - D(h)) / 3
                s = np.max(np.abs(G[i])) + np.abs(F[i, 0])
                if name == 'robot' and F[i, 0] < .05:
                    continue
                close(G[i, j] / s, d / s, '%s: derivative %d' % (name, j), 0, 2e-7 if name != 'robot' else 1e-5)
    f.__name__ = 'model_' + name
    case('P23', 25)(f)


for _k in MODELS:
    model_case(_k)


# P24 -------------------------------------------------------------------------------------------------------
class Frozen(object):
    def __init__(self, **arrs):
        self.a = dict((k, v) for k, v in arrs.items() if isinstance(v, np.ndarray))
        self.c = dict((k, v.copy()) for k, v in self.a.items())

    def verify(self, what):
        for k in self.a:
            check(self.a[k].shape == self.c[k].shape and np.array_equal(self.a[k], self.c[k]), '%s changed its argument %s' % (what, k))


def frame(name, n=25, slow=False):
    def deco(f):
        def g(r):
            arrs, call = f(r)
            F = Frozen(**arrs)
            call()
            F.verify(name)
        g.__name__ = 'frame_' + name
        case('P24', n, slow)(g)
        return f
    return deco


@frame('subspaces', 60)
def _f1(r):
    M, m = 30, r.int(2, 4)
    X, df = r.uniform(-1, 1, size=(M, m)), r.mat(M, m)
    f = np.sin(X.dot(r.mat(m, 1)))
    w = posweights(r, M)
    W = r.orth(m)
    e = spectrum(r, m)
    se, F = r.uniform(size=(m - 1, 1)), r.uniform(size=(m, 1))
    A = r.mat(m, m)
    C = A.dot(A.T)
    s = ss.Subspaces()

    def call():
        s.compute(df=df, weights=w, nboot=r.pick(0, 2))
        s.compute(df=df)
        for t in ('OLS', 'QPHD', 'OPG'):
            s.compute(X=X, f=f, weights=w, sstype=t, nboot=r.pick(0, 2), ptype='EVG')
            s.compute(X=X, f=f, sstype=t)
        s.compute(X=X, f=f, df=df, weights=w, nboot=2, ptype=r.pick('RS', 'LI'))
        a, b = s.eigenvecs.copy(), s.eigenvals.copy()
        s.partition(m)
        s.partition(1)
        check(np.array_equal(a, s.eigenvecs) and np.array_equal(b, s.eigenvals), 'partition changed the eigenpairs')
        ss.eig_partition(e)
        ss.errbnd_partition(e, se)
        ss.ladle_partition(e, F)
        ss.sorted_eigh(C)
        ss._bootstrap_ranges(e, W, X, f, df, w, lambda X, f, df, w: ss.active_subspace(df, w), 2)
        gr.local_linear_gradients(X, f, weights=w)
        gr.finite_difference_gradients(X, lambda x: float(x.sum()))
    return dict(X=X, df=df, f=f, w=w, W=W, e=e, se=se, F=F, C=C), call


@frame('maps', 30)
def _f2(r):
    avm, s, W = r.pick(interval_map, lambda q: unb_map(q, q.int(2, 4)))(r)
    m, n = s.W1.shape
    X = r.uniform(-.9, .9, size=(4, m))
    Y = X.dot(s.W1)
    y = Y[0].copy()
    W1, W2 = s.W1.copy(), s.W2.copy()

    def call():
        avm.forward(X)
        avm.inverse(Y, 2)
        if n < m:
            for f in (dom.sample_z, dom.hit_and_run_z, dom.rejection_sampling_z, dom.random_walk_z):
                try:
                    f(2, y, W1, W2)
                except ValueError:
                    pass
        if n == 1:
            dom.interval_endpoints(W1)
    return dict(X=X, Y=Y, y=y, W=s.eigenvecs, e=s.eigenvals, W1=W1, W2=W2), call


@frame('misc', 60)
def _f3(r):
    m, M = r.int(1, 4), r.int(1, 5)
    lb = r.mat(m)
    ub = lb + 1
    X = r.mat(M, m)
    B = r.mat(m, m)
    C = B.dot(B.T) + np.eye(m)
    f = r.mat(6, 1)
    ind = np.array([[0.], [1], [0], [2], [1], [0]])
    ab = r.uniform(.1, 1, size=(4, 2))
    N = [2, 3]
    vert = np.vstack((np.eye(2), -np.eye(2)))

    def call():
        for nm in (misc.BoundedNormalizer(lb, ub), misc.UnboundedNormalizer(lb, C)):
            nm.normalize(X)
            nm.unnormalize(X)
        misc.conditional_expectations(f, ind)
        gq.jacobi_matrix(ab)
        gq.gauss_hermite(N)
        gq.gauss_legendre(N)
        check(N == [2, 3], 'list of orders changed')
        dn._maximin_design_obj(vert[:1].ravel() * .3 + .1, vert)
        dn._maximin_design_grad(vert[:1].ravel() * .3 + .1, vert)
        x = misc.process_inputs(X)[0]
        simrunners.SimulationRunner(lambda x: float(x.sum())).run(X)
        simrunners.SimulationGradientRunner(lambda x: x.copy()).run(X)
    return dict(lb=lb, ub=ub, X=X, C=C, f=f, ind=ind, ab=ab, vert=vert), call


@frame('surfaces', 30)
def _f4(r):
    m, N = r.int(1, 3), r.int(1, 2)
    M = comb(N + m, m) + 6
    X = r.uniform(-1, 1, size=(M, m))
    f = np.sin(X.sum(axis=1, keepdims=True))
    w = posweights(r, M)
    v = r.pick(np.zeros((M, 1)), r.uniform(0, .1, size=(M, 1)))
    e = spectrum(r, m + 1) + .1
    Z = r.uniform(-1, 1, size=(3, m))
    ell = np.ones((m, 1))

    def call():
        pr = rsu.PolynomialApproximation(N)
        pr.train(X, f, weights=w)
        pr.train(X, f)
        p1 = pr.predict(Z, True)
        p2 = pr.predict(Z, True)
        check(np.array_equal(p1[0], p2[0]) and np.array_equal(p1[1], p2[1]), 'second prediction differs from the first')
        a, b = p1[0].copy(), p1[1].copy()
        pr.predict(-Z, True)
        check(np.array_equal(a, p1[0]) and np.array_equal(b, p1[1]), 'a returned prediction was altered by a later call')
        rb = rsu.RadialBasisApproximation(N)
        rb.train(X, f, v=v, e=e)
        rb.train(X, f)
        p1 = rb.predict(Z, True)
        p2 = rb.predict(Z, True)
        check(np.array_equal(p1[0], p2[0]) and np.array_equal(p1[1], p2[1]), 'second prediction differs from the first')
        rsu.exponential_squared(X, Z, 1.0, ell)
        rsu.grad_exponential_squared(X, Z, 1.0, ell)
    return dict(X=X, f=f, w=w, v=v, e=e, Z=Z, ell=ell), call


@frame('qp', 30)
def _f5(r):
    n, A, b, x0 = poly_lp(r)
    c = r.mat(n, 1)
    Q = np.eye(n)
    lb, ub = -np.ones((n, 1)), np.ones((n, 1))

    def call():
        q = qp.QPSolver()
        q.linear_program_ineq(c, A, b)
        q.linear_program_eq(c, np.ones((1, n)), np.zeros((1, 1)), lb, ub)
        q.quadratic_program_bnd(c, Q, lb, ub)
        q.quadratic_program_ineq(c, Q, A, b)
    return dict(c=c, A=A, b=b, Q=Q, lb=lb, ub=ub), call


@frame('optimizers', 12, True)
def _f6(r):
    avm, s, W = r.pick(interval_map, unb_map)(r, 3) if r.chance(.5) else unb_map(r, 3, 1)
    m, n = s.W1.shape
    if n == m:
        raise Skip()
    X = r.uniform(-1, 1, size=(30, m))
    f = np.sum(X ** 2, axis=1, keepdims=True) + .1 * X[:, :1]
    a = rs.ActiveSubspaceResponseSurface(avm, rsu.PolynomialApproximation(2))
    N = r.int(1, 3)

    def call():
        a.train_with_data(X, f)
        st = _real_get_state()
        op.minimize(a, X, f)
        st2 = _real_get_state()
        check(st[2] == st2[2] and np.array_equal(st[1], st2[1]), 'minimize changed the random state')
        ig.integrate(lambda x: float(x.sum()), avm, N, 2)
        ig.av_integrate(a, avm, N)
        a.train_with_interface(lambda x: float((x ** 2).sum()), 12, 1)
    return dict(X=X, f=f, W=s.eigenvecs, e=s.eigenvals), call


@case('P24', 20)
def rng_state(r):
    np.random.seed(r.int(0, 10 ** 6))
    for _ in range(r.int(0, 3)):
        np.random.normal()
    n = r.int(2, 3)
    kind = r.pick('u', 'b')
    d = fake_domain(kind, n)
    c = .3 * r.mat(n)
    f = lambda y: float(np.sum((np.ravel(y) - c) ** 2))
    df = r.pick(None, lambda y: 2 * (np.ravel(y) - c))
    st = _real_get_state()
    op.av_minimize(f, d, df)
    st2 = _real_get_state()
    check(st[2:] == st2[2:] and np.array_equal(st[1], st2[1]), 'random state not restored by the multi-start optimiser')
    vert = np.array([[1., 0], [0, 1], [-1, 0], [0, -1]])
    st = _real_get_state()
    a = dn.maximin_design(vert, r.int(1, 2))
    st2 = _real_get_state()
    check(st[2:] == st2[2:] and np.array_equal(st[1], st2[1]), 'random state not restored by the maximin design')


# P25 -------------------------------------------------------------------------------------------------------
def shapes_entry(r, m):
    """(name, call with inputs X) for everything that takes inputs"""
    s = subspace_of(r.orth(m), 1)
    avm = dom.UnboundedActiveVariableMap(dom.UnboundedActiveVariableDomain(s))
    pr = rsu.PolynomialApproximation(1)
    pr.train(r.mat(20, m), r.mat(20, 1))
    rb = rsu.RadialBasisApproximation(1)
    a = rs.ActiveSubspaceResponseSurface(avm, rsu.PolynomialApproximation(1))
    a.train_with_data(r.mat(20, m), r.mat(20, 1))
    one = np.ones((6, 1)) / 6.
    return [('forward', lambda X: avm.forward(X)), ('predict', lambda X: pr.predict(X)), ('asrs.predict', lambda X: a.predict(X)),
            ('bounded.normalize', lambda X: misc.BoundedNormalizer(np.zeros(m), np.ones(m)).normalize(X)),
            ('bounded.unnormalize', lambda X: misc.BoundedNormalizer(np.zeros(m), np.ones(m)).unnormalize(X)),
            ('unbounded.normalize', lambda X: misc.UnboundedNormalizer(np.zeros(m), np.eye(m)).normalize(X)),
            ('unbounded.unnormalize', lambda X: misc.UnboundedNormalizer(np.zeros(m), np.eye(m)).unnormalize(X)),
            ('active_subspace', lambda X: ss.active_subspace(X, one)), ('fd', lambda X: gr.finite_difference_gradients(X, lambda x: 1.0)),
            ('runner', lambda X: simrunners.SimulationRunner(lambda x: 1.0).run(X)),
            ('grad runner', lambda X: simrunners.SimulationGradientRunner(lambda x: x).run(X)),
            ('compute', lambda X: ss.Subspaces().compute(df=X)), ('process_inputs', lambda X: misc.process_inputs(X))]


@case('P25', 40)
def input_shapes(r):
    m = r.int(2, 4)
    for name, call in shapes_entry(r, m):
        call(r.mat(6, m))
        call(np.round(5 * r.mat(6, m)).astype(int))
        for bad in (r.mat(m), r.mat(6, m, 1), np.float64(3.0)):
            check(raises(lambda: call(bad), (ValueError, AttributeError) if np.ndim(bad) == 0 else ValueError),
                  '%s accepts inputs of shape %s or raises something other than ValueError' % (name, np.shape(bad)))


@case('P25', 40)
def output_shapes(r):
    m, M = r.int(2, 3), 15
    X, w = r.uniform(-1, 1, size=(M, m)), np.ones((M, 1)) / M
    f = r.mat(M, 1)
    s = subspace_of(r.orth(m), 1)
    avm = dom.UnboundedActiveVariableMap(dom.UnboundedActiveVariableDomain(s))
    k = np.round(5 * f).astype(int)
    misc.process_inputs_outputs(np.round(5 * X).astype(int), k)
    ss.ols_subspace(X, k, w)
    rsu.PolynomialApproximation(2).train(X, k)
    entries = [('process_inputs_outputs', lambda f: misc.process_inputs_outputs(X, f)), ('ols', lambda f: ss.ols_subspace(X, f, w)),
               ('qphd', lambda f: ss.qphd_subspace(X, f, w)), ('opg', lambda f: ss.opg_subspace(X, f, w)),
               ('poly', lambda f: rsu.PolynomialApproximation(2).train(X, f)), ('rbf', lambda f: rsu.RadialBasisApproximation(1).train(X, f)),
               ('asrs', lambda f: rs.ActiveSubspaceResponseSurface(avm, rsu.PolynomialApproximation(1)).train_with_data(X, f)),
               ('minmap', lambda f: op.UnboundedMinVariableMap(avm.domain).train(X, f))]
    for name, call in entries:
        call(f.copy())
        for bad in (f[:, 0], f[:-1], np.vstack((f, f[:1])), np.hstack((f, f)), f.T, r.mat(M, 1, 1), np.zeros((M, 0))):
            check(raises(lambda: call(bad)), '%s accepts outputs of shape %s for %d inputs' % (name, bad.shape, M))


@case('P25', 30)
def classes_and_types(r):
    avm, s, W = unb_map(r, 3, 1)
    fun = lambda x: 1.0
    A = dom.ActiveVariableMap
    for name, call in (('integrate', lambda N: ig.integrate(fun, avm, N)), ('av_integrate', lambda N: ig.av_integrate(fun, avm, N)),
                       ('quadrature_rule', lambda N: ig.quadrature_rule(avm, N)), ('quadrature_rule NMC', lambda N: ig.quadrature_rule(avm, 2, NMC=N)),
                       ('av_design', lambda N: rs.av_design(avm, N)), ('av_design NMC', lambda N: rs.av_design(avm, 2, NMC=N)),
                       ('inverse', lambda N: avm.inverse(np.zeros((1, 1)), N)), ('sample_z', lambda N: dom.sample_z(N, np.zeros(1), s.W1, s.W2)),
                       ('integrate NMC', lambda N: ig.integrate(fun, avm, 2, NMC=N)), ('partition', lambda N: s.partition(N))):
        call(2)
        for bad in (2.0, 2.5, '2', None, [2], np.ones(1)):
            check(raises(lambda: call(bad)), '%s accepts N = %r' % (name, bad))
    s.partition(1)
    for bad in (None, 3, s, avm.domain, object()):
        for name, call in (('integrate', lambda: ig.integrate(fun, bad, 2)), ('av_integrate', lambda: ig.av_integrate(fun, bad, 2)),
                           ('quadrature_rule', lambda: ig.quadrature_rule(bad, 2)), ('av_design', lambda: rs.av_design(bad, 2)),
                           ('surface', lambda: rs.ActiveSubspaceResponseSurface(bad))):
            check(raises(call), '%s accepts a map of type %s' % (name, type(bad).__name__))
    for cls in (dom.UnboundedActiveVariableDomain, dom.BoundedActiveVariableDomain):
        for bad in (None, 3, W, avm):
            check(raises(lambda: cls(bad)), 'domain accepts %s' % type(bad).__name__)
        check(raises(lambda: cls(ss.Subspaces())), 'domain accepts an uncomputed subspace')
    d = dom.ActiveVariableDomain()
    d.subspaces = s
    bad = dom.ActiveVariableMap(d)
    check(raises(lambda: ig.av_quadrature_rule(bad, 2)) and raises(lambda: rs.av_design(bad, 2)) and
          raises(lambda: op.av_minimize(fun, d)), 'domain of unknown kind accepted')
    check(raises(lambda: avm.__class__(avm.domain).inverse(np.zeros(2), 1)), '1-d active variables accepted')


@case('P25', 30)
def compute_args(r):
    m, M = 2, 12
    X, f, df = r.mat(M, m), r.mat(M, 1), r.mat(M, m)
    new = ss.Subspaces
    good = [dict(df=df), dict(X=X, f=f, sstype='OLS'), dict(X=X, f=f, sstype='QPHD'), dict(X=X, f=f, sstype='OPG'), dict(df=df, ptype='RS', nboot=2),
            dict(df=df, ptype='LI', nboot=2), dict(df=df, X=X, f=f)]
    for g in good:
        s = new()
        s.compute(**g)
        check(s.W1 is not None, 'valid compute did nothing')
    bad = [dict(), dict(f=f), dict(X=X, f=f), dict(X=X, sstype='OLS'), dict(df=df, f=f, sstype='OLS'), dict(X=X, sstype='QPHD'), dict(X=X, sstype='OPG'),
           dict(df=df, f=f, sstype='QPHD'), dict(df=df, f=f, sstype='OPG'),
           dict(df=df, sstype='as'), dict(df=df, sstype='PCA'), dict(df=df, ptype='evg'), dict(df=df, ptype='foo', nboot=2), dict(df=df, ptype='RS'),
           dict(df=df, ptype='LI'), dict(X=X, f=f, sstype=None), dict(df=df, ptype=None)]
    for b in bad:
        check(raises(lambda: new().compute(**b)), 'compute accepts %s' % sorted((k, v if not isinstance(v, np.ndarray) else 'array') for k, v in b.items()))
    check(raises(lambda: new().partition(1)), 'partition of an uncomputed object accepted')
