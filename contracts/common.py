"""Shared pieces of contract scripts (not a unit file)."""
from engine.unit import *           # noqa: F401,F403
from engine.unit import families, row
from engine.values import *         # noqa: F401,F403
from engine import axioms

SUB, DOM, MISC, RS, GR = 'subspaces', 'domains', 'utils.misc', 'response_surfaces', 'gradients'


def orthonormal(u, m, n, nlt=True):
    """a computed Subspaces object: W orthonormal m-by-m, W1/W2 its first n / last m-n columns (views of it)"""
    ip = u.ip
    W = u.arr('W', (m, m))
    W1, W2 = ip.getitem(W, (Slice(None, None, None), Slice(None, n, None))), ip.getitem(W, (Slice(None, None, None), Slice(n, None, None)))
    e = u.arr('e', (m, ONE))
    s = u.obj(SUB, 'Subspaces', eigenvals=e, eigenvecs=W, W1=W1, W2=W2)
    return s, W, W1, W2


def w_rule(m):
    return axioms.orth_rule('W', lambda a: m)


def W_(i, j):
    return app('W', (i, j), 'R')


def bounded_(*vs):
    return [f for v, n in vs for f in (le(ZERO, v), lt(v, dim(n)))]


def new(u, mod, cls, **attrs):
    return u.obj(mod, cls, **attrs)


def psd(u, m, M, wt, g, more=None):
    """lemma used at every call of eigh: the matrix is sum_s w_s g_s g_s^T with w >= 0, hence its eigenvalues are nonnegative.
    The lemma is discharged (not assumed) when the call is met.  `more`: a further vector b, whose b b^T is added."""
    ip = u.ip
    done = set()
    plus = (lambda t, x: t) if more is None else (lambda t, x: add(t, x))
    b1 = more or (lambda i: RZERO)

    def hook(ip_, C, L):
        vs, dims, b = L.a
        i, j, k, q, s = [fresh(c, 'I') for c in 'ijkqs']
        c = ip_.ctx()
        u.prove('the decomposed matrix is m by m', c, and_(eq(dims[0], m), eq(dims[1], m)))
        Cij = lambda a, b_: axioms.at_lam(L, [a, b_])
        spec = plus(tsum(s, ZERO, M, mul(wt(s), mul(g(s, i), g(s, j)))), mul(b1(i), b1(j)))
        c = ip_.ctx().child(bounded_((i, m), (j, m)))
        u.prove('the decomposed matrix is sum_s w_s g_s g_s^T', c, eq(Cij(i, j), spec))
        u.prove('the decomposed matrix is symmetric', c, eq(Cij(i, j), Cij(j, i)))
        if L in done:
            return
        V = lambda a, b_: app('eigvec', (L, a, b_), 'R')
        lamb = lambda a: app('eigval', (L, a), 'R')
        c = ip_.ctx().child(bounded_((k, m)))
        c.rules = [r for r in c.rules if r is not axioms.eig_recon]
        rec = tsum(i, ZERO, m, tsum(j, ZERO, m, mul(mul(V(i, k), V(j, k)), tsum(q, ZERO, m, mul(V(i, q), mul(lamb(q), V(j, q)))))))
        u.prove('lemma: v_k^T (V diag(lambda) V^T) v_k = lambda_k', c, eq(rec, lamb(k)))
        quad = tsum(i, ZERO, m, tsum(j, ZERO, m, mul(mul(V(i, k), V(j, k)), spec)))
        sq = plus(tsum(s, ZERO, M, mul(wt(s), power(tsum(i, ZERO, m, mul(V(i, k), g(s, i))), num(2)))), power(tsum(i, ZERO, m, mul(V(i, k), b1(i))), num(2)))
        u.prove('lemma: v_k^T C v_k = sum_s w_s (v_k^T g_s)^2', c, eq(quad, sq))
        u.prove('lemma: sum_s w_s (v_k^T g_s)^2 >= 0', c, le(RZERO, sq))
        done.add(L)
        old = ip_.base.schemas['eigval']

        def schema(a, L=L, old=old):
            for x in old(a):
                yield x
            if a.a[1][0] is L:
                kk = a.a[1][1]
                yield (('psd', a), implies(and_(le(ZERO, kk), lt(kk, m)), le(RZERO, a)))
        ip_.add_schema('eigval', schema)
    ip.hooks['eigh'] = hook
