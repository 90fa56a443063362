"""Executable contracts, P01-P11."""
import numpy as np
from .base import case, check, close, raises, Skip, Fail
from active_subspaces import subspaces as ss, gradients as gr, domains as dom
from active_subspaces.utils import misc, simrunners


# helpers ---------------------------------------------------------------------------------------------------
def gradients_of(r, M, m):
    k = r.pick('generic', 'generic', 'lowrank', 'zerocol', 'repeat', 'int', 'ties', 'block', 'scaled', 'zero')
    A = r.mat(M, m)
    if k == 'lowrank':
        q = r.int(1, m)
        A = r.mat(M, q).dot(r.mat(q, m))
    elif k == 'zerocol':
        A[:, r.int(0, m - 1)] = 0
    elif k == 'repeat':
        A[:] = A[0]
    elif k == 'int':
        A = r.randint(-3, 4, size=(M, m))
    elif k == 'ties':
        A = np.eye(m)[r.randint(m, size=M)] * r.pick(1.0, 2.5)
    elif k == 'block':
        A[:, 0] = 0
        A[0, :] = 0
        A[0, 0] = r.pick(0.0, 1.0, 10.0)
    elif k == 'scaled':
        A = A * 10.0 ** r.uniform(-3, 3, size=(1, m))
    elif k == 'zero':
        A = np.zeros((M, m))
    return A


def weights_of(r, M):
    k = r.pick('equal', 'one', 'random', 'zeros', 'big')
    if k == 'equal':
        return np.ones((M, 1)) / M
    if k == 'one':
        return np.ones((M, 1))
    w = r.uniform(0.1, 2.0, size=(M, 1))
    if k == 'zeros' and M > 1:
        w[r.randint(M)] = 0.0
    if k == 'big':
        w *= 1e3
    return w


def posweights(r, M):
    return r.pick(np.ones((M, 1)) / M, r.uniform(0.2, 3.0, size=(M, 1)))


def eig_contract(C, e, W, what='eigenpairs', tol=1e-8):
    m = C.shape[0]
    e, W = np.asarray(e), np.asarray(W)
    check(e.shape == (m, 1), what + ': eigenvalue shape %s' % (e.shape,))
    check(W.shape == (m, m), what + ': eigenvector shape %s' % (W.shape,))
    check(np.all(e >= 0), what + ': negative eigenvalue', e)
    check(np.all(np.diff(e[:, 0]) <= 0), what + ': eigenvalues not in decreasing order', e)
    close(W.T.dot(W), np.eye(m), what + ': eigenvectors not orthonormal', 0, 1e-8)
    check(np.all(W[0, :] >= 0), what + ': first component of an eigenvector is negative', W)
    s = max(np.max(np.abs(C)), 1e-300)
    close(W.dot(np.diag(e[:, 0])).dot(W.T) / s, C / s, what + ': do not reproduce the matrix', 0, tol)
    for k in range(m):
        close(C.dot(W[:, k]) / s, e[k, 0] * W[:, k] / s, what + ': column %d is not an eigenvector of its eigenvalue' % k, 0, tol)


def subspace_of(W, n, e=None):
    s = ss.Subspaces()
    m = W.shape[0]
    s.eigenvals = np.sort(np.linspace(1, 2, m))[::-1].reshape((m, 1)).copy() if e is None else e
    s.eigenvecs = W
    s.W1, s.W2 = W[:, :n], W[:, n:]
    return s


# P01 -------------------------------------------------------------------------------------------------------
@case('P01', 300)
def active_subspace_contract(r):
    M, m = r.int(1, 12), r.int(1, 7)
    df, w = gradients_of(r, M, m), weights_of(r, M)
    C = (df * w).T.dot(df).astype(float)
    e, W = ss.active_subspace(r.layout(df), w)
    eig_contract(C, e, W)


@case('P01', 200)
def sorted_eigh_contract(r):
    m = r.int(1, 7)
    k = r.pick('psd', 'low', 'diag', 'ties', 'zero')
    V = r.orth(m)
    d = {'psd': r.uniform(0, 5, size=m), 'low': r.choice([0.0, 0.0, 1.0, 3.0], size=m), 'diag': r.uniform(0, 1, size=m),
         'ties': np.ones(m) * 2, 'zero': np.zeros(m)}[k]
    if k == 'diag':
        V = np.eye(m)
    C = (V * d).dot(V.T)
    C = 0.5 * (C + C.T)
    e, W = ss.sorted_eigh(C)
    eig_contract(C, e, W)


@case('P01', 60)
def compute_as_contract(r):
    M, m = r.int(2, 12), r.int(2, 7)
    df, w = gradients_of(r, M, m), weights_of(r, M)
    s = ss.Subspaces()
    s.compute(df=df, weights=w)
    eig_contract((df * w).T.dot(df).astype(float), s.eigenvals, s.eigenvecs)


# P02 -------------------------------------------------------------------------------------------------------
def snapshot(s):
    out = {}
    for k in ('eigenvals', 'eigenvecs', 'W1', 'W2', 'e_br', 'sub_br'):
        v = getattr(s, k)
        out[k] = None if v is None else np.array(v, copy=True)
    return out


def same_state(a, b, msg):
    for k in a:
        if a[k] is None or b[k] is None:
            check(a[k] is None and b[k] is None, '%s: %s changed' % (msg, k), a[k], b[k])
        else:
            check(a[k].shape == b[k].shape and np.array_equal(a[k], b[k]), '%s: %s changed' % (msg, k), a[k], b[k])


def consistent(s, msg):
    if s.eigenvecs is None:
        check(s.W1 is None and s.W2 is None, msg + ': bases without eigenvectors')
        return
    W = s.eigenvecs
    m = W.shape[0]
    n = s.W1.shape[1]
    check(1 <= n <= m, msg + ': n = %d' % n)
    check(np.array_equal(s.W1, W[:, :n]), msg + ': active basis is not the first columns', s.W1, W)
    check(s.W2.shape == (m, m - n) and np.array_equal(s.W2, W[:, n:]), msg + ': inactive basis is not the last columns', s.W2, W)
    check(s.eigenvals.shape == (m, 1), msg + ': eigenvalues shape')


def criterion(e, ptype, s):
    e = e[:, 0]
    m = e.size
    if ptype == 'EVG':
        return -np.abs(np.diff(e))
    if ptype == 'RS':
        se = s.sub_br[:, 1]
        return np.array([np.sqrt(np.sum(e[:i + 1])) * se[i] + np.sqrt(np.sum(e[i + 1:])) for i in range(m - 1)])


@case('P02', 150)
def histories(r):
    objs = [ss.Subspaces(), ss.Subspaces()]
    for step in range(r.int(2, 6)):
        i = r.int(0, 1)
        s, other = objs[i], objs[1 - i]
        before, obefore = snapshot(s), snapshot(other)
        kind = r.pick('compute', 'compute', 'badcompute', 'partition', 'badpartition')
        if kind == 'compute':
            m = r.int(2, 5)
            M = r.int(25, 40)
            X = r.uniform(-1, 1, size=(M, m)) if r.chance(.5) else r.mat(M, m)
            df = r.mat(M, m) * np.linspace(3, .5, m)
            f = np.sin(X.dot(r.mat(m, 1))) + X[:, :1] ** 2
            sst = r.pick('AS', 'OLS', 'QPHD', 'OPG')
            nboot = r.pick(0, 0, 1, 4)
            pt = r.pick('EVG', 'RS', 'LI') if nboot else 'EVG'
            w = r.pick(None, posweights(r, M))
            kw = dict(sstype=sst, ptype=pt, nboot=nboot)
            if sst == 'AS':
                kw['df'] = df
                if r.chance(.3):
                    kw.update(X=X, f=f)
            else:
                kw.update(X=X, f=f)
            if w is not None:
                kw['weights'] = w
            if r.chance(.3) and sst == 'AS':
                del kw['sstype']
            if pt == 'EVG' and r.chance(.3):
                del kw['ptype']
            sd = r.int(0, 10 ** 6)
            np.random.seed(sd)
            s.compute(**kw)
            consistent(s, 'after compute')
            ww = np.ones((M, 1)) / M if w is None else w
            if sst == 'AS':
                eig_contract((df * ww).T.dot(df), s.eigenvals, s.eigenvecs, 'compute AS')
            else:
                np.random.seed(sd)
                fun = {'OLS': ss.ols_subspace, 'QPHD': ss.qphd_subspace, 'OPG': ss.opg_subspace}[sst]
                e0, W0 = fun(X, f, ww)
                close(s.eigenvals, e0, 'compute %s: eigenvalues' % sst)
                close(s.eigenvecs, W0, 'compute %s: eigenvectors' % sst, 1e-6, 1e-6)
            if nboot == 0:
                check(s.e_br is None and s.sub_br is None, 'no bootstrap asked but ranges stored')
            else:
                check(s.e_br.shape == (m, 2) and s.sub_br.shape == (m - 1, 3), 'bootstrap range shapes')
            n = s.W1.shape[1]
            c = criterion(s.eigenvals, pt, s)
            if c is not None:
                check(n <= m - 1 and c[n - 1] <= np.min(c) + 1e-12 * max(1, np.max(np.abs(c))), 'dimension does not optimise the criterion', n, c)
        elif kind == 'badcompute':
            m, M = r.int(2, 4), 12
            X, df, f = r.mat(M, m), r.mat(M, m), r.mat(M, 1)
            bad = r.pick(dict(), dict(df=df, ptype='RS'), dict(df=df, ptype='LI'), dict(df=df, ptype='foo'), dict(df=df, sstype='foo'),
                         dict(X=X, sstype='OLS'), dict(X=X, f=f), dict(X=X, f=f[:-1], sstype='OLS'), dict(df=df[:, 0]),
                         dict(X=X[:3], f=f[:3], sstype='QPHD'), dict(df=df, ptype='foo', nboot=2), dict(X=X, f=f, sstype='OLS', ptype='RS'),
                         dict(df=df, f=f, sstype='OLS'), dict(X=X[:2, :2], f=f[:2], sstype='OPG'), dict(X=X, sstype='QPHD'),
                         dict(df=df, weights=np.ones((M + 1, 1))), dict(df=df, weights=np.ones((M - 1, 1)), nboot=2))
            check(raises(lambda: s.compute(**bad)), 'invalid compute accepted', sorted(bad))
            same_state(before, snapshot(s), 'after failed compute(%s)' % sorted((k, v if isinstance(v, (str, int)) else '..') for k, v in bad.items()))
        elif kind == 'partition':
            if s.eigenvecs is None:
                continue
            m = s.eigenvecs.shape[0]
            n = r.int(1, m)
            s.partition(n)
            consistent(s, 'after partition')
            check(s.W1.shape[1] == n, 'partition(%d) gave %d columns' % (n, s.W1.shape[1]))
            after = snapshot(s)
            for k in ('eigenvals', 'eigenvecs', 'e_br', 'sub_br'):
                same_state({k: before[k]}, {k: after[k]}, 'after partition')
        else:
            if s.eigenvecs is None:
                continue
            m = s.eigenvecs.shape[0]
            n = r.pick(0, -1, m + 1, 1.5, 2.0, '1', None, m + 5)
            check(raises(lambda: s.partition(n)), 'partition(%r) accepted with m=%d' % (n, m))
            same_state(before, snapshot(s), 'after refused partition(%r)' % (n,))
        consistent(s, 'after %s' % kind)
        same_state(obefore, snapshot(other), 'other object')


# P03 -------------------------------------------------------------------------------------------------------
def affine(r, m):
    b = r.mat(m, 1) * 10.0 ** r.uniform(-1, 1)
    if r.chance(.3) and m > 1:
        b[r.randint(m)] = 0
    if r.chance(.1):
        b[0] = 0 if m > 1 else b[0]
    if not np.any(b):
        b[-1] = 1.0
    return b, float(r.mat(1)[0])


@case('P03', 120)
def ols_exact(r):
    m = r.int(1, 6)
    M = r.int(m + 1, m + 15)
    X = r.layout(r.mat(M, m))
    b, c = affine(r, m)
    if r.chance(.3):
        k = 10.0 ** r.uniform(-2.3, 2.3, size=m)
        X, b = X * k, b / k[:, None]
    w = posweights(r, M)
    if np.linalg.cond(np.hstack((np.ones((M, 1)), X)) * np.sqrt(w)) > 1e6:
        raise Skip()
    e, W = ss.ols_subspace(X, X.dot(b) + c, w)
    eig_contract(b.dot(b.T), e, W, 'OLS', 1e-6)


@case('P03', 60)
def opg_exact(r):
    m = r.int(2, 5)
    M = r.int(int(np.floor(1.7 * m)) + 2, 30)
    if M <= int(np.floor(1.7 * m)) + 1:
        raise Skip()
    X = r.mat(M, m)
    b, c = affine(r, m)
    e, W = ss.opg_subspace(X, X.dot(b) + c, posweights(r, M))
    eig_contract(b.dot(b.T), e, W, 'OPG', 1e-4)


@case('P03', 120)
def qphd_exact(r):
    m = r.int(1, 4)
    p = (m + 1) * (m + 2) // 2
    M = r.int(p + 2, p + 20)
    kind = r.pick('in', 'edge', 'above', 'below', 'normal', 'far')
    X = r.uniform(-1, 1, size=(M, m))
    i, j = r.randint(M), r.randint(m)
    gamma = 1.0
    if kind == 'in':
        gamma = 1. / 3
    elif kind == 'edge':
        X[i, j] = r.pick(-1.0, 1.0)
        gamma = 1. / 3
    elif kind == 'above':
        X[i, j] = 1.0 + 10.0 ** r.uniform(-3, 0)
    elif kind == 'below':
        X[i, j] = -1.0 - 10.0 ** r.uniform(-3, 0)
    elif kind == 'normal':
        X = 2 * r.mat(M, m)
        gamma = 1.0 if np.any(np.abs(X) > 1) else 1. / 3
    else:
        X = X + r.pick(-3.0, 3.0)
    b, c = affine(r, m)
    A = r.mat(m, m)
    A = A + A.T
    if r.chance(.2):
        A = np.diag(np.diag(A))
    f = X.dot(b) + c + 0.5 * np.sum(X.dot(A) * X, axis=1, keepdims=True)
    w = posweights(r, M)
    B = [np.ones(M)] + [X[:, k] for k in range(m)] + [X[:, k] * X[:, l] for k in range(m) for l in range(k, m)]
    if np.linalg.cond(np.array(B).T * w) > 1e6:
        raise Skip()
    e, W = ss.qphd_subspace(X, f, w)
    eig_contract(b.dot(b.T) + gamma * A.dot(A.T), e, W, 'QPHD %s' % kind, 1e-6)


# P04 -------------------------------------------------------------------------------------------------------
def spectrum(r, m):
    k = r.pick('generic', 'ties', 'zeros', 'exp', 'flat', 'onebig') if m > 1 else 'generic'
    e = np.sort(r.uniform(0, 10, size=m))[::-1]
    if k == 'ties':
        e = np.sort(r.randint(0, 4, size=m).astype(float))[::-1]
    elif k == 'zeros':
        e[r.int(1, m - 1):] = 0
    elif k == 'exp':
        e = 10.0 ** -np.arange(m)
    elif k == 'flat':
        e = np.ones(m)
    elif k == 'onebig':
        e[-1] = 0
        e[:-1] += 100
    if e[0] == 0:
        e[0] = 1.0
    return e.reshape((m, 1))


@case('P04', 200)
def gap_rule(r):
    m = r.int(2, 9)
    e = spectrum(r, m) * r.pick(1.0, 1.0, 1e-14, 1e-30, 1e12)
    n, d = ss.eig_partition(e.copy())
    c = np.abs(np.diff(e[:, 0]))
    check(int(n) == n and 1 <= n <= m - 1, 'gap rule: n = %r' % (n,), e)
    check(c[int(n) - 1] == c.max(), 'gap rule: not the largest gap', n, e)
    close(np.ravel(d), c, 'gap rule: criterion values', 1e-9, 1e-9 * e[0, 0])


@case('P04', 200)
def errbnd_rule(r):
    m = r.int(2, 9)
    e = spectrum(r, m) * r.pick(1.0, 1.0, 1e-14, 1e-28, 1e12)
    se = r.pick(r.uniform(0, 1, size=(m - 1, 1)), np.zeros((m - 1, 1)), np.ones((m - 1, 1)))
    n, d = ss.errbnd_partition(e.copy(), se.copy())
    c = np.array([np.sqrt(np.sum(e[:i + 1])) * se[i, 0] + np.sqrt(np.sum(e[i + 1:])) for i in range(m - 1)])
    check(int(n) == n and 1 <= n <= m - 1, 'error bound rule: n = %r' % (n,), e)
    close(np.ravel(d), c, 'error bound rule: criterion values', 1e-9, 1e-9 * np.sqrt(e[0, 0]))
    check(c[int(n) - 1] <= c.min() + 1e-12 * c.max(), 'error bound rule: not the smallest bound', n, c)


@case('P04', 200)
def ladle_rule(r):
    m = r.int(2, 9)
    e = spectrum(r, m) * r.pick(1.0, 1.0, 1e-14, 1e-30, 1e12)
    F = np.vstack(([[0.0]], r.uniform(0, 1, size=(m - 1, 1))))
    if r.chance(.5):
        F = F / F.sum()
    n, G = ss.ladle_partition(e.copy(), F.copy())
    c = F[:, 0] + e[:, 0] / np.sum(e)
    check(int(n) == n and 1 <= n <= m, 'ladle rule: n = %r' % (n,), e)
    close(np.ravel(G), c, 'ladle rule: criterion values')
    check(c[int(n) - 1] <= c.min() + 1e-12, 'ladle rule: not the smallest', n, c)


# P05 -------------------------------------------------------------------------------------------------------
@case('P05', 150)
def replicate(r):
    M, m = r.int(1, 9), r.int(1, 4)
    base = np.arange(M).reshape((M, 1))
    X = base * 10.0 + np.arange(m) + 1000
    df = base * 10.0 + np.arange(m) + 2000
    f = base + 3000.0
    w = base + 4000.0
    args = [X if r.chance(.8) else None, f if r.chance(.8) else None, df if r.chance(.8) else None, w]
    copies = [None if a is None else a.copy() for a in args]
    out = ss._bootstrap_replicate(*args)
    check(len(out) == 4, 'four parts expected')
    idx = np.rint(out[3][:, 0] - 4000).astype(int)
    check(idx.shape == (M,) and np.all((idx >= 0) & (idx < M)), 'replicate does not have M rows of the data', idx)
    for a, o, name in zip(copies, out, ('inputs', 'outputs', 'gradients', 'weights')):
        if a is None:
            check(o is None, name + ' appeared from nothing')
        else:
            check(o.shape == a.shape and np.array_equal(o, a[idx]), name + ': rows are not those drawn for the weights', o, a, idx)


@case('P05', 8)
def replicate_reaches_every_row(r):
    M = r.int(2, 5)
    w = np.arange(M).reshape((M, 1)) + 0.0
    seen, dup, diff = set(), False, set()
    for _ in range(60):
        o = ss._bootstrap_replicate(None, None, None, w)[3][:, 0]
        seen.update(o.tolist())
        dup = dup or len(set(o.tolist())) < M
        diff.add(tuple(o.tolist()))
    check(len(seen) == M, 'some rows are never drawn', seen)
    check(dup and len(diff) > 1, 'rows are not drawn with replacement')


@case('P05', 80)
def ranges(r):
    M, m, nboot = r.int(2, 8), r.int(2, 5), r.int(1, 6)
    which = r.pick('df', 'X', 'both')
    X = r.mat(M, m) if which != 'df' else None
    f = r.mat(M, 1) if which != 'df' else None
    df = r.mat(M, m) if which != 'X' else None
    w = r.uniform(.1, 1, size=(M, 1))
    W = r.orth(m, ('qr',))
    e = np.sort(r.uniform(0, 1, size=(m, 1)), axis=0)[::-1]
    log = []

    def method(X0, f0, df0, w0):
        for a, b in ((X, X0), (f, f0), (df, df0), (w, w0)):
            check((a is None) == (b is None), 'replicate parts do not match the data given')
        ref = X if X is not None else df
        got = X0 if X is not None else df0
        idx = [int(np.argmin(np.sum(np.abs(ref - g), axis=1))) for g in got]
        check(len(idx) == M, 'replicate size')
        for a, b in ((X, X0), (f, f0), (df, df0), (w, w0)):
            if a is not None:
                check(np.array_equal(a[idx], b), 'replicate rows are not paired')
        e0 = np.sort(r.uniform(0, 5, size=(m, 1)), axis=0)[::-1]
        W0 = r.orth(m, ('qr', 'perm'))
        log.append((e0, W0))
        return e0.copy(), W0.copy()
    e_br, sub_br, F = ss._bootstrap_ranges(e, W, X, f, df, w, method, nboot)
    check(len(log) == nboot, 'estimator ran %d times for %d replicates' % (len(log), nboot))
    E = np.hstack([a for a, b in log])
    close(e_br, np.column_stack((E.min(axis=1), E.max(axis=1))), 'eigenvalue ranges')
    D = np.array([[np.linalg.norm(W[:, :j + 1].T.dot(b[:, j + 1:]), 2) for a, b in log] for j in range(m - 1)])
    close(sub_br, np.column_stack((D.min(axis=1), D.mean(axis=1), D.max(axis=1))), 'subspace error ranges')
    check(np.all(sub_br >= 0) and np.all(sub_br <= 1 + 1e-9), 'subspace error outside [0,1]', sub_br)
    check(np.all(sub_br[:, 0] <= sub_br[:, 1] + 1e-12) and np.all(sub_br[:, 1] <= sub_br[:, 2] + 1e-12), 'subspace error columns not ordered')
    G = np.array([0.0] + [sum(1 - abs(np.linalg.det(W[:, :j + 1].T.dot(b[:, :j + 1]))) for a, b in log) / nboot for j in range(m - 1)])
    if G.sum() > 1e-6:
        close(np.ravel(F), G / G.sum(), 'order determination metric', 1e-6, 1e-7)


@case('P05', 40)
def through_compute(r):
    m, M = r.int(2, 4), 60
    sst = r.pick('AS', 'OLS', 'QPHD')
    X = r.uniform(-1, 1, size=(M, m)) * 2
    b = r.mat(m, 1)
    A = r.mat(m, m)
    A = A + A.T
    s = ss.Subspaces()
    if sst == 'AS':
        df = np.ones((M, 1)).dot(b.T)
        s.compute(df=df, nboot=r.int(1, 4))
    elif sst == 'QPHD':
        X[0, 0] = 3.0
        X[:, :] = np.where(np.abs(X) < 1, X + np.sign(X), X)
        s.compute(X=X, f=X.dot(b) + .5 * np.sum(X.dot(A) * X, axis=1, keepdims=True), sstype='QPHD', nboot=r.int(1, 4))
    else:
        s.compute(X=X, f=X.dot(b) + 1, sstype=sst, nboot=r.int(1, 4))
    t = 1e-5 * s.eigenvals[0, 0]
    close(s.e_br, np.hstack((s.eigenvals, s.eigenvals)), 'replicates of exact %s data must all give the exact eigenvalues' % sst, 1e-6, t)
    check(np.all(s.e_br[:, 0] <= s.e_br[:, 1]), 'ranges not ordered')
    check(np.all(s.sub_br >= 0) and np.all(s.sub_br <= 1 + 1e-9), 'subspace error outside [0,1]')


# P06 -------------------------------------------------------------------------------------------------------
def blackbox(r, m):
    a, b, c = r.mat(m), r.mat(m), r.mat(m)

    def f(x):
        x = np.asarray(x).reshape(-1)
        return float(np.sin(a.dot(x)) + np.exp(0.3 * np.tanh(b.dot(x))) + (c * x ** 2).sum())
    return f


@case('P06', 200)
def forward_differences(r):
    M, m = r.int(1, 7), r.int(1, 6)
    X = r.layout(r.mat(M, m))
    h = r.pick(1e-6, 1e-3, 0.1, -0.2, 2.0)
    f = blackbox(r, m)
    calls = []

    def g(x):
        check(np.shape(x) == (1, m), 'model called with shape %s' % (np.shape(x),))
        calls.append(np.array(x).reshape(-1).copy())
        return f(x)
    fun = simrunners.SimulationRunner(g) if r.chance(.5) else g
    df = gr.finite_difference_gradients(X, fun, h) if r.chance(.5) else gr.finite_difference_gradients(X, fun, h=h)
    want = np.array([[(f(X[i] + h * np.eye(m)[j]) - f(X[i])) / h for j in range(m)] for i in range(M)])
    close(df, want, 'forward differences', 1e-9, 1e-13 * (10 + np.max(X ** 2) * 50) / abs(h) * 10)
    pts = [X[i] for i in range(M)] + [X[i] + h * np.eye(m)[j] for i in range(M) for j in range(m)]
    check(len(calls) == len(pts), 'model called %d times, expected %d' % (len(calls), len(pts)))
    left = list(calls)
    for p in pts:
        k = [q for q in range(len(left)) if np.allclose(left[q], p, rtol=0, atol=1e-9 * (1 + abs(p).max()) if abs(h) > 1e-5 else 1e-10)]
        check(k, 'model not evaluated at a required point', p)
        left.pop(k[0])


@case('P06', 60)
def affine_exact(r):
    M, m = r.int(1, 7), r.int(1, 6)
    b = r.mat(m, 1)
    X = r.mat(M, m)
    df = gr.finite_difference_gradients(X, lambda x: x.dot(b) + 2.0, 0.5)
    close(df, np.tile(b.T, (M, 1)), 'affine function', 1e-9, 1e-9)
    df = gr.finite_difference_gradients(X, lambda x: x.dot(b) + 2.0)
    close(df, np.tile(b.T, (M, 1)), 'affine function, default step', 1e-4, 1e-7)


# P07 -------------------------------------------------------------------------------------------------------
@case('P07', 150)
def nearest_fit(r):
    m = r.int(2, 4)
    M = r.int(m + 3, 16)
    X = r.mat(M, m)
    f = np.sin(X.dot(r.mat(m, 1))) + X[:, :1] ** 2 + .3 * r.mat(M, 1)
    if r.chance(.3):
        i, j = r.randint(M), r.randint(M)
        X[i], f[i] = X[j], f[j]
    uniq = len(set(map(tuple, X)))
    p = r.pick(None, r.int(m + 1, M - 1))
    pp = int(np.floor(1.7 * m)) if p is None else p
    if pp > uniq - 2 or pp > M - 2 and uniq < M:
        raise Skip()
    w = r.pick(None, posweights(r, M))
    df = gr.local_linear_gradients(X, f, p=p, weights=w)
    rows = min(int(np.ceil(10 * m * np.log(m))), M - 1)
    check(df.shape == (rows, m), 'gradient estimate has shape %s, expected %s' % (df.shape, (rows, m)))
    cand = []
    for i in range(M):
        d = np.sum((X - X[i]) ** 2, axis=1)
        idx = [k for k in np.argsort(d, kind='stable') if d[k] != 0][:pp]
        A = np.hstack((np.ones((pp, 1)), X[idx]))
        if np.linalg.cond(A) > 1e6:
            raise Skip()
        cand.append(np.linalg.lstsq(A, f[idx], rcond=None)[0][1:, 0])
    cand = np.array(cand)
    for g in df:
        dist = np.min(np.max(np.abs(cand - g), axis=1))
        check(dist < 1e-6 * (1 + np.max(np.abs(cand))), 'a gradient row is not the fit to the %d nearest neighbours of any sample (off by %g)' % (pp, dist), g, cand)


@case('P07', 80)
def affine_data(r):
    m = r.int(2, 5)
    M = r.int(int(np.floor(1.7 * m)) + 2, 25)
    X = r.mat(M, m)
    b, c = affine(r, m)
    p = r.pick(None, r.int(m + 1, M - 1))
    df = gr.local_linear_gradients(X, X.dot(b) + c, p=p, weights=r.pick(None, posweights(r, M)))
    check(df.shape == (min(int(np.ceil(10 * m * np.log(m))), M - 1), m), 'shape', df.shape)
    close(df, np.tile(b.T, (df.shape[0], 1)), 'affine data', 1e-5, 1e-5)


@case('P07', 60)
def refusals(r):
    m = r.int(2, 4)
    M = r.int(m + 2, 12)
    X, f = r.mat(M, m), r.mat(M, 1)
    check(raises(lambda: gr.local_linear_gradients(X, f, p=m)), 'p = m accepted')
    check(raises(lambda: gr.local_linear_gradients(X, f, p=M + 1)), 'p = M+1 accepted')
    check(raises(lambda: gr.local_linear_gradients(X, f, p=r.pick(float(m + 1), m + 1.5, str(m + 1)))), 'non-integer p accepted')
    k = r.int(1, m)
    check(raises(lambda: gr.local_linear_gradients(X[:k], f[:k])), 'too few samples accepted')
    check(raises(lambda: gr.local_linear_gradients(X[:, 0], f)), '1-d inputs accepted', )


@case('P07', 10)
def all_samples_reachable(r):
    m, M = 2, 6
    X = r.mat(M, m)
    f = np.sin(3 * X[:, :1]) + X[:, 1:] ** 2
    seen = set()
    for _ in range(40):
        for g in gr.local_linear_gradients(X, f, p=3):
            seen.add(tuple(np.round(g, 6)))
    cand = set()
    for i in range(M):
        d = np.sum((X - X[i]) ** 2, axis=1)
        idx = np.argsort(d)[1:4]
        cand.add(tuple(np.round(np.linalg.lstsq(np.hstack((np.ones((3, 1)), X[idx])), f[idx], rcond=None)[0][1:, 0], 6)))
    check(len(seen) >= len(cand), 'some samples are never chosen as centre: %d of %d' % (len(seen), len(cand)))


# P08 -------------------------------------------------------------------------------------------------------
@case('P08', 200)
def bounded(r):
    m, M = r.int(1, 6), r.int(1, 8)
    lb = r.mat(m) * 10.0 ** r.uniform(-2, 2)
    ub = lb + 10.0 ** r.uniform(-2, 2, size=m)
    if r.chance(.2):
        lb = r.randint(-5, 5, size=m)
        ub = lb + r.randint(1, 6, size=m)
    shp = r.pick((m,), (1, m), (m, 1))
    bn = misc.BoundedNormalizer(lb.reshape(shp), ub.reshape(shp))
    t = r.uniform(-.5, 1.5, size=(M, m))
    t[0] = r.choice([0.0, 1.0, .5], size=m)
    X = r.layout(lb + t * (ub - lb))
    if r.chance(.2):
        X = np.rint(X).astype(int)
        t = (X - lb) / (ub - lb).astype(float)
    N = bn.normalize(X)
    close(N, 2 * t - 1, 'bounded normalize', 1e-9, 1e-7)
    close(bn.unnormalize(N), X, 'unnormalize(normalize(X))', 1e-9, 1e-9)
    Z = r.uniform(-2, 2, size=(M, m))
    close(bn.unnormalize(Z), lb + (Z + 1) / 2 * (ub - lb), 'bounded unnormalize', 1e-9, 1e-9)
    close(bn.normalize(bn.unnormalize(Z)), Z, 'normalize(unnormalize(Z))', 1e-6, 1e-6)
    close(bn.normalize(lb.reshape((1, m))), -np.ones((1, m)), 'lower bound')
    close(bn.normalize(ub.reshape((1, m))), np.ones((1, m)), 'upper bound')


@case('P08', 200)
def unbounded(r):
    m, M = r.int(1, 6), r.int(1, 8)
    mu = r.mat(m) * 3
    B = r.mat(m, m) + 2 * np.diag(np.sign(r.mat(m)))
    C = B.dot(B.T)
    if r.chance(.2):
        C = np.diag(r.uniform(.1, 4, size=m))
    if np.linalg.cond(C) > 1e5:
        raise Skip()
    un = misc.UnboundedNormalizer(mu.reshape(r.pick((m,), (1, m), (m, 1))), C)
    L = np.linalg.cholesky(C)
    X = r.layout(r.mat(M, m) * 3)
    close(un.normalize(X), np.linalg.solve(L, (X - mu).T).T, 'unbounded normalize', 1e-7, 1e-7)
    Z = r.mat(M, m)
    close(un.unnormalize(Z), Z.dot(L.T) + mu, 'unbounded unnormalize', 1e-7, 1e-7)
    close(un.unnormalize(un.normalize(X)), X, 'unnormalize(normalize(X))', 1e-6, 1e-6)
    close(un.normalize(un.unnormalize(Z)), Z, 'normalize(unnormalize(Z))', 1e-6, 1e-6)
    close(un.normalize(mu.reshape((1, m))), np.zeros((1, m)), 'mean', 0, 1e-7)


# P09 -------------------------------------------------------------------------------------------------------
@case('P09', 200)
def unbounded_maps(r):
    m = r.int(1, 6)
    n = r.int(1, m)
    W = r.orth(m)
    s = subspace_of(W, n)
    avm = dom.UnboundedActiveVariableMap(dom.UnboundedActiveVariableDomain(s))
    M = r.int(1, 6)
    X = r.layout(r.mat(M, m))
    Y, Z = avm.forward(X)
    close(Y, X.dot(W[:, :n]), 'forward: active variables')
    close(Z, X.dot(W[:, n:]), 'forward: inactive variables')
    close(Y.dot(s.W1.T) + Z.dot(s.W2.T), X, 'forward: reconstruction')
    NY, N = r.int(1, 5), r.int(1, 5)
    Yq = r.layout(r.mat(NY, n))
    if N == 1 and r.chance(.5):
        Xi, ind = avm.inverse(Yq)
    else:
        Xi, ind = avm.inverse(Yq, N)
    check_inverse(avm, Yq, Xi, ind, N, m)
    if m > n:
        ZZ = Xi.dot(W[:, n:])
        check(len(set(np.round(np.abs(ZZ.ravel()), 9))) == ZZ.size, 'inactive coordinates repeat between points', ZZ)


def check_inverse(avm, Y, X, ind, N, m):
    NY, n = Y.shape
    check(X.shape == (NY * N, m), 'inverse: shape %s for NY=%d N=%d m=%d' % (X.shape, NY, N, m))
    check(ind.shape == (NY * N, 1), 'inverse: index shape %s' % (ind.shape,))
    check(np.all(ind == np.rint(ind)), 'inverse: index not integral')
    i = np.rint(ind[:, 0]).astype(int)
    check(np.array_equal(np.bincount(i, minlength=NY), np.full(NY, N)), 'inverse: index values do not occur N times each', i)
    close(avm.forward(X)[0], Y[i], 'inverse: active variables of the returned points', 1e-7, 1e-7)


@case('P09', 20)
def bounded_maps(r):
    m = r.int(2, 4)
    W = r.orth(m, ('qr',))
    s = subspace_of(W, 1)
    avm = dom.BoundedActiveVariableMap(dom.BoundedActiveVariableDomain(s))
    NY, N = r.int(1, 3), r.int(1, 3)
    X0 = r.uniform(-.9, .9, size=(NY, m))
    Y, Z = avm.forward(X0)
    close(Y.dot(s.W1.T) + Z.dot(s.W2.T), X0, 'forward: reconstruction')
    Xi, ind = avm.inverse(Y, N)
    check_inverse(avm, Y, Xi, ind, N, m)


@case('P09', 6)
def normal_draws(r):
    m, n = 4, 2
    s = subspace_of(r.orth(m, ('qr',)), n)
    avm = dom.UnboundedActiveVariableMap(dom.UnboundedActiveVariableDomain(s))
    X, ind = avm.inverse(r.mat(3, n), 4000)
    Z = X.dot(s.W2)
    check(np.all(np.abs(Z.mean(axis=0)) < 0.08) and np.all(np.abs(Z.std(axis=0) - 1) < 0.06) and abs(np.mean(Z[:, 0] * Z[:, 1])) < .08,
          'inactive coordinates are not standard normal', Z.mean(axis=0), Z.std(axis=0))


# P10 -------------------------------------------------------------------------------------------------------
def feasible_y(r, m, n, kinds=('qr', 'qr', 'perm', 'block', 'haar0')):
    W = r.orth(m, kinds)
    x = r.pick(r.uniform(-.95, .95, size=m), .97 * r.choice([-1., 1.], size=m), np.zeros(m), r.uniform(.6, .95, size=m),
               np.where(r.uniform(size=m) < .5, .98, -.2))
    return W[:, :n], W[:, n:], W[:, :n].T.dot(x)


def inside(Z, N, y, W1, W2, what):
    m, n = W1.shape
    check(Z.shape == (N, m - n), '%s: shape %s for N=%d m-n=%d' % (what, Z.shape, N, m - n))
    X = W1.dot(y).reshape((1, m)) + Z.dot(W2.T)
    check(np.all(np.isfinite(X)), what + ': not finite', Z)
    check(np.max(np.abs(X)) <= 1 + 1e-6, '%s: a sample leaves the hypercube by %g' % (what, np.max(np.abs(X)) - 1), W1, y, Z)


def _sampler(name, call, n=60):
    def f(r):
        m = r.int(2, 5)
        k = r.int(1, m - 1)
        W1, W2, y = feasible_y(r, m, k)
        N = r.int(1, 12)
        Z = call(N, y, W1, W2)
        if Z is None:
            raise Skip()
        inside(Z, N, y, W1, W2, name)
    f.__name__ = name
    case('P10', n)(f)


_sampler('rejection', lambda *a: dom.rejection_sampling_z(*a), 80)
_sampler('hit_and_run', lambda *a: dom.hit_and_run_z(*a), 120)
_sampler('random_walk', lambda *a: dom.random_walk_z(*a), 120)
_sampler('sample_z', lambda *a: dom.sample_z(*a), 80)


@case('P10', 40)
def many_steps(r):
    m = r.int(2, 5)
    k = r.int(1, m - 1)
    W1, W2, y = feasible_y(r, m, k)
    N = r.int(60, 150)
    inside(dom.hit_and_run_z(N, y, W1, W2), N, y, W1, W2, 'hit_and_run long')
    inside(dom.random_walk_z(N, y, W1, W2), N, y, W1, W2, 'random_walk long')


@case('P10', 40)
def bounded_inverse(r):
    m = r.int(2, 5)
    W = r.orth(m, ('qr', 'block'))
    n = 1
    if m >= 3 and r.chance(.4):
        n = 2
    s = subspace_of(W, n)

    class D(dom.BoundedActiveVariableDomain):
        def __init__(self, s):
            self.subspaces = s
            self.m, self.n = s.W1.shape
    avm = dom.BoundedActiveVariableMap(D(s))
    NY, N = r.int(1, 4), r.int(1, 4)
    X0 = np.array([r.pick(r.uniform(-.9, .9, size=m), .97 * r.choice([-1., 1.], size=m)) for _ in range(NY)])
    Y = X0.dot(W[:, :n])
    X, ind = avm.inverse(Y, N)
    check(np.max(np.abs(X)) <= 1 + 1e-6, 'inverse leaves the hypercube by %g' % (np.max(np.abs(X)) - 1), W, Y)
    check_inverse(avm, Y, X, ind, N, m)


# P11 -------------------------------------------------------------------------------------------------------
@case('P11', 150)
def interval(r):
    m = r.int(1, 7)
    w = r.mat(m, 1)
    if r.chance(.2):
        w[r.randint(m)] *= 1e-3
    w /= np.linalg.norm(w)
    Y, X = dom.interval_endpoints(w)
    a = np.sum(np.abs(w))
    close(Y, [[-a], [a]], 'interval endpoints')
    check(X.shape == (2, m), 'endpoint corners: shape')
    check(np.all(np.abs(X) == 1), 'endpoint corners', X)
    close(X.dot(w), Y, 'corners do not map to the endpoints')
    s = subspace_of(np.linalg.qr(np.hstack((w, r.mat(m, m - 1))))[0] if m > 1 else w, 1)
    d = dom.BoundedActiveVariableDomain(s)
    a = np.sum(np.abs(s.W1))
    close(d.vertY, [[-a], [a]], 'interval domain')
    close(d.vertX.dot(s.W1), d.vertY, 'interval domain corners')
    check(d.n == 1 and d.m == m, 'm, n')


def brute_corners(W1):
    m, n = W1.shape
    c = np.array(np.meshgrid(*[[-1., 1.]] * m)).reshape((m, -1)).T
    return c


def good_zono(r):
    m = r.int(3, 5)
    n = r.pick(2, 2, 3) if m > 3 else 2
    W = r.orth(m, ('qr',))
    W1 = W[:, :n]
    Z = r.mat(20000, n)
    S = np.sign(Z.dot(W1.T))
    S = np.vstack((S, -S))
    u, c = np.unique(S, axis=0, return_counts=True)
    if u.shape[0] != nz(m, n) or c.min() < 30:
        raise Skip()
    return W, m, n, u


def nz(m, n):
    from math import comb
    return 2 * sum(comb(m - 1, i) for i in range(n))


@case('P11', 60)
def nzv_formula(r):
    m = r.int(1, 12)
    n = r.int(1, m)
    v = dom.nzv(m, n)
    check(v == nz(m, n), 'nzv(%d,%d) = %r' % (m, n, v))
    check(raises(lambda: dom.nzv(float(m), n)) and raises(lambda: dom.nzv(m, float(n))), 'non-integers accepted')


@case('P11', 60)
def zonotope(r):
    W, m, n, u = good_zono(r)
    W1 = W[:, :n]
    Y, X = dom.zonotope_vertices(W1) if r.chance(.5) else dom.zonotope_vertices(W1, r.pick(50, 500), 3000)
    check(X.shape == (Y.shape[0], m) and Y.shape[1] == n, 'vertex shapes', X.shape, Y.shape)
    check(np.all(np.abs(X) == 1), 'vertex corners are not corners')
    close(X.dot(W1), Y, 'vertices are not the images of their corners')
    rows = set(map(tuple, X))
    check(len(rows) == X.shape[0], 'repeated vertices')
    check(X.shape[0] == nz(m, n), '%d of %d vertices' % (X.shape[0], nz(m, n)))
    check(rows == set(map(tuple, -X)), 'vertex set not symmetric')
    check(rows == set(map(tuple, u)), 'wrong set of corners')


@case('P11', 40)
def zonotope_incomplete(r):
    W, m, n, u = good_zono(r)
    W1 = W[:, :n]
    Y, X = dom.zonotope_vertices(W1, 1, r.pick(0, 1, 2))
    check(np.all(np.abs(X) == 1), 'vertex corners are not corners')
    close(X.dot(W1), Y, 'vertices are not the images of their corners')
    rows = set(map(tuple, X))
    check(len(rows) == X.shape[0] <= nz(m, n), 'repeated or too many vertices')
    check(rows == set(map(tuple, -X)), 'vertex set not symmetric')
    check(rows <= set(map(tuple, u)), 'a corner that is no vertex')


@case('P11', 40)
def zonotope_domain(r):
    W, m, n, u = good_zono(r)
    s = subspace_of(W, n)
    d = dom.BoundedActiveVariableDomain(s)
    check((d.m, d.n) == (m, n), 'm, n')
    close(d.vertX.dot(s.W1), d.vertY, 'vertices are not the images of their corners')
    con = d.constraints
    con = con if isinstance(con, dict) else con[0]
    check(con['type'] == 'ineq', 'constraint type')
    X = np.vstack((r.uniform(-1, 1, size=(30, m)), brute_corners(s.W1)))
    for y in X.dot(s.W1):
        check(np.all(con['fun'](y) >= -1e-8), 'constraint refuses a point of the domain', y)
    for v in d.vertY:
        check(np.any(con['fun'](1.001 * v) < 0), 'constraint accepts a point outside', v)
        check(np.any(con['fun'](3 * v) < 0), 'constraint accepts a point far outside', v)
    y = r.mat(n)
    J = np.array(con['jac'](y))
    F = con['fun'](y)
    close(J, np.array([(con['fun'](y + np.eye(n)[k]) - F) for k in range(n)]).T, 'constraint Jacobian', 1e-7, 1e-7)
