"""Small numpy programs: the engine's symbolic result must agree with what numpy computes (read by tools/selftest.py).

Parameter names fix the inputs: X, X2 (M, m), Y (m, n), S (m, m), v (M,), u (m,), w (M, 1), r (1, m), K ints (M,) in 0..M-1,
Z (M*m,), a, b reals, M, m, n, p ints (0 <= p <= M)."""
import numpy as np


# indexing and slicing
def ix1(X, K): return X[K, :]
def ix2(X): return X[:, 0]
def ix3(X): return X[0]
def ix4(X, p): return X[:p]
def ix5(X, p): return X[p:, :]
def ix6(X): return X[::-1]
def ix7(X): return X[:, ::-1]
def ix8(X): return X[-1, :]
def ix9(X): return X[:, -1:]
def ix10(v, p): return v[p:]
def ix11(v): return v[1:] - v[:-1]
def ix12(X): return X[:, None, :] - X[None, :, :]
def ix13(v): return v[:, np.newaxis] * v
def ix14(X, K): return X[K][:, 0]
def ix15(v): return v[::2]
def ix16(X, p): return X[:p].T
def ix17(X, K): return X[K[0], :]
def ix18(v, K): return v[K[::-1]]
def ix19(Z, M, m): return Z.reshape((M, m))
def ix20(Z, M, m): return Z.reshape((m, M)).T
def ix21(X): return X.flatten()
def ix22(X): return X.T.ravel()
def ix23(X, Y): return np.dot(X, Y)[:, -1]


# shapes
def sh1(X): return np.tile(X, (2, 1))
def sh2(X, n): return np.tile(X, (n, 1))
def sh3(X, n): return np.tile(X, (1, n))
def sh4(X, n): return np.repeat(X, n, axis=0)
def sh5(X, n): return np.repeat(X, n, axis=1)
def sh6(v, n): return np.repeat(v, n)
def sh7(v, u): return np.kron(v.reshape((v.size, 1)), u.reshape((u.size, 1)))
def sh8(X, Y): return np.kron(X, Y)
def sh9(X, X2): return np.vstack((X, X2))
def sh10(X, X2): return np.hstack((X, X2))
def sh11(X, w): return np.hstack((np.ones((X.shape[0], 1)), X, w))
def sh12(v, u): return np.concatenate((v, u))
def sh13(X, X2): return np.concatenate((X, X2), axis=1)
def sh14(X): return np.reshape(X, (X.size,))
def sh15(X, m): return X.reshape((m, -1))
def sh16(v): return np.atleast_2d(v)
def sh17(v): return v.reshape((-1, 1))
def sh18(X): return np.squeeze(X[:, :1])
def sh19(X): return np.transpose(X)
def sh20(v): return np.column_stack((v, v * v))
def sh21(X, n): return np.tile(X, (n, 1)).reshape((n,) + X.shape)
def sh22(X, n): return np.tile(X[:, :, np.newaxis], (1, 1, n)).transpose((0, 2, 1))
def sh23(X): return np.swapaxes(X, 0, 1)
def sh24(M, n): return np.arange(M * n) % n
def sh25(M, n): return np.kron(np.arange(M), np.ones(n))
def sh26(M): return np.eye(M)
def sh27(u): return np.diag(u)
def sh28(S): return np.diag(S)
def sh29(M): return np.linspace(-1, 1, M + 1)
def sh30(a, b, M): return np.linspace(a, b, M + 2)[1:-1]
def sh31(v): return np.split(v, [1])[1] if v.size > 1 else v
def sh32(X): return X.reshape((X.shape[0], 1, X.shape[1]))[:, 0]
def sh33(M, n): return np.arange(M).repeat(n)
def sh34(X): return np.outer(X[0], X[:, 0])


# arithmetic, reductions
def ar1(X, Y): return X.dot(Y)
def ar2(X): return np.dot(X.T, X)
def ar3(X, w): return np.dot(X.T, X * w)
def ar4(X): return X.sum(axis=0)
def ar5(X): return np.sum(X ** 2, axis=1)
def ar6(X): return np.mean(X, axis=0)
def ar7(X): return X.mean()
def ar8(X): return np.var(X, axis=1)
def ar9(v): return np.std(v)
def ar10(X): return np.amin(X, axis=0)
def ar11(X): return np.max(X)
def ar12(X): return np.argmin(X, axis=0) if X.shape[0] > 0 else 0
def ar13(v): return np.argmax(v)
def ar14(v): return np.argsort(v)
def ar15(v): return v[np.argsort(v)[::-1]]
def ar16(X): return np.fabs(X).max(axis=1)
def ar17(v): return np.diff(v)
def ar18(v): return np.cumsum(v)
def ar19(X): return np.prod(X, axis=1)
def ar20(X, a): return np.maximum(X, a)
def ar21(X, a): return np.where(X > a, X, -X)
def ar22(X): return np.sign(X)
def ar23(X): return np.sqrt(np.abs(X))
def ar24(v): return np.linalg.norm(v)
def ar25(X): return np.linalg.norm(X, axis=1)
def ar26(X, r): return X - r
def ar27(X, w): return (X * w).sum(axis=0) / w.sum() if np.abs(w.sum()) > .1 else X[0]
def ar28(X): return np.all(X > 0)
def ar29(X): return np.any(X > 1, axis=1)
def ar30(X): return (X > 0).sum(axis=0)
def ar31(X, p): return X ** p
def ar32(n, M): return n // 2 + M % 2
def ar33(n, M): return (n - 5) // 2, (n - 5) % 3
def ar34(n): return n / 2, n / 2.0, (-n) / 2
def ar35(a): return int(np.floor(a)), int(np.ceil(a)), int(a), round(a * 2)
def ar36(S): return np.trace(S)
def ar37(S): return np.triu(S), np.tril(S)
def ar38(X, X2): return np.vdot(X, X2)
def ar39(v): return np.clip(v, -0.5, 0.5)
def ar40(X, Y): return np.einsum('ij,jk->ik', X, Y)
def ar41(a, b): return min(a, b), max(a, b), abs(a)
def ar42(X, w): return np.average(X, axis=0)
def ar43(v, u): return np.add.outer(v, u)
def ar44(X): return X.min(axis=1, keepdims=True) - X
def ar45(v): return sum(v), len(v)


# masks
def mk1(v): return v[v > 0]
def mk2(X): return X[X[:, 0] > 0]
def mk3(X): return X[X[:, 0] > 0, :].sum()
def mk4(v): return np.nonzero(v > 0)[0]
def mk5(v, K): return v[K[v[K] > 0]]
def mk6(v): return v[(v > -1) & (v < 1)].size
def mk7(K): return np.sum(K == 0)
def mk8(v, K): return v[K == 1]
def mk9(X, K): return np.mean(X[K == K[0]], axis=0)


# writes
def wr1(X):
    A = X.copy()
    A[0, :] = 1
    return A


def wr2(X, v):
    A = X.copy()
    A[:, 0] = v
    return A


def wr3(X):
    A = X.copy()
    A[A < 0] = 0
    return A


def wr4(X):
    A = X.copy()
    B = A[:, :1]
    B += 1
    return A


def wr5(v, K):
    A = np.zeros(v.shape)
    A[K] = 1
    return A


def wr6(X):
    A = X.copy()
    A *= 2
    A -= X
    return A


def wr7(X):
    A = X.copy()
    A[::-1][0] = 5
    return A


def wr8(X, p):
    A = np.zeros(X.shape)
    A[:p] = X[:p]
    A[p:] = -1
    return A


def wr9(X):
    A = X.copy()
    A.T[0] = 7
    A.ravel()[0] = 3
    return A


def wr10(X):
    A = X.copy()
    A.reshape(-1)[:] = 0
    return A


def wr11(X):
    A = X.copy()
    A.flatten()[:] = 0
    return A


def wr12(S):
    A = S.copy()
    A[np.arange(A.shape[0]), np.arange(A.shape[0])] += 1
    return A


def wr13(S):
    A = S.copy()
    np.fill_diagonal(A, 9)
    return A


# loops
def lp1(X):
    A = np.zeros((X.shape[0], 1))
    for i in range(X.shape[0]):
        A[i] = X[i].sum()
    return A


def lp2(X):
    s = 0
    for i in range(X.shape[0]):
        for j in range(X.shape[1]):
            s += X[i, j] * (i + 1) - j
    return s


def lp3(v):
    A = np.zeros(v.size)
    for i in range(1, v.size):
        A[i] = v[i] - v[i - 1]
    return A


def lp4(X):
    out = []
    for x in X:
        out.append(x.sum())
    return np.array(out)


def lp5(v):
    best = v[0]
    for i in range(v.size):
        if v[i] < best:
            best = v[i]
    return best


def lp6(v):
    best, at = v[0], 0
    for i in range(1, v.size):
        if v[i] > best:
            best, at = v[i], i
    return best, at


def lp7(X, n):
    A = np.zeros((X.shape[0] * n, X.shape[1]))
    for i in range(X.shape[0]):
        A[i * n:(i + 1) * n] = X[i]
    return A


def lp8(M):
    A = np.zeros((M, M))
    for i in range(M):
        for j in range(i):
            A[i, j] = i - j
    return A


def lp9(v):
    return np.array([2 * x for x in v])


def lp10(v, w):
    s = 0.0
    for x, y in zip(v, w[:, 0]):
        s += x * y
    return s


def lp11(v):
    s = 0.0
    for i, x in enumerate(v):
        s = s + i * x
    return s


def lp12(n, M):
    k = 0
    while k < n:
        k += 1
    return k + M


def lp13(v):
    A = v.copy()
    for i in range(v.size):
        A[v.size - 1 - i] = v[i]
    return A


def lp14(X):
    A = X.copy()
    for j in range(X.shape[1]):
        A[:, j] = A[:, j] * (j + 1) + A[:, j].sum()
    return A


def lp15(v, a):
    for i in range(v.size):
        if v[i] > a:
            return i
    return -1


def lp16(v):
    n = 0
    for x in v:
        if x < 0:
            continue
        n += 1
    return n


def lp17(X):
    A = np.zeros(X.shape)
    for i in range(X.shape[0]):
        A[i, :] = X[i] if i % 2 == 0 else -X[i]
    return A


def lp18(v):
    A = np.zeros((v.size, 2))
    for i in range(v.size):
        A[i, 0], A[i, 1] = v[i], i
    return A


def lp19(n):
    p = 1
    for i in range(n):
        p *= 2
    return p


def lp20(v):
    t, A = 0, np.zeros(v.size)
    for i in range(v.size):
        t += v[i]
        A[i] = t
    return A


def lp21(X, n):
    Y = np.zeros((0, X.shape[1]))
    for i in range(n):
        Y = np.vstack((Y, X * i))
    return Y


def lp22(M, n):
    A = np.zeros((M, n))
    for k in range(M * n):
        A[k // n, k % n] = k
    return A


def lp23(v):
    flag = False
    for i in range(v.size):
        if v[i] > 1:
            flag = True
    return flag


def lp24(v, K):
    A = np.zeros(v.size)
    for i in range(v.size):
        A[K[i]] = v[i]
    return A


# linear algebra (values that do not depend on the choice of the factorisation)
def la1(S):
    e, V = np.linalg.eigh(np.dot(S, S.T))
    return e


def la2(S, u):
    A = np.dot(S, S.T) + np.eye(S.shape[0])
    return np.linalg.solve(A, u)


def la3(S):
    A = np.dot(S, S.T) + np.eye(S.shape[0])
    return np.linalg.cholesky(A)


def la4(S):
    e, V = np.linalg.eigh(np.dot(S, S.T))
    return np.dot(V * e, V.T)


def la5(S, u):
    A = np.dot(S, S.T) + np.eye(S.shape[0])
    return np.linalg.lstsq(A, u)[0]


# types, errors
def ty1(X):
    if X.ndim != 2:
        raise ValueError('no')
    return X.shape[0]


def ty2(v, p):
    return v[p]


def ty3(X, X2):
    if X.shape[1] > 2:
        raise ValueError('too wide')
    return X + X2


def ty4(n, a):
    if isinstance(n, int) and not isinstance(a, int):
        return n + a
    return 0


def ty5(v):
    try:
        return v[5]
    except IndexError:
        return -1.0


def ty6(X, v):
    return X.dot(v)


def ty7(M, m, X):
    return X.reshape((m, M))


def ty8(v, u):
    return v + u


# sequences of symbolic length
def sq1(X): return np.vstack([X] + [X + 2*i for i in range(X.shape[1])])
def sq2(X): return np.vstack([X[:, j] for j in range(X.shape[1])])
def sq3(X): return np.hstack([X[:, [j]] for j in range(X.shape[1])] + [X])
def sq4(X): return np.hstack([X + k for k in range(X.shape[0])])
def sq5(X): return np.concatenate([X * k for k in range(X.shape[1])], axis=0)
def sq6(v): return np.array([x for x in v if x > 0])
def sq7(v, p): return np.array([k for k in range(v.size) if v[k] > 0][:2] + [0])
def sq8(v, p): return np.array([2*x for x in v][p:])
def sq9(v): return np.array([x for x in v][1:-1])
def sq10(X): return np.column_stack([X[:, j] for j in range(X.shape[1])])
def sq11(v): return len([k for k in v if k > 0])
def sq12(X): return np.array([X[0, :]] + [x + 1 for x in X])


def sq13(X):
    A = X.copy()
    for j in range(A.shape[1]):
        if A[0, j] < 0:
            A[:, j] = -A[:, j]
    return A


def sq14(S):
    A = S.copy()
    for j in range(1, A.shape[0]):
        if S[j, j - 1] > 0:
            A[j, :] = A[j, :] / 2.0
    return A


def sq15(S):
    A = S.copy()
    for j in range(A.shape[0]):
        if A[j, 0] < A[j, j]:
            A[j, :] *= 3
    return A


def sq16(S):
    A = S.copy()
    for j in range(1, A.shape[0]):
        if A[j - 1, 0] > 0:
            A[j, :] = A[j, :] + A[j - 1, :]
    return A


def sq17(v): return np.diag(v, 1), np.diag(v, -2), np.diag(v, 0)
def sq18(S): return np.eye(S.shape[0], k=1)
def sq19(S): return np.triu(S, 1), np.tril(S, -1), np.triu(S, -1)
def sq20(X): return X.reshape(X.shape, order='F'), X.reshape((X.size,), order='F'), X.reshape((X.shape[1], X.shape[0]), order='F')
def sq21(X): return X.flatten('F'), X.ravel(order='F'), X.flatten(order='C'), np.ravel(X, 'F')
def sq22(X): return np.reshape(X, (-1, 1), order='F'), np.average(X, axis=0, weights=np.arange(X.shape[0]) + 1.0)
def sq23(a, b, n): return np.linspace(a, b, n + 3, endpoint=True)
def sq24(X): return np.std(X, axis=1, keepdims=True), X.mean(axis=0, keepdims=True)
def sq25(M, m): return np.eye(M, m), np.eye(M, m, k=-1), np.eye(M, dtype=int)


def sr0(X): return np.flip(X), np.flip(X, 0), np.flip(X, axis=1), np.flipud(X), np.fliplr(X), np.flip(X[0, :])
def sr1(X, v): return np.take(X, np.argsort(X[:, 0]), axis=0), X.take(np.array([0, 0]), axis=1), np.take(v, [0, 0]), X.take(0)
def sr2(S): return np.split(S, [1], axis=1)[1], np.hsplit(S, [1])[0], np.vsplit(S, [1])[1], np.split(S, S.shape[0])[0] if False else S
def sr3(X, v): return np.append(v, 3.0), np.append(X, X, axis=0), np.append(X, X)
def sr4(X, v): return np.c_[X, X[:, 0]], np.c_[v, v], np.r_[v, 1.0, v], np.r_[X, X]
def sr5(v): return np.add.outer(v, v), np.subtract.outer(v, 2.0 * v), np.multiply.outer(v, v)
def sr6(X): return np.add.reduce(X), np.add.reduce(X, axis=1), np.maximum.reduce(X, 0), np.minimum.reduce(X, axis=1)


def sr7(X):
    A = X.copy()
    m = A[0, :] < 0
    A[:, m] = -A[:, m]
    return A


def sr8(v):
    w = v.copy()
    w[v > 0] = 2.0 * v[v > 0]
    return w


def sr9(X):
    A = X.copy()
    m = X[:, 0] > 0
    A[m, :] = X[m, :] * X[m, :]
    return A


def sr10(X):
    A = X.copy()
    m = X[:, 0] > 0
    A[m] = X[m][::-1] if False else X[m] + 1.0
    return A


def sr11(v):
    w = v.copy()
    m = v > 0
    w[m] = np.arange(v.size)[m] * 1.0
    return w


def sr12(X):
    A = np.zeros(X.shape)
    np.copyto(A, X[0, :])
    return A, np.broadcast_to(X[0, :], X.shape), np.moveaxis(X, 0, 1)


def sr13(S, v): return np.delete(v, 0), np.delete(S, 0, axis=0), np.delete(S, -1, axis=1)
def sr14(v, w):
    A, B = np.meshgrid(v, w)
    C, D = np.meshgrid(v, w, indexing='ij')
    return A, B, C, D
def sr15(S): return S[np.ix_(np.array([0, 1 - 1]), np.arange(S.shape[1]))]
def sr16(v, w): return np.hypot(v[0], w[0]), np.ptp(v), np.reciprocal(v * v + 1.0)


def sr17(v):
    w = v.copy()
    w[v > 0] = np.sort(v)[v > 0]
    return w


def sr18(v):
    w = np.zeros(v.shape)
    m = v > 0
    w[m] = np.arange(np.sum(m))
    return w


def ss0(X): return np.round(X, 2), np.around(X, decimals=1), np.round(X), X.round(3), np.rint(X), np.round(100.0 * X, -1)


def su0(S):
    A = S.copy()
    k = np.arange(A.shape[0])
    A[k, k] += 0.01
    return A


def su1(S, v):
    A = np.zeros((S.shape[0] + 1, S.shape[0]))
    k = np.arange(S.shape[0])
    A[k + 1, k] = v
    A[k, k] -= np.sum(v)
    return A


def su2(X):
    A = np.zeros((X.shape[0] + 2, X.shape[1]))
    A[np.arange(X.shape[0]) + 1, :] = X
    return A


def su3(S, v):
    A = S.copy()
    k = np.arange(1, A.shape[0])
    A[k - 1, k] = 2.0 * v[k]
    return A


def su4(X):
    A = X.copy()
    A[np.arange(X.shape[0]), 0] = np.arange(X.shape[0])
    return A
