"""Assumed contracts of numpy/scipy kernels, as axiom schemas (facts about one application) and contraction rules.

Every schema is listed in TRUSTED; evidence files print the ones a unit could use.
"""
from .values import *          # noqa: F401,F403
from .prover import Mono, sc_without
from . import terms as TT

TRUSTED = {
    'amin': 'np.amin/min: a lower bound of the entries that is attained',
    'amax': 'np.amax/max: an upper bound of the entries that is attained',
    'argmin': 'np.argmin: the first position of a minimum',
    'argmax': 'np.argmax: the first position of a maximum',
    'argsort': 'np.argsort: a permutation that sorts increasingly',
    'sel': 'boolean indexing selects the True positions in increasing order',
    'count': 'boolean indexing selects between 0 and n elements',
    'eigval': 'np.linalg.eigh: ascending eigenvalues, orthonormal eigenvectors, reconstruction of the symmetric matrix',
    'chol': 'np.linalg.cholesky: lower triangular, L L^T = C, invertible',
    'solve': 'np.linalg.solve: the solution of the linear system',
    'matinv': 'np.linalg.inv: the inverse of a nonsingular matrix',
    'round': 'np.round: an integer within 1/2 of the argument',
    'comb': 'scipy.misc.comb: the binomial coefficient',
    'lstsq': 'np.linalg.lstsq: a least-squares solution; the only one when the columns are independent',
}


def open_lam(L, names=None):
    vs, dims, b = L.a
    return vs, dims, b


def forall(L, f):
    """conjunction over all index tuples of a lambda"""
    vs, dims, b = L.a
    nv = [fresh('z', 'I') for _ in vs]
    t = f(nv, subst(b, dict(zip(vs, nv))))
    for v, d in reversed(list(zip(nv, dims))):
        t = tall(v, ZERO, d, t)
    return t


def at_lam(L, idx):
    vs, dims, b = L.a
    return subst(b, dict(zip(vs, idx)))


def extreme(kind):
    def f(a):
        L = a.a[1][0]
        if L.k != 'lam':
            return
        vs, dims, b = L.a
        cmp_ = (lambda x: le(a, x)) if kind == 'amin' else (lambda x: le(x, a))
        yield ((kind, a, 'b'), forall(L, lambda v, x: cmp_(x)))
        w = [app('wit_' + kind, (L, num(i)), 'I') for i in range(len(vs))]
        rng = and_(*[and_(le(ZERO, x), lt(x, d)) for x, d in zip(w, dims)])
        ne = and_(*[le(ONE, d) for d in dims])
        yield ((kind, a, 'w'), implies(ne, and_(rng, eq(a, at_lam(L, w)))))
    return f


def extreme_if(kind):
    def f(a):
        L, Mk = a.a[1]
        vs, dims, b = L.a
        cmp_ = (lambda x: le(a, x)) if kind == 'amin_if' else (lambda x: le(x, a))
        yield ((kind, a, 'b'), forall(L, lambda v, x: implies(eq(at_lam(Mk, v), ONE), cmp_(x))))
        w = [app('wit_' + kind, (L, Mk, num(i)), 'I') for i in range(len(vs))]
        rng = and_(*[and_(le(ZERO, x), lt(x, d)) for x, d in zip(w, dims)])
        some = not_(forall(Mk, lambda v, x: eq(x, ZERO)))
        yield ((kind, a, 'w'), implies(some, and_(rng, eq(at_lam(Mk, w), ONE), eq(a, at_lam(L, w)))))
    return f


def two_factors(n):
    """n = f*g"""
    if n.k != 'mul':
        return []
    fs = [f for f, e in n.a[0] for _ in range(e if isinstance(e, int) and 0 < e < 3 else 3)]
    if len(fs) != 2:
        return []
    return [(fs[0], fs[1])] + ([(fs[1], fs[0])] if fs[0] is not fs[1] else [])


def argext(kind):
    def f(a):
        L = a.a[1][0]
        vs, dims, b = L.a
        if len(vs) != 1:
            return
        n = dims[0]
        e = at_lam(L, [a])
        yield ((kind, a, 'r'), implies(le(ONE, n), and_(le(ZERO, a), lt(a, n))))
        for f, g in two_factors(n):
            # quotient of a position in a table of f rows and g columns
            yield ((kind, a, 'q', f, g), implies(and_(le(ONE, f), le(ONE, g)), and_(le(ZERO, fdiv(a, g)), lt(fdiv(a, g), f),
                   le(ZERO, mod(a, g)), lt(mod(a, g), g))))
        v = fresh('z', 'I')
        x = at_lam(L, [v])
        yield ((kind, a, 'b'), tall(v, ZERO, n, le(e, x) if kind == 'argmin' else le(x, e)))
        v = fresh('z', 'I')
        x = at_lam(L, [v])
        yield ((kind, a, 'f'), tall(v, ZERO, a, lt(e, x) if kind == 'argmin' else lt(x, e)))
    return f


def argsort(a):
    L, i = a.a[1]
    vs, dims, b = L.a
    n = dims[0]
    rng = and_(le(ZERO, i), lt(i, n))
    yield (('argsort', a, 'r'), implies(rng, and_(le(ZERO, a), lt(a, n), eq(app('inv_argsort', (L, a), 'I'), i))))
    v = fresh('z', 'I')
    yield (('argsort', a, 's'), implies(rng, tall(v, i, n, le(at_lam(L, [a]), at_lam(L, [app('argsort', (L, v), 'I')])))))


def inv_argsort(a):
    L, p = a.a[1]
    vs, dims, b = L.a
    n = dims[0]
    yield (('inv_argsort', a), implies(and_(le(ZERO, p), lt(p, n)),
                                       and_(le(ZERO, a), lt(a, n), eq(app('argsort', (L, a), 'I'), p))))


def sel(a):
    L, k = a.a[1]
    vs, dims, b = L.a
    c = app('count', (L,), 'I')
    m = at_lam(L, [a])
    m = m if m.s == 'B' else eq(m, ONE)
    yield (('sel', a), implies(and_(le(ZERO, k), lt(k, c)), and_(le(ZERO, a), lt(a, dims[0]))))
    yield (('sel mask', a), implies(and_(le(ZERO, k), lt(k, c)), m))


def count(a):
    L = a.a[1][0]
    vs, dims, b = L.a
    n = ONE
    for d in dims:
        n = mul(n, d)
    yield (('count', a), and_(le(ZERO, a), le(a, n)))


def eigval(a):
    L, i = a.a[1]
    vs, dims, b = L.a
    n = dims[0]
    v = fresh('z', 'I')
    yield (('eigval', a), implies(and_(le(ZERO, i), lt(i, n)), tall(v, i, n, le(a, app('eigval', (L, v), 'R')))))


def round_(a):
    x = a.a[1][0]
    fl = fn('floor', add(x, num(Fr(1, 2))))
    yield (('round', a), and_(le(sub(x, num(Fr(1, 2), 'R')), a), le(a, add(x, num(Fr(1, 2), 'R')))))


def comb(a):
    N, k = a.a[1]
    yield (('comb', a), implies(and_(le(ZERO, k), le(k, N)), le(ONE, a)))
    yield (('comb1', a), implies(eq(k, ONE), eq(a, N)))
    yield (('comb0', a), implies(eq(k, ZERO), eq(a, ONE)))
    yield (('comb2', a), implies(eq(k, num(2)), eq(mul(num(2), a), mul(N, sub(N, ONE)))))


def chol(a):
    L, i, j = a.a[1]
    yield (('chol', a), and_(implies(lt(i, j), eq(a, RZERO)), implies(eq(i, j), lt(RZERO, a))))


SCHEMAS = dict(amin=extreme('amin'), amax=extreme('amax'), amin_if=extreme_if('amin_if'), amax_if=extreme_if('amax_if'),
               argmin=argext('argmin'), argmax=argext('argmax'), argsort=argsort, inv_argsort=inv_argsort, sel=sel, count=count,
               eigval=eigval, comb=comb, chol=chol)
SCHEMAS['round'] = round_


def of_witness(kind):
    def f(w):
        a = app(kind, w.a[1][:-1], 'R')
        for x in SCHEMAS[kind](a):
            yield x
    return f


for kind_ in ('amin', 'amax', 'amin_if', 'amax_if'):
    SCHEMAS['wit_' + kind_] = of_witness(kind_)


# -- contraction rules -------------------------------------------------------------------------------------------
def lin1(e, v):
    """e = v + c with c free of v: c, or None"""
    d = sub(e, v)
    if v in fv(d):
        return None
    return d


def orth_rule(head, size_of_app, pre=0, rows=True, cols=True, key=None):
    """head(pre..., i, j) is an orthogonal n-by-n matrix: sums of two factors over a full index range contract.
    size_of_app(app) -> n."""
    def rule(ctx, m, sc):
        for v, lo, hi in m.b:
            fs = [(a, n) for a, n in m.f.items() if v in fv(a)]
            if any(v in fv(g) for g in m.g) or any(v in fv(l) or v in fv(h) for w, l, h in m.b if w is not v):
                continue
            if len(fs) == 1 and fs[0][1] == 2:
                a1 = a2 = fs[0][0]
            elif len(fs) == 2 and fs[0][1] == 1 and fs[1][1] == 1:
                a1, a2 = fs[0][0], fs[1][0]
            else:
                continue
            if a1.k != 'app' or a2.k != 'app' or a1.a[0] != head or a2.a[0] != head:
                continue
            p1, p2 = a1.a[1], a2.a[1]
            if p1[:pre] != p2[:pre]:
                continue
            n = size_of_app(a1)
            for pos, allowed in ((pre, rows), (pre + 1, cols)):
                if not allowed:
                    continue
                oth = pre + 1 if pos == pre else pre
                if p1[pos] is not p2[pos] or v in fv(p1[oth]) or v in fv(p2[oth]):
                    continue
                c = lin1(p1[pos], v)
                if c is None:
                    continue
                so = sc_without(sc, v)
                lo2, hi2 = ctx.isimp(add(lo, c), so), ctx.isimp(add(hi, c), so)
                rest = {a: k for a, k in m.f.items() if v not in fv(a)}
                b = [x for x in m.b if x[0] is not v]
                x, y = p1[oth], p2[oth]
                if hi2 is not n and not ctx.ent(eq(hi2, n), so):
                    continue
                if lo2 is not ZERO and not (ctx.ent(le(ZERO, lo2), so) and ctx.ent(le(lo2, n), so)):
                    continue
                # the sum over v is gone: its range may be empty, so facts about v must not be used
                g = ctx.canon_bool(eq(x, y), ctx.mscope(Mono(1, b), sc_without(sc, v)))
                out = []
                if g is not FALSE:
                    gs = m.g | ({g} if g is not TRUE else set())
                    out.append(Mono(m.c, b, rest, gs))
                if lo2 is not ZERO and not ctx.ent(eq(lo2, ZERO), so):
                    w = fresh('s', 'I')
                    f = dict(rest)
                    for t in (a1, a2):
                        args = list(t.a[1])
                        args[pos] = w
                        t2 = app(head, args, 'R')
                        f[t2] = f.get(t2, 0) + 1
                    out.append(Mono(-m.c, list(b) + [(w, ZERO, lo2)], f, m.g))
                return out
        return None
    return rule


def entry_of(ctx, L, F, v, axis, sc):
    """r such that F is the entry (r, v) (axis 0) or (v, r) (axis 1) of the matrix L, or None"""
    vs, dims, b = L.a
    if len(vs) != 2 or b.k != 'app' or F.k != 'app' or b.a[0] != F.a[0] or len(b.a[1]) != len(F.a[1]) or vs[axis] not in b.a[1]:
        return None
    r = F.a[1][b.a[1].index(vs[axis])]
    if v in fv(r):
        return None
    t = ctx.canon(subst(b, {vs[axis]: r, vs[1 - axis]: v}), sc)
    return r if t is F else None


def inverse_rule(ctx, m, sc):
    """sum_v A(r,v) solve(A,b)(v) = b(r);  sum_v A(r,v) inv(A)(v,w) = sum_v inv(A)(r,v) A(v,w) = [r = w]"""
    for v, lo, hi in m.b:
        fs = [(a, n) for a, n in m.f.items() if v in fv(a)]
        if len(fs) != 2 or fs[0][1] != 1 or fs[1][1] != 1:
            continue
        if any(v in fv(g) for g in m.g) or any(v in fv(l) or v in fv(h) for w, l, h in m.b if w is not v):
            continue
        so = sc_without(sc, v)
        for S, F in ((fs[0][0], fs[1][0]), (fs[1][0], fs[0][0])):
            if S.k != 'app' or S.a[0] not in ('solve', 'matinv') or lo is not ZERO:
                continue
            L = S.a[1][0]
            if L.k != 'lam' or v in fv(L) or not ctx.ent(eq(hi, L.a[1][0]), so):
                continue
            rest = RONE
            for a, k in m.f.items():
                if v not in fv(a):
                    rest = mul(rest, power(a, num(k)))
            b = [x for x in m.b if x[0] is not v]
            if S.a[0] == 'solve':
                col, at = S.a[1][1:]
                if at is not v or v in fv(col):
                    continue
                r = entry_of(ctx, L, F, v, 0, sc)
                if r is not None:
                    return ctx.rebuild_mono(m.c, b, mul(rest, real(at_lam(col, [r]))), list(m.g), so)
                continue
            for axis in (0, 1):
                if S.a[1][1 + axis] is not v or v in fv(S.a[1][2 - axis]):
                    continue
                r = entry_of(ctx, L, F, v, axis, sc)
                if r is not None:
                    return ctx.rebuild_mono(m.c, b, rest, list(m.g) + [eq(r, S.a[1][2 - axis])], so)
    return None


def lam_size(a):
    return a.a[1][0].a[1][0]


def eig_recon(ctx, m, sc):
    """sum_k V(i,k) lambda(k) V(j,k) = C(i,j)"""
    for v, lo, hi in m.b:
        fs = [(a, n) for a, n in m.f.items() if v in fv(a)]
        ev = [(a, n) for a, n in fs if a.k == 'app' and a.a[0] == 'eigval']
        if len(ev) != 1 or ev[0][1] != 1 or lo is not ZERO or any(v in fv(g) for g in m.g):
            continue
        L = ev[0][0].a[1][0]
        if ev[0][0].a[1][1] is not v or ctx.isimp(sub(hi, lam_size(ev[0][0])), sc) is not ZERO:
            continue
        vv = []
        for a, n in fs:
            if a is ev[0][0]:
                continue
            if a.k != 'app' or a.a[0] != 'eigvec' or a.a[1][0] is not L or a.a[1][2] is not v or v in fv(a.a[1][1]):
                vv = None
                break
            vv += [a] * n
        if not vv or len(vv) != 2:
            continue
        rest = {a: k for a, k in m.f.items() if v not in fv(a)}
        b = [x for x in m.b if x[0] is not v]
        t = at_lam(L, [vv[0].a[1][1], vv[1].a[1][1]])
        for a, k in rest.items():
            t = mul(t, power(a, num(k)))
        out = []
        for m2 in ctx.expand(t, ctx.mscope(Mono(1, b), sc_without(sc, v)) + tuple(m.g)):
            out.append(Mono(m.c * m2.c, tuple(b) + m2.b, m2.f, m.g | m2.g))
        return out
    return None


def perm_rule(ctx, m, sc):
    """sum_v f(argsort(L, v)) = sum_p f(p)"""
    for v, lo, hi in m.b:
        if lo is not ZERO:
            continue
        hits = set()
        for a in list(m.f) + list(m.g):
            for t in apps_named(a, {'argsort'}):
                if v in fv(t):
                    hits.add(t)
        if len(hits) != 1:
            continue
        t = hits.pop()
        L, e = t.a[1]
        if v in fv(L) or not (L.a[1][0] is hi or ctx.ent(eq(L.a[1][0], hi), sc_without(sc, v))):
            continue
        if e is not v and ctx.isimp(add(e, v), sc_without(sc, v)) is not ctx.isimp(sub(hi, ONE), sc_without(sc, v)):
            continue        # neither in order nor reversed
        w = fresh('s', 'I')
        f, ok = {}, True
        memo = {}

        def rep(x):
            return replace_term(x, t, w)
        for a, k in m.f.items():
            a2 = rep(a)
            if v in fv(a2):
                ok = False
            f[a2] = f.get(a2, 0) + k
        gs = [rep(g) for g in m.g]
        if not ok or any(v in fv(g) for g in gs) or any(v in fv(l) or v in fv(h) for u, l, h in m.b if u is not v):
            continue
        b = [((w, lo, hi) if x[0] is v else x) for x in m.b]
        return [Mono(m.c, b, f, gs)]
    return None


RULES = [perm_rule, orth_rule('eigvec', lam_size, pre=1), eig_recon, inverse_rule]
