"""Polynomial surfaces: basis, gradient, training (P15)."""
from engine.run import unit
from contracts.common import *      # noqa: F401,F403

URS = 'utils.response_surfaces'
PA = URS + '.PolynomialApproximation.'


def index_stub(u, P):
    """contract of index_set: P rows of m nonnegative integers (stored as floats)"""
    def index_set(ip, n, d):
        return ip.mk((P, dim(term(d))), 'f', lambda i: real(app('I', (i[0], i[1]), 'I')))
    u.ip.stubs[(URS, 'index_set')] = index_set
    u.ip.add_schema('I', lambda a: [(('nonneg', a), le(ZERO, a))])


def I_(r, k):
    return app('I', (r, k), 'I')


def mono(X, i, j, m, k=None):
    """the monomial of row j at row i of X, differentiated by input k"""
    q = fresh('q', 'I')
    ex = lambda a: I_(j, a)
    if k is None:
        return tprod(q, ZERO, m, power(app(X, (i, q), 'R'), real(ex(q))))
    e = ite(eq(q, k), sub(ex(k), ONE), ex(q))
    return ite(eq(ex(k), ZERO), RZERO, mul(real(ex(k)), tprod(q, ZERO, m, power(app(X, (i, q), 'R'), real(e)))))


@unit('P15', 'polynomial_bases', [URS + '.polynomial_bases'])
def bases(u):
    u.start()
    M, m, P = u.int('M', 1), u.int('m', 1), u.int('P', 1)
    N = u.int('N', 1)
    index_stub(u, P)
    X = u.arr('X', (M, m))
    for p in u.call(URS, 'polynomial_bases', X, N):
        if p.kind != 'ok':
            u.fail('returns normally', p.exc)
            continue
        B, I = p.value
        u.all_eq('row i, column j is monomial j at point i', p, B, (M, P), lambda i, j: mono('X', i, j, m))
        u.all_eq('the indices of the basis', p, I, (P, m), lambda j, k: real(I_(j, k)))
        u.unchanged(p)


@unit('P15', 'grad_polynomial_bases', [URS + '.grad_polynomial_bases'])
def grad(u):
    u.assumption('power rule: the derivative of prod_q x_q^a_q by x_k is a_k x_k^(a_k - 1) prod_{q != k} x_q^a_q (0 for a_k = 0)')
    u.start()
    M, m, P = u.int('M', 1), u.int('m', 1), u.int('P', 1)
    N = u.int('N', 1)
    index_stub(u, P)
    X = u.arr('X', (M, m))
    for p in u.call(URS, 'grad_polynomial_bases', X, N):
        if p.kind != 'ok':
            u.fail('returns normally', p.exc)
            continue
        u.all_eq('entry i, j, k is the derivative of monomial j by input k at point i', p, p.value, (M, P, m), lambda i, j, k: mono('X', i, j, m, k))
        u.unchanged(p)


def surface(u, N, **attrs):
    return u.obj(URS, 'PolynomialApproximation', N=N, **attrs)


def earlier(u, m, **shapes):
    """what a surface holds after an earlier training with other data"""
    ip, n = u.ip, u.int('M_before', 1)
    old = lambda nm, shape: ip.mk(shape, 'f', lambda i: app(nm + '_before', tuple(i), 'R'))
    at = dict(X=(n, m), f=(n, ONE), **shapes)
    return dict((nm, old(nm, tuple(n if x is None else x for x in sh))) for nm, sh in at.items())


@unit('P15', 'predict, gradient and call', [PA + 'predict', URS + '.ResponseSurface.gradient', URS + '.ResponseSurface.__call__', URS + '.polynomial_bases',
                                            URS + '.grad_polynomial_bases'])
def predict(u):
    u.start()
    M, m, P = u.int('M', 1), u.int('m', 1), u.int('P', 1)
    N = u.int('N', 1)
    index_stub(u, P)
    X, c = u.arr('X', (M, m)), u.arr('c', (P, ONE))
    s = surface(u, N, poly_weights=c)
    j = fresh('j', 'I')
    cj = app('c', (j, ZERO), 'R')
    val_ = lambda i: tsum(j, ZERO, P, mul(mono('X', i, j, m), cj))
    der = lambda i, k: tsum(j, ZERO, P, mul(mono('X', i, j, m, k), cj))
    for nm, ps, which in (('predict', u.method(s, 'predict', X), 'v'), ('predict with gradient', u.method(s, 'predict', X, True), 'vd'),
                          ('predict with gradient', u.method(s, 'predict', X, compgrad=True), 'vd'),
                          ('gradient', u.method(s, 'gradient', X), 'd'), ('call', u.run(lambda: u.ip.call(s, [X])), 'f')):
        for p in ps:
            if p.kind != 'ok':
                u.fail(nm + ': returns normally', p.exc)
                continue
            r = p.thing(p.value)
            v, d = (r, None) if which == 'f' else (None, r) if which == 'd' else r
            if v is not None:
                u.all_eq(nm + ': sum of weights times monomials', p, v, (M, ONE), lambda i, z: val_(i))
            if 'd' in which:
                u.all_eq(nm + ': the derivative of the prediction', p, d, (M, m), der)
            elif which == 'v':
                u.check(nm + ': no gradient unless asked for', p.thing(d) is None)
            u.unchanged(p)


def index_facts(u, m, N, P):
    """contract of index_set: comb(N+m, m) rows, 0, then the unit vectors, then every pair a <= b once"""
    ip = u.ip
    r, k, a, b = [fresh(x, 'I') for x in 'rkab']
    lo = add(m, ONE)
    hi = add(lo, app('comb', (add(m, ONE), num(2)), 'I'))
    A1, A2, R2 = lambda r: app('a1', (r,), 'I'), lambda r: app('a2', (r,), 'I'), lambda a, b: app('r2', (a, b), 'I')
    d = lambda x, y: ite(eq(x, y), ONE, ZERO)

    def ind(t):
        r, k = t.a[1]
        yield (('nonneg', t), le(ZERO, t))
        yield (('const', t), implies(eq(r, ZERO), eq(t, ZERO)))
        yield (('lin', t), implies(and_(le(ONE, r), le(r, m)), eq(t, d(add(k, ONE), r))))
        if N is not ONE:
            q = and_(le(lo, r), lt(r, hi))
            yield (('quad', t), implies(q, eq(t, add(d(k, A1(r)), d(k, A2(r))))))

    def pair(t):
        r = t.a[1][0]
        yield (('pair', t), implies(and_(le(lo, r), lt(r, hi)), and_(le(ZERO, A1(r)), le(A1(r), A2(r)), lt(A2(r), m), eq(R2(A1(r), A2(r)), r))))

    def place(t):
        a, b = t.a[1]
        yield (('place', t), implies(and_(le(ZERO, a), le(a, b), lt(b, m)), and_(le(lo, t), lt(t, hi), eq(A1(t), a), eq(A2(t), b))))
    ip.add_schema('I', lambda t: list(ind(t)))
    ip.add_schema('a1', lambda t: list(pair(t)))
    ip.add_schema('a2', lambda t: list(pair(t)))
    ip.add_schema('r2', lambda t: list(place(t)))
    return lo, hi, A1, A2, R2


def train(N_, w):
    def f(u):
        u.trusted('lstsq')
        u.assumption('general position: the (weighted) basis matrix has independent columns')
        u.assumption('a vector of naturals with sum 2 is a sum of two unit vectors (so the rows of degree 2, proved to be every such index once, are the pairs a <= b)')
        exact(u, N_, w)
    unit('P15', 'train, order %s%s' % (N_, ', weights' if w else ''), [PA + 'train', URS + '.polynomial_bases', MISC + '.process_inputs_outputs'], budget=120)(f)


def exact(u, N_, w):
    tag = ''
    u.start()
    ip = u.ip
    M, m = u.int('M', 1), u.int('m', 1)
    N = u.int('N', 2) if N_ == 'N' else ONE
    P = app('comb', (add(N, m), m), 'I')
    index_stub(u, P)
    lo, hi, A1, A2, R2 = index_facts(u, m, N, P)
    u.assume(le(P, M), le(hi if N_ == 'N' else lo, P))
    X = u.arr('X', (M, m))
    j = fresh('j', 'I')
    cj = app('c', (j,), 'R')
    f = ip.mk((M, ONE), 'f', lambda i: tsum(j, ZERO, P, mul(mono('X', i[0], j, m), cj)))
    W = u.arr('w', (M, ONE)) if w else None
    if w:
        k = fresh('k', 'I')
        u.assume(tall(k, ZERO, M, lt(RZERO, app('w', (k, ZERO), 'R'))))
    wi = lambda i: app('w', (i, ZERO), 'R') if w else RONE
    seen = []

    def lstsq(ip_, A, b):
        seen.append(1)
        i, j = fresh('i', 'I'), fresh('j', 'I')
        c = ip_.ctx()
        u.prove(tag + 'least squares: one row per sample, one column per monomial', c, and_(eq(A.shape[0], M), eq(A.shape[1], P), eq(b.shape[0], M)))
        c = c.child(bounded_((i, M), (j, P)))
        Aij = ip_.at(ip_.frozen(A), [i, j])
        bi = ip_.at(ip_.frozen(b), [i] + [ZERO] * (len(b.shape) - 1))
        u.prove(tag + 'least squares: the matrix is the weighted basis', c, eq(Aij, mul(wi(i), mono('X', i, j, m))))
        u.prove(tag + 'least squares: the right-hand side is the weighted data', c, eq(bi, mul(wi(i), ip_.at(ip_.frozen(f), [i, ZERO]))))
        return ip_.mk((P,) + tuple(b.shape[1:]), 'f', lambda i: app('c', (i[0],), 'R'))
    ip.hooks['lstsq'] = lstsq
    co = lambda x, y: app('c', (R2(x, y),), 'R')

    def nonzero(ip_, mask, n):
        # lemma: a mask that is true at a1 <= a2 and nowhere else has the nonzero positions a1, a2
        k = fresh('k', 'I')
        c = ip_.ctx().child(bounded_((k, n)))
        for r in dict.fromkeys(t.a[1][0] for t in apps_named(mask(k), {'I'})):
            g = or_(eq(k, A1(r)), eq(k, A2(r)))
            if c.prove(implies(mask(k), g))[0] and c.prove(implies(g, mask(k)))[0] and c.prove(and_(le(lo, r), lt(r, hi)))[0]:
                return [A1(r)] if ip_.decide(eq(A1(r), A2(r))) else [A1(r), A2(r)]
        return None
    ip.hooks['nonzero'] = nonzero

    def filling(ip_, key, shape, sort):
        if sort != 'R' or len(shape) != 2 or not all(ip_.ctx().entails(eq(x, m)) for x in shape):
            return

        def part(rd):
            a, b = fresh('a', 'I'), fresh('b', 'I')
            done = add(rd.at[-1], lo, ONE if rd.mode == 'end' else ZERO)
            def g(x, y, r, v):
                t = implies(and_(le(ZERO, x), lt(x, m), le(ZERO, y), lt(y, m)), eq(rd((x, y)), ite(lt(r, done), v, RZERO)))
                return t
            up = implies(le(a, b), and_(g(a, b, R2(a, b), mul(ite(eq(a, b), num(2), ONE), co(a, b))), g(b, a, R2(a, b), mul(ite(eq(a, b), num(2), ONE), co(a, b)))))
            if rd.mode == 'use':
                return tall(a, ZERO, m, tall(b, ZERO, m, up))
            return implies(and_(*bounded_((a, m), (b, m))), up)
        return [part]
    ip.templates.append(filling)
    # an object trained before, with other data (no weights: a fresh object)
    was = dict(earlier(u, m, poly_weights=(P, ONE), g=(m, ONE), **(dict(H=(m, m)) if N_ == 'N' else {})), Rsqr=u.real('R_before')) if w else {}
    s = surface(u, N, **was)
    for p in u.method(s, 'train', X, f, *([W] if w else [])):
        if p.kind != 'ok':
            u.fail(tag + 'returns normally', p.exc)
            continue
        u.all_eq(tag + 'the weights are the coefficients', p, p.attr(s, 'poly_weights'), (P, ONE), lambda r, z: app('c', (r,), 'R'))
        u.all_eq(tag + 'g is the gradient at the origin', p, p.attr(s, 'g'), (m, ONE), lambda r, z: app('c', (add(r, ONE),), 'R'))
        u.unchanged(p)
        R = p.thing(p.attr(s, 'Rsqr'))
        u.prove(tag + 'R squared is 1', p, eq(p.el(R, *[ZERO] * len(R.shape)) if isinstance(R, Arr) else term(R), RONE))
        if N_ == 'N':
            H = p.thing(p.attr(s, 'H'))
            u.check(tag + 'H is a matrix', isinstance(H, Arr) and len(H.shape) == 2)
            a, b = fresh('a', 'I'), fresh('b', 'I')
            rg = bounded_((b, m)) + [le(ZERO, a), lt(a, b)]
            u.prove(tag + 'H is m by m', p, and_(*[eq(x, m) for x in H.shape]))
            u.prove(tag + 'diagonal of H', p, eq(p.el(H, b, b), mul(num(2), co(b, b))), extra=bounded_((b, m)))
            u.prove(tag + 'H above the diagonal', p, eq(p.el(H, a, b), co(a, b)), extra=rg)
            u.prove(tag + 'H below the diagonal', p, eq(p.el(H, b, a), co(a, b)), extra=rg)
    u.check(tag + 'a least-squares problem is solved', bool(seen))


for N__ in (1, 'N'):
    for w_ in (None, 'w'):
        train(N__, w_)
