"""Radial basis surfaces: kernel, saddle-point system, prediction and gradient (P16)."""
from engine.run import unit
from contracts.common import *      # noqa: F401,F403
from contracts.c_poly import earlier, index_stub, mono
from engine import terms as TT

URS = 'utils.response_surfaces'
RB = URS + '.RadialBasisApproximation.'
TINY = num(Fr(1, 10**6), 'R')


def ker(X, i, Y, j, ell, d):
    """exp(-sum_k (x_k - y_k)^2 / ell_k)"""
    q = fresh('q', 'I')
    x, y = app(X, (i, q), 'R'), app(Y, (j, q), 'R')
    return fn('exp', neg(tsum(q, ZERO, d, div(power(sub(x, y), num(2)), ell(q)))))


def deriv(t, name, at):
    """derivative of the term by the element name[at]"""
    k = t.k
    if k == 'num' or not contains(t, lambda y: y.k == 'app' and y.a[0] == name):
        return RZERO
    if k == 'app' and t.a[0] == name:
        return ite(and_(*[eq(x, y) for x, y in zip(t.a[1], at)]), RONE, RZERO)
    if k == 'app' and t.a[0] == 'exp':
        return mul(t, deriv(t.a[1][0], name, at))
    if k == 'sum':
        v, lo, hi, b = t.a
        return tsum(v, lo, hi, deriv(b, name, at))
    if k == 'add':
        c, items = TT._terms(t)
        return add(*[mul(num(n, 'R'), deriv(x, name, at)) for x, n in items.items()])
    if k in ('mul', 'pow'):
        items = TT._factors(t)
        return add(*[mul(num(n, 'R'), power(x, num(n - 1)), deriv(x, name, at), *[power(y, num(e)) for y, e in items.items() if y is not x])
                     for x, n in items.items()])
    raise Unsupported('derivative of %s' % k)


@unit('P16', 'kernel', [URS + '.exponential_squared', URS + '.grad_exponential_squared'])
def kernel(u):
    u.assumption('calculus: sum, product and chain rule; exp is its own derivative')
    for shape in (2, 1):
        u.start()
        a, b, d = u.int('a', 1), u.int('b', 1), u.int('d', 1)
        X, Y, s = u.arr('X', (a, d)), u.arr('Y', (b, d)), u.real('s')
        ell = u.arr('l', (d, ONE) if shape == 2 else (d,))
        l = lambda q: app('l', (q, ZERO) if shape == 2 else (q,), 'R')
        k = fresh('k', 'I')
        u.assume(tall(k, ZERO, d, lt(RZERO, l(k))))
        K = lambda i, j: ker('X', i, 'Y', j, l, d)
        for p in u.call(URS, 'exponential_squared', X, Y, s, ell):
            if p.kind != 'ok':
                u.fail('kernel: returns normally', p.exc)
                continue
            u.all_eq('kernel: entry i, j is s exp(-sum_k (x_ik - y_jk)^2 / ell_k)', p, p.value, (a, b), lambda i, j: mul(s, K(i, j)))
            u.unchanged(p)
        for p in u.call(URS, 'grad_exponential_squared', X, Y, s, ell):
            if p.kind != 'ok':
                u.fail('gradient: returns normally', p.exc)
                continue
            u.all_eq('gradient: entry i, j, k is the derivative of kernel i, j by y_jk', p, p.value, (a, b, d), lambda i, j, k: mul(s, deriv(K(i, j), 'Y', (j, k))))
            u.unchanged(p)
        if shape == 2:
            for p in u.call(URS, 'exponential_squared', X, X, RONE, ell):
                if p.kind == 'ok':
                    i, j = fresh('i', 'I'), fresh('j', 'I')
                    A = p.thing(p.value)
                    u.prove('kernel of the points with themselves: symmetric', p, eq(p.el(A, i, j), p.el(A, j, i)), extra=bounded_((i, a), (j, a)))
                    u.prove('kernel of the points with themselves: unit diagonal', p, eq(p.el(A, i, i), RONE), extra=bounded_((i, a)))


@unit('P16', 'predict, gradient and call', [RB + 'predict', URS + '.ResponseSurface.gradient', URS + '.ResponseSurface.__call__'])
def predict(u):
    u.start()
    M, T_, m, P = u.int('M', 1), u.int('T', 1), u.int('m', 1), u.int('P', 1)
    N = u.int('N', 1)
    index_stub(u, P)
    X, Z = u.arr('X', (M, m)), u.arr('Z', (T_, m))
    w, c, ell = u.arr('w', (T_, ONE)), u.arr('c', (P, ONE)), u.arr('l', (m, ONE))
    k = fresh('k', 'I')
    l = lambda q: app('l', (q, ZERO), 'R')
    u.assume(tall(k, ZERO, m, lt(RZERO, l(k))))
    s = u.obj(URS, 'RadialBasisApproximation', N=N, X=Z, radial_weights=w, poly_weights=c, ell=ell)
    j = fresh('j', 'I')
    cj, wj = app('c', (j, ZERO), 'R'), app('w', (j, ZERO), 'R')
    K = lambda i: ker('X', i, 'Z', j, l, m)
    val_ = lambda i: add(tsum(j, ZERO, T_, mul(K(i), wj)), tsum(j, ZERO, P, mul(mono('X', i, j, m), cj)))
    der = lambda i, k: add(tsum(j, ZERO, T_, mul(deriv(K(i), 'X', (i, k)), wj)), tsum(j, ZERO, P, mul(mono('X', i, j, m, k), cj)))
    for nm, ps, which in (('predict', u.method(s, 'predict', X), 'v'), ('predict with gradient', u.method(s, 'predict', X, True), 'vd'),
                          ('predict with gradient', u.method(s, 'predict', X, compgrad=True), 'vd'),
                          ('gradient', u.method(s, 'gradient', X), 'd'), ('call', u.run(lambda: u.ip.call(s, [X])), 'f')):
        for p in ps:
            if p.kind != 'ok':
                u.fail(nm + ': returns normally', p.exc)
                continue
            r = p.thing(p.value)
            v, d = (r, None) if which == 'f' else (None, r) if which == 'd' else r
            if v is not None:
                u.all_eq(nm + ': kernel times radial weights plus basis times polynomial weights', p, v, (M, ONE), lambda i, z: val_(i))
            if 'd' in which:
                u.all_eq(nm + ': the derivative of the prediction', p, d, (M, m), der)
            elif which == 'v':
                u.check(nm + ': no gradient unless asked for', p.thing(d) is None)
            u.unchanged(p)


def trained(tag, v_, e_):
    def f(u):
        u.trusted('solve')
        u.assumption('general position: the saddle-point matrix is nonsingular; then data f = B c has the only solution radial weights 0, polynomial weights c')
        u.start()
        ip = u.ip
        M, m, P, N = u.int('M', 1), u.int('m', 1), u.int('P', 1), u.int('N', 1)
        index_stub(u, P)
        u.assume(eq(P, app('comb', (add(N, m), m), 'I')))
        X, f = u.arr('X', (M, m)), u.arr('f', (M, ONE))
        k = fresh('k', 'I')
        kw = {}
        vi = None
        if v_:
            kw['v'] = u.arr('v', (M, ONE) if v_ == 2 else (M,))
            vi = lambda i: app('v', (i, ZERO) if v_ == 2 else (i,), 'R')
        if e_:
            q = u.int('q', 0)
            kw['e'] = u.arr('e', (add(m, q), ONE))
            u.assume(tall(k, ZERO, add(m, q), lt(RZERO, app('e', (k, ZERO), 'R'))))
        # with a noise column: an object trained before, with other data
        was = earlier(u, m, K=(None, None), ell=(m, ONE), radial_weights=(None, ONE), poly_weights=(P, ONE)) if v_ == 2 else {}
        s = u.obj(URS, 'RadialBasisApproximation', N=N, **was)
        ok = 0
        for p in u.method(s, 'train', X, f, **kw):
            few = lt(M, P)
            if p.kind != 'ok':
                u.prove('refused only with too few samples', p, few)
                u.check('nothing is stored by a refused training', not p.changed(s) if hasattr(p, 'changed') else True)
                continue
            ok += 1
            u.prove('at least comb(N + m, m) samples', p, le(P, M))
            u.unchanged(p)
            g = lambda nm: p.attr(s, nm)
            K, w, c, ell = [p.thing(g(nm)) for nm in ('K', 'radial_weights', 'poly_weights', 'ell')]
            u.all_eq('the training points are kept', p, g('X'), (M, m), lambda i, j: app('X', (i, j), 'R'))
            i, j, r = fresh('i', 'I'), fresh('j', 'I'), fresh('r', 'I')
            flat = lambda A, i: p.el(A, i) if len(A.shape) == 1 else p.el(A, i, ZERO)
            L = lambda q: flat(ell, q)
            u.prove('one length scale per input', p, eq(ell.shape[0], m))
            u.prove('one weight per sample and per monomial', p, and_(eq(w.shape[0], M), eq(c.shape[0], P)))
            u.prove('kernel matrix: M by M', p, and_(*[eq(x, M) for x in K.shape]))
            kij = ker('X', i, 'X', j, L, m)
            at = bounded_((i, M), (j, M))
            noise = sub(p.el(K, i, i), RONE)
            u.prove('kernel matrix: the kernel off the diagonal', p, eq(p.el(K, i, j), kij), extra=at + [not_(eq(i, j))])
            u.prove('the noise is at least 1e-6', p, le(TINY, noise), extra=bounded_((i, M)))
            if v_:
                u.prove('the noise is at least the given one', p, le(vi(i), noise), extra=bounded_((i, M)))
                u.prove('the noise is not larger than both', p, or_(eq(noise, vi(i)), eq(noise, TINY)), extra=bounded_((i, M)))
            if not e_:
                u.prove('length scales: all equal', p, eq(L(i), L(j)), extra=bounded_((i, m), (j, m)))
            else:
                u.prove('length scales: inversely proportional to the eigenvalues', p, eq(mul(L(i), app('e', (i, ZERO), 'R')), mul(L(j), app('e', (j, ZERO), 'R'))), extra=bounded_((i, m), (j, m)))
            # the systems that were solved
            rows = lambda t: [implies(and_(le(ZERO, t), lt(t, A.shape[0])), eq(row_(A, x, t), ip.at(b, [t] + [ZERO] * (len(b.shape) - 1)))) for A, b, x in solves(p)]
            row_ = lambda A, x, t: tsum(j, ZERO, A.shape[1], mul(ip.at(A, [t, j]), ip.at(x, [j] + [ZERO] * (len(x.shape) - 1))))
            Bc = tsum(r, ZERO, P, mul(mono('X', i, r, m), flat(c, r)))
            u.prove('(kernel + noise) radial weights + basis polynomial weights = data', p,
                    eq(add(tsum(j, ZERO, M, mul(p.el(K, i, j), flat(w, j))), Bc), app('f', (i, ZERO), 'R')), rows(i), extra=bounded_((i, M)))
            u.prove('radial weights orthogonal to the basis', p, eq(tsum(i, ZERO, M, mul(mono('X', i, r, m), flat(w, i))), RZERO), rows(add(M, r)), extra=bounded_((r, P)))
            u.prove('prediction at a training point: data minus noise times radial weight', p,
                    eq(add(tsum(j, ZERO, M, mul(kij, flat(w, j))), Bc), sub(app('f', (i, ZERO), 'R'), mul(noise, flat(w, i)))), rows(i), extra=bounded_((i, M)))
        u.check('trains', ok > 0)
    unit('P16', 'train, ' + tag, [RB + 'train', URS + '.exponential_squared', URS + '.polynomial_bases', MISC + '.process_inputs_outputs'])(f)


def solves(p):
    return [e[1:4] for e in p.events('solve')]


for v__ in (0, 1, 2):
    for e__ in (0, 1):
        trained('noise %s, eigenvalues %s' % (('not given', 'vector', 'column')[v__], ('not given', 'given')[e__]), v__, e__)
