"""Normalizers (P08)."""
from engine.run import unit
from engine.unit import *           # noqa: F401,F403
from engine.values import *         # noqa: F401,F403
from engine.prover import Mono

MI = 'utils.misc'


def bounded(u, shape):
    u.start()
    M, m = u.int('M', 0), u.int('m', 1)
    lb = u.arr('lb', (m, ONE) if shape == 'column' else (ONE, m) if shape == 'row' else (m,))
    ub = u.arr('ub', (m, ONE) if shape == 'column' else (ONE, m) if shape == 'row' else (m,))
    X = u.arr('X', (M, m))
    ix = (lambda j: (j, ZERO)) if shape == 'column' else (lambda j: (ZERO, j)) if shape == 'row' else (lambda j: (j,))
    L = lambda j: app('lb', ix(j), 'R')
    H = lambda j: app('ub', ix(j), 'R')
    q = fresh('q', 'I')
    u.assume(tall(q, ZERO, m, lt(L(q), H(q))))
    C = u.ip.get(MI, 'BoundedNormalizer')
    return M, m, lb, ub, X, L, H, C


@unit('P08', 'BoundedNormalizer', [MI + '.BoundedNormalizer.__init__', MI + '.BoundedNormalizer.normalize',
                                   MI + '.BoundedNormalizer.unnormalize', MI + '.process_inputs'])
def bn(u):
    for shape in ('column', 'row', 'vector'):
        M, m, lb, ub, X, L, H, C = bounded(u, shape)
        ip = u.ip

        def run():
            n = ip.call(C, [lb, ub])
            a = ip.call(ip.attr(n, 'normalize'), [X])
            b = ip.call(ip.attr(n, 'unnormalize'), [X])
            return (a, b, ip.call(ip.attr(n, 'unnormalize'), [a]), ip.call(ip.attr(n, 'normalize'), [b]))
        for p in u.run(run):
            if p.kind != 'ok':
                u.fail('returns normally', p.exc)
                continue
            a, b, ab, ba = p.value
            i, j = fresh('i', 'I'), fresh('j', 'I')
            rng = [le(ZERO, i), lt(i, M), le(ZERO, j), lt(j, m), lt(L(j), H(j))]
            x = app('X', (i, j), 'R')
            mid, half = div(add(L(j), H(j)), num(2)), div(sub(H(j), L(j)), num(2))
            for v, nm in ((a, 'normalize'), (b, 'unnormalize'), (ab, 'unnormalize(normalize)'), (ba, 'normalize(unnormalize)')):
                u.check(nm + ' is a matrix', isinstance(v, Arr) and len(v.shape) == 2)
                u.equal(nm + ' rows', p, v.shape[0], M)
                u.equal(nm + ' columns', p, v.shape[1], m)
            ea = p.el(a, i, j)
            u.prove('normalize is the affine map of the box onto [-1,1]', p, eq(mul(ea, half), sub(x, mid)), extra=rng)
            u.prove('unnormalize is the affine map of [-1,1] onto the box', p, eq(p.el(b, i, j), add(mid, mul(half, x))), extra=rng)
            u.prove('lower bound maps to -1', p, eq(ea, num(-1, 'R')), extra=rng + [eq(x, L(j))])
            u.prove('upper bound maps to 1', p, eq(ea, RONE), extra=rng + [eq(x, H(j))])
            u.prove('box maps into [-1,1]', p, and_(le(num(-1, 'R'), ea), le(ea, RONE)), extra=rng + [le(L(j), x), le(x, H(j))])
            u.prove('unnormalize inverts normalize', p, eq(p.el(ab, i, j), x), extra=rng)
            u.prove('normalize inverts unnormalize', p, eq(p.el(ba, i, j), x), extra=rng)
            u.unchanged(p)
            u.den('defined', p)


@unit('P08', 'UnboundedNormalizer', [MI + '.UnboundedNormalizer.__init__', MI + '.UnboundedNormalizer.normalize',
                                     MI + '.UnboundedNormalizer.unnormalize'])
def un(u):
    u.trusted('chol', 'solve', 'matinv')
    for shape in ('column', 'row', 'vector'):
        M, m = None, None
        u.start()
        ip = u.ip
        M, m = u.int('M', 0), u.int('m', 1)
        mu = u.arr('mu', (m, ONE) if shape == 'column' else (ONE, m) if shape == 'row' else (m,))
        cov = u.arr('C', (m, m))
        X = u.arr('X', (M, m))
        mm = (lambda j: app('mu', (j, ZERO), 'R')) if shape == 'column' else (lambda j: app('mu', (ZERO, j), 'R')) \
            if shape == 'row' else (lambda j: app('mu', (j,), 'R'))
        C = ip.get(MI, 'UnboundedNormalizer')

        def run():
            n = ip.call(C, [mu, cov])
            a = ip.call(ip.attr(n, 'normalize'), [X])
            b = ip.call(ip.attr(n, 'unnormalize'), [X])
            return (n, a, b, ip.call(ip.attr(n, 'unnormalize'), [a]), ip.call(ip.attr(n, 'normalize'), [b]))
        for p in u.run(run):
            if p.kind != 'ok':
                u.fail('returns normally', p.exc)
                continue
            n, a, b, ab, ba = p.value
            ch = p.state.ghost.get('cholesky', [])
            u.check('one factorisation', len(ch) == 1)
            La, Cf = ch[0]
            v = [fresh('i', 'I') for _ in range(2)]
            rng0 = [f for w in v for f in (le(ZERO, w), lt(w, m))]
            u.prove('the covariance is what is factorised', p, eq(p.el(Cf, *v), app('C', v, 'R')), extra=rng0)
            Lf = lambda i, j: app('chol', (La, i, j), 'R')
            i, j = fresh('i', 'I'), fresh('j', 'I')
            rng = [le(ZERO, i), lt(i, M), le(ZERO, j), lt(j, m)]
            x = lambda jj: app('X', (i, jj), 'R')
            q = fresh('q', 'I')
            # unnormalize: mu + L x
            u.prove('unnormalize(x) = mu + L x', p, eq(p.el(b, i, j), add(mm(j), tsum(q, ZERO, m, mul(Lf(j, q), x(q))))), extra=rng)
            # normalize(x) solves L y = x - mu, so that unnormalize inverts it
            image = lambda A: tsum(q, ZERO, m, mul(Lf(j, q), p.el(A, i, q)))
            for v, nm in ((a, 'normalize'), (b, 'unnormalize'), (ab, 'unnormalize(normalize)'), (ba, 'normalize(unnormalize)')):
                u.check(nm + ' is a matrix', isinstance(v, Arr) and len(v.shape) == 2)
                u.equal(nm + ' rows', p, v.shape[0], M)
                u.equal(nm + ' columns', p, v.shape[1], m)
            u.prove('L normalize(x) = x - mu', p, eq(image(a), sub(x(j), mm(j))), extra=rng)
            u.prove('unnormalize inverts normalize', p, eq(p.el(ab, i, j), x(j)), extra=rng)
            # L is invertible: the point with this image is x
            u.prove('L normalize(unnormalize(x)) = L x', p, eq(image(ba), tsum(q, ZERO, m, mul(Lf(j, q), x(q)))), extra=rng)
            u.unchanged(p)
        u.assumption('numpy.linalg.solve returns the unique solution (L is invertible for a positive definite covariance)')
