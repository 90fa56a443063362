"""Gauss quadrature: recurrence coefficients, Jacobi matrix, one-dimensional and tensor rules (P13)."""
from engine.run import unit
from contracts.common import *      # noqa: F401,F403
from fractions import Fraction

QD = 'utils.quadrature'


def refused(u, name, calls):
    """every path of the call raises"""
    for p in calls:
        if p.kind != 'exc':
            u.fail(name, 'accepted')
        else:
            u.check(name, True)


@unit('P13', 'r_hermite', [QD + '.r_hermite'])
def hermite(u):
    u.start()
    N = u.int('N', 2)
    for p in u.call(QD, 'r_hermite', N):
        if p.kind != 'ok':
            u.fail('returns normally', p.exc)
            continue
        u.all_eq('coefficients a_k = 0, b_0 = 1, b_k = k', p, p.value, (add(N, ONE), num(2)),
                 lambda k, c: ite(eq(c, ZERO), RZERO, ite(eq(k, ZERO), RONE, real(k))))
    u.start()
    for p in u.call(QD, 'r_hermite', 1):
        if p.kind != 'ok':
            u.fail('returns normally', p.exc)
            continue
        A = p.thing(p.value)
        u.prove('order 1: a_0 = 0, b_0 = 1', p, and_(eq(A.shape[1], num(2)), eq(p.el(A, ZERO, ZERO), RZERO), eq(p.el(A, ZERO, ONE), RONE)))
    u.start()
    refused(u, 'an order below 1 is refused', u.call(QD, 'r_hermite', u.int('N', None, 0)))
    u.start()
    refused(u, 'an order that is not an integer is refused', u.call(QD, 'r_hermite', u.real('x')))


def jacobi_spec(l, r, a, b):
    """alpha_k, beta_k of the monic polynomials orthogonal for (r-x)^a (x-l)^b on [l, r]"""
    s, o = mul(sub(r, l), num(Fraction(1, 2))), mul(add(l, r), num(Fraction(1, 2)))
    two = num(2)

    def alpha(k):
        t = add(mul(two, real(k)), a, b)
        gen = div(sub(mul(b, b), mul(a, a)), mul(t, add(t, two)))
        return add(mul(s, ite(eq(k, ZERO), div(sub(b, a), add(a, b, two)), gen)), o)

    def beta(k):
        k_ = real(k)
        t = add(mul(two, k_), a, b)
        one = div(mul(num(4), add(RONE, a), add(RONE, b)), mul(power(add(two, a, b), two), add(num(3), a, b)))
        gen = div(mul(num(4), k_, add(k_, a), add(k_, b), add(k_, a, b)), mul(power(t, two), add(t, RONE), sub(t, RONE)))
        return ite(eq(k, ZERO), RONE, mul(mul(s, s), ite(eq(k, ONE), one, gen)))
    return alpha, beta


@unit('P13', 'r_jacobi', [QD + '.r_jacobi'])
def jacobi(u):
    u.start()
    N = u.int('N', 1)
    l, r, a, b = [u.real(x) for x in 'lrab']
    u.assume(lt(l, r), lt(neg(RONE), a), lt(neg(RONE), b))
    alpha, beta = jacobi_spec(l, r, a, b)
    for p in u.call(QD, 'r_jacobi', N, l, r, a, b):
        if p.kind != 'ok':
            u.fail('returns normally', p.exc)
            continue
        A = p.thing(p.value)
        u.check('two columns', isinstance(A, Arr) and len(A.shape) == 2)
        u.prove('N+1 rows of two coefficients', p, and_(eq(A.shape[0], add(N, ONE)), eq(A.shape[1], num(2))))
        k = fresh('k', 'I')
        pos = [lt(RZERO, add(a, b, num(2)))]
        for nm, rg, at in (('0', [], ZERO), ('1', [], ONE), ('k', bounded_((k, add(N, ONE))) + [le(num(2), k)], k)):
            t = add(mul(num(2), real(at)), a, b)
            ex = rg + ([lt(RZERO, sub(t, RONE)), lt(RZERO, t)] if nm == 'k' else [])
            u.prove('alpha_%s' % nm, p, eq(p.el(A, at, ZERO), alpha(at)), extra=ex)
            u.prove('beta_%s' % nm, p, eq(p.el(A, at, ONE), beta(at)), extra=ex)
        u.den('defined', p)
    u.start()
    refused(u, 'an order below 1 is refused', u.call(QD, 'r_jacobi', u.int('N', None, 0), *[u.real(x) for x in 'lrab']))
    u.start()
    refused(u, 'an order that is not an integer is refused', u.call(QD, 'r_jacobi', u.real('x'), *[u.real(x) for x in 'lrab']))


def tridiagonal(alpha, beta):
    def J(i, j):
        off = fn('sqrt', beta(ite(le(i, j), j, i)))
        return ite(eq(i, j), alpha(i), ite(or_(eq(add(i, ONE), j), eq(add(j, ONE), i)), off, RZERO))
    return J


def is_matrix(u, name, p, A, n, J):
    """A = J, by cases on the band"""
    A = p.thing(A)
    u.check(name + ': a matrix', isinstance(A, Arr) and len(A.shape) == 2)
    u.prove(name + ': square', p, and_(eq(A.shape[0], n), eq(A.shape[1], n)))
    i, j = fresh('i', 'I'), fresh('j', 'I')
    rg = bounded_((i, n), (j, n))
    u.prove(name + ': diagonal', p, eq(p.el(A, i, i), J(i, i)), extra=rg)
    u.prove(name + ': above the diagonal', p, eq(p.el(A, i, add(i, ONE)), J(i, add(i, ONE))), extra=bounded_((i, sub(n, ONE))))
    u.prove(name + ': below the diagonal', p, eq(p.el(A, add(i, ONE), i), J(add(i, ONE), i)), extra=bounded_((i, sub(n, ONE))))
    u.prove(name + ': zero elsewhere', p, eq(p.el(A, i, j), RZERO), extra=rg + [or_(lt(add(i, ONE), j), lt(add(j, ONE), i))])


def band_templates(u, n, J):
    """loop invariants for filling an n-by-n matrix: the part that is done equals J, the rest is still zero"""
    lo = lambda a, b: ite(le(a, b), a, b)
    hi = lambda a, b: ite(le(a, b), b, a)

    def template(ip, key, shape, sort):
        if sort != 'R' or len(shape) != 2 or not all(ip.ctx().entails(eq(x, n)) for x in shape):
            return
        fs = []
        for part in (lambda a, b: a, lambda a, b: b, lo, hi):
            for off in (0, 1, 2):
                for rest in (lambda a, b: RZERO, lambda a, b: ite(eq(a, b), J(a, b), RZERO)):
                    def f(rd, part=part, off=off, rest=rest):
                        a, b = fresh('a', 'I'), fresh('b', 'I')
                        done = add(rd.at[-1], num(off))
                        if rd.mode == 'end':
                            done = add(done, ONE)
                        rd_ = rd((a, b))
                        outside = implies(or_(lt(add(a, ONE), b), lt(add(b, ONE), a)), eq(rd_, RZERO))
                        first = lambda x, y, g: implies(eq(y, add(x, num(g))), implies(and_(le(ZERO, x), lt(x, n), le(ZERO, y), lt(y, n)),
                                                        eq(rd((x, y)), ite(lt(part(x, y), done), J(x, y), rest(x, y)))))
                        g = and_(outside, *[first(a, add(a, num(k)), k) for k in (-1, 0, 1)])
                        if rd.mode == 'use':
                            return tall(a, ZERO, n, tall(b, ZERO, n, g))
                        return implies(and_(*bounded_((a, n), (b, n))), g)
                    fs.append(f)
        return fs
    u.ip.templates.append(template)


@unit('P13', 'jacobi_matrix', [QD + '.jacobi_matrix'])
def jacobi_matrix(u):
    for case in ('n', 2, 1):
        u.start()
        n = u.int('n', 3) if case == 'n' else num(case)
        ab = u.arr('ab', (add(n, ONE), num(2)))
        k = fresh('k', 'I')
        u.assume(tall(k, ZERO, add(n, ONE), lt(RZERO, app('ab', (k, ONE), 'R'))))
        J = tridiagonal(lambda k: app('ab', (k, ZERO), 'R'), lambda k: app('ab', (k, ONE), 'R'))
        if case == 'n':
            band_templates(u, n, J)
        for p in u.call(QD, 'jacobi_matrix', ab):
            if p.kind != 'ok':
                u.fail('returns normally', p.exc)
                continue
            is_matrix(u, 'order %s' % case, p, p.value, n, J)
            u.unchanged(p)
    u.start()
    for p in u.call(QD, 'jacobi_matrix', u.arr('ab', (ONE, num(2)))):
        if p.kind != 'ok':
            u.fail('returns normally', p.exc)
            continue
        v = p.thing(p.value)
        u.prove('order 0: the first coefficient', p, eq(p.el(v) if not isinstance(v, Arr) else p.el(v, *[ZERO] * len(v.shape)), app('ab', (ZERO, ZERO), 'R')))
    for shape in (('r',), ('r', 's', 't')):
        u.start()
        refused(u, 'an array that is not two-dimensional is refused', u.call(QD, 'jacobi_matrix', u.arr('ab', tuple(u.int(x, 1) for x in shape))))
    u.start()
    c = u.int('c', 1)
    u.assume(not_(eq(c, num(2))))
    refused(u, 'an array without two columns is refused', u.call(QD, 'jacobi_matrix', u.arr('ab', (u.int('r', 1), c))))


KINDS = dict(Hermite=(lambda k: RZERO, lambda k: ite(eq(k, ZERO), RONE, real(k))),
             Legendre=(lambda k: RZERO, lambda k: ite(eq(k, ZERO), RONE, div(mul(real(k), real(k)), sub(mul(num(4), real(k), real(k)), RONE)))))


def one_dim(u, kind, call, N, order):
    """the rule is read off the eigenpairs of the Jacobi matrix of its weight"""
    ip = u.ip
    done = []
    J = tridiagonal(*KINDS[kind])

    def eigen(ip_, C, ascending):
        done.append(1)
        name, vec = 'node%d' % len(done), 'vec%d' % len(done)
        u.prove('the Jacobi matrix: size', ip_.ctx(), and_(*[eq(d, N) for d in C.shape]))
        i, j = fresh('i', 'I'), fresh('j', 'I')
        f = ip_.frozen(C)
        for nm, ix, spec, rg in (('diagonal', (i, i), J(i, i), bounded_((i, N))),
                                 ('above the diagonal', (i, add(i, ONE)), J(i, add(i, ONE)), bounded_((i, sub(N, ONE)))),
                                 ('below the diagonal', (add(i, ONE), i), J(add(i, ONE), i), bounded_((i, sub(N, ONE)))),
                                 ('zero elsewhere', (i, j), RZERO, bounded_((i, N), (j, N)) + [or_(lt(add(i, ONE), j), lt(add(j, ONE), i))])):
            u.prove('the Jacobi matrix of the %s weight: %s' % (kind, nm), ip_.ctx().child(rg), eq(ip_.at(f, list(ix)), spec))
        ip_.base.rules.insert(0, axioms.orth_rule(vec, lambda a: N))
        k = fresh('k', 'I')
        if ascending:
            ip_.assume(tall(k, ZERO, sub(N, ONE), lt(app(name, (k,), 'R'), app(name, (add(k, ONE),), 'R'))))
        return (ip_.mk((N,), 'f', lambda i: app(name, (i[0],), 'R')), ip_.mk((N, N), 'f', lambda i: app(vec, (i[0], i[1]), 'R')))
    ip.hooks['eigen'] = eigen
    for p in call():
        if p.kind != 'ok':
            u.fail('returns normally', p.exc)
            continue
        x, w = [p.thing(v) for v in p.value]
        u.check(order + 'two columns', all(isinstance(v, Arr) and len(v.shape) == 2 for v in (x, w)))
        for v in (x, w):
            u.prove(order + 'N-by-1', p, and_(eq(v.shape[0], N), eq(v.shape[1], ONE)))
        i, k = fresh('i', 'I'), fresh('k', 'I')
        rg = bounded_((i, N))
        if N is ONE:
            u.prove(order + 'the node is 0, the weight is 1', p, and_(eq(p.el(x, ZERO, ZERO), RZERO), eq(p.el(w, ZERO, ZERO), RONE)))
            continue
        xi, wi = p.el(x, i, ZERO), p.el(w, i, ZERO)
        c = p.ctx(*rg)
        got = None
        for s in [a for a in apps_in(c.canon(wi)) if a.a[0] == 'argsort'] + [i]:
            for n in range(1, len(done) + 1):
                node, v0 = app('node%d' % n, (s,), 'R'), app('vec%d' % n, (ZERO, s), 'R')
                if c.prove(eq(wi, mul(v0, v0)))[0]:
                    got = s, node
        u.check(order + 'the weights are the squared first components of the eigenvectors', got is not None)
        if got is None:
            continue
        s, node = got
        small = lambda t: and_(le(neg(num(Fraction(1, 10**11))), t), le(t, num(Fraction(1, 10**11))))
        u.prove(order + 'the node of a weight is the eigenvalue of its eigenvector (rounding to 0 aside)', p,
                or_(eq(xi, node), and_(eq(xi, RZERO), small(node))), extra=rg)
        u.prove(order + 'increasing nodes', p, le(xi, p.el(x, add(i, ONE), ZERO)), extra=bounded_((i, sub(N, ONE))))
        u.prove(order + 'nonnegative weights', p, le(RZERO, wi), extra=rg)
        u.prove(order + 'the weights sum to 1', p, eq(tsum(i, ZERO, N, wi), RONE))
        u.check(order + 'one eigenvalue problem', len(done) >= 1)


def apps_in(t, out=None):
    out = [] if out is None else out
    if t.k == 'app':
        out.append(t)
    for x in children(t):
        apps_in(x, out)
    return out


for kind_, f_, g_ in (('Hermite', 'gh1d', 'gauss_hermite'), ('Legendre', 'gl1d', 'gauss_legendre')):
    def one_d(u, kind_=kind_, f_=f_, g_=g_):
        u.assumption('Golub-Welsch: eigenvalues of the Jacobi matrix and squared first components of its orthonormal eigenvectors are the '
                     'nodes and weights of the rule exact up to degree 2N-1; eig returns orthonormal eigenvectors of it (its eigenvalues are '
                     'distinct); moments are compared on the real code for N <= 14')
        for how in ('1d', 'int', 'list'):
            for N in ('N', 1):
                u.start()
                n = u.int('N', 2) if N == 'N' else num(N)
                if N == 'N':
                    band_templates(u, n, tridiagonal(*KINDS[kind_]))
                arg = n if how != 'list' else u.ip.newlist([n])
                one_dim(u, kind_, lambda: u.call(QD, f_ if how == '1d' else g_, arg), n, '%s, order %s: ' % (how, N))
    unit('P13', f_, [QD + '.' + x for x in (f_, 'g1d', g_)])(one_d)

    def tensor(u, kind_=kind_, f_=f_, g_=g_):
        for d in (2, 3, 4, 5, 6):
            u.start()
            ip = u.ip
            Ns = [u.int('N%d' % k, 1) for k in range(d)]

            def rule(ip_, n):
                n = term(n)
                return tuple(ip_.mk((n, ONE), 'f', lambda i, h=h: app(h, (n, i[0]), 'R')) for h in ('node', 'weight'))
            ip.stubs[(QD, f_)] = rule
            L = ip.newlist(list(Ns))
            tot = ONE
            for n in Ns:
                tot = mul(tot, n)
            for p in u.call(QD, g_, L):
                if p.kind != 'ok':
                    u.fail('returns normally', p.exc)
                    continue
                x, w = [p.thing(v) for v in p.value]
                u.check('matrices', all(isinstance(v, Arr) and len(v.shape) == 2 for v in (x, w)))
                u.prove('nodes of every digit combination', p, and_(eq(x.shape[0], tot), eq(x.shape[1], num(d))))
                u.prove('one weight per node', p, and_(eq(w.shape[0], tot), eq(w.shape[1], ONE)))
                ks = [fresh('k', 'I') for _ in Ns]
                rg = bounded_(*zip(ks, Ns))
                r = ZERO
                for k, n in zip(ks, Ns):
                    r = add(mul(r, n), k)
                for j in range(d):
                    u.prove('%d dimensions: coordinate %d of row r is the node of digit %d' % (d, j, j), p,
                            eq(p.el(x, r, num(j)), app('node', (Ns[j], ks[j]), 'R')), extra=rg)
                pr = RONE
                for k, n in zip(ks, Ns):
                    pr = mul(pr, app('weight', (n, k), 'R'))
                u.prove('%d dimensions: the weight is the product' % d, p, eq(p.el(w, r, ZERO), pr), extra=rg)
        u.start()
        refused(u, 'an order that is not an integer or a list is refused', u.call(QD, g_, u.real('x')))
    unit('P13', g_ + ' (2 to 6 dimensions)', [QD + '.' + g_, MISC + '.atleast_2d_col'])(tensor)
