"""Index sets: every multi-index of total degree at most N exactly once, by induction over the dimension (P15)."""
from engine.run import unit
from contracts.common import *      # noqa: F401,F403

URS = 'utils.response_surfaces'
MINUS = num(-1)


def ne_(a, b):
    return not_(eq(a, b))


def S(n, d):
    """number of multi-indices with d entries and sum n (0 for n < 0)"""
    return app('S', (n, d), 'I')


def E(n, d, r, k):
    """entry k of row r of _full_index_set(n, d)"""
    return app('E', (n, d, r, k), 'I')


def sizes(a):
    n, d = a.a[1]
    yield (('S', a), implies(le(ONE, d), and_(le(ZERO, a), implies(le(ZERO, n), le(ONE, a)), implies(lt(n, ZERO), eq(a, ZERO)), implies(eq(n, ZERO), eq(a, ONE)),
                                              implies(and_(le(ZERO, n), eq(d, ONE)), eq(a, ONE)), implies(eq(n, ONE), eq(a, d)))))


def pascal(n, d):
    return implies(and_(le(ZERO, n), le(num(2), d)), eq(S(n, d), add(S(sub(n, ONE), d), S(n, sub(d, ONE)))))


def mono(a, b, d):
    return implies(and_(le(a, b), le(ONE, d)), le(S(a, d), S(b, d)))


def rows_of(n, d, r, k):
    """contract of _full_index_set(n, d) for entry (r, k)"""
    e = E(n, d, r, k)
    return implies(and_(le(ZERO, n), le(ONE, d), le(ZERO, r), lt(r, S(n, d)), le(ZERO, k), lt(k, d)),
                   and_(le(ZERO, e), implies(eq(n, ZERO), eq(e, ZERO)), implies(eq(n, ONE), eq(e, ite(eq(add(r, k, ONE), d), ONE, ZERO)))))


def entries(a):
    yield (('E', a), rows_of(*a.a[1]))


class Growing(object):
    """loop invariant: the blocks of the iterations done are stacked in order; block b holds content(b, q, k) at row off(b) + q"""

    def __init__(self, u, cols, nrows, off, size, content, extra):
        self.u, self.cols, self.nrows, self.off, self.size, self.content, self.extra = u, cols, nrows, off, size, content, extra
        self.use = None
        u.ip.templates.append(self.template)

    def template(self, ip, key, shape, sort):
        if sort != 'R' or len(shape) != 2:
            return

        def at(rd, b, q, k):
            return eq(rd((add(self.off(b), q), k)), self.content(b, q, k))

        def shape_ok(rd, t):
            return and_(eq(rd.dims[1], self.cols), eq(rd.dims[0], self.nrows(t)))

        def rng(b, q, k, t):
            return and_(le(ZERO, b), le(b, t), le(ZERO, q), lt(q, self.size(b)), le(ZERO, k), lt(k, self.cols))

        def made(first):
            def f(rd):
                # blocks up to t are there; those before the loop are up to `first`
                t = add(rd.at[-1], ONE if rd.mode == 'end' else ZERO, num(first))
                b, q, k = [fresh(x, 'I') for x in 'bqk']
                if rd.mode == 'use':
                    self.use = lambda b, q, k: implies(rng(b, q, k, t), at(rd, b, q, k))
                    self.sh = shape_ok(rd, t)
                    return and_(shape_ok(rd, t), tall(b, ZERO, add(t, ONE), tall(q, ZERO, self.size(b), tall(k, ZERO, self.cols, at(rd, b, q, k)))))
                hs = self.extra(b, q, t)
                if rd.mode == 'end' and self.use is not None:
                    hs += [self.use(b, q, k), self.sh]
                return and_(shape_ok(rd, t), implies(rng(b, q, k, t), at(rd, b, q, k))), hs
            return f
        return [made(0), made(-1)]


def run_real(u, fname, *args):
    """the body of the function; calls inside it go through their contracts"""
    f = u.ip.get(URS, fname)
    return u.run(lambda: u.ip.run_closure(f, u.ip.bind(f, list(args), {})))


def recursive(u, n, d):
    ip = u.ip

    def full(ip_, n2, d2):
        n2, d2 = term(n2), term(d2)
        c = ip_.ctx()
        u.check('called with integers', n2.s == 'I' and d2.s == 'I')
        u.prove('precondition of the call: n >= 0, d >= 1', c, and_(le(ZERO, n2), le(ONE, d2)))
        if d is not None:
            u.prove('the dimension decreases', c, lt(d2, d))
        return ip_.mk((S(n2, d2), d2), 'f', lambda i: real(E(n2, d2, i[0], i[1])))
    ip.stubs[(URS, '_full_index_set')] = full
    ip.add_schema('S', lambda a: list(sizes(a)))
    ip.add_schema('E', lambda a: list(entries(a)))


def once_each(u, p, use, A, n, d, off, size, content, hs, inb, v):
    """row sums n, different rows, every multi-index: from the same facts for one variable less"""
    b, q, k, r = v
    d1 = sub(d, ONE)
    j = fresh('j', 'I')
    smaller = implies(and_(le(ZERO, sub(n, b)), le(ZERO, q), lt(q, size(b))), eq(tsum(j, ZERO, d1, real(E(sub(n, b), d1, q, j))), real(sub(n, b))))
    u.prove('entry j + 1 of a row', p, eq(p.el(A, r, add(j, ONE)), real(E(sub(n, b), d1, q, j))), hs + [use(b, q, add(j, ONE))], extra=inb + bounded_((j, d1)))
    u.prove('row sums', p, eq(add(p.el(A, r, ZERO), tsum(j, ZERO, d1, real(E(sub(n, b), d1, q, j)))), real(n)), hs + [smaller, use(b, q, ZERO)], extra=inb)
    # two rows (b, q) != (b2, q2)
    b2, q2, r2 = [fresh(x, 'I') for x in ('b', 'q', 'r')]
    in2 = [le(ZERO, b2), le(b2, n), le(ZERO, q2), lt(q2, size(b2)), eq(r2, add(off(b2), q2))]
    hs2 = hs + [pascal(sub(n, b2), d), mono(sub(n, b2), n, d), mono(MINUS, sub(sub(n, b2), ONE), d)]
    k0 = ite(eq(b, b2), add(j, ONE), ZERO)          # where they differ
    apart = implies(eq(b, b2), and_(le(ZERO, j), lt(j, d1), ne_(E(sub(n, b), d1, q, j), E(sub(n, b), d1, q2, j))))
    for t, fact in (('the same block', eq(b, b2)), ('different blocks', ne_(b, b2))):
        u.prove('different rows differ, ' + t, p, ne_(p.el(A, r, k0), p.el(A, r2, k0)), hs2 + [use(b, q, k0), use(b2, q2, k0)], extra=inb + in2 + [fact, apart])
    # a multi-index al with sum n
    al = lambda i: app('al', (i,), 'I')
    b = al(ZERO)
    put = lambda t: [subst(x, {v[0]: b}) for x in t]
    found = tall(j, ZERO, d1, eq(E(sub(n, b), d1, q, j), al(add(j, ONE))))
    u.prove('every multi-index with sum n is a row', p, eq(p.el(A, add(off(b), q), k), real(al(k))),
            put(hs) + [use(b, q, k), implies(le(ONE, k), eq(E(sub(n, b), d1, q, sub(k, ONE)), al(k)))],
            extra=[le(ZERO, b), le(b, n), le(ZERO, q), lt(q, size(b)), found] + bounded_((k, d)))


@unit('P15', '_full_index_set', [URS + '._full_index_set'], budget=120)
def full_set(u):
    u.assumption('S(n, d) is the binomial coefficient C(n+d-1, d-1): Pascal rule, increasing in n')
    u.start()
    recursive(u, None, ONE)
    n = u.int('n', 0)
    for p in run_real(u, '_full_index_set', n, 1):
        if p.kind != 'ok':
            u.fail('returns normally', p.exc)
            continue
        A = p.thing(p.value)
        u.prove('one variable: the only index is n', p, and_(eq(A.shape[0], ONE), eq(A.shape[1], ONE), eq(p.el(A, ZERO, ZERO), n)))
    for n_ in ('n', 0, 1):
        u.start()
        d = u.int('d', 2)
        n = u.int('n', 0) if n_ == 'n' else num(n_)
        recursive(u, n, d)
        d1 = sub(d, ONE)
        off = lambda b: sub(S(n, d), S(sub(n, b), d))
        size = lambda b: S(sub(n, b), d1)
        content = lambda b, q, k: real(ite(eq(k, ZERO), b, E(sub(n, b), d1, q, sub(k, ONE))))
        nrows = lambda t: sub(S(n, d), S(sub(sub(n, ONE), t), d))
        nxt = lambda t: sub(sub(n, ONE), t)
        G = Growing(u, d, nrows, off, size, content,
                lambda b, q, t: [pascal(sub(n, b), d), pascal(sub(n, t), d), pascal(nxt(t), d), pascal(n, d), mono(nxt(t), sub(sub(n, b), ONE), d), mono(sub(n, t), sub(sub(n, b), ONE), d)])
        tag = 'n = %s: ' % n_ if n_ != 'n' else ''
        for p in run_real(u, '_full_index_set', n, d):
            if p.kind != 'ok':
                u.fail(tag + 'returns normally', '%s %s' % (p.exc, p.value.eargs))
                continue
            A = p.thing(p.value)
            u.check(tag + 'a matrix', isinstance(A, Arr) and len(A.shape) == 2)
            r, k, b, q = [fresh(x, 'I') for x in 'rkbq']
            hs = [pascal(sub(n, b), d), pascal(n, d), mono(sub(n, b), n, d), mono(MINUS, sub(sub(n, b), ONE), d)]
            inb = [le(ZERO, b), le(b, n), le(ZERO, q), lt(q, size(b)), eq(r, add(off(b), q))]
            u.prove(tag + 'C(n+d-1, d-1) rows of d entries', p, and_(eq(A.shape[0], S(n, d)), eq(A.shape[1], d)), [pascal(n, d)])
            u.prove(tag + 'row off(b) + q exists', p, and_(le(ZERO, r), lt(r, S(n, d))), hs, extra=inb)
            use = G.use or (lambda *a: TRUE)
            inv = use(b, q, k)
            el = p.el(A, r, k)
            spec = content(b, q, k)
            u.prove(tag + 'row off(b) + q is b followed by row q of the index set of degree n - b', p, eq(el, spec), hs + [inv], extra=inb + bounded_((k, d)))
            if n_ == 'n':
                u.prove('blocks follow each other without gap', p, and_(eq(off(ZERO), ZERO), implies(and_(le(ZERO, b), le(b, n)), eq(off(add(b, ONE)), add(off(b), size(b)))), eq(off(add(n, ONE)), S(n, d))),
                        [pascal(sub(n, b), d)])
                once_each(u, p, use, A, n, d, off, size, content, hs, inb, (b, q, k, r))
                continue
            want = ZERO if n_ == 0 else ite(eq(add(r, k, ONE), d), ONE, ZERO)
            u.prove(tag + ('the zero row' if n_ == 0 else 'the unit rows, last variable first'), p, eq(el, real(want)),
                    hs + [inv, rows_of(sub(n, b), d1, q, sub(k, ONE))], extra=inb + bounded_((k, d)))


@unit('P15', 'index_set', [URS + '.index_set'], budget=120)
def all_degrees(u):
    u.assumption('S(n, d) is the binomial coefficient C(n+d-1, d-1): Pascal rule, increasing in n; hence S(n, d+1) = C(n+d, d)')
    for n_ in ('n', 1, 2):
        u.start()
        d = u.int('d', 1)
        n = u.int('n', 0) if n_ == 'n' else num(n_)
        tag = 'n = %s: ' % n_ if n_ != 'n' else ''
        recursive(u, n, None)
        d2 = add(d, ONE)
        off = lambda b: ZERO if b is ZERO else S(sub(b, ONE), d2)
        size = lambda b: S(b, d)
        content = lambda b, q, k: real(E(b, d, q, k))
        nrows = lambda t: S(t, d2)
        G = Growing(u, d, nrows, off, size, content,
                    lambda b, q, t: [pascal(t, d2), pascal(add(t, ONE), d2), pascal(b, d2), mono(b, sub(t, ONE), d2)])
        for p in run_real(u, 'index_set', n, d):
            if p.kind != 'ok':
                u.fail(tag + 'returns normally', '%s %s' % (p.exc, p.value.eargs))
                continue
            A = p.thing(p.value)
            u.check(tag + 'a matrix', isinstance(A, Arr) and len(A.shape) == 2)
            r, k, b, q = [fresh(x, 'I') for x in 'rkbq']
            rev = sub(sub(d, ONE), k)
            hs = [pascal(b, d2), pascal(n, d2), pascal(ONE, d2), mono(b, n, d2)] + [f for i, j in ((ONE, d2), (ZERO, d), (ZERO, d2), (ONE, d), (MINUS, d2)) for _, f in sizes(S(i, j))]
            inb = [le(ZERO, b), le(b, n), le(ZERO, q), lt(q, size(b)), eq(r, add(off(b), q))]
            use = G.use or (lambda *a: TRUE)
            inv = [use(b, q, rev)]
            u.prove(tag + 'C(n+d, d) rows of d entries', p, and_(eq(A.shape[0], S(n, d2)), eq(A.shape[1], d)), hs)
            u.prove(tag + 'row off(b) + q exists', p, and_(le(ZERO, r), lt(r, S(n, d2))), hs, extra=inb)
            el = p.el(A, r, k)
            u.prove(tag + 'row off(b) + q is row q of the index set of degree b, variables reversed', p, eq(el, real(E(b, d, q, rev))), hs + inv, extra=inb + bounded_((k, d)))
            if n_ == 'n':
                u.prove('blocks follow each other without gap', p, and_(eq(off(ZERO), ZERO), implies(and_(le(ZERO, b), le(b, n)), eq(off(add(b, ONE)), add(off(b), size(b)))), eq(off(add(n, ONE)), S(n, d2))), hs)
            u.prove(tag + 'row 0 is the zero index', p, eq(p.el(A, ZERO, k), RZERO), [use(ZERO, ZERO, rev), rows_of(ZERO, d, ZERO, rev)] + hs, extra=bounded_((k, d)))
            if n_ != 'n':
                a = fresh('a', 'I')
                u.prove(tag + 'row 1 + a is the unit index of variable a', p, eq(p.el(A, add(ONE, a), k), real(ite(eq(a, k), ONE, ZERO))),
                        [use(ONE, a, rev), rows_of(ONE, d, a, rev), pascal(ONE, d2), pascal(ZERO, d2)], extra=bounded_((k, d), (a, d)))
            if n_ == 2:
                u.prove('the rows of degree 2 are rows d + 1 to d + S(2, d)', p, and_(eq(off(num(2)), d2), eq(S(num(2), d2), add(d2, S(num(2), d)))), [pascal(ONE, d2), pascal(num(2), d2)])
