"""The bounded active-variable domain (P11)."""
from engine.run import unit
from contracts.common import *      # noqa: F401,F403
from engine.loops import cases_of
from engine.prover import collect_apps

W1_ = lambda i, j: app('W1', (i, j), 'R')


@unit('P11', 'interval_endpoints', [DOM + '.interval_endpoints'])
def interval(u):
    u.start()
    m = u.int('m', 1)
    W1 = u.arr('W1', (m, ONE))
    k, i, j = fresh('k', 'I'), fresh('i', 'I'), fresh('j', 'I')
    w = lambda i: W1_(i, ZERO)
    norm1 = tsum(k, ZERO, m, fn('abs', w(k)))
    lem = [eq(tsum(k, ZERO, m, mul(w(k), fn('sign', w(k)))), norm1), le(RZERO, norm1)]
    c = u.ip.ctx()
    u.prove('lemma: w sign(w) = |w|', c, eq(mul(w(i), fn('sign', w(i))), fn('abs', w(i))))
    u.prove('lemma: |w|_1 >= 0', c, lem[1])
    u.ip.assume(*lem)
    for p in u.call(DOM, 'interval_endpoints', W1):
        if p.kind != 'ok':
            u.fail('returns normally', '%s %s' % (p.exc, p.value.eargs))
            continue
        u.expect(isinstance(p.value, tuple) and len(p.value) == 2, 'a pair')
        Y, X = p.value
        u.all_eq('endpoints are -|w|_1 and |w|_1 in this order', p, Y, (num(2), ONE), lambda r, c: ite(eq(r, ZERO), neg(norm1), norm1))
        x = p.thing(X)
        u.check('corner array has two axes', len(x.shape) == 2)
        u.prove('two corners', p, and_(eq(x.shape[0], num(2)), eq(x.shape[1], m)))
        for r in (ZERO, ONE):
            u.prove('corner %s has entries -1 and 1' % show(r), p, or_(eq(p.el(x, r, j), RONE), eq(p.el(x, r, j), neg(RONE))),
                    extra=bounded_((j, m)) + [not_(eq(w(j), RZERO))])
            u.prove('corner %s is mapped to endpoint %s' % (show(r), show(r)), p,
                    eq(tsum(k, ZERO, m, mul(w(k), p.el(x, r, k))), p.el(Y, r, ZERO)))
        u.unchanged(p)
    # every point of the cube is mapped between -|w|_1 and |w|_1
    c = u.ip.ctx()
    xx = lambda i: app('x', (i,), 'R')
    box = [tall(k, ZERO, m, and_(le(neg(RONE), xx(k)), le(xx(k), RONE)))]
    t = tsum(k, ZERO, m, mul(w(k), xx(k)))
    inb = bounded_((i, m)) + [le(neg(RONE), xx(i)), le(xx(i), RONE)]
    for q in (le(mul(w(i), xx(i)), fn('abs', w(i))), le(neg(fn('abs', w(i))), mul(w(i), xx(i)))):
        u.prove('lemma: |w_i x_i| <= |w_i|', c.child(inb), q)
    # the sums: termwise nonnegative differences
    for q in (sub(fn('abs', w(i)), mul(w(i), xx(i))), add(fn('abs', w(i)), mul(w(i), xx(i)))):
        u.prove('every x in the cube is mapped into the interval', c.child(box), le(RZERO, tsum(i, ZERO, m, q)))


@unit('P11', 'nzv', [DOM + '.nzv'])
def nzv(u):
    u.start()
    m, n = u.int('m', 1), u.int('n', 0)
    i = fresh('i', 'I')
    u.assumption('scipy.misc.comb: the binomial coefficient, an integer')
    u.ip.add_schema('comb', lambda a: list(axioms.comb(a)) + [(('comb+', a), implies(le(ZERO, a.a[1][0]), le(ZERO, a)))])
    for p in u.call(DOM, 'nzv', m, n):
        if p.kind != 'ok':
            u.fail('returns normally', '%s %s' % (p.exc, p.value.eargs))
            continue
        v = term(p.value)
        u.check('an integer', v.s == 'I', show(v))
        s = tsum(i, ZERO, n, app('comb', (sub(m, ONE), i), 'I'))
        u.prove('lemma: the sum is nonnegative', p, le(ZERO, s))
        u.prove('2*sum_{i<n} C(m-1,i)', p, or_(eq(v, mul(num(2), s)), eq(v, fn('floor', mul(num(2, 'R'), s)))), extra=[le(ZERO, s)])
    for a in ((num(3, 'R'), n), (m, num(3, 'R')), ('3', n), (m, None)):
        for p in u.call(DOM, 'nzv', *a):
            u.check('non-integer refused', p.kind == 'exc' and p.exc == 'TypeError')


def domain(u, kind):
    u.start()
    ip = u.ip
    m, n = u.int('m', 1), ONE if kind == 'interval' else u.int('n', 2)
    u.assume(le(n, m))
    s, W, W1, W2 = orthonormal(u, m, n)
    R = num(2) if kind == 'interval' else u.int('R', 1)
    called = []

    def stub(ip_, A, *a):
        fa = ip_.frozen(ip_.resolve(A))
        i, j = fresh('i', 'I'), fresh('j', 'I')
        u.prove(kind + ': the boundary of W1', ip_.ctx().child(bounded_((i, m), (j, n))),
                and_(eq(fa.shape[0], m), eq(fa.shape[1], n), eq(ip_.at(fa, [i, j]), W_(i, j))))
        called.append(1)
        return (ip_.mk((R, n), 'f', lambda i: app('vy', tuple(i), 'R')), ip_.mk((R, m), 'f', lambda i: app('vx', tuple(i), 'R')))

    def wrong(ip_, *a):
        u.fail(kind + ': the other kind of domain is computed', '')
        raise Infeasible_()
    ip.stubs[(DOM, 'interval_endpoints')] = stub if kind == 'interval' else wrong
    ip.stubs[(DOM, 'zonotope_vertices')] = wrong if kind == 'interval' else stub
    return m, n, s, R


class Infeasible_(Exception):
    pass


@unit('P11', 'compute_boundary', [DOM + '.BoundedActiveVariableDomain.__init__', DOM + '.BoundedActiveVariableDomain.compute_boundary'])
def boundary(u):
    u.assumption('scipy.spatial.ConvexHull: the polytope is the set where every facet inequality equations[:, :n] y + equations[:, n] <= 0 holds; '
                 'the facets of a polytope symmetric about the origin come in opposite pairs')
    for kind in ('interval', 'zonotope'):
        m, n, s, R = domain(u, kind)
        ip = u.ip
        done = 0
        mu = lambda q: app('mu', (q,), 'I')

        def thunk():
            d = ip.call(ip.get(DOM, 'BoundedActiveVariableDomain'), [s], {})
            out = dict(vy=ip.attr(d, 'vertY'), vx=ip.attr(d, 'vertX'), m=ip.attr(d, 'm'), n=ip.attr(d, 'n'), s=ip.attr(d, 'subspaces'),
                       hull=ip.attr(d, 'convhull'))
            c = ip.resolve(ip.attr(d, 'constraints'))
            out['c'] = c
            if c is not None:
                c = c if isinstance(c, (tuple, list)) else (c,)
                u.expect(len(c) == 1, 'one family of constraints')
                c = ip.resolve(c[0])
                u.expect(isinstance(c, Opaque) and c.tag == 'dict', 'a dictionary')
                c = ip.st.dicts[c.info]
                u.check('inequality constraint', c.get('type') == 'ineq')
                x = ip.mk((n,), 'f', lambda i: app('x', tuple(i), 'R'))
                xd = ip.mk((n,), 'f', lambda i: add(app('x', tuple(i), 'R'), app('d', tuple(i), 'R')))
                out['f'], out['fd'] = ip.resolve(ip.call(c['fun'], [x], {})), ip.resolve(ip.call(c['fun'], [xd], {}))
                out['J'] = ip.resolve(ip.call(c['jac'], [x], {}))
            return out
        for p in u.run(thunk):
            if p.kind != 'ok':
                u.fail('returns normally', '%s %s' % (p.exc, p.value.eargs))
                continue
            done += 1
            o = p.value
            u.all_eq(kind + ': the endpoint or vertex array', p, o['vy'], (R, n), lambda i, j: app('vy', (i, j), 'R'))
            u.all_eq(kind + ': the corner array', p, o['vx'], (R, m), lambda i, j: app('vx', (i, j), 'R'))
            u.prove(kind + ': dimensions', p, and_(eq(term(o['m']), m), eq(term(o['n']), n)))
            u.check(kind + ': subspaces kept', isinstance(o['s'], Obj) and o['s'].oid == s.oid)
            if kind == 'interval':
                u.check('no constraint function for an interval', o['c'] is None and p.thing(o['hull']) is None)
                continue
            h = p.events('hull')
            u.expect(len(h) == 1, 'one convex hull')
            h = h[0]
            i, j, q, k = [fresh(z, 'I') for z in 'ijqk']
            u.prove('hull of the vertices', p, and_(eq(h[2].shape[0], R), eq(h[2].shape[1], n), eq(p.el(h[2], i, j), app('vy', (i, j), 'R'))),
                    extra=bounded_((i, R), (j, n)))
            u.check('the hull is kept', isinstance(p.thing(o['hull']), Rec))
            f, fd, J, ns_ = p.thing(o['f']), p.thing(o['fd']), p.thing(o['J']), h[4]
            u.check('constraint values are a vector, the Jacobian a matrix', len(f.shape) == 1 and len(J.shape) == 2)
            u.prove('one value per facet', p, and_(eq(f.shape[0], ns_), eq(J.shape[0], ns_), eq(J.shape[1], n)))
            E = lambda q_, k_: app(h[1] + '_eq', h[5] + (q_, k_), 'R')
            inside = lambda q_: add(tsum(k, ZERO, n, mul(E(q_, k), app('x', (k,), 'R'))), E(q_, n))
            opp = lambda q_: [le(ZERO, mu(q_)), lt(mu(q_), ns_), eq(E(mu(q_), n), E(q_, n)), tall(k, ZERO, n, eq(E(mu(q_), k), neg(E(q_, k))))]
            rg = bounded_((q, ns_))
            # a point with nonnegative constraint values satisfies every facet inequality and conversely (q and its opposite facet)
            opq = lambda e: replace_app(e, h[1] + '_eq', lambda a: (neg(E(q, a[-1])) if a[-1] is not n else E(q, n)) if a[-2] is mu(q) else app(h[1] + '_eq', a, 'R'))
            fq, fm = p.el(f, q), opq(p.el(f, mu(q)))
            pos = [le(RZERO, fq), le(RZERO, fm)]
            ins = [le(inside(q), RZERO), le(opq(inside(mu(q))), RZERO)]
            for t in ins:
                u.prove('nonnegative values imply the facet inequalities', p, t, extra=rg + pos)
            for t in pos:
                u.prove('the facet inequalities imply nonnegative values', p, t, extra=rg + ins)
            u.prove('Jacobian of the constraints', p, eq(sub(p.el(fd, q), p.el(f, q)), tsum(k, ZERO, n, mul(p.el(J, q, k), app('d', (k,), 'R')))), extra=rg)
            u.unchanged(p)
        u.check(kind + ': some path succeeds', done)


class Rows(object):
    """what the contract of unique_rows lets one conclude about arrays built from its results: where the negative of a row is,
    in which column two rows differ, in which direction a row is the sign pattern of W1 z.  The conclusions are proved, not assumed;
    the hints are instances of the contract of unique_rows and of the loop invariants."""

    def __init__(self, u, m, n):
        self.u, self.ip, self.m, self.n = u, u.ip, m, n
        self.calls = {}
        self.inv = {}

    # contract of unique_rows: the distinct rows of A, all of them
    def unique(self, ip, A):
        A = ip.resolve(A)
        if not isinstance(A, Arr) or len(A.shape) != 2:
            raise Unsupported('argument of unique_rows')
        name, lv = 'u%d' % ip.uid(), tuple(ip.loopvars)
        R = app(name + '_rows', lv, 'I')
        fa = ip.frozen(A)
        self.u.prove('unique_rows is given at least one row', ip.ctx(), le(ONE, A.shape[0]))
        ip.assume(le(ONE, R), le(R, A.shape[0]))
        self.calls[name] = (lv, fa, R)
        return ip.mk((R, A.shape[1]), 'f', lambda i: app(name, lv + (i[0], i[1]), 'R'))

    def template(self, kind):
        def tm(ip, key, shape, sort):
            if sort != 'R' or len(shape) != 2:
                return
            def f(rd):
                if rd.mode != 'use':
                    return self.goal(kind, lambda r, j: rd((r, j)), rd.dims)
                at = rd.at
                hn = rd((ZERO, ZERO)).a[0]
                self.inv[hn] = len(at)
                r, j, s = fresh('r', 'I'), fresh('j', 'I'), fresh('s', 'I')
                return self.fact(kind, hn, at, r, j, s, rd.dims)
            return [f]
        return tm

    def fact(self, kind, hn, at, r, j, s, dims):
        R, m = dims
        e = app(hn, at + (r, j), 'R')
        if kind == 'columns':
            return and_(eq(m, self.m), le(ONE, R))
        if kind == 'signs':
            return tall(r, ZERO, R, tall(j, ZERO, m, or_(eq(e, RONE), eq(e, neg(RONE)))))
        if kind == 'mate':
            mt = app(hn + '_mate', at + (r,), 'I')
            return tall(r, ZERO, R, tall(j, ZERO, m, and_(le(ZERO, mt), lt(mt, R), eq(app(hn, at + (mt, j), 'R'), neg(e)))))
        if kind == 'distinct':
            c = app(hn + '_col', at + (r, s), 'I')
            return tall(r, ZERO, R, tall(s, ZERO, R, or_(eq(r, s), and_(le(ZERO, c), lt(c, m), not_(eq(app(hn, at + (r, c), 'R'), app(hn, at + (s, c), 'R')))))))
        if kind == 'pattern':
            return tall(r, ZERO, R, tall(j, ZERO, m, eq(e, fn('sign', self.of_h(hn, at + (r,), j)))))

    def of_h(self, hn, at, j):
        return tsum(KZ, ZERO, self.n, mul(app(hn + '_z', at + (KZ,), 'R'), W1_(j, KZ)))

    # goals: (formula, hints)
    def goal(self, kind, el, dims):
        R, m = dims
        self.hints = [TRUE]
        r, j, s = fresh('r', 'I'), fresh('j', 'I'), fresh('s', 'I')
        if kind == 'columns':
            return and_(eq(m, self.m), le(ONE, R)), ()
        rg = and_(*bounded_((r, R), (j, m)))
        e = el(r, j)
        if kind == 'signs':
            self.expand(e, j)
            return implies(rg, or_(eq(e, RONE), eq(e, neg(RONE)))), self.hints
        if kind == 'mate':
            mt = self.mate_pos(el, r, j)
            if mt is None:
                return FALSE, ()
            self.expand(el(mt, j), j)
            return implies(rg, and_(le(ZERO, mt), lt(mt, R), eq(el(mt, j), neg(e)))), self.hints
        if kind == 'distinct':
            c = self.differ(el(r, j), el(s, j), j, r, s)
            if c is None:
                return FALSE, ()
            return implies(and_(*bounded_((r, R), (s, R)) + [not_(eq(r, s))]), and_(le(ZERO, c), lt(c, m), not_(eq(el(r, c), el(s, c))))), self.hints
        if kind == 'pattern':
            # e = sign(W1 z) or e = -sign(W1 z) = sign(W1 (-z))
            out = []
            self.expand(e, j)
            for c, sgn, x in self.direction(e, j):
                if x is None or not self.linear(x, j):
                    out.append(not_(and_(rg, c)))
                else:
                    s_ = fn('sign', x)
                    out.append(implies(and_(rg, c), eq(e, s_ if sgn > 0 else neg(s_))))
            return and_(*out), self.hints

    def at(self, name, lvargs, s, j):
        lv, fa, R = self.calls[name]
        return subst(subst(fa.body, {IDX[0]: s, IDX[1]: j}), dict(zip(lv, lvargs)))

    def inst(self, name, lvargs, t):
        return subst(t, dict(zip(self.calls[name][0], lvargs)))

    def is_u(self, e):
        return e.k == 'app' and e.a[0] in self.calls

    def is_h(self, e):
        return e.k == 'app' and e.a[0] in self.inv

    def open_u(self, e):
        """u(r, j) = A[src(r), j]"""
        name, a = e.a
        lvargs, r, j = a[:-2], a[-2], a[-1]
        lv, fa, R = self.calls[name]
        src = app(name + '_src', lvargs + (r,), 'I')
        v = self.at(name, lvargs, src, j)
        R0, Ri = self.inst(name, lvargs, fa.shape[0]), self.inst(name, lvargs, R)
        self.hint(implies(and_(le(ZERO, r), lt(r, Ri)), and_(le(ZERO, src), lt(src, R0), eq(e, v))))
        return src, v

    def hint(self, f):
        if f is not TRUE and f not in self.hints:
            self.hints.append(f)

    def expand(self, e, j, depth=0):
        apps = []
        collect_apps(e, tuple(self.calls) + ('sign',), apps, set())
        for a in dict.fromkeys(apps):
            if a.a[0] == 'sign':
                x = a.a[1][0]
                if contains(x, lambda t: t.k == 'app' and t.a[0] == 'W1'):
                    self.hint(not_(eq(x, RZERO)))         # directions in general position
            elif depth < 8:
                src, v = self.open_u(a)
                self.expand(v, j, depth + 1)

    def mate_pos(self, el, s, j, depth=0):
        """a position of the array el that holds the negative of its row s"""
        if depth > 8:
            return None
        out = None
        for c, v in reversed(cases_of(el(s, j))):
            pos = None
            for t in self.negatives(v, j, depth):
                pos = self.locate(el, t, j, c)
                if pos is not None:
                    break
            if pos is None:
                return None
            out = pos if out is None else ite(c, pos, out)
        return out

    def negatives(self, v, j, depth):
        """row terms equal to minus the row v"""
        yield (neg(v))
        sgn, w = (1, v) if (self.is_u(v) or self.is_h(v)) else (-1, (neg(v)))
        if self.is_u(w):
            name, a = w.a
            lvargs, r, jj = a[:-2], a[-2], a[-1]
            lv, fa, R = self.calls[name]
            src, _ = self.open_u(w)
            A = lambda s, j_: self.at(name, lvargs, s, j_)
            mt = self.mate_pos(A, src, jj, depth + 1)
            if mt is not None:
                x = self.dst(name, lvargs, mt, jj)
                yield x if sgn > 0 else (neg(x))
        if self.is_h(w):
            name, a = w.a
            mt = app(name + '_mate', a[:-1], 'I')
            x = app(name, a[:-2] + (mt, a[-1]), 'R')
            yield x if sgn > 0 else (neg(x))

    def dst(self, name, lvargs, s, j):
        """row s of the argument is row dst(s) of the result"""
        lv, fa, R = self.calls[name]
        d = app(name + '_dst', lvargs + (s,), 'I')
        R0, Ri = self.inst(name, lvargs, fa.shape[0]), self.inst(name, lvargs, R)
        x = app(name, lvargs + (d, j), 'R')
        self.hint(implies(and_(le(ZERO, s), lt(s, R0)), and_(le(ZERO, d), lt(d, Ri), eq(x, self.at(name, lvargs, s, j)))))
        return x

    def locate(self, el, t, j, cond):
        """s with el(s, j) = t for all j"""
        s = fresh('s', 'I')
        for c, v in cases_of(el(s, j)):
            for x in unify(v, t, s):
                if subst(v, {s: x}) is t:
                    # the piece must be the one in force at that position; this is part of what is proved
                    return x
        return None

    def differ(self, e1, e2, j, r, s):
        if self.is_u(e1) and self.is_u(e2) and e1.a[0] == e2.a[0]:
            name, a = e1.a
            lv, fa, R = self.calls[name]
            lvargs = a[:-2]
            if a[-2] is not r or e2.a[1][-2] is not s:
                return None
            c = app(name + '_col', lvargs + (r, s), 'I')
            Ri, mm = self.inst(name, lvargs, R), self.inst(name, lvargs, fa.shape[1])
            self.hint(implies(and_(*bounded_((r, Ri), (s, Ri)) + [not_(eq(r, s))]),
                              and_(le(ZERO, c), lt(c, mm), not_(eq(app(name, lvargs + (r, c), 'R'), app(name, lvargs + (s, c), 'R'))))))
            return c
        if self.is_h(e1) and self.is_h(e2) and e1.a[0] == e2.a[0]:
            name, a = e1.a
            return app(name + '_col', a[:-2] + (a[-2], e2.a[1][-2]), 'I')
        return None

    def direction(self, e, j, depth=0):
        out = []
        for c, v in cases_of(e):
            sgn, w = 1, v
            if v.k != 'app':
                sgn, w = -1, neg(v)
            sub_ = [(TRUE, 1, None)]
            if self.is_u(w) and depth < 8:
                src, x = self.open_u(w)
                sub_ = self.direction(x, j, depth + 1)
            elif self.is_h(w):
                sub_ = [(TRUE, 1, self.of_h(w.a[0], w.a[1][:-1], w.a[1][-1]))]
            elif w.k == 'app' and w.a[0] == 'sign':
                sub_ = [(TRUE, 1, w.a[1][0])]
            for c2, s2, x in sub_:
                cc = and_(c, c2)
                if cc is not FALSE:
                    out.append((cc, sgn * s2, x))
        return out

    def linear(self, x, j):
        """x = sum_k z_k W1[j, k] for some z"""
        if x.k != 'sum':
            return (neg(x)).k == 'sum' and self.linear(neg(x), j)
        v, lo, hi, b = x.a
        z = div(b, W1_(j, v))
        return lo is ZERO and hi is self.n and j not in fv(z) and not contains(z, lambda t: t.k == 'app' and t.a[0] == 'W1')


KZ = var('kz', 'I')


def unify(v, t, s):
    """candidate values of the integer variable s that make v equal to t"""
    out = []

    def go(a, b):
        if s not in fv(a):
            return
        if a.s == 'I':
            c = sub(a, s)
            if s not in fv(c):
                out.append(sub(b, c))
                return
        if a.k == b.k == 'app' and a.a[0] == b.a[0] and len(a.a[1]) == len(b.a[1]):
            for x, y in zip(a.a[1], b.a[1]):
                go(x, y)
            return
        xs, ys = [], []
        for z, lst in ((a, xs), (b, ys)):
            kids(z, lst)
        for x in xs:
            for y in ys:
                if x.k == y.k == 'app' and x.a[0] == y.a[0]:
                    go(x, y)
    go(v, t)
    return list(dict.fromkeys(out))


def kids(t, out):
    """applications inside t, outermost first"""
    if t.k == 'app':
        out.append(t)
        return
    for x in children(t):
        kids(x, out)


@unit('P11', 'zonotope_vertices', [DOM + '.zonotope_vertices', DOM + '.unique_rows'])
def zonotope(u):
    u.assumption('unique_rows returns the distinct rows of its argument, all of them (byte comparison of floats through a void view is outside the '
                 'interpreter; checked on generated arrays)')
    u.assumption('no random direction is orthogonal to a row of W1 (almost surely, W1 without zero rows)')
    u.assumption('a zonotope in general position has nzv(m, n) vertices, each the image of the sign pattern of W1 z for some z; so the number of rows is at '
                 'most nzv(m, n), and nzv(m, n) distinct patterns are all of them (checked on generated subspaces)')
    u.start()
    ip = u.ip
    m, n = u.int('m', 2), u.int('n', 2)
    u.assume(le(n, m))
    W1 = u.arr('W1', (m, n))
    rows = Rows(u, m, n)
    nz = app('nzv', (m, n), 'I')
    ip.stubs[(DOM, 'unique_rows')] = rows.unique
    ip.stubs[(DOM, 'nzv')] = lambda ip_, a, b: app('nzv', (term(ip_.resolve(a)), term(ip_.resolve(b))), 'I')
    KINDS = ('columns', 'signs', 'mate', 'distinct', 'pattern')
    for kd in KINDS:
        ip.templates.append(rows.template(kd))
    ns, mc = u.int('Nsamples', 1), u.int('maxcount', 0)
    NAMES = dict(columns='m columns and at least one row', signs='entries are -1 and 1', mate='the negative of every row is a row', distinct='no row occurs twice',
                 pattern='every row is the sign pattern of W1 z for some z')
    good = 0
    for p in u.call(DOM, 'zonotope_vertices', W1, ns, mc):
        if p.kind != 'ok':
            u.fail('returns normally', '%s %s' % (p.exc, p.value.eargs))
            continue
        good += 1
        Y, X = [p.thing(x) for x in p.value]
        u.check('two matrices', len(X.shape) == 2 and len(Y.shape) == 2)
        u.prove('vertices and corners correspond row by row', p, and_(eq(X.shape[0], Y.shape[0]), eq(Y.shape[1], n)))
        r, k, j = fresh('r', 'I'), fresh('k', 'I'), fresh('j', 'I')
        el = lambda a, b: p.el(X, a, b)
        for kd in KINDS:
            g, hints = rows.goal(kd, el, X.shape)
            u.prove(NAMES[kd], p, g, hints=hints)
        u.prove('every vertex is W1^T x of its corner x', p, eq(p.el(Y, r, k), tsum(j, ZERO, m, mul(el(r, j), W1_(j, k)))),
                extra=bounded_((r, X.shape[0]), (k, n)))
        rounds = [e[2] for e in p.state.events if e[0] == 'loop']
        u.prove('more rows are looked for until nzv(m, n) are found or maxcount rounds have been made', p,
                or_(le(nz, X.shape[0]), *[le(sub(mc, ONE), t) for t in rounds]))
        u.unchanged(p)
    u.check('some path succeeds', good)
    if ip.inv_failures:
        u.notes.append(ip.inv_failures[:5])
