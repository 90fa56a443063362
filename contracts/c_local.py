"""Local linear gradients (P07)."""
from engine.run import unit
from contracts.common import *      # noqa: F401,F403
from engine.prover import collect_apps

FN = [GR + '.local_linear_gradients', MISC + '.process_inputs']
X_ = lambda i, j: app('X', (i, j), 'R')


def setting(u):
    ip = u.ip
    M, m = u.int('M', 1), u.int('m', 2)
    u.assume(lt(RZERO, fn('log', real(m))))       # m >= 2
    X = u.arr('X', (M, m))
    return ip, M, m, X


def positive_weights(u, M):
    w = u.arr('w', (M, ONE))
    k = fresh('k', 'I')
    u.assume(tall(k, ZERO, M, lt(RZERO, app('w', (k, ZERO), 'R'))))
    return w


def neighbours(u, p):
    """a neighbour count: the default or any number"""
    return None if p == 'default' else u.int('p')


def out_(ip, y, i):
    return ip.at(ip.frozen(y), [i] + [ZERO] * (len(y.shape) - 1))


def layers(t):
    """t = argsort(L, sel(M, ... r)): the orderings and selections from the outside in, and the innermost position"""
    out = []
    while t.k == 'app' and t.a[0] in ('argsort', 'sel') and len(t.a[1]) == 2:
        out.append((t.a[0], t.a[1][0]))
        t = t.a[1][1]
    return out, t


def centre(u, ip, M):
    """the sample drawn in this round of the loop"""
    lv = tuple(ip.loopvars)
    d = [e for e in ip.st.events if e[0] == 'draw' and e[1] == 'randint' and e[5] == lv]
    u.expect(len(d) == 1 and len(lv) == 1, 'one sample drawn per gradient')
    lo, hi = d[0][4]
    u.prove('the sample is drawn from all samples', ip.ctx(), and_(eq(term(lo), ZERO), eq(term(hi), M)))
    return app(d[0][2], lv, 'I')


def fit(which, affine):
    def f(u):
        u.trusted('argsort', 'sel', 'count', 'lstsq')
        u.start()
        ip, M, m, X = setting(u)
        w = None if which == 'unweighted' else positive_weights(u, M)
        p = neighbours(u, 'default' if which == 'default count' else 'given')
        P = term(p) if p is not None else fn('floor', mul(num(Fr(17, 10), 'R'), real(m)))
        u.assume(le(add(m, ONE), P), lt(P, M))
        k, i, j, r, s, q, t = [fresh(c, 'I') for c in 'kijrsqt']
        if affine:
            fi = lambda i: add(app('c0', (), 'R'), tsum(q, ZERO, m, mul(app('b', (q,), 'R'), X_(i, q))))
            f_ = ip.mk((M, ONE), 'f', lambda i: fi(i[0]))
        else:
            fi = lambda i: app('f', (i, ZERO), 'R')
            f_ = u.arr('f', (M, ONE))
        if affine:
            u.assumption('general position: a sample and its neighbours are affinely independent enough, so consistent data have only one fit')
        calls = []

        def lstsq(ip_, A, y):
            calls.append(1)
            c = ip_.ctx()
            K = A.shape[0]
            el = lambda r, j: ip_.at(ip_.frozen(A), [r, j])
            u.prove('a column per coefficient, an output per row', c, and_(eq(A.shape[1], add(m, ONE)), eq(y.shape[0], K)))
            cr = c.child(bounded_((r, K), (j, m)))
            # the sample of row r, as the code names it
            apps = []
            collect_apps(cr.canon(el(r, add(j, ONE))), ('X',), apps, set())
            Is = {a.a[1][0] for a in apps if j in fv(a)}
            u.expect(len(Is) == 1, 'one sample in each row')
            I = Is.pop()
            at = lambda x: subst(I, {r: x})
            c0 = el(r, ZERO)
            u.prove('row r is a nonzero multiple of [1 x] of its sample', cr, and_(not_(eq(c0, RZERO)), eq(el(r, add(j, ONE)), mul(c0, X_(I, j)))))
            u.prove('its output is the output of the same sample', cr, eq(out_(ip_, y, r), mul(c0, fi(I))))
            u.prove('all rows count equally', cr, eq(c0, el(ZERO, ZERO)), extra=[lt(ZERO, K)])
            if affine:
                return ip_.mk((add(m, ONE),) + tuple(y.shape[1:]), 'f', lambda i: ite(eq(i[0], ZERO), app('c0', (), 'R'), app('b', (sub(i[0], ONE),), 'R')))
            u.prove('the rows are samples', cr, and_(le(ZERO, I), lt(I, M)))
            c_ = centre(u, ip_, M)
            u.prove('the chosen sample exists', c, and_(le(ZERO, c_), lt(c_, M)))
            D = lambda i: tsum(k, ZERO, m, power(sub(X_(i, k), X_(c_, k)), num(2)))
            u.prove('squared distances are nonnegative', cr, le(RZERO, D(j)))
            nonneg = lambda i: and_(le(RZERO, D(i)), implies(not_(eq(D(i), RZERO)), and_(lt(RZERO, fn('sqrt', D(i))), lt(RZERO, div(D(i), real(m))))))
            a, b = fresh('a', 'R'), fresh('b', 'R')
            less = lambda a, b: implies(le(fn('sqrt', a), fn('sqrt', b)), le(a, b))
            u.prove('lemma: the square root keeps the order', c, less(a, b), extra=[le(RZERO, a), le(RZERO, b)])
            scaled = lambda a, b: implies(le(div(a, real(m)), div(b, real(m))), le(a, b))
            u.prove('lemma: dividing by the dimension keeps the order', c, scaled(a, b))
            u.prove('lemma: the square root of a positive number is positive', c, lt(RZERO, fn('sqrt', a)), extra=[lt(RZERO, a)])
            u.prove('lemma: a positive number over the dimension is positive', c, lt(RZERO, div(a, real(m))), extra=[lt(RZERO, a)])
            u.prove('no row coincides with the chosen sample', cr, not_(eq(D(I), RZERO)), extra=[nonneg(I)])
            ls, inner = layers(I)
            # positions: row r is position r of an ordering of the candidates
            u.prove('rows follow the ordering', cr, eq(inner, r))
            full, n = M, M
            free = subst(I, {r: t})         # the candidate at position t
            for depth, (kind, L) in enumerate(ls):
                dims = L.a[1]
                u.prove('layer %d ranges over all candidates' % depth, c, eq(dims[0], n))
                if kind == 'sel':
                    z = fresh('z', 'I')
                    here = z
                    for kk, LL in reversed(ls[:depth]):
                        here = app(kk, (LL, here), 'I')
                    mk = axioms.at_lam(L, [z])
                    mk = mk if mk.s == 'B' else eq(mk, ONE)
                    cz = c.child(bounded_((z, n)))
                    u.prove('every sample apart from the chosen one and its duplicates is a candidate', cz, implies(not_(eq(D(here), RZERO)), mk), extra=[nonneg(here)])
                    n = app('count', (L,), 'I')
            sel = [L for kind, L in ls if kind == 'sel']
            u.prove('p rows, or all candidates when there are fewer', c, and_(le(K, P), le(K, n), or_(eq(K, P), eq(K, n))))
            # distances grow along the candidates
            orders = [d for d, (kind, L) in enumerate(ls) if kind == 'argsort']
            u.check('the candidates are ordered', len(orders) == 1, '%d orderings' % len(orders))
            if len(orders) != 1:
                return
            d0 = orders[0]
            mono = []
            L = ls[d0][1]
            pos = {x: subst(I, {r: x}) for x in (s, t)}
            # position of the ordering reached by row s and t (strictly increasing through selections, by their contract)
            def reach(x):
                y = x
                for kk, LL in reversed(ls[d0 + 1:]):
                    y = app(kk, (LL, y), 'I')
                return y
            hyp = [le(ZERO, s), lt(s, K), le(K, t), lt(t, n)]
            if ls[d0 + 1:]:
                u.assumption('boolean selection keeps the order of positions')
                mono = [lt(reach(s), reach(t))]
            u.prove('distances: positions in range', c, and_(le(ZERO, reach(s)), lt(reach(t), L.a[1][0])), extra=hyp + mono)
            v1, v2 = axioms.at_lam(L, [app('argsort', (L, reach(s)), 'I')]), axioms.at_lam(L, [app('argsort', (L, reach(t)), 'I')])
            sorted_ = implies(and_(le(ZERO, reach(s)), le(reach(s), reach(t)), lt(reach(t), L.a[1][0])), le(v1, v2))      # contract of argsort
            u.prove('no candidate left out is nearer than a row', c, le(D(pos[s]), D(pos[t])), extra=hyp + mono + [sorted_, less(D(pos[s]), D(pos[t])), scaled(D(pos[s]), D(pos[t]))])
            lv = tuple(ip_.loopvars)
            return ip_.mk((add(m, ONE),) + tuple(y.shape[1:]), 'f', lambda i: app('fit', lv + (i[0],), 'R'))
        ip.hooks['lstsq'] = lstsq
        args = [X, f_] + ([] if p is None and w is None else [p]) + ([] if w is None else [w])
        R = fn('min2', fn('ceil', mul(num(10), real(m), fn('log', real(m)))), sub(M, ONE))
        ok = 0
        for path in u.call(GR, 'local_linear_gradients', *args):
            if path.kind != 'ok':
                u.fail('returns normally', '%s %s' % (path.exc, path.value.eargs))
                continue
            ok += 1
            u.all_eq('row i holds the slopes of fit i', path, path.value, (R, m), (lambda i, j: app('b', (j,), 'R')) if affine else
                     (lambda i, j: app('fit', (i, add(j, ONE)), 'R')))
            u.unchanged(path)
        u.check('returns', ok > 0)
        u.check('least squares is used', bool(calls))
    return f


for which_ in ('weighted', 'unweighted', 'default count'):
    unit('P07', 'nearest neighbours, ' + which_, FN)(fit(which_, False))
    unit('P07', 'affine data, ' + which_, FN)(fit(which_, True))


@unit('P07', 'refusals', FN)
def refusals(u):
    """the number of samples and the neighbour count"""
    for what in ('below m+1', 'above M', 'no integer', 'a string', 'too few samples', 'too few samples, count given'):
        u.start()
        ip, M, m, X = setting(u)
        f = u.arr('f', (M, ONE))
        w = positive_weights(u, M)
        p = u.int('p')
        if what == 'below m+1':
            u.assume(le(p, m))
        elif what == 'above M':
            u.assume(lt(M, p))
        elif what == 'no integer':
            p = u.real('p')
        elif what == 'a string':
            p = '5'
        else:
            u.assume(le(M, m))
            if what == 'too few samples':
                p = None
        for args in ([X, f, p, w], [X, f, p]):
            n = 0
            for path in u.call(GR, 'local_linear_gradients', *args):
                n += 1
                u.check('%s is refused' % what, path.kind == 'exc', path.kind)
                u.check('%s: nothing is fitted' % what, not families(path.state.events, ('lstsq',)))
            u.check('%s: the call ends' % what, n > 0)
