"""Designs of experiments (P22)."""
from engine.run import unit
from contracts.common import *      # noqa: F401,F403
from engine.prover import collect_apps

DN = 'utils.designs'


@unit('P22', 'interval_design', [DN + '.interval_design', MISC + '.atleast_2d_col'])
def interval(u):
    u.start()
    a, b, N = u.real('a'), u.real('b'), u.int('N', 1)
    u.assume(lt(a, b))
    for p in u.call(DN, 'interval_design', a, b, N):
        if p.kind != 'ok':
            u.fail('returns normally', p.exc)
            continue
        spec = lambda i: add(a, div(mul(sub(b, a), add(real(i), RONE)), add(real(N), RONE)))
        u.all_eq('N interior equispaced points', p, p.value, (N, ONE), lambda i, j: spec(i))
        i = fresh('i', 'I')
        x = p.el(p.value, i, ZERO)
        u.prove('inside the interval', p, and_(lt(a, x), lt(x, b)), extra=bounded_((i, N)))


@unit('P22', 'gauss_hermite_design', [DN + '.gauss_hermite_design'])
def ghd(u):
    u.start(stubs={})
    n, R = u.int('n', 1), u.int('R', 1)
    u.ip.stubs[('utils.quadrature', 'gauss_hermite')] = lambda ip, N: (ip.st.ghost.setdefault('gh', []).append(N),
        (ip.mk((R, n), 'f', lambda i: app('x', (i[0], i[1]), 'R')), ip.mk((R, ONE), 'f', lambda i: app('w', (i[0],), 'R'))))[1]
    NN = u.arr('NN', (n,), 'i')
    for p in u.call(DN, 'gauss_hermite_design', NN):
        u.check('the rule of the given counts', p.kind == 'ok' and p.state.ghost.get('gh') == [NN], p.exc)
        u.all_eq('the tensor quadrature nodes', p, p.value, (R, n), lambda i, j: app('x', (i, j), 'R'))


def data(u):
    N, n, nv = u.int('N', 1), u.int('n', 1), u.int('nv', 1)
    y = u.arr('y', (mul(N, n),))
    vert = u.arr('v', (nv, n))
    Y = lambda i, k: app('y', (add(mul(i, n), k),), 'R')
    V = lambda i, k: app('v', (i, k), 'R')
    k = fresh('k', 'I')
    d0 = lambda i, j: tsum(k, ZERO, n, power(sub(Y(i, k), Y(j, k)), num(2)))
    d1 = lambda i, j: tsum(k, ZERO, n, power(sub(Y(i, k), V(j, k)), num(2)))
    big = num(10 ** 10, 'R')
    i, j = fresh('i', 'I'), fresh('j', 'I')
    u.assume(tall(i, ZERO, N, tall(j, ZERO, nv, lt(d1(i, j), big))))
    return N, n, nv, y, vert, Y, V, d0, d1


@unit('P22', 'maximin objective', [DN + '._maximin_design_obj'])
def obj(u):
    u.assumption('distances to the vertices are below 1e5 (the constant the code puts on the diagonal)')
    u.start()
    N, n, nv, y, vert, Y, V, d0, d1 = data(u)
    for p in u.call(DN, '_maximin_design_obj', y, vert):
        if p.kind != 'ok':
            u.fail('returns normally', '%s %s' % (p.exc, p.value.eargs))
            continue
        i, j = fresh('i', 'I'), fresh('j', 'I')
        v = p.ctx().canon_real(neg(term(p.value)))
        mins = extrema(u, p, v, N, nv)
        # name the minima; q is the minimum on the scale of squared distances
        tables = (('among design points', N, d0, [not_(eq(i, j))]), ('to a vertex', nv, d1, []))
        names = {a: fresh('min', 'R') for t in tables for a in mins[t[0]]}
        vg = replace_app(v, 'amin', lambda a: names[p.ctx().canon(app('amin', a, 'R'))])
        inf = [lt(num(10 ** 10, 'R'), var('NONFINITE_inf', 'R'))]       # infinity exceeds every number
        x, y_ = fresh('x', 'R'), fresh('y', 'R')
        keeps = lambda x, y: implies(and_(le(RZERO, x), le(x, y)), le(power(x, num(2)), power(y, num(2))))
        u.prove('lemma: squaring keeps the order', p, keeps(x, y_))
        q, ge, sqd = {}, [], {}
        for nm, C, d, off in tables:
            rng = bounded_((i, N), (j, C))
            u.prove('squared distances are nonnegative', p, le(RZERO, d(i, j)))
            for a in mins[nm]:
                L = a.a[1][0]
                c = p.ctx(*(rng + off))
                e = c.canon_real(entry(L, i, j, C))
                rooted = u.holds(p, eq(power(e, num(2)), d(i, j)), extra=rng + off) and not u.holds(p, eq(e, d(i, j)), extra=rng + off)
                sq = (lambda t: power(t, num(2))) if rooted else (lambda t: t)
                sqd[a] = sq
                q[a] = sq(names[a])
                u.prove('the minimum %s runs over the distances' % nm, p, eq(sq(e), d(i, j)), extra=rng + off)
                u.prove('the entries are nonnegative', p, le(RZERO, e), extra=rng + off + [le(RZERO, d(i, j))])
                # every position of the table is a pair
                if len(L.a[1]) == 1:
                    w = fresh('w', 'I')
                    u.prove('%s: a pair' % nm, p, and_(le(ZERO, fdiv(w, C)), lt(fdiv(w, C), N), le(ZERO, mod(w, C)), lt(mod(w, C), C),
                                                       eq(w, add(mul(fdiv(w, C), C), mod(w, C)))), extra=bounded_((w, L.a[1][0])))
                else:
                    u.prove('%s: a pair' % nm, p, and_(eq(L.a[1][0], N), eq(L.a[1][1], C)))
                if off:
                    far = c.canon_real(entry(L, i, i, N))
                    u.prove('%s: the diagonal is out of reach' % nm, p, le(num(10 ** 10, 'R'), sq(far)), extra=bounded_((i, N)) + inf + [
                        keeps(num(10 ** 5, 'R'), far)] * rooted)
                    u.prove('%s: the diagonal is nonnegative' % nm, p, le(RZERO, far), extra=bounded_((i, N)) + inf)
                ge.append(le(RZERO, names[a]))          # a minimum is attained, and the entries are nonnegative
                u.prove('at most every squared distance ' + nm, p, le(q[a], d(i, j)),
                        extra=rng + off + [le(names[a], e), le(RZERO, names[a]), keeps(names[a], e), eq(sq(e), d(i, j))])
        for nm, C, d, off in tables:
            for a in mins[nm]:
                u.prove('the value is at most each minimum', p, le(vg, q[a]), extra=ge)
        u.prove('the value is one of the minima', p, or_(*[eq(vg, q[a]) for a in names]), extra=ge)
        # ... and each minimum is the squared distance of a pair, when it is the value
        for nm, C, d, off in tables:
            for a in mins[nm]:
                e, D = fresh('e', 'R'), fresh('D', 'R')                     # an entry and the squared distance of its pair, as proved above
                u.prove('%s: the value is the squared distance of that pair' % nm, p, eq(vg, D), extra=[eq(names[a], e), eq(vg, q[a]), eq(sqd[a](e), D)])
                if off:
                    far, near = fresh('far', 'R'), fresh('near', 'R')       # diagonal entry, squared distance to the first vertex (below 1e10 by assumption)
                    u.prove('%s: not a point with itself' % nm, p, FALSE, extra=[eq(vg, sqd[a](far)), le(num(10 ** 10, 'R'), sqd[a](far)), lt(near, num(10 ** 10, 'R'))] + [
                        le(vg, near)])
        u.unchanged(p)
        u.den('defined', p)


def extrema(u, p, v, N, nv):
    """the minima the value is made of, by the table of distances they run over"""
    c = p.ctx()
    apps = []
    collect_apps(c.canon_real(v), ('amin',), apps, set())
    out = {'among design points': [], 'to a vertex': []}
    for a in apps:
        L = a.a[1][0]
        tot = ONE
        for d in L.a[1]:
            tot = mul(tot, d)
        last = L.a[1][-1]
        if last is N or c.canon(tot) is c.canon(mul(N, N)):
            out['among design points'].append(a)
        elif last is nv or c.canon(tot) is c.canon(mul(N, nv)):
            out['to a vertex'].append(a)
        else:
            u.expect(False, 'a minimum over %s' % show(tot))
    u.expect(all(out.values()), 'minima over both tables of distances')
    return out


def entry(L, i, j, C):
    return axioms.at_lam(L, [add(mul(i, C), j)] if len(L.a[1]) == 1 else [i, j])


def lower(a, i, j, C):
    L = a.a[1][0]
    idx = [add(mul(i, C), j)] if len(L.a[1]) == 1 else [i, j]
    return implies(and_(*[and_(le(ZERO, x), lt(x, d)) for x, d in zip(idx, L.a[1])]), le(a, axioms.at_lam(L, idx)))


def attained(a):
    L = a.a[1][0]
    w = [app('wit_amin', (L, num(k)), 'I') for k in range(len(L.a[1]))]
    return and_(*[and_(le(ZERO, x), lt(x, d)) for x, d in zip(w, L.a[1])] + [eq(a, axioms.at_lam(L, w))]), w


@unit('P22', 'maximin gradient', [DN + '._maximin_design_grad'])
def grad(u):
    u.assumption('distances to the vertices are below 1e5 (the constant the code puts on the diagonal)')
    u.start(stubs={})
    N, n, nv, y, vert, Y, V, d0, d1 = data(u)
    cases = 0
    for p in u.call(DN, '_maximin_design_grad', y, vert):
        if p.kind != 'ok':
            u.fail('returns normally', '%s %s' % (p.exc, p.value.eargs))
            continue
        g = p.thing(p.value)
        u.check('a vector', isinstance(g, Arr) and len(g.shape) == 1)
        u.prove('N*n entries', p, eq(g.shape[0], mul(N, n)))
        a, k = fresh('a', 'I'), fresh('k', 'I')
        rg = bounded_((a, N), (k, n))
        c = p.ctx()
        el = p.el(g, add(mul(a, n), k))
        apps = []
        collect_apps(el, ('argmin',), apps, set())
        w = fresh('w', 'I')
        pos = {x: c.canon(x) for x in dict.fromkeys(apps)}
        u.expect(len(set(pos.values())) == 1, 'the gradient of one closest pair (%d)' % len(pos))
        A = list(pos.values())[0]

        def name(t):
            return replace_app(t, 'argmin', lambda args: w if pos.setdefault(app('argmin', args, 'I'), c.canon(app('argmin', args, 'I'))) is A
                               else app('argmin', args, 'I'))
        el = name(el)
        L = A.a[1][0]
        u.expect(len(L.a[1]) == 1, 'a flattened table')
        tot = c.canon(L.a[1][0])
        mins = {'among design points': [], 'to a vertex': []}
        ap = []
        for f in p.state.pc:
            collect_apps(c.canon(f), ('amin',), ap, set())
        for b in dict.fromkeys(ap):
            t2 = ONE
            for d in b.a[1][0].a[1]:
                t2 = mul(t2, d)
            for nm, C in (('among design points', N), ('to a vertex', nv)):
                if c.canon(t2) is c.canon(mul(N, C)):
                    mins[nm].append(b)
        u.expect(all(mins.values()), 'the choice compares both minima')
        kind = 'design' if tot is c.canon(mul(N, N)) else 'vertex' if tot is c.canon(mul(N, nv)) else None
        u.expect(kind, 'a table of distances')
        C, d = (N, d0) if kind == 'design' else (nv, d1)
        I, J = fdiv(A, C), mod(A, C)
        own = mins['among design points' if kind == 'design' else 'to a vertex']
        i, j = fresh('i', 'I'), fresh('j', 'I')
        u.prove(kind + ': a pair', p, and_(le(ZERO, I), lt(I, N), le(ZERO, J), lt(J, C)))
        # the position belongs to the smallest entry of the table the minimum is taken over
        for b in own:
            Lb = c.canon(b.a[1][0])
            if Lb is not c.canon(L):
                idx = [A] if len(Lb.a[1]) == 1 else [I, J]
                z = fresh('z', 'I')
                zi = [z] if len(Lb.a[1]) == 1 else [fdiv(z, C), mod(z, C)]
                u.prove(kind + ': position and minimum of the same table', p, eq(axioms.at_lam(L, [z]), axioms.at_lam(Lb, zi)), extra=bounded_((z, mul(N, C))))
        m_ = {b: fresh('min', 'R') for v in mins.values() for b in v}
        gen = lambda t: name(replace_app(c.canon(t), 'amin', lambda args: m_.get(app('amin', args, 'R'), app('amin', args, 'R'))))
        facts = [le(ZERO, w), lt(w, mul(N, C)), le(ZERO, fdiv(w, C)), lt(fdiv(w, C), N), le(ZERO, mod(w, C)), lt(mod(w, C), C)]
        wI, wJ = fdiv(w, C), mod(w, C)
        cond = [gen(f) for f in p.state.pc if any(contains(c.canon(f), lambda t, b=b: t is b) for b in m_)]
        # the entries of the tables are distances or squared distances; the diagonal is out of reach
        x, y_ = fresh('x', 'R'), fresh('y', 'R')
        keeps = lambda x, y: implies(and_(le(RZERO, x), le(x, y)), le(power(x, num(2)), power(y, num(2))))
        c0 = u.ip.base
        u.prove('lemma: squaring keeps the order', c0, keeps(x, y_))
        inf = [lt(num(10 ** 10, 'R'), var('NONFINITE_inf', 'R'))]       # infinity exceeds every number
        sqd = {}
        for nm, C2, dd, off in (('among design points', N, d0, [not_(eq(i, j))]), ('to a vertex', nv, d1, [])):
            rng = bounded_((i, N), (j, C2)) + off
            u.prove('squared distances are nonnegative', c0, le(RZERO, dd(i, j)))
            for b in mins[nm]:
                e = c0.child(rng).canon_real(entry(b.a[1][0], i, j, C2))
                rooted = u.holds(c0, eq(power(e, num(2)), dd(i, j)), extra=rng) and not u.holds(c0, eq(e, dd(i, j)), extra=rng)
                sqd[b] = sq = (lambda t: power(t, num(2))) if rooted else (lambda t: t)
                u.prove('%s: entries %s are distances' % (kind, nm), c0, eq(sq(e), dd(i, j)), extra=rng)
                u.prove('%s: entries %s are nonnegative' % (kind, nm), c0, le(RZERO, e), extra=rng + [le(RZERO, dd(i, j))])
                if off:
                    far = c0.child(rng).canon_real(entry(b.a[1][0], i, i, N))
                    u.prove(kind + ': the diagonal is out of reach', c0, and_(le(RZERO, far), le(num(10 ** 10, 'R'), sq(far))), extra=bounded_((i, N)) + inf + [
                        keeps(num(10 ** 5, 'R'), far)] * rooted)
        pos_ = [le(RZERO, v) for v in m_.values()]      # a minimum is attained, and the entries are nonnegative
        ex, D, near = fresh('e', 'R'), fresh('D', 'R'), fresh('near', 'R')
        below = [le(m_[b], ex) for b in mins['to a vertex']] + [eq(sqd[b](ex), near) for b in mins['to a vertex']] + [le(RZERO, ex), lt(near, num(10 ** 10, 'R'))]
        if kind == 'design':
            u.prove('not a point with itself', c0, FALSE, extra=cond + pos_ + below + [le(num(10 ** 10, 'R'), sqd[b](m_[b])) for b in own])
            facts.append(not_(eq(wI, wJ)))
        dw = fresh('dw', 'R')
        for nm in mins:
            for b in mins[nm]:
                u.prove(kind + ': no pair %s is closer' % nm, c0, le(dw, D), extra=cond + pos_ + [eq(sqd[o](m_[o]), dw) for o in own] + [
                    le(m_[b], ex), le(RZERO, ex), eq(sqd[b](ex), D)])
        dk = sub(Y(wI, k), Y(wJ, k) if kind == 'design' else V(wJ, k))
        one = lambda t: ite(eq(a, t), RONE, RZERO)
        sel = sub(one(wI), one(wJ)) if kind == 'design' else one(wI)
        u.prove(kind + ': derivative of minus the squared distance of the pair', p, eq(el, neg(mul(num(2, 'R'), sel, dk))),
                extra=facts + rg, hints=[eq(mul(sub(a, wI), n), sub(mul(a, n), mul(wI, n)))])
        u.unchanged(p)
        cases += 1
    u.check('both kinds of closest pair occur', cases >= 2)


@unit('P22', 'maximin_design', [DN + '.maximin_design'])
def maxi(u):
    u.assumption('scipy.spatial.ConvexHull: the polytope is the set where every facet inequality equations[:, :n] x + equations[:, n] <= 0 holds')
    u.assumption('scipy.optimize.minimize: res.fun is the objective at res.x; with success and SLSQP the constraints hold at res.x (to solver tolerance); '
                 'objective values are below 1e10')
    u.start(stubs={})
    ip = u.ip
    N, n, nv = u.int('N', 1), u.int('n', 1), u.int('nv', 1)
    vert = u.arr('v', (nv, n))
    size = mul(N, n)
    notes = []

    def vec(ip_, y):
        f = ip_.frozen(ip_.resolve(y))
        if len(f.shape) != 1:
            raise Unsupported('shape of the argument of the objective')
        z = fresh('l', 'I')
        return ip_.ctx().canon(lam([z], [f.shape[0]], ip_.at(f, [z])))

    def same_vert(ip_, vv):
        f = ip_.frozen(ip_.resolve(vv))
        i, j = fresh('i', 'I'), fresh('j', 'I')
        u.prove('the vertices are handed to the objective', ip_.ctx().child(bounded_((i, nv), (j, n))),
                and_(eq(f.shape[0], nv), eq(f.shape[1], n), eq(ip_.at(f, [i, j]), app('v', (i, j), 'R'))))

    def objective(ip_, y, vert=None):
        same_vert(ip_, vert)
        return app('obj', (vec(ip_, y),), 'R')

    def gradient(ip_, y, vert=None):
        same_vert(ip_, vert)
        a = vec(ip_, y)
        return ip_.mk((size,), 'f', lambda i: app('dobj', (a, i[0]), 'R'))
    ip.stubs[(DN, '_maximin_design_obj')] = objective
    ip.stubs[(DN, '_maximin_design_grad')] = gradient
    X = lambda i: app('x', (i,), 'R')

    def hook(ip_, rid, info, x, fun, ok):
        xs = ip_.mk((size,), 'f', lambda i: X(i[0]))
        args = info['args']
        args = tuple(args) if isinstance(args, (tuple, list)) else (args,)
        args = tuple(ip_.thaw(a) if isinstance(a, Frozen) else a for a in args)
        cx = lambda *e: ip_.ctx().child(e)
        u.check('SLSQP', info['method'] in ('SLSQP', 'COBYLA', 'trust-constr'), info['method'])
        u.prove('start of N*n entries', cx(), eq(info['x0'].shape[0], size))
        v = term(ip_.resolve(ip_.call(info['fun'], [xs] + list(args), {})))
        me = app('obj', (vec(ip_, xs),), 'R')
        u.prove('the objective is the maximin objective', cx(), eq(v, me))
        if info['jac'] is not None:
            g = ip_.resolve(ip_.call(info['jac'], [xs] + list(args), {}))
            j = fresh('j', 'I')
            u.check('gradient is a vector', len(g.shape) == 1)
            u.prove('the gradient is that of the objective', cx(*bounded_((j, size))), eq(ip_.at(g, [j]), app('dobj', (vec(ip_, xs), j), 'R')))
        ip_.assume(eq(fun, app('obj', (vec(ip_, x),), 'R')), lt(fun, num(10 ** 10, 'R')))
        cs = info['constraints']
        cs = cs if isinstance(cs, (tuple, list)) else (cs,)
        cs = [ip_.st.dicts[c.a[0]] if isinstance(c, Opaque) else c for c in cs]
        u.expect(len(cs) == 1 and isinstance(cs[0], dict) and cs[0].get('type') == 'ineq', 'one family of inequality constraints')
        con = ip_.resolve(ip_.call(cs[0]['fun'], [xs], {}))
        hulls = [e for e in ip_.st.events if e[0] == 'hull']
        u.expect(len(hulls) == 1 and len(con.shape) == 1, 'the hull of the vertices, a vector of constraints')
        h = hulls[0]
        f, ns_ = h[2], h[4]
        i, j, q, k, c = [fresh(z, 'I') for z in 'ijqkc']
        u.prove('hull of the given vertices', cx(*bounded_((i, nv), (j, n))),
                and_(eq(f.shape[0], nv), eq(f.shape[1], n), eq(ip_.at(f, [i, j]), app('v', (i, j), 'R'))))
        E = lambda q_, k_: app(h[1] + '_eq', h[5] + (q_, k_), 'R')
        row = neg(add(tsum(k, ZERO, n, mul(E(q, k), X(add(mul(i, n), k)))), E(q, n)))
        u.prove('one constraint per point and facet', cx(), eq(con.shape[0], mul(N, ns_)))
        rg = bounded_((i, N), (q, ns_))
        layouts = [lambda i_, q_: add(mul(i_, ns_), q_), lambda i_, q_: add(mul(q_, N), i_)]
        c0 = cx(*rg)
        at = [L for L in layouts if c0.prove(eq(ip_.at(con, [L(i, q)]), row), 0, ())[0]] or layouts[:1]
        L = at[0]
        u.prove('the constraint keeps each point on the inner side of each facet', c0, eq(ip_.at(con, [L(i, q)]), row))
        if cs[0].get('jac') is not None:
            J = ip_.resolve(ip_.call(cs[0]['jac'], [xs], {}))
            u.prove('Jacobian of the constraints', cx(*(rg + bounded_((j, N), (k, n)))),
                    eq(ip_.at(J, [L(i, q), add(mul(j, n), k)]), ite(eq(i, j), neg(E(q, k)), RZERO)))
        notes.append(rid)
    ip.hooks['minimize'] = hook
    good = 0
    for p in u.call(DN, 'maximin_design', vert, N):
        ev = p.events('minimize')
        u.expect(all(not e[6] for e in ev) and not families(p.state.events, ('loop',)), 'restarts are a fixed number')
        if p.kind != 'ok':
            u.prove('raises only when a local solve failed', p, not_(and_(*[e[5] for e in ev])))
            continue
        good += 1
        u.check('there are restarts', len(ev) >= 1)
        for i, e in enumerate(ev):
            u.prove('restart %d succeeded' % i, p, e[5])
        a, k = fresh('a', 'I'), fresh('k', 'I')
        D = p.thing(p.value)
        u.check('a matrix', isinstance(D, Arr) and len(D.shape) == 2)
        u.prove('N points of dimension n', p, and_(eq(D.shape[0], N), eq(D.shape[1], n)))
        rg = bounded_((a, N), (k, n))
        best = [and_(eq(p.el(D, a, k), p.el(e[3], add(mul(a, n), k))), *[le(e[4], o[4]) for o in ev]) for e in ev]
        u.prove('the design is the best restart', p, or_(*best), extra=rg)
        u.check('generator state restored', p.state.rng == ('rng0',), p.state.rng)
        u.unchanged(p)
    u.check('returns for some outcome of the solver', good >= 1)
