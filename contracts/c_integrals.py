"""Integrals and quadrature on the active variables (P12, P14)."""
from engine.run import unit
from contracts.common import *      # noqa: F401,F403
from engine.npm import toarr

INT = 'integrals'


@unit('P12', 'conditional_expectations', [MISC + '.conditional_expectations'])
def cond(u):
    u.trusted('amax')
    u.start()
    ip = u.ip
    M = u.int('M', 1)
    f = u.arr('f', (M, ONE))
    K = lambda i: app('K', (i,), 'I')
    ind = ip.mk((M, ONE), 'f', lambda i: app('float', (K(i[0]),), 'R'))
    q = fresh('q', 'I')
    u.assume(tall(q, ZERO, M, le(ZERO, K(q))))
    for p in u.call(MISC, 'conditional_expectations', f, ind):
        if p.kind != 'ok':
            u.fail('returns normally', p.exc)
            continue
        E, V = p.value
        E, V = p.thing(E), p.thing(V)
        n = E.shape[0]
        i, k = fresh('i', 'I'), fresh('k', 'I')
        u.check('columns', len(E.shape) == len(V.shape) == 2)
        u.prove('one row per index value', p, and_(eq(V.shape[0], n), eq(E.shape[1], ONE), eq(V.shape[1], ONE)))
        u.prove('index values are below the number of rows', p, lt(K(i), n), extra=bounded_((i, M)))
        u.prove('the largest index value is the number of rows - 1', p, not_(tall(i, ZERO, M, not_(eq(K(i), sub(n, ONE))))))
        F = lambda i: app('f', (i, ZERO), 'R')
        hit = lambda i, x: ite(eq(K(i), k), x, RZERO)
        cnt = tsum(i, ZERO, M, hit(i, RONE))
        mean = div(tsum(i, ZERO, M, hit(i, F(i))), cnt)
        rng = bounded_((k, n))
        u.prove('conditional mean', p, eq(p.el(E, k, ZERO), mean), extra=rng)
        j = fresh('j', 'I')
        u.prove('conditional population variance', p, eq(p.el(V, k, ZERO), div(tsum(j, ZERO, M, hit(j, power(sub(F(j), mean), num(2)))), cnt)), extra=rng)
        u.unchanged(p)


def avmap_of(u, kind, m, n, domattrs=None):
    s, W, W1, W2 = orthonormal(u, m, n)
    d = dict(subspaces=s, m=m, n=n)
    d.update(domattrs or {})
    dom = u.obj(DOM, kind + 'ActiveVariableDomain', **d)
    return u.obj(DOM, kind + 'ActiveVariableMap', domain=dom), dom


def runner_stub(u, M, name='F'):
    """SimulationRunner.run under its contract (P21): one value per row, in order"""
    def run(ip, self, X):
        ip.st.ghost.setdefault('run', []).append((self, ip.frozen(X)))
        r = X.shape[0]
        return ip.mk((r, ONE), 'f', lambda i: app(name, (i[0],), 'R'))
    return run


@unit('P12', 'integrate', [INT + '.integrate', MISC + '.conditional_expectations'])
def integrate(u):
    for how in ('function', 'runner'):
        u.start(stubs={})
        ip = u.ip
        NQ, NMC, m, n, N = u.int('NQ', 1), u.int('NMC', 1), u.int('m', 1), u.int('n', 1), u.int('N', 1)
        u.assume(le(n, m))
        T_ = mul(NQ, NMC)
        mp, dom = avmap_of(u, 'Unbounded', m, n)
        w = lambda k: app('w', (k,), 'R')

        def rule(ip_, avmap, N_, NMC_):
            ip_.st.ghost.setdefault('rule', []).append((avmap, N_, NMC_))
            return (ip_.mk((T_, m), 'f', lambda i: app('Xp', (i[0], i[1]), 'R')),
                    ip_.mk((T_, ONE), 'f', lambda i: div(w(fdiv(i[0], NMC)), real(NMC))),
                    ip_.mk((T_, ONE), 'f', lambda i: app('float', (fdiv(i[0], NMC),), 'R')))
        ip.stubs[(INT, 'quadrature_rule')] = rule
        ip.stubs[('utils.simrunners', '.run')] = runner_stub(u, T_)
        f = u.fun('fun')
        fun = f if how == 'function' else u.obj('utils.simrunners', 'SimulationRunner', fun=f)
        for p in u.call(INT, 'integrate', fun, mp, N, NMC):
            if p.kind != 'ok':
                u.fail('returns normally', p.exc)
                continue
            g = p.state.ghost
            u.check('one quadrature rule, for this map, N and NMC', len(g.get('rule', [])) == 1 and g['rule'][0][0] is mp and
                    term(g['rule'][0][1]) is N and term(g['rule'][0][2]) is NMC, g.get('rule'))
            u.check('one run of the function', len(g.get('run', [])) == 1)
            s_, x = g['run'][0]
            u.check('the given function is run', p.state.objs[s_.oid].get('fun') is f)
            u.all_eq('at the points of the rule', p, x, (T_, m), lambda i, j: app('Xp', (i, j), 'R'))
            u.check('three numbers', isinstance(p.value, tuple) and len(p.value) == 3)
            mu, lb, ub = [term(x) for x in p.value]
            k, t, t2 = fresh('k', 'I'), fresh('t', 'I'), fresh('t', 'I')
            F = lambda kk, tt: app('F', (add(mul(kk, NMC), tt),), 'R')
            mean = lambda kk: div(tsum(t, ZERO, NMC, F(kk, t)), real(NMC))
            var_ = lambda kk: div(tsum(t2, ZERO, NMC, power(sub(F(kk, t2), mean(kk)), num(2))), real(NMC))
            est = tsum(k, ZERO, NQ, mul(w(k), mean(k)))
            sig = div(tsum(k, ZERO, NQ, mul(power(w(k), num(2)), var_(k))), real(NMC))
            u.equal('estimate: sum of weight times conditional mean', p, mu, est)
            half = mul(num(Fr(196, 100), 'R'), fn('sqrt', sig))
            u.equal('lower bound', p, lb, sub(est, half))
            u.equal('upper bound', p, ub, add(est, half))
            u.den('defined', p)


@unit('P12', 'integrate: functions of the active variables', [INT + '.integrate', MISC + '.conditional_expectations'])
def integrate_av(u):
    u.start(stubs={})
    ip = u.ip
    NQ, NMC, m, n, N = u.int('NQ', 1), u.int('NMC', 1), u.int('m', 1), u.int('n', 1), u.int('N', 1)
    u.assume(le(n, m))
    T_ = mul(NQ, NMC)
    mp, dom = avmap_of(u, 'Bounded', m, n)
    w = lambda k: app('w', (k,), 'R')
    ip.stubs[(INT, 'quadrature_rule')] = lambda ip_, *a: (
        ip_.mk((T_, m), 'f', lambda i: app('Xp', (i[0], i[1]), 'R')),
        ip_.mk((T_, ONE), 'f', lambda i: div(w(fdiv(i[0], NMC)), real(NMC))),
        ip_.mk((T_, ONE), 'f', lambda i: app('float', (fdiv(i[0], NMC),), 'R')))

    def run(ip_, self, X):
        return ip_.mk((X.shape[0], ONE), 'f', lambda i: app('G', (fdiv(i[0], NMC),), 'R'))
    ip.stubs[('utils.simrunners', '.run')] = run
    for p in u.call(INT, 'integrate', u.fun('fun'), mp, N, NMC):
        if p.kind != 'ok':
            u.fail('returns normally', p.exc)
            continue
        k = fresh('k', 'I')
        mu, lb, ub = [term(x) for x in p.value]
        s = tsum(k, ZERO, NQ, mul(w(k), app('G', (k,), 'R')))
        u.equal('weight times value', p, mu, s)
        u.equal('no spread (lower)', p, lb, s)
        u.equal('no spread (upper)', p, ub, s)


@unit('P12', 'quadrature_rule', [INT + '.quadrature_rule'])
def qrule(u):
    u.start(stubs={})
    ip = u.ip
    NQ, NMC, m, n, N = u.int('NQ', 1), u.int('NMC', 1), u.int('m', 1), u.int('n', 1), u.int('N', 1)
    u.assume(le(n, m))
    T_ = mul(NQ, NMC)
    mp, dom = avmap_of(u, 'Unbounded', m, n)

    def av(ip_, avmap, N_):
        ip_.st.ghost.setdefault('av', []).append((avmap, N_))
        return (ip_.mk((NQ, n), 'f', lambda i: app('Y', (i[0], i[1]), 'R')), ip_.mk((NQ, ONE), 'f', lambda i: app('w', (i[0],), 'R')))

    def inv(ip_, self, Y, N_):
        ip_.st.ghost.setdefault('inv', []).append((self, ip_.frozen(Y), N_))
        return (ip_.mk((T_, m), 'f', lambda i: app('X', (i[0], i[1]), 'R')),
                ip_.mk((T_, ONE), 'f', lambda i: app('float', (fdiv(i[0], NMC),), 'R')))
    ip.stubs[(INT, 'av_quadrature_rule')] = av
    ip.stubs[(DOM, '.inverse')] = inv
    for p in u.call(INT, 'quadrature_rule', mp, N, NMC):
        if p.kind != 'ok':
            u.fail('returns normally', p.exc)
            continue
        g = p.state.ghost
        u.check('one active-variable rule for this map and N', len(g.get('av', [])) == 1 and g['av'][0][0] is mp and term(g['av'][0][1]) is N)
        u.check('one inverse map, NMC points per node', len(g.get('inv', [])) == 1 and g['inv'][0][0] is mp and term(g['inv'][0][2]) is NMC)
        u.all_eq('of the nodes', p, g['inv'][0][1], (NQ, n), lambda i, j: app('Y', (i, j), 'R'))
        Xp, Xw, ind = p.value
        u.all_eq('points', p, Xp, (T_, m), lambda i, j: app('X', (i, j), 'R'))
        u.all_eq('index', p, ind, (T_, ONE), lambda i, j: app('float', (fdiv(i, NMC),), 'R'))
        u.all_eq('weights: the weight of the own node / NMC', p, Xw, (T_, ONE), lambda i, j: div(app('w', (fdiv(i, NMC),), 'R'), real(NMC)))
        i, k = fresh('i', 'I'), fresh('k', 'I')
        u.equal('weights sum to the sum of the active-variable weights', p, tsum(i, ZERO, T_, p.el(Xw, i, ZERO)), tsum(k, ZERO, NQ, app('w', (k,), 'R')))


@unit('P12', 'av_integrate', [INT + '.av_integrate'])
def avint(u):
    for how in ('function', 'surface'):
        u.start(stubs={})
        ip = u.ip
        NQ, m, n, N = u.int('NQ', 1), u.int('m', 1), u.int('n', 1), u.int('N', 1)
        u.assume(le(n, m))
        mp, dom = avmap_of(u, 'Bounded', m, n)
        ip.stubs[(INT, 'av_quadrature_rule')] = lambda ip_, avmap, N_: (
            ip_.st.ghost.setdefault('av', []).append((avmap, N_)),
            ip_.mk((NQ, n), 'f', lambda i: app('Y', (i[0], i[1]), 'R')), ip_.mk((NQ, ONE), 'f', lambda i: app('w', (i[0],), 'R')))[1:]
        ip.stubs[('utils.simrunners', '.run')] = runner_stub(u, NQ)

        def pav(ip_, self, Y, compgrad=False):
            ip_.st.ghost.setdefault('run', []).append((self, ip_.frozen(Y)))
            return (ip_.mk((NQ, ONE), 'f', lambda i: app('F', (i[0],), 'R')), None)
        ip.stubs[(RS, '.predict_av')] = pav
        f = u.fun('fun')
        fun = f if how == 'function' else u.obj(RS, 'ActiveSubspaceResponseSurface', avmap=mp)
        for p in u.call(INT, 'av_integrate', fun, mp, N):
            if p.kind != 'ok':
                u.fail('returns normally', p.exc)
                continue
            g = p.state.ghost
            u.check('one rule for this map and N', len(g.get('av', [])) == 1 and g['av'][0][0] is mp and term(g['av'][0][1]) is N)
            u.check('one evaluation', len(g.get('run', [])) == 1)
            s_, x = g['run'][0]
            u.check('of the given function', s_ is fun or p.state.objs[s_.oid].get('fun') is f)
            u.all_eq('at the nodes', p, x, (NQ, n), lambda i, j: app('Y', (i, j), 'R'))
            k = fresh('k', 'I')
            u.equal('sum of weight times value', p, term(p.value), tsum(k, ZERO, NQ, mul(app('w', (k,), 'R'), app('F', (k,), 'R'))))


# -- P14 --------------------------------------------------------------------------------------------------------------
@unit('P14', 'av_quadrature_rule', [INT + '.av_quadrature_rule'])
def avrule(u):
    for kind in ('Unbounded', 'interval', 'zonotope'):
        u.start(stubs={})
        ip = u.ip
        m, n, N = u.int('m', 1), u.int('n', 1), u.int('N', 1)
        u.assume(le(n, m))
        if kind == 'interval':
            u.assume(eq(n, ONE))
        if kind == 'zonotope':
            u.assume(le(num(2), n))
        mp, dom = avmap_of(u, 'Unbounded' if kind == 'Unbounded' else 'Bounded', m, n)
        k = app('k', (), 'I')
        log = {}

        def ppd(ip_, N_, n_):
            ip_.st.ghost.setdefault('ppd', []).append((term(N_), term(n_)))
            return k

        def gh(ip_, NN):
            x = ip_.resolve(NN)
            ip_.st.ghost.setdefault('gh', []).append(ip_.frozen(toarr(ip_, x)))
            return ('Yp', 'Yw')

        def rule(name):
            def f(ip_, avmap, N_, *a):
                ip_.st.ghost.setdefault(name, []).append((avmap, term(N_)))
                return ('Yp', 'Yw')
            return f
        ip.stubs[('utils.quadrature', 'points_per_dimension')] = ppd
        ip.stubs[('utils.quadrature', 'gauss_hermite')] = gh
        ip.stubs[(INT, 'interval_quadrature_rule')] = rule('interval')
        ip.stubs[(INT, 'zonotope_quadrature_rule')] = rule('zonotope')
        for p in u.call(INT, 'av_quadrature_rule', mp, N):
            if p.kind != 'ok':
                u.fail('returns normally', p.exc)
                continue
            g = p.state.ghost
            u.check(kind + ': returns the rule', p.value == ('Yp', 'Yw'), p.value)
            want = {'Unbounded': ['gh'], 'interval': ['interval'], 'zonotope': ['zonotope']}[kind]
            u.check(kind + ': the rule of this domain', [x for x in ('gh', 'interval', 'zonotope') if x in g] == want, list(g))
            if kind == 'Unbounded':
                u.check('points per dimension for N points in n dimensions', all(a is N and b is n for a, b in g['ppd']) and g['ppd'], g['ppd'])
                u.all_eq('k points in each of the n dimensions', p, g['gh'][0], (n,), lambda i: k)
            else:
                u.check(kind + ': for this map and N', g[kind] == [(mp, N)] or (g[kind][0][0] is mp and g[kind][0][1] is N and len(g[kind]) == 1))


@unit('P14', 'interval_quadrature_rule', [INT + '.interval_quadrature_rule'])
def interval(u):
    u.assumption('np.histogram counts the samples in [e_k, e_k+1) (last cell closed); samples lie in the interval (P11)')
    u.start(stubs={})
    ip = u.ip
    m, N, NX = u.int('m', 1), u.int('N', 1), u.int('NX', 1)
    n = ONE
    W = u.arr('W', (m, m))
    sl = Slice(None, None, None)
    s = u.obj(SUB, 'Subspaces', eigenvecs=W, W1=ip.getitem(W, (sl, Slice(None, 1, None))), W2=ip.getitem(W, (sl, Slice(1, None, None))))
    V = u.arr('V', (num(2), ONE))
    a, b = app('V', (ZERO, ZERO), 'R'), app('V', (ONE, ZERO), 'R')
    u.assume(lt(a, b))
    dom = u.obj(DOM, 'BoundedActiveVariableDomain', subspaces=s, m=m, n=ONE, vertY=V)
    mp = u.obj(DOM, 'BoundedActiveVariableMap', domain=dom)
    for p in u.call(INT, 'interval_quadrature_rule', mp, N, NX):
        if p.kind != 'ok':
            u.fail('returns normally', p.exc)
            continue
        Yp, Yw = p.value
        h = div(sub(b, a), real(N))
        u.all_eq('nodes are the midpoints of N equal cells', p, Yp, (N, ONE), lambda i, j: add(a, mul(add(real(i), num(Fr(1, 2), 'R')), h)))
        hs = p.state.ghost.get('histogram', [])
        u.expect(len(hs) == 1, 'one histogram')
        x, edges, rng_, cname = hs[0]
        u.all_eq('cell boundaries', p, edges, (add(N, ONE),), lambda i: add(a, mul(real(i), h)))
        if rng_ is not None:
            u.prove('range covers the interval', p, and_(le(rng_[0], a), le(b, rng_[1])))
        q = fresh('q', 'I')
        ds = families(p.state.events, ('draw',))
        u.expect(len(ds) == 1 and not ds[0][0], 'one draw of samples')
        name, shape, info = ds[0][2][2], ds[0][2][3], ds[0][2][4]
        u.check('uniform samples', ds[0][2][1] == 'uniform')
        u.prove('uniform on [-1,1]', p, and_(eq(term(info[0]), num(-1, 'R')), eq(term(info[1]), RONE)))
        u.check('samples form a matrix', len(shape) == 2)
        u.prove('NX samples of the hypercube', p, and_(eq(shape[0], NX), eq(shape[1], m)))
        X = lambda i, j: sub(mul(num(2), app(name, (i, j), 'R')), RONE)
        u.all_eq('the projected samples are counted', p, x, (NX,), lambda i: tsum(q, ZERO, m, mul(X(i, q), W_(q, ZERO))))
        u.all_eq('weight is the fraction of samples in the cell', p, Yw, (N, ONE), lambda i, j: div(real(cname(i)), real(NX)))
        i, v = fresh('i', 'I'), fresh('v', 'I')
        u.prove('weights are nonnegative', p, le(RZERO, p.el(Yw, i, ZERO)), extra=bounded_((i, N)))
        tot = tsum(i, ZERO, N, real(cname(i)))
        u.prove('weights sum to the total count / NX', p, eq(tsum(i, ZERO, N, p.el(Yw, i, ZERO)), div(tot, real(NX))))
        # counts of one sample value e over the bins: [e < edge_j] after j bins by induction, 1 after all of them
        e, ed = var('e', 'R'), lambda k_: add(a, mul(real(k_), h))
        one = lambda c_: ite(c_, RONE, RZERO)
        hit = lambda k_: one(and_(le(ed(k_), e), or_(lt(e, ed(add(k_, ONE))), and_(eq(k_, sub(N, ONE)), le(e, ed(add(k_, ONE)))))))
        inside = [le(ed(ZERO), e), le(e, ed(N))]
        X_ = tsum(q, ZERO, m, mul(X(v, q), W_(q, ZERO)))
        u.prove('the count of a bin is the number of samples that hit it', p, eq(real(cname(i)), tsum(v, ZERO, NX, subst(hit(i), {e: X_}))),
                extra=bounded_((i, N)))
        u.prove('induction base: no bin', p, eq(RZERO, one(lt(e, ed(ZERO)))), extra=inside)
        u.prove('induction step', p, eq(add(one(lt(e, ed(i))), hit(i)), one(lt(e, ed(add(i, ONE))))),
                extra=inside + [le(ZERO, i), lt(i, sub(N, ONE)), lt(RZERO, h)])
        u.prove('all bins: every sample inside the interval is counted once', p, eq(add(one(lt(e, ed(sub(N, ONE)))), hit(sub(N, ONE))), RONE), extra=inside + [lt(RZERO, h)])
        u.unchanged(p)
        u.den('defined', p)


@unit('P14', 'zonotope_quadrature_rule', [INT + '.zonotope_quadrature_rule'])
def zonotope(u):
    u.assumption('Delaunay/find_simplex: a triangulation of the points, and for every sample the simplex that contains it or -1')
    for n_ in (2, 3):
        u.start(stubs={})
        ip = u.ip
        m, N, NX, nv = u.int('m', n_ + 1), u.int('N', 1), u.int('NX', 1), u.int('nv', n_ + 1)
        n = num(n_)
        s, W, W1, W2 = orthonormal(u, m, n)
        V = u.arr('V', (nv, n))
        dom = u.obj(DOM, 'BoundedActiveVariableDomain', subspaces=s, m=m, n=n_, vertY=V)
        mp = u.obj(DOM, 'BoundedActiveVariableMap', domain=dom)

        def design(ip_, vert, N_, *a):
            ip_.st.ghost.setdefault('design', []).append((ip_.frozen(vert), term(N_)))
            return ip_.mk((N, n), 'f', lambda i: app('D', (i[0], i[1]), 'R'))
        ip.stubs[('utils.designs', 'maximin_design')] = design
        for p in u.call(INT, 'zonotope_quadrature_rule', mp, N, NX):
            if p.kind != 'ok':
                u.fail('returns normally', p.exc)
                continue
            g = p.state.ghost
            u.check('one design of N points inside the vertices', len(g.get('design', [])) == 1 and g['design'][0][1] is N)
            u.all_eq('design of the vertices', p, g['design'][0][0], (nv, n), lambda i, j: app('V', (i, j), 'R'))
            dl = families(p.state.events, ('delaunay',))
            u.expect(len(dl) == 1, 'one triangulation')
            _, rid, P, ns, _ = dl[0][2]
            y = lambda i, j: ite(lt(i, nv), app('V', (i, j), 'R'), app('D', (sub(i, nv), j), 'R'))
            u.all_eq('of vertices and design points', p, P, (add(nv, N), n), y)
            Yp, Yw = p.value
            q, j, i = fresh('q', 'I'), fresh('j', 'I'), fresh('i', 'I')
            simp = lambda i, t: app(rid + '_s', (i, t), 'I')
            cen = lambda i, j: div(tsum(q, ZERO, num(n_ + 1), p.el(P, simp(i, q), j)), num(n_ + 1))
            u.all_eq('nodes are the centroids', p, Yp, (ns, n), cen)
            fs = families(p.state.events, ('find_simplex',))
            u.expect(len(fs) == 1, 'one location of the samples')
            X, LX = fs[0][2][2], fs[0][2][3]
            ds = families(p.state.events, ('draw',))
            u.expect(len(ds) == 1 and not ds[0][0] and len(ds[0][2][3]) == 2, 'one draw of samples')
            name, shape, info = ds[0][2][2], ds[0][2][3], ds[0][2][4]
            u.check('uniform samples', ds[0][2][1] == 'uniform')
            u.prove('uniform on [-1,1]', p, and_(eq(term(info[0]), num(-1, 'R')), eq(term(info[1]), RONE)))
            u.prove('NX samples of the hypercube', p, and_(eq(shape[0], NX), eq(shape[1], m)))
            xs = lambda i, j: sub(mul(num(2), app(name, (i, j), 'R')), RONE)
            u.all_eq('the projected samples are located', p, X, (NX, n), lambda i, j: tsum(q, ZERO, m, mul(xs(i, q), W_(q, j))))
            hit = lambda i: tsum(q, ZERO, NX, ite(eq(app(rid + '_find', (LX, q), 'I'), i), RONE, RZERO))
            u.all_eq('weight is the fraction of the samples found in the simplex', p, Yw, (ns, ONE), lambda i, j: div(hit(i), real(NX)))
            u.prove('weights are nonnegative', p, le(RZERO, p.el(Yw, i, ZERO)), extra=bounded_((i, ns)))
            # sum over simplices of the fractions = fraction of located samples
            f = lambda q_: app(rid + '_find', (LX, q_), 'I')
            u.prove('weights sum to the fraction of located samples', p, eq(tsum(i, ZERO, ns, p.el(Yw, i, ZERO)),
                    div(tsum(q, ZERO, NX, ite(le(ZERO, f(q)), RONE, RZERO)), real(NX))))
            miss = tsum(q, ZERO, NX, ite(le(ZERO, f(q)), RZERO, RONE))
            u.prove('which is 1 minus the fraction of lost samples', p, eq(div(tsum(q, ZERO, NX, ite(le(ZERO, f(q)), RONE, RZERO)), real(NX)),
                                                                      sub(RONE, div(miss, real(NX)))))
            u.prove('so weights sum to at most one', p, le(RZERO, div(miss, real(NX))))
            u.unchanged(p)


@unit('P14', 'points_per_dimension', ['utils.quadrature.points_per_dimension'])
def ppd(u):
    u.start()
    N, n = u.int('N', 1), u.int('n', 1)
    u.assumption('lemma (not discharged): x -> x^n is increasing on x >= 0 and (N^(1/n))^n = N, so x^n <= N iff x <= N^(1/n)')
    r = power(app('float', (N,), 'R'), div(RONE, real(n)))

    def pows(a):
        b, e = a.a[1]
        if e is n:
            if b.s == 'I':
                yield (('intpow', a), or_(le(a, N), le(add(N, ONE), a)))
            yield (('root', a), implies(le(ZERO, b), eq(le(b, r), le(a, N))))
    u.ip.add_schema('pow', pows)
    u.assume(le(RONE, r))
    for p in u.call('utils.quadrature', 'points_per_dimension', N, n):
        if p.kind != 'ok':
            u.fail('returns normally', p.exc)
            continue
        k = term(p.value)
        u.check('an integer', k.s == 'I', k)
        u.prove('k^n <= N', p, le(power(k, n), N))
        u.prove('(k+1)^n > N', p, lt(N, power(add(k, ONE), n)))
