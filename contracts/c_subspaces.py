"""Active subspace estimation (P01, P02, P04, P05)."""
from engine.run import unit
from contracts.common import *      # noqa: F401,F403
from contracts import common as CM


def eig_result(u, p, res, C, m, tag=''):
    """the pair (e, W) of a successful estimator: sorted nonnegative spectrum, orthonormal signed vectors, C = W diag(e) W^T"""
    u.check(tag + 'a pair is returned', isinstance(res, tuple) and len(res) == 2)
    e, W = res
    e, W = p.thing(e), p.thing(W)
    u.check(tag + 'forms', isinstance(e, Arr) and isinstance(W, Arr) and len(e.shape) == 2 and len(W.shape) == 2)
    u.equal(tag + 'm eigenvalues', p, e.shape[0], m)
    u.equal(tag + 'one column', p, e.shape[1], ONE)
    u.equal(tag + 'vectors rows', p, W.shape[0], m)
    u.equal(tag + 'vectors columns', p, W.shape[1], m)
    i, j, k, q = [fresh(c, 'I') for c in 'ijkq']
    rk = bounded_((k, m))
    u.prove(tag + 'eigenvalues nonnegative', p, le(RZERO, p.el(e, k, ZERO)), extra=rk)
    u.prove(tag + 'eigenvalues decreasing', p, le(p.el(e, add(k, ONE), ZERO), p.el(e, k, ZERO)), extra=bounded_((k, sub(m, ONE))))
    u.prove(tag + 'orthonormal columns', p, eq(tsum(q, ZERO, m, mul(p.el(W, q, i), p.el(W, q, j))), ite(eq(i, j), RONE, RZERO)),
            extra=bounded_((i, m), (j, m)))
    u.prove(tag + 'first components nonnegative', p, le(RZERO, p.el(W, ZERO, k)), extra=rk)
    u.prove(tag + 'W diag(e) W^T is the matrix', p,
            eq(tsum(q, ZERO, m, mul(mul(p.el(W, i, q), p.el(e, q, ZERO)), p.el(W, j, q))), C(i, j)), extra=bounded_((i, m), (j, m)))


@unit('P01', 'active_subspace', [SUB + '.active_subspace', SUB + '.sorted_eigh', MISC + '.process_inputs'])
def active_subspace(u):
    u.trusted('eigval', 'argsort')
    u.start()
    ip = u.ip
    M, m = u.int('M', 1), u.int('m', 1)
    df = u.arr('g', (M, m))
    w = u.arr('w', (M, ONE))
    q = fresh('q', 'I')
    wt = lambda s: app('w', (s, ZERO), 'R')
    g = lambda s, i: app('g', (s, i), 'R')
    u.assume(tall(q, ZERO, M, le(RZERO, wt(q))))
    C = lambda i, j: tsum(q, ZERO, M, mul(wt(q), mul(g(q, i), g(q, j))))
    CM.psd(u, m, M, wt, g)
    for p in u.call(SUB, 'active_subspace', df, w):
        if p.kind != 'ok':
            u.fail('returns normally', p.exc)
            continue
        eig_result(u, p, p.value, C, m)
        u.unchanged(p)
        u.den('defined', p)


# -- P02 --------------------------------------------------------------------------------------------------------------
ESTIMATORS = {'AS': ('active_subspace', 'd'), 'OLS': ('ols_subspace', 'x'), 'QPHD': ('qphd_subspace', 'x'), 'OPG': ('opg_subspace', 'x')}
ATTRS = ('eigenvals', 'eigenvecs', 'W1', 'W2', 'e_br', 'sub_br')


def stub_estimators(u, m, log, raising):
    """each estimator may fail; otherwise it returns some eigenpairs of the data it is given"""
    st = {}

    def est(name):
        def f(ip, *args):
            ip.st.ghost.setdefault('est', []).append((name, [ip.frozen(a) if isinstance(a, Arr) else a for a in args], tuple(ip.loopvars)))
            if raising and ip.decide(app(name + '_fails', (), 'B')):
                raise PyExc('LinAlgError')
            lv = tuple(ip.loopvars)
            tag = 'e_' + name + ('_b' if lv else '')
            e = ip.mk((m, ONE), 'f', lambda i: app(tag, lv + (i[0],), 'R'))
            W = ip.mk((m, m), 'f', lambda i: app('W' + tag, lv + (i[0], i[1]), 'R'))
            return (e, W)
        return f
    for k, (fn_, _) in ESTIMATORS.items():
        st[(SUB, fn_)] = est(fn_)

    def rule(name, hi):
        def f(ip, *args):
            ip.st.ghost.setdefault('rule', []).append((name, [ip.frozen(a) if isinstance(a, Arr) else a for a in args]))
            if raising and ip.decide(app(name + '_fails', (), 'B')):
                raise PyExc('ValueError')
            n = app('n_' + name, (), 'I')
            ip.assume(le(ONE, n), le(n, hi))
            return (n, Opaque('criterion', name))
        return f
    st[(SUB, 'eig_partition')] = rule('eig_partition', sub(m, ONE))
    st[(SUB, 'errbnd_partition')] = rule('errbnd_partition', sub(m, ONE))
    st[(SUB, 'ladle_partition')] = rule('ladle_partition', m)

    def boot(ip, *args):
        ip.st.ghost.setdefault('boot', []).append([ip.frozen(a) if isinstance(a, Arr) else a for a in args])
        if raising and ip.decide(app('boot_fails', (), 'B')):
            raise PyExc('LinAlgError')
        g = lambda nm, r, c: ip.mk((r, c), 'f', lambda i: app(nm, (i[0], i[1]), 'R'))
        return (g('e_br', m, num(2)), g('sub_br', sub(m, ONE), num(3)), g('li_F', m, ONE))
    st[(SUB, '_bootstrap_ranges')] = boot
    return st


def old_state(u, m):
    n0 = u.int('n0', 1)
    u.assume(le(n0, m))
    ip = u.ip
    W = u.arr('W_old', (m, m))
    s = u.obj(SUB, 'Subspaces', eigenvals=u.arr('e_old', (m, ONE)), eigenvecs=W,
              W1=ip.getitem(W, (Slice(None, None, None), Slice(None, n0, None))),
              W2=ip.getitem(W, (Slice(None, None, None), Slice(n0, None, None))),
              e_br=u.arr('ebr_old', (m, num(2))), sub_br=u.arr('sbr_old', (sub(m, ONE), num(3))))
    return s, dict(ip.st.objs[s.oid])


def same_attrs(p, s, before):
    now = p.state.objs[s.oid]
    return [k for k in set(before) | set(now) if before.get(k) is not now.get(k)]


def is_matrix(u, p, name, a, shape, spec):
    a = p.thing(a)
    if not isinstance(a, Arr):
        return u.fail(name, 'not an array: %r' % (a,))
    u.all_eq(name, p, a, shape, spec)


def partition_ok(u, p, s, W, m, n, tag):
    is_matrix(u, p, tag + 'eigenvecs', p.attr(s, 'eigenvecs'), (m, m), W)
    is_matrix(u, p, tag + 'W1 is the first n columns', p.attr(s, 'W1'), (m, n), W)
    is_matrix(u, p, tag + 'W2 is the last m-n columns', p.attr(s, 'W2'), (m, sub(m, n)), lambda i, j: W(i, add(j, n)))


@unit('P02', 'partition', [SUB + '.Subspaces.partition'])
def partition(u):
    for kind in ('int', 'float'):
        u.start()
        m = u.int('m', 1)
        n = u.int('n') if kind == 'int' else u.real('n')
        s, before = old_state(u, m)
        oks = 0
        for p in u.method(s, 'partition', n):
            if p.kind == 'ok':
                oks += 1
                u.check('a dimension that is not an integer is refused', kind == 'int')
                if kind == 'int':
                    u.prove('only 1 <= n <= m is accepted', p, and_(le(ONE, n), le(n, m)))
                    partition_ok(u, p, s, lambda i, j: app('W_old', (i, j), 'R'), m, n, '')
                    u.check('nothing else changes', set(same_attrs(p, s, before)) <= {'W1', 'W2'}, same_attrs(p, s, before))
            else:
                if kind == 'int':
                    u.prove('every 1 <= n <= m is accepted', p, or_(lt(n, ONE), lt(m, n)))
                else:
                    u.ok('refused')
                u.check('a refused call leaves the object as it was', not same_attrs(p, s, before), same_attrs(p, s, before))
            u.unchanged(p)
        u.check('accepts', oks == (1 if kind == 'int' else 0))


def args_are(u, p, what, got, want):
    """arguments recorded at a call of a stubbed function"""
    u.check(what + ': number of arguments', len(got) == len(want), (len(got), len(want)))
    for k, (a, b) in enumerate(zip(got, want)):
        if b is Ellipsis:
            continue
        if b is None:
            u.check('%s: argument %d is None' % (what, k), a is None, repr(a))
            continue
        shape, spec = b
        if not isinstance(a, Frozen):
            u.fail('%s: argument %d' % (what, k), repr(a))
            continue
        u.all_eq('%s: argument %d' % (what, k), p, a, shape, spec)


def compute_unit(u, sstype, ptype, nboot, weights, data, f=True):
    u.start(stubs={})
    ip = u.ip
    M, m = u.int('M', 1), u.int('m', 2)
    ip.stubs.update(stub_estimators(u, m, None, True))
    s, before = old_state(u, m)
    X = u.arr('X', (M, m)) if 'x' in data else None
    fv_ = u.arr('f', (M, ONE)) if f else None
    df = u.arr('df', (M, m)) if 'd' in data else None
    w = u.arr('w', (M, ONE)) if weights else None
    nb = u.int('nboot', 1) if nboot else 0
    fX, ff, fd = ((M, m), lambda i, j: app('X', (i, j), 'R')), ((M, ONE), lambda i, j: app('f', (i, j), 'R')), \
        ((M, m), lambda i, j: app('df', (i, j), 'R'))
    fw = ((M, ONE), lambda i, j: app('w', (i, j), 'R') if weights else div(RONE, real(M)))
    fn_, need = ESTIMATORS.get(sstype, (None, None))
    tag = '%s/%s%s%s data=%s%s: ' % (sstype, ptype, ' boot' if nboot else '', ' weights' if weights else '', data, '' if f else ' no f')
    possible = fn_ is not None and ptype in ('EVG', 'RS', 'LI') and need in data and (f or need == 'd') and (nboot or ptype == 'EVG')
    oks = 0
    kw = dict(X=X, f=fv_, df=df, weights=w, sstype=sstype, ptype=ptype, nboot=nb)
    for p in u.method(s, 'compute', **kw):
        u.unchanged(p, tag + 'data unchanged')
        if p.kind != 'ok':
            u.check(tag + 'a call that raises leaves the object as it was', not same_attrs(p, s, before), same_attrs(p, s, before))
            fails = [c for c in p.conds if 'fails' in show(c)]
            if possible:
                u.check(tag + 'raises only when a part fails', any(c.k != 'not' for c in fails), [show(c) for c in p.conds])
            continue
        oks += 1
        u.check(tag + 'an impossible request is refused', possible)
        if not possible:
            continue
        g = p.state.ghost
        calls = [c for c in g.get('est', []) if not c[2]]
        u.check(tag + 'one run of the requested estimator', [c[0] for c in calls] == [fn_], [c[0] for c in calls])
        args_are(u, p, tag + 'estimator', calls[0][1], [fd, fw] if need == 'd' else [fX, ff, fw])
        ev, Wv = (lambda i: app('e_e_x', (i,), 'R')), None
        e = lambda i, j: app('e_' + fn_, (i,), 'R')
        W = lambda i, j: app('We_' + fn_, (i, j), 'R')
        is_matrix(u, p, tag + 'eigenvals', p.attr(s, 'eigenvals'), (m, ONE), e)
        rname = {'EVG': 'eig_partition', 'RS': 'errbnd_partition', 'LI': 'ladle_partition'}[ptype]
        rules = g.get('rule', [])
        u.check(tag + 'the requested rule', [r[0] for r in rules] == [rname], [r[0] for r in rules])
        fe = ((m, ONE), e)
        want = {'EVG': [fe], 'RS': [fe, ((sub(m, ONE), ONE), lambda i, j: app('sub_br', (i, ONE), 'R'))],
                'LI': [fe, ((m, ONE), lambda i, j: app('li_F', (i, j), 'R'))]}[ptype]
        args_are(u, p, tag + 'rule', rules[0][1], want)
        partition_ok(u, p, s, W, m, app('n_' + rname, (), 'I'), tag)
        boots = g.get('boot', [])
        u.check(tag + 'bootstrap runs', len(boots) == (1 if nboot else 0), len(boots))
        if nboot:
            args_are(u, p, tag + 'bootstrap', boots[0][:6], [fe, ((m, m), W), fX if X is not None else None, ff if f else None,
                                                             fd if df is not None else None, fw])
            u.check(tag + 'bootstrap count', term(boots[0][7]) is nb, boots[0][7])
            is_matrix(u, p, tag + 'e_br', p.attr(s, 'e_br'), (m, num(2)), lambda i, j: app('e_br', (i, j), 'R'))
            is_matrix(u, p, tag + 'sub_br', p.attr(s, 'sub_br'), (sub(m, ONE), num(3)), lambda i, j: app('sub_br', (i, j), 'R'))
            boot_method(u, p, tag, boots[0][6], fn_, need, m)
        else:
            u.check(tag + 'no stale bootstrap ranges', p.attr(s, 'e_br') is None and p.attr(s, 'sub_br') is None)
    u.check(tag + 'accepted when possible', (oks == 1) == bool(possible), oks)


def boot_method(u, p, tag, meth, fn_, need, m):
    """the method handed to the bootstrap runs the same estimator on the replicate it is given"""
    ip = u.ip
    R = var('R', 'I')
    save = ip.st
    ip.st = p.state.snap()
    try:
        ip.st.ghost = dict(ip.st.ghost)
        ip.st.ghost['est'] = []
        a = {k: ip.mk((R, c), 'f', lambda i, k=k: app('rep' + k, (i[0], i[1]), 'R')) for k, c in (('X', m), ('f', ONE), ('d', m), ('w', ONE))}
        st = {}
        for key in list(ip.stubs):
            st[key] = ip.stubs[key]
        ip.stubs[(SUB, fn_)] = lambda ip_, *args: ip_.st.ghost['est'].append((fn_, [ip_.frozen(x) for x in args])) or (1, 2)
        r = ip.call(ip.resolve(meth), [a['X'], a['f'], a['d'], a['w']])
        ip.stubs.clear()
        ip.stubs.update(st)
        calls = ip.st.ghost['est']
        u.check(tag + 'replicates are decomposed by the same estimator', [c[0] for c in calls] == [fn_] and r == (1, 2))
        sp = lambda k, c: ((R, c), lambda i, j: app('rep' + k, (i, j), 'R'))
        args_are(u, p, tag + 'replicate', calls[0][1], [sp('d', m), sp('w', ONE)] if need == 'd' else [sp('X', m), sp('f', ONE), sp('w', ONE)])
    finally:
        ip.st = save


FUNCS02 = [SUB + '.Subspaces.compute', SUB + '.Subspaces.partition', MISC + '.process_inputs']


def _mk(sst):
    @unit('P02', 'compute %s' % sst, FUNCS02)
    def f(u):
        for ptype in ('EVG', 'RS', 'LI', 'nonsense'):
            for nboot in (False, True):
                for weights in (False, True):
                    for data in ('x', 'd', 'xd'):
                        compute_unit(u, sst, ptype, nboot, weights, data)
        compute_unit(u, sst, 'EVG', False, True, 'xd', f=False)
        compute_unit(u, sst, 'EVG', False, True, 'x', f=False)
        compute_unit(u, sst, 'EVG', False, True, '')


for sst_ in ('AS', 'OLS', 'QPHD', 'OPG', 'nonsense'):
    _mk(sst_)


# -- P04 --------------------------------------------------------------------------------------------------------------
def spectrum(u, m):
    e = u.arr('e', (m, ONE))
    q = fresh('q', 'I')
    E = lambda i: app('e', (i, ZERO), 'R')
    u.assume(tall(q, ZERO, m, le(RZERO, E(q))), tall(q, ZERO, sub(m, ONE), le(E(add(q, ONE)), E(q))))
    return e, E


def vector_of(u, p, name, v, n, spec):
    """the full vector of criterion values, as a vector or a column"""
    v = p.thing(v)
    if isinstance(v, Arr) and len(v.shape) == 1:
        u.all_eq(name, p, v, (n,), spec)
        return lambda i: p.el(v, i)
    u.all_eq(name, p, v, (n, ONE), lambda i, j: spec(i))
    return lambda i: p.el(v, i, ZERO)


@unit('P04', 'eig_partition', [SUB + '.eig_partition'])
def eig_partition(u):
    u.trusted('argmax')
    u.start()
    m = u.int('m', 2)
    e, E = spectrum(u, m)
    for p in u.call(SUB, 'eig_partition', e):
        if p.kind != 'ok':
            u.fail('returns normally', p.exc)
            continue
        n, crit = p.value
        n = term(n)
        u.prove('1 <= n <= m-1', p, and_(le(ONE, n), lt(n, m)))
        gap = lambda i: sub(E(i), E(add(i, ONE)))
        j = fresh('j', 'I')
        u.prove('gap n is the largest', p, le(gap(j), gap(sub(n, ONE))), extra=bounded_((j, sub(m, ONE))))
        vector_of(u, p, 'criterion vector', crit, sub(m, ONE), gap)
        u.unchanged(p)
        u.den('defined', p)


@unit('P04', 'errbnd_partition', [SUB + '.errbnd_partition'])
def errbnd_partition(u):
    u.trusted('argmin')
    u.start()
    m = u.int('m', 2)
    e, E = spectrum(u, m)
    s = u.arr('s', (sub(m, ONE), ONE))
    q = fresh('q', 'I')
    u.assume(tall(q, ZERO, sub(m, ONE), le(RZERO, app('s', (q, ZERO), 'R'))))
    for p in u.call(SUB, 'errbnd_partition', e, s):
        if p.kind != 'ok':
            u.fail('returns normally', p.exc)
            continue
        n, crit = p.value
        n = term(n)
        crit_ = lambda i: add(mul(fn('sqrt', tsum(q, ZERO, add(i, ONE), E(q))), app('s', (i, ZERO), 'R')),
                              fn('sqrt', tsum(q, ZERO, sub(sub(m, i), ONE), E(add(add(q, i), ONE)))))
        got = vector_of(u, p, 'criterion vector', crit, sub(m, ONE), crit_)
        u.prove('1 <= n <= m-1', p, and_(le(ONE, n), lt(n, m)))
        j = fresh('j', 'I')
        u.prove('n minimises the returned criterion', p, le(got(sub(n, ONE)), got(j)), extra=bounded_((j, sub(m, ONE))))
        u.unchanged(p)
        u.den('defined', p)


@unit('P04', 'ladle_partition', [SUB + '.ladle_partition'])
def ladle_partition(u):
    u.trusted('argmin')
    u.start()
    m = u.int('m', 2)
    e, E = spectrum(u, m)
    li = u.arr('li', (m, ONE))
    q = fresh('q', 'I')
    tot = tsum(q, ZERO, m, E(q))
    u.assume(lt(RZERO, tot))
    for p in u.call(SUB, 'ladle_partition', e, li):
        if p.kind != 'ok':
            u.fail('returns normally', p.exc)
            continue
        n, crit = p.value
        n = term(n)
        got = vector_of(u, p, 'criterion vector', crit, m, lambda i: add(app('li', (i, ZERO), 'R'), div(E(i), tot)))
        u.prove('position counted from 1', p, and_(le(ONE, n), le(n, m)))
        j = fresh('j', 'I')
        u.prove('n is the position of a minimum', p, le(got(sub(n, ONE)), got(j)), extra=bounded_((j, m)))
        u.unchanged(p)
        u.den('defined', p)


# -- P05 --------------------------------------------------------------------------------------------------------------
@unit('P05', '_bootstrap_replicate', [SUB + '._bootstrap_replicate'])
def replicate(u):
    for parts in ('Xf', 'd', 'Xfd'):
        u.start()
        M, m = u.int('M', 1), u.int('m', 1)
        a = {'X': u.arr('X', (M, m)) if 'X' in parts else None, 'f': u.arr('f', (M, ONE)) if 'f' in parts else None,
             'df': u.arr('df', (M, m)) if 'd' in parts else None, 'w': u.arr('w', (M, ONE))}
        for p in u.call(SUB, '_bootstrap_replicate', a['X'], a['f'], a['df'], a['w']):
            if p.kind != 'ok':
                u.fail('returns normally', p.exc)
                continue
            ds = families(p.state.events, ('draw',))
            u.expect(len(ds) == 1 and not ds[0][0] and ds[0][2][1] == 'randint' and len(ds[0][2][3] or ()) == 1, 'draws of the replicate')
            name, shape, (lo, hi) = ds[0][2][2], ds[0][2][3], ds[0][2][4]
            u.prove('M draws from 0..M-1', p, and_(eq(shape[0], M), eq(lo, ZERO), eq(hi, M)))
            r = lambda i: app(name, (i,), 'I')
            for key, got in zip(('X', 'f', 'df', 'w'), p.value):
                if a[key] is None:
                    u.check(key + ' stays absent', p.thing(got) is None)
                    continue
                u.all_eq(key + ' rows of the replicate', p, got, (M, a[key].shape[1]), lambda i, j, key=key: app(key, (r(i), j), 'R'))
                u.check(key + ' is a copy', p.thing(got).cell != a[key].cell)
            u.unchanged(p)
            u.den('defined', p)


@unit('P05', '_bootstrap_ranges', [SUB + '._bootstrap_ranges', SUB + '._bootstrap_replicate', MISC + '.process_inputs'])
def bootstrap(u):
    u.trusted('amin', 'amax')
    u.assumption('np.linalg.norm(ord=2) is the spectral norm; of W_a^T W_b with orthonormal columns it lies in [0,1], and |det| of '
                 'the square block is at most 1')
    for parts in ('Xf', 'd', 'Xfd'):
        u.start()
        ip = u.ip
        M, m, nb = u.int('M', 1), u.int('m', 2), u.int('nboot', 1)
        a = {'X': u.arr('X', (M, m)) if 'X' in parts else None, 'f': u.arr('f', (M, ONE)) if 'f' in parts else None,
             'df': u.arr('df', (M, m)) if 'd' in parts else None, 'w': u.arr('w', (M, ONE))}
        e = u.arr('e', (m, ONE))
        W = u.arr('W', (m, m))

        def method(*args, **kw):
            X0, f0, df0, w0 = args
            ip.st.events += (('replicate', [ip.frozen(x) if isinstance(x, Arr) else x for x in args]),)
            lv = tuple(ip.loopvars)
            return (ip.mk((m, ONE), 'f', lambda i: app('eb', lv + (i[0],), 'R')),
                    ip.mk((m, m), 'f', lambda i: app('Wb', lv + (i[0], i[1]), 'R')))
        ip.add_schema('norm2', lambda x: [(('norm2', x), and_(le(RZERO, x), le(x, RONE)))])
        ip.add_schema('det', lambda x: [(('det', x), and_(le(num(-1, 'R'), x), le(x, RONE)))])
        for p in u.call(SUB, '_bootstrap_ranges', e, W, a['X'], a['f'], a['df'], a['w'], Prim('ssmethod', method), nb):
            if p.kind != 'ok':
                u.fail('returns normally', p.exc)
                continue
            fam = families(p.state.events, ('draw', 'replicate'))
            u.check('one run of the estimator per replicate', [x[2][0] for x in fam].count('replicate') == 1, [x[2][:2] for x in fam])
            u.expect([x[2][0] for x in fam] == ['draw', 'replicate'] and fam[0][2][1] == 'randint' and len(fam[0][2][3] or ()) == 1, 'draws of a replicate')
            (b1, g1, draw), (b2, g2, rep) = fam
            u.expect(len(b1) == len(b2) == 1 and not g1 and not g2, 'loop over replicates')
            (k1, n1), (k, n2) = b1[0], b2[0]
            u.prove('nboot replicates', p, and_(eq(n1, nb), eq(n2, nb)))
            u.prove('M draws from 0..M-1', p, and_(eq(draw[3][0], M), eq(draw[4][0], ZERO), eq(draw[4][1], M)))
            name, lv = draw[2], draw[5]
            rk = bounded_((k, nb))
            r = lambda i: app(name, (k, i), 'I')
            for key, got in zip(('X', 'f', 'df', 'w'), rep[1]):
                if a[key] is None:
                    u.check(key + ' stays absent', got is None)
                    continue
                i, j = fresh('i', 'I'), fresh('j', 'I')
                u.prove(key + ' shape of the replicate', p, and_(eq(got.shape[0], M), eq(got.shape[1], a[key].shape[1])), extra=rk)
                u.prove(key + ' rows of the replicate', p, eq(p.el(got, i, j), app(key, (r(i), j), 'R')),
                        extra=rk + bounded_((i, M), (j, a[key].shape[1])))
            ebr, sbr, liF = p.value
            i, j, b = fresh('i', 'I'), fresh('j', 'I'), fresh('b', 'I')
            eb = lambda b_, i_: app('eb', (b_, i_), 'R')
            u.check('forms', all(isinstance(p.thing(x), Arr) and len(p.thing(x).shape) == 2 for x in p.value))
            u.prove('shapes', p, and_(*[eq(x, dim(y)) for v, s in ((ebr, (m, 2)), (sbr, (sub(m, ONE), 3)), (liF, (m, 1)))
                                        for x, y in zip(p.thing(v).shape, s)]))
            extreme(u, p, 'eigenvalue range', lambda: p.el(ebr, i, ZERO), lambda: p.el(ebr, i, ONE), lambda b_: eb(b_, i), nb, bounded_((i, m)))
            v = [fresh('l', 'I') for _ in range(2)]
            q = fresh('q', 'I')
            dist = lambda b_: app('norm2', (p.ctx(*(bounded_((j, sub(m, ONE)), (b_, nb)))).canon(
                lam(v, [add(j, ONE), sub(sub(m, j), ONE)],
                    tsum(q, ZERO, m, mul(app('W', (q, v[0]), 'R'), app('Wb', (b_, q, add(v[1], add(j, ONE))), 'R'))))),), 'R')
            rj = bounded_((j, sub(m, ONE)))
            extreme(u, p, 'subspace error', lambda: p.el(sbr, j, ZERO), lambda: p.el(sbr, j, num(2)), dist, nb, rj)
            bb = fresh('b', 'I')
            u.prove('mean subspace error', p, eq(p.el(sbr, j, ONE), div(tsum(bb, ZERO, nb, dist(bb)), real(nb))), extra=rj)
            for col, nm in ((0, 'minimum'), (2, 'maximum')):
                u.prove('%s subspace error in [0,1]' % nm, p, and_(le(RZERO, p.el(sbr, j, num(col))), le(p.el(sbr, j, num(col)), RONE)), extra=rj)
            det = lambda b_: app('det', (p.ctx().canon(lam(v, [add(j, ONE), add(j, ONE)], tsum(q, ZERO, m, mul(
                app('W', (q, v[0]), 'R'), app('Wb', (b_, q, v[1]), 'R'))))),), 'R')
            u.equal('the metric starts with 0', p, p.el(liF, ZERO, ZERO), RZERO)
            # metric: (1/nboot) sum_b (1 - |det|), normalised
            raw = tsum(bb, ZERO, nb, sub(RONE, fn('abs', det(bb))))
            tot = tsum(j, ZERO, sub(m, ONE), raw)
            pos = lt(RZERO, tot)
            u.prove('mean of 1 - |det| nonnegative', p, le(RZERO, raw), extra=rj + [pos])
            u.prove('metric proportional to the mean of 1 - |det|', p, eq(mul(p.el(liF, add(j, ONE), ZERO), tot), raw), extra=rj + [pos])
            x, y, z = [fresh('r', 'R') for _ in range(3)]
            u.prove('so the metric is nonnegative (x tot = raw >= 0, tot > 0)', p, le(RZERO, x), extra=[eq(mul(x, y), z), lt(RZERO, y), le(RZERO, z)])
            u.prove('metric sums to 1', p, eq(tsum(q, ZERO, m, p.el(liF, q, ZERO)), RONE), extra=[pos])
            u.unchanged(p)


def extreme(u, p, name, lo, hi, val, n, rng):
    """lo/hi are the minimum and the maximum of val(b), b < n"""
    b = fresh('b', 'I')
    u.prove(name + ': column 1 is a lower bound', p, le(lo(), val(b)), extra=rng + bounded_((b, n)))
    u.prove(name + ': column 2 is an upper bound', p, le(val(b), hi()), extra=rng + bounded_((b, n)))
    for v, nm in ((lo(), 'minimum'), (hi(), 'maximum')):
        u.prove('%s: the %s is attained' % (name, nm), p, not_(tall(b, ZERO, n, not_(eq(v, val(b))))), extra=rng)
