"""Frame conditions: arrays of the caller, arrays returned earlier, the global random generator (P24)."""
from engine.run import unit
from contracts.common import *      # noqa: F401,F403
from engine.npm import toarr

QD, DN, QP, URS, SR, OPT, INT = 'utils.quadrature', 'utils.designs', 'utils.qp_solver', 'utils.response_surfaces', 'utils.simrunners', 'optimizers', 'integrals'


def arrays_of(ip, v, out=None):
    """arrays reachable from a returned value"""
    out = [] if out is None else out
    v = ip.resolve(v)
    if isinstance(v, Arr):
        out.append(v)
    elif isinstance(v, (tuple, list)):
        for x in v:
            arrays_of(ip, x, out)
    elif isinstance(v, PyList):
        items = ip.concrete_items(v)
        if items is not None:
            for x in items:
                arrays_of(ip, x, out)
    elif isinstance(v, dict):
        for x in v.values():
            arrays_of(ip, x, out)
    return out


class Seq(object):
    """a sequence of calls; what every call returned is compared at the end with what it was then"""

    def __init__(self, u):
        self.u, self.ip = u, u.ip
        # arguments of a repeated call: other arrays of the same shape
        self.other = {}
        for name, cell, init in list(u.inputs):
            a = u.arrs.get(cell)
            if a is not None:
                self.other[cell] = u.arr(name + "'", a.shape, a.dtype)

    def again(self, key, a, k):
        seen = self.ip.st.ghost.get('seen', ())
        sw = lambda x: self.other.get(x.cell, x) if isinstance(x, Arr) else x
        sig = (key, tuple(x.cell if isinstance(x, Arr) else repr(x) for x in a), tuple(sorted((n, x.cell if isinstance(x, Arr) else repr(x)) for n, x in k.items())))
        if sig in seen:
            return [sw(x) for x in a], {n: sw(x) for n, x in k.items()}
        self.ip.st.ghost['seen'] = seen + (sig,)
        return list(a), k

    def note(self, v):
        ip = self.ip
        lst = ip.st.ghost.get('returned', [])
        ip.st.ghost['returned'] = lst + [(a.cell, ip.st.heap[a.cell][2]) for a in arrays_of(ip, v)]
        return v

    def call(self, mod, f, *a, **k):
        a, k = self.again((mod, f), a, k)
        return self.note(self.ip.call(self.ip.get(mod, f), list(a), k))

    def meth(self, o, name, *a, **k):
        a, k = self.again((o.oid, name), a, k)
        return self.note(self.ip.call(self.ip.attr(o, name), list(a), k))

    def new(self, mod, cls, *a, **k):
        return self.ip.call(self.ip.get(mod, cls), list(a), k)

    def attr(self, o, name):
        return self.note(self.ip.attr(o, name))


def frame(u, label, make, stubs=None, rng=False, ok=True):
    """make(u) -> thunk(seq): runs the calls; every path must leave the arguments and earlier results alone"""
    try:
        u.start(stubs=dict(stubs or {}))
        thunk = make(u)
        S = Seq(u)
        ps = u.run(lambda: thunk(S))
        done = 0
        for p in ps:
            done += p.kind == 'ok'
            u.unchanged(p, label + ': arguments unchanged')
            bad = [c for c, b in p.state.ghost.get('returned', []) if p.state.heap[c][2] is not b and
                   not p.ctx().prove(eq(p.state.heap[c][2], b))[0]]
            u.check(label + ': results returned earlier unchanged', not bad)
            if rng and p.kind == 'ok':
                u.check(label + ': state of the random generator restored', p.state.rng == ('rng0',), p.state.rng)
        if ok:
            u.check(label + ': some call succeeds', done)
    except (Unsupported, PyExc) as e:
        u.skips.append('%s: %s' % (label, e if isinstance(e, Unsupported) else '%s %s' % (e.name, e.eargs)))


def data(u, *names, **dims):
    M, m = u.int('M', 1), u.int('m', 2)
    shp = {'X': (M, m), 'df': (M, m), 'f': (M, ONE), 'w': (M, ONE), 'v': (M, ONE), 'e': (m, ONE), 'X2': (u.int('M2', 1), m)}
    return (M, m) + tuple(u.arr(k, shp[k]) for k in names)


def simple(label, mod, fname, *names, **kw):
    def make(u):
        d = data(u, *names)[2:]

        def thunk(S):
            S.call(mod, fname, *d, **kw)
            S.call(mod, fname, *d, **kw)
        return thunk
    return label, make


@unit('P24', 'estimators', [SUB + '.' + f for f in ('active_subspace', 'ols_subspace', 'sorted_eigh', 'eig_partition', 'errbnd_partition',
                                                    'ladle_partition', '_bootstrap_replicate', '_bootstrap_ranges')])
def estimators(u):
    for label, make in (simple('active_subspace', SUB, 'active_subspace', 'df', 'w'), simple('ols_subspace', SUB, 'ols_subspace', 'X', 'f', 'w')):
        frame(u, label, make)

    def sq(u):
        m = u.int('m', 1)
        C_ = u.arr('C', (m, m))
        return lambda S: (S.call(SUB, 'sorted_eigh', C_), S.call(SUB, 'sorted_eigh', C_))
    frame(u, 'sorted_eigh', sq)

    def parts(u):
        m = u.int('m', 2)
        e, s, li = u.arr('e', (m, ONE)), u.arr('s', (sub(m, ONE), ONE)), u.arr('li', (m, ONE))

        def thunk(S):
            for _ in range(2):
                S.call(SUB, 'eig_partition', e)
                S.call(SUB, 'errbnd_partition', e, s)
                S.call(SUB, 'ladle_partition', e, li)
        return thunk
    frame(u, 'partition rules', parts)

    for which in ('Xf', 'd', 'Xfd'):
        def rep(u, which=which):
            M, m, X, f, df, w = data(u, 'X', 'f', 'df', 'w')
            a = (X if 'X' in which else None, f if 'f' in which else None, df if 'd' in which else None, w)

            def thunk(S):
                r = S.call(SUB, '_bootstrap_replicate', *a)
                # a replicate is the estimator's own: writing to it must not reach the data
                for v in r:
                    v = S.ip.resolve(v)
                    if isinstance(v, Arr):
                        S.ip.st.ghost['returned'] = []
                        S.ip.setitem(v, (Slice(None, None, None), Slice(None, None, None)), num(7, 'R'))
            return thunk
        frame(u, '_bootstrap_replicate ' + which, rep)

        def ranges(u, which=which):
            M, m, X, f, df, w = data(u, 'X', 'f', 'df', 'w')
            e, W = u.arr('e', (m, ONE)), u.arr('W', (m, m))
            nb = u.int('nboot', 1)
            a = (X if 'X' in which else None, f if 'f' in which else None, df if 'd' in which else None, w)

            def method(X0, f0, df0, w0):
                ip = u.ip
                lv = tuple(ip.loopvars)
                return (ip.mk((m, ONE), 'f', lambda i: app('eb', lv + (i[0],), 'R')), ip.mk((m, m), 'f', lambda i: app('Wb', lv + (i[0], i[1]), 'R')))
            return lambda S: S.call(SUB, '_bootstrap_ranges', e, W, a[0], a[1], a[2], a[3], Prim('ssmethod', method), nb)
        frame(u, '_bootstrap_ranges ' + which, ranges)


def local_linear_stub(ip, X, f, p=None, weights=None):
    m = X.shape[1]
    k = ip.uid()
    R = app('rows_ll', (), 'I')
    ip.assume(le(ONE, R))
    return ip.mk((R, m), 'f', lambda i: app('ll%d' % k, (i[0], i[1]), 'R'))


def poly_train_stub(ip, self, X, f, weights=None):
    m = X.shape[1]
    k = ip.uid()
    d = ip.st.objs[self.oid] = dict(ip.st.objs[self.oid])
    d['g'] = ip.mk((m, ONE), 'f', lambda i: app('g%d' % k, (i[0], i[1]), 'R'))
    d['H'] = ip.mk((m, m), 'f', lambda i: app('H%d' % k, (i[0], i[1]), 'R'))
    d['X'], d['f'] = X, f


@unit('P24', 'estimators over surfaces', [SUB + '.opg_subspace', SUB + '.qphd_subspace'])
def estimators2(u):
    u.assumption('local_linear_gradients and PolynomialApproximation.train under their own frame conditions')
    frame(u, *simple('opg_subspace', SUB, 'opg_subspace', 'X', 'f', 'w'), stubs={(GR, 'local_linear_gradients'): local_linear_stub})
    frame(u, *simple('qphd_subspace', SUB, 'qphd_subspace', 'X', 'f', 'w'), stubs={(URS, '.train'): poly_train_stub})


@unit('P24', 'gradients', [GR + '.local_linear_gradients', GR + '.finite_difference_gradients'])
def gradients(u):
    def ll(u):
        M, m, X, f, w = data(u, 'X', 'f', 'w')
        return lambda S: (S.call(GR, 'local_linear_gradients', X, f, weights=w))
    frame(u, 'local_linear_gradients', ll)

    def fd(u):
        M, m, X = data(u, 'X')
        fun = u.fun('fun')
        return lambda S: (S.call(GR, 'finite_difference_gradients', X, fun), S.call(GR, 'finite_difference_gradients', X, fun))
    frame(u, 'finite_difference_gradients', fd)


@unit('P24', 'compute and partition', [SUB + '.Subspaces.compute', SUB + '.Subspaces.partition'])
def compute(u):
    from contracts.c_subspaces import stub_estimators
    for sst, names in (('AS', ('df', 'w')), ('OLS', ('X', 'f', 'w')), ('QPHD', ('X', 'f', 'w')), ('OPG', ('X', 'f', 'w'))):
        for boot in (False, True):
            def mk(u, names=names, sst=sst, boot=boot):
                M, m = data(u)
                u.ip.stubs.update(stub_estimators(u, m, None, False))
                d = dict(zip(('df' if n == 'df' else 'weights' if n == 'w' else n for n in names), data(u, *names)[2:]))
                nb = u.int('nboot', 1) if boot else 0

                def thunk(S):
                    s = S.new(SUB, 'Subspaces')
                    S.meth(s, 'compute', sstype=sst, nboot=nb, **d)
                    for a in ('eigenvals', 'eigenvecs', 'W1', 'W2', 'e_br', 'sub_br'):
                        S.attr(s, a)
                    S.meth(s, 'compute', sstype=sst, nboot=0, **d)
                    for a in ('eigenvals', 'eigenvecs', 'W1', 'W2'):
                        S.attr(s, a)
                    S.meth(s, 'partition', ONE)
                return thunk
            frame(u, 'compute %s%s' % (sst, ' with bootstrap' if boot else ''), mk)


@unit('P24', 'maps', [DOM + '.ActiveVariableMap.forward', DOM + '.ActiveVariableMap.inverse', DOM + '._rotate_x',
                      DOM + '.UnboundedActiveVariableMap.regularize_z', DOM + '.BoundedActiveVariableMap.regularize_z'])
def maps(u):
    from contracts.c_integrals import avmap_of
    for kind in ('Unbounded', 'Bounded'):
        def mk(u, kind=kind):
            m, n, N, NY, M = u.int('m', 2), u.int('n', 1), u.int('N', 1), u.int('NY', 1), u.int('M', 1)
            u.assume(lt(n, m))
            mp, dom = avmap_of(u, kind, m, n)
            X, Y = u.arr('X', (M, m)), u.arr('Y', (NY, n))
            if kind == 'Bounded':
                u.ip.stubs[(DOM, 'sample_z')] = lambda ip_, N_, y, A1, A2: ip_.mk((N, sub(m, n)), 'f', lambda i: app('z', tuple(ip_.loopvars) + (i[0], i[1]), 'R'))

            def thunk(S):
                for _ in range(2):
                    S.meth(mp, 'forward', X)
                    S.meth(mp, 'inverse', Y, N)
            return thunk
        frame(u, kind + ' map', mk)


def lp_stub(names):
    def f(ip, self, c, *a):
        k = ip.uid()
        lv = tuple(ip.loopvars)
        return ip.mk((c.size if isinstance(c, MArr) else ip.np_size(c) if hasattr(ip, 'np_size') else c.shape[0], ONE), 'f',
                     lambda i: app('lp%d' % k, lv + (i[0],), 'R'))
    return f


LP = {(QP, '.linear_program_ineq'): lp_stub('ineq'), (QP, '.linear_program_eq'): lp_stub('eq'), (QP, '.quadratic_program_ineq'): lp_stub('qineq')}


@unit('P24', 'samplers', [DOM + '.' + f for f in ('sample_z', 'rejection_sampling_z', 'hit_and_run_z', 'random_walk_z')])
def samplers(u):
    u.assumption('the linear programs under their own frame conditions')
    for fname in ('rejection_sampling_z', 'hit_and_run_z', 'random_walk_z'):
        def mk(u, fname=fname):
            m, n, N = u.int('m', 2), u.int('n', 1), u.int('N', 1)
            u.assume(lt(n, m))
            y, W1, W2 = u.arr('y', (n,)), u.arr('W1', (m, n)), u.arr('W2', (m, sub(m, n)))
            return lambda S: S.call(DOM, fname, N, y, W1, W2)
        frame(u, fname, mk, stubs=LP)

    def mk(u):
        m, n, N = u.int('m', 2), u.int('n', 1), u.int('N', 1)
        u.assume(lt(n, m))
        y, W1, W2 = u.arr('y', (n,)), u.arr('W1', (m, n)), u.arr('W2', (m, sub(m, n)))

        def rej(ip, *a):
            if ip.decide(app('rejected', (), 'B')):
                return None
            return ip.mk((N, sub(m, n)), 'f', lambda i: app('z', (i[0], i[1]), 'R'))
        u.ip.stubs[(DOM, 'rejection_sampling_z')] = rej
        u.ip.stubs[(DOM, 'hit_and_run_z')] = lambda ip, *a: ip.mk((N, sub(m, n)), 'f', lambda i: app('h', (i[0], i[1]), 'R'))
        return lambda S: S.call(DOM, 'sample_z', N, y, W1, W2)
    frame(u, 'sample_z', mk)


@unit('P24', 'domains', [DOM + '.interval_endpoints', DOM + '.BoundedActiveVariableDomain.compute_boundary', DOM + '.zonotope_vertices', DOM + '.unique_rows'])
def domains(u):
    def iv(u):
        m = u.int('m', 1)
        W1 = u.arr('W1', (m, ONE))
        return lambda S: (S.call(DOM, 'interval_endpoints', W1), S.call(DOM, 'interval_endpoints', W1))
    frame(u, 'interval_endpoints', iv)

    def zv(u):
        m, n = u.int('m', 2), u.int('n', 2)
        u.assume(le(n, m))
        W1 = u.arr('W1', (m, n))
        return lambda S: S.call(DOM, 'zonotope_vertices', W1)

    def uniq(ip, A):
        k, lv = ip.uid(), tuple(ip.loopvars)
        R = app('rows_u%d' % k, lv, 'I')
        ip.assume(le(ONE, R), le(R, A.shape[0]))
        return ip.mk((R, A.shape[1]), 'f', lambda i: app('u%d' % k, lv + (i[0], i[1]), 'R'))
    frame(u, 'zonotope_vertices', zv, stubs={(DOM, 'unique_rows'): uniq, (DOM, 'nzv'): lambda ip, m, n: app('nzv', (m, n), 'I')})

    for kind in ('interval', 'zonotope'):
        def dm(u, kind=kind):
            m, n = u.int('m', 2), u.int('n', 2) if kind == 'zonotope' else ONE
            u.assume(le(n, m))
            s, W, W1, W2 = orthonormal(u, m, n)
            R = u.int('R', 1)
            if kind == 'zonotope':
                u.ip.stubs[(DOM, 'zonotope_vertices')] = lambda ip, W_, *a: (ip.mk((R, n), 'f', lambda i: app('vy', tuple(i), 'R')),
                                                                         ip.mk((R, m), 'f', lambda i: app('vx', tuple(i), 'R')))

            def thunk(S):
                d = S.new(DOM, 'BoundedActiveVariableDomain', s)
                S.attr(d, 'vertX')
                S.attr(d, 'vertY')
                S.meth(d, 'compute_boundary')
            return thunk
        frame(u, 'bounded domain (%s)' % kind, dm)


def avm(u, kind, n_one=False):
    """an active-variable map with all of its arrays registered as the caller's"""
    from contracts.c_integrals import avmap_of
    m, n = u.int('m', 2), ONE if n_one else u.int('n', 2 if kind == 'Bounded' else 1)
    u.assume(le(n, m))
    a = {}
    if kind == 'Bounded':
        nv = num(2) if n_one else u.int('nv', 3)
        a = dict(vertY=u.arr('vy', (nv, n)), vertX=u.arr('vx', (nv, m)))
    mp, dom = avmap_of(u, kind, m, n, a)
    return mp, dom, m, n


KINDS = (('Unbounded', False), ('Bounded', True), ('Bounded', False))


def designs_stub(u, n):
    R = u.int('ND', 1)
    mk = lambda nm: (lambda ip, *a: ip.mk((R, n), 'f', lambda i: app(nm, (i[0], i[1]), 'R')))
    return {(DN, 'maximin_design'): mk('mm')}


def inverse_stub(ip, self, Y, N=1):
    dom = ip.attr(self, 'domain')
    m = ip.attr(dom, 'm')
    k = ip.uid()
    T_ = mul(Y.shape[0], term(N))
    return (ip.mk((T_, m), 'f', lambda i: app('inv%d' % k, tuple(i), 'R')), ip.mk((T_, ONE), 'f', lambda i: app('float', (fdiv(i[0], term(N)),), 'R')))


@unit('P24', 'integrals', [INT + '.' + f for f in ('integrate', 'av_integrate', 'quadrature_rule', 'av_quadrature_rule', 'interval_quadrature_rule',
                                                   'zonotope_quadrature_rule')] + [MISC + '.conditional_expectations'])
def integrals(u):
    def ce(u):
        M = u.int('M', 1)
        f = u.arr('f', (M, ONE))
        ind = u.ip.mk((M, ONE), 'f', lambda i: app('float', (app('K', (i[0],), 'I'),), 'R'))
        u.inputs.append(('ind', ind.cell, u.ip.st.heap[ind.cell]))
        q = fresh('q', 'I')
        u.assume(tall(q, ZERO, M, le(ZERO, app('K', (q,), 'I'))))
        return lambda S: (S.call(MISC, 'conditional_expectations', f, ind), S.call(MISC, 'conditional_expectations', f, ind))
    frame(u, 'conditional_expectations', ce)
    R = var('R', 'I')
    rule = lambda nm, n: (lambda ip, *a: (ip.mk((R, n), 'f', lambda i: app(nm + 'p', tuple(i), 'R')), ip.mk((R, ONE), 'f', lambda i: app(nm + 'w', (i[0],), 'R'))))
    for kind, one in KINDS:
        lab = kind + (' interval' if one else '')
        for fname in ('integrate', 'quadrature_rule', 'av_integrate'):
            def mk(u, kind=kind, one=one, fname=fname):
                u.assume(le(ONE, R))
                mp, dom, m, n = avm(u, kind, one)
                u.ip.stubs.update({(INT, 'av_quadrature_rule'): rule('r', n), (DOM, '.inverse'): inverse_stub})
                fun, N, NMC = u.fun('fun'), u.int('N', 1), u.int('NMC', 1)
                if fname == 'integrate':
                    return lambda S: S.call(INT, fname, fun, mp, N, NMC)
                if fname == 'av_integrate':
                    return lambda S: (S.call(INT, fname, fun, mp, N), S.call(INT, fname, fun, mp, N))
                return lambda S: (S.call(INT, fname, mp, N, NMC), S.call(INT, fname, mp, N, NMC))
            frame(u, '%s (%s)' % (fname, lab), mk)

        def mk2(u, kind=kind, one=one):
            u.assume(le(ONE, R))
            mp, dom, m, n = avm(u, kind, one)
            u.ip.stubs.update({(QD, 'gauss_hermite'): rule('gh', n), (QD, 'points_per_dimension'): lambda ip, N, n_: app('ppd', (), 'I')})
            u.ip.stubs.update(designs_stub(u, n))
            N = u.int('N', 1)
            return lambda S: (S.call(INT, 'av_quadrature_rule', mp, N), S.call(INT, 'av_quadrature_rule', mp, N))
        frame(u, 'av_quadrature_rule (%s)' % lab, mk2)


@unit('P24', 'surfaces over the active variables', [RS + '.ActiveSubspaceResponseSurface.' + f for f in (
    'train_with_data', 'train_with_interface', 'predict', 'gradient', '__call__', 'predict_av', 'gradient_av')] + [RS + '.av_design'])
def surfaces(u):
    u.assumption('the underlying surface under its own frame conditions')

    def predict_stub(ip, self, X, compgrad=False):
        X = toarr(ip, X)
        k = ip.uid()
        f = ip.mk((X.shape[0], ONE), 'f', lambda i: app('F%d' % k, (i[0],), 'R'))
        return (f, ip.mk(X.shape, 'f', lambda i: app('dF%d' % k, (i[0], i[1]), 'R')) if norm(ip.resolve(compgrad)) else None)
    st = {(URS, '.predict'): predict_stub, (URS, '.train'): lambda ip, self, *a, **k: None, (DOM, '.inverse'): inverse_stub}
    for kind, one in KINDS:
        lab = kind + (' interval' if one else '')
        for cls in ('PolynomialApproximation', 'RadialBasisApproximation'):
            def mk(u, kind=kind, one=one, cls=cls):
                mp, dom, m, n = avm(u, kind, one)
                M = u.int('M', 1)
                X, f, v = u.arr('X', (M, m)), u.arr('f', (M, ONE)), u.arr('v', (M, ONE))
                Y = u.arr('Y', (M, n))

                def thunk(S):
                    a = S.new(RS, 'ActiveSubspaceResponseSurface', mp, S.new(URS, cls))
                    S.meth(a, 'train_with_data', X, f, v)
                    for g in (False, True):
                        S.meth(a, 'predict', X, g)
                        S.meth(a, 'predict_av', Y, g)
                    S.meth(a, 'gradient', X)
                    S.meth(a, 'gradient_av', Y)
                    S.note(S.ip.call(a, [X]))
                    S.meth(a, 'train_with_data', X, f)
                return thunk
            frame(u, 'surface over %s (%s)' % (cls, lab), mk, stubs=st)

        def tr(u, kind=kind, one=one):
            mp, dom, m, n = avm(u, kind, one)
            N, NMC = u.int('N', 1), u.int('NMC', 1)
            R = u.int('R', 1)
            des = lambda nm: (lambda ip, *a: ip.mk((R, n), 'f', lambda i: app(nm, (i[0], i[1]), 'R')))
            u.ip.stubs.update({(DN, d): des(d) for d in ('maximin_design', 'gauss_hermite_design', 'interval_design')})
            u.ip.stubs[('utils.quadrature', 'points_per_dimension')] = lambda ip, N_, n_: app('ppd', (), 'I')
            fun = u.fun('fun')

            def thunk(S):
                S.call(RS, 'av_design', mp, N, NMC)
                a = S.new(RS, 'ActiveSubspaceResponseSurface', mp, S.new(URS, 'RadialBasisApproximation'))
                S.meth(a, 'train_with_interface', fun, N, NMC)
            return thunk
        frame(u, 'train_with_interface and av_design (%s)' % lab, tr, stubs=st)


@unit('P24', 'polynomial surface', [URS + '.PolynomialApproximation.train', URS + '.PolynomialApproximation.predict', URS + '.ResponseSurface.gradient',
                                    URS + '.ResponseSurface.__call__', URS + '.exponential_squared', URS + '.grad_exponential_squared'])
def poly(u):
    base(u, 'PolynomialApproximation')


@unit('P24', 'radial basis surface', [URS + '.RadialBasisApproximation.train', URS + '.RadialBasisApproximation.predict', URS + '._rbf_objective',
                                      URS + '.exponential_squared', URS + '.grad_exponential_squared'])
def rbf(u):
    base(u, 'RadialBasisApproximation')

    def ob(u):
        M, m, X, f, v, e = data(u, 'X', 'f', 'v', 'e')
        st = basis_stubs()
        u.ip.stubs.update(st)
        return lambda S: (S.call(URS, '_rbf_objective', u.real('l'), X, f, v, num(2), e), S.call(URS, '_rbf_objective', u.real('l'), X, f, None, num(2), e),
                          S.call(URS, '_rbf_objective', u.real('l'), X, f, v, num(2), None))
    frame(u, '_rbf_objective', ob)

    def ex(u):
        M, m, X, X2 = data(u, 'X', 'X2')
        ell = u.arr('ell', (m, ONE))
        return lambda S: (S.call(URS, 'exponential_squared', X, X2, 1.0, ell), S.call(URS, 'grad_exponential_squared', X, X2, 1.0, ell))
    frame(u, 'kernels', ex)


def basis_stubs():
    def pb(ip, X, N):
        k = ip.uid()
        P = app('nbasis', (), 'I')
        ip.assume(le(ONE, P))
        return (ip.mk((X.shape[0], P), 'f', lambda i: app('B%d' % k, tuple(i), 'R')), ip.mk((P, X.shape[1]), 'i', lambda i: app('I', tuple(i), 'I')))

    def gpb(ip, X, N):
        k = ip.uid()
        P = app('nbasis', (), 'I')
        return ip.mk((X.shape[0], P, X.shape[1]), 'f', lambda i: app('dB%d' % k, tuple(i), 'R'))
    return {(URS, 'polynomial_bases'): pb, (URS, 'grad_polynomial_bases'): gpb}


def base(u, cls):
    u.assumption('polynomial_bases and grad_polynomial_bases return fresh arrays (they are run for given dimension and order elsewhere)')
    for opt in (('X', 'f', 'w') if cls[0] == 'P' else ('X', 'f', 'v', 'e'), ('X', 'f')) + ((('X', 'f', 'v'), ('X', 'f', 'e')) if cls[0] == 'R' else ()):
        for N in (1, 2):
            if N == 2 and cls[0] == 'P' and 'w' in opt:
                pass

            def mk(u, opt=opt, N=N):
                d = data(u, 'X2', *opt)
                M, m, X2, X, f = d[:5]
                kw = dict(zip([{'w': 'weights'}.get(x, x) for x in opt[2:]], d[5:]))
                u.ip.stubs.update(basis_stubs())

                def thunk(S):
                    o = S.new(URS, cls, N)
                    S.meth(o, 'train', X, f, **kw)
                    for a in ('g', 'H', 'K', 'ell', 'poly_weights', 'radial_weights'):
                        if a in S.ip.st.objs[o.oid]:
                            S.attr(o, a)
                    S.meth(o, 'predict', X2)
                    S.meth(o, 'predict', X2, True)
                    S.meth(o, 'gradient', X2)
                    S.note(S.ip.call(o, [X2]))
                    S.meth(o, 'train', X, f, **kw)
                return thunk
            frame(u, '%s order %d %s' % (cls, N, '/'.join(opt)), mk)


@unit('P24', 'designs and quadratures', [DN + '.' + f for f in ('interval_design', 'gauss_hermite_design', 'maximin_design')] +
      [QD + '.' + f for f in ('gauss_hermite', 'gauss_legendre', 'g1d', 'jacobi_matrix', 'r_hermite', 'r_jacobi')])
def designs(u):
    def jm(u):
        N = u.int('N', 3)
        ab = u.arr('ab', (add(N, ONE), num(2)))
        return lambda S: (S.call(QD, 'jacobi_matrix', ab), S.call(QD, 'jacobi_matrix', ab))
    frame(u, 'jacobi_matrix', jm)
    for k in (0, 1):
        frame(u, 'jacobi_matrix (order %d)' % k, lambda u, k=k: (lambda ab: lambda S: (S.call(QD, 'jacobi_matrix', ab), S.call(QD, 'jacobi_matrix', ab)))(
            u.arr('ab', (num(k + 1), num(2)))))
    for f in ('r_hermite', 'r_jacobi'):
        frame(u, f, lambda u, f=f: (lambda N: lambda S: [S.call(QD, f, N, *((-1, 1, 0, 0) if f == 'r_jacobi' else ())) for _ in range(2)])(u.int('N', 1)))
    for f in ('gh1d', 'gl1d'):
        frame(u, f, lambda u, f=f: (lambda N: lambda S: [S.call(QD, f, N) for _ in range(2)])(u.int('N', 1)))

    def one(ip, n):
        k = ip.uid()
        n = term(n)
        ip.assume(le(ONE, n))
        return (ip.mk((n, ONE), 'f', lambda i: app('x%d' % k, (i[0],), 'R')), ip.mk((n, ONE), 'f', lambda i: app('w%d' % k, (i[0],), 'R')))
    for f in ('gauss_hermite', 'gauss_legendre'):
        for d in (1, 2, 3):
            def mk(u, f=f, d=d):
                Ns = [u.int('N%d' % k, 1) for k in range(d)]

                def thunk(S):
                    L = S.ip.newlist(list(Ns))
                    S.call(QD, f, L)
                    S.call(QD, f, L)
                    items = S.ip.concrete_items(L)
                    u.check(f + ': the list passed in is unchanged', items is not None and [term(x) for x in items] == Ns)
                return thunk
            frame(u, '%s in %d dimensions' % (f, d), mk, stubs={(QD, 'gh1d'): one, (QD, 'gl1d'): one})

    def ghd(u):
        n, R = u.int('n', 1), u.int('R', 1)
        u.ip.stubs[(QD, 'gauss_hermite')] = lambda ip, N: (ip.mk((R, n), 'f', lambda i: app('x', tuple(i), 'R')), ip.mk((R, ONE), 'f', lambda i: app('w', (i[0],), 'R')))
        NN = u.arr('NN', (n,), 'i')
        return lambda S: (S.call(DN, 'gauss_hermite_design', NN), S.call(DN, 'gauss_hermite_design', NN))
    frame(u, 'gauss_hermite_design', ghd)
    frame(u, 'interval_design', lambda u: (lambda a, b, N: lambda S: (S.call(DN, 'interval_design', a, b, N), S.call(DN, 'interval_design', a, b, N)))(
        u.real('a'), u.real('b'), u.int('N', 1)))


@unit('P24', 'runners and normalizers', [SR + '.SimulationRunner.run', SR + '.SimulationGradientRunner.run'] + [
    MISC + '.%s.%s' % (c, f) for c in ('BoundedNormalizer', 'UnboundedNormalizer') for f in ('__init__', 'normalize', 'unnormalize')] +
      [MISC + '.' + f for f in ('process_inputs', 'process_inputs_outputs', 'atleast_2d_row', 'atleast_2d_col')])
def runners(u):
    for cls, nc in (('SimulationRunner', 1), ('SimulationGradientRunner', None)):
        def mk(u, cls=cls, nc=nc):
            M, m, X = data(u, 'X')
            fun = u.fun('fun', ncol=nc if nc else m)

            def thunk(S):
                r = S.new(SR, cls, fun)
                S.meth(r, 'run', X)
                S.meth(r, 'run', X)
            return thunk
        frame(u, cls, mk)

    def bn(u):
        M, m, X = data(u, 'X')
        lb, ub = u.arr('lb', (m,)), u.arr('ub', (m,))

        def thunk(S):
            b = S.new(MISC, 'BoundedNormalizer', lb, ub)
            for _ in range(2):
                S.meth(b, 'normalize', X)
                S.meth(b, 'unnormalize', X)
        return thunk
    frame(u, 'BoundedNormalizer', bn)

    def un(u):
        M, m, X = data(u, 'X')
        mu, C_ = u.arr('mu', (m,)), u.arr('C', (m, m))

        def thunk(S):
            b = S.new(MISC, 'UnboundedNormalizer', mu, C_)
            for _ in range(2):
                S.meth(b, 'normalize', X)
                S.meth(b, 'unnormalize', X)
        return thunk
    frame(u, 'UnboundedNormalizer', un)

    def pi(u):
        M, m, X, f = data(u, 'X', 'f')
        v = u.arr('vv', (m,))

        def thunk(S):
            S.call(MISC, 'process_inputs', X)
            S.call(MISC, 'process_inputs_outputs', X, f)
            for g in ('atleast_2d_row', 'atleast_2d_col'):
                S.call(MISC, g, v)
                S.call(MISC, g, X)
        return thunk
    frame(u, 'argument helpers', pi)


@unit('P24', 'programs', [QP + '.QPSolver.' + f for f in ('linear_program_eq', 'linear_program_ineq', 'quadratic_program_bnd', 'quadratic_program_ineq')])
def programs(u):
    from contracts import c_opt
    for name, (args, quad, sense, bnd) in c_opt.PROBLEMS.items():
        def mk(u, name=name, args=args):
            d = c_opt.data(u)
            a = [d[k] for k in args.split()]

            def thunk(S):
                q = S.new(QP, 'QPSolver', 'SCIPY')
                S.meth(q, name, *a)
            return thunk
        frame(u, name, mk)
