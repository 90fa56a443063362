"""Malformed arguments are refused (P25)."""
from engine.run import unit
from contracts.common import *      # noqa: F401,F403

URS, SR, OPT, INT, GQ, DN = 'utils.response_surfaces', 'utils.simrunners', 'optimizers', 'integrals', 'utils.quadrature', 'utils.designs'


def any_rank(u, name):
    """an array of unknown rank other than 2: only its shape can be looked at"""
    r = u.int('rank_' + name, 0)
    u.assume(not_(eq(r, num(2))))
    ip = u.ip

    def get(k):
        k = term(k)
        if ip.ent(lt(k, ZERO)):
            k = add(k, r)
        if not ip.decide(and_(le(ZERO, k), lt(k, r))):
            raise PyExc('IndexError')
        d = app('dim_' + name, (k,), 'I')
        ip.assume(le(ZERO, d))
        return d
    return Rec('any rank', dict(shape=Rec('any rank', dict(len=r, getitem=get)), ndim=r, dtype=Opaque('dtype', {'itemsize': 8, 'kind': 'f', 'name': 'f'})))


def stranger(*names):
    """a value whose type is none of those a program could test for (except the given ones)"""
    return Opaque('typed', tuple(names))


def make(u, mod, cls, *a):
    return u.ip.call(u.ip.get(mod, cls), list(a))


def avmap(u, kind='Unbounded'):
    m, n = u.int('m', 2), u.int('n', 1)
    u.assume(lt(n, m))
    s, W, W1, W2 = orthonormal(u, m, n)
    d = dict(subspaces=s, m=m, n=n)
    if kind == 'Bounded':
        nv = u.int('nv', 2)
        d.update(vertY=u.arr('vy', (nv, n)), vertX=u.arr('vx', (nv, m)))
    dom = u.obj(DOM, kind + 'ActiveVariableDomain', **d)
    return u.obj(DOM, kind + 'ActiveVariableMap', domain=dom), m, n


def refused(u, label, thunk, exc=None, unknown=False):
    try:
        ps = u.run(thunk)
        if unknown and any(p.kind == 'exc' and not p.value.explicit for p in ps):
            raise Unsupported('use of a value of unknown type')
    except Unsupported as e:
        u.skips.append('%s [%s]' % (label, e))
        return
    for p in ps:
        if p.kind != 'exc':
            u.fail(label + ' is refused', 'accepted when %s' % ' and '.join(show(c, 5) for c in p.state.pc[-4:]))
            continue
        u.check(label + ' is refused' + (' with %s' % exc if exc else ''), exc is None or p.exc == exc, 'raises %s' % p.exc)
        u.check(label + ': nothing is computed', not families(p.state.events, ('call', 'minimize', 'linprog', 'lstsq', 'eigh')))


def entries(u):
    """(name, what it takes, call)"""
    m_ = u.int('M', 1)

    def surface(u):
        a, m, n = avmap(u)
        return u.obj(RS, 'ActiveSubspaceResponseSurface', avmap=a, respsurf=u.obj(URS, 'PolynomialApproximation', N=1))
    ip = lambda: u.ip
    F = lambda mod, f: (lambda *a: ip().call(ip().get(mod, f), list(a)))
    A = lambda o, f: (lambda *a, **k: ip().call(ip().attr(o, f), list(a), k))
    vec = lambda nm: u.arr(nm, (u.int('k', 1),))
    mat = lambda nm: u.arr(nm, (u.int('M', 1), u.int('k', 1)))
    wt = lambda: u.arr('w', (u.int('M', 1), ONE))
    out = lambda: u.arr('f', (u.int('M', 1), ONE))
    yield 'process_inputs', MISC + '.process_inputs', lambda X: F(MISC, 'process_inputs')(X)
    yield 'process_inputs_outputs', MISC + '.process_inputs_outputs', lambda X: F(MISC, 'process_inputs_outputs')(X, out())
    for f in ('normalize', 'unnormalize'):
        yield 'BoundedNormalizer.' + f, MISC + '.BoundedNormalizer.' + f, lambda X, f=f: A(u.obj(MISC, 'BoundedNormalizer', lb=u.arr('lb', (ONE, u.int('k', 1))),
                                                                                           ub=u.arr('ub', (ONE, u.int('k', 1)))), f)(X)
        yield 'UnboundedNormalizer.' + f, MISC + '.UnboundedNormalizer.' + f, lambda X, f=f: A(
            u.obj(MISC, 'UnboundedNormalizer', mu=u.arr('mu', (ONE, u.int('k', 1))), L=u.arr('L', (u.int('k', 1), u.int('k', 1)))), f)(X)
    for kind in ('Unbounded', 'Bounded'):
        yield kind + 'ActiveVariableMap.forward', DOM + '.ActiveVariableMap.forward', lambda X, k=kind: A(avmap(u, k)[0], 'forward')(X)
        yield kind + 'ActiveVariableMap.inverse', DOM + '.ActiveVariableMap.inverse', lambda X, k=kind: A(avmap(u, k)[0], 'inverse')(X, 2)
        yield kind + 'MinVariableMap.train', OPT + '.MinVariableMap.train', lambda X, k=kind: A(u.obj(OPT, k + 'MinVariableMap', domain=u.ip.attr(avmap(u, k)[0], 'domain')),
                                                                                                'train')(X, out())
    yield 'local_linear_gradients', GR + '.local_linear_gradients', lambda X: F(GR, 'local_linear_gradients')(X, out())
    yield 'finite_difference_gradients', GR + '.finite_difference_gradients', lambda X: F(GR, 'finite_difference_gradients')(X, u.fun('fun'))
    yield 'active_subspace', SUB + '.active_subspace', lambda X: F(SUB, 'active_subspace')(X, wt())
    for f in ('ols_subspace', 'qphd_subspace', 'opg_subspace'):
        yield f, SUB + '.' + f, lambda X, f=f: F(SUB, f)(X, out(), wt())
    yield 'compute(X)', SUB + '.Subspaces.compute', lambda X: A(make(u, SUB, 'Subspaces'), 'compute')(X=X, f=out(), sstype='OLS')
    yield 'compute(df)', SUB + '.Subspaces.compute', lambda X: A(make(u, SUB, 'Subspaces'), 'compute')(df=X)
    for cls, d in (('PolynomialApproximation', dict(N=2)), ('RadialBasisApproximation', dict(N=1))):
        yield cls + '.train', URS + '.%s.train' % cls, lambda X, cls=cls, d=d: A(u.obj(URS, cls, **d), 'train')(X, out())
        yield cls + '.predict', URS + '.%s.predict' % cls, lambda X, cls=cls, d=d: A(u.obj(URS, cls, **d), 'predict')(X)
    yield 'train_with_data', RS + '.ActiveSubspaceResponseSurface.train_with_data', lambda X: A(surface(u), 'train_with_data')(X, out())
    for f in ('predict', 'gradient', '__call__', 'predict_av', 'gradient_av'):
        yield 'surface.' + f, RS + '.ActiveSubspaceResponseSurface.' + f, lambda X, f=f: A(surface(u), f)(X)
    for cls in ('SimulationRunner', 'SimulationGradientRunner'):
        yield cls + '.run', SR + '.%s.run' % cls, lambda X, cls=cls: A(make(u, SR, cls, u.fun('fun')), 'run')(X)
    yield 'minimize', OPT + '.minimize', lambda X: F(OPT, 'minimize')(surface(u), X, out())


def setup(u):
    u.start(stubs={})
    k, M = u.int('k', 1), u.int('M', 1)
    return M, k




@unit('P25', 'inputs of rank other than 2', [])
def inputs(u):
    n = 0
    setup(u)
    for name, fn, call in list(entries(u)):
        setup(u)
        bad = any_rank(u, 'X')
        u.funcs.append(fn)
        refused(u, '%s: an input that is not two-dimensional' % name, lambda: call(bad), 'ValueError', unknown=True)
        n += 1
    u.check('entry points', n >= 28, n)


@unit('P25', 'well-formed inputs and outputs are accepted', [MISC + '.process_inputs', MISC + '.process_inputs_outputs'])
def accepted(u):
    for dx in 'fib':
        for df in 'fib':
            u.start()
            M, m = u.int('M', 1), u.int('m', 1)
            X, f = u.arr('X', (M, m), dx), u.arr('f', (M, ONE), df)
            what = '%s, %s' % (dx, df)
            at = lambda nm, d: lambda i, j: app(nm, (i, j), {'f': 'R', 'i': 'I', 'b': 'B'}[d])
            for p in u.call(MISC, 'process_inputs', X):
                if p.kind != 'ok':
                    u.fail('inputs are accepted: ' + what, p.exc)
                    continue
                Y, a, b = p.thing(p.value)
                u.all_eq('the inputs themselves: ' + what, p, Y, (M, m), at('X', dx))
                u.prove('the sizes of the inputs: ' + what, p, and_(eq(term(a), M), eq(term(b), m)))
            for p in u.call(MISC, 'process_inputs_outputs', X, f):
                if p.kind != 'ok':
                    u.fail('inputs and outputs are accepted: ' + what, p.exc)
                    continue
                Y, g, a, b = p.thing(p.value)
                u.all_eq('the inputs themselves: ' + what, p, Y, (M, m), at('X', dx))
                u.all_eq('the outputs themselves: ' + what, p, g, (M, ONE), at('f', df))
                u.prove('the sizes of the inputs: ' + what, p, and_(eq(term(a), M), eq(term(b), m)))


def out_entries(u):
    F = lambda mod, f: (lambda *a: u.ip.call(u.ip.get(mod, f), list(a)))
    A = lambda o, f: (lambda *a, **k: u.ip.call(u.ip.attr(o, f), list(a), k))
    w = lambda: u.arr('w', (u.int('M', 1), ONE))

    def surface(r):
        a, m, n = avmap(u)
        return u.obj(RS, 'ActiveSubspaceResponseSurface', avmap=a, respsurf=u.obj(URS, r, N=1)), m
    M = var('M', 'I')
    X = lambda m=None: u.arr('X', (M, m if m is not None else var('k', 'I')))
    yield 'process_inputs_outputs', lambda f: F(MISC, 'process_inputs_outputs')(X(), f)
    for e in ('ols_subspace', 'qphd_subspace', 'opg_subspace'):
        yield e, lambda f, e=e: F(SUB, e)(X(), f, w())
    for t in ('OLS', 'QPHD', 'OPG'):
        yield 'compute ' + t, lambda f, t=t: A(make(u, SUB, 'Subspaces'), 'compute')(X=X(), f=f, sstype=t)
    for cls in ('PolynomialApproximation', 'RadialBasisApproximation'):
        yield cls + '.train', lambda f, cls=cls: A(u.obj(URS, cls, N=1), 'train')(X(), f)

        def twd(f, cls=cls):
            a, m = surface(cls)
            return A(a, 'train_with_data')(X(m), f)
        yield 'train_with_data ' + cls, twd
    for kind in ('Unbounded', 'Bounded'):
        def mm(f, k=kind):
            a, m, n = avmap(u, k)
            return A(u.obj(OPT, k + 'MinVariableMap', domain=u.ip.attr(a, 'domain')), 'train')(X(m), f)
        yield kind + 'MinVariableMap.train', mm

    def mini(f):
        a, m = surface('PolynomialApproximation')
        return F(OPT, 'minimize')(a, X(m), f)
    yield 'minimize', mini


@unit('P25', 'outputs that are not one column with one row per input', [MISC + '.process_inputs_outputs', SUB + '.ols_subspace', SUB + '.qphd_subspace', SUB + '.opg_subspace', SUB + '.Subspaces.compute', URS + '.PolynomialApproximation.train',
    URS + '.RadialBasisApproximation.train', RS + '.ActiveSubspaceResponseSurface.train_with_data', OPT + '.MinVariableMap.train', OPT + '.minimize'])
def outputs(u):
    n = 0
    setup(u)
    for name, call in list(out_entries(u)):
        setup(u)
        bad = any_rank(u, 'f')
        refused(u, '%s: outputs that are not two-dimensional' % name, lambda: call(bad), unknown=True)
        M, k = setup(u)
        a, b = u.int('a', 0), u.int('b', 0)
        u.assume(or_(not_(eq(a, M)), not_(eq(b, ONE))))
        f = u.arr('f', (a, b))
        refused(u, '%s: outputs of another shape' % name, lambda: call(f))
        n += 1
    u.check('entry points', n >= 13, n)


def bad_ints(u):
    yield 'a float', u.real('N')
    yield 'None', None
    yield 'a text', '2'
    yield 'a vector', u.arr('Nv', (u.int('kk', 0),))
    yield 'an object of another type', stranger()


@unit('P25', 'point counts that are not integers', [INT + '.integrate', INT + '.av_integrate', INT + '.quadrature_rule', RS + '.av_design', DOM + '.ActiveVariableMap.inverse',
    SUB + '.Subspaces.partition', DOM + '.sample_z', DOM + '.nzv', GQ + '.r_hermite', GQ + '.r_jacobi'])
def counts(u):
    F = lambda mod, f: (lambda *a, **k: u.ip.call(u.ip.get(mod, f), list(a), k))
    A = lambda o, f: (lambda *a, **k: u.ip.call(u.ip.attr(o, f), list(a), k))
    num_ = 0
    for kind in ('Unbounded', 'Bounded'):
        def env():
            u.start(stubs={})
            a, m, n = avmap(u, kind)
            y = u.arr('Y', (u.int('NY', 1), n))
            fun = u.fun('fun')
            s = u.ip.attr(u.ip.attr(a, 'domain'), 'subspaces')
            return a, y, fun, s, n
        calls = [('integrate', lambda e, N: F(INT, 'integrate')(e[2], e[0], N)), ('av_integrate', lambda e, N: F(INT, 'av_integrate')(e[2], e[0], N)),
                 ('integrate: NMC', lambda e, N: F(INT, 'integrate')(e[2], e[0], 3, NMC=N)),
                 ('quadrature_rule', lambda e, N: F(INT, 'quadrature_rule')(e[0], N)), ('quadrature_rule: NMC', lambda e, N: F(INT, 'quadrature_rule')(e[0], 3, NMC=N)),
                 ('av_design', lambda e, N: F(RS, 'av_design')(e[0], N)), ('av_design: NMC', lambda e, N: F(RS, 'av_design')(e[0], 3, NMC=N)),
                 ('inverse', lambda e, N: A(e[0], 'inverse')(e[1], N)), ('partition', lambda e, N: A(e[3], 'partition')(N)),
                 ('sample_z', lambda e, N: F(DOM, 'sample_z')(N, u.arr('y', (e[4],)), u.ip.attr(e[3], 'W1'), u.ip.attr(e[3], 'W2')))]
        for name, call in calls:
            for i in range(5):
                e = env()
                what, N = list(bad_ints(u))[i]
                refused(u, '%s (%s): %s' % (name, kind, what), lambda: call(e, N), unknown=i == 4)
                num_ += 1
    for name, mod, f in (('nzv: m', DOM, lambda N: F(DOM, 'nzv')(N, 2)), ('nzv: n', DOM, lambda N: F(DOM, 'nzv')(3, N)),
                         ('r_hermite', GQ, lambda N: F(GQ, 'r_hermite')(N)), ('r_jacobi', GQ, lambda N: F(GQ, 'r_jacobi')(N, RZERO, RZERO, RZERO, RONE))):
        for i in range(5):
            u.start(stubs={})
            what, N = list(bad_ints(u))[i]
            refused(u, '%s: %s' % (name, what), lambda: f(N), unknown=i == 4)
    u.check('entry points', num_ >= 100, num_)


@unit('P25', 'objects of the wrong class, uncomputed subspaces', [INT + '.integrate', INT + '.av_integrate', INT + '.quadrature_rule', INT + '.av_quadrature_rule', RS + '.av_design',
    RS + '.ActiveSubspaceResponseSurface.__init__', DOM + '.UnboundedActiveVariableDomain.__init__', DOM + '.BoundedActiveVariableDomain.__init__', SUB + '.Subspaces.partition',
    OPT + '.av_minimize', SR + '.SimulationRunner.__init__', SR + '.SimulationGradientRunner.__init__'])
def classes(u):
    F = lambda mod, f: (lambda *a, **k: u.ip.call(u.ip.get(mod, f), list(a), k))

    def strangers():
        u.start(stubs={})
        a, m, n = avmap(u)
        dom = u.ip.attr(a, 'domain')
        s = u.ip.attr(dom, 'subspaces')
        return dict(none=None, number=u.real('x'), array=u.arr('A', (u.int('ka', 1), u.int('kb', 1))), text='text', stranger=stranger(), map=a, domain=dom,
                    subspaces=s, function=u.fun('fun'))
    for kind in ('none', 'number', 'array', 'text', 'stranger', 'domain', 'subspaces', 'function'):
        for name, call in (('integrate', lambda x, f: F(INT, 'integrate')(f, x, 3)), ('av_integrate', lambda x, f: F(INT, 'av_integrate')(f, x, 3)),
                           ('quadrature_rule', lambda x, f: F(INT, 'quadrature_rule')(x, 3)), ('av_design', lambda x, f: F(RS, 'av_design')(x, 3)),
                           ('ActiveSubspaceResponseSurface', lambda x, f: make(u, RS, 'ActiveSubspaceResponseSurface', x))):
            e = strangers()
            refused(u, '%s: %s instead of a map' % (name, kind), lambda: call(e[kind], e['function']), unknown=kind == 'stranger')
    for kind in ('none', 'number', 'array', 'text', 'stranger', 'map', 'domain', 'function'):
        for cls in ('UnboundedActiveVariableDomain', 'BoundedActiveVariableDomain'):
            e = strangers()
            refused(u, '%s: %s instead of a subspace' % (cls, kind), lambda: make(u, DOM, cls, e[kind]), unknown=kind == 'stranger')
    for cls in ('UnboundedActiveVariableDomain', 'BoundedActiveVariableDomain'):
        u.start(stubs={})
        refused(u, '%s: an uncomputed subspace' % cls, lambda: make(u, DOM, cls, make(u, SUB, 'Subspaces')))
    u.start(stubs={})
    n = u.int('n')
    refused(u, 'partition of an uncomputed subspace', lambda: u.ip.call(u.ip.attr(make(u, SUB, 'Subspaces'), 'partition'), [n]))
    # a domain of neither kind
    for name, call in (('av_quadrature_rule', lambda a, d, f: F(INT, 'av_quadrature_rule')(a, 3)), ('av_design', lambda a, d, f: F(RS, 'av_design')(a, 3)),
                       ('av_minimize', lambda a, d, f: F(OPT, 'av_minimize')(f, d))):
        u.start(stubs={})
        m, n = u.int('m', 2), u.int('n', 1)
        u.assume(lt(n, m))
        s, W, W1, W2 = orthonormal(u, m, n)
        d = u.obj(DOM, 'ActiveVariableDomain', subspaces=s, m=m, n=n)
        a = u.obj(DOM, 'ActiveVariableMap', domain=d)
        f = u.fun('fun')
        refused(u, name + ': a domain of unknown kind', lambda: call(a, d, f))
    for cls in ('SimulationRunner', 'SimulationGradientRunner'):
        for bad in (None, 'text', 'number', 'stranger'):
            u.start(stubs={})
            x = u.real('x') if bad == 'number' else stranger() if bad == 'stranger' else bad
            refused(u, '%s: %s instead of a function' % (cls, bad), lambda: make(u, SR, cls, x), unknown=bad == 'stranger')


@unit('P25', 'compute: missing data and unknown names', [SUB + '.Subspaces.compute'])
def compute(u):
    u.assumption('the estimators and partition rules meet their own contracts (P01-P05) where compute calls them')
    SS, PT = ('AS', 'OLS', 'QPHD', 'OPG'), ('EVG', 'RS', 'LI')
    seen = dict(ok=0, exc=0)
    for hx in (False, True):
        for hf in (False, True):
            for hd in (False, True):
                for st in SS + ('other', 'None'):
                    for pt in PT + ('other', 'None'):
                        u.start(stubs={})
                        ip = u.ip
                        M, m, nb = u.int('M', 1), u.int('m', 2), u.int('nboot', 0)
                        e, W = u.arr('e', (m, ONE)), u.arr('W', (m, m))
                        for f in ('active_subspace', 'ols_subspace', 'qphd_subspace', 'opg_subspace'):
                            ip.stubs[(SUB, f)] = lambda ip_, *a, **k: (e, W)
                        ip.stubs[(SUB, '_bootstrap_ranges')] = lambda ip_, *a, **k: (
                            ip_.mk((m, num(2)), 'f', lambda i: app('ebr', i, 'R')), ip_.mk((sub(m, ONE), num(3)), 'f', lambda i: app('sbr', i, 'R')),
                            ip_.mk((m, ONE), 'f', lambda i: app('lif', i, 'R')))

                        def part(ip_, *a):
                            n = app('npart', (), 'I')
                            ip_.assume(le(ONE, n), lt(n, m))
                            return (n, e)
                        for f in ('eig_partition', 'errbnd_partition', 'ladle_partition'):
                            ip.stubs[(SUB, f)] = part
                        kw = dict(X=u.arr('X', (M, m)) if hx else None, f=u.arr('f', (M, ONE)) if hf else None, df=u.arr('df', (M, m)) if hd else None,
                                  sstype=st if st in SS else None if st == 'None' else Opaque('str', SS),
                                  ptype=pt if pt in PT else None if pt == 'None' else Opaque('str', PT), nboot=nb)
                        bad = st not in SS or pt not in PT or (not hd if st == 'AS' else not (hx and hf))
                        what = 'sstype %s, ptype %s, data %s' % (st, pt, [k for k, h in (('X', hx), ('f', hf), ('df', hd)) if h])
                        for p in u.run(lambda: ip.call(ip.attr(make(u, SUB, 'Subspaces'), 'compute'), [], kw)):
                            seen[p.kind] += 1
                            if bad:
                                u.check('refused: ' + what, p.kind == 'exc', 'accepted')
                            elif pt == 'EVG':
                                u.check('accepted: ' + what, p.kind == 'ok', p.exc)
                            elif p.kind == 'ok':
                                u.prove('accepted only with a bootstrap: ' + what, p, lt(ZERO, nb))
                            else:
                                u.prove('refused only without a bootstrap: ' + what, p, eq(nb, ZERO))
    u.check('both outcomes occur', seen['ok'] > 20 and seen['exc'] > 100, seen)
