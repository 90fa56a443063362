"""Simulation runners (P21) and finite differences (P06)."""
from engine.run import unit
from engine.unit import *           # noqa: F401,F403
from engine.unit import families
from engine.values import *         # noqa: F401,F403

SR = 'utils.simrunners'


def model(name, ncol, form, raises=False):
    """a black-box model that may keep state: its answer depends on the number of the call and on its argument"""
    def res(ip, x, lamx):
        if not isinstance(x, Arr) or len(x.shape) != 2:
            raise Wrong('the model is called with something that is not a two-dimensional array')
        r = row(ip, x, ZERO)
        lv = tuple(ip.loopvars)
        f = lambda j: app(name, lv + (ip.ctx().canon(r), j), 'R')
        if form == 'scalar':
            return f(ZERO)
        if form == 'vector':
            return ip.mk((dim(ncol),), 'f', lambda i: f(i[0]))
        return ip.mk((ONE, dim(ncol)), 'f', lambda i: f(i[1]))
    return SymFun(name, res, raises)


def rowX(m, i, name='X', s='R'):
    v = fresh('l', 'I')
    return lam([v], [m], app(name, (i, v), s))


def check_calls(u, p, name, M, m, count, s='R'):
    fams = families(p.state.events, ('call',))
    if len(fams) != 1:
        return u.fail('one call per row', '%d families of calls' % len(fams))
    binders, guard, ev = fams[0]
    if len(binders) != 1 or guard:
        return u.fail('one call per row', 'calls are nested or conditional')
    k, n = binders[0]
    u.equal('number of calls', p, n, count)
    x = ev[2]
    if not isinstance(x, Frozen) or len(x.shape) != 2:
        return u.fail('argument of the model', 'not two-dimensional')
    rng = [le(ZERO, k), lt(k, n)]
    u.equal('argument is one row', p, x.shape[0], ONE, extra=rng)
    u.equal('argument has m columns', p, x.shape[1], m, extra=rng)
    j = fresh('j', 'I')
    u.prove('argument is row k', p, eq(p.el(x, ZERO, j), app('X', (k, j), s)), extra=rng + [le(ZERO, j), lt(j, m)])


def runner(cls, grad):
    fname = '%s.run' % cls
    forms = ('matrix', 'vector') if grad else ('matrix', 'scalar', 'vector')

    @unit('P21', '%s calls the model once per row and keeps every result' % cls, [SR + '.' + fname, SR + '.%s.__init__' % cls,
                                                                                  'utils.misc.process_inputs'])
    def f1(u):
        for form, dt, again in [(form, 'f', False) for form in forms] + [('matrix', 'i', False), ('matrix', 'f', True), ('matrix', 'f', 'same')]:
            # again: the same runner has run before, on any number of rows (or on as many)
            u.start()
            NONFIN.add('f')
            M, m = u.int('M', 0), u.int('m', 1)
            X = u.arr('X', (M, m), dt)
            X0 = u.arr('Xbefore', (M if again == 'same' else u.int('Mbefore', 0), m)) if again else None
            f = model('f', m if grad else 1, form)
            C = u.ip.get(SR, cls)
            what = form + (', integer inputs' if dt == 'i' else '') + (', second run' if again else '')

            def thunk():
                r = u.ip.call(C, [f])
                if again:
                    u.ip.call(u.ip.attr(r, 'run'), [X0])
                    u.ip.st.events = ()
                return u.ip.call(u.ip.attr(r, 'run'), [X])
            for p in u.run(thunk):
                if p.kind != 'ok':
                    u.fail('returns normally (%s)' % what, 'raises %s' % p.exc)
                    continue
                u.all_eq('result (%s)' % what, p, p.value, (M, m) if grad else (M, ONE),
                         lambda i, j: app('f', (i, u.ip.ctx().canon(rowX(m, i, s='I' if dt == 'i' else 'R')), j), 'R') if not isnum(m) else None)
                if p.ctx().consistent((le(ONE, M),)):
                    check_calls(u, p, 'f', M, m, M, 'I' if dt == 'i' else 'R')
                u.unchanged(p)
                u.den('defined', p)

    @unit('P21', '%s lets an exception of the model through' % cls, [SR + '.' + fname])
    def f2(u):
        u.start()
        M, m = u.int('M', 1), u.int('m', 1)
        X = u.arr('X', (M, m))
        f = model('f', m if grad else 1, 'matrix', raises=True)
        C = u.ip.get(SR, cls)
        seen = set()
        for p in u.run(lambda: u.ip.call(u.ip.attr(u.ip.call(C, [f]), 'run'), [X])):
            seen.add(p.kind)
            if p.kind == 'exc':
                u.check('only exceptions of the model leave', p.exc == 'ModelError', p.exc)
            else:
                # no call of this run raised
                k = fresh('k', 'I')
                u.prove('a normal return means that no call raised', p,
                        not_(app('f_raises', (u.ip.ctx().canon(lam([IDX[0], IDX[1]], [ONE, m], app('X', (k, IDX[1]), 'R'))),), 'B')),
                        extra=[le(ZERO, k), lt(k, M)])
        u.check('the exception is not swallowed', 'exc' in seen)

    @unit('P21', '%s refuses bad models and inputs' % cls, [SR + '.' + fname, SR + '.%s.__init__' % cls])
    def f3(u):
        for bad in (None, 3, 'text', 2.5):
            u.start()
            C = u.ip.get(SR, cls)
            for p in u.run(lambda: u.ip.call(C, [flt(bad) if isinstance(bad, float) else bad])):
                u.check('model %r is refused' % (bad,), p.kind == 'exc' and p.exc == 'TypeError', p.kind)
        for nd in (1, 3):
            u.start()
            dims = [u.int('d%d' % i, 1) for i in range(nd)]
            X = u.arr('X', dims)
            f = model('f', 1, 'matrix')
            C = u.ip.get(SR, cls)
            for p in u.run(lambda: u.ip.call(u.ip.attr(u.ip.call(C, [f]), 'run'), [X])):
                u.check('%d-dimensional inputs are refused' % nd, p.kind == 'exc' and p.exc == 'ValueError', p.kind)
                u.check('... before the model is called', not p.state.events)


runner('SimulationRunner', False)
runner('SimulationGradientRunner', True)


@unit('P06', 'finite_difference_gradients', ['gradients.finite_difference_gradients', SR + '.SimulationRunner.run'])
def fd(u):
    for how in ('function', 'runner'):
        u.start()
        M, m = u.int('M', 1), u.int('m', 1)
        X = u.arr('X', (M, m))
        h = u.real('h')
        u.assume(not_(eq(h, RZERO)))

        def res(ip, x, lamx):
            return ip.mk((ONE, ONE), 'f', lambda i: app('f', (ip.ctx().canon(row(ip, x, ZERO)),), 'R'))
        f = SymFun('f', res, False)
        ip = u.ip
        g = ip.get('gradients', 'finite_difference_gradients')
        C = ip.get(SR, 'SimulationRunner')

        def at(i, j):
            """f at x_i + h e_j (j = None: at x_i)"""
            v = fresh('l', 'I')
            b = app('X', (i, v), 'R')
            if j is not None:
                b = add(b, ite(eq(v, j), h, RZERO))
            return app('f', (lam([v], [m], b),), 'R')
        for p in u.run(lambda: ip.call(g, [X, f if how == 'function' else ip.call(C, [f]), h])):
            if p.kind != 'ok':
                u.fail('returns normally', p.exc)
                continue
            u.all_eq('forward difference at the right point (%s)' % how, p, p.value, (M, m),
                     lambda i, j: div(sub(at(i, j), at(i, None)), h))
            # the multiset of evaluation points: call number r is base point r (r < M), else x_{(r-M)%M} + h e_{(r-M)//M}
            fams = families(p.state.events, ('call',))
            total = ZERO
            for b, g_, e in fams:
                n = ONE
                for k, c in b:
                    n = mul(n, c)
                total = add(total, n)
            u.check('calls are unconditional', not any(g_ for b, g_, e in fams))
            u.equal('number of evaluations is M(m+1)', p, total, mul(M, add(m, ONE)))
            if len(fams) == 1 and len(fams[0][0]) == 1:
                (k, n), e = fams[0][0][0], fams[0][2]
                i, j = fresh('i', 'I'), fresh('j', 'I')
                l = fresh('l', 'I')
                rng = [le(ZERO, i), lt(i, M), le(ZERO, j), lt(j, m), le(ZERO, l), lt(l, m)]
                base = subst(p.el(e[2], ZERO, l), {k: i})
                u.prove('each base point is evaluated', p, eq(base, app('X', (i, l), 'R')), extra=rng)
                pert = subst(p.el(e[2], ZERO, l), {k: add(M, add(mul(j, M), i))})
                u.prove('each perturbed point is evaluated', p,
                        eq(pert, add(app('X', (i, l), 'R'), ite(eq(l, j), h, RZERO))), extra=rng)
            u.unchanged(p)
