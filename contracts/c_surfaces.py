"""Response surfaces over the active variables (P17)."""
from engine.run import unit
from contracts.common import *      # noqa: F401,F403
from contracts.c_opt import avmap_of_
from engine.npm import toarr

RSU = 'utils.response_surfaces'


def surface(u, ip, mp, kind='PolynomialApproximation'):
    """an active-subspace surface over an arbitrary row-wise surface F with gradient dF"""
    rs_ = u.obj(RSU, kind)

    def predict(ip_, self, Y, compgrad=False):
        Yf = ip_.frozen(toarr(ip_, Y))
        ip_.st.ghost.setdefault('predict', []).append((self, Yf, norm(ip_.resolve(compgrad))))
        f = ip_.mk((Yf.shape[0], ONE), 'f', lambda i: app('F', (ip_.ctx().canon(row(ip_, Yf, i[0])),), 'R'))
        if norm(ip_.resolve(compgrad)) in (False, 0):
            return (f, None)
        return (f, ip_.mk(Yf.shape, 'f', lambda i: app('dF', (ip_.ctx().canon(row(ip_, Yf, i[0])), i[1]), 'R')))
    ip.stubs[(RSU, '.predict')] = predict
    return u.obj(RS, 'ActiveSubspaceResponseSurface', avmap=mp, respsurf=rs_), rs_


def yrow(p, i, m, n, x=None):
    """W1^T x_i as a lambda"""
    x = x or (lambda i_, q_: app('X', (i_, q_), 'R'))
    v, q = fresh('l', 'I'), fresh('q', 'I')
    return p.ctx(*bounded_((i, var('M', 'I')))).canon(lam([v], [n], tsum(q, ZERO, m, mul(x(i, q), W_(q, v)))))


@unit('P17', 'predict, gradient and call', [RS + '.ActiveSubspaceResponseSurface.predict', RS + '.ActiveSubspaceResponseSurface.gradient',
                                            RS + '.ActiveSubspaceResponseSurface.__call__', RS + '.ActiveSubspaceResponseSurface.predict_av',
                                            RS + '.ActiveSubspaceResponseSurface.gradient_av', DOM + '.ActiveVariableMap.forward'])
def predict(u):
    for how in ('predict', 'predict with gradient', 'gradient', 'call', 'predict_av', 'predict_av with gradient', 'gradient_av', 'inactive shift'):
        u.start(stubs={})
        ip = u.ip
        m, n, M = u.int('m', 1), u.int('n', 1), u.int('M', 1)
        u.assume(le(n, m))
        ip.base.rules.insert(0, w_rule(m))
        mp, dom = avmap_of_(u, 'Unbounded', m, n)
        a, rs_ = surface(u, ip, mp)
        i, j = fresh('i', 'I'), fresh('j', 'I')
        av = '_av' in how
        X = u.arr('X', (M, n if av else m))
        if how == 'inactive shift':
            Z = u.arr('Z', (M, sub(m, n)))
            X = ip.mk((M, m), 'f', lambda k: add(app('X', tuple(k), 'R'), tsum(j, ZERO, sub(m, n), mul(app('Z', (k[0], j), 'R'), W_(k[1], add(j, n))))))
        name = how.split(' ')[0] if how not in ('call', 'inactive shift') else {'call': '__call__', 'inactive shift': 'predict'}[how]
        args = [X] + ([True] if 'with' in how else [])
        thunk = (lambda: ip.call(a, args)) if how == 'call' else (lambda: ip.call(ip.attr(a, name), args))
        for p in u.run(thunk):
            if p.kind != 'ok':
                u.fail(how + ': returns normally', '%s %s' % (p.exc, p.value.eargs))
                continue
            if av:
                v = fresh('l', 'I')
                y = p.ctx(*bounded_((i, M))).canon(lam([v], [n], app('X', (i, v), 'R')))
            else:
                y = yrow(p, i, m, n)
            val = p.value if name in ('__call__', 'gradient', 'gradient_av') else p.value[0]
            grad = p.value if name in ('gradient', 'gradient_av') else p.value[1] if isinstance(p.value, tuple) else None
            c = bounded_((i, M))
            if 'gradient' not in name:
                val = p.thing(val)
                u.check(how + ': values form a column', isinstance(val, Arr) and len(val.shape) == 2)
                u.prove(how + ': one value per row', p, and_(eq(val.shape[0], M), eq(val.shape[1], ONE)))
                u.prove(how + ': value of the surface at the active variables', p, eq(p.el(val, i, ZERO), app('F', (y,), 'R')), extra=c)
            if 'gradient' in how:
                grad = p.thing(grad)
                u.check(how + ': gradients form a matrix', isinstance(grad, Arr) and len(grad.shape) == 2)
                u.prove(how + ': shape of the gradient', p, and_(eq(grad.shape[0], M), eq(grad.shape[1], n if av else m)))
                if av:
                    u.prove(how + ': gradient of the surface', p, eq(p.el(grad, i, j), app('dF', (y, j), 'R')), extra=c + bounded_((j, n)))
                else:
                    q = fresh('q', 'I')
                    u.prove(how + ': W1 times the gradient of the surface', p, eq(p.el(grad, i, j), tsum(q, ZERO, n, mul(W_(j, q), app('dF', (y, q), 'R')))),
                            extra=c + bounded_((j, m)))
            u.check(how + ': the underlying surface is asked', all(g[0] is rs_ for g in p.state.ghost.get('predict', [])) and p.state.ghost.get('predict'))
            u.unchanged(p)


def train_stub(ip):
    def train(ip_, self, X, f, *a, **k):
        fz = lambda x: ip_.frozen(x) if isinstance(x, Arr) else x
        ip_.st.ghost.setdefault('train', []).append((self, fz(X), fz(f), [fz(x) for x in a], {n: fz(x) for n, x in k.items()}))
    return train


def fitted(u, p, rs_, kind, Y, f, v, e, rows, n):
    g = p.state.ghost.get('train', [])
    u.check('the surface is trained once', len(g) == 1 and g[0][0] is rs_, g)
    _, Y_, f_, a, k = g[0]
    u.all_eq('fitted to the active variables', p, Y_, (rows, n), Y)
    u.all_eq('and the values, in the same order', p, f_, (rows, ONE), f)
    if kind == 'RadialBasisApproximation':
        names = dict(zip(('v', 'e'), a))
        names.update(k)
        u.check('noise and eigenvalues', set(names) <= {'v', 'e'} and names.get('e') is not None, names)
        ev = names['e']
        kk = fresh('k', 'I')
        u.prove('eigenvalues of the subspace', p, eq(p.el(ev, kk, ZERO), app('e', (kk, ZERO), 'R')), extra=bounded_((kk, var('m', 'I'))))
        if v is None:
            u.check('no noise', names.get('v') is None)
        else:
            u.all_eq('noise', p, names['v'], (rows, ONE), v)
    else:
        u.check('nothing else is passed to a polynomial surface', not a and not k or all(x is None for x in list(a) + list(k.values())), (a, k))


@unit('P17', 'train_with_data', [RS + '.ActiveSubspaceResponseSurface.train_with_data', RS + '.ActiveSubspaceResponseSurface._train'])
def twd(u):
    for kind in ('PolynomialApproximation', 'RadialBasisApproximation'):
        for noise in (False, True):
            u.start(stubs={})
            ip = u.ip
            m, n, M = u.int('m', 1), u.int('n', 1), u.int('M', 1)
            u.assume(le(n, m))
            mp, dom = avmap_of_(u, 'Unbounded', m, n)
            a, rs_ = surface(u, ip, mp, kind)
            ip.stubs[(RSU, '.train')] = train_stub(ip)
            X, f, v = u.arr('X', (M, m)), u.arr('f', (M, ONE)), u.arr('v', (M, ONE))
            for p in u.method(a, 'train_with_data', X, f, *([v] if noise else [])):
                if p.kind != 'ok':
                    u.fail('returns normally', '%s %s' % (p.exc, p.value.eargs))
                    continue
                q = fresh('q', 'I')
                fitted(u, p, rs_, kind, lambda i, j: tsum(q, ZERO, m, mul(app('X', (i, q), 'R'), W_(q, j))), lambda i, j: app('f', (i, ZERO), 'R'),
                       (lambda i, j: app('v', (i, ZERO), 'R')) if noise else None, None, M, n)
                u.unchanged(p)


@unit('P17', 'train_with_interface', [RS + '.ActiveSubspaceResponseSurface.train_with_interface', RS + '.ActiveSubspaceResponseSurface._train'])
def twi(u):
    for kind in ('PolynomialApproximation', 'RadialBasisApproximation'):
        for bounded in (False, True):
            for how in ('function', 'runner'):
                u.start(stubs={})
                ip = u.ip
                m, n, N, NMC, ND, nv = u.int('m', 1), u.int('n', 1), u.int('N', 1), u.int('NMC', 1), u.int('ND', 1), u.int('nv', 2)
                u.assume(le(n, m))
                T_ = mul(ND, NMC)
                at = {}
                if bounded:
                    at = dict(vertX=u.arr('VX', (nv, m)), vertY=u.arr('VY', (nv, n)))
                mp, dom = avmap_of_(u, 'Bounded' if bounded else 'Unbounded', m, n, at)
                a, rs_ = surface(u, ip, mp, kind)
                ip.stubs[(RSU, '.train')] = train_stub(ip)

                def design(ip_, avmap, N_, NMC=10):
                    ip_.st.ghost.setdefault('design', []).append((avmap, term(N_), term(NMC)))
                    return (ip_.mk((ND, n), 'f', lambda i: app('Y', (i[0], i[1]), 'R')), ip_.mk((T_, m), 'f', lambda i: app('X', (i[0], i[1]), 'R')),
                            ip_.mk((T_, ONE), 'f', lambda i: app('float', (fdiv(i[0], NM),), 'R')))
                NM = NMC
                ip.stubs[(RS, 'av_design')] = design

                def run(ip_, self, X):
                    ip_.st.ghost.setdefault('run', []).append((self, ip_.frozen(X)))
                    return ip_.mk((X.shape[0], ONE), 'f', lambda i: app('R', (i[0],), 'R'))
                ip.stubs[('utils.simrunners', '.run')] = run

                def cond(ip_, f, ind):
                    ip_.st.ghost.setdefault('cond', []).append((ip_.frozen(f), ip_.frozen(ind)))
                    k = add(ND, nv) if bounded else ND
                    return (ip_.mk((k, ONE), 'f', lambda i: app('E', (i[0],), 'R')), ip_.mk((k, ONE), 'f', lambda i: app('V', (i[0],), 'R')))
                ip.stubs[(MISC, 'conditional_expectations')] = cond
                f = u.fun('fun')
                fun = f if how == 'function' else u.obj('utils.simrunners', 'SimulationRunner', fun=f)
                for p in u.method(a, 'train_with_interface', fun, N, NMC):
                    if p.kind != 'ok':
                        u.fail('returns normally', '%s %s' % (p.exc, p.value.eargs))
                        continue
                    g = p.state.ghost
                    u.check('one design with NMC points per design point', len(g.get('design', [])) == 1 and g['design'][0][0] is mp and
                            g['design'][0][1] is N and g['design'][0][2] is NMC, g.get('design'))
                    u.check('one run of the function', len(g.get('run', [])) == 1 and p.state.objs[g['run'][0][0].oid].get('fun') is f)
                    tot, rows = (add(T_, nv), add(ND, nv)) if bounded else (T_, ND)
                    xs = lambda i, j: ite(lt(i, T_), app('X', (i, j), 'R'), app('VX', (sub(i, T_), j), 'R')) if bounded else app('X', (i, j), 'R')
                    u.all_eq('once at each generated point and each vertex', p, g['run'][0][1], (tot, m), xs)
                    u.check('one conditional expectation', len(g.get('cond', [])) == 1)
                    fz, ind = g['cond'][0]
                    u.all_eq('of the outputs', p, fz, (tot, ONE), lambda i, j: app('R', (i,), 'R'))
                    # a point belongs to the design point it was generated from, a vertex to itself
                    iz = lambda i, j: real(ite(lt(i, T_), fdiv(i, NMC), add(ND, sub(i, T_)))) if bounded else real(fdiv(i, NMC))
                    u.all_eq('grouped by design point and vertex', p, ind, (tot, ONE), iz)
                    ys = lambda i, j: ite(lt(i, ND), app('Y', (i, j), 'R'), app('VY', (sub(i, ND), j), 'R')) if bounded else app('Y', (i, j), 'R')
                    fitted(u, p, rs_, kind, ys, lambda i, j: app('E', (i,), 'R'), lambda i, j: app('V', (i,), 'R'), None, rows, n)
                    u.unchanged(p)


@unit('P17', 'av_design', [RS + '.av_design'])
def avdesign(u):
    for kind in ('Unbounded', 'interval', 'zonotope'):
        u.start(stubs={})
        ip = u.ip
        m, n, N, NMC, ND = u.int('m', 1), u.int('n', 1), u.int('N', 1), u.int('NMC', 1), u.int('ND', 1)
        u.assume(le(n, m))
        u.assume({'interval': eq(n, ONE), 'zonotope': le(num(2), n)}.get(kind, TRUE))
        nv = num(2) if kind == 'interval' else u.int('nv', 3)
        V = u.arr('V', (nv, n))
        mp, dom = avmap_of_(u, 'Unbounded' if kind == 'Unbounded' else 'Bounded', m, n, {} if kind == 'Unbounded' else dict(vertY=V))
        k = app('k', (), 'I')
        names = dict(Unbounded='gauss_hermite_design', interval='interval_design', zonotope='maximin_design')

        def stub(nm):
            def f(ip_, *a):
                fz = [ip_.frozen(toarr(ip_, ip_.resolve(x))) if not is_scalar(ip_.resolve(x)) else term(ip_.resolve(x)) for x in a]
                ip_.st.ghost.setdefault(nm, []).append(fz)
                return ip_.mk((ND, n), 'f', lambda i: app('Y', (i[0], i[1]), 'R'))
            return f
        for nm in names.values():
            ip.stubs[('utils.designs', nm)] = stub(nm)
        ip.stubs[('utils.quadrature', 'points_per_dimension')] = lambda ip_, N_, n_: (ip_.st.ghost.setdefault('ppd', []).append((term(N_), term(n_))), k)[1]
        T_ = mul(ND, NMC)

        def inv(ip_, self, Y, N_=1):
            ip_.st.ghost.setdefault('inv', []).append((self, ip_.frozen(Y), term(N_)))
            return (ip_.mk((T_, m), 'f', lambda i: app('X', (i[0], i[1]), 'R')), ip_.mk((T_, ONE), 'f', lambda i: app('float', (fdiv(i[0], NMC),), 'R')))
        ip.stubs[(DOM, '.inverse')] = inv
        for p in u.call(RS, 'av_design', mp, N, NMC):
            if p.kind != 'ok':
                u.fail('returns normally', '%s %s' % (p.exc, p.value.eargs))
                continue
            g = p.state.ghost
            used = [x for x in names.values() if x in g]
            u.check(kind + ': the design of this domain', used == [names[kind]] and len(g[names[kind]]) == 1, used)
            a = g[names[kind]][0]
            if kind == 'Unbounded':
                u.check('points per dimension for N and n', g.get('ppd') and all(x is N and y is n for x, y in g['ppd']))
                u.all_eq('k points in each of n dimensions', p, a[0], (n,), lambda i: k)
            elif kind == 'interval':
                u.prove('of the interval', p, and_(eq(a[0], app('V', (ZERO, ZERO), 'R')), eq(a[1], app('V', (ONE, ZERO), 'R')), eq(a[2], N)))
            else:
                u.all_eq('of the vertices', p, a[0], (nv, n), lambda i, j: app('V', (i, j), 'R'))
                u.check('N points', a[1] is N)
            u.check('mapped back with NMC points each', len(g.get('inv', [])) == 1 and g['inv'][0][0] is mp and g['inv'][0][2] is NMC)
            u.all_eq('the design is mapped back', p, g['inv'][0][1], (ND, n), lambda i, j: app('Y', (i, j), 'R'))
            Y, X, ind = p.value
            u.all_eq('design', p, Y, (ND, n), lambda i, j: app('Y', (i, j), 'R'))
            u.all_eq('points', p, X, (T_, m), lambda i, j: app('X', (i, j), 'R'))
            u.all_eq('index', p, ind, (T_, ONE), lambda i, j: real(fdiv(i, NMC)))
            u.unchanged(p)
