"""Assumed contracts of scipy: results of the optimisers are unknowns, the problem handed over is recorded."""
from .values import *      # noqa: F401,F403


def frz(ip, v):
    v = ip.resolve(v)
    if isinstance(v, PyList):
        return tuple(frz(ip, x) for x in (ip.concrete_items(v) or ip.st.lists[v.lid]))
    if isinstance(v, tuple):
        return tuple(frz(ip, x) for x in v)
    if isinstance(v, Arr):
        return ip.frozen(v)
    if isinstance(v, Opaque) and v.tag == 'dict':
        return {k: frz(ip, x) for k, x in ip.st.dicts[v.info].items()}
    return v


def module(ip, name):
    from . import npm
    ns = {}

    def result(kind, n, info):
        rid, f = ip.fresh_fun(kind)
        x = ip.mk((n,), 'f', lambda i: f(i))
        fun = app(rid + '_fun', tuple(ip.loopvars), 'R')
        ok = app(rid + '_success', tuple(ip.loopvars), 'B')
        status = app(rid + '_status', tuple(ip.loopvars), 'I')
        ip.assume(eq(ok, eq(status, ZERO)))
        r = Rec(kind, dict(x=x, fun=fun, success=ok, status=status, message='text', nit=app(rid + '_nit', (), 'I')))

        def get(k):
            if k in r.attrs:
                return r.attrs[k]
            raise PyExc('KeyError')
        r.attrs['getitem'] = get
        ip.st.events += ((kind, rid, info, ip.frozen(x), fun, ok, tuple(ip.loopvars)),)
        h = ip.hooks.get(kind)
        if h is not None:
            h(ip, rid, info, x, fun, ok)
        return r

    def tight(options, *tols):
        """the assumption that a reported optimum is one stands for solvers run with the usual tolerances only"""
        o = ip.resolve(options)
        vals = list(tols)
        if isinstance(o, Opaque) and o.tag == 'dict':
            vals += [v for k, v in ip.st.dicts[o.info].items() if k not in ('disp', 'maxiter', 'maxfun', 'maxls', 'maxfev', 'iprint')]
        elif o is not None:
            raise Unsupported('solver options')
        for v in vals:
            v = ip.resolve(v)
            if v is None:
                continue
            t = term(v) if is_scalar(v) else None
            if t is None or not isnum(t) or not 0 <= val(t) <= 1e-3:
                raise Unsupported('a solver option other than a small tolerance')

    def linprog(c, A_ub=None, b_ub=None, A_eq=None, b_eq=None, bounds=None, method=None, options=None, **k):
        if k:
            raise Unsupported('linprog options')
        tight(options)
        c = ip.resolve(c)
        ca = npm.toarr(ip, c)
        n = npm.size_of(ca.shape)
        info = dict(c=frz(ip, ca), A_ub=frz(ip, A_ub), b_ub=frz(ip, b_ub), A_eq=frz(ip, A_eq), b_eq=frz(ip, b_eq),
                    bounds=frz(ip, bounds), options=frz(ip, options))
        return result('linprog', n, info)

    def minimize(fun, x0, args=(), method=None, jac=None, hess=None, bounds=None, constraints=(), tol=None, options=None, **k):
        if k:
            raise Unsupported('minimize options')
        tight(options, tol)
        x0 = npm.toarr(ip, ip.resolve(x0))
        n = npm.size_of(x0.shape)
        info = dict(fun=ip.resolve(fun), x0=frz(ip, x0), args=frz(ip, args), method=ip.resolve(method), jac=ip.resolve(jac),
                    bounds=frz(ip, bounds), constraints=frz(ip, constraints), options=frz(ip, options), raw_constraints=constraints)
        return result('minimize', n, info)

    def fminbound(func, x1, x2, args=(), xtol=None, maxfun=None, full_output=0, disp=1):
        tight(None, xtol)
        rid, f = ip.fresh_fun('fminbound')
        x = app(rid, tuple(ip.loopvars), 'R')
        x1, x2 = [term(ip.resolve(v)) if is_scalar(ip.resolve(v)) else ip.at(ip.resolve(v), [ZERO] * len(ip.resolve(v).shape))
                  for v in (x1, x2)]
        fun = app(rid + '_fun', tuple(ip.loopvars), 'R')
        ierr = app(rid + '_ierr', tuple(ip.loopvars), 'I')
        nf = app(rid + '_nf', tuple(ip.loopvars), 'I')
        ip.assume(implies(le(x1, x2), and_(le(x1, x), le(x, x2))))
        ip.st.events += (('fminbound', rid, dict(func=ip.resolve(func), x1=x1, x2=x2, args=frz(ip, args)), x, fun, ierr,
                          tuple(ip.loopvars)),)
        full_output = norm(ip.resolve(full_output))
        if full_output in (True, 1):
            return (x, fun, ierr, nf)
        return x

    if name in ('scipy.optimize', 'scipy'):
        o = dict(linprog=Prim('linprog', linprog), minimize=Prim('minimize', minimize), fminbound=Prim('fminbound', fminbound))

        def scalar(*a, **k):
            raise Unsupported('minimize_scalar')
        o['minimize_scalar'] = Prim('minimize_scalar', scalar)
        if name == 'scipy.optimize':
            return ModVal(name, o)
        ns['optimize'] = ModVal('scipy.optimize', o)
    if name in ('scipy.misc', 'scipy.special', 'scipy'):
        def comb(N, k, exact=False, **kw):
            N, k = norm(ip.resolve(N)), norm(ip.resolve(k))
            if isinstance(N, int) and isinstance(k, int):
                import math
                return num(math.comb(N, k), 'R') if not exact else math.comb(N, k)
            return app('comb', (term(N), term(k)), 'I') if exact else real(app('comb', (term(N), term(k)), 'I'))

        def factorial(n, exact=False):
            return npm._fact(ip, n)
        ns.update(comb=Prim('comb', comb), factorial=Prim('factorial', factorial))
    if name in ('scipy.spatial', 'scipy'):
        sp = {}

        def ConvexHull(P):
            P = npm.toarr(ip, ip.resolve(P))
            rid, f = ip.fresh_fun('hull', 'I')
            nv = app(rid + '_nv', tuple(ip.loopvars), 'I')
            ns_ = app(rid + '_ns', tuple(ip.loopvars), 'I')
            ip.assume(le(ONE, nv), le(nv, P.shape[0]), le(ONE, ns_))
            vert = ip.mk((nv,), 'i', lambda i: app(rid, tuple(ip.loopvars) + tuple(i), 'I'))
            N = P.shape[0]
            ip.add_schema(rid, lambda a: [((rid, a), and_(le(ZERO, a), lt(a, N)))])
            dimn = P.shape[1]
            eqs = ip.mk((ns_, add(dimn, ONE)), 'f', lambda i: app(rid + '_eq', tuple(ip.loopvars) + tuple(i), 'R'))
            simp = ip.mk((ns_, dimn), 'i', lambda i: app(rid + '_s', tuple(ip.loopvars) + tuple(i), 'I'))
            ip.add_schema(rid + '_s', lambda a: [((rid, a), and_(le(ZERO, a), lt(a, N)))])
            ip.st.events += (('hull', rid, ip.frozen(P), nv, ns_, tuple(ip.loopvars)),)
            return Rec('ConvexHull', dict(points=ip.thaw(ip.frozen(P)), vertices=vert, equations=eqs, simplices=simp, nsimplex=ns_))

        def Delaunay(P):
            P = npm.toarr(ip, ip.resolve(P))
            rid, f = ip.fresh_fun('delaunay', 'I')
            ns_ = app(rid + '_ns', tuple(ip.loopvars), 'I')
            ip.assume(le(ONE, ns_))
            N, d = P.shape
            simp = ip.mk((ns_, add(d, ONE)), 'i', lambda i: app(rid + '_s', tuple(ip.loopvars) + tuple(i), 'I'))
            ip.add_schema(rid + '_s', lambda a: [((rid, a), and_(le(ZERO, a), lt(a, N)))])

            def find(X, bruteforce=False, tol=None):
                tight(None, tol)
                X = npm.toarr(ip, ip.resolve(X))
                LX = ip.ctx().canon(ip.lamof(X))
                r = ip.mk((X.shape[0],), 'i', lambda i: app(rid + '_find', (LX, i[0]), 'I'))
                ip.add_schema(rid + '_find', lambda a: [((rid, a), and_(le(num(-1), a), lt(a, ns_)))])
                ip.st.events += (('find_simplex', rid, ip.frozen(X), LX),)
                return r
            ip.st.events += (('delaunay', rid, ip.frozen(P), ns_, tuple(ip.loopvars)),)
            return Rec('Delaunay', dict(points=ip.thaw(ip.frozen(P)), simplices=simp, nsimplex=ns_, vertices=simp,
                                        find_simplex=Prim('find_simplex', find)))

        def distance_matrix(x, y, p=2, **k):
            x, y = npm.toarr(ip, ip.resolve(x)), npm.toarr(ip, ip.resolve(y))
            if norm(p) != 2:
                raise Unsupported('distance_matrix')
            if not ip.decide(eq(x.shape[1], y.shape[1])):
                raise PyExc('ValueError')
            fx, fy = ip.frozen(x), ip.frozen(y)

            def el(i):
                j = fresh('d', 'I')
                a, b = ip.at(fx, [i[0], j]), ip.at(fy, [i[1], j])
                return fn('sqrt', tsum(j, ZERO, x.shape[1], power(sub(a, b), num(2))))
            return ip.mk((x.shape[0], y.shape[0]), 'f', el)
        sp.update(ConvexHull=Prim('ConvexHull', ConvexHull), Delaunay=Prim('Delaunay', Delaunay),
                  distance_matrix=Prim('distance_matrix', distance_matrix))
        if name == 'scipy.spatial':
            return ModVal(name, sp)
        ns['spatial'] = ModVal('scipy.spatial', sp)
    return ModVal(name, ns)
