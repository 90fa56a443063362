"""Linear and quadratic programs (P20)."""
from engine.run import unit
from contracts.common import *      # noqa: F401,F403
from engine.npm import toarr

QP = 'utils.qp_solver'
INF = app('GRB_INFINITY', (), 'R')


def vec(name):
    return lambda i: app(name, (i, ZERO), 'R')


def Qs(i, j):
    """element of a symmetric matrix (every symmetric matrix is S + S^T)"""
    return add(app('S', (i, j), 'R'), app('S', (j, i), 'R'))


def data(u):
    n, m = u.int('n', 1), u.int('m', 1)
    d = dict(n=n, m=m, c=u.arr('c', (n, ONE)), A=u.arr('A', (m, n)), b=u.arr('b', (m, ONE)), lb=u.arr('lb', (n, ONE)), ub=u.arr('ub', (n, ONE)))
    Q = u.ip.mk((n, n), 'f', lambda i: Qs(i[0], i[1]))
    u.inputs.append(('Q', Q.cell, u.ip.st.heap[Q.cell]))
    d['Q'] = Q
    return d


PROBLEMS = {            # name -> (arguments, quadratic, sense of A x ? b, bounded)
    'linear_program_eq': ('c A b lb ub', False, '=', True),
    'linear_program_ineq': ('c A b', False, '>', False),
    'quadratic_program_bnd': ('c Q lb ub', True, None, True),
    'quadratic_program_ineq': ('c Q A b', True, '>', False)}


def objective(n, x, quad):
    i, j, k = fresh('i', 'I'), fresh('j', 'I'), fresh('k', 'I')
    r = tsum(k, ZERO, n, mul(app('c', (k, ZERO), 'R'), x(k)))
    if quad:
        r = add(r, tsum(i, ZERO, n, tsum(j, ZERO, n, mul(x(i), mul(Qs(i, j), x(j))))))
    return r


def row_of_A(n, x, i):
    j = fresh('j', 'I')
    return tsum(j, ZERO, n, mul(app('A', (i, j), 'R'), x(j)))


def bounds_of(u, p, b, n):
    """(lower(k), upper(k)) of a bounds argument; None stands for no bound"""
    if isinstance(b, tuple) and len(b) == 1 and isinstance(b[0], SymSeq):
        q = b[0]
        u.prove('one pair of bounds per variable', p, eq(q.n, n))
        v = q.value
        u.expect(isinstance(v, tuple) and len(v) == 2, 'bounds')

        def pick(i):
            x = v[i]
            if x is None:
                return lambda k: None
            return lambda k: subst(term(x), {q.var: k})
        return pick(0), pick(1)
    if isinstance(b, Frozen) and len(b.shape) == 2:
        u.prove('one pair of bounds per variable', p, and_(eq(b.shape[0], n), eq(b.shape[1], num(2))))
        return (lambda k: p.el(b, k, ZERO)), (lambda k: p.el(b, k, ONE))
    if isinstance(b, tuple) and len(b) == 2:
        return (lambda k: b[0]), (lambda k: b[1])
    u.expect(False, 'bounds %r' % (b,))


def same_bounds(u, p, b, n, bounded):
    k = fresh('k', 'I')
    rng = bounded_((k, n))
    if not bounded:
        if b is None:
            return u.ok('no bounds')
        lo, hi = bounds_of(u, p, b, n)
        u.check('variables are free', lo(k) is None and hi(k) is None or (lo(k) is neg(INF) and hi(k) is INF))
        return
    u.check('bounds are handed over', b is not None)
    lo, hi = bounds_of(u, p, b, n)
    u.check('both bounds are handed over', lo(k) is not None and hi(k) is not None)
    u.prove('lower bounds', p, eq(lo(k), app('lb', (k, ZERO), 'R')), extra=rng)
    u.prove('upper bounds', p, eq(hi(k), app('ub', (k, ZERO), 'R')), extra=rng)


class Ctx0(object):
    """state of the run at the call of the solver"""

    def __init__(self, u):
        self.u = u

    def ctx(self, *extra):
        return self.u.ip.ctx().child(extra)


def scipy_hook(u, d, quad, sense, got):
    """checks the closures handed to scipy.optimize.minimize at the moment of the call"""
    n, m = d['n'], d['m']

    def hook(ip, rid, info, x, fun, ok):
        xs = ip.mk((n,), 'f', lambda i: app('x', (i[0],), 'R'))
        xv = lambda k: app('x', (k,), 'R')
        j = fresh('j', 'I')
        f = ip.resolve(ip.call(info['fun'], [xs], {}))
        fv = term(f) if is_scalar(f) else ip.at(f, [ZERO] * len(f.shape))
        c = lambda *e: ip.ctx().child(e)
        u.prove('objective handed over', c(), eq(fv, objective(n, xv, quad)))
        if info['jac'] is not None and info['jac'] is not False:
            u.expect(info['jac'] is not True, 'jac=True')
            g = ip.resolve(ip.call(info['jac'], [xs], {}))
            u.check('gradient is a vector', isinstance(g, Arr) and len(g.shape) == 1, g)
            i = fresh('i', 'I')
            want = app('c', (j, ZERO), 'R')
            if quad:
                want = add(want, mul(num(2), tsum(i, ZERO, n, mul(xv(i), Qs(i, j)))))
            u.prove('gradient has n entries', c(), eq(g.shape[0], n))
            u.prove('gradient of the objective', c(*bounded_((j, n))), eq(ip.at(g, [j]), want))
        cons = info['constraints']
        if isinstance(cons, dict):
            cons = (cons,)
        if not sense:
            u.check('no further constraints', not cons)
        else:
            u.check('one constraint', cons is not None and len(cons) == 1)
            cd = cons[0]
            u.expect(isinstance(cd, dict), 'constraints')
            u.check('inequality constraint', cd.get('type') == 'ineq', cd.get('type'))
            v = ip.resolve(ip.call(cd['fun'], [xs], {}))
            i = fresh('i', 'I')
            u.check('one constraint value per row', isinstance(v, Arr) and len(v.shape) == 1)
            u.prove('m constraint values', c(), eq(v.shape[0], m))
            u.prove('constraint is A x - b', c(*bounded_((i, m))), eq(ip.at(v, [i]), sub(row_of_A(n, xv, i), app('b', (i, ZERO), 'R'))))
            if cd.get('jac') is not None:
                J = ip.resolve(ip.call(cd['jac'], [xs], {}))
                u.check('Jacobian is a matrix', isinstance(J, Arr) and len(J.shape) == 2)
                u.prove('shape of the Jacobian', c(), and_(eq(J.shape[0], m), eq(J.shape[1], n)))
                u.prove('Jacobian is A', c(*bounded_((i, m), (j, n))), eq(ip.at(J, [i, j]), app('A', (i, j), 'R')))
        got.append(rid)
    return hook


def outcome(u, p, okc, xs, n):
    """optimum reported <=> the solution is returned as n-by-1; otherwise an exception"""
    if p.kind == 'ok':
        u.prove('returns only when the solver reports an optimum', p, okc)
        u.all_eq('returns the solution', p, p.value, (n, ONE), lambda i, j: xs(i))
        u.unchanged(p)
    else:
        u.prove('raises only when the solver reports no optimum', p, not_(okc))


for _name in PROBLEMS:
    def _make(name):
        argn, quad, sense, bnd = PROBLEMS[name]

        @unit('P20', 'scipy: %s' % name, [QP + '._scipy_' + name, QP + '.QPSolver.' + name, QP + '.QPSolver.__init__'])
        def f(u):
            u.assumption('scipy.optimize.linprog/minimize: res.success means res.x solves the problem handed over (to solver tolerance)')
            for want in ('SCIPY', 'GUROBI', 'other'):
                u.start()
                ip = u.ip
                d = data(u)
                n, m = d['n'], d['m']
                got = []
                ip.hooks['minimize'] = scipy_hook(u, d, quad, sense, got)
                C = ip.get(QP, 'QPSolver')
                args = [d[k] for k in argn.split()]
                for p in u.run(lambda: ip.call(ip.attr(ip.call(C, [want]), name), args)):
                    ev = p.events('linprog', 'minimize')
                    u.check('one problem is posed', len(ev) == 1, 'got %d (%s %s)' % (len(ev), p.kind, p.value))
                    kind, rid, info, x, fun, ok, lv = ev[0]
                    xs = lambda i: p.el(x, i)
                    if kind == 'linprog':
                        u.check('linear problems only', not quad)
                        k = fresh('k', 'I')
                        u.check('cost is a vector', len(info['c'].shape) in (1, 2))
                        cc = lambda k: p.el(info['c'], k) if len(info['c'].shape) == 1 else p.el(info['c'], k, ZERO)
                        u.prove('n costs', p, eq(info['c'].shape[0], n))
                        u.prove('cost', p, eq(cc(k), app('c', (k, ZERO), 'R')), extra=bounded_((k, n)))
                        same_bounds(u, p, info['bounds'], n, bnd)
                        use, no = ('A_eq', 'A_ub') if sense == '=' else ('A_ub', 'A_eq')
                        u.check('only the documented constraints', info[no] is None and info[use] is not None)
                        sg = num(1 if sense == '=' else -1)
                        u.all_eq('constraint matrix', p, info[use], (m, n), lambda i, j: mul(sg, app('A', (i, j), 'R')))
                        bb = info['b' + use[1:]]
                        be = lambda k: p.el(bb, k) if len(bb.shape) == 1 else p.el(bb, k, ZERO)
                        u.prove('m right-hand sides', p, eq(bb.shape[0], m))
                        u.prove('right-hand side', p, eq(be(k), mul(sg, app('b', (k, ZERO), 'R'))), extra=bounded_((k, m)))
                    else:
                        u.check('closures were checked', rid in got)
                        u.all_eq('the start has one entry per variable', p, info['x0'], (n,), lambda i: p.el(info['x0'], i))
                        same_bounds(u, p, info['bounds'], n, bnd)
                    outcome(u, p, ok, xs, n)
        return f
    _make(_name)


# -- gurobi: the interface of gurobipy the code uses, as a model that records the problem -----------------------------
def gurobi(ip):
    OPT = app('GRB_OPTIMAL', (), 'I')
    grb = Rec('GRB', dict(INFINITY=INF, CONTINUOUS='C', EQUAL='=', GREATER_EQUAL='>', LESS_EQUAL='<', MINIMIZE=1, MAXIMIZE=-1, OPTIMAL=OPT))

    def model(*a):
        rid = ip.uid()
        status = app('gstatus', (num(rid),), 'I')

        def addVar(lb=0.0, ub=INF, obj=0.0, vtype='C', name=''):
            u_ = tuple(ip.loopvars)
            ip.st.events += (('gvar', rid, u_, term(ip.resolve(lb)), term(ip.resolve(ub)), norm(ip.resolve(obj)), vtype),)
            return app('gx', u_, 'R')

        def addConstr(lhs, sense=None, rhs=None, name=''):
            if sense is None:
                raise Unsupported('constraint object')
            ip.st.events += (('gcon', rid, tuple(ip.loopvars), term(ip.resolve(lhs)), sense, term(ip.resolve(rhs))),)

        def setObjective(e, sense=None):
            ip.st.events += (('gobj', rid, term(ip.resolve(e)), norm(ip.resolve(sense))),)

        def optimize():
            ip.st.events += (('gopt', rid),)

        def getAttr(k, vs):
            if k not in ('x', 'X'):
                raise Unsupported('getAttr %r' % (k,))
            vs = toarr(ip, vs)
            ip.st.events += (('gget', rid, ip.frozen(vs)),)
            f = ip.frozen(vs)
            return ip.mk(vs.shape, 'f', lambda i: app('gsol', (ip.at(f, [i[0]]),), 'R'))
        nop = lambda *a, **k: None
        attrs = dict(setParam=Prim('setParam', nop), update=Prim('update', nop), addVar=Prim('addVar', addVar),
                     addConstr=Prim('addConstr', addConstr), setObjective=Prim('setObjective', setObjective),
                     optimize=Prim('optimize', optimize), getAttr=Prim('getAttr', getAttr), status=status, Status=status)
        return Rec('Model', attrs)
    zero = Prim('LinExpr', lambda *a: num(0, 'R') if not a else term(ip.resolve(a[0])))
    return ModVal('gurobipy', dict(GRB=grb, Model=Prim('Model', model), LinExpr=zero, QuadExpr=zero))


for _name in PROBLEMS:
    def _make2(name):
        argn, quad, sense, bnd = PROBLEMS[name]

        @unit('P20', 'gurobi: %s' % name, [QP + '._gurobi_' + name, QP + '.QPSolver.' + name])
        def f(u):
            u.assumption('gurobipy is not installed here: its documented interface (addVar, addConstr, setObjective, minimisation by default, '
                         'status, getAttr) is modelled; status OPTIMAL means the solution of the posed problem')
            u.start()
            ip = u.ip
            ip.hooks['external:gurobipy'] = gurobi
            d = data(u)
            n, m = d['n'], d['m']
            C = ip.get(QP, 'QPSolver')
            args = [d[k] for k in argn.split()]
            for p in u.run(lambda: ip.call(ip.attr(ip.call(C, ['GUROBI']), name), args)):
                u.check('gurobi is used when available', not p.events('linprog', 'minimize') and p.events('gopt'), (p.kind, p.value))
                ev = families(p.state.events, ('gvar', 'gcon', 'gobj', 'gopt', 'gget'))
                of = lambda k: [e for e in ev if e[2][0] == k]
                u.check('one model', len(set(e[2][1] for e in ev)) == 1)
                gx = lambda k: app('gx', (k,), 'R')
                u.expect(len(of('gvar')) == 1 and len(of('gvar')[0][0]) == 1 and not of('gvar')[0][1], 'variables are created in one loop')
                (k, cnt), = of('gvar')[0][0]
                e = of('gvar')[0][2]
                u.prove('n variables', p, eq(cnt, n))
                u.check('continuous variables without cost', e[6] == 'C' and e[5] == 0)
                rng = bounded_((k, n))
                u.prove('lower bounds', p, eq(e[3], app('lb', (k, ZERO), 'R') if bnd else neg(INF)), extra=rng)
                u.prove('upper bounds', p, eq(e[4], app('ub', (k, ZERO), 'R') if bnd else INF), extra=rng)
                if sense is None:
                    u.check('no constraints', not of('gcon'))
                else:
                    u.expect(len(of('gcon')) == 1 and len(of('gcon')[0][0]) == 1, 'constraints are added in one loop')
                    u.check('constraints are added unconditionally', not of('gcon')[0][1])
                    (i, cnt), = of('gcon')[0][0]
                    e = of('gcon')[0][2]
                    u.prove('m constraints', p, eq(cnt, m))
                    u.check('sense of the constraints', e[4] == ('=' if sense == '=' else '>'), e[4])
                    u.prove('A x against b', p, eq(sub(e[3], e[5]), sub(row_of_A(n, gx, i), app('b', (i, ZERO), 'R'))), extra=bounded_((i, m)))
                u.check('one objective', len(of('gobj')) == 1 and not of('gobj')[0][0] and not of('gobj')[0][1])
                e = of('gobj')[0][2]
                u.check('minimisation', e[3] in (None, 1), e[3])
                u.prove('objective', p, eq(e[2], objective(n, gx, quad)))
                u.check('solved once, after the problem is complete', len(of('gopt')) == 1 and ev[-1][2][0] in ('gopt', 'gget') and
                        [x[2][0] for x in ev].index('gopt') == len([x for x in ev if x[2][0] in ('gvar', 'gcon', 'gobj')]))
                rid = ev[0][2][1]
                okc = eq(app('gstatus', (num(rid),), 'I'), app('GRB_OPTIMAL', (), 'I'))
                outcome(u, p, okc, lambda i: app('gsol', (gx(i),), 'R'), n)
        return f
    _make2(_name)


# -- P18 --------------------------------------------------------------------------------------------------------------
OPT = 'optimizers'


def avfunction(u, n):
    """function of the active variables: a vector of n entries (any shape with n entries) to a number"""
    def res(ip, x, lamx):
        x = ip.resolve(x)
        if is_scalar(x):
            a = lam([fresh('l', 'I')], [ONE], term(x))
        else:
            f = ip.frozen(x)
            v = fresh('l', 'I')
            if len(f.shape) == 1:
                a = lam([v], [f.shape[0]], ip.at(f, [v]))
            elif len(f.shape) == 2 and f.shape[0] is ONE:
                a = lam([v], [f.shape[1]], ip.at(f, [ZERO, v]))
            else:
                raise Unsupported('shape of the argument of the function')
        return app('F', (ip.ctx().canon(a),), 'R')
    return SymFun('avfun', res, False)


def F_at(u, p, xs, n):
    v = fresh('l', 'I')
    c = p.ctx() if isinstance(p, Path) else p
    return app('F', (c.canon(lam([v], [n], xs(v))),), 'R')


def restarts(u, fname, bounded):
    for withgrad in (True, False):
        u.start(stubs={})
        ip = u.ip
        m, n = u.int('m', 1), u.int('n', 2 if bounded else 1)
        u.assume(le(n, m))
        s, W, W1, W2 = orthonormal(u, m, n)
        con, cjac = u.fun('con'), u.fun('cjac')
        kw = dict(subspaces=s, m=m, n=n)
        if bounded:
            did = ip.uid()
            ip.st.dicts[did] = {'type': 'ineq', 'fun': con, 'jac': cjac}
            kw['constraints'] = Opaque('dict', did)
        dom = u.obj(DOM, ('Bounded' if bounded else 'Unbounded') + 'ActiveVariableDomain', **kw)
        f = avfunction(u, n)
        g = u.fun('avdfun') if withgrad else None
        bad = []

        def hook(ip_, rid, info, x, fun, ok):
            xs = ip_.mk((n,), 'f', lambda i: app('x', (i[0],), 'R'))
            if info['fun'] is not f:
                try:
                    v = term(ip_.resolve(ip_.call(info['fun'], [xs], {})))
                except PyExc as e:
                    bad.append('objective raises')
                    return
                u.prove('the objective is the given function', ip_.ctx(), eq(v, F_at(u, ip_.ctx(), lambda k: app('x', (k,), 'R'), n)))
            u.prove('start of dimension n', ip_.ctx(), eq(info['x0'].shape[0], n))
            # res.fun is the value of the objective at res.x; values are finite
            ip_.assume(eq(fun, F_at(u, ip_.ctx(), lambda k: ip_.at(x, [k]), n)))
            ip_.assume(and_(lt(fun, num(10 ** 100, 'R')), lt(fun, var('NONFINITE_inf', 'R'))))
            if bounded:
                cs = info['constraints']
                cs = cs if isinstance(cs, (tuple, list)) else (cs,)
                if not (len(cs) == 1 and isinstance(cs[0], dict) and cs[0].get('type') == 'ineq' and cs[0].get('fun') is con):
                    bad.append('constraints of the domain are not handed over: %r' % (cs,))
                elif cs[0].get('jac') not in (None, cjac):
                    bad.append('Jacobian of the constraints')
            if info['jac'] is not None and info['jac'] is not g:
                y = ip_.call(info['jac'], [xs], {})
                bad.append('gradient')
        ip.hooks['minimize'] = hook
        for p in u.call(OPT, fname, f, dom, g):
            ev = p.events('minimize')
            u.expect(all(not e[6] for e in ev) and not families(p.state.events, ('loop',)), 'restarts are a fixed number')
            if p.kind != 'ok':
                u.prove('raises only when a local solve failed', p, not_(and_(*[e[5] for e in ev])))
                continue
            u.check('there are restarts', len(ev) >= 1)
            for i, e in enumerate(ev):
                u.prove('restart %d succeeded' % i, p, e[5])
            y, v = p.value
            y = p.thing(y)
            u.check('minimiser is an array', isinstance(y, Arr), y)
            if len(y.shape) == 1:
                u.prove('n entries', p, eq(y.shape[0], n))
                yk = lambda k: p.el(y, k)
            else:
                u.prove('n entries', p, and_(eq(y.shape[0], ONE), eq(y.shape[1], n)))
                yk = lambda k: p.el(y, ZERO, k)
            v = term(v)
            for i, e in enumerate(ev):
                u.prove('value at most that of restart %d' % i, p, le(v, e[4]))
            alt, rng = [], []
            for e in ev:
                k = fresh('k', 'I')
                rng += bounded_((k, n))
                alt.append(and_(eq(v, e[4]), eq(yk(k), p.el(e[3], k))))
            # refutation form: for every restart a coordinate may be chosen that differs
            u.prove('value and minimiser are those of one restart', p, or_(*alt), extra=rng)
            u.prove('no value without a minimiser: value of the function at the minimiser is a restart value', p, or_(*[eq(v, e[4]) for e in ev]))
        u.check('problem handed to the solver', not bad, bad)


@unit('P18', 'unbounded_minimize', [OPT + '.unbounded_minimize'])
def unbmin(u):
    u.assumption('scipy.optimize.minimize: res.fun is the objective at res.x; with success and SLSQP the constraints hold at res.x (to solver tolerance); '
                 'function values are finite and below 1e100')
    restarts(u, 'unbounded_minimize', False)


@unit('P18', 'zonotope_minimize', [OPT + '.zonotope_minimize'])
def zonmin(u):
    restarts(u, 'zonotope_minimize', True)


@unit('P18', 'interval_minimize', [OPT + '.interval_minimize'])
def intmin(u):
    u.assumption('scipy.optimize.fminbound: returns a point of the interval, its value, and 0 when it converged')
    u.start()
    ip = u.ip
    m = u.int('m', 1)
    s, W, W1, W2 = orthonormal(u, m, ONE)
    V = u.arr('V', (num(2), ONE))
    a, b = app('V', (ZERO, ZERO), 'R'), app('V', (ONE, ZERO), 'R')
    u.assume(lt(a, b))
    dom = u.obj(DOM, 'BoundedActiveVariableDomain', subspaces=s, m=m, n=1, vertY=V)
    f = u.fun('avfun')
    for p in u.call(OPT, 'interval_minimize', f, dom):
        ev = p.events('fminbound')
        u.expect(len(ev) == 1, 'one bounded minimisation')
        _, rid, info, x, fun, ierr, lv = ev[0]
        u.check('of the given function', info['func'] is f)
        u.prove('over the whole interval', p, and_(eq(info['x1'], a), eq(info['x2'], b)))
        if p.kind != 'ok':
            u.prove('raises only when the solver failed', p, not_(eq(ierr, ZERO)))
            continue
        u.prove('returns only when the solver converged', p, eq(ierr, ZERO))
        y, v = p.value
        u.all_eq('one active point: the minimiser', p, y, (ONE, ONE), lambda i, j: x)
        u.prove('inside the interval', p, and_(le(a, p.el(y, ZERO, ZERO)), le(p.el(y, ZERO, ZERO), b)))
        u.prove('its value', p, eq(term(v), fun))
        u.unchanged(p)


@unit('P18', 'av_minimize', [OPT + '.av_minimize'])
def avmin(u):
    for kind in ('Unbounded', 'interval', 'zonotope'):
        for g in (None, 'g'):
            u.start(stubs={})
            ip = u.ip
            m, n = u.int('m', 1), u.int('n', 1)
            u.assume(le(n, m))
            if kind == 'interval':
                u.assume(eq(n, ONE))
            if kind == 'zonotope':
                u.assume(le(num(2), n))
            mp, dom = avmap_of_(u, 'Unbounded' if kind == 'Unbounded' else 'Bounded', m, n)
            f, df = u.fun('avfun'), u.fun('avdfun') if g else None

            def stub(name, withg):
                def call(ip_, *a):
                    ip_.st.ghost.setdefault(name, []).append(a)
                    return (ip_.mk((n,), 'f', lambda i: app('y', (i[0],), 'R')), app('v', (), 'R'))
                return call
            names = dict(Unbounded='unbounded_minimize', interval='interval_minimize', zonotope='zonotope_minimize')
            for k, nm in names.items():
                ip.stubs[(OPT, nm)] = stub(nm, k != 'interval')
            args = [f, dom] + ([df] if g else [])
            for p in u.call(OPT, 'av_minimize', *args):
                if p.kind != 'ok':
                    u.fail('returns normally', p.exc)
                    continue
                gh = p.state.ghost
                used = [nm for nm in names.values() if nm in gh]
                u.check(kind + ': the minimiser of this domain', used == [names[kind]] and len(gh[names[kind]]) == 1, used)
                a = gh[names[kind]][0]
                u.check(kind + ': for this function and domain', a[0] is f and a[1] is dom)
                if len(a) > 2 and kind != 'interval':
                    u.check(kind + ': with the given gradient', a[2] in (None, df))
                y, v = p.value
                u.all_eq(kind + ': one point of dimension n', p, y, (ONE, n), lambda i, j: app('y', (j,), 'R'))
                u.prove(kind + ': value', p, eq(term(v), app('v', (), 'R')))


def avmap_of_(u, kind, m, n, domattrs=None):
    s, W, W1, W2 = orthonormal(u, m, n)
    d = dict(subspaces=s, m=m, n=n)
    d.update(domattrs or {})
    dom = u.obj(DOM, kind + 'ActiveVariableDomain', **d)
    return u.obj(DOM, kind + 'ActiveVariableMap', domain=dom), dom


@unit('P18', 'minimize', [OPT + '.minimize', MISC + '.process_inputs_outputs'])
def fullmin(u):
    for kind in ('Unbounded', 'Bounded'):
        u.start(stubs={})
        ip = u.ip
        m, n, M = u.int('m', 2), u.int('n', 1), u.int('M', 1)
        u.assume(lt(n, m))
        mp, dom = avmap_of_(u, kind, m, n)
        a = u.obj(RS, 'ActiveSubspaceResponseSurface', avmap=mp, respsurf=None)
        X, f = u.arr('X', (M, m)), u.arr('f', (M, ONE))
        log = ip.st.ghost

        def rowlam(ip_, Y):
            return row(ip_, ip_.frozen(Y), ZERO)

        def pav(ip_, self, Y, compgrad=False):
            if self is not a:
                raise Unsupported('another surface')
            r = ip_.ctx().canon(rowlam(ip_, Y))
            return (ip_.mk((Y.shape[0], ONE), 'f', lambda i: app('F', (r,), 'R')), None)

        def gav(ip_, self, Y):
            r = ip_.ctx().canon(rowlam(ip_, Y))
            return ip_.mk(Y.shape, 'f', lambda i: app('dF', (r, i[1]), 'R'))
        ip.stubs[(RS, '.predict_av')] = pav
        ip.stubs[(RS, '.gradient_av')] = gav

        def amin(ip_, fun, avdom, avdfun=None):
            ip_.st.ghost.setdefault('min', []).append(avdom)
            ys = ip_.mk((n,), 'f', lambda i: app('x', (i[0],), 'R'))
            v = term(ip_.resolve(ip_.call(fun, [ys], {})))
            u.prove('objective is the predicted value', ip_.ctx(), eq(v, F_at(u, ip_.ctx(), lambda k: app('x', (k,), 'R'), n)))
            if avdfun is not None:
                j = fresh('j', 'I')
                g = ip_.resolve(ip_.call(avdfun, [ys], {}))
                vv = fresh('l', 'I')
                L = ip_.ctx().canon(lam([vv], [n], app('x', (vv,), 'R')))
                u.check('gradient is a vector', len(g.shape) == 1)
                u.prove('gradient of the objective', ip_.ctx().child(bounded_((j, n))), eq(ip_.at(g, [j]), app('dF', (L, j), 'R')))
            return (ip_.mk((ONE, n), 'f', lambda i: app('y', (i[1],), 'R')), app('v', (), 'R'))
        ip.stubs[(OPT, 'av_minimize')] = amin

        def train(ip_, self, X_, f_):
            ip_.st.ghost.setdefault('train', []).append((self, ip_.frozen(X_), ip_.frozen(f_)))

        def inv(ip_, self, Y, N=1):
            ip_.st.ghost.setdefault('inv', []).append((self, ip_.frozen(Y), norm(N)))
            return (ip_.mk((ONE, m), 'f', lambda i: app('x', (i[1],), 'R')), ip_.mk((ONE, ONE), 'f', lambda i: RZERO))
        ip.stubs[(OPT, '.train')] = train
        ip.stubs[(DOM, '.inverse')] = inv
        for p in u.call(OPT, 'minimize', a, X, f):
            if p.kind != 'ok':
                u.fail('returns normally', '%s %s' % (p.exc, p.value.eargs))
                continue
            g = p.state.ghost
            u.check('one minimisation over the domain of the surface', len(g.get('min', [])) == 1 and g['min'][0] is dom)
            u.check('one minimising map', len(g.get('train', [])) == 1 and len(g.get('inv', [])) == 1)
            o, x_, f_ = g['train'][0]
            u.check('of the kind of the domain', o.cls.name == kind + 'MinVariableMap' and p.attr(o, 'domain') is dom and g['inv'][0][0] is o)
            u.all_eq('trained on the inputs', p, x_, (M, m), lambda i, j: app('X', (i, j), 'R'))
            u.all_eq('trained on the outputs', p, f_, (M, ONE), lambda i, j: app('f', (i, ZERO), 'R'))
            u.all_eq('inverse of the minimiser', p, g['inv'][0][1], (ONE, n), lambda i, j: app('y', (j,), 'R'))
            u.check('one point', g['inv'][0][2] == 1)
            xs, v = p.value
            u.all_eq('the point', p, xs, (ONE, m), lambda i, j: app('x', (j,), 'R'))
            u.prove('the value reported', p, eq(term(v), app('v', (), 'R')))
            u.unchanged(p)


# -- P19 --------------------------------------------------------------------------------------------------------------
def minmap(u, bounded, small, history=False):
    """train a minimising map on (X, f), then map NY active points back; history: the map was trained and used on other data before"""
    u.start(stubs={})
    ip = u.ip
    m, n, M, NY = u.int('m', 2), u.int('n', 1), u.int('M', 1), u.int('NY', 1)
    u.assume(lt(n, m))
    u.assume(le(sub(m, n), num(2)) if small else lt(num(2), sub(m, n)))
    P = add(n, ONE) if small else add(n, num(2))
    ip.base.rules.insert(0, w_rule(m))
    s, W, W1, W2 = orthonormal(u, m, n)
    kind = 'Bounded' if bounded else 'Unbounded'
    dom = u.obj(DOM, kind + 'ActiveVariableDomain', subspaces=s, m=m, n=n)
    mp = u.obj(OPT, kind + 'MinVariableMap', domain=dom)
    X, f, Y = u.arr('X', (M, m)), u.arr('f', (M, ONE)), u.arr('Y', (NY, n))
    H = lambda i, j: add(app('S', (i, j), 'R'), app('S', (j, i), 'R'))
    g = lambda i: app('g', (i, ZERO), 'R')

    def poly_train(ip_, self, X_, f_, weights=None):
        p_ = ip_.frozen(X_).shape[1]
        d = ip_.st.objs[self.oid]
        if not ip_.st.ghost.get('second'):
            # a training before the one that counts, on other data
            d['g'] = ip_.mk((p_, ONE), 'f', lambda i: app('gbefore', (i[0], ZERO), 'R'))
            d['H'] = ip_.mk((p_, p_), 'f', lambda i: add(app('Sbefore', (i[0], i[1]), 'R'), app('Sbefore', (i[1], i[0]), 'R')))
            return
        ip_.st.ghost['fit'] = ip_.st.ghost.get('fit', ()) + ((self, ip_.frozen(X_), ip_.frozen(f_), weights, norm(ip_.st.objs[self.oid].get('N'))),)
        d['g'] = ip_.mk((p_, ONE), 'f', lambda i: g(i[0]))
        d['H'] = ip_.mk((p_, p_), 'f', lambda i: H(i[0], i[1]))
    ip.stubs[('utils.response_surfaces', 'PolynomialApproximation.train')] = poly_train

    # the quadratic model in full space: gradient b and Hessian A at the origin
    a_, c_ = fresh('a', 'I'), fresh('c', 'I')
    b_ = lambda i: tsum(a_, ZERO, P, mul(W_(i, a_), g(a_)))
    A_ = lambda i, j: tsum(a_, ZERO, P, tsum(c_, ZERO, P, mul(W_(i, a_), mul(H(a_, c_), W_(j, c_)))))
    W2_ = lambda i, k: W_(i, add(k, n))
    r = sub(m, n)

    def lin(y):
        """W2^T (b + A W1 y)"""
        def f_(k):
            i, j, q = fresh('i', 'I'), fresh('j', 'I'), fresh('q', 'I')
            return tsum(i, ZERO, m, mul(W2_(i, k), add(b_(i), tsum(j, ZERO, m, mul(A_(i, j), tsum(q, ZERO, n, mul(W_(j, q), y(q))))))))
        return f_

    def quad(k, l):
        i, j = fresh('i', 'I'), fresh('j', 'I')
        return add(tsum(i, ZERO, m, tsum(j, ZERO, m, mul(W2_(i, k), mul(A_(i, j), W2_(j, l))))), ite(eq(k, l), num(Fr(1, 100), 'R'), RZERO))
    xs = lambda k: app('z', (k,), 'R')
    qps = []

    def qpi(ip_, self, c, Q, A, b):
        c, Q, A, b = [ip_.frozen(toarr(ip_, x)) for x in (c, Q, A, b)]
        lv = tuple(ip_.loopvars)
        if not ip_.st.ghost.get('second'):
            return ip_.mk((r, ONE), 'f', lambda i_: app('zbefore', lv + (i_[0],), 'R'))
        qps.append(lv)
        u.expect(len(lv) == 1, 'one program per row, in one loop')
        t = lv[0]
        cx = lambda *e: ip_.ctx().child(e)
        k, l, i, q = fresh('k', 'I'), fresh('l', 'I'), fresh('i', 'I'), fresh('q', 'I')
        y = lambda q_: app('Y', (t, q_), 'R')
        u.check('shapes of the program', [len(z.shape) for z in (c, Q, A, b)] == [2, 2, 2, 2])
        u.prove('m-n unknowns', cx(), and_(eq(c.shape[0], r), eq(Q.shape[0], r), eq(Q.shape[1], r), eq(A.shape[1], r), eq(A.shape[0], b.shape[0])))
        at = lambda z, *e: subst(z.body, dict(zip(IDX, e)))
        u.prove('linear term: W2^T (b + A W1 y)', cx(*bounded_((k, r))), eq(at(c, k, ZERO), lin(y)(k)))
        u.prove('quadratic term: half of W2^T A W2 + 0.01 I', cx(*bounded_((k, r), (l, r))),
                eq(add(at(Q, k, l), at(Q, l, k)), quad(k, l)))
        # constraints: the rows are exactly  W2_i z >= -1 - (W1 y)_i  and  -W2_i z >= -1 + (W1 y)_i
        s_ = lambda i_: tsum(q, ZERO, n, mul(W_(i_, q), y(q)))
        u.prove('2m constraints', cx(), eq(A.shape[0], mul(num(2), m)))
        c2 = cx(*bounded_((i, m), (l, r)))
        up = c2.prove(eq(at(A, i, l), W2_(i, l)), 0, ())[0]
        o1, o2 = (i, add(i, m)) if up else (add(i, m), i)
        u.prove('x >= -1: matrix', c2, eq(at(A, o1, l), W2_(i, l)))
        u.prove('x >= -1: right-hand side', c2, eq(at(b, o1, ZERO), sub(num(-1, 'R'), s_(i))))
        u.prove('x <= 1: matrix', c2, eq(at(A, o2, l), neg(W2_(i, l))))
        u.prove('x <= 1: right-hand side', c2, eq(at(b, o2, ZERO), add(num(-1, 'R'), s_(i))))
        return ip_.mk((r, ONE), 'f', lambda i_: app('z', lv + (i_[0],), 'R'))
    ip.stubs[('utils.qp_solver', 'QPSolver.quadratic_program_ineq')] = qpi

    X0, f0, Y0 = u.arr('Xbefore', (M, m)), u.arr('fbefore', (M, ONE)), u.arr('Ybefore', (NY, n))

    def thunk():
        if history:
            ip.call(ip.attr(mp, 'train'), [X0, f0])
            ip.call(ip.attr(mp, 'inverse'), [Y0])
        ip.st.events = ()
        ip.st.ghost['second'] = True
        ip.call(ip.attr(mp, 'train'), [X, f])
        return ip.call(ip.attr(mp, 'inverse'), [Y])
    for p in u.run(thunk):
        if p.kind != 'ok':
            u.fail('returns normally', '%s %s' % (p.exc, p.value.eargs))
            continue
        fit = p.state.ghost.get('fit', [])
        u.check('one quadratic fit', len(fit) == 1 and fit[0][4] == 2, fit)
        o, x_, f_, wt, N_ = fit[0]
        q = fresh('q', 'I')
        u.all_eq('fit on the leading %s eigenvector coordinates' % ('n+1' if small else 'n+2'), p, x_, (M, P),
                 lambda i, j: tsum(q, ZERO, m, mul(app('X', (i, q), 'R'), W_(q, j))))
        u.all_eq('fit to the outputs', p, f_, (M, ONE), lambda i, j: app('f', (i, ZERO), 'R'))
        u.check('without weights', wt is None)
        Xs, ind = p.value
        Xs = p.thing(Xs)
        u.check('points form a matrix', isinstance(Xs, Arr) and len(Xs.shape) == 2)
        u.prove('one point per active point', p, and_(eq(Xs.shape[0], NY), eq(Xs.shape[1], m)))
        t, j, k, l = fresh('t', 'I'), fresh('j', 'I'), fresh('k', 'I'), fresh('l', 'I')
        act = tsum(q, ZERO, m, mul(p.el(Xs, t, q), W_(q, j)))
        u.prove('active coordinates are y', p, eq(act, app('Y', (t, j), 'R')), extra=bounded_((t, NY), (j, n)))
        ina = lambda k_: tsum(q, ZERO, m, mul(p.el(Xs, t, q), W2_(q, k_)))
        if bounded:
            u.check('the program is solved for every row', len(qps) > 0)
            u.prove('inactive coordinates solve the program of the row', p, eq(ina(k), app('z', (t, k), 'R')), extra=bounded_((t, NY), (k, r)))
        else:
            sv = families(p.state.events, ('solve',))
            u.expect(len(sv) == 1 and len(sv[0][0]) <= 1 and not sv[0][1], 'one linear solve per row')
            e = sv[0][2]
            S, rhs, z = e[1], e[2], e[3]
            sb = {}
            if sv[0][0]:
                u.prove('a solve for every row', p, eq(sv[0][0][0][1], NY))
                sb = {sv[0][0][0][0]: t}
                col = lambda fz, k_: subst(p.el(fz, k_, ZERO) if len(fz.shape) == 2 else p.el(fz, k_), sb)
            else:
                col = lambda fz, k_: p.el(fz, k_, t)
            y = lambda q_: app('Y', (t, q_), 'R')
            rg = bounded_((t, NY), (k, r), (l, r))
            u.prove('system matrix: Hessian of the model (up to the sign of the system)', p, eq(subst(p.el(S, k, l), sb), quad(k, l)), extra=rg)
            # Q z = -c with the coordinates z, or Q z = c with the coordinates -z
            flip = p.ctx().prove(implies(and_(*rg), eq(col(rhs, k), lin(y)(k))))[0]
            sg = neg if flip else (lambda t_: t_)
            u.prove('right-hand side: minus the linear term, so the gradient of the model vanishes', p, eq(sg(col(rhs, k)), neg(lin(y)(k))), extra=rg)
            u.prove('inactive coordinates are the solution of the row', p, eq(ina(k), sg(col(z, k))), extra=rg)
        u.all_eq('index', p, ind, (NY, ONE), lambda i, j_: real(i))
        u.unchanged(p)


for _b in (False, True):
    for _s in (False, True):
        def _mk3(b, s):
            nm = ('Bounded' if b else 'Unbounded') + 'MinVariableMap'

            @unit('P19', '%s (%s)' % (nm, 'm-n <= 2' if s else 'm-n > 2'),
                  [OPT + '.MinVariableMap.train', OPT + '.%s.regularize_z' % nm, DOM + '.ActiveVariableMap.inverse', DOM + '._rotate_x'])
            def f(u):
                u.assumption('PolynomialApproximation.train yields g and a symmetric H (contract of P15); the quadratic program solver meets its contract (P20); '
                             'W2^T A W2 + 0.01 I is positive definite where a minimiser is asked for without bounds')
                minmap(u, b, s)
                minmap(u, b, s, True)
        _mk3(_b, _s)


@unit('P19', 'N other than 1 is refused', [OPT + '.BoundedMinVariableMap.regularize_z', OPT + '.UnboundedMinVariableMap.regularize_z'])
def refuse(u):
    for kind in ('Bounded', 'Unbounded'):
        u.start()
        m, n, N, NY = u.int('m', 2), u.int('n', 1), u.int('N'), u.int('NY', 1)
        u.assume(lt(n, m), not_(eq(N, ONE)))
        s, W, W1, W2 = orthonormal(u, m, n)
        dom = u.obj(DOM, kind + 'ActiveVariableDomain', subspaces=s, m=m, n=n)
        mp = u.obj(OPT, kind + 'MinVariableMap', domain=dom, _bz=u.arr('bz', (sub(m, n), ONE)), _zAy=u.arr('zAy', (sub(m, n), n)),
                   _zAz=u.arr('zAz', (sub(m, n), sub(m, n))))
        Y = u.arr('Y', (NY, n))
        for p in u.method(mp, 'inverse', Y, N):
            u.check('raises', p.kind == 'exc', p.value)
