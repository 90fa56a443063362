"""Bundled test models: the gradient routine returns the exact derivative of the model routine (P23)."""
from engine.run import unit
from contracts.common import *      # noqa: F401,F403
from engine.interp import ROOT
from engine import ratfun

TF = ROOT + '/tutorials/test_functions/'
MODELS = [('borehole', 'borehole/borehole_functions.py', 'borehole', 8), ('otl', 'otl_circuit/otlcircuit_functions.py', 'circuit', 6),
          ('piston', 'piston/piston_functions.py', 'piston', 7), ('robot', 'robot/robot_functions.py', 'robot', 8),
          ('wing', 'wing_weight/wing_functions.py', 'wing', 10)]


def model(key, path, fname, m):
    @unit('P23', key, ['%s.%s' % (path, fname), '%s.%s_grad' % (path, fname)], budget=120)
    def f(u):
        u.assumption('inputs in [-1,1]; the value and its gradient are claimed where every denominator of the model is nonzero (no division by zero)')
        u.assumption('float literals stand for the decimals they are written as; exp, log, sin, cos and roots are the real functions')
        u.start()
        M = u.int('M', 1)
        X = u.arr('X', (M, dim(m)))
        fs, gs = u.call(TF + path, fname, X), u.call(TF + path, fname + '_grad', X)
        u.expect(len(fs) == 1 and len(gs) == 1, 'one path')
        pf, pg = fs[0], gs[0]
        for p in (pf, pg):
            u.check('returns normally', p.kind == 'ok', p.exc)
            u.unchanged(p)
        if pf.kind != 'ok' or pg.kind != 'ok':
            return
        i = fresh('i', 'I')
        fv_, gv = pf.thing(pf.value), pg.thing(pg.value)
        u.check('the value is a column', isinstance(fv_, Arr) and len(fv_.shape) == 2)
        u.check('the gradient is a matrix', isinstance(gv, Arr) and len(gv.shape) == 2)
        u.prove('M by 1 values', pf, and_(eq(fv_.shape[0], M), eq(fv_.shape[1], ONE)))
        u.prove('M by m gradients', pg, and_(eq(gv.shape[0], M), eq(gv.shape[1], dim(m))))
        rng = bounded_((i, M))
        cf, cg = pf.ctx(*rng), pg.ctx(*rng)
        val_ = decide(cf, pf.el(fv_, i, ZERO))
        x = [app('X', (i, num(j)), 'R') for j in range(m)]
        phys = {}
        box = ratfun.Box(lambda t: reach(t, x, phys))
        u.check('row i of the value depends on row i of the input only', not contains(val_, lambda t: t.k == 'app' and t.a[0] == 'X' and t not in x))
        K = ratfun.Field(box.positive)
        # affine functions of one input are the generators: an invertible substitution
        val_ = affine_gens(val_, x, phys)
        for j in range(m):
            got = decide(cg, pg.el(gv, i, num(j)))
            got = affine_gens(got, x, phys)
            y, c1 = phys.get(x[j], (x[j], Fr(1), Fr(0)))[:2]
            want = mul(num(c1, 'R'), ratfun.diff(val_, y))
            try:
                a, b = K.ev(got), K.ev(want)
                good = K.same(a, b)
                why = 'column %d of the gradient is %s; the derivative of the value is %s' % (j, show(got, 7)[:900], show(want, 7)[:900])
            except ratfun.NotElementary as e:
                raise Unsupported('not an elementary function: %s' % e)
            if good:
                u.ok('column %d is the derivative by input %d' % (j, j), 'rational-function identity')
            else:
                u.fail('column %d is the derivative by input %d' % (j, j), why)
    return f


def decide(c, t):
    """resolves the case distinctions the context settles (which block of a stack, which column)"""
    memo = {}

    def go(s):
        if s not in memo:
            if s.k == 'ite':
                if c.entails(s.a[0]):
                    memo[s] = go(s.a[1])
                elif c.entails(not_(s.a[0])):
                    memo[s] = go(s.a[2])
                else:
                    raise Unsupported('case distinction in the value of a model')
            elif s.k in ('num', 'var') or s.s == 'I':
                memo[s] = c.isimp(s) if s.s == 'I' else s
            else:
                memo[s] = rebuild(s, go)
        return memo[s]
    return go(t)


def affine_gens(t, x, phys):
    """replaces x_j = (y_j - c0)/c1, y_j the first affine function of x_j met, so that y_j becomes a generator"""
    def find(s, seen):
        if s.id in seen:
            return
        seen.add(s.id)
        if s.k == 'add' and len(s.a[1]) == 1 and s.a[1][0][0] in x and s.a[1][0][0] not in phys:
            xj, c1 = s.a[1][0]
            phys[xj] = (var('y_%d' % x.index(xj), 'R'), c1, s.a[0])
        for c in children(s):
            find(c, seen)
    find(t, set())
    m = {xj: mul(num(1 / c1, 'R'), sub(y, num(c0, 'R'))) for xj, (y, c1, c0) in phys.items()}

    memo = {}

    def go(s):
        if s in m:
            return m[s]
        if s not in memo:
            memo[s] = s if s.k in ('num', 'var') else rebuild(s, go)
        return memo[s]
    return go(t)


def reach(t, x, phys):
    """range of an input or of an affine function of an input"""
    if t in x:
        return (Fr(-1), Fr(1))
    for y, c1, c0 in phys.values():
        if t is y:
            return (c0 - abs(c1), c0 + abs(c1))
    return None


for _m in MODELS:
    model(*_m)
