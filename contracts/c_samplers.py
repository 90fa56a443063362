"""Samplers of the inactive variables and the bounded inverse map (P10)."""
from engine.run import unit
from contracts.common import *      # noqa: F401,F403
from engine.loops import cases_of
from engine.npm import toarr
from engine import smt
import os

QP = 'utils.qp_solver'
LV = var('lz', 'I')


def instances(f, cands, pos=True):
    """a quantifier-free consequence of f: universal quantifiers are instantiated with the candidates"""
    if not quantifies(f):
        return f
    if f.k == 'all' and pos:
        v, lo, hi, b = f.a
        out = []
        for c in cands:
            out.append(implies(and_(le(lo, c), lt(c, hi)), instances(subst(b, {v: c}), cands)))
        return and_(*out)
    if f.k in ('and', 'or'):
        return (and_ if f.k == 'and' else or_)(*[instances(x, cands, pos) for x in f.a])
    if f.k == 'not' and pos:
        return not_(instances(f.a[0], cands, False))
    if f.k == 'not':
        return not_(instances(f.a[0], cands, True))
    return TRUE if pos else FALSE


def known(f, facts):
    """f with the subformulas that are facts (or their negations) replaced by truth values"""
    if f in facts:
        return TRUE
    if not_(f) in facts:
        return FALSE
    if f.k in ('and', 'or'):
        return (and_ if f.k == 'and' else or_)(*[known(x, facts) for x in f.a])
    if f.k == 'not':
        return not_(known(f.a[0], facts))
    return f


def ratio_den(e):
    """the only x with x^-1 in e"""
    out = []

    def walk(t):
        if t.k == 'mul':
            for b, n in t.a[0]:
                if isinstance(n, int) and n < 0 and b not in out:
                    out.append(b)
        if t.k not in ('app', 'lam'):
            for c in children(t):
                walk(c)
    walk(e)
    return out[0] if len(out) == 1 else None


def apps_of(t, out=None, seen=None):
    out, seen = ([], set()) if out is None else (out, seen)
    if t not in seen:
        seen.add(t)
        if t.k == 'app':
            out.append(t)
        for c in children(t):
            apps_of(c, out, seen)
    return out


class Cube(object):
    """-1 <= W1 y + W2 z <= 1"""

    def __init__(self, u):
        self.u = u
        u.start()
        self.ip = ip = u.ip
        m, n, N = u.int('m', 2), u.int('n', 1), u.int('N', 1)
        u.assume(lt(n, m))
        self.m, self.n, self.N, self.d = m, n, N, sub(m, n)
        ip.base.rules.insert(0, w_rule(m))
        s, W, W1, W2 = orthonormal(u, m, n)
        self.sub, self.W1, self.W2 = s, W1, W2
        self.y = u.arr('y', (n,))
        self.use = {}
        # an interior point: x0 in the open cube with W1^T x0 = y; z* = W2^T x0 has distance rho > 0 from every face
        self.rho = u.real('rho')

    def s(self, j, y=None):
        k = fresh('k', 'I')
        y = y or (lambda k: app('y', (k,), 'R'))
        return tsum(k, ZERO, self.n, mul(W_(j, k), y(k)))

    def w(self, j, vec):
        return tsum(LV, ZERO, self.d, mul(W_(j, add(LV, self.n)), vec(LV)))

    def inside(self, j, vec, y=None):
        x = add(self.s(j, y), self.w(j, vec))
        return and_(le(neg(RONE), x), le(x, RONE))

    def normW2(self, j):
        return fn('sqrt', tsum(LV, ZERO, self.d, power(W_(j, add(LV, self.n)), num(2))))

    def strict(self):
        """the interior point"""
        j = fresh('j', 'I')
        x0 = lambda i: app('x0', (i,), 'R')
        zs = lambda l: self.zs(l)
        self.ip.assume(lt(RZERO, self.rho))

    def zs(self, l):
        return app('zs', (l,), 'R')

    def strict_at(self, j):
        x = add(self.s(j), self.w(j, self.zs))
        r = mul(self.normW2(j), self.rho)
        return implies(and_(*bounded_((j, self.m))), and_(le(neg(RONE), sub(x, r)), le(add(x, r), RONE)))

    # contracts of the linear programs (P20): a feasible optimum
    def lp_ineq(self, ip, self_, c, A, b):
        c, A, b = [toarr(ip, ip.resolve(x)) for x in (c, A, b)]
        k, lv = ip.uid(), tuple(ip.loopvars)
        name = 'lp%d' % k
        if len(A.shape) != 2 or len(c.shape) > 2 or len(b.shape) > 2:
            raise Unsupported('shapes of a linear program')
        q, j = fresh('q', 'I'), fresh('j', 'I')
        fc, fA, fb = ip.frozen(c), ip.frozen(A), ip.frozen(b)
        cols, rows = A.shape[1], A.shape[0]
        x = lambda i: app(name, lv + (i,), 'R')
        at1 = lambda f, i: ip.at(f, [i] + [ZERO] * (len(f.shape) - 1))
        row = lambda q_, v: tsum(LV, ZERO, cols, mul(ip.at(fA, [q_, LV]), v(LV)))
        ip.assume(tall(q, ZERO, rows, le(at1(fb, q), row(q, x))))
        if self.u.want_optimum:
            # the program must admit the interior point (z*, rho); then the optimum is at least as good
            c0 = ip.ctx()
            if c0.entails(eq(cols, add(self.d, ONE))):
                v = lambda l: ite(lt(l, self.d), self.zs(l), self.rho)
            elif c0.entails(eq(cols, self.d)):
                v = self.zs
            else:
                raise Unsupported('linear program in another space')
            self.u.prove('one constraint per face', c0, eq(rows, mul(num(2), self.m)))
            for base in (ZERO, self.m):
                qq = add(base, j)
                self.u.prove('the linear program admits the interior point', c0.child(bounded_((j, self.m))), le(at1(fb, qq), row(qq, v)),
                             hints=[self.strict_at(j)])
            obj = lambda v_: tsum(LV, ZERO, cols, mul(at1(fc, LV), v_(LV)))
            ip.assume(le(obj(x), obj(v)))
            # ghost lemma: a positive radius, hence a feasible point
            if c0.entails(eq(cols, add(self.d, ONE))):
                r = x(self.d)
                if ip.ctx().prove(le(self.rho, r))[0]:
                    ip.assume(le(self.rho, r))
                    nw = self.normW2(j)
                    v1, v2 = fresh('v', 'R'), fresh('v', 'R')
                    self.u.check('product of nonnegative factors', smt.check_valid([le(RZERO, v1), le(RZERO, v2)], le(RZERO, mul(v1, v2)))[0] == 'proved')
                    hs = [instances(tall(q, ZERO, rows, le(at1(fb, q), row(q, x))), [j, add(self.m, j)])]
                    if ip.ctx().prove(and_(le(RZERO, nw), le(RZERO, r)))[0]:
                        hs.append(le(RZERO, mul(nw, r)))
                    if ip.ctx().child(bounded_((j, self.m))).prove(self.inside(j, x), 0, hs)[0]:
                        ip.assume(tall(j, ZERO, self.m, self.inside(j, x)))
                        ip.assume(self.inside(ZERO, x))
        ip.st.events += (('lp', name),)
        return ip.mk((cols, ONE), 'f', lambda i: x(i[0]))

    def lp_eq(self, ip, self_, c, A, b, lb, ub):
        c, A, b, lb, ub = [toarr(ip, ip.resolve(x)) for x in (c, A, b, lb, ub)]
        k, lv = ip.uid(), tuple(ip.loopvars)
        name = 'lpe%d' % k
        if len(A.shape) != 2:
            raise Unsupported('shapes of a linear program')
        q = fresh('q', 'I')
        fA, fb, fl, fu = [ip.frozen(v) for v in (A, b, lb, ub)]
        x = lambda i: app(name, lv + (i,), 'R')
        at1 = lambda f, i: ip.at(f, [i] + [ZERO] * (len(f.shape) - 1))
        ip.assume(tall(q, ZERO, A.shape[0], eq(tsum(LV, ZERO, A.shape[1], mul(ip.at(fA, [q, LV]), x(LV))), at1(fb, q))))
        ip.assume(tall(q, ZERO, A.shape[1], and_(le(at1(fl, q), x(q)), le(x(q), at1(fu, q)))))
        # ghost lemma: when the program says W1^T x = y, the point W1 y + W2 (W2^T x) is x itself
        c0, j = ip.ctx().child(bounded_((q, self.n))), fresh('j', 'I')
        row = lambda q_: tsum(LV, ZERO, A.shape[1], mul(ip.at(fA, [q_, LV]), x(LV)))
        if ip.ctx().entails(and_(eq(A.shape[0], self.n), eq(A.shape[1], self.m))) and c0.prove(eq(at1(fb, q), app('y', (q,), 'R')))[0]:
            k, i = fresh('k', 'I'), fresh('i', 'I')
            z = lambda l: tsum(i, ZERO, self.m, mul(W_(i, add(l, self.n)), x(i)))
            if ip.ctx().child(bounded_((j, self.m))).prove(eq(add(self.s(j, row), self.w(j, z)), x(j)))[0]:
                ip.assume(tall(j, ZERO, self.m, eq(add(self.s(j), self.w(j, z)), x(j))))
        ip.st.events += (('lp', name),)
        return ip.mk((A.shape[1], ONE), 'f', lambda i: x(i[0]))

    def stubs(self):
        self.u.assumption('linear programs return a feasible optimum (their own contracts: P20); y is strictly feasible, so the one of '
                          'hit-and-run admits a point with positive slack')
        self.ip.stubs[(QP, '.linear_program_ineq')] = self.lp_ineq
        self.ip.stubs[(QP, '.linear_program_eq')] = self.lp_eq

    # -- one step of hit-and-run ------------------------------------------------------------------------------
    def unfold(self, t):
        """replace named products by their definitions (not inside the arguments of other functions)"""
        def go(x):
            if x.k == 'app' and x.a[0] in self.ip.named and len(x.a[1]) == len(self.ip.named[x.a[0]][0]):
                keys, body = self.ip.named[x.a[0]]
                return self.unfold(subst(body, dict(zip(keys, x.a[1]))))
            if x.k in ('app', 'lam', 'var', 'num', 'true', 'false'):
                return x
            return rebuild(x, go)
        return go(t)

    def step(self, ip, lo, hi, u0):
        """np.random.uniform(lo, hi) between the largest and smallest ratio: the move keeps every face"""
        r = app('step%d' % ip.uid(), tuple(ip.loopvars), 'R')
        ip.assume(implies(le(lo, hi), and_(le(lo, r), le(r, hi))))
        lo, hi = self.named_extreme(lo, 'amax_if'), self.named_extreme(hi, 'amin_if')
        if lo is None or hi is None:
            return r
        (L1, M1), (L2, M2) = lo.a[1], hi.a[1]
        q = fresh('q', 'I')
        c = ip.ctx()
        at = lambda L, q: axioms.at_lam(L, [q] + [ZERO] * (len(L.a[0]) - 1))
        e1, e2 = at(L1, q), at(L2, q)
        x = ratio_den(e1)
        if x is None or ratio_den(e2) is not x:
            return r
        f = c.canon_real(mul(e1, x))
        rg = bounded_((q, mul(num(2), self.m)))
        face = rg + [lt(q, self.m)], rg + [le(self.m, q)]
        j = [q, sub(q, self.m)]
        # no face is violated by the point itself
        goal = self.unfold(le(f, RZERO))
        ok = all(self.lean(ip, goal, [j_, ZERO], a) for a, j_ in zip(face, j))
        if not ok:
            return r
        one = lambda L: eq(at(L, q), ONE)
        for M, cond in ((M1, lt(RZERO, x)), (M2, lt(x, RZERO))):
            pure = self.pure(c, rg)
            if not all(pure.prove(implies(a, b))[0] for a, b in ((one(M), cond), (cond, one(M)))):
                return r
            if not self.some(c, M):
                return r
        if self.ratio_lemma():
            ip.assume(tall(q, ZERO, mul(num(2), self.m), le(f, mul(r, x))))
        return r

    def some(self, c, M):
        """the mask selects something"""
        g = not_(axioms.forall(M, lambda v, x: eq(x, ZERO)))
        names = {a.a[0] for a in apps_of(M)}
        if self.pure(c, [f for f in self.ip.st.pc if f.k == 'not' and {a.a[0] for a in apps_of(f)} & names]).prove(g)[0]:
            return True
        return c.prove(g)[0]

    def pure(self, c, facts):
        p = c.__class__(facts, self.ip.base.rules, {})
        p.deadline = c.deadline
        return p

    def ratio_lemma(self):
        """lo = the largest f/x over x > 0, hi = the smallest over x < 0, all f <= 0, r drawn between them: f <= r x"""
        if 'ratio' in self.use:
            return self.use['ratio']
        v = lambda n: var(n, 'R')
        lo, hi, r, f, x, e = [v('lem_' + n) for n in ('lo', 'hi', 'r', 'f', 'x', 'e')]
        c = self.ip.ctx().__class__()
        parts = []
        fw, xw, ew = v('lem_fw'), v('lem_xw'), v('lem_ew')
        # the largest ratio is attained, hence not positive; the smallest over x < 0 is not negative
        parts.append((implies(and_(lt(RZERO, xw), le(fw, RZERO), eq(mul(ew, xw), fw)), le(ew, RZERO))))
        parts.append((implies(and_(lt(xw, RZERO), le(fw, RZERO), eq(mul(ew, xw), fw)), le(RZERO, ew))))
        # so lo <= 0 <= hi and the draw lies between
        h = and_(le(lo, RZERO), le(RZERO, hi), implies(le(lo, hi), and_(le(lo, r), le(r, hi))), le(f, RZERO))
        h = and_(h, implies(lt(RZERO, x), and_(eq(mul(e, x), f), le(e, lo))), implies(lt(x, RZERO), and_(eq(mul(e, x), f), le(hi, e))))
        parts.append(implies(h, le(f, mul(r, x))))
        ok = True
        for g in parts:
            ok = smt.check_valid([], g)[0] == 'proved' and ok
            self.u.check('ratio lemma', ok)
        self.use['ratio'] = ok
        return ok

    def named_extreme(self, t, kind):
        t = self.ip.ctx().canon_real(t)
        return t if t.k == 'app' and t.a[0] == kind and t.a[1][0].k == 'lam' else None

    def any_norm(self, ip, a, ord, axis):
        """the step size does not matter: any nonnegative number"""
        if ord is not None or axis is not None:
            raise Unsupported('norm along an axis')
        r = app('norm%d' % ip.uid(), tuple(ip.loopvars), 'R')
        ip.assume(le(RZERO, r))
        return r

    # goals on vectors whose elements may depend on conditions
    def goals(self, vec, j, cands, facts):
        """[(assumptions, goal)] for inside(j, vec)"""
        out = []
        for c, v in cases_of(vec(LV)):
            if LV in fv(c):
                return [((), FALSE)]
            out.append((instances(c, cands), self.inside(j, lambda l: subst(v, {LV: l}))))
        return out

    def template(self, ip, key, shape, sort):
        if sort != 'R':
            return
        same = lambda a, b: a is b or ip.ctx().entails(eq(a, b))
        if len(shape) == 2 and same(shape[0], self.d) and same(shape[1], ONE):
            at = lambda rd, t: (lambda l: rd((l, ZERO)))
            count = None
        elif len(shape) == 1 and same(shape[0], self.d):
            at = lambda rd, t: (lambda l: rd((l,)))
            count = None
        elif len(shape) == 2 and same(shape[0], self.N) and same(shape[1], self.d):
            at = lambda rd, t: (lambda l: rd((t, l)))
            count = True
        elif len(shape) == 2 and same(shape[1], self.N) and same(shape[0], self.d):
            at = lambda rd, t: (lambda l: rd((l, t)))
            count = True
        else:
            return

        depth = len(ip.loopvars) + 1

        def f(rd, level=depth - 1):
            j, t = fresh('j', 'I'), fresh('t', 'I')
            done = rd.at[level]
            if rd.mode == 'use':
                if count:
                    return tall(t, ZERO, done, tall(j, ZERO, self.m, self.inside(j, at(rd, t))))
                return tall(j, ZERO, self.m, self.inside(j, at(rd, t)))
            if rd.mode == 'end' and level == depth - 1:
                done = add(done, ONE)
            rg = bounded_((j, self.m)) + (bounded_((t, done)) if count else [])
            cands = self.cands(j, t if count else None)
            gs = [implies(and_(a, *rg), g) for a, g in self.goals(at(rd, t), j, cands, ip.st.pc)]
            if all(self.lean(ip, g, cands) for g in gs):
                return TRUE, ()
            return and_(*gs) if rd.mode == 'init' else FALSE, ()
        return [lambda rd, v=v: f(rd, v) for v in (range(depth) if count else (0,))]

    def lean(self, ip, goal, cands, extra=(), pc=None):
        """the goal from the ground facts and the instances of the quantified facts about the same values"""
        heads = lambda t: {a.a[0] for a in apps_of(t) if a.a[0] not in ('W', 'y')}
        pc = ip.st.pc if pc is None else pc
        hg = heads(goal)
        steps = {h for h in hg if h.startswith('step')}
        facts = set(pc)
        qs = [known(f, facts - {f}) for f in pc if quantifies(f) and heads(f) & (steps or hg)]
        hs = [self.unfold(h) for h in (self.hints([goal], qs, cands) if not steps else [instances(f, cands) for f in qs])]
        c = self.pure(ip.ctx(), [f for f in pc if not quantifies(f)] + list(extra))
        return c.prove(goal, 0, hs)[0]

    def null_direction(self, p):
        """the exception needs a direction d with W2 d = 0 (probability 0)"""
        if p.exc != 'ValueError':
            return False
        j = fresh('j', 'I')
        fs = [self.unfold(f) for f in p.state.pc if f.k == 'all']
        for d in dict.fromkeys((a.a[0], a.a[1][:-2]) for f in fs for a in apps_of(f) if a.a[0].startswith('normal')):
            vec = lambda l: app(d[0], d[1] + (l, ZERO), 'R')
            about = [f for f in fs if any(a.a[0] == d[0] for a in apps_of(f))]
            c = self.pure(p.ctx(), [f for f in p.state.pc if not quantifies(f)] + bounded_((j, self.m)))
            if c.prove(eq(self.w(j, vec), RZERO), 0, [instances(f, [j, add(self.m, j)]) for f in about])[0]:
                self.u.assumption('a normally distributed direction d has W2 d != 0 (almost surely)')
                self.u.check('the exception needs W2 d = 0', True)
                return True
        return False

    def cands(self, j, t=None):
        return [j, add(self.m, j), ZERO] + ([t] if t is not None else [])

    def hints(self, goals, pc, cands, more=()):
        hs = list(more)
        for f in pc:
            if quantifies(f):
                hs.append(instances(f, cands))
        apps = []
        from engine.prover import collect_apps
        for f in list(goals) + hs:
            collect_apps(f, ('amin', 'amax', 'amin_if', 'amax_if', 'sel'), apps, set())
        for a in dict.fromkeys(apps):
            for key, fact in axioms.SCHEMAS[a.a[0]](a):
                hs.append(instances(fact, cands))
        return [h for h in hs if h is not TRUE]

    def result(self, p, Z, name):
        """every row of the returned array keeps the point in the cube"""
        u = self.u
        Z = p.thing(Z)
        u.check(name + ': a matrix', isinstance(Z, Arr) and len(Z.shape) == 2)
        u.prove(name + ': N rows of m-n values', p, and_(eq(Z.shape[0], self.N), eq(Z.shape[1], self.d)))
        i, j = fresh('i', 'I'), fresh('j', 'I')
        rg = bounded_((i, self.N), (j, self.m))
        el = lambda l: p.el(Z, i, l)
        cands = self.cands(j, i)
        for a, g in self.goals(el, j, cands, p.state.pc):
            if self.lean(u.ip, g, cands, rg + [a], p.state.pc):
                u.check(name + ': the point stays in the cube', True)
            else:
                u.prove(name + ': the point stays in the cube', p, g, hints=self.hints([g, a], p.state.pc, cands), extra=rg + [a])


@unit('P10', 'rejection_sampling_z', [DOM + '.rejection_sampling_z'])
def rejection(u):
    u.want_optimum = False
    C = Cube(u)
    C.stubs()
    good = 0
    for p in u.call(DOM, 'rejection_sampling_z', C.N, C.y, C.W1, C.W2):
        if p.kind != 'ok':
            u.fail('returns normally', '%s %s' % (p.exc, p.value.eargs))
            continue
        if p.thing(p.value) is None:
            continue
        good += 1
        C.result(p, p.value, 'rejection')
        u.unchanged(p)
    u.check('some path returns samples', good)


@unit('P10', 'random_walk_z', [DOM + '.random_walk_z'])
def walk(u):
    u.want_optimum = False
    C = Cube(u)
    C.stubs()
    u.ip.templates.append(C.template)
    u.ip.hooks['norm'] = C.any_norm
    good = 0
    for p in u.call(DOM, 'random_walk_z', C.N, C.y, C.W1, C.W2):
        if p.kind != 'ok':
            u.fail('returns normally', '%s %s' % (p.exc, p.value.eargs))
            continue
        good += 1
        C.result(p, p.value, 'random walk')
        u.unchanged(p)
    u.check('some path returns samples', good)


@unit('P10', 'hit_and_run_z', [DOM + '.hit_and_run_z'], budget=120)
def hit_and_run(u):
    u.want_optimum = True
    C = Cube(u)
    C.stubs()
    u.ip.assume(lt(RZERO, C.rho))
    u.ip.hooks['uniform'] = C.step
    u.ip.hooks['name_dots'] = u.ip.hooks['no_sums'] = True
    u.ip.templates.append(C.template)
    good = 0
    for p in u.call(DOM, 'hit_and_run_z', C.N, C.y, C.W1, C.W2):
        if p.kind != 'ok':
            if not C.null_direction(p):
                u.fail('returns normally', '%s %s' % (p.exc, p.value.eargs))
            continue
        good += 1
        C.result(p, p.value, 'hit and run')
        u.unchanged(p)
    u.check('some path returns samples', good)


def same_args(u, ip, given, wanted):
    """the arguments of an inner call are the ones its contract is about"""
    j, k = fresh('j', 'I'), fresh('k', 'I')
    for nm, g, w in zip(('N', 'y', 'W1', 'W2'), given, wanted):
        g = ip.resolve(g)
        c = ip.ctx()
        if nm == 'N':
            ok = is_scalar(g) and c.entails(eq(term(g), w))
        else:
            shape, f = w
            ok = isinstance(g, Arr) and len(g.shape) == len(shape) and all(c.entails(eq(a, b)) for a, b in zip(g.shape, shape))
            if ok:
                ix = [j, k][:len(shape)]
                ok = c.child(bounded_(*zip(ix, shape))).prove(eq(ip.at(ip.frozen(g), ix), f(*ix)))[0]
        u.check('the sampler is called with its %s' % nm, ok)


@unit('P10', 'sample_z', [DOM + '.sample_z'])
def sample(u):
    u.want_optimum = False
    C = Cube(u)
    wanted = (C.N, ((C.n,), lambda a: app('y', (a,), 'R')), ((C.m, C.n), W_), ((C.m, C.d), lambda a, b: W_(a, add(b, C.n))))

    def stub(name, may_fail):
        def f(ip, *a):
            same_args(u, ip, a, wanted)
            ip.st.events += (('sampler', name),)
            if may_fail and ip.decide(var('rejected', 'B')):
                return None
            el = lambda t: (lambda l: app(name, (t, l), 'R'))
            t, j = fresh('t', 'I'), fresh('j', 'I')
            ip.assume(tall(t, ZERO, C.N, tall(j, ZERO, C.m, C.inside(j, el(t)))))
            return ip.mk((C.N, C.d), 'f', lambda i: app(name, (i[0], i[1]), 'R'))
        return f
    u.ip.stubs[(DOM, 'rejection_sampling_z')] = stub('rejz', True)
    u.ip.stubs[(DOM, 'hit_and_run_z')] = stub('hitz', False)
    u.ip.stubs[(DOM, 'random_walk_z')] = stub('walkz', False)
    good = 0
    for p in u.call(DOM, 'sample_z', C.N, C.y, C.W1, C.W2):
        if p.kind != 'ok':
            u.fail('returns normally', '%s %s' % (p.exc, p.value.eargs))
            continue
        good += 1
        C.result(p, p.value, 'sample_z')
        u.unchanged(p)
    u.check('some path returns samples', good)


@unit('P10', 'BoundedActiveVariableMap.inverse', [DOM + '.ActiveVariableMap.inverse', DOM + '.BoundedActiveVariableMap.regularize_z',
                                                  DOM + '._rotate_x', MISC + '.process_inputs'])
def inverse(u):
    u.want_optimum = False
    C = Cube(u)
    m, n, d, N = C.m, C.n, C.d, C.N
    NY = u.int('NY', 1)
    dom = u.obj(DOM, 'BoundedActiveVariableDomain', subspaces=C.sub, m=m, n=n)
    mp = u.obj(DOM, 'BoundedActiveVariableMap', domain=dom)
    Y = u.arr('Y', (NY, n))
    y = lambda a: (lambda k: app('Y', (a, k), 'R'))
    z = lambda a, t: (lambda l: app('sampled', (a, t, l), 'R'))

    def sample_z(ip, N_, y_, A1, A2):
        lv = tuple(ip.loopvars)
        if len(lv) != 1:
            raise Unsupported('sample_z is not called once per row')
        same_args(u, ip, (N_, y_, A1, A2), (N, ((n,), y(lv[0])), ((m, n), W_), ((m, d), lambda a, b: W_(a, add(b, n)))))
        return ip.mk((N, d), 'f', lambda i: app('sampled', lv + (i[0], i[1]), 'R'))
    u.ip.stubs[(DOM, 'sample_z')] = sample_z
    good = 0
    for p in u.method(mp, 'inverse', Y, N):
        if p.kind != 'ok':
            u.fail('returns normally', p.exc)
            continue
        good += 1
        X = p.thing(p.value[0])
        u.check('a matrix', isinstance(X, Arr) and len(X.shape) == 2)
        u.prove('NY*N points of m coordinates', p, and_(eq(X.shape[0], mul(NY, N)), eq(X.shape[1], m)))
        a, t, j = fresh('a', 'I'), fresh('t', 'I'), fresh('j', 'I')
        rng = bounded_((a, NY), (t, N), (j, m))
        x = p.el(X, add(mul(a, N), t), j)
        # the contract of sample_z for call a
        fact = C.inside(j, z(a, t), y(a))
        u.prove('every point lies in the hypercube', p, and_(le(neg(RONE), x), le(x, RONE)), hints=[fact], extra=rng)
    u.check('some path returns points', good)
