"""Normal form of finite sums of products, integer simplification under ranges, and the goal prover."""
import itertools
import time

from .terms import *                     # noqa: F401,F403
from .terms import _mk
from . import terms as TT
from . import smt
from .smt import z3

HALF = Fr(1, 2)


class GiveUp(Exception):
    pass


class Mono(object):
    __slots__ = ('c', 'b', 'f', 'g')

    def __init__(self, c, b=(), f=None, g=frozenset()):
        self.c, self.b, self.f, self.g = Fr(c), tuple(b), f or {}, frozenset(g)

    def __repr__(self):
        return '%s %s %s %s' % (self.c, [(v.a[0], lo, hi) for v, lo, hi in self.b], self.f, list(self.g))


def fmul(f, g):
    r = dict(f)
    for a, n in g.items():
        r[a] = r.get(a, 0) + n
        if r[a] == 0:
            del r[a]
    return r


def int_subterms(t, heads, out=None, seen=None):
    if out is None:
        out, seen = [], set()
    if t in seen:
        return out
    seen.add(t)
    if t.k in heads:
        out.append(t)
    for c in children(t):
        int_subterms(c, heads, out, seen)
    return out


def nterms(t):
    from .terms import _terms
    c, d = _terms(t)
    return len(d) + (c != 0)


def polydiv(a, b):
    """integer polynomial division: yields (q, r) candidates with a = q*b + r"""
    from .terms import _terms, _from_terms, _factors
    bc, bd = _terms(b)
    leads = sorted(bd.items(), key=lambda p: -len(_factors(p[0])))
    if not leads:
        if bc == 0:
            return
        c, d = _terms(a)
        qd, qc = {}, Fr((c / bc).__floor__())
        for t, k in d.items():
            if (k / bc).denominator == 1:
                qd[t] = k / bc
        q = _from_terms(qc, qd, 'I')
        yield q, sub(a, mul(q, b))
        q2 = _from_terms(Fr(0), qd, 'I')
        if q2 is not q:
            yield q2, sub(a, mul(q2, b))
        return
    for lead, lk in leads:
        lf = _factors(lead)
        q, r = ZERO, a
        for _ in range(12):
            c, d = _terms(r)
            hit = None
            for t, k in d.items():
                tf = _factors(t)
                if all(tf.get(x, 0) >= n for x, n in lf.items()) and (k / lk).denominator == 1:
                    hit = (t, k, tf)
                    break
            if hit is None:
                break
            t, k, tf = hit
            qt = ONE
            for x, n in tf.items():
                n2 = n - lf.get(x, 0)
                if n2:
                    qt = mul(qt, power(x, num(n2)))
            qt = mul(num(k / lk, 'I'), qt)
            q = add(q, qt)
            r = sub(r, mul(qt, b))
        yield q, r
        yield sub(q, ONE), add(r, b)
        yield add(q, ONE), sub(r, b)


WITNESSES = ('amin', 'amax', 'amin_if', 'amax_if')


_instances, _quantified = {}, {}


class Ctx(object):
    """A set of facts, rewriting rules for monomials, and axiom schemas."""

    def __init__(self, facts=(), rules=(), schemas=None, parent=None):
        self.facts = list(facts)
        self.rules = list(rules)           # f(ctx, mono, scope) -> list of Mono or None
        self.schemas = dict(schemas or {})  # head -> f(app) -> list of facts
        self._cache = {}
        self._nf = {}
        self._z = None
        self.deadline = None
        self.split_depth = 0
        self._trig = None

    def child(self, extra):
        c = Ctx(self.facts + [x for x in extra if x is not TRUE], self.rules, self.schemas)
        c.deadline = self.deadline
        c.split_depth = self.split_depth
        return c

    # -- entailment of quantifier-free facts ------------------------------------------------------------------
    def _solver(self):
        if self._z is None:
            self._enc = smt.Enc()
            self._z = z3.Solver()
            self._z.set('timeout', 400)
            self._nside = 0
            for f in self.facts:
                if not quantifies(f):
                    self._z.add(self._enc.e(f))
            if self.schemas or self.triggers():
                for h in self.schema_facts(self.facts, 2):
                    if not quantifies(h):
                        self._z.add(self._enc.e(h))
            self._flush()
        return self._z

    def _flush(self):
        for s in self._enc.side[self._nside:]:
            self._z.add(s)
        self._nside = len(self._enc.side)

    def entails(self, goal, extra=()):
        if goal is TRUE:
            return True
        if goal is FALSE and not extra:
            return False
        if goal in extra or goal in self.facts:
            return True
        if goal.k == 'and':
            return all(self.entails(x, extra) for x in goal.a)
        key = (goal, frozenset(extra))
        r = self._cache.get(key)
        if r is not None:
            return r
        if self.deadline and time.time() > self.deadline:
            raise GiveUp('time limit of the unit')
        s = self._solver()
        t0 = time.time()
        s.push()
        try:
            enc = self._enc
            side0 = len(enc.side)
            for x in extra:
                s.add(enc.e(x))
            s.add(z3.Not(enc.e(goal)))
            for h in self._products(goal, extra):
                s.add(enc.e(h))
            if self.schemas or self.triggers():
                for h in self.schema_facts([goal] + list(extra), 2):
                    if not quantifies(h):
                        s.add(enc.e(h))
            for x in enc.side[side0:]:
                s.add(x)
            r = s.check() == z3.unsat
        finally:
            s.pop()
            self._flush()
        smt.STATS['queries'] += 1
        smt.STATS['time'] += time.time() - t0
        self._cache[key] = r
        return r

    def _products(self, goal, extra):
        """hints for nonlinear integer bounds: (hi-1-v)*c >= 0 and (v-lo)*c >= 0 for products v*c that occur"""
        prods = set()

        def walk(t, d=0):
            if t.k == 'mul' and t.s == 'I':
                prods.add(t)
            for c in children(t):
                if c.s in 'IB':
                    walk(c)
        walk(goal)
        for x in extra:
            walk(x)
        if not prods:
            return []
        out = []
        bounds = {}
        for f in list(extra) + self.facts:
            if f.k == 'le':
                d = sub(f.a[1], f.a[0])
                for v in fv(d):
                    if v.s == 'I':
                        bounds.setdefault(v, []).append(d)
        for p in prods:
            fs = [x for x, n in p.a[0]]
            for v in fs:
                if v.k != 'var':
                    continue
                rest = mul(*[power(x, num(n if x is not v else n - 1)) for x, n in p.a[0]])
                for d in bounds.get(v, ())[:6]:
                    out.append(implies(le(ZERO, rest), le(ZERO, mul(d, rest))))
        return out[:40]

    def consistent(self, extra=()):
        s = self._solver()
        s.push()
        n = len(self._enc.side)
        for x in extra:
            s.add(self._enc.e(x))
        for x in self._enc.side[n:]:
            s.add(x)
        r = s.check()
        s.pop()
        self._flush()
        return r != z3.unsat

    # -- integers ---------------------------------------------------------------------------------------------
    def rel(self, scope, t):
        """facts of the scope about the variables of t (transitively)"""
        vs = set(fv(t))
        out = []
        todo = list(scope)
        ch = True
        while ch:
            ch = False
            rest = []
            for f in todo:
                if fv(f) & vs and any(v.a[0].find('!') >= 0 or True for v in fv(f)):
                    if f.k != 'all':
                        out.append(f)
                        n = len(vs)
                        # only binder-like variables are followed
                        vs |= fv(f)
                        ch = True
                else:
                    rest.append(f)
            todo = rest
        return tuple(out)

    def ent(self, goal, scope):
        if goal is TRUE:
            return True
        if goal is FALSE:
            return False
        return self.entails(goal, self.rel(scope, goal))

    def isimp(self, t, scope=()):
        if t.s == 'L':
            return self.canon_lam(t, scope)
        if not (t.s in 'IB') or t.k in ('num', 'var', 'true', 'false'):
            return t
        scope = self.rel(scope, t)
        key = ('i', t, scope)
        r = self._nf.get(key)
        if r is None:
            r = self._nf[key] = self._isimp(t, scope)
        return r

    def _isimp(self, t, scope):
        k = t.k
        if t.s == 'B':
            return self.canon_bool(t, scope)
        if k in ('fdiv', 'mod'):
            a, b = self.isimp(t.a[0], scope), self.isimp(t.a[1], scope)
            q = self.divq(a, b, scope)
            if q is not None:
                return q if k == 'fdiv' else sub(a, mul(q, b))
            # take out what is divisible
            if k == 'fdiv' and a.k == 'fdiv' and not isnum(b):
                return self.isimp(fdiv(a.a[0], mul(a.a[1], b)), scope) if False else fdiv(a, b)
            best = None
            for q, r in polydiv(a, b):
                if q is not ZERO and nterms(r) < nterms(a) and self.ent(le(ZERO, r), scope):
                    best = (q, r)
                    break
            if best:
                q, r = best
                return add(q, fdiv(r, b)) if k == 'fdiv' else mod(r, b)
            return fdiv(a, b) if k == 'fdiv' else mod(a, b)
        if k == 'ite':
            c = self.canon_bool(t.a[0], scope)
            if self.ent(c, scope):
                return self.isimp(t.a[1], scope)
            if self.ent(not_(c), scope):
                return self.isimp(t.a[2], scope)
            return ite(c, self.isimp(t.a[1], tuple(scope) + (c,)), self.isimp(t.a[2], tuple(scope) + (not_(c),)))
        if k == 'app':
            name, args = t.a
            if name in ('min2', 'max2'):
                a, b = self.isimp(args[0], scope), self.isimp(args[1], scope)
                if self.ent(le(a, b), scope):
                    return a if name == 'min2' else b
                if self.ent(le(b, a), scope):
                    return b if name == 'min2' else a
                return fn(name, a, b)
            if name in ('abs', 'sign') and args[0].s == 'I':
                a = self.isimp(args[0], scope)
                if self.ent(lt(ZERO, a), scope):
                    return a if name == 'abs' else ONE
                if self.ent(lt(a, ZERO), scope):
                    return neg(a) if name == 'abs' else num(-1)
                return fn(name, a)
            return self.canon_app(t, scope)
        if k in ('sum', 'prod'):
            return self.canon_real(t, scope)
        return rebuild(t, lambda x: self.isimp(x, scope) if x.s == 'I' else self.canon(x, scope))

    def divq(self, a, b, scope):
        for q, r in polydiv(a, b):
            if self.ent(le(ZERO, r), scope) and self.ent(lt(r, b), scope):
                return q
        return None

    # -- canonical forms --------------------------------------------------------------------------------------
    def canon(self, t, scope=()):
        if t.s == 'I':
            return self.isimp(t, scope)
        if t.s == 'B':
            return self.canon_bool(t, scope)
        if t.s == 'L':
            return self.canon_lam(t, scope)
        return self.canon_real(t, scope)

    def canon_real(self, t, scope=()):
        if t.k in ('num', 'var'):
            return t
        scope = self.rel(scope, t)
        key = ('c', t, scope)
        r = self._nf.get(key)
        if r is None:
            r = self.to_T(self.nf(t, scope), t.s)
            if t.s == 'R' and r.s == 'I':
                r = num(val(r), 'R') if r.k == 'num' else app('float', (r,), 'R')
            self._nf[key] = r
        return r

    def canon_lam(self, t, scope):
        scope = self.rel(scope, t)
        key = ('l', t, scope)
        r = self._nf.get(key)
        if r is not None:
            return r
        vs, dims, b = t.a
        dims = [self.isimp(d, scope) for d in dims]
        fresh_vs = [fresh('l', 'I') for _ in vs]
        b = subst(b, dict(zip(vs, fresh_vs)))
        sc = tuple(scope)
        for v, d in zip(fresh_vs, dims):
            if d is ONE:
                b = subst(b, {v: ZERO})       # the only index of an axis of length one
                continue
            sc += (le(ZERO, v), lt(v, d))
        b = self.canon(b, sc)
        lev = level(b)
        cv = [var('$%d_%d' % (lev + 1, i), 'I') for i in range(len(vs))]
        b = subst(b, dict(zip(fresh_vs, cv)))
        r = self._nf[key] = lam(cv, dims, b)
        return r

    def canon_app(self, t, scope):
        name, args = t.a
        if name == 'opq':
            return t
        args = tuple(self.canon(a, scope) for a in args)
        if name in ('abs', 'sign', 'sqrt', 'exp', 'log', 'cos', 'sin', 'floor', 'ceil', 'min2', 'max2'):
            return fn(name, *args)
        if name == 'pow':
            return power(args[0], args[1])
        return app(name, args, t.s)

    def canon_bool(self, t, scope=()):
        if t in (TRUE, FALSE):
            return t
        scope = self.rel(scope, t)
        key = ('b', t, scope)
        r = self._nf.get(key)
        if r is None:
            r = self._canon_bool(t, scope)
            if r.k in ('le', 'eq', 'not') and r.k != 'all' and not contains(r, lambda x: x.s == 'R' or x.k in ('all', 'lam')):
                if self.ent(r, scope):
                    r = TRUE
                elif self.ent(not_(r), scope):
                    r = FALSE
            self._nf[key] = r
        return r

    def _canon_bool(self, t, scope):
        k = t.k
        if k in ('and', 'or'):
            return (and_ if k == 'and' else or_)(*[self.canon_bool(x, scope) for x in t.a])
        if k == 'not':
            return not_(self.canon_bool(t.a[0], scope))
        if k in ('le', 'lt', 'eq'):
            a, b = t.a
            if a.s == 'I' and b.s == 'I':
                d = self.isimp(sub(b, a), scope)
            else:
                d = self.canon_real(sub(b, a), scope)
            if isnum(d):
                v = val(d)
                return lift(bool(v >= 0 if k == 'le' else v > 0 if k == 'lt' else v == 0))
            if d.s == 'R':
                di = as_int(d)
                if di is not None:
                    return self.canon_bool({'le': le, 'lt': lt, 'eq': eq}[k](ZERO, di), scope)
            # normalise the scale
            c, items = TT._terms(d)
            lead = min(items.items(), key=lambda p: p[0].id)[1]
            if d.s == 'I':
                import math
                g = 0
                for x in items.values():
                    g = math.gcd(g, int(x)) if x.denominator == 1 else 1
                g = max(g, 1)
                if k == 'eq':
                    if lead < 0:
                        g = -g
                    if c.denominator == 1 and int(c) % abs(g):
                        return FALSE
                    return eq(TT._from_terms(Fr(0), {x: n / g for x, n in items.items()}, 'I'), num(-c / g, 'I'))
                pos = TT._from_terms((c / g).__floor__() * Fr(1), {x: n / g for x, n in items.items()}, 'I')
                return le(ZERO, pos) if k == 'le' else le(ONE, pos)
            if k == 'eq' and c == 0 and len(items) == 1:
                x = list(items)[0]
                if x.k == 'app' and x.a[0] in ('sign', 'abs', 'sqrt'):
                    if x.a[0] != 'sqrt':
                        return self.canon_bool(eq(x.a[1][0], RZERO), scope)
            if k == 'eq':
                return eq(TT._from_terms(Fr(0), {x: n / lead for x, n in items.items()}, 'R'), num(-c / lead, 'R'))
            al = abs(lead)
            d = TT._from_terms(c / al, {x: n / al for x, n in items.items()}, 'R')
            return (le if k == 'le' else lt)(RZERO, d)
        if k == 'all':
            v, lo, hi, b = t.a
            lo, hi = self.isimp(lo, scope), self.isimp(hi, scope)
            v2 = fresh('a', 'I')
            b = self.canon_bool(subst(b, {v: v2}), tuple(scope) + (le(lo, v2), lt(v2, hi)))
            cv = var('$%d_0' % (level(b) + 1), 'I')
            return tall(cv, lo, hi, subst(b, {v2: cv}))
        if k == 'app':
            return self.canon_app(t, scope)
        if k == 'ite':
            return self.canon_bool(or_(and_(t.a[0], t.a[1]), and_(not_(t.a[0]), t.a[2])), scope)
        return t

    # -- sums of products -------------------------------------------------------------------------------------
    def nf(self, t, scope=()):
        """dict canonical key -> (coef, Mono)"""
        scope = self.rel(scope, t)
        key = ('n', t, scope)
        r = self._nf.get(key)
        if r is None:
            out = {}
            for m in self.expand(t, tuple(scope)):
                for m2 in self.finish(m, tuple(scope)):
                    self.accumulate(out, m2)
            r = {k: v for k, v in out.items() if v.c != 0}
            # monomials merged from complementary guards may contract now
            for _ in range(3):
                if not any(m.g for m in out.values()) and len(out) == len(r) or not r:
                    break
                out, again = {}, False
                for m in r.values():
                    ms = self.reduce(m, tuple(scope)) if m.b and not m.g else [m]
                    if len(ms) == 1 and ms[0] is m:
                        self.accumulate(out, m)
                        continue
                    again = True
                    for m2 in ms:
                        for m3 in self.finish(m2, tuple(scope)):
                            self.accumulate(out, m3)
                if not again:
                    break
                r = {k: v for k, v in out.items() if v.c != 0}
            self._nf[key] = r
        return r

    def accumulate(self, out, m):
        k, m = self.key(m)
        if k in out:
            o = out[k]
            out[k] = Mono(o.c + m.c, o.b, o.f, o.g)
        else:
            out[k] = m

    def expand(self, t, scope):
        if self.deadline and time.time() > self.deadline:
            raise GiveUp('time limit of the unit')
        k = t.k
        if k == 'num':
            return [Mono(val(t))] if val(t) != 0 else []
        if k == 'add':
            out = [Mono(t.a[0])] if t.a[0] != 0 else []
            for x, c in t.a[1]:
                for m in self.expand(x, scope):
                    out.append(Mono(m.c * c, m.b, m.f, m.g))
            return out
        if k == 'mul':
            out = [Mono(1)]
            for x, n in t.a[0]:
                out = self.pmul(out, self.pow(x, n, scope))
                if not out:
                    return out
            return out
        if k == 'ite':
            c = self.canon_bool(t.a[0], scope)
            if self.ent(c, scope):
                return self.expand(t.a[1], scope)
            if self.ent(not_(c), scope):
                return self.expand(t.a[2], scope)
            out = []
            for lits in dnf(c):
                for m in self.expand(t.a[1], scope + tuple(lits)):
                    out.append(Mono(m.c, m.b, m.f, m.g | set(lits)))
            for lits in dnf(not_(c)):
                for m in self.expand(t.a[2], scope + tuple(lits)):
                    out.append(Mono(m.c, m.b, m.f, m.g | set(lits)))
            return out
        if k == 'sum':
            v, lo, hi, b = t.a
            lo, hi = self.isimp(lo, scope), self.isimp(hi, scope)
            v2 = fresh('s', 'I')
            b = subst(b, {v: v2})
            hs = self.split_product(v2, lo, hi, b, scope)
            if hs is not None:
                return self.expand(hs, scope)
            sc = scope + (le(lo, v2), lt(v2, hi))
            out = []
            for m in self.expand(b, sc):
                out += self.reduce(Mono(m.c, m.b + ((v2, lo, hi),), m.f, m.g), scope)
            return out
        if t.s == 'B':
            return self.expand(ite(t, RONE, RZERO), scope)
        if t.s == 'I' and k in ('fdiv', 'mod', 'app'):
            s = self.isimp(t, scope)
            if s is not t and s.k not in ('fdiv', 'mod', 'app', 'var'):
                return self.expand(s, scope)
            if s.k == 'var':
                return [Mono(1, (), {s: 1})]
            return [Mono(1, (), {s: 1})]
        return self.atom(t, 1, scope)

    def split_product(self, v, lo, hi, b, scope):
        """sum over v < p*q of a body with v // q or v % q: two sums"""
        if lo is not ZERO:
            return None
        for x in int_subterms(b, ('fdiv', 'mod')):
            a, d = x.a
            if v in fv(a) and not (fv(d) & {v}):
                d = self.isimp(d, scope)
                if d is hi:
                    continue
                for q, r in polydiv(hi, d):
                    if r is ZERO and q is not ZERO and q is not ONE and d is not ONE:
                        i, j = fresh('s', 'I'), fresh('s', 'I')
                        b2 = subst(b, {v: add(mul(i, d), j)})
                        sc = scope + (le(ZERO, i), lt(i, q), le(ZERO, j), lt(j, d))
                        b2 = simp_deep(self, b2, sc)
                        return _mk('sum', (i, ZERO, q, _mk('sum', (j, ZERO, d, b2), b2.s)), b2.s)
        return None

    def atom(self, t, n, scope):
        k = t.k
        if k == 'app':
            name, args = t.a
            c = self.canon_app(t, scope)
            if c.k != 'app':
                return self.pow(c, n, scope)
            name, args = c.a
            if name == 'float':
                return self.pow(args[0], n, scope)
            if name == 'abs' and n != 1:
                if n % 2 == 0:
                    return self.pow(args[0], n, scope)
            if name in ('abs', 'sign') and n >= 1:
                x = args[0]
                if self.nonneg(x, scope):
                    if name == 'abs':
                        return self.pow(x, n, scope)
                if name == 'sign' and n > 1 and n % 2 == 0:
                    z = self.canon_bool(eq(x, RZERO if x.s == 'R' else ZERO), scope)
                    return [Mono(1, (), {}, frozenset([not_(z)]))] if z is not FALSE else [Mono(1)]
                if name == 'sign' and n > 2:
                    return self.atom(t, 1, scope)
            if name == 'sqrt' and n % 2 == 0 and self.nonneg(args[0], scope):
                return self.pow(args[0], n // 2, scope)
            if name == 'sqrt' and n == -1 and False:
                pass
            if name in ('min2', 'max2') and n >= 1:
                a, b = args
                if self.ent(le(a, b), scope):
                    return self.pow(a if name == 'min2' else b, n, scope)
                if self.ent(le(b, a), scope):
                    return self.pow(b if name == 'min2' else a, n, scope)
            if name == 'exp' and n != 1:
                return [Mono(1, (), {fn('exp', self.canon_real(mul(num(n), args[0]), scope)): 1})]
            return [Mono(1, (), {c: n})]
        if k == 'prod':
            v, lo, hi, b = t.a
            lo, hi = self.isimp(lo, scope), self.isimp(hi, scope)
            v2 = fresh('p', 'I')
            b2 = self.canon_real(subst(b, {v: v2}), scope + (le(lo, v2), lt(v2, hi)))
            if isnum(b2) and val(b2) == 1:
                return [Mono(1)]
            cv = var('$%d_0' % (level(b2) + 1), 'I')
            return [Mono(1, (), {_mk('prod', (cv, lo, hi, subst(b2, {v2: cv})), t.s): n})]
        if k in ('var', 'fdiv', 'mod'):
            return [Mono(1, (), {t: n})]
        raise AssertionError('atom %s' % k)

    def pow(self, x, n, scope):
        if n == 0:
            return [Mono(1)]
        if x.k == 'num':
            if val(x) == 0:
                return [] if n > 0 else [Mono(1, (), {app('inv0', (), 'R'): 1})]
            return [Mono(val(x) ** n)]
        if n > 0:
            if x.k in ('app', 'prod', 'var', 'fdiv', 'mod') and x.s != 'B':
                if x.s == 'I':
                    s = self.isimp(x, scope)
                    if s is not x:
                        return self.pow(s, n, scope)
                if x.k == 'var':
                    return [Mono(1, (), {x: n})]
                return self.atom(x, n, scope)
            base = self.expand(x, scope)
            out = [Mono(1)]
            for _ in range(n):
                out = self.pmul(out, base)
            return out
        # negative exponent
        if x.k == 'mul':
            out = [Mono(1)]
            for y, k in x.a[0]:
                out = self.pmul(out, self.pow(y, k * n, scope))
            return out
        if x.k == 'ite':
            c = self.canon_bool(x.a[0], scope)
            if self.ent(c, scope):
                return self.pow(x.a[1], n, scope)
            if self.ent(not_(c), scope):
                return self.pow(x.a[2], n, scope)
            out = []
            for cc, y in ((c, x.a[1]), (not_(c), x.a[2])):
                for lits in dnf(cc):
                    for m in self.pow(y, n, scope + tuple(lits)):
                        out.append(Mono(m.c, m.b, m.f, m.g | set(lits)))
            return out
        if x.k in ('var',):
            return [Mono(1, (), {x: n})]
        if x.k in ('app', 'prod') and x.s == 'R':
            return self.atom(x, n, scope)
        p = self.nf(x, scope)
        ms = list(p.values())
        if not ms:
            return [Mono(1, (), {app('inv0', (), 'R'): 1})]
        if len(ms) == 1 and not ms[0].b and not ms[0].g:
            m = ms[0]
            if len(m.f) == 1 and list(m.f.values())[0] == 1 and list(m.f)[0] is x:
                return [Mono(1, (), {x: n})]
            return [Mono(m.c ** n, (), {a: k * n for a, k in m.f.items()})]
        t = self.to_T(p, 'R')
        c, items = TT._terms(t)
        lead = min(items.items(), key=lambda q: q[0].id)[1]
        t = TT._from_terms(c / lead, {y: k / lead for y, k in items.items()}, 'R')
        if t.k == 'mul' or t.k == 'num':
            return self.pmul([Mono(lead ** n)], self.pow(t, n, scope))
        return [Mono(lead ** n, (), {t: n})]

    def pmul(self, A, B):
        out = []
        for x in A:
            for y in B:
                yy = y
                if y.b and x.b:
                    yy = self.rename(y)
                f = fmul(x.f, yy.f)
                es = [a for a in f if a.k == 'app' and a.a[0] == 'exp']
                if len(es) > 1 or (es and f[es[0]] != 1):
                    arg = RZERO
                    for a in es:
                        arg = add(arg, mul(num(f.pop(a)), a.a[1][0]))
                    arg = self.canon_real(arg)
                    if not (isnum(arg) and val(arg) == 0):
                        f[fn('exp', arg)] = 1
                out.append(Mono(x.c * yy.c, x.b + yy.b, f, x.g | yy.g))
                if len(out) > 4000:
                    raise GiveUp('expansion too large')
        return out

    def rename(self, m):
        s = {v: fresh('s', 'I') for v, lo, hi in m.b}
        return Mono(m.c, [(s[v], subst(lo, s), subst(hi, s)) for v, lo, hi in m.b], {subst(a, s): n for a, n in m.f.items()},
                    [subst(g, s) for g in m.g])

    def mscope(self, m, scope):
        out = tuple(scope)
        for v, lo, hi in m.b:
            out += (le(lo, v), lt(v, hi))
        return out

    def resub(self, m, s, scope, binders=None, guards=None):
        """substitute in a monomial and expand again (atoms may simplify)"""
        b = [(v, subst(lo, s), subst(hi, s)) for v, lo, hi in (m.b if binders is None else binders)]
        t = RONE
        for a, n in m.f.items():
            t = mul(t, power(subst(a, s), num(n)))
        gs = [subst(g, s) for g in (m.g if guards is None else guards)]
        return self.rebuild_mono(m.c, b, t, gs, scope)

    def rebuild_mono(self, c, b, t, gs, scope):
        sc = self.mscope(Mono(1, b), scope)
        glist = [frozenset()]
        for g in gs:
            g = self.canon_bool(g, sc)
            if self.ent(g, sc):
                continue
            if self.ent(not_(g), sc):
                return []
            glist = [x | frozenset(l) for x in glist for l in dnf(g)]
        out = []
        for g in glist:
            for m in self.expand(t, sc + tuple(g)):
                out.append(Mono(c * m.c, tuple(b) + m.b, m.f, g | m.g))
        return out

    def reduce(self, m, scope):
        """eliminate binders by their guards, split ranges, apply contraction rules"""
        if self.deadline and time.time() > self.deadline:
            raise GiveUp('time limit of the unit')
        sc = self.mscope(m, scope)
        for v, lo, hi in m.b:
            if lo is hi or self.ent(le(hi, lo), sc_without(sc, v)):
                return []
        # ranges of a few values
        for v, lo, hi in m.b:
            d = sub(hi, lo)
            if isnum(d) and 1 <= val(d) <= 3 and not any(v in fv(l) or v in fv(h) for w, l, h in m.b if w is not v):
                b = [x for x in m.b if x[0] is not v]
                out = []
                for i in range(int(val(d))):
                    for m2 in self.resub(m, {v: add(lo, num(i, 'I'))}, scope, b):
                        out += self.reduce(m2, scope)
                return out
        for g in m.g:
            # equations that fix a binder
            if g.k == 'eq' and g.a[0].s != 'R' and g.a[1].s != 'R':
                r = self.solve_binder(m, g)
                if r is not None:
                    v, e, rest = r
                    lo, hi = [(x[1], x[2]) for x in m.b if x[0] is v][0]
                    b = [x for x in m.b if x[0] is not v]
                    gs = [x for x in m.g if x is not g] + rest + [le(lo, e), lt(e, hi)]
                    out = []
                    for m2 in self.resub(m, {v: e}, scope, b, gs):
                        out += self.reduce(m2, scope)
                    return out
        for g in m.g:
            if g.k == 'le':
                r = self.range_guard(m, g, sc)
                if r is not None:
                    b = r
                    out = []
                    for m2 in self.resub(Mono(m.c, b, m.f, [x for x in m.g if x is not g]), {}, scope):
                        out += self.reduce(m2, scope)
                    return out
        # equations between a term of a binder and one free of binders
        bvs = frozenset(v for v, _, _ in m.b)
        freed = set()
        for g in sorted(m.g, key=lambda x: x.id) if bvs else ():
            r = self.free_of(g, bvs)
            if r is None:
                continue
            freed.add(g)
            x, e = r
            here = lambda t: t is not g and contains(t, lambda y: y is x)
            if any(here(a) for a in m.f) or any(here(h) for h in m.g):
                t = RONE
                for a, n in m.f.items():
                    t = mul(t, power(replace_term(a, x, e), num(n)))
                ms = self.rebuild_mono(m.c, m.b, t, [h if h is g else replace_term(h, x, e) for h in m.g], scope)
                if any(here(y) for m2 in ms for y in list(m2.f) + list(m2.g)):
                    continue
                out = []
                for m2 in ms:
                    out += self.reduce(m2, scope)
                return out
        # substitute equations between outer variables
        for g in m.g:
            if g not in freed and g.k == 'eq' and g.a[0].s != 'R' and g.a[1].s != 'R':
                s = self.orient(g)
                if s is not None:
                    v, e = s
                    if any(v in fv(a) for a in m.f) or any(v in fv(x) for x in m.g if x is not g):
                        b = m.b
                        out = []
                        for m2 in self.resub(m, {v: e}, tuple(scope), b, [x for x in m.g if x is not g]):
                            out += self.reduce(Mono(m2.c, m2.b, m2.f, m2.g | {g}), scope)
                        return out
        for rule in self.rules:
            r = rule(self, m, sc)
            if r is not None:
                out = []
                for m2 in r:
                    out += self.reduce(m2, scope)
                return out
        # factor out binders nothing depends on
        for v, lo, hi in m.b:
            if not any(v in fv(a) for a in m.f) and not any(v in fv(g) for g in m.g) and not any(
                    v in fv(l) or v in fv(h) for w, l, h in m.b if w is not v):
                if self.ent(le(lo, hi), sc):
                    b = [x for x in m.b if x[0] is not v]
                    out = []
                    for m2 in self.expand(real(sub(hi, lo)), scope):
                        out += self.pmul([Mono(m.c, b, m.f, m.g)], [m2])
                    return out
        return [m]

    def solve_binder(self, m, g):
        d = sub(g.a[0], g.a[1])
        c, items = TT._terms(d)
        for v, lo, hi in m.b:
            k = items.get(v)
            if k is not None and abs(k) == 1:
                rest = sub(d, mul(num(k), v))
                if v in fv(rest):
                    continue
                e = mul(num(-1 / k), rest)
                # only bounds of other binders must not use v
                if any(v in fv(l) or v in fv(h) for w, l, h in m.b if w is not v):
                    continue
                return v, e, []
        return None

    def free_of(self, g, bvs):
        """(x, e): the guard says x = e, x an application with binders, e free of them"""
        if g.k != 'eq' or g.a[0].s == 'R' or g.a[1].s == 'R':
            return None
        d = sub(g.a[0], g.a[1])
        c, items = TT._terms(d)
        of = [x for x in items if fv(x) & bvs]
        if len(of) != 1 or of[0].k != 'app' or abs(items[of[0]]) != 1:
            return None
        x, k = of[0], items[of[0]]
        e = mul(num(-1 / k), sub(d, mul(num(k), x)))
        return None if any(v.a[0].startswith('$') for v in fv(e)) else (x, e)

    def orient(self, g):
        d = sub(g.a[0], g.a[1])
        c, items = TT._terms(d)
        vs = [(v, k) for v, k in items.items() if v.k == 'var' and abs(k) == 1 and v not in
              frozenset().union(*[fv(x) for x in items if x is not v] or [frozenset()])]
        if not vs:
            return None
        v, k = max(vs, key=lambda p: p[0].a[0])
        return v, mul(num(-1 / k), sub(d, mul(num(k), v)))

    def range_guard(self, m, g, sc):
        d = sub(g.a[1], g.a[0])          # d >= 0
        c, items = TT._terms(d)
        for i, (v, lo, hi) in enumerate(m.b):
            k = items.get(v)
            if k is None or abs(k) != 1:
                continue
            rest = sub(d, mul(num(k), v))
            if v in fv(rest) or any(w in fv(rest) for w, _, _ in m.b[i + 1:] if w is not v and v in fv(sub(hi, lo))):
                continue
            if any(w in fv(rest) for w, _, _ in m.b if w is not v):
                # a bound depending on another binder: keep binders ordered
                continue
            if k == 1:          # v >= -rest
                nlo = neg(rest)
                if self.ent(le(lo, nlo), sc_without(sc, v)) and self.ent(le(nlo, hi), sc_without(sc, v)):
                    return m.b[:i] + ((v, nlo, hi),) + m.b[i + 1:]
            else:               # v <= rest
                nhi = add(rest, ONE)
                if self.ent(le(nhi, hi), sc_without(sc, v)) and self.ent(le(lo, nhi), sc_without(sc, v)):
                    return m.b[:i] + ((v, lo, nhi),) + m.b[i + 1:]
        return None

    def finish(self, m, scope):
        """final shape: ranges start at 0, negated guards expanded"""
        out = []
        todo = self.reduce(m, scope)
        for m in todo:
            s, b = {}, []
            shift = False
            for v, lo, hi in m.b:
                if lo is not ZERO:
                    shift = True
            if shift:
                for v, lo, hi in m.b:
                    if lo is not ZERO:
                        s[v] = add(v, lo)
                bb = []
                for v, lo, hi in m.b:
                    bb.append((v, ZERO, sub(hi, lo)))
                ms = self.resub(Mono(m.c, bb, m.f, m.g), s, scope)
            else:
                ms = [m]
            for m in ms:
                out += self.unneg(m, scope)
        return out

    def unneg(self, m, scope):
        for g in m.g:
            p = positive(g)
            if p is not g:
                rest = m.g - {g}
                a = Mono(m.c, m.b, m.f, rest)
                out = []
                out += self.unneg(a, scope)
                # - [not g] * a
                neg_ms = self.rebuild_mono(-m.c, m.b, self.fac_T(m.f), list(rest) + [p], scope)
                for x in neg_ms:
                    for y in self.reduce(x, scope):
                        if y.f == m.f and y.b == m.b and y.g == rest | {p}:
                            out += self.unneg2(y, scope)
                        else:
                            out += self.unneg(y, scope)
                return out
        return [m]

    def unneg2(self, m, scope):
        return self.unneg(m, scope)

    def fac_T(self, f):
        t = RONE
        for a, n in f.items():
            t = mul(t, power(a, num(n)))
        return t

    def key(self, m):
        """canonical key and monomial with canonical binder names"""
        if not m.b:
            return ((), frozenset(m.f.items()), m.g), m
        lev = 0
        for a in m.f:
            lev = max(lev, level(a))
        for g in m.g:
            lev = max(lev, level(g))
        for v, lo, hi in m.b:
            lev = max(lev, level(hi))
        names = [var('$%d_%d' % (lev + 1, i), 'I') for i in range(len(m.b))]
        # group binders by an invariant signature, then try the permutations inside
        sig = {}
        for v, lo, hi in m.b:
            occ = sorted(show_skel(a, v, m) + '^%d' % n for a, n in m.f.items() if v in fv(a))
            occ += sorted('g' + show_skel(g, v, m) for g in m.g if v in fv(g))
            sig[v] = (repr(hi) if not any(w in fv(hi) for w, _, _ in m.b) else '*', tuple(occ))
        groups = {}
        for v, lo, hi in m.b:
            groups.setdefault(sig[v], []).append(v)
        order = sorted(groups, key=repr)
        best = None
        tries = 0
        for perm in itertools.product(*[itertools.permutations(groups[k]) for k in order]):
            tries += 1
            if tries > 200:
                break
            flat = [v for p in perm for v in p]
            s = dict(zip(flat, names))
            f = {}
            for a, n in m.f.items():
                a2 = self.atom_rename(a, s)
                f[a2] = f.get(a2, 0) + n
            g = frozenset(subst(x, s) for x in m.g)
            rng = tuple((s[v], ZERO, subst([h for w, l, h in m.b if w is v][0], s)) for v in flat)
            kk = (tuple(h.id for _, _, h in rng), tuple(sorted((a.id, n) for a, n in f.items())), tuple(sorted(x.id for x in g)))
            if best is None or kk < best[0]:
                best = (kk, (rng, frozenset(f.items()), g), Mono(m.c, rng, f, g))
        return best[1], best[2]

    def atom_rename(self, a, s):
        return subst(a, s)

    def to_T(self, p, s='R'):
        out = []
        c0 = Fr(0)
        acc = {}
        for m in p.values():
            t = out1 = RONE if s == 'R' else ONE
            bound = {b[0] for b in m.b}
            for a, n in m.f.items():
                if bound and not (fv(a) & bound):
                    out1 = mul(out1, power(a, num(n)))
                else:
                    t = mul(t, power(a, num(n)))
            if m.g:
                t = ite(and_(*m.g), t, num(0, t.s))
            for v, lo, hi in reversed(m.b):
                t = _mk('sum', (v, lo, hi, t), t.s)
            t = mul(out1, t)
            if t.k == 'num':
                c0 += m.c * val(t)
            elif t.k == 'add':
                cc, dd = TT._terms(t)
                c0 += m.c * cc
                for x, k in dd.items():
                    acc[x] = acc.get(x, 0) + m.c * k
            else:
                acc[t] = acc.get(t, 0) + m.c
        return TT._from_terms(c0, acc, s)

    # -- sign -------------------------------------------------------------------------------------------------
    def nonneg(self, t, scope=(), strict=False):
        if isnum(t):
            return val(t) > 0 if strict else val(t) >= 0
        if t.s == 'I':
            return self.ent(lt(ZERO, t) if strict else le(ZERO, t), scope)
        goal = lt(RZERO, t) if strict else le(RZERO, t)
        if self.struct_nonneg(t, scope, strict):
            return True
        return self.ent(goal, scope)

    def struct_nonneg(self, t, scope, strict=False):
        k = t.k
        if k == 'num':
            return val(t) > 0 if strict else val(t) >= 0
        if k == 'app':
            name = t.a[0]
            if name in ('abs', 'sqrt') and not strict:
                return True
            if name == 'exp':
                return True
            if name in self.nonneg_heads and not strict:
                return True
            if name in self.pos_heads:
                return True
            if name in ('max2',):
                return any(self.struct_nonneg(x, scope, strict) for x in t.a[1])
            if name in ('min2',):
                return all(self.struct_nonneg(x, scope, strict) for x in t.a[1])
            return self.ent((lt if strict else le)(RZERO, t), scope)
        if k == 'add':
            if not strict and t.s == 'R' and self.square_sum(t):
                return True
            ok = t.a[0] >= 0
            st = t.a[0] > 0
            for x, c in t.a[1]:
                if c < 0 or not self.struct_nonneg(x, scope):
                    if t.s == 'R' and not any(y.k in ('sum', 'prod') for y, _ in t.a[1]):
                        return self.ent((lt if strict else le)(RZERO, t), scope)
                    return False
                if strict and not st and self.struct_nonneg(x, scope, True):
                    st = True
            return ok and (st or not strict)
        if k == 'mul':
            for x, n in t.a[0]:
                if n % 2 == 0 and not strict:
                    continue
                if n % 2 == 0 and strict:
                    if self.struct_nonneg(x, scope, True) or self.ent(not_(eq(x, RZERO)), scope):
                        continue
                    return False
                if not self.struct_nonneg(x, scope, strict):
                    return False
            return True
        if k == 'ite':
            return self.struct_nonneg(t.a[1], tuple(scope) + (t.a[0],), strict) and self.struct_nonneg(t.a[2], tuple(scope) + (not_(t.a[0]),), strict)
        if k == 'sum' and not strict:
            v, lo, hi, b = t.a
            v2 = fresh('s', 'I')
            return self.struct_nonneg(subst(b, {v: v2}), tuple(scope) + (le(lo, v2), lt(v2, hi)))
        if k == 'prod':
            v, lo, hi, b = t.a
            v2 = fresh('s', 'I')
            return self.struct_nonneg(subst(b, {v: v2}), tuple(scope) + (le(lo, v2), lt(v2, hi)), strict)
        if t.s == 'I':
            return self.ent((lt if strict else le)(ZERO, t), scope)
        if k == 'var':
            return self.ent((lt if strict else le)(RZERO, t), scope)
        return False

    def square_sum(self, t):
        """t is a sum over one range of the square of a linear form (written out)"""
        if t.a[0] != 0 or not all(x.k == 'sum' for x, c in t.a[1]):
            return False
        rngs = set((x.a[1], x.a[2]) for x, c in t.a[1])
        if len(rngs) != 1:
            return False
        v = fresh('s', 'I')
        sq, b = [], num(0, 'R')
        for x, c in t.a[1]:
            y = subst(x.a[3], {x.a[0]: v})
            b = add(b, mul(num(c, 'R'), y))
            if c > 0 and y.k == 'mul' and len(y.a[0]) == 1 and y.a[0][0][1] == 2:
                r = Fr(int(round(float(c.numerator) ** .5)), int(round(float(c.denominator) ** .5)))
                if r * r != c:
                    return False
                sq.append((y.a[0][0][0], r))
        if not 1 <= len(sq) <= 4:
            return False
        import itertools
        for sg in itertools.product((1, -1), repeat=len(sq) - 1):
            l = mul(num(sq[0][1], 'R'), sq[0][0])
            for (x, r), s_ in zip(sq[1:], sg):
                l = add(l, mul(num(s_ * r, 'R'), x))
            e = num(0, 'R')
            for x1, c1 in TT._terms(l)[1].items():
                for x2, c2 in TT._terms(l)[1].items():
                    e = add(e, mul(num(c1 * c2, 'R'), mul(x1, x2)))
            if sub(e, b) is num(0, 'R'):
                return True
        return False

    nonneg_heads = frozenset()
    pos_heads = frozenset()

    # -- goals ------------------------------------------------------------------------------------------------
    def zero(self, t, scope=()):
        """t == 0 by normal form"""
        p = self.nf(t, scope)
        if not p:
            return True
        # clear denominators
        for _ in range(3):
            dens = {}
            for m in p.values():
                for a, n in m.f.items():
                    if n < 0 and not any(v in fv(a) for v, _, _ in m.b):
                        dens[a] = max(dens.get(a, 0), -n)
            dens = {a: n for a, n in dens.items() if a.k == 'add' or a.k == 'sum' or a.k == 'ite'}
            if not dens:
                return False
            out = {}
            for m in p.values():
                tt = num(m.c, 'R')
                for a, n in m.f.items():
                    tt = mul(tt, power(a, num(n)))
                for a, n in dens.items():
                    tt = mul(tt, power(a, num(n)))
                for m2 in self.rebuild_mono(Fr(1), m.b, tt, m.g, tuple(scope)):
                    for m3 in self.finish(m2, tuple(scope)):
                        self.accumulate(out, m3)
            p = {k: v for k, v in out.items() if v.c != 0}
            if not p:
                return True
        return False

    def triggers(self):
        """universally quantified facts as (head, pattern, bound variables, instance): instantiated by matching"""
        if self._trig is None:
            self._trig = {}
            for f in self.facts:
                if f.k not in ('and', 'all'):
                    continue
                q = _quantified.get(f)
                if q is None:
                    q = _quantified[f] = list(quantified(f))
                for v in q:
                    for h, t in v:
                        self._trig.setdefault(h, []).append(t)
        return self._trig

    def match(self, a):
        for pat, vs, body in self.triggers().get(a.a[0], ()):
            k = (pat, body, a)
            r = _instances.get(k)
            if r is None:
                if len(_instances) > 300000:
                    _instances.clear()
                r = _instances[k] = instance(pat, vs, body, a)
            if r is not False:
                yield r

    def schema_facts(self, terms_, rounds=2):
        facts, seen = [], set()
        todo = list(terms_)
        heads = set(self.schemas) | set(self.triggers())
        for _ in range(rounds):
            apps = []
            for t in todo:
                collect_apps(t, heads, apps, set())
            todo = []
            for a in apps:
                for k, fact in self.match(a):
                    if k not in seen:
                        seen.add(k)
                        facts.append(fact)
                        todo.append(fact)
                if a.a[0] not in self.schemas:
                    continue
                f = self.schemas[a.a[0]]
                fs = _schema_memo.get((f, a))
                if fs is None:
                    fs = _schema_memo[(f, a)] = list(f(a) or ())
                for k, fact in fs:
                    if k in seen:
                        continue
                    seen.add(k)
                    facts.append(fact)
                    todo.append(fact)
            if not todo:
                break
        return facts

    def prove(self, goal, depth=0, hints=()):
        """(True, '') or (False, reason)"""
        if goal is TRUE:
            return True, ''
        if goal.k == 'and':
            for x in goal.a:
                ok, why = self.prove(x, depth, hints)
                if not ok:
                    return ok, why
            return True, ''
        if goal.k == 'all':
            v, lo, hi, b = goal.a
            sk = fresh('k', 'I')
            return self.child([le(lo, sk), lt(sk, hi)]).prove(subst(b, {v: sk}), depth, hints)
        if goal.k == 'not' and goal.a[0].k == 'all':
            # an existential goal: candidates are the witnesses of the extrema that occur
            v, lo, hi, b = goal.a[0].a
            apps = []
            collect_apps(self.canon_bool(goal), WITNESSES, apps, set())
            for a in apps:
                w = app('wit_' + a.a[0], tuple(a.a[1]) + (ZERO,), 'I')
                ok, why = self.prove(and_(le(lo, w), lt(w, hi), not_(subst(b, {v: w}))), depth + 1, hints)
                if ok:
                    return True, ''
            return self.final(goal, hints)
        if goal.k == 'or':
            # assume the negation of every simple disjunct, prove the hardest one
            ds = list(goal.a)
            main = [d for d in ds if d.k in ('all', 'and', 'eq')]
            if hints and self.quick(goal, hints):
                return True, ''
            if len(main) >= 1:
                for mgoal in main:
                    hyp = [not_(d) for d in ds if d is not mgoal]
                    ok, why = self.child(hyp).prove(mgoal, depth, hints)
                    if ok:
                        return True, ''
            return self.final(goal, hints)
        if goal.k == 'eq' and (goal.a[0].s == 'R' or goal.a[1].s == 'R'):
            return self.prove_eq(goal.a[0], goal.a[1], depth, hints)
        if goal.k in ('le', 'lt') and (goal.a[0].s == 'R' or goal.a[1].s == 'R'):
            d = sub(goal.a[1], goal.a[0])
            if self.struct_nonneg(d, (), goal.k == 'lt'):
                return True, ''
            c = self.canon_real(d)
            if self.struct_nonneg(c, (), goal.k == 'lt'):
                return True, ''
            return self.final((le if goal.k == 'le' else lt)(RZERO, c), hints, goal)
        if goal.k in ('le', 'eq') and goal.a[0].s == 'I' and goal.a[1].s == 'I':
            if self.entails(goal):
                return True, ''
            g2 = self.canon_bool(goal)
            if g2 is TRUE or self.entails(g2):
                return True, ''
            if goal.k == 'le':
                try:
                    if self.struct_nonneg(sub(goal.a[1], goal.a[0]), (), False):
                        return True, ''
                except GiveUp:
                    pass
            return self.final(g2, hints, goal)
        return self.final(goal, hints)

    def prove_eq(self, a, b, depth, hints):
        d = sub(a, b)
        if self.zero(d):
            return True, ''
        # split on an undecided guard
        if depth < 7:
            p = self.nf(d)
            gs = set()
            for m in p.values():
                for g in m.g:
                    if not (fv(g) & {v for v, _, _ in m.b}):
                        gs.add(g)
                for at in m.f:
                    for x in int_subterms(at, ('ite',)):
                        if not any(v.a[0].startswith('$') for v in fv(x.a[0])) and not (fv(x.a[0]) & {v for v, _, _ in m.b}):
                            gs.add(x.a[0])
                    if at.k == 'app' and at.a[0] in ('abs', 'sign') and not (fv(at) & {v for v, _, _ in m.b}) \
                            and not any(v.a[0].startswith('$') for v in fv(at)):
                        gs.add(le(num(0, at.a[1][0].s), at.a[1][0]))
                        if at.a[0] == 'sign':
                            gs.add(eq(num(0, at.a[1][0].s), at.a[1][0]))
                    if at.k == 'app' and at.a[0] in ('min2', 'max2') and not (fv(at) & {v for v, _, _ in m.b}):
                        gs.add(le(*at.a[1]))
            gs = [g for g in gs if not self.entails(g) and not self.entails(not_(g))]
            if gs:
                g = min(gs, key=lambda x: (x.k != 'eq', x.id))
                for side in (g, not_(g)):
                    c = self.child([side])
                    if not c.consistent():
                        continue
                    a2, b2 = a, b
                    if side.k == 'eq' and side.a[0].s != 'R' and side.a[1].s != 'R':
                        s = self.orient(side)
                        if s is not None:
                            # rewrite with the equation
                            m = {s[0]: s[1]}
                            c = Ctx([subst(f, m) for f in c.facts], c.rules, c.schemas)
                            c.deadline = self.deadline
                            c.__class__ = self.__class__
                            c.nonneg_heads, c.pos_heads = self.nonneg_heads, self.pos_heads
                            a2, b2 = subst(a, m), subst(b, m)
                    ok, why = c.prove_eq(a2, b2, depth + 1, hints)
                    if not ok:
                        return ok, why
                return True, ''
        c = self.canon_real(d)
        r = self.final(eq(c, RZERO), hints, eq(a, b))
        if not r[0] and depth < 8:
            c2 = self.merge_ranges(c, depth, hints)
            if c2 is not c:
                if self.zero(c2):
                    return True, ''
                r = self.final(eq(self.canon_real(c2), RZERO), hints, eq(a, b))
            if not r[0] and self.termwise(c2, depth, hints):
                return True, ''
        return r

    def termwise(self, t, depth, hints):
        """a linear combination of sums over one range vanishes when it vanishes at every index"""
        if t.k != 'add' or t.a[0] != 0 or any(x.k != 'sum' for x, c in t.a[1]):
            return False
        lo, hi = t.a[1][0][0].a[1:3]
        if any(not (self.entails(eq(lo, x.a[1])) and self.entails(eq(hi, x.a[2]))) for x, c in t.a[1][1:]):
            return False
        sk = fresh('k', 'I')
        body = add(*[mul(num(c, 'R'), real(subst(x.a[3], {x.a[0]: sk}))) for x, c in t.a[1]])
        return self.child([le(lo, sk), lt(sk, hi)]).prove(eq(body, RZERO), max(depth + 1, 4), hints)[0]

    def congruent(self, x, y, depth, hints):
        """two applications of one function to arguments that are equal (arrays: at every index)"""
        (h, xs), (g, ys) = x.a, y.a
        if h != g or len(xs) != len(ys):
            return False
        for a, b in zip(xs, ys):
            if a is b:
                continue
            if a.k != b.k and 'lam' in (a.k, b.k) or a.s != b.s:
                return False
            if a.k != 'lam':
                if a.s not in 'IR' or not self.prove(eq(a, b), max(depth + 1, 5), hints)[0]:
                    return False
                continue
            vs, da, p = a.a
            ws, db, q = b.a
            if len(vs) != len(ws) or p.s != q.s or p.s == 'B' or any(not self.entails(eq(d, e)) for d, e in zip(da, db)):
                return False
            sk = [fresh('k', 'I') for _ in vs]
            c = self.child([f for k, d in zip(sk, da) for f in (le(ZERO, k), lt(k, d))])
            if not c.prove(eq(subst(p, dict(zip(vs, sk))), subst(q, dict(zip(ws, sk)))), max(depth + 1, 5), hints)[0]:
                return False
        return True

    def merge_ranges(self, t, depth, hints):
        """sums and products over the same range whose terms are equal at every index are made identical"""
        found = []

        def go(x):
            if x.k in ('sum', 'prod'):
                if x not in found:
                    found.append(x)
            elif x.k not in ('lam', 'all'):
                if x.k == 'app' and x.a[0] != 'opq' and any(y.k == 'lam' for y in x.a[1]) and x not in found:
                    found.append(x)
                for y in children(x):
                    go(y)
        go(t)
        if not 2 <= len(found) <= 8:
            return t
        m = {}
        for i, x in enumerate(found):
            for y in found[:i]:
                if y in m or x.k != y.k or x.s != y.s:
                    continue
                if x.k == 'app':
                    if self.congruent(x, y, depth, hints):
                        m[x] = y
                    continue
                v, lo, hi, b = x.a
                w, lo2, hi2, b2 = y.a
                if not (self.entails(eq(lo, lo2)) and self.entails(eq(hi, hi2))):
                    continue
                sk = fresh('k', 'I')
                if self.child([le(lo, sk), lt(sk, hi)]).prove(eq(subst(b, {v: sk}), subst(b2, {w: sk})), max(depth + 1, 5), hints)[0]:
                    m[x] = y
                    break
        def put(x):
            if x in m:
                return m[x]
            if x.k in ('num', 'var', 'lam', 'all', 'sum', 'prod'):
                return x
            return rebuild(x, put)
        return put(t) if m else t

    def quick(self, goal, hints):
        """z3 on the goal, the hints and the facts as they are"""
        facts = list(self.facts) + list(hints)
        facts += self.schema_facts(facts + [goal])
        return smt.check_valid([f for f in facts if not quantifies(f)], goal, timeout=2500)[0] == 'proved'

    def final(self, goal, hints=(), orig=None):
        """z3 with all facts, schema instances and hints; the terms are canonicalised first"""
        facts = list(self.facts)
        for f in self.facts:
            c = self.canon_bool(f)
            if c is not TRUE and c not in facts:
                facts.append(c)
        hs = [self.canon_bool(h) for h in hints]
        g = self.canon_bool(goal)
        if g is TRUE or g in facts:
            return True, ''
        sch = self.schema_facts(facts + hs + [g])
        kept = [self.canon_bool(f) for f in sch]
        r, _ = smt.check_valid(facts + hs + kept, g, timeout=10000)
        if r == 'proved':
            return True, ''
        if any(c is TRUE for c in kept + hs):
            # an instance of a schema is true by that schema itself: keep it as it is
            hs = [f if c is TRUE else c for f, c in zip(hints, hs)]
            r, _ = smt.check_valid(facts + hs + [f if c is TRUE else c for f, c in zip(sch, kept)], g, timeout=10000)
            if r == 'proved':
                return True, ''
        why = '%s: goal %s' % ('refuted up to uninterpreted functions' if r == 'refuted' else 'solver gave up', show(g, 40)[:2500])
        return False, why


_schema_memo = {}


def child_like(parent, c):
    c.nonneg_heads, c.pos_heads = parent.nonneg_heads, parent.pos_heads
    return c


_orig_child = Ctx.child


def _child(self, extra):
    return child_like(self, _orig_child(self, extra))


Ctx.child = _child


def collect_apps(t, heads, out, seen):
    if t in seen:
        return
    seen.add(t)
    if t.k == 'app' and t.a[0] in heads:
        out.append(t)
    for c in children(t):
        collect_apps(c, heads, out, seen)


def quantified(f):
    """the trigger lists of a fact: [(head, (pattern, bound variables, quantifier-free instance))]"""
    if f.k == 'and':
        for x in f.a:
            for y in quantified(x):
                yield y
        return
    if f.k != 'all':
        return
    vs, rng = [], []
    while f.k == 'all':
        v, lo, hi, b = f.a
        w = fresh('u', 'I')
        vs.append(w)
        rng += [le(subst(lo, {}), w), lt(w, hi)]
        f = subst(b, {v: w})
    if quantifies(f):
        return
    apps = []
    collect_any(f, apps, set())
    out = []
    for a in apps:
        ok = set()
        for x in a.a[1]:
            hit = [v for v in vs if v in fv(x)]
            if not hit:
                continue
            if len(hit) > 1 or x.s == 'L' or hit[0] in fv(sub(x, hit[0])):
                ok = None
                break
            ok.add(hit[0])
        if ok is not None and len(ok) == len(vs):
            out.append((a.a[0], (a, vs, implies(and_(*rng), f))))
    yield out


def instance(pat, vs, body, a):
    """(key, instance) of a quantified fact whose pattern matches the application a, or False"""
    if len(pat.a[1]) != len(a.a[1]):
        return False
    s = {}
    for x, y in zip(pat.a[1], a.a[1]):
        if x is y:
            continue
        vx = [v for v in vs if v in fv(x)]
        if len(vx) != 1 or vx[0] in s and subst(x, s) is not y:
            return False
        if vx[0] in s:
            continue
        s[vx[0]] = sub(y, sub(x, vx[0]))
        if subst(x, s) is not y:
            return False
    if len(s) != len(vs):
        return False
    key = (body,) + tuple(s[v] for v in vs)
    r = _instances.get(key)
    if r is None:
        r = _instances[key] = subst(body, s)
    return key, r


def collect_any(t, out, seen):
    if t in seen:
        return
    seen.add(t)
    if t.k == 'app':
        out.append(t)
    for c in children(t):
        collect_any(c, out, seen)


def as_int(d):
    """a positive multiple of the real term d as an integer term, if it is built from integers"""
    import math
    c, items = TT._terms(d)
    out, l = {}, c.denominator
    for x, k in items.items():
        if x.k == 'app' and x.a[0] == 'float':
            y = x.a[1][0]
        elif x.s == 'I':
            y = x
        elif x.k == 'mul' and all(f.s == 'I' and e > 0 for f, e in x.a[0]):
            y = TT._from_factors(dict(x.a[0]), 'I')
        else:
            return None
        if y.k in ('num', 'add'):
            return None
        out[y] = out.get(y, 0) + k
        l = l * k.denominator // math.gcd(l, k.denominator)
    return TT._from_terms(c * l, {x: k * l for x, k in out.items()}, 'I')


def sc_without(sc, v):
    return tuple(f for f in sc if v not in fv(f))


def positive(g):
    """the canonical positive literal of a guard: g itself, or p with g = not p"""
    if g.k == 'not':
        return g.a[0]
    if g.k == 'le' and (g.a[0].s == 'R' or g.a[1].s == 'R'):
        d = sub(g.a[1], g.a[0])      # d >= 0; lead must be negative for the strict form
        return g if lead_pos(d) else not_(g)
    if g.k == 'lt':
        d = sub(g.a[1], g.a[0])
        return g if lead_pos(d) else not_(g)
    if g.k == 'le':
        d = sub(g.a[1], g.a[0])
        return g if lead_pos(d) else not_(g)
    return g


def lead_pos(d):
    c, items = TT._terms(d)
    if not items:
        return True
    return min(items.items(), key=lambda p: p[0].id)[1] > 0


def dnf(c):
    """disjoint disjunctive normal form: list of literal lists"""
    if c is TRUE:
        return [[]]
    if c is FALSE:
        return []
    if c.k == 'and':
        out = [[]]
        for x in c.a:
            out = [a + b for a in out for b in dnf(x)]
        return out
    if c.k == 'or':
        out = []
        prev = TRUE
        for x in c.a:
            for p in dnf(prev):
                for l in dnf(x):
                    if any(not_(q) in l for q in p):
                        continue
                    out.append(p + [q for q in l if q not in p])
            prev = and_(prev, not_(x))
        return out
    if c.k == 'not' and c.a[0].k in ('and', 'or'):
        x = c.a[0]
        if x.k == 'and':
            return dnf(or_(*[not_(y) for y in x.a]))
        return dnf(and_(*[not_(y) for y in x.a]))
    return [[c]]


def level(t):
    return _level(t)


_lev = {}


def _level(t):
    r = _lev.get(t)
    if r is None:
        r = 0
        if t.k in BINDERS:
            v = t.a[0]
            r = int(v.a[0][1:].split('_')[0]) if v.a[0].startswith('$') else 0
        elif t.k == 'lam':
            for v in t.a[0]:
                if v.a[0].startswith('$'):
                    r = max(r, int(v.a[0][1:].split('_')[0]))
        for c in children(t):
            r = max(r, _level(c))
        _lev[t] = r
    return r


def show_skel(a, v, m):
    s = {w: var('_', 'I') for w, _, _ in m.b if w is not v}
    s[v] = var('@', 'I')
    return show(subst(a, s), 6)


def simp_deep(ctx, t, scope):
    """simplify integer subterms everywhere (used after index substitutions)"""
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        if x.k in ('num', 'var', 'true', 'false'):
            r = x
        elif x.s == 'I' and x.k not in ('sum', 'prod', 'app'):
            r = ctx.isimp(x, scope)
        elif x.k in BINDERS or x.k == 'lam':
            r = rebuild(x, go)
        else:
            r = rebuild(x, go)
        memo[x] = r
        return r
    return go(t)
