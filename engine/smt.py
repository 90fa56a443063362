"""Encoding of terms for z3 / cvc5 and the query counter."""
import sys
import time

sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3                                                      # noqa: E402

from .terms import *                                           # noqa: E402,F401,F403
from . import terms as T_                                      # noqa: E402

STATS = dict(queries=0, time=0.0, unknown=0)

_funs = {}


def _fun(name, sorts, res):
    key = (name, tuple(map(str, sorts)), str(res))
    f = _funs.get(key)
    if f is None:
        f = _funs[key] = z3.Function('%s#%d' % (name, len(_funs)), *(list(sorts) + [res]))
    return f


I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
_SORT = {'I': I, 'R': R, 'B': B}


_skel = {}
_U = {'I': var('_', 'I'), 'R': var('_r', 'R'), 'B': var('_b', 'B')}


def skeleton(t):
    r = _skel.get(t)
    if r is None:
        r = _skel[t] = show(subst(t, {v: _U[v.s] for v in fv(t)}), 40)
    return r


def var_order(t):
    """free variables in an order that does not depend on their names"""
    free = fv(t)
    out, seen = [], set()

    def go(x):
        if x in seen or not (fv(x) & free):
            return
        seen.add(x)
        if x.k == 'var':
            if x in free and x not in out:
                out.append(x)
            return
        cs = children(x)
        if x.k in ('add', 'mul', 'and', 'or', 'eq'):
            cs = sorted(cs, key=skeleton)
        for c in cs:
            go(c)
    go(t)
    return out


_encoded = {}            # term -> (its encoding, the side facts it needs)


class Enc(object):
    def __init__(self, canon=None):
        self.memo = {}
        self.side = []          # defining facts of interpreted functions met on the way
        self.ids = set()

    def real(self, t):
        e = self.e(t)
        return z3.ToReal(e) if e.sort() == I else e

    def num(self, e):
        return e

    def e(self, t):
        r = self.memo.get(t)
        if r is None:
            g = _encoded.get(t)
            if g is None:
                sub_ = Enc()
                g = sub_._e(t)
                g = _encoded[t] = (g, tuple(sub_.side))
            r = self.memo[t] = g[0]
            for x in g[1]:
                self.add_side(x)
        return r

    def add_side(self, x):
        if x.get_id() not in self.ids:
            self.ids.add(x.get_id())
            self.side.append(x)

    def _closed(self, name, t, sort):
        """abstract a term (binder, lambda) as a function of its free variables"""
        vs = var_order(t)
        # rename free variables positionally so that instances with other arguments share the symbol
        ps = [var('?%s%d' % (v.s, i), v.s) for i, v in enumerate(vs)]
        body = subst(t, dict(zip(vs, ps)))
        f = _fun('%s_%d' % (name, body.id), [_SORT[v.s] for v in vs], sort)
        return f(*[self.e(v) for v in vs]) if vs else z3.Const('%s_%d' % (name, body.id), sort)

    def _e(self, t):
        k = t.k
        if k == 'num':
            v = val(t)
            return z3.IntVal(int(v)) if t.s == 'I' else z3.RealVal(str(v))
        if k == 'var':
            return z3.Const(t.a[0], _SORT[t.s])
        if k == 'true':
            return z3.BoolVal(True)
        if k == 'false':
            return z3.BoolVal(False)
        if k == 'add':
            if t.s == 'I':
                parts = [(self.e(x), c) for x, c in t.a[1]]
                if all(p.sort() == I for p, _ in parts) and all(c.denominator == 1 for _, c in parts) and t.a[0].denominator == 1:
                    return z3.Sum([z3.IntVal(int(t.a[0]))] + [p if c == 1 else int(c) * p for p, c in parts])
            return z3.Sum([z3.RealVal(str(t.a[0]))] + [self.real(x) if c == 1 else z3.RealVal(str(c)) * self.real(x) for x, c in t.a[1]])
        if k == 'mul':
            out = None
            allint = t.s == 'I'
            for x, n in t.a[0]:
                p = self.e(x) if allint else self.real(x)
                if n < 0:
                    p = self.inv(p)
                    n = -n
                if n > 6:
                    p = _fun('ipow', [p.sort(), I], p.sort())(p, z3.IntVal(n))
                    n = 1
                for _ in range(n):
                    out = p if out is None else out * p
            return out
        if k == 'ite':
            c = self.e(t.a[0])
            a, b = self.e(t.a[1]), self.e(t.a[2])
            if a.sort() != b.sort():
                a, b = self.real(t.a[1]), self.real(t.a[2])
            return z3.If(c, a, b)
        if k in ('le', 'lt', 'eq'):
            a, b = self.e(t.a[0]), self.e(t.a[1])
            if a.sort() != b.sort() and a.sort() != B:
                a, b = self.real(t.a[0]), self.real(t.a[1])
            return a <= b if k == 'le' else a < b if k == 'lt' else a == b
        if k == 'not':
            return z3.Not(self.e(t.a[0]))
        if k == 'and':
            return z3.And([self.e(x) for x in t.a])
        if k == 'or':
            return z3.Or([self.e(x) for x in t.a])
        if k in ('fdiv', 'mod'):
            a, b = self.e(t.a[0]), self.e(t.a[1])
            q = _fun('fdiv', [a.sort(), b.sort()], I)(a, b) if not (a.sort() == I and b.sort() == I) else a / b
            if a.sort() == I and b.sort() == I:
                return a / b if k == 'fdiv' else a % b
            return q if k == 'fdiv' else self.real(t.a[0]) - z3.ToReal(q) * self.real(t.a[1])
        if k == 'app':
            return self._app(t)
        if k in ('sum', 'prod'):
            return self._closed(k, t, R if t.s == 'R' else I)
        if k == 'all':
            v, lo, hi, b = t.a
            v2 = fresh('q', v.s)
            b2 = subst(b, {v: v2})
            zv = self.e(v2)
            sub_ = Enc()
            body = sub_.e(b2)
            side = sub_.side
            rng = z3.And(sub_.e(le(lo, v2)), sub_.e(lt(v2, hi)))
            if side:
                # side facts that mention the bound variable hold for every value of it
                for s in side:
                    self.add_side(z3.ForAll([zv], s))
            return z3.ForAll([zv], z3.Implies(rng, body))
        if k == 'lam':
            return self._closed('lam', t, I)
        raise AssertionError(k)

    def inv(self, p):
        f = _fun('inv', [R], R)(p)
        self.add_side(z3.Implies(p != 0, p * f == 1))
        self.add_side(z3.Implies(p > 0, f > 0))
        return f

    def _app(self, t):
        name, args = t.a
        if name == 'opq':
            return self.e(args[0])
        if name == 'abs':
            x = self.e(args[0])
            return z3.If(x >= 0, x, -x)
        if name == 'sign':
            x = self.e(args[0])
            one, zero = (z3.IntVal(1), z3.IntVal(0)) if t.s == 'I' else (z3.RealVal(1), z3.RealVal(0))
            return z3.If(x > 0, one, z3.If(x < 0, -one, zero))
        if name in ('min2', 'max2'):
            a, b = self.e(args[0]), self.e(args[1])
            if a.sort() != b.sort():
                a, b = self.real(args[0]), self.real(args[1])
            return z3.If(a <= b, a, b) if name == 'min2' else z3.If(a >= b, a, b)
        if name == 'sqrt':
            x = self.real(args[0])
            f = _fun('sqrt', [R], R)(x)
            self.add_side(z3.Implies(x >= 0, z3.And(f >= 0, f * f == x)))
            return f
        if name == 'floor':
            return z3.ToInt(self.real(args[0]))
        if name == 'exp':
            f = _fun('exp', [R], R)(self.real(args[0]))
            self.add_side(f > 0)
            return f
        if name == 'float':
            return self.real(args[0])
        if name == 'real2int':
            return z3.ToInt(self.real(args[0]))
        zs = []
        for a in args:
            if a.s == 'L':
                zs.append(self._closed('lam', a, I))
            elif a.s == 'R':
                zs.append(self.real(a))
            else:
                x = self.e(a)
                zs.append(x)
        # arguments of sort I in a real position are kept as they are: the symbol is chosen by the sorts
        if not zs:
            return z3.Const(name, _SORT[t.s])
        return _fun(name, [z.sort() for z in zs], _SORT[t.s])(*zs)


def check_valid(hyps, goal, timeout=2000, canon=None, model=False):
    """'proved' | 'refuted' (with model) | 'unknown': hyps |= goal"""
    t0 = time.time()
    STATS['queries'] += 1
    enc = Enc()
    s = z3.Solver()
    s.set('timeout', timeout)
    for h in hyps:
        s.add(enc.e(h))
    s.add(z3.Not(enc.e(goal)))
    for x in enc.side:
        s.add(x)
    r = s.check()
    STATS['time'] += time.time() - t0
    if r == z3.unsat:
        return 'proved', None
    if r == z3.sat:
        return 'refuted', s.model() if model else None
    STATS['unknown'] += 1
    return 'unknown', None


def sat(hyps, timeout=2000):
    enc = Enc()
    s = z3.Solver()
    s.set('timeout', timeout)
    for h in hyps:
        s.add(enc.e(h))
    for x in enc.side:
        s.add(x)
    r = s.check()
    return 'sat' if r == z3.sat else 'unsat' if r == z3.unsat else 'unknown'
