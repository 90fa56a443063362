"""Term language of the verification-condition generator.

Hash-consed first-order terms over mathematical integers (sort 'I'), reals ('R') and booleans ('B'), with
finite sums/products over symbolic integer ranges, bounded quantifiers and lambda terms (sort 'L': an array
passed to an uninterpreted function).  add/mul are kept in a light normal form (GiNaC style); integer terms are
fully expanded so that linear index arithmetic is canonical.
"""
from fractions import Fraction as Fr
import itertools

_table = {}
_ctr = itertools.count()
_fresh = itertools.count()


class T(object):
    __slots__ = ('k', 'a', 's', 'id', '_fv', '__weakref__')

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    # arithmetic sugar for contracts
    def __add__(self, o): return add(self, lift(o))
    __radd__ = __add__
    def __sub__(self, o): return sub(self, lift(o))
    def __rsub__(self, o): return sub(lift(o), self)
    def __mul__(self, o): return mul(self, lift(o))
    __rmul__ = __mul__
    def __neg__(self): return mul(num(-1, self.s), self)
    def __truediv__(self, o): return div(self, lift(o))
    def __rtruediv__(self, o): return div(lift(o), self)
    def __pow__(self, o): return power(self, lift(o))
    def __lt__(self, o): return lt(self, lift(o))
    def __le__(self, o): return le(self, lift(o))
    def __gt__(self, o): return lt(lift(o), self)
    def __ge__(self, o): return le(lift(o), self)


def _mk(k, a, s):
    key = (k, a, s)
    t = _table.get(key)
    if t is None:
        t = T.__new__(T)
        t.k, t.a, t.s = k, a, s
        t.id = next(_ctr)
        t._fv = None
        _table[key] = t
    return t


def num(v, s=None):
    v = Fr(v)
    if s is None:
        s = 'I' if v.denominator == 1 else 'R'
    if s == 'I' and v.denominator != 1:
        s = 'R'
    return _mk('num', (v,), s)


ZERO, ONE = num(0, 'I'), num(1, 'I')
RZERO, RONE = num(0, 'R'), num(1, 'R')
TRUE, FALSE = _mk('true', (), 'B'), _mk('false', (), 'B')


def lift(x):
    if isinstance(x, T):
        return x
    if isinstance(x, bool):
        return TRUE if x else FALSE
    if isinstance(x, int):
        return num(x, 'I')
    if isinstance(x, float):
        return flt(x)
    if isinstance(x, Fr):
        return num(x, 'R')
    try:
        import numpy as np
        if isinstance(x, np.integer):
            return num(int(x), 'I')
        if isinstance(x, np.floating):
            return flt(float(x))
        if isinstance(x, np.bool_):
            return TRUE if x else FALSE
    except ImportError:
        pass
    raise TypeError('cannot lift %r' % (x,))


def flt(x):
    """A float literal stands for the decimal number it is written as (machine arithmetic as mathematical)."""
    if x != x or x in (float('inf'), float('-inf')):
        return var('NONFINITE_' + repr(x).replace('-', 'm'), 'R')
    return num(Fr(repr(x)), 'R')


def var(name, s):
    return _mk('var', (name,), s)


def fresh(prefix, s):
    return var('%s!%d' % (prefix, next(_fresh)), s)


def fresh_name(prefix):
    return '%s!%d' % (prefix, next(_fresh))


def app(f, args, s):
    return _mk('app', (f, tuple(args)), s)


def isnum(t):
    return t.k == 'num'


def val(t):
    return t.a[0]


def toreal(t):
    return t


def _sortof(*ts):
    return 'R' if any(t.s == 'R' for t in ts) else 'I'


def _terms(t):
    """t as (const, {T: coef})"""
    if t.k == 'num':
        return val(t), {}
    if t.k == 'add':
        return t.a[0], dict(t.a[1])
    return Fr(0), {t: Fr(1)}


def _from_terms(c, d, s):
    items = [(t, k) for t, k in d.items() if k != 0]
    if not items:
        return num(c, s)
    if c == 0 and len(items) == 1 and items[0][1] == 1 and (items[0][0].s == s or True):
        return items[0][0]
    items.sort(key=lambda p: p[0].id)
    return _mk('add', (c, tuple(items)), s)


def add(*ts):
    s = _sortof(*ts)
    c, d = Fr(0), {}
    for t in ts:
        if t.s == 'B':
            t = ite(t, ONE, ZERO)
        c2, d2 = _terms(t)
        c += c2
        for x, k in d2.items():
            d[x] = d.get(x, 0) + k
    return _from_terms(c, d, s)


def sub(a, b):
    return add(a, mul(num(-1, 'I'), b))


def neg(a):
    return mul(num(-1, 'I'), a)


def _factors(t):
    """t (not add/num) as {atom: exp}"""
    if t.k == 'mul':
        return dict(t.a[0])
    if t.k == 'pow' and isnum(t.a[1]) and val(t.a[1]).denominator == 1:
        return {t.a[0]: int(val(t.a[1]))}
    return {t: 1}


def _from_factors(d, s):
    items = [(t, e) for t, e in d.items() if e != 0]
    if not items:
        return num(1, s)
    if len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    items.sort(key=lambda p: p[0].id)
    return _mk('mul', (tuple(items),), s)


def mul(*ts):
    s = _sortof(*ts)
    coef = Fr(1)
    facs = {}
    adds = []
    for t in ts:
        if t.s == 'B':
            t = ite(t, ONE, ZERO)
        if t.k == 'num':
            coef *= val(t)
            continue
        if t.k == 'add':
            if t.a[0] == 0 and len(t.a[1]) == 1:
                x, k = t.a[1][0]
                coef *= k
                t = x
            else:
                adds.append(t)
                continue
        for x, e in _factors(t).items():
            facs[x] = facs.get(x, 0) + e
    if coef == 0:
        return num(0, s)
    if s == 'I' and adds:
        res = {_from_factors(facs, s): coef} if facs else {}
        const = Fr(0) if facs else coef
        for t in adds:
            c2, d2 = _terms(t)
            nres, nconst = {}, const * c2
            if const:
                for x, k in d2.items():
                    nres[x] = nres.get(x, 0) + const * k
            for y, ky in res.items():
                if c2:
                    nres[y] = nres.get(y, 0) + ky * c2
                for x, k in d2.items():
                    p = mul(x, y)
                    cp, dp = _terms(p)
                    nconst += cp * ky * k
                    for z, kz in dp.items():
                        nres[z] = nres.get(z, 0) + kz * ky * k
            res, const = nres, nconst
        return _from_terms(const, res, s)
    if not facs and len(adds) == 1:
        c, d = _terms(adds[0])
        return _from_terms(c * coef, {x: k * coef for x, k in d.items()}, s)
    for t in adds:
        facs[t] = facs.get(t, 0) + 1
    base = _from_factors(facs, s)
    if base.k == 'num':
        return num(coef * val(base), s)
    return _from_terms(Fr(0), {base: coef}, s)


def inv(t):
    if isnum(t):
        if val(t) == 0:
            return app('inv0', (), 'R')
        return num(1 / val(t), 'R')
    if t.k == 'add' and t.a[0] == 0 and len(t.a[1]) == 1:
        x, k = t.a[1][0]
        return mul(num(1 / k, 'R'), inv(x))
    if t.k == 'mul':
        return _from_factors({x: -e for x, e in t.a[0]}, 'R')
    return _mk('mul', (((t, -1),),), 'R')


def div(a, b):
    return mul(real(a), inv(b))


def real(a):
    """same value viewed as a real"""
    if a.s == 'B':
        return ite(a, RONE, RZERO)
    if a.s == 'I' and a.k == 'num':
        return num(val(a), 'R')
    if a.s == 'I' and a.k == 'add':
        return _mk('add', a.a, 'R')
    return a


def power(b, e):
    if b.s == 'B':
        b = ite(b, ONE, ZERO)
    if isnum(e):
        v = val(e)
        if v.denominator == 1:
            n = int(v)
            if n == 0:
                return num(1, b.s)
            if n == 1:
                return b
            if isnum(b):
                if val(b) == 0 and n < 0:
                    return app('inv0', (), 'R')
                return num(val(b) ** n, b.s if n > 0 and b.s == 'I' else 'R')
            if b.k == 'add' and b.a[0] == 0 and len(b.a[1]) == 1:
                x, k = b.a[1][0]
                return mul(num(k ** n, 'R' if n < 0 else b.s), power(x, e))
            if b.k == 'mul':
                return _from_factors({x: k * n for x, k in b.a[0]}, 'R' if n < 0 else b.s)
            if b.s == 'I' and n > 0 and b.k == 'add':
                r = b
                for _ in range(n - 1):
                    r = mul(r, b)
                return r
            return _mk('mul', (((b, n),),), 'R' if n < 0 else b.s)
        if v == Fr(1, 2):
            return fn('sqrt', b)
    if isnum(b) and val(b) == 1:
        return num(1, 'R')
    return app('pow', (b, e), 'R')


def fn(name, *args):
    """interpreted real functions"""
    x = args[0]
    if name == 'abs':
        if isnum(x):
            return num(abs(val(x)), x.s)
        return app('abs', args, x.s)
    if name == 'sign':
        if isnum(x):
            v = val(x)
            return num((v > 0) - (v < 0), x.s)
        return app('sign', args, x.s)
    if name == 'sqrt' and isnum(x) and val(x) >= 0:
        v = val(x)
        import math
        p, q = math.isqrt(v.numerator), math.isqrt(v.denominator)
        if p * p == v.numerator and q * q == v.denominator:
            return num(Fr(p, q), 'R')
    if name == 'floor':
        if isnum(x):
            return num(val(x).__floor__(), 'I')
        if x.s == 'I':
            return x
        return app('floor', args, 'I')
    if name == 'ceil':
        if isnum(x):
            return num(val(x).__ceil__(), 'I')
        if x.s == 'I':
            return x
        return neg(app('floor', (neg(x),), 'I'))
    if name in ('min2', 'max2'):
        a, b = args
        if isnum(a) and isnum(b):
            return (min if name == 'min2' else max)(a, b, key=val)
        if a is b:
            return a
        if a.id > b.id:
            a, b = b, a
        return app(name, (a, b), _sortof(a, b))
    if name == 'exp' and isnum(x) and val(x) == 0:
        return RONE
    if name == 'log' and isnum(x) and val(x) == 1:
        return RZERO
    if name == 'cos':
        if isnum(x) and val(x) == 0:
            return RONE
    if name == 'sin':
        if isnum(x) and val(x) == 0:
            return RZERO
    return app(name, args, 'R')


def fdiv(a, b):
    if isnum(b):
        if val(b) == 1:
            return a
        if isnum(a) and val(b) != 0:
            return num((val(a) / val(b)).__floor__(), 'I')
    if isnum(a) and val(a) == 0:
        return ZERO
    if a is b:
        return ONE
    return _mk('fdiv', (a, b), 'I')


def mod(a, b):
    if isnum(b):
        if val(b) == 1:
            return ZERO
        if isnum(a) and val(b) != 0:
            return num(val(a) - val(b) * (val(a) / val(b)).__floor__(), 'I')
    if isnum(a) and val(a) == 0:
        return ZERO
    if a is b:
        return ZERO
    return _mk('mod', (a, b), 'I')


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.s == 'B' and b.s == 'B':
        return or_(and_(c, a), and_(not_(c), b))
    if a.s == 'B':
        a = ite(a, ONE, ZERO)
    if b.s == 'B':
        b = ite(b, ONE, ZERO)
    if c.k == 'not':
        return ite(c.a[0], b, a)
    return _mk('ite', (c, a, b), _sortof(a, b))


def _bindrange(kind, v, lo, hi, body, s):
    return _mk(kind, (v, lo, hi, body), s)


def tsum(v, lo, hi, body):
    if body.s == 'B':
        body = ite(body, ONE, ZERO)
    if isnum(body) and val(body) == 0:
        return body
    n = sub(hi, lo)
    if isnum(n):
        k = int(val(n))
        if k <= 0:
            return num(0, body.s)
        if k <= 3:
            return add(*[subst(body, {v: add(lo, num(i, 'I'))}) for i in range(k)])
    return _bindrange('sum', v, lo, hi, body, body.s)


def tprod(v, lo, hi, body):
    if isnum(body) and val(body) == 1:
        return body
    n = sub(hi, lo)
    if isnum(n):
        k = int(val(n))
        if k <= 0:
            return num(1, body.s)
        if k <= 3:
            return mul(*[subst(body, {v: add(lo, num(i, 'I'))}) for i in range(k)])
    return _bindrange('prod', v, lo, hi, body, body.s)


def tall(v, lo, hi, body):
    if body is TRUE:
        return TRUE
    n = sub(hi, lo)
    if isnum(n):
        k = int(val(n))
        if k <= 3:
            return and_(*[subst(body, {v: add(lo, num(i, 'I'))}) for i in range(max(k, 0))])
    return _bindrange('all', v, lo, hi, body, 'B')


def tany(v, lo, hi, body):
    return not_(tall(v, lo, hi, not_(body)))


def lam(vs, dims, body):
    return _mk('lam', (tuple(vs), tuple(dims), body), 'L')


# booleans ------------------------------------------------------------------------------------------------
def le(a, b):
    d = sub(a, b)
    if isnum(d):
        return TRUE if val(d) <= 0 else FALSE
    return _mk('le', (a, b), 'B')


def lt(a, b):
    d = sub(a, b)
    if isnum(d):
        return TRUE if val(d) < 0 else FALSE
    if _sortof(a, b) == 'I':
        return le(add(a, ONE), b)
    return _mk('lt', (a, b), 'B')


def eq(a, b):
    if a is b:
        return TRUE
    if a.s == 'B' or b.s == 'B':
        if a.s != 'B':
            a = not_(eq(a, ZERO))
        if b.s != 'B':
            b = not_(eq(b, ZERO))
        return and_(or_(not_(a), b), or_(a, not_(b)))
    d = sub(a, b)
    if isnum(d):
        return TRUE if val(d) == 0 else FALSE
    if a.id > b.id:
        a, b = b, a
    return _mk('eq', (a, b), 'B')


def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.k == 'not':
        return a.a[0]
    if a.k == 'le':
        return lt(a.a[1], a.a[0])
    if a.k == 'lt':
        return le(a.a[1], a.a[0])
    return _mk('not', (a,), 'B')


def and_(*ts):
    out = []
    for t in ts:
        if t is FALSE:
            return FALSE
        if t is TRUE:
            continue
        for x in (t.a if t.k == 'and' else (t,)):
            if x not in out:
                out.append(x)
    for x in out:
        if not_(x) in out:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return _mk('and', tuple(sorted(out, key=lambda t: t.id)), 'B')


def or_(*ts):
    out = []
    for t in ts:
        if t is TRUE:
            return TRUE
        if t is FALSE:
            continue
        for x in (t.a if t.k == 'or' else (t,)):
            if x not in out:
                out.append(x)
    for x in out:
        if not_(x) in out:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return _mk('or', tuple(sorted(out, key=lambda t: t.id)), 'B')


def implies(a, b):
    return or_(not_(a), b)


BINDERS = ('sum', 'prod', 'all')


def fv(t):
    """free variables (frozenset of var terms)"""
    if t._fv is not None:
        return t._fv
    k = t.k
    if k == 'num' or k == 'true' or k == 'false':
        r = frozenset()
    elif k == 'var':
        r = frozenset((t,))
    elif k == 'app':
        r = frozenset().union(*[fv(x) for x in t.a[1]]) if t.a[1] else frozenset()
    elif k in BINDERS:
        v, lo, hi, b = t.a
        r = (fv(b) - {v}) | fv(lo) | fv(hi)
    elif k == 'lam':
        vs, dims, b = t.a
        r = (fv(b) - set(vs)).union(*[fv(d) for d in dims]) if dims else fv(b)
    elif k == 'add':
        r = frozenset().union(*[fv(x) for x, _ in t.a[1]])
    elif k == 'mul':
        r = frozenset().union(*[fv(x) for x, _ in t.a[0]])
    else:
        r = frozenset().union(*[fv(x) for x in t.a])
    t._fv = r
    return r


def subst(t, m, _memo=None):
    """capture-avoiding substitution of variables (dict var T -> T)"""
    if not m:
        return t
    if _memo is None:
        _memo = {}
    if not any(v in m for v in fv(t)):
        return t
    r = _memo.get(t)
    if r is not None:
        return r
    k = t.k
    if k == 'var':
        r = m.get(t, t)
    elif k in BINDERS:
        v, lo, hi, b = t.a
        lo2, hi2 = subst(lo, m, _memo), subst(hi, m, _memo)
        m2 = {x: y for x, y in m.items() if x is not v}
        if any(v in fv(y) for y in m2.values()):
            v2 = fresh(v.a[0].split('!')[0], v.s)
            b = subst(b, {v: v2})
            v = v2
        b2 = subst(b, m2)
        r = {'sum': tsum, 'prod': tprod, 'all': tall}[k](v, lo2, hi2, b2)
    elif k == 'lam':
        vs, dims, b = t.a
        m2 = {x: y for x, y in m.items() if x not in vs}
        fvs = set().union(*[fv(y) for y in m2.values()]) if m2 else set()
        if any(v in fvs for v in vs):
            nv = [fresh(v.a[0].split('!')[0], v.s) for v in vs]
            b = subst(b, dict(zip(vs, nv)))
            vs = nv
        r = lam(vs, [subst(d, m, _memo) for d in dims], subst(b, m2))
    else:
        r = rebuild(t, lambda x: subst(x, m, _memo))
    _memo[t] = r
    return r


def rebuild(t, f):
    """apply f to the immediate (non-binding) children"""
    k = t.k
    if k in ('num', 'var', 'true', 'false'):
        return t
    if k == 'app':
        name, args = t.a
        na = tuple(f(x) for x in args)
        if na == args:
            return t
        if name in ('abs', 'sign', 'sqrt', 'floor', 'min2', 'max2', 'exp', 'log', 'sin', 'cos'):
            return fn(name, *na)
        if name == 'pow':
            return power(*na)
        return app(name, na, t.s)
    if k == 'add':
        parts = [mul(num(c, 'R' if c.denominator != 1 else 'I'), f(x)) for x, c in t.a[1]]
        r = add(num(t.a[0], t.s), *parts)
        return r
    if k == 'mul':
        return mul(*[power(f(x), num(e, 'I')) for x, e in t.a[0]])
    if k == 'ite':
        return ite(f(t.a[0]), f(t.a[1]), f(t.a[2]))
    if k == 'fdiv':
        return fdiv(f(t.a[0]), f(t.a[1]))
    if k == 'mod':
        return mod(f(t.a[0]), f(t.a[1]))
    if k == 'le':
        return le(f(t.a[0]), f(t.a[1]))
    if k == 'lt':
        return lt(f(t.a[0]), f(t.a[1]))
    if k == 'eq':
        return eq(f(t.a[0]), f(t.a[1]))
    if k == 'not':
        return not_(f(t.a[0]))
    if k == 'and':
        return and_(*[f(x) for x in t.a])
    if k == 'or':
        return or_(*[f(x) for x in t.a])
    if k in BINDERS:
        v, lo, hi, b = t.a
        return {'sum': tsum, 'prod': tprod, 'all': tall}[k](v, f(lo), f(hi), f(b))
    if k == 'lam':
        vs, dims, b = t.a
        return lam(vs, [f(d) for d in dims], f(b))
    raise AssertionError(k)


def children(t):
    k = t.k
    if k in ('num', 'var', 'true', 'false'):
        return ()
    if k == 'app':
        return t.a[1]
    if k == 'add':
        return tuple(x for x, _ in t.a[1])
    if k == 'mul':
        return tuple(x for x, _ in t.a[0])
    if k in BINDERS:
        return t.a[1:]
    if k == 'lam':
        return tuple(t.a[1]) + (t.a[2],)
    return t.a


def quantifies(t, _seen=None):
    """a universal quantifier occurs outside sums, products and lambdas (those are atoms for the solver)"""
    if _seen is None:
        _seen = set()
    if t in _seen or t.k in ('sum', 'prod', 'lam'):
        return False
    _seen.add(t)
    return t.k == 'all' or any(quantifies(c, _seen) for c in children(t))


def contains(t, pred, _seen=None):
    if _seen is None:
        _seen = set()
    if t in _seen:
        return False
    _seen.add(t)
    if pred(t):
        return True
    return any(contains(c, pred, _seen) for c in children(t))


def apps_named(t, names, out=None, _seen=None):
    """all app subterms whose function name is in names"""
    if out is None:
        out, _seen = [], set()
    if t in _seen:
        return out
    _seen.add(t)
    if t.k == 'app' and t.a[0] in names:
        out.append(t)
    for c in children(t):
        apps_named(c, names, out, _seen)
    return out


def replace_app(t, name, f, _memo=None):
    """replace app(name, args) by f(args) everywhere (args already replaced); f must be capture-safe"""
    if _memo is None:
        _memo = {}
    r = _memo.get(t)
    if r is not None:
        return r
    if t.k == 'app' and t.a[0] == name:
        r = f(tuple(replace_app(x, name, f, _memo) for x in t.a[1]))
    else:
        r = rebuild(t, lambda x: replace_app(x, name, f, _memo))
    _memo[t] = r
    return r


def replace_term(t, old, new, memo=None):
    if memo is None:
        memo = {}
    if t is old:
        return new
    r = memo.get(t)
    if r is None:
        r = memo[t] = rebuild(t, lambda x: replace_term(x, old, new, memo))
    return r


def show(t, depth=12):
    if depth <= 0:
        return '...'
    s = lambda x: show(x, depth - 1)
    k = t.k
    if k == 'num':
        return str(t.a[0])
    if k == 'var':
        return t.a[0]
    if k in ('true', 'false'):
        return k
    if k == 'app':
        return '%s(%s)' % (t.a[0], ', '.join(map(s, t.a[1])))
    if k == 'add':
        out = []
        if t.a[0] != 0:
            out.append(str(t.a[0]))
        for x, c in t.a[1]:
            out.append(s(x) if c == 1 else '-' + s(x) if c == -1 else '%s*%s' % (c, s(x)))
        return '(' + ' + '.join(out) + ')'
    if k == 'mul':
        return '*'.join(s(x) if e == 1 else '%s^%d' % (s(x), e) for x, e in t.a[0])
    if k in BINDERS:
        return '%s{%s in [%s,%s)} %s' % (k, s(t.a[0]), s(t.a[1]), s(t.a[2]), s(t.a[3]))
    if k == 'lam':
        return '(lam %s. %s)' % (','.join(map(s, t.a[0])), s(t.a[2]))
    op = {'le': '<=', 'lt': '<', 'eq': '=', 'and': ' & ', 'or': ' | ', 'fdiv': '//', 'mod': '%'}.get(k)
    if op:
        return '(' + (' %s ' % op).join(map(s, t.a)) + ')'
    return '%s(%s)' % (k, ', '.join(map(s, t.a)))
