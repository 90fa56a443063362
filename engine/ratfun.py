"""Identities between elementary functions, decided as identities of rational functions over generators.

A term built from real constants, atoms (array elements), + - * /, rational powers, sqrt, exp, log, sin, cos is mapped to a
fraction num/den over Q[generators].  Generators are the atoms and one symbol per distinct transcendental value exp(A), log(A),
sin(A), cos(A), B^(1/q) (A and B compared as fractions, hence up to algebraic identity).  The only relations used are
g^q = B for the root symbols.  `zero` is sound: a numerator that reduces to 0 is 0 wherever the denominators are not.
Products are taken out of roots and logarithms only for factors whose sign is known (`positive`, interval arithmetic).
"""
from fractions import Fraction as Fr

from .terms import *            # noqa: F401,F403
from .values import Unsupported


class NotElementary(Exception):
    pass


NGEN = 30


class Frac(object):
    """num / prod(den factors ** exponents)"""
    __slots__ = ('n', 'd')

    def __init__(self, n, d):
        self.n, self.d = n, d


class Field(object):
    def __init__(self, positive=None):
        from sympy import QQ
        from sympy.polys.rings import ring
        r = ring(['g%d' % i for i in range(NGEN)], QQ)
        self.R, self.gens = r[0], r[1:]
        self.QQ = QQ
        self.used = 0
        self.atoms = {}
        self.funs = []          # (kind, q, Frac argument, generator index)
        self.roots = {}         # generator index -> (q, Frac of the base)
        self.memo = {}
        self.positive = positive or (lambda t: False)

    def new(self):
        if self.used >= NGEN:
            raise NotElementary('too many generators')
        self.used += 1
        return self.used - 1

    def const(self, v):
        v = Fr(v)
        return Frac(self.R(self.QQ(v.numerator, v.denominator)), {})

    def gen(self, i):
        return Frac(self.gens[i], {})

    # -- fraction arithmetic --------------------------------------------------------------------------------------
    def mulf(self, a, b):
        d = dict(a.d)
        for p, e in b.d.items():
            d[p] = d.get(p, 0) + e
        return self.cancel(Frac(a.n * b.n, d))

    def cancel(self, f):
        if not f.n:
            return Frac(f.n, {})
        n, d = f.n, dict(f.d)
        for p in list(d):
            while d[p] > 0:
                if len(p) > len(n):
                    break
                q, r = divmod(n, p)
                if r:
                    break
                n = q
                d[p] -= 1
            if d[p] == 0:
                del d[p]
        return Frac(n, d)

    def addf(self, a, b):
        if not a.n:
            return b
        if not b.n:
            return a
        d = dict(a.d)
        for p, e in b.d.items():
            d[p] = max(d.get(p, 0), e)
        na, nb = a.n, b.n
        for p, e in d.items():
            x = e - a.d.get(p, 0)
            if x:
                na = na * p ** x
            x = e - b.d.get(p, 0)
            if x:
                nb = nb * p ** x
        return self.cancel(Frac(na + nb, d))

    def invf(self, a):
        if not a.n:
            raise NotElementary('division by zero')
        n = self.R(1)
        for p, e in a.d.items():
            n = n * p ** e
        d = {}
        rest = a.n
        # monomial content is kept as separate factors
        c, terms = rest.primitive() if hasattr(rest, 'primitive') else (self.QQ(1), rest)
        rest = terms
        n = n * self.R(self.QQ(1) / c)
        lc = rest.LC
        if lc < 0:
            rest, n = -rest, -n
        mins = None
        for m in rest.keys():
            mins = m if mins is None else tuple(min(x, y) for x, y in zip(mins, m))
        for i, e in enumerate(mins):
            if e:
                d[self.gens[i]] = e
        if any(mins):
            rest = self.R.from_dict({tuple(x - y for x, y in zip(m, mins)): k for m, k in rest.items()})
        if rest != self.R(1):
            d[rest] = 1
        return self.cancel(Frac(n, d))

    def powf(self, a, k):
        if k < 0:
            return self.powf(self.invf(a), -k)
        return Frac(a.n ** k, {p: e * k for p, e in a.d.items()}) if k else self.const(1)

    def same(self, a, b):
        return self.zero(self.addf(a, self.mulf(self.const(-1), b)))

    def zero(self, a):
        """the numerator vanishes modulo the relations of the root symbols"""
        n = a.n
        return self._zero(n, max(self.roots) if self.roots else -1)

    def _zero(self, n, top):
        if not n:
            return True
        while top >= 0 and top not in self.roots:
            top -= 1
        if top < 0:
            return False
        q, base = self.roots[top]
        parts = {}
        hi = 0
        for m, k in n.items():
            e = m[top]
            hi = max(hi, e // q)
            m2 = m[:top] + (0,) + m[top + 1:]
            parts.setdefault((e % q), {}).setdefault(e // q, {})[m2] = k
        den = self.R(1)
        for p, e in base.d.items():
            den = den * p ** e
        for r, js in parts.items():
            tot = self.R(0)
            for j, dct in js.items():
                tot = tot + self.R.from_dict(dct) * base.n ** j * den ** (hi - j)
            # a denominator of the base may contain earlier symbols only: recurse below this symbol
            if not self._zero(tot, top - 1):
                return False
        return True

    # -- terms ----------------------------------------------------------------------------------------------------
    def symbol(self, kind, arg, q=1):
        for k, q2, a, g in self.funs:
            if k == kind and q2 == q and self.same(a, arg):
                return g
        g = self.new()
        self.funs.append((kind, q, arg, g))
        if kind == 'root':
            self.roots[g] = (q, arg)
        return g

    def split(self, t):
        """t as constant and factors (term, exponent)"""
        c = Fr(1)
        if t.k == 'num':
            return val(t), []
        if t.k == 'add' and t.a[0] == 0 and len(t.a[1]) == 1:
            x, k = t.a[1][0]
            c, t = k, x
        if t.k == 'mul':
            return c, list(t.a[0])
        return c, [(t, 1)]

    def ev(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self._ev(t)
        return r

    def _ev(self, t):
        if t.k == 'num':
            return self.const(val(t))
        if t.k == 'add':
            r = self.const(t.a[0])
            for x, k in t.a[1]:
                r = self.addf(r, self.mulf(self.const(k), self.ev(x)))
            return r
        if t.k == 'mul':
            r = self.const(1)
            for x, e in t.a[0]:
                r = self.mulf(r, self.powf(self.ev(x), e))
            return r
        if t.k == 'app':
            f, a = t.a
            if f == 'sqrt':
                return self.root(a[0], Fr(1, 2))
            if f == 'pow' and isnum(a[1]):
                return self.root(a[0], val(a[1]))
            if f == 'exp':
                return self.gen(self.symbol('exp', self.ev(a[0])))
            if f == 'log':
                return self.log(a[0])
            if f in ('sin', 'cos'):
                return self.gen(self.symbol(f, self.ev(a[0])))
            if f in ('abs', 'floor', 'sign', 'min2', 'max2', 'pow', 'tan', 'tanh'):
                raise NotElementary(f)
        if t.k in ('app', 'var'):
            if t not in self.atoms:
                self.atoms[t] = self.new()
            return self.gen(self.atoms[t])
        raise NotElementary(t.k)

    def root(self, b, e):
        q = e.denominator
        c, fs = self.split(b)
        out = self.const(1)
        rest = []
        if c > 0 or not fs:
            if c <= 0:
                raise NotElementary('root of a constant that is not positive')
            out = self.mulf(out, self.rootgen(self.const(c), e)) if c != 1 else out
        else:
            raise NotElementary('root of a negative multiple')
        if len(fs) > 1 or (fs and fs[0][1] != 1):
            if not all(self.positive(x) for x, _ in fs):
                # keep the product as one base
                return self.mulf(out, self.rootgen(self.ev(mul(*[power(x, num(k)) for x, k in fs])), e))
        for x, k in fs:
            out = self.mulf(out, self.rootgen(self.ev(x), e * k))
        return out

    def rootgen(self, base, e):
        q = e.denominator
        if q == 1:
            return self.powf(base, int(e))
        g = self.symbol('root', base, q)
        return self.powf(self.gen(g), int(e * q))

    def log(self, b):
        c, fs = self.split(b)
        if c > 0 and fs and all(self.positive(x) for x, _ in fs):
            out = self.const(0) if c == 1 else self.gen(self.symbol('log', self.const(c)))
            for x, k in fs:
                if x.k == 'app' and x.a[0] == 'exp':
                    v = self.ev(x.a[1][0])
                else:
                    v = self.gen(self.symbol('log', self.ev(x)))
                out = self.addf(out, self.mulf(self.const(k), v))
            return out
        return self.gen(self.symbol('log', self.ev(b)))


def diff(t, x, memo=None):
    """partial derivative of an elementary term with respect to the atom x"""
    memo = {} if memo is None else memo
    r = memo.get(t)
    if r is None:
        r = memo[t] = _diff(t, x, memo)
    return r


def _diff(t, x, memo):
    if t is x:
        return RONE
    if t.k in ('num', 'var'):
        return RZERO
    if t.k == 'add':
        return add(RZERO, *[mul(num(k, 'R'), diff(y, x, memo)) for y, k in t.a[1]])
    if t.k == 'mul':
        out = []
        for i, (y, e) in enumerate(t.a[0]):
            d = diff(y, x, memo)
            if isnum(d) and val(d) == 0:
                continue
            rest = [power(z, num(k)) for j, (z, k) in enumerate(t.a[0]) if j != i]
            out.append(mul(num(e, 'R'), power(y, num(e - 1)), d, *rest))
        return add(RZERO, *out) if out else RZERO
    if t.k == 'app':
        f, a = t.a
        if f in ('sqrt', 'exp', 'log', 'sin', 'cos', 'pow'):
            d = diff(a[0], x, memo)
            if f == 'pow':
                if not isnum(a[1]):
                    raise NotElementary('variable exponent')
                return mul(a[1], power(a[0], sub(a[1], ONE)), d) if not (isnum(d) and val(d) == 0) else RZERO
            if isnum(d) and val(d) == 0:
                return RZERO
            if f == 'sqrt':
                return mul(num(Fr(1, 2)), inv(t), d)
            if f == 'exp':
                return mul(t, d)
            if f == 'log':
                return mul(inv(a[0]), d)
            if f == 'sin':
                return mul(fn('cos', a[0]), d)
            return mul(num(-1), fn('sin', a[0]), d)
        if contains(t, lambda s: s is x):
            raise NotElementary('%s depends on the variable' % f)
        return RZERO
    if contains(t, lambda s: s is x):
        raise NotElementary(t.k)
    return RZERO


class Box(object):
    """interval bounds (mpmath, outward rounded) for terms over atoms with given ranges"""
    def __init__(self, ranges):
        import mpmath
        self.iv = mpmath.iv
        self.iv.prec = 80
        self.inf = self.iv.mpf(['-inf', 'inf'])
        self.ranges = ranges
        self.memo = {}

    def c(self, v):
        return self.iv.mpf(v.numerator) / v.denominator

    def ev(self, t):
        r = self.memo.get(t)
        if r is None:
            try:
                r = self._ev(t)
            except (ValueError, ZeroDivisionError, NotImplementedError, OverflowError):
                r = self.inf
            self.memo[t] = r
        return r

    def _ev(self, t):
        iv = self.iv
        if t.k == 'num':
            return self.c(val(t))
        if t.k == 'add':
            r = self.c(t.a[0])
            for x, k in t.a[1]:
                r += self.c(k) * self.ev(x)
            return r
        if t.k == 'mul':
            r = iv.mpf(1)
            for x, e in t.a[0]:
                v = self.ev(x) if e % 2 or True else None
                p = v ** abs(e)
                if e % 2 == 0 and p.a < 0:
                    p = iv.mpf([0, p.b])
                if e < 0:
                    if p.a > 0 or p.b < 0:
                        p = 1 / p
                    elif p.a >= 0:
                        p = iv.mpf([0, 'inf']) if p.b == self.inf.b else iv.mpf([(1 / p.b).a if p.b > 0 else 0, 'inf'])
                    else:
                        p = self.inf
                r *= p
            return r
        if t.k == 'var' and t.a[0] == 'PI':
            return iv.pi
        if t.k == 'app':
            f, a = t.a
            if f == 'pi':
                return iv.pi
            if f in ('exp', 'sin', 'cos'):
                return getattr(iv, f)(self.ev(a[0]))
            if f in ('sqrt', 'log'):
                v = self.ev(a[0])
                if f == 'sqrt' and v.b >= 0:
                    v = iv.mpf([max(v.a, 0), v.b])
                    return iv.sqrt(v)
                if v.a > 0:
                    return getattr(iv, f)(v)
                return self.inf
            if f == 'pow' and isnum(a[1]):
                v = self.ev(a[0])
                if v.a > 0:
                    return iv.exp(self.c(val(a[1])) * iv.log(v))
                return self.inf
        r = self.ranges(t)
        if r is not None:
            return iv.mpf([self.c(r[0]).a, self.c(r[1]).b])
        return self.inf

    def positive(self, t):
        return bool(self.ev(t).a > 0)

    def nonzero(self, t):
        v = self.ev(t)
        return bool(v.a > 0 or v.b < 0)
