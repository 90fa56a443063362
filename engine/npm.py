"""Model of the part of numpy, the builtins and scipy that the code in /repo uses.

Element-wise operations, indexing, reshaping, products and reductions are modelled exactly over the reals (machine
arithmetic is treated as mathematical).  Library routines that are not computed here (eigh, solve, argsort, ...)
are functions with axioms (engine/axioms.py): these are the assumed contracts on dependencies.
"""
import os
import numpy
from .terms import *      # noqa: F401,F403
from .values import *     # noqa: F401,F403
from . import terms as TT
from .prover import polydiv

INT_T = ('int',)


# -- helpers ---------------------------------------------------------------------------------------------------
def dtype_of(v):
    if isinstance(v, Arr):
        return v.dtype
    t = term(v)
    return {'B': 'b', 'I': 'i', 'R': 'f'}[t.s]


ORDER = 'bif'


def prom(*ds):
    return max(ds, key=ORDER.index)


def size_of(shape):
    n = ONE
    for d in shape:
        n = mul(n, d)
    return n


def toarr(ip, v):
    """np.array(v) of a python value, without copying arrays"""
    v = ip.resolve(v)
    if isinstance(v, Arr):
        return v
    if isinstance(v, MArr):
        return materialise(ip, v)
    if is_scalar(v):
        t = term(v)
        return ip.mk((), dtype_of(v), lambda i: t)
    if isinstance(v, (tuple, PyList)) or isinstance(v, Opaque) and v.tag in ('range', 'zip'):
        items = ip.concrete_items(v)
        segs = segments(ip, v) if items is None else None
        if segs is not None and len(segs) > 1:
            return np_concat(ip, tuple(toarr(ip, ip.newlist([x])) for x in segs), 0)
        if items is None:
            n, f = ip.sym_items(v)
            k = fresh('q', 'I')
            pc = ip.st.pc
            ip.st.pc = pc + (le(ZERO, k), lt(k, n))
            x = ip.resolve(f(k))
            ip.st.pc = pc
            if is_scalar(x):
                t = term(x)
                return ip.mk((n,), dtype_of(x), lambda i: subst(t, {k: i[0]}))
            if isinstance(x, (tuple, PyList)):
                x = toarr(ip, x)
            if isinstance(x, Arr):
                fz = ip.frozen(x)
                if any(k in fv(s) for s in fz.shape):
                    raise Unsupported('array of rows of different shapes')
                return ip.mk((n,) + fz.shape, fz.dtype, lambda i: subst(subst(fz.body, {k: var('@k', 'I')}),
                             dict([(var('@k', 'I'), i[0])] + list(zip(IDX, i[1:])))))
            raise Unsupported('array of %r' % (x,))
        items = [ip.resolve(x) for x in items]
        if not items:
            return ip.mk((0,), 'f', lambda i: RZERO)
        if all(is_scalar(x) for x in items):
            dt = prom(*[dtype_of(x) for x in items])
            ts = [term(x) for x in items]
            return ip.mk((len(ts),), dt, lambda i: pick(i[0], ts))
        arrs = [toarr(ip, x) for x in items]
        sh = arrs[0].shape
        for a in arrs[1:]:
            if len(a.shape) != len(sh):
                raise PyExc('ValueError')
            for x, y in zip(a.shape, sh):
                if not ip.decide(eq(x, y)):
                    raise PyExc('ValueError')
        fz = [ip.frozen(a) for a in arrs]
        dt = prom(*[a.dtype for a in arrs])
        return ip.mk((len(arrs),) + sh, dt, lambda i: pick(i[0], [subst(f.body, dict(zip(IDX, i[1:]))) for f in fz]))
    raise Unsupported('array from %r' % (v,))


def segments(ip, v):
    """items of a list that mixes single elements and sequences of symbolic length"""
    v = ip.resolve(v)
    if isinstance(v, PyList):
        l = ip.st.lists[v.lid]
        return list(l) if any(isinstance(x, SymSeq) for x in l) else None
    return None


def any_item(ip, seq):
    """the items of a sequence of symbolic length: the item at an arbitrary index in range"""
    n, f = ip.sym_items(seq)
    k = fresh('q', 'I')
    pc = ip.st.pc
    scope = pc + (le(ZERO, k), lt(k, n))
    ip.st.pc = scope
    x = ip.freezev(f(k))
    if len(ip.st.pc) != len(scope):
        raise Unsupported('a sequence whose items depend on a decision')
    ip.st.pc = pc
    return SymSeq(n, k, x)


def blocks(ip, seq, what, axis, lift):
    """arrays to concatenate along axis; a sequence of symbolic length becomes one block of n equal parts"""
    segs = segments(ip, seq)
    if segs is None:
        if ip.concrete_items(seq) is not None:
            return [lift(toarr(ip, x)) for x in ip.concrete_items(seq)]
        segs = [any_item(ip, seq)]
    out = []
    for x in segs:
        if not isinstance(x, SymSeq):
            out.append(lift(toarr(ip, x)))
            continue
        if x.n is None:
            raise Unsupported('%s of a growing sequence' % what)
        if len(segs) == 1 and not ip.decide(lt(ZERO, x.n)):
            raise PyExc('ValueError', ('need at least one array',))
        k = fresh('q', 'I')
        one = lift(toarr(ip, ip.inst(x, k)))
        nd = len(one.shape)
        ax = axis(nd)
        if any(k in fv(d) for d in one.shape):
            raise Unsupported('%s of parts of different shapes' % what)
        fz, r = ip.frozen(one), one.shape[ax]
        sh = list(one.shape)
        sh[ax] = mul(x.n, r)

        def f(i, fz=fz, ax=ax, k=k, r=r):
            j = list(i)
            q = i[ax]
            if is1(ip, r):
                j[ax] = ZERO
            else:
                q = ip.ctx().isimp(fdiv(i[ax], r))
                j[ax] = ip.ctx().isimp(sub(i[ax], mul(q, r)))
            return subst(subst(fz.body, {k: var('@k', 'I')}), dict([(var('@k', 'I'), q)] + list(zip(IDX, j))))
        out.append(ip.mk(sh, fz.dtype, f))
    return out


def pick(i, ts):
    i = term(i)
    if isnum(i):
        return ts[int(val(i))]
    acc = ts[-1]
    for k in range(len(ts) - 2, -1, -1):
        acc = ite(eq(i, num(k)), ts[k], acc)
    return acc


def selection(ip, dims, mask):
    """a mask over one dimension: its canonical form, the number of selected indices, the k-th selected index"""
    v = fresh('l', 'I')
    ml = ip.ctx().canon(lam([v], [dims[0]], subst(mask, {IDX[0]: v})))
    cnt = app('count', (ml,), 'I')
    m = subst(mask, {IDX[0]: v})
    ip.assume(ip.ctx().canon_bool(eq(cnt, tsum(v, ZERO, dims[0], ite(m if m.s == 'B' else eq(m, ONE), ONE, ZERO)))))
    return ml, cnt, lambda k: app('sel', (ml, k), 'I')


def materialise(ip, mm):
    """boolean selection as an array: element k is the k-th selected one"""
    if len(mm.dims) != 1:
        raise Unsupported('selection over several dimensions')
    ml, cnt, sel = selection(ip, mm.dims, mm.mask)
    rest = len(mm.rest)

    def f(i):
        s = {IDX[0]: sel(i[0])}
        for k in range(rest):
            s[IDX[1 + k]] = i[1 + k]
        return subst(mm.body, s)
    return ip.mk([cnt] + mm.rest, mm.dtype, f)


def is1(ip, d):
    return isnum(d) and val(d) == 1


def known1(ip, d):
    return is1(ip, d) or (not isnum(d) and ip.ent(eq(d, ONE)))


def bshape(ip, *shapes):
    """broadcast shape"""
    n = max(len(s) for s in shapes)
    out = []
    for k in range(n):
        cur = None
        for s in shapes:
            j = k - (n - len(s))
            if j < 0:
                continue
            d = s[j]
            if cur is None or is1(ip, cur):
                cur = d
            elif is1(ip, d) or d is cur:
                pass
            elif ip.ent(eq(d, cur)):
                pass
            elif known1(ip, d):
                pass
            elif known1(ip, cur):
                cur = d
            elif ip.decide(eq(d, cur)):
                pass
            elif ip.decide(eq(d, ONE)):
                pass
            elif ip.decide(eq(cur, ONE)):
                cur = d
            else:
                raise PyExc('ValueError', ('broadcast',))
        out.append(cur)
    return tuple(out)


def bat(ip, a, shape, idx):
    """element of a broadcast to shape"""
    if not isinstance(a, (Arr, Frozen)):
        return term(a)
    off = len(shape) - len(a.shape)
    j = []
    for k, d in enumerate(a.shape):
        D = shape[off + k]
        if is1(ip, d) and not is1(ip, D):
            j.append(ZERO)
        elif d is not D and not ip.ent(eq(d, D)) and known1(ip, d):
            j.append(ZERO)
        else:
            j.append(idx[off + k])
    return ip.at(a, j)


def emap(ip, f, args, dtype):
    """element-wise map with broadcasting; scalars in give a scalar out"""
    args = [ip.resolve(a) for a in args]
    args = [toarr(ip, a) if isinstance(a, (tuple, PyList)) else a for a in args]
    arrs = [a for a in args if isinstance(a, Arr)]
    if not arrs:
        return norm(ip.cast(term(f(*[term(a) for a in args])), dtype) if dtype != 'b' else term(f(*[term(a) for a in args])))
    shape = bshape(ip, *[a.shape for a in arrs])
    fz = [Frozen(a.shape, a.dtype, ip.frozen(a).body) if isinstance(a, Arr) else a for a in args]
    r = ip.mk(shape, dtype, lambda i: f(*[bat(ip, a, shape, i) for a in fz]))
    if not shape:
        return norm(ip.at(r, []))
    return r


def emap_m(ip, f, args, dtype):
    """element-wise map over selections with the same mask"""
    ms = [a for a in args if isinstance(a, MArr)]
    m0 = ms[0]
    for m in ms[1:]:
        if m.mask is not m0.mask and ip.ctx().canon(m.mask) is not ip.ctx().canon(m0.mask):
            raise Unsupported('operation on two different selections')
    rest = max((m.rest for m in ms), key=len)
    vals = []
    for a in args:
        if isinstance(a, MArr):
            vals.append(a.body)
        elif isinstance(a, Arr):
            if a.shape and len(a.shape) <= len(rest):
                n0 = len(m0.dims)
                vals.append(bat(ip, a, tuple(rest), [IDX[n0 + k] for k in range(len(rest))]))
            elif known_size1(ip, a.shape):
                vals.append(ip.at(a, [ZERO] * len(a.shape)))
            else:
                raise Unsupported('selection against an array')
        else:
            vals.append(term(a))
    return MArr(m0.dims, m0.mask, rest, dtype, ip.cast(term(f(*vals)), dtype))


def known_size1(ip, shape):
    return all(known1(ip, d) for d in shape)


def fail_if(ip, cond, exc='ValueError'):
    if ip.decide(cond):
        raise PyExc(exc)


def need(ip, cond):
    """a definedness condition of the computation (nonzero divisor, nonnegative radicand)"""
    cond = term(cond)
    if cond is TRUE:
        return
    vs = [v for v in fv(cond) if v in IDX]
    ip.st.den += (cond,) if not vs else ()


def py2div(ip, l, r, inplace=False):
    l, r = ip.resolve(l), ip.resolve(r)
    return binary(ip, 'Py2Div', l, r)


def div_t(a, b, integer):
    if integer:
        return fdiv(a, b)
    return div(real(a), real(b))


def infinite(ip, x):
    """an entry of x may be inf or nan, as written (not as the result of a computation)"""
    t = ip.frozen(x).body if isinstance(x, Arr) else term(x)
    while True:
        if t.k == 'ite':
            if infinite_t(t.a[1]):
                return True
            t = t.a[2]
            continue
        return infinite_t(t)


def infinite_t(t):
    if t.k == 'ite':
        return infinite_t(t.a[1]) or infinite_t(t.a[2])
    return t.k == 'var' and str(t.a[0]).startswith('NONFINITE')


def binary(ip, op, a, b):
    if isinstance(a, MArr) or isinstance(b, MArr):
        dt = prom(*[x.dtype if isinstance(x, MArr) else dtype_of(x) for x in (a, b)])
        g, dt2 = scalar_op(ip, op, dt, dt)
        return emap_m(ip, g, [a, b], dt2)
    if isinstance(a, (tuple, PyList)) and isinstance(b, Arr):
        a = toarr(ip, a)
    if isinstance(b, (tuple, PyList)) and isinstance(a, Arr):
        b = toarr(ip, b)
    for x in (a, b):
        if not (isinstance(x, Arr) or is_scalar(x)):
            if isinstance(x, (Obj, ClassVal, Closure, Opaque, Rec, SymFun, tuple)) or x is None:
                raise PyExc('TypeError', ('operand',))
            raise Unsupported('arithmetic on %r' % (x,))
    if op == 'MatMult':
        return dot(ip, a, b)
    if isinstance(a, (int,)) and isinstance(b, (int,)) and not isinstance(a, T):
        a2, b2 = int(a), int(b)
        if op in ('Add', 'Sub', 'Mult'):
            return {'Add': a2 + b2, 'Sub': a2 - b2, 'Mult': a2 * b2}[op]
        if op in ('FloorDiv', 'Py2Div'):
            if b2 == 0:
                raise PyExc('ZeroDivisionError')
            return a2 // b2
        if op == 'Mod':
            if b2 == 0:
                raise PyExc('ZeroDivisionError')
            return a2 % b2
        if op == 'Pow' and b2 >= 0:
            return a2 ** b2
    if op in ('Mult', 'Div', 'Py2Div', 'Sub', 'FloorDiv', 'Mod') and (infinite(ip, a) or infinite(ip, b)):
        raise Unsupported('arithmetic on inf or nan')
    g, dt = scalar_op(ip, op, dtype_of(a), dtype_of(b), a, b)
    return emap(ip, g, [a, b], dt)


def scalar_op(ip, op, da, db, a=None, b=None):
    d = prom(da, db)
    if op == 'Add':
        return (lambda x, y: or_(x, y) if d == 'b' else add(x, y)), d
    if op == 'Sub':
        return (lambda x, y: sub(x, y)), d if d != 'b' else 'i'
    if op == 'Mult':
        return (lambda x, y: and_(x, y) if d == 'b' else mul(x, y)), d
    if op == 'Div' or op == 'Py2Div' and d == 'f':
        def dv(x, y):
            need(ip, not_(eq(y, num(0, y.s))) if y.s != 'B' else y)
            return div_t(x, y, False)
        return dv, 'f'
    if op in ('FloorDiv', 'Py2Div'):
        if d == 'f':
            return (lambda x, y: real(fn('floor', div(real(x), real(y))))), 'f'

        def fd(x, y):
            need(ip, not_(eq(y, ZERO)))
            return fdiv(x, y)
        return fd, 'i'
    if op == 'Mod':
        if d == 'f':
            return (lambda x, y: sub(x, mul(y, fn('floor', div(real(x), real(y)))))), 'f'
        return (lambda x, y: mod(x, y)), 'i'
    if op == 'Pow':
        def pw(x, y):
            if isnum(y):
                if y.s == 'R' and val(y).denominator == 1 and d == 'f':
                    return power(real(x), num(val(y), 'I'))
                if y.s == 'I' and val(y) < 0 and x.s == 'I':
                    return power(real(x), y)
            if y.s == 'I' and not isnum(y):
                return app('pow', (x, y), 'R' if d == 'f' else 'I')
            return power(x, y)
        return pw, d if d != 'b' else 'i'
    if op in ('BitAnd', 'BitOr', 'BitXor') and d == 'b':
        return {'BitAnd': lambda x, y: and_(x, y), 'BitOr': lambda x, y: or_(x, y),
                'BitXor': lambda x, y: not_(eq(x, y))}[op], 'b'
    raise Unsupported('operator %s' % op)


def compare(ip, op, a, b):
    g = {'Eq': eq, 'NotEq': lambda x, y: not_(eq(x, y)), 'Lt': lt, 'LtE': le, 'Gt': lambda x, y: lt(y, x),
         'GtE': lambda x, y: le(y, x)}[op]

    def h(x, y):
        if x.s == 'B' and y.s != 'B':
            x = ite(x, ONE, ZERO)
        if y.s == 'B' and x.s != 'B':
            y = ite(y, ONE, ZERO)
        if x.s == 'B' and op not in ('Eq', 'NotEq'):
            x, y = ite(x, ONE, ZERO), ite(y, ONE, ZERO)
        return g(x, y)
    if isinstance(a, MArr) or isinstance(b, MArr):
        return emap_m(ip, h, [a, b], 'b')
    return emap(ip, h, [a, b], 'b')


def unary(ip, op, v):
    if isinstance(v, MArr):
        return emap_m(ip, {'USub': neg}[op], [v], v.dtype)
    if op == 'USub':
        if isinstance(v, (int,)) and not isinstance(v, T):
            return -int(v)
        return emap(ip, neg, [v], prom(dtype_of(v), 'i'))
    if op == 'UAdd':
        return emap(ip, lambda x: x, [v], dtype_of(v))
    if op == 'Invert':
        if dtype_of(v) == 'b':
            return emap(ip, not_, [v], 'b')
        return emap(ip, lambda x: sub(num(-1), x), [v], 'i')
    raise Unsupported('unary %s' % op)


# -- indexing --------------------------------------------------------------------------------------------------
def wrap_index(ip, k, d):
    """index scalar k in a dimension d: nonnegative term, with IndexError when out of range"""
    k = ip.ctx().isimp(term(k))
    if k.s != 'I':
        raise PyExc('IndexError', ('index type',))
    if isnum(k):
        kk = int(val(k))
        if isnum(d):
            n = int(val(d))
            if kk < -n or kk >= n:
                raise PyExc('IndexError')
            return num(kk % n if kk < 0 else kk)
        if kk < 0:
            if not ip.decide(le(num(-kk), d)):
                raise PyExc('IndexError')
            return ip.ctx().isimp(add(d, k))
        if not ip.decide(lt(k, d)):
            raise PyExc('IndexError')
        return k
    if ip.ent(le(ZERO, k)):
        pass
    elif ip.ent(lt(k, ZERO)):
        k = ip.ctx().isimp(add(k, d))
        if not ip.decide(le(ZERO, k)):
            raise PyExc('IndexError')
        return k
    else:
        if ip.decide(lt(k, ZERO)):
            k = ip.ctx().isimp(add(k, d))
            if not ip.decide(le(ZERO, k)):
                raise PyExc('IndexError')
            return k
    if not ip.decide(lt(k, d)):
        raise PyExc('IndexError')
    return k


def slice_bounds(ip, s, d):
    """(start, length, step) of a slice over a dimension d"""
    st = 1 if s.step is None else norm(s.step)
    if not isinstance(st, int):
        raise Unsupported('symbolic slice step')

    def clampv(x, default, lo, hi):
        if x is None:
            return default
        x = ip.ctx().isimp(term(x))
        if x.s != 'I':
            raise PyExc('TypeError')
        if isnum(x) and isnum(d):
            v, n = int(val(x)), int(val(d))
            if v < 0:
                v += n
            v = max(v, int(val(lo)))
            return num(min(v, int(val(hi))))
        if (isnum(x) and val(x) < 0) or (not isnum(x) and ip.ent(lt(x, ZERO))):
            x = add(x, d)
        elif not isnum(x) and not ip.ent(le(ZERO, x)):
            if ip.decide(lt(x, ZERO)):
                x = add(x, d)
        x = ip.ctx().isimp(x)
        if not ip.ent(le(lo, x)):
            if not ip.decide(le(lo, x)):
                return lo
        if not ip.ent(le(x, hi)):
            if not ip.decide(le(x, hi)):
                return hi
        return x
    if st > 0:
        lo = clampv(s.lo, ZERO, ZERO, d)
        hi = clampv(s.hi, d, ZERO, d)
        n = sub(hi, lo)
        if st > 1:
            n = fdiv(add(n, num(st - 1)), num(st))
        n = ip.ctx().isimp(n)
        if not ip.ent(le(ZERO, n)):
            n = ZERO if not ip.decide(le(ZERO, n)) else n
        return lo, n, st
    if st == -1:
        if s.lo is None:
            lo = sub(d, ONE)
        else:
            lo = clampv(s.lo, None, num(-1), sub(d, ONE))
        if s.hi is None:
            hi = num(-1)
        else:
            hi = clampv(s.hi, None, num(-1), sub(d, ONE))
        n = ip.ctx().isimp(sub(lo, hi))
        if not ip.ent(le(ZERO, n)):
            n = ZERO if not ip.decide(le(ZERO, n)) else n
        return lo, n, st
    raise Unsupported('slice step %d' % st)


def expand_key(ip, a, key):
    if not isinstance(key, tuple):
        key = (key,)
    key = [ip.resolve(k) if not isinstance(k, Slice) else k for k in key]
    key = [toarr(ip, k) if isinstance(k, (PyList,)) else k for k in key]
    key = [norm(ip.at(k, [])) if isinstance(k, Arr) and not k.shape and k.dtype != 'b' else k for k in key]
    used = 0
    for k in key:
        if k is None or k is Ellipsis:
            continue
        used += len(k.shape) if isinstance(k, Arr) and k.dtype == 'b' else 1
    nd = len(a.shape)
    if used > nd:
        raise PyExc('IndexError', ('too many indices',))
    out = []
    seen = False
    for k in key:
        if k is Ellipsis:
            out += [Slice(None, None, None)] * (nd - used)
            seen = True
        else:
            out.append(k)
    if not seen:
        out += [Slice(None, None, None)] * (nd - used)
    return out


def basic_view(ip, a, key):
    """view for scalars, slices and newaxis: (shape, f: view idx -> source idx, g: source idx -> (cond, view idx), contig)"""
    shape, plan = [], []
    ax = 0
    contig = True
    seen_partial = False
    for k in key:
        if k is None:
            shape.append(ONE)
            plan.append(('new',))
            continue
        d = a.shape[ax]
        if isinstance(k, Slice):
            if k.lo is None and k.hi is None and (k.step is None or norm(k.step) == 1):
                shape.append(d)
                plan.append(('all', ax))
                seen_partial = True if not is1(ip, d) else seen_partial
            else:
                lo, n, st = slice_bounds(ip, k, d)
                full = (lo is ZERO and n is d and st == 1)
                if seen_partial and not full:
                    contig = False
                if st != 1:
                    contig = False
                shape.append(n)
                plan.append(('sl', ax, lo, n, st))
                seen_partial = True
        else:
            if isinstance(k, (Closure, Obj, ClassVal, str)) or not is_scalar(k):
                raise PyExc('IndexError', ('index',))
            if isinstance(k, bool) or isinstance(k, T) and k.s == 'B':
                raise Unsupported('boolean scalar index')
            if isinstance(k, float):
                raise PyExc('IndexError')
            i = wrap_index(ip, k, d)
            if seen_partial:
                contig = False
            plan.append(('ix', ax, i))
        ax += 1
    nd = len(a.shape)

    def f(v):
        out = [None] * nd
        j = 0
        for p in plan:
            if p[0] == 'new':
                j += 1
            elif p[0] == 'all':
                out[p[1]] = v[j]
                j += 1
            elif p[0] == 'sl':
                out[p[1]] = add(p[2], mul(num(p[4]), v[j]))
                j += 1
            else:
                out[p[1]] = p[2]
        return out

    def g(s):
        cond, v = TRUE, []
        for p in plan:
            if p[0] == 'new':
                v.append(ZERO)
            elif p[0] == 'all':
                v.append(s[p[1]])
            elif p[0] == 'sl':
                _, x, lo, n, st = p
                if st == 1:
                    cond = and_(cond, le(lo, s[x]) if lo is not ZERO else TRUE, lt(s[x], add(lo, n)) if not (n is a.shape[x] and lo is ZERO) else TRUE)
                    v.append(sub(s[x], lo))
                elif st == -1:
                    cond = and_(cond, le(s[x], lo), lt(sub(lo, n), s[x]))
                    v.append(sub(lo, s[x]))
                else:
                    cond = and_(cond, le(lo, s[x]), lt(s[x], add(lo, mul(num(st), n))), eq(mod(sub(s[x], lo), num(st)), ZERO))
                    v.append(fdiv(sub(s[x], lo), num(st)))
            else:
                cond = and_(cond, eq(s[p[1]], p[2]))
        return cond, v
    return tuple(shape), f, g, contig


def compose(ip, a, shape, f, g, contig):
    rd0, wr0 = a.rd, a.wr
    if rd0 is None:
        rd = f
        wr = g
    else:
        rd = lambda v: rd0(f(v))
        if wr0 is None:
            wr = None
        else:
            def wr(s):
                c0, u = wr0(s)
                c1, v = g(u)
                return and_(c0, c1), v
    if wr is None:
        return Arr(a.cell, shape, a.dtype, rd, None, contig and a.contig)
    return Arr(a.cell, shape, a.dtype, rd, wr, contig and a.contig)


def getitem(ip, a, key):
    if isinstance(a, MArr):
        k = key[0] if isinstance(key, tuple) and len(key) == 1 else key
        if isinstance(k, Slice) or len(a.dims) == 1:
            return getitem(ip, materialise(ip, a), key)
        raise Unsupported('index into a selection')
    key = expand_key(ip, a, key)
    if any(isinstance(k, Arr) and k.dtype == 'b' for k in key):
        return mask_get(ip, a, key)
    if any(isinstance(k, Arr) for k in key):
        return fancy_get(ip, a, key)
    if any(isinstance(k, (MArr,)) for k in key):
        key = [materialise(ip, k) if isinstance(k, MArr) else k for k in key]
        return fancy_get(ip, a, key)
    shape, f, g, contig = basic_view(ip, a, key)
    v = compose(ip, a, shape, f, g, contig)
    if not shape:
        return norm(ip.at(v, []))
    return v


def mask_get(ip, a, key):
    pos = [i for i, k in enumerate(key) if isinstance(k, Arr)]
    if len(pos) != 1 or any(not isinstance(k, Slice) for i, k in enumerate(key) if i not in pos):
        raise Unsupported('mask mixed with other indices')
    p = pos[0]
    m = key[p]
    nm = len(m.shape)
    for d, e in zip(m.shape, a.shape[p:p + nm]):
        if not ip.decide(eq(d, e)):
            raise PyExc('IndexError', ('mask shape',))
    # slices of the other axes
    if any(not (k.lo is None and k.hi is None and k.step is None) for i, k in enumerate(key) if i != p):
        sub_key = [k if i != p else None for i, k in enumerate(key)]
        full = []
        for i, k in enumerate(key):
            full += [Slice(None, None, None)] * nm if i == p else [k]
        a = getitem(ip, a, tuple(full))
    rest = [d for i, d in enumerate(a.shape) if not p <= i < p + nm]

    def idx():
        out = []
        j = nm
        for i in range(len(a.shape)):
            if p <= i < p + nm:
                out.append(IDX[i - p])
            else:
                out.append(IDX[j])
                j += 1
        return out
    # rename through temporaries: at() substitutes simultaneously
    body = ip.at(a, idx())
    mask = ip.at(m, IDX[:nm])
    r = MArr(list(a.shape[p:p + nm]), mask, rest, a.dtype, body)
    if p > 0:
        if p == 1 and len(rest) == 1 and nm == 1:
            x = materialise(ip, r)
            return transpose(ip, x)
        raise Unsupported('mask on an inner axis')
    return r


def check_range(ip, t, vs, dims, d):
    """every value of the index array is in range (negative ones are wrapped)"""
    pc = ip.st.pc
    new = tuple(f for v, n in zip(vs, dims) for f in (le(ZERO, v), lt(v, n)))
    ip.st.pc = pc + new
    try:
        lo = ip.ent(le(ZERO, t))
        hi = ip.ent(lt(t, d))
    finally:
        ip.st.pc = pc
    if lo and hi:
        return t
    if isnum(t) and isnum(d):
        k, n = int(val(t)), int(val(d))
        if -n <= k < n:
            return num(k % n)
        raise PyExc('IndexError')
    if hi and not lo:
        t2 = ite(lt(t, ZERO), add(t, d), t)
    else:
        t2 = t
    c = and_(le(ZERO, t2), lt(t2, d))
    for v, n in zip(vs, dims):
        c = tall(v, ZERO, n, c)
    if ip.decide(c):
        return t2
    raise PyExc('IndexError')


def fancy_plan(ip, a, key):
    adv = [i for i, k in enumerate(key) if isinstance(k, Arr) or (k is not None and not isinstance(k, Slice))]
    arrs = [key[i] for i in adv if isinstance(key[i], Arr)]
    if any(k is None for k in key):
        raise Unsupported('newaxis with index arrays')
    if any(k.dtype != 'i' for k in arrs):
        raise PyExc('IndexError', ('arrays used as indices must be of integer type',))
    bs = bshape(ip, *[k.shape for k in arrs])
    adjacent = adv == list(range(adv[0], adv[-1] + 1))
    first = adv[0] if adjacent else 0
    # source dims of slices
    sl = {}
    for i, k in enumerate(key):
        if isinstance(k, Slice):
            sl[i] = slice_bounds(ip, k, a.shape[i]) if not (k.lo is None and k.hi is None and k.step is None) else (ZERO, a.shape[i], 1)
    sl_axes = [i for i in range(len(key)) if i in sl]
    before = [i for i in sl_axes if i < first]
    after = [i for i in sl_axes if i >= first]
    shape = [sl[i][1] for i in before] + list(bs) + [sl[i][1] for i in after]
    vs = [fresh('l', 'I') for _ in bs]
    exprs = {}
    for i in adv:
        k = key[i]
        if isinstance(k, Arr):
            t = bat(ip, k, bs, vs)
            exprs[i] = check_range(ip, t, vs, bs, a.shape[i])
        else:
            exprs[i] = wrap_index(ip, k, a.shape[i])
    nb = len(before)

    def src(v):
        out = [None] * len(key)
        for j, i in enumerate(before):
            lo, n, st = sl[i]
            out[i] = add(lo, mul(num(st), v[j]))
        m = dict(zip(vs, v[nb:nb + len(bs)]))
        for i in adv:
            out[i] = subst(exprs[i], m)
        for j, i in enumerate(after):
            lo, n, st = sl[i]
            out[i] = add(lo, mul(num(st), v[nb + len(bs) + j]))
        return out
    return tuple(shape), src, bs, nb


def fancy_get(ip, a, key):
    shape, src, bs, nb = fancy_plan(ip, a, key)
    fz = ip.frozen(a)
    r = ip.mk(shape, a.dtype, lambda i: subst(fz.body, dict(zip(IDX, [dim(x) for x in src(i)]))))
    if not shape:
        return norm(ip.at(r, []))
    return r


def val_at(ip, v, shape):
    """function idx -> element of the assigned value broadcast to shape (leading unit dimensions may be dropped)"""
    if isinstance(v, (tuple, PyList)):
        v = toarr(ip, v)
    if isinstance(v, MArr):
        v = materialise(ip, v)
    if is_scalar(v):
        t = term(v)
        return lambda idx: t
    if v is None:
        raise PyExc('TypeError')
    if not isinstance(v, Arr):
        raise Unsupported('assignment of %r' % (v,))
    vs = list(v.shape)
    extra = len(vs) - len(shape)
    lead = 0
    while extra > 0:
        if not ip.decide(eq(vs[0], ONE)):
            raise PyExc('ValueError', ('assignment shape',))
        vs = vs[1:]
        extra -= 1
        lead += 1
    off = len(shape) - len(vs)
    plan = []
    for k, d in enumerate(vs):
        D = shape[off + k]
        if d is D or ip.ent(eq(d, D)):
            plan.append(off + k)
        elif ip.decide(eq(d, D)):
            plan.append(off + k)
        elif ip.decide(eq(d, ONE)):
            plan.append(None)
        else:
            raise PyExc('ValueError', ('assignment shape',))
    fz = ip.frozen(v)

    def f(idx):
        j = [ZERO] * lead + [ZERO if p is None else idx[p] for p in plan]
        return subst(fz.body, dict(zip(IDX, [dim(x) for x in j])))
    return f


def assign_index(ip, a, key, v):
    key = expand_key(ip, a, key)
    if any(isinstance(k, Arr) and k.dtype == 'b' for k in key):
        pos = [i for i, k in enumerate(key) if isinstance(k, Arr)]
        if len(pos) != 1 or any(not isinstance(k, Slice) or k.lo is not None or k.hi is not None or k.step is not None
                                for i, k in enumerate(key) if i not in pos):
            raise Unsupported('masked assignment')
        p = pos[0]
        m = key[p]
        nm = len(m.shape)
        if p > 0 and nm > 1:
            raise Unsupported('masked assignment')
        for d, e in zip(m.shape, a.shape[p:]):
            if not ip.decide(eq(d, e)):
                raise PyExc('IndexError')
        fm = ip.frozen(m)
        old = ip.frozen(a)
        if p > 0 or isinstance(v, Arr) and nm == 1 and not known_size1(ip, v.shape):
            # the elements of the selection in order: element number rank(j) of the values goes to position j
            ml, cnt, sel = selection(ip, [a.shape[p]], fm.body)
            f = val_at(ip, v, tuple(a.shape[:p]) + (cnt,) + tuple(a.shape[p + 1:]))

            def new(i):
                j = dim(i[p])
                r = app('rank', (ml, j), 'I')
                t = replace_term(f(list(i[:p]) + [r] + list(i[p + 1:])), sel(r), j)
                return ite(subst(fm.body, {IDX[0]: j}), ip.cast(t, a.dtype), subst(old.body, dict(zip(IDX, i))))
            ip.write(a, new)
            return
        if isinstance(v, MArr):
            if ip.ctx().canon(v.mask) is not ip.ctx().canon(fm.body):
                raise Unsupported('masked assignment of another selection')
            new = lambda i: subst(v.body, dict(zip(IDX, i)))
        else:
            if isinstance(v, Arr) and not known_size1(ip, v.shape):
                raise Unsupported('masked assignment of an array')
            t = term(v) if is_scalar(v) else ip.at(v, [ZERO] * len(v.shape))
            new = lambda i: t
        ip.write(a, lambda i: ite(subst(fm.body, dict(zip(IDX, i[:nm]))), ip.cast(new(i), a.dtype), subst(old.body, dict(zip(IDX, i)))))
        return
    if any(isinstance(k, Arr) for k in key):
        shape, src, bs, nb = fancy_plan(ip, a, key)
        f = val_at(ip, v, shape)
        tot = size_of(bs)
        if not isnum(tot) or val(tot) > 32:
            # an index array that only has one element, possibly of symbolic size known to be one
            if ip.ent(eq(tot, ONE)):
                combos = [[ZERO] * len(bs)]
            else:
                return assign_perm(ip, a, key, shape, src, bs, nb, f)
        else:
            import itertools
            combos = [[num(x) for x in c] for c in itertools.product(*[range(int(val(d))) for d in bs])]
        for c in combos:
            # view index -> source index with the advanced part fixed
            vfix = lambda v_: list(v_[:nb]) + c + list(v_[nb:])
            nrest = len(shape) - len(bs)
            probe = src(vfix([ZERO] * nrest))
            k2 = []
            for i, k in enumerate(key):
                k2.append(k if isinstance(k, Slice) else norm(probe[i]))
            assign_index(ip, a, tuple(k2), _Val(lambda idx, c=c: f(list(idx[:nb]) + c + list(idx[nb:]))))
        return
    shape, f, g, contig = basic_view(ip, a, key)
    view = compose(ip, a, shape, f, g, contig)
    vf = v.f if isinstance(v, _Val) else val_at(ip, v, shape)
    if a.dtype == 'i' and isinstance(v, Arr) and v.dtype == 'f':
        pass
    if view.rd is None:
        view = Arr(a.cell, shape, a.dtype)
    ip.write(view, lambda idx: vf(idx))


class _Val(object):
    def __init__(self, f):
        self.f = f


def assign_affine(ip, a, shape, src, bs, nb, f):
    """a[.., v + c, .., v + d] = values for v in a range: every element is written at most once"""
    if len(bs) != 1:
        return False
    vs = [fresh('l', 'I') for _ in shape]
    v = vs[nb]
    others = vs[:nb] + vs[nb + 1:]
    inr = [g for w, n in zip(vs, shape) for g in (le(ZERO, w), lt(w, n))]
    S = [ip.ctx().child(inr).isimp(t, ()) for t in src(vs)]
    off = {}                                  # axis -> (view index it depends on, offset)
    for i, t in enumerate(S):
        used = [w for w in vs if w in fv(t)]
        if len(used) > 1:
            return False
        if not used:
            off[i] = (None, t)
            continue
        d = sub(t, used[0])
        if fv(d) & set(vs):
            return False
        off[i] = (used[0], d)
    if any(w not in [u for u, _ in off.values()] for w in vs):
        return False
    old = ip.frozen(a)

    def new(idx):
        val_of, conds = {}, []
        for i, (w, d) in off.items():
            x = sub(dim(idx[i]), d)
            if w is None:
                conds.append(eq(x, ZERO))
            elif w in val_of:
                conds.append(eq(x, val_of[w]))
            else:
                val_of[w] = x
                n = shape[vs.index(w)]
                conds += [le(ZERO, x), lt(x, n)]
        view = [val_of[w] for w in vs]
        return ite(and_(*conds), ip.cast(f(view), a.dtype), subst(old.body, dict(zip(IDX, idx))))
    ip.write(a, new)
    return True


def assign_perm(ip, a, key, shape, src, bs, nb, f):
    """a[ind] = v with an index array known to be a permutation (argsort) or running along a range"""
    if assign_affine(ip, a, shape, src, bs, nb, f):
        return
    pos = [i for i, k in enumerate(key) if isinstance(k, Arr)]
    if len(pos) != 1 or len(key[pos[0]].shape) != 1:
        raise Unsupported('assignment through an index array')
    k = key[pos[0]]
    v = fresh('l', 'I')
    t = ip.ctx().canon(ip.at(k, [v]))
    if t.k == 'app' and t.a[0] in ('argsort', 'perm') and t.a[1][-1] is v:
        inv_ = lambda i: app('inv_' + t.a[0], t.a[1][:-1] + (i,), 'I')
        p = pos[0]
        ip.write(a, lambda idx: f([inv_(x) if j == p else x for j, x in enumerate(idx)]))
        return
    raise Unsupported('assignment through an index array')


# -- reshaping -------------------------------------------------------------------------------------------------
def resolve_shape(ip, shape, total):
    shape = [ip.resolve(x) for x in shape]
    for x in shape:
        if not is_scalar(x) or term(x).s != 'I':
            raise PyExc('TypeError', ('shape',))
    shape = [dim(norm(x)) for x in shape]
    m1 = [i for i, x in enumerate(shape) if isnum(x) and val(x) == -1]
    if len(m1) > 1:
        raise PyExc('ValueError')
    if m1:
        p = size_of([x for i, x in enumerate(shape) if i != m1[0]])
        q = ip.ctx().isimp(fdiv(total, p))
        if not ip.decide(eq(mul(q, p), total)):
            raise PyExc('ValueError', ('reshape',))
        shape[m1[0]] = q
    return shape


def reshape(ip, a, shape):
    total = size_of(a.shape)
    shape = resolve_shape(ip, shape, total)
    if not ip.decide(eq(ip.ctx().isimp(total), ip.ctx().isimp(size_of(shape)))):
        raise PyExc('ValueError', ('reshape',))
    f, g = reshape_maps(ip, a.shape, shape)
    if not a.contig:
        # a copy
        nz = [d for d in a.shape if not known1(ip, d)]
        if len(nz) > 1:
            fz = ip.frozen(a)
            return ip.mk(shape, a.dtype, lambda i: subst(fz.body, dict(zip(IDX, [dim(x) for x in f(i)]))))
    return compose(ip, a, tuple(shape), f, lambda s: (TRUE, g(s)), True)


def reshape_o(ip, a, shape, kw, order=None):
    """reshape with the keyword arguments of numpy"""
    order = kw.get('order', order)
    refuse_keywords('reshape', {k: v for k, v in kw.items() if k != 'order'})
    if order in (None, 'C'):
        return reshape(ip, a, shape)
    if order != 'F':
        raise Unsupported('reshape order')
    shape = resolve_shape(ip, shape, size_of(a.shape))
    return transpose(ip, reshape(ip, transpose(ip, a), list(shape)[::-1]))


def reshape_maps(ip, old, new):
    """index maps new -> old and old -> new in C order"""
    c = ip.ctx()
    oi = [i for i, d in enumerate(old) if not known1(ip, d)]
    ni = [i for i, d in enumerate(new) if not known1(ip, d)]
    same = len(oi) == len(ni) and all(old[x] is new[y] or ip.ent(eq(old[x], new[y])) for x, y in zip(oi, ni))

    def strict(src, si, dst, di):
        def f(v):
            out = [ZERO] * len(dst)
            for x, y in zip(si, di):
                out[y] = v[x]
            return out
        return f
    if same:
        return strict(new, ni, old, oi), strict(old, oi, new, ni)

    def flat(dims, idx, v):
        k = ZERO
        for i in idx:
            k = add(mul(k, dims[i]), v[i])
        return k

    def conv(src, si, dst, di):
        def f(v):
            scope = ()
            for i in si:
                scope += (le(ZERO, v[i]), lt(v[i], src[i]))
            k = flat(src, si, v)
            out = [ZERO] * len(dst)
            rest = k
            for n, i in enumerate(di):
                tail = ONE
                for j in di[n + 1:]:
                    tail = mul(tail, dst[j])
                if tail is ONE:
                    q = rest if n == 0 else mod(rest, dst[i]) if False else rest
                    out[i] = c.isimp(q, scope)
                else:
                    out[i] = c.isimp(fdiv(rest, tail), scope)
                    rest = c.isimp(mod(rest, tail), scope)
            return out
        return f
    return conv(new, ni, old, oi), conv(old, oi, new, ni)


def transpose(ip, a, axes=None):
    n = len(a.shape)
    if axes is None:
        axes = list(range(n))[::-1]
    axes = [x if x >= 0 else x + n for x in axes]
    if sorted(axes) != list(range(n)):
        raise PyExc('ValueError')
    shape = tuple(a.shape[x] for x in axes)

    def f(v):
        out = [None] * n
        for j, x in enumerate(axes):
            out[x] = v[j]
        return out

    def g(s):
        return TRUE, [s[x] for x in axes]
    nz = [x for x in axes if not is1(ip, a.shape[x])]
    return compose(ip, a, shape, f, g, nz == sorted(nz))


def copy(ip, a):
    if isinstance(a, Arr):
        return ip.thaw(ip.frozen(a))
    return a


# -- products and reductions -----------------------------------------------------------------------------------
def dot(ip, a, b):
    a, b = ip.resolve(a), ip.resolve(b)
    if isinstance(a, (tuple, PyList, MArr)):
        a = toarr(ip, a)
    if isinstance(b, (tuple, PyList, MArr)):
        b = toarr(ip, b)
    if a is None or b is None or not (isinstance(a, Arr) or is_scalar(a)) or not (isinstance(b, Arr) or is_scalar(b)):
        raise PyExc('TypeError')
    if is_scalar(a) or is_scalar(b) or not a.shape or not b.shape:
        return binary(ip, 'Mult', a, b)
    k = a.shape[-1]
    kb = b.shape[-2] if len(b.shape) > 1 else b.shape[0]
    if not ip.decide(eq(k, kb)):
        raise PyExc('ValueError', ('shapes not aligned',))
    dt = prom(a.dtype, b.dtype)
    if dt == 'b':
        dt = 'i'
    fa, fb = ip.frozen(a), ip.frozen(b)
    sa, sb = a.shape[:-1], (b.shape[:-2] + b.shape[-1:]) if len(b.shape) > 1 else ()
    na = len(sa)

    def f(i):
        v = fresh('s', 'I')
        ia = list(i[:na]) + [v]
        r = list(i[na:])
        ib = (r[:-1] + [v] + r[-1:]) if len(b.shape) > 1 else [v]
        return tsum(v, ZERO, k, mul(ip.at(fa, ia), ip.at(fb, ib)))
    r = ip.mk(tuple(sa) + tuple(sb), dt, f)
    if not r.shape:
        return norm(ip.at(r, []))
    return r


def axes_of(ip, a, axis):
    n = len(a.shape)
    if axis is None:
        return list(range(n))
    if isinstance(axis, tuple):
        return [int(norm(x)) % n for x in axis]
    axis = norm(axis)
    if not isinstance(axis, int):
        raise Unsupported('symbolic axis')
    if axis < -n or axis >= n:
        raise PyExc('ValueError', ('axis',))
    return [axis % n]


def reduce_(ip, a, axis, keepdims, dtype, g):
    """g(list of (var, dim) of the reduced axes, body) -> term"""
    ax = axes_of(ip, a, axis)
    fz = ip.frozen(a)
    keep = [i for i in range(len(a.shape)) if i not in ax]
    shape = [a.shape[i] for i in keep]

    def f(i):
        idx = [None] * len(a.shape)
        for j, x in enumerate(keep):
            idx[x] = i[j]
        vs = []
        for x in ax:
            v = fresh('r', 'I')
            vs.append((v, a.shape[x]))
            idx[x] = v
        return g(vs, subst(fz.body, dict(zip(IDX, idx))))
    r = ip.mk(shape, dtype, f)
    if keepdims:
        sh = [ONE if i in ax else d for i, d in enumerate(a.shape)]
        return reshape(ip, r, sh)
    if not shape:
        return norm(ip.at(r, []))
    return r


def g_sum(vs, body):
    for v, d in reversed(vs):
        body = tsum(v, ZERO, d, body)
    return body


def g_prod(vs, body):
    for v, d in reversed(vs):
        body = tprod(v, ZERO, d, body)
    return body


def m_guard(ip, m, body=None):
    """guarded sum over a selection"""
    vs = [fresh('r', 'I') for _ in m.dims]
    s = dict(zip(IDX, vs))
    b = subst(m.body if body is None else body, s)
    g = subst(m.mask, s)
    t = ite(g, b, num(0, b.s if b.s != 'B' else 'I'))
    for v, d in reversed(list(zip(vs, m.dims))):
        t = tsum(v, ZERO, d, t)
    return t


def m_count(ip, m):
    return m_guard(ip, m, ONE)


def m_nonempty(ip, m):
    vs = [fresh('r', 'I') for _ in m.dims]
    c = subst(m.mask, dict(zip(IDX, vs)))
    for v, d in reversed(list(zip(vs, m.dims))):
        c = tany(v, ZERO, d, c)
    return c


def np_sum(ip, a, axis=None, keepdims=False, **kw):
    a = ip.resolve(a)
    if isinstance(a, (tuple, PyList)):
        items = ip.concrete_items(a)
        a = toarr(ip, a)
    if is_scalar(a):
        return a
    if isinstance(a, MArr):
        if a.rest:
            if axis is not None and norm(axis) == 0:
                n0 = len(a.dims)
                def f(i):
                    vs = [fresh('r', 'I') for _ in a.dims]
                    s = dict(zip(IDX, vs))
                    for k in range(len(a.rest)):
                        s[IDX[n0 + k]] = i[k]
                    t = ite(subst(a.mask, s), subst(a.body, s), RZERO)
                    for v, d in reversed(list(zip(vs, a.dims))):
                        t = tsum(v, ZERO, d, t)
                    return t
                return ip.mk(a.rest, a.dtype, f)
            raise Unsupported('sum over a selection of rows')
        return norm(m_guard(ip, a))
    dt = a.dtype if a.dtype != 'b' else 'i'
    return reduce_(ip, a, axis, keepdims, dt, lambda vs, b: g_sum(vs, ite(b, ONE, ZERO) if b.s == 'B' else b))


def np_mean(ip, a, axis=None, keepdims=False, **kw):
    a = ip.resolve(a)
    if isinstance(a, MArr):
        if a.rest:
            raise Unsupported('mean over a selection of rows')
        s, n = m_guard(ip, a), m_count(ip, a)
        need(ip, not_(eq(n, ZERO)))
        return norm(div(real(s), real(n)))
    a = toarr(ip, a)
    n = size_of([a.shape[i] for i in axes_of(ip, a, axis)])
    need(ip, not_(eq(n, ZERO)))
    return binary(ip, 'Div', np_sum(ip, a, axis, keepdims), norm(n))


def np_var(ip, a, axis=None, ddof=0, keepdims=False, **kw):
    a = ip.resolve(a)
    ddof = norm(ddof)
    if not isinstance(ddof, int) and not (isinstance(ddof, T) and ddof.s == 'I'):
        raise Unsupported('ddof')
    if isinstance(a, MArr):
        if a.rest:
            raise Unsupported('var over a selection of rows')
        n = m_count(ip, a)
        need(ip, not_(eq(n, ZERO)))
        mean = div(real(m_guard(ip, a)), real(n))
        d = sub(a.body, mean)
        return norm(div(m_guard(ip, a, mul(d, d)), real(sub(n, term(ddof)))))
    a = toarr(ip, a)
    mean = np_mean(ip, a, axis, keepdims=True) if a.shape else a
    d = binary(ip, 'Sub', a, mean)
    n = size_of([a.shape[i] for i in axes_of(ip, a, axis)])
    return binary(ip, 'Div', np_sum(ip, binary(ip, 'Mult', d, d), axis, keepdims), norm(sub(n, term(ddof))))


def np_extreme(kind):
    def f(ip, a, axis=None, keepdims=False, **kw):
        a = ip.resolve(a)
        if is_scalar(a):
            return a
        if isinstance(a, (tuple, PyList)):
            items = ip.concrete_items(a)
            if items is not None and items and axis is None and all(is_scalar(ip.resolve(x)) for x in items):
                acc = term(ip.resolve(items[0]))
                for x in items[1:]:
                    acc = fn('min2' if kind == 'amin' else 'max2', acc, term(ip.resolve(x)))
                return norm(acc)
            a = toarr(ip, a)
        if isinstance(a, MArr):
            if a.rest:
                raise Unsupported('extreme over a selection of rows')
            if not ip.decide(m_nonempty(ip, a)):
                raise PyExc('ValueError', ('zero-size array',))
            vs = [fresh('l', 'I') for _ in a.dims]
            s = dict(zip(IDX, vs))
            L = ip.ctx().canon(lam(vs, a.dims, subst(a.body, s)))
            Mk = ip.ctx().canon(lam(vs, a.dims, ite(subst(a.mask, s), ONE, ZERO)))
            return app(kind + '_if', (L, Mk), a.dtype == 'i' and 'I' or 'R')
        ax = axes_of(ip, a, axis)
        n = size_of([a.shape[i] for i in ax])
        if not ip.decide(lt(ZERO, n)):
            raise PyExc('ValueError', ('zero-size array',))
        sort = 'R' if a.dtype == 'f' else 'I'
        if isnum(n) and val(n) <= 3 and all(isnum(a.shape[i]) for i in ax):
            import itertools
            def g(vs, body):
                acc = None
                for c in itertools.product(*[range(int(val(d))) for v, d in vs]):
                    x = subst(body, {v: num(k) for (v, d), k in zip(vs, c)})
                    acc = x if acc is None else fn('min2' if kind == 'amin' else 'max2', acc, x)
                return acc
            return reduce_(ip, a, axis, keepdims, a.dtype, g)
        c = ip.ctx()

        def g(vs, body):
            # arrays given by a formula: the first or the last element, if it is provably extreme
            if not contains(body, lambda t: t.k == 'sum' or t.k == 'app' and t.a[0] not in ('float', 'abs', 'sqrt')):
                cc = c.child([f for v, d in vs for f in (le(ZERO, v), lt(v, d))])
                for corner in ({v: sub(d, ONE) for v, d in vs}, {v: ZERO for v, d in vs}):
                    e = subst(body, corner)
                    if cc.prove(le(body, e) if kind == 'amax' else le(e, body))[0]:
                        return c.canon(e)
            return app(kind, (lam([v for v, d in vs], [d for v, d in vs], body),), sort)
        return reduce_(ip, a, axis, keepdims, a.dtype, g)
    return f


def np_arg(kind):
    def f(ip, a, axis=None, **kw):
        a = ip.resolve(a)
        if isinstance(a, (tuple, PyList)):
            a = toarr(ip, a)
        if isinstance(a, MArr):
            a = materialise(ip, a)
        if axis is not None and len(a.shape) > 1:
            def g(vs, body):
                return app(kind, (lam([v for v, d in vs], [d for v, d in vs], body),), 'I')
            return reduce_(ip, a, axis, False, 'i', g)
        n = size_of(a.shape)
        if not ip.decide(lt(ZERO, n)):
            raise PyExc('ValueError')
        if len(a.shape) > 1:
            a = reshape(ip, a, [n])
        return norm(app(kind, (ip.ctx().canon(ip.lamof(a)),), 'I'))
    return f


def np_argsort(ip, a, axis=-1, **kw):
    a = toarr(ip, a)
    if len(a.shape) == 2 and axis in (-1, 1):
        fz = ip.frozen(a)
        d = a.shape[1]

        def f(i):
            v = fresh('l', 'I')
            return app('argsort', (lam([v], [d], subst(fz.body, {IDX[0]: i[0], IDX[1]: v})), i[1]), 'I')
        return ip.mk(a.shape, 'i', f)
    if len(a.shape) != 1:
        if axis is None:
            a = reshape(ip, a, [size_of(a.shape)])
        else:
            raise Unsupported('argsort axis')
    L = ip.ctx().canon(ip.lamof(a))
    return ip.mk(a.shape, 'i', lambda i: app('argsort', (L, i[0]), 'I'))


def np_sort(ip, a, axis=-1, **kw):
    a = toarr(ip, a)
    ind = np_argsort(ip, a)
    if len(a.shape) != 1:
        raise Unsupported('sort axis')
    return getitem(ip, a, ind)


def np_all(ip, a, axis=None, keepdims=False):
    a = toarr(ip, a)

    def g(vs, b):
        b = ip.cast(b, 'b')
        for v, d in reversed(vs):
            b = tall(v, ZERO, d, b)
        return b
    return reduce_(ip, a, axis, keepdims, 'b', g)


def np_any(ip, a, axis=None, keepdims=False):
    a = ip.resolve(a)
    if isinstance(a, MArr):
        vs = [fresh('r', 'I') for _ in a.dims]
        s = dict(zip(IDX, vs))
        c = and_(subst(a.mask, s), ip.cast(subst(a.body, s), 'b'))
        for v, d in reversed(list(zip(vs, a.dims))):
            c = tany(v, ZERO, d, c)
        return norm(c)
    a = toarr(ip, a)

    def g(vs, b):
        b = ip.cast(b, 'b')
        for v, d in reversed(vs):
            b = tany(v, ZERO, d, b)
        return b
    return reduce_(ip, a, axis, keepdims, 'b', g)


def shape_arg(ip, s):
    s = ip.resolve(s)
    if isinstance(s, (tuple, PyList)):
        items = ip.concrete_items(s)
        if items is None:
            raise Unsupported('symbolic shape list')
    elif isinstance(s, Arr):
        items = ip.concrete_items(s)
    else:
        items = [s]
    out = []
    for x in items:
        x = ip.resolve(x)
        if not is_scalar(x) or isinstance(x, bool) or term(x).s != 'I':
            raise PyExc('TypeError', ('shape',))
        x = ip.ctx().isimp(term(x))
        if not ip.ent(le(ZERO, x)):
            if not ip.decide(le(ZERO, x)):
                raise PyExc('ValueError', ('negative dimension',))
        out.append(x)
    return out


def dt_arg(dtype):
    if dtype is None:
        return 'f'
    if isinstance(dtype, Opaque):
        n = dtype.info[0] if isinstance(dtype.info, tuple) else dtype.info
        if isinstance(n, dict):
            return n['kind']
        return {'int': 'i', 'float': 'f', 'bool': 'b', 'int64': 'i', 'float64': 'f'}.get(n) or _bad(n)
    if isinstance(dtype, str):
        return {'int': 'i', 'float': 'f', 'bool': 'b', 'f': 'f', 'i': 'i', 'd': 'f'}.get(dtype) or _bad(dtype)
    return _bad(dtype)


def _bad(n):
    raise Unsupported('dtype %r' % (n,))


def np_concat(ip, seq, axis=0):
    arrs = blocks(ip, seq, 'concatenation', lambda nd: norm(axis) % nd if nd else 0, lambda a: a)
    if not arrs:
        raise PyExc('ValueError')
    nd = len(arrs[0].shape)
    if any(len(a.shape) != nd for a in arrs) or nd == 0:
        raise PyExc('ValueError', ('concatenate dims',))
    axis = norm(axis) % nd if norm(axis) < nd else None
    if axis is None:
        raise PyExc('ValueError')
    shape = list(arrs[0].shape)
    for a in arrs[1:]:
        for k in range(nd):
            if k != axis and not ip.decide(eq(a.shape[k], shape[k])):
                raise PyExc('ValueError', ('concatenate shapes',))
            if k != axis and isnum(a.shape[k]):
                shape[k] = a.shape[k]
    offs, tot = [], ZERO
    for a in arrs:
        offs.append(tot)
        tot = add(tot, a.shape[axis])
    shape[axis] = ip.ctx().isimp(tot)
    fz = [ip.frozen(a) for a in arrs]
    dt = prom(*[a.dtype for a in arrs])

    def f(i):
        acc = None
        for k in range(len(arrs) - 1, -1, -1):
            j = list(i)
            j[axis] = sub(i[axis], offs[k])
            if is1(ip, arrs[k].shape[axis]):
                j[axis] = ZERO
            e = ip.cast(ip.at(fz[k], j), dt)
            acc = e if acc is None else ite(lt(i[axis], add(offs[k], arrs[k].shape[axis])), e, acc)
        return acc
    return ip.mk(shape, dt, f)


def np_vstack(ip, seq):
    def lift(a):
        if len(a.shape) < 2:
            return reshape(ip, a, [1] + list(a.shape) if a.shape else [1, 1])
        return a
    return np_concat(ip, tuple(blocks(ip, seq, 'vstack', lambda nd: 0, lift)), 0)


def np_hstack(ip, seq):
    def lift(a):
        return a if a.shape else reshape(ip, a, [1])
    out = blocks(ip, seq, 'hstack', lambda nd: 0 if nd == 1 else 1, lift)
    if not out:
        raise PyExc('ValueError')
    return np_concat(ip, tuple(out), 0 if len(out[0].shape) == 1 else 1)


def np_column_stack(ip, seq):
    def lift(a):
        return reshape(ip, a, [size_of(a.shape), 1]) if len(a.shape) < 2 else a
    return np_concat(ip, tuple(blocks(ip, seq, 'column_stack', lambda nd: 1, lift)), 1)


def np_kron(ip, a, b):
    a, b = toarr(ip, a), toarr(ip, b)
    n = max(len(a.shape), len(b.shape))
    sa = [ONE] * (n - len(a.shape)) + list(a.shape)
    sb = [ONE] * (n - len(b.shape)) + list(b.shape)
    fa, fb = ip.frozen(a), ip.frozen(b)
    shape = [mul(x, y) for x, y in zip(sa, sb)]
    c = ip.ctx()

    def f(i):
        ia, ib = [], []
        for k in range(n):
            if is1(ip, sb[k]):
                ia.append(i[k])
                ib.append(ZERO)
            elif is1(ip, sa[k]):
                ia.append(ZERO)
                ib.append(i[k])
            else:
                sc = (le(ZERO, i[k]), lt(i[k], shape[k]))
                ia.append(fdiv(i[k], sb[k]))
                ib.append(mod(i[k], sb[k]))
        return mul(ip.at(fa, ia[n - len(a.shape):]), ip.at(fb, ib[n - len(b.shape):]))
    return ip.mk(shape, prom(a.dtype, b.dtype), f)


def np_tile(ip, a, reps):
    a = toarr(ip, a)
    reps = ip.concrete_items(reps) if not is_scalar(ip.resolve(reps)) else [ip.resolve(reps)]
    reps = [dim(norm(x)) for x in reps]
    n = max(len(a.shape), len(reps))
    sa = [ONE] * (n - len(a.shape)) + list(a.shape)
    rp = [ONE] * (n - len(reps)) + reps
    rp = [ip.clip0(r) for r in rp]
    fa = ip.frozen(a)

    def f(i):
        j = []
        for k in range(n):
            if is1(ip, rp[k]):
                j.append(i[k])
            elif is1(ip, sa[k]):
                j.append(ZERO)
            else:
                j.append(mod(i[k], sa[k]))
        return ip.at(fa, j[n - len(a.shape):])
    return ip.mk([mul(x, y) for x, y in zip(sa, rp)], a.dtype, f)


def np_repeat(ip, a, k, axis=None):
    a = toarr(ip, a)
    k = dim(norm(ip.resolve(k)))
    if axis is None:
        a = reshape(ip, a, [size_of(a.shape)])
        axis = 0
    axis = norm(axis) % len(a.shape)
    fa = ip.frozen(a)
    shape = list(a.shape)
    one = is1(ip, shape[axis])
    shape[axis] = mul(shape[axis], k)

    def f(i):
        j = list(i)
        j[axis] = ZERO if one else fdiv(i[axis], k)
        return ip.at(fa, j)
    return ip.mk(shape, a.dtype, f)


def np_diag(ip, a, k=0):
    a = toarr(ip, a)
    k = norm(k)
    if not isinstance(k, int):
        raise Unsupported('diag with a symbolic offset')
    fa = ip.frozen(a)
    if len(a.shape) == 1:
        n = ip.ctx().isimp(add(a.shape[0], num(abs(k)))) if k else a.shape[0]
        off = num(k)
        lo = (lambda i: i[0]) if k >= 0 else (lambda i: i[1])
        return ip.mk((n, n), a.dtype, lambda i: ite(eq(i[1], add(i[0], off)), ip.at(fa, [lo(i)]), num(0, 'R' if a.dtype == 'f' else 'I')))
    if k:
        raise Unsupported('diagonal with an offset')
    n, m = a.shape
    d = n if ip.decide(le(n, m)) else m
    return ip.mk((d,), a.dtype, lambda i: ip.at(fa, [i[0], i[0]]))


def named(ip, a):
    """let-abstraction, when the contract asks for it: the array gets a name whose definition is a schema"""
    if not ip.hooks.get('name_dots') or not ip.loopvars or not isinstance(a, Arr) or not a.shape:
        return a
    name, lv = 'dot%d' % ip.uid(), tuple(ip.loopvars)
    body = ip.frozen(a).body
    keys = lv + tuple(IDX[:len(a.shape)])

    def define(t):
        if len(t.a[1]) == len(keys):
            yield ((name, t), eq(t, subst(body, dict(zip(keys, t.a[1])))))
    ip.add_schema(name, define)
    ip.named[name] = (keys, body)
    return ip.mk(a.shape, a.dtype, lambda i: app(name, lv + tuple(i), body.s))


def np_norm(ip, a, ord=None, axis=None, **kw):
    if ip.hooks.get('norm'):
        return ip.hooks['norm'](ip, a, ord, axis)
    a = toarr(ip, a)
    if ord is not None and norm(ord) == 2 and len(a.shape) == 2 and axis is None:
        return norm(app('norm2', (ip.ctx().canon(ip.lamof(a)),), 'R'))
    if ord is not None and not (norm(ord) == 2 and len(a.shape) == 1):
        if norm(ord) == 1 and len(a.shape) == 1:
            return np_sum(ip, emap(ip, lambda x: fn('abs', x), [a], 'f'))
        raise Unsupported('norm order')
    s = np_sum(ip, binary(ip, 'Mult', a, a), axis)
    return emap(ip, lambda x: fn('sqrt', x), [s], 'f')


def np_linspace(ip, a, b, n=50, endpoint=True, **kw):
    refuse_keywords('linspace', kw)
    if norm(ip.resolve(endpoint)) is not True:
        raise Unsupported('linspace without its end point')
    a, b = term(ip.resolve(a)), term(ip.resolve(b))
    n = dim(norm(ip.resolve(n)))
    if n.s != 'I':
        raise PyExc('TypeError')
    if not ip.decide(le(ZERO, n)):
        raise PyExc('ValueError')
    if ip.decide(eq(n, ONE)):
        return ip.mk((ONE,), 'f', lambda i: real(a))
    return ip.mk((n,), 'f', lambda i: add(real(a), mul(sub(b, a), i[0], inv(sub(n, ONE)))))


def np_arange(ip, *args, **kw):
    refuse_keywords('arange', kw)
    args = [ip.resolve(x) for x in args]
    if len(args) == 1:
        lo, hi, st = 0, args[0], 1
    elif len(args) == 2:
        lo, hi, st = args[0], args[1], 1
    else:
        lo, hi, st = args
    lo, hi = term(lo), term(hi)
    if norm(st) != 1:
        raise Unsupported('arange step')
    n = sub(hi, lo)
    if n.s == 'I':
        n = ip.clip0(n)
        return ip.mk((n,), 'i', lambda i: add(lo, i[0]))
    c = ip.ctx().canon(n)
    if isnum(c) and val(c).denominator == 1:
        c = num(val(c), 'I')
    elif _intvalued(c):
        c = _asint(c)
    else:
        c = fn('ceil', c)
    n = ip.clip0(c)
    return ip.mk((n,), 'f' if (lo.s == 'R' or hi.s == 'R') else 'i', lambda i: real(add(lo, i[0])))


def _intvalued(t):
    if t.s == 'I':
        return True
    if t.k == 'num':
        return val(t).denominator == 1
    if t.k == 'add':
        return t.a[0].denominator == 1 and all(k.denominator == 1 and _intvalued(x) for x, k in t.a[1])
    if t.k == 'mul':
        return all(n > 0 and _intvalued(x) for x, n in t.a[0])
    return False


def _asint(t):
    if t.s == 'I':
        return t
    if t.k == 'num':
        return num(val(t), 'I')
    if t.k == 'add':
        return add(num(t.a[0], 'I'), *[mul(num(k, 'I'), _asint(x)) for x, k in t.a[1]])
    return mul(*[power(_asint(x), num(n)) for x, n in t.a[0]])


def to_int(ip, v):
    v = ip.resolve(v)
    if isinstance(v, Arr):
        if not ip.decide(eq(size_of(v.shape), ONE)):
            raise PyExc('TypeError')
        v = norm(ip.at(v, [ZERO] * len(v.shape)))
    if isinstance(v, str):
        raise Unsupported('int of a string')
    if v is None or not is_scalar(v):
        raise PyExc('TypeError')
    t = term(v)
    if t.s == 'B':
        return norm(ite(t, ONE, ZERO))
    if t.s == 'I':
        return norm(t)
    t = ip.ctx().canon(t)
    if _intvalued(t):
        return norm(_asint(t))
    if ip.ent(le(RZERO, t)):
        return norm(fn('floor', t))
    return norm(ip.cast(t, 'i'))


# -- modules ---------------------------------------------------------------------------------------------------
def make(ip):
    ns = {}

    def reg(name, f, *alias):
        p = Prim('np.' + name, f)
        ns[name] = p
        for a in alias:
            ns[a] = p

    def const(name, shape, value, dtype=None):
        dt = dt_arg(dtype)
        s = shape_arg(ip, shape)
        return ip.mk(s, dt, lambda i: {'f': num(value, 'R'), 'i': num(value, 'I'), 'b': lift(bool(value))}[dt])
    reg('zeros', lambda shape, dtype=None, **k: const('zeros', shape, 0, dtype))
    reg('ones', lambda shape, dtype=None, **k: const('ones', shape, 1, dtype))
    reg('empty', lambda shape, dtype=None, **k: _empty(ip, shape, dtype))
    reg('full', lambda shape, v, dtype=None: _full(ip, shape, v, dtype))
    reg('zeros_like', lambda a, dtype=None: ip.mk(a.shape, a.dtype if dtype is None else dt_arg(dtype), lambda i: ZERO))
    reg('ones_like', lambda a, dtype=None: ip.mk(a.shape, a.dtype if dtype is None else dt_arg(dtype), lambda i: ONE))
    reg('empty_like', lambda a, dtype=None: _empty(ip, tuple(norm(x) for x in a.shape), dtype))

    def eye(N, M=None, k=0, dtype=None, **kw):
        a = shape_arg(ip, N)[0]
        b = a if M is None else shape_arg(ip, M)[0]
        off, dt = dim(norm(ip.resolve(k))), dt_arg(dtype)
        one, zero = (RONE, RZERO) if dt == 'f' else (ONE, ZERO)
        return ip.mk((a, b), dt, lambda i: ite(eq(i[1], add(i[0], off)), one, zero))
    reg('eye', eye, 'identity')

    def array(x, dtype=None, copy=True, ndmin=0, **k):
        x = ip.resolve(x)
        a = toarr(ip, x)
        if x is a:
            a = copy_(ip, a) if copy else a
        if dtype is not None:
            dt = dt_arg(dtype)
            if dt != a.dtype:
                fz = ip.frozen(a)
                a = ip.mk(a.shape, dt, lambda i: ip.cast(ip.at(fz, i), dt))
        while len(a.shape) < ndmin:
            a = reshape(ip, a, [1] + list(a.shape))
        return a
    copy_ = copy
    reg('array', array)

    def asarray(x, dtype=None, **k):
        return array(x, dtype, copy=False)
    reg('asarray', asarray, 'ascontiguousarray', 'asfarray')
    reg('copy', lambda a: copy_(ip, toarr(ip, a)))
    reg('arange', lambda *a, **k: np_arange(ip, *a, **k))
    reg('linspace', lambda start, stop, num=50, *k0, **k: np_linspace(ip, start, stop, num, *k0, **k))
    reg('tile', lambda a, r: np_tile(ip, a, r))
    reg('kron', lambda a, b: np_kron(ip, a, b))
    reg('repeat', lambda a, k, axis=None: np_repeat(ip, a, k, axis))
    reg('hstack', lambda s: np_hstack(ip, s))
    reg('vstack', lambda s: np_vstack(ip, s), 'row_stack')
    reg('column_stack', lambda s: np_column_stack(ip, s))
    reg('concatenate', lambda s, axis=0: np_concat(ip, s, axis))

    def stack(s, axis=0):
        a = toarr(ip, s)
        if norm(axis) == 0:
            return a
        n = len(a.shape)
        ax = norm(axis) % n
        order = list(range(1, n))
        order.insert(ax, 0)
        return transpose(ip, a, order)
    reg('stack', stack)
    reg('transpose', lambda a, axes=None: transpose(ip, toarr(ip, a), None if axes is None else [norm(x) for x in ip.concrete_items(axes)]))

    def swapaxes(a, i, j):
        a = toarr(ip, a)
        o = list(range(len(a.shape)))
        i, j = norm(i) % len(o), norm(j) % len(o)
        o[i], o[j] = o[j], o[i]
        return transpose(ip, a, o)
    reg('swapaxes', swapaxes)
    reg('dot', lambda a, b, **k: named(ip, dot(ip, a, b)))
    reg('matmul', lambda a, b, **k: dot(ip, a, b))
    reg('inner', lambda a, b: dot(ip, a, transpose(ip, toarr(ip, b))))

    def outer(a, b):
        a, b = toarr(ip, a), toarr(ip, b)
        a, b = reshape(ip, a, [size_of(a.shape), 1]), reshape(ip, b, [1, size_of(b.shape)])
        return binary(ip, 'Mult', a, b)
    reg('outer', outer)
    reg('count_nonzero', lambda a, axis=None: np_sum(ip, emap(ip, lambda x: ite(ip.cast(x, 'b'), ONE, ZERO), [a], 'i'), axis, False))
    reg('sum', lambda a, axis=None, *, keepdims=False, **k: np_sum(ip, a, axis, keepdims))

    def prod(a, axis=None, *, keepdims=False, **k):
        a = toarr(ip, a)
        return reduce_(ip, a, axis, keepdims, a.dtype if a.dtype != 'b' else 'i', g_prod)
    reg('prod', prod)
    reg('mean', lambda a, axis=None, *, keepdims=False, **k: np_mean(ip, a, axis, keepdims))

    def average(a, axis=None, weights=None):
        if weights is None:
            return np_mean(ip, a, axis)
        a, w = toarr(ip, a), toarr(ip, weights)
        if len(w.shape) != len(a.shape):
            if axis is None or len(w.shape) != 1:
                raise Unsupported('weights of an average')
            ax = norm(axis) % len(a.shape)
            w = reshape(ip, w, [size_of(w.shape) if i == ax else 1 for i in range(len(a.shape))])
        return binary(ip, 'Div', np_sum(ip, binary(ip, 'Mult', a, w), axis), np_sum(ip, w, axis))
    reg('average', average)
    reg('var', lambda a, axis=None, *, ddof=0, keepdims=False, **k: np_var(ip, a, axis, ddof, keepdims))
    reg('std', lambda a, axis=None, *, ddof=0, keepdims=False, **k: emap(ip, lambda x: fn('sqrt', x), [np_var(ip, a, axis, ddof, keepdims)], 'f'))
    amin, amax = np_extreme('amin'), np_extreme('amax')
    reg('amin', lambda a, axis=None, *, keepdims=False, **k: amin(ip, a, axis, keepdims), 'min')
    reg('amax', lambda a, axis=None, *, keepdims=False, **k: amax(ip, a, axis, keepdims), 'max')
    argmin, argmax = np_arg('argmin'), np_arg('argmax')
    reg('argmin', lambda a, axis=None: argmin(ip, a, axis))
    reg('argmax', lambda a, axis=None: argmax(ip, a, axis))
    reg('argsort', lambda a, axis=-1, **k: np_argsort(ip, a, axis))
    reg('sort', lambda a, axis=-1, **k: np_sort(ip, a, axis))

    def diff(a, n=1, axis=-1):
        a = toarr(ip, a)
        if norm(n) != 1 or len(a.shape) != 1:
            raise Unsupported('diff')
        return binary(ip, 'Sub', getitem(ip, a, Slice(1, None, None)), getitem(ip, a, Slice(None, -1, None)))
    reg('diff', diff)

    def ufunc(name, g, dt=None, *alias):
        def f(x, *rest, **k):
            x = ip.resolve(x)
            if rest:
                raise Unsupported('further arguments of %s' % name)
            refuse_keywords(name, k)
            if isinstance(x, MArr):
                return emap_m(ip, g, [x], dt or x.dtype)
            if isinstance(x, (tuple, PyList)):
                x = toarr(ip, x)
            if not (isinstance(x, Arr) or is_scalar(x)):
                raise PyExc('TypeError')
            return emap(ip, g, [x], dt or prom(dtype_of(x), 'i'))
        reg(name, f, *alias)
    ufunc('fabs', lambda x: fn('abs', real(x)), 'f')
    ufunc('abs', lambda x: fn('abs', x), None, 'absolute')
    ufunc('sign', lambda x: fn('sign', x))

    def sq(x):
        need(ip, le(num(0, x.s), x))
        return fn('sqrt', real(x))
    ufunc('sqrt', sq, 'f')
    ufunc('exp', lambda x: fn('exp', real(x)), 'f')
    ufunc('log', lambda x: fn('log', real(x)), 'f')
    ufunc('log10', lambda x: div(fn('log', real(x)), fn('log', num(10, 'R'))), 'f')
    ufunc('cos', lambda x: fn('cos', real(x)), 'f')
    ufunc('tan', lambda x: div(fn('sin', real(x)), fn('cos', real(x))), 'f')
    ufunc('sin', lambda x: fn('sin', real(x)), 'f')
    ufunc('square', lambda x: mul(x, x))
    ufunc('floor', lambda x: real(fn('floor', x)), 'f')
    ufunc('ceil', lambda x: real(fn('ceil', x)), 'f')
    ufunc('negative', neg)

    def odd(kind):
        return lambda x: app('is_' + kind, (x,), 'B') if NONFIN and contains(x, lambda y: y.k == 'app' and y.a[0] in NONFIN) else FALSE
    ufunc('isnan', odd('nan'), 'b')
    ufunc('isinf', odd('inf'), 'b')
    ufunc('isfinite', lambda x: not_(or_(odd('nan')(x), odd('inf')(x))), 'b')
    ufunc('logical_not', lambda x: not_(x if x.s == 'B' else not_(eq(x, num(0, x.s)))), 'b')

    def rnd(x):
        if x.s == 'I':
            return x
        # round half to even: between x - 1/2 and x + 1/2
        return app('round', (x,), 'I')
    def round_(x, decimals=0, **k):
        d = norm(ip.resolve(decimals))
        refuse_keywords('round', k)
        if not isinstance(d, int) or abs(d) > 30:
            raise Unsupported('decimals of round')
        x = ip.resolve(x)
        x = toarr(ip, x) if isinstance(x, (tuple, PyList, MArr)) else x
        if not (isinstance(x, Arr) or is_scalar(x)):
            raise PyExc('TypeError')
        if dtype_of(x) == 'i' and d >= 0:
            return x
        s = num(Fr(10) ** d, 'R')
        return emap(ip, lambda v: real(rnd(v)) if d == 0 else div(real(app('round', (mul(s, real(v)),), 'I')), s), [x], 'f')
    reg('round', round_, 'around')
    ufunc('rint', lambda x: real(rnd(x)), 'f')

    def bin_(name, op):
        reg(name, lambda a, b, **k: binary(ip, op, ip.resolve(a) if not isinstance(ip.resolve(a), (tuple, PyList)) else toarr(ip, a),
                                           ip.resolve(b) if not isinstance(ip.resolve(b), (tuple, PyList)) else toarr(ip, b)))
    for n_, o_ in (('add', 'Add'), ('subtract', 'Sub'), ('multiply', 'Mult'), ('divide', 'Div'), ('true_divide', 'Div'), ('power', 'Pow'), ('mod', 'Mod'),
                   ('floor_divide', 'FloorDiv'), ('remainder', 'Mod')):
        bin_(n_, o_)

    def mm(kind):
        def f(a, b, **k):
            a, b = ip.resolve(a), ip.resolve(b)
            return emap(ip, lambda x, y: fn(kind, x, y), [a, b], prom(dtype_of(a) if not isinstance(a, (tuple, PyList)) else 'f',
                                                                     dtype_of(b) if not isinstance(b, (tuple, PyList)) else 'f'))
        return f
    reg('minimum', mm('min2'), 'fmin')
    reg('maximum', mm('max2'), 'fmax')

    def bb(g):
        return lambda a, b, **k: emap(ip, lambda x, y: g(ip.cast(x, 'b'), ip.cast(y, 'b')), [a, b], 'b')
    reg('logical_and', bb(and_))
    reg('logical_or', bb(or_))
    for n_, o_ in (('equal', 'Eq'), ('not_equal', 'NotEq'), ('less', 'Lt'), ('less_equal', 'LtE'), ('greater', 'Gt'), ('greater_equal', 'GtE')):
        reg(n_, lambda a, b, o_=o_: compare(ip, o_, ip.resolve(a), ip.resolve(b)))

    def where(c, a=None, b=None):
        if a is None:
            return nonzero(c)
        dt = prom(*[dtype_of(ip.resolve(x)) for x in (a, b)])
        return emap(ip, lambda p, x, y: ite(ip.cast(p, 'b'), ip.cast(x, dt), ip.cast(y, dt)), [c, a, b], dt)
    reg('where', where)

    def clip(a, lo, hi, **k):
        return emap(ip, lambda x, l, h: fn('min2', fn('max2', x, l), h), [a, lo, hi], 'f')
    reg('clip', clip)

    def nonzero(a):
        a = toarr(ip, a)
        if len(a.shape) != 1:
            raise Unsupported('nonzero')
        n = norm(a.shape[0])
        if isinstance(n, int):
            # concrete length: decide each element
            out = [k for k in range(n) if ip.decide(ip.cast(ip.at(a, [num(k)]), 'b'))]
            ts = [num(k) for k in out]
            return (ip.mk((len(ts),), 'i', lambda i: pick(i[0], ts) if ts else ZERO),)
        fz = ip.frozen(a)
        mask = ip.cast(fz.body, 'b')
        if ip.hooks.get('nonzero'):
            ts = ip.hooks['nonzero'](ip, lambda k: subst(mask, {IDX[0]: k}), a.shape[0])
            if ts is not None:
                return (ip.mk((len(ts),), 'i', lambda i: pick(i[0], ts)),)
        m = MArr([a.shape[0]], mask, [], 'i', IDX[0])
        return (materialise(ip, m),)
    reg('nonzero', nonzero, 'flatnonzero')
    ns['flatnonzero'] = Prim('np.flatnonzero', lambda a: nonzero(a)[0])
    reg('all', lambda a, axis=None, **k: np_all(ip, a, axis))
    reg('any', lambda a, axis=None, **k: np_any(ip, a, axis))

    def allclose(a, b, **k):
        raise Unsupported('allclose')
    reg('allclose', allclose)
    def unravel_index(i, shape):
        ds = ip.concrete_items(shape) if not is_scalar(ip.resolve(shape)) else [ip.resolve(shape)]
        i = ip.resolve(i)
        n = ONE
        for d in ds:
            n = mul(n, dim(d))
        if not is_scalar(i):
            raise Unsupported('unravel_index of an array')
        fail_if(ip, not_(and_(le(ZERO, term(i)), lt(term(i), n))))
        out = []
        for d in reversed(ds[1:]):
            out.append(norm(mod(term(i), dim(d))))
            i = fdiv(term(i), dim(d))
        return tuple([norm(term(i))] + out[::-1])
    reg('unravel_index', unravel_index)
    reg('divmod', lambda a, b: (binary(ip, 'FloorDiv', ip.resolve(a), ip.resolve(b)), binary(ip, 'Mod', ip.resolve(a), ip.resolve(b))))

    def array_equal(a, b):
        a, b = toarr(ip, a), toarr(ip, b)
        if len(a.shape) != len(b.shape):
            return False
        for x, y in zip(a.shape, b.shape):
            if not ip.decide(eq(x, y)):
                return False
        return np_all(ip, compare(ip, 'Eq', a, b))
    reg('array_equal', array_equal)
    reg('reshape', lambda a, s, order=None: reshape_o(ip, toarr(ip, a), ip.concrete_items(s) if not is_scalar(ip.resolve(s)) else [s], {}, order))
    reg('ravel', lambda a, order=None: reshape_o(ip, toarr(ip, a), [size_of(toarr(ip, a).shape)], {}, order))
    reg('squeeze', lambda a: _squeeze(ip, toarr(ip, a)))
    def ndim(a):
        a = ip.resolve(a)
        return ip.attr(a, 'ndim') if isinstance(a, Rec) else len(toarr(ip, a).shape)
    reg('ndim', ndim)
    reg('size', lambda a: norm(size_of(toarr(ip, a).shape)))
    reg('shape', lambda a: tuple(norm(x) for x in toarr(ip, a).shape))
    reg('diag', lambda a, k=0: np_diag(ip, a, k))

    def triangle(lower):
        def f(m, k=0):
            m, k = toarr(ip, m), norm(ip.resolve(k))
            if len(m.shape) != 2:
                raise Unsupported('triangle of a vector')
            fz, z = ip.frozen(m), num(0, 'R' if m.dtype == 'f' else 'I')
            keep = (lambda i: le(i[1], add(i[0], dim(k)))) if lower else (lambda i: le(add(i[0], dim(k)), i[1]))
            return ip.mk(m.shape, m.dtype, lambda i: ite(keep(i), ip.at(fz, i), z))
        return f
    reg('tril', triangle(True))
    reg('triu', triangle(False))

    def vdot(a, b):
        a, b = toarr(ip, a), toarr(ip, b)
        return dot(ip, reshape(ip, a, [size_of(a.shape)]), reshape(ip, b, [size_of(b.shape)]))
    reg('vdot', vdot)

    def fill_diagonal(a, v, wrap=False):
        if len(a.shape) != 2 or not is_scalar(ip.resolve(v)):
            raise Unsupported('fill_diagonal')
        if norm(wrap) is not False:
            raise Unsupported('keyword wrap of fill_diagonal')
        old, t = ip.frozen(a), term(ip.resolve(v))
        ip.write(a, lambda i: ite(eq(i[0], i[1]), ip.cast(t, a.dtype), subst(old.body, dict(zip(IDX, i)))))
    reg('fill_diagonal', fill_diagonal)

    def trace(a):
        return np_sum(ip, np_diag(ip, a))
    reg('trace', trace)

    def atleast_2d(a):
        a = toarr(ip, a)
        if len(a.shape) >= 2:
            return a
        return reshape(ip, a, [1, size_of(a.shape)])
    reg('atleast_2d', atleast_2d)
    reg('expand_dims', lambda a, axis: reshape(ip, toarr(ip, a), _ins(list(toarr(ip, a).shape), norm(axis))))
    reg('finfo', lambda t: Rec('finfo', {'eps': num(Fr(1, 2 ** 52), 'R'), 'max': num(Fr(10) ** 308, 'R'), 'tiny': num(Fr(1, 10 ** 307), 'R')}))

    def histogram(x, bins=10, range=None, **k):
        x = toarr(ip, x)
        b = ip.resolve(bins)
        if not isinstance(b, Arr):
            raise Unsupported('histogram with a bin count')
        if len(x.shape) != 1 or len(b.shape) != 1:
            raise Unsupported('histogram shape')
        fx, fb = ip.frozen(x), ip.frozen(b)
        n = sub(b.shape[0], ONE)
        # counts: edges[k] <= x < edges[k+1], the last bin closed
        def f(i):
            v = fresh('r', 'I')
            e = ip.at(fx, [v])
            lo, hi = ip.at(fb, [i[0]]), ip.at(fb, [add(i[0], ONE)])
            c = and_(le(lo, e), or_(lt(e, hi), and_(eq(i[0], sub(n, ONE)), le(e, hi))))
            return tsum(v, ZERO, x.shape[0], ite(c, ONE, ZERO))
        ip.st.ghost.setdefault('assume', []).append('histogram edges are increasing')
        ip.st.ghost.setdefault('histogram', []).append((fx, fb, range, lambda k: f([k])))
        return (ip.mk((n,), 'i', f), b)
    reg('histogram', histogram)

    def savez(*a, **k):
        ip.st.events += (('savez',),)
    reg('savez', savez)

    def einsum(spec, *ops):
        if not isinstance(spec, str) or '->' not in spec:
            raise Unsupported('einsum')
        ins, out = spec.replace(' ', '').split('->')
        arrs = [toarr(ip, x) for x in ops]
        ins = ins.split(',')
        dims = {}
        for s, a in zip(ins, arrs):
            if len(s) != len(a.shape):
                raise PyExc('ValueError')
            for ch, d in zip(s, a.shape):
                if ch in dims and not ip.decide(eq(dims[ch], d)):
                    raise PyExc('ValueError')
                dims.setdefault(ch, d)
        fz = [ip.frozen(a) for a in arrs]
        red = [ch for ch in dims if ch not in out]

        def f(i):
            m = dict(zip(out, i))
            vs = []
            for ch in red:
                m[ch] = fresh('s', 'I')
                vs.append((m[ch], dims[ch]))
            return g_sum(vs, mul(*[ip.at(z, [m[ch] for ch in s]) for s, z in zip(ins, fz)]))
        r = ip.mk([dims[ch] for ch in out], prom(*[a.dtype for a in arrs]), f)
        return r if out else norm(ip.at(r, []))
    reg('einsum', einsum)

    def cumsum(a, axis=None):
        a = toarr(ip, a)
        if len(a.shape) != 1:
            raise Unsupported('cumsum')
        fz = ip.frozen(a)

        def f(i):
            v = fresh('s', 'I')
            return tsum(v, ZERO, add(i[0], ONE), ip.at(fz, [v]))
        return ip.mk(a.shape, a.dtype, f)
    reg('cumsum', cumsum)

    def flip(a, axis=None):
        a = toarr(ip, a)
        n = len(a.shape)
        axes = range(n) if axis is None else [norm(x) % n for x in ([axis] if is_scalar(ip.resolve(axis)) else ip.concrete_items(axis))]
        return getitem(ip, a, tuple(Slice(None, None, -1 if i in axes else None) for i in range(n)))
    reg('flip', flip)
    reg('flipud', lambda a: flip(a, 0))

    def take(a, ind, axis=None, **k):
        a, ind = toarr(ip, a), ip.resolve(ind)
        if not is_scalar(ind):
            ind = toarr(ip, ind)
        if axis is None:
            return getitem(ip, reshape(ip, a, [size_of(a.shape)]), ind)
        full = [Slice(None, None, None)] * len(a.shape)
        full[norm(axis) % len(full)] = ind
        return getitem(ip, a, tuple(full))
    reg('take', take)

    def split_at(a, cuts, axis):
        full = [Slice(None, None, None)] * len(a.shape)
        out = []
        for lo, hi in zip([None] + cuts, cuts + [None]):
            full[axis] = Slice(lo, hi, None)
            out.append(getitem(ip, a, tuple(full)))
        return ip.newlist(out)

    def split(a, cuts, axis=0):
        a, cuts = toarr(ip, a), ip.resolve(cuts)
        axis = norm(axis) % len(a.shape)
        if is_scalar(cuts):
            k = norm(cuts)
            if not isinstance(k, int) or k < 1:
                raise Unsupported('split into a symbolic number of parts')
            d = a.shape[axis]
            if not ip.decide(eq(mod(d, num(k)), ZERO)):
                raise PyExc('ValueError', ('split',))
            return split_at(a, [norm(mul(num(j), fdiv(d, num(k)))) for j in range(1, k)], axis)
        items = ip.concrete_items(cuts)
        if items is None:
            raise Unsupported('split at a symbolic number of places')
        return split_at(a, [norm(term(ip.resolve(x))) for x in items], axis)
    reg('split', split)
    reg('hsplit', lambda a, c: split(a, c, 1 if len(toarr(ip, a).shape) > 1 else 0))
    reg('vsplit', lambda a, c: split(a, c, 0))

    def append_(a, b, axis=None):
        a, b = toarr(ip, a), toarr(ip, b)
        if axis is None:
            a, b, axis = reshape(ip, a, [size_of(a.shape)]), reshape(ip, b, [size_of(b.shape)]), 0
        return np_concat(ip, (a, b), axis)
    reg('append', append_)
    reg('hypot', lambda a, b: emap(ip, lambda x, y: fn('sqrt', add(mul(real(x), real(x)), mul(real(y), real(y)))), [a, b], 'f'))
    reg('ptp', lambda a, axis=None: binary(ip, 'Sub', amax(ip, a, axis), amin(ip, a, axis)))
    reg('reciprocal', lambda a: emap(ip, lambda x: div(RONE, real(x)), [a], 'f'))

    def copyto(dst, src, **k):
        assign_index(ip, ip.resolve(dst), Ellipsis, ip.resolve(src))
    reg('copyto', copyto)

    def broadcast_to(a, shape):
        a, sh = toarr(ip, a), shape_arg(ip, shape)
        f = val_at(ip, a, tuple(sh))
        return ip.mk(tuple(sh), a.dtype, f)
    reg('broadcast_to', broadcast_to)

    def moveaxis(a, i, j):
        a = toarr(ip, a)
        o = list(range(len(a.shape)))
        i, j = norm(i) % len(o), norm(j) % len(o)
        o.remove(i)
        o.insert(j, i)
        return transpose(ip, a, o)
    reg('moveaxis', moveaxis)

    def delete(a, i, axis=None):
        a, i = toarr(ip, a), ip.resolve(i)
        if not is_scalar(i):
            raise Unsupported('delete of several entries')
        if axis is None:
            a, axis = reshape(ip, a, [size_of(a.shape)]), 0
        axis = norm(axis) % len(a.shape)
        full = [Slice(None, None, None)] * len(a.shape)
        k = wrap_index(ip, i, a.shape[axis])
        full[axis] = Slice(None, norm(k), None)
        lo = getitem(ip, a, tuple(full))
        full[axis] = Slice(norm(add(k, ONE)), None, None)
        return np_concat(ip, (lo, getitem(ip, a, tuple(full))), axis)
    reg('delete', delete)

    def meshgrid(*xs, indexing='xy'):
        if len(xs) != 2 or indexing not in ('xy', 'ij'):
            raise Unsupported('meshgrid')
        x, y = [ip.frozen(toarr(ip, v)) for v in xs]
        if len(x.shape) != 1 or len(y.shape) != 1:
            raise Unsupported('meshgrid of matrices')
        p, q = (1, 0) if indexing == 'xy' else (0, 1)
        sh = (y.shape[0], x.shape[0]) if indexing == 'xy' else (x.shape[0], y.shape[0])
        return ip.newlist([ip.mk(sh, x.dtype, lambda i: ip.at(x, [i[p]])), ip.mk(sh, y.dtype, lambda i: ip.at(y, [i[q]]))])
    reg('meshgrid', meshgrid)

    def ix_(*xs):
        out = []
        for k, v in enumerate(xs):
            v = toarr(ip, v)
            if v.dtype == 'b' or len(v.shape) != 1:
                raise Unsupported('ix_')
            out.append(reshape(ip, v, [v.shape[0] if j == k else 1 for j in range(len(xs))]))
        return tuple(out)
    reg('ix_', ix_)
    ns['c_'] = Opaque('stack_', 'c')
    ns['r_'] = Opaque('stack_', 'r')
    reg('fliplr', lambda a: getitem(ip, toarr(ip, a), (Slice(None, None, None), Slice(None, None, -1))))

    # types and constants
    ns['ndarray'] = Opaque('pytype', ('ndarray', None))
    ns['matrixlib'] = ModVal('np.matrixlib', {'defmatrix': ModVal('np.matrixlib.defmatrix', {'matrix': Opaque('pytype', ('matrix', None))})})
    ns['matrix'] = Opaque('pytype', ('matrix', None))
    for n_ in ('float', 'float64', 'float_'):
        ns[n_] = Opaque('pytype', ('float', lambda x=0: to_float(ip, x)))
    for n_ in ('int', 'int64', 'int32', 'int_'):
        ns[n_] = Opaque('pytype', ('int', lambda x=0: to_int(ip, x)))
    ns['integer'] = Opaque('pytype', ('int', None))
    ns['floating'] = Opaque('pytype', ('float', None))
    ns['bool'] = ns['bool_'] = Opaque('pytype', ('bool', lambda x=False: norm(term(ip.truthv(x)))))
    ns['pi'] = var('PI', 'R')
    ns['inf'] = var('NONFINITE_inf', 'R')
    ns['newaxis'] = None
    ns['random'] = random_mod(ip)
    ns['linalg'] = linalg_mod(ip)
    return ModVal('numpy', ns)


def _ins(shape, ax):
    n = len(shape) + 1
    shape.insert(ax % n, 1)
    return shape


def _squeeze(ip, a):
    keep = [d for d in a.shape if not known1(ip, d)]
    for d in keep:
        if not isnum(d) and not ip.ent(not_(eq(d, ONE))):
            raise Unsupported('squeeze of a symbolic dimension')
    if not keep:
        return norm(ip.at(a, [ZERO] * len(a.shape)))
    return reshape(ip, a, keep)


def _empty(ip, shape, dtype):
    s = shape_arg(ip, shape)
    name, f = ip.fresh_fun('uninit', 'R')
    return ip.mk(s, dt_arg(dtype), lambda i: f(i))


def _full(ip, shape, v, dtype):
    v = ip.resolve(v)
    dt = dtype_of(v) if dtype is None else dt_arg(dtype)
    t = term(v)
    return ip.mk(shape_arg(ip, shape), dt, lambda i: ip.cast(t, dt))


def to_float(ip, v):
    v = ip.resolve(v)
    if isinstance(v, Arr):
        if not ip.decide(eq(size_of(v.shape), ONE)):
            raise PyExc('TypeError')
        v = norm(ip.at(v, [ZERO] * len(v.shape)))
    if isinstance(v, str):
        raise Unsupported('float of a string')
    if not is_scalar(v):
        raise PyExc('TypeError')
    t = term(v)
    if t.s == 'B':
        return ite(t, RONE, RZERO)
    if isnum(t):
        return num(val(t), 'R')
    return _realview(t)


def _realview(t):
    """an integer term as a float: marked so that division is real division"""
    return app('float', (t,), 'R') if t.s == 'I' else t


def draw(ip, kind, shape, info, sort='R', dtype='f'):
    name, f = ip.fresh_fun(kind, sort)
    ip.st.rng = ('draw', name, ip.st.rng)
    ip.st.events += (('draw', kind, name, tuple(shape) if shape is not None else None, info, tuple(ip.loopvars)),)
    if shape is None:
        return name, f, norm(f([]))
    return name, f, ip.mk(shape, dtype, lambda i: f(i))


def random_mod(ip):
    ns = {}

    def size_arg(size):
        if size is None:
            return None
        return shape_arg(ip, size)

    def normal(loc=0, scale=1, size=None):
        name, f, r = draw(ip, 'normal', size_arg(size), ('loc', loc, 'scale', scale))
        if isnum(term(loc)) and val(term(loc)) == 0 and isnum(term(scale)) and val(term(scale)) == 1:
            return r
        return binary(ip, 'Add', binary(ip, 'Mult', r, scale), loc)

    def uniform(low=0.0, high=1.0, size=None):
        low, high = ip.resolve(low), ip.resolve(high)
        low = term(low) if is_scalar(low) else low
        high = term(high) if is_scalar(high) else high
        if isinstance(low, Arr) and known_size1(ip, low.shape):
            low = ip.at(low, [ZERO] * len(low.shape))
        if isinstance(high, Arr) and known_size1(ip, high.shape):
            high = ip.at(high, [ZERO] * len(high.shape))
        if not (isinstance(low, T) and isinstance(high, T)):
            raise Unsupported('uniform with array bounds')
        name, f, u = draw(ip, 'uniform', size_arg(size), (low, high))
        if ip.hooks.get('uniform') and is_scalar(u):
            return ip.hooks['uniform'](ip, low, high, u)
        # unit draw 0 <= u < 1
        ip.add_schema(name, lambda a: [((name, a), and_(le(RZERO, a), lt(a, RONE)))])
        if is_scalar(u):
            return norm(add(low, mul(u, sub(high, low))))
        return binary(ip, 'Add', binary(ip, 'Mult', u, sub(high, low)), low)

    def randint(low, high=None, size=None, **k):
        low = term(ip.resolve(low))
        if high is None:
            lo, hi = ZERO, low
        else:
            lo, hi = low, term(ip.resolve(high))
        if isinstance(lo, T) and (lo.s != 'I' or hi.s != 'I'):
            raise PyExc('TypeError')
        if not ip.decide(lt(lo, hi)):
            raise PyExc('ValueError')
        name, f, r = draw(ip, 'randint', size_arg(size), (lo, hi), 'I', 'i')
        ip.add_schema(name, lambda a: [((name, a), and_(le(lo, a), lt(a, hi)))])
        return r

    def seed(s=None):
        ip.st.rng = ('seed', s if not isinstance(s, T) else show(s)) if s is not None else ('fresh', ip.uid())

    def get_state():
        return Opaque('rngstate', ip.st.rng)

    def set_state(s):
        s = ip.resolve(s)
        if not (isinstance(s, Opaque) and s.tag == 'rngstate'):
            raise PyExc('TypeError')
        ip.st.rng = s.info

    def randn(*d):
        return normal(size=tuple(d) if d else None)

    def rand(*d):
        return uniform(size=tuple(d) if d else None)

    def random(size=None):
        return uniform(size=size)

    def choice(a, size=None, replace=True, p=None):
        if p is not None or not is_scalar(ip.resolve(a)):
            raise Unsupported('choice')
        if not replace:
            raise Unsupported('choice without replacement')
        return randint(a, size=size)

    def permutation(n):
        raise Unsupported('permutation')
    for k, v in list(locals().items()):
        if k in ('normal', 'uniform', 'randint', 'seed', 'get_state', 'set_state', 'randn', 'rand', 'random', 'choice', 'permutation'):
            ns[k] = Prim('np.random.' + k, v)
    ns['standard_normal'] = Prim('np.random.standard_normal', lambda size=None: normal(size=size))
    ns['random_sample'] = ns['random']
    return ModVal('numpy.random', ns)


def square_check(ip, a):
    if len(a.shape) != 2:
        raise PyExc('LinAlgError')
    if not ip.decide(eq(a.shape[0], a.shape[1])):
        raise PyExc('LinAlgError')


def linalg_mod(ip):
    ns = {}

    def lstsq(A, b, rcond=None, **k):
        rcond = ip.resolve(rcond)
        if rcond is not None and not (is_scalar(rcond) and isnum(term(rcond))):
            raise Unsupported('lstsq with a computed cut-off')
        cut = rcond is not None and val(term(rcond)) > Fr(1, 10 ** 9)
        A, b = toarr(ip, A), toarr(ip, b)
        if len(A.shape) != 2:
            raise PyExc('LinAlgError')
        if not ip.decide(eq(A.shape[0], b.shape[0])):
            raise PyExc('LinAlgError')
        n = A.shape[1]
        if cut:
            # small singular values are cut off: not a least-squares solution
            LA, Lb = ip.ctx().canon(ip.lamof(A)), ip.ctx().canon(ip.lamof(b))
            x = ip.mk((n,) + b.shape[1:], 'f', lambda i: app('lstsq_cut', (LA, Lb) + tuple(i), 'R'))
            return (x, Opaque('residuals'), Opaque('rank'), Opaque('singular values'))
        hook = ip.hooks.get('lstsq')
        ip.st.events += (('lstsq', ip.frozen(A), ip.frozen(b), tuple(ip.loopvars)),)
        x = None
        if hook is not None:
            x = hook(ip, A, b)
        if x is None:
            LA, Lb = ip.ctx().canon(ip.lamof(A)), ip.ctx().canon(ip.lamof(b))
            x = ip.mk((n,) + b.shape[1:], 'f', lambda i: app('lstsq', (LA, Lb) + tuple(i), 'R'))
        res = Opaque('residuals')
        return (x, res, Opaque('rank'), Opaque('singular values'))
    ns['lstsq'] = Prim('np.linalg.lstsq', lstsq)

    def eigh(C, **k):
        C = toarr(ip, C)
        square_check(ip, C)
        L = ip.ctx().canon(ip.lamof(C))
        n = C.shape[0]
        ip.st.ghost.setdefault('eigh', []).append((L, ip.frozen(C)))
        if ip.hooks.get('eigen'):
            return ip.hooks['eigen'](ip, C, True)
        if ip.hooks.get('eigh'):
            ip.hooks['eigh'](ip, C, L)
        e = ip.mk((n,), 'f', lambda i: app('eigval', (L, i[0]), 'R'))
        V = ip.mk((n, n), 'f', lambda i: app('eigvec', (L, i[0], i[1]), 'R'))
        return (e, V)
    ns['eigh'] = Prim('np.linalg.eigh', eigh)

    def eig(C):
        C = toarr(ip, C)
        square_check(ip, C)
        L = ip.ctx().canon(ip.lamof(C))
        n = C.shape[0]
        ip.st.ghost.setdefault('eig', []).append((L, ip.frozen(C)))
        if ip.hooks.get('eigen'):
            return ip.hooks['eigen'](ip, C, False)
        e = ip.mk((n,), 'f', lambda i: app('geigval', (L, i[0]), 'R'))
        V = ip.mk((n, n), 'f', lambda i: app('geigvec', (L, i[0], i[1]), 'R'))
        return (e, V)
    ns['eig'] = Prim('np.linalg.eig', eig)

    def svd(*a, **k):
        raise Unsupported('svd')
    ns['svd'] = Prim('np.linalg.svd', svd)

    def solve(A, b):
        A, b = toarr(ip, A), toarr(ip, b)
        square_check(ip, A)
        if not ip.decide(eq(A.shape[0], b.shape[0])):
            raise PyExc('ValueError')
        LA, fb, n = ip.ctx().canon(ip.lamof(A)), ip.frozen(b), b.shape[0]

        def sol(i):
            # each column of the right-hand side is a system of its own
            k = fresh('k', 'I')
            col = subst(fb.body, dict(zip(IDX, [k] + [dim(c) for c in i[1:]])))
            return app('solve', (LA, lam([k], [n], col), i[0]), 'R')
        x = ip.mk(b.shape, 'f', sol)
        ip.st.ghost.setdefault('solve', []).append((ip.frozen(A), ip.frozen(b), ip.frozen(x)))
        ip.st.events += (('solve', ip.frozen(A), ip.frozen(b), ip.frozen(x), tuple(ip.loopvars)),)
        return x
    ns['solve'] = Prim('np.linalg.solve', solve)

    def cholesky(A):
        A = toarr(ip, A)
        square_check(ip, A)
        L = ip.ctx().canon(ip.lamof(A))
        ip.st.ghost.setdefault('cholesky', []).append((L, ip.frozen(A)))
        return ip.mk(A.shape, 'f', lambda i: app('chol', (L, i[0], i[1]), 'R'))
    ns['cholesky'] = Prim('np.linalg.cholesky', cholesky)

    def det(A):
        A = toarr(ip, A)
        square_check(ip, A)
        return norm(app('det', (ip.ctx().canon(ip.lamof(A)),), 'R'))
    ns['det'] = Prim('np.linalg.det', det)
    ns['norm'] = Prim('np.linalg.norm', lambda a, ord=None, axis=None, **k: np_norm(ip, a, ord, axis))

    def inv_(A):
        A = toarr(ip, A)
        square_check(ip, A)
        LA = ip.ctx().canon(ip.lamof(A))
        return ip.mk(A.shape, 'f', lambda i: app('matinv', (LA, i[0], i[1]), 'R'))
    ns['inv'] = Prim('np.linalg.inv', inv_)
    ns['LinAlgError'] = Opaque('exctype', 'LinAlgError')
    return ModVal('numpy.linalg', ns)


# -- attributes ------------------------------------------------------------------------------------------------
def arr_attr(ip, o, k):
    if isinstance(o, MArr):
        if k == 'size':
            n = m_count(ip, o)
            for d in o.rest:
                n = mul(n, d)
            return norm(n)
        if k == 'shape':
            if len(o.dims) == 1:
                return arr_attr(ip, materialise(ip, o), 'shape')
            return (norm(m_count(ip, o)),) + tuple(norm(d) for d in o.rest)
        if k in ('sum', 'mean', 'var', 'min', 'max'):
            f = {'sum': np_sum, 'mean': np_mean, 'var': np_var, 'min': np_extreme('amin'), 'max': np_extreme('amax')}[k]
            return Prim(k, lambda axis=None, **kw: f(ip, o, axis, **kw))
        return arr_attr(ip, materialise(ip, o), k)
    if not isinstance(o, Arr):
        # numpy scalar or python number
        if k == 'shape':
            return ()
        if k == 'ndim':
            return 0
        if k == 'size':
            return 1
        if k in ('real', 'T'):
            return o
        if k == 'imag':
            return RZERO
        if k in ('item', 'copy'):
            return Prim(k, lambda: o)
        if k == 'astype':
            return Prim(k, lambda t, **kw: ip.cast(term(o), dt_arg(t)))
        if k == 'reshape':
            return Prim(k, lambda *s, **kw: reshape_o(ip, toarr(ip, o), ip.concrete_items(s[0]) if len(s) == 1 and not is_scalar(ip.resolve(s[0])) else list(s), kw))
        if k in ('is_integer',):
            t = term(o)
            return Prim(k, lambda: norm(eq(t, fn('floor', t))))
        if k == '__call__':
            raise PyExc('AttributeError')
        absent(k, numpy.float64, numpy.int64, float, int)
    if k == 'shape':
        return tuple(norm(d) for d in o.shape)
    if k == 'T':
        return transpose(ip, o)
    if k == 'size':
        return norm(ip.ctx().isimp(size_of(o.shape)))
    if k == 'ndim':
        return len(o.shape)
    if k == 'dtype':
        return Opaque('dtype', {'itemsize': 8, 'kind': o.dtype, 'name': o.dtype})
    if k == 'real':
        return o
    if k == 'flat':
        return reshape(ip, o, [size_of(o.shape)])

    def meth(f):
        return Prim('ndarray.' + k, f)
    if k == 'reshape':
        return meth(lambda *s, **kw: reshape_o(ip, o, ip.concrete_items(s[0]) if len(s) == 1 and not is_scalar(ip.resolve(s[0])) else list(s), kw))
    if k == 'transpose':
        def tr(*axes):
            if not axes or axes[0] is None:
                return transpose(ip, o)
            if len(axes) == 1:
                axes = ip.concrete_items(axes[0])
            return transpose(ip, o, [norm(x) for x in axes])
        return meth(tr)
    if k == 'flatten':
        return meth(lambda order=None: copy(ip, reshape_o(ip, o, [size_of(o.shape)], {}, order)))
    if k == 'ravel':
        return meth(lambda order=None: reshape_o(ip, o, [size_of(o.shape)], {}, order))
    if k == 'squeeze':
        return meth(lambda: _squeeze(ip, o))
    if k == 'copy':
        return meth(lambda *a: copy(ip, o))
    if k == 'astype':
        def astype(t, **kw):
            dt = dt_arg(t)
            fz = ip.frozen(o)
            return ip.mk(o.shape, dt, lambda i: ip.cast(ip.at(fz, i), dt))
        return meth(astype)
    if k == 'dot':
        return meth(lambda b: dot(ip, o, b))
    if k in ('sum', 'mean', 'var', 'std', 'min', 'max', 'argmin', 'argmax', 'argsort', 'prod', 'all', 'any', 'nonzero', 'diagonal', 'cumsum', 'repeat', 'take', 'ptp',
             'swapaxes', 'round', 'clip', 'trace'):
        f = ip.np.ns.get({'diagonal': 'diag'}.get(k, k))
        return meth(lambda *a, **kw: f.f(o, *a, **kw))
    if k == 'item':
        def item(*a):
            if a:
                return getitem(ip, o, tuple(a))
            if not ip.decide(eq(size_of(o.shape), ONE)):
                raise PyExc('ValueError')
            return norm(ip.at(o, [ZERO] * len(o.shape)))
        return meth(item)
    if k == 'tolist':
        def tolist():
            def rec(a):
                items = ip.concrete_items(a)
                if items is None:
                    raise Unsupported('tolist')
                return ip.newlist([rec(x) if isinstance(x, Arr) else x for x in items])
            return rec(o)
        return meth(tolist)
    if k == 'fill':
        def fill(v):
            assign_index(ip, o, Ellipsis, v)
        return meth(fill)
    if k == 'sort':
        def sort(axis=-1):
            fz = ip.frozen(np_sort(ip, o))
            ip.write(o, lambda i: subst(fz.body, dict(zip(IDX, i))))
        return meth(sort)
    if k == 'view':
        def view(*a):
            if not a:
                return o
            raise Unsupported('dtype view')
        return meth(view)
    if k == 'resize' or k == 'itemset':
        raise Unsupported('ndarray.' + k)
    absent(k, numpy.ndarray)


def ufunc_method(ip, o, k):
    name = o.name.split('.')[-1]
    if k == 'outer' and name in ('add', 'subtract', 'multiply', 'divide', 'true_divide', 'maximum', 'minimum', 'equal', 'less', 'less_equal', 'greater',
                                 'greater_equal', 'logical_and', 'logical_or'):
        def outer(a, b):
            a, b = toarr(ip, a), toarr(ip, b)
            return o.f(reshape(ip, a, list(a.shape) + [1] * len(b.shape)), b)
        return Prim(name + '.outer', outer)
    if k == 'reduce' and name in ('add', 'multiply', 'maximum', 'minimum', 'logical_and', 'logical_or'):
        g = ip.np.ns[{'add': 'sum', 'multiply': 'prod', 'maximum': 'amax', 'minimum': 'amin', 'logical_and': 'all', 'logical_or': 'any'}[name]]
        return Prim(name + '.reduce', lambda a, axis=0: g.f(toarr(ip, a), axis))
    raise Unsupported('%s.%s' % (name, k))


def stack_of(ip, kind, key):
    """np.c_[...] of vectors and matrices, np.r_[...] of vectors, matrices and numbers"""
    out = []
    for x in key if isinstance(key, tuple) else (key,):
        x = ip.resolve(x)
        if isinstance(x, (Slice, str)):
            raise Unsupported('range in np.%s_' % kind)
        a = toarr(ip, x)
        n = len(a.shape)
        if n > 2 or kind == 'c' and n == 0:
            raise Unsupported('np.%s_' % kind)
        out.append(reshape(ip, a, [a.shape[0], 1]) if kind == 'c' and n == 1 else reshape(ip, a, [1]) if n == 0 else a)
    return np_concat(ip, tuple(out), 1 if kind == 'c' else 0)


def absent(k, *types):
    """an attribute without a model: missing in Python, or outside the engine"""
    if any(k in c.__dict__ for t in types for c in t.__mro__):
        raise Unsupported('attribute %s of %s' % (k, types[0].__name__))
    raise PyExc('AttributeError', (k,))


def list_attr(ip, o, k):
    def meth(f):
        return Prim('list.' + k, f)
    l = ip.st.lists[o.lid]
    if k == 'append':
        def append(x):
            ip.st.lists[o.lid].append(x)
        return meth(append)
    if k == 'extend':
        def extend(x):
            items = ip.concrete_items(x)
            if items is None:
                raise Unsupported('extend')
            ip.st.lists[o.lid] += items
        return meth(extend)
    if k == 'pop':
        def pop(i=-1):
            return ip.st.lists[o.lid].pop(norm(i))
        return meth(pop)
    if k == 'insert':
        def insert(i, x):
            ip.st.lists[o.lid].insert(norm(i), x)
        return meth(insert)
    if k == 'index' or k == 'count':
        raise Unsupported('list.' + k)
    if k == 'reverse':
        def reverse():
            ip.st.lists[o.lid].reverse()
        return meth(reverse)
    absent(k, list)


def dict_attr(ip, o, k):
    d = ip.st.dicts[o.info]
    if k == 'get':
        return Prim('dict.get', lambda x, default=None: d.get(x, default))
    if k == 'keys':
        return Prim('dict.keys', lambda: ip.newlist(list(d.keys())))
    if k == 'items' or k == 'iteritems':
        return Prim('dict.items', lambda: ip.newlist([(a, b) for a, b in d.items()]))
    if k == 'values':
        return Prim('dict.values', lambda: ip.newlist(list(d.values())))
    if k == 'update':
        def update(x=None, **kw):
            if x is not None:
                ip.st.dicts[o.info].update(ip.st.dicts[ip.resolve(x).info])
            ip.st.dicts[o.info].update(kw)
        return Prim('dict.update', update)
    if k == 'copy':
        def cp():
            did = ip.uid()
            ip.st.dicts[did] = dict(d)
            return Opaque('dict', did)
        return Prim('dict.copy', cp)
    absent(k, dict)


# -- builtins --------------------------------------------------------------------------------------------------
def builtins(ip):
    ns = {}

    def reg(name, f):
        ns[name] = Prim(name, f)

    def len_(x):
        x = ip.resolve(x)
        if isinstance(x, Arr):
            if not x.shape:
                raise PyExc('TypeError')
            return norm(x.shape[0])
        if isinstance(x, MArr):
            return norm(m_count(ip, x))
        if isinstance(x, (str, tuple)):
            return len(x)
        if isinstance(x, PyList):
            l = ip.st.lists[x.lid]
            n = ZERO
            for y in l:
                n = add(n, y.n if isinstance(y, SymSeq) else ONE)
            return norm(n)
        if isinstance(x, Opaque) and x.tag == 'dict':
            return len(ip.st.dicts[x.info])
        if isinstance(x, Opaque) and x.tag == 'range':
            return norm(ip.len_items(x)[0])
        if isinstance(x, Rec) and 'len' in x.attrs:
            return x.attrs['len']
        raise PyExc('TypeError', ('len',))
    reg('len', len_)

    def range_(*a):
        a = [ip.resolve(x) for x in a]
        a2 = []
        for x in a:
            if isinstance(x, Arr) and known_size1(ip, x.shape):
                x = norm(ip.at(x, [ZERO] * len(x.shape)))
            if isinstance(x, T) and x.k == 'app' and x.a[0] == 'float':
                raise PyExc('TypeError', ('range of a float',))
            if not is_scalar(x) or term(x).s != 'I':
                raise PyExc('TypeError', ('range',))
            a2.append(norm(ip.ctx().isimp(term(x))))
        a = a2
        lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
        return Opaque('range', (lo, hi, st))
    reg('range', range_)
    reg('xrange', range_)

    def isinst(x, t):
        x = ip.resolve(x)
        ts = ip.resolve(t)
        if isinstance(ts, tuple):
            return any(isinst(x, y) for y in ts)
        if isinstance(ts, ClassVal):
            return isinstance(x, Obj) and ts in x.cls.mro()
        if isinstance(ts, Prim):
            name = ts.name
        elif isinstance(ts, Opaque) and ts.tag in ('pytype',):
            name = ts.info[0]
        elif isinstance(ts, Opaque) and ts.tag == 'exctype':
            return isinstance(x, Opaque) and x.tag == 'exc' and exc_is(x.info[0], ts.info)
        else:
            raise Unsupported('isinstance with %r' % (ts,))
        if isinstance(x, Opaque) and x.tag == 'typed':
            return name in x.info
        if name == 'int':
            return (isinstance(x, (int, bool)) or isinstance(x, T) and x.s in 'IB')
        if name == 'bool':
            return isinstance(x, bool) or isinstance(x, T) and x.s == 'B'
        if name == 'float':
            return isinstance(x, (float, Fr)) or isinstance(x, T) and x.s == 'R'
        if name == 'list':
            return isinstance(x, PyList)
        if name == 'tuple':
            return isinstance(x, tuple)
        if name == 'str':
            return isinstance(x, str)
        if name == 'dict':
            return isinstance(x, Opaque) and x.tag == 'dict'
        if name == 'ndarray':
            return isinstance(x, (Arr, MArr))
        if name == 'matrix':
            return False
        if name == 'object':
            return True
        raise Unsupported('isinstance with %s' % name)
    reg('isinstance', isinst)

    def type_(x):
        x = ip.resolve(x)
        if isinstance(x, Obj):
            return x.cls
        for n in ('bool', 'int', 'float', 'list', 'tuple', 'str', 'dict'):
            if isinst(x, ns[n]):
                return ns[n]
        if isinstance(x, Arr):
            return ip.np.ns['ndarray']
        raise Unsupported('type of %r' % (x,))
    reg('type', type_)
    ns['int'] = Opaque('pytype', ('int', lambda x=0: to_int(ip, x)))
    ns['long'] = ns['int']
    ns['float'] = Opaque('pytype', ('float', lambda x=0: to_float(ip, x)))
    ns['bool'] = Opaque('pytype', ('bool', lambda x=False: norm(term(ip.truthv(x)))))
    ns['str'] = Opaque('pytype', ('str', lambda x='': 'text'))
    ns['unicode'] = ns['str']
    ns['object'] = Opaque('pytype', ('object', None))

    def list_(x=()):
        items = ip.concrete_items(x)
        if items is None:
            return ip.newlist([any_item(ip, x)])
        return ip.newlist(items)
    ns['list'] = Opaque('pytype', ('list', list_))

    def tuple_(x=()):
        items = ip.concrete_items(x)
        if items is None:
            raise Unsupported('tuple of a symbolic sequence')
        return tuple(items)
    ns['tuple'] = Opaque('pytype', ('tuple', tuple_))

    def dict_(x=None, **kw):
        did = ip.uid()
        ip.st.dicts[did] = dict(kw)
        if x is not None:
            ip.st.dicts[did] = dict(ip.st.dicts[ip.resolve(x).info], **kw)
        return Opaque('dict', did)
    ns['dict'] = Opaque('pytype', ('dict', dict_))

    def abs_(x):
        x = ip.resolve(x)
        if isinstance(x, int) and not isinstance(x, T):
            return abs(x)
        return emap(ip, lambda y: fn('abs', y), [x], prom(dtype_of(x), 'i'))
    reg('abs', abs_)

    def minmax(kind):
        def f(*a, **k):
            refuse_keywords(kind, k)
            if len(a) == 1:
                x = ip.resolve(a[0])
                items = ip.concrete_items(x)
                if items is None:
                    return np_extreme('amin' if kind == 'min2' else 'amax')(ip, x)
                a = items
            a = [ip.resolve(x) for x in a]
            if not a:
                raise PyExc('ValueError')
            a = [norm(ip.at(x, [ZERO] * len(x.shape))) if isinstance(x, Arr) and known_size1(ip, x.shape) else x for x in a]
            if not all(is_scalar(x) for x in a):
                raise Unsupported('min/max of arrays')
            acc = term(a[0])
            for x in a[1:]:
                acc = fn(kind, acc, term(x))
            return norm(acc)
        return f
    reg('min', minmax('min2'))
    reg('max', minmax('max2'))

    def sum_(x, start=0):
        items = ip.concrete_items(x)
        if items is None:
            n, f = ip.sym_items(x)
            k = fresh('s', 'I')
            pc = ip.st.pc
            ip.st.pc = pc + (le(ZERO, k), lt(k, n))
            v = ip.resolve(f(k))
            ip.st.pc = pc
            if is_scalar(v):
                return norm(add(term(start), tsum(k, ZERO, n, term(v))))
            if isinstance(v, Arr):
                fz = ip.frozen(v)
                r = ip.mk(fz.shape, fz.dtype, lambda i: tsum(k, ZERO, n, subst(fz.body, dict(zip(IDX, i)))))
                return ip.binop('Add', r, start)
            raise Unsupported('sum')
        acc = start
        for y in items:
            acc = ip.binop('Add', acc, y)
        return acc
    reg('sum', sum_)

    def all_(x):
        items = ip.concrete_items(x)
        if items is None:
            return np_all(ip, toarr(ip, x))
        return norm(and_(*[term(ip.truthv(y)) for y in items]))
    reg('all', all_)

    def any_(x):
        items = ip.concrete_items(x)
        if items is None:
            return np_any(ip, toarr(ip, x))
        return norm(or_(*[term(ip.truthv(y)) for y in items]))
    reg('any', any_)
    reg('zip', lambda *a: Opaque('zip', a))
    reg('enumerate', lambda a, start=0: Opaque('enumerate', (a, start)))
    reg('reversed', lambda a: Opaque('reversed', a))

    def map_(f, *its):
        items = [ip.concrete_items(x) for x in its]
        if any(i is None for i in items):
            n, g = ip.sym_items(its[0])
            raise Unsupported('map over a symbolic sequence')
        return ip.newlist([ip.call(f, list(r)) for r in zip(*items)])
    reg('map', map_)

    def sorted_(x, **k):
        items = ip.concrete_items(x)
        if items is not None and all(isinstance(norm(y), int) for y in items) and not k:
            return ip.newlist(sorted(norm(y) for y in items))
        raise Unsupported('sorted')
    reg('sorted', sorted_)

    def hasattr_(o, k):
        try:
            if isinstance(ip.resolve(o), (Closure, SymFun, Bound, Prim, ClassVal)) and k == '__call__':
                return True
            if isinstance(ip.resolve(o), Opaque) and ip.resolve(o).tag == 'typed':
                return False
            if isinstance(ip.resolve(o), Obj) and k == '__call__':
                try:
                    ip.resolve(o).cls.lookup('__call__')
                    return True
                except KeyError:
                    return False
            ip.attr(o, k)
            return True
        except PyExc as e:
            if e.name == 'AttributeError':
                return False
            raise
    reg('hasattr', hasattr_)

    def callable_(o):
        return hasattr_(o, '__call__')
    reg('callable', callable_)

    def getattr_(o, k, *d):
        try:
            return ip.attr(o, k)
        except PyExc as e:
            if e.name == 'AttributeError' and d:
                return d[0]
            raise
    reg('getattr', getattr_)

    def divmod_(a, b):
        a, b = ip.resolve(a), ip.resolve(b)
        return (binary(ip, 'FloorDiv', a, b), binary(ip, 'Mod', a, b))
    reg('divmod', divmod_)

    def setattr_(o, k, v):
        o = ip.resolve(o)
        if not isinstance(o, Obj) or not isinstance(k, str):
            raise Unsupported('setattr')
        ip.st.objs[o.oid][k] = v
    reg('setattr', setattr_)
    reg('print', lambda *a, **k: None)
    def round_(x, ndigits=0):
        if norm(ip.resolve(ndigits)) not in (0, None):
            raise Unsupported('rounding to digits')
        return norm(real(app('round', (term(x),), 'I'))) if term(ip.resolve(x)).s == 'R' else x
    reg('round', round_)
    reg('pow', lambda a, b: ip.binop('Pow', a, b))
    reg('id', lambda a: (_ for _ in ()).throw(Unsupported('id')))
    reg('__py2_div__', lambda l, r, inplace=False: py2div(ip, l, r, inplace))
    reg('repr', lambda x: 'text')

    def super_(*a):
        raise Unsupported('super')
    reg('super', super_)

    class _Super(object):
        pass
    for n in EXC:
        ns[n] = Opaque('exctype', n)
    ns['BaseException'] = Opaque('exctype', 'Exception')
    ns['None'], ns['True'], ns['False'] = None, True, False
    ns['NotImplemented'] = Opaque('NotImplemented')
    ns['__name__'] = 'module'
    return ns


# -- other libraries -------------------------------------------------------------------------------------------
def external(ip, name):
    top = ip.hooks.get('external:' + name)
    if top is not None:
        return top(ip)
    if name == 'numpy':
        return ip.np
    if name.startswith('numpy.'):
        m = ip.np
        for p in name.split('.')[1:]:
            m = m.ns[p]
        return m
    if name in ('scipy', 'scipy.optimize', 'scipy.spatial', 'scipy.misc', 'scipy.special'):
        from . import scipym
        return scipym.module(ip, name)
    if name == 'math':
        g = ip.np.ns
        return ModVal('math', {k: g[k] for k in ('sqrt', 'exp', 'log', 'floor', 'ceil', 'sin', 'cos', 'fabs')} | {'pi': g['pi'],
                      'factorial': Prim('factorial', lambda n: _fact(ip, n))})
    if name in ('time', 'os', 'sys', 'warnings', 'logging', 'copy', 'itertools', 'functools'):
        ns = {}
        if name == 'itertools':
            def product(*its, **k):
                import itertools
                items = [ip.concrete_items(x) for x in its]
                if any(i is None for i in items):
                    raise Unsupported('product')
                return ip.newlist([tuple(x) for x in itertools.product(*items, repeat=norm(k.get('repeat', 1)))])
            ns['product'] = Prim('product', product)
        if name == 'warnings':
            ns['warn'] = Prim('warn', lambda *a, **k: None)
        if name == 'copy':
            ns['copy'] = Prim('copy', lambda x: copy(ip, x) if isinstance(x, Arr) else _nocopy(x))
            ns['deepcopy'] = ns['copy']
        return ModVal(name, ns)
    if name == 'gurobipy':
        raise PyExc('ImportError')
    if name == '__future__':
        return ModVal(name)
    if name.startswith('active_subspaces'):
        sub_ = name[len('active_subspaces'):].lstrip('.')
        if not sub_:
            return ModVal('active_subspaces', _Lazy(ip))
        return ip.module(sub_)
    if name.startswith('matplotlib') or name.startswith('pandas') or name == 'pylab':
        return ModVal(name)
    raise PyExc('ImportError', (name,))


class _Lazy(dict):
    def __init__(self, ip, prefix=''):
        self.ip, self.prefix = ip, prefix

    def __contains__(self, k):
        return True

    def __getitem__(self, k):
        from .interp import PKG
        full = self.prefix + k
        if os.path.isdir(os.path.join(PKG, *full.split('.'))):
            return ModVal(full, _Lazy(self.ip, full + '.'))
        return self.ip.module(full)


def _nocopy(x):
    raise Unsupported('copy of %r' % (x,))


def _fact(ip, n):
    n = norm(ip.resolve(n))
    if isinstance(n, int):
        import math
        return math.factorial(n)
    return app('factorial', (term(n),), 'I')
