"""Loops with a symbolic number of iterations.

One symbolic iteration k is executed.  Every location the body modifies (scalar variable or attribute, array cell,
list) first gets a placeholder h(k, index): its value when iteration k starts.  From the value at the end of the
iteration the closed form of h is derived where it has one (element-wise writes, sums, products, last values,
appended sequences); this is exact, no invariant is needed.  For a location without a closed form h stays
uninterpreted, and the candidates of the contract (ip.templates) that hold initially and are preserved by the
iteration (checked, Houdini) are its invariants.
"""
from .values import *          # noqa: F401,F403
import ast
import os
from . import terms as TT

DEBUG = os.environ.get('VERIF_DEBUG')


class Loc(object):
    def __init__(self, key, kind, init):
        self.key, self.kind, self.init = key, kind, init
        self.h = None           # name of the placeholder function
        self.sort = None
        self.cf = None          # closed form: f(t, idx) -> term   (value at the start of iteration t)
        self.last = None        # value at the end of iteration k when it is not a term/array (substituted at T-1)
        self.shape = None
        self.dtype = None
        self.step = None
        self.items = None       # appended items (lists)
        self.flex = None        # arrays whose shape changes: per axis a fixed size or the name of a size function
        self.lv = ()
        self.base_items = None


def same(a, b):
    if a is b:
        return True
    if isinstance(a, T) or isinstance(b, T):
        return is_scalar(a) and is_scalar(b) and term(a) is term(b)
    if isinstance(a, (int, float, bool, str)) and type(a) is type(b):
        return a == b
    if isinstance(a, Arr) and isinstance(b, Arr):
        return a.cell == b.cell and a.rd is b.rd and a.shape == b.shape and a.dtype == b.dtype
    if isinstance(a, Obj) and isinstance(b, Obj):
        return a.oid == b.oid
    if isinstance(a, PyList) and isinstance(b, PyList):
        return a.lid == b.lid
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, Opaque) and isinstance(b, Opaque):
        return a.tag == b.tag and a.info == b.info
    if isinstance(a, Poison) and isinstance(b, Poison):
        return True
    return False


def diff(base, end):
    """locations of base that differ in end"""
    out = []
    for fid, d in base.frames.items():
        e = end.frames[fid]
        for x in e:
            if x not in d or not same(d[x], e[x]):
                out.append(('name', fid, x))
        for x in d:
            if x not in e:
                raise Unsupported('name deleted in a loop')
    for oid, d in base.objs.items():
        e = end.objs[oid]
        for x in e:
            if x not in d or not same(d[x], e[x]):
                out.append(('attr', oid, x))
    for cid, c in base.heap.items():
        if end.heap[cid][2] is not c[2]:
            out.append(('cell', cid))
    for lid, l in base.lists.items():
        e = end.lists[lid]
        if len(l) != len(e) or not all(same(x, y) for x, y in zip(l, e)):
            out.append(('list', lid))
    for did, d in base.dicts.items():
        e = end.dicts[did]
        if set(d) != set(e) or not all(same(d[x], e[x]) for x in d):
            raise Unsupported('dict modified in a symbolic loop')
    return out


def getloc(st, key):
    if key[0] == 'name':
        return st.frames[key[1]].get(key[2], Poison('unbound'))
    if key[0] == 'attr':
        return st.objs[key[1]].get(key[2], Poison('unbound'))
    if key[0] == 'cell':
        return st.heap[key[1]]
    return st.lists[key[1]]


def setloc(st, key, v):
    if key[0] == 'name':
        st.frames[key[1]][key[2]] = v
    elif key[0] == 'attr':
        st.objs[key[1]][key[2]] = v
    elif key[0] == 'cell':
        st.heap[key[1]] = v
    else:
        st.lists[key[1]] = v


def map_value(ip, v, g):
    """apply g to every term inside a value (arrays become fresh copies)"""
    if isinstance(v, T):
        return norm(g(v))
    if v is None or isinstance(v, (bool, int, float, str)):
        return v
    if isinstance(v, tuple):
        return tuple(map_value(ip, x, g) for x in v)
    if isinstance(v, list):
        return [map_value(ip, x, g) for x in v]
    if isinstance(v, Frozen):
        return Frozen([g(s) for s in v.shape], v.dtype, g(v.body))
    if isinstance(v, SymSeq):
        return SymSeq(g(v.n), v.var, map_value(ip, v.value, g))
    if isinstance(v, Rec):
        return Rec(v.name, {k: map_value(ip, x, g) for k, x in v.attrs.items()})
    if isinstance(v, Phi):
        return Phi(g(v.c), map_value(ip, v.a, g), map_value(ip, v.b, g))
    if isinstance(v, Arr):
        f = ip.frozen(v)
        return ip.thaw(Frozen([g(s) for s in f.shape], f.dtype, g(f.body)))
    if isinstance(v, Slice):
        return Slice(map_value(ip, v.lo, g), map_value(ip, v.hi, g), map_value(ip, v.step, g))
    return v


def mentions(v, pred):
    """does a (frozen) value contain a term with pred"""
    if isinstance(v, T):
        return contains(v, pred)
    if isinstance(v, (tuple, list)):
        return any(mentions(x, pred) for x in v)
    if isinstance(v, Frozen):
        return any(contains(s, pred) for s in v.shape) or contains(v.body, pred)
    if isinstance(v, SymSeq):
        return contains(v.n, pred) or mentions(v.value, pred)
    if isinstance(v, Phi):
        return contains(v.c, pred) or mentions(v.a, pred) or mentions(v.b, pred)
    if isinstance(v, Rec):
        return any(mentions(x, pred) for x in v.attrs.values())
    if isinstance(v, Poison):
        return False
    return False


def isapp(name):
    return lambda t: t.k == 'app' and t.a[0] == name


def cases_of(e):
    """nested ite as a list of (condition, value), the conditions exclusive"""
    out = []

    def go(t, c):
        while t.k == 'app' and t.a[0] == 'opq':
            t = t.a[1][0]
        if t.k == 'ite':
            go(t.a[1], and_(c, t.a[0]))
            go(t.a[2], and_(c, not_(t.a[0])))
        elif c is not FALSE:
            out.append((c, t))
    go(e, TRUE)
    return out


def cases_bool(e):
    return None


def conj(c):
    return list(c.a) if c.k == 'and' else [c]


def solve_k(ctx, cond, k, scope=()):
    """(term, remaining condition) with cond => k = term, term free of k; or None"""
    lits = conj(cond)
    for l in lits:
        if l.k == 'eq' and l.a[0].s == 'I' and l.a[1].s == 'I':
            d = sub(l.a[0], l.a[1])
            c, items = TT._terms(d)
            ck = items.get(k)
            if ck in (1, -1) and not any(k in fv(t) for t in items if t is not k):
                rest = sub(d, mul(num(ck, 'I'), k))
                return mul(num(-ck, 'I'), rest)
    # k*N <= e < k*N + N
    lows, highs = [], []
    for l in lits:
        if l.k == 'le' and l.a[0].s == 'I' and l.a[1].s == 'I' and k in fv(l):
            d = sub(l.a[1], l.a[0])
            c, items = TT._terms(d)
            kp = [(t, x) for t, x in items.items() if k in fv(t)]
            kpart = TT._from_terms(Fr(0), dict(kp), 'I')
            rest = sub(d, kpart)
            lows.append((kpart, rest))
    for kp, rest in lows:
        for kp2, rest2 in lows:
            if add(kp, kp2) is ZERO:
                # kp + rest >= 0, kp2 + rest2 >= 0 with kp = -N k
                N = subst(neg(kp), {k: ONE})
                if isnum(N) and val(N) <= 0:
                    continue
                if subst(kp, {k: ZERO}) is not ZERO:
                    continue
                # -N k + e >= 0,  N k + e2 >= 0 with e + e2 = N - 1
                if ctx.isimp(sub(add(rest, rest2), sub(N, ONE))) is ZERO and ctx.entails(le(ONE, N), tuple(scope)):
                    return fdiv(rest, N)
    return None


def shape_at(l, t):
    if l.flex is None:
        return l.shape
    return tuple(app(d, l.lv + (t,), 'I') if isinstance(d, str) else d for d in l.flex)


class LoopRun(object):
    def __init__(self, ip, n, first, body):
        self.ip, self.n, self.first, self.body = ip, n, first, body


def for_loop(ip, n, item, s, fr):
    n = ip.ctx().isimp(dim(n))
    if ip.ent(le(n, ZERO)):
        return

    def thunk(k):
        ip.assign(s.target, item(k), fr)
        try:
            ip.block(s.body, fr)
        except ContinueSig:
            pass
    run(ip, n, thunk)


def while_loop(ip, s, fr, count=None):
    n = None
    if count is not None:
        n, counter, value = count
        n = ip.ctx().isimp(n)
        if ip.ent(le(n, ZERO)):
            return

    def thunk(k):
        if n is not None:
            ip.assign(ast.Name(counter.id, ast.Store()), value(k), fr)
        elif not ip.truth(ip.ev(s.test, fr)):
            raise BreakSig()
        try:
            ip.block(s.body, fr)
        except ContinueSig:
            pass
    run(ip, n, thunk)


def run(ip, n, thunk):
    base = ip.st.snap()
    lv = tuple(ip.loopvars)
    k = fresh('k', 'I')
    locs = {}
    for attempt in range(8):
        res, end, abn = one(ip, base, locs, n, k, thunk, ())
        new = [key for key in changed(ip, base, locs, end, abn) if key not in locs]
        if not new:
            break
        for key in new:
            locs[key] = make_loc(ip, base, key, end, abn, lv, k)
    else:
        raise Unsupported('modified locations of a loop do not settle')
    solve(ip, base, locs, n, k, end)
    general = [l for l in locs.values() if l.kind in ('scalar', 'arr', 'cell') and l.cf is None and l.last is None]
    invs = []
    if general and ip.templates:
        o = ip.oracles[-1] if ip.oracles else None
        n0 = o.nested if o else 0
        invs, res, end, abn = houdini(ip, base, locs, n, k, thunk, general)
        if end is not None:
            for l in locs.values():
                l.cf = None
            solve(ip, base, locs, n, k, end)
        if o:
            o.nested = n0 + 1           # the same on every replay, however many rounds were needed
    finish(ip, base, locs, n, k, lv, end, abn, general, invs)


def one(ip, base, locs, n, k, thunk, facts):
    """execute one iteration from the placeholder state: (start, merged end state or None, abnormal paths)"""
    ip.st.load(base)
    for l in locs.values():
        put_placeholder(ip, l, k)
    ip.assume(le(ZERO, k))
    if n is not None:
        ip.assume(lt(k, n))
    ip.assume(*facts)
    ip.st.den = ()
    ip.st.events = ()
    start = ip.st.snap()
    ip.loopvars.append(k)
    try:
        res = ip.paths(lambda: thunk(k))
    finally:
        ip.loopvars.pop()
    ok = [r for r in res if r[1] == 'ok']
    abn = [r for r in res if r[1] != 'ok']
    end = None
    if ok:
        ip.st.load(start)
        if len(ok) == 1 and not ok[0][0]:
            ip.st.load(ok[0][3])
        else:
            ip.merge_states(start, ok)
        end = ip.st.snap()
    return start, end, abn


def changed(ip, base, locs, end, abn):
    """locations modified relative to the placeholder state"""
    out = []
    ip.st.load(base)
    states = ([end] if end is not None else []) + [a[3] for a in abn]
    for e in states:
        for key in diff(base, e):
            if key not in locs and key not in out:
                out.append(key)
    return out


def make_loc(ip, base, key, end, abn, lv, k):
    init = getloc(base, key)
    states = ([end] if end is not None else []) + [a[3] for a in abn]
    ev = getloc(states[0], key)
    l = Loc(key, 'other', init)
    if key[0] == 'cell':
        l.kind, l.shape, l.dtype = 'cell', init[0], init[1]
        if any(getloc(s, key)[1] != init[1] or getloc(s, key)[0] != init[0] for s in states):
            raise Unsupported('cell changes shape')
        l.sort = {'f': 'R', 'i': 'I', 'b': 'B'}[l.dtype]
    elif key[0] == 'list':
        l.kind = 'list'
        l.base_items = list(init)
    elif is_scalar(init) and all(is_scalar(getloc(s, key)) for s in states):
        ts = [term(init)] + [term(getloc(s, key)) for s in states]
        ss = set(t.s for t in ts)
        if 'B' in ss and len(ss) > 1:
            l.kind = 'other'
        else:
            l.kind, l.sort, l.shape = 'scalar', 'R' if 'R' in ss else ts[0].s, ()
    elif isinstance(init, Arr) and isinstance(ev, Arr) and len(init.shape) == len(ev.shape) and \
            all(isinstance(getloc(s, key), Arr) for s in states):
        okshape = not any(k in fv(d) for d in ev.shape) and all(
            a is b or ctx_eq(ip, base, a, b) for a, b in zip(init.shape, ev.shape))
        if okshape:
            l.kind, l.shape = 'arr', init.shape
            l.dtype = init.dtype if all(getloc(s, key).dtype == init.dtype for s in states) else 'f'
            l.sort = {'f': 'R', 'i': 'I', 'b': 'B'}[l.dtype]
            l.init = (init.shape, init.dtype, ip_frozen(ip, init, base).body)
        elif all(getloc(s, key).dtype == init.dtype and len(getloc(s, key).shape) == len(init.shape) for s in states):
            l.kind, l.dtype = 'arr', init.dtype
            l.sort = {'f': 'R', 'i': 'I', 'b': 'B'}[l.dtype]
            l.flex = [init.shape[a] if not any(k in fv(getloc(s, key).shape[a]) for s in states) and
                      all(init.shape[a] is getloc(s, key).shape[a] or ctx_eq(ip, base, init.shape[a], getloc(s, key).shape[a]) for s in states)
                      else fresh_name('hd') for a in range(len(init.shape))]
            l.init = (init.shape, init.dtype, ip_frozen(ip, init, base).body)
            l.lv = lv
            l.shape = shape_at(l, k)
    if l.kind in ('scalar', 'arr', 'cell'):
        l.h = fresh_name('h')
        l.lv = lv
    return l


def ctx_eq(ip, base, a, b):
    pc = ip.st.pc
    ip.st.pc = base.pc
    try:
        return ip.ent(eq(a, b))
    finally:
        ip.st.pc = pc


def ip_frozen(ip, a, st):
    return ip.frozen(a, st)


def put_placeholder(ip, l, k):
    if l.kind == 'scalar':
        setloc(ip.st, l.key, app(l.h, l.lv + (k,), l.sort))
    elif l.kind == 'arr':
        body = app(l.h, l.lv + (k,) + tuple(IDX[:len(l.shape)]), l.sort)
        sh = shape_at(l, k)
        if l.flex is not None:
            ip.assume(*[le(ZERO, d) for d in sh])
        setloc(ip.st, l.key, ip.thaw(Frozen(sh, l.dtype, body)))
    elif l.kind == 'cell':
        body = app(l.h, l.lv + (k,) + tuple(IDX[:len(l.shape)]), l.sort)
        setloc(ip.st, l.key, (l.shape, l.dtype, body))
    elif l.kind == 'list':
        setloc(ip.st, l.key, list(l.base_items) + [SymSeq(None, fresh('q', 'I'), Poison('list read while it grows'))])
    else:
        setloc(ip.st, l.key, Poison('unbound') if isinstance(l.init, Poison) else Poison('loop-carried %s' % (l.key,)))


def end_term(ip, l, end):
    v = getloc(end, l.key)
    if l.kind == 'scalar':
        return term(v)
    if l.kind == 'cell':
        return v[2]
    return ip.frozen(v, end).body


def init_term(l, idx):
    if l.kind == 'scalar':
        return term(l.init)
    return subst(l.init[2], dict(zip(IDX, idx)))


def solve(ip, base, locs, n, k, end):
    if end is None:
        return
    ip.st.load(base)
    ip.assume(le(ZERO, k))
    if n is not None:
        ip.assume(lt(k, n))
    ctx = ip.ctx()
    hs = {l.h: l for l in locs.values() if l.h}
    todo = [l for l in locs.values()]
    progress = True
    while progress:
        progress = False
        for l in list(todo):
            if l.kind == 'list':
                e = getloc(end, l.key)
                nb = len(l.base_items)
                if len(e) < nb + 1 or not all(same(x, y) for x, y in zip(l.base_items, e)) or not isinstance(e[nb], SymSeq) \
                        or e[nb].n is not None:
                    raise Unsupported('list modified in a loop other than by appending')
                l.items = [ip_freeze(ip, x, end) for x in e[nb + 1:]]
                todo.remove(l)
                progress = True
                continue
            if l.kind == 'other':
                l.last = (getloc(end, l.key),)
                todo.remove(l)
                progress = True
                continue
            e = end_term(ip, l, end)
            # replace what is already solved
            e = resolve_closed(e, hs)
            mine = apps_named(e, {l.h})
            others = [a for nme in hs if nme != l.h and hs[nme].cf is None for a in apps_named(e, {nme})]
            if others:
                continue
            if l.flex is not None:
                continue
            cf = closed(ip, ctx, l, e, k, n, mine)
            if cf is not None:
                l.cf = cf
                l.step = e
                todo.remove(l)
                progress = True
    for l in todo:
        l.step = end_term(ip, l, end)


def resolve_closed(t, hs, skip=()):
    """replace the placeholders that have a closed form"""
    for _ in range(8):
        names = [nme for nme, l in hs.items() if l.cf is not None and nme not in skip]
        hit = False
        for nme in names:
            if contains(t, isapp(nme)):
                l = hs[nme]
                nl = len(l.lv)
                t = replace_app(t, nme, lambda args: l.cf(args[nl], list(args[nl + 1:])))
                hit = True
        if not hit:
            return t
    raise Unsupported('cyclic closed forms')


def ip_freeze(ip, v, st):
    if isinstance(v, Arr):
        return ip.frozen(v, st)
    if isinstance(v, tuple):
        return tuple(ip_freeze(ip, x, st) for x in v)
    if isinstance(v, PyList):
        return tuple(ip_freeze(ip, x, st) for x in st.lists[v.lid])
    return v


def closed(ip, ctx, l, e, k, n, mine):
    idx = list(IDX[:len(l.shape)])
    self_app = app(l.h, l.lv + (k,) + tuple(idx), l.sort)

    def at(t, kk, ii):
        return subst(t, dict([(k, kk)] + list(zip(IDX, ii))))
    if not mine:
        # overwritten completely in every iteration: the value of the iteration before
        def cf(t, ii):
            return ite(lt(ZERO, t), at(e, sub(t, ONE), ii), init_term(l, ii)) if l.sort != 'B' else \
                or_(and_(lt(ZERO, t), at(e, sub(t, ONE), ii)), and_(not_(lt(ZERO, t)), init_term(l, ii)))
        return cf
    if l.sort == 'B':
        return closed_bool(ip, ctx, l, e, k, n, self_app)
    cs = cases_of(e)
    if all(only_self(v, l.h, self_app) for c, v in cs) and all(not contains(c, isapp(l.h)) for c, v in cs):
        keep = [(c, v) for c, v in cs if v is not self_app]
        # sums
        incs = []
        for c, v in keep:
            d = sub(v, self_app)
            if contains(d, isapp(l.h)):
                d2 = ctx.canon_real(d) if l.sort == 'R' else ctx.isimp(d)
                if contains(d2, isapp(l.h)):
                    incs = None
                    break
                d = d2
            incs.append((c, d))
        if incs and not (l.sort == 'R' and ip.hooks.get('no_sums')):
            g = num(0, l.sort)
            for c, d in incs:
                g = ite(c, d, g)

            def cf(t, ii):
                j = fresh('j', 'I')
                return add(init_term(l, ii), tsum(j, ZERO, t, at(g, j, ii)))
            if l.kind == 'scalar' and isnum(g):
                return lambda t, ii: add(init_term(l, ii), mul(g, t))
            return cf
        # every element is written in one iteration at most
        if len(l.shape) and keep:
            cf = closed_writes(ip, ctx, l, cs, k, n, self_app)
            if cf is not None:
                return cf
        # products
        facs = []
        for c, v in keep:
            f = div(v, self_app) if l.sort == 'R' else None
            if f is None:
                facs = None
                break
            if contains(f, isapp(l.h)):
                facs = None
                break
            facs.append((c, f))
        if facs:
            g = RONE
            for c, d in facs:
                g = ite(c, d, g)

            def cf(t, ii):
                j = fresh('j', 'I')
                return mul(init_term(l, ii), tprod(j, ZERO, t, at(g, j, ii)))
            return cf
    # element-wise writes
    return closed_writes(ip, ctx, l, cs, k, n, self_app)


def only_self(v, h, self_app):
    return all(a is self_app for a in apps_named(v, {h}))


def closed_bool(ip, ctx, l, e, k, n, self_app):
    """body (c & new) | (not c & h) of a boolean array"""
    # write(): or_(and_(cond, new), and_(not_(cond), body))
    if e.k == 'or':
        parts = list(e.a)
        keep = [p for p in parts if contains(p, isapp(l.h))]
        new = [p for p in parts if not contains(p, isapp(l.h))]
        if len(keep) == 1 and keep[0].k == 'and' and self_app in keep[0].a:
            notc = and_(*[x for x in keep[0].a if x is not self_app])
            c = not_(notc)
            if contains(c, isapp(l.h)):
                return None
            kk = solve_k(ctx, c, k)
            if kk is None:
                return None
            v = or_(*new)

            def cf(t, ii):
                m = dict(zip(IDX, ii))
                k2 = subst(kk, m)
                cc = and_(le(ZERO, k2), lt(k2, t), subst(subst(c, {k: kk}), m))
                return or_(and_(cc, subst(subst(v, {k: kk}), m)), and_(not_(cc), init_term(l, ii)))
            return cf
    return None


def closed_writes(ip, ctx, l, cs, k, n, self_app):
    pieces, guards = [], []
    for c, v in cs:
        if v is self_app:
            continue
        hit = []
        for part in dnf_parts(c):
            if part is FALSE or ctx.entails(FALSE, (part,)):
                continue
            # the part of the condition that does not read the array itself already fixes the iteration
            outer = and_(*[x for x in conj(part) if not contains(x, isapp(l.h))])
            kk = solve_k(ctx, outer, k, ())
            if kk is None:
                return None
            hit.append((part, outer, kk))
        for part, outer, kk in hit:
            pieces.append((part, kk, v))
            guards.append((outer, kk, v))
    if not pieces:
        return None
    for i, (c, kk, v) in enumerate(pieces):
        if contains(c, isapp(l.h)):
            c = own_reads(ip, ctx, l, guards[i][0], kk, c, k, guards)
            if c is None:
                return None
            pieces[i] = (c, kk, v)
    # pieces that can touch the same element do so in the same iteration, or else the later iteration wins
    late = False
    for i in range(len(pieces)):
        for j in range(i):
            (c1, k1, v1), (c2, k2, v2) = pieces[i], pieces[j]
            if ctx.isimp(sub(k1, k2)) is ZERO:
                continue
            if ctx.entails(FALSE, (subst(c1, {k: k1}), subst(c2, {k: k2}))):
                continue
            late = True
    if late and (len(pieces) != 2 or any(contains(v, isapp(l.h)) for _, _, v in pieces)):
        return None
    out = []
    for c, kk, v in pieces:
        if contains(v, isapp(l.h)):
            v = own_reads(ip, ctx, l, c, kk, v, k, guards)
            if v is None:
                return None
        c2 = subst(c, {k: kk})
        out.append((c2, kk, subst(v, {k: kk})))

    def cf(t, ii):
        m = dict(zip(IDX, ii))
        r = init_term(l, ii)
        if late:
            (a1, x1, w1), (a2, x2, w2) = [(subst(c2, m), subst(kk, m), subst(v, m)) for c2, kk, v in out]
            h1, h2 = [and_(le(ZERO, x), lt(x, t), a) for a, x in ((a1, x1), (a2, x2))]
            r = ite(h2, w2, r)
            return ite(and_(h1, or_(not_(h2), le(x2, x1))), w1, r)
        for c2, kk, v in reversed(out):
            k2 = subst(kk, m)
            r = ite(and_(le(ZERO, k2), lt(k2, t), subst(c2, m)), subst(v, m), r)
        return r
    return cf


def dnf_parts(c):
    from .prover import dnf
    return [and_(*p) for p in dnf(c)]


def own_reads(ip, ctx, l, c, kk, v, k, pieces):
    """reads of the array being written: elements not yet written hold the initial value"""
    nl = len(l.lv)
    bad = []

    def rep(args):
        ii = list(args[nl + 1:])
        if args[nl] is not k:
            bad.append(1)
            return app(l.h, args, l.sort)
        for c1, k1, v1 in pieces:
            m = dict(zip(IDX, ii))
            k1i = subst(k1, m)
            # written before iteration k?
            cond = [le(ZERO, k1i), lt(k1i, k), subst(subst(c1, {k: k1}), m)]
            if not ctx.entails(FALSE, tuple(cond) + tuple(conj(c))):
                bad.append(1)
                return app(l.h, args, l.sort)
        return init_term(l, ii)
    v2 = replace_app(v, l.h, rep)
    return None if bad else v2


# -- invariants ------------------------------------------------------------------------------------------------
class Reader(object):
    """value of a location in one state; mode: 'init', 'use' (assumed) or 'end' (to be shown)"""
    def __init__(self, f, dims, mode, at):
        self.f, self.dims, self.mode, self.at = f, dims, mode, at

    def __call__(self, idx=()):
        return self.f([dim(i) for i in idx])


def reader_h(l, t):
    return Reader(lambda idx: app(l.h, l.lv + (t,) + tuple(idx), l.sort), shape_at(l, t), 'use', l.lv + (t,))


def end_dims(l, end):
    v = getloc(end, l.key)
    return v[0] if l.kind == 'cell' else v.shape if isinstance(v, Arr) else ()


def houdini(ip, base, locs, n, k, thunk, general):
    hs = {l.h: l for l in locs.values() if l.h}
    ip.st.load(base)
    cands = []
    for tm in ip.templates:
        for l in general:
            for f in tm(ip, l.key, l.shape, l.sort) or ():
                cands.append((l, f))
    keep = []
    ip.st.load(base)
    if n is not None:
        pass
    pos = ip.position()
    memo = ip.loop_memo.get(pos)
    for l, f in cands if memo is None else ():
        t0 = f(Reader(lambda idx, l=l: init_term(l, idx), () if l.kind == 'scalar' else l.init[0], 'init', l.lv + (ZERO,)))
        t0, hints = t0 if isinstance(t0, tuple) else (t0, ())
        ok, why = ip.ctx().prove(t0, 0, hints) if t0 is not FALSE else (False, 'shown false')
        if ok:
            keep.append((l, f))
        else:
            ip.inv_failures.append((str(l.key) + ' (before the loop)', why))
    if memo is not None:
        keep = [cands[i] for i in memo]
    while True:
        facts = [f(reader_h(l, k)) for l, f in keep]
        start, end, abn = one(ip, base, locs, n, k, thunk, facts)
        if end is None:
            return [], start, end, abn
        if memo is not None:
            break
        bad = []
        ip.st.load(end)
        ctx = ip.ctx()
        for l, f in keep:
            e = resolve_closed(end_term(ip, l, end), hs)
            g = f(Reader(lambda idx, e=e: subst(e, dict(zip(IDX, idx))), end_dims(l, end), 'end', l.lv + (k,)))
            g, hints = g if isinstance(g, tuple) else (g, ())
            ok, why = ctx.prove(g, 0, hints) if g is not FALSE else (False, 'shown false')
            if not ok:
                bad.append((l, f))
                ip.inv_failures.append((str(l.key), why))
        if not bad:
            break
        keep = [x for x in keep if x not in bad]
    ip.loop_memo[pos] = [i for i, x in enumerate(cands) if x in keep]
    for l in general:
        l.step = end_term(ip, l, end)
    for l in locs.values():
        # values of the last execution of the body
        if l.kind == 'other':
            l.last = (getloc(end, l.key),)
        elif l.kind == 'list':
            l.items = [ip_freeze(ip, x, end) for x in getloc(end, l.key)[len(l.base_items) + 1:]]
    if DEBUG:
        for w in ip.inv_failures[-3:]:
            print('INVARIANT', w)
    return keep, start, end, abn


# -- state after the loop --------------------------------------------------------------------------------------
def finish(ip, base, locs, n, k, lv, end, abn, general, invs):
    hs = {l.h: l for l in locs.values() if l.h}
    ip.st.load(base)
    lid = ip.uid()

    def res(t):
        return resolve_closed(t, hs)

    def at_k(kk):
        return lambda t: subst(res(t), {k: kk})

    def value_at(l, t):
        """value of the location at the start of iteration t"""
        if l.kind == 'list':
            if not l.items:
                return list(l.base_items)
            r = len(l.items)
            q = fresh('q', 'I')
            vals = [map_value_frozen(x, at_k(q)) for x in l.items]
            if r == 1:
                return list(l.base_items) + [SymSeq(t, q, vals[0])]
            q2 = fresh('q', 'I')
            v = None
            for i in range(r - 1, -1, -1):
                x = map_value_frozen(vals[i], lambda u: subst(u, {q: fdiv(q2, num(r))}))
                v = x if v is None else seq_pick(eq(mod(q2, num(r)), num(i)), x, v)
            return list(l.base_items) + [SymSeq(mul(num(r), t), q2, v)]
        if l.cf is not None or l.kind in ('scalar', 'arr', 'cell'):
            f = l.cf or (lambda tt, ii: app(l.h, l.lv + (tt,) + tuple(ii), l.sort))
            if l.kind == 'scalar':
                return norm(res(f(t, [])))
            body = res(f(t, list(IDX[:len(l.shape)])))
            if l.kind == 'cell':
                return (l.shape, l.dtype, body)
            sh = shape_at(l, t)
            if l.flex is not None:
                ip.assume(*[le(ZERO, d) for d in sh])
            return ip.thaw(Frozen(sh, l.dtype, body))
        # other: the value of the last iteration
        v = map_from(ip, l.last[0], end, at_k(sub(t, ONE)), base)
        if same_kind_const(v, l.init):
            return v
        if ip.ent(le(ONE, t)):
            return v
        if ip.ent(le(t, ZERO)):
            return l.init
        return Phi(le(ONE, t), v, l.init)

    def sizes(t):
        """the size of an array that is replaced is the one the iteration before left behind"""
        for l in locs.values():
            if l.flex is not None and end is not None:
                for a, d in enumerate(end_dims(l, end)):
                    if isinstance(l.flex[a], str):
                        ip.assume(eq(shape_at(l, t)[a], ite(lt(ZERO, t), subst(res(d), {k: sub(t, ONE)}), l.init[0][a])))

    def set_all(t):
        vals = [(l, value_at(l, t)) for l in locs.values()]
        for l, v in vals:
            setloc(ip.st, l.key, v)

    start_pc = base.pc
    rngc = end is not None and end.rng != base.rng or any(a[3].rng != base.rng for a in abn)
    evs = tuple(map_event(ip, e, res) for e in end.events) if end is not None else ()
    # facts learned in every iteration
    learned = []
    if end is not None:
        rng_k = (le(ZERO, k),) + ((lt(k, n),) if n is not None else ())
        for f in end.pc:
            if f not in start_pc and f not in rng_k:
                learned.append(res(f))
    dens = [res(d) for d in (end.den if end is not None else ())]
    invf = [f(reader_h(l, k)) for l, f in invs]

    def generalise(t):
        """facts that hold when t iterations have been completed"""
        out = []
        for f in learned:
            if f in invf:
                continue
            out.append(tall(k, ZERO, t, f) if k in fv(f) else f)
        for f in invf:
            out.append(tall(k, ZERO, add(t, ONE), f))
        return out

    # the ways out of the loop other than completing all iterations
    if abn:
        C = or_(*[and_(*[res(c) for c in a[0]]) for a in abn])
        C = subst(C, {})
        if n is None:
            leave = True
        else:
            leave = ip.decide(tany(k, ZERO, n, C)) if k in fv(C) or True else False
        if leave:
            ks = fresh('k', 'I')
            ip.assume(le(ZERO, ks))
            if n is not None:
                ip.assume(lt(ks, n))
            ip.assume(tall(k, ZERO, ks, not_(C)))
            for f in generalise(ks):
                ip.assume(f)
            for l, f in invs:
                ip.assume(f(reader_h(l, ks)))
                ip.invariants_used.append(f)
            note(ip, locs, k, general)
            sizes(ks)
            g = at_k(ks)
            chosen = None
            for a in abn[:-1]:
                if ip.decide(g(and_(*a[0]))):
                    chosen = a
                    break
            if chosen is None:
                chosen = abn[-1]
                ip.assume(g(and_(*chosen[0])))
            conds, kind, val, snap = chosen
            for f in snap.pc:
                if f not in start_pc and f not in conds:
                    ip.assume(g(f))
            # state: modified locations at the end of the abandoned iteration
            vals = []
            for l in locs.values():
                cur = getloc(snap, l.key)
                if l.kind == 'cell':
                    vals.append((l, (l.shape, l.dtype, g(cur[2]))))
                elif l.kind == 'list':
                    nb = len(l.base_items)
                    seq = value_at(l, ks)
                    vals.append((l, seq + [map_from(ip, x, snap, g, base) for x in cur[nb + 1:]]))
                elif isinstance(cur, Poison) or (isinstance(cur, Arr) and cur.cell not in snap.heap):
                    vals.append((l, value_at(l, ks)))
                else:
                    vals.append((l, map_from(ip, cur, snap, g, base)))
            for l, v in vals:
                setloc(ip.st, l.key, v)
            if evs:
                ip.st.events += (('loop', k, ks, evs),)
            ip.st.events += tuple(map_event(ip, e, g) for e in snap.events)
            for d in dens:
                ip.st.den += (tall(k, ZERO, ks, d),)
            ip.st.den += tuple(g(d) for d in snap.den)
            if rngc:
                ip.st.rng = ('loop', lid, base.rng)
            if kind == 'brk':
                return
            if kind == 'ret':
                raise ReturnSig(map_from(ip, val.value, snap, g, base))
            if kind == 'exc':
                raise PyExc(val.name, val.eargs)
            raise Unsupported('loop left by %s' % kind)
    if n is None:
        raise Unsupported('a loop that cannot end')
    if end is None:
        # the first iteration never completes
        ip.assume(le(n, ZERO))
        if not ip.ctx().consistent():
            raise Infeasible()
        return
    if ip.ent(le(ZERO, n)):
        t = n
    elif ip.decide(le(ZERO, n)):
        t = n
    else:
        t = ZERO
    for f in generalise(t):
        ip.assume(f)
    for l, f in invs:
        ip.assume(f(reader_h(l, t)))
        ip.invariants_used.append(f)
    note(ip, locs, k, general)
    sizes(t)
    set_all(t)
    if evs:
        ip.st.events += (('loop', k, t, evs),)
    for d in dens:
        ip.st.den += (tall(k, ZERO, t, d) if k in fv(d) else d,)
    if rngc:
        ip.st.rng = ('loop', lid, base.rng)
    for gk, gv in end.ghost.items():
        if isinstance(gv, list):
            cur = ip.st.ghost.setdefault(gk, [])
            for x in gv:
                if x not in cur:
                    cur.append(map_ghost(x, res))


def note(ip, locs, k, general):
    """the recurrences of locations without a closed form, for the contract"""
    for l in general:
        ip.st.ghost.setdefault('steps', []).append((l.key, l.h, l.lv, k, l.step, l.init, l.shape))


def map_ghost(x, g):
    if isinstance(x, tuple):
        return tuple(map_ghost(y, g) for y in x)
    if isinstance(x, T):
        return g(x)
    if isinstance(x, Frozen):
        return Frozen([g(s) for s in x.shape], x.dtype, g(x.body))
    return x


def same_kind_const(v, init):
    return same(v, init)


def seq_pick(c, a, b):
    if isinstance(a, T) or is_scalar(a):
        return ite(c, term(a), term(b))
    if isinstance(a, Frozen) and isinstance(b, Frozen) and a.shape == b.shape:
        return Frozen(a.shape, a.dtype, ite(c, a.body, b.body))
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(seq_pick(c, x, y) for x, y in zip(a, b))
    raise Unsupported('sequence of mixed values')


def map_value_frozen(v, g):
    if isinstance(v, T):
        return g(v)
    if isinstance(v, tuple):
        return tuple(map_value_frozen(x, g) for x in v)
    if isinstance(v, Frozen):
        return Frozen([g(s) for s in v.shape], v.dtype, g(v.body))
    if isinstance(v, Phi):
        return Phi(g(v.c), map_value_frozen(v.a, g), map_value_frozen(v.b, g))
    if isinstance(v, SymSeq):
        return SymSeq(g(v.n), v.var, map_value_frozen(v.value, g))
    if isinstance(v, Rec):
        return Rec(v.name, {k: map_value_frozen(x, g) for k, x in v.attrs.items()})
    return v


def map_from(ip, v, st, g, base):
    """a value of state st carried over into the current state with its terms mapped"""
    if isinstance(v, Arr):
        if v.cell in base.heap and v.rd is None:
            return v
        f = ip.frozen(v, st)
        a = ip.thaw(Frozen([g(s) for s in f.shape], f.dtype, g(f.body)))
        if v.cell in base.heap:
            a = Arr(a.cell, a.shape, a.dtype, lambda i: list(i), None)
        return a
    if isinstance(v, tuple):
        return tuple(map_from(ip, x, st, g, base) for x in v)
    if isinstance(v, PyList):
        if v.lid in base.lists:
            return v
        return ip.newlist([map_from(ip, x, st, g, base) for x in st.lists[v.lid]])
    if isinstance(v, Obj):
        if v.oid not in base.objs and v.oid not in ip.st.objs:
            ip.st.objs[v.oid] = {}
            ip.st.objs[v.oid] = {a: map_from(ip, x, st, g, base) for a, x in st.objs[v.oid].items()}
        return v
    if isinstance(v, Phi):
        return Phi(g(v.c), map_from(ip, v.a, st, g, base), map_from(ip, v.b, st, g, base))
    if isinstance(v, T):
        return norm(g(v))
    if isinstance(v, (SymSeq, Frozen)):
        return map_value_frozen(v, g)
    if isinstance(v, Rec):
        return Rec(v.name, {a: map_from(ip, x, st, g, base) for a, x in v.attrs.items()})
    if isinstance(v, (Closure, Bound)):
        return v
    return v


def map_event(ip, e, g):
    if isinstance(e, tuple):
        return tuple(map_event(ip, x, g) for x in e)
    if isinstance(e, T):
        return g(e)
    if isinstance(e, Frozen):
        return Frozen([g(s) for s in e.shape], e.dtype, g(e.body))
    return e
