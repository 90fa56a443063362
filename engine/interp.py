"""Symbolic interpreter of the Python sources in /repo (after the same source transformation the code is run with).

Every branch whose condition is not decided by the path facts is explored on both sides; arrays have symbolic
shapes and are index functions; loops with a symbolic number of iterations are summarised exactly (element-wise
writes, sums, appended sequences) or cut at an invariant found among the candidates of the contract.
"""
import ast
import os
import sys

sys.path.insert(0, '/opt/vp/py2compat')
import py2compat                           # noqa: E402

from .terms import *                       # noqa: E402,F401,F403
from .values import *                      # noqa: E402,F401,F403
from .prover import Ctx, GiveUp            # noqa: E402
from . import terms as TT                  # noqa: E402

ROOT = '/repo'
PKG = ROOT + '/active_subspaces'

_trees = {}


def load_tree(path):
    if path not in _trees:
        text = open(path, encoding='utf-8').read()
        if text and not text.endswith('\n'):
            text += '\n'
        new = py2compat._refactor(text, path)
        tree = ast.parse(new, path)
        _trees[path] = py2compat.Python2(path, py2compat._has_future_division(text)).visit(tree)
    return _trees[path]


class State(object):
    def __init__(self):
        self.heap = {}       # cid -> (shape, dtype, body)
        self.objs = {}       # oid -> {attr: value}
        self.lists = {}      # lid -> list of values / SymSeq
        self.dicts = {}
        self.frames = {}     # fid -> {name: value}
        self.rng = ('rng0',)
        self.events = ()
        self.pc = ()
        self.den = ()        # definedness conditions met so far
        self.ghost = {}

    def snap(self):
        s = State()
        s.heap = dict(self.heap)
        s.objs = {k: dict(v) for k, v in self.objs.items()}
        s.lists = {k: list(v) for k, v in self.lists.items()}
        s.dicts = {k: dict(v) for k, v in self.dicts.items()}
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.rng, s.events, s.pc, s.den = self.rng, self.events, self.pc, self.den
        s.ghost = {k: (list(v) if isinstance(v, list) else v) for k, v in self.ghost.items()}
        return s

    def load(self, s):
        c = s.snap()
        self.__dict__.update(c.__dict__)


class Oracle(object):
    def __init__(self, prefix):
        self.prefix, self.pos, self.taken, self.nested = list(prefix), 0, [], 0


class Frame(object):
    def __init__(self, fid, parent, module, glob=None):
        self.fid, self.parent, self.module = fid, parent, module


def ite_depth(t):
    d = 0
    while t.k == 'ite':
        t = t.a[2] if t.a[2].k == 'ite' else t.a[1]
        d += 1
    return d


def mite(c, a, b):
    """value merged from two branches; long chains of branches are kept folded ('opq' is the identity; the prover treats it
    as an atom, the solver sees through it) so that normal forms stay small"""
    if a is b:
        return a
    if a.s != 'B' and b.s != 'B':
        if ite_depth(a) >= 2:
            a = app('opq', (a,), a.s)
        if ite_depth(b) >= 2:
            b = app('opq', (b,), b.s)
    return ite(c, a, b)


def conjuncts(f):
    if f.k == 'and':
        return [g for x in f.a for g in conjuncts(x)]
    if f.k == 'not' and f.a[0].k == 'or':
        return [g for x in f.a[0].a for g in conjuncts(not_(x))]
    return [f]


def quantified_part(f):
    return f.k in ('and', 'not') and quantifies(f)


class Interp(object):
    def __init__(self, facts=(), stubs=None, rules=(), schemas=None):
        self.st = State()
        self.base = Ctx(facts, rules, schemas)
        self.st.pc = tuple(facts)
        self.stubs = stubs if stubs is not None else {}
        self.oracles = []
        self.n = 0
        self.loopvars = []
        self.modules = {}
        self.depth = 0
        self.loopdepth = 0
        self.called = {}          # functions of the repository interpreted
        self.templates = []       # invariant candidates for general loops
        self.hooks = {}
        self.named = {}          # let-abstractions (npm.named)
        self.invariants_used = []
        self.inv_failures = []
        self.steps = 0
        self.runs = 0
        self.loop_memo = {}       # invariants that survived, by position in the (deterministic) exploration
        self.ctxs = {}
        from . import npm
        self.np = npm.make(self)
        self.builtins = npm.builtins(self)

    # -- contexts ---------------------------------------------------------------------------------------------
    def ctx(self):
        key = self.st.pc
        c = self.ctxs.get(key)
        if c is None:
            c = Ctx(key, self.base.rules, self.base.schemas)
            c.deadline = self.base.deadline
            c.nonneg_heads, c.pos_heads = self.base.nonneg_heads, self.base.pos_heads
            self.ctxs[key] = c
        return c

    def add_schema(self, name, f):
        self.base.schemas[name] = f
        self.ctxs.clear()

    def assume(self, *fs):
        for f in fs:
            for g in conjuncts(term(f)):
                if g is not TRUE and g not in self.st.pc:
                    self.st.pc += (g,)

    def ent(self, c):
        c = term(c)
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        if quantifies(c):
            return c in self.st.pc
        return self.ctx().entails(c)

    def uid(self):
        self.n += 1
        return self.n

    # -- branching --------------------------------------------------------------------------------------------
    def decide(self, c):
        c = norm(c)
        if isinstance(c, bool):
            return c
        c = self.ctx().canon_bool(term(c))
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        if self.ent(c):
            return True
        if self.ent(not_(c)):
            return False
        if not self.oracles:
            raise Unsupported('undecided condition outside a unit: %s' % show(c))
        o = self.oracles[-1]
        if o.pos < len(o.prefix):
            v = o.prefix[o.pos]
        else:
            v = True
        o.pos += 1
        o.taken.append((c, v))
        c = c if v else not_(c)
        self.st.pc += (c,) if not quantified_part(c) else (c,) + tuple(g for g in conjuncts(c) if g is not c)
        return v

    def paths(self, thunk, limit=400):
        """run thunk along every path: list of (conds, kind, value, state)"""
        base = self.st.snap()
        prefix, out = [], []
        if self.oracles:
            self.oracles[-1].nested += 1
        else:
            self.runs += 1
        while True:
            self.st.load(base)
            o = Oracle(prefix)
            self.oracles.append(o)
            nl, dp, ld = len(self.loopvars), self.depth, self.loopdepth
            try:
                try:
                    val, kind = thunk(), 'ok'
                except PyExc as e:
                    val, kind = e, 'exc'
                except ReturnSig as e:
                    val, kind = e, 'ret'
                except BreakSig as e:
                    val, kind = e, 'brk'
                except ContinueSig as e:
                    val, kind = e, 'cont'
                except Infeasible:
                    val, kind = None, None
            finally:
                self.oracles.pop()
                del self.loopvars[nl:]
                self.depth, self.loopdepth = dp, ld
            if kind is not None:
                conds = [c if v else not_(c) for c, v in o.taken]
                out.append((conds, kind, val, self.st.snap()))
            if len(out) > limit:
                raise Unsupported('more than %d paths' % limit)
            taken = [v for c, v in o.taken]
            while taken and not taken[-1]:
                taken.pop()
            if not taken:
                self.st.load(base)
                return out
            prefix = taken[:-1] + [False]

    def position(self):
        """names a point of the exploration: the same decisions lead to the same point again"""
        return (self.runs,) + tuple((tuple(v for c, v in o.taken), o.nested) for o in self.oracles)

    def merged(self, thunk):
        """run thunk, merging the paths that end normally into one state"""
        base = self.st.snap()
        res = self.paths(thunk)
        if not res:
            raise Infeasible()
        if len(res) == 1 and not res[0][0]:
            conds, kind, val, snap = res[0]
            self.st.load(snap)
            return self._resume(kind, val)
        abn = [r for r in res if r[1] != 'ok']
        ok = [r for r in res if r[1] == 'ok']
        for conds, kind, val, snap in abn[:-1] if not ok else abn:
            if self.decide(and_(*conds)):
                pc = self.st.pc
                self.st.load(snap)
                self.st.pc = pc + tuple(f for f in snap.pc if f not in pc)
                return self._resume(kind, val)
        if not ok:
            conds, kind, val, snap = abn[-1]
            pc = self.st.pc
            self.st.load(snap)
            self.st.pc = pc + tuple(f for f in snap.pc if f not in pc)
            return self._resume(kind, val)
        val = self.merge_states(base, ok)
        return val

    def _resume(self, kind, val):
        if kind == 'ok':
            return val
        raise val

    def merge_states(self, base, ok):
        pc = self.st.pc
        conds, kind, val, snap = ok[-1]
        acc, accv, accfacts = snap.snap(), val, []
        n0 = len(base.pc)
        facts = []          # facts learned on each path that are not its conditions
        for cs, k, v, s in ok:
            extra = [f for f in s.pc if f not in base.pc and f not in cs]
            facts += [implies(and_(*cs), f) for f in extra]
        for cs, k, v, s in reversed(ok[:-1]):
            acc, accv = self.merge2(and_(*cs), s, v, acc, accv)
        den = []
        for cs, k, v, s in ok:
            for d in s.den:
                if d not in base.den:
                    den.append(implies(and_(*cs), d))
        self.st.load(acc)
        cover = or_(*[and_(*cs) for cs, k, v, s in ok])
        self.st.pc = pc
        self.assume(cover, *facts)
        self.st.den = base.den + tuple(d for d in den if d is not TRUE)
        return accv

    def merge2(self, c, s1, v1, s2, v2):
        out = s2.snap()
        for cid in set(s1.heap) | set(s2.heap):
            a, b = s1.heap.get(cid), s2.heap.get(cid)
            if a is None or b is None:
                out.heap[cid] = a or b
            elif a != b:
                if a[0] != b[0]:
                    raise Unsupported('shape of a cell differs between branches')
                out.heap[cid] = (a[0], a[1], mite(c, a[2], b[2]))
        for name in ('objs', 'frames', 'dicts'):
            d1, d2, d = getattr(s1, name), getattr(s2, name), getattr(out, name)
            for k in set(d1) | set(d2):
                if k not in d1 or k not in d2:
                    d[k] = dict(d1.get(k) or d2.get(k))
                    continue
                for a in set(d1[k]) | set(d2[k]):
                    if a not in d1[k] or a not in d2[k]:
                        d[k][a] = Poison('%s is only bound on some paths' % (a,)) if name != 'dicts' else None
                        if name == 'dicts':
                            raise Unsupported('dict differs between branches')
                    else:
                        d[k][a] = self.mergev(c, d1[k][a], d2[k][a], s1, s2, out)
        for k in set(s1.lists) | set(s2.lists):
            if k not in s1.lists or k not in s2.lists:
                out.lists[k] = list(s1.lists.get(k) or s2.lists.get(k) or [])
                continue
            a, b = s1.lists[k], s2.lists[k]
            if a is b or (len(a) == len(b) and all(x is y for x, y in zip(a, b))):
                continue
            if len(a) != len(b):
                raise Unsupported('list length differs between branches')
            out.lists[k] = [self.mergev(c, x, y, s1, s2, out) for x, y in zip(a, b)]
        if s1.rng != s2.rng:
            out.rng = ('phi', c, s1.rng, s2.rng)
        if s1.events != s2.events:
            out.events = (('phi', c, s1.events, s2.events),)
        for k in set(s1.ghost) | set(s2.ghost):
            a, b = s1.ghost.get(k), s2.ghost.get(k)
            if isinstance(a, list) or isinstance(b, list):
                out.ghost[k] = (a or []) + [x for x in (b or []) if x not in (a or [])]
        v = self.mergev(c, v1, v2, s1, s2, out)
        return out, v

    def mergev(self, c, a, b, s1, s2, out):
        if a is b:
            return a
        if is_scalar(a) and is_scalar(b):
            ta, tb = term(a), term(b)
            if ta is tb:
                return a
            if (ta.s == 'B') != (tb.s == 'B'):
                return Phi(c, a, b)
            return norm(mite(c, ta, tb))
        if isinstance(a, str) and isinstance(b, str) and a == b:
            return a
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.mergev(c, x, y, s1, s2, out) for x, y in zip(a, b))
        if isinstance(a, Arr) and isinstance(b, Arr):
            if a.cell == b.cell and a.rd is b.rd and a.shape == b.shape:
                return a
            if len(a.shape) == len(b.shape) and all(x is y or self.ent(eq(x, y)) for x, y in zip(a.shape, b.shape)):
                fa, fb = self.frozen(a, s1), self.frozen(b, s2)
                cid = self.uid()
                dt = a.dtype if a.dtype == b.dtype else 'f'
                out.heap[cid] = (a.shape, dt, mite(c, fa.body, fb.body))
                return Arr(cid, a.shape, dt)
        if isinstance(a, Rec) and isinstance(b, Rec) and a.name == b.name and set(a.attrs) == set(b.attrs) and a.name in ('minimize', 'linprog'):
            at = {k: self.mergev(c, x, b.attrs[k], s1, s2, out) for k, x in a.attrs.items() if k != 'getitem'}

            def get(k, at=at):
                if k in at:
                    return at[k]
                raise PyExc('KeyError')
            return Rec(a.name, dict(at, getitem=get))
        if isinstance(a, Poison) or isinstance(b, Poison):
            return a if isinstance(a, Poison) else b
        if isinstance(a, Opaque) and isinstance(b, Opaque) and a.tag == b.tag and a.info == b.info:
            return a
        if a is None and b is None:
            return None
        return Phi(c, a, b)

    def resolve(self, v):
        while isinstance(v, Phi):
            v = v.a if self.decide(v.c) else v.b
        if isinstance(v, Poison):
            raise Unsupported(v.why)
        return v

    # -- arrays -----------------------------------------------------------------------------------------------
    def mk(self, shape, dtype, f):
        """new array with elements f(list of index terms)"""
        shape = tuple(dim(s) for s in shape)
        idx = IDX[:len(shape)]
        body = f(list(idx))
        body = self.cast(term(body), dtype)
        cid = self.uid()
        self.st.heap[cid] = (shape, dtype, body)
        return Arr(cid, shape, dtype)

    def cast(self, t, dtype):
        if dtype == 'b':
            if t.s == 'B':
                return t
            return not_(eq(t, num(0, t.s)))
        if t.s == 'B':
            t = ite(t, ONE, ZERO)
        if dtype == 'i' and t.s == 'R':
            if isnum(t):
                v = val(t)
                return num(int(v), 'I')
            return ite(le(RZERO, t), fn('floor', t), fn('ceil', t))
        return t

    def at(self, a, idx):
        """element term of an array"""
        if isinstance(a, Frozen):
            return subst(a.body, dict(zip(IDX, idx)))
        shape, dtype, body = self.st.heap[a.cell]
        if a.rd is not None:
            idx = a.rd(list(idx))
        return subst(body, dict(zip(IDX, [dim(i) for i in idx])))

    def frozen(self, a, st=None):
        st = st or self.st
        shape, dtype, body = st.heap[a.cell]
        idx = list(IDX[:len(a.shape)])
        if a.rd is not None:
            body = subst(body, dict(zip(IDX, [dim(i) for i in a.rd(idx)])))
        return Frozen(a.shape, a.dtype, body)

    def thaw(self, f):
        cid = self.uid()
        self.st.heap[cid] = (f.shape, f.dtype, f.body)
        return Arr(cid, f.shape, f.dtype)

    def lamof(self, a):
        """the array as a term argument"""
        if is_scalar(a):
            return term(a)
        vs = [fresh('l', 'I') for _ in a.shape]
        return lam(vs, a.shape, self.at(a, vs))

    def write(self, a, f):
        """a[...] = f(idx): in-place update of a view, f gives the new element term for a view index"""
        if a.wr is None and a.rd is not None:
            raise Unsupported('write through a view that may be a copy')
        shape, dtype, body = self.st.heap[a.cell]
        idx = list(IDX[:len(shape)])
        if a.rd is None:
            cond, vidx = TRUE, idx
        else:
            cond, vidx = a.wr(idx)
        new = self.cast(term(f(vidx)), dtype)
        self.st.heap[a.cell] = (shape, dtype, ite(cond, new, body) if dtype != 'b' else or_(and_(cond, new), and_(not_(cond), body)))

    # -- modules ----------------------------------------------------------------------------------------------
    def module(self, name):
        """module of the package by dotted name relative to it, or a test-function module by path"""
        if name in self.modules:
            if self.modules[name].frame.fid not in self.st.frames:
                # loaded on another path
                for m in self.modules.values():
                    if hasattr(m, 'frame') and m.frame.fid not in self.st.frames and hasattr(m, 'loaded'):
                        self.st.frames[m.frame.fid] = dict(m.ns)
            return self.modules[name]
        path = name if name.endswith('.py') else os.path.join(PKG, *name.split('.')) + '.py'
        if not os.path.exists(path):
            raise Unsupported('no module %s' % name)
        m = ModVal(name)
        self.modules[name] = m
        fr = Frame(self.uid(), None, m)
        self.st.frames[fr.fid] = m.ns
        m.ns['__name__'] = name
        m.frame = fr
        m.path = path
        m.classes = {}
        save = self.st.frames
        for s in load_tree(path).body:
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                continue
            self.exec(s, fr)
        m.ns = dict(self.st.frames[fr.fid])
        m.loaded = True
        return m

    def import_module(self, node_module, level_, cur):
        """resolve an import inside the package (the transformed source has explicit levels)"""
        name = node_module or ''
        if level_ and level_ > 0:
            base = cur.name.split('.')[:-1] if not cur.name.endswith('.py') else []
            if level_ > 1:
                base = base[:-(level_ - 1)]
            return '.'.join(base + ([name] if name else []))
        if name.startswith('active_subspaces'):
            return name[len('active_subspaces'):].lstrip('.')
        return None

    def external(self, name):
        from . import npm
        return npm.external(self, name)

    # -- frames -----------------------------------------------------------------------------------------------
    def lookup(self, name, fr):
        f = fr
        while f is not None:
            d = self.st.frames[f.fid]
            if name in d:
                v = d[name]
                if isinstance(v, Poison):
                    if v.why == 'unbound':
                        raise PyExc('UnboundLocalError')
                    raise Unsupported(v.why)
                return v
            f = f.parent
        g = fr.module.frame if fr.module is not None else None
        if g is not None and name in self.st.frames[g.fid]:
            return self.st.frames[g.fid][name]
        if name in self.builtins:
            return self.builtins[name]
        import builtins
        if hasattr(builtins, name) or name in ('unicode', 'xrange', 'reduce', 'long', 'basestring', 'raw_input', 'cmp', 'unichr', 'file', 'execfile', 'reload'):
            raise Unsupported('builtin %s' % name)
        raise PyExc('NameError', (name,))

    # -- statements -------------------------------------------------------------------------------------------
    def block(self, stmts, fr):
        for s in stmts:
            self.exec(s, fr)

    def exec(self, s, fr):
        self.steps += 1
        if self.steps > 60000:
            raise Unsupported('too many steps')
        m = getattr(self, 'x_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement %s' % type(s).__name__)
        return m(s, fr)

    def x_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, fr)

    def x_Pass(self, s, fr):
        pass

    def x_Return(self, s, fr):
        raise ReturnSig(self.ev(s.value, fr) if s.value is not None else None)

    def x_Break(self, s, fr):
        raise BreakSig()

    def x_Continue(self, s, fr):
        raise ContinueSig()

    def x_Global(self, s, fr):
        raise Unsupported('global statement')

    def x_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.st.frames[fr.fid].pop(t.id, None)
            else:
                raise Unsupported('del')

    def x_Assert(self, s, fr):
        if not self.truth(self.ev(s.test, fr)):
            raise PyExc('AssertionError')

    def x_Raise(self, s, fr):
        if s.exc is None:
            raise Unsupported('re-raise')
        v = self.ev(s.exc, fr)
        if isinstance(v, Opaque) and v.tag == 'exc':
            e = PyExc(v.info[0], v.info[1])
            e.explicit = True
            raise e
        if isinstance(v, Opaque) and v.tag == 'exctype':
            e = PyExc(v.info)
            e.explicit = True
            raise e
        raise Unsupported('raise of %r' % (v,))

    def x_Import(self, s, fr):
        for a in s.names:
            v = self.external(a.name)
            if a.asname:
                self.st.frames[fr.fid][a.asname] = v
            else:
                self.st.frames[fr.fid][a.name.split('.')[0]] = self.external(a.name.split('.')[0])

    def x_ImportFrom(self, s, fr):
        if s.module == '__future__':
            return
        inner = self.import_module(s.module, s.level, fr.module)
        for a in s.names:
            if inner is not None:
                sub_ = (inner + '.' if inner else '') + a.name
                path = os.path.join(PKG, *sub_.split('.')) + '.py'
                if os.path.exists(path) and not (inner and os.path.exists(os.path.join(PKG, *inner.split('.')) + '.py')):
                    v = self.module(sub_)
                else:
                    m = self.module(inner)
                    d = self.st.frames[m.frame.fid]
                    if a.name == '*':
                        for k, x in d.items():
                            if not k.startswith('_'):
                                self.st.frames[fr.fid][k] = x
                        continue
                    if a.name not in d:
                        raise PyExc('ImportError', (a.name,))
                    v = d[a.name]
            else:
                m = self.external(s.module)
                if a.name not in m.ns:
                    v = self.external_attr(m, a.name)
                else:
                    v = m.ns[a.name]
            self.st.frames[fr.fid][a.asname or a.name] = v

    def external_attr(self, m, k):
        if k in m.ns:
            return m.ns[k]

        def missing(*args, **kw):
            raise Unsupported('%s.%s' % (m.name, k))
        return Prim('%s.%s' % (m.name, k), missing)

    def x_FunctionDef(self, s, fr):
        if s.decorator_list:
            raise Unsupported('decorator')
        defaults = [self.ev(d, fr) for d in s.args.defaults]
        kwd = {a.arg: self.ev(d, fr) for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults) if d is not None}
        self.st.frames[fr.fid][s.name] = Closure(s, fr, fr.module, self.qual(fr, s.name), defaults, kwd)

    def qual(self, fr, name):
        c = getattr(fr, 'clsname', None)
        return '%s.%s' % (c, name) if c else name

    def x_ClassDef(self, s, fr):
        bases = [self.ev(b, fr) for b in s.bases]
        cf = Frame(self.uid(), fr, fr.module)
        cf.clsname = s.name
        self.st.frames[cf.fid] = {}
        for b in s.body:
            if isinstance(b, ast.Expr) and isinstance(b.value, ast.Constant):
                continue
            self.exec(b, cf)
        ns = dict(self.st.frames[cf.fid])
        # methods do not see the class frame
        for k, v in ns.items():
            if isinstance(v, Closure) and v.frame is cf:
                v.frame = fr
        self.st.frames[fr.fid][s.name] = ClassVal(s.name, bases, ns, fr.module)

    def x_Assign(self, s, fr):
        v = self.ev(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def x_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fr), fr)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.st.frames[fr.fid][t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.unpack(v, len(t.elts))
            for x, y in zip(t.elts, items):
                self.assign(x, y, fr)
        elif isinstance(t, ast.Attribute):
            o = self.resolve(self.ev(t.value, fr))
            if isinstance(o, Obj):
                self.st.objs[o.oid][t.attr] = v
            elif isinstance(o, Arr) and t.attr == 'shape':
                raise Unsupported('assignment to shape')
            else:
                raise Unsupported('attribute assignment on %r' % (o,))
        elif isinstance(t, ast.Subscript):
            o = self.resolve(self.ev(t.value, fr))
            k = self.key(t.slice, fr)
            self.setitem(o, k, v)
        else:
            raise Unsupported('assignment target %s' % type(t).__name__)

    def setitem(self, o, k, v):
        from . import npm
        if isinstance(o, PyList):
            k = norm(k)
            if not isinstance(k, int):
                raise Unsupported('symbolic list index')
            l = self.st.lists[o.lid]
            if k < -len(l) or k >= len(l):
                raise PyExc('IndexError')
            l[k] = v
        elif isinstance(o, Opaque) and o.tag == 'dict':
            self.st.dicts[o.info][k] = v
        elif isinstance(o, Arr):
            npm.assign_index(self, o, k, self.resolve(v))
        else:
            raise Unsupported('item assignment on %r' % (o,))

    def unpack(self, v, n):
        v = self.resolve(v)
        items = self.concrete_items(v)
        if items is None:
            if isinstance(v, Rec) and 'len' in v.attrs and 'getitem' in v.attrs:
                if not self.decide(eq(term(v.attrs['len']), num(n))):
                    e = PyExc('ValueError')
                    e.explicit = True
                    raise e
                return [v.attrs['getitem'](i) for i in range(n)]
            if isinstance(v, Arr) and len(v.shape) >= 1:
                if not self.decide(eq(v.shape[0], num(n))):
                    raise PyExc('ValueError')
                from . import npm
                return [npm.getitem(self, v, i) for i in range(n)]
            raise Unsupported('unpacking of %r' % (v,))
        if len(items) != n:
            raise PyExc('ValueError')
        return items

    def concrete_items(self, v):
        """list of items, or None when the length is symbolic"""
        v = self.resolve(v)
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, PyList):
            l = self.st.lists[v.lid]
            if any(isinstance(x, SymSeq) for x in l):
                return None
            return list(l)
        if isinstance(v, Opaque) and v.tag == 'range':
            lo, hi, st = v.info
            if all(isinstance(x, int) for x in v.info):
                return list(range(lo, hi, st))
            n = norm(sub(term(hi), term(lo)))
            if isinstance(n, int) and st == 1:
                return [norm(add(term(lo), num(i))) for i in range(n)]
            return None
        if isinstance(v, str):
            return list(v)
        if isinstance(v, Arr):
            n = norm(v.shape[0]) if v.shape else None
            if isinstance(n, int):
                from . import npm
                return [npm.getitem(self, v, i) for i in range(n)]
            return None
        if isinstance(v, Opaque) and v.tag == 'zip':
            cols = [self.concrete_items(x) for x in v.info]
            if all(c is not None for c in cols):
                return [tuple(r) for r in zip(*cols)]
            return None
        if isinstance(v, Opaque) and v.tag == 'enumerate':
            c = self.concrete_items(v.info[0])
            if c is not None:
                return [(norm(add(term(v.info[1]), num(i))), x) for i, x in enumerate(c)]
            return None
        if isinstance(v, Opaque) and v.tag == 'dict':
            return list(self.st.dicts[v.info].keys())
        if isinstance(v, Opaque) and v.tag == 'reversed':
            c = self.concrete_items(v.info)
            return c[::-1] if c is not None else None
        return None

    def sym_items(self, v):
        """(length, item function of an index term) for an iterable of symbolic length"""
        v = self.resolve(v)
        from . import npm
        if isinstance(v, Opaque) and v.tag == 'range':
            lo, hi, st = [x if isinstance(x, T) else num(x) for x in v.info]
            if not isnum(st):
                raise Unsupported('range with symbolic step')
            k = int(val(st))
            if k == 1:
                n = self.clip0(sub(hi, lo))
            elif k == -1:
                n = self.clip0(sub(lo, hi))
            elif k > 1:
                n = self.clip0(fdiv(add(sub(hi, lo), num(k - 1)), num(k)))
            else:
                raise Unsupported('range step')
            return n, lambda i: norm(add(lo, mul(st, i)))
        if isinstance(v, Arr):
            if not v.shape:
                raise PyExc('TypeError')
            return v.shape[0], lambda i: npm.getitem(self, v, i)
        if isinstance(v, Opaque) and v.tag == 'enumerate':
            n, f = self.len_items(v.info[0])
            return n, lambda i: (norm(add(term(v.info[1]), i)), f(i))
        if isinstance(v, Opaque) and v.tag == 'zip':
            ls = [self.len_items(x) for x in v.info]
            n = ls[0][0]
            for k, _ in ls[1:]:
                if not self.ent(eq(k, n)):
                    n = self.ctx().isimp(fn('min2', n, k))
            return n, lambda i: tuple(f(i) for _, f in ls)
        if isinstance(v, Opaque) and v.tag == 'reversed':
            n, f = self.len_items(v.info)
            return n, lambda i: f(sub(sub(n, ONE), i))
        if isinstance(v, PyList):
            l = self.st.lists[v.lid]
            if len(l) == 1 and isinstance(l[0], SymSeq):
                return l[0].n, lambda i: self.inst(l[0], i)
        if isinstance(v, SymSeq):
            return v.n, lambda i: self.inst(v, i)
        raise Unsupported('iteration over %r' % (v,))

    def len_items(self, v):
        c = self.concrete_items(v)
        if c is not None:
            def pick(i):
                i = norm(i)
                if isinstance(i, int):
                    return c[i]
                raise Unsupported('symbolic index into a concrete sequence')
            return num(len(c)), pick
        return self.sym_items(v)

    def clip0(self, n):
        n = self.ctx().isimp(n)
        if isnum(n):
            return n if val(n) >= 0 else ZERO
        if self.ent(le(ZERO, n)):
            return n
        if self.ent(le(n, ZERO)):
            return ZERO
        return fn('max2', ZERO, n)

    def inst(self, seq, i):
        return self.substv(seq.value, {seq.var: term(i)})

    def substv(self, v, m):
        if isinstance(v, T):
            return norm(subst(v, m))
        if isinstance(v, tuple):
            return tuple(self.substv(x, m) for x in v)
        if isinstance(v, Frozen):
            return self.thaw(Frozen([subst(s, m) for s in v.shape], v.dtype, subst(v.body, m)))
        if isinstance(v, Arr):
            f = self.frozen(v)
            return self.thaw(Frozen([subst(s, m) for s in f.shape], f.dtype, subst(f.body, m)))
        if isinstance(v, SymSeq):
            return SymSeq(subst(v.n, m), v.var, self.substv(v.value, {k: x for k, x in m.items() if k is not v.var}))
        if v is None or isinstance(v, (bool, int, float, str)):
            return v
        if isinstance(v, Rec):
            return Rec(v.name, {k: self.substv(x, m) for k, x in v.attrs.items()})
        if isinstance(v, (ClassVal, Closure, Prim, ModVal, SymFun, Opaque, Obj)):
            return v
        if isinstance(v, Phi):
            return Phi(subst(v.c, m), self.substv(v.a, m), self.substv(v.b, m))
        raise Unsupported('value %r depends on a loop index' % (v,))

    def freezev(self, v):
        if isinstance(v, Arr):
            return self.frozen(v)
        if isinstance(v, tuple):
            return tuple(self.freezev(x) for x in v)
        return v

    def x_AugAssign(self, s, fr):
        op = type(s.op).__name__
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, fr)
        elif isinstance(t, ast.Attribute):
            o = self.resolve(self.ev(t.value, fr))
            cur = self.attr(o, t.attr)
        else:
            o = self.resolve(self.ev(t.value, fr))
            k = self.key(t.slice, fr)
            cur = self.getitem(o, k)
        v = self.ev(s.value, fr)
        cur = self.resolve(cur)
        new = self.binop(op, cur, v)
        if isinstance(cur, Arr) and not isinstance(t, ast.Subscript):
            # in-place operation on the array
            from . import npm
            if isinstance(new, Arr):
                if len(new.shape) != len(cur.shape):
                    raise PyExc('ValueError')
                for a, b in zip(new.shape, cur.shape):
                    if not self.decide(eq(a, b)):
                        raise PyExc('ValueError')
                if cur.dtype == 'i' and new.dtype == 'f':
                    raise PyExc('TypeError')
                fz = self.frozen(new)
                self.write(cur, lambda idx: subst(fz.body, dict(zip(IDX, idx))))
                return
            raise Unsupported('in-place operation')
        if isinstance(cur, PyList) and op == 'Add':
            self.st.lists[cur.lid] = list(self.st.lists[new.lid])
            return
        if isinstance(t, ast.Name):
            self.st.frames[fr.fid][t.id] = new
        elif isinstance(t, ast.Attribute):
            self.st.objs[o.oid][t.attr] = new
        else:
            self.setitem(o, k, new)

    def x_If(self, s, fr):
        c = self.truthv(self.ev(s.test, fr))
        if isinstance(c, bool):
            return self.block(s.body if c else s.orelse, fr)
        if self.loopdepth > 0:
            def thunk():
                if self.decide(c):
                    self.block(s.body, fr)
                else:
                    self.block(s.orelse, fr)
            self.merged(thunk)
            return
        if self.decide(c):
            self.block(s.body, fr)
        else:
            self.block(s.orelse, fr)

    def truthv(self, v):
        """truth value as bool or term"""
        v = self.resolve(v)
        if isinstance(v, bool) or v is None:
            return bool(v)
        if isinstance(v, (int, float, str, tuple)):
            return bool(v)
        if isinstance(v, T):
            if v.s == 'B':
                return norm(v)
            return norm(not_(eq(v, num(0, v.s))))
        if isinstance(v, PyList):
            l = self.st.lists[v.lid]
            if any(isinstance(x, SymSeq) for x in l):
                raise Unsupported('truth of a symbolic list')
            return bool(l)
        if isinstance(v, Opaque) and v.tag == 'dict':
            return bool(self.st.dicts[v.info])
        if isinstance(v, Arr):
            n = ONE
            for d in v.shape:
                n = mul(n, d)
            if isnum(n) and val(n) == 1:
                return norm(self.cast(self.at(v, [ZERO] * len(v.shape)), 'b'))
            if self.decide(eq(n, ONE)):
                return norm(self.cast(self.at(v, [ZERO] * len(v.shape)), 'b'))
            raise PyExc('ValueError', ('truth value of an array',))
        return True

    def truth(self, v):
        return self.decide(self.truthv(v))

    def x_Try(self, s, fr):
        if s.finalbody:
            raise Unsupported('finally')
        try:
            self.block(s.body, fr)
        except PyExc as e:
            for h in s.handlers:
                names = []
                if h.type is None:
                    names = ['Exception']
                else:
                    tv = self.ev(h.type, fr)
                    for x in (tv if isinstance(tv, tuple) else (tv,)):
                        if not (isinstance(x, Opaque) and x.tag == 'exctype'):
                            raise Unsupported('except clause')
                        names.append(x.info)
                if any(exc_is(e.name, n) for n in names) or e.name == 'ModelError' and self.decide(or_(*[app('ModelError_is_' + n, (), 'B') for n in names])):
                    if h.name:
                        self.st.frames[fr.fid][h.name] = Opaque('exc', (e.name, e.eargs))
                    self.block(h.body, fr)
                    return
            raise
        self.block(s.orelse, fr)

    def x_With(self, s, fr):
        raise Unsupported('with statement')

    # -- loops ------------------------------------------------------------------------------------------------
    def x_For(self, s, fr):
        if s.orelse:
            raise Unsupported('for/else')
        it = self.resolve(self.ev(s.iter, fr))
        items = self.concrete_items(it)
        if items is not None and len(items) <= 64:
            self.loopdepth += 1
            try:
                for x in items:
                    def body():
                        self.assign(s.target, x, fr)
                        try:
                            self.block(s.body, fr)
                        except ContinueSig:
                            pass
                    if len(items) > 1:
                        try:
                            self.merged(body)
                        except BreakSig:
                            break
                    else:
                        try:
                            body()
                        except BreakSig:
                            break
            finally:
                self.loopdepth -= 1
            return
        n, item = self.len_items(it)
        self.sym_loop(n, item, s, fr)

    def sym_loop(self, n, item, s, fr):
        from . import loops
        self.loopdepth += 1
        try:
            loops.for_loop(self, n, item, s, fr)
        finally:
            self.loopdepth -= 1

    def x_While(self, s, fr):
        from . import loops
        if s.orelse:
            raise Unsupported('while/else')
        # unroll while the condition is decided
        for _ in range(40):
            c = self.truthv(self.ev(s.test, fr))
            if not isinstance(c, bool):
                c = True if self.ent(c) else False if self.ent(not_(c)) else None
            if c is False:
                return
            if c is None or self.has_draw(s):
                break
            self.loopdepth += 1
            try:
                try:
                    self.merged(lambda: self.block(s.body, fr))
                except ContinueSig:
                    pass
                except BreakSig:
                    return
            finally:
                self.loopdepth -= 1
        self.loopdepth += 1
        try:
            loops.while_loop(self, s, fr, self.trips(s, fr))
        finally:
            self.loopdepth -= 1

    def trips(self, s, fr):
        """number of iterations of a counting loop (`while i < bound: ...; i += c`), or None"""
        t = s.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Lt, ast.LtE, ast.Gt, ast.GtE))):
            return None
        steps = {x.target.id: x for x in s.body if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name)
                 and isinstance(x.op, (ast.Add, ast.Sub)) and isinstance(x.value, ast.Constant) and type(x.value.value) is int and x.value.value > 0}
        inner = [y for x in s.body for y in ast.walk(x)]
        if any(isinstance(y, (ast.Continue, ast.Global, ast.Nonlocal, ast.FunctionDef, ast.Lambda, ast.Delete)) for y in inner):
            return None
        stored = [y.id for y in inner if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store)]
        a, b, strict, up = t.left, t.comparators[0], isinstance(t.ops[0], (ast.Lt, ast.Gt)), isinstance(t.ops[0], (ast.Lt, ast.LtE))
        if not (isinstance(a, ast.Name) and a.id in steps):
            a, b, up = b, a, not up
        if not (isinstance(a, ast.Name) and stored.count(a.id) == 1 and a.id in steps):
            return None
        step = steps[a.id]
        if isinstance(step.op, ast.Add) != up:
            return None
        for y in ast.walk(b):
            if isinstance(y, ast.Name):
                if y.id in stored:
                    return None
            elif not isinstance(y, (ast.Constant, ast.BinOp, ast.UnaryOp, ast.operator, ast.unaryop, ast.expr_context)):
                return None
        try:
            v, w = term(self.ev(a, fr)), term(self.ev(b, fr))
        except (TypeError, AttributeError):
            return None
        if not (isinstance(v, T) and isinstance(w, T) and v.s == 'I' and w.s == 'I'):
            return None
        c = num(step.value.value)
        gap = sub(w, v) if up else sub(v, w)
        n = fdiv(sub(add(gap, c), ONE if strict else ZERO), c) if strict else add(fdiv(gap, c), ONE)
        n = n if self.ent(le(ZERO, n)) else ite(lt(n, ZERO), ZERO, n)
        return n, a, lambda k: add(v, mul(c if up else num(-step.value.value), k))

    def has_draw(self, s):
        return any(isinstance(x, ast.Attribute) and x.attr == 'random' for x in ast.walk(s))

    # -- expressions ------------------------------------------------------------------------------------------
    def ev(self, e, fr):
        self.steps += 1
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(e).__name__)
        return m(e, fr)

    def e_Constant(self, e, fr):
        v = e.value
        if isinstance(v, float):
            return flt(v)
        if v is Ellipsis or v is None or isinstance(v, (bool, int, str)):
            return v
        raise Unsupported('constant %r' % (v,))

    def e_Name(self, e, fr):
        return self.lookup(e.id, fr)

    def e_Tuple(self, e, fr):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                c = self.concrete_items(self.ev(x.value, fr))
                if c is None:
                    raise Unsupported('starred')
                out += c
            else:
                out.append(self.ev(x, fr))
        return tuple(out)

    def newlist(self, items):
        lid = self.uid()
        self.st.lists[lid] = list(items)
        return PyList(lid)

    def e_List(self, e, fr):
        return self.newlist(self.e_Tuple(e, fr))

    def e_Dict(self, e, fr):
        d = {}
        for k, v in zip(e.keys, e.values):
            d[self.ev(k, fr)] = self.ev(v, fr)
        did = self.uid()
        self.st.dicts[did] = d
        return Opaque('dict', did)

    def e_JoinedStr(self, e, fr):
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                self.ev(v.value, fr)
        return 'formatted'

    def e_Lambda(self, e, fr):
        return Closure(e, fr, fr.module, '<lambda>', [self.ev(d, fr) for d in e.args.defaults])

    def e_IfExp(self, e, fr):
        c = self.truthv(self.ev(e.test, fr))
        if isinstance(c, bool):
            return self.ev(e.body if c else e.orelse, fr)
        if self.loopdepth > 0:
            return self.merged(lambda: self.ev(e.body, fr) if self.decide(c) else self.ev(e.orelse, fr))
        return self.ev(e.body, fr) if self.decide(c) else self.ev(e.orelse, fr)

    def e_BoolOp(self, e, fr):
        # values are returned as Python does; scalars that are booleans are combined without branching when the
        # operands cannot fail
        out = None
        conj = isinstance(e.op, ast.And)
        acc = None
        for i, x in enumerate(e.values):
            if acc is None or isinstance(acc, bool):
                v = self.resolve(self.ev(x, fr))
            else:
                # evaluate under the condition that it is reached
                pc = self.st.pc
                self.st.pc += (acc if conj else not_(acc),)
                v = self.resolve(self.ev(x, fr))
                extra = [f for f in self.st.pc if f not in pc and f is not (acc if conj else not_(acc))]
                self.st.pc = pc + tuple(implies(acc if conj else not_(acc), f) for f in extra)
            t = self.truthv(v)
            if isinstance(t, bool) and (acc is None or isinstance(acc, bool)):
                acc = t
                out = v
                if t != conj:
                    return v
                continue
            if acc is None:
                acc = t
                out = v
            else:
                acc = norm((and_ if conj else or_)(term(acc), term(t)))
                out = acc
        return out if isinstance(acc, bool) else (out if isinstance(out, T) and out.s == 'B' else acc)

    def e_UnaryOp(self, e, fr):
        v = self.resolve(self.ev(e.operand, fr))
        op = type(e.op).__name__
        if op == 'Not':
            t = self.truthv(v)
            return (not t) if isinstance(t, bool) else norm(not_(t))
        from . import npm
        return npm.unary(self, op, v)

    def e_BinOp(self, e, fr):
        a = self.resolve(self.ev(e.left, fr))
        b = self.resolve(self.ev(e.right, fr))
        return self.binop(type(e.op).__name__, a, b)

    def binop(self, op, a, b):
        from . import npm
        a, b = self.resolve(a), self.resolve(b)
        if isinstance(a, PyList) or isinstance(b, PyList):
            if op == 'Add' and isinstance(a, PyList) and isinstance(b, PyList):
                return self.newlist(self.st.lists[a.lid] + self.st.lists[b.lid])
            if op == 'Mult':
                l, k = (a, b) if isinstance(a, PyList) else (b, a)
                if isinstance(k, int) and not isinstance(k, bool):
                    return self.newlist(self.st.lists[l.lid] * k)
                items = self.st.lists[l.lid]
                if isinstance(k, T) and k.s == 'I' and len(items) == 1:
                    return self.newlist([SymSeq(self.clip0(k), fresh('q', 'I'), self.freezev(items[0]))])
            if isinstance(a, Arr) or isinstance(b, Arr):
                return npm.binary(self, op, a if isinstance(a, Arr) else npm.toarr(self, a), b if isinstance(b, Arr) else npm.toarr(self, b))
            raise Unsupported('list operation %s' % op)
        if isinstance(a, (str,)) or isinstance(b, str):
            if op == 'Mod' or op == 'Add':
                return 'text'
            raise Unsupported('string operation')
        if isinstance(a, tuple) and isinstance(b, tuple) and op == 'Add':
            return a + b
        if isinstance(a, tuple) and op == 'Mult' and isinstance(b, int):
            return a * b
        if a is None or b is None:
            raise PyExc('TypeError', ('operand None',))
        return npm.binary(self, op, a, b)

    def e_Compare(self, e, fr):
        left = self.ev(e.left, fr)
        acc = None
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, fr)
            v = self.compare(type(op).__name__, left, right)
            if acc is None:
                acc = v
            else:
                a, b = self.truthv(acc), self.truthv(v)
                acc = norm(and_(term(a), term(b)))
            left = right
        return acc

    def compare(self, op, a, b):
        from . import npm
        if op in ('Is', 'IsNot'):
            r = self.is_(a, b)
            return r if op == 'Is' else (not r if isinstance(r, bool) else norm(not_(r)))
        a, b = self.resolve(a), self.resolve(b)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Opaque) and x.tag == 'str' and op in ('Eq', 'NotEq'):
                # any string other than the listed ones
                if not isinstance(y, str):
                    return op == 'NotEq'
                if y in x.info:
                    return op == 'NotEq'
                r = app('streq_' + y, (), 'B')
                return self.decide(r) == (op == 'Eq')
            if isinstance(x, Opaque) and x.tag in ('typed', 'str') and op not in ('In', 'NotIn'):
                raise Unsupported('comparison with a value of unknown type')
            if isinstance(x, Rec) and x.name == 'any rank' and op not in ('In', 'NotIn'):
                raise Unsupported('comparison with an array of unknown rank')
        if op in ('In', 'NotIn'):
            items = self.concrete_items(b)
            if items is None:
                raise Unsupported('membership')
            acc = FALSE
            for x in items:
                acc = or_(acc, term(self.truthv(self.compare('Eq', a, x))))
            return norm(acc if op == 'In' else not_(acc))
        simple = (str, type(None), Obj, ClassVal, Closure, Opaque, tuple, PyList, SymFun, Prim, Rec, Bound)
        if isinstance(a, simple) or isinstance(b, simple):
            if op not in ('Eq', 'NotEq'):
                if isinstance(a, (PyList, tuple)) or isinstance(b, (PyList, tuple)):
                    if isinstance(a, Arr) or isinstance(b, Arr):
                        return npm.compare(self, op, npm.toarr(self, a), npm.toarr(self, b))
                raise PyExc('TypeError')
            if isinstance(a, Arr) or isinstance(b, Arr):
                if a is None or b is None or isinstance(a, str) or isinstance(b, str):
                    arr = a if isinstance(a, Arr) else b
                    return self.mk(arr.shape, 'b', lambda i: lift(op == 'NotEq'))
                return npm.compare(self, op, npm.toarr(self, a), npm.toarr(self, b))
            if isinstance(a, (tuple, PyList)) and isinstance(b, (tuple, PyList)) and isinstance(a, tuple) == isinstance(b, tuple):
                xa, xb = self.concrete_items(a), self.concrete_items(b)
                if xa is None or xb is None:
                    raise Unsupported('comparison of symbolic lists')
                if len(xa) != len(xb):
                    r = False
                else:
                    acc = TRUE
                    for x, y in zip(xa, xb):
                        acc = and_(acc, term(self.truthv(self.compare('Eq', x, y))))
                    r = norm(acc)
            elif isinstance(a, str) and isinstance(b, str):
                r = a == b
            elif isinstance(a, Obj) or isinstance(b, Obj):
                r = isinstance(a, Obj) and isinstance(b, Obj) and a.oid == b.oid
            elif isinstance(a, Opaque) and isinstance(b, Opaque):
                r = a.tag == b.tag and a.info == b.info
            else:
                r = a is b
            if op == 'NotEq':
                return (not r) if isinstance(r, bool) else norm(not_(r))
            return r
        return npm.compare(self, op, a, b)

    def is_(self, a, b):
        if isinstance(b, Phi) and not isinstance(a, Phi):
            a, b = b, a
        if isinstance(a, Phi):
            x, y = self.is_(a.a, b), self.is_(a.b, b)
            if isinstance(x, bool) and isinstance(y, bool):
                if x == y:
                    return x
                return norm(a.c if x else not_(a.c))
            return self.is_(self.resolve(a), b)
        a, b = self.resolve(a), self.resolve(b)
        if a is None or b is None:
            return a is None and b is None
        if isinstance(a, bool) or isinstance(b, bool):
            if isinstance(a, bool) and isinstance(b, bool):
                return a == b
            return False
        if isinstance(a, Obj) and isinstance(b, Obj):
            return a.oid == b.oid
        if isinstance(a, Opaque) and isinstance(b, Opaque):
            return a.tag == b.tag and a.info == b.info
        if isinstance(a, Arr) and isinstance(b, Arr):
            if a is b:
                return True
            raise Unsupported('identity of arrays')
        if isinstance(a, T) and isinstance(b, T) and (a.s == 'B' or b.s == 'B'):
            raise Unsupported('identity of scalars')
        return a is b

    def key(self, sl, fr):
        """index expression"""
        if isinstance(sl, ast.Slice):
            return Slice(*[self.ev(x, fr) if x is not None else None for x in (sl.lower, sl.upper, sl.step)])
        if isinstance(sl, ast.Tuple):
            return tuple(self.key(x, fr) for x in sl.elts)
        return self.resolve(self.ev(sl, fr))

    def e_Subscript(self, e, fr):
        o = self.resolve(self.ev(e.value, fr))
        return self.getitem(o, self.key(e.slice, fr))

    def getitem(self, o, k):
        from . import npm
        if isinstance(o, (Arr, MArr)):
            return npm.getitem(self, o, k)
        if isinstance(o, Opaque) and o.tag == 'stack_':
            return npm.stack_of(self, o.info, k)
        if isinstance(o, Opaque) and o.tag == 'dict':
            d = self.st.dicts[o.info]
            if k not in d:
                raise PyExc('KeyError')
            return d[k]
        if isinstance(o, (tuple, str)):
            items = o
        elif isinstance(o, PyList):
            items = self.st.lists[o.lid]
            if any(isinstance(x, SymSeq) for x in items):
                if len(items) == 1 and not isinstance(k, Slice):
                    seq = items[0]
                    k = term(k)
                    if self.ent(lt(k, ZERO)):
                        k = add(k, seq.n)
                    if not self.decide(and_(le(ZERO, k), lt(k, seq.n))):
                        raise PyExc('IndexError')
                    return self.inst(seq, k)
                if len(items) == 1:
                    # the positions a slice keeps
                    seq = items[0]
                    at = npm.getitem(self, self.mk((seq.n,), 'i', lambda i: i[0]), k)
                    q = fresh('q', 'I')
                    return self.newlist([SymSeq(term(at.shape[0]), q, self.freezev(self.inst(seq, self.at(at, [q]))))])
                raise Unsupported('index into a symbolic list')
        elif isinstance(o, Opaque) and o.tag in ('range', 'zip', 'enumerate'):
            items = self.concrete_items(o)
            if items is None:
                n, f = self.sym_items(o)
                return f(term(k))
        elif isinstance(o, T) or isinstance(o, (int, float)) or o is None:
            raise PyExc('TypeError', ('not subscriptable',))
        elif isinstance(o, Rec) and 'getitem' in o.attrs:
            return o.attrs['getitem'](k)
        else:
            raise Unsupported('subscript of %r' % (o,))
        if isinstance(k, Slice):
            lo, hi, st = [norm(x) if x is not None else None for x in (k.lo, k.hi, k.step)]
            if any(isinstance(x, T) for x in (lo, hi, st)):
                raise Unsupported('symbolic slice of a list')
            r = items[lo:hi:st]
            return self.newlist(r) if isinstance(o, PyList) else r
        k = norm(k)
        if isinstance(k, T):
            # a small concrete sequence of scalars
            if all(is_scalar(x) for x in items) and items:
                if not self.decide(and_(le(num(-len(items)), k), lt(k, num(len(items))))):
                    raise PyExc('IndexError')
                acc = term(items[-1])
                for i in range(len(items) - 2, -1, -1):
                    acc = ite(eq(k, num(i)), term(items[i]), acc)
                return norm(acc)
            for i in range(len(items)):
                if self.decide(eq(k, num(i))):
                    return items[i]
            raise PyExc('IndexError')
        if not isinstance(k, int):
            raise PyExc('TypeError')
        if k < -len(items) or k >= len(items):
            raise PyExc('IndexError')
        return items[k]

    def e_ListComp(self, e, fr):
        return self.comp(e, fr)

    e_GeneratorExp = e_ListComp

    def filtered(self, e, g, n, item, cf):
        """[elt for x in seq if cond] over a sequence of symbolic length: the selected elements, as for a boolean mask"""
        from . import npm
        k = fresh('q', 'I')
        pc = self.st.pc
        before = self.st.snap()
        self.st.pc = pc + (le(ZERO, k), lt(k, n))
        self.assign(g.target, item(k), cf)
        c = [self.truthv(self.ev(x, cf)) for x in g.ifs]
        v = self.resolve(self.ev(e.elt, cf))
        if not is_scalar(v):
            raise Unsupported('filtered comprehension of elements that are not scalars')
        if self.st.events != before.events:
            raise Unsupported('calls in a filtered comprehension')
        self.st.pc = pc
        m = and_(*[TRUE if x is True else FALSE if x is False else x for x in c])
        v = term(v)
        mask = self.mk((n,), 'b', lambda i: subst(m, {k: i[0]}))
        elts = self.mk((n,), {'R': 'f', 'I': 'i', 'B': 'b'}[v.s], lambda i: subst(v, {k: i[0]}))
        sel = npm.toarr(self, npm.getitem(self, elts, mask))
        q = fresh('q', 'I')
        return self.newlist([SymSeq(term(sel.shape[0]), q, self.at(sel, [q]))])

    def comp(self, e, fr):
        if len(e.generators) != 1:
            if len(e.generators) == 2 and not e.generators[0].ifs and not e.generators[1].ifs:
                g = e.generators[0]
                items = self.concrete_items(self.ev(g.iter, fr))
                if items is not None:
                    out = []
                    cf = Frame(self.uid(), fr, fr.module)
                    self.st.frames[cf.fid] = {}
                    inner = ast.ListComp(e.elt, e.generators[1:])
                    for x in items:
                        self.assign(g.target, x, cf)
                        l = self.comp(inner, cf)
                        out += self.st.lists[l.lid]
                    return self.newlist(out)
            raise Unsupported('nested comprehension')
        g = e.generators[0]
        it = self.resolve(self.ev(g.iter, fr))
        cf = Frame(self.uid(), fr, fr.module)
        self.st.frames[cf.fid] = {}
        items = self.concrete_items(it)
        if items is not None:
            out = []
            for x in items:
                self.assign(g.target, x, cf)
                if all(self.truth(self.ev(c, cf)) for c in g.ifs):
                    out.append(self.ev(e.elt, cf))
            return self.newlist(out)
        n, item = self.sym_items(it)
        if g.ifs:
            return self.filtered(e, g, n, item, cf)
        # a loop that appends
        lst = self.newlist([])
        name = '__comp%d' % self.uid()
        self.st.frames[cf.fid][name] = lst
        body = [ast.Expr(ast.Call(ast.Attribute(ast.Name(name, ast.Load()), 'append', ast.Load()), [e.elt], []))]
        s = ast.For(g.target, g.iter, body, [])
        self.sym_loop(n, item, s, cf)
        return lst

    def e_Attribute(self, e, fr):
        o = self.resolve(self.ev(e.value, fr))
        return self.attr(o, e.attr)

    def attr(self, o, k):
        from . import npm
        o = self.resolve(o)
        if isinstance(o, ModVal):
            if hasattr(o, 'frame'):
                d = self.st.frames[o.frame.fid]
                if k in d:
                    return d[k]
                raise PyExc('AttributeError', (k,))
            return self.external_attr(o, k)
        if isinstance(o, Obj):
            d = self.st.objs[o.oid]
            if k in d:
                v = d[k]
                if isinstance(v, Poison):
                    raise Unsupported(v.why)
                return v
            if k == '__class__':
                return o.cls
            try:
                v = o.cls.lookup(k)
            except KeyError:
                npm.absent(k, object)
            if isinstance(v, Closure):
                return Bound(v, o)
            return v
        if isinstance(o, ClassVal):
            try:
                return o.lookup(k)
            except KeyError:
                if k == '__name__':
                    return o.name
                npm.absent(k, type)
        if isinstance(o, (Arr, MArr)) or (isinstance(o, T) or isinstance(o, (int, float)) and not isinstance(o, bool)):
            return npm.arr_attr(self, o, k)
        if isinstance(o, Rec):
            if k in o.attrs:
                return o.attrs[k]
            raise Unsupported('.%s of an array of unknown rank' % k if o.name == 'any rank' else 'attribute %s of %s' % (k, o.name))
        if isinstance(o, PyList):
            return npm.list_attr(self, o, k)
        if isinstance(o, str):
            def strmeth(*a, **kw):
                return 'text'
            if k in ('format', 'join', 'upper', 'lower', 'strip'):
                return Prim('str.' + k, strmeth)
            if not hasattr('', k):
                raise PyExc('AttributeError', (k,))
            raise Unsupported('str.%s' % k)
        if isinstance(o, Opaque) and o.tag == 'dict':
            return npm.dict_attr(self, o, k)
        if isinstance(o, Prim) and k in ('outer', 'reduce', 'accumulate', 'at', 'reduceat'):
            return npm.ufunc_method(self, o, k)
        if isinstance(o, Opaque) and o.tag == 'exc':
            return 'text'
        if isinstance(o, Opaque) and isinstance(o.info, dict) and k in o.info:
            return o.info[k]
        if o is None or isinstance(o, (tuple, Closure, SymFun, bool)):
            if isinstance(o, (Closure, SymFun)) and k in ('__call__', '__name__'):
                return o if k == '__call__' else 'name'
            npm.absent(k, type(None) if o is None else tuple if isinstance(o, tuple) else bool if isinstance(o, bool) else type(lambda: 0))
        raise Unsupported('attribute %s of %r' % (k, o))

    def e_Call(self, e, fr):
        f = self.resolve(self.ev(e.func, fr))
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                c = self.concrete_items(self.ev(a.value, fr))
                if c is None:
                    raise Unsupported('starred argument')
                args += c
            else:
                args.append(self.ev(a, fr))
        for k in e.keywords:
            if k.arg is None:
                d = self.resolve(self.ev(k.value, fr))
                kw.update(self.st.dicts[d.info])
            else:
                kw[k.arg] = self.ev(k.value, fr)
        return self.call(f, args, kw)

    def call(self, f, args=(), kw=None):
        kw = kw or {}
        args = list(args)
        f = self.resolve(f)
        if isinstance(f, Prim):
            return f.f(*args, **kw)
        if isinstance(f, Bound):
            return self.call_closure(f.f, [f.self_] + args, kw)
        if isinstance(f, Closure):
            return self.call_closure(f, args, kw)
        if isinstance(f, ClassVal):
            o = Obj(f, self.uid())
            self.st.objs[o.oid] = {}
            key = (f.module.name, f.name + '.__init__')
            try:
                init = f.lookup('__init__')
            except KeyError:
                init = None
            if init is not None:
                self.call_closure(init, [o] + args, kw)
            elif args or kw:
                raise PyExc('TypeError')
            return o
        if isinstance(f, SymFun):
            return self.call_symfun(f, args, kw)
        if isinstance(f, Obj):
            try:
                m = f.cls.lookup('__call__')
            except KeyError:
                raise PyExc('TypeError', ('not callable',))
            return self.call_closure(m, [f] + args, kw)
        if isinstance(f, Opaque) and f.tag == 'exctype':
            return Opaque('exc', (f.info, tuple(args)))
        if isinstance(f, Opaque) and f.tag == 'pytype':
            return f.info[1](*args, **kw)
        if isinstance(f, Opaque):
            raise Unsupported('call of %r' % (f,))
        raise PyExc('TypeError', ('not callable',))

    def call_symfun(self, f, args, kw):
        if kw or len(args) != 1:
            raise Unsupported('call of a user function with other arguments')
        x = self.resolve(args[0])
        lamx = self.lamof(x) if isinstance(x, Arr) else term(x)
        self.st.events += (('call', f.name, self.frozen(x) if isinstance(x, Arr) else x, tuple(self.loopvars)),)
        if f.raises:
            r = app(f.name + '_raises', (self.ctx().canon(lamx),), 'B')
            if self.decide(r):
                raise PyExc('ModelError')
        return f.result(self, x, lamx)

    def stub_key(self, f):
        return (f.module.name if f.module is not None else '', f.name)

    def call_closure(self, f, args, kw):
        key = self.stub_key(f)
        stub = self.stubs.get(key) or self.stubs.get((key[0], '.' + key[1].split('.')[-1]) if '.' in key[1] else None)
        bound = self.bind(f, args, kw)
        if stub is not None and not getattr(self, '_nostub', None) == key:
            names = [a.arg for a in f.node.args.args]
            return stub(self, *[bound[n] for n in names])
        return self.run_closure(f, bound)

    def bind(self, f, args, kw):
        a = f.node.args
        names = [x.arg for x in a.args]
        bound = {}
        kw = dict(kw)
        if len(args) > len(names):
            if a.vararg is None:
                raise PyExc('TypeError', ('too many arguments',))
            bound[a.vararg.arg] = tuple(args[len(names):])
            args = args[:len(names)]
        elif a.vararg is not None:
            bound[a.vararg.arg] = ()
        for n, v in zip(names, args):
            bound[n] = v
        for n in names[len(args):]:
            if n in kw:
                bound[n] = kw.pop(n)
        nd = len(f.defaults)
        for n, d in zip(names[len(names) - nd:], f.defaults):
            if n not in bound:
                bound[n] = d
        for x in a.kwonlyargs:
            if x.arg in kw:
                bound[x.arg] = kw.pop(x.arg)
            elif x.arg in f.kwdefaults:
                bound[x.arg] = f.kwdefaults[x.arg]
        for n in names:
            if n in kw:
                raise PyExc('TypeError', ('multiple values',))
            if n not in bound:
                raise PyExc('TypeError', ('missing argument ' + n,))
        if kw:
            if a.kwarg is None:
                raise PyExc('TypeError', ('unexpected keyword',))
            did = self.uid()
            self.st.dicts[did] = kw
            bound[a.kwarg.arg] = Opaque('dict', did)
        elif a.kwarg is not None:
            did = self.uid()
            self.st.dicts[did] = {}
            bound[a.kwarg.arg] = Opaque('dict', did)
        return bound

    def run_closure(self, f, bound):
        self.depth += 1
        if self.depth > 40:
            raise Unsupported('recursion too deep')
        fr = Frame(self.uid(), f.frame, f.module)
        self.st.frames[fr.fid] = dict(bound)
        # local names that are assigned are local from the start
        if f.module is not None and f.name != '<lambda>':
            self.called[(f.module.name, f.name)] = self.called.get((f.module.name, f.name), 0) + 1
        saved = self._enter(f)
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, fr)
            if self.loopdepth > 0 and not getattr(f, '_nomerge', False):
                return self.merged(lambda: self._run_body(f, fr))
            return self._run_body(f, fr)
        finally:
            self.depth -= 1
            self._leave(saved)

    def _enter(self, f):
        return None

    def _leave(self, s):
        pass

    def _run_body(self, f, fr):
        try:
            self.block(f.node.body, fr)
        except ReturnSig as r:
            return r.value
        return None

    # -- drawing fresh uninterpreted values -------------------------------------------------------------------
    def fresh_fun(self, prefix, sort='R'):
        """a new function symbol; inside symbolic loops it depends on the loop indices"""
        name = '%s!%d' % (prefix, self.uid())
        lv = tuple(self.loopvars)
        return name, lambda idx: app(name, lv + tuple(idx), sort)

    def get(self, modname, fname):
        m = self.module(modname)
        d = self.st.frames[m.frame.fid]
        if '.' in fname:
            c, k = fname.split('.')
            if c not in d:
                raise Unsupported('%s.%s is gone' % (modname, fname))
            try:
                return d[c].lookup(k)
            except KeyError:
                raise Unsupported('%s.%s is gone' % (modname, fname))
        if fname not in d:
            raise Unsupported('%s.%s is gone' % (modname, fname))
        return d[fname]
