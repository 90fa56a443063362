"""A unit: one function (or call sequence) of the repository run symbolically against its contract."""
import os
import time
import traceback

from .terms import *           # noqa: F401,F403
from .values import *          # noqa: F401,F403
from .interp import Interp
from .prover import Ctx, GiveUp
from . import axioms, smt


class Path(object):
    def __init__(self, u, conds, kind, value, state):
        self.u, self.conds, self.kind, self.value, self.state = u, conds, kind, value, state

    @property
    def exc(self):
        return self.value.name if self.kind == 'exc' else None

    def ctx(self, *extra):
        ip = self.u.ip
        c = Ctx(self.state.pc + tuple(x for x in extra if x is not TRUE), ip.base.rules, ip.base.schemas)
        c.deadline = ip.base.deadline
        c.nonneg_heads, c.pos_heads = ip.base.nonneg_heads, ip.base.pos_heads
        return c

    def el(self, a, *idx):
        """element of a result array in the final state"""
        a = self.thing(a)
        if isinstance(a, Frozen):
            return subst(a.body, dict(zip(IDX, [dim(i) for i in idx])))
        if not isinstance(a, Arr):
            if not idx and is_scalar(a):
                return term(a)
            raise Wrong('expected an array, got %r' % (a,))
        if len(a.shape) != len(idx):
            raise Wrong('array has %d axes, the contract says %d' % (len(a.shape), len(idx)))
        return self.u.ip.frozen(a, self.state) and subst(self.u.ip.frozen(a, self.state).body, dict(zip(IDX, [dim(i) for i in idx])))

    def thing(self, a):
        while isinstance(a, Phi):
            c = self.ctx()
            if c.entails(a.c):
                a = a.a
            elif c.entails(not_(a.c)):
                a = a.b
            else:
                raise Wrong('value depends on %s' % show(a.c))
        return a

    def attr(self, o, k):
        d = self.state.objs[o.oid]
        if k not in d:
            raise Wrong('attribute %s is missing' % k)
        return self.thing(d[k])

    def events(self, *kinds):
        return [e for e in flatten(self.state.events) if not kinds or e[0] in kinds]


def flatten(evs):
    out = []
    for e in evs:
        out.append(e)
    return out


TIMING = bool(os.environ.get('VERIF_TIME'))


class Wrong(Exception):
    """the code's result does not have the form the contract requires"""


class U(object):
    def __init__(self, name, funcs, tier='quick', budget=60):
        self.name, self.funcs, self.tier = name, funcs, tier
        self.obl = 0
        self.dis = 0
        self.failed = []
        self.notes = []
        self.budget = budget
        self.facts = []
        self.ip = None
        self.trust = set()
        self.assume_notes = []
        self.paths_seen = 0
        self.inputs = []
        self.arrs = {}
        self.t0 = time.time()
        self.by = {}
        self.skips = []         # entry points of the unit that are left to the bounded stand-in

    # -- inputs -----------------------------------------------------------------------------------------------
    def start(self, stubs=None, rules=(), schemas=None, budget=None):
        self.inputs = []
        self.arrs = {}
        NONFIN.clear()
        sc = dict(axioms.SCHEMAS)
        sc.update(schemas or {})
        self.ip = Interp((), stubs=stubs, rules=list(rules) + list(axioms.RULES), schemas=sc)
        self.ip.base.deadline = time.time() + (budget or self.budget)
        return self.ip

    def int(self, name, lo=None, hi=None):
        v = var(name, 'I')
        if lo is not None:
            self.assume(le(dim(lo), v))
        if hi is not None:
            self.assume(le(v, dim(hi)))
        return v

    def real(self, name):
        return var(name, 'R')

    def assume(self, *fs):
        self.ip.assume(*fs)
        self.ip.base.facts += [f for f in fs]

    def arr(self, name, shape, dtype='f'):
        s = {'f': 'R', 'i': 'I', 'b': 'B'}[dtype]
        a = self.ip.mk(shape, dtype, lambda i: app(name, tuple(i), s))
        self.inputs.append((name, a.cell, self.ip.st.heap[a.cell]))
        self.arrs[a.cell] = a
        return a

    def obj(self, modname, cls, **attrs):
        c = self.ip.get(modname, cls)
        o = Obj(c, self.ip.uid())
        self.ip.st.objs[o.oid] = dict(attrs)
        return o

    def fun(self, name, result=None, raises=False, ncol=1):
        """a caller-supplied model: row-wise f(x) when ncol is given"""
        def res(ip, x, lamx):
            n = x.shape[0]
            return ip.mk((n, dim(ncol)), 'f', lambda i: app(name, (row(ip, x, i[0]), i[1]), 'R'))
        return SymFun(name, result or res, raises)

    # -- running ----------------------------------------------------------------------------------------------
    def run(self, thunk, limit=300):
        ps = self.ip.paths(thunk, limit)
        out = []
        for conds, kind, val, st in ps:
            p = Path(self, conds, kind, val, st)
            out.append(p)
        self.paths_seen += len(out)
        return out

    def call(self, mod, fname, *args, **kw):
        f = self.ip.get(mod, fname)
        return self.run(lambda: self.ip.call(f, list(args), kw))

    def method(self, o, name, *args, **kw):
        return self.run(lambda: self.ip.call(self.ip.attr(o, name), list(args), kw))

    # -- obligations ------------------------------------------------------------------------------------------
    def fail(self, name, why):
        self.obl += 1
        self.failed.append(dict(name='%s: %s' % (self.name, name), detail=str(why)[:3000]))

    def ok(self, name, by='structural'):
        self.obl += 1
        self.dis += 1
        self.by[by] = self.by.get(by, 0) + 1

    def check(self, name, cond, why=''):
        """an obligation settled by comparing the structure of the result"""
        if cond:
            self.ok(name)
        else:
            self.fail(name, why or 'does not hold')

    def expect(self, cond, what):
        """the script can only read code of this form; otherwise the unit is left to the bounded stand-in"""
        if not cond:
            raise Unsupported('the contract script does not recognise: %s' % what)

    def prove(self, name, p, goal, hints=(), extra=()):
        if TIMING:
            print('T %.1f %s' % (time.time() - self.t0, name), flush=True)
        """an obligation on path p"""
        goal = lift(goal) if isinstance(goal, bool) else goal
        c = p.ctx(*extra) if isinstance(p, Path) else p.child(list(extra)) if extra else p
        q0 = smt.STATS['queries']
        try:
            ok, why = c.prove(goal, 0, hints)
        except GiveUp as e:
            ok, why = False, 'gave up: %s; goal %s' % (e, show(goal, 8)[:800])
        if ok:
            self.ok(name, 'z3' if smt.STATS['queries'] > q0 else 'normal form')
        else:
            # an inconsistent path proves anything
            try:
                if not c.consistent():
                    self.ok(name, 'z3')
                    return True
            except GiveUp:
                pass
            self.fail(name, why)
        return ok

    def holds(self, p, goal, hints=(), extra=()):
        """whether the goal can be proved; used to choose between forms of an argument, records nothing"""
        try:
            c = p.ctx(*extra) if isinstance(p, Path) else p.child(list(extra)) if extra else p
            return bool(c.prove(lift(goal) if isinstance(goal, bool) else goal, 0, hints)[0])
        except GiveUp:
            return False

    def equal(self, name, p, a, b, hints=(), extra=()):
        return self.prove(name, p, eq(a, b), hints, extra)

    def all_eq(self, name, p, arr, shape, spec, hints=()):
        """array result: shape and every element"""
        arr = p.thing(arr)
        if not isinstance(arr, (Arr, Frozen)):
            return self.fail(name, 'not an array: %r' % (arr,))
        if len(arr.shape) != len(shape):
            return self.fail(name, 'has %d axes, contract says %d' % (len(arr.shape), len(shape)))
        for i, (d, e) in enumerate(zip(arr.shape, shape)):
            if d is not dim(e):
                self.prove(name + ' (shape %d)' % i, p, eq(d, dim(e)))
        idx = [ZERO if dim(d) is ONE else fresh('i', 'I') for d in shape]
        rng = [f for v, d in zip(idx, shape) if v is not ZERO for f in (le(ZERO, v), lt(v, dim(d)))]
        self.prove(name, p, eq(p.el(arr, *idx), term(spec(*idx))), hints, extra=rng)

    def den(self, name, p):
        for i, d in enumerate(dict.fromkeys(p.state.den)):
            self.prove('%s (defined %d)' % (name, i), p, d)

    def unchanged(self, p, name='arguments unchanged'):
        bad = []
        for n, cell, init in self.inputs:
            if p.state.heap[cell][2] is not init[2]:
                if not p.ctx().prove(eq(p.state.heap[cell][2], init[2]))[0]:
                    bad.append(n)
        self.check(name, not bad, 'the array passed in is written: %s' % bad)

    def trusted(self, *names):
        for n in names:
            self.trust.add(axioms.TRUSTED.get(n, n))

    def assumption(self, s):
        self.assume_notes.append(s)


def row(ip, x, r):
    """row r of a 2-d array as a lambda term"""
    v = fresh('l', 'I')
    return lam([v], [x.shape[1]], ip.at(x, [r, v]))


def families(evs, kinds, binders=(), guard=()):
    """events of the given kinds as (binders, guards, event), loops flattened"""
    out = []
    for e in evs:
        if e[0] == 'loop':
            out += families(e[3], kinds, binders + ((e[1], e[2]),), guard)
        elif e[0] == 'phi':
            out += families(e[2], kinds, binders, guard + (e[1],))
            out += families(e[3], kinds, binders, guard + (not_(e[1]),))
        elif e[0] in kinds:
            out.append((binders, guard, e))
    return out
