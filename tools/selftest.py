#!/usr/bin/env python3
"""Differential test of the engine against numpy: every snippet of selftest_snippets.py and a list of functions of /repo are
executed symbolically once; the result terms are then evaluated at random inputs and compared with the real execution.

usage: /opt/venv/bin/python tools/selftest.py [name-prefix] [trials]
exit 1 when a result differs (an unsoundness of the engine); snippets the engine does not accept are listed."""
import inspect
import math
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
import numpy as np
import engine.run      # noqa: F401  (sets up /repo on the path)
from engine.unit import U, Path
from engine.values import *     # noqa: F401,F403
from engine.interp import load_tree
from engine.prover import GiveUp

HERE = os.path.dirname(os.path.abspath(__file__))
SNIP = os.path.join(HERE, 'selftest_snippets.py')


class NoValue(Exception):
    pass


class Ev(object):
    """value of a term under numbers for variables and arrays for array symbols"""

    def __init__(self, env):
        self.env = env
        self.memo = {}

    def __call__(self, t, b=None):
        b = b or {}
        key = (t, tuple(b.get(v) for v in sorted(fv(t), key=lambda v: v.id) if v in b)) if b else (t, None)
        if key in self.memo:
            return self.memo[key]
        r = self.memo[key] = self.ev(t, b)
        return r

    def ev(self, t, b):
        k = t.k
        if k == 'num':
            return int(t.a[0]) if t.a[0].denominator == 1 else float(t.a[0])
        if k == 'var':
            if t in b:
                return b[t]
            if t.a[0] in self.env:
                return self.env[t.a[0]]
            raise NoValue(t.a[0])
        if k in ('true', 'false'):
            return k == 'true'
        if k == 'add':
            return (int(t.a[0]) if t.a[0].denominator == 1 else float(t.a[0])) + sum((int(c) if c.denominator == 1 else float(c)) * self(x, b) for x, c in t.a[1])
        if k == 'mul':
            r = 1
            for x, e in t.a[0]:
                r = r * (self(x, b) ** e if e >= 0 else 1.0 / self(x, b) ** -e)
            return r
        if k == 'ite':
            return self(t.a[1], b) if self(t.a[0], b) else self(t.a[2], b)
        if k in ('le', 'lt', 'eq'):
            x, y = self(t.a[0], b), self(t.a[1], b)
            if k == 'eq':
                return abs(x - y) < 1e-9
            return x <= y + 1e-9 if k == 'le' else x < y
        if k == 'not':
            return not self(t.a[0], b)
        if k == 'and':
            return all(self(x, b) for x in t.a)
        if k == 'or':
            return any(self(x, b) for x in t.a)
        if k == 'fdiv':
            return self(t.a[0], b) // self(t.a[1], b)
        if k == 'mod':
            return self(t.a[0], b) % self(t.a[1], b)
        if k in ('sum', 'prod', 'all'):
            v, lo, hi, body = t.a
            vals = (self(body, dict(b, **{}) | {v: i}) for i in range(int(self(lo, b)), int(self(hi, b))))
            return sum(vals) if k == 'sum' else all(vals) if k == 'all' else math.prod(vals)
        if k == 'lam':
            vs, dims, body = t.a
            shape = [int(self(d, b)) for d in dims]
            A = np.zeros(shape)
            for ix in np.ndindex(*shape):
                A[ix] = self(body, b | dict(zip(vs, ix)))
            return A
        if k == 'app':
            return self.app(t.a[0], t.a[1], b)
        raise NoValue(k)

    def app(self, f, args, b):
        if f in self.env and isinstance(self.env[f], np.ndarray):
            ix = tuple(int(self(x, b)) for x in args)
            if any(i < 0 or i >= n for i, n in zip(ix, self.env[f].shape)):
                return 0        # outside the array: never used by a defined result
            return self.env[f][ix].item()
        x = [self(y, b) for y in args]
        one = dict(abs=abs, sqrt=lambda z: math.sqrt(max(z, 0)), floor=math.floor, exp=math.exp, log=math.log, sin=math.sin, cos=math.cos,
                   sign=lambda z: (z > 0) - (z < 0), min2=min, max2=max, pow=lambda p, q: p ** q, round=lambda z: float(np.round(z)))
        if f in one:
            return one[f](*x)
        if f in ('amin', 'amax', 'argmin', 'argmax'):
            return getattr(np, f)(x[0]).item()
        if f in ('amin_if', 'amax_if'):
            return (np.amin if f == 'amin_if' else np.amax)(x[0][x[1] != 0])
        if f == 'argsort':
            return int(np.argsort(x[0])[int(x[1])]) if 0 <= x[1] < x[0].size else 0
        if f == 'sel':
            nz = np.nonzero(x[0].ravel())[0]
            return int(nz[int(x[1])]) if 0 <= x[1] < nz.size else 0
        if f == 'count':
            return int(np.count_nonzero(x[0]))
        if f in ('eigval', 'eigvec'):
            e, V = np.linalg.eigh(x[0])
            return e[int(x[1])].item() if f == 'eigval' else V[int(x[1]), int(x[2])].item()
        if f == 'chol':
            return np.linalg.cholesky(x[0])[int(x[1]), int(x[2])].item()
        if f == 'solve':
            return np.linalg.solve(x[0], x[1])[tuple(int(i) for i in x[2:])].item()
        if f == 'matinv':
            return np.linalg.inv(x[0])[int(x[1]), int(x[2])].item()
        if f == 'lstsq':
            return np.linalg.lstsq(x[0], x[1], rcond=None)[0][tuple(int(i) for i in x[2:])].item()
        if f == 'norm2':
            return float(np.linalg.norm(x[0], 2))
        if f == 'comb':
            return math.comb(int(x[0]), int(x[1]))
        raise NoValue('%s/%d' % (f, len(args)))


def value(ev, p, v):
    """a result of the symbolic run as numbers and arrays"""
    v = p.u.ip.resolve(v) if not isinstance(v, Phi) else v
    while isinstance(v, Phi):
        v = v.a if ev(v.c) else v.b
    if isinstance(v, tuple):
        return tuple(value(ev, p, x) for x in v)
    if isinstance(v, PyList):
        raise NoValue('list')
    if isinstance(v, Arr):
        shape = [int(ev(dim(d))) for d in v.shape]
        idx = [fresh('i', 'I') for _ in shape]
        el = p.el(v, *idx)
        A = np.zeros(shape)
        for ix in np.ndindex(*shape):
            A[ix] = ev(el, dict(zip(idx, ix)))
        return A
    if v is None or isinstance(v, (str, bool, int, float)):
        return v
    if is_scalar(v):
        return ev(term(v))
    raise NoValue(repr(v))


def inputs(u):
    M, m, n = u.int('M', 1), u.int('m', 1), u.int('n', 1)
    p = u.int('p', 0)
    u.assume(le(p, M))
    d = dict(M=M, m=m, n=n, p=p, a=u.real('a'), b=u.real('b'), a2=u.real('a2'), m1=add(m, ONE))
    u.assume(lt(RZERO, d['a2']))
    for nm, sh in SHAPES.items():
        d[nm] = u.arr(nm, tuple(dim(d[s]) if isinstance(s, str) and s in d else mul(M, m) if s == 'Mm' else dim(s) for s in sh), 'i' if nm == 'K' else 'f')
    i = fresh('i', 'I')
    u.assume(tall(i, ZERO, M, and_(le(ZERO, app('K', (i,), 'I')), lt(app('K', (i,), 'I'), M))))
    j = fresh('j', 'I')
    for nm, n1, n2 in (('w2', M, ONE), ('u2', m, ONE), ('W2', M, num(2))):
        u.assume(tall(i, ZERO, n1, tall(j, ZERO, n2, lt(RZERO, app(nm, (i, j), 'R')))))
    return d


SHAPES = dict(w2=('M', 1), u2=('m', 1), T3=('M', 'm', 'n'), S2=('m1', 'm1'), W2=('M', 2), X=('M', 'm'), X2=('M', 'm'), Y=('m', 'n'), S=('m', 'm'), v=('M',), u=('m',), w=('M', 1), r=(1, 'm'), K=('M',), Z=('Mm',))


REPO = [        # functions of /repo on the same inputs
    ('utils.misc', 'process_inputs', 'X'), ('utils.misc', 'process_inputs', 'v'), ('utils.misc', 'process_inputs_outputs', 'X w'),
    ('utils.misc', 'process_inputs_outputs', 'X v'), ('utils.misc', 'process_inputs_outputs', 'Y w'), ('utils.misc', 'atleast_2d_col', 'v'),
    ('utils.misc', 'atleast_2d_row', 'v'), ('utils.misc', 'atleast_2d', 'v'), ('utils.misc', 'atleast_2d', 'X'),
    ('utils.misc', 'conditional_expectations', 'w K'), ('subspaces', 'active_subspace', 'X w'), ('subspaces', 'sorted_eigh', 'S'),
    ('subspaces', 'ols_subspace', 'X w w2'), ('subspaces', 'eig_partition', 'u2'), ('subspaces', 'eig_partition', 'w2'),
    ('subspaces', 'errbnd_partition', 'u2 v'), ('domains', 'interval_endpoints', 'w'), ('domains', '_rotate_x', 'w T3 S2'),
    ('utils.quadrature', 'r_hermite', 'M'), ('utils.quadrature', 'points_per_dimension', 'M n'), ('utils.quadrature', 'jacobi_matrix', 'W2'),
    ('utils.response_surfaces', 'exponential_squared', 'X X2 a2 u2'),
    ('utils.response_surfaces', 'grad_exponential_squared', 'X X2 a2 u2'), ('utils.designs', 'interval_design', 'a b M'),
    ('utils.designs', '_maximin_design_obj', 'Z X'),
    ('gradients', 'local_linear_gradients', 'v w'), ('gradients', 'local_linear_gradients', 'Y w'),
]


def draw(rng):
    e = dict(M=int(rng.integers(1, 5)), m=int(rng.integers(1, 4)), n=int(rng.integers(1, 4)))
    e['m1'] = e['m'] + 1
    e['a2'] = float(rng.random() + .1)
    e['p'] = int(rng.integers(0, e['M'] + 1))
    for nm, sh in SHAPES.items():
        shape = tuple(e['M'] * e['m'] if s == 'Mm' else e.get(s, s) for s in sh)
        A = rng.normal(size=shape)
        if rng.random() < .3:
            A = np.round(A)
        if nm in ('w2', 'u2', 'W2'):
            A = np.abs(A) + .1
        e[nm] = A if nm != 'K' else rng.integers(0, e['M'], size=shape)
    e['a'], e['b'] = float(rng.normal()), float(rng.normal())
    return e


def agree(x, y):
    if isinstance(x, tuple) or isinstance(y, tuple):
        return isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y) and all(agree(s, t) for s, t in zip(x, y))
    if x is None or y is None or isinstance(x, str):
        return x is y or x == y
    x, y = np.asarray(x, dtype=float), np.asarray(y, dtype=float)
    return x.shape == y.shape and np.allclose(x, y, rtol=1e-7, atol=1e-8)


def main(prefix='', trials=40):
    import py2compat
    ns = {py2compat.DIV: py2compat.py2_div}
    exec(compile(load_tree(SNIP), SNIP, 'exec'), ns)
    import importlib
    jobs = []
    for mod, f, args in REPO:
        real = importlib.import_module('active_subspaces.' + mod)
        jobs.append((mod + '.' + f, mod, f, args.split(), getattr(real, f)))
    names = [k for k, f in ns.items() if inspect.isfunction(f) and f.__code__.co_filename == SNIP and k.startswith(prefix)]
    rng = np.random.default_rng(1)
    bad, skip, good = [], [], 0
    for k in names:
        jobs.append((k, SNIP, k, list(inspect.signature(ns[k]).parameters), ns[k]))
    for k, mod, fname, args, real_f in jobs:
        if not k.startswith(prefix):
            continue
        u = U(k, [])
        u.start()
        try:
            d = inputs(u)
            paths = u.call(mod, fname, *[d[a] for a in args])
        except (Unsupported, GiveUp) as e:
            skip.append((k, str(e)[:100]))
            continue
        why = None
        for t in range(int(trials)):
            e = draw(rng)
            ev = Ev(e)
            try:
                with np.errstate(all='ignore'):
                    real = ('ok', real_f(*[e[a].copy() if isinstance(e[a], np.ndarray) else e[a] for a in args]))
            except Exception as ex:
                real = ('exc', type(ex).__name__)
            try:
                live = [p for p in paths if all(ev(c) for c in p.state.pc)]
                if not live:
                    why = 'no path covers %s' % {a: e[a] for a in args}
                    break
                for p in live:
                    if p.kind != real[0]:
                        why = '%s, the code: %s %s for %s' % (p.kind, real[0], real[1], {a: e[a] for a in args})
                    elif p.kind == 'ok':
                        got = value(ev, p, p.value)
                        if not agree(got, real[1]):
                            why = 'engine %r, the code %r for %s' % (got, real[1], {a: e[a] for a in args})
                if why:
                    break
            except NoValue as ex:
                skip.append((k, 'cannot evaluate %s' % ex))
                why = 0
                break
        if why:
            bad.append((k, why))
        elif why is None:
            good += 1
    for k, s in skip:
        print('not decided', k, s)
    for k, s in bad:
        print('DIFFERS', k, s)
    print('%d programs agree on %s inputs each, %d differ, %d not accepted' % (good, trials, len(bad), len(skip)))
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main(*sys.argv[1:]))
