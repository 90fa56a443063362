"""Runs the units (contract proofs) of a property."""
import importlib
import os
import time
import traceback

from . import smt
from .prover import GiveUp
from .values import Unsupported, PyExc
from .unit import U, Wrong

UNITS = {}          # property -> [(name, functions, thunk, thorough_only, budget)]


def unit(pid, name, funcs, thorough=False, budget=60):
    def deco(f):
        UNITS.setdefault(pid, []).append((name, funcs, f, thorough, budget))
        return f
    return deco


BASE_ASSUMPTIONS = [
    'machine arithmetic is treated as mathematical: floats are reals, integers are unbounded, no NaN or infinity',
    'the engine (engine/) translates the Python/numpy semantics of the subset it accepts faithfully; it rejects what is outside',
    'partial correctness: loops without a bound are assumed to terminate',
]


def load(pid):
    here = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'contracts')
    for f in sorted(os.listdir(here)):
        if f.endswith('.py') and f.startswith('c_'):
            importlib.import_module('contracts.' + f[:-3])


def run_unit(entry, tier):
    name, funcs, f, thorough, budget = entry
    u = U(name, funcs, tier, budget if tier == 'quick' else budget * 4)
    reason = None
    t0 = time.time()
    try:
        f(u)
    except Unsupported as e:
        reason = 'outside the engine: %s' % e
    except Wrong as e:
        u.fail('form of the result', str(e))
    except GiveUp as e:
        reason = 'gave up: %s' % e
    except RecursionError:
        reason = 'recursion limit'
    except PyExc as e:
        reason = 'contract script met %s %s' % (e.name, e.eargs)
        if os.environ.get('VERIF_DEBUG'):
            traceback.print_exc()
    except Exception as e:
        reason = 'engine error %s: %s' % (type(e).__name__, e)
        if os.environ.get('VERIF_DEBUG'):
            traceback.print_exc()
    return u, reason, time.time() - t0


def verify(pid, tier, only=None):
    import sys
    sys.setrecursionlimit(20000)
    load(pid)
    out = dict(obligations=0, discharged=0, failed=[], functions=[], inlined=[], units=[], bounded=[], backends={}, solver_s=0.0,
               trusted=[], assumptions=list(BASE_ASSUMPTIONS), claimed_level=None)
    q0, s0 = smt.STATS['queries'], smt.STATS['time']
    funcs, inl, trust = set(), set(), set()
    for e in UNITS.get(pid, []):
        if e[3] and tier != 'thorough':
            continue
        if only and only not in e[0]:
            continue
        u, reason, dt = run_unit(e, tier)
        if reason is None and u.obl == 0:
            reason = 'no obligation was generated'
        if reason is not None:
            # what could not be brought within reach is decided by the bounded stand-in only; obligations of the unit are dropped
            out['bounded'].append('%s [%s]' % (u.name, reason))
            if tier == 'debug':
                pass
            continue
        out['bounded'] += ['%s: %s' % (u.name, x) for x in u.skips]
        out['units'].append(dict(unit=u.name, functions=u.funcs, obligations=u.obl, discharged=u.dis, paths=u.paths_seen,
                                 seconds=round(dt, 2), notes=u.assume_notes))
        out['obligations'] += u.obl
        out['discharged'] += u.dis
        out['failed'] += u.failed
        for k, v in u.by.items():
            out['backends'][k] = out['backends'].get(k, 0) + v
        funcs.update(u.funcs)
        if u.ip is not None:
            inl.update('%s.%s' % k for k in u.ip.called)
        trust |= u.trust
        out['assumptions'] += u.assume_notes
    out['functions'] = sorted(funcs)
    out['inlined'] = sorted(inl - funcs)
    out['trusted'] = sorted(trust)
    out['assumptions'] = list(dict.fromkeys(out['assumptions']))
    out['solver_s'] = smt.STATS['time'] - s0
    out['backends']['z3 queries'] = smt.STATS['queries'] - q0
    if not out['obligations']:
        out['claimed_level'] = 'exploration'
    return out
