"""Concrete layer: executable forms of the contracts, run on the real code in /repo.

Used (1) to look for a failing input when an obligation of the deductive layer is not discharged (replay of a
refutation on the real code) and (2) as the labelled, bounded stand-in for what the deductive layer cannot reach.
A case draws one input from its generator and checks the contract on it; everything is a function of VERIF_SEED.
"""
import contextlib
import io
import os
import signal
import sys
import time
import traceback
import warnings
import zlib

import numpy as np

CASES = {}


class Fail(Exception):
    pass


class Skip(Exception):
    pass


class TimedOut(Exception):
    pass


def case(pid, n=60, slow=False):
    def deco(f):
        CASES.setdefault(pid, []).append((f.__name__, f, n, slow))
        return f
    return deco


def check(cond, msg, *info):
    if not cond:
        raise Fail(msg + ''.join('\n    %s' % (repr(x),) for x in info))


def close(a, b, msg, rtol=1e-7, atol=1e-9, *info):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    check(a.shape == b.shape, '%s: shape %s, expected %s' % (msg, a.shape, b.shape), *info)
    if a.size == 0:
        return
    check(np.all(np.isfinite(a)), '%s: not finite' % msg, a)
    err = np.abs(a - b)
    lim = atol + rtol * max(np.max(np.abs(b)), 0)
    check(np.all(err <= lim), '%s: differs by %g (allowed %g)' % (msg, np.max(err), lim), a, b, *info)


def raises(f, exc=Exception):
    try:
        f()
    except exc:
        return True
    except Exception:
        return False
    return False


class R(object):
    """input generator"""

    def __init__(self, seed):
        self.r = np.random.RandomState(seed)

    def __getattr__(self, k):
        return getattr(self.r, k)

    def int(self, a, b):
        return int(self.r.randint(a, b + 1))

    def pick(self, *xs):
        return xs[self.r.randint(len(xs))]

    def chance(self, p):
        return self.r.rand() < p

    def mat(self, *shape):
        return self.r.normal(size=shape)

    def layout(self, A):
        """same values, other memory layout"""
        k = self.r.randint(4)
        if k == 0:
            return np.asfortranarray(A)
        if k == 1 and A.ndim == 2:
            B = np.zeros((A.shape[0], 2 * A.shape[1] + 1), dtype=A.dtype)
            B[:, 1::2] = A
            return B[:, 1::2]
        if k == 2 and A.ndim == 2:
            return A[::-1].copy()[::-1]
        return A.copy()

    def orth(self, m, kinds=('qr', 'qr', 'qr', 'perm', 'block', 'haar0')):
        kind = self.pick(*kinds)
        if kind == 'perm':
            W = np.eye(m)[:, self.r.permutation(m)]
            W = W * self.r.choice([-1.0, 1.0], size=m)
        elif kind == 'block' and m >= 3:
            k = self.int(1, m - 1)
            W = np.zeros((m, m))
            W[:k, :k] = np.linalg.qr(self.mat(k, k))[0]
            W[k:, k:] = np.linalg.qr(self.mat(m - k, m - k))[0]
            W = W[self.r.permutation(m)][:, self.r.permutation(m)]
        elif kind == 'haar0' and m >= 2:
            A = self.mat(m, m)
            A[self.int(0, m - 1), self.int(0, m - 1)] = 0
            W = np.linalg.qr(A)[0]
        else:
            W = np.linalg.qr(self.mat(m, m))[0]
        return W


_real_get_state, _real_set_state = np.random.get_state, np.random.set_state


def seed_of(seed, name, i):
    return zlib.crc32(('%s/%s/%s' % (seed, name, i)).encode()) & 0x7fffffff


@contextlib.contextmanager
def limit(seconds):
    def h(*a):
        raise TimedOut('no result within %d s' % seconds)
    old = signal.signal(signal.SIGALRM, h)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def run_one(f, name, seed, i, timeout=90):
    """None when the contract held (or the input was skipped: 'skip'), else a failure text"""
    s = seed_of(seed, name, i)
    np.random.seed(s % (2 ** 31))
    buf = io.StringIO()
    try:
        with warnings.catch_warnings(), np.errstate(all='ignore'), limit(timeout), contextlib.redirect_stdout(buf), \
                contextlib.redirect_stderr(buf):
            warnings.simplefilter('ignore')
            f(R(s))
    except Skip:
        return 'skip'
    except Fail as e:
        return 'FAIL ' + str(e)
    except TimedOut as e:
        return 'FAIL timed out: ' + str(e)
    except Exception as e:
        if str(e).startswith('SLSQP failed'):
            return 'skip'          # the local solver gave up and the routine raised, as it should
        tb = traceback.extract_tb(e.__traceback__)
        where = ' <- '.join('%s:%s' % (os.path.basename(x.filename), x.lineno) for x in tb[::-1][:6])
        return 'FAIL raised %s: %s at %s' % (type(e).__name__, str(e)[:300], where)
    return None


def run_all(pid, seed, tier, budget):
    """-> (stats, failures)"""
    t0 = time.time()
    cases = CASES.get(pid, [])
    stats = dict(evaluations=0, skipped=0, samples=[], per_case={})
    fails = []
    mult = 1 if tier == 'quick' else 12
    for name, f, n, slow in cases:
        n = n * mult
        done = skipped = 0
        share = budget / max(len(cases), 1)
        t1 = time.time()
        for i in range(n):
            if done >= 5 and time.time() - t1 > share * (1 if tier == 'quick' else 1) and time.time() - t0 > budget * 0.5:
                break
            r = run_one(f, name, seed, i)
            if r == 'skip':
                skipped += 1
                continue
            done += 1
            if r is not None:
                if 'timed out' in r:
                    r2 = run_one(f, name, seed, i, timeout=200)
                    if r2 is None or r2 == 'skip':
                        continue
                fails.append(dict(case=name, index=i, seed=seed, message=r))
                break
        if done == 0 and skipped:
            fails.append(dict(case=name, index=0, seed=seed, message='FAIL no input could be evaluated (%d rejected)' % skipped))
        stats['evaluations'] += done
        stats['skipped'] += skipped
        stats['per_case'][name] = done
        if done:
            stats['samples'].append('%s #0 (generator seed %d)' % (name, seed_of(seed, name, 0)))
    return stats, fails
