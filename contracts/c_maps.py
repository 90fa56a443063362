"""Forward and inverse active-variable maps (P09)."""
from engine.run import unit
from contracts.common import *      # noqa: F401,F403


@unit('P09', 'forward', [DOM + '.ActiveVariableMap.forward', MISC + '.process_inputs'])
def forward(u):
    for split in ('n<m', 'n=m'):
        u.start()
        M, n, m = u.int('M', 0), u.int('n', 1), u.int('m', 1)
        u.assume(lt(n, m) if split == 'n<m' else eq(n, m))
        u.ip.base.rules.insert(0, w_rule(m))
        s, W, W1, W2 = orthonormal(u, m, n)
        dom = u.obj(DOM, 'UnboundedActiveVariableDomain', subspaces=s, m=m, n=n)
        mp = u.obj(DOM, 'UnboundedActiveVariableMap', domain=dom)
        X = u.arr('X', (M, m))
        for p in u.method(mp, 'forward', X):
            if p.kind != 'ok':
                u.fail('returns normally', p.exc)
                continue
            Y, Z = p.value
            q = fresh('q', 'I')
            x = lambda i, j: app('X', (i, j), 'R')
            u.all_eq('Y = X W1', p, Y, (M, n), lambda i, j: tsum(q, ZERO, m, mul(x(i, q), W_(q, j))))
            u.all_eq('Z = X W2', p, Z, (M, sub(m, n)), lambda i, j: tsum(q, ZERO, m, mul(x(i, q), W_(q, add(j, n)))))
            i, j = fresh('i', 'I'), fresh('j', 'I')
            a, b = fresh('a', 'I'), fresh('b', 'I')
            back = add(tsum(a, ZERO, n, mul(p.el(Y, i, a), W_(j, a))),
                       tsum(b, ZERO, sub(m, n), mul(p.el(Z, i, b), W_(j, add(b, n)))))
            u.prove('X = Y W1^T + Z W2^T', p, eq(back, x(i, j)), extra=bounded_((i, M), (j, m)))
            u.unchanged(p)
            u.den('defined', p)


def inverse_unit(u, bounded, split):
    stubs = {}
    u.start(stubs=stubs)
    ip = u.ip
    NY, n, m, N = u.int('NY', 1), u.int('n', 1), u.int('m', 1), u.int('N', 1)
    u.assume(lt(n, m) if split == 'n<m' else eq(n, m))
    ip.base.rules.insert(0, w_rule(m))
    s, W, W1, W2 = orthonormal(u, m, n)
    kind = 'Bounded' if bounded else 'Unbounded'
    dom = u.obj(DOM, kind + 'ActiveVariableDomain', subspaces=s, m=m, n=n)
    mp = u.obj(DOM, kind + 'ActiveVariableMap', domain=dom)
    Y = u.arr('Y', (NY, n))
    if bounded:
        def sample_z(ip_, N_, y, A1, A2):
            pass
            lv = tuple(ip_.loopvars)
            return ip_.mk((N, sub(m, n)), 'f', lambda i: app('sampled', lv + (i[0], i[1]), 'R'))
        stubs[(DOM, 'sample_z')] = sample_z
    for p in u.method(mp, 'inverse', Y, N):
        if p.kind != 'ok':
            u.fail('returns normally', p.exc)
            continue
        X, ind = p.value
        NN = mul(NY, N)
        for v, c, nm in ((X, m, 'points'), (ind, ONE, 'index')):
            v = p.thing(v)
            u.check(nm + ' two-dimensional', isinstance(v, Arr) and len(v.shape) == 2)
            u.equal(nm + ' rows', p, v.shape[0], NN)
            u.equal(nm + ' columns', p, v.shape[1], c)
        a, t, j = fresh('a', 'I'), fresh('t', 'I'), fresh('j', 'I')
        # the k-th point, k = a*N + t: index a (so each value of 0..NY-1 occurs exactly N times)
        k = add(mul(a, N), t)
        rng = bounded_((a, NY), (t, N))
        u.prove('index column', p, eq(p.el(ind, k, ZERO), real(a)), extra=rng)
        q = fresh('q', 'I')
        fwd = tsum(q, ZERO, m, mul(p.el(X, k, q), W_(q, j)))
        u.prove('forward of point k is the row its index names', p, eq(fwd, app('Y', (a, j), 'R')), extra=rng + bounded_((j, n)))
        if split == 'n<m':
            inact = tsum(q, ZERO, m, mul(p.el(X, k, q), W_(q, add(n, j))))
            rz = rng + bounded_((j, sub(m, n)))
            if not bounded:
                ds = p.events('draw')
                u.check('one draw of the normal generator', len(ds) == 1 and ds[0][1] == 'normal')
                u.check('standard normal', ds[0][4] == ('loc', 0, 'scale', 1), ds[0][4])
                name, shp = ds[0][2], ds[0][3]
                tot = ONE
                for d in shp:
                    tot = mul(tot, d)
                u.equal('one draw per point and inactive direction', p, tot, mul(NN, sub(m, n)))
                c = p.ctx(*rz)
                got = c.canon(inact)
                ok = got.k == 'app' and got.a[0] == name
                u.check('inactive coordinates are draws', ok, show(got, 12))
                if ok:
                    # injective: the draw used determines (point, direction)
                    sub_ = {a: fresh('a', 'I'), t: fresh('t', 'I'), j: fresh('j', 'I')}
                    oth = subst(got, sub_)
                    r2 = [subst(f, sub_) for f in rz]
                    u.prove('one draw per point', p, implies(and_(*[eq(x, y) for x, y in zip(got.a[1], oth.a[1])]),
                                                             and_(*[eq(x, y) for x, y in sub_.items()])), extra=rz + r2)
            else:
                u.prove('inactive coordinates are the sampled ones', p, eq(inact, app('sampled', (a, t, j), 'R')), extra=rz)
        u.unchanged(p)
        u.den('defined', p)


for kind_ in (False, True):
    for split_ in ('n<m', 'n=m'):
        if kind_ and split_ == 'n=m':
            continue
        nm_ = ('Bounded' if kind_ else 'Unbounded') + 'ActiveVariableMap'

        def f(u, kind_=kind_, split_=split_):
            inverse_unit(u, kind_, split_)
        unit('P09', '%s.inverse (%s)' % (nm_, split_), [DOM + '.ActiveVariableMap.inverse', DOM + '.%s.regularize_z' % nm_,
                                                       DOM + '._rotate_x', MISC + '.process_inputs'])(f)
