"""Estimators on affine and quadratic data (P03)."""
from engine.run import unit
from contracts.common import *      # noqa: F401,F403
from contracts import common as CM
from contracts.c_subspaces import eig_result

URS = 'utils.response_surfaces'
b_ = lambda i: app('b', (i,), 'R')


def positive(u, M):
    w = u.arr('w', (M, ONE))
    k = fresh('k', 'I')
    u.assume(tall(k, ZERO, M, lt(RZERO, app('w', (k, ZERO), 'R'))))
    return w


def rank_one_result(u, ps, m, tag=''):
    ok = 0
    for p in ps:
        if p.kind != 'ok':
            u.fail(tag + 'returns normally', '%s %s' % (p.exc, p.value.eargs))
            continue
        ok += 1
        eig_result(u, p, p.value, lambda i, j: mul(b_(i), b_(j)), m, tag)
        u.unchanged(p)
    u.check(tag + 'returns', ok > 0)


@unit('P03', 'global linear model', [SUB + '.ols_subspace', SUB + '.sorted_eigh', MISC + '.process_inputs_outputs'])
def ols(u):
    u.trusted('lstsq', 'eigval', 'argsort')
    u.assumption('general position: the weighted matrix [1 X] has independent columns, so the least-squares solution of consistent data is the coefficient vector')
    u.start()
    ip = u.ip
    M, m = u.int('M', 1), u.int('m', 1)
    X, w = u.arr('X', (M, m)), positive(u, M)
    k = fresh('k', 'I')
    fi = lambda i: add(app('c0', (), 'R'), tsum(k, ZERO, m, mul(b_(k), app('X', (i, k), 'R'))))
    f = ip.mk((M, ONE), 'f', lambda i: fi(i[0]))
    seen = []

    def lstsq(ip_, A, y):
        seen.append(1)
        i, j = fresh('i', 'I'), fresh('j', 'I')
        c = ip_.ctx()
        u.prove('least squares: a row per sample, a column per coefficient', c, and_(eq(A.shape[0], M), eq(A.shape[1], add(m, ONE)), eq(y.shape[0], M)))
        c = c.child(bounded_((i, M), (j, add(m, ONE))))
        Ai = lambda j: ip_.at(ip_.frozen(A), [i, j])
        u.prove('least squares: no sample is dropped', c, not_(eq(Ai(ZERO), RZERO)))
        u.prove('least squares: row i is a multiple of [1 x_i]', c, eq(Ai(j), mul(Ai(ZERO), ite(eq(j, ZERO), RONE, app('X', (i, sub(j, ONE)), 'R')))))
        u.prove('least squares: the right-hand side is the same multiple of f_i', c,
                eq(ip_.at(ip_.frozen(y), [i] + [ZERO] * (len(y.shape) - 1)), mul(Ai(ZERO), fi(i))))
        return ip_.mk((add(m, ONE),) + tuple(y.shape[1:]), 'f', lambda i: ite(eq(i[0], ZERO), app('c0', (), 'R'), b_(sub(i[0], ONE))))
    ip.hooks['lstsq'] = lstsq
    CM.psd(u, m, ONE, lambda s: RONE, lambda s, i: b_(i))
    rank_one_result(u, u.call(SUB, 'ols_subspace', X, f, w), m)
    u.expect(bool(seen), 'a least-squares problem is solved')


@unit('P03', 'local linear models', [SUB + '.opg_subspace', SUB + '.active_subspace', SUB + '.sorted_eigh', MISC + '.process_inputs_outputs'])
def opg(u):
    u.trusted('eigval', 'argsort')
    u.assumption('contract of local_linear_gradients (P07): for affine data every row is the gradient, at least one row')
    u.start()
    ip = u.ip
    M, m = u.int('M', 2), u.int('m', 2)
    X, w = u.arr('X', (M, m)), positive(u, M)
    f = u.arr('f', (M, ONE))
    R = u.int('R', 1)

    def gradients(ip_, X2, f2, p=None, weights=None):
        c = ip_.ctx()
        i, k = fresh('i', 'I'), fresh('k', 'I')
        X2, f2 = ip_.resolve(X2), ip_.resolve(f2)
        u.check('the estimator gets inputs and outputs', isinstance(X2, Arr) and isinstance(f2, Arr))
        u.prove('the estimator gets all inputs', c, and_(eq(X2.shape[0], M), eq(X2.shape[1], m), eq(f2.shape[0], M)))
        c2 = c.child(bounded_((i, M), (k, m)))
        u.prove('the estimator gets the inputs', c2, eq(ip_.at(ip_.frozen(X2), [i, k]), app('X', (i, k), 'R')))
        u.prove('the estimator gets the outputs', c2, eq(ip_.at(ip_.frozen(f2), [i] + [ZERO] * (len(f2.shape) - 1)), app('f', (i, ZERO), 'R')))
        if weights is not None:
            w2 = ip_.resolve(weights)
            u.prove('the estimator gets positive weights, one per sample', c2, and_(eq(w2.shape[0], M), lt(RZERO, ip_.at(ip_.frozen(w2), [i] + [ZERO] * (len(w2.shape) - 1)))))
        return ip_.mk((R, m), 'f', lambda i: b_(i[1]))
    for nm in (SUB, GR):
        ip.stubs[(nm, 'local_linear_gradients')] = gradients
    CM.psd(u, m, R, lambda s: div(RONE, real(R)), lambda s, i: b_(i))
    rank_one_result(u, u.call(SUB, 'opg_subspace', X, f, w), m)


def quadratic(inside):
    def f(u):
        u.trusted('eigval', 'argsort')
        u.assumption('contract of PolynomialApproximation.train for order 2 (P15): on quadratic data g is the gradient at the origin, H the Hessian')
        u.start()
        ip = u.ip
        M, m = u.int('M', 1), u.int('m', 1)
        X, w = u.arr('X', (M, m)), positive(u, M)
        f = u.arr('f', (M, ONE))
        i, k = fresh('i', 'I'), fresh('k', 'I')
        if inside == 'inside':
            u.assume(tall(i, ZERO, M, tall(k, ZERO, m, and_(le(num(-1, 'R'), app('X', (i, k), 'R')), le(app('X', (i, k), 'R'), RONE)))))
            gamma = num(Fr(1, 3), 'R')
        else:
            i0, k0 = u.int('i0', 0), u.int('k0', 0)
            x = app('X', (i0, k0), 'R')
            u.assume(lt(i0, M), lt(k0, m), lt(RONE, x) if inside == 'above' else lt(x, num(-1, 'R')))
            gamma = RONE
        t = fresh('t', 'I')
        # a symmetric matrix: h diag(sg) h^T (every symmetric matrix has this form)
        H = lambda a, b: tsum(t, ZERO, m, mul(app('sg', (t,), 'R'), app('h', (a, t), 'R'), app('h', (b, t), 'R')))

        def train(ip_, s, X2, f2, weights=None):
            c = ip_.ctx()
            X2, f2 = ip_.resolve(X2), ip_.resolve(f2)
            u.prove('the model is quadratic', c, eq(term(ip_.resolve(ip_.attr(s, 'N'))), num(2)))
            u.prove('the model gets all samples', c, and_(eq(X2.shape[0], M), eq(X2.shape[1], m), eq(f2.shape[0], M)))
            c2 = c.child(bounded_((i, M), (k, m)))
            u.prove('the model gets the inputs', c2, eq(ip_.at(ip_.frozen(X2), [i, k]), app('X', (i, k), 'R')))
            u.prove('the model gets the outputs', c2, eq(ip_.at(ip_.frozen(f2), [i] + [ZERO] * (len(f2.shape) - 1)), app('f', (i, ZERO), 'R')))
            if weights is not None:
                w2 = ip_.resolve(weights)
                u.prove('the model gets positive weights, one per sample', c2, and_(eq(w2.shape[0], M), lt(RZERO, ip_.at(ip_.frozen(w2), [i] + [ZERO] * (len(w2.shape) - 1)))))
            ip_.st.objs[s.oid]['g'] = ip_.mk((m, ONE), 'f', lambda i: b_(i[0]))
            ip_.st.objs[s.oid]['H'] = ip_.mk((m, m), 'f', lambda i: H(i[0], i[1]))
        ip.stubs[(URS, 'PolynomialApproximation.train')] = train
        CM.psd(u, m, m, lambda s: gamma, lambda s, i: H(i, s), more=b_)
        q = fresh('q', 'I')
        C = lambda a, b: add(mul(b_(a), b_(b)), mul(gamma, tsum(q, ZERO, m, mul(H(a, q), H(q, b)))))
        ok = 0
        for p in u.call(SUB, 'qphd_subspace', X, f, w):
            if p.kind != 'ok':
                u.fail('returns normally', '%s %s' % (p.exc, p.value.eargs))
                continue
            ok += 1
            eig_result(u, p, p.value, C, m)
            u.unchanged(p)
        u.check('returns', ok > 0)
    unit('P03', 'global quadratic model, ' + {'inside': 'inputs in [-1, 1]', 'above': 'an input above 1', 'below': 'an input below -1'}[inside],
         [SUB + '.qphd_subspace', SUB + '.sorted_eigh', MISC + '.process_inputs_outputs'])(f)


for inside_ in ('inside', 'above', 'below'):
    quadratic(inside_)


@unit('P03', 'rank one', [SUB + '.sorted_eigh'])
def rank_one(u):
    """lemma over the contract of the estimators: when the decomposed matrix is b b^T, decreasing nonnegative e and column-orthonormal W with
    W diag(e) W^T = b b^T have e_0 = |b|^2, e_k = 0 for k >= 1, and the first column is parallel to b"""
    u.start()
    ip = u.ip
    m = u.int('m', 1)
    W = lambda i, k: app('W', (i, k), 'R')
    e = lambda k: app('e', (k,), 'R')
    i, j, k, l, q = [fresh(c, 'I') for c in 'ijklq']
    ip.base.rules.insert(0, axioms.orth_rule('W', lambda a: m, cols=False))
    rec = lambda i, j: tsum(q, ZERO, m, mul(mul(W(i, q), e(q)), W(j, q)))
    y = lambda k: tsum(i, ZERO, m, mul(b_(i), W(i, k)))
    c = ip.ctx().child(bounded_((k, m), (l, m)))
    spectral = ite(eq(k, l), e(k), RZERO)
    u.prove('lemma: w_k^T (W diag(e) W^T) w_l = e_k [k = l]', c, eq(tsum(i, ZERO, m, tsum(j, ZERO, m, mul(mul(W(i, k), W(j, l)), rec(i, j)))), spectral))
    u.prove('lemma: w_k^T (b b^T) w_l = (b^T w_k)(b^T w_l)', c, eq(tsum(i, ZERO, m, tsum(j, ZERO, m, mul(mul(W(i, k), W(j, l)), mul(b_(i), b_(j))))), mul(y(k), y(l))))
    # both matrices are equal entry by entry (contract of the estimator), so with Y_k = b^T w_k the two lemmas give
    Y = lambda k: app('Y', (k,), 'R')
    u.assume(tall(k, ZERO, m, tall(l, ZERO, m, eq(mul(Y(k), Y(l)), spectral))), tall(k, ZERO, m, le(RZERO, e(k))), tall(k, ZERO, m, le(e(k), e(ZERO))))
    k2 = u.int('k2', 1)
    u.assume(lt(k2, m))
    inst = [eq(mul(Y(a), Y(b)), e(a) if a is b else RZERO) for a in (ZERO, k2) for b in (ZERO, k2)]
    u.prove('rank one: e_0 is the square of the first coordinate', ip.ctx(), eq(power(Y(ZERO), num(2)), e(ZERO)), inst)
    u.prove('rank one: the other eigenvalues vanish', ip.ctx(), eq(e(k2), RZERO), inst + [le(RZERO, e(k2)), le(e(k2), e(ZERO))])
    u.prove('lemma: the trace of W diag(e) W^T', ip.ctx(), eq(tsum(i, ZERO, m, rec(i, i)), tsum(q, ZERO, m, e(q))))
    u.prove('rank one: the first eigenvalue is |b|^2', ip.ctx(), eq(tsum(q, ZERO, m, ite(eq(q, ZERO), e(ZERO), RZERO)), e(ZERO)))
    c = ip.ctx().child(bounded_((l, m)))
    u.prove('lemma: row l of (W diag(e) W^T) w_0', c, eq(tsum(j, ZERO, m, mul(rec(l, j), W(j, ZERO))), mul(e(ZERO), W(l, ZERO))))
    u.prove('lemma: row l of (b b^T) w_0', c, eq(tsum(j, ZERO, m, mul(mul(b_(l), b_(j)), W(j, ZERO))), mul(b_(l), y(ZERO))))
