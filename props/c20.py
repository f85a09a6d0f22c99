"""C20: automatic derivatives through folding and flattening are correct."""
import numpy as np
import autograd
import autograd.numpy as anp
from autograd import make_jvp
import paragami
from . import pats

META = {
    'bounds': 'every pattern of the standard family (numeric up to 4-6 entries, PSD up to 3x3 (first derivatives: 5x5), simplex up to 5, '
              'dictionaries and arrays nested up to 3 deep), every vector, direction and bound; first derivatives in '
              'both modes, second derivatives in reverse-over-reverse and forward-over-reverse mode',
    'outside': 'larger shapes, third derivatives; forward mode of free flattening of matrices (autograd has no '
               'forward rule for the Cholesky factor)',
    'assumptions': ['exact real arithmetic', 'autograd runs natively on symbolic arrays; true derivatives are taken '
                    'symbolically from the term the code computes'],
}


def leaves(v, spec):
    """entries of a folded value, in an order of our own (reversed), as boxes"""
    if spec[0] == 'dict':
        out = []
        for n, s in reversed(spec[1]):
            out += leaves(v[n], s)
        return out
    return [v]


def scalar(h, spec, weights):
    """a nonlinear scalar function of a folded value"""
    def f(v):
        t = 0.0
        for k, a in enumerate(leaves(v, spec)):
            w = weights[k]
            t = t + anp.sum(w * a) + anp.sum(a * a) * (0.25 + 0.125 * k)
        return t
    return f


def shapes(spec):
    if spec[0] == 'dict':
        out = []
        for n, s in reversed(spec[1]):
            out += shapes(s)
        return out
    if spec[0] == 'num':
        return [tuple(spec[1])]
    if spec[0] == 'psd':
        return [(spec[1], spec[1])]
    if spec[0] == 'simplex':
        return [tuple(spec[2]) + (spec[1],)]
    return [tuple(spec[1]) + shapes(spec[2])[0]]


def setup(h, spec):
    P = pats.build(h, spec)
    w = [h.reals('w%d_' % k, s, -1, 1) for k, s in enumerate(shapes(spec))]
    return P, scalar(h, spec, w)


def fold_free(h, spec, second=True):
    P, f = setup(h, spec)
    nf = pats.free_len(spec)
    y = h.reals('y', (nf,), -1, 1)
    d = h.reals('d', (nf,), -1, 1)
    g = lambda t: f(P.pat.fold(t, free=True))
    T = h.jac(g, y)[0]
    G = autograd.grad(g)(y)
    h.eq(G, T, 'gradient of a function of the folded value', **h.dtol)
    h.eq(make_jvp(g)(y)(d)[1], np.dot(T, d), 'forward mode', **h.dtol)
    F = paragami.FlattenFunctionInput(f, P.pat, True)
    h.eq(autograd.grad(F)(y), T, 'gradient of the flattened function', **h.dtol)
    h.eq(make_jvp(F)(y)(d)[1], np.dot(T, d), 'forward mode of the flattened function', **h.dtol)
    flat = lambda t: P.pat.flatten(P.pat.fold(t, free=True), free=False)
    J = h.jac(flat, y)
    h.eq(autograd.jacobian(flat)(y), J, 'Jacobian of folding and flattening', **h.dtol)
    h.eq(make_jvp(flat)(y)(d)[1], np.dot(J, d), 'forward mode of folding and flattening', **h.dtol)


def fold_linear(h, spec):
    """larger shapes: both modes, folding and flattening only"""
    P = pats.build(h, spec)
    nf = pats.free_len(spec)
    y = h.reals('y', (nf,), -1, 1)
    d = h.reals('d', (nf,), -1, 1)
    flat = lambda t: P.pat.flatten(P.pat.fold(t, free=True), free=False)
    J = h.jac(flat, y)
    h.eq(autograd.jacobian(flat)(y), J, 'Jacobian of folding and flattening', **h.dtol)
    h.eq(make_jvp(flat)(y)(d)[1], np.dot(J, d), 'forward mode of folding and flattening', **h.dtol)


def hess_free(h, spec):
    P, f = setup(h, spec)
    nf = pats.free_len(spec)
    y = h.reals('y', (nf,), -1, 1)
    d = h.reals('d', (nf,), -1, 1)
    g = lambda t: f(P.pat.fold(t, free=True))
    T = h.jac(lambda t: autograd.grad(g)(t), y)
    tol = dict(rtol=1e-3, atol=1e-4) if not h.symbolic else {}
    h.eq(autograd.hessian(g)(y), T, 'Hessian', **tol)
    h.eq(make_jvp(autograd.grad(g))(y)(d)[1], np.dot(T, d), 'forward over reverse', **tol)
    h.eq(autograd.hessian_vector_product(g)(y, d), np.dot(T, d), 'Hessian vector product', **tol)


def fold_flat(h, spec):
    P, f = setup(h, spec)
    n = pats.flat_len(spec)
    x = h.reals('x', (n,), -1, 1)
    d = h.reals('d', (n,), -1, 1)
    g = lambda t: f(P.pat.fold(t, free=False, validate_value=False))
    T = h.jac(g, x)[0]
    h.eq(autograd.grad(g)(x), T, 'gradient of a function of the folded value', **h.dtol)
    h.eq(make_jvp(g)(x)(d)[1], np.dot(T, d), 'forward mode', **h.dtol)
    flat = lambda t: P.pat.flatten(P.pat.fold(t, free=False, validate_value=False), free=False, validate_value=False)
    h.eq(autograd.jacobian(flat)(x), np.eye(n), 'Jacobian of folding and flattening', **h.dtol)
    h.eq(make_jvp(flat)(x)(d)[1], d, 'forward mode of folding and flattening', **h.dtol)
    h.eq(autograd.hessian(g)(x), np.diag(np.diag(np.asarray(autograd.hessian(g)(x)))), 'Hessian is diagonal')


def nopsd(spec):
    if spec[0] == 'dict':
        return all(nopsd(s) for _, s in spec[1])
    return nopsd(spec[2]) if spec[0] == 'arr' else spec[0] != 'psd'


def to_free(h, spec, validate=True):
    """flattening a valid value to its free vector; by way of the free fold so
    that every direction stays in the constraint set"""
    P = pats.build(h, spec)
    nf = pats.free_len(spec)
    y = h.reals('y', (nf,), -1, 1)
    s = h.reals('s', (nf,), 0.5, 1.0)
    d = h.reals('d', (nf,), -1, 1)
    w = h.reals('w', (nf,), -1, 1)
    # y -> fold(s * y) -> flatten, an exact multiplication in free space
    m = lambda t: P.pat.flatten(P.pat.fold(s * t, free=True), free=True, validate_value=False)
    h.eq(autograd.jacobian(m)(y), np.diag(s), 'reverse mode through fold and flatten', **h.dtol)
    q = lambda t: anp.sum(w * m(t) ** 2)
    h.eq(autograd.grad(q)(y), 2.0 * w * s * s * y, 'gradient', **h.dtol)
    if nopsd(spec):
        h.eq(make_jvp(m)(y)(d)[1], s * d, 'forward mode through fold and flatten', **h.dtol)


def entries(h, spec):
    """free flattening of a numeric array or simplex, entries being inputs"""
    P = pats.build(h, spec)
    v = h.reals('v', P.shape, 0.1, 0.9)
    for a in v.ravel():
        if spec[0] == 'num':
            if spec[2] in ('lb', 'both'):
                h.assume(P.lb < a)
            if spec[2] in ('ub', 'both'):
                h.assume(a < P.ub)
        else:
            h.assume(a > 0)
    d = h.reals('d', P.shape, -1, 1)
    nf, n = pats.free_len(spec), pats.flat_len(spec)
    f = lambda t: P.pat.flatten(t, free=True, validate_value=False)
    T = h.jac(lambda t: f(t.reshape(P.shape)), v.ravel())
    h.eq(np.asarray(autograd.jacobian(f)(v)).reshape((nf, n)), T, 'reverse mode', **h.dtol)
    h.eq(make_jvp(f)(v)(d)[1], np.dot(T, d.ravel()), 'forward mode', **h.dtol)
    w = h.reals('w', (nf,), -1, 1)
    g = lambda t: anp.sum(w * f(t) ** 2)
    H = h.jac(lambda t: autograd.grad(g)(t.reshape(P.shape)), v.ravel())
    tol = dict(rtol=1e-3, atol=1e-3) if not h.symbolic else {}
    h.eq(np.asarray(autograd.hessian(g)(v)).reshape((n, n)), H, 'Hessian', **tol)


def validated(h, spec):
    """derivatives do not depend on whether the value is checked"""
    P, f = setup(h, spec)
    v = pats.valid(h, P)
    x = h.arr(pats.oracle_flat(h, P, v))
    g = lambda t: f(P.pat.fold(t, free=False, validate_value=True))
    k = lambda t: f(P.pat.fold(t, free=False, validate_value=False))
    h.eq(autograd.grad(g)(x), autograd.grad(k)(x), 'with and without validation', **h.dtol)


def outputs(h):
    """derivatives through output transforms and combined transforms"""
    A = pats.build(h, ['num', [2], 'both'], 'a.')
    B = pats.build(h, ['psd', 2, True], 'b.')
    q = h.reals('q', (3, 2), -1, 1)
    y = h.reals('y', (2,), -1, 1)
    d = h.reals('d', (2,), -1, 1)

    def f(v):
        return B.pat.fold(anp.dot(q, v * v), free=True)
    g = paragami.FlattenFunctionInputAndOutput(f, A.pat, True, 0, B.pat, False)
    T = h.jac(g, y)
    h.eq(autograd.jacobian(g)(y), T, 'combined flattening: reverse', **h.dtol)
    h.eq(make_jvp(g)(y)(d)[1], np.dot(T, d), 'combined flattening: forward', **h.dtol)
    k = paragami.FlattenFunctionOutput(lambda t: f(A.pat.fold(t, free=True)), B.pat, True)
    vv = lambda t: anp.dot(q, A.pat.fold(t, free=True) ** 2)
    h.eq(autograd.jacobian(k)(y), h.jac(vv, y), 'flattened output: reverse', **h.dtol)
    o = paragami.FoldFunctionOutput(vv, B.pat, True)
    m = lambda t: anp.sum(o(t) ** 2)
    h.eq(autograd.grad(m)(y), h.jac(m, y)[0], 'folded output: reverse', **h.dtol)


def two_args(h):
    """derivatives with respect to one of several transformed arguments"""
    A = pats.build(h, ['num', [2], 'lb'], 'a.')
    S = pats.build(h, ['simplex', 2, [1]], 's.')

    def f(v, s, scale=1.0):
        return scale * anp.sum(v * s[0]) + anp.sum(v ** 2)
    F = paragami.FlattenFunctionInput(f, [S.pat, A.pat], [True, True], [1, 0])
    ya, ys = h.reals('ya', (2,), -1, 1), h.reals('ys', (1,), -1, 1)
    c = h.real('c')
    for k, y in ((0, ya), (1, ys)):
        g = lambda t: F(*[t, ys] if k == 0 else [ya, t], scale=c)
        h.eq(autograd.grad(F, k)(ya, ys, scale=c), h.jac(g, y)[0], 'gradient in argument %d' % k, **h.dtol)


def rows(spec):
    """independent simplexes (each adds branches)"""
    if spec[0] == 'simplex':
        return int(np.prod(spec[2], dtype=int))
    if spec[0] == 'dict':
        return sum(rows(s) for _, s in spec[1])
    return int(np.prod(spec[1], dtype=int)) * rows(spec[2]) if spec[0] == 'arr' else 0


def tasks(tier):
    out = []
    fam = pats.family(tier, light=True) + [['simplex', 3, [1]], ['simplex', 2, [2]]]
    fam += [s for s in pats.empties() if pats.free_len(s)]     # autograd differentiates no empty vectors
    for s in fam:
        nm = pats.name(s)
        n = pats.flat_len(s)
        full = tier == 'thorough' or (rows(s) < 4 and not (s[0] == 'simplex' and rows(s) * (s[1] - 1) > 3))
        if full:
            out.append(dict(name='fold_free:' + nm, fn='fold_free', cfg=dict(spec=s)))
        out.append(dict(name='fold_flat:' + nm, fn='fold_flat', cfg=dict(spec=s)))
        out.append(dict(name='to_free:' + nm, fn='to_free', cfg=dict(spec=s)))
        if (n <= 6 and full and nm != 'simplex4@1') or tier == 'thorough':
            out.append(dict(name='hess_free:' + nm, fn='hess_free', cfg=dict(spec=s), optional=n > 6))
        if s[0] in ('num', 'simplex') and (n <= 6 or tier == 'thorough'):
            out.append(dict(name='entries:' + nm, fn='entries', cfg=dict(spec=s)))
        if n <= 6 and s[0] != 'psd':
            out.append(dict(name='validated:' + nm, fn='validated', cfg=dict(spec=s)))
    for s in (['psd', 4, False], ['psd', 5, False]):
        out.append(dict(name='linear:' + pats.name(s), fn='fold_linear', cfg=dict(spec=s)))
    out.append(dict(name='validated:psd2', fn='validated', cfg=dict(spec=['psd', 2, True])))
    out.append(dict(name='outputs', fn='outputs', cfg={}))
    out.append(dict(name='two_args', fn='two_args', cfg={}))
    return out
