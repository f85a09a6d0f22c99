"""C06: freeing and unfreeing Jacobians are the true derivative matrices."""
import numpy as np
import scipy.sparse
import paragami
from . import pats

META = {
    'bounds': 'numeric arrays up to 6 entries of every bound kind, PSD sizes 1-3 (symbolic diagonal bound), simplex '
              'sizes 2-5, dictionaries and arrays nested up to 3 deep; at every free point (unfreeing, inverse '
              'product) and every valid interior value (numeric and simplex freeing)',
    'outside': 'larger shapes; partial derivatives of the PSD freeing map in non-symmetric directions (the map is '
               'only defined on symmetric matrices)',
    'assumptions': ['exact real arithmetic', 'Cholesky factorisation and its derivative through autograd use the '
                    'exact linear algebra stubs', 'values in the interior of the constraint set'],
}


def dense(h, J, shape, label):
    h.check(type(J) is np.ndarray and J.shape == shape, label + ': dense array of the documented shape',
            lambda: '%r %r' % (type(J), np.shape(J)))
    return np.asarray(J)


def sparse(h, J, D, label):
    h.check(scipy.sparse.issparse(J), label + ': sparse matrix')
    h.eq(np.asarray(J.toarray()), D, label + ': sparse == dense')


def point(h, spec):
    P = pats.build(h, spec)
    y = h.reals('y', (pats.free_len(spec),), -1.0, 1.0)
    return P, y, P.pat.fold(y, free=True)


def unfreeing(h, spec):
    P, y, v = point(h, spec)
    nf, n = pats.free_len(spec), pats.flat_len(spec)
    J = dense(h, P.pat.unfreeing_jacobian(v, sparse=False), (n, nf), 'unfreeing')
    T = h.jac(lambda t: P.pat.flatten(P.pat.fold(t, free=True), free=False), y)
    h.eq(J, T, 'unfreeing jacobian == partial derivatives', **h.dtol)
    sparse(h, P.pat.unfreeing_jacobian(v, sparse=True), J, 'unfreeing')
    sparse(h, P.pat.unfreeing_jacobian(v), J, 'unfreeing default')


def inverse(h, spec):
    P, y, v = point(h, spec)
    nf, n = pats.free_len(spec), pats.flat_len(spec)
    F = dense(h, P.pat.freeing_jacobian(v, sparse=False), (nf, n), 'freeing')
    T = h.jac(lambda t: P.pat.flatten(P.pat.fold(t, free=True), free=False), y)
    h.eq(np.dot(F, T), np.eye(nf), 'freeing . d flat / d free == identity', **h.dtol)
    J = np.asarray(P.pat.unfreeing_jacobian(v, sparse=False))
    h.eq(np.dot(F, J), np.eye(nf), 'freeing . unfreeing == identity')
    sparse(h, P.pat.freeing_jacobian(v, sparse=True), F, 'freeing')
    sparse(h, P.pat.freeing_jacobian(v), F, 'freeing default')


def ambient(h, P, p='z'):
    """an arbitrary valid value all of whose entries are inputs"""
    k, sub, p = P.spec[0], p, P.p + p
    if k == 'num':
        return pats.valid(h, P, sub)
    if k == 'simplex':
        K = P.spec[1]
        z = h.reals(p, P.shape, 0.1, 0.9)
        for row in z.reshape((-1, K)):
            s = 0.0
            for e in row:
                h.assume(e > 0)
                s = s + e
            h.assume(h.exactly(s, 1.0))
        return z
    if k == 'dict':
        return {n: ambient(h, c, sub) for n, c in P.kids}
    m = int(np.prod(P.spec[1], dtype=int))
    return h.arr([e for r in range(m) for e in ambient(h, P.base, '%s%d.' % (sub, r)).ravel()]).reshape(P.shape)


def partials(h, spec):
    P = pats.build(h, spec)
    z = ambient(h, P)
    nf, n = pats.free_len(spec), pats.flat_len(spec)
    F = dense(h, P.pat.freeing_jacobian(z, sparse=False), (nf, n), 'freeing')
    zf = h.arr(pats.oracle_flat(h, P, z))
    T = h.jac(lambda t: P.pat.flatten(P.pat.fold(t, free=False, validate_value=False), free=True,
                                      validate_value=False), zf)
    h.eq(F, T, 'freeing jacobian == partial derivatives', **h.dtol)


def has(spec, k):
    if spec[0] == k:
        return True
    if spec[0] == 'dict':
        return any(has(s, k) for _, s in spec[1])
    return spec[0] == 'arr' and has(spec[2], k)


def tasks(tier):
    out = []
    for s in pats.family(tier) + pats.empties():
        if s[0] == 'psd' and s[1] > 3:
            if tier == 'quick' or s[2]:
                continue
        if s == ['arr', [2, 3], ['psd', 2, True]] and tier == 'quick':
            continue
        opt = s[0] == 'psd' and s[1] > 3
        for fn in ('unfreeing', 'inverse'):
            out.append(dict(name=fn + ':' + pats.name(s), fn=fn, cfg={'spec': s}, optional=opt))
        if not has(s, 'psd') and pats.flat_len(s) <= 9:
            out.append(dict(name='partials:' + pats.name(s), fn='partials', cfg={'spec': s}))
    return out
