"""C01: the free parameterisation is a bijection with exact inverse."""
import numpy as np
import paragami
from . import pats

META = {
    'bounds': {
        'quick': 'numeric arrays up to 6 entries and 3 dimensions, of each of the 4 bound kinds with symbolic bounds, '
                 'PSD sizes 1-4 with symbolic diagonal bound, simplex sizes 2-5, dictionaries / arrays nested up to 3 '
                 'deep; a list of larger shapes (numeric arrays of up to 132 entries and 5 dimensions, dictionaries '
                 'of 12 entries, nesting 4 deep; PSD up to 7 and simplexes up to 8 from the free side)',
        'thorough': 'numeric arrays up to 8 entries, PSD sizes 1-4, simplex sizes 2-6, nesting up to 3 deep',
    },
    'outside': 'larger shapes; floating-point rounding (exact real arithmetic; C02 covers rounding of fold)',
    'assumptions': [
        'arithmetic is exact real arithmetic, exp/log are mutually inverse real functions',
        'the Cholesky factorisation is the exact one (contract stub, replayed on numpy)',
        'values lie in the interior of the constraint set (numeric strictly between bounds, simplex entries > 0, '
        'matrix minus diag_lb*I positive definite)'],
}


def from_free(h, spec):
    """flatten(fold(x)) == x, and the folded value satisfies the constraints"""
    P = pats.build(h, spec)
    n = pats.free_len(spec)
    x = h.reals('x', (n,))
    v = P.pat.fold(x, free=True)
    constraints(h, P, v)
    back = P.pat.flatten(v, free=True)
    h.eq(back, x, 'flatten(fold(x, free), free) == x')


def from_value(h, spec):
    """fold(flatten(v)) == v for every valid value"""
    P = pats.build(h, spec)
    v = pats.valid(h, P)
    f = P.pat.flatten(v, free=True)
    h.check(np.shape(f) == (pats.free_len(spec),), 'free length')
    w = P.pat.fold(f, free=True)
    h.same(w, v, 'fold(flatten(v, free), free) == v')


def constraints(h, P, v):
    k = P.spec[0]
    if k == 'dict':
        for n, c in P.kids:
            constraints(h, c, v[n])
        h.check(list(v.keys()) == [n for n, _ in P.kids], 'dictionary keys')
        return
    h.check(np.shape(v) == tuple(P.shape), 'folded shape')
    if k == 'num':
        for e in np.asarray(v).ravel():
            if P.spec[2] in ('lb', 'both'):
                h.check(e >= P.lb, 'above lower bound')
            if P.spec[2] in ('ub', 'both'):
                h.check(e <= P.ub, 'below upper bound')
    elif k == 'psd':
        n = P.spec[1]
        for i in range(n):
            h.check(v[i, i] > P.lb, 'diagonal above bound')
            for j in range(i):
                h.eq(v[i, j], v[j, i], 'symmetric')
        if n == 2 or n == 1:
            A = np.array(v)
            d = A[0, 0] - P.lb
            if n == 2:
                d = d * (A[1, 1] - P.lb) - A[0, 1] * A[0, 1]
            h.check(d > 0, 'positive definite')
    elif k == 'simplex':
        for e in np.asarray(v).ravel():
            h.check(e >= 0, 'non-negative')
        s = np.sum(v, axis=-1)
        h.eq(s, np.ones(np.shape(s)), 'sums to one')
    else:
        for ix in np.ndindex(*P.spec[1]):
            constraints(h, P.base, v[ix])


def tasks(tier):
    out = []
    for s in pats.family(tier):
        big = pats.heavy(s)
        out.append(dict(name='free:' + pats.name(s), fn='from_free',
                        cfg={'spec': s}, optional=big))
        if tier == 'quick' and big:
            continue
        out.append(dict(name='value:' + pats.name(s), fn='from_value',
                        cfg={'spec': s}, optional=big))
    for s in pats.empties():
        for which, fn in (('free', 'from_free'), ('value', 'from_value')):
            out.append(dict(name='empty-%s:%s' % (which, pats.name(s)), fn=fn, cfg={'spec': s}))
    for which, fn in (('free', 'from_free'), ('value', 'from_value')):
        for s in pats.large(which):
            out.append(dict(name=which + ':' + pats.name(s), fn=fn, cfg={'spec': s}))
    return out
