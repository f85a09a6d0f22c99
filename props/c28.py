"""C28: interior values have finite free vectors and Jacobians in floating point."""
import math
import autograd
import numpy as np
import paragami
from . import c02
from .c02 import FMAX, BND, nm

META = {
    'bounds': {
        'quick': 'IEEE binary64 with rounding, overflow and underflow (rounding abstraction of engine/mround.py). Free vectors: numeric arrays '
                 'of up to 3 entries of each bound kind, every value strictly inside one bound up to 2^1000, or between two with magnitudes and '
                 'distances to the bounds within 1e-150 to 1e150; simplexes of size '
                 '2-4 (array of two of size 2) with any positive normal entries. Jacobians and log determinants: the same '
                 'with bounds, entries and distances to the bounds between 1e-60 and 1e60 in magnitude (one or no bound: 1e-200 to 1e200). Derivatives of fold: '
                 'free entries any finite binary64 (two-sided bounds, simplex size 2), up to 300 otherwise',
        'thorough': 'numeric arrays of up to 4 entries, simplex sizes 2-5',
    },
    'outside': 'matrices of size 2 and more; values at a bound (their free value is infinite); larger shapes',
    'assumptions': ['exp, log and logaddexp of the C library are within one unit in the last place and keep the '
                    'sign, range and monotonicity facts listed in engine/mround.py',
                    'additions, multiplications and divisions round to nearest even'],
}
D = 1e-60
NORMAL = 2.0 ** -1022


def finite(h, a, label):
    for e in np.asarray(a, dtype=object).ravel():
        h.check(np.isfinite(e), label)


def numeric(h, shape, kind, pair=None, tame=False):
    """pattern and an arbitrary strictly interior value; magnitudes and distances
    to the bounds within 1e-60 .. 1e60 (tame, two bounds), 1e-200 .. 1e200
    (tame, otherwise), 1e-150 .. 1e150 (two bounds)"""
    if kind == 'both':
        big, gap = (1e60, D) if tame else (1e150, 1e-150)
    else:
        big, gap = (1e200, 1e-200) if tame else (BND, None)
    lo, hi = pair or (None, None)
    if pair is None:
        lo = h.mreal('lb', -big, big) if kind in ('lb', 'both') else None
        hi = h.mreal('ub', -big, big) if kind in ('ub', 'both') else None
        for b in (lo, hi):
            if b is not None:
                h.anchor(b)
        if kind == 'both':
            h.assume(lo < hi)
    kw = {}
    if lo is not None:
        kw['lb'] = lo
    if hi is not None:
        kw['ub'] = hi
    pat = paragami.NumericArrayPattern(shape=tuple(shape), **kw)
    n = int(np.prod(shape))
    vs = [h.mreal('v%d' % i, -big, big) for i in range(n)]
    for v in vs:
        if lo is not None:
            h.assume(lo < v)
            if gap:
                h.assume(v - lo >= gap)
        if hi is not None:
            h.assume(v < hi)
            if gap:
                h.assume(hi - v >= gap)
    return pat, h.arr(vs).reshape(tuple(shape))


def simplex(h, k, arr, low=NORMAL):
    pat = paragami.SimplexArrayPattern(simplex_size=k, array_shape=tuple(arr))
    n = int(np.prod(arr)) * k
    vs = h.arr([h.mreal('v%d' % i, low, 1.0) for i in range(n)]).reshape(tuple(arr) + (k,))
    return pat, vs


def flatten(h, spec):
    if spec[0] == 'num':
        pat, v = numeric(h, spec[1], spec[2], spec[3] if len(spec) > 3 else None)
        x = pat.flatten(v, free=True)
    else:
        # whether a value sums to one does not matter for the transform
        pat, v = simplex(h, spec[1], spec[2])
        x = pat.flatten(v, free=True, validate_value=False)
    finite(h, x, 'finite free vector')
    w = pat.fold(x, free=True)
    finite(h, w, 'finite again after folding back')
    h.check(pat.validate_folded(w, validate_value=True)[0], 'folding back gives a valid value')


def jacobians(h, spec):
    if spec[0] == 'num':
        pat, v = numeric(h, spec[1], spec[2], spec[3] if len(spec) > 3 else None, tame=True)
    else:
        pat, v = simplex(h, spec[1], spec[2], D)
    F = np.asarray(pat.freeing_jacobian(v, sparse=False))
    U = np.asarray(pat.unfreeing_jacobian(v, sparse=False))
    finite(h, F, 'finite freeing Jacobian')
    finite(h, U, 'finite unfreeing Jacobian')
    if spec[0] == 'num':
        for i in range(F.shape[0]):
            h.check(F[i, i] > 0, 'positive freeing Jacobian')
            h.check(U[i, i] > 0, 'positive unfreeing Jacobian')
        finite(h, pat.log_abs_det_freeing_jacobian(v), 'finite log determinant (freeing)')
        finite(h, pat.log_abs_det_unfreeing_jacobian(v), 'finite log determinant (unfreeing)')


def gradient(h, spec):
    """derivative of folding a free vector, in reverse mode"""
    pat, rs = c02.build(h, spec)
    x = h.arr([h.mreal('x%d' % i, -r, r) for i, r in enumerate(rs)])
    J = autograd.jacobian(lambda t: pat.flatten(pat.fold(t, free=True), free=False, validate_value=False))(x)
    finite(h, J, 'finite derivative of fold')


def tasks(tier):
    big = tier == 'thorough'
    out = []
    T = []
    for k in ('both', 'lb', 'ub', 'free'):
        T += [('num', (1,), k), ('num', (3,), k)]
        if big:
            T += [('num', (2, 2), k)]
    for p in c02.PAIRS:
        if 1e-140 < p[1] - p[0] < 1e150 and np.nextafter(*p) < p[1]:
            T.append(('num', (1,), 'both', p))
    # one fixed bound: the distance to it can be as small as a binary64 gets
    for b in (0.0, 1.0, -3.0, 1e100, -1e-200):
        T += [('num', (1,), 'lb', (b, None)), ('num', (1,), 'ub', (None, b))]
    T += [('simplex', 2, ()), ('simplex', 3, ()), ('simplex', 4, ()), ('simplex', 2, (2,))]
    if big:
        T += [('simplex', 5, ()), ('simplex', 3, (2,))]
    for s in T:
        out.append(dict(name='flatten:' + nm(s), fn='flatten', cfg={'spec': s}))
        if s == ('num', (3,), 'both'):
            s = ('num', (2,), 'both')
        if len(s) < 4 or None in s[3] or s[3] in ((0.0, 1.0), (-1.0, 1.0), (-1 / 3, 2 / 3)):
            out.append(dict(name='jacobians:' + nm(s), fn='jacobians', cfg={'spec': s}))
    G = [('num', (1,), k) for k in ('both', 'lb', 'ub', 'free')]
    G += [('num', (2,), 'both'), ('simplex', 2, ()), ('psd', 1), ('psd', 2)]
    for s in G:
        out.append(dict(name='gradient:' + nm(s), fn='gradient', cfg={'spec': s}))
    return out
