"""C02: every free vector folds to a finite value its own validation accepts."""
import math
import numpy as np
import paragami

FMAX = float(np.finfo(float).max)
BND = 2.0 ** 1000

META = {
    'bounds': {
        'quick': 'IEEE binary64 with rounding, overflow and underflow (rounding abstraction of engine/mround.py): '
                 'numeric arrays of up to 3 entries of each of the 4 bound kinds, with symbolic bounds up to 2^1000 in '
                 'magnitude and with 12 concrete pairs of bounds, free entries any finite binary64 for two-sided '
                 'bounds and up to 300 in magnitude otherwise; simplex sizes 2-4 and an array of two simplexes, free '
                 'entries any finite binary64 (sizes 5-6: up to 2^1022); PSD sizes 1-3 with symbolic diagonal bound up to 1e100, free entries '
                 'up to 300; a dictionary and a pattern array of these',
        'thorough': 'the same with numeric arrays of up to 4 entries, simplex sizes 2-5 (6-9 up to 2^1022), arrays of three simplexes '
                    'and PSD sizes 1-4',
    },
    'outside': 'larger shapes; rounding differences between summation orders and fused operations of the BLAS in the '
               'matrix product (the facts used, non-negative sums of non-negative products and the symmetry of '
               'A A^T, do not depend on the order)',
    'assumptions': [
        'exp and logaddexp of the C library are within one unit in the last place and keep the sign, range and '
        'monotonicity facts listed in engine/mround.py',
        'additions, multiplications, divisions and square roots round to nearest even'],
}


def entries(v):
    if isinstance(v, dict):
        return [e for x in v.values() for e in entries(x)]
    v = np.asarray(v)
    out = []
    for e in v.ravel():
        out += entries(e) if isinstance(e, (dict, np.ndarray)) else [e]
    return out


def build(h, spec, p=''):
    """pattern and the range of each free coordinate"""
    k = spec[0]
    if k == 'num':
        shape, kind = tuple(spec[1]), spec[2]
        kw = {}
        if len(spec) > 3 and spec[3] is not None:
            lo, hi = spec[3]
        else:
            lo = h.mreal('lb' + p, -BND, BND) if kind in ('lb', 'both') else None
            hi = h.mreal('ub' + p, -BND, BND) if kind in ('ub', 'both') else None
            for b in (lo, hi):
                if b is not None:
                    h.anchor(b)
            if kind == 'both':
                h.assume(lo < hi)
        if lo is not None:
            kw['lb'] = lo
        if hi is not None:
            kw['ub'] = hi
        pat = paragami.NumericArrayPattern(shape=shape, **kw)
        r = FMAX if kind == 'both' else 300.0
        return pat, [r] * int(np.prod(shape))
    if k == 'psd':
        lb = h.mreal('dlb' + p, 0.0, 1e100) if len(spec) < 3 else spec[2]
        pat = paragami.PSDSymmetricMatrixPattern(size=spec[1], diag_lb=lb)
        return pat, [300.0] * (spec[1] * (spec[1] + 1) // 2)
    if k == 'simplex':
        arr = tuple(spec[2])
        pat = paragami.SimplexArrayPattern(simplex_size=spec[1],
                                           array_shape=arr)
        r = FMAX if len(spec) < 4 else spec[3]
        return pat, [r] * (int(np.prod(arr)) * (spec[1] - 1))
    if k == 'dict':
        pat = paragami.PatternDict()
        rs = []
        for i, s in enumerate(spec[1]):
            q, r = build(h, s, p + '_%d' % i)
            pat['k%d' % i] = q
            rs += r
        return pat, rs
    q, r = build(h, spec[2], p + '_b')
    n = int(np.prod(spec[1]))
    return paragami.PatternArray(tuple(spec[1]), q), r * n


def fold(h, spec):
    pat, rs = build(h, spec)
    x = h.arr([h.mreal('x%d' % i, -r, r) for i, r in enumerate(rs)])
    v = pat.fold(x, free=True)
    for e in entries(v):
        h.check(np.isfinite(e), 'finite')
    ok, msg = pat.validate_folded(v, validate_value=True)
    h.check(ok, 'accepted by validate_folded', lambda: msg)
    f = pat.flatten(v, free=False, validate_value=True)
    for e in entries(f):
        h.check(np.isfinite(e), 'finite flat value')


PAIRS = [(0.0, 1.0), (-1.0, 1.0), (0.1, 0.3), (-0.3, 0.1), (1e-3, 1e6),
         (-1e300, 1e300), (1e15, 1e15 + 3.0), (-1 / 3, 2 / 3), (0.0, 1e-300),
         (-7.7, -1e-9), (1.0, 1.0 + 2.0 ** -52), (-1e16, 1e-16)]


def nm(s):
    if s[0] == 'num':
        r = 'num%s%s' % ('x'.join(map(str, s[1])), s[2])
        return r + ('' if len(s) < 4 or s[3] is None else '[%g,%g]' % tuple(
            0 if b is None else b for b in s[3]))
    if s[0] == 'dict':
        return 'dict(%s)' % ','.join(nm(x) for x in s[1])
    if s[0] == 'arr':
        return 'arr%s(%s)' % ('x'.join(map(str, s[1])), nm(s[2]))
    return '-'.join(str(x).replace(' ', '') for x in s)


def tasks(tier):
    S = []
    big = tier == 'thorough'
    for kind in ('both', 'lb', 'ub', 'free'):
        S.append(('num', (1,), kind))
        S.append(('num', (3,), kind))
    if big:
        S += [('num', (2, 2), k) for k in ('both', 'lb', 'ub', 'free')]
    for p in PAIRS:
        S.append(('num', (1,), 'both', p))
    for b in (0.0, -0.1, 1e-3, 1e200, -1e200):
        S.append(('num', (2,), 'lb', (b, None)))
        S.append(('num', (2,), 'ub', (None, b)))
    for n in range(2, 6 if big else 5):
        S.append(('simplex', n, ()))
    for n in range(5, 10 if big else 7):
        S.append(('simplex', n, (), 2.0 ** 1022))
    S += [('simplex', 2, (2,)), ('simplex', 3, (1, 1))]
    if big:
        S += [('simplex', 2, (3,)), ('simplex', 3, (2,))]
    for n in range(1, 5 if big else 4):
        S.append(('psd', n))
    S.append(('psd', 2, 0.0))
    S += [('dict', (('num', (1,), 'both'), ('simplex', 2, ()), ('psd', 1))),
          ('dict', (('num', (1,), 'lb'), ('dict', (('num', (1,), 'ub'),
                                                   ('psd', 2, 0.1))))),
          ('arr', (2,), ('num', (1,), 'both')),
          ('arr', (2,), ('psd', 1)),
          ('arr', (2,), ('simplex', 2, ()))]
    return [dict(name='fold:' + nm(s), fn='fold', cfg={'spec': s}) for s in S]
