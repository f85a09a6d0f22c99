"""C25: empty, boolean and random values have the right shape and validity."""
from collections import OrderedDict
import numpy as np
import paragami
from . import pats

META = {
    'bounds': 'numeric arrays of up to 8 entries of every bound kind, matrices of size 1-4, simplexes of size 2-6, '
              'dictionaries and arrays nested up to 4 deep; all bounds; every outcome of the uniform random numbers '
              'in [0, 1); default validation on and off, default free setting unset, true or false',
    'outside': 'larger shapes; rounding, except in empty(valid=True) of numeric arrays (`fp`: binary64 with rounding and '
               'overflow, any finite bounds; two-sided ones 0 or at least 2^-1000 in magnitude)',
    'assumptions': ['exact real arithmetic except in `fp`',
                    'numpy.random.random and its synonyms return independent numbers in [0, 1)'],
}


def shape_ok(h, P, v, label, boolean=False):
    if P.spec[0] == 'dict':
        h.check(isinstance(v, dict) and list(v.keys()) == [n for n, _ in P.kids], label + ': keys in order')
        for n, c in P.kids:
            shape_ok(h, c, v[n], label, boolean)
        return
    h.check(isinstance(v, np.ndarray), label + ': array')
    h.check(np.shape(v) == tuple(P.shape), label + ': folded shape', lambda: '%r %r' % (np.shape(v), P.shape))
    if boolean:
        h.check(v.dtype == bool or v.size == 0, label + ': booleans')


def inside(h, P, v, label):
    """the documented constraints, checked independently of the validation of the pattern"""
    k = P.spec[0]
    if k == 'dict':
        for n, c in P.kids:
            inside(h, c, v[n], label)
    elif k == 'arr':
        for i in np.ndindex(*P.spec[1]):
            inside(h, P.base, v[i], label)
    elif k == 'num':
        for e in np.asarray(v).ravel():
            if P.spec[2] in ('lb', 'both'):
                h.check(P.lb <= e, label + ': above the lower bound')
            if P.spec[2] in ('ub', 'both'):
                h.check(e <= P.ub, label + ': below the upper bound')
    elif k == 'simplex':
        for row in np.reshape(v, (-1, P.spec[1])):
            s = 0.0
            for e in row:
                h.check(e >= 0, label + ': not negative')
                s = s + e
            h.eq(s, 1.0, label + ': sums to one')
    elif k == 'psd':
        n = P.spec[1]
        for i in range(n):
            h.check(v[i, i] >= P.lb, label + ': diagonal bound')
            for j in range(i):
                h.eq(v[i, j], v[j, i], label + ': symmetric')
        if n <= 2:
            B = [[v[i, j] - (P.lb if i == j else 0.0) for j in range(n)] for i in range(n)]
            h.check(B[0][0] > 0, label + ': positive definite')
            if n == 2:
                h.check(B[0][0] * B[1][1] - B[0][1] * B[1][0] > 0, label + ': positive definite')


def leaves(v):
    if isinstance(v, dict):
        return [e for x in v.values() for e in leaves(x)]
    return list(np.asarray(v).ravel())


def empties(h, spec):
    opts = {}
    if h.choice('free', [False, True]):
        opts['free_default'] = h.choice('fd', [True, False])
    if h.choice('val', [False, True]):
        opts['default_validate'] = False
    P = pats.build(h, spec, **opts)
    p = P.pat
    v = p.empty(valid=True)
    shape_ok(h, P, v, 'empty')
    inside(h, P, v, 'empty')
    h.check(p.validate_folded(v, validate_value=True)[0], 'the pattern accepts its empty value')
    h.check(p.validate_folded(v)[0], 'the pattern accepts its empty value by default')
    h.check(np.shape(p.flatten(v, free=False, validate_value=True)) == (pats.flat_len(spec),), 'can be flattened')
    h.check(np.shape(p.flatten(v, free=True, validate_value=True)) == (pats.free_len(spec),), 'can be freed')
    shape_ok(h, P, p.empty(valid=False), 'invalid empty')
    for val in (True, False):
        b = p.empty_bool(val)
        shape_ok(h, P, b, 'empty_bool', True)
        h.check(all(bool(e) is val for e in leaves(b)), 'filled with the requested truth value')
        h.check(len(leaves(b)) == pats.flat_len(spec), 'one per entry')
        if spec[0] != 'dict':
            c = p.empty_bool(value=val)
            h.check(all(bool(e) is val for e in leaves(c)), 'keyword')
    # usable as masks
    for free, n in ((True, pats.free_len(spec)), (False, pats.flat_len(spec))):
        h.check(list(p.flat_indices(p.empty_bool(True), free=free)) == list(range(n)), 'all indices')
        h.check(len(p.flat_indices(p.empty_bool(False), free=free)) == 0, 'no indices')


def randoms(h, spec):
    opts = {}
    small = pats.free_len(spec) <= 4
    if small and h.choice('free', [False, True]):
        opts['free_default'] = h.choice('fd', [True, False])
    P = pats.build(h, spec, **opts)
    p = P.pat
    before = h.nrand
    v = p.random()
    n = h.nrand - before
    shape_ok(h, P, v, 'random')
    inside(h, P, v, 'random')
    h.check(p.validate_folded(v, validate_value=True)[0], 'the pattern accepts a random value')
    h.check(n == pats.free_len(spec), 'one random number per free coordinate', lambda: '%d' % n)
    if not small:
        return
    w = p.random()
    h.check(h.nrand - before == 2 * pats.free_len(spec), 'new random numbers for the second value')
    h.check(p.validate_folded(w, validate_value=True)[0], 'the pattern accepts the second random value')


def independent(h, spec):
    """each free coordinate of a random value follows its own random number"""
    P = pats.build(h, spec)
    p = P.pat
    nf = pats.free_len(spec)
    base = h.nrand
    if h.symbolic:
        from engine import npsym
        draws = []
        orig = npsym.RANDOM[0]

        def rec():
            draws.append(orig())
            return draws[-1]
        npsym.RANDOM[0] = rec
        try:
            v = p.random()
        finally:
            npsym.RANDOM[0] = orig
        h.check(len(draws) == nf, 'one random number per free coordinate')
        y = h.arr(draws)
        f = lambda z: p.flatten(v, free=True, validate_value=False)
    else:
        y = np.array([float(h.env.get('rnd%d' % (base + i), 0.25)) for i in range(nf)])

        def f(z):
            for i in range(nf):
                h.env['rnd%d' % (base + i)] = float(z[i])
            h.nrand = base
            return p.flatten(p.random(), free=True, validate_value=False)
        y = np.clip(y, 0.01, 0.99)
        f(y)
        h.check(h.nrand - base == nf, 'one random number per free coordinate')
    J = h.jac(f, y)
    for i in range(nf):
        for k in range(nf):
            if i == k:
                h.check(h.Or(J[i, k] > 1e-9, J[i, k] < -1e-9), 'each free coordinate varies with its random number')
            else:
                h.eq(J[i, k], 0.0, 'free coordinates do not depend on the other random numbers', **h.dtol)


def fp(h, spec):
    """empty(valid=True) in floating point, for bounds of any size"""
    big = float(np.finfo(float).max)
    small = 2.0 ** -1000
    kind, shape = spec[0], tuple(spec[1])
    kw = {}
    if kind in ('lb', 'both'):
        kw['lb'] = h.mreal('lb', -big, big)
    if kind in ('ub', 'both'):
        kw['ub'] = h.mreal('ub', -big, big)
    for b in kw.values():
        h.anchor(b)
        if kind == 'both':
            h.assume(h.Or(b == 0, b >= small, b <= -small))
    if kind == 'both':
        h.assume(kw['lb'] < kw['ub'])
    p = paragami.NumericArrayPattern(shape=shape, **kw)
    v = np.asarray(p.empty(valid=True))
    h.check(v.shape == shape, 'empty: folded shape')
    for e in v.ravel():
        h.check(np.isfinite(e), 'empty: finite')
        if 'lb' in kw:
            h.check(kw['lb'] <= e, 'empty: above the lower bound')
        if 'ub' in kw:
            h.check(e <= kw['ub'], 'empty: below the upper bound')
    h.check(p.validate_folded(v, validate_value=True)[0], 'the pattern accepts its empty value')


def tasks(tier):
    out = []
    for k in ('both', 'lb', 'ub', 'none'):
        for sh in ([1], [2, 2]):
            out.append(dict(name='fp:%s%r' % (k, sh), fn='fp', cfg=dict(spec=[k, sh])))
    for s in (['num', [130], 'none'], ['num', [12, 11], 'none'], ['arr', [70], ['num', [2], 'none']],
              ['dict', [['a', ['num', [90], 'none']], ['b', ['num', [60], 'none']]]]):
        out.append(dict(name='independent:' + pats.name(s), fn='independent', cfg=dict(spec=s)))
    for s in pats.family(tier) + pats.empties():
        nm = pats.name(s)
        out.append(dict(name='empty:' + nm, fn='empties', cfg=dict(spec=s)))
        if not (s[0] == 'psd' and s[1] > 3 and tier == 'quick'):
            out.append(dict(name='random:' + nm, fn='randoms', cfg=dict(spec=s)))
        if pats.free_len(s) <= (10 if tier == 'quick' else 16):
            out.append(dict(name='independent:' + nm, fn='independent', cfg=dict(spec=s),
                            optional=pats.free_len(s) > 10))
    # an array of patterns without entries along no dimension
    for s in (['arr', [], ['num', [2], 'both']], ['arr', [], ['simplex', 2, [1]]], ['arr', [1], ['psd', 1, True]]):
        out.append(dict(name='empty:' + pats.name(s), fn='empties', cfg=dict(spec=s)))
        out.append(dict(name='random:' + pats.name(s), fn='randoms', cfg=dict(spec=s)))
    return out
