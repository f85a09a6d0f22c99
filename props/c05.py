"""C05: reported lengths are exact, wrong-sized inputs are rejected."""
from collections import OrderedDict
import numpy as np
import paragami
from . import pats

META = {
    'bounds': {'quick': 'shape parameters: every dimension and size from 1 to 3 (numeric up to 3 dimensions, matrices '
                        'up to 5, simplexes 2-4), containers of these; offered lengths 0 to true length + 3; '
                        'offered arrays of 0 to 3 dimensions with the right total size; a list of larger shapes (up to 144 '
                        'entries, 5 dimensions, 12 keys, nesting 4 deep)',
               'thorough': 'dimensions up to 4, matrices up to 7, simplexes up to 6, offered lengths up to true '
                           'length + 8'},
    'outside': 'larger sizes; empty (zero) dimensions',
    'assumptions': ['exact real arithmetic'],
}


def prod(xs):
    r = 1
    for x in xs:
        r = r * x
    return r


def dims(h, m, lo=1, hi=3):
    nd = int(h.int('ndim', lo, hi))
    ds = [h.int('d%d' % i, 1, m) for i in range(nd)]
    return ds, tuple(int(d) for d in ds)


def make(h, kind, tier, small=False):
    """pattern with symbolic size parameters

    Returns pattern, flat length and free length (symbolic, the oracle) and
    the folded shape.
    """
    m = 3 if tier == 'quick' else 4
    nd = 1 if small and tier == 'quick' else 2
    if kind == 'num':
        ds, s = dims(h, 2 if small else m)
        lb = h.real('lb', -2, -1)
        return paragami.NumericArrayPattern(s, lb=lb), prod(ds), prod(ds), s
    if kind == 'vec':
        n = h.int('n', 1, 2 * m)
        ub = h.real('ub', 1, 2)
        return paragami.NumericVectorPattern(int(n), ub=ub), n, n, (int(n),)
    if kind == 'scalar':
        lb = h.real('lb', -2, -1)
        return paragami.NumericScalarPattern(lb=lb, ub=lb + 3.0), 1, 1, (1,)
    if kind == 'psd':
        n = h.int('n', 1, 5 if tier == 'quick' else 7)
        k = int(n)
        return (paragami.PSDSymmetricMatrixPattern(k), n * n,
                n * (n + 1) // 2, (k, k))
    if kind == 'simplex':
        k = h.int('k', 2, 4 if tier == 'quick' else 6)
        ds, s = dims(h, m, 0, nd)
        r = prod(ds)
        return (paragami.SimplexArrayPattern(int(k), s), r * k, r * (k - 1),
                s + (int(k),))
    if kind.startswith('arr'):
        ds, s = dims(h, 2 if small else m, 0, nd)
        r = prod(ds)
        if kind == 'arr-psd':
            n = h.int('n', 1, 3)
            k = int(n)
            b, fl, fr, bs = (paragami.PSDSymmetricMatrixPattern(k), n * n,
                             n * (n + 1) // 2, (k, k))
        elif kind == 'arr-simplex':
            n = h.int('n', 2, 3)
            k = int(n)
            b, fl, fr, bs = (paragami.SimplexArrayPattern(k, (2,)), 2 * n,
                             2 * (n - 1), (2, k))
        else:
            n = h.int('n', 1, 2)
            k = int(n)
            b, fl, fr, bs = paragami.NumericVectorPattern(k), n, n, (k,)
        return paragami.PatternArray(s, b), r * fl, r * fr, s + bs
    n = h.int('n', 1, 3)
    k = h.int('k', 2, 3 if small else 4)
    d = paragami.PatternDict()
    d['m'] = paragami.PSDSymmetricMatrixPattern(int(n))
    d['s'] = paragami.SimplexArrayPattern(int(k), (2,))
    if kind == 'dict2':
        m_ = h.int('m', 1, 2 if small else 3)
        e = paragami.PatternDict()
        e['d'] = d
        e['v'] = paragami.NumericVectorPattern(int(m_), lb=0.0)
        return (e, n * n + 2 * k + m_, n * (n + 1) // 2 + 2 * (k - 1) + m_,
                None)
    return d, n * n + 2 * k, n * (n + 1) // 2 + 2 * (k - 1), None


def lengths(h, kind, tier):
    p, flat, free, shape = make(h, kind, tier)
    h.check(p.flat_length(free=False) == flat, 'non-free length')
    h.check(p.flat_length(free=True) == free, 'free length')
    for f in (True, False):
        h.check(isinstance(p.flat_length(free=f), (int, np.integer)),
                'integer length')
    x = h.arr([0.25] * int(free))
    v = p.fold(x, free=True)
    if shape is not None:
        h.check(np.shape(v) == tuple(shape), 'folded shape')
    for f, n in ((False, flat), (True, free)):
        y = p.flatten(v, free=f)
        h.check(np.ndim(y) == 1, 'flat vector')
        h.check(np.shape(y)[0] == n, 'flat size')
    w = p.fold(h.arr([0.0] * int(flat)), free=False, validate_value=False)
    if shape is not None:
        h.check(np.shape(w) == tuple(shape), 'non-free folded shape')


def wrong(h, kind, free, tier):
    p, flat, fr, shape = make(h, kind, tier, small=True)
    want = fr if free else flat
    n = h.int('n_offered', 0, 60)
    off = 3 if tier == 'quick' else 6
    h.assume(n <= want + off)
    h.assume(n >= want - off)
    x = h.arr([0.25] * int(n))
    try:
        p.fold(x, free=free, validate_value=False)
        ok = True
    except Exception:
        ok = False
    h.check(h.Iff(ok, n == want), 'accepted exactly when the length is right')


def twod(h, kind, free, tier):
    p, flat, fr, shape = make(h, kind, tier, small=True)
    n = int(fr if free else flat)
    x = h.reals('x', (n,))
    for s in ((n, 1), (1, n), (1, 1, n)):
        h.raises(lambda: p.fold(x.reshape(s), free=free, validate_value=False),
                 'more than one dimension rejected')


def big(h, spec):
    """larger shapes: lengths, and every offered length around the true one"""
    P = pats.build(h, spec)
    p = P.pat
    for free, want in ((True, pats.free_len(spec)), (False, pats.flat_len(spec))):
        h.check(p.flat_length(free=free) == want, 'length')
        y = p.flatten(p.fold(h.arr([0.25] * pats.free_len(spec)), free=True), free=free, validate_value=False)
        h.check(np.shape(y) == (want,), 'flat size')
        n = h.int('n_%s' % free, 0, 2 * want + 40)
        near = h.bool('near_%s' % free)
        if near:
            h.assume(n >= want - 3)
            h.assume(n <= want + 3)
        else:
            h.assume(h.Or(n == 0, n == 1, n == 2 * want, n == 2 * want + 40, n == want - 10, n == want + 10))
        x = h.arr([0.25] * int(n))
        try:
            p.fold(x, free=free, validate_value=False)
            ok = True
        except Exception:
            ok = False
        h.check(h.Iff(ok, n == want), 'accepted exactly when the length is right')


def tasks(tier):
    out = [dict(name='big:' + pats.name(s), fn='big', cfg=dict(spec=s)) for s in pats.large() + pats.empties()]
    for k in ('num', 'vec', 'scalar', 'psd', 'simplex', 'arr-num', 'arr-psd',
              'arr-simplex', 'dict', 'dict2'):
        out.append(dict(name='lengths:' + k, fn='lengths',
                        cfg=dict(kind=k, tier=tier)))
        for free in (True, False):
            out.append(dict(name='wrong:%s:free=%s' % (k, free), fn='wrong',
                            cfg=dict(kind=k, free=free, tier=tier)))
            out.append(dict(name='ndim:%s:free=%s' % (k, free), fn='twod',
                            cfg=dict(kind=k, free=free, tier=tier)))
    return out
