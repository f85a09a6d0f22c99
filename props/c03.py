"""C03: non-free flattening is a bijection with the documented layout."""
from collections import OrderedDict
import numpy as np
import paragami
from . import pats

META = {
    'bounds': 'the standard pattern family (numeric arrays up to 3 dimensions and 6-8 entries, matrices up to 4x4, '
              'simplexes up to size 6, nesting up to 3 deep) and a list of larger shapes (up to 144 entries, 5 dimensions, 12 keys, '
              'nesting 4 deep); every real value of every entry',
    'outside': 'larger shapes; dtypes other than floating point',
    'assumptions': ['arithmetic is exact (only data movement is involved)'],
}


def anyvalue(h, P, p='v'):
    """an arbitrary folded value of the right shape"""
    if P.spec[0] == 'dict':
        return OrderedDict((n, anyvalue(h, c, p + n)) for n, c in P.kids)
    return h.reals(P.p + p, P.shape)


def place(h, P, x, off, v, label):
    """v is exactly x[off:] laid out row-major; returns the new offset"""
    if P.spec[0] == 'dict':
        h.check(list(v.keys()) == [n for n, _ in P.kids], label + ':keys')
        for n, c in P.kids:
            off = place(h, c, x, off, v[n], label)
        return off
    h.check(isinstance(v, np.ndarray) and v.shape == tuple(P.shape),
            label + ':shape')
    for k, ix in enumerate(np.ndindex(*P.shape)):
        h.eq(v[ix], x[off + k], label)
    return off + int(np.prod(P.shape))


def any_value(h, spec):
    P = pats.build(h, spec)
    v = anyvalue(h, P)
    f = P.pat.flatten(v, free=False, validate_value=False)
    h.check(isinstance(f, np.ndarray) and f.ndim == 1, 'flat is a vector')
    h.eq(f, h.arr(pats.oracle_flat(h, P, v)), 'flatten is row major')
    w = P.pat.fold(f, free=False, validate_value=False)
    h.same(w, v, 'fold(flatten(v)) == v')
    if spec[0] == 'dict':
        # the layout comes from the pattern, not from the value
        r = dict(reversed(list(v.items())))
        h.eq(P.pat.flatten(r, free=False, validate_value=False),
             h.arr(pats.oracle_flat(h, P, v)), 'pattern order is used')


def any_flat(h, spec):
    P = pats.build(h, spec)
    n = pats.flat_len(spec)
    x = h.reals('x', (n,))
    v = P.pat.fold(x, free=False, validate_value=False)
    h.check(place(h, P, x, 0, v, 'fold is row major') == n, 'all used')
    h.eq(P.pat.flatten(v, free=False, validate_value=False), x,
         'flatten(fold(x)) == x')


def valid_value(h, spec):
    """the same on valid values with the pattern's default checking"""
    P = pats.build(h, spec)
    v = pats.valid(h, P)
    f = P.pat.flatten(v, free=False)
    h.eq(f, h.arr(pats.oracle_flat(h, P, v)), 'flatten is row major')
    h.same(P.pat.fold(f, free=False), v, 'fold(flatten(v)) == v')


def tasks(tier):
    out = []
    for s in pats.family(tier):
        n = pats.name(s)
        for fn in ('any_value', 'any_flat') if pats.heavy(s) else ('any_value', 'any_flat', 'valid_value'):
            out.append(dict(name=fn + ':' + n, fn=fn, cfg={'spec': s}))
    for s in pats.large() + pats.empties():
        for fn in ('any_value', 'any_flat'):
            out.append(dict(name=fn + ':' + pats.name(s), fn=fn, cfg={'spec': s}))
    return out
