"""C11: patterns compare equal exactly when they describe the same thing."""
import numpy as np
import paragami
from . import pats

META = {
    'bounds': 'pairs of numeric, PSD and simplex patterns with independent symbolic bounds, sizes and shapes up to 3 '
              '(symbolic integers), 2 dimensions, and independent default settings; pairs of dictionaries and arrays '
              'nested up to 3 deep that differ in any one respect or in none; pairs of all pattern types; subclasses with the name of the class they extend',
    'outside': 'container pairs that differ in several respects at once (each level is covered by the leaf pairs)',
    'assumptions': ['inside containers the JSON text of two different bounds differs (contract of json.dumps)'],
}
INF = float('inf')


def verdict(h, p, q, expect, label):
    """p == q, q == p, != agree with the expected condition"""
    a = bool(p == q)
    b = bool(q == p)
    h.check(a == b, label + ': symmetric')
    h.check(bool(p != q) == (not a), label + ': != is the negation')
    h.check(h.Iff(a, expect), label + ': equal exactly when the same')


def num(h, cls, kind):
    def one(p):
        lb, ub = -INF, INF
        if kind in ('lb', 'both'):
            lb = h.real(p + 'lb', -3, -1) if h.bool(p + 'haslb') else -INF
        if kind in ('ub', 'both'):
            ub = h.real(p + 'ub', 1, 3) if h.bool(p + 'hasub') else INF
        if lb != -INF and ub != INF:
            h.assume(lb < ub)
        kw = dict(lb=lb, ub=ub, default_validate=h.bool(p + 'dv'),
                  free_default=h.choice(p + 'fd', [None, True, False]))
        if cls == 'array':
            s = h.choice(p + 's', [(2,), (1, 2)] if kind == 'both' else [(2,), (1, 2), (2, 1)])
            return paragami.NumericArrayPattern(s, **kw), s, kw
        if cls == 'vec':
            s = int(h.int(p + 'n', 1, 2))
            return paragami.NumericVectorPattern(s, **kw), s, kw
        return paragami.NumericScalarPattern(**kw), 0, kw
    p, s1, k1 = one('p')
    q, s2, k2 = one('q')
    same = h.And(s1 == s2, h.eqc(k1['lb'], k2['lb']), h.eqc(k1['ub'], k2['ub']),
                 h.Iff(k1['default_validate'], k2['default_validate']), k1['free_default'] is k2['free_default'])
    exact(h, k1, k2)
    verdict(h, p, q, same, 'numeric')


def exact(h, k1, k2):
    """concrete replays: nearly equal bounds are not a counterexample"""
    if not h.symbolic:
        for n in ('lb', 'ub', 'diag_lb'):
            if n in k1 and k1[n] != k2[n]:
                h.assume(not h.eqc(k1[n], k2[n]))


def psd(h):
    def one(p):
        lb = h.real(p + 'lb', 0.1, 0.5)
        h.assume(lb >= 0)
        n = int(h.int(p + 'n', 1, 3))
        kw = dict(diag_lb=lb, default_validate=h.bool(p + 'dv'),
                  free_default=h.choice(p + 'fd', [None, True, False]))
        return paragami.PSDSymmetricMatrixPattern(n, **kw), n, kw
    p, s1, k1 = one('p')
    q, s2, k2 = one('q')
    exact(h, k1, k2)
    same = h.And(s1 == s2, h.eqc(k1['diag_lb'], k2['diag_lb']),
                 h.Iff(k1['default_validate'], k2['default_validate']), k1['free_default'] is k2['free_default'])
    verdict(h, p, q, same, 'matrix')


def simplex(h):
    def one(p):
        n = int(h.int(p + 'n', 2, 3))
        s = h.choice(p + 's', [(1,), (2,), (1, 2), (2, 1)])
        kw = dict(default_validate=h.bool(p + 'dv'),
                  free_default=h.choice(p + 'fd', [None, True, False]))
        return paragami.SimplexArrayPattern(n, s, **kw), (n, s), kw
    p, s1, k1 = one('p')
    q, s2, k2 = one('q')
    verdict(h, p, q, h.And(s1 == s2, h.Iff(k1['default_validate'], k2['default_validate']),
                             k1['free_default'] is k2['free_default']), 'simplex')


TYPES = [['num', [1], 'both'], ['num', [1], 'both', 'vec'], ['num', [1], 'both', 'scalar'], ['psd', 1, True],
         ['simplex', 2, []], ['dict', [['a', ['num', [1], 'both']]]], ['arr', [1], ['num', [1], 'both']]]


class Sub(paragami.NumericArrayPattern):
    pass


# subclasses of the user's with the names of the library's own classes
NAMESAKES = {c: type(c, (getattr(paragami, c),), {'__module__': __name__}) for c in (
    'NumericArrayPattern', 'NumericVectorPattern', 'NumericScalarPattern', 'PSDSymmetricMatrixPattern',
    'SimplexArrayPattern', 'PatternDict', 'PatternArray')}


def namesake(h, c):
    """a subclass of the same name describes a different thing"""
    lb = h.real('lb', -3, -1)
    d = h.real('d', 0.1, 0.5)
    h.assume(d > 0)
    mk = {'NumericArrayPattern': lambda k: k((2,), lb=lb), 'NumericVectorPattern': lambda k: k(2, lb=lb),
          'NumericScalarPattern': lambda k: k(lb=lb), 'PSDSymmetricMatrixPattern': lambda k: k(2, diag_lb=d),
          'SimplexArrayPattern': lambda k: k(2, (2,)),
          'PatternArray': lambda k: k((2,), paragami.NumericArrayPattern((2,), lb=lb))}

    def dic(k):
        p = k()
        p['a'] = paragami.NumericArrayPattern((2,), lb=lb)
        return p
    mk['PatternDict'] = dic
    own, lib = NAMESAKES[c], getattr(paragami, c)
    verdict(h, mk[c](own), mk[c](lib), False, 'subclass of the same name')
    verdict(h, mk[c](own), mk[c](own), True, 'two patterns of a subclass')
    a, b = paragami.PatternDict(), paragami.PatternDict()
    a['x'], b['x'] = mk[c](own), mk[c](lib)
    verdict(h, a, b, False, 'dictionaries of subclasses of the same name')


def types(h, i):
    P = pats.build(h, TYPES[i], 'p.')
    j = int(h.int('j', 0, len(TYPES) - 1))
    # same symbolic bounds wherever both have bounds
    Q = pats.build(h, TYPES[j], 'q.')
    if i != j:
        verdict(h, P.pat, Q.pat, False, 'different types')
    lb = h.real('lb', -3, -1)
    a, b = paragami.NumericArrayPattern((1,), lb=lb), Sub((1,), lb=lb)
    verdict(h, a, b, False, 'subclass')
    verdict(h, a, paragami.NumericVectorPattern(1, lb=lb), False, 'vector and array')
    verdict(h, paragami.NumericScalarPattern(lb=lb), paragami.NumericVectorPattern(1, lb=lb), False,
            'scalar and vector')
    for other in (None, 3, 'text', P.pat.as_dict(), P.pat.to_json(), [P.pat], type(P.pat), (), {}):
        h.check(not bool(P.pat == other), 'never equal to a non-pattern')
        h.check(bool(P.pat != other), 'never equal to a non-pattern (!=)')
    verdict(h, P.pat, P.pat, True, 'itself')


def leaf(h, what, p):
    """a leaf and variants of it that differ in one respect"""
    lb, ub = h.real(p + 'lb', -3, -1), h.real(p + 'ub', 1, 3)
    h.assume(lb < ub)
    b = h.real(p + 'other', -5, -4)
    h.assume(b < ub)
    h.assume(h.Not(h.eqc(b, lb)))
    if what == 'num':
        mk = lambda **k: paragami.NumericArrayPattern(**dict(dict(shape=(2,), lb=lb, ub=ub), **k))
        var = [dict(lb=b), dict(ub=ub + 1), dict(shape=(1, 2)), dict(default_validate=False), dict(free_default=True),
               dict(free_default=False), dict(lb=-INF)]
    elif what == 'psd':
        d = h.real(p + 'd', 0.1, 0.5)
        h.assume(d > 0)
        mk = lambda **k: paragami.PSDSymmetricMatrixPattern(**dict(dict(size=2, diag_lb=d), **k))
        var = [dict(diag_lb=d + 1), dict(size=1), dict(default_validate=False), dict(free_default=True),
               dict(free_default=False)]
    else:
        mk = lambda **k: paragami.SimplexArrayPattern(**dict(dict(simplex_size=2, array_shape=(2,)), **k))
        var = [dict(simplex_size=4), dict(array_shape=(1, 2)), dict(default_validate=False), dict(free_default=True),
               dict(free_default=False)]
    return mk, var


def dictionary(h, what, depth):
    mk, var = leaf(h, what, 'l')
    k = int(h.int('variant', 0, len(var) + 7))

    def build(kw, keys=('a', 'b'), fd=None, extra=False, order=False, fdo=None, swap=False):
        d = paragami.PatternDict(free_default=fd)
        items = [(keys[0], mk(**kw)), (keys[1], paragami.NumericVectorPattern(1))]
        if swap:
            items = [(keys[0], items[1][1]), (keys[1], items[0][1])]
        if order:
            items.reverse()
        for n, v in items:
            d[n] = v
        if extra:
            d['c'] = paragami.NumericVectorPattern(1)
        for r in range(depth):
            o = paragami.PatternDict(free_default=fdo)
            o['in'] = d
            d = o
        return d

    p = build({})
    n = len(var)
    if k < n:
        q, same = build(var[k]), False
    elif k == n:
        q, same = build({}), True
    elif k == n + 1:
        q, same = build({}, keys=('a', 'x')), False
    elif k == n + 2:
        q, same = build({}, order=True), False
    elif k == n + 3:
        q, same = build({}, extra=True), False
    elif k == n + 4:
        q, same = build({}, fd=True), False
    elif k == n + 5:
        q, same = build({}, fd=False), False
    elif k == n + 6:
        q, same = build({}, fdo=True), depth == 0
    else:
        q, same = build({}, swap=True), False
    verdict(h, p, q, same, 'dictionary')
    # the same pattern reached by editing or after locking
    r = build({})
    if depth == 0:
        r['a'] = mk(**var[0])
        r['a'] = mk()
        verdict(h, p, r, True, 'edited dictionary')
        del r['b']
        verdict(h, p, r, False, 'dictionary with an entry removed')
        r['b'] = paragami.NumericVectorPattern(1)
        r.lock()
        verdict(h, p, r, True, 'locked dictionary')


def array(h, what, depth):
    mk, var = leaf(h, what, 'l')
    k = int(h.int('variant', 0, len(var) + 5))

    def build(kw, shape=(2,), fd=None, base=None, fdo=None):
        a = paragami.PatternArray(shape, base or mk(**kw), free_default=fd)
        if depth == 1:
            a = paragami.PatternArray((2,), a, free_default=fdo)
        if depth == 2:
            d = paragami.PatternDict(free_default=fdo)
            d['x'] = a
            a = d
        return a

    p = build({})
    n = len(var)
    if k < n:
        q, same = build(var[k]), False
    elif k == n:
        q, same = build({}), True
    elif k == n + 1:
        q, same = build({}, shape=(3,)), False
    elif k == n + 2:
        q, same = build({}, shape=(1, 2)), False
    elif k == n + 3:
        q, same = build({}, fd=h.choice('fd', [True, False])), False
    elif k == n + 4:
        q, same = build({}, fdo=True), depth == 0
    else:
        q, same = build({}, base=paragami.NumericVectorPattern(2)), False
    verdict(h, p, q, same, 'array')


def arrsplit(h):
    """the same folded shape divided differently"""
    lb = h.real('lb', -3, -1)
    a = paragami.PatternArray((2,), paragami.NumericArrayPattern((3,), lb=lb))
    b = paragami.PatternArray((2, 3), paragami.NumericArrayPattern((1,), lb=lb))
    c = paragami.PatternArray((2,), paragami.PatternArray((1,), paragami.NumericArrayPattern((3,), lb=lb)))
    e = paragami.PatternArray((2, 1), paragami.NumericArrayPattern((3,), lb=lb))
    for x, y in ((a, b), (a, c), (c, e), (a, e)):
        verdict(h, x, y, False, 'divided differently')


def tasks(tier):
    out = [dict(name='num:%s-%s' % (c, k), fn='num', cfg={'cls': c, 'kind': k})
           for c in ('array', 'vec', 'scalar') for k in pats.KINDS]
    out += [dict(name='psd', fn='psd', cfg={}), dict(name='simplex', fn='simplex', cfg={}),
            dict(name='arrsplit', fn='arrsplit', cfg={})]
    out += [dict(name='types:' + pats.name(s), fn='types', cfg={'i': i}) for i, s in enumerate(TYPES)]
    out += [dict(name='namesake:' + c, fn='namesake', cfg={'c': c}) for c in NAMESAKES]
    for w in ('num', 'psd', 'simplex'):
        for d in (0, 1, 2):
            out.append(dict(name='dict:%s@%d' % (w, d), fn='dictionary', cfg={'what': w, 'depth': d}))
            out.append(dict(name='array:%s@%d' % (w, d), fn='array', cfg={'what': w, 'depth': d}))
    return out
