"""Pattern configurations shared by the harnesses.

A spec is JSON: ['num', shape, kind], ['psd', size, diag_lb?], ['simplex', k,
array_shape], ['dict', [[name, spec], ...]], ['arr', array_shape, spec].
Bounds are symbolic.  kind: none | lb | ub | both.
"""
from collections import OrderedDict
import numpy as np
import paragami

KINDS = ('none', 'lb', 'ub', 'both')


def bounds(h, kind, p):
    lb, ub = -float('inf'), float('inf')
    if kind in ('lb', 'both'):
        lb = h.real(p + 'lb', -3.0, -1.0)
    if kind in ('ub', 'both'):
        ub = h.real(p + 'ub', 1.0, 3.0)
    if kind == 'both':
        h.assume(lb < ub)
    return lb, ub


class P:
    """a built pattern with what the oracle needs to know about it"""

    def __init__(self, spec, pat, p, **kw):
        self.spec, self.pat, self.p = spec, pat, p
        self.__dict__.update(kw)


def build(h, spec, p='', **opts):
    k = spec[0]
    if k == 'num':
        lb, ub = bounds(h, spec[2], p)
        cls = spec[3] if len(spec) > 3 else 'array'
        kw = dict(opts)
        # without bounds, and for vectors and scalars, infinite bounds are
        # left to the defaults; otherwise they are given
        give = cls == 'array' and spec[2] != 'none'
        if lb != -float('inf') or give:
            kw['lb'] = lb
        if ub != float('inf') or give:
            kw['ub'] = ub
        if cls == 'vec':
            pat = paragami.NumericVectorPattern(spec[1][0], **kw)
        elif cls == 'scalar':
            pat = paragami.NumericScalarPattern(**kw)
        else:
            pat = paragami.NumericArrayPattern(tuple(spec[1]), **kw)
        return P(spec, pat, p, lb=lb, ub=ub, shape=tuple(spec[1]))
    if k == 'psd':
        if spec[2]:
            lb = h.real(p + 'dlb', 0.1, 0.5)
            h.assume(lb >= 0)
            pat = paragami.PSDSymmetricMatrixPattern(spec[1], diag_lb=lb, **opts)
        else:
            lb = 0.0    # the default
            pat = paragami.PSDSymmetricMatrixPattern(spec[1], **opts)
        return P(spec, pat, p, lb=lb, shape=(spec[1], spec[1]))
    if k == 'simplex':
        pat = paragami.SimplexArrayPattern(spec[1], tuple(spec[2]), **opts)
        return P(spec, pat, p, shape=tuple(spec[2]) + (spec[1],))
    if k == 'dict':
        o = {a: b for a, b in opts.items() if a != 'default_validate'}
        pat = paragami.PatternDict(**o)
        kids = []
        for name, s in spec[1]:
            c = build(h, s, p + name + '.', **opts)
            pat[name] = c.pat
            kids.append((name, c))
        return P(spec, pat, p, kids=kids)
    if k == 'arr':
        o = {a: b for a, b in opts.items() if a != 'default_validate'}
        base = build(h, spec[2], p + 'b.', **opts)
        pat = paragami.PatternArray(tuple(spec[1]), base.pat, **o)
        return P(spec, pat, p, base=base,
                 shape=tuple(spec[1]) + tuple(base.shape))
    raise ValueError(k)


def free_len(spec):
    k = spec[0]
    if k == 'num':
        return int(np.prod(spec[1])) if len(spec[1]) else 1
    if k == 'psd':
        return spec[1] * (spec[1] + 1) // 2
    if k == 'simplex':
        return int(np.prod(spec[2], dtype=int)) * (spec[1] - 1)
    if k == 'dict':
        return sum(free_len(s) for _, s in spec[1])
    return int(np.prod(spec[1], dtype=int)) * free_len(spec[2])


def flat_len(spec):
    k = spec[0]
    if k == 'num':
        return int(np.prod(spec[1])) if len(spec[1]) else 1
    if k == 'psd':
        return spec[1] ** 2
    if k == 'simplex':
        return int(np.prod(spec[2], dtype=int)) * spec[1]
    if k == 'dict':
        return sum(flat_len(s) for _, s in spec[1])
    return int(np.prod(spec[1], dtype=int)) * flat_len(spec[2])


def minors_positive(h, A, n):
    def det(m):
        k = len(m)
        if k == 1:
            return m[0][0]
        t = 0.0
        for j in range(k):
            t = t + ((-1) ** j) * m[0][j] * det(
                [r[:j] + r[j + 1:] for r in m[1:]])
        return t
    for k in range(1, n + 1):
        h.assume(det([[A[i, j] for j in range(k)] for i in range(k)]) > 0)


def valid(h, P, p='v', strict=True):
    """An arbitrary valid folded value (interior of the constraint set)."""
    k = P.spec[0]
    sub, p = p, P.p + p
    if k == 'num':
        x = h.reals(p, P.shape, -0.9, 0.9)
        for v in x.ravel():
            if P.spec[2] in ('lb', 'both'):
                h.assume(P.lb < v)
            if P.spec[2] in ('ub', 'both'):
                h.assume(v < P.ub)
        return x
    if k == 'psd':
        n = P.spec[1]
        A = np.empty((n, n), dtype=object)
        for i in range(n):
            for j in range(i + 1):
                v = h.real('%s%d_%d' % (p, i, j), *((1.0, 3.0) if i == j else
                                                   (-0.5, 0.5)))
                A[i, j] = A[j, i] = v
        A = h.arr(list(A.ravel())).reshape((n, n))
        B = np.array(A)
        for i in range(n):
            B[i, i] = B[i, i] - P.lb
        minors_positive(h, B, n)
        return A
    if k == 'simplex':
        K = P.spec[1]
        shape = tuple(P.spec[2])
        m = int(np.prod(shape, dtype=int))
        vals = []
        for r in range(m):
            q = [h.real('%s%d_%d' % (p, r, c), 0.02, 1.0 / K)
                 for c in range(1, K)]
            last = 1.0
            for v in q:
                h.assume(v > 0)
                last = last - v
            h.assume(last > 0)
            vals += [last] + q
        return h.arr(vals).reshape(shape + (K,))
    if k == 'dict':
        return OrderedDict((n, valid(h, c, sub)) for n, c in P.kids)
    m = int(np.prod(P.spec[1], dtype=int))
    parts = []
    for r in range(m):
        parts += list(valid(h, P.base, '%s%d.' % (sub, r)).ravel())
    return h.arr(parts).reshape(P.shape)


def oracle_flat(h, P, v):
    """documented non-free layout: row major, dictionary in insertion order"""
    if P.spec[0] == 'dict':
        out = []
        for n, c in P.kids:
            out += oracle_flat(h, c, v[n])
        return out
    return list(np.asarray(v).ravel(order='C'))


def name(spec):
    k = spec[0]
    if k == 'num':
        return '%s%s-%s' % (spec[3] if len(spec) > 3 else 'num',
                            'x'.join(map(str, spec[1])) or '()', spec[2])
    if k == 'psd':
        return 'psd%d%s' % (spec[1], '-lb' if spec[2] else '')
    if k == 'simplex':
        return 'simplex%d@%s' % (spec[1], 'x'.join(map(str, spec[2])) or '()')
    if k == 'dict':
        return 'dict(%s)' % ','.join('%s:%s' % (n, name(s))
                                     for n, s in spec[1])
    return 'arr%s(%s)' % ('x'.join(map(str, spec[1])), name(spec[2]))


def family(tier, light=False):
    """the standard configurations of one tier

    light: for properties with many paths per configuration
    """
    out = []
    shapes = [[1], [3], [2, 2]]
    if not light:
        shapes += [[2, 3], [1, 2, 2], [5]]
    if tier == 'thorough':
        shapes += [[3, 1], [2, 2, 2], [7]]
    for s in shapes:
        for k in KINDS:
            out.append(['num', s, k])
    out += [['num', [2], 'both', 'vec'], ['num', [3], 'lb', 'vec'],
            ['num', [1], 'both', 'scalar'], ['num', [1], 'ub', 'scalar'],
            ['num', [1], 'none', 'scalar'], ['num', [2], 'none', 'vec']]
    sizes = (1, 2, 3) + (() if light else (4,))
    if tier == 'thorough':
        sizes = (1, 2, 3, 4)
    for n in sizes:
        out += [['psd', n, False], ['psd', n, True]]
    out += [['simplex', 2, [1]], ['simplex', 3, [2]], ['simplex', 2, []],
            ['simplex', 4, [1]], ['simplex', 2, [2, 2]]]
    if not light:
        out += [['simplex', 3, [2, 2]], ['simplex', 5, [2]],
                ['simplex', 3, [2, 1, 2]]]
    if tier == 'thorough':
        out += [['simplex', 4, [3]], ['simplex', 6, [1]]]
        if light:
            out += [['simplex', 3, [2, 2]], ['simplex', 5, [2]]]
    out += [
        ['dict', [['a', ['num', [2], 'both']], ['m', ['psd', 2, True]],
                  ['s', ['simplex', 3, [1]]]]],
        ['dict', [['z', ['simplex', 2, [2]]], ['a', ['num', [2], 'lb']]]],
        ['dict', [['d', ['dict', [['x', ['num', [1], 'ub']],
                                  ['y', ['psd', 2, False]]]]],
                  ['b', ['num', [2], 'none']]]],
        ['arr', [2], ['num', [2], 'both']],
        ['arr', [2], ['psd', 2, True]],
        ['arr', [2, 2], ['simplex', 2, [1]]],
        ['arr', [2, 1], ['num', [1], 'ub']],
        ['dict', [['q', ['arr', [2], ['psd', 2, False]]],
                  ['p', ['simplex', 3, [1]]], ['n', ['num', [1], 'lb']]]],
        ['arr', [2], ['arr', [2], ['num', [1], 'lb']]],
        ['arr', [2, 3], ['num', [2], 'lb']],
        ['dict', [['c', ['num', [1], 'both', 'scalar']],
                  ['b', ['num', [2], 'ub', 'vec']],
                  ['a', ['num', [1], 'none']], ['0', ['psd', 1, True]]]],
    ]
    if tier == 'thorough' or not light:
        out += [
            ['arr', [2, 3], ['psd', 2, True]],
            ['arr', [3], ['psd', 3, False]],
            ['dict', [['u', ['dict', [['v', ['dict', [
                ['w', ['arr', [2], ['simplex', 3, [1]]]],
                ['k', ['num', [2], 'both']]]]],
                ['t', ['psd', 3, True]]]]],
                ['o', ['num', [2, 2], 'ub']]]],
        ]
    if tier == 'thorough':
        out += [
            ['arr', [1, 2, 2], ['simplex', 2, [2]]],
            ['dict', [['c', ['psd', 3, True]], ['b', ['psd', 2, False]],
                      ['a', ['psd', 1, True]],
                      ['s', ['simplex', 4, [2]]]]],
            ['arr', [2], ['arr', [2, 2], ['psd', 2, False]]],
        ]
    return out


def large(which='layout'):
    """bigger shapes: a size threshold in the code would show there

    layout: for properties about positions only; free: few branches when
    folding free vectors; value: arbitrary valid values remain cheap
    """
    deep = ['dict', [['c', ['dict', [['a', ['num', [2], 'lb']]]]], ['a', ['num', [1], 'none']]]]
    deep = ['dict', [['b', ['dict', [['b', deep]]]], ['a', ['num', [2], 'ub']]]]
    out = [['num', [12, 11], 'none'], ['num', [2, 1, 2, 1, 2], 'both'], ['num', [20], 'both'], ['num', [11], 'ub'],
           ['dict', [['k%d' % i, ['num', [1 + i % 2], KINDS[i % 4]]] for i in range(11, -1, -1)]],
           deep,
           ['arr', [11], ['num', [1], 'ub']], ['arr', [1, 2, 1, 2], ['psd', 1, True]],
           ['arr', [2, 2, 2], ['num', [2, 2], 'lb']], ['simplex', 2, [6]], ['arr', [3, 2], ['psd', 3, True]]]
    if which != 'value':
        out += [['psd', 6, False], ['psd', 7, True], ['simplex', 8, [1]], ['arr', [3], ['simplex', 2, [2]]],
                ['dict', [['s', ['simplex', 4, [1]]], ['m', ['psd', 5, True]], ['r', ['arr', [3], ['psd', 4, False]]]]]]
    if which == 'layout':
        out += [['simplex', 2, [11]], ['simplex', 12, [1]], ['simplex', 3, [2, 1, 2, 1]], ['arr', [6], ['simplex', 2, [2]]],
                ['psd', 12, False], ['arr', [11], ['psd', 2, False]]]
    return out


def empties():
    """patterns with no entries, alone and next to others"""
    num = ['num', [2], 'lb']
    return [['dict', []], ['num', [0], 'none'], ['num', [2, 0], 'none'], ['simplex', 3, [0]],
            ['simplex', 2, [2, 0]], ['arr', [0], num], ['arr', [2], ['num', [0], 'none']],
            ['arr', [0, 2], ['simplex', 2, [1]]],
            ['dict', [['e', ['dict', []]], ['a', num]]],
            ['dict', [['a', num], ['e', ['dict', [['f', ['dict', []]]]]]]],
            ['dict', [['a', ['arr', [0], ['psd', 2, True]]], ['m', ['psd', 1, True]],
                      ['z', ['num', [0], 'none', 'vec']], ['s', ['simplex', 2, [1]]]]],
            ['dict', [['a', ['simplex', 3, [0]]], ['b', ['num', [0, 2], 'none']]]]]


def heavy(s):
    """arbitrary valid values of these are too expensive for the solver"""
    if s[0] == 'psd':
        return s[1] >= 4 and s[2]
    if s[0] == 'dict':
        return any(heavy(c) for _, c in s[1])
    return s[0] == 'arr' and heavy(s[2])
