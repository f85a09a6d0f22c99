"""C33: patterns report what they are made of, and settings can be changed."""
import numpy as np
import paragami
from . import pats, beh

META = {
    'bounds': {
        'quick': 'all pattern types with symbolic bounds; sizes and shapes up to 3 (symbolic integers); containers '
                 'nested up to 3 deep; every combination of the old and new default settings of one pattern at a time',
        'thorough': 'the same, larger shapes and more nestings',
    },
    'outside': 'changing the settings of a pattern inside a container (a container keeps its entries as they are)',
    'assumptions': [],
}


def again(h, p):
    """a pattern of the same type built from what the accessors say"""
    if isinstance(p, paragami.PatternDict):
        q = paragami.PatternDict(free_default=p.free_default)
        for k in p.keys():
            q[k] = again(h, p[k])
        return q
    if isinstance(p, paragami.PatternArray):
        return paragami.PatternArray(p.array_shape(), again(h, p.base_pattern()), free_default=p.free_default)
    kw = dict(default_validate=p.default_validate, free_default=p.free_default)
    if isinstance(p, paragami.PSDSymmetricMatrixPattern):
        return paragami.PSDSymmetricMatrixPattern(p.size(), diag_lb=p.diag_lb(), **kw)
    if isinstance(p, paragami.SimplexArrayPattern):
        return paragami.SimplexArrayPattern(p.simplex_size(), p.array_shape(), **kw)
    lb, ub = p.bounds()
    if isinstance(p, paragami.NumericScalarPattern):
        return paragami.NumericScalarPattern(lb=lb, ub=ub, **kw)
    if isinstance(p, paragami.NumericVectorPattern):
        return paragami.NumericVectorPattern(p.length(), lb=lb, ub=ub, **kw)
    return paragami.NumericArrayPattern(p.shape(), lb=lb, ub=ub, **kw)


def reports(h, P, label):
    """the accessors against what P was built with"""
    p, k = P.pat, P.spec[0]
    if k == 'dict':
        names = [n for n, _ in P.kids]
        h.check(list(p.keys()) == names, label + ': keys')
        for n, c in P.kids:
            h.check(p[n] is c.pat, label + ': entries')
            reports(h, c, label + '.' + n)
        h.raises(lambda: p['no such entry'], label + ': there is no other entry')
        return
    h.check(tuple(p.shape()) == tuple(P.shape), label + ': shape', lambda: repr(p.shape()))
    if k == 'arr':
        h.check(tuple(p.array_shape()) == tuple(P.spec[1]), label + ': array shape')
        h.check(bool(p.base_pattern() == P.base.pat), label + ': base pattern')
        reports(h, P.base, label + '[]')
    elif k == 'num':
        lb, ub = p.bounds()
        h.eq(lb, P.lb, label + ': lower bound')
        h.eq(ub, P.ub, label + ': upper bound')
        if len(P.spec) > 3 and P.spec[3] == 'vec':
            h.check(p.length() == P.spec[1][0], label + ': length')
    elif k == 'psd':
        h.check(p.size() == P.spec[1], label + ': size')
        h.eq(p.diag_lb(), P.lb, label + ': diagonal bound')
    else:
        h.check(p.simplex_size() == P.spec[1], label + ': simplex size')
        h.check(tuple(p.array_shape()) == tuple(P.spec[2]), label + ': array shape')


def nodes(spec):
    if spec[0] == 'dict':
        return 1 + sum(nodes(s) for _, s in spec[1])
    return 1 + (nodes(spec[2]) if spec[0] == 'arr' else 0)


def describe(h, spec):
    few = nodes(spec) <= 4
    P = beh.varied(h, spec, 'p.', frees=(None, True) if few else (None,), validates=(True, False) if few else (True,))
    p = P.pat
    reports(h, P, 'built')
    # operations change nothing about it
    free = h.choice('free', [True, False] if pats.free_len(spec) <= 3 else [False])
    y = h.reals('y', ((pats.free_len if free else pats.flat_len)(spec),), -1.0, 1.0)
    v = p.fold(y, free=free, validate_value=False)
    p.flatten(v, free=free, validate_value=False)
    reports(h, P, 'used')
    if spec[0] != 'dict':
        h.check(np.shape(v) == tuple(p.shape()), 'folded values have the reported shape')
    else:
        h.check(list(v.keys()) == list(p.keys()), 'folded values have the reported keys')
    q = again(h, p)
    h.check(bool(p == q), 'equal to the pattern built from the reports')


def settings(h, spec):
    """assigning a default setting is as good as building with it"""
    leaf = spec[0] in ('num', 'psd', 'simplex')
    frees, vals = [None, True, False], [True, False]
    kw = dict(free_default=h.choice('old fd', frees))
    if leaf:
        kw['default_validate'] = h.choice('old dv', vals)
    P = pats.build(h, spec, '', **(kw if leaf else {}))
    if not leaf:
        P.pat.free_default = kw['free_default']
    p = P.pat
    # use it first
    beh.outcome(lambda: p.flat_length())
    beh.outcome(lambda: p.flat_indices(beh.fill(P, True)))
    q = again(h, p)
    fd = h.choice('new fd', frees)
    p.free_default = fd
    if leaf:
        p.default_validate = h.choice('new dv', vals)
    # q is built with the new settings from the start
    q = again(h, p)
    h.check(p.free_default is fd, 'the default reads as assigned')
    h.check(bool(p == q) and bool(q == p), 'equal to a pattern built with the setting')
    P.pat = q
    beh.behaviour(h, P, p, validate=leaf)


def sized(h, kind):
    """sizes and shapes as symbolic integers"""
    if kind == 'num':
        s = tuple(h.int('s%d' % i, 0, 3) for i in range(h.choice('d', [1, 2])))
        p = paragami.NumericArrayPattern(s)
        got, want = p.shape(), s
    elif kind == 'vec':
        n = h.int('n', 0, 3)
        p = paragami.NumericVectorPattern(n)
        h.eq(p.length(), n, 'length')
        got, want = p.shape(), (n,)
    elif kind == 'psd':
        n = h.int('n', 1, 4)
        p = paragami.PSDSymmetricMatrixPattern(n)
        h.eq(p.size(), n, 'size')
        got, want = p.shape(), (n, n)
    elif kind == 'simplex':
        n = h.int('n', 2, 4)
        s = tuple(h.int('s%d' % i, 0, 2) for i in range(h.choice('d', [0, 1, 2])))
        p = paragami.SimplexArrayPattern(n, s)
        h.eq(p.simplex_size(), n, 'simplex size')
        h.check(len(p.array_shape()) == len(s), 'array shape')
        for a, b in zip(p.array_shape(), s):
            h.eq(a, b, 'array shape')
        got, want = p.shape(), s + (n,)
    else:
        n = h.int('n', 1, 3)
        s = tuple(h.int('s%d' % i, 1, 2) for i in range(h.choice('d', [1, 2])))
        p = paragami.PatternArray(s, paragami.NumericVectorPattern(n))
        for a, b in zip(p.array_shape(), s):
            h.eq(a, b, 'array shape')
        got, want = p.shape(), s + (n,)
    h.check(len(got) == len(want), 'number of dimensions')
    for a, b in zip(got, want):
        h.eq(a, b, 'shape')


def tasks(tier):
    fam = list(pats.family(tier)) + pats.empties()
    out = []
    for s in fam:
        out.append(dict(name='describe:' + pats.name(s), fn='describe', cfg={'spec': s}))
    small = [['num', [2], k] for k in pats.KINDS] + [
        ['num', [1, 2], 'both'], ['num', [2], 'lb', 'vec'], ['num', [1], 'both', 'scalar'], ['psd', 1, True],
        ['psd', 2, True], ['simplex', 2, []], ['simplex', 3, [1]],
        ['dict', [['b', ['num', [1], 'both']], ['a', ['simplex', 3, [1]]]]],
        ['dict', [['m', ['psd', 2, True]]]],
        ['arr', [2], ['num', [2], 'both']], ['arr', [2], ['psd', 2, True]], ['arr', [2, 1], ['simplex', 3, [1]]],
        ['dict', [['d', ['dict', [['y', ['num', [2], 'both']]]]], ['z', ['num', [2], 'none']]]],
        ['dict', [['q', ['arr', [2], ['psd', 2, False]]]]],
        ['arr', [2], ['arr', [2], ['simplex', 2, [1]]]]]
    for s in small:
        out.append(dict(name='settings:' + pats.name(s), fn='settings', cfg={'spec': s}))
    for k in ('num', 'vec', 'psd', 'simplex', 'arr'):
        out.append(dict(name='sized:' + k, fn='sized', cfg={'kind': k}))
    return out
