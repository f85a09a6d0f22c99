"""C12: the default free setting is resolved once and containers never mix it."""
import numpy as np
import paragami
from . import pats, beh

META = {
    'bounds': 'every pattern type and containers nested up to 3 deep with every combination of default free settings '
              '(None/True/False) independently at every level; all free vectors, flat vectors and folded values',
    'outside': 'sizes beyond the configurations; flat_indices with an empty mask (it returns no indices whatever the '
               'setting)',
    'assumptions': ['exact real arithmetic'],
}


def ops(h, P):
    """name -> (callable of the keyword arguments)"""
    p, spec = P.pat, P.spec
    nf, n = pats.free_len(spec), pats.flat_len(spec)
    op = h.choice('op', ['length', 'fold_free', 'fold_flat', 'flatten', 'indices'])
    if op == 'length':
        return lambda **k: p.flat_length(**k)
    if op == 'fold_free':
        y = h.reals('y', (nf,), -1.0, 1.0)
        return lambda **k: p.fold(y, validate_value=False, **k)
    if op == 'fold_flat':
        y = h.reals('y', (n,), -1.0, 1.0)
        return lambda **k: p.fold(y, validate_value=False, **k)
    if op == 'flatten':
        y = h.reals('y', (nf,), -1.0, 1.0)
        v = p.fold(y, free=True)
        return lambda **k: p.flatten(v, validate_value=False, **k)
    m = beh.fill(P, True)
    return lambda **k: p.flat_indices(m, **k)


def defaults(h, spec):
    P = beh.varied(h, spec, validates=(True,))
    d = P.fd
    h.check(P.pat.free_default is d, 'the default is the one given when the pattern was built')
    f = ops(h, P)
    if d is None:
        h.raises(lambda: f(), 'no default: omitted free is an error')
        h.raises(lambda: f(free=None), 'no default: free=None is an error')
    else:
        beh.same_outcome(h, lambda: f(), lambda: f(free=d), 'omitted free == the default')
        beh.same_outcome(h, lambda: f(free=None), lambda: f(free=d), 'free=None == the default')


def explicit(h, spec):
    """an explicit argument gives what a pattern without any default gives"""
    P = beh.varied(h, spec, validates=(True,))
    f = ops(h, P)
    Q = pats.P(spec, plain(P), 'q')
    for n in ('kids', 'base', 'shape'):
        if hasattr(P, n):
            setattr(Q, n, getattr(P, n))
    g = regoing(P, Q, f)
    free = h.choice('free', [True, False])
    beh.same_outcome(h, lambda: f(free=free), lambda: g(free=free), 'explicit free wins at every level')


def plain(P):
    k = P.spec[0]
    if k == 'num':
        cls = P.spec[3] if len(P.spec) > 3 else 'array'
        if cls == 'vec':
            return paragami.NumericVectorPattern(P.spec[1][0], lb=P.lb, ub=P.ub)
        if cls == 'scalar':
            return paragami.NumericScalarPattern(lb=P.lb, ub=P.ub)
        return paragami.NumericArrayPattern(tuple(P.spec[1]), lb=P.lb, ub=P.ub)
    if k == 'psd':
        return paragami.PSDSymmetricMatrixPattern(P.spec[1], diag_lb=P.lb)
    if k == 'simplex':
        return paragami.SimplexArrayPattern(P.spec[1], tuple(P.spec[2]))
    if k == 'dict':
        d = paragami.PatternDict()
        for n, c in P.kids:
            d[n] = plain(c)
        return d
    return paragami.PatternArray(tuple(P.spec[1]), plain(P.base))


def regoing(P, Q, f):
    """the operation f (a closure over P.pat) on Q.pat instead"""
    names = f.__code__.co_freevars
    cells = []
    import types
    for n, c in zip(names, f.__closure__):
        cells.append(types.CellType(Q.pat) if n == 'p' else c)
    return types.FunctionType(f.__code__, f.__globals__, f.__name__, f.__defaults__, tuple(cells))


def changed(h, spec):
    """the default set after construction is used as well"""
    P = pats.build(h, spec)
    f = ops(h, P)
    d = h.choice('new', [None, True, False])
    P.pat.free_default = d
    if d is None:
        h.raises(lambda: f(), 'no default: omitted free is an error')
    else:
        beh.same_outcome(h, lambda: f(), lambda: f(free=d), 'changed default is used')


def tasks(tier):
    leaves = [['num', [2], k] for k in pats.KINDS] + [
        ['num', [1, 2], 'both'], ['num', [2], 'lb', 'vec'], ['num', [1], 'both', 'scalar'], ['psd', 1, True],
        ['psd', 2, True], ['psd', 3, False], ['simplex', 2, []], ['simplex', 3, [2]]]
    nest = [['dict', [['b', ['num', [1], 'both']], ['a', ['simplex', 3, [1]]]]],
            ['dict', [['m', ['psd', 2, True]]]],
            ['arr', [2], ['num', [2], 'both']], ['arr', [2], ['psd', 2, True]], ['arr', [2, 1], ['simplex', 3, [1]]],
            ['dict', [['d', ['dict', [['y', ['psd', 2, False]]]]], ['z', ['num', [2], 'none']]]],
            ['dict', [['q', ['arr', [2], ['psd', 2, False]]]]],
            ['arr', [2], ['arr', [2], ['simplex', 2, [1]]]]]
    if tier == 'thorough':
        nest += [['dict', [['d', ['dict', [['e', ['dict', [['y', ['psd', 2, True]]]]]]]],
                           ['s', ['simplex', 3, [1]]]]],
                 ['arr', [2], ['arr', [2], ['arr', [2], ['num', [1], 'both']]]],
                 ['dict', [['a', ['psd', 3, True]], ['b', ['simplex', 4, [1]]], ['c', ['num', [2, 2], 'lb']]]]]
    out = []
    for s in leaves + nest:
        for fn in ('defaults', 'explicit'):
            out.append(dict(name=fn + ':' + pats.name(s), fn=fn, cfg={'spec': s}))
        out.append(dict(name='changed:' + pats.name(s), fn='changed', cfg={'spec': s}))
    return out
