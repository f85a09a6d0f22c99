"""C04: validation accepts a value exactly when it satisfies the constraints."""
from collections import OrderedDict
import numpy as np
import paragami
from . import pats
from .c03 import anyvalue

META = {
    'bounds': 'numeric arrays up to 4 entries, matrices up to 3x3, simplexes up to 2x3, containers nested up to 2 '
              'deep; every real value of every entry and bound; all settings of the two validation flags; '
              'every key missing in turn; wrong shapes of one more / one less entry or dimension',
    'outside': 'NaN entries; simplex sums off by between 1e-9 and exactly zero (the tolerance itself is not part of '
               'the claim); dtypes other than floating point',
    'assumptions': ['exact real arithmetic for the simplex sum'],
}


def ok_value(h, P, v):
    """(certainly valid, certainly invalid) as conditions"""
    k = P.spec[0]
    if k == 'dict':
        rs = [ok_value(h, c, v[n]) for n, c in P.kids]
        return (h.And(*[a for a, _ in rs]), h.Or(*[b for _, b in rs]))
    if k == 'arr':
        rs = [ok_value(h, P.base, v[ix]) for ix in np.ndindex(*P.spec[1])]
        return (h.And(*[a for a, _ in rs]), h.Or(*[b for _, b in rs]))
    cs = []
    if k == 'num':
        for e in np.ravel(v):
            if P.spec[2] in ('lb', 'both'):
                cs.append(P.lb <= e)
            if P.spec[2] in ('ub', 'both'):
                cs.append(e <= P.ub)
        c = h.And(*cs)
        return c, h.Not(c)
    if k == 'psd':
        n = P.spec[1]
        for i in range(n):
            cs.append(v[i, i] >= P.lb)
            for j in range(i):
                cs.append(v[i, j] == v[j, i])
        c = h.And(*cs)
        return c, h.Not(c)
    good, bad = [], []
    for ix in np.ndindex(*P.spec[2]):
        s = 0.0
        for e in v[ix]:
            good.append(e >= 0)
            bad.append(e < 0)
            s = s + e
        good.append(h.exactly(s, 1.0))
        bad.append(s > 1.0 + 1e-9)
        bad.append(s < 1.0 - 1e-9)
    return h.And(*good), h.Or(*bad)


def value(h, spec, flag, default, how):
    P = pats.build(h, spec, default_validate=default)
    v = anyvalue(h, P)
    good, bad = ok_value(h, P, v)
    checked = default if flag is None else flag
    if how == 'validate':
        got, msg = P.pat.validate_folded(v, validate_value=flag)
        h.check(isinstance(msg, str), 'message')
        got = bool(got)
    else:
        try:
            if how == 'flatten':
                P.pat.flatten(v, free=False, validate_value=flag)
            else:
                x = h.arr(pats.oracle_flat(h, P, v))
                P.pat.fold(x, free=False, validate_value=flag)
            got = True
        except ValueError:
            got = False
    if not checked:
        h.check(got, 'accepted without value checking')
    elif got:
        h.check(h.Not(bad), 'accepted only if valid')
    else:
        h.check(h.Not(good), 'rejected only if invalid')


def free_rejects(h, spec):
    """free flattening checks the value as well"""
    P = pats.build(h, spec)
    v = anyvalue(h, P)
    good, bad = ok_value(h, P, v)
    h.assume(bad)
    h.raises(lambda: P.pat.flatten(v, free=True), 'free flatten rejects',
             ValueError)


def missing(h, spec, path):
    P = pats.build(h, spec)
    v = pats.valid(h, P)
    d = v
    for k in path[:-1]:
        d = d[k]
    del d[path[-1]]
    for flag in (None, True, False):
        ok, msg = P.pat.validate_folded(v, validate_value=flag)
        h.check(not ok and isinstance(msg, str) and len(msg) > 0,
                'missing key is reported')
        h.raises(lambda: P.pat.flatten(v, free=False, validate_value=flag),
                 'missing key is rejected')
        h.raises(lambda: P.pat.flatten(v, free=True, validate_value=flag),
                 'missing key is rejected (free)')


def wrong_shape(h, spec, shape, path=()):
    """a leaf value of the wrong shape is reported for every flag"""
    P = pats.build(h, spec)
    v = pats.valid(h, P)
    bad = h.reals('w', tuple(shape))
    if path:
        d = v
        for k in path[:-1]:
            d = d[k]
        d[path[-1]] = bad
    else:
        v = bad
    for flag in (None, True, False):
        ok, msg = P.pat.validate_folded(v, validate_value=flag)
        h.check(not ok and isinstance(msg, str) and len(msg) > 0,
                'wrong shape is reported')
        for free in (False, True):
            h.raises(lambda: P.pat.flatten(v, free=free, validate_value=flag),
                     'wrong shape is rejected', ValueError)


def num_bounds(h, kind, cls):
    lb = h.real('lb', -3, 3) if kind in ('both', 'lb') else -float('inf')
    ub = h.real('ub', -3, 3) if kind in ('both', 'ub') else float('inf')
    if kind == 'lbinf':
        lb, ub = float('inf'), float('inf')
    elif kind == 'ubinf':
        ub = -float('inf')
    elif kind == 'same':
        lb = ub = h.real('lb', -3, 3)
    elif kind == 'lbnan':
        lb, ub = float('nan'), h.real('ub', -3, 3)
    elif kind == 'ubnan':
        lb, ub = h.real('lb', -3, 3), float('nan')
    elif kind == 'nan':
        lb = ub = float('nan')
    make = {'array': lambda: paragami.NumericArrayPattern((2,), lb=lb, ub=ub),
            'vec': lambda: paragami.NumericVectorPattern(2, lb=lb, ub=ub),
            'scalar': lambda: paragami.NumericScalarPattern(lb=lb, ub=ub)}
    try:
        p = make[cls]()
        ok = True
    except (ValueError, AssertionError):
        ok = False
    if kind in ('lbinf', 'ubinf', 'same', 'lbnan', 'ubnan', 'nan'):
        h.check(not ok, 'impossible bounds rejected')
    else:
        h.check(h.Iff(ok, lb < ub), 'built exactly when lb < ub')
        if ok:
            b = p.bounds()
            h.eq(b[0], lb, 'lower bound kept')
            h.eq(b[1], ub, 'upper bound kept')


def psd_bounds(h, n):
    lb = h.real('lb', -1, 1)
    try:
        p = paragami.PSDSymmetricMatrixPattern(n, diag_lb=lb)
        ok = True
    except ValueError:
        ok = False
    h.check(h.Iff(ok, lb >= 0), 'built exactly when diag_lb >= 0')
    if ok:
        h.eq(p.diag_lb(), lb, 'bound kept')
        h.check(p.size() == n and p.shape() == (n, n), 'size kept')


def simplex_size(h):
    k = h.int('k', -2, 4)
    try:
        p = paragami.SimplexArrayPattern(int(k), (2,))
        ok = True
    except ValueError:
        ok = False
    h.check(h.Iff(ok, k >= 2), 'built exactly when the size is at least 2')
    if ok:
        h.check(p.simplex_size() == k, 'size kept')
        h.check(p.array_shape() == (2,) and p.shape() == (2, int(k)),
                'shape kept')


def array_of_dict(h):
    d = paragami.PatternDict()
    d['a'] = paragami.NumericScalarPattern()
    h.raises(lambda: paragami.PatternArray((2,), d),
             'array of dictionaries rejected', NotImplementedError)


FAM = [['num', [1], 'both'], ['num', [1], 'none'], ['num', [3], 'lb'], ['num', [2, 2], 'ub'],
       ['num', [2], 'both'], ['num', [2], 'both', 'vec'], ['num', [1], 'lb', 'scalar'],
       ['psd', 1, True], ['psd', 2, True], ['psd', 2, False], ['psd', 3, True],
       ['simplex', 2, [1]], ['simplex', 3, [1]], ['simplex', 2, [2]],
       ['simplex', 2, []],
       ['dict', [['a', ['num', [2], 'both']], ['m', ['psd', 2, True]]]],
       ['dict', [['s', ['simplex', 2, [1]]], ['d', ['dict', [
           ['x', ['num', [1], 'ub']], ['y', ['num', [1], 'lb']]]]]]],
       ['arr', [2], ['num', [2], 'both']], ['arr', [2], ['psd', 2, True]],
       ['arr', [2], ['simplex', 2, [1]]],
       ['arr', [2, 2], ['num', [1], 'lb']],
       ['dict', [['r', ['arr', [2], ['num', [1], 'both']]],
                 ['q', ['num', [1], 'none']]]]]
BIG = [['num', [2, 3], 'both'], ['psd', 4, True], ['simplex', 3, [2]], ['simplex', 4, [1]],
       ['arr', [2], ['arr', [2], ['num', [1], 'ub']]],
       ['arr', [3], ['psd', 2, True]],
       ['dict', [['a', ['dict', [['b', ['dict', [['c', ['num', [2], 'both']]]]],
                                 ['m', ['psd', 2, True]]]]],
                 ['e', ['arr', [2], ['psd', 1, True]]]]]]


def near(shape):
    shape = list(shape)
    out = []
    for i in range(len(shape)):
        for d in (-1, 1):
            if shape[i] + d > 0:
                out.append(shape[:i] + [shape[i] + d] + shape[i + 1:])
    out.append(shape + [1])
    out.append([1] + shape)
    n = int(np.prod(shape))
    if len(shape) > 1:
        out.append([n])
        out.append(shape[::-1])
    return [s for k, s in enumerate(out) if s != shape and s not in out[:k]]


def full_shape(s):
    if s[0] == 'num':
        return s[1]
    if s[0] == 'psd':
        return [s[1], s[1]]
    if s[0] == 'simplex':
        return s[2] + [s[1]]
    return s[1] + full_shape(s[2])


def paths(s, pre=()):
    out = []
    for n, c in s[1]:
        out.append(pre + (n,))
        if c[0] == 'dict':
            out += paths(c, pre + (n,))
    return out


def sub(s, path):
    for k in path:
        s = dict(s[1])[k]
    return s


def tasks(tier):
    out = []
    fam = FAM + (BIG if tier == 'thorough' else [])
    for s in fam:
        n = pats.name(s)
        for how in ('validate', 'flatten', 'fold'):
            for flag in (None, True, False):
                for default in (True, False):
                    if how == 'fold' and s[0] == 'psd' and flag is False:
                        pass
                    out.append(dict(
                        name='%s:%s:flag=%s:default=%s' % (how, n, flag, default),
                        fn='value', cfg=dict(spec=s, flag=flag, default=default,
                                             how=how)))
        out.append(dict(name='free:' + n, fn='free_rejects', cfg={'spec': s})) \
            if not (s[0] == 'num' and s[2] == 'none') else None
        if s[0] == 'dict':
            for p in paths(s):
                out.append(dict(name='missing:%s:%s' % (n, '.'.join(p)),
                                fn='missing', cfg={'spec': s, 'path': p}))
                leaf = sub(s, p)
                if leaf[0] != 'dict':
                    for w in near(full_shape(leaf))[:3]:
                        out.append(dict(name='shape:%s:%s:%s' % (n, '.'.join(p), w),
                                        fn='wrong_shape',
                                        cfg={'spec': s, 'shape': w, 'path': p}))
        else:
            for w in near(full_shape(s)):
                out.append(dict(name='shape:%s:%s' % (n, w), fn='wrong_shape',
                                cfg={'spec': s, 'shape': w}))
    for kind in ('both', 'lb', 'ub', 'lbinf', 'ubinf', 'same', 'lbnan',
                 'ubnan', 'nan'):
        for cls in ('array', 'vec', 'scalar'):
            out.append(dict(name='bounds:%s:%s' % (kind, cls), fn='num_bounds',
                            cfg=dict(kind=kind, cls=cls)))
    for k in (1, 2):
        out.append(dict(name='diag_lb:%d' % k, fn='psd_bounds', cfg={'n': k}))
    out.append(dict(name='simplex_size', fn='simplex_size', cfg={}))
    out.append(dict(name='array_of_dict', fn='array_of_dict', cfg={}))
    return out
