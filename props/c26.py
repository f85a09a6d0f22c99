"""C26: names of flat entries line up with the flat vector."""
import itertools
import numpy as np
import paragami
from . import pats

META = {
    'bounds': 'numeric arrays with 1-3 dimensions of size 1-3 (12), matrices of size 1-4, simplexes of size 2-6, '
              'dictionaries (every order of up to three keys) and arrays nested up to 4 deep, larger shapes (up to 132 entries) for the non-free names; every free and flat vector '
              'and all bounds; free given or taken from the default',
    'outside': 'larger shapes; keys that contain the delimiter, dictionaries without entries',
    'assumptions': ['exact real arithmetic'],
}


def entries(P, free, delim='_', prefix=''):
    """[(name or None, prefix, path of keys, index in the folded leaf or None)] in flat order"""
    k = P.spec[0]
    out = []
    if k == 'dict':
        for n, c in P.kids:
            for nm, pre, path, idx in entries(c, free):
                out.append((None if nm is None else n + delim + nm, n + delim + pre, (n,) + path, idx))
        return out
    if k == 'num':
        return [('[' + ','.join(str(i) for i in ix) + ']', '', (), ix)
                for ix in itertools.product(*[range(s) for s in P.shape])]
    n = pats.free_len(P.spec) if free else pats.flat_len(P.spec)
    return [(None, '', (), None)] * n


def look(v, path):
    for k in path:
        v = v[k]
    return v


def names(h, spec, free, default, perm=False):
    if perm and spec[0] == 'dict':
        kids = h.choice('order', [list(p) for p in itertools.permutations(spec[1])])
        spec = ['dict', kids]
    P = pats.build(h, spec, **({'free_default': free} if default else {}))
    p = P.pat
    got = list(p.flat_names(None if default else free))
    want = entries(P, free)
    n = pats.free_len(spec) if free else pats.flat_len(spec)
    h.check(len(got) == n == p.flat_length(free=free), 'one name per flat entry')
    h.check(all(isinstance(g, str) for g in got), 'strings')
    h.check(len(set(got)) == len(got), 'distinct')
    h.check(len(want) == n, 'oracle')
    for g, (nm, pre, path, idx) in zip(got, want):
        if nm is not None:
            h.check(str(g) == nm, 'name of a numeric entry', lambda: '%r %r' % (g, nm))
        else:
            h.check(str(g).startswith(pre) and len(g) > len(pre), 'prefixed with the keys', lambda: '%r %r' % (g, pre))
    # the named entry of the folded value is the one at that position of the flat vector
    x = h.reals('x', (n,), -1.0, 1.0)
    v = p.fold(x, free=free, validate_value=False)
    if not free:
        for i, (nm, pre, path, idx) in enumerate(want):
            if idx is not None:
                h.eq(look(v, path)[idx], x[i], 'entry with that name')
        return
    flat = lambda z: h.arr([look(w, path)[idx] for w in [p.fold(z, free=True)]
                            for nm, pre, path, idx in want if idx is not None])
    rows = [i for i, e in enumerate(want) if e[3] is not None]
    if not rows:
        return
    J = h.jac(flat, x)
    for a, i in enumerate(rows):
        for k in range(n):
            if k == i:
                h.check(h.Or(J[a, k] > 1e-12, J[a, k] < -1e-12) if not h.symbolic else
                        h.Not(h.eqc(J[a, k], 0.0)), 'depends on the entry with that name')
            else:
                h.eq(J[a, k], 0.0, 'depends on no other entry', rtol=1e-6, atol=1e-9)


def sized(h, kind):
    """sizes as symbolic integers"""
    free = h.choice('free', [True, False])
    if kind == 'num':
        nd = int(h.int('nd', 1, 3))
        ds = [int(h.int('d%d' % i, 1, 3)) for i in range(nd)]
        p = paragami.NumericArrayPattern(tuple(ds))
        want = ['[' + ','.join(map(str, ix)) + ']' for ix in itertools.product(*[range(d) for d in ds])]
        h.check([str(a) for a in p.flat_names(free)] == want, 'names of an array')
    elif kind == 'vec':
        n = int(h.int('n', 1, 12))
        got = [str(a) for a in paragami.NumericVectorPattern(n).flat_names(free)]
        h.check(got == ['[%d]' % i for i in range(n)], 'names of a vector')
    elif kind == 'psd':
        n = int(h.int('n', 1, 5))
        got = list(paragami.PSDSymmetricMatrixPattern(n).flat_names(free))
        h.check(len(got) == len(set(got)) == (n * (n + 1) // 2 if free else n * n), 'names of a matrix')
    else:
        k, m = int(h.int('k', 2, 6)), int(h.int('m', 1, 3))
        got = list(paragami.SimplexArrayPattern(k, (m,)).flat_names(free))
        h.check(len(got) == len(set(got)) == (m * (k - 1) if free else m * k), 'names of a simplex')


def delimiter(h, spec):
    P = pats.build(h, spec)
    free = h.choice('free', [True, False])
    for d in ('.', '::', ''):
        got = list(P.pat.flat_names(free, delim=d))
        for g, (nm, pre, path, idx) in zip(got, entries(P, free, d)):
            if nm is not None:
                h.check(str(g) == nm, 'delimiter', lambda: '%r %r' % (g, nm))
            else:
                h.check(str(g).startswith(pre), 'delimiter')
    h.check(list(P.pat.flat_names(free)) == list(P.pat.flat_names(free, delim='_')), 'default delimiter')


def unset(h, spec):
    """without a setting, a pattern whose names depend on it raises"""
    P = pats.build(h, spec)
    if pats.free_len(spec) != pats.flat_len(spec):
        h.raises(lambda: P.pat.flat_names(None), 'neither given nor default')


def tasks(tier):
    out = []
    fam = list(pats.family(tier)) + pats.empties()
    fam += [['dict', [['long key', ['num', [2], 'lb']], ['B', ['simplex', 3, [1]]], ['a1', ['num', [1, 2], 'none']]]],
            ['num', [12], 'none'], ['dict', [['v', ['num', [11], 'ub']], ['m', ['psd', 4, False]]]]]
    for s in fam:
        nm = pats.name(s)
        heavy = s[0] == 'psd' and s[1] > 3
        for free in (True, False):
            if heavy and free:
                continue
            out.append(dict(name='names:%s:free=%s' % (nm, free), fn='names',
                            cfg=dict(spec=s, free=free, default=False)))
            if pats.flat_len(s) <= 8:
                out.append(dict(name='names:%s:default=%s' % (nm, free), fn='names',
                                cfg=dict(spec=s, free=free, default=True)))
            if s[0] == 'dict' and len(s[1]) <= 3 and pats.flat_len(s) <= 12:
                out.append(dict(name='names:%s:perm=%s' % (nm, free), fn='names',
                                cfg=dict(spec=s, free=free, default=False, perm=True)))
        if s[0] == 'dict':
            out.append(dict(name='delim:' + nm, fn='delimiter', cfg=dict(spec=s)))
        if s[0] in ('psd', 'simplex') and pats.free_len(s) != pats.flat_len(s):
            out.append(dict(name='unset:' + nm, fn='unset', cfg=dict(spec=s)))
    for s in pats.large():
        if pats.flat_len(s) <= 140:
            out.append(dict(name='names:%s:large' % pats.name(s), fn='names', cfg=dict(spec=s, free=False, default=False)))
    for k in ('num', 'vec', 'psd', 'simplex'):
        out.append(dict(name='sized:' + k, fn='sized', cfg=dict(kind=k)))
    return out
