"""C08: flat indices name exactly the flat positions of the selected entries."""
from collections import OrderedDict
import numpy as np
import paragami
from . import pats

META = {
    'bounds': 'every mask (one symbolic boolean per entry) of numeric arrays up to 6 entries and 3 dimensions, PSD '
              'sizes 1-3, simplex arrays up to 6 entries, containers up to 9 entries; masks with one selected, one unselected or one '
              'interval of entries on larger shapes (up to 60, thorough 200, entries); dependence decided from the '
              'exact derivative of fold at every free point; masks of every shape with 1-3 dimensions of size 1-4',
    'outside': 'larger shapes',
    'assumptions': ['exact real arithmetic for the dependence oracle'],
}


def mask(h, P, p='m'):
    k = P.spec[0]
    if k == 'dict':
        return OrderedDict((n, mask(h, c, p + n)) for n, c in P.kids)
    n = int(np.prod(P.shape, dtype=int))
    a = np.zeros(n, dtype=bool)
    for i in range(n):
        a[i] = bool(h.bool('%s%d' % (p, i)))
    return a.reshape(P.shape)


def blocks(spec):
    """(flat block, free block) of every entry group: which free coordinates
    an entry may be reported with"""
    k = spec[0]
    if k == 'num':
        n = pats.flat_len(spec)
        return [([i], [i]) for i in range(n)]
    if k == 'psd':
        return [(list(range(pats.flat_len(spec))), list(range(pats.free_len(spec))))]
    if k == 'simplex':
        K = spec[1]
        m = int(np.prod(spec[2], dtype=int))
        return [([r * K + c for c in range(K)], [r * (K - 1) + c for c in range(K - 1)]) for r in range(m)]
    subs = [s for _, s in spec[1]] if k == 'dict' else [spec[2]] * int(np.prod(spec[1], dtype=int))
    out, a, b = [], 0, 0
    for s in subs:
        out += [([a + i for i in x], [b + j for j in y]) for x, y in blocks(s)]
        a += pats.flat_len(s)
        b += pats.free_len(s)
    return out


def copym(m):
    return OrderedDict((k, copym(v)) for k, v in m.items()) if isinstance(m, dict) else m.copy()


def ints(h, ix, label):
    ok = isinstance(ix, np.ndarray) and ix.ndim == 1 and ix.dtype.kind in 'iu'
    h.check(ok, label + ': a one-dimensional integer array', lambda: repr(ix))
    return [int(i) for i in ix] if ok else None


def nonfree(h, spec):
    P = pats.build(h, spec)
    m = mask(h, P)
    sel = [i for i, b in enumerate(pats.oracle_flat(h, P, m)) if b]
    ix = ints(h, P.pat.flat_indices(copym(m), free=False), 'non-free')
    h.check(ix == sel, 'non-free indices are the selected positions', lambda: '%r vs %r' % (ix, sel))
    if ix is not None:
        x = h.reals('x', (pats.flat_len(spec),))
        v = P.pat.fold(x, free=False, validate_value=False)
        h.eq(x[ix], h.arr([e for e, b in zip(pats.oracle_flat(h, P, v), pats.oracle_flat(h, P, m)) if b]),
             'the indexed flat entries are the selected folded entries')


def free(h, spec):
    P = pats.build(h, spec)
    m = mask(h, P)
    sel = [i for i, b in enumerate(pats.oracle_flat(h, P, m)) if b]
    ix = ints(h, P.pat.flat_indices(copym(m), free=True), 'free')
    if ix is None:
        return
    n = pats.free_len(spec)
    h.check(ix == sorted(set(ix)) and all(0 <= i < n for i in ix), 'free indices increasing, in range, once each',
            lambda: repr(ix))
    bl = blocks(spec)
    allowed = set()
    for x, y in bl:
        if any(i in sel for i in x):
            allowed |= set(y)
    h.check(set(ix) <= allowed, 'no free index of an unselected entry or element',
            lambda: '%r allowed %r' % (ix, sorted(allowed)))
    miss = [j for j in range(n) if j not in ix]
    if not sel:
        h.check(ix == [], 'an empty selection gives no free index')
        return
    # changing the free coordinates that are not listed, in any way, leaves
    # every selected entry as it is
    y = h.reals('y', (n,), -1.0, 1.0)
    z = np.array(y)
    if miss and ('simplex' not in str(spec) or (len(miss) <= 2 and n <= 5 and
                                             sum(len(x) > len(z) for x, z in bl) < 4)):
        alt = h.reals('w', (len(miss),), -1.0, 1.0)
        for k, j in enumerate(miss):
            z[j] = alt[k]
        fy = P.pat.flatten(P.pat.fold(y, free=True), free=False)
        fz = P.pat.flatten(P.pat.fold(z, free=True), free=False)
        h.eq(fz[sel], fy[sel], 'selected entries depend on listed free coordinates only')
    elif any(j in allowed for j in miss):
        J = h.jac(lambda t: P.pat.flatten(P.pat.fold(t, free=True), free=False), y)
        for i in sel:
            for j in miss:
                if j in allowed:
                    h.eq(J[i, j], 0.0, 'every free coordinate an entry depends on is listed', **h.dtol)


def independence(h, spec):
    P = pats.build(h, spec)
    n = pats.free_len(spec)
    y = h.reals('y', (n,), -1.0, 1.0)
    J = h.jac(lambda t: P.pat.flatten(P.pat.fold(t, free=True), free=False), y)
    own = {}
    for x, z in blocks(spec):
        for i in x:
            own[i] = set(z)
    h.check(sorted(own) == list(range(np.shape(J)[0])), 'blocks cover the flat vector')
    for i in own:
        for j in range(n):
            if j not in own[i]:
                h.eq(J[i, j], 0.0, 'entries depend only on their own block', **h.dtol)


def single(h, spec):
    """larger shapes: every mask with one selected entry, one unselected entry, or one interval"""
    P = pats.build(h, spec)
    n, nf = pats.flat_len(spec), pats.free_len(spec)
    i = h.int('i', 0, n - 1)
    k = int(i)
    how = h.choice('how', ['one', 'but', 'upto'])
    sel = {'one': [k], 'but': [j for j in range(n) if j != k], 'upto': list(range(k + 1))}[how]
    m = P.pat.fold(h.arr([0.0] * n), free=False, validate_value=False)
    pos = [0]

    def fill(v):
        if isinstance(v, dict):
            return OrderedDict((a, fill(b)) for a, b in v.items())
        c = int(np.prod(np.shape(v), dtype=int))
        r = np.array([j in sel for j in range(pos[0], pos[0] + c)], dtype=bool).reshape(np.shape(v))
        pos[0] += c
        return r
    m = fill(m)
    ix = ints(h, P.pat.flat_indices(copym(m), free=False), 'non-free')
    h.check(ix == sel, 'non-free indices are the selected positions', lambda: '%r vs %r' % (ix, sel))
    ix = ints(h, P.pat.flat_indices(copym(m), free=True), 'free')
    if ix is None:
        return
    h.check(ix == sorted(set(ix)) and all(0 <= j < nf for j in ix), 'free indices increasing, in range, once each')
    s = set(sel)
    allowed = set()
    for x, y in blocks(spec):
        if s & set(x):
            allowed |= set(y)
    h.check(set(ix) <= allowed, 'no free index of an unselected entry or element')
    if 'psd' not in str(spec):
        # every free coordinate of a numeric entry or a simplex matters to each of its entries
        h.check(set(ix) == allowed, 'every free coordinate of the selection is listed')


def badmask(h, spec, free):
    """a mask with one array of another shape (and something selected in it) is rejected"""
    P = pats.build(h, spec)
    leaves = []

    def make(P):
        if P.spec[0] == 'dict':
            return OrderedDict((n, make(c)) for n, c in P.kids)
        leaves.append(tuple(P.shape))
        return ('leaf', len(leaves) - 1)
    tree = make(P)
    w = h.choice('which', list(range(len(leaves))))
    nd = len(leaves[w])
    dims = h.choice('dims', sorted({1, 2, 3, nd}))
    sh = tuple(int(h.int('d%d' % i, 1, 4)) for i in range(dims))
    h.assume(sh != leaves[w])

    def fill(t):
        if isinstance(t, dict):
            return OrderedDict((k, fill(v)) for k, v in t.items())
        i = t[1]
        return np.ones(sh if i == w else leaves[i], dtype=bool)
    h.raises(lambda: P.pat.flat_indices(fill(tree), free=free), 'mask of another shape rejected')


FAM = [['num', [1], 'both'], ['num', [4], 'none'], ['num', [2, 3], 'both'], ['num', [1, 2, 2], 'lb'],
       ['num', [2], 'both', 'vec'], ['num', [1], 'ub', 'scalar'],
       ['psd', 1, True], ['psd', 2, True], ['psd', 2, False], ['simplex', 3, [2]], ['simplex', 2, [1, 3]], ['simplex', 3, []],
       ['simplex', 4, [1]], ['simplex', 2, [2, 2]],
       ['dict', [['a', ['num', [2], 'both']], ['s', ['simplex', 3, [1]]], ['b', ['num', [1], 'lb']]]],
       ['dict', [['m', ['psd', 2, True]], ['z', ['num', [2], 'ub']]]],
       ['dict', [['s', ['simplex', 2, [2]]], ['d', ['dict', [['x', ['num', [1], 'ub']],
                                                            ['y', ['psd', 1, False]]]]], ['a', ['num', [1], 'none']]]],
       ['arr', [2], ['simplex', 3, [1]]], ['arr', [2], ['psd', 2, False]], ['arr', [2, 2], ['num', [2], 'both']],
       ['arr', [3], ['num', [2], 'none']], ['arr', [2], ['arr', [2], ['simplex', 2, [1]]]],
       ['dict', [['q', ['arr', [2], ['simplex', 2, [1]]]], ['p', ['num', [2], 'both']]]]]
BIG = [['psd', 3, True], ['simplex', 3, [3]], ['num', [2, 2, 2], 'both'],
       ['dict', [['m', ['psd', 2, True]], ['s', ['simplex', 3, [1]]], ['z', ['num', [2], 'ub']]]],
       ['dict', [['q', ['arr', [2], ['simplex', 2, [1]]]], ['m', ['psd', 2, False]], ['p', ['num', [1], 'both']]]],
       ['arr', [3], ['simplex', 3, [1]]]]


def tasks(tier):
    fam = FAM + (BIG if tier == 'thorough' else BIG[:1]) + pats.empties()
    out = []
    for s in fam:
        for fn in ('nonfree', 'free', 'independence'):
            out.append(dict(name=fn + ':' + pats.name(s), fn=fn, cfg={'spec': s}))
    for s in (['num', [3], 'both'], ['num', [2, 3], 'lb'], ['psd', 2, True], ['simplex', 3, []], ['simplex', 2, [3]],
              ['simplex', 2, [1, 2]], ['arr', [2], ['num', [2], 'both']], ['arr', [2], ['simplex', 2, [1]]],
              ['dict', [['s', ['simplex', 2, [2]]], ['d', ['dict', [['x', ['num', [1], 'ub']], ['y', ['psd', 1, False]]]]]]]):
        for f in (True, False):
            out.append(dict(name='badmask:%s:%s' % (pats.name(s), f), fn='badmask', cfg={'spec': s, 'free': f}))
    for s in pats.large() + pats.empties():
        if 0 < pats.flat_len(s) <= (60 if tier == 'quick' else 200):
            out.append(dict(name='single:' + pats.name(s), fn='single', cfg={'spec': s}))
    return out
