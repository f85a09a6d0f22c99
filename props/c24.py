"""C24: operations neither modify their inputs nor hand out shared state."""
import copy
import json
from collections import OrderedDict
import numpy as np
import scipy.sparse
import paragami
from paragami import optimization_lib as opt, autograd_supplement_lib as lib
from . import pats, beh

META = {
    'bounds': 'numeric arrays, matrices of size 1-3, simplexes, dictionaries and arrays nested up to 3 deep; every '
              'free vector, flat vector and value (valid or not) and every bound; each operation on unmodified '
              'arguments, and again after the arguments and all returned values have been overwritten; vectors of up '
              'to 4 eigenvalues, eigenspaces of up to 3 vectors, grouped sums and replacements of up to 4 entries',
    'outside': 'larger shapes; the value returned by non-free folding may share memory with the flat vector',
    'assumptions': ['exact real arithmetic'],
}

EXACT = dict(rtol=0.0, atol=0.0)


def snap(v):
    """an independent copy"""
    if isinstance(v, dict):
        return OrderedDict((k, snap(x)) for k, x in v.items())
    if isinstance(v, np.ndarray):
        return v.copy()
    if scipy.sparse.issparse(v):
        return np.asarray(v.toarray()).copy()
    return copy.deepcopy(v)


def again(h, v, s, label):
    """a recomputed result (products may round differently with the memory alignment of their arguments)"""
    unchanged(h, v, s, label, dict(rtol=1e-9, atol=1e-9))


def unchanged(h, v, s, label, tol=EXACT):
    if isinstance(s, dict):
        h.check(isinstance(v, dict) and list(v.keys()) == list(s.keys()), label + ': keys')
        for k in s:
            unchanged(h, v[k], s[k], label, tol)
        return
    if scipy.sparse.issparse(v):
        v = np.asarray(v.toarray())
    h.check(np.shape(v) == np.shape(s), label + ': shape')
    h.eq(v, s, label, **tol)


def scribble(v):
    """overwrite everything reachable"""
    if isinstance(v, dict):
        for x in v.values():
            scribble(x)
        if v:
            del v[next(iter(v))]
        v['added'] = np.array([5.0])
    elif isinstance(v, np.ndarray):
        if v.dtype == bool:
            v[...] = ~v
        elif v.dtype == object or v.dtype.kind == 'f':
            v[...] = (np.arange(v.size) + 77.5).reshape(v.shape)
        elif v.dtype.kind in 'US':
            v[...] = 'changed'
        else:
            v[...] = v + 3
    elif isinstance(v, list):
        v.append('added')
        v[0] = 'changed'


def setup(h, spec, masks=('part',)):
    P = pats.build(h, spec)
    nf, n = pats.free_len(spec), pats.flat_len(spec)
    y, x = h.reals('y', (nf,), -1.0, 1.0), h.reals('x', (n,), -1.0, 1.0)
    z = beh.anyvalue(h, P, 'z')
    which = h.choice('mask', list(masks)) if len(masks) > 1 else masks[0]
    mask = beh.fill(P, which != 'none')
    # one entry is not selected
    t = mask
    while isinstance(t, dict):
        t = t[list(t)[-1]]
    if which == 'part':
        t.ravel()[-1] = False
    return P, y, x, z, mask


def quiet(f):
    """the result, or None if the operation refuses the value"""
    try:
        return f()
    except Exception:
        return None


def operations(p):
    """(name, number of the argument, function, independent of its argument)

    arguments: 0 free vector, 1 flat vector, 2 any value, 3 valid value, 4 mask
    """
    ops = [
        ('fold free', 0, lambda a: p.fold(a, free=True), True),
        ('fold free, no check', 0, lambda a: p.fold(a, free=True, validate_value=False), True),
        ('fold', 1, lambda a: p.fold(a, free=False, validate_value=False), False),
        ('fold checked', 1, lambda a: quiet(lambda: p.fold(a, free=False)), False),
        ('validate', 2, lambda a: p.validate_folded(a)[0], True),
        ('validate shape', 2, lambda a: p.validate_folded(a, validate_value=False)[0], True),
        ('flatten', 2, lambda a: p.flatten(a, free=False, validate_value=False), True),
        ('flatten checked', 2, lambda a: quiet(lambda: p.flatten(a, free=False)), True),
        ('flatten free', 3, lambda a: p.flatten(a, free=True, validate_value=False), True),
        ('flatten free checked', 3, lambda a: quiet(lambda: p.flatten(a, free=True)), True),
        ('indices free', 4, lambda a: p.flat_indices(a, free=True), True),
        ('indices', 4, lambda a: p.flat_indices(a, free=False), True),
        ('freeing', 3, lambda a: p.freeing_jacobian(a, sparse=False), True),
        ('unfreeing', 3, lambda a: p.unfreeing_jacobian(a, sparse=False), True),
        ('freeing sparse', 3, lambda a: p.freeing_jacobian(a), True),
        ('unfreeing sparse', 3, lambda a: p.unfreeing_jacobian(a), True),
    ]
    return ops


def run(h, spec, op):
    """one operation: argument unchanged; results independent of later changes"""
    P, y, x, z, mask = setup(h, spec, ('part', 'all', 'none') if operations(None)[op][1] == 4 else ('part',))
    p = P.pat
    name, which, f, independent = operations(p)[op]
    if which == 3:
        v = p.fold(y, free=True)
    else:
        v = (y, x, z, None, mask)[which]
    json0 = p.to_json() if not h.symbolic else None
    s, s2, s3 = snap(v), snap(v), snap(v)
    r = f(v)
    unchanged(h, v, s, name + ': argument unchanged')
    rs = snap(r)
    if isinstance(r, (bool, np.bool_)) or r is None:
        # nothing to share
        scribble(v)
        r2 = f(s2)
        h.check((r2 is None) == (r is None) and (r is None or bool(r2) == bool(r)), name + ': same answer later')
        return
    if independent:
        scribble(v)
        unchanged(h, r, rs, name + ': result unchanged after the argument is overwritten')
        v = s3
        r = f(v)
        if not scipy.sparse.issparse(r):
            scribble(r)
        unchanged(h, v, s, name + ': argument unchanged after the result is overwritten')
    elif not scipy.sparse.issparse(r):
        scribble(r)
    again(h, f(s2), rs, name + ': same result later')
    if json0 is not None:
        h.check(p.to_json() == json0, name + ': same pattern later')


def other(h, spec):
    """overwriting one result leaves the results of the other operations"""
    P, y, x, z, mask = setup(h, spec, ('part', 'all'))
    p = P.pat
    v = p.fold(y, free=True)
    want = snap(v)
    arrs = []
    arrs.append(p.flatten(v, free=False, validate_value=False))
    arrs.append(p.flatten(v, free=True, validate_value=False))
    flat, free = snap(arrs[0]), snap(arrs[1])
    arrs.append(p.fold(arrs[1].copy(), free=True))
    arrs.append(p.fold(arrs[0].copy(), free=False, validate_value=False))
    arrs += [p.flat_indices(mask, free=True), p.flat_indices(mask, free=False)]
    i1, i2 = snap(arrs[-2]), snap(arrs[-1])
    arrs += [p.empty(valid=True), p.empty_bool(True), p.empty_bool(False), p.empty(valid=False)]
    e1, e2, e3 = snap(arrs[-4]), snap(arrs[-3]), snap(arrs[-2])
    names = [quiet(lambda: p.flat_names(True)), quiet(lambda: p.flat_names(False))]
    n1, n2 = snap(names[0]), snap(names[1])
    for a in arrs + names:
        scribble(a)
    unchanged(h, v, want, 'value')
    again(h, p.flatten(v, free=False, validate_value=False), flat, 'flatten')
    again(h, p.flatten(v, free=True, validate_value=False), free, 'flatten free')
    again(h, p.fold(y, free=True), want, 'fold free')
    unchanged(h, p.flat_indices(mask, free=True), i1, 'indices free')
    unchanged(h, p.flat_indices(mask, free=False), i2, 'indices')
    again(h, p.empty(valid=True), e1, 'empty')
    unchanged(h, p.empty_bool(True), e2, 'empty_bool')
    unchanged(h, p.empty_bool(False), e3, 'empty_bool')
    if n1 is not None:
        h.check(list(p.flat_names(True)) == list(n1), 'names')
        h.check(list(p.flat_names(False)) == list(n2), 'names')
    h.check(p.flat_length(free=True) == pats.free_len(spec) and p.flat_length(free=False) == pats.flat_len(spec),
            'lengths')


def described(h, spec):
    """changing the description of a pattern does not change the pattern"""
    P, y, x, z, mask = setup(h, spec)
    Q = pats.build(h, spec) if not h.symbolic else None
    p = P.pat
    want = p.fold(y, free=True)
    flat = p.fold(x, free=False, validate_value=False)
    d = p.as_dict()
    for k in list(d):
        if isinstance(d[k], (list, dict, np.ndarray)):
            scribble(d[k])
    for k in list(d):
        d[k] = 'changed'
    d['added'] = 1
    for nm in ('array_shape', 'shape', 'bounds', 'keys'):
        if hasattr(p, nm):
            r = quiet(getattr(p, nm))
            if isinstance(r, (list, np.ndarray)):
                scribble(r)
    again(h, p.fold(y, free=True), want, 'fold free')
    again(h, p.fold(x, free=False, validate_value=False), flat, 'fold')
    h.check(p.flat_length(free=True) == pats.free_len(spec) and p.flat_length(free=False) == pats.flat_len(spec),
            'lengths')
    if Q is not None:
        h.check(p == Q.pat, 'equal to a freshly built pattern')


def shapes(h):
    """shapes given as lists or arrays may be changed by the caller afterwards"""
    y = h.reals('y', (4,), -1.0, 1.0)
    for mk in (list,):
        s = mk([2, 2])
        p = paragami.NumericArrayPattern(shape=s, lb=h.real('lb' + str(mk is list), -2, -1))
        want = p.fold(y, free=True)
        s[0] = 4
        s[1] = 1
        again(h, p.fold(y, free=True), want, 'numeric')
        h.check(np.shape(p.empty(valid=True)) == (2, 2), 'numeric: shape')
    for mk in (list,):
        s = mk([2])
        p = quiet(lambda: paragami.SimplexArrayPattern(3, s))
        if p is None:
            continue
        want = p.fold(y, free=True)
        s[0] = 1
        again(h, p.fold(y, free=True), want, 'simplex')
        h.check(np.shape(p.empty(valid=True)) == (2, 3), 'simplex: shape')
        h.check(p.flat_length(free=False) == 6, 'simplex: length')
    for mk in (list,):
        s = mk([2])
        p = quiet(lambda: paragami.PatternArray(s, paragami.NumericVectorPattern(2)))
        if p is None:
            continue
        want = p.fold(y, free=True)
        s[0] = 1
        again(h, p.fold(y, free=True), want, 'array')
        h.check(np.shape(p.empty(valid=True)) == (2, 2), 'array: shape')


def random_state(h, spec):
    """random values are new arrays each time"""
    P = pats.build(h, spec)
    a = P.pat.random()
    s = snap(a)
    b = P.pat.random()
    sb = snap(b)
    scribble(b)
    unchanged(h, a, s, 'first draw')
    scribble(a)
    c = P.pat.empty(valid=True)
    h.check(bool(P.pat.validate_folded(c)[0]), 'pattern intact')
    h.check(P.pat.flat_length(free=True) == pats.free_len(spec), 'length')


def eigen(h, n, which):
    w = h.reals('w', (n,))
    lo = h.real('lo', -1.0, 0.0) if 'l' in which else None
    hi = h.real('hi', 0.5, 1.5) if 'h' in which else None
    s = snap(w)
    r = opt.truncate_eigenvalues(w, ev_min=lo, ev_max=hi)
    unchanged(h, w, s, 'eigenvalues unchanged')
    rs = snap(r)
    scribble(w)
    unchanged(h, r, rs, 'result unchanged after the eigenvalues are overwritten')
    w = snap(s)
    r = opt.truncate_eigenvalues(w, ev_min=lo, ev_max=hi)
    scribble(r)
    unchanged(h, w, s, 'eigenvalues unchanged after the result is overwritten')
    again(h, opt.truncate_eigenvalues(w, ev_min=lo, ev_max=hi), rs, 'same result later')


def eigenspace(h, n, k):
    # the first k axes, rotated
    t = h.real('t', -1.0, 1.0)
    c, s_ = (1.0 - t * t) / (1.0 + t * t), 2.0 * t / (1.0 + t * t)
    U = h.arr([h.const(float(i == j)) for i in range(n) for j in range(k)]).reshape((n, k))
    if k > 0 and n > 1:
        U[0, 0], U[1, 0] = c, s_
        if k > 1:
            U[0, 1], U[1, 1] = -s_, c
    w = h.reals('w', (k,), 0.5, 2.0)
    su, sw = snap(U), snap(w)

    def tr(e):
        h.eq(e, sw, 'the transform sees the eigenvalues')
        return e * e
    f = opt.transform_eigenspace(U, w, tr)
    v = h.reals('v', (n,))
    sv = snap(v)
    r = f(v)
    unchanged(h, U, su, 'vectors unchanged')
    unchanged(h, w, sw, 'values unchanged')
    unchanged(h, v, sv, 'argument unchanged')
    rs = snap(r)
    scribble(v)
    unchanged(h, r, rs, 'result unchanged after the argument is overwritten')
    v = snap(sv)
    r = f(v)
    scribble(r)
    unchanged(h, v, sv, 'argument unchanged after the result is overwritten')
    again(h, f(snap(sv)), rs, 'same result later')


def hessian(h, n):
    """conditioning on a Hessian leaves it as it is"""
    # in symbolic runs the eigendecomposition is registered for a matrix built from it
    ev = [h.real('e%d' % i, 0.5, 2.0) for i in range(n)]
    for e in ev:
        h.assume(e > 0)
    t = h.real('t', -1.0, 1.0)
    if n == 1:
        U = h.arr([h.const(1.0)]).reshape((1, 1))
    else:
        c, s_ = (1.0 - t * t) / (1.0 + t * t), 2.0 * t / (1.0 + t * t)
        U = h.arr([c, -s_, s_, c]).reshape((2, 2))
    H = np.dot(U * np.array(ev), U.T)
    h.reg_eigh(H, h.arr(ev), U)
    s = snap(H)
    pf = opt.PreconditionedFunction(lambda x: x[0])
    pf.set_preconditioner_with_hessian(hessian=H, ev_min=0.5, ev_max=1.5)
    unchanged(h, H, s, 'Hessian unchanged')
    v = h.reals('v', (n,))
    sv = snap(v)
    r = snap(pf.precondition(v))
    q = snap(pf.unprecondition(v))
    unchanged(h, v, sv, 'vector unchanged')
    scribble(H)
    again(h, pf.precondition(v), r, 'preconditioner unchanged after the Hessian is overwritten')
    again(h, pf.unprecondition(v), q, 'inverse unchanged after the Hessian is overwritten')


def grouped(h, n, shape):
    shape = tuple(shape)
    x = h.reals('x', (n,) + shape)
    g = np.array([h.choice('g%d' % i, [0, 1]) for i in range(n)])
    s, sg = snap(x), g.copy()
    r = lib.grouped_sum(x, g, 3)
    unchanged(h, x, s, 'rows unchanged')
    h.check(list(g) == list(sg), 'groups unchanged')
    rs = snap(r)
    scribble(x)
    g[...] = 2
    unchanged(h, r, rs, 'sums unchanged after the arguments are overwritten')
    x, g = snap(s), sg.copy()
    r = lib.grouped_sum(x, g, 3)
    scribble(r)
    unchanged(h, x, s, 'rows unchanged after the sums are overwritten')
    again(h, lib.grouped_sum(x, g, 3), rs, 'same result later')


def replaced(h, n, k):
    x, y = h.reals('x', (n,)), h.reals('y', (k,))
    i = np.array(h.choice('i', [list(range(k)), list(range(n))[::-1][:k]]), dtype=int)
    sx, sy, si = snap(x), snap(y), i.copy()
    r = lib.replace(y, x, i)
    unchanged(h, x, sx, 'old array unchanged')
    unchanged(h, y, sy, 'new entries unchanged')
    h.check(list(i) == list(si), 'positions unchanged')
    rs = snap(r)
    scribble(x)
    scribble(y)
    unchanged(h, r, rs, 'result unchanged after the arguments are overwritten')
    x, y = snap(sx), snap(sy)
    r = lib.replace(y, x, i)
    scribble(r)
    unchanged(h, x, sx, 'old array unchanged after the result is overwritten')
    unchanged(h, y, sy, 'new entries unchanged after the result is overwritten')
    again(h, lib.replace(y, x, i), rs, 'same result later')


def product(h, fmt):
    a = h.reals('a', (2, 2))
    zm, zt = lib.get_sparse_product(getattr(scipy.sparse, fmt + '_matrix')(a))
    for f in (zm, zt):
        b = h.reals('b' + str(f is zm), (2,))
        s = snap(b)
        r = f(b)
        unchanged(h, b, s, 'argument unchanged')
        scribble(r)
        unchanged(h, b, s, 'argument unchanged after the result is overwritten')


def edited(h):
    """a returned dictionary is not the one inside the pattern"""
    d = paragami.PatternDict(free_default=True)
    d['a'] = paragami.NumericVectorPattern(2, lb=h.real('lb', -2, -1))
    d['m'] = paragami.PSDSymmetricMatrixPattern(2)
    arr = paragami.PatternArray((2,), d['m'])
    y = h.reals('y', (5,), -1.0, 1.0)
    v = d.fold(y)
    s = snap(v)
    ks = d.keys()
    if isinstance(ks, list):
        scribble(ks)
    w = d.fold(y)
    w['extra'] = 1.0
    del w['a']
    h.check(list(d.keys()) == ['a', 'm'], 'keys')
    again(h, d.fold(y), s, 'fold')
    unchanged(h, v, s, 'first value')
    d['m'] = paragami.PSDSymmetricMatrixPattern(1)
    h.check(arr.flat_length(free=True) == 6, 'array built from an entry that was replaced')
    unchanged(h, v, s, 'first value after an edit')


def specs(tier):
    out = [['num', [3], k] for k in pats.KINDS] + [['num', [2, 2], k] for k in pats.KINDS]
    out += [['num', [2], 'none', 'vec'], ['num', [2], 'both', 'vec'], ['num', [1], 'none', 'scalar'],
            ['num', [1], 'both', 'scalar'],
            ['psd', 1, True], ['psd', 2, False], ['psd', 2, True],
            ['simplex', 2, [1]], ['simplex', 3, [2]], ['simplex', 2, []],
            ['dict', [['a', ['num', [2], 'none']], ['m', ['psd', 2, True]], ['s', ['simplex', 3, [1]]]]],
            ['dict', [['z', ['num', [2], 'none']]]],
            ['dict', [['d', ['dict', [['x', ['num', [1], 'none']], ['y', ['num', [2], 'both']]]]],
                      ['b', ['num', [2], 'ub']]]],
            ['arr', [2], ['num', [2], 'none']], ['arr', [1], ['num', [2], 'none']], ['arr', [2], ['psd', 2, True]],
            ['arr', [1, 2], ['simplex', 2, [1]]]]
    if tier == 'thorough':
        out += [['psd', 3, True], ['num', [2, 2, 2], 'none'], ['simplex', 4, [2, 2]],
                ['arr', [2, 2], ['num', [1, 2], 'lb']], ['arr', [2], ['arr', [1], ['num', [2], 'none']]],
                ['dict', [['u', ['dict', [['v', ['dict', [['w', ['arr', [2], ['num', [1], 'none']]]]]]]]],
                          ['k', ['psd', 2, False]]]]]
    return out


def tasks(tier):
    out = []

    def t(_n, _f, **cfg):
        out.append(dict(name=_n, fn=_f, cfg=cfg))
    for s in specs(tier):
        nm = pats.name(s)
        for i in range(16):
            t('op%d:%s' % (i, nm), 'run', spec=s, op=i)
        t('other:' + nm, 'other', spec=s)
        t('described:' + nm, 'described', spec=s)
        t('random:' + nm, 'random_state', spec=s)
    t('shapes', 'shapes')
    t('edited', 'edited')
    for n in (1, 2, 3) + ((4,) if tier == 'thorough' else ()):
        for w in ('', 'l', 'h', 'lh'):
            t('eigen:%d:%s' % (n, w), 'eigen', n=n, which=w)
    for n, k in ((1, 1), (2, 1), (2, 2), (3, 2), (3, 1)):
        t('eigenspace:%d:%d' % (n, k), 'eigenspace', n=n, k=k)
    for n in (1, 2):
        t('hessian:%d' % n, 'hessian', n=n)
    for n, shape in ((1, ()), (3, ()), (2, (2,)), (3, (1,))):
        t('grouped:%d:%s' % (n, shape), 'grouped', n=n, shape=shape)
    for n, k in ((1, 1), (2, 1), (3, 2), (4, 2), (2, 2), (3, 0)):
        t('replace:%d:%d' % (n, k), 'replaced', n=n, k=k)
    for fmt in ('csc', 'csr', 'coo'):
        t('product:' + fmt, 'product', fmt=fmt)
    return out
