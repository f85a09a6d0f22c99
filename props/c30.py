"""C30: integers, lists, plain numbers and arrays in any memory layout stand for the arrays of reals they spell."""
from collections import OrderedDict
import numpy as np
import paragami
from paragami import autograd_supplement_lib as asl
from paragami.optimization_lib import truncate_eigenvalues, transform_eigenspace, PreconditionedFunction
from . import pats, beh
from .c17 import eigen

META = {
    'bounds': 'flat vectors given as lists, tuples or (length one) plain numbers for every pattern type and containers '
              'nested up to 3 deep, all real entries; flat vectors, folded values, eigenvalues, summands and '
              'replacement targets given as integer arrays, every vector of integers in -2..3, with every real value '
              'of the bounds, limits and the other arguments; numeric folded values and masks given as (nested) '
              'lists or plain numbers; flat vectors, folded values, masks and the arguments of the library functions '
              'stored in Fortran order, as strided or reversed views, or read-only',
    'outside': 'other integer values and number types (float32, complex, Decimal); lists as folded values of matrix '
               'and simplex patterns and of pattern arrays (not accepted today); larger sizes',
    'assumptions': ['exact real arithmetic'],
}


def ints(h, name, shape, lo=-2, hi=3):
    n = int(np.prod(shape, dtype=int))
    v = [int(h.int('%s%d' % (name, i), lo, hi)) for i in range(n)]
    return h.intarr(np.array(v, dtype=np.int64).reshape(shape))


def real(h, a):
    """the same numbers as reals"""
    return np.array(a, dtype=np.float64)


def flat_list(h, spec):
    """fold(list) == fold(array)"""
    P = pats.build(h, spec)
    p = P.pat
    free = h.choice('free', [True, False])
    n = pats.free_len(spec) if free else pats.flat_len(spec)
    x = h.reals('x', (n,), -0.9, 0.9)
    form = h.choice('form', ['list', 'tuple'] + (['number'] if n == 1 else []))
    y = list(x) if form == 'list' else tuple(x) if form == 'tuple' else x[0]
    check = h.choice('validate', [None, False])
    beh.same_outcome(h, lambda: p.fold(y, free=free, validate_value=check),
                     lambda: p.fold(x, free=free, validate_value=check), 'fold')
    if n > 1:
        h.raises(lambda: p.fold(x[0], free=free, validate_value=False), 'one number is not a longer vector')
    h.raises(lambda: p.fold(list(x) + [0.5], free=free, validate_value=False), 'list of another length')
    h.raises(lambda: p.fold([list(x)], free=free, validate_value=False), 'nested list')


def flat_int(h, spec):
    """fold(integers) == fold(the same reals)"""
    P = pats.build(h, spec)
    p = P.pat
    free = h.choice('free', [True, False])
    n = pats.free_len(spec) if free else pats.flat_len(spec)
    m = min(n, 3)
    k = ints(h, 'k', (m,))
    k = np.concatenate([k, np.arange(n - m) % 3 - 1]).astype(np.int64)
    x = real(h, k)
    check = h.choice('validate', [None, False])
    beh.same_outcome(h, lambda: p.fold(k, free=free, validate_value=check),
                     lambda: p.fold(x, free=free, validate_value=check), 'fold')
    v = p.fold(k, free=free, validate_value=False)
    h.same(p.flatten(v, free=False, validate_value=False),
           p.flatten(p.fold(x, free=free, validate_value=False), free=False, validate_value=False), 'and flatten')


def nested(a):
    return [nested(b) for b in a] if isinstance(a, np.ndarray) and a.ndim else (a.item() if isinstance(a, np.ndarray)
                                                                                else a)


def num_folded(h, spec):
    """numeric folded values and masks as lists and plain numbers"""
    P = pats.build(h, spec)
    p, shape = P.pat, P.shape
    v = h.reals('v', shape, -0.9, 0.9)
    m = np.array([bool(h.bool('m%d' % i)) for i in range(v.size)], dtype=bool).reshape(shape)
    one = v.size == 1 and len(shape) == 1
    lv, lm = nested(v), nested(m)
    if one and h.choice('form', ['list', 'number']) == 'number':
        lv, lm = v.ravel()[0], bool(m.ravel()[0])
    for check in (None, False):
        h.check(bool(p.validate_folded(lv, validate_value=check)[0]) ==
                bool(p.validate_folded(v, validate_value=check)[0]), 'validate_folded')
        beh.same_outcome(h, lambda: p.flatten(lv, free=False, validate_value=check),
                         lambda: p.flatten(v, free=False, validate_value=check), 'flatten')
    for free in (True, False):
        h.same(p.flat_indices(lm, free=free), p.flat_indices(m, free=free), 'flat_indices')
    if not p.validate_folded(v)[0]:
        return
    for e in v.ravel():
        if P.spec[2] in ('lb', 'both'):
            h.assume(P.lb < e)
        if P.spec[2] in ('ub', 'both'):
            h.assume(e < P.ub)
    h.same(p.flatten(lv, free=True), p.flatten(v, free=True), 'flatten free')
    h.same(paragami.FoldFunctionInput(lambda x: x, p, free=True)(lv), p.flatten(v, free=True), 'wrapped function')
    if one and not isinstance(lv, list):
        for s in (True, False):
            a, b = p.freeing_jacobian(lv, sparse=s), p.freeing_jacobian(v, sparse=s)
            h.eq(a, b, 'freeing_jacobian')
            a, b = p.unfreeing_jacobian(lv, sparse=s), p.unfreeing_jacobian(v, sparse=s)
            h.eq(a, b, 'unfreeing_jacobian')
        h.eq(p.log_abs_det_freeing_jacobian(lv), p.log_abs_det_freeing_jacobian(v), 'log_abs_det_freeing_jacobian')
        h.eq(p.log_abs_det_unfreeing_jacobian(lv), p.log_abs_det_unfreeing_jacobian(v),
             'log_abs_det_unfreeing_jacobian')


def int_value(h, P, name):
    """a folded value of integers and the same of reals"""
    k = P.spec[0]
    if k == 'dict':
        a, b = OrderedDict(), OrderedDict()
        for n, c in P.kids:
            a[n], b[n] = int_value(h, c, name + n)
        return a, b
    if k == 'arr':
        items = [int_value(h, P.base, '%s%d.' % (name, i)) for i in range(int(np.prod(P.spec[1], dtype=int)))]
        return (np.array([i[0] for i in items], dtype=np.int64).reshape(P.shape),
                h.arr([e for i in items for e in np.ravel(i[1])]).reshape(P.shape))
    if k == 'psd':
        n = P.spec[1]
        A = np.zeros((n, n), dtype=np.int64)
        for i in range(n):
            for j in range(i + 1):
                A[i, j] = A[j, i] = int(h.int('%s%d%d' % (name, i, j), *((3, 4) if i == j else (-1, 1))))
        return A, real(h, A)
    v = ints(h, name, P.shape, -1, 1) if k == 'num' else ints(h, name, P.shape, 0, 1)
    return v, real(h, v)


def folded_int(h, spec):
    P = pats.build(h, spec)
    p = P.pat
    k, x = int_value(h, P, 'k')
    for check in (None, False):
        beh.same_outcome(h, lambda: p.flatten(k, free=False, validate_value=check),
                         lambda: p.flatten(x, free=False, validate_value=check), 'flatten')
    h.check(bool(p.validate_folded(k)[0]) == bool(p.validate_folded(x)[0]), 'validate_folded')
    if not has_simplex(spec) and p.validate_folded(x)[0]:
        if not inside(h, P, x):
            return
        h.same(p.flatten(k, free=True), p.flatten(x, free=True), 'flatten free')
        for f in ('freeing_jacobian', 'unfreeing_jacobian'):
            if not has_psd(spec) or f[0] == 'u':
                h.eq(getattr(p, f)(k, sparse=False), getattr(p, f)(x, sparse=False), f)
        if spec[0] == 'num' or (spec[0] == 'dict' and all(s[0] == 'num' for _, s in spec[1])):
            for f in ('log_abs_det_freeing_jacobian', 'log_abs_det_unfreeing_jacobian'):
                h.eq(getattr(p, f)(k), getattr(p, f)(x), f)


def inside(h, P, x):
    """strictly inside the bounds"""
    k = P.spec[0]
    if k == 'dict':
        return all([inside(h, c, x[n]) for n, c in P.kids])
    if k == 'arr':
        return all([inside(h, P.base, e) for e in x.reshape((-1,) + tuple(P.base.shape))])
    if k == 'psd':
        pats.minors_positive(h, x - P.lb * np.eye(P.spec[1]), P.spec[1])
    if k == 'num':
        return all([bool(P.lb < e) and bool(e < P.ub) for e in np.ravel(x)])
    return True


def has_simplex(spec):
    return spec[0] == 'simplex' or (spec[0] == 'dict' and any(has_simplex(s) for _, s in spec[1])) or \
        (spec[0] == 'arr' and has_simplex(spec[2]))


def has_psd(spec):
    return spec[0] == 'psd' or (spec[0] == 'dict' and any(has_psd(s) for _, s in spec[1])) or \
        (spec[0] == 'arr' and has_psd(spec[2]))


def int_bounds(h, cls):
    """integer bounds are the bounds they spell"""
    lo, hi = int(h.int('lo', -2, 1)), int(h.int('hi', -1, 3))
    h.assume(lo < hi)
    mk = {'array': lambda l, u: paragami.NumericArrayPattern((2,), lb=l, ub=u),
          'vec': lambda l, u: paragami.NumericVectorPattern(2, lb=l, ub=u),
          'scalar': lambda l, u: paragami.NumericScalarPattern(lb=l, ub=u)}[cls]
    kind = h.choice('kind', ['lb', 'ub', 'both'])
    inf = float('inf')
    p = mk(lo if kind != 'ub' else -inf, hi if kind != 'lb' else inf)
    q = mk(float(lo) if kind != 'ub' else -inf, float(hi) if kind != 'lb' else inf)
    n = 1 if cls == 'scalar' else 2
    y = h.reals('y', (n,), -1.0, 1.0)
    v = q.fold(y, free=True)
    h.same(p.fold(y, free=True), v, 'fold')
    h.same(p.flatten(v, free=True), q.flatten(v, free=True), 'flatten')
    z = h.reals('z', (n,), -2.0, 3.0)
    h.check(bool(p.validate_folded(z)[0]) == bool(q.validate_folded(z)[0]), 'validate_folded')
    h.same(p.empty(valid=True), q.empty(valid=True), 'empty')
    h.eq(p.freeing_jacobian(v, sparse=False), q.freeing_jacobian(v, sparse=False), 'freeing_jacobian')
    h.check(p == q, 'equal')


def int_diag(h, n):
    d = int(h.int('d', 0, 3))
    p, q = paragami.PSDSymmetricMatrixPattern(n, diag_lb=d), paragami.PSDSymmetricMatrixPattern(n, diag_lb=float(d))
    y = h.reals('y', (n * (n + 1) // 2,), -1.0, 1.0)
    v = q.fold(y, free=True)
    h.same(p.fold(y, free=True), v, 'fold')
    h.same(p.flatten(v, free=True), q.flatten(v, free=True), 'flatten')
    h.same(p.empty(valid=True), q.empty(valid=True), 'empty')
    h.check(p == q, 'equal')


def clip(h, n):
    """integer eigenvalues are clipped at the exact limits"""
    w = ints(h, 'w', (n,))
    keep = w.copy()
    lo, hi = h.real('lo', -2.5, 0.5), h.real('hi', 0.5, 2.5)
    h.assume(-3 < lo)
    h.assume(lo < hi)
    h.assume(hi < 4)
    which = h.choice('which', ['min', 'max', 'both'])
    kw = {}
    if which != 'max':
        kw['ev_min'] = lo
    if which != 'min':
        kw['ev_max'] = hi
    r = truncate_eigenvalues(w, **kw)
    h.check(np.array_equal(w, keep), 'argument unchanged')
    for i in range(n):
        e = int(keep[i])
        want = h.const(float(e))
        if which != 'max' and bool(want <= lo):
            want = lo
        elif which != 'min' and bool(want >= hi):
            want = hi
        h.eq(r[i], want, 'clipped value')


def sums(h, n, two):
    k = ints(h, 'k', (n, 2) if two and n == 1 else (n,))
    g = [h.choice('g%d' % i, [0, 1]) for i in range(n)]
    form = h.choice('form', ['int', 'list'])
    x = real(h, k)
    r = asl.grouped_sum(k if form == 'int' else k.tolist(), g if form == 'list' else np.array(g), num_groups=2)
    h.same(r, asl.grouped_sum(x, np.array(g), num_groups=2), 'grouped_sum')


def replaced(h, n):
    """real replacements in an integer array"""
    k = ints(h, 'k', (n,))
    i = h.choice('i', list(range(n)))
    s = h.reals('s', (1,), -2.0, 2.0)
    inds = np.array([i])
    r = asl.replace(s, k, inds)
    for j in range(n):
        h.eq(r[j], s[0] if j == i else float(k[j]), 'replaced entry' if j == i else 'other entries')


def hessians(h, n):
    """Hessians as nested lists or, of size one, plain numbers"""
    U, w, wc, H, lo, hi = eigen(h, n, h.choice('limits', ['none', 'min', 'max', 'both']), 'full')
    x = h.reals('x', (n,))

    def run(A):
        pf = PreconditionedFunction(lambda t: t)
        pf.set_preconditioner_with_hessian(hessian=A, ev_min=lo, ev_max=hi)
        return pf.unprecondition(x), pf.precondition(x), pf.get_preconditioner(n)
    A = nested(H)
    if n == 1 and h.choice('form', ['list', 'number']) == 'number':
        A = H[0, 0]
    h.same(run(A), run(H), 'preconditioner with the Hessian')


def wrapped(h, free):
    """wrapped functions of lists"""
    p = paragami.NumericVectorPattern(2, lb=h.real('lb', -3.0, -1.0))
    d = paragami.PatternDict()
    d['s'] = paragami.SimplexArrayPattern(2, (1,))
    x = h.reals('x', (2,), -0.9, 0.9)
    y = h.reals('y', (1 if free else 2,), 0.1, 0.9)
    if not free:
        h.assume(h.exactly(y[0] + y[1], 1.0))
        h.assume(y[0] > 0)
        h.assume(y[1] > 0)
    f = paragami.FlattenFunctionInput(lambda a, b, c=1: (a[0] + 2. * a[1], b['s'][0, 0] * c), [p, d], free,
                                      argnums=[0, 1])
    beh.same_outcome(h, lambda: f(list(x), list(y), c=3), lambda: f(x, y, c=3), 'flattened function')
    h.assume(h.And(x[0] > p.bounds()[0], x[1] > p.bounds()[0]))
    h.same(f(list(x), list(y), c=3), f(x, y, c=3), 'flattened function')
    g = paragami.FoldFunctionOutput(lambda a: (list(a), 1), p, free)
    h.same(g(x)[0], p.fold(x, free=free), 'folded output')


# ------------------------------------------------------------------ memory layouts
LAYOUTS = ['fortran', 'strided', 'reversed', 'readonly']


def lay(a, form):
    """the same array, stored another way"""
    a = np.asarray(a)
    if form == 'fortran':
        return np.array(a, order='F')
    if form == 'readonly':
        b = a.copy()
        b.flags.writeable = False
        return b
    if a.ndim == 0:
        return a
    if form == 'strided':
        b = np.empty(tuple(2 * n for n in a.shape), dtype=a.dtype)
        b[...] = -7
        ix = tuple(slice(0, None, 2) for _ in a.shape)
    else:
        b = np.empty(a.shape, dtype=a.dtype)
        ix = tuple(slice(None, None, -1) for _ in a.shape)
    b[ix] = a
    return b[ix]


def lay_value(P, v, form):
    if P.spec[0] == 'dict':
        return OrderedDict((n, lay_value(c, v[n], form)) for n, c in P.kids)
    return lay(v, form)


def mask(h, P, name='m'):
    if P.spec[0] == 'dict':
        return OrderedDict((n, mask(h, c, name + n)) for n, c in P.kids)
    k = int(np.prod(P.shape, dtype=int))
    # one entry, or all but one (every entry in turn)
    i, on = h.choice(name, list(range(min(k, 8)))), h.choice(name + 'on', [True, False])
    m = np.full(k, not on)
    m[i] = on
    return m.reshape(P.shape)


def layout(h, spec):
    P = pats.build(h, spec)
    p = P.pat
    form = h.choice('form', LAYOUTS)
    part = h.choice('part', ['flat', 'free', 'mask', 'jac'])
    nf, n = pats.free_len(spec), pats.flat_len(spec)
    if part == 'mask':
        m = mask(h, P)
        for free in (True, False):
            h.same(p.flat_indices(lay_value(P, m, form), free=free), p.flat_indices(m, free=free), 'flat_indices')
        return
    if part == 'flat':
        x = h.reals('x', (n,), -0.9, 0.9)
        check = h.choice('validate', [None, False])
        beh.same_outcome(h, lambda: p.fold(lay(x, form), free=False, validate_value=check),
                         lambda: p.fold(x, free=False, validate_value=check), 'fold')
        v = p.fold(x, free=False, validate_value=False)
        u = lay_value(P, v, form)
        beh.same_outcome(h, lambda: p.flatten(u, free=False, validate_value=check),
                         lambda: p.flatten(v, free=False, validate_value=check), 'flatten')
        h.check(bool(p.validate_folded(u)[0]) == bool(p.validate_folded(v)[0]), 'validate_folded')
        return
    y = h.reals('y', (nf,), -0.9, 0.9)
    v = p.fold(y, free=True)
    u = lay_value(P, v, form)
    if part == 'free':
        h.same(p.fold(lay(y, form), free=True), v, 'fold free')
        h.same(p.flatten(u, free=True), p.flatten(v, free=True), 'flatten free')
        h.same(p.flatten(u, free=False), p.flatten(v, free=False), 'flatten')
        h.same(paragami.FoldFunctionInput(lambda x: x, p, True)(u), p.flatten(v, free=True), 'wrapped function')
        return
    for f in ('freeing_jacobian', 'unfreeing_jacobian'):
        h.eq(getattr(p, f)(u, sparse=False), getattr(p, f)(v, sparse=False), f)
    if logdets(spec):
        for f in ('log_abs_det_freeing_jacobian', 'log_abs_det_unfreeing_jacobian'):
            h.eq(getattr(p, f)(u), getattr(p, f)(v), f)


def logdets(spec):
    return spec[0] == 'num' or (spec[0] == 'dict' and all(logdets(s) for _, s in spec[1]))


def layout_lib(h, what):
    """matrices and vectors of the library functions"""
    form = h.choice('form', LAYOUTS)
    if what == 'sum':
        x = h.reals('x', (3, 2))
        g = np.array([h.choice('g%d' % i, [0, 1]) for i in range(3)])
        h.same(asl.grouped_sum(lay(x, form), lay(g, form), num_groups=2), asl.grouped_sum(x, g, num_groups=2),
               'grouped_sum')
    elif what == 'replace':
        x, s = h.reals('x', (3,)), h.reals('s', (2,))
        i = np.array(h.choice('i', [[0, 1], [2, 0], [1, 2]]))
        h.same(asl.replace(lay(s, form), lay(x, form), lay(i, form)), asl.replace(s, x, i), 'replace')
    elif what == 'clip':
        w = h.reals('w', (2,))
        lo, hi = h.real('lo', -1.5, -0.5), h.real('hi', 0.5, 1.5)
        h.same(truncate_eigenvalues(lay(w, form), ev_min=lo, ev_max=hi), truncate_eigenvalues(w, ev_min=lo, ev_max=hi),
               'truncate_eigenvalues')
    elif what == 'space':
        U, w, x = h.reals('U', (2, 2)), h.reals('w', (2,)), h.reals('x', (2,))
        f = lambda e: 2. * e + 1.
        h.same(transform_eigenspace(lay(U, form), lay(w, form), f)(lay(x, form)), transform_eigenspace(U, w, f)(x),
               'transform_eigenspace')
    else:
        A, x = h.reals('A', (2, 2), -1.0, 1.0), h.reals('x', (2,))
        d = A[0, 0] * A[1, 1] - A[0, 1] * A[1, 0]
        h.assume(h.Or(d > 0.05, d < -0.05) if not h.symbolic else h.Or(d > 0, d < 0))
        p, q = PreconditionedFunction(lambda t: t[0] - 2. * t[1]), PreconditionedFunction(lambda t: t[0] - 2. * t[1])
        p.set_preconditioner_matrix(lay(A, form))
        q.set_preconditioner_matrix(A)
        for f in ('precondition', 'unprecondition', '__call__'):
            h.same(getattr(p, f)(lay(x, form)), getattr(q, f)(x), f)
        h.same(p.get_preconditioner(2), A, 'get_preconditioner')


def tasks(tier):
    kinds = pats.KINDS
    leaves = [['num', [2], k] for k in kinds] + [['num', [1, 2], 'both'], ['num', [2], 'lb', 'vec'],
                                                  ['num', [1], 'ub', 'scalar'], ['num', [1], 'both', 'scalar'],
                                                  ['psd', 1, True], ['psd', 2, True], ['simplex', 2, []],
                                                  ['simplex', 3, [1]]]
    nest = [['dict', [['b', ['num', [1], 'both']], ['a', ['simplex', 2, [1]]]]], ['dict', [['n', ['num', [1], 'none']]]],
            ['arr', [2], ['num', [1], 'ub']], ['arr', [1], ['psd', 1, True]], ['arr', [2], ['simplex', 2, []]],
            ['dict', [['d', ['dict', [['y', ['arr', [1], ['num', [1], 'lb']]]]]]]]]
    out = []
    for s in leaves + nest:
        nm = pats.name(s)
        out.append(dict(name='flat_list:' + nm, fn='flat_list', cfg={'spec': s}))
        out.append(dict(name='flat_int:' + nm, fn='flat_int', cfg={'spec': s}))
        out.append(dict(name='folded_int:' + nm, fn='folded_int', cfg={'spec': s}))
    for s in [['num', [1], k, c] for k in kinds for c in ('array', 'vec', 'scalar')] + [
            ['num', [2], 'both'], ['num', [2], 'lb'], ['num', [1, 2], 'ub'], ['num', [2], 'none', 'vec']]:
        out.append(dict(name='num_folded:%s:%s' % (pats.name(s), s[3] if len(s) > 3 else 'array'), fn='num_folded',
                        cfg={'spec': s}))
    for c in ('array', 'vec', 'scalar'):
        out.append(dict(name='int_bounds:' + c, fn='int_bounds', cfg={'cls': c}))
    for n in (1, 2):
        out.append(dict(name='hessians:%d' % n, fn='hessians', cfg={'n': n}))
        out.append(dict(name='int_diag:%d' % n, fn='int_diag', cfg={'n': n}))
        out.append(dict(name='clip:%d' % n, fn='clip', cfg={'n': n}))
        out.append(dict(name='sums:%d' % n, fn='sums', cfg={'n': n, 'two': True}))
        out.append(dict(name='replaced:%d' % n, fn='replaced', cfg={'n': n}))
    for s in leaves[:1] + [['num', [2, 2], k] for k in ('none', 'both')] + [
            ['num', [1, 2, 2], 'lb'], ['psd', 2, True], ['simplex', 2, [2]], ['simplex', 3, [1, 2]],
            ['dict', [['b', ['num', [2, 2], 'ub']], ['a', ['simplex', 2, [2]]]]], ['arr', [2], ['num', [2, 2], 'lb']],
            ['arr', [2, 2], ['simplex', 2, []]], ['arr', [1, 2], ['psd', 2, False]],
            ['dict', [['d', ['arr', [2], ['num', [2], 'none']]]]]]:
        out.append(dict(name='layout:' + pats.name(s), fn='layout', cfg={'spec': s}))
    for w in ('sum', 'replace', 'clip', 'space', 'precond'):
        out.append(dict(name='layout_lib:' + w, fn='layout_lib', cfg={'what': w}))
    for free in (True, False):
        out.append(dict(name='wrapped:free=%s' % free, fn='wrapped', cfg={'free': free}))
    if tier == 'thorough':
        for n in (3,):
            out.append(dict(name='clip:%d' % n, fn='clip', cfg={'n': n}))
            out.append(dict(name='sums:%d' % n, fn='sums', cfg={'n': n, 'two': False}))
            out.append(dict(name='replaced:%d' % n, fn='replaced', cfg={'n': n}))
        for s in [['psd', 3, True], ['num', [3], 'both'], ['simplex', 4, [1]],
                  ['dict', [['a', ['psd', 2, True]], ['b', ['num', [2], 'lb']]]],
                  ['arr', [2], ['arr', [1], ['num', [1], 'both']]]]:
            nm = pats.name(s)
            for fn in ('flat_list', 'flat_int', 'folded_int'):
                out.append(dict(name=fn + ':' + nm, fn=fn, cfg={'spec': s}))
    return out
