"""C31: results depend on the arguments only, not on earlier calls or other objects."""
from collections import OrderedDict
import autograd
import autograd.numpy as anp
import numpy as np
import scipy.sparse
from . import pats, fresh, beh

META = {
    'bounds': 'patterns of every kind with up to 6 free coordinates (containers nested 2 deep): every operation after '
              'every operation (small patterns) or after all operations, rejected ones included, on the same object, on '
              'another one of the same type and sizes with other bounds, or on one of another size, with argument arrays '
              'that are the same objects with new contents; function wrappers, preconditioned functions, objectives, '
              'sparse products, solvers, grouped sums, replacements, eigenvalue clipping and eigenspace transforms '
              'called twice, also with the same arrays holding new contents; every bound, every old and new content. '
              'The reference is the same single call in a library that has just been imported',
    'outside': 'longer histories; counters, logs and edits of dictionaries, which are state by design (C13, C19); state '
               'kept in numpy, scipy or autograd',
    'assumptions': ['exact real arithmetic'],
}


# ------------------------------------------------------------------ patterns
def declare(h, spec, p, B):
    """symbolic bounds of a pattern, by position in it"""
    k = spec[0]
    if k == 'num':
        B[p] = pats.bounds(h, spec[2], p)
    elif k == 'psd':
        B[p] = 0.0
        if spec[2]:
            B[p] = h.real(p + 'dlb', 0.1, 0.5)
            h.assume(B[p] >= 0)
    elif k == 'dict':
        for n, s in spec[1]:
            declare(h, s, p + n + '.', B)
    elif k == 'arr':
        declare(h, spec[2], p + 'b.', B)


def make(mod, spec, p, B):
    k = spec[0]
    if k == 'num':
        lb, ub = B[p]
        if len(spec) > 3 and spec[3] == 'vec':
            return mod.NumericVectorPattern(spec[1][0], lb=lb, ub=ub)
        return mod.NumericArrayPattern(tuple(spec[1]), lb=lb, ub=ub)
    if k == 'psd':
        return mod.PSDSymmetricMatrixPattern(spec[1], diag_lb=B[p])
    if k == 'simplex':
        return mod.SimplexArrayPattern(spec[1], tuple(spec[2]))
    if k == 'dict':
        d = mod.PatternDict()
        for n, s in spec[1]:
            d[n] = make(mod, s, p + n + '.', B)
        return d
    return mod.PatternArray(tuple(spec[1]), make(mod, spec[2], p + 'b.', B))


def snap(v):
    if isinstance(v, dict):
        return OrderedDict((k, snap(x)) for k, x in v.items())
    return np.array(v)


def store(dst, src):
    """new contents for the same objects"""
    if isinstance(dst, dict):
        for k in dst:
            store(dst[k], src[k])
    else:
        dst[...] = src


def mask(spec, bits):
    """a mask that selects by position: all, or only the first entry of everything"""
    if spec[0] == 'dict':
        return OrderedDict((n, mask(s, bits)) for n, s in spec[1])
    m = np.full(shape(spec), bits == 'all')
    m.ravel()[0] = True
    return m


def shape(spec):
    if spec[0] == 'num':
        return tuple(spec[1])
    if spec[0] == 'psd':
        return (spec[1], spec[1])
    if spec[0] == 'simplex':
        return tuple(spec[2]) + (spec[1],)
    return tuple(spec[1]) + shape(spec[2])


def dense(r):
    if scipy.sparse.issparse(r):
        return r.toarray()
    return r


def tell(f):
    """the result or the kind of refusal"""
    try:
        return 'ok', f()
    except Exception as e:
        return 'error', type(e).__name__


def spoil(r):
    """the caller writes over a result it was given"""
    if isinstance(r, tuple) and len(r) == 2 and r[0] in ('ok', 'error'):
        r = r[1]
    if isinstance(r, dict):
        for e in r.values():
            spoil(e)
    elif scipy.sparse.issparse(r):
        if hasattr(r, '_d'):
            r._d = np.zeros(r.shape) + 7.0
        else:
            r.data[...] = 7
    elif isinstance(r, np.ndarray):
        if r.flags.writeable and r.dtype.kind != 'U':
            r[...] = 7
    elif isinstance(r, (list, tuple)):
        for e in r:
            spoil(e)
        if isinstance(r, list):
            del r[:]


def cat(*vs):
    return np.concatenate([np.ravel(v) for v in vs])


def leaves(v):
    if isinstance(v, dict):
        return [x for e in v.values() for x in leaves(e)]
    return [np.ravel(v)]


OPS = {
    'fold free': lambda mod, p, a: p.fold(a['y'], free=True),
    'fold': lambda mod, p, a: p.fold(a['x'], free=False, validate_value=False),
    'fold checked': lambda mod, p, a: p.fold(a['w'], free=False),
    'flatten free': lambda mod, p, a: p.flatten(a['v'], free=True, validate_value=False),
    'flatten': lambda mod, p, a: p.flatten(a['v'], free=False, validate_value=False),
    'flatten checked': lambda mod, p, a: p.flatten(a['v'], free=False),
    'validate': lambda mod, p, a: bool(p.validate_folded(a['v'])[0]),
    'indices free': lambda mod, p, a: p.flat_indices(a['m'], free=True),
    'indices': lambda mod, p, a: p.flat_indices(a['m'], free=False),
    'freeing': lambda mod, p, a: p.freeing_jacobian(a['v'], sparse=False),
    'unfreeing': lambda mod, p, a: p.unfreeing_jacobian(a['v'], sparse=False),
    'freeing sparse': lambda mod, p, a: p.freeing_jacobian(a['v']),
    'unfreeing sparse': lambda mod, p, a: p.unfreeing_jacobian(a['v']),
    'log det': lambda mod, p, a: p.log_abs_det_freeing_jacobian(a['v']),
    'log det unfreeing': lambda mod, p, a: p.log_abs_det_unfreeing_jacobian(a['v']),
    'empty': lambda mod, p, a: p.empty(valid=True),
    'empty bool': lambda mod, p, a: p.empty_bool(True),
    'names': lambda mod, p, a: [p.flat_names(True), p.flat_names(False)],
    'lengths': lambda mod, p, a: [p.flat_length(free=True), p.flat_length(free=False)],
    'json': lambda mod, p, a: mod.get_pattern_from_json(p.to_json()).fold(a['y'], free=True),
    'derivative': lambda mod, p, a: autograd.jacobian(
        lambda t: anp.concatenate(leaves(p.fold(t, free=True))))(a['y']),
    # refused
    'too long': lambda mod, p, a: p.fold(cat(a['y'], [0.0]), free=True),
    'too long flat': lambda mod, p, a: p.fold(cat(a['x'], [0.0]), free=False),
    'no default': lambda mod, p, a: p.fold(a['y']),
    'wrong value': lambda mod, p, a: p.flatten(None, free=True),
}


def contents(h, spec, p, B, tag, mod):
    """arguments for the pattern with bounds B: free, flat, valid value, mask"""
    nf, n = pats.free_len(spec), pats.flat_len(spec)
    P = make(mod, spec, p, B)
    y = h.reals(tag + 'y', (nf,), -1.0, 1.0)
    u = h.reals(tag + 'u', (nf,), -1.0, 1.0)
    x = h.reals(tag + 'x', (n,), -1.0, 1.0)
    v = snap(P.fold(u, free=True))
    w = np.array(P.flatten(v, free=False, validate_value=False))
    return dict(y=y, x=x, v=v, w=w, m=mask(spec, 'first' if tag == 'old.' else 'all'))


def allow(spec, op):
    if op.startswith('log det'):
        return spec[0] == 'num' or spec[0] == 'dict' and all(allow(s, op) for _, s in spec[1])
    return True


def pattern(h, spec, other, pairs=(), orders=('P', 'Q', 'PQ', 'QP')):
    h.merge_extrema()
    B, C, D = {}, {}, {}
    declare(h, spec, 'p.', B)
    declare(h, spec, 'q.', C)
    ref = fresh.copy(h)
    old = contents(h, spec, 'p.', B, 'old.', ref)
    new = contents(h, spec, 'p.', B, 'new.', ref)
    third = contents(h, spec, 'q.', C, 'q.', ref)
    names = [n for n in OPS if allow(spec, n)]
    final = h.choice('final', [n for n in names if n not in ('too long', 'no default', 'wrong value')])
    order = h.choice('order', list(orders))
    one = h.choice('one', list(pairs)) if len(pairs) > 1 else pairs[0] if pairs else None
    # what a program that has just started gets
    start = fresh.copy(h)
    P0 = make(start, spec, 'p.', B)
    want = tell(lambda: OPS[final](start, P0, {k: snap(e) for k, e in new.items()}))
    # and one that has done other things with the same objects before
    mod = fresh.copy(h)
    if order.startswith('Q'):
        # the other one is the first of its kind
        Q = make(mod, spec, 'q.', C)
        P = make(mod, spec, 'p.', B)
    else:
        P, Q = make(mod, spec, 'p.', B), make(mod, spec, 'q.', C)
    args = {k: snap(e) for k, e in old.items()}
    qargs = dict(args)
    # the vectors are shared; the values must be valid for Q
    qargs.update(v=snap(third['v']), w=snap(third['w']))
    work = {'P': [(P, args)], 'Q': [(Q, qargs)], 'R': []}
    if 'R' in order:
        declare(h, other, 'r.', D)
        rargs = contents(h, other, 'r.', D, 'r.', mod)
        work['R'] = [(make(mod, other, 'r.', D), rargs)]
    for o in order:
        for pat, a in work[o]:
            for r in [tell(lambda: OPS[n](mod, pat, a)) for n in ([one] if pairs else names)]:
                spoil(r)
    for k in args:
        store(args[k], new[k])
    got = tell(lambda: OPS[final](mod, P, args))
    if not h.check(got[0] == want[0] and (got[0] == 'ok' or got[1] == want[1]),
                   '%s: same outcome as in a new program' % final, lambda: '%r vs %r' % (got, want)):
        return
    if got[0] == 'ok':
        h.same(dense(got[1]), dense(want[1]), '%s: same result as in a new program' % final)


# ----------------------------------------------------------------- functions
def poly(v, c=1.0):
    t = 0.0
    for k, a in enumerate(leaves(v)):
        t = t + (1.0 + k) * anp.sum(a * a) + c * anp.sum(a)
    return t


def wrappers(h, spec, which):
    """a wrapped function called twice, next to another wrapper of the same function"""
    h.merge_extrema()
    B, C = {}, {}
    declare(h, spec, 'p.', B)
    declare(h, spec, 'q.', C)
    nf = pats.free_len(spec)
    c = h.real('c')
    ref = fresh.copy(h)
    old, new = contents(h, spec, 'p.', B, 'old.', ref), contents(h, spec, 'p.', B, 'new.', ref)

    def build(mod, p, BB):
        pat = make(mod, spec, p, BB)
        if which == 'flat in':
            g = mod.FlattenFunctionInput(poly, patterns=pat, free=True)
            return (lambda a: g(a['y'], c)), pat
        if which == 'flat in gradient':
            g = mod.FlattenFunctionInput(poly, patterns=pat, free=True)
            return (lambda a: autograd.grad(g)(a['y'], c)), pat
        if which == 'fold in':
            g = mod.FoldFunctionInput(lambda t, c: anp.sum(t * t) + c * t[0], patterns=pat, free=False)
            return (lambda a: g(a['v'], c)), pat
        if which == 'flat out':
            g = mod.FlattenFunctionOutput(lambda v, c: (v, c), patterns=pat, free=True)
            return (lambda a: list(g(a['v'], c))), pat
        if which == 'fold out':
            g = mod.FoldFunctionOutput(lambda t, c: t * c, patterns=pat, free=True)
            return (lambda a: g(a['y'], c)), pat
        g = mod.FlattenFunctionInputAndOutput(lambda v, c: v, pat, True, 0, pat, True)
        return (lambda a: g(a['y'], c)), pat

    start = fresh.copy(h)
    want = tell(lambda: build(start, 'p.', B)[0]({k: snap(e) for k, e in new.items()}))
    mod = fresh.copy(h)
    order = h.choice('order', ['f', 'g', 'fg', 'gf'])
    if order.startswith('g'):
        g, _ = build(mod, 'q.', C)
        f, _ = build(mod, 'p.', B)
    else:
        f, _ = build(mod, 'p.', B)
        g, _ = build(mod, 'q.', C)
    args = {k: snap(e) for k, e in old.items()}
    for o in order:
        spoil(tell(lambda: (f if o == 'f' else g)(args)))
        tell(lambda: (f if o == 'f' else g)({}))
    for k in args:
        store(args[k], new[k])
    got = tell(lambda: f(args))
    if h.check(got[0] == want[0] == 'ok', 'wrapped function: same outcome as in a new program', lambda: '%r vs %r' % (got, want)):
        h.same(got[1], want[1], 'wrapped function: same result as in a new program')


def settle(h, build, old, new, calls, label, exact=True):
    """calls: name -> function of (object, arguments); build(mod) -> pair of objects"""
    final = h.choice('final', list(calls))
    order = h.choice('order', ['a', 'b', 'ab', 'ba'])
    start = fresh.copy(h)
    want = tell(lambda: calls[final](build(start)[0], snap(new)))
    mod = fresh.copy(h)
    a, b = build(mod)
    if order == 'b':
        # the object in question is made after the other one
        a = build(mod)[0]
    args = snap(old)
    for o in order:
        for r in [tell(lambda: calls[n](a if o == 'a' else b, args)) for n in calls]:
            spoil(r)
    store(args, new)
    got = tell(lambda: calls[final](a, args))
    if h.check(got[0] == want[0], '%s %s: same outcome as in a new program' % (label, final),
               lambda: '%r vs %r' % (got, want)) and got[0] == 'ok':
        h.same(dense(got[1]), dense(want[1]), '%s %s: same result as in a new program' % (label, final))


def preconditioned(h, n, how):
    m, k = h.reals('m', (n, n)), h.reals('k', (n, n))
    mi, ki = h.reals('mi', (n, n)), h.reals('ki', (n, n))
    w = h.reals('w', (n,))

    def build(mod):
        out = []
        for a, ai in ((m, mi), (k, ki)):
            pf = mod.PreconditionedFunction(lambda x: anp.sum(w * x) + anp.sum(x * x))
            if how == 'dense':
                pf.set_preconditioner_matrix(np.array(a), np.array(ai))
            elif how == 'sparse':
                pf.set_preconditioner_matrix(scipy.sparse.csc_matrix(a), scipy.sparse.csc_matrix(ai))
            elif how == 'functions':
                pf.set_preconditioner_functions(lambda v, a=a: anp.dot(a, v), lambda v, ai=ai: anp.dot(ai, v))
            out.append(pf)
        return out
    old = OrderedDict(x=h.reals('ox', (n,)))
    new = OrderedDict(x=h.reals('nx', (n,)))
    settle(h, build, old, new, {
        'value': lambda f, a: f(a['x']),
        'precondition': lambda f, a: f.precondition(a['x']),
        'unprecondition': lambda f, a: f.unprecondition(a['x']),
        'matrix': lambda f, a: f.get_preconditioner(n),
        'inverse': lambda f, a: f.get_preconditioner_inv(n),
        'gradient': lambda f, a: autograd.grad(f)(a['x']),
    }, 'preconditioned function')


def hessian1(h):
    """the Hessian at a point that is the same array with new contents"""
    c, q = h.real('c', 0.3, 1.0), h.real('q', 0.3, 1.0)
    h.assume(c > 0)
    h.assume(q > 0)
    a, b = h.real('a', 0.2, 2.0), h.real('b', 0.2, 2.0)
    h.assume(a > 0)
    h.assume(b > 0)
    f = lambda x: anp.sum(c * x ** 3 / 6.0 + q * x ** 2 / 2.0)
    for t in (a, b):
        H = h.arr([c * t + q]).reshape((1, 1))
        h.reg_eigh(H, h.arr([c * t + q]), h.arr([h.const(1.0)]).reshape((1, 1)))
    mod = fresh.copy(h)
    pf = mod.PreconditionedFunction(f)
    x = h.arr([a])
    pf.set_preconditioner_with_hessian(x=x)
    h.eq(pf.get_preconditioner(1)[0, 0], 1.0 / np.sqrt(h.arr([c * a + q]))[0], 'at the first point')
    y = h.reals('y', (1,))
    h.eq(pf(y), f(y / np.sqrt(h.arr([c * a + q]))), 'value with the first preconditioner')
    x[0] = b
    pf.set_preconditioner_with_hessian(x=x)
    h.eq(pf.get_preconditioner(1)[0, 0], 1.0 / np.sqrt(h.arr([c * b + q]))[0], 'at the second point')
    h.eq(pf(y), f(y / np.sqrt(h.arr([c * b + q]))), 'value with the second preconditioner')


def objective(h, n):
    w, z = h.reals('w', (n,)), h.reals('z', (n,))

    def build(mod):
        out = []
        for c in (w, z):
            out.append(mod.OptimizationObjective(lambda x, c=c: anp.sum(c * x ** 3) + x[0] * x[-1], print_every=0, log_every=1))
        return out
    old = OrderedDict(x=h.reals('ox', (n,)), d=h.reals('od', (n,)))
    new = OrderedDict(x=h.reals('nx', (n,)), d=h.reals('nd', (n,)))
    settle(h, build, old, new, {
        'value': lambda f, a: f.f(a['x']),
        'gradient': lambda f, a: f.grad(a['x']),
        'Hessian': lambda f, a: f.hessian(a['x']),
        'Hessian vector product': lambda f, a: f.hessian_vector_product(a['x'], a['d']),
    }, 'objective')


def products(h, r, c):
    m, k = h.reals('m', (r, c)), h.reals('k', (r, c))

    def build(mod):
        lib = mod.autograd_supplement_lib
        out = []
        for a in (m, k):
            f, t = lib.get_sparse_product(scipy.sparse.csc_matrix(a))
            s, st = lib.get_differentiable_solver(lambda b, a=a: np.dot(a, b), lambda b, a=a: np.dot(a.T, b))
            out.append((f, t, s, st))
        return out
    old = OrderedDict(x=h.reals('ox', (c,)), y=h.reals('oy', (r,)))
    new = OrderedDict(x=h.reals('nx', (c,)), y=h.reals('ny', (r,)))
    jac = lambda f, x: autograd.jacobian(lambda t: f(t * t))(x)
    settle(h, build, old, new, {
        'product': lambda f, a: f[0](a['x']),
        'transposed': lambda f, a: f[1](a['y']),
        'solver': lambda f, a: f[2](a['x']),
        'transposed solver': lambda f, a: f[3](a['y']),
        'derivative of the product': lambda f, a: jac(f[0], a['x']),
        'derivative of the transposed': lambda f, a: jac(f[1], a['y']),
        'derivative of the solver': lambda f, a: jac(f[2], a['x']),
        'derivative of the transposed solver': lambda f, a: jac(f[3], a['y']),
    }, 'linear map')


def sums(h):
    g1, g2 = np.array([0, 2, 0]), np.array([1, 1, 0])
    i1, i2 = np.array([2, 0]), np.array([1, 2])
    old = OrderedDict(x=h.reals('ox', (3,)), s=h.reals('os', (2,)), g=g1, i=i1, n=np.array(3))
    new = OrderedDict(x=h.reals('nx', (3,)), s=h.reals('ns', (2,)), g=g2, i=i2, n=np.array(4))
    build = lambda mod: (mod.autograd_supplement_lib,) * 2
    calls = {
        'grouped sum': lambda f, a: f.grouped_sum(a['x'], a['g']),
        'grouped sum of a number': lambda f, a: f.grouped_sum(a['x'], a['g'], int(a['n'])),
        'grouped sum derivative': lambda f, a: autograd.jacobian(lambda t: f.grouped_sum(t * t, a['g'], int(a['n'])))(a['x']),
        'replace': lambda f, a: f.replace(a['s'], a['x'], a['i']),
        'replace derivative': lambda f, a: autograd.jacobian(lambda t: f.replace(t * t, a['x'], a['i']))(a['s']),
        'replace derivative in x': lambda f, a: autograd.jacobian(lambda t: f.replace(a['s'], t * t, a['i']))(a['x']),
    }
    settle(h, build, old, new, calls, 'sums')


def clipping(h):
    lo, hi = h.real('lo', -1.0, 0.0), h.real('hi', 0.5, 1.5)
    h.assume(lo < hi)
    old = OrderedDict(w=h.reals('ow', (2,)), u=h.reals('ou', (2, 2)), x=h.reals('ox', (2,)))
    new = OrderedDict(w=h.reals('nw', (2,)), u=h.reals('nu', (2, 2)), x=h.reals('nx', (2,)))
    build = lambda mod: (mod.optimization_lib,) * 2
    settle(h, build, old, new, {
        'truncate': lambda f, a: f.truncate_eigenvalues(a['w'], ev_min=lo, ev_max=hi),
        'truncate below': lambda f, a: f.truncate_eigenvalues(a['w'], ev_min=lo),
        'transform': lambda f, a: f.transform_eigenspace(a['u'], a['w'], lambda t: t * t)(a['x']),
    }, 'eigenvalues')


N2 = ['num', [2], 'both']
PAIRS = [(['num', [2], 'both'], ['num', [3], 'both']), (['psd', 2, True], ['psd', 1, True]),
         (['simplex', 3, [1]], ['simplex', 2, [2]])]
ALL = PAIRS + [
    (['num', [2], 'lb'], ['num', [1], 'lb']), (['num', [2], 'ub'], ['num', [1], 'ub']),
    (['num', [2], 'none'], ['num', [2, 2], 'none']), (['num', [2], 'both', 'vec'], ['num', [2], 'lb', 'vec']),
    (['num', [2, 2], 'both'], ['num', [4], 'both']), (['simplex', 2, [2, 1]], ['simplex', 2, [1, 2]]),
    (['psd', 1, True], ['psd', 2, False]),
    (['dict', [['a', ['num', [1], 'both']], ['m', ['psd', 2, True]]]],
     ['dict', [['a', ['num', [2], 'both']], ['m', ['psd', 1, True]]]]),
    (['dict', [['b', ['dict', [['a', ['num', [1], 'lb']]]]], ['a', ['num', [1], 'ub']]]],
     ['dict', [['a', ['num', [1], 'lb']], ['b', ['num', [1], 'ub']]]]),
    (['arr', [2], ['num', [1], 'both']], ['arr', [2], ['num', [2], 'both']]),
    (['arr', [2], ['psd', 2, True]], ['arr', [2, 1], ['psd', 2, True]]),
    (['dict', [['m', ['psd', 2, True]], ['n', ['psd', 2, True]], ['l', ['psd', 2, False]]]], ['dict', [['m', ['psd', 2, True]]]]),
    (['dict', [['m', ['num', [2], 'both']], ['n', ['num', [2], 'both']], ['l', ['num', [2], 'lb']]]],
     ['dict', [['l', ['num', [2], 'lb']]]]),
]


def tasks(tier):
    out = []
    thorough = tier == 'thorough'
    for s, o in ALL:
        out.append(dict(name='pattern:' + pats.name(s), fn='pattern', max_paths=4000,
                        cfg=dict(spec=s, other=o, orders=['P', 'Q', 'PQ', 'QP', 'R', 'PQR'])))
    for s, o in (ALL if thorough else PAIRS):
        ops = [n for n in OPS if allow(s, n)]
        for i in range(0, len(ops), 4):
            out.append(dict(name='pairs:%s:%s' % (pats.name(s), ops[i]), fn='pattern', max_paths=20000,
                            cfg=dict(spec=s, other=o, pairs=ops[i:i + 4], orders=['P', 'Q', 'R'])))
    for s in (N2, ['psd', 2, True], ['simplex', 3, [1]],
              ['dict', [['a', ['num', [1], 'both']], ['m', ['psd', 1, True]]]], ['arr', [2], ['num', [1], 'lb']]):
        for w in ('flat in', 'flat in gradient', 'fold in', 'flat out', 'fold out', 'both'):
            out.append(dict(name='wrappers:%s:%s' % (pats.name(s), w), fn='wrappers', cfg=dict(spec=s, which=w)))
    for how in ('identity', 'dense', 'sparse', 'functions'):
        out.append(dict(name='preconditioned:' + how, fn='preconditioned', cfg=dict(n=2, how=how)))
    out += [dict(name='hessian1', fn='hessian1', cfg={}),
            dict(name='objective', fn='objective', cfg=dict(n=2)),
            dict(name='products', fn='products', cfg=dict(r=2, c=3)),
            dict(name='sums', fn='sums', cfg={}), dict(name='clipping', fn='clipping', cfg={})]
    return out
