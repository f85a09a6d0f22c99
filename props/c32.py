"""C32: arguments mean the same by position, by name, and when left to their documented default."""
import io
import os
import tempfile
import numpy as np
import scipy.sparse as sps
import paragami
from paragami import autograd_supplement_lib as asl
from paragami.optimization_lib import truncate_eigenvalues, transform_eigenspace, PreconditionedFunction, \
    OptimizationObjective
from . import pats, beh
from .c16 import invertible
from .c17 import eigen
from .c30 import logdets

META = {
    'bounds': 'every operation, constructor, wrapper and library function with an argument that can be given by position '
              'or by name or be omitted; every pattern type and containers nested up to 3 deep; all values of the '
              'other arguments; matrices up to 2x2',
    'outside': 'arguments of methods inherited from other libraries',
    'assumptions': ['exact real arithmetic'],
}


def dense(r):
    return r.toarray() if sps.issparse(r) else r


def forms(h, label, fun, named, order, defaults=()):
    """all by name == leading ones by position; those in defaults given == omitted"""
    base = lambda: fun(**named)
    k = h.choice('positional ' + label, list(range(1, len(order) + 1)))
    beh.same_outcome(h, lambda: fun(*[named[a] for a in order[:k]], **{a: named[a] for a in order[k:]}), base,
                     label + ': by position')
    for a, v in defaults:
        full = dict(named)
        full[a] = v
        beh.same_outcome(h, lambda: fun(**{b: full[b] for b in full if b != a}), lambda: fun(**full),
                         label + ': default of ' + a)


def operations(h, spec):
    fd = h.choice('fd', [None, True, False])
    P = beh.varied(h, spec, validates=(True,), frees=(fd,))
    p = P.pat
    op = h.choice('op', ['fold', 'flatten', 'validate', 'length', 'indices', 'empty', 'names', 'jac', 'logdet'])
    nf, n = pats.free_len(spec), pats.flat_len(spec)
    free = h.choice('free', [True, False]) if op in ('fold', 'flatten', 'length', 'indices', 'names') else None
    check = h.choice('validate', [None, True, False]) if op in ('fold', 'flatten', 'validate') else None
    if op == 'fold':
        y = h.reals('y', (nf if free else n,), -0.9, 0.9)
        forms(h, op, p.fold, dict(flat_val=y, free=free, validate_value=check), ['flat_val', 'free', 'validate_value'],
              [('validate_value', None), ('free', None)])
    elif op == 'flatten':
        if free:
            v = p.fold(h.reals('y', (nf,), -0.9, 0.9), free=True)
        else:
            v = beh.anyvalue(h, P)
        forms(h, op, p.flatten, dict(folded_val=v, free=free, validate_value=check),
              ['folded_val', 'free', 'validate_value'], [('validate_value', None)] + ([('free', None)] if not fd else []))
    elif op == 'validate':
        v = beh.anyvalue(h, P)
        forms(h, op, lambda *a, **k: bool(p.validate_folded(*a, **k)[0]), dict(folded_val=v, validate_value=check),
              ['folded_val', 'validate_value'], [('validate_value', None)])
    elif op == 'length':
        forms(h, op, p.flat_length, dict(free=free), ['free'], [('free', None)])
    elif op == 'indices':
        m = beh.fill(P, True)
        forms(h, op, p.flat_indices, dict(folded_bool=m, free=free), ['folded_bool', 'free'], [('free', None)])
    elif op == 'empty':
        forms(h, op, p.empty, dict(valid=True), ['valid'])
        forms(h, 'empty_bool', p.empty_bool, dict(value=bool(h.bool('value'))), ['value'])
    elif op == 'names':
        forms(h, op, lambda *a, **k: list(p.flat_names(*a, **k)), dict(free=free), ['free'])
    else:
        v = p.fold(h.reals('y', (nf,), -0.9, 0.9), free=True)
        if op == 'jac':
            s = h.choice('sparse', [True, False])
            for f in ('freeing_jacobian', 'unfreeing_jacobian'):
                g = getattr(p, f)
                forms(h, f, lambda *a, **k: dense(g(*a, **k)), dict(folded_val=v, sparse=s), ['folded_val', 'sparse'])
                h.check(sps.issparse(g(v)) and sps.issparse(g(v, True)) and not sps.issparse(g(v, False)),
                        f + ': sparse unless told otherwise')
        elif logdets(spec):
            for f in ('log_abs_det_freeing_jacobian', 'log_abs_det_unfreeing_jacobian'):
                forms(h, f, getattr(p, f), dict(folded_val=v), ['folded_val'])


def built(h, what):
    """constructors"""
    inf = float('inf')
    lb, ub = h.real('lb', -3.0, -2.0), h.real('ub', 2.0, 3.0)
    h.assume(lb < ub)
    dv, fd = h.choice('dv', [True, False]), h.choice('fd', [None, True, False])
    tail = dict(default_validate=dv, free_default=fd)
    dflt = dict(default_validate=True, free_default=None)
    if what in ('array', 'vec', 'scalar'):
        cls = {'array': paragami.NumericArrayPattern, 'vec': paragami.NumericVectorPattern,
               'scalar': paragami.NumericScalarPattern}[what]
        first = {'array': dict(shape=(1, 2)), 'vec': dict(length=2), 'scalar': {}}[what]
        named, dflt = dict(first, lb=lb, ub=ub, **tail), dict(dflt, lb=-inf, ub=inf)
        spec = ['num', {'array': [1, 2], 'vec': [2], 'scalar': [1]}[what], 'both']
    elif what == 'psd':
        cls, spec = paragami.PSDSymmetricMatrixPattern, ['psd', 2, True]
        d = h.real('d', 0.1, 0.5)
        h.assume(d >= 0)
        named, dflt = dict(size=2, diag_lb=d, **tail), dict(dflt, diag_lb=0.0)
    elif what == 'simplex':
        cls, spec = paragami.SimplexArrayPattern, ['simplex', 2, [1]]
        named = dict(simplex_size=2, array_shape=(1,), **tail)
    elif what == 'parray':
        cls, spec = paragami.PatternArray, ['arr', [2], ['num', [1], 'both']]
        named = dict(array_shape=(2,), base_pattern=paragami.NumericVectorPattern(1, lb, ub), free_default=fd)
        dflt = dict(free_default=None)
    else:
        cls = lambda *a, **k: fill(paragami.PatternDict(*a, **k))
        fill = lambda p: (p.__setitem__('a', paragami.NumericVectorPattern(1, lb, ub)), p)[1]
        spec = ['dict', [['a', ['num', [1], 'both']]]]
        named, dflt = dict(free_default=fd), dict(free_default=None)
    order = list(named)
    P = lambda q: pats.P(spec, q, '', kids=[('a', pats.P(['num', [1], 'both'], None, '', shape=(1,)))],
                         shape=shape(spec))
    k = h.choice('positional', list(range(len(order) + 1)))
    if k:
        q = cls(*[named[a] for a in order[:k]], **{a: named[a] for a in order[k:]})
        beh.behaviour(h, P(cls(**named)), q, 'by position: ')
        h.check(getattr(q, 'free_default') is fd, 'default free setting')
    else:
        a = h.choice('omitted', list(dflt))
        full = dict(named)
        full[a] = dflt[a]
        beh.behaviour(h, P(cls(**full)), cls(**{b: full[b] for b in full if b != a}), 'omitted: ')


def shape(spec):
    if spec[0] == 'num':
        return tuple(spec[1])
    if spec[0] == 'psd':
        return (spec[1], spec[1])
    if spec[0] == 'simplex':
        return tuple(spec[2]) + (spec[1],)
    if spec[0] == 'arr':
        return tuple(spec[1]) + shape(spec[2])


def wrappers(h, what):
    """wrapped functions: f(u, a, v) and f(u) -> (r, s)"""
    p = paragami.NumericVectorPattern(2, lb=h.real('lb', -3.0, -1.0), default_validate=False)
    q = paragami.SimplexArrayPattern(2, (1,), default_validate=False)
    free = [bool(h.bool('fa')), bool(h.bool('fb'))]
    flat = bool(h.bool('flat'))
    vals = [(h.reals('x', (2,), -0.9, 0.9), p.fold(h.reals('xv', (2,), -0.9, 0.9), free=True)),
            (h.reals('y', (1 if free[1] else 2,), 0.1, 0.9), q.fold(h.reals('yv', (1,), -0.9, 0.9), free=True))]
    c = h.real('c')
    names, folded = ['Fold', 'Flatten'], not flat
    if what == 'in':
        base, nums = paragami.TransformFunctionInput, 'argnums'
        conv = paragami.FoldFunctionInput if flat else paragami.FlattenFunctionInput
        fun = lambda a, b=0., d=0.: (a, b, d)
        args = [vals[0][flat], vals[1][flat]]
        places = h.choice('places', [[0, 1], [1, 0], [0, 2], None])
        call = [None] * 3
        for i, j in enumerate(places or [0, 1]):
            call[j] = args[i]
        call = [c if a is None else a for a in call]
        run = lambda f: f(*call)
    elif what == 'out':
        base, nums = paragami.TransformFunctionOutput, 'retnums'
        conv = paragami.FoldFunctionOutput if flat else paragami.FlattenFunctionOutput
        places = h.choice('places', [[0, 1], [1, 0], [2, 0], None])
        rets = [None] * 3
        for i, j in enumerate(places or [0, 1]):
            rets[j] = vals[i][not flat]
        rets = tuple(c if a is None else a for a in rets)
        fun = lambda: rets
        run = lambda f: f()
    else:
        conv = paragami.FoldFunctionInputAndOutput if flat else paragami.FlattenFunctionInputAndOutput
        places, places2 = h.choice('places', [[0], [1]]), h.choice('places2', [[0], [1], None])
        rets = (vals[1][not flat], c) if places2 != [1] else (c, vals[1][not flat])
        fun = lambda a, b: rets + (a, b)
        call = (vals[0][flat], c) if places == [0] else (c, vals[0][flat])
        named = dict(original_fun=fun, input_patterns=[p], input_free=[free[0]], input_argnums=places,
                     output_patterns=[q], output_free=[free[1]], output_retnums=places2)
        forms(h, 'wrapper', lambda *a, **k: conv(*a, **k)(*call), named, list(named), [('output_retnums', None)])
        return
    named = dict(original_fun=fun, patterns=[p, q], free=free, original_is_flat=flat)
    named[nums] = places
    short = {k: v for k, v in named.items() if k != 'original_is_flat'}
    if h.choice('class', ['general', 'convenience']) == 'general':
        forms(h, 'wrapper', lambda *a, **k: run(base(*a, **k)), named, list(named), [(nums, None)])
        h.same(run(base(**named)), run(conv(**short)), 'general and convenience wrapper')
    else:
        forms(h, 'wrapper', lambda *a, **k: run(conv(*a, **k)), short, list(short), [(nums, None)])


def library(h, what):
    if what == 'sum':
        x, g = h.reals('x', (3,)), np.array([h.choice('g%d' % i, [0, 1, 2]) for i in range(3)])
        forms(h, 'grouped_sum', asl.grouped_sum, dict(x=x, groups=g, num_groups=h.choice('n', [None, 2, 3, 4])),
              ['x', 'groups', 'num_groups'], [('num_groups', None)])
    elif what == 'replace':
        named = dict(x_sub=h.reals('s', (2,)), x=h.reals('x', (3,)), inds=np.array(h.choice('i', [[0, 1], [2, 0]])))
        forms(h, 'replace', asl.replace, named, ['x_sub', 'x', 'inds'])
    elif what == 'clip':
        w = h.reals('w', (2,))
        lo, hi = h.real('lo', -1.5, -0.5), h.real('hi', 0.5, 1.5)
        which = h.choice('which', ['none', 'min', 'max', 'both'])
        forms(h, 'truncate_eigenvalues', truncate_eigenvalues,
              dict(evals=w, ev_min=lo if which in ('min', 'both') else None,
                   ev_max=hi if which in ('max', 'both') else None), ['evals', 'ev_min', 'ev_max'],
              [('ev_min', None), ('ev_max', None)])
    elif what == 'space':
        U, w, x = h.reals('U', (2, 2)), h.reals('w', (2,)), h.reals('x', (2,))
        forms(h, 'transform_eigenspace', lambda *a, **k: transform_eigenspace(*a, **k)(x),
              dict(eigvecs=U, eigvals=w, transform_function=lambda e: 2. * e + 1.),
              ['eigvecs', 'eigvals', 'transform_function'])
    elif what == 'matrix':
        a, b = invertible(h, 2, 'a'), h.reals('b', (2, 2))
        x = h.reals('x', (2,))
        s = h.choice('sparse', [False, True])
        m = (lambda t: sps.csc_matrix(t)) if s else (lambda t: t)
        old = h.choice('name', ['set_preconditioner_matrix', 'set_preconditioner'])

        def run(*args, **kw):
            pf = PreconditionedFunction(lambda t: t[0] - 2. * t[1])
            getattr(pf, old)(*args, **kw)
            return pf(x), pf.precondition(x), pf.unprecondition(x), pf.get_preconditioner(2), \
                pf.get_preconditioner_inv(dim=2)
        n1, n2 = ('a', 'a_inv') if old == 'set_preconditioner_matrix' else ('preconditioner', 'preconditioner_inv')
        named = {n1: m(a), n2: m(b) if h.bool('given') else None}
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            forms(h, old, run, named, [n1, n2], [(n2, None)])
            if old == 'set_preconditioner':
                got = run(**named)
                old = 'set_preconditioner_matrix'
                h.same(got, run(a=named[n1], a_inv=named[n2]), 'the deprecated name does the same')
    elif what == 'tol':
        e = h.real('e', -2.0, 2.0)
        v = h.arr([h.const(1.0)])
        pf = PreconditionedFunction(lambda t: t)
        pf.set_preconditioner_functions(a_times=lambda t: t * (1. + e), a_inv_times=lambda t: t)
        qf = PreconditionedFunction(original_fun=lambda t: t)
        qf.set_preconditioner_functions(lambda t: t * (1. + e), lambda t: t)
        t = h.real('t', 0.0, 1.0)
        h.assume(t >= 0)
        forms(h, 'check_preconditioner', pf.check_preconditioner, dict(vec=v, tol=t), ['vec', 'tol'], [('tol', 1e-8)])
        beh.same_outcome(h, lambda: pf.check_preconditioner(v, t), lambda: qf.check_preconditioner(v, t), 'functions')
        x = h.reals('x', (1,))
        h.same(pf.unprecondition(x), x * (1. + e), 'first function')
        h.same(pf.precondition(x), x, 'second function')
        h.same(pf.unprecondition(x_c=x), pf.unprecondition(x), 'unprecondition by name')
        h.same(pf.precondition(x=x), pf.precondition(x), 'precondition by name')
        h.same(pf(x_c=x), pf(x), 'call by name')
    elif what == 'product':
        a, x, y = h.reals('a', (2, 3)), h.reals('x', (3,)), h.reals('y', (2,))
        z = sps.csc_matrix(a)
        f, g = asl.get_sparse_product(z_mat=z)
        f2, g2 = asl.get_sparse_product(z)
        h.same((f(x), g(y)), (f2(x), g2(y)), 'get_sparse_product')
        f, g = asl.get_differentiable_solver(z_solve=lambda b: 2. * b, zt_solve=lambda b: 3. * b)
        f2, g2 = asl.get_differentiable_solver(lambda b: 2. * b, lambda b: 3. * b)
        h.same((f(x), g(x)), (f2(x), g2(x)), 'get_differentiable_solver')
        h.same((f(x), g(x)), (2. * x, 3. * x), 'the solver and the one of the transpose')


def hessian(h, n):
    """limits of the eigenvalues, by position, name or omitted"""
    which = h.choice('which', ['none', 'min', 'max', 'both'])
    U, w, wc, H, lo, hi = eigen(h, n, which, 'full')
    x = h.reals('x', (n,))

    def run(*args, **kw):
        pf = PreconditionedFunction(lambda t: 0.5 * np.dot(t, np.dot(H, t)))
        pf.set_preconditioner_with_hessian(*args, **kw)
        return pf.unprecondition(x), pf.precondition(x)
    named = dict(x=None, hessian=H, ev_min=lo, ev_max=hi)
    forms(h, 'set_preconditioner_with_hessian', run, named, list(named), [('x', None)])
    given = {k: v for k, v in named.items() if v is not None}
    h.same(run(**given), run(**named), 'limits left out')


def objective(h):
    p, l = h.choice('p', [0, 1, 2, 3]), h.choice('l', [0, 1, 2, 3])
    x = h.real('x')

    class Watched(OptimizationObjective):
        def print_value(self, num_f_evals, x, f_val):
            self.__dict__.setdefault('printed', []).append((num_f_evals, x, f_val))

    def run(*args, **kw):
        o = Watched(*args, **kw)
        for _ in range(4):
            o.f(x)
        return len(o.optimization_log), len(o.__dict__.get('printed', [])), o.num_iterations()
    named = dict(objective_fun=lambda t: t, print_every=p, log_every=l)
    forms(h, 'OptimizationObjective', run, named, list(named), [('print_every', 1), ('log_every', 0)])
    o, q = Watched(lambda t: t), Watched(lambda t: t)
    o.set_print_every(p)
    o.set_log_every(l)
    q.set_print_every(n=p)
    q.set_log_every(n=l)
    for _ in range(4):
        o.f(x)
        q.f(x=x)
    h.check(len(o.optimization_log) == len(q.optimization_log) == len(range(0, 4, l)) * (l > 0) if l else
            o.optimization_log == q.optimization_log == [], 'set_log_every')
    h.check(len(o.__dict__.get('printed', [])) == len(q.__dict__.get('printed', [])) ==
            (len(range(0, 4, p)) if p else 0), 'set_print_every')


def stored(h, spec):
    P = beh.varied(h, spec, validates=(True,), frees=(None,))
    p = P.pat
    j = p.to_json()
    h.check(p == type(p).from_json(j) and p == type(p).from_json(json_string=j), 'from_json')
    h.check(p == paragami.get_pattern_from_json(j) and p == paragami.get_pattern_from_json(pattern_json=j),
            'get_pattern_from_json')
    v = p.fold(h.reals('y', (pats.free_len(spec),), -0.9, 0.9), free=True)
    v = p.fold(p.flatten(v, free=False), free=False, validate_value=False)
    extra = h.reals('e', (2,))
    with tempfile.TemporaryDirectory() as d:
        for i, f in enumerate((lambda t: paragami.save_folded(t, v, p, extra=extra),
                               lambda t: paragami.save_folded(file=t, folded_val=v, pattern=p, extra=extra))):
            t = os.path.join(d, 'f%d.npz' % i)
            f(t)
            a, b = paragami.load_folded(t), paragami.load_folded(file=t)
            for r in (a, b):
                h.same(r[0], v, 'loaded value')
                h.check(r[1] == p, 'loaded pattern')
                h.same(r[2]['extra'], extra, 'extra data')


def registered(h):
    """a registered name is kept unless overwriting is allowed, by position or by name"""
    class A(paragami.NumericVectorPattern):
        @classmethod
        def json_typename(cls):
            return 'c32'

    class B(A):
        pass
    how = h.choice('how', ['omitted', 'position', 'name'])
    allow = h.choice('allow', [True, False]) if how != 'omitted' else False
    kw = {} if how != 'name' else {'allow_overwrite': allow}
    pos = [allow] if how == 'position' else []
    paragami.register_pattern_json(A, True)
    if allow:
        r = beh.outcome(lambda: paragami.register_pattern_json(B, *pos, **kw))
        h.check(r[0] == 'ok', 'overwriting is allowed', lambda: repr(r))
    else:
        h.raises(lambda: paragami.register_pattern_json(B, *pos, **kw), 'already registered')


def tasks(tier):
    leaves = [['num', [2], 'both'], ['num', [2], 'lb', 'vec'], ['num', [1], 'ub', 'scalar'], ['num', [1, 2], 'none'],
              ['psd', 1, True], ['psd', 2, False], ['simplex', 2, []], ['simplex', 3, [1]]]
    nest = [['dict', [['b', ['num', [1], 'both']], ['a', ['simplex', 2, [1]]]]],
            ['arr', [2], ['num', [1], 'ub']], ['arr', [1], ['psd', 2, True]],
            ['dict', [['d', ['dict', [['y', ['arr', [1], ['num', [1], 'lb']]]]]]]]]
    if tier == 'thorough':
        leaves += [['psd', 3, True], ['simplex', 4, [2]], ['num', [2, 2], 'both']]
        nest += [['arr', [2], ['simplex', 2, [1]]], ['arr', [2, 1], ['arr', [1], ['psd', 1, True]]]]
    out = []
    for s in leaves + nest:
        out.append(dict(name='operations:' + pats.name(s) + (':' + s[3] if len(s) > 3 else ''), fn='operations',
                        cfg={'spec': s}))
        out.append(dict(name='stored:' + pats.name(s) + (':' + s[3] if len(s) > 3 else ''), fn='stored',
                        cfg={'spec': s}))
    for w in ('array', 'vec', 'scalar', 'psd', 'simplex', 'parray', 'dict'):
        out.append(dict(name='built:' + w, fn='built', cfg={'what': w}))
    for w in ('in', 'out', 'both'):
        out.append(dict(name='wrappers:' + w, fn='wrappers', cfg={'what': w}))
    for w in ('sum', 'replace', 'clip', 'space', 'matrix', 'tol', 'product'):
        out.append(dict(name='library:' + w, fn='library', cfg={'what': w}))
    for n in (1, 2):
        out.append(dict(name='hessian:%d' % n, fn='hessian', cfg={'n': n}))
    out.append(dict(name='objective', fn='objective', cfg={}))
    out.append(dict(name='registered', fn='registered', cfg={}))
    return out
