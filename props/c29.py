"""C29: folding, wrapping, preconditioning and objectives compose."""
import autograd
import autograd.numpy as anp
import numpy as np
import scipy.sparse as sps
import paragami
from paragami.optimization_lib import OptimizationObjective, PreconditionedFunction
from . import pats

META = {
    'bounds': 'objectives of one or two folded arguments (patterns with up to 4 free coordinates, containers nested 2 '
              'deep), wrapped by FlattenFunctionInput, preconditioned by any invertible matrix of that size (dense, '
              'sparse or as functions) and by changes of it between calls, in an OptimizationObjective; every point, '
              'weight, bound and matrix; functions from folded to folded values between 5 pairs of patterns',
    'outside': 'other objectives than polynomials of the folded entries with arbitrary weights; larger patterns',
    'assumptions': ['exact real arithmetic', 'autograd runs natively on symbolic arrays'],
}


def entries(spec, v):
    """folded value -> list of arrays"""
    if spec[0] == 'dict':
        return [a for n, s in spec[1] for a in entries(s, v[n])]
    return [v]


def poly(h, spec, p='w'):
    """polynomial of the folded entries with symbolic weights"""
    ws = []

    def f(v, c=0.0):
        t = c
        for k, a in enumerate(entries(spec, v)):
            if k == len(ws):
                ws.append(h.reals('%s%d_' % (p, k), np.shape(a), -1.0, 1.0))
            t = t + anp.sum(ws[k] * a) + (0.5 + k) * anp.sum(a * a)
        return t
    return f


def matrix(h, n, p='a'):
    """any invertible matrix"""
    a = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            a[i, j] = h.real('%s%d%d' % (p, i, j), -0.6, 0.6) + (1.0 if i == j and not h.symbolic else 0.0)
    a = h.arr(list(a.ravel())).reshape((n, n))
    d = det(a)
    h.assume(h.Or(d > 0, d < 0) if h.symbolic else abs(d) > 1e-2)
    return a


def det(a):
    n = a.shape[0]
    if n == 1:
        return a[0, 0]
    t = 0.0
    for j in range(n):
        keep = [k for k in range(n) if k != j]
        t = t + (-1.0) ** j * a[0, j] * det(a[1:][:, keep])
    return t


def dot(a, x):
    return anp.array([sum(a[i, j] * x[j] for j in range(len(x))) for i in range(len(x))])


def set_pre(pre, a, how):
    if how == 'dense':
        pre.set_preconditioner_matrix(a)
    elif how == 'sparse':
        pre.set_preconditioner_matrix(sps.csc_matrix(a))
    else:
        ai = np.linalg.inv(a)
        pre.set_preconditioner_functions(lambda v: anp.dot(a, v), lambda v: anp.dot(ai, v))


TOL = dict(rtol=1e-3, atol=1e-3)


def objective(h, spec, how, mat=True):
    P = pats.build(h, spec)
    nf = pats.free_len(spec)
    f = poly(h, spec)
    y = h.reals('y', (nf,), -0.7, 0.7)
    a = matrix(h, nf) if mat else h.arr([h.const(1.0 * (i == j)) for i in range(nf) for j in range(nf)]).reshape((nf, nf))
    pre = PreconditionedFunction(paragami.FlattenFunctionInput(f, patterns=P.pat, free=True))
    if mat:
        set_pre(pre, a, how)
    obj = OptimizationObjective(pre, print_every=0, log_every=1)
    ref = lambda t: f(P.pat.fold(dot(a, t) if mat else t, free=True))
    tol = {} if h.symbolic else TOL
    want = ref(y)
    h.eq(obj.f(y), want, 'value at the mapped point')
    G = h.jac(lambda t: [ref(t)], y)[0]
    h.eq(obj.grad(y), G, 'gradient', **tol)
    H = h.jac(lambda t: autograd.grad(ref)(t), y) if not h.symbolic else h.jac(lambda t: list(h.jac(lambda u: [ref(u)], t)[0]), y)
    d = h.reals('d', (nf,), -1.0, 1.0)
    if nf <= 3 or not mat:
        h.eq(obj.hessian(y), H, 'Hessian', **tol)
    h.eq(obj.hessian_vector_product(y, d), np.dot(H, d), 'Hessian vector product', **tol)
    h.check(obj.num_iterations() == 1 and len(obj.optimization_log) == 1, 'derivatives are not counted')
    k, x, val = obj.optimization_log[0]
    h.check(k == 0, 'iteration number')
    h.eq(x, y, 'logged point')
    h.eq(val, want, 'logged value')


def workflow(h, spec, how):
    """from a folded start to the optimiser's coordinates and back"""
    P = pats.build(h, spec)
    nf = pats.free_len(spec)
    f = poly(h, spec)
    s = h.reals('s', (nf,), -0.7, 0.7)
    v = P.pat.fold(s, free=True)
    a = matrix(h, nf)
    c = h.real('c', -1.0, 1.0)
    flat = paragami.FlattenFunctionInput(f, patterns=P.pat, free=True, argnums=0)
    pre = PreconditionedFunction(lambda t: flat(t, c))
    set_pre(pre, a, how)
    obj = OptimizationObjective(pre, print_every=0)
    x = P.pat.flatten(v, free=True, validate_value=False)
    y = pre.precondition(x)
    h.eq(obj.f(y), f(v, c), 'objective of the start', **({} if h.symbolic else TOL))
    back = P.pat.fold(pre.unprecondition(y), free=True)
    for p, q in zip(entries(spec, back), entries(spec, v)):
        h.eq(p, q, 'the start is recovered', **({} if h.symbolic else TOL))


def history(h, spec, ops):
    """the objective follows every change of the preconditioner"""
    P = pats.build(h, spec)
    nf = pats.free_len(spec)
    f = poly(h, spec)
    pre = PreconditionedFunction(paragami.FlattenFunctionInput(f, patterns=P.pat, free=True))
    obj = OptimizationObjective(pre, print_every=0, log_every=1)
    y = h.reals('y', (nf,), -0.7, 0.7)
    cur = None
    a, b = matrix(h, nf, 'a'), matrix(h, nf, 'b')
    expect = []
    for k in range(ops):
        op = h.choice('op%d' % k, ['a', 'b', 'identity', 'reset', 'move'])
        if op == 'move':
            # the same array at another point
            y[:] = h.reals('y%d' % k, (nf,), -0.7, 0.7)
        elif op == 'identity':
            pre.set_identitity_preconditioner()
            cur = None
        elif op == 'reset':
            obj.reset()
            expect = []
        else:
            cur = a if op == 'a' else b
            set_pre(pre, cur, 'dense')
        x = y if cur is None else dot(cur, y)
        want = f(P.pat.fold(x, free=True))
        h.eq(obj.f(y), want, 'value follows the preconditioner')
        expect.append(want)
        ref = lambda t: f(P.pat.fold(t if cur is None else dot(cur, t), free=True))
        h.eq(obj.grad(y), h.jac(lambda t: [ref(t)], y)[0], 'gradient follows the preconditioner', **h.dtol)
        h.check(obj.num_iterations() == len(expect), 'count')
        h.check([e[0] for e in obj.optimization_log] == list(range(len(expect))), 'log')
        h.eq(h.arr([e[2] for e in obj.optimization_log]), h.arr(expect), 'logged values')


def two(h, s1, s2, free1, free2):
    """two pattern arguments and a plain one; the gradient of each"""
    P, Q = pats.build(h, s1, 'p.'), pats.build(h, s2, 'q.')
    f1, f2 = poly(h, s1, 'w'), poly(h, s2, 'u')
    k = h.real('k', -1.0, 1.0)
    f = lambda v, s, w: f1(v) * s + f2(w) * (1.0 + f1(v))
    g = paragami.FlattenFunctionInput(f, patterns=[Q.pat, P.pat], free=[free2, free1], argnums=[2, 0])
    x = h.reals('x', (pats.free_len(s1),), -0.7, 0.7)
    z = h.reals('z', (pats.free_len(s2),), -0.7, 0.7)
    v, w = P.pat.fold(x, free=True), Q.pat.fold(z, free=True)
    if not free1:
        x = P.pat.flatten(v, free=False, validate_value=False)
    if not free2:
        z = Q.pat.flatten(w, free=False, validate_value=False)
    h.eq(g(x, k, z), f(v, k, w), 'value')
    nf = lambda P, t, fr: P.pat.fold(t, free=fr) if fr else P.pat.fold(t, free=False, validate_value=False)
    if free1:
        T = h.jac(lambda t: [f(nf(P, t, free1), k, w)], x)[0]
        h.eq(autograd.grad(g, argnum=0)(x, k, z), T, 'gradient in the first', **h.dtol)
    if free2:
        T = h.jac(lambda t: [f(v, k, nf(Q, t, free2))], z)[0]
        h.eq(autograd.grad(g, argnum=2)(x, k, z), T, 'gradient in the last', **h.dtol)
    obj = OptimizationObjective(lambda t: g(t, k, z), print_every=0)
    h.eq(obj.f(x), f(v, k, w), 'objective of one argument')


MAPS = {
    'num->num': (['num', [2], 'both'], ['num', [2], 'lb'], lambda v: 3.5 + v[0] * v + v * v),
    'num->psd': (['num', [2], 'none'], ['psd', 2, False],
                 lambda v: anp.array([[1.0 + v[0] * v[0], v[0] * v[1]], [v[0] * v[1], 1.0 + v[1] * v[1]]])),
    'psd->num': (['psd', 2, True], ['num', [2], 'none'], lambda m: anp.array([m[0, 0] * m[1, 1] - m[0, 1] * m[1, 0],
                                                                               m[0, 1] + m[1, 0]])),
    'simplex->simplex': (['simplex', 2, [1]], ['simplex', 2, []],
                         lambda v: anp.array([v[0, 0] * v[0, 0], 1.0 - v[0, 0] * v[0, 0]])),
    'dict->dict': (['dict', [['b', ['num', [1], 'lb']], ['a', ['simplex', 2, []]]]],
                   ['dict', [['y', ['num', [2], 'none']], ['x', ['num', [1], 'none', 'vec']]]],
                   lambda v: {'x': v['b'] * v['a'][0], 'y': v['a'] + v['b']}),
}


def maps(h, name, fin, fout):
    """folded -> folded: the derivative of the flattened function is the
    product of the pattern Jacobians and the derivative of the function"""
    s1, s2, f = MAPS[name]
    P, Q = pats.build(h, s1, 'p.'), pats.build(h, s2, 'q.')
    g = paragami.FlattenFunctionInputAndOutput(f, input_patterns=P.pat, input_free=fin, input_argnums=0,
                                               output_patterns=Q.pat, output_free=fout)
    s = h.reals('s', (pats.free_len(s1),), -0.7, 0.7)
    v = P.pat.fold(s, free=True)
    u = f(v)
    x = s if fin else P.pat.flatten(v, free=False, validate_value=False)
    if s2[0] == 'num' and s2[2] == 'lb':
        for e in np.asarray(u).ravel():
            h.assume(Q.lb < e)
    h.eq(g(x), Q.pat.flatten(u, free=fout, validate_value=False), 'value')
    # the plain derivative of f between flat vectors
    flat = P.pat.flatten(v, free=False, validate_value=False)
    mid = lambda t: Q.pat.flatten(f(P.pat.fold(t, free=False, validate_value=False)), free=False, validate_value=False)
    if h.symbolic:
        z = h.reals('z', (len(flat),), -0.7, 0.7)
        D = h.jac(mid, z)
        D = np.array([[sub(e, z, flat) for e in row] for row in D])
    else:
        D = h.jac(mid, flat)
    want = D
    if fin:
        want = np.dot(want, P.pat.unfreeing_jacobian(v, sparse=False))
    if fout:
        want = np.dot(Q.pat.freeing_jacobian(u, sparse=False), want)
    if fin or s1[0] == 'num':
        h.eq(autograd.jacobian(g)(x), want, 'Jacobian of the flattened function is the product', **h.dtol)
    b = paragami.FoldFunctionInputAndOutput(g, input_patterns=P.pat, input_free=fin, input_argnums=0,
                                            output_patterns=Q.pat, output_free=fout)
    r = b(v)
    for p, q in zip(entries(s2, r), entries(s2, u)):
        h.eq(p, q, 'folding the flattened function gives the original', **({} if h.symbolic else TOL))


def sub(e, z, flat):
    from engine import terms as tm
    from engine.sym import Sym, lift
    if not isinstance(e, Sym):
        return e
    m = {a.t.id: b.t if isinstance(b, Sym) else lift(b) for a, b in zip(z, flat)}
    return Sym(tm.subst(e.t, m))


SPECS = [['num', [2], 'both'], ['num', [2], 'lb'], ['simplex', 3, []], ['simplex', 2, [2]], ['psd', 1, True],
         ['dict', [['b', ['num', [1], 'ub']], ['a', ['simplex', 2, []]]]], ['arr', [2], ['num', [1], 'both']]]
BIG = [['psd', 2, True], ['dict', [['n', ['num', [1], 'both']], ['d', ['dict', [['s', ['simplex', 2, []]],
                                                                           ['m', ['psd', 1, False]]]]]]]]


def tasks(tier):
    out = []
    for s in SPECS + (BIG if tier == 'thorough' else BIG[1:]):
        nm = pats.name(s)
        for how in ('dense', 'sparse', 'functions'):
            if s in SPECS or how == 'dense':
                out.append(dict(name='objective:%s:%s' % (nm, how), fn='objective', cfg=dict(spec=s, how=how),
                                optional=s not in SPECS))
            if s in SPECS:
                out.append(dict(name='workflow:%s:%s' % (nm, how), fn='workflow', cfg=dict(spec=s, how=how)))
    for s in BIG:
        out.append(dict(name='objective:%s:identity' % pats.name(s), fn='objective', cfg=dict(spec=s, how='', mat=False)))
    for s in (['num', [2], 'both'], ['dict', [['b', ['num', [1], 'ub']], ['a', ['simplex', 2, []]]]]):
        out.append(dict(name='history:' + pats.name(s), fn='history', cfg=dict(spec=s, ops=3 if tier == 'thorough' else 2)))
    N, S, M = ['num', [2], 'both'], ['simplex', 2, [1]], ['psd', 2, True]
    for a, b in ((N, S), (S, M), (M, N)):
        for f1 in (True, False):
            for f2 in (True, False):
                out.append(dict(name='two:%s:%s:%d%d' % (pats.name(a), pats.name(b), f1, f2), fn='two',
                                cfg=dict(s1=a, s2=b, free1=f1, free2=f2)))
    for k in MAPS:
        for a in (True, False):
            for b in (True, False):
                out.append(dict(name='maps:%s:%d%d' % (k, a, b), fn='maps', cfg=dict(name=k, fin=a, fout=b)))
    return out
