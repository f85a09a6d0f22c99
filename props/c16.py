"""C16: a preconditioned function evaluates the original at the mapped point."""
import warnings
import numpy as np
import scipy.sparse as sps
import autograd
import autograd.numpy as anp
from autograd import make_jvp
import paragami
from paragami.optimization_lib import PreconditionedFunction

META = {
    'bounds': 'dimensions 1-3 (thorough: 4); every invertible matrix, every point; dense and sparse (CSC, CSR, COO) '
              'matrices, with or without their inverse, and arbitrary linear functions; histories of up to 3 (4) '
              'settings; all tolerances for the consistency check',
    'outside': 'larger dimensions; ill-conditioned matrices whose inverse is dominated by rounding',
    'assumptions': ['exact real arithmetic', 'numpy.linalg.inv, scipy.sparse.linalg.inv return the inverse',
                    'wrapped function: cubic polynomial with arbitrary coefficients, or a recorder'],
}

FORMATS = {'csc': sps.csc_matrix, 'csr': sps.csr_matrix, 'coo': sps.coo_matrix}


class Rec:
    def __init__(self, h, n, tag='r'):
        self.seen = []
        self.value = h.real(tag)

    def __call__(self, x):
        self.seen.append(x)
        return self.value


def det(a):
    n = a.shape[0]
    if n == 1:
        return a[0, 0]
    t = 0.0
    for j in range(n):
        keep = [k for k in range(n) if k != j]
        t = t + (-1.0) ** j * a[0, j] * det(a[1:][:, keep])
    return t


def invertible(h, n, p, zeros=False):
    """any invertible matrix; with zeros: any zero pattern with a full diagonal"""
    a = h.reals(p, (n, n), -1.0, 1.0)
    for i in range(n):
        a[i, i] = a[i, i] + 0.0
    if zeros:
        for i in range(n):
            for j in range(n):
                if i != j and bool(h.bool('%sz%d%d' % (p, i, j))):
                    a[i, j] = h.const(0.0)
    d = det(a)
    h.assume(h.Or(d > 0.05, d < -0.05) if not h.symbolic else h.Or(d > 0, d < 0))
    return a


def apply_setting(h, pf, how, a, ainv):
    """set the preconditioner in one of the ways the interface offers"""
    if how == 'dense':
        pf.set_preconditioner_matrix(a)
    elif how == 'dense+inv':
        pf.set_preconditioner_matrix(a, ainv)
    elif how == 'dense+kw':
        pf.set_preconditioner_matrix(a_inv=ainv, a=a)
    elif how == 'deprecated':
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            pf.set_preconditioner(a)
    elif how == 'deprecated+inv':
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            pf.set_preconditioner(a, ainv)
    elif how == 'functions':
        pf.set_preconditioner_functions(lambda v: anp.dot(a, v), lambda v: anp.dot(ainv, v))
    else:
        f = FORMATS[how[:3]]
        if how.endswith('+inv'):
            pf.set_preconditioner_matrix(f(a), f(ainv))
        elif how.endswith('+dinv'):
            pf.set_preconditioner_matrix(f(a), ainv)
        else:
            pf.set_preconditioner_matrix(f(a))


def mapped(h, n, how):
    a = invertible(h, n, 'a')
    ainv = np.linalg.inv(a)
    f = Rec(h, n)
    pf = PreconditionedFunction(f)
    apply_setting(h, pf, how, a, ainv)
    x = h.reals('x', (n,))
    want = [sum(a[i, j] * x[j] for j in range(n)) for i in range(n)]
    r = pf(x)
    h.check(len(f.seen) == 1, 'original called once')
    h.eq(r, f.value, 'value of the original')
    h.eq(f.seen[0], h.arr(want), 'original evaluated at the preconditioner times the point')
    h.eq(pf.unprecondition(x), h.arr(want), 'unprecondition')
    xc = pf.precondition(x)
    h.check(np.shape(xc) == (n,), 'shape')
    back = [sum(a[i, j] * xc[j] for j in range(n)) for i in range(n)]
    h.eq(h.arr(back), x, 'precondition multiplies by the inverse', rtol=1e-3, atol=1e-4)
    h.eq(pf.precondition(pf.unprecondition(x)), x, 'precondition undoes unprecondition', rtol=1e-3, atol=1e-4)
    h.eq(pf.unprecondition(pf.precondition(x)), x, 'unprecondition undoes precondition', rtol=1e-3, atol=1e-4)
    h.eq(pf.get_preconditioner(n), a, 'reported preconditioner')
    h.eq(pf.get_preconditioner_inv(n), ainv, 'reported inverse', rtol=1e-3, atol=1e-4)
    h.eq(pf(x), f.value, 'again')
    h.eq(f.seen[-1], h.arr(want), 'same point again')


def sparsity(h, n, how):
    """matrices with structural zeros"""
    a = invertible(h, n, 'a', zeros=True)
    ainv = np.linalg.inv(a)
    f = Rec(h, n)
    pf = PreconditionedFunction(f)
    apply_setting(h, pf, how, a, ainv)
    x = h.reals('x', (n,))
    want = h.arr([sum(a[i, j] * x[j] for j in range(n)) for i in range(n)])
    pf(x)
    h.eq(f.seen[0], want, 'mapped point')
    h.eq(pf.precondition(want), x, 'inverse', rtol=1e-3, atol=1e-4)
    h.eq(pf.get_preconditioner(n), a, 'reported preconditioner')


def pair(h, n, how):
    """whatever pair is given is used as given, and the check judges exactly that pair"""
    a = h.reals('a', (n, n))
    b = h.reals('b', (n, n))
    pf = PreconditionedFunction(Rec(h, n))
    apply_setting(h, pf, how, a, b)
    h.eq(pf.get_preconditioner(n), a, 'reported preconditioner is the given one')
    h.eq(pf.get_preconditioner_inv(n), b, 'reported inverse is the given one')
    v = h.reals('v', (n,))
    if n == 1:
        judged(h, pf, v, v - np.dot(a, np.dot(b, v)), True)


def judged(h, pf, v, e, default):
    """the check raises exactly when the norm of the residual e exceeds the tolerance"""
    err = sum(x * x for x in e)
    given = bool(h.bool('given')) if default else True
    if given:
        tol = h.real('tol', 0.5, 2.0)
        h.assume(tol > 0)
    else:
        tol = 1e-8
    if not h.symbolic:
        h.assume(h.Or(err > tol * tol * 1.000001, err < tol * tol * 0.999999))
    try:
        pf.check_preconditioner(v, tol=tol) if given else pf.check_preconditioner(v)
        raised = False
    except ValueError:
        raised = True
    t = tol if given else h.const(tol)
    h.check(h.Iff(raised, err > t * t), 'raises exactly when the pair fails to invert the vector')


def residual(h, n):
    """whatever the two functions return"""
    v, w, e = h.reals('v', (n,)), h.reals('w', (n,)), h.reals('e', (n,))
    seen = []
    pf = PreconditionedFunction(Rec(h, n))

    def inverse(u):
        seen.append(u)
        return w

    def times(u):
        seen.append(u)
        return v - e
    pf.set_preconditioner_functions(times, inverse)
    judged(h, pf, v, e, True)
    h.check(len(seen) == 2 and seen[1] is w, 'the inverse is applied first')
    h.eq(seen[0], v, 'to the given vector')


def consistent(h, n, how):
    """an exact inverse always passes"""
    a = invertible(h, n, 'a')
    pf = PreconditionedFunction(Rec(h, n))
    apply_setting(h, pf, how, a, np.linalg.inv(a))
    pf.check_preconditioner(h.reals('v', (n,)))
    h.check(True, 'consistent pair accepted')


def initial(h, n):
    f = Rec(h, n)
    pf = PreconditionedFunction(f)
    x = h.reals('x', (n,))
    h.eq(pf(x), f.value, 'value')
    h.eq(f.seen[0], x, 'identity initially')
    h.eq(pf.precondition(x), x, 'precondition')
    h.eq(pf.unprecondition(x), x, 'unprecondition')
    h.eq(pf.get_preconditioner(n), np.eye(n), 'reported')
    h.eq(pf.get_preconditioner_inv(n), np.eye(n), 'reported inverse')
    pf.check_preconditioner(x)
    two = PreconditionedFunction(f)
    a = invertible(h, n, 'a')
    two.set_preconditioner_matrix(a)
    h.eq(pf.unprecondition(x), x, 'objects are independent')


def history(h, n, k, ways):
    """only the last setting counts"""
    pf = PreconditionedFunction(Rec(h, n))
    x = h.reals('x', (n,))
    cur = np.eye(n)
    for i in range(k):
        op = h.choice('op%d' % i, ways + ['identity', 'use'])
        if op == 'identity':
            pf.set_identitity_preconditioner()
            cur = np.eye(n)
        elif op == 'use':
            pf(x)
        else:
            cur = invertible(h, n, 'a%d' % i)
            apply_setting(h, pf, op, cur, np.linalg.inv(cur))
    want = h.arr([sum(cur[i, j] * x[j] for j in range(n)) for i in range(n)])
    h.eq(pf.unprecondition(x), want, 'last setting')
    h.eq(pf.precondition(want), x, 'last inverse', rtol=1e-3, atol=1e-4)
    pf(x)
    h.eq(pf._original_fun.seen[-1], want, 'evaluation')


def poly(h, n):
    c = h.reals('c', (n,), -1, 1)
    q = h.reals('q', (n, n), -1, 1)
    t = h.reals('t', (n,), -1, 1)

    def f(x):
        return anp.dot(c, x) + anp.dot(x, anp.dot(q, x)) + anp.sum(t * x ** 3)

    def grad(x):
        return np.array([c[i] + sum((q[i, j] + q[j, i]) * x[j] for j in range(n)) + 3.0 * t[i] * x[i] ** 2
                         for i in range(n)])

    def hess(x):
        return np.array([[q[i, j] + q[j, i] + (6.0 * t[i] * x[i] if i == j else 0.0) for j in range(n)]
                         for i in range(n)])
    return f, grad, hess


def derivs(h, n, how):
    a = h.reals('a', (n, n), -1, 1)
    b = h.reals('b', (n, n), -1, 1)
    f, grad, hess = poly(h, n)
    pf = PreconditionedFunction(f)
    apply_setting(h, pf, how, a, b)
    x = h.reals('x', (n,), -1, 1)
    ax = h.arr([sum(a[i, j] * x[j] for j in range(n)) for i in range(n)])
    g, H = grad(ax), hess(ax)
    h.eq(pf(x), f(ax), 'value')
    wg = h.arr([sum(a[k, i] * g[k] for k in range(n)) for i in range(n)])
    h.eq(autograd.grad(pf)(x), wg, 'gradient')
    wh = h.arr([sum(a[k, i] * H[k, m] * a[m, j] for k in range(n) for m in range(n))
                for i in range(n) for j in range(n)]).reshape((n, n))
    h.eq(autograd.hessian(pf)(x), wh, 'Hessian')
    v = h.reals('v', (n,), -1, 1)
    h.eq(make_jvp(pf)(x)(v)[1], sum(wg[i] * v[i] for i in range(n)), 'forward derivative')
    h.eq(autograd.hessian_vector_product(pf)(x, v),
         h.arr([sum(wh[i, j] * v[j] for j in range(n)) for i in range(n)]), 'Hessian vector product')
    # derivatives of the maps themselves
    h.eq(autograd.jacobian(pf.unprecondition)(x), a, 'Jacobian of unprecondition')
    h.eq(autograd.jacobian(pf.precondition)(x), b, 'Jacobian of precondition')


WAYS = ['dense', 'dense+inv', 'dense+kw', 'deprecated', 'deprecated+inv', 'functions', 'csc', 'csc+inv', 'csr+inv',
        'coo', 'csr', 'csc+dinv']


def tasks(tier):
    out = []
    for how in WAYS:
        for n in (1, 2, 3) if how in ('dense', 'csc', 'dense+inv', 'csr+inv') else (1, 2):
            out.append(dict(name='mapped:%s:%d' % (how, n), fn='mapped', cfg=dict(n=n, how=how)))
    for how in ('csc', 'csr+inv', 'coo+inv', 'dense'):
        out.append(dict(name='sparsity:%s:2' % how, fn='sparsity', cfg=dict(n=2, how=how)))
    for how in ('dense+inv', 'functions', 'csc+inv', 'csr+inv', 'deprecated+inv', 'csc+dinv'):
        for n in (1, 2):
            out.append(dict(name='pair:%s:%d' % (how, n), fn='pair', cfg=dict(n=n, how=how)))
        out.append(dict(name='derivs:%s:2' % how, fn='derivs', cfg=dict(n=2, how=how)))
    out.append(dict(name='derivs:csc+inv:1', fn='derivs', cfg=dict(n=1, how='csc+inv')))
    out.append(dict(name='derivs:csc+inv:3', fn='derivs', cfg=dict(n=3, how='csc+inv')))
    out.append(dict(name='derivs:dense+inv:3', fn='derivs', cfg=dict(n=3, how='dense+inv')))
    for how in ('dense', 'csc'):
        out.append(dict(name='consistent:%s:2' % how, fn='consistent', cfg=dict(n=2, how=how)))
    for n in (1, 2, 3):
        out.append(dict(name='residual:%d' % n, fn='residual', cfg=dict(n=n)))
        out.append(dict(name='initial:%d' % n, fn='initial', cfg=dict(n=n)))
    out.append(dict(name='history:2', fn='history', cfg=dict(n=2, k=3, ways=['dense', 'csc+inv', 'functions'])))
    out.append(dict(name='history:1', fn='history', cfg=dict(n=1, k=2, ways=WAYS)))
    if tier == 'thorough':
        for how in ('csc', 'dense', 'csr+inv'):
            out.append(dict(name='sparsity:%s:3' % how, fn='sparsity', cfg=dict(n=3, how=how), max_paths=20000))
            out.append(dict(name='mapped:%s:4' % how, fn='mapped', cfg=dict(n=4, how=how), optional=True))
        for how in ('dense+inv', 'csr+inv'):
            out.append(dict(name='pair:%s:3' % how, fn='pair', cfg=dict(n=3, how=how), optional=True))
            out.append(dict(name='derivs:%s:4' % how, fn='derivs', cfg=dict(n=4, how=how)))
        out.append(dict(name='history:4', fn='history', cfg=dict(n=2, k=4, ways=['dense', 'csc+inv', 'functions']),
                        max_paths=20000))
    return out
