"""C22: sparse products and solvers have the right values and derivatives."""
import numpy as np
import scipy.sparse as sps
import scipy.sparse.linalg as spla
import autograd
import autograd.numpy as anp
from autograd import make_jvp
from paragami import autograd_supplement_lib as lib

META = {
    'bounds': 'matrices of 1-3 rows and columns, every entry, with any zero pattern up to 2x2; CSC, CSR, COO and dense '
              'matrices; vector arguments and matrix arguments with 1-3 columns; solvers given by any matrix, by a '
              'dense solve and by scipy.sparse.linalg.factorized; derivatives of orders 1 and 2 in every combination '
              'of forward and reverse mode (order 3 for vectors), inside linear and nonlinear functions',
    'outside': 'larger matrices; sparse arguments',
    'assumptions': ['exact real arithmetic', 'numpy.linalg.solve and scipy.sparse.linalg.factorized are exact',
                    'the two given solvers belong to a matrix and its transpose'],
}

FMT = {'csc': sps.csc_matrix, 'csr': sps.csr_matrix, 'coo': sps.coo_matrix, 'dense': lambda a: a,
       'csr_array': sps.csr_array}


def matrix(h, shape, zeros):
    a = h.reals('a', shape, -2.0, 2.0)
    if zeros:
        for i in range(shape[0]):
            for j in range(shape[1]):
                if bool(h.bool('z%d%d' % (i, j))):
                    a[i, j] = 0.0
    return a


def pick(h, mults, mats, t):
    return mults[t], mats[t]


def product(h, r, c, fmt, zeros=False):
    a = matrix(h, (r, c), zeros)
    zm, ztm = lib.get_sparse_product(FMT[fmt](a.copy()))
    for f, M, nm in ((zm, a, 'product'), (ztm, a.T, 'transposed product')):
        m, n = M.shape
        b = h.reals('b' + nm[0], (n,))
        out = f(b)
        h.check(np.shape(out) == (m,), nm + ': a vector gives a vector')
        h.eq(out, np.dot(M, b), nm + ': vector')
        for k in (1, 2):
            B = h.reals('B%d%s' % (k, nm[0]), (n, k))
            out = f(B)
            h.check(np.shape(out) == (m, k), nm + ': shape')
            h.eq(out, np.dot(M, B), nm + ': matrix')
        h.raises(lambda: f(np.ones((n, 1, 1))), nm + ': three dimensions')
        h.raises(lambda: f(np.ones((1, n, 1))), nm + ': three dimensions')
        h.raises(lambda: f(np.ones((n, n, n))), nm + ': three dimensions')
        if n == 1:
            s = h.real('s' + nm[0])
            h.eq(f(s), M[:, 0] * s, nm + ': scalar')
    # the second pair of functions does not disturb the first
    zm2, _ = lib.get_sparse_product(FMT[fmt](2.0 * a))
    x = h.reals('x', (c,))
    h.eq(zm2(x), 2.0 * np.dot(a, x), 'another matrix')
    h.eq(zm(x), np.dot(a, x), 'first matrix after building another')


def check_linear(h, f, M, shape, tag, order3=False):
    """every derivative of f, the linear map M, at any point"""
    m, n = M.shape
    k = shape[1:]
    oshape = (m,) + k
    x = h.reals('x' + tag, shape)
    v = h.reals('v' + tag, shape)
    u = h.reals('u' + tag, oshape)
    h.eq(make_jvp(f)(x)(v)[1], np.dot(M, v), tag + ': forward')
    h.eq(autograd.make_vjp(f)(x)[0](u), np.dot(M.T, u), tag + ': reverse')
    J = autograd.jacobian(f)(x)
    h.check(np.shape(J) == oshape + shape, tag + ': Jacobian shape')
    want = np.array([[M[i, j] if p == q else 0.0 for j in range(n) for q in range(int(np.prod(k)))]
                     for i in range(m) for p in range(int(np.prod(k)))], dtype=object)
    h.eq(np.reshape(J, (-1, n * int(np.prod(k)))), want, tag + ': Jacobian')
    # nonlinear functions of the product, first and second order
    w = h.reals('w' + tag, oshape)
    g = lambda z: anp.sum(w * f(z) ** 2) + anp.sum(f(z * z) * w)

    def egrad(z):
        return 2.0 * np.dot(M.T, w * np.dot(M, z)) + 2.0 * z * np.dot(M.T, w)

    def ehvp(z):
        return 2.0 * np.dot(M.T, w * np.dot(M, z)) + 2.0 * z * np.dot(M.T, w)
    h.eq(autograd.grad(g)(x), egrad(x), tag + ': gradient')
    h.eq(make_jvp(g)(x)(v)[1], np.sum(egrad(x) * v), tag + ': forward of a square')
    h.eq(make_jvp(autograd.grad(g))(x)(v)[1], ehvp(v), tag + ': forward over reverse')
    h.eq(autograd.grad(lambda z: make_jvp(g)(z)(v)[1])(x), ehvp(v), tag + ': reverse over forward')
    h.eq(make_jvp(lambda z: make_jvp(g)(z)(v)[1])(x)(v)[1], np.sum(ehvp(v) * v), tag + ': forward over forward')
    h.eq(autograd.grad(lambda z: anp.sum(autograd.grad(g)(z) * v))(x), ehvp(v), tag + ': reverse over reverse')
    if order3:
        g3 = lambda z: anp.sum(w * f(z) ** 3)
        H = lambda z: 6.0 * np.dot(M.T, (w * np.dot(M, z))[:, None] * M)
        h.eq(autograd.hessian(g3)(x), H(x), tag + ': Hessian')
        T = make_jvp(autograd.hessian(g3))(x)(v)[1]
        h.eq(T, 6.0 * np.dot(M.T, (w * np.dot(M, v))[:, None] * M), tag + ': third derivative')


def product_derivs(h, r, c, fmt, cols, which, zeros=False):
    a = matrix(h, (r, c), zeros)
    f = lib.get_sparse_product(FMT[fmt](a.copy()))[which]
    M = a.T if which else a
    shape = (M.shape[1],) + ((cols,) if cols else ())
    check_linear(h, f, M, shape, 'd', order3=not cols)


def chained(h, r, c, fmt):
    """compositions of the two, as in z' z b"""
    a = matrix(h, (r, c), False)
    zm, ztm = lib.get_sparse_product(FMT[fmt](a.copy()))
    check_linear(h, lambda b: ztm(zm(b)), np.dot(a.T, a), (c,), 'zz')
    check_linear(h, lambda b: zm(ztm(b)), np.dot(a, a.T), (r,), 'ww')


def bad(h, fmt):
    h.raises(lambda: lib.get_sparse_product(np.ones(3)), 'vector as a matrix')
    h.raises(lambda: lib.get_sparse_product(np.ones((2, 2, 2))), 'three dimensional array as a matrix')
    h.raises(lambda: lib.get_sparse_product(np.array(h.real('s'))), 'scalar as a matrix')
    a = h.reals('a', (2, 3))
    zm, ztm = lib.get_sparse_product(FMT[fmt](a))
    h.raises(lambda: zm(h.reals('b', (2,))), 'wrong length')
    h.raises(lambda: ztm(h.reals('c', (3,))), 'wrong length')
    h.raises(lambda: zm(h.reals('d', (2, 3))), 'wrong number of rows')
    h.raises(lambda: ztm(h.reals('e', (3, 2))), 'wrong number of rows')
    for shape in ((3, 1, 1), (1, 3, 1), (3, 3, 1), (2, 3, 2), (1, 1, 3, 1)):
        h.raises(lambda: zm(np.zeros(shape)), 'more than two dimensions')
    for shape in ((2, 1, 1), (1, 2, 1), (2, 2, 1), (3, 2, 3), (1, 1, 2, 1)):
        h.raises(lambda: ztm(np.zeros(shape)), 'more than two dimensions')


def det(a):
    n = a.shape[0]
    if n == 1:
        return a[0, 0]
    t = 0.0
    for i in range(n):
        t = t + (-1.0) ** i * a[0, i] * det(np.delete(np.delete(a, 0, 0), i, 1))
    return t


def solvers(h, n, how):
    """(z_solve, zt_solve, matrix of z_solve)"""
    if how == 'any':
        M = h.reals('m', (n, n))
        return (lambda b: np.dot(M, b)), (lambda b: np.dot(M.T, b)), M
    a = h.reals('a', (n, n), -0.8, 0.8)
    if how == 'tri':
        a = np.tril(a)
    a = a + 2.0 * np.eye(n)
    d = det(a)
    h.assume(h.Not(h.eqc(d, 0.0)) if h.symbolic else abs(d) > 0.05)
    M = np.linalg.inv(a)
    if how == 'factorized':
        za, zt = sps.csc_matrix(a), sps.csc_matrix(a.T)
        return spla.factorized(za), spla.factorized(zt), M
    return (lambda b: np.linalg.solve(a, b)), (lambda b: np.linalg.solve(a.T, b)), M


def solver(h, n, how):
    zs, zts, M = solvers(h, n, how)
    calls = []

    def z1(b):
        calls.append('z')
        return zs(b)

    def z2(b):
        calls.append('t')
        return zts(b)
    fs = lib.get_differentiable_solver(z1, z2)
    h.check(len(fs) == 2, 'two functions')
    b = h.reals('b', (n,))
    h.check(calls == [], 'building the functions does not solve')
    h.eq(fs[0](b), np.dot(M, b), 'solver')
    h.check(calls == ['z'], 'one solve')
    h.eq(fs[1](b), np.dot(M.T, b), 'transposed solver')
    h.check(calls == ['z', 't'], 'one solve')
    if how != 'factorized':
        B = h.reals('B', (n, 2))
        h.eq(fs[0](B), np.dot(M, B), 'solver, matrix')
        h.eq(fs[1](B), np.dot(M.T, B), 'transposed solver, matrix')


def solver_derivs(h, n, how, which, cols=None):
    zs, zts, M = solvers(h, n, how)
    f = lib.get_differentiable_solver(zs, zts)[which]
    M = M.T if which else M
    check_linear(h, f, M, (n,) + ((cols,) if cols else ()), 's', order3=not cols and n < 3)


def tasks(tier):
    out = []
    th = tier == 'thorough'

    def t(_n, _f, _o=False, **cfg):
        out.append(dict(name=_n, fn=_f, cfg=cfg, optional=_o))
    for fmt in FMT:
        t('product:2x3:%s' % fmt, 'product', r=2, c=3, fmt=fmt)
        t('bad:%s' % fmt, 'bad', fmt=fmt)
        for w in (0, 1):
            t('derivs:2x3:%s:%d' % (fmt, w), 'product_derivs', r=2, c=3, fmt=fmt, cols=0, which=w)
            t('derivs:2x2:%s:%d:mat' % (fmt, w), 'product_derivs', r=2, c=2, fmt=fmt, cols=2, which=w)
        t('chained:%s' % fmt, 'chained', r=2, c=1, fmt=fmt)
    for r, c in ((1, 1), (1, 2), (3, 1), (3, 3)):
        t('product:%dx%d' % (r, c), 'product', r=r, c=c, fmt='csc')
        for w in (0, 1):
            t('derivs:%dx%d:%d' % (r, c, w), 'product_derivs', r=r, c=c, fmt='csc', cols=0, which=w)
    for w in (0, 1):
        t('derivs:2x1:%d:mat1' % w, 'product_derivs', r=2, c=1, fmt='csc', cols=1, which=w)
        t('derivs:1x2:%d:mat3' % w, 'product_derivs', r=1, c=2, fmt='csr', cols=3, which=w)
    t('product:2x2:zeros', 'product', r=2, c=2, fmt='csc', zeros=True)
    for w in (0, 1):
        t('derivs:2x2:zeros:%d' % w, 'product_derivs', r=2, c=2, fmt='csc', cols=0, which=w, zeros=True)
    for how in ('any', 'full', 'tri', 'factorized'):
        for n in (1, 2) + ((3,) if how in ('any', 'tri') or th else ()):
            t('solver:%d:%s' % (n, how), 'solver', n=n, how=how)
            for w in (0, 1):
                t('solver_derivs:%d:%s:%d' % (n, how, w), 'solver_derivs', n=n, how=how, which=w)
                if n == 2 and how in ('any', 'tri'):
                    t('solver_derivs:%d:%s:%d:mat' % (n, how, w), 'solver_derivs', n=n, how=how, which=w, cols=2)
    if th:
        for r, c in ((4, 2), (2, 4), (3, 4), (4, 4)):
            t('product:%dx%d' % (r, c), 'product', r=r, c=c, fmt='csc')
            for w in (0, 1):
                t('derivs:%dx%d:%d' % (r, c, w), 'product_derivs', r=r, c=c, fmt='csc', cols=0, which=w, _o=True)
                t('derivs:%dx%d:%d:mat' % (r, c, w), 'product_derivs', r=r, c=c, fmt='csr', cols=2, which=w, _o=True)
        t('product:3x2:zeros', 'product', r=3, c=2, fmt='csc', zeros=True)
        for w in (0, 1):
            t('derivs:2x3:zeros:%d' % w, 'product_derivs', r=2, c=3, fmt='csr', cols=0, which=w, zeros=True)
        t('chained:3x2', 'chained', r=3, c=2, fmt='csc', _o=True)
    return out
