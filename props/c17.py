"""C17: Hessian preconditioners are the inverse square root of the clipped Hessian."""
import numpy as np
import scipy.sparse as sps
import autograd
import autograd.numpy as anp
import paragami
from paragami.optimization_lib import PreconditionedFunction, truncate_eigenvalues, transform_eigenspace

META = {
    'bounds': 'symmetric matrices of size 1-3, written as U diag(w) U^T with any rotation U (Cayley / Givens '
              'parametrisation) and any eigenvalues w, with no, one or two limits; vectors of eigenvalues of length '
              '1-4; eigenspaces of dimension 0-3 in up to 4 dimensions with any new eigenvalues',
    'outside': 'larger matrices; integer arrays of eigenvalues (C30); eigenvectors that are not orthonormal; '
               'minimum above maximum; asymmetric matrices',
    'assumptions': ['exact real arithmetic', 'numpy.linalg.eigh returns the eigendecomposition of its argument '
                    '(the harness supplies it; an argument that is not the given matrix is not accepted)'],
}


def rotation(h, n, p='t'):
    """any rotation (up to a measure-zero set), exactly orthogonal"""
    if n == 1:
        return h.arr([h.const(1.0)]).reshape((1, 1))
    U = None
    pairs = [(i, j) for i in range(n) for j in range(i + 1, n)]
    for i, j in pairs:
        t = h.real('%s%d%d' % (p, i, j), -1.5, 1.5)
        c, s = (1.0 - t * t) / (1.0 + t * t), 2.0 * t / (1.0 + t * t)
        G = h.arr([h.const(float(a == b)) for a in range(n) for b in range(n)]).reshape((n, n))
        G[i, i], G[j, j], G[i, j], G[j, i] = c, c, -s, s
        U = G if U is None else np.dot(U, G)
    return U


def givens(h, n, p='t'):
    """rotations in n >= 3 dimensions with two free angles"""
    U = None
    for i, j in [(0, 1), (1, 2)]:
        t = h.real('%s%d%d' % (p, i, j), -1.5, 1.5)
        c, s = (1.0 - t * t) / (1.0 + t * t), 2.0 * t / (1.0 + t * t)
        G = h.arr([h.const(float(a == b)) for a in range(n) for b in range(n)]).reshape((n, n))
        G[i, i], G[j, j], G[i, j], G[j, i] = c, c, -s, s
        U = G if U is None else np.dot(U, G)
    return U


def compose(U, w):
    return np.dot(U * np.asarray(w), U.T)


def limits(h, which):
    lo = hi = None
    if 'min' in which:
        lo = h.real('ev_min', 0.2, 1.0)
        h.assume(lo > 0)
    if 'max' in which:
        hi = h.real('ev_max', 1.0, 2.5)
        h.assume(hi > 0)
    if lo is not None and hi is not None:
        h.assume(lo < hi)
    return lo, hi


def clip1(h, v, lo, hi):
    """branches, so that each path has one outcome"""
    if lo is not None and bool(v <= lo):
        return lo
    if hi is not None and bool(v >= hi):
        return hi
    return v


def clear(h, w, lo, hi):
    """in floating point, stay away from the limits"""
    if not h.symbolic:
        for v in w:
            for b in (lo, hi):
                if b is not None:
                    h.assume(abs(v - b) > 1e-6)


def eigen(h, n, which, rot):
    U = (rotation if rot == 'full' else givens)(h, n)
    w = h.reals('w', (n,), -1.0 if 'min' in which else 0.2, 3.0)
    if 'min' not in which:
        for v in w:
            h.assume(v > 0)
    for i in range(n - 1):
        h.assume(w[i] < w[i + 1])
    lo, hi = limits(h, which)
    clear(h, w, lo, hi)
    H = compose(U, w)
    h.reg_eigh(H, w, U)
    wc = h.arr([clip1(h, v, lo, hi) for v in w])
    return U, w, wc, H, lo, hi


def verify(h, pf, n, U, wc, full):
    P = pf.get_preconditioner(n)
    Q = pf.get_preconditioner_inv(n)
    s = np.sqrt(wc)
    tol = dict(rtol=1e-5, atol=1e-6)
    h.eq(P, P.T, 'symmetric', **tol)
    h.eq(np.dot(P, U), U / s, 'preconditioner: same eigenvectors, eigenvalues 1/sqrt(w)', **tol)
    h.eq(np.dot(Q, U), U * s, 'inverse: same eigenvectors, eigenvalues sqrt(w)', **tol)
    if full:
        Hc = compose(U, wc)
        h.eq(np.dot(P, Q), np.eye(n), 'mutually inverse', **tol)
        h.eq(np.dot(Q, Q), Hc, 'inverse squares to the clipped Hessian', **tol)
        h.eq(np.dot(np.dot(P, P), Hc), np.eye(n), 'squares to the inverse of the clipped Hessian', **tol)
    x = h.reals('x', (n,))
    want = np.dot(U, np.dot(U.T, x) / s)
    h.eq(pf.unprecondition(x), want, 'unprecondition', **tol)
    h.eq(pf.precondition(want), x, 'precondition', **tol)


def given(h, n, which, rot='full'):
    U, w, wc, H, lo, hi = eigen(h, n, which, rot)
    calls = []
    pf = PreconditionedFunction(lambda x: calls.append(x))
    before = np.array(H)
    pf.set_preconditioner_with_hessian(hessian=H, ev_min=lo, ev_max=hi)
    h.check(calls == [], 'function not evaluated')
    h.eq(H, before, 'given Hessian unchanged')
    verify(h, pf, n, U, wc, n < 3)


def evaluated(h, n, which):
    """Hessian of the function at the point, not somewhere else"""
    U, w, wc, H, lo, hi = eigen(h, n, which, 'full')
    x = h.reals('p', (n,), -1, 1)
    t = h.reals('c', (n,), -1, 1)
    g = h.reals('g', (n,), -1, 1)
    q = np.array(H)
    for i in range(n):
        q[i, i] = q[i, i] - 6.0 * t[i] * x[i]

    def f(z):
        return anp.dot(g, z) + 0.5 * anp.dot(z, anp.dot(q, z)) + anp.sum(t * z ** 3)
    pf = PreconditionedFunction(f)
    # a preconditioner already set does not change what is the original Hessian
    if bool(h.bool('before')):
        pf.set_preconditioner_matrix(np.array(h.reals('m', (n, n))), np.array(h.reals('mi', (n, n))))
    if bool(h.bool('kw')):
        pf.set_preconditioner_with_hessian(x=x, ev_min=lo, ev_max=hi)
    else:
        pf.set_preconditioner_with_hessian(x, None, lo, hi)
    P = pf.get_preconditioner(n)
    s = np.sqrt(wc)
    h.eq(np.dot(P, U), U / s, 'inverse square root of the Hessian at the point', rtol=1e-5, atol=1e-6)
    h.eq(np.dot(pf.get_preconditioner_inv(n), U), U * s, 'its inverse', rtol=1e-5, atol=1e-6)
    if lo is None and hi is None and n == 1:
        xc = pf.precondition(x)
        h.eq(autograd.hessian(pf)(xc), np.eye(n), 'preconditioned Hessian is the identity', rtol=1e-4, atol=1e-5)


def moved(h, again):
    """the point is the same array with new contents: the Hessian is taken where the point is now"""
    c, q = h.real('c', 0.3, 1.0), h.real('q', 0.3, 1.0)
    h.assume(c > 0)
    h.assume(q > 0)
    ts = [h.real('t%d' % i, 0.2, 2.0) for i in range(again + 1)]
    for t in ts:
        h.assume(t > 0)
        h.reg_eigh(h.arr([c * t + q]).reshape((1, 1)), h.arr([c * t + q]), h.arr([h.const(1.0)]).reshape((1, 1)))
    pf = PreconditionedFunction(lambda x: anp.sum(c * x ** 3 / 6.0 + q * x ** 2 / 2.0))
    x = h.arr([ts[0]])
    for t in ts:
        x[0] = t
        pf.set_preconditioner_with_hessian(x=x)
        s = np.sqrt(h.arr([c * t + q]))[0]
        h.eq(pf.get_preconditioner(1)[0, 0], 1.0 / s, 'preconditioner at the present point')
        h.eq(pf.get_preconditioner_inv(1)[0, 0], s, 'its inverse')
        h.eq(pf.precondition(x)[0], t * s, 'the point in the new coordinates')


def arguments(h, n):
    f = lambda z: anp.sum(z ** 2)
    pf = PreconditionedFunction(f)
    x = h.reals('x', (n,))
    H = np.diag(np.arange(1.0, n + 1.0))
    a = h.reals('a', (n, n))
    pf.set_preconditioner_matrix(a, a)
    h.raises(lambda: pf.set_preconditioner_with_hessian(), 'neither')
    h.raises(lambda: pf.set_preconditioner_with_hessian(ev_min=0.1), 'neither with a limit')
    h.raises(lambda: pf.set_preconditioner_with_hessian(x=x, hessian=H), 'both')
    h.raises(lambda: pf.set_preconditioner_with_hessian(x, H), 'both by position')
    h.raises(lambda: pf.set_preconditioner_with_hessian(x=np.zeros(n), hessian=H), 'both, zero point')
    h.raises(lambda: pf.set_preconditioner_with_hessian(hessian=sps.csc_matrix(H)), 'sparse Hessian')
    h.eq(pf.get_preconditioner(n), a, 'preconditioner left alone')
    pf.set_preconditioner_with_hessian(x=np.zeros(n))
    h.eq(pf.get_preconditioner(n), np.eye(n) / np.sqrt(2.0), 'point at zero is a point')


def truncate(h, n, which):
    w = h.reals('w', (n,), -2, 3)
    lo, hi = limits(h, which)
    if lo is not None:
        lo = lo - 1.0       # limits of any sign
    before = list(w)
    kw = {}
    if bool(h.bool('explicit')) or lo is not None:
        kw['ev_min'] = lo
    if bool(h.bool('explicit2')) or hi is not None:
        kw['ev_max'] = hi
    r = truncate_eigenvalues(w, **kw)
    h.check(r is not w, 'new array')
    h.check(all(a is b for a, b in zip(list(w), before)) if h.symbolic else list(w) == before, 'input unchanged')
    h.check(np.shape(r) == (n,), 'shape')
    for i in range(n):
        h.eq(r[i], clip1(h, w[i], lo, hi), 'only eigenvalues beyond the limits change')


def truncate_bad(h):
    w = h.reals('w', (2,))
    h.raises(lambda: truncate_eigenvalues(w, ev_min=1j), 'complex minimum')
    h.raises(lambda: truncate_eigenvalues(w, ev_max=1.0 + 2j), 'complex maximum')
    h.raises(lambda: truncate_eigenvalues(w, ev_min=0.0, ev_max=2j), 'complex maximum')


def zero_limits(h):
    """limits equal to zero are limits"""
    w = h.reals('w', (3,))
    r = truncate_eigenvalues(w, ev_min=0.0)
    for i in range(3):
        h.eq(r[i], 0.0 if bool(w[i] <= 0) else w[i], 'zero minimum')
    r = truncate_eigenvalues(w, ev_max=0)
    for i in range(3):
        h.eq(r[i], 0.0 if bool(w[i] >= 0) else w[i], 'zero maximum')


def eigenspace(h, n, cols, rot='full'):
    U = (rotation if rot == 'full' else givens)(h, n)
    K = len(cols)
    E = U[:, cols]
    w = h.reals('w', (K,))
    new = h.reals('new', (K,))
    seen = []

    def tr(v):
        seen.append(v)
        return new
    e0, w0 = np.array(E), np.array(w)
    mult = transform_eigenspace(E, w, tr)
    h.check(len(seen) == 1, 'the function is applied once')
    h.eq(seen[0], w, 'to the eigenvalues')
    for j, c in enumerate(cols):
        h.eq(mult(E[:, j]), new[j] * E[:, j], 'given direction scaled by its new eigenvalue')
    for c in range(n):
        if c not in cols:
            h.eq(mult(U[:, c]), U[:, c], 'orthogonal direction unchanged')
    x, y, s = h.reals('x', (n,)), h.reals('y', (n,)), h.real('s')
    h.eq(mult(x + s * y), mult(x) + s * mult(y), 'linear')
    h.eq(mult(x), h.arr([x[i] + sum(E[i, j] * (new[j] - 1.0) * sum(E[k, j] * x[k] for k in range(n))
                                    for j in range(K)) for i in range(n)]), 'on any vector')
    h.eq(E, e0, 'eigenvectors unchanged')
    h.eq(w, w0, 'eigenvalues unchanged')


def eigenspace_bad(h):
    U = h.reals('u', (3, 2))
    w = h.reals('w', (2,))
    ident = lambda v: v
    h.raises(lambda: transform_eigenspace(U, w[:1], ident), 'too few eigenvalues')
    h.raises(lambda: transform_eigenspace(U, h.reals('z', (3,)), ident), 'one eigenvalue per row')
    h.raises(lambda: transform_eigenspace(U[:, 0], w, ident), 'vector')
    h.raises(lambda: transform_eigenspace(U, w.reshape((2, 1)), ident), 'eigenvalues not a vector')
    h.raises(lambda: transform_eigenspace(U.reshape((1, 3, 2)), w, ident), 'three-dimensional')
    h.raises(lambda: transform_eigenspace(U.reshape((3, 2, 1)), w, ident), 'three-dimensional, matching')
    x = h.reals('x', (3,))
    E = np.eye(3)[:, :2]
    h.eq(transform_eigenspace(E, w, ident)(x), h.arr([w[0] * x[0], w[1] * x[1], x[2]]), 'identity transform')


def tasks(tier):
    out = []
    for which in ('', 'min', 'max', 'minmax'):
        nm = which or 'none'
        for n in (1, 2):
            out.append(dict(name='given:%d:%s' % (n, nm), fn='given', cfg=dict(n=n, which=which)))
            out.append(dict(name='evaluated:%d:%s' % (n, nm), fn='evaluated', cfg=dict(n=n, which=which)))
        out.append(dict(name='given:3:%s' % nm, fn='given', cfg=dict(n=3, which=which, rot='givens')))
        for n in (1, 2, 3):
            out.append(dict(name='truncate:%d:%s' % (n, nm), fn='truncate', cfg=dict(n=n, which=which)))
    for again in (1, 2):
        out.append(dict(name='moved:%d' % again, fn='moved', cfg=dict(again=again)))
    for n in (1, 2, 3):
        out.append(dict(name='arguments:%d' % n, fn='arguments', cfg=dict(n=n)))
    out.append(dict(name='truncate_bad', fn='truncate_bad', cfg={}))
    out.append(dict(name='zero_limits', fn='zero_limits', cfg={}))
    for n, cols in ((1, [0]), (2, [0]), (2, [1]), (2, [1, 0]), (2, [])):
        out.append(dict(name='eigenspace:%d:%s' % (n, cols), fn='eigenspace', cfg=dict(n=n, cols=cols)))
    for n, cols in ((3, [0]), (3, [2, 0]), (3, [0, 1, 2])):
        out.append(dict(name='eigenspace:%d:%s' % (n, cols), fn='eigenspace', cfg=dict(n=n, cols=cols, rot='givens')))
    out.append(dict(name='eigenspace_bad', fn='eigenspace_bad', cfg={}))
    if tier == 'thorough':
        for which in ('', 'min', 'max', 'minmax'):
            nm = which or 'none'
            out.append(dict(name='given:3full:%s' % nm, fn='given', cfg=dict(n=3, which=which), optional=True))
            out.append(dict(name='truncate:4:%s' % nm, fn='truncate', cfg=dict(n=4, which=which)))
        for n, cols in ((3, [1]), (3, [1, 2]), (4, [0, 2]), (4, [3, 1, 0])):
            out.append(dict(name='eigenspace:%d:%s' % (n, cols), fn='eigenspace', cfg=dict(n=n, cols=cols),
                            optional=True))
            out.append(dict(name='eigenspaceg:%d:%s' % (n, cols), fn='eigenspace',
                            cfg=dict(n=n, cols=cols, rot='givens')))
    return out
