"""C18: sparse Hessian square root operators square to the Hessian."""
import itertools
import numpy as np
import scipy.sparse as sps
import sksparse.cholmod
import autograd
import autograd.numpy as anp
from autograd import make_jvp
from paragami import sparse_preconditioners_lib as spl
from paragami.optimization_lib import PreconditionedFunction

META = {
    'bounds': 'positive definite matrices of size 1-3 (thorough: 4), full, diagonal or with a hub at every row, every '
              'value of their entries, every fill-reducing permutation, all vectors and directions',
    'outside': 'larger matrices, matrices that are not positive definite or not symmetric',
    'assumptions': ['exact real arithmetic',
                    'sksparse.cholmod.cholesky returns P and L with P H P^T = L L^T (any P)',
                    'scipy.sparse.linalg.factorized returns a solver for its argument',
                    'replays on the real code use the permutation CHOLMOD chooses for the matrix and then the '
                    'permutation of the path, given to CHOLMOD as a natural ordering of the permuted matrix'],
}


def pattern(n, kind):
    """positions that may be nonzero"""
    if kind == 'full':
        return {(i, j) for i in range(n) for j in range(n)}
    if kind == 'diag':
        return {(i, i) for i in range(n)}
    k = int(kind[3:])
    return {(i, j) for i in range(n) for j in range(n) if i == j or i == k or j == k}


def hessian(h, n, kind, p):
    """(H, L): H[p][:, p] = L L^T with L lower triangular and the entries of L arbitrary"""
    pat = pattern(n, kind)
    # symbolic Cholesky: fill-in of the permuted pattern
    S = {(i, j) for i in range(n) for j in range(i + 1) if (p[i], p[j]) in pat}
    fill = set()
    for j in range(n):
        rows = [i for i in range(j, n) if (i, j) in S]
        for a in rows:
            for b in rows:
                if b <= a and b > j and (a, b) not in S:
                    fill.add((a, b))
                    S.add((a, b))
    L = h.arr([h.const(0.0)] * (n * n)).reshape((n, n))
    for i in range(n):
        for j in range(i + 1):
            if (i, j) in S and (i, j) not in fill:
                L[i, j] = h.real('l%d%d' % (i, j), 0.5, 1.5) if i == j else h.real('l%d%d' % (i, j), -0.7, 0.7)
                if i == j:
                    h.assume(L[i, j] > 0)
            elif (i, j) in fill:
                # the entry of the matrix is zero, so L has this value
                t = 0.0
                for k in range(j):
                    t = t + L[i, k] * L[j, k]
                L[i, j] = -t / L[j, j]
    M = np.dot(L, L.T)
    for i in range(n):
        for j in range(n):
            if (p[i], p[j]) not in pat:
                M[i, j] = h.const(0.0)
    H = h.arr([h.const(0.0)] * (n * n)).reshape((n, n))
    for i in range(n):
        for j in range(n):
            H[p[i], p[j]] = M[i, j]
    return H, L


def zero(h, H, n, kind):
    """plain zeros outside the pattern, so that they are not stored"""
    pat = pattern(n, kind)
    if h.symbolic:
        for i in range(n):
            for j in range(n):
                if (i, j) not in pat:
                    H[i, j] = 0.0
    return H


class Forced:
    """CHOLMOD's own factor of the permuted matrix, presented with that fill-reducing permutation"""

    def __init__(self, A, p, **kw):
        import sksparse.cholmod
        self.p = np.array(p)
        self.f = ORIGINAL(sps.csc_matrix(sps.csc_matrix(A)[self.p][:, self.p]), ordering_method='natural')
        assert list(self.f.P()) == list(range(len(p)))

    def P(self):
        return self.p.astype('int32')

    def apply_P(self, b):
        return b[self.p]

    def apply_Pt(self, b):
        return b[np.argsort(self.p)]

    def solve_A(self, b):
        return self.apply_Pt(self.f.solve_A(self.apply_P(b)))
    __call__ = solve_A

    def inv(self):
        return sps.csc_matrix(self.solve_A(np.eye(len(self.p))))

    def __getattr__(self, name):
        return getattr(self.f, name)


ORIGINAL = sksparse.cholmod.cholesky


def both(fn):
    """replays run with the permutation CHOLMOD chooses and, since any is possible, with the one of the path"""
    def run(h, **cfg):
        fn(h, **cfg)
        if h.symbolic or h.failures:
            return
        n = cfg['n']
        p = h.choice('perm', [list(p) for p in itertools.permutations(range(n))])
        stand_in = lambda A, *a, **k: Forced(A, p) if sps.issparse(A) else ORIGINAL(A, *a, **k)
        saved = [(m, m.cholesky) for m in (spl, sksparse.cholmod) if hasattr(m, 'cholesky')]
        for m, _ in saved:
            m.cholesky = stand_in
        try:
            fn(h, **cfg)
        finally:
            for m, f in saved:
                m.cholesky = f
    run.__name__ = fn.__name__
    return run


def start(h, n, kind, fmt):
    perms = [list(p) for p in itertools.permutations(range(n))]
    p = h.choice('perm', perms)
    H, L = hessian(h, n, kind, p)
    H = zero(h, H, n, kind)
    h.reg_chol(H, p, L)
    m = {'csc': sps.csc_matrix, 'csr': sps.csr_matrix, 'coo': sps.coo_matrix}[fmt](H)
    return H, m


TOL = dict(rtol=1e-5, atol=1e-6)


def columns(f, n):
    return np.array([f(np.eye(n)[i]) for i in range(n)]).T


@both
def roots(h, n, kind, fmt='csc'):
    H, m = start(h, n, kind, fmt)
    sq, inv = spl.get_sym_matrix_inv_sqrt_funcs(m)
    S, R = columns(sq, n), columns(inv, n)
    h.eq(np.dot(S.T, S), H, 'the transpose composed with the operator is the Hessian', **TOL)
    h.eq(np.dot(S, R), np.eye(n), 'mutually inverse', **TOL)
    h.eq(np.dot(R, S), np.eye(n), 'mutually inverse', **TOL)
    x, y, s = h.reals('x', (n,)), h.reals('y', (n,)), h.real('s')
    h.eq(sq(x), np.dot(S, x), 'linear', **TOL)
    h.eq(inv(x), np.dot(R, x), 'linear', **TOL)
    h.eq(inv(sq(y)), y, 'inverse applied to the square root', **TOL)
    h.eq(sq(inv(y)), y, 'square root applied to the inverse', **TOL)
    h.check(np.shape(sq(x)) == (n,) and np.shape(inv(x)) == (n,), 'vectors stay vectors')


@both
def derivs(h, n, kind):
    H, m = start(h, n, kind, 'csc')
    sq, inv = spl.get_sym_matrix_inv_sqrt_funcs(m)
    S, R = columns(sq, n), columns(inv, n)
    x, v = h.reals('x', (n,)), h.reals('v', (n,))
    for f, M, nm in ((sq, S, 'square root'), (inv, R, 'inverse')):
        h.eq(autograd.jacobian(f)(x), M, nm + ': reverse', **TOL)
        h.eq(make_jvp(f)(x)(v)[1], np.dot(M, v), nm + ': forward', **TOL)
        g = lambda z: anp.sum(f(z) ** 2)
        MM = np.dot(M.T, M)
        h.eq(autograd.grad(g)(x), 2.0 * np.dot(MM, x), nm + ': gradient of the square', **TOL)
        h.eq(autograd.hessian(g)(x), 2.0 * MM, nm + ': second derivative', **TOL)
        h.eq(make_jvp(autograd.grad(g))(x)(v)[1], 2.0 * np.dot(MM, v), nm + ': forward over reverse', **TOL)


@both
def precond(h, n, kind):
    """used as a preconditioner they make the Hessian the identity"""
    H, m = start(h, n, kind, 'csc')
    sq, inv = spl.get_sym_matrix_inv_sqrt_funcs(m)
    b = h.reals('b', (n,))
    f = lambda x: 0.5 * anp.dot(x, anp.dot(H, x)) + anp.dot(b, x)
    pf = PreconditionedFunction(f)
    pf.set_preconditioner_functions(inv, sq)
    x = h.reals('x', (n,))
    h.eq(autograd.hessian(pf)(x), np.eye(n), 'identity Hessian', **TOL)
    h.eq(pf.precondition(pf.unprecondition(x)), x, 'inverse pair', **TOL)
    g = np.array([sum(H[i, j] * inv(x)[j] for j in range(n)) + b[i] for i in range(n)])
    R = columns(inv, n)
    h.eq(autograd.grad(pf)(x), np.dot(R.T, g), 'gradient', **TOL)


def dense(h, n):
    H = h.tri('h', n)
    for i in range(n):
        H[i, i] = H[i, i] + 0.0
    h.raises(lambda: spl.get_sym_matrix_inv_sqrt_funcs(H), 'dense Hessian')
    h.raises(lambda: spl.get_sym_matrix_inv_sqrt_funcs(np.eye(n)), 'dense identity')
    h.raises(lambda: spl.get_sym_matrix_inv_sqrt_funcs(np.eye(n).tolist()), 'list')


def tasks(tier):
    out = []
    sizes = [(1, 'full'), (2, 'full'), (2, 'diag'), (3, 'diag'), (3, 'hub0'), (3, 'hub1'), (3, 'hub2'), (3, 'full')]
    for n, kind in sizes:
        out.append(dict(name='roots:%d:%s' % (n, kind), fn='roots', cfg=dict(n=n, kind=kind)))
        out.append(dict(name='derivs:%d:%s' % (n, kind), fn='derivs', cfg=dict(n=n, kind=kind)))
        out.append(dict(name='precond:%d:%s' % (n, kind), fn='precond', cfg=dict(n=n, kind=kind)))
    for fmt in ('csr', 'coo'):
        out.append(dict(name='roots:2:%s' % fmt, fn='roots', cfg=dict(n=2, kind='full', fmt=fmt)))
    for n in (1, 2, 3):
        out.append(dict(name='dense:%d' % n, fn='dense', cfg=dict(n=n)))
    if tier == 'thorough':
        for kind in ('hub0', 'hub1', 'hub2', 'hub3', 'full', 'diag'):
            for fn in ('roots', 'derivs', 'precond'):
                out.append(dict(name='%s:4:%s' % (fn, kind), fn=fn, cfg=dict(n=4, kind=kind), optional=kind == 'full'))
    return out
