"""C21: supplementary forward-mode rules are the true derivatives."""
import numpy as np
import autograd
import autograd.numpy as anp
import autograd.scipy.special as asp
from autograd import make_jvp, make_vjp
import paragami
from paragami import autograd_supplement_lib  # noqa: F401 (registers the rules)

META = {
    'bounds': 'inverse, solve and log determinant of matrices of size 1-3, stacks of 1-2 matrices, 1-3 right-hand '
              'sides, every matrix entry and direction with nonzero determinant; gamma family at every real argument '
              'in (-3, 20) away from the poles, orders 0-3 and every integer order up to 4; derivatives up to order 2',
    'outside': 'larger matrices and stacks; derivatives of order 3 and more',
    'assumptions': ['exact real arithmetic', 'numpy.linalg.inv / solve / det are exact',
                    'gamma, gammaln, psi, polygamma are the true functions with their standard derivative identities, '
                    'rgamma = 1 / gamma'],
}

SAMP = 0.8


def mat(h, name, n, m=1):
    """m invertible n x n matrices"""
    a = h.reals(name, (m, n, n), -SAMP, SAMP)
    for k in range(m):
        for i in range(n):
            a[k, i, i] = a[k, i, i] + 2.0
        if h.symbolic:
            h.assume(h.Not(h.eqc(det(a[k]), 0.0)))
        else:
            h.assume(abs(det(a[k])) > 0.05)
    return a


def det(a):
    n = a.shape[0]
    if n == 1:
        return a[0, 0]
    t = 0.0
    for i in range(n):
        t = t + (-1.0) ** i * a[0, i] * det(np.delete(np.delete(a, 0, 0), i, 1))
    return t


def apply_jac(J, v, shape):
    return np.dot(J, np.reshape(v, (-1,))).reshape(shape)


def shifted(h, x):
    """independent variables equal to x, so that h.jac can differentiate"""
    return x


def plain(h, name, shape, diag):
    """(plain variables, function giving the matrices)"""
    v = h.reals(name, shape, -SAMP, SAMP)
    n = shape[-1]
    e = diag * np.eye(n)
    return v, lambda z: z + e


def guard(h, a):
    for k in np.ndindex(*a.shape[:-2]):
        d = det(a[k])
        if h.symbolic:
            h.assume(h.Not(h.eqc(d, 0.0)))
        else:
            h.assume(abs(d) > 0.05)


def forward(h, f, v, shape, label, dname='d'):
    """make_jvp of f agrees with the true derivative, its value with the value"""
    J = h.jac(f, v)
    d = h.reals(dname, shape, -1.0, 1.0)
    val, jvp = make_jvp(f)(v)(d)
    want = f(v)
    h.check(np.shape(jvp) == np.shape(want), label + ': shape')
    h.eq(val, want, label + ': value')
    h.eq(np.reshape(jvp, (-1,)), np.dot(J, d.reshape((-1,))), label + ': forward derivative', **h.dtol)
    return J, d, jvp


def inverse(h, n, m=None):
    shape = (n, n) if m is None else (m, n, n)
    v, g = plain(h, 'a', shape, 2.0)
    guard(h, g(v))
    forward(h, lambda z: anp.linalg.inv(g(z)), v, shape, 'inv')


def solving(h, n, a_stack, b_kind, arg, k=2):
    """b_kind: vec, mat, stackvec, stackmat"""
    sa = (n, n) if a_stack is None else (a_stack, n, n)
    m = a_stack or 2
    sb = {'vec': (n,), 'mat': (n, k), 'stackvec': (m, n), 'stackmat': (m, n, k)}[b_kind]
    v, g = plain(h, 'a', sa, 2.0)
    guard(h, g(v))
    b = h.reals('b', sb, -1.0, 1.0)
    if arg == 0:
        forward(h, lambda z: anp.linalg.solve(g(z), b), v, sa, 'solve, matrix argument')
    elif arg == 1:
        A = g(v)
        forward(h, lambda z: anp.linalg.solve(A, z), b, sb, 'solve, right-hand side')
    else:
        # both at once
        na = int(np.prod(sa))

        def f(z):
            return anp.linalg.solve(g(anp.reshape(z[:na], sa)), anp.reshape(z[na:], sb))
        w = np.concatenate([v.reshape((-1,)), b.reshape((-1,))])
        forward(h, f, w, w.shape, 'solve, both arguments')


def logdet(h, n, sign):
    """value and derivative of the sign and the log absolute determinant"""
    v, g = plain(h, 'a', (n, n), 2.0)
    if sign < 0:
        g0 = g
        fl = np.eye(n)
        fl[0, 0] = -1.0
        g = lambda z: anp.dot(fl, g0(z))
    guard(h, g(v))
    forward(h, lambda z: anp.linalg.slogdet(g(z))[1], v, (n, n), 'log determinant')
    d2 = h.reals('e', (n, n), -1.0, 1.0)
    s = make_jvp(lambda z: anp.linalg.slogdet(g(z))[0] * 1.0)(v)(d2)
    D = det(g(v))
    h.check(h.Iff(D > 0, s[0] > 0) if h.symbolic else (float(D) > 0) == (float(s[0]) > 0), 'sign')
    h.eq(s[1], 0.0, 'sign does not change')
    # used in a sum with the sign
    both = lambda z: anp.linalg.slogdet(g(z))[1] * anp.linalg.slogdet(g(z))[0] + anp.sum(z ** 2)
    forward(h, both, v, (n, n), 'log determinant in an expression', 'f')


def logdet_stack(h, n, m):
    """stacks are refused in forward mode rather than wrong"""
    v, g = plain(h, 'a', (m, n, n), 2.0)
    guard(h, g(v))
    d = h.reals('d', (m, n, n))
    try:
        val, jvp = make_jvp(lambda z: anp.linalg.slogdet(g(z))[1])(v)(d)
    except ValueError:
        h.check(True, 'refused')
        return
    J = h.jac(lambda z: anp.linalg.slogdet(g(z))[1], v)
    h.eq(np.reshape(jvp, (-1,)), np.dot(J, d.reshape((-1,))), 'stacked log determinant', **h.dtol)


def second(h, what, n):
    """second derivatives: forward over forward, forward over reverse, reverse over forward"""
    v, g = plain(h, 'a', (n, n), 2.0)
    guard(h, g(v))
    b = h.reals('b', (n,), -1.0, 1.0)
    f = {'inv': lambda z: anp.sum(anp.dot(b, anp.linalg.inv(g(z)))),
         'solve': lambda z: anp.dot(b, anp.linalg.solve(g(z), b)),
         'slogdet': lambda z: anp.linalg.slogdet(g(z))[1]}[what]
    d, e = h.reals('d', (n, n), -1.0, 1.0), h.reals('e', (n, n), -1.0, 1.0)
    first = lambda z: make_jvp(f)(z)(d)[1]
    J = h.jac(f, v)
    h.eq(first(v), np.dot(J, d.reshape((-1,)))[0], what + ': forward', **h.dtol)
    G = h.jac(first, v)
    want = np.dot(G, e.reshape((-1,)))[0]
    h.eq(make_jvp(first)(v)(e)[1], want, what + ': forward over forward', **h.dtol)
    h.eq(autograd.grad(first)(v), G.reshape((n, n)), what + ': reverse over forward', **h.dtol)
    h.eq(make_jvp(autograd.grad(f))(v)(d)[1], G.reshape((n, n)), what + ': forward over reverse', **h.dtol)


def point(h, name, region):
    """a point away from the poles of gamma"""
    lo, hi = region
    x = h.real(name, lo + 0.05, min(hi, lo + 4.0) - 0.05)
    h.assume(x >= lo + 0.02)
    h.assume(x <= hi - 0.02)
    return x


REGIONS = ((0.0, 20.0), (-1.0, 0.0), (-2.0, -1.0), (-3.0, -2.0))
FUNS = {'psi': asp.psi, 'digamma': asp.digamma, 'gamma': asp.gamma, 'gammaln': asp.gammaln, 'rgamma': asp.rgamma}


def special(h, name, shape, region):
    f = FUNS[name]
    n = int(np.prod(shape)) if shape else 1
    v = h.arr([point(h, 'x%d' % i, REGIONS[region]) for i in range(n)]).reshape(shape)
    if shape == ():
        v = h.arr([v.reshape((-1,))[0]])[0]
        d = h.real('d', -1.0, 1.0)
        vv = h.arr([v])
        J = h.jac(lambda z: f(z), vv)
        val, jvp = make_jvp(f)(v)(d)
        h.eq(val, f(v), name + ': value')
        h.eq(jvp, J[0, 0] * d, name + ': scalar', **h.dtol)
        return
    forward(h, f, v, shape, name)
    c = h.reals('c', shape, -1.0, 1.0)
    # chain rule and products
    forward(h, lambda z: anp.sum(c * f(z) * z), v, shape, name + ' in an expression', 'e')


def special2(h, name, region):
    """second derivative, and forward over reverse"""
    f = FUNS[name]
    v = h.arr([point(h, 'x0', REGIONS[region])])
    d, e = h.reals('d', (1,), -1.0, 1.0), h.reals('e', (1,), -1.0, 1.0)
    first = lambda z: make_jvp(f)(z)(d)[1]
    J = h.jac(f, v)
    h.eq(first(v), d * J[0, 0], name + ': first', **h.dtol)
    G = h.jac(first, v)
    h.eq(make_jvp(first)(v)(e)[1], G[0] * e, name + ': forward over forward', **h.dtol)
    if name in ('psi', 'digamma', 'gamma', 'gammaln'):
        g = lambda z: anp.sum(f(z))
        h.eq(make_jvp(autograd.grad(g))(v)(d)[1], G[0], name + ': forward over reverse', **h.dtol)


def poly(h, shape, order, region):
    n = int(np.prod(shape))
    v = h.arr([point(h, 'x%d' % i, REGIONS[region]) for i in range(n)]).reshape(shape)
    if order is None:
        order = h.int('n', 1, 4)
    forward(h, lambda z: asp.polygamma(order, z), v, shape, 'polygamma')
    c = h.real('c', -1.0, 1.0)
    forward(h, lambda z: anp.sum(c * asp.polygamma(order, z * 1.0) ** 2), v, shape, 'polygamma in an expression', 'e')
    d = h.reals('f', shape, -1.0, 1.0)
    first = lambda z: make_jvp(lambda y: asp.polygamma(order, y))(z)(d)[1]
    G = h.jac(first, v)
    e = h.reals('g', shape, -1.0, 1.0)
    h.eq(np.reshape(make_jvp(first)(v)(e)[1], (-1,)), np.dot(G, e.reshape((-1,))), 'polygamma: second', **h.dtol)


def sign_fun(h, region):
    """the sign of gamma is locally constant"""
    v = h.arr([point(h, 'x0', REGIONS[region]), point(h, 'x1', REGIONS[0])])
    d = h.reals('d', (2,))
    f = lambda z: asp.gammasgn(z) * anp.sum(z ** 2)
    J = h.jac(f, v)
    h.eq(make_jvp(f)(v)(d)[1], np.dot(J, d), 'gammasgn', **h.dtol)
    z = h.reals('z', (2,))
    h.eq(make_jvp(lambda y: asp.gammasgn(y) + anp.sum(y))(v)(z)[1], np.ones(2) * anp.sum(z), 'gammasgn in a sum',
         **h.dtol)


def tasks(tier):
    out = []

    def t(_n, _f, **cfg):
        opt = cfg.pop('optional', False)
        out.append(dict(name=_n, fn=_f, cfg=cfg, optional=opt))
    th = tier == 'thorough'
    for n in (1, 2, 3):
        t('inv:%d' % n, 'inverse', n=n)
    for n, m in ((1, 2), (2, 1), (2, 2)) + (((3, 2), (2, 3)) if th else ()):
        t('inv:%dx%d' % (m, n), 'inverse', n=n, m=m, optional=n == 3)
    for n, k in ((1, 1), (1, 2), (2, 1), (2, 2), (2, 3)) + (((3, 1), (3, 2)) if th else ()):
        for arg in (0, 1):
            if k == 1:
                t('solve:%d:vec:%d' % (n, arg), 'solving', n=n, a_stack=None, b_kind='vec', arg=arg)
                t('solve:2x%d:stackvec:%d' % (n, arg), 'solving', n=n, a_stack=2, b_kind='stackvec', arg=arg)
            t('solve:%d:mat%d:%d' % (n, k, arg), 'solving', n=n, a_stack=None, b_kind='mat', arg=arg, k=k)
            t('solve:2x%d:stackmat%d:%d' % (n, k, arg), 'solving', n=n, a_stack=2, b_kind='stackmat', arg=arg, k=k)
            t('solve:%d:stackmat%d:%d' % (n, k, arg), 'solving', n=n, a_stack=None, b_kind='stackmat', arg=arg, k=k)
    t('solve:3:vec:0', 'solving', n=3, a_stack=None, b_kind='vec', arg=0)
    t('solve:3:vec:1', 'solving', n=3, a_stack=None, b_kind='vec', arg=1)
    for kind in ('vec', 'mat', 'stackmat'):
        t('solve:both:%s' % kind, 'solving', n=2, a_stack=None, b_kind=kind, arg=2)
    for n in (1, 2, 3):
        t('slogdet:%d' % n, 'logdet', n=n, sign=1)
        t('slogdet:%d:neg' % n, 'logdet', n=n, sign=-1)
    t('slogdet:stack', 'logdet_stack', n=2, m=2)
    t('slogdet:stack1', 'logdet_stack', n=1, m=2)
    for what in ('inv', 'solve', 'slogdet'):
        t('second:%s:1' % what, 'second', what=what, n=1)
        t('second:%s:2' % what, 'second', what=what, n=2)
    for nm in FUNS:
        for r in range(len(REGIONS)):
            t('%s:%d' % (nm, r), 'special', name=nm, shape=(2,), region=r)
        t('%s:scalar' % nm, 'special', name=nm, shape=(), region=0)
        t('%s:2d' % nm, 'special', name=nm, shape=(2, 2), region=0)
        t('%s:second' % nm, 'special2', name=nm, region=0)
        t('%s:second:neg' % nm, 'special2', name=nm, region=1)
    for order in (0, 1, 2, 3, None):
        t('polygamma:%s' % order, 'poly', shape=(2,), order=order, region=0)
        t('polygamma:%s:neg' % order, 'poly', shape=(1,), order=order, region=1)
    t('polygamma:2d', 'poly', shape=(2, 2), order=1, region=0)
    for r in range(len(REGIONS)):
        t('gammasgn:%d' % r, 'sign_fun', region=r)
    return out
