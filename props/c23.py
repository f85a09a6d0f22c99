"""C23: grouped sums and replacement compute and differentiate correctly."""
import itertools
import numpy as np
import autograd
import autograd.numpy as anp
from autograd import make_jvp
from paragami import autograd_supplement_lib as lib

META = {
    'bounds': 'grouped sums of 1-4 (thorough: 5) rows of shape (), (2,), (1,), (2, 2), every assignment of rows to 1-3 '
              'groups, the number of groups given or not; replacement in vectors of 1-4 entries at every ordered set '
              'of distinct positions (also negative, boolean masks and slices); all values; derivatives of orders 1 and '
              '2 in forward and reverse mode',
    'outside': 'negative group numbers (not zero-indexed), replacement in arrays of more than one dimension (documented '
               'for vectors), repeated positions',
    'assumptions': ['exact real arithmetic'],
}


def symint(h, name, n):
    """an integer in 0..n-1, split into cases"""
    return h.choice(name, list(range(n)))


def want_sum(h, x, g, G):
    out = np.array([[0.0] * int(np.prod(x.shape[1:])) for _ in range(G)], dtype=object)
    xr = x.reshape((x.shape[0], -1))
    for i in range(x.shape[0]):
        for j in range(xr.shape[1]):
            out[g[i], j] = out[g[i], j] + xr[i, j]
    return out.reshape((G,) + x.shape[1:])


CAST = {'array': np.array, 'list': list, 'int32': lambda g: np.array(g, dtype='int32'), 'tuple': tuple}


def gsum(h, n, shape, ngroups, cast='array'):
    shape = tuple(shape)
    g = [symint(h, 'g%d' % i, ngroups) for i in range(n)]
    G = h.choice('G', [None, max(g) + 1, max(g) + 2])
    x = h.reals('x', (n,) + shape)
    x0 = x.copy()
    ng = max(g) + 1 if G is None else G
    gg = CAST[cast](g)
    args = (gg,) if G is None else (gg, G)
    out = lib.grouped_sum(x, *args)
    want = want_sum(h, x, g, ng)
    h.check(np.shape(out) == (ng,) + shape, 'shape')
    h.eq(out, want, 'sum of the rows of each group')
    h.eq(x, x0, 'argument unchanged')
    h.check(list(gg) == g, 'groups unchanged')
    if G is not None:
        h.eq(lib.grouped_sum(x, groups=gg, num_groups=G), want, 'keywords')
    h.eq(lib.grouped_sum(x, gg, num_groups=None), want_sum(h, x, g, max(g) + 1), 'no number of groups')
    # rejections
    for bad in range(1, max(g) + 1):
        h.raises(lambda: lib.grouped_sum(x, gg, bad), 'group number too large')
    h.raises(lambda: lib.grouped_sum(x, CAST[cast](g + [0]), ng), 'too many group numbers')
    if n > 1:
        h.raises(lambda: lib.grouped_sum(x, CAST[cast](g[:-1]), ng), 'too few group numbers')
    h.raises(lambda: lib.grouped_sum(x, np.array(g).reshape((n, 1)), ng), 'matrix of group numbers')


def gsum_derivs(h, n, shape, ngroups, extra):
    shape = tuple(shape)
    g = [symint(h, 'g%d' % i, ngroups) for i in range(n)]
    gg = np.array(g)
    ng = max(g) + 1 + extra
    args = (gg,) if not extra else (gg, ng)
    x, v = h.reals('x', (n,) + shape), h.reals('v', (n,) + shape)
    u, w = h.reals('u', (ng,) + shape), h.reals('w', (ng,) + shape)
    f = lambda z: lib.grouped_sum(z, *args)
    pull = lambda a: np.array([a[g[i]] for i in range(n)])
    push = lambda a: want_sum(h, a, g, ng)
    h.eq(autograd.make_vjp(f)(x)[0](u), pull(u), 'reverse')
    h.eq(make_jvp(f)(x)(v)[1], push(v), 'forward')
    h.eq(make_jvp(f)(x)(v)[0], push(x), 'value')
    J = autograd.jacobian(f)(x)
    h.check(np.shape(J) == (ng,) + shape + (n,) + shape, 'Jacobian shape')
    h.eq(J, h.jac(f, x).reshape(np.shape(J)), 'Jacobian', **h.dtol)
    fn = lambda z: anp.sum(w * f(z * z) ** 2) + anp.sum(u * f(z))
    S = push(x * x)
    grad = 4.0 * x * pull(w * S) + pull(u)
    h.eq(autograd.grad(fn)(x), grad, 'gradient of a function of the sums')
    h.eq(make_jvp(fn)(x)(v)[1], np.sum(grad * v), 'forward of a function of the sums')
    hv = 4.0 * v * pull(w * S) + 8.0 * x * pull(w * push(x * v))
    h.eq(make_jvp(autograd.grad(fn))(x)(v)[1], hv, 'forward over reverse')
    h.eq(autograd.grad(lambda z: make_jvp(fn)(z)(v)[1])(x), hv, 'reverse over forward')
    h.eq(autograd.grad(lambda z: anp.sum(autograd.grad(fn)(z) * v))(x), hv, 'reverse over reverse')
    h.eq(make_jvp(lambda z: make_jvp(fn)(z)(v)[1])(x)(v)[1], np.sum(hv * v), 'forward over forward')


def positions(h, n, k, kind):
    """(index object, list of positions)"""
    ps = [list(p) for p in itertools.permutations(range(n), k)]
    if kind == 'mask':
        ps = [p for p in ps if p == sorted(p)]
        p = h.choice('p', ps)
        m = np.zeros(n, dtype=bool)
        m[p] = True
        return m, p
    if kind == 'slice':
        p0 = h.choice('p', list(range(n - k + 1)))
        return slice(p0, p0 + k), list(range(p0, p0 + k))
    p = h.choice('p', ps)
    if kind == 'neg':
        return np.array([i - n for i in p], dtype=int), p
    if kind == 'list':
        return list(p), p
    return np.array(p, dtype=int), p


def repl(h, n, k, kind):
    inds, p = positions(h, n, k, kind)
    x, s = h.reals('x', (n,)), h.reals('s', (k,))
    x0, s0 = x.copy(), s.copy()
    out = lib.replace(s, x, inds)
    want = [s[p.index(i)] if i in p else x[i] for i in range(n)]
    h.check(np.shape(out) == (n,), 'shape')
    h.eq(out, want, 'replaced exactly at the positions')
    h.eq(x, x0, 'old array unchanged')
    h.eq(s, s0, 'new entries unchanged')
    out[...] = 7.0
    h.eq(x, x0, 'changing the result leaves the old array')
    h.eq(s, s0, 'changing the result leaves the new entries')
    y = h.real('y')
    h.eq(lib.replace(y, x, inds), [y if i in p else x[i] for i in range(n)], 'one scalar for all positions')
    if kind == 'array':
        xi = h.intarr(np.arange(n) + 5)
        h.eq(lib.replace(s, xi, inds), [s[p.index(i)] if i in p else 5.0 + i for i in range(n)], 'integer array')
        h.eq(xi, np.arange(n) + 5, 'integer array unchanged')


def repl_derivs(h, n, k, kind):
    inds, p = positions(h, n, k, kind)
    x, s = h.reals('x', (n,)), h.reals('s', (k,))
    v, r = h.reals('v', (n,)), h.reals('r', (k,))
    u, w = h.reals('u', (n,)), h.reals('w', (n,))
    put = lambda a, b: np.array([a[p.index(i)] if i in p else b[i] for i in range(n)], dtype=object)
    zn, zk = np.zeros(n), np.zeros(k)
    fs, fx = (lambda z: lib.replace(z, x, inds)), (lambda z: lib.replace(s, z, inds))
    h.eq(make_jvp(fs)(s)(r)[1], put(r, zn), 'forward, new entries')
    h.eq(make_jvp(fx)(x)(v)[1], put(zk, v), 'forward, old array')
    h.eq(autograd.make_vjp(fs)(s)[0](u), [u[i] for i in p], 'reverse, new entries')
    h.eq(autograd.make_vjp(fx)(x)[0](u), put(zk, u), 'reverse, old array')
    h.eq(autograd.jacobian(fs)(s), h.jac(fs, s), 'Jacobian, new entries', **h.dtol)
    h.eq(autograd.jacobian(fx)(x), h.jac(fx, x), 'Jacobian, old array', **h.dtol)
    # both together, nonlinear, first and second order
    full = lambda z: anp.sum(w * lib.replace(z[:k] ** 2, z[k:] ** 2, inds) ** 2) + \
        anp.sum(u * lib.replace(z[:k], z[k:], inds))
    z, d = np.concatenate([s, x]), np.concatenate([r, v])
    ws = np.array([w[i] for i in p])
    us = np.array([u[i] for i in p])
    grad = np.concatenate([4.0 * ws * s ** 3 + us, put(zk, 4.0 * w * x ** 3 + u)])
    hv = np.concatenate([12.0 * ws * s ** 2 * r, put(zk, 12.0 * w * x ** 2 * v)])
    h.eq(autograd.grad(full)(z), grad, 'gradient of a function of the replaced array')
    h.eq(make_jvp(full)(z)(d)[1], np.sum(grad * d), 'forward of a function of the replaced array')
    h.eq(make_jvp(autograd.grad(full))(z)(d)[1], hv, 'forward over reverse')
    h.eq(autograd.grad(lambda y: make_jvp(full)(y)(d)[1])(z), hv, 'reverse over forward')
    h.eq(autograd.grad(lambda y: anp.sum(autograd.grad(full)(y) * d))(z), hv, 'reverse over reverse')
    h.eq(make_jvp(lambda y: make_jvp(full)(y)(d)[1])(z)(d)[1], np.sum(hv * d), 'forward over forward')


def tasks(tier):
    out = []
    th = tier == 'thorough'

    def t(_n, _f, _o=False, **cfg):
        out.append(dict(name=_n, fn=_f, cfg=cfg, optional=_o))
    for n, shape, G in ((1, (), 2), (2, (), 2), (3, (), 3), (4, (), 2), (2, (2,), 3), (3, (1,), 2), (2, (2, 2), 2),
                        (1, (2,), 2)) + \
            (((4, (), 3), (5, (), 2), (3, (2,), 3), (3, (2, 2), 2), (4, (2,), 2)) if th else ()):
        t('sum:%d:%s:%d' % (n, shape, G), 'gsum', n=n, shape=shape, ngroups=G)
        for e in (0, 1):
            t('sum_derivs:%d:%s:%d:%d' % (n, shape, G, e), 'gsum_derivs', n=n, shape=shape, ngroups=G, extra=e)
    for c in CAST:
        t('sum:cast:%s' % c, 'gsum', n=2, shape=(), ngroups=2, cast=c)
        t('sum:cast2:%s' % c, 'gsum', n=2, shape=(2,), ngroups=2, cast=c)
    for n, k in ((1, 1), (2, 1), (2, 2), (3, 1), (3, 2), (3, 3), (4, 2), (2, 0)) + \
            (((4, 1), (4, 3), (4, 4), (5, 2)) if th else ()):
        for kind in ('array', 'mask', 'slice', 'neg', 'list'):
            if kind == 'list' and k == 0:
                continue
            t('replace:%d:%d:%s' % (n, k, kind), 'repl', n=n, k=k, kind=kind)
            t('replace_derivs:%d:%d:%s' % (n, k, kind), 'repl_derivs', n=n, k=k, kind=kind)
    return out
