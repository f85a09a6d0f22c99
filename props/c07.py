"""C07: log determinants equal the log absolute determinant of the Jacobian."""
import numpy as np
import autograd
from autograd import make_jvp
import paragami
from . import pats

META = {
    'bounds': 'numeric arrays up to 6 entries, dictionaries of numeric patterns nested up to 3 deep; all bounds; gradients in both modes',
    'outside': 'pattern arrays (no log determinant is offered); larger shapes',
    'assumptions': ['exact real arithmetic', 'values strictly between the bounds'],
}

FAM = [['num', s, k] for s in ([1], [3], [2, 2], [2, 3]) for k in pats.KINDS] + [
    ['num', [2], 'both', 'vec'], ['num', [1], 'both', 'scalar'], ['num', [1], 'ub', 'scalar'],
    ['dict', [['a', ['num', [2], 'both']], ['b', ['num', [2, 1], 'ub']],
              ['c', ['num', [1], 'lb']]]],
    ['dict', [['z', ['num', [2], 'none']], ['d', ['dict', [
        ['x', ['num', [1], 'both']], ['y', ['dict', [['w', ['num', [2], 'lb']]]]]]]],
        ['a', ['num', [1], 'ub', 'scalar']]]],
]


def logdet(h, spec):
    P = pats.build(h, spec)
    v = pats.valid(h, P)
    x = P.pat.flatten(v, free=True)
    n = pats.free_len(spec)
    y = h.reals('y', (n,), -1.0, 1.0)
    J = h.jac(lambda t: P.pat.flatten(P.pat.fold(t, free=True), free=False), y)
    # the free point of v: evaluate at y with fold(y) = w
    w = P.pat.fold(y, free=True)
    d = 1.0
    for i in range(n):
        d = d * J[i, i]
        for j in range(n):
            if i != j:
                h.eq(J[i, j], 0.0, 'entries are independent', **h.dtol)
    un = P.pat.log_abs_det_unfreeing_jacobian(w)
    fr = P.pat.log_abs_det_freeing_jacobian(w)
    h.eq(np.exp(un), np.abs(d), 'exp(log det unfreeing) == |det|', **h.dtol)
    h.eq(np.exp(fr) * np.abs(d), 1.0, 'exp(log det freeing) == 1/|det|', **h.dtol)
    h.eq(un + fr, 0.0, 'freeing == -unfreeing')


def against_matrix(h, spec):
    P = pats.build(h, spec)
    v = pats.valid(h, P)
    n = pats.free_len(spec)
    for free, m, ld in (
            (False, P.pat.unfreeing_jacobian(v, sparse=False),
             P.pat.log_abs_det_unfreeing_jacobian(v)),
            (True, P.pat.freeing_jacobian(v, sparse=False),
             P.pat.log_abs_det_freeing_jacobian(v))):
        m = np.asarray(m)
        d = 1.0
        for i in range(n):
            d = d * m[i, i]
        h.eq(np.exp(ld), np.abs(d), 'log det of the matrix free=%s' % free)


def gradients(h, spec):
    """the log determinant is differentiable (log densities of free parameters add it)"""
    P = pats.build(h, spec)
    p = P.pat
    n = pats.free_len(spec)
    y, d = h.reals('y', (n,), -1.0, 1.0), h.reals('d', (n,), -1.0, 1.0)
    for f in (p.log_abs_det_unfreeing_jacobian, p.log_abs_det_freeing_jacobian):
        g = lambda t: f(p.fold(t, free=True))
        T = h.jac(g, y)[0]
        h.eq(autograd.grad(g)(y), T, 'gradient', **h.dtol)
        h.eq(make_jvp(g)(y)(d)[1], np.dot(T, d), 'forward mode', **h.dtol)


def none(h, spec):
    """nothing is returned where an element offers none"""
    P = pats.build(h, spec)
    v = P.pat.fold(h.reals('y', (pats.free_len(spec),), -1.0, 1.0), free=True)
    h.raises(lambda: P.pat.log_abs_det_freeing_jacobian(v), 'no log determinant of the freeing Jacobian')
    h.raises(lambda: P.pat.log_abs_det_unfreeing_jacobian(v), 'no log determinant of the unfreeing Jacobian')


WITHOUT = [['psd', 1, True], ['psd', 2, False], ['simplex', 2, []], ['simplex', 3, [2]],
           ['dict', [['a', ['num', [2], 'lb']], ['m', ['psd', 2, True]]]],
           ['dict', [['s', ['simplex', 2, [1]]], ['z', ['num', [1], 'none']]]],
           ['dict', [['a', ['num', [1], 'ub']], ['d', ['dict', [['x', ['num', [1], 'both']], ['y', ['simplex', 3, []]]]]]]]]


def tasks(tier):
    fam = list(FAM)
    if tier == 'thorough':
        fam += [['num', s, k] for s in ([8], [2, 2, 2]) for k in pats.KINDS]
    out = []
    for s in fam:
        for fn in ('logdet', 'against_matrix', 'gradients'):
            if fn == 'gradients' and pats.free_len(s) > 4:
                continue
            out.append(dict(name=fn + ':' + pats.name(s), fn=fn,
                            cfg={'spec': s}))
    for s in WITHOUT:
        out.append(dict(name='none:' + pats.name(s), fn='none', cfg={'spec': s}))
    return out
