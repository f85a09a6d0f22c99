"""Observable behaviour of patterns, compared between two patterns."""
from collections import OrderedDict
import numpy as np
import paragami
from . import pats


def outcome(f):
    try:
        return 'ok', f()
    except Exception as e:
        return 'error', type(e).__name__


def same_outcome(h, f, g, label):
    a, b = outcome(f), outcome(g)
    if not h.check(a[0] == b[0], label + ': both succeed or both fail', lambda: '%r vs %r' % (a, b)):
        return
    if a[0] == 'ok':
        h.same(a[1], b[1], label)


def fill(P, val):
    """a boolean folded value of the shape of P (from the documented shape)"""
    if P.spec[0] == 'dict':
        return OrderedDict((n, fill(c, val)) for n, c in P.kids)
    return np.full(P.shape, val, dtype=bool)


def anyvalue(h, P, p='z'):
    if P.spec[0] == 'dict':
        return OrderedDict((n, anyvalue(h, c, p + n)) for n, c in P.kids)
    return h.reals(p, P.shape, 0.1, 0.9)


def behaviour(h, P, q, tag='', validate=True):
    """q behaves like P.pat"""
    p = P.pat
    spec = P.spec
    nf, n = pats.free_len(spec), pats.flat_len(spec)
    part = h.choice(tag + 'part', ['plain', 'free', 'flat'] + (['valid', 'check'] if validate else []))
    if part == 'plain':
        for free in (True, False, None):
            same_outcome(h, lambda: p.flat_length(free=free), lambda: q.flat_length(free=free), tag + 'flat_length')
            m = fill(P, True)
            same_outcome(h, lambda: p.flat_indices(m, free=free), lambda: q.flat_indices(m, free=free),
                         tag + 'flat_indices')
        same_outcome(h, lambda: p.empty(valid=True), lambda: q.empty(valid=True), tag + 'empty')
        same_outcome(h, lambda: p.empty_bool(True), lambda: q.empty_bool(True), tag + 'empty_bool')
        same_outcome(h, lambda: list(p.flat_names(True)), lambda: list(q.flat_names(True)), tag + 'flat_names')
    elif part == 'free':
        y = h.reals(tag + 'y', (nf,), -1.0, 1.0)
        same_outcome(h, lambda: p.fold(y, free=True), lambda: q.fold(y, free=True), tag + 'fold free')
        v = p.fold(y, free=True)
        same_outcome(h, lambda: p.flatten(v, free=True, validate_value=False),
                     lambda: q.flatten(v, free=True, validate_value=False), tag + 'flatten free')
        same_outcome(h, lambda: p.fold(y, validate_value=False), lambda: q.fold(y, validate_value=False),
                     tag + 'fold with the default')
        same_outcome(h, lambda: p.flatten(v, validate_value=False), lambda: q.flatten(v, validate_value=False),
                     tag + 'flatten with the default')
    elif part == 'flat':
        x = h.reals(tag + 'x', (n,), -1.0, 1.0)
        same_outcome(h, lambda: p.fold(x, free=False, validate_value=False),
                     lambda: q.fold(x, free=False, validate_value=False), tag + 'fold')
        same_outcome(h, lambda: p.fold(x, validate_value=False), lambda: q.fold(x, validate_value=False),
                     tag + 'fold with the default')
        w = p.fold(x, free=False, validate_value=False)
        same_outcome(h, lambda: p.flatten(w, free=False, validate_value=False),
                     lambda: q.flatten(w, free=False, validate_value=False), tag + 'flatten')
    elif part == 'valid':
        z = anyvalue(h, P, tag + 'z')
        a = p.validate_folded(z)[0]
        b = q.validate_folded(z)[0]
        h.check(bool(a) == bool(b), tag + 'validation')
    else:
        z = anyvalue(h, P, tag + 'z')
        same_outcome(h, lambda: p.flatten(z, free=False), lambda: q.flatten(z, free=False),
                     tag + 'flatten with default validation')


def varied(h, spec, p='', validates=(True, False), frees=(None, True, False)):
    """build with independently chosen default settings at every level"""
    k = spec[0]
    kw = {}
    if len(frees) > 1:
        kw['free_default'] = h.choice(p + 'fd', list(frees))
    if k in ('num', 'psd', 'simplex'):
        if len(validates) > 1:
            kw['default_validate'] = h.choice(p + 'dv', list(validates))
        P = pats.build(h, spec, p, **kw)
        P.fd = kw.get('free_default')
        return P
    if k == 'dict':
        pat = paragami.PatternDict(**kw)
        kids = []
        for name, s in spec[1]:
            c = varied(h, s, p + name + '.', validates, frees)
            pat[name] = c.pat
            kids.append((name, c))
        return pats.P(spec, pat, p, kids=kids, fd=kw.get('free_default'))
    base = varied(h, spec[2], p + 'b.', validates, frees)
    pat = paragami.PatternArray(tuple(spec[1]), base.pat, **kw)
    return pats.P(spec, pat, p, base=base, shape=tuple(spec[1]) + tuple(base.shape), fd=kw.get('free_default'))
