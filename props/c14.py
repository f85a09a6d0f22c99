"""C14: input-transformed functions equal the original on transformed arguments."""
from collections import OrderedDict
import numpy as np
import paragami
from . import pats, beh

META = {
    'bounds': 'functions of up to 5 positional and 2 keyword arguments; 1-3 patterns (numeric, PSD, simplex, '
              'dictionary, array) at every choice and order of positions; every combination of free settings '
              '(given singly, as a list, or by default); all argument values',
    'outside': 'more arguments or patterns; negative positions (documented as 0-indexed)',
    'assumptions': ['exact real arithmetic', 'the wrapped function is arbitrary: it records what it is given'],
}

SPECS = {
    'mix': [['num', [2], 'both'], ['psd', 2, True], ['num', [1], 'ub', 'scalar']],
    'box': [['dict', [['a', ['num', [1], 'lb']], ['s', ['num', [2], 'none']]]], ['arr', [2], ['num', [1], 'both']],
            ['num', [2], 'lb', 'vec']],
    'sim': [['simplex', 2, [1]], ['psd', 1, False], ['num', [1, 2], 'both']],
}


class Record:
    """an arbitrary function; the result depends on everything it was given"""
    __name__ = 'recorded'

    def __init__(self):
        self.calls = []

    def __call__(self, *args, **kwargs):
        self.calls.append((args, kwargs))
        return ('result', len(self.calls))


def distinct(h, name, k, n):
    """k distinct positions below n, in any order"""
    out = []
    for i in range(k):
        left = [j for j in range(n) if j not in out]
        out.append(h.choice('%s%d' % (name, i), left))
    return out


def inputs(h, P, i, free, is_flat):
    """(what the caller passes, what the original must receive)"""
    y = h.reals('y%d_' % i, (pats.free_len(P.spec),), -1.0, 1.0)
    v = P.pat.fold(y, free=True)
    if is_flat:
        return v, P.pat.flatten(v, free=free)
    if free:
        return y, v
    x = P.pat.flatten(v, free=False)
    return x, v


def wrap(cls, is_flat, fun, patterns, free, argnums):
    if cls == 'base':
        return paragami.TransformFunctionInput(fun, patterns, free, is_flat, argnums) \
            if argnums is not None else paragami.TransformFunctionInput(fun, patterns, free, is_flat)
    c = paragami.FoldFunctionInput if is_flat else paragami.FlattenFunctionInput
    return c(fun, patterns, free, argnums) if argnums is not None else c(fun, patterns, free)


def call(h, k, nargs, specs, cls, default=False):
    is_flat = bool(h.bool('is_flat'))
    Ps = [pats.build(h, s, 'p%d.' % i) for i, s in enumerate(SPECS[specs][:k])]
    if default:
        pos, argnums = list(range(k)), None
    else:
        pos = distinct(h, 'pos', k, nargs)
        argnums = pos if k > 1 else pos[0]
        if bool(h.bool('as_array')):
            argnums = np.array(pos)
    how = h.choice('how', ['list', 'single', 'default'])
    if how == 'list':
        free = [bool(h.bool('free%d' % i)) for i in range(k)]
        arg = free if k > 1 else free[0]
    elif how == 'single':
        f = bool(h.bool('free'))
        free, arg = [f] * k, f
    else:
        free = [bool(h.bool('free%d' % i)) for i in range(k)]
        for P, f in zip(Ps, free):
            P.pat.free_default = f
        arg = None
    rec = Record()
    pp = [P.pat for P in Ps] if k > 1 else Ps[0].pat
    w = wrap(cls, is_flat, rec, pp, arg, argnums)
    give = [h.reals('a%d_' % j, (2,)) for j in range(nargs)]
    want = list(give)
    for i, j in enumerate(pos):
        give[j], want[j] = inputs(h, Ps[i], i, free[i], is_flat)
    kw = {'kwa': h.reals('kwa', (2,)), 'kwb': 'text'}
    before = list(give)
    for repeat in (1, 2):
        r = w(*give, **kw)
        h.check(r == ('result', repeat) and len(rec.calls) == repeat, 'one call, result returned unchanged')
        args, kwargs = rec.calls[-1]
        h.check(len(args) == nargs, 'number of positional arguments')
        for j in range(nargs):
            if j in pos:
                h.same(args[j], want[j], 'transformed argument at its position')
            else:
                h.check(args[j] is give[j], 'other arguments pass through in place')
        h.check(set(kwargs) == set(kw) and all(kwargs[n] is kw[n] for n in kw), 'keyword arguments pass through')
        h.check(all(a is b for a, b in zip(give, before)), 'caller arguments unchanged')


def extra(h):
    """fewer or more positional arguments than positions"""
    k = 2
    Ps = [pats.build(h, s, 'p%d.' % i) for i, s in enumerate(SPECS['mix'][:k])]
    pos = distinct(h, 'pos', k, 4)
    n = int(h.int('n', 0, 5))
    is_flat = bool(h.bool('is_flat'))
    rec = Record()
    w = wrap('named', is_flat, rec, [P.pat for P in Ps], [True, False], pos)
    give = [h.reals('a%d_' % j, (2,)) for j in range(n)]
    want = list(give)
    for i, j in enumerate(pos):
        if j < n:
            give[j], want[j] = inputs(h, Ps[i], i, i == 0, is_flat)
    if max(pos) < n:
        w(*give)
        args, kwargs = rec.calls[-1]
        h.check(len(args) == n and kwargs == {}, 'all arguments arrive')
        for j in range(n):
            h.same(args[j], want[j], 'arguments in place')
    else:
        h.raises(lambda: w(*give), 'a missing argument is an error')
        h.check(rec.calls == [], 'original not called')


def rejected(h):
    Ps = [pats.build(h, s, 'p%d.' % i).pat for i, s in enumerate(SPECS['mix'])]
    k = int(h.int('k', 1, 3))
    m = int(h.int('m', 1, 3))
    f = int(h.int('f', 0, 3))
    argnums = [int(h.int('pos%d' % i, 0, 2)) for i in range(m)]
    free = True if f == 0 else [True] * f
    is_flat = bool(h.bool('is_flat'))
    ok = len(set(argnums)) == m and k == m and (f in (0, 1) or f == k)
    mk = lambda: wrap('named', is_flat, Record(), Ps[:k], free, argnums)
    if ok:
        mk()
        h.check(True, 'consistent specification accepted')
    else:
        h.raises(mk, 'inconsistent specification rejected')


def nested(h):
    is_flat = bool(h.bool('is_flat'))
    Ps = [pats.build(h, s, 'p%d.' % i).pat for i, s in enumerate(SPECS['mix'][:2])]
    for pp, free, argnums in (([Ps], True, [0, 1]), (Ps, True, [[0, 1]]), (Ps, [[True, False]], [0, 1]),
                              ([[Ps[0]], [Ps[1]]], True, [0, 1])):
        h.raises(lambda: wrap('named', is_flat, Record(), pp, free, argnums), 'two-dimensional lists rejected')


def values(h):
    """the composed function has the value of the original, twice wrapped"""
    A = pats.build(h, ['num', [2], 'both'], 'a.')
    B = pats.build(h, ['psd', 2, False], 'b.')

    def f(x, m, scale=1.0):
        return scale * (x[0] * m[0, 1] + x[1] * m[1, 1])
    g = paragami.FlattenFunctionInput(f, [B.pat, A.pat], [True, True], [1, 0])
    hh = paragami.FoldFunctionInput(g, [A.pat, B.pat], True, [0, 1])
    one = paragami.FlattenFunctionInput(paragami.FlattenFunctionInput(f, A.pat, True, 0), B.pat, True, 1)
    ya, yb = h.reals('ya', (2,), -1, 1), h.reals('yb', (3,), -1, 1)
    va, vb = A.pat.fold(ya, free=True), B.pat.fold(yb, free=True)
    s = h.real('s')
    want = f(va, vb, scale=s)
    h.eq(g(ya, yb, scale=s), want, 'value of the flattened function')
    h.eq(hh(va, vb, scale=s), want, 'fold undoes flatten')
    h.eq(one(ya, yb, scale=s), want, 'wrapping one at a time')


def refusal(h, specs, k):
    """the transformation is the pattern's own flattening or folding: what that refuses, the wrapper refuses"""
    is_flat = bool(h.bool('is_flat'))
    Ps = [pats.build(h, s, 'p%d.' % i) for i, s in enumerate(SPECS[specs][:k])]
    free = [bool(h.bool('free%d' % i)) for i in range(k)]
    dv = bool(h.bool('default_validate'))
    bad = int(h.int('bad', 0, k - 1))
    P = Ps[bad]
    if P.spec[0] != 'dict':
        P.pat.default_validate = dv
    give = []
    for i, Q in enumerate(Ps):
        give.append(inputs(h, Q, i, free[i], is_flat)[0])
    if is_flat:
        give[bad] = beh.anyvalue(h, P)
        ref = beh.outcome(lambda: P.pat.flatten(give[bad], free=free[bad]))
    else:
        n = pats.free_len(P.spec) if free[bad] else pats.flat_len(P.spec)
        give[bad] = h.reals('z', (n + int(h.int('more', 0, 1)),), -1.0, 1.0)
        ref = beh.outcome(lambda: P.pat.fold(give[bad], free=free[bad]))
    rec = Record()
    w = wrap('named', is_flat, rec, [Q.pat for Q in Ps], free, list(range(k)))
    got = beh.outcome(lambda: w(*give))
    if not h.check(got[0] == ref[0], 'refused exactly when the pattern refuses',
                   lambda: 'wrapper %r, pattern %r' % (got, ref)):
        return
    if ref[0] == 'ok':
        h.check(len(rec.calls) == 1, 'called once')
        h.same(rec.calls[0][0][bad], ref[1], 'the original receives what the pattern gives')
    else:
        h.check(rec.calls == [], 'the original is not called with a refused argument')


def tasks(tier):
    out = []
    for cls in ('named', 'base'):
        out.append(dict(name='call:1of3:%s' % cls, fn='call', cfg=dict(k=1, nargs=3, specs='mix', cls=cls)))
        out.append(dict(name='call:2of3:%s' % cls, fn='call', cfg=dict(k=2, nargs=3, specs='mix', cls=cls)))
        out.append(dict(name='call:3of3:%s' % cls, fn='call', cfg=dict(k=3, nargs=3, specs='mix', cls=cls)))
        out.append(dict(name='call:default:%s' % cls, fn='call',
                        cfg=dict(k=2, nargs=4, specs='mix', cls=cls, default=True)))
        out.append(dict(name='call:default3:%s' % cls, fn='call',
                        cfg=dict(k=3, nargs=3, specs='mix', cls=cls, default=True)))
    out.append(dict(name='call:box2', fn='call', cfg=dict(k=2, nargs=3, specs='box', cls='named')))
    out.append(dict(name='call:sim2', fn='call', cfg=dict(k=2, nargs=3, specs='sim', cls='named')))
    out.append(dict(name='call:box1', fn='call', cfg=dict(k=1, nargs=2, specs='box', cls='named')))
    for sp, k in (('mix', 1), ('mix', 2), ('box', 2), ('sim', 2)):
        out.append(dict(name='refusal:%s%d' % (sp, k), fn='refusal', cfg=dict(specs=sp, k=k), max_paths=6000))
    out.append(dict(name='extra', fn='extra', cfg={}))
    out.append(dict(name='rejected', fn='rejected', cfg={}))
    out.append(dict(name='nested', fn='nested', cfg={}))
    out.append(dict(name='values', fn='values', cfg={}))
    if tier == 'thorough':
        for sp in SPECS:
            out.append(dict(name='call:3of4:' + sp, fn='call', cfg=dict(k=3, nargs=4, specs=sp, cls='named'),
                            max_paths=20000))
            out.append(dict(name='call:2of5:' + sp, fn='call', cfg=dict(k=2, nargs=5, specs=sp, cls='named'),
                            max_paths=20000))
    return out
