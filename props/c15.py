"""C15: output-transformed functions equal the transformed original results."""
import numpy as np
import paragami
from . import pats, beh
from .c14 import SPECS, Record, distinct, inputs

META = {
    'bounds': 'functions of up to 5 results (or one result that is not a tuple); 1-3 patterns (numeric, PSD, simplex, '
              'dictionary, array) at every choice and order of positions; every combination of free settings '
              '(given singly, as a list, or by default); all values',
    'outside': 'more results or patterns; negative positions (documented as 0-indexed)',
    'assumptions': ['exact real arithmetic', 'the wrapped function is arbitrary: it returns what it is told to'],
}


class Returns:
    __name__ = 'returns'

    def __init__(self, rets):
        self.rets = rets
        self.calls = []

    def __call__(self, *args, **kwargs):
        self.calls.append((args, kwargs))
        return self.rets


def outputs(h, P, i, free, is_flat):
    """(what the original returns, what the caller must get)"""
    a, b = inputs(h, P, i, free, not is_flat)
    return a, b


def wrap(cls, is_flat, fun, patterns, free, retnums):
    kw = {} if retnums is None else {'retnums': retnums}
    if cls == 'base':
        return paragami.TransformFunctionOutput(fun, patterns, free, is_flat, **kw)
    c = paragami.FoldFunctionOutput if is_flat else paragami.FlattenFunctionOutput
    return c(fun, patterns, free, **kw)


def call(h, k, nrets, specs, cls, default=False):
    is_flat = bool(h.bool('is_flat'))
    Ps = [pats.build(h, s, 'p%d.' % i) for i, s in enumerate(SPECS[specs][:k])]
    if default:
        pos, retnums = list(range(k)), None
    else:
        pos = distinct(h, 'pos', k, nrets)
        retnums = pos if k > 1 else pos[0]
        if bool(h.bool('as_array')):
            retnums = np.array(pos)
    how = h.choice('how', ['list', 'single', 'default'])
    if how == 'list':
        free = [bool(h.bool('free%d' % i)) for i in range(k)]
        arg = free if k > 1 else free[0]
    elif how == 'single':
        f = bool(h.bool('free'))
        free, arg = [f] * k, f
    else:
        free = [bool(h.bool('free%d' % i)) for i in range(k)]
        for P, f in zip(Ps, free):
            P.pat.free_default = f
        arg = None
    give = [h.reals('a%d_' % j, (2,)) for j in range(nrets)]
    want = list(give)
    for i, j in enumerate(pos):
        give[j], want[j] = outputs(h, Ps[i], i, free[i], is_flat)
    f = Returns(tuple(give))
    pp = [P.pat for P in Ps] if k > 1 else Ps[0].pat
    w = wrap(cls, is_flat, f, pp, arg, retnums)
    x, kw = h.reals('x', (2,)), {'k': h.real('k')}
    for repeat in (1, 2):
        r = w(x, 'y', **kw)
        h.check(len(f.calls) == repeat, 'the original is called once')
        args, kwargs = f.calls[-1]
        h.check(len(args) == 2 and args[0] is x and args[1] == 'y' and set(kwargs) == {'k'} and
                kwargs['k'] is kw['k'], 'arguments pass through')
        if not h.check(isinstance(r, tuple) and len(r) == nrets, 'number of results'):
            return
        for j in range(nrets):
            if j in pos:
                h.same(r[j], want[j], 'transformed result at its position')
            else:
                h.check(r[j] is give[j], 'other results unchanged and in place')


def alone(h, spec):
    """a function whose result is not a tuple"""
    is_flat = bool(h.bool('is_flat'))
    free = bool(h.bool('free'))
    cls = h.choice('cls', ['named', 'base'])
    P = pats.build(h, spec, 'p.')
    Q = pats.build(h, ['num', [2], 'none'], 'q.')
    give, want = outputs(h, P, 0, free, is_flat)
    f = Returns(give)
    how = h.choice('how', ['0', '[0]', 'none', '1', '[0,1]', '[1,0]', '[2,0,1]'])
    if how == '[2,0,1]':
        w = wrap(cls, is_flat, f, [P.pat, Q.pat, P.pat], free, [2, 0, 1])
    elif how in ('[0,1]', '[1,0]'):
        w = wrap(cls, is_flat, f, [P.pat, Q.pat], free, [0, 1] if how == '[0,1]' else [1, 0])
    else:
        w = wrap(cls, is_flat, f, P.pat, free, {'0': 0, '[0]': [0], 'none': None, '1': 1}[how])
    x = h.real('x')
    if how in ('0', '[0]', 'none'):
        r = w(x, y=x)
        h.check(not isinstance(r, tuple), 'still a single result')
        h.same(r, want, 'transformed result')
        h.check(f.calls[0][0][0] is x and f.calls[0][1]['y'] is x, 'arguments pass through')
    else:
        h.raises(lambda: w(x, y=x), 'a single result does not match the positions')


def one_tuple(h):
    """a tuple of length one stays one"""
    is_flat = bool(h.bool('is_flat'))
    P = pats.build(h, SPECS['mix'][0], 'p.')
    give, want = outputs(h, P, 0, True, is_flat)
    r = wrap('named', is_flat, Returns((give,)), P.pat, True, 0)()
    if h.check(isinstance(r, tuple) and len(r) == 1, 'tuple'):
        h.same(r[0], want, 'transformed')


def few(h):
    k = 2
    Ps = [pats.build(h, s, 'p%d.' % i) for i, s in enumerate(SPECS['mix'][:k])]
    pos = distinct(h, 'pos', k, 4)
    n = int(h.int('n', 0, 5))
    is_flat = bool(h.bool('is_flat'))
    give = [h.reals('a%d_' % j, (2,)) for j in range(n)]
    want = list(give)
    for i, j in enumerate(pos):
        if j < n:
            give[j], want[j] = outputs(h, Ps[i], i, i == 0, is_flat)
    w = wrap('named', is_flat, Returns(tuple(give)), [P.pat for P in Ps], [True, False], pos)
    if max(pos) < n:
        r = w()
        h.check(len(r) == n, 'all results arrive')
        for j in range(n):
            h.same(r[j], want[j], 'results in place')
    else:
        h.raises(w, 'too few results rejected')


def rejected(h):
    Ps = [pats.build(h, s, 'p%d.' % i).pat for i, s in enumerate(SPECS['mix'])]
    k = int(h.int('k', 1, 3))
    m = int(h.int('m', 1, 3))
    f = int(h.int('f', 0, 3))
    retnums = [int(h.int('pos%d' % i, 0, 2)) for i in range(m)]
    free = True if f == 0 else [True] * f
    is_flat = bool(h.bool('is_flat'))
    ok = len(set(retnums)) == m and k == m and (f in (0, 1) or f == k)
    mk = lambda: wrap('named', is_flat, Returns(None), Ps[:k], free, retnums)
    if ok:
        mk()
        h.check(True, 'consistent specification accepted')
    else:
        h.raises(mk, 'inconsistent specification rejected')


def nested(h):
    is_flat = bool(h.bool('is_flat'))
    Ps = [pats.build(h, s, 'p%d.' % i).pat for i, s in enumerate(SPECS['mix'][:2])]
    for pp, free, retnums in (([Ps], True, [0, 1]), (Ps, True, [[0, 1]]), (Ps, [[True, False]], [0, 1]),
                              ([[Ps[0]], [Ps[1]]], True, [0, 1])):
        h.raises(lambda: wrap('named', is_flat, Returns(None), pp, free, retnums), 'two-dimensional lists rejected')


def both(h, specs, ki, ko, nargs, nrets, retdef=False):
    """the combined wrappers are the composition of both"""
    is_flat = bool(h.bool('is_flat'))
    Pi = [pats.build(h, s, 'i%d.' % i) for i, s in enumerate(SPECS[specs][:ki])]
    Po = [pats.build(h, s, 'o%d.' % i) for i, s in enumerate(SPECS[specs][::-1][:ko])]
    ipos = distinct(h, 'ipos', ki, nargs)
    opos = list(range(ko)) if retdef else distinct(h, 'opos', ko, nrets)
    fi = [bool(h.bool('fi%d' % i)) for i in range(ki)]
    fo = [bool(h.bool('fo%d' % i)) for i in range(ko)]
    give = [h.reals('a%d_' % j, (2,)) for j in range(nargs)]
    rets = [h.reals('r%d_' % j, (2,)) for j in range(nrets)]
    arrive, want = list(give), list(rets)
    for i, j in enumerate(ipos):
        give[j], arrive[j] = inputs(h, Pi[i], 'i%d' % i if False else i, fi[i], is_flat)
    for i, j in enumerate(opos):
        rets[j], want[j] = outputs(h, Po[i], 10 + i, fo[i], is_flat)
    f = Returns(tuple(rets))
    cls = paragami.FoldFunctionInputAndOutput if is_flat else paragami.FlattenFunctionInputAndOutput
    kw = {} if retdef else {'output_retnums': opos}
    w = cls(f, [P.pat for P in Pi], fi, ipos, [P.pat for P in Po], fo, **kw)
    x = h.real('kw')
    r = w(*give, kw=x)
    if not h.check(len(f.calls) == 1, 'called once'):
        return
    args, kwargs = f.calls[0]
    h.check(len(args) == nargs and set(kwargs) == {'kw'} and kwargs['kw'] is x, 'arguments')
    for j in range(nargs):
        if j in ipos:
            h.same(args[j], arrive[j], 'transformed argument')
        else:
            h.check(args[j] is give[j], 'other arguments')
    if not h.check(isinstance(r, tuple) and len(r) == nrets, 'number of results'):
        return
    for j in range(nrets):
        if j in opos:
            h.same(r[j], want[j], 'transformed result')
        else:
            h.check(r[j] is rets[j], 'other results')


def single_both(h):
    """one argument, one result, given singly"""
    is_flat = bool(h.bool('is_flat'))
    fi, fo = bool(h.bool('fi')), bool(h.bool('fo'))
    A = pats.build(h, ['num', [2], 'both'], 'a.')
    B = pats.build(h, ['psd', 2, False], 'b.')
    xa, va = inputs(h, A, 0, fi, is_flat)
    rb, wb = outputs(h, B, 1, fo, is_flat)
    f = Returns(rb)
    cls = paragami.FoldFunctionInputAndOutput if is_flat else paragami.FlattenFunctionInputAndOutput
    none = bool(h.bool('none'))
    w = cls(f, A.pat, fi, None if none else 0, B.pat, fo)
    r = w(xa)
    h.same(f.calls[0][0][0], va, 'argument')
    h.same(r, wb, 'result')


def refusal(h, specs, k, single):
    """the transformation is the pattern's own flattening or folding: what that refuses, the wrapper refuses"""
    is_flat = bool(h.bool('is_flat'))
    Ps = [pats.build(h, s, 'p%d.' % i) for i, s in enumerate(SPECS[specs][:k])]
    free = [bool(h.bool('free%d' % i)) for i in range(k)]
    dv = bool(h.bool('default_validate'))
    bad = int(h.int('bad', 0, k - 1))
    P = Ps[bad]
    if P.spec[0] != 'dict':
        P.pat.default_validate = dv
    give = [outputs(h, Q, i, free[i], is_flat)[0] for i, Q in enumerate(Ps)]
    if is_flat:
        n = pats.free_len(P.spec) if free[bad] else pats.flat_len(P.spec)
        give[bad] = h.reals('z', (n + int(h.int('more', 0, 1)),), -1.0, 1.0)
        ref = beh.outcome(lambda: P.pat.fold(give[bad], free=free[bad]))
    else:
        give[bad] = beh.anyvalue(h, P)
        ref = beh.outcome(lambda: P.pat.flatten(give[bad], free=free[bad]))
    f = Returns(give[0] if single else tuple(give))
    w = wrap('named', is_flat, f, [Q.pat for Q in Ps], free, list(range(k)))
    got = beh.outcome(lambda: w(h.real('x')))
    if not h.check(got[0] == ref[0], 'refused exactly when the pattern refuses',
                   lambda: 'wrapper %r, pattern %r' % (got, ref)):
        return
    if ref[0] == 'ok':
        h.same(got[1] if single else got[1][bad], ref[1], 'the caller gets what the pattern gives')


def tasks(tier):
    out = []
    for cls in ('named', 'base'):
        for k in (1, 2, 3):
            out.append(dict(name='call:%dof3:%s' % (k, cls), fn='call', cfg=dict(k=k, nrets=3, specs='mix', cls=cls)))
        out.append(dict(name='call:default:%s' % cls, fn='call',
                        cfg=dict(k=2, nrets=4, specs='mix', cls=cls, default=True)))
    out.append(dict(name='call:box2', fn='call', cfg=dict(k=2, nrets=3, specs='box', cls='named')))
    out.append(dict(name='call:sim2', fn='call', cfg=dict(k=2, nrets=3, specs='sim', cls='named')))
    for s in (SPECS['mix'][0], SPECS['mix'][1], SPECS['box'][0], SPECS['box'][1], SPECS['sim'][0]):
        out.append(dict(name='alone:' + pats.name(s), fn='alone', cfg=dict(spec=s)))
    for sp, k in (('mix', 1), ('mix', 2), ('box', 2), ('sim', 2)):
        out.append(dict(name='refusal:%s%d' % (sp, k), fn='refusal', cfg=dict(specs=sp, k=k, single=False),
                        max_paths=6000))
    for sp in ('mix', 'box', 'sim'):
        out.append(dict(name='refusal:single:%s' % sp, fn='refusal', cfg=dict(specs=sp, k=1, single=True),
                        max_paths=6000))
    out.append(dict(name='one_tuple', fn='one_tuple', cfg={}))
    out.append(dict(name='few', fn='few', cfg={}))
    out.append(dict(name='rejected', fn='rejected', cfg={}))
    out.append(dict(name='nested', fn='nested', cfg={}))
    out.append(dict(name='both:mix', fn='both', cfg=dict(specs='mix', ki=2, ko=2, nargs=3, nrets=2)))
    out.append(dict(name='both:mix13', fn='both', cfg=dict(specs='mix', ki=1, ko=2, nargs=2, nrets=3)))
    out.append(dict(name='both:box', fn='both', cfg=dict(specs='box', ki=2, ko=1, nargs=2, nrets=3, retdef=True)))
    out.append(dict(name='single_both', fn='single_both', cfg={}))
    if tier == 'thorough':
        for sp in SPECS:
            out.append(dict(name='call:3of4:' + sp, fn='call', cfg=dict(k=3, nrets=4, specs=sp, cls='named'),
                            max_paths=20000))
            out.append(dict(name='call:2of5:' + sp, fn='call', cfg=dict(k=2, nrets=5, specs=sp, cls='named'),
                            max_paths=20000))
            out.append(dict(name='both:' + sp, fn='both', cfg=dict(specs=sp, ki=2, ko=2, nargs=3, nrets=3),
                            max_paths=20000))
    return out
