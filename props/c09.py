"""C09: a pattern restored from its JSON text is the same pattern."""
import json
import numpy as np
import paragami
from . import pats, beh

META = {
    'bounds': 'every pattern type and containers nested up to 3 deep, symbolic bounds, every combination of default '
              'settings (free None/True/False, validation on/off) independently at each level; the restored pattern '
              'is compared on every free vector, flat vector and folded value of the right shape (larger shapes of up to 60 '
              'entries: every free and flat vector)',
    'outside': 'sizes beyond the configurations; numpy integer sizes and non-string keys, which the json module '
               'itself does not accept; decimal text of the bounds (json writes binary64 exactly; the encoding passes '
               'symbolic bounds through the text as tokens, and replays use the real json module)',
    'assumptions': ['json.dumps / json.loads reproduce numbers exactly (contract stub)'],
}


class Custom(paragami.NumericArrayPattern):
    pass


class Unregistered(paragami.NumericArrayPattern):
    pass


paragami.register_pattern_json(Custom, allow_overwrite=True)


def roundtrip(h, spec, full=True, validate=True):
    P = beh.varied(h, spec) if full else pats.build(h, spec)
    text = P.pat.to_json()
    h.check(isinstance(text, str), 'JSON text is a string')
    for how, q in (('registry', paragami.get_pattern_from_json(text)),
                   ('class', type(P.pat).from_json(text))):
        h.check(type(q) is type(P.pat), how + ': same type')
        h.check(bool(q == P.pat) and bool(P.pat == q), how + ': restored pattern is equal')
        h.check(q.to_json() == text, how + ': same JSON again')
        levels(h, P, q, how)
    beh.behaviour(h, P, q, validate=validate)


def levels(h, P, q, how):
    p = P.pat
    h.check(q.free_default is p.free_default, how + ': default free setting at every level')
    k = P.spec[0]
    if k in ('num', 'psd', 'simplex'):
        h.check(q.default_validate is p.default_validate, how + ': default validation at every level')
    if k == 'num':
        h.same(list(q.bounds()), [P.lb, P.ub], how + ': bounds')
    if k == 'psd':
        h.eq(q.diag_lb(), P.lb, how + ': diagonal bound')
    if k == 'dict':
        h.check(list(q.keys()) == [n for n, _ in P.kids], how + ': key order')
        for n, c in P.kids:
            h.check(type(q[n]) is type(c.pat), how + ': same type of entries')
            levels(h, c, q[n], how)
    else:
        h.check(tuple(q.shape()) == tuple(P.shape) and type(q.shape()) is tuple, how + ': shape')
    if k == 'arr':
        h.check(tuple(q.array_shape()) == tuple(P.spec[1]), how + ': array shape')
        levels(h, P.base, q.base_pattern(), how)


ALL = [['num', [2], 'both'], ['num', [2], 'both', 'vec'], ['num', [1], 'lb', 'scalar'], ['psd', 2, True],
       ['simplex', 3, [2]], ['dict', [['a', ['num', [1], 'lb']]]], ['arr', [2], ['num', [1], 'ub']]]


def wrongtype(h, i):
    P = pats.build(h, ALL[i])
    text = P.pat.to_json()
    classes = [paragami.NumericArrayPattern, paragami.NumericVectorPattern, paragami.NumericScalarPattern,
               paragami.PSDSymmetricMatrixPattern, paragami.SimplexArrayPattern, paragami.PatternDict,
               paragami.PatternArray]
    cls = h.choice('cls', classes)
    if cls is type(P.pat):
        h.check(bool(cls.from_json(text) == P.pat), 'own type accepted')
    else:
        h.raises(lambda: cls.from_json(text), 'JSON of another pattern type is rejected')
    d = json.loads(text)
    del d['pattern']
    bare = json.dumps(d)
    h.raises(lambda: paragami.get_pattern_from_json(bare), 'text without a type is rejected')
    h.raises(lambda: type(P.pat).from_json(bare), 'text without a type is rejected by the class')
    d['pattern'] = 'no.such.Pattern'
    other = json.dumps(d)
    h.raises(lambda: paragami.get_pattern_from_json(other), 'unregistered type is rejected')
    h.raises(lambda: type(P.pat).from_json(other), 'unregistered type is rejected by the class')


def registry(h):
    from paragami import pattern_containers as pc
    store = [v for k, v in vars(pc).items() if isinstance(v, dict) and v and
             all(isinstance(x, type) for x in v.values())]
    saved = [dict(d) for d in store]
    try:
        lb = h.real('lb', -3.0, -1.0)
        u = Unregistered((2,), lb=lb)
        h.raises(lambda: paragami.get_pattern_from_json(u.to_json()), 'not registered: rejected')
        d = paragami.PatternDict()
        d['u'] = u
        a = paragami.PatternArray((2,), u)
        h.raises(lambda: paragami.get_pattern_from_json(d.to_json()), 'dictionary of an unregistered type')
        h.raises(lambda: paragami.get_pattern_from_json(a.to_json()), 'array of an unregistered type')
        c = Custom((2,), lb=lb)
        q = paragami.get_pattern_from_json(c.to_json())
        h.check(type(q) is Custom and bool(q == c), 'registered user type restored')

        class Impostor(paragami.NumericArrayPattern):
            @classmethod
            def json_typename(cls):
                return Custom.json_typename()

        h.raises(lambda: paragami.register_pattern_json(Impostor), 'registered type cannot be replaced')
        h.raises(lambda: paragami.register_pattern_json(Impostor, allow_overwrite=False),
                 'registered type cannot be replaced (explicit)')
        h.check(type(paragami.get_pattern_from_json(c.to_json())) is Custom, 'refused replacement changes nothing')
        paragami.register_pattern_json(Impostor, allow_overwrite=True)
        h.check(type(paragami.get_pattern_from_json(c.to_json())) is Impostor, 'replaced when overwriting is allowed')
        paragami.register_pattern_json(Custom, allow_overwrite=True)
        paragami.register_pattern_json(Unregistered)
        q = paragami.get_pattern_from_json(d.to_json())
        h.check(bool(q == d), 'registered later: restored')
        for cls in (paragami.NumericArrayPattern, paragami.NumericVectorPattern, paragami.NumericScalarPattern,
                    paragami.PSDSymmetricMatrixPattern, paragami.SimplexArrayPattern, paragami.PatternDict,
                    paragami.PatternArray):
            h.raises(lambda: paragami.register_pattern_json(cls), 'built-in types are registered')
    finally:
        for dct, s in zip(store, saved):
            dct.clear()
            dct.update(s)


NEST = [['dict', [['b', ['num', [1], 'both']], ['a', ['simplex', 2, [1]]]]],
        ['arr', [2], ['num', [2], 'both']], ['arr', [2], ['psd', 2, True]],
        ['arr', [2, 1], ['simplex', 3, [1]]],
        ['dict', [['d', ['dict', [['y', ['num', [1], 'ub', 'scalar']]]]]]],
        ['dict', [['q', ['arr', [2], ['psd', 1, True]]]]],
        ['arr', [2], ['arr', [1, 2], ['num', [1], 'lb']]]]


def tasks(tier):
    out = []
    leaves = [['num', [2], k] for k in pats.KINDS] + [['num', [1, 2], 'both'], ['num', [2], 'ub', 'vec'],
                                                      ['num', [1], 'both', 'scalar'], ['num', [1], 'none', 'scalar'],
                                                      ['psd', 1, True], ['psd', 2, True], ['psd', 3, False],
                                                      ['simplex', 2, []], ['simplex', 3, [1]], ['simplex', 2, [1, 2]]]
    for s in leaves + NEST:
        out.append(dict(name='roundtrip:' + pats.name(s), fn='roundtrip', cfg={'spec': s}))
    for s in pats.family(tier):
        if s[0] in ('dict', 'arr'):
            out.append(dict(name='plain:' + pats.name(s), fn='roundtrip', cfg={'spec': s, 'full': False},
                            optional=tier == 'thorough'))
    for s in pats.large('free') + pats.empties():
        if pats.flat_len(s) <= 60:
            out.append(dict(name='large:' + pats.name(s), fn='roundtrip',
                            cfg={'spec': s, 'full': False, 'validate': False}))
    for i in range(len(ALL)):
        out.append(dict(name='wrongtype:' + pats.name(ALL[i]), fn='wrongtype', cfg={'i': i}))
    out.append(dict(name='registry', fn='registry', cfg={}))
    return out
