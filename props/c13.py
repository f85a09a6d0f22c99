"""C13: dictionary patterns stay consistent through any editing history."""
from collections import OrderedDict
import numpy as np
import paragami
from . import pats, beh

META = {
    'bounds': {
        'quick': 'every history of 3 edits (4 with two kinds of entry) of two keys from the empty and from a filled dictionary, '
                 'then every folded/flat/free value of the result; locking at every point of a history of 3, by being set as a new or replaced entry; every operation '
                 'between the edits (histories of 2)',
        'thorough': 'every history of 4 edits of two keys with four kinds of entry, 3 edits with three keys, locking at '
                    'every point',
    },
    'outside': 'longer histories and more keys; subclasses of PatternDict as entries',
    'assumptions': ['exact real arithmetic'],
}

ENTRY = {'vec': ['num', [2], 'lb'], 'one': ['num', [1], 'none'], 'mat': ['psd', 2, True], 'sim': ['simplex', 2, [1]],
         'sub': ['dict', [['x', ['num', [1], 'ub']]]]}


def run(h, d, shadow, nops, keys, kinds, watch):
    pool = {}
    for kind in kinds:
        pool[kind] = pats.build(h, ENTRY[kind], kind + '.')
    choices = [('set', k, e) for k in keys for e in kinds] + [('del', k, None) for k in keys]
    for i in range(nops):
        op, k, e = h.choice('op%d' % i, choices)
        if op == 'set':
            d[k] = pool[e].pat
            shadow[k] = pool[e]
        elif k in shadow:
            del d[k]
            del shadow[k]
        else:
            h.raises(lambda: d.__delitem__(k), 'deleting a missing key is an error')
        if watch == 'all':
            observe(h, d)
        if watch:
            glance(h, d, shadow)


def observe(h, d):
    """every operation between edits; nothing is remembered wrongly"""
    for free in (True, False):
        y = np.zeros(d.flat_length(free=free)) + 0.25
        for f in (lambda: d.flatten(d.fold(y, free=free, validate_value=False), free=free, validate_value=False),
                  lambda: d.flat_indices(d.empty_bool(True), free=free), lambda: d.flat_names(free),
                  lambda: d.to_json(), lambda: d == paragami.get_pattern_from_json(d.to_json()),
                  lambda: d.unfreeing_jacobian(d.empty(valid=True)), lambda: d.freeing_jacobian(d.empty(valid=True)),
                  lambda: str(d), lambda: d.as_dict(), lambda: d.validate_folded(d.empty(valid=True)),
                  lambda: d.fold(np.zeros(99), free=free)):
            try:
                f()
            except Exception:
                pass


def glance(h, d, shadow):
    for free in (True, False):
        n = sum((pats.free_len if free else pats.flat_len)(c.spec) for c in shadow.values())
        h.check(d.flat_length(free=free) == n, 'length after each edit')
    h.check(list(d.keys()) == list(shadow.keys()), 'keys after each edit')


def compare(h, d, shadow, fd=None):
    fresh = paragami.PatternDict(free_default=fd)
    for k, c in shadow.items():
        fresh[k] = c.pat
    spec = ['dict', [[k, c.spec] for k, c in shadow.items()]]
    P = pats.P(spec, fresh, '', kids=list(shadow.items()))
    glance(h, d, shadow)
    h.check(bool(d == fresh) and bool(fresh == d), 'equals a freshly built dictionary')
    for k, c in shadow.items():
        h.check(bool(d[k] == c.pat), 'entry is the pattern that was set')
    part = h.choice('look', ['behaviour', 'roundtrip', 'json', 'wrong'])
    if part == 'behaviour':
        beh.behaviour(h, P, d, validate=False)
    elif part == 'roundtrip':
        y = h.reals('fy', (pats.free_len(spec),), -1.0, 1.0)
        v = d.fold(y, free=True)
        h.check(list(v.keys()) == list(shadow.keys()), 'folded keys in the current order')
        f = d.flatten(v, free=True)
        h.eq(f, y, 'flatten(fold) on the edited dictionary')
        exp = []
        for k, c in shadow.items():
            exp += list(c.pat.flatten(v[k], free=False))
        h.eq(d.flatten(v, free=False), h.arr(exp), 'flat values in the current order')
    elif part == 'json':
        q = paragami.get_pattern_from_json(d.to_json())
        h.check(bool(q == d) and bool(q == fresh), 'JSON of the edited dictionary')
    else:
        for free in (True, False):
            n = d.flat_length(free=free)
            for m in (n + 1, n - 1):
                if m >= 0:
                    h.raises(lambda: d.fold(np.zeros(m), free=free), 'other lengths are rejected')


def history(h, nops, keys, kinds, start=(), watch=True):
    d = paragami.PatternDict(free_default=None)
    shadow = OrderedDict()
    for i, k in enumerate(start):
        c = pats.build(h, ENTRY[k], 's%d.' % i)
        key = ['a', 'b', 'c'][i]
        d[key] = c.pat
        shadow[key] = c
    run(h, d, shadow, nops, keys, kinds, watch)
    compare(h, d, shadow)


def locked(h, nops, how):
    d = paragami.PatternDict()
    shadow = OrderedDict()
    c = pats.build(h, ENTRY['vec'], 's.')
    d['a'] = c.pat
    shadow['a'] = c
    run(h, d, shadow, nops, ('a', 'b'), ('one', 'sim'), False)
    outer = None
    if how == 'lock':
        d.lock()
    else:
        outer = paragami.PatternDict()
        outer['first'] = paragami.NumericVectorPattern(1)
        if how == 'replaced':
            # in the place of something else
            outer['inner'] = paragami.NumericVectorPattern(2) if 'a' in d.keys() else paragami.PatternDict()
        if how == 'deleted':
            outer['inner'] = d
            del outer['inner']
        outer['inner'] = d
        if how == 'deep':
            top = paragami.PatternDict()
            top['o'] = outer
            h.raises(lambda: outer.__setitem__('x', c.pat), 'a dictionary that holds others is locked as well')
            h.raises(lambda: outer.__delitem__('first'), 'a dictionary that holds others is locked as well')
    n = pats.build(h, ENTRY['mat'], 'n.')
    for t in range(2):
        op = h.choice('after%d' % t, ['seta', 'setb', 'dela', 'delb', 'setc'])
        if op[:3] == 'set':
            h.raises(lambda: d.__setitem__(op[3], n.pat), 'locked: no entry can be set')
        else:
            h.raises(lambda: d.__delitem__(op[3]), 'locked: no entry can be deleted')
    compare(h, d, shadow)
    if outer is not None:
        free = h.choice('free', [True, False])
        h.check(outer.flat_length(free=free) == 1 + d.flat_length(free=free), 'length of the outer dictionary')


def tasks(tier):
    k2, k3 = ('a', 'b'), ('a', 'b', 'c')
    out = [dict(name='history:empty:vec,mat', fn='history', cfg=dict(nops=3, keys=k2, kinds=('vec', 'mat'))),
           dict(name='history:empty:one,sim', fn='history', cfg=dict(nops=3, keys=k2, kinds=('one', 'sim'))),
           dict(name='history:empty:sub', fn='history', cfg=dict(nops=4, keys=k2, kinds=('sub',))),
           dict(name='history:filled:vec,sub', fn='history',
                cfg=dict(nops=2, keys=k3, kinds=('vec', 'sub'), start=('one', 'mat', 'vec'))),
           dict(name='history:filled:mat', fn='history',
                cfg=dict(nops=3, keys=k2, kinds=('mat',), start=('sim', 'vec'))),
           dict(name='history:unwatched', fn='history',
                cfg=dict(nops=3, keys=k2, kinds=('vec', 'one'), start=('mat',), watch=False)),
           dict(name='history:observed', fn='history',
                cfg=dict(nops=2, keys=k2, kinds=('vec', 'mat'), start=('one', 'sim'), watch='all')),
           dict(name='history:observed:sub', fn='history',
                cfg=dict(nops=2, keys=k2, kinds=('sub', 'one'), start=('vec',), watch='all'))]
    for how in ('lock', 'inner', 'deep', 'replaced', 'deleted'):
        out.append(dict(name='locked:' + how, fn='locked', cfg=dict(nops=1, how=how)))
    if tier == 'thorough':
        out += [dict(name='history:4:vec,mat', fn='history', cfg=dict(nops=4, keys=k2, kinds=('vec', 'mat')),
                     max_paths=20000),
                dict(name='history:4:one,sim', fn='history', cfg=dict(nops=4, keys=k2, kinds=('one', 'sim')),
                     max_paths=30000),
                dict(name='history:4:sub,vec', fn='history', cfg=dict(nops=4, keys=k2, kinds=('sub', 'vec')),
                     max_paths=20000),
                dict(name='history:3keys', fn='history', cfg=dict(nops=3, keys=k3, kinds=('vec', 'mat'),
                                                                  start=('one', 'sub')), max_paths=20000),
                dict(name='history:5', fn='history', cfg=dict(nops=5, keys=k2, kinds=('vec',), start=('one',)),
                     max_paths=20000)]
        for how in ('lock', 'inner', 'deep'):
            out.append(dict(name='locked2:' + how, fn='locked', cfg=dict(nops=2, how=how), max_paths=20000))
    return out
