"""C10: saving and loading a folded value preserves value, pattern and data."""
import os
import shutil
import tempfile
import numpy as np
import paragami
from . import pats, beh

META = {
    'bounds': 'every pattern type and containers nested up to 3 deep with symbolic bounds; every valid value and every '
              'value of the folded shape (valid or not); additional arrays of up to 6 symbolic entries; file names '
              'with and without extension, saving twice to one file',
    'outside': 'the npz container itself (numpy.savez / numpy.load are stubs in the encoding: each array is stored '
               'and returned unchanged; replays use real files in a scratch directory)',
    'assumptions': ['numpy.savez / numpy.load return the arrays they were given (contract stub)'],
}


class Dir:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='vf_c10_')
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def value(h, P):
    if pats.heavy(P.spec):
        return P.pat.fold(h.reals('y', (pats.free_len(P.spec),), -1.0, 1.0), free=True)
    return pats.valid(h, P)


def roundtrip(h, spec):
    P = pats.build(h, spec, free_default=h.choice('fd', [None, True, False]))
    v = value(h, P)
    extra = h.reals('e', (2, 3))
    more = h.reals('f', (2,))
    with Dir() as d:
        name = os.path.join(d, h.choice('ext', ['saved', 'saved.npz']))
        paragami.save_folded(name, v, P.pat, extra=extra, more=more, label=np.array([3, 4]))
        full = name if name.endswith('.npz') else name + '.npz'
        w, q, data = paragami.load_folded(full)
        h.same(w, v, 'loaded value == saved value')
        h.check(type(q) is type(P.pat) and bool(q == P.pat), 'loaded pattern == saved pattern')
        h.eq(data['extra'], extra, 'additional array unchanged')
        h.eq(data['more'], more, 'additional array unchanged')
        h.check(list(data['label']) == [3, 4], 'additional integers unchanged')
        h.check({'extra', 'more', 'label'} <= set(data.keys()), 'additional names')
        data.close()


def twice(h, spec):
    P = pats.build(h, spec)
    v = value(h, P)
    with Dir() as d:
        name = os.path.join(d, 'one')
        other = os.path.join(d, 'two.npz')
        paragami.save_folded(name, v, P.pat)
        Q = pats.build(h, ['num', [2], 'none'], 'q.')
        u = h.reals('u', (2,))
        paragami.save_folded(other, u, Q.pat, t=u)
        w, q, data = paragami.load_folded(name + '.npz')
        h.same(w, v, 'first file keeps its value')
        h.check(bool(q == P.pat), 'first file keeps its pattern')
        h.check('t' not in data.keys(), 'no data of another file')
        data.close()
        paragami.save_folded(name, u, Q.pat)
        w, q, data = paragami.load_folded(name + '.npz')
        h.same(w, u, 'saving again replaces the value')
        h.check(bool(q == Q.pat), 'saving again replaces the pattern')
        data.close()


def rejected(h, spec):
    P = pats.build(h, spec)
    z = beh.anyvalue(h, P)
    ok = bool(P.pat.validate_folded(z)[0])
    with Dir() as d:
        name = os.path.join(d, 'v.npz')
        r = beh.outcome(lambda: paragami.save_folded(name, z, P.pat))
        h.check((r[0] == 'ok') == ok, 'saved exactly when the pattern accepts the value')
        if ok:
            w, q, data = paragami.load_folded(name)
            h.same(w, z, 'accepted value is loaded again')
            data.close()
        else:
            h.raises(lambda: paragami.load_folded(name), 'a rejected value leaves no file')
            h.check(not os.path.exists(name), 'a rejected value leaves no file on disk')


def tasks(tier):
    out = []
    fam = pats.family(tier, light=(tier == 'quick'))
    for s in fam:
        opt = s[0] == 'psd' and s[1] > 3
        out.append(dict(name='roundtrip:' + pats.name(s), fn='roundtrip', cfg={'spec': s}, optional=opt))
    rej = [['num', [2], k] for k in pats.KINDS] + [
        ['num', [1], 'both', 'scalar'], ['psd', 2, True], ['psd', 2, False], ['simplex', 2, [1]], ['simplex', 3, []],
        ['dict', [['a', ['num', [1], 'both']], ['m', ['psd', 2, True]]]],
        ['dict', [['s', ['simplex', 2, [1]]], ['a', ['num', [1], 'ub']]]],
        ['arr', [2], ['num', [1], 'both']], ['arr', [2], ['simplex', 2, []]],
        ['dict', [['d', ['dict', [['x', ['num', [2], 'lb']]]]]]]]
    for s in rej:
        out.append(dict(name='rejected:' + pats.name(s), fn='rejected', cfg={'spec': s}))
        out.append(dict(name='twice:' + pats.name(s), fn='twice', cfg={'spec': s}))
    return out
