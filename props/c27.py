"""C27: user-defined patterns take part in everything the library does."""
from collections import OrderedDict, namedtuple
import autograd.numpy as anp
import numpy as np
import scipy.sparse
import paragami
from paragami.base_patterns import Pattern

META = {
    'bounds': 'two user patterns written from the abstract interface (increasing vectors of length 1-4 with a symbolic scale; a named '
              'tuple of a positive level and deviations summing to zero, free vector shorter than the flat vector) and a '
              'subclass of PatternDict, alone, in dictionaries with built-in patterns (nested 3 deep) and in arrays (also '
              '2-dimensional, also nested); every free vector, valid value, mask, scale and random number',
    'outside': 'other user classes; user classes that violate the abstract interface',
    'assumptions': ['exact real arithmetic', 'numpy.random.random returns independent numbers in [0, 1)'],
}


class Increasing(Pattern):
    """vectors with increasing entries"""

    def __init__(self, size, scale=1.0, free_default=None):
        self.size, self.scale = size, scale
        super().__init__(size, size, free_default=free_default)

    def __str__(self):
        return 'Increasing %d' % self.size

    def as_dict(self):
        return {'pattern': self.json_typename(), 'size': self.size, 'scale': self.scale,
                'free_default': self.free_default}

    def empty(self, valid):
        return np.arange(float(self.size)) if valid else np.zeros(self.size)

    def validate_folded(self, folded_val, validate_value=None):
        if np.shape(folded_val) != (self.size,):
            return False, 'shape'
        if validate_value is None or validate_value:
            for i in range(1, self.size):
                if not folded_val[i] > folded_val[i - 1]:
                    return False, 'order'
        return True, ''

    def fold(self, flat_val, free=None, validate_value=None):
        free = self._free_with_default(free)
        flat_val = anp.atleast_1d(flat_val)
        if flat_val.shape != (self.size,):
            raise ValueError('length')
        if not free:
            ok, msg = self.validate_folded(flat_val, validate_value)
            if not ok:
                raise ValueError(msg)
            return anp.array(flat_val)
        v = [flat_val[0]]
        for i in range(1, self.size):
            v.append(v[-1] + self.scale * anp.exp(flat_val[i]))
        return anp.array(v)

    def flatten(self, folded_val, free=None, validate_value=None):
        free = self._free_with_default(free)
        ok, msg = self.validate_folded(folded_val, validate_value)
        if not ok:
            raise ValueError(msg)
        if not free:
            return anp.array(folded_val)
        return anp.array([folded_val[0]] + [anp.log((folded_val[i] - folded_val[i - 1]) / self.scale)
                                            for i in range(1, self.size)])

    def flat_indices(self, folded_bool, free=None):
        free = self._free_with_default(free)
        w = np.where(folded_bool)[0]
        if free and len(w):
            return np.arange(w[-1] + 1)
        return w


Level = namedtuple('Level', ['level', 'dev'])


class Balanced(Pattern):
    """a positive level and n deviations that sum to zero"""

    def __init__(self, n, free_default=None):
        self.n = n
        super().__init__(n + 1, n, free_default=free_default)

    def __str__(self):
        return 'Balanced %d' % self.n

    def as_dict(self):
        return {'pattern': self.json_typename(), 'n': self.n, 'free_default': self.free_default}

    def empty(self, valid):
        return Level(1.0, np.zeros(self.n))

    def validate_folded(self, folded_val, validate_value=None):
        if len(folded_val) != 2 or np.shape(folded_val[1]) != (self.n,):
            return False, 'shape'
        if validate_value is None or validate_value:
            if not folded_val[0] > 0:
                return False, 'level'
        return True, ''

    def fold(self, flat_val, free=None, validate_value=None):
        free = self._free_with_default(free)
        flat_val = anp.atleast_1d(flat_val)
        if flat_val.shape != (self.flat_length(free),):
            raise ValueError('length')
        if free:
            dev = flat_val[1:]
            return Level(anp.exp(flat_val[0]), anp.hstack([dev, -anp.sum(dev, keepdims=True)]))
        val = Level(flat_val[0], flat_val[1:])
        ok, msg = self.validate_folded(val, validate_value)
        if not ok:
            raise ValueError(msg)
        return val

    def flatten(self, folded_val, free=None, validate_value=None):
        free = self._free_with_default(free)
        ok, msg = self.validate_folded(folded_val, validate_value)
        if not ok:
            raise ValueError(msg)
        level, dev = folded_val
        if free:
            return anp.hstack([anp.log(anp.atleast_1d(level)), dev[:-1]])
        return anp.hstack([anp.atleast_1d(level), dev])

    def flat_indices(self, folded_bool, free=None):
        free = self._free_with_default(free)
        level, dev = folded_bool
        if not free:
            return np.where(np.hstack([[level], dev]))[0]
        ix = [0] if level else []
        if dev[-1]:
            ix += list(range(1, self.n))
        else:
            ix += [1 + i for i in range(self.n - 1) if dev[i]]
        return np.array(ix, dtype=int)


class Named(paragami.PatternDict):
    pass


for c in (Increasing, Balanced, Named):
    paragami.register_pattern_json(c, allow_overwrite=True)


# --------------------------------------------------------------- the oracle
def build(h, s, p='', fd=None):
    """spec -> (pattern, tree); tree knows the lengths and the formulas"""
    k = s[0]
    kw = {} if fd is None else {'free_default': fd}
    if k == 'inc':
        sc = h.real(p + 'sc', 0.5, 2.0)
        h.assume(sc > 0)
        return Increasing(s[1], sc, **kw), ('inc', s[1], sc)
    if k == 'bal':
        return Balanced(s[1], **kw), ('bal', s[1])
    if k == 'num':
        return paragami.NumericArrayPattern(shape=(s[1],), **kw), ('num', s[1])
    if k in ('dict', 'named'):
        pat = (Named if k == 'named' else paragami.PatternDict)(**kw)
        kids = []
        for n, t in s[1]:
            q, o = build(h, t, p + n + '.', fd)
            pat[n] = q
            kids.append((n, o))
        return pat, ('dict', kids)
    q, o = build(h, s[2], p + 'b.', fd)
    return paragami.PatternArray(tuple(s[1]), q, **kw), ('arr', tuple(s[1]), o)


def lens(o):
    """(flat length, free length)"""
    k = o[0]
    if k in ('inc', 'num'):
        return o[1], o[1]
    if k == 'bal':
        return o[1] + 1, o[1]
    if k == 'dict':
        ls = [lens(c) for _, c in o[1]]
        return sum(a for a, _ in ls), sum(b for _, b in ls)
    m = int(np.prod(o[1]))
    return tuple(m * a for a in lens(o[2]))


def shape(o):
    return (o[1],) if o[0] in ('inc', 'num') else tuple(o[1]) + shape(o[2])


def unfree(h, o, y):
    """flat entries of the free vector y by our own formulas"""
    k = o[0]
    if k == 'num':
        return list(y)
    if k == 'inc':
        v = [y[0]]
        for e in y[1:]:
            v.append(v[-1] + o[2] * np.exp(e))
        return v
    if k == 'bal':
        t = 0.0
        for e in y[1:]:
            t = t - e
        return [np.exp(y[0])] + list(y[1:]) + [t]
    subs = [c for _, c in o[1]] if k == 'dict' else [o[2]] * int(np.prod(o[1]))
    out, i = [], 0
    for c in subs:
        n = lens(c)[1]
        out += unfree(h, c, y[i:i + n])
        i += n
    return out


def entries(o, v):
    """flat entries of a folded value, documented layout"""
    if o[0] == 'dict':
        return [e for n, c in o[1] for e in entries(c, v[n])]
    if o[0] == 'bal':
        return [v.level] + list(v.dev)
    return list(np.asarray(v).ravel())


def tree(h, o, f):
    """a folded value whose entries are given by f()"""
    if o[0] == 'dict':
        return OrderedDict((n, tree(h, c, f)) for n, c in o[1])
    if o[0] == 'bal':
        return Level(f(), np.array([f() for _ in range(o[1])]))
    return np.array([f() for _ in range(int(np.prod(shape(o))))]).reshape(shape(o))


def form(h, o, v, label):
    if o[0] == 'dict':
        ok = isinstance(v, dict) and list(v.keys()) == [n for n, _ in o[1]]
        h.check(ok, label + ': keys')
        if ok:
            for n, c in o[1]:
                form(h, c, v[n], label)
    elif o[0] == 'bal':
        h.check(type(v) is Level and np.shape(v.dev) == (o[1],), label + ': the user type')
    else:
        h.check(np.shape(v) == shape(o), label + ': shape')


def transform(h, spec):
    pat, o = build(h, spec)
    n, nf = lens(o)
    for free, m in ((False, n), (True, nf)):
        h.check(pat.flat_length(free=free) == m and type(pat.flat_length(free=free)) is int, 'length')
    y = h.reals('y', (nf,), -1.0, 1.0)
    v = pat.fold(y, free=True)
    form(h, o, v, 'fold')
    exp = h.arr(unfree(h, o, y))
    h.eq(h.arr(entries(o, v)), exp, 'folded entries')
    h.eq(pat.flatten(v, free=True, validate_value=False), y, 'flatten(fold)')
    h.eq(pat.flatten(v, free=False, validate_value=False), exp, 'flat layout')
    x = h.reals('x', (n,), -1.0, 1.0)
    w = pat.fold(x, free=False, validate_value=False)
    form(h, o, w, 'fold of a flat vector')
    h.eq(h.arr(entries(o, w)), x, 'flat layout of fold')
    h.eq(pat.flatten(w, free=False, validate_value=False), x, 'flatten(fold) of flat vectors')
    for free, m in ((False, n), (True, nf)):
        h.raises(lambda: pat.fold(np.zeros(m + 1), free=free), 'longer vectors are rejected', ValueError)
        h.raises(lambda: pat.fold(np.zeros(m - 1), free=free), 'shorter vectors are rejected', ValueError)
    h.raises(lambda: pat.fold(y), 'free setting is required', ValueError)


def valids(h, o, x):
    """(condition that the flat entries x form a valid value, rest)"""
    k = o[0]
    if k in ('num', 'inc'):
        n = o[1]
        c = h.And(*[x[i] > x[i - 1] for i in range(1, n)]) if k == 'inc' and n > 1 else True
        return c, x[n:]
    if k == 'bal':
        return x[0] > 0, x[o[1] + 1:]
    subs = [c for _, c in o[1]] if k == 'dict' else [o[2]] * int(np.prod(o[1]))
    cs = []
    for s in subs:
        c, x = valids(h, s, x)
        cs.append(c)
    return h.And(*cs), x


def validation(h, spec):
    """the validation of the user pattern decides, also within containers"""
    pat, o = build(h, spec)
    x = list(h.reals('x', (lens(o)[0],), -1.0, 1.0))
    good, rest = valids(h, o, x)
    it = iter(x)
    z = tree(h, o, lambda: next(it))
    if h.symbolic and spec[0] in ('arr',):
        z = h.arr(x).reshape(shape(o))
    ok, msg = pat.validate_folded(z)
    h.check(h.Iff(bool(ok), good), 'accepted iff every part is valid')
    h.check(pat.validate_folded(z, validate_value=False)[0], 'values are not checked when not asked for')
    if ok:
        h.eq(pat.flatten(z, free=False), h.arr(x), 'valid values are flattened')
        w = pat.fold(h.arr(x), free=False)
        h.eq(h.arr(entries(o, w)), h.arr(x), 'valid values are folded')
    else:
        h.raises(lambda: pat.flatten(z, free=False), 'invalid values are rejected by flatten', ValueError)
        h.raises(lambda: pat.flatten(z, free=True), 'invalid values are rejected by flatten', ValueError)
        h.raises(lambda: pat.fold(h.arr(x), free=False), 'invalid values are rejected by fold', ValueError)


def jacobians(h, spec):
    pat, o = build(h, spec)
    n, nf = lens(o)
    y = h.reals('y', (nf,), -1.0, 1.0)
    v = pat.fold(y, free=True)
    T = h.jac(lambda t: h.arr(unfree(h, o, t)), y)
    J = pat.unfreeing_jacobian(v, sparse=False)
    h.check(isinstance(J, np.ndarray) and J.shape == (n, nf), 'dense array of the documented shape')
    h.eq(J, T, 'unfreeing jacobian', **h.dtol)
    for S in (pat.unfreeing_jacobian(v), pat.unfreeing_jacobian(v, sparse=True)):
        h.check(scipy.sparse.issparse(S), 'sparse')
        h.eq(np.asarray(S.toarray()), J, 'sparse == dense')
    F = pat.freeing_jacobian(v, sparse=False)
    h.check(isinstance(F, np.ndarray) and F.shape == (nf, n), 'dense array of the documented shape')
    h.eq(np.dot(F, T), np.eye(nf), 'freeing . d flat / d free == identity', **h.dtol)
    for S in (pat.freeing_jacobian(v), pat.freeing_jacobian(v, sparse=True)):
        h.check(scipy.sparse.issparse(S), 'sparse')
        h.eq(np.asarray(S.toarray()), F, 'sparse == dense')
    x = h.arr(unfree(h, o, y))
    fl = lambda t: pat.flatten(pat.fold(t, free=False, validate_value=False), free=True, validate_value=False)
    if h.symbolic:
        z = h.reals('z', (n,), -1.0, 1.0)
        it = iter(z)
        good, rest = valids(h, o, list(z))
        h.assume(good)
        F2, T2 = pat.freeing_jacobian(pat.fold(z, free=False), sparse=False), h.jac(fl, z)
        h.eq(F2, T2, 'freeing partial derivatives')
    else:
        h.eq(F, h.jac(fl, x), 'freeing partial derivatives', **h.dtol)


def logdet(h, i):
    """without an own definition: refused or right, never a wrong number"""
    pat, o = build(h, SPECS[i])
    y = h.reals('y', (lens(o)[1],), -1.0, 1.0)
    v = pat.fold(y, free=True)
    logdet = 0.0
    for e in y[1:]:
        logdet = logdet + e + np.log(o[2])
    for f, sign in ((pat.log_abs_det_freeing_jacobian, -1.0), (pat.log_abs_det_unfreeing_jacobian, 1.0)):
        try:
            r = f(v)
        except NotImplementedError:
            h.check(True, 'no default log determinant')
        else:
            h.eq(r, sign * logdet, 'log determinant')


def helpers(h, spec):
    pat, o = build(h, spec)
    n, nf = lens(o)
    for val in (True, False):
        m = pat.empty_bool(val)
        form(h, o, m, 'empty_bool')
        h.check(len(entries(o, m)) == n and all(bool(e) is val for e in entries(o, m)), 'filled with the truth value')
    v = pat.random()
    form(h, o, v, 'random')
    # one uniform number per free entry, in order of the free vector
    h.check(h.nrand == nf, 'one random number per free entry')
    f = pat.flatten(v, free=True, validate_value=False)
    h.check(len(f) == nf, 'one random number per free entry')
    for e in f:
        h.check(h.And(0.0 <= e + 1e-9, e - 1e-9 < 1.0), 'random values are folds of numbers in [0, 1)')
    for free, m in ((False, n), (True, nf)):
        names = list(pat.flat_names(free))
        h.check(names == names_of(o, free), 'names', lambda: '%r' % names)
    e = pat.empty(valid=True)
    form(h, o, e, 'empty')
    h.check(pat.validate_folded(e)[0], 'the empty value is valid')


def names_of(o, free):
    if o[0] == 'dict':
        return [n + '_' + t for n, c in o[1] for t in names_of(c, free)]
    if o[0] == 'num':
        return ['[%d]' % i for i in range(o[1])] if NUMNAMES else [str(i) for i in range(o[1])]
    return [str(i) for i in range(lens(o)[1 if free else 0])]


NUMNAMES = list(paragami.NumericVectorPattern(1).flat_names(True)) == ['[0]']


def sources(o, i0=0):
    """per flat entry the free positions it depends on"""
    k = o[0]
    if k == 'num':
        return [[i0 + i] for i in range(o[1])]
    if k == 'inc':
        return [[i0 + j for j in range(i + 1)] for i in range(o[1])]
    if k == 'bal':
        return [[i0]] + [[i0 + 1 + i] for i in range(o[1] - 1)] + [[i0 + 1 + i for i in range(o[1] - 1)]]
    subs = [c for _, c in o[1]] if k == 'dict' else [o[2]] * int(np.prod(o[1]))
    out = []
    for c in subs:
        out += sources(c, i0)
        i0 += lens(c)[1]
    return out


def indices(h, spec):
    pat, o = build(h, spec)
    n, nf = lens(o)
    bits = [bool(h.bool('m%d' % i)) for i in range(n)]
    it = iter(bits)
    m = tree(h, o, lambda: next(it))
    ix = pat.flat_indices(m, free=False)
    h.check(list(ix) == [i for i in range(n) if bits[i]], 'non-free indices', lambda: repr(ix))
    ix = pat.flat_indices(m, free=True)
    src = sources(o)
    exp = sorted(set(j for i in range(n) if bits[i] for j in src[i]))
    h.check(sorted(int(i) for i in ix) == exp, 'free indices', lambda: '%r vs %r' % (ix, exp))


def store(h, spec, fd):
    pat, o = build(h, spec, fd=fd)
    n, nf = lens(o)
    text = pat.to_json()
    y = h.reals('y', (nf,), -1.0, 1.0)
    for q in (paragami.get_pattern_from_json(text), type(pat).from_json(text)):
        h.check(type(q) is type(pat), 'type')
        h.check(bool(q == pat) and bool(pat == q), 'equal')
        h.check(q.free_default is fd, 'default free setting')
        h.eq(h.arr(entries(o, q.fold(y, free=True))), h.arr(unfree(h, o, y)), 'restored pattern folds the same')
        if fd is not None:
            h.check(q.flat_length() == (nf if fd else n), 'default length')
    v = pat.fold(y, free=True)
    import tempfile
    import os
    with tempfile.TemporaryDirectory() as d:
        fn = os.path.join(d, 'x.npz')
        paragami.save_folded(fn, v, pat)
        w, q, data = paragami.load_folded(fn)
    h.check(bool(q == pat), 'pattern from the file')
    form(h, o, w, 'value from the file')
    h.eq(h.arr(entries(o, w)), h.arr(entries(o, v)), 'value from the file')


def equality(h):
    a, b = h.real('a', 0.5, 1.0), h.real('b', 0.5, 1.0)
    m, n = h.choice('m', [1, 2, 3]), h.choice('n', [1, 2, 3])
    if not h.symbolic:
        h.assume(a == b or not h.eqc(a, b))
    if h.eqc(a, b):
        b = a
    p, q = Increasing(m, a), Increasing(n, b)
    same = h.And(h.eqc(a, b), m == n)
    h.check(h.Iff(bool(p == q), same), 'equal iff the describing attributes are')
    d, e = paragami.PatternDict(), paragami.PatternDict()
    d['p'], e['p'] = p, q
    h.check(h.Iff(bool(d == e), same), 'dictionaries')
    h.check(h.Iff(bool(paragami.PatternArray((2,), p) == paragami.PatternArray((2,), q)), same), 'arrays')
    h.check(not bool(p == Balanced(m)) and not bool(Balanced(m) == p), 'different types differ')
    nd = Named()
    nd['p'] = p
    h.check(not bool(nd == d) and not bool(d == nd), 'a subclass is another type')


def wrap(h, spec, flat):
    pat, o = build(h, spec)
    n, nf = lens(o)
    free = h.choice('free', [True, False])
    x = h.reals('y', (nf if free else n,), -1.0, 1.0)
    k = h.real('k', -1, 1)
    exp = unfree(h, o, x) if free else list(x)
    if not free:
        good, rest = valids(h, o, list(x))
        h.assume(good)

    def f(s, v):
        t = s
        for i, e in enumerate(entries(o, v)):
            t = t + (i + 1.0) * e * e
        return t
    ref = k
    for i, e in enumerate(exp):
        ref = ref + (i + 1.0) * e * e
    g = paragami.FlattenFunctionInput(f, patterns=pat, free=free, argnums=1)
    h.eq(g(k, x), ref, 'flattened input')
    u = paragami.FoldFunctionOutput(lambda t: (t, 3), patterns=pat, free=free, retnums=0)
    r = u(x)
    h.check(type(r) is tuple and len(r) == 2 and r[1] == 3, 'other returns pass through')
    form(h, o, r[0], 'folded output')
    h.eq(h.arr(entries(o, r[0])), h.arr(exp), 'folded output')
    import autograd
    if spec[0] != 'arr' or free:
        G = autograd.grad(lambda t: g(k, t))(x)
        h.eq(G, h.jac(lambda t: [g(k, t)], x)[0], 'gradient through the user pattern', **h.dtol)


def locking(h, nops):
    """a subclass of the dictionary as entry is as frozen as any other"""
    d = Named()
    d['a'] = Increasing(2)
    outer = h.choice('outer', [paragami.PatternDict, Named])()
    outer['first'] = Balanced(2)
    outer['inner'] = d
    for t in range(nops):
        op = h.choice('op%d' % t, ['set', 'new', 'del'])
        if op == 'set':
            h.raises(lambda: d.__setitem__('a', Increasing(3)), 'no entry can be replaced')
        elif op == 'new':
            h.raises(lambda: d.__setitem__('b', Increasing(3)), 'no entry can be added')
        else:
            h.raises(lambda: d.__delitem__('a'), 'no entry can be deleted')
    h.check(list(d.keys()) == ['a'], 'keys unchanged')
    for free in (True, False):
        h.check(outer.flat_length(free=free) == (2 if free else 3) + d.flat_length(free=free), 'length')
    y = h.reals('y', (4,), -1, 1)
    h.eq(outer.flatten(outer.fold(y, free=True), free=True, validate_value=False), y, 'outer dictionary')


def abstract(h):
    """a class that leaves out a required method cannot be used"""
    need = ['__str__', 'as_dict', 'fold', 'flatten', 'empty', 'validate_folded', 'flat_indices']
    k = h.choice('missing', need)
    body = {n: getattr(Increasing, n) for n in need if n != k}
    cls = type('Partial', (Pattern,), body)
    h.raises(lambda: cls(2, 2), 'abstract', TypeError)
    full = type('Full', (Pattern,), {n: getattr(Increasing, n) for n in need})
    h.check(full(2, 2).flat_length(free=True) == 2, 'complete classes can be created')


SPECS = [['inc', 1], ['inc', 3], ['bal', 2], ['bal', 3],
         ['dict', [['b', ['inc', 2]], ['a', ['bal', 2]], ['n', ['num', 2]]]],
         ['dict', [['n', ['num', 1]], ['d', ['named', [['y', ['bal', 2]], ['x', ['inc', 2]]]]], ['c', ['inc', 1]]]],
         ['named', [['z', ['inc', 2]], ['a', ['dict', [['q', ['bal', 2]]]]]]],
         ['arr', [2], ['inc', 2]], ['arr', [2, 2], ['inc', 2]], ['arr', [2], ['arr', [1, 2], ['inc', 2]]],
         ['dict', [['r', ['arr', [2], ['inc', 2]]], ['s', ['bal', 3]]]],
         ['dict', [['p', ['inc', 2]], ['q', ['inc', 2]], ['r', ['bal', 2]], ['s', ['bal', 2]]]]]


def nm(s):
    if s[0] in ('dict', 'named'):
        return '%s(%s)' % (s[0], ','.join(n + ':' + nm(t) for n, t in s[1]))
    if s[0] == 'arr':
        return 'arr%s(%s)' % ('x'.join(map(str, s[1])), nm(s[2]))
    return '%s%d' % tuple(s)


def tasks(tier):
    out = []
    S = list(SPECS)
    if tier == 'thorough':
        S += [['inc', 4], ['bal', 5], ['arr', [3], ['inc', 3]], ['arr', [3, 2], ['inc', 2]],
              ['dict', [['a', ['dict', [['b', ['named', [['c', ['inc', 3]], ['d', ['bal', 3]]]]], ['e', ['num', 2]]]]],
                        ['f', ['arr', [2, 1], ['inc', 3]]]]]]
    for s in S:
        for fn in ('transform', 'validation', 'jacobians', 'helpers'):
            out.append(dict(name=fn + ':' + nm(s), fn=fn, cfg={'spec': s}))
        o = build(_Fake(), s)[1]
        if lens(o)[0] <= 8:
            out.append(dict(name='indices:' + nm(s), fn='indices', cfg={'spec': s}))
        for fd in (None, True, False):
            out.append(dict(name='store:%s:%s' % (nm(s), fd), fn='store', cfg={'spec': s, 'fd': fd}))
        out.append(dict(name='wrap:' + nm(s), fn='wrap', cfg={'spec': s, 'flat': True}))
    for i in range(2):
        out.append(dict(name='logdet:%d' % i, fn='logdet', cfg={'i': i}))
    out += [dict(name='equality', fn='equality', cfg={}), dict(name='abstract', fn='abstract', cfg={}),
            dict(name='locking', fn='locking', cfg={'nops': 2})]
    return out


class _Fake:
    symbolic = False

    def real(self, *a):
        return 1.0

    def assume(self, c):
        pass
