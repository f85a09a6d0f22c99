"""Make numpy / scipy / json carry symbolic values (symbolic process only).

Installed before autograd and paragami are imported.  Data movement, indexing,
broadcasting, reductions and products are numpy's own, on object arrays; only
functions with no object implementation get one here.  Each replacement is the
function's documented contract over exact reals (see DESIGN.md, stubs).
"""
import builtins
import math
import sys
import json as _json
import types
from fractions import Fraction
import numpy as np
import scipy
import scipy.special
import scipy.linalg
import scipy.sparse
import scipy.sparse.linalg
try:
    import sksparse.cholmod
except ImportError:
    sksparse = None
from . import terms as tm
from . import nf
from . import sym
from . import mround
from .sym import Sym, SymBool, Unsupported, has_sym

ORIG = {}
STUBS_USED = set()


def used(name):
    STUBS_USED.add(name)


def isobj(x):
    return isinstance(x, (Sym, SymBool)) or \
        (isinstance(x, np.ndarray) and x.dtype == object) or \
        (isinstance(x, (list, tuple)) and has_sym(x))


def oarr(x):
    """object array of x"""
    if isinstance(x, np.ndarray):
        return x if x.dtype == object else x.astype(object)
    return np.array(x, dtype=object)


# entries without symbols are numpy's own scalars, as in a float array
F64 = np.float64


def emap(f, *xs):
    xs = [oarr(x) for x in xs]
    b = np.broadcast(*xs) if len(xs) > 1 else None
    shape = xs[0].shape if b is None else b.shape
    if len(shape) > 1 and builtins.all(x.shape != shape or (x.flags.f_contiguous and not x.flags.c_contiguous) for x in xs):
        out = ORIG['empty'](shape, dtype=object, order='F')     # ufuncs keep the layout of their arguments
    else:
        out = np.empty_obj(shape)
    if b is None and out.flags.c_contiguous:
        o, i = out.ravel(), xs[0].ravel()
        for k in range(i.size):
            v = f(i[k])
            o[k] = F64(v) if type(v) is builtins.float else v
    else:
        for k, v in enumerate(np.broadcast(*xs) if b is None else b):
            v = f(*v)
            out.flat[k] = F64(v) if type(v) is builtins.float else v
    if out.shape == ():
        return out[()]
    return out


def _empty_obj(shape):
    return ORIG['empty'](shape, dtype=object)


np.empty_obj = _empty_obj


def patch(mod, name, f, key=None):
    key = key or name
    if hasattr(mod, name):
        ORIG[key] = getattr(mod, name)
    try:
        f.__name__ = name
    except Exception:
        pass
    setattr(mod, name, f)
    return f


# ------------------------------------------------------------------ elementwise
def unary(mod, name, f):
    orig = getattr(mod, name)

    def g(x, *args, **kw):
        if isobj(x):
            if kw.get('out') is not None or kw.get('where', True) is not True:
                raise Unsupported('ufunc out/where for ' + name)
            used(name)
            return emap(f, x)
        return orig(x, *args, **kw)
    g.nin = 1
    patch(mod, name, g, mod.__name__ + '.' + name)


def _lift(f):
    return lambda x: f(x if isinstance(x, Sym) else builtins.float(x))


def _log1p(x):
    if isinstance(x, Sym) and x.t.sort == 'M':
        return mround.log1p(x)
    return sym.log(1.0 + x)


def _expm1(x):
    if isinstance(x, Sym) and x.t.sort == 'M':
        return mround.expm1(x)
    return sym.exp(x) - 1.0


def _tanh(x):
    if isinstance(x, Sym) and x.t.sort == 'M':
        return mround.tanh(x)
    e = sym.exp(2.0 * x)
    return (e - 1.0) / (e + 1.0)


def _expit(x):
    if isinstance(x, Sym) and x.t.sort == 'M':
        return mround.expit(x)
    if not isinstance(x, Sym):
        return 1.0 / (1.0 + math.exp(-x))
    e = sym.exp(x)
    return e / (1.0 + e)


def _isfinite(x):
    if isinstance(x, Sym):
        if x.t.sort == 'F':
            return bool(abs(x) < sym.INF)
        return True
    return ORIG.get('math.isfinite', math.isfinite)(x)


def _isnan(x):
    if isinstance(x, Sym):
        if x.t.sort == 'F':
            return bool(sym.mkbool(tm.fisnan(x.t)))
        return False
    return ORIG.get('math.isnan', math.isnan)(x)


def _isinf(x):
    if isinstance(x, Sym):
        if x.t.sort == 'F':
            return bool(abs(x) == sym.INF)
        return False
    return ORIG.get('math.isinf', math.isinf)(x)


def boolmap(f):
    def g(x):
        return emap(f, x)
    return g


def sfun(name):
    """opaque special function"""
    def f(*xs):
        if any(isinstance(x, Sym) for x in xs):
            return sym.uf(name, *xs)
        return builtins.float(ORIG['scipy.special.' + name](*xs))
    return f


# ------------------------------------------------------------------ constructors
FLOATS = (None, builtins.float, np.float64, np.dtype('float64'), 'float',
          'float64', 'd', 'f8', object, np.dtype(object))


def floaty(dt):
    if dt is None:
        return True
    if isinstance(dt, type) and issubclass(dt, builtins.float):
        return True
    try:
        return np.dtype(dt) in (np.dtype('float64'), np.dtype(object))
    except TypeError:
        return True


def _insparse(dt):
    """scipy's own sparse formats hold numbers only"""
    return dt != object and sys._getframe(2).f_globals.get('__name__', '').startswith('scipy.sparse._')


def _fill(shape, v, order='C'):
    a = ORIG['empty'](shape, dtype=object, order=order)
    a.fill(F64(v))
    return a


def zeros(shape, dtype=None, order='C', **kw):
    if floaty(dtype) and not _insparse(dtype):
        return _fill(shape, 0.0)
    return ORIG['zeros'](shape, dtype, order)


def ones(shape, dtype=None, order='C', **kw):
    if floaty(dtype) and not _insparse(dtype):
        return _fill(shape, 1.0)
    return ORIG['ones'](shape, dtype, order)


def empty(shape, dtype=None, order='C', **kw):
    if floaty(dtype) and not _insparse(dtype):
        return _fill(shape, sym.NAN)
    return ORIG['empty'](shape, dtype, order)


def full(shape, fill_value, dtype=None, order='C', **kw):
    if dtype is None and not has_sym(fill_value):
        fv = np.asarray(fill_value)
        if fv.dtype.kind in 'biu':
            return ORIG['full'](shape, fill_value)
        if fv.dtype.kind not in 'fO':
            return ORIG['full'](shape, fill_value)
    if floaty(dtype):
        a = ORIG['empty'](shape, dtype=object)
        a[...] = F64(fill_value) \
            if type(fill_value) is builtins.float else fill_value
        return a
    if has_sym(fill_value):
        a = ORIG['empty'](shape, dtype=object)
        a[...] = fill_value
        if np.dtype(dtype).kind in 'iu':
            return a.astype(dtype)
        return a
    return ORIG['full'](shape, fill_value, dtype, order)


def _like(fn):
    def g(a, *args, **kw):
        dt = kw.pop('dtype', None)
        kw.pop('subok', None)
        shape = kw.pop('shape', None)
        order = kw.pop('order', None)
        args = list(args)
        fv = ()
        if fn is full:
            fv = (args.pop(0),) if args else (kw.pop('fill_value'),)
        if args:
            dt = args.pop(0)
        arr = a if isinstance(a, np.ndarray) else np.asarray(a)
        if dt is None:
            dt = arr.dtype
        return fn(arr.shape if shape is None else shape, *fv, dtype=dt)
    return g


def eye(N, M=None, k=0, dtype=None, order='C', **kw):
    r = ORIG['eye'](N, M, k, builtins.int if floaty(dtype) else dtype)
    if floaty(dtype):
        return emap(builtins.float, r)
    return r


def identity(n, dtype=None, **kw):
    return eye(n, dtype=dtype)


def _strip(x):
    """numpy unpacks numeric 0-d arrays in lists, but not object ones"""
    if isinstance(x, (list, tuple)) and type(x) in (list, tuple):
        return [_strip(e) for e in x]
    if isinstance(x, np.ndarray) and x.ndim == 0 and x.dtype == object:
        return x.item()
    return x


def _mk_array(orig):
    def g(x, dtype=None, *args, **kw):
        if type(x) in (list, tuple):
            x = _strip(x)
        if dtype is not None and floaty(dtype) and dtype is not object:
            if isobj(x) or has_sym(x):
                dtype = object
            elif isinstance(dtype, type) and issubclass(dtype, builtins.float):
                dtype = builtins.float
        return orig(x, dtype, *args, **kw)
    return g


# ------------------------------------------------------------------- comparisons
def _isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    if not (isobj(a) or isobj(b)):
        return ORIG['isclose'](a, b, rtol, atol, equal_nan)

    def f(x, y):
        if sym.special(x) or sym.special(y):
            return bool(x == y)
        return bool(abs(x - y) <= atol + rtol * abs(y))
    r = emap(f, a, b)
    return r.astype(bool) if isinstance(r, np.ndarray) else np.bool_(r)


def _allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    if not (isobj(a) or isobj(b)):
        return ORIG['allclose'](a, b, rtol, atol, equal_nan)
    return bool(np.all(_isclose(a, b, rtol, atol, equal_nan)))


def _array_equal(a, b, equal_nan=False):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    return bool(np.all(a == b))


def _logaddexp(x, y):
    if any(isinstance(v, Sym) and v.t.sort == 'M' for v in (x, y)):
        return mround.logaddexp(x, y)
    if not any(isinstance(v, Sym) and v.t.sort in 'FM' for v in (x, y)) and \
            not sym.special(x) and not sym.special(y):
        return sym.log(sym.exp(x) + sym.exp(y))
    m = x if x >= y else y
    return m + sym.log(sym.exp(x - m) + sym.exp(y - m))


def _logsumexp(a, axis=None, b=None, keepdims=False, return_sign=False):
    if not isobj(a) and not isobj(b):
        return ORIG['scipy.special.logsumexp'](a, axis=axis, b=b, keepdims=keepdims, return_sign=return_sign)
    if return_sign:
        raise Unsupported('logsumexp with return_sign')
    used('logsumexp')
    a = np.asarray(a)
    rounded = any(isinstance(v, Sym) and v.t.sort in 'FM' or sym.special(v) for v in np.ravel(a))
    m = np.max(a, axis=axis, keepdims=True) if rounded else 0.0
    e = np.exp(a - m)
    r = np.log(np.sum(e if b is None else b * e, axis=axis, keepdims=True)) + m
    if keepdims:
        return r
    r = np.squeeze(np.asarray(r, dtype=object), axis=axis)
    return r if r.ndim else r.item()


def _logaddexp_reduce(a, axis=0, dtype=None, out=None, keepdims=False, **k):
    if not isobj(a) or out is not None or k:
        return ORIG['numpy.logaddexp'].reduce(a, axis, dtype, out, keepdims, **k)
    return _logsumexp(a, axis=axis, keepdims=keepdims)


def _softmax(x, axis=None):
    if not isobj(x):
        return ORIG['scipy.special.softmax'](x, axis=axis)
    return np.exp(x - _logsumexp(x, axis=axis, keepdims=True))


def _log_softmax(x, axis=None):
    if not isobj(x):
        return ORIG['scipy.special.log_softmax'](x, axis=axis)
    return x - _logsumexp(x, axis=axis, keepdims=True)


def _xlogy(f):
    def g(x, y):
        if not isinstance(x, Sym) and x == 0 and not _isnan(y):
            return 0.0
        if isinstance(x, Sym) and bool(x == 0):
            return 0.0
        return x * f(y)
    return g


def _log_expit(x):
    return -_logaddexp(0.0, -x)


def _isposinf(x):
    return _isinf(x) and bool(x > 0)


def _isneginf(x):
    return _isinf(x) and bool(x < 0)


def _fromiter(it, dtype=None, count=-1, **k):
    if not floaty(dtype):
        return ORIG['numpy.fromiter'](it, dtype, count, **k)
    v = list(it if count < 0 else __import__('itertools').islice(it, count))
    if count >= 0 and len(v) < count:
        raise ValueError('iterator too short')
    if not has_sym(v):
        return ORIG['numpy.fromiter'](iter(v), dtype, **k)
    out = _empty_obj(len(v))
    for i, x in enumerate(v):
        out[i] = x
    return out


def _bincount(x, weights=None, minlength=0):
    if weights is None or not isobj(weights):
        return ORIG['numpy.bincount'](x, weights, minlength)
    x = np.asarray(x).astype(builtins.int)
    if x.shape != np.shape(weights):
        raise ValueError('The weights and list don\'t have the same length.')
    out = _fill(builtins.max(minlength, int(x.max()) + 1 if x.size else 0), 0.0)
    for k, w in zip(x, weights):
        out[k] = out[k] + w
    return out


class _Vectorize(np.vectorize):
    """numpy.vectorize; float outputs hold symbols as well"""

    def __call__(self, *args, **kw):
        if self.otypes and any(isobj(a) for a in list(args) + list(kw.values())):
            self.otypes = ''.join('O' if c in 'dfg' else c for c in self.otypes)
        return super().__call__(*args, **kw)


def _float_power(x, y, **k):
    if isobj(x) or isobj(y):
        return np.power(oarr(x) * 1.0, y)
    return ORIG['numpy.float_power'](x, y, **k)


def _scalar(orig):
    return lambda x: isinstance(x, Sym) or orig(x)


def _math(name, f, positive=0):
    """a function of the math module on a symbolic scalar"""
    orig = getattr(math, name)
    ORIG['math.' + name] = orig

    def g(x, *a):
        if isinstance(x, np.ndarray) and x.dtype == object and x.size == 1:
            x = x.ravel()[0]
        if not isinstance(x, Sym):
            return orig(x, *a)
        used('math.' + name)
        if positive and bool(x <= 0 if positive == 1 else x < 0):
            raise ValueError('math domain error')
        r = f(x)
        return r / orig(*a) if a else r
    g.__name__ = name
    setattr(math, name, g)


def _fsum(it):
    v = list(it)
    if not has_sym(v):
        return ORIG['math.fsum'](v)
    return builtins.sum(v, 0.0)


def _hypot(*v):
    if not has_sym(v):
        return ORIG['math.hypot'](*v)
    return sym.sqrt(builtins.sum(x * x for x in v))


def _install_math():
    for n, f, pos in (('log', sym.log, 1), ('exp', sym.exp, 0), ('sqrt', sym.sqrt, 2), ('log1p', _log1p, 0),
                      ('expm1', _expm1, 0), ('fabs', abs, 0), ('isinf', _isinf, 0), ('isfinite', _isfinite, 0),
                      ('isnan', _isnan, 0), ('tanh', _tanh, 0), ('lgamma', sfun('gammaln'), 0)):
        _math(n, f, pos)
    for n, f in (('fsum', _fsum), ('hypot', _hypot)):
        ORIG['math.' + n] = getattr(math, n)
        setattr(math, n, f)


MERGE = [False]     # extrema along an axis as one term as well (see Base.merge_extrema)


def _least(vals, sign):
    """minimum (sign -1) or maximum of reals as one term, without forking"""
    m = vals[0]
    for v in vals[1:]:
        x, y = (e.t if isinstance(e, Sym) else sym.lift(e) for e in (m, v))
        m = Sym(tm.ite(tm.le(x, y) if sign < 0 else tm.le(y, x), x, y))
    return m


def _all_real(a):
    v = np.ravel(a)
    return v.size > (0 if MERGE[0] else 2) and builtins.all(
        isinstance(e, Sym) and e.t.sort == 'R' or isinstance(e, (builtins.int, builtins.float, np.floating))
        and math.isfinite(e) for e in v)


def _umr(orig, sign):
    """the reduction behind ndarray.min and ndarray.max"""
    def g(a, axis=None, dtype=None, out=None, keepdims=False, *r, **k):
        if isobj(a) and axis is None and out is None and not keepdims and _all_real(a):
            return _least(list(np.ravel(a)), sign)
        return orig(a, axis, dtype, out, keepdims, *r, **k)
    return g


def _reduce_extremum(orig, sign):
    def g(a, axis=None, *r, keepdims=False, **k):
        if not r and not k and axis is None and not keepdims and isobj(a) and _all_real(a):
            return _least(list(np.ravel(a)), sign)
        if MERGE[0] and not r and not k and isinstance(axis, builtins.int) and isobj(a) and np.ndim(a) and \
                _all_real(a) and np.shape(a)[axis]:
            b = np.moveaxis(np.asarray(a), axis, 0)
            out = _empty_obj(b.shape[1:])
            for i in np.ndindex(*b.shape[1:]):
                out[i] = _least(list(b[(slice(None),) + i]), sign)
            return np.expand_dims(out, axis) if keepdims else out if out.ndim else out.item()
        if not r and not k and isobj(a) and any(
                isinstance(e, Sym) and e.t.sort == 'M' for e in np.ravel(a)) \
                and (axis is None or isinstance(axis, builtins.int)):
            a = np.asarray(a)
            b = a.reshape(-1) if axis is None else np.moveaxis(a, axis, 0)
            m = b[0]
            for i in range(1, b.shape[0]):
                m = emap(lambda p, q: mround.extremum(p, q, sign), m, b[i])
            if not keepdims:
                return m
            out = _empty_obj((1,) * a.ndim if axis is None else
                             a.shape[:axis % a.ndim] + (1,) +
                             a.shape[axis % a.ndim + 1:])
            out[...] = m if axis is None or not isinstance(m, np.ndarray) \
                else np.expand_dims(m, axis % a.ndim)
            return out
        if keepdims:
            k['keepdims'] = keepdims
        return orig(a, axis, *r, **k)
    return g


class _extremum:
    """np.minimum / np.maximum; rounded values are compared without forking"""
    nin = 2
    nout = 1

    def __init__(self, orig, sign):
        self.orig = orig
        self.sign = sign
        self.__name__ = orig.__name__

    def __call__(self, x, y, *a, **k):
        if not a and not k and (isobj(x) or isobj(y)) and \
                any(isinstance(e, Sym) and e.t.sort == 'M'
                    for v in (x, y) for e in np.ravel(v)):
            return emap(lambda p, q: mround.extremum(p, q, self.sign), x, y)
        return self.orig(x, y, *a, **k)

    def __getattr__(self, n):
        return getattr(self.orig, n)


# ---------------------------------------------------------------- linear algebra
def simp(x):
    if isinstance(x, Sym) and x.t.sort == 'R':
        return Sym(nf.simplify(x.t))
    return x


def _mat(a):
    return oarr(a).copy()


def _batch(f, ndims=2):
    """apply a matrix function over leading dimensions"""
    def g(a, *args, **kw):
        a = oarr(a)
        if a.ndim == 2:
            return f(a, *args, **kw)
        lead = a.shape[:-2]
        outs = [f(a[i], *args, **kw) for i in np.ndindex(*lead)]
        out = np.empty_obj((len(outs),) + np.shape(outs[0]))
        for i, o in enumerate(outs):
            out[i] = o
        return out.reshape(lead + np.shape(outs[0]))
    return g


def cholesky2(a):
    a = _mat(a)
    n = a.shape[0]
    if a.shape[1] != n:
        raise np.linalg.LinAlgError('Last 2 dimensions must be square')
    L = _fill((n, n), 0.0)
    for j in range(n):
        s = a[j, j]
        for k in range(j):
            s = s - L[j, k] * L[j, k]
        s = simp(s)
        if not s > 0:
            raise np.linalg.LinAlgError('Matrix is not positive definite')
        L[j, j] = simp(sym.sqrt(s))
        for i in range(j + 1, n):
            v = a[i, j]
            for k in range(j):
                v = v - L[i, k] * L[j, k]
            L[i, j] = simp(v / L[j, j])
    return L


def det2(a):
    a = oarr(a)
    n = a.shape[0]
    if n == 0:
        return 1.0
    if n == 1:
        return a[0, 0]
    tot = 0.0
    for j in range(n):
        if not isinstance(a[0, j], Sym) and a[0, j] == 0:
            continue
        minor = np.concatenate([a[1:, :j], a[1:, j + 1:]], axis=1)
        tot = tot + ((-1) ** j) * a[0, j] * det2(minor)
    return tot


def adj2(a):
    n = a.shape[0]
    out = _fill((n, n), 0.0)
    if n == 1:
        out[0, 0] = 1.0
        return out
    for i in range(n):
        for j in range(n):
            m = np.delete(np.delete(a, i, 0), j, 1)
            out[j, i] = ((-1) ** (i + j)) * det2(m)
    return out


def _istri(a, lower):
    n = a.shape[0]
    for i in range(n):
        for j in range(n):
            if (j > i) if lower else (j < i):
                x = a[i, j]
                if isinstance(x, Sym) or x != 0:
                    return False
    return True


def inv2(a):
    a = oarr(a)
    n = a.shape[0]
    if _istri(a, True) or _istri(a, False):
        return solve2(a, eye(n))
    d = simp(_as(det2(a)))
    if d == 0:
        raise np.linalg.LinAlgError('Singular matrix')
    ad = adj2(a)
    return emap(lambda x: simp(_as(x) / d), ad)


def _as(x):
    return x if isinstance(x, Sym) else builtins.float(x)


def solve2(a, b):
    a, b = oarr(a), oarr(b)
    n = a.shape[0]
    vec = b.ndim == 1
    bb = b[:, None] if vec else b
    for lower in (True, False):
        if _istri(a, lower):
            for i in range(n):
                if a[i, i] == 0:
                    raise np.linalg.LinAlgError('Singular matrix')
            x = np.empty_obj(bb.shape)
            rng = range(n) if lower else range(n - 1, -1, -1)
            for c in range(bb.shape[1]):
                for i in rng:
                    v = bb[i, c]
                    js = range(i) if lower else range(i + 1, n)
                    for j in js:
                        v = v - a[i, j] * x[j, c]
                    x[i, c] = simp(_as(v) / a[i, i])
            return x[:, 0] if vec else x
    x = inv2(a).dot(bb)
    x = emap(simp, x)
    return x[:, 0] if vec else x


def np_solve(a, b, **kw):
    if not (isobj(a) or isobj(b)):
        return ORIG['numpy.linalg.solve'](a, b, **kw)
    used('linalg.solve')
    a, b = oarr(a), oarr(b)
    if a.ndim == 2 and b.ndim <= 2:
        if a.shape[0] != a.shape[1] or a.shape[0] != b.shape[0]:
            raise ValueError('solve: shapes')
        return solve2(a, b)
    if b.ndim == a.ndim - 1:
        lead = a.shape[:-2]
        out = np.empty_obj(lead + b.shape[-1:])
        for i in np.ndindex(*lead):
            out[i] = solve2(a[i], b[i])
        return out
    lead = np.broadcast_shapes(a.shape[:-2], b.shape[:-2])
    a = np.broadcast_to(a, lead + a.shape[-2:])
    b = np.broadcast_to(b, lead + b.shape[-2:])
    out = np.empty_obj(lead + b.shape[-2:])
    for i in np.ndindex(*lead):
        out[i] = solve2(a[i], b[i])
    return out


def linalg1(name, f):
    orig = getattr(np.linalg, name)
    fb = _batch(f)

    def g(a, *args, **kw):
        if isobj(a):
            used('linalg.' + name)
            return fb(a, *args, **kw)
        return orig(a, *args, **kw)
    patch(np.linalg, name, g, 'numpy.linalg.' + name)


def slogdet2(a):
    d = simp(_as(det2(oarr(a))))
    if d > 0:
        return 1.0, sym.log(d)
    if d < 0:
        return -1.0, sym.log(-d)
    return 0.0, -sym.INF


def np_slogdet(a):
    if not isobj(a):
        return ORIG['numpy.linalg.slogdet'](a)
    used('linalg.slogdet')
    a = oarr(a)
    if a.ndim == 2:
        return slogdet2(a)
    lead = a.shape[:-2]
    s, l = np.empty_obj(lead), np.empty_obj(lead)
    for i in np.ndindex(*lead):
        s[i], l[i] = slogdet2(a[i])
    return s, l


def np_norm(x, ord=None, axis=None, keepdims=False):
    if not isobj(x):
        return ORIG['numpy.linalg.norm'](x, ord, axis, keepdims)
    if ord not in (None, 2, 'fro') or (ord == 2 and np.ndim(x) > 1
                                       and axis is None):
        raise Unsupported('norm ord')
    s = np.sum(oarr(x) * oarr(x), axis=axis, keepdims=keepdims)
    return emap(lambda v: sym.sqrt(simp(v)), s)


EIGH = []       # registered decompositions: (matrix, eigenvalues, vectors)
EIGH_OPAQUE = [False]


def register_eigh(A, w, U):
    EIGH.append((oarr(A), oarr(w), oarr(U)))


def _same(A, B):
    from . import solve
    if A.shape != B.shape:
        return False
    for x, y in zip(A.ravel(), B.ravel()):
        d = _as(x) - _as(y)
        if isinstance(d, Sym):
            t = tm.eq(tm.to_real(d.t), tm.ZERO)
            if solve.quick(t) is not True:
                return False
        elif d != 0:
            return False
    return True


def np_eigh(a, *args, **kw):
    if not isobj(a):
        return ORIG['numpy.linalg.eigh'](a, *args, **kw)
    used('linalg.eigh')
    a = oarr(a)
    n = a.shape[0]
    diag = all(not isinstance(a[i, j], Sym) and a[i, j] == 0
               for i in range(n) for j in range(n) if i != j)
    for A, w, U in EIGH:
        if A.shape == a.shape and _same(A, a):
            return w.copy(), U.copy()
    if diag:
        idx = np.argsort(np.diag(a))
        return np.diag(a)[idx], eye(n)[:, idx]
    raise Unsupported('eigh of an unregistered matrix')


def np_eigvalsh(a, *args, **kw):
    if not isobj(a):
        return ORIG['numpy.linalg.eigvalsh'](a, *args, **kw)
    return np_eigh(a)[0]


def sp_solve_triangular(a, b, trans=0, lower=False, unit_diagonal=False,
                        **kw):
    if not (isobj(a) or isobj(b)):
        return ORIG['scipy.linalg.solve_triangular'](
            a, b, trans=trans, lower=lower, unit_diagonal=unit_diagonal, **kw)
    used('solve_triangular')
    a = oarr(a)
    a = np.tril(a) if lower else np.triu(a)
    a = emap(lambda x: x if isinstance(x, Sym) else builtins.float(x), a)
    if trans in (1, 'T', 2, 'C'):
        a = a.T
    return solve2(a, b)


def sp_cholesky(a, lower=False, **kw):
    if not isobj(a):
        return ORIG['scipy.linalg.cholesky'](a, lower=lower, **kw)
    L = cholesky2(a)
    return L if lower else L.T


# ----------------------------------------------------------- sparse Cholesky
CHOL = []           # registered factorisations: (matrix, permutation, L)


def register_chol(A, p, L):
    CHOL.append((oarr(A), [builtins.int(i) for i in p], oarr(L)))


class SymFactor:
    """sksparse.cholmod.Factor: A[p][:, p] = L L^T, its documented methods"""

    def __init__(self, A, p, L):
        self._a, self._p, self._l = A, np.array(p, dtype=builtins.int), L

    def P(self):
        return self._p.astype('int32')

    def L(self):
        return SymSparse(np.tril(self._l), 'csc')

    def _diag(self):
        return np.diag(self._l)

    def D(self):
        return self._diag() * self._diag()

    def L_D(self):
        return SymSparse(np.tril(self._l) / self._diag(), 'csc'), \
            SymSparse(np.diag(self.D()), 'dia')

    def _rows(self, b, p):
        if isinstance(b, _spbase):
            return SymSparse(oarr(b.toarray())[p], 'csc')
        return oarr(b)[p]

    def apply_P(self, b):
        return self._rows(b, self._p)

    def apply_Pt(self, b):
        return self._rows(b, np.argsort(self._p))

    def _solve(self, a, b):
        if isinstance(b, _spbase):
            return SymSparse(solve2(a, oarr(b.toarray())), 'csc')
        return solve2(a, b)

    def solve_L(self, b, use_LDLt_decomposition=True):
        l = np.tril(self._l)
        return self._solve(l / self._diag() if use_LDLt_decomposition else l, b)

    def solve_Lt(self, b, use_LDLt_decomposition=True):
        l = np.tril(self._l)
        return self._solve((l / self._diag() if use_LDLt_decomposition else l).T, b)

    def solve_D(self, b):
        return self._solve(np.diag(self.D()), b)

    def solve_LD(self, b):
        return self.solve_D(self.solve_L(b))

    def solve_DLt(self, b):
        return self.solve_Lt(self.solve_D(b))

    def solve_A(self, b):
        return self.apply_Pt(self.solve_Lt(self.solve_L(self.apply_P(b), False), False))
    __call__ = solve_A

    def inv(self):
        return SymSparse(self.solve_A(eye(len(self._p))), 'csc')

    def det(self):
        return np.prod(self.D())

    def logdet(self):
        return np.sum(emap(sym.log, self.D()))

    def slogdet(self):
        return 1.0, self.logdet()


def chol_factor(A, beta=0, mode='auto', ordering_method='default', use_long=None):
    if not isinstance(A, SymSparse):
        return ORIG['sksparse.cholmod.cholesky'](A, beta=beta, mode=mode, ordering_method=ordering_method,
                                                use_long=use_long)
    used('sksparse.cholmod.cholesky')
    a = A._d
    n = a.shape[0]
    if beta != 0:
        a = a + beta * eye(n)
    for B, p, L in CHOL:
        if B.shape == a.shape and _same(B, a) and ordering_method != 'natural':
            return SymFactor(a, p, L)
    p = CHOL[0][1] if CHOL and len(CHOL[0][1]) == n and ordering_method != 'natural' else list(range(n))
    return SymFactor(a, p, cholesky2(a[p][:, p]))


# ------------------------------------------------------------------------ sparse
_spbase = scipy.sparse._base._spbase


class SymSparse(_spbase):
    """Sparse matrix with symbolic entries; documented scipy semantics."""
    format = 'sym'
    __array_priority__ = 20.0

    def __init__(self, dense, fmt='coo', pattern=None):
        self._d = oarr(dense)
        assert self._d.ndim == 2
        self._shape = self._d.shape
        self.format = fmt
        # explicitly stored positions, row major
        if pattern is None:
            pattern = [(i, j) for i in range(self._shape[0])
                       for j in range(self._shape[1])
                       if isinstance(self._d[i, j], Sym) or
                       self._d[i, j] != 0]
        self._p = pattern

    @property
    def shape(self):
        return self._shape

    @property
    def ndim(self):
        return 2

    @property
    def dtype(self):
        return np.dtype(object)

    @property
    def row(self):
        return np.array([i for i, _ in self._p], dtype=builtins.int)

    @property
    def col(self):
        return np.array([j for _, j in self._p], dtype=builtins.int)

    @property
    def data(self):
        if self.format not in ('coo', 'csr'):
            raise Unsupported('data of a symbolic %s matrix' % self.format)
        a = np.empty_obj(len(self._p))
        for k, (i, j) in enumerate(self._p):
            a[k] = self._d[i, j]
        return a

    @property
    def nnz(self):
        return len(self._p)

    def getnnz(self, axis=None):
        return len(self._p)

    @property
    def T(self):
        return self.transpose()

    def transpose(self, axes=None, copy=False):
        return SymSparse(self._d.T.copy(), self.format)

    def toarray(self, order=None, out=None):
        return self._d.copy()

    def todense(self, *a, **k):
        return np.asmatrix(self._d.copy())

    @property
    def A(self):
        return self._d.copy()

    def __array__(self, *a, **k):
        raise Unsupported('implicit densification of a sparse matrix')

    def _conv(self, fmt):
        return SymSparse(self._d.copy(), fmt)

    def tocoo(self, copy=False):
        return self._conv('coo')

    def tocsr(self, copy=False):
        return self._conv('csr')

    def tocsc(self, copy=False):
        return self._conv('csc')

    def todia(self, copy=False):
        return self._conv('dia')

    def tolil(self, copy=False):
        return self._conv('lil')

    def asformat(self, fmt, copy=False):
        return self if fmt is None else self._conv(fmt)

    def copy(self):
        return SymSparse(self._d.copy(), self.format, list(self._p))

    def diagonal(self, k=0):
        return np.diag(self._d, k).copy()

    def _mulany(self, o):
        if isinstance(o, _spbase):
            o = o._d if isinstance(o, SymSparse) else oarr(o.toarray())
            return SymSparse(self._d.dot(o), 'csr')
        o = np.asarray(o)
        return self._d.dot(oarr(o))

    def dot(self, o):
        if np.isscalar(o) or isinstance(o, Sym):
            return SymSparse(self._d * o, self.format)
        return self._mulany(o)

    def __matmul__(self, o):
        if np.isscalar(o) or isinstance(o, Sym):
            raise ValueError('Scalar operands are not allowed')
        return self._mulany(o)

    def __rmatmul__(self, o):
        if isinstance(o, _spbase):
            return SymSparse(oarr(o.toarray()).dot(self._d), 'csr')
        return oarr(np.asarray(o)).dot(self._d)

    def __mul__(self, o):
        return self.dot(o)

    def __rmul__(self, o):
        if np.isscalar(o) or isinstance(o, Sym):
            return SymSparse(self._d * o, self.format)
        return self.__rmatmul__(o)

    def multiply(self, o):
        if isinstance(o, _spbase):
            o = o.toarray()
        return SymSparse(self._d * oarr(o), 'coo')

    def __truediv__(self, o):
        return SymSparse(self._d / o, self.format)

    def _pm(self, o, s):
        if isinstance(o, _spbase):
            return SymSparse(self._d + s * oarr(o.toarray()), self.format)
        return np.asmatrix(self._d + s * oarr(np.asarray(o)))

    def __add__(self, o):
        return self._pm(o, 1)

    def __radd__(self, o):
        return self._pm(o, 1)

    def __sub__(self, o):
        return self._pm(o, -1)

    def __rsub__(self, o):
        return (-self)._pm(o, 1)

    def __neg__(self):
        return SymSparse(-self._d, self.format)

    def __getitem__(self, k):
        r = self._d[k]
        if isinstance(r, np.ndarray):
            if r.ndim == 1:
                r = r.reshape((1, -1)) if not isinstance(
                    k, tuple) or np.ndim(k[0]) == 0 else r.reshape((-1, 1))
            return SymSparse(r, self.format)
        return r

    def __setitem__(self, k, v):
        if self.format not in ('lil', 'dok', 'csr', 'csc'):
            raise TypeError('%s matrix does not support item assignment' % self.format)
        if isinstance(v, _spbase):
            v = _dense(v)
        self._d[k] = v
        self.__init__(self._d, self.format)

    def sum(self, axis=None, **kw):
        return np.sum(self._d, axis=axis)

    def __repr__(self):
        return '<SymSparse %r>' % (self._shape,)
    __str__ = __repr__

    def eliminate_zeros(self):
        pass

    def sum_duplicates(self):
        pass

    def __eq__(self, o):
        return self is o
    __hash__ = object.__hash__


def _fmtclass(fmt, orig):
    class Meta(type):
        def __instancecheck__(cls, o):
            return isinstance(o, orig) or (isinstance(o, SymSparse) and
                                           o.format == fmt)

    class C(metaclass=Meta):
        def __new__(cls, arg, shape=None, dtype=None, copy=False):
            return build(fmt, orig, arg, shape, dtype, copy)
    C.__name__ = orig.__name__
    return C


def _mul_scalar(orig):
    def f(self, o):
        if isinstance(o, Sym):
            return SymSparse(oarr(self.toarray()) * o, self.format)
        return orig(self, o)
    return f


def _subclasses(c):
    out = [c]
    for d in c.__subclasses__():
        out += [e for e in _subclasses(d) if e not in out]
    return out


def _with_sym(cls, name):
    """an operation of a concrete sparse matrix whose other operand is symbolic"""
    orig = cls.__dict__[name]

    def f(self, o, *a, **k):
        if not isinstance(self, SymSparse) and (isinstance(o, SymSparse) or isobj(o)):
            r = getattr(SymSparse(oarr(self.toarray()), self.format), 'dot' if name == '_mul_dispatch' else name)
            return r(o, *a, **k)
        return orig(self, o, *a, **k)
    setattr(cls, name, f)


def _growing(fmt, orig):
    """a format whose entries are assigned one by one: floats may be replaced by symbols"""
    class Meta(type):
        def __instancecheck__(cls, o):
            return isinstance(o, orig) or (isinstance(o, SymSparse) and o.format == fmt)

    class C(metaclass=Meta):
        def __new__(cls, arg, shape=None, dtype=None, copy=False):
            if isinstance(arg, SymSparse):
                return arg._conv(fmt)
            if isobj(arg):
                return SymSparse(np.atleast_2d(oarr(arg)), fmt)
            r = orig(arg, shape=shape, dtype=dtype, copy=copy)
            return SymSparse(oarr(r.toarray()), fmt) if floaty(dtype) else r
    C.__name__ = orig.__name__
    return C


def build(fmt, orig, arg, shape=None, dtype=None, copy=False):
    if isinstance(arg, SymSparse):
        return arg._conv(fmt)
    if isinstance(arg, tuple) and len(arg) in (2, 3) and \
            not all(np.ndim(x) == 0 for x in arg):
        data = arg[0]
        if not isobj(data):
            return orig(arg, shape=shape, dtype=dtype, copy=copy)
        used('sparse')
        data = oarr(data)
        if len(arg) == 2 and isinstance(arg[1], tuple):      # (data, (i, j))
            i, j = (np.asarray(v).astype(builtins.int) for v in arg[1])
            if not (len(i) == len(j) == len(data)):
                raise ValueError('row, column, and data array must all be '
                                 'the same length')
            if shape is None:
                shape = (int(i.max()) + 1, int(j.max()) + 1)
            if len(i) and (i.max() >= shape[0] or j.max() >= shape[1] or
                           i.min() < 0 or j.min() < 0):
                raise ValueError('index exceeds matrix dimensions')
            d = _fill(shape, 0.0)
            pat = []
            for k in range(len(data)):
                ii, jj = int(i[k]), int(j[k])
                if (ii, jj) in pat:
                    d[ii, jj] = d[ii, jj] + data[k]
                else:
                    d[ii, jj] = data[k]
                    pat.append((ii, jj))
            return SymSparse(d, fmt, pat)
        if fmt == 'dia':
            data = np.atleast_2d(data)
            offs = np.atleast_1d(arg[1])
            d = _fill(shape, 0.0)
            for r, o in enumerate(offs):
                for jj in range(data.shape[1]):
                    ii = jj - int(o)
                    if 0 <= ii < shape[0] and jj < shape[1]:
                        d[ii, jj] = data[r, jj]
            return SymSparse(d, fmt)
        if fmt in ('csr', 'csc') and len(arg) == 3:
            ind, ptr = np.asarray(arg[1]), np.asarray(arg[2])
            nmaj = len(ptr) - 1
            nmin = int(ind.max()) + 1 if len(ind) else 0
            if shape is None:
                shape = (nmaj, nmin) if fmt == 'csr' else (nmin, nmaj)
            d = _fill(shape, 0.0)
            for r in range(nmaj):
                for k in range(int(ptr[r]), int(ptr[r + 1])):
                    c = int(ind[k])
                    p = (r, c) if fmt == 'csr' else (c, r)
                    d[p] = d[p] + data[k]
            return SymSparse(d, fmt)
        raise Unsupported('sparse construction')
    if isinstance(arg, _spbase):
        return orig(arg, shape=shape, dtype=dtype, copy=copy)
    if isobj(arg):
        used('sparse')
        return SymSparse(np.atleast_2d(oarr(arg)), fmt)
    if isinstance(arg, tuple):
        # empty matrix of a given shape
        return SymSparse(_fill(arg, 0.0), fmt, [])
    return orig(arg, shape=shape, dtype=dtype, copy=copy)


def _dense(m):
    if m is None:
        return None
    if isinstance(m, _spbase):
        return m._d if isinstance(m, SymSparse) else oarr(m.toarray())
    return np.atleast_2d(oarr(m))


def anysym(ms):
    return any(isinstance(m, SymSparse) or isobj(m) for m in ms)


def sp_block_diag(mats, format=None, dtype=None):
    mats = list(mats)
    if not anysym(mats):
        return ORIG['scipy.sparse.block_diag'](mats, format, dtype)
    used('sparse')
    ds = [_dense(m) for m in mats]
    R = sum(d.shape[0] for d in ds)
    C = sum(d.shape[1] for d in ds)
    out = _fill((R, C), 0.0)
    r = c = 0
    for d in ds:
        out[r:r + d.shape[0], c:c + d.shape[1]] = d
        r += d.shape[0]
        c += d.shape[1]
    return SymSparse(out, format or 'coo')


def sp_bmat(blocks, format=None, dtype=None):
    flat = [b for row in blocks for b in row if b is not None]
    if not anysym(flat):
        return ORIG['scipy.sparse.bmat'](blocks, format, dtype)
    hs = [builtins.max(_dense(b).shape[0] for b in row if b is not None)
          for row in blocks]
    ws = [builtins.max(_dense(row[j]).shape[1] for row in blocks if row[j] is not None)
          for j in range(len(blocks[0]))]
    out = _fill((sum(hs), sum(ws)), 0.0)
    for i, row in enumerate(blocks):
        for j, b in enumerate(row):
            if b is not None:
                d = _dense(b)
                out[sum(hs[:i]):sum(hs[:i]) + d.shape[0],
                    sum(ws[:j]):sum(ws[:j]) + d.shape[1]] = d
    return SymSparse(out, format or 'coo')


def sp_hstack(blocks, format=None, dtype=None):
    if not anysym(blocks):
        return ORIG['scipy.sparse.hstack'](blocks, format, dtype)
    return SymSparse(np.concatenate([_dense(b) for b in blocks], axis=1),
                     format or 'coo')


def sp_vstack(blocks, format=None, dtype=None):
    if not anysym(blocks):
        return ORIG['scipy.sparse.vstack'](blocks, format, dtype)
    return SymSparse(np.concatenate([_dense(b) for b in blocks], axis=0),
                     format or 'coo')


def sp_kron(A, B, format=None):
    if not anysym([A, B]):
        return ORIG['scipy.sparse.kron'](A, B, format)
    return SymSparse(np.kron(_dense(A), _dense(B)), format or 'bsr')


def sp_diags(diagonals, offsets=0, shape=None, format=None, dtype=None):
    # (scipy's own version allocates with the patched numpy.zeros)
    used('sparse')
    if np.ndim(offsets) == 0:
        if isinstance(diagonals, (list, tuple)) and len(diagonals) == 1 and \
                np.ndim(diagonals[0]) >= 1:
            diagonals = diagonals
        else:
            diagonals = [diagonals]
        offsets = [offsets]
    ds = [np.atleast_1d(oarr(d)) for d in diagonals]
    if shape is None:
        m = len(ds[0]) + abs(int(offsets[0]))
        shape = (m, m)
    out = _fill(shape, 0.0)
    for d, o in zip(ds, offsets):
        n = min(shape[0] + min(o, 0), shape[1] - max(o, 0))
        if len(d) not in (1, n):
            raise ValueError('Diagonal length does not agree')
        for k in range(n):
            i = k - min(o, 0)
            j = k + max(o, 0)
            out[i, j] = d[k if len(d) > 1 else 0]
    return SymSparse(out, format or 'dia')


def sp_inv(A):
    if not isinstance(A, SymSparse):
        return ORIG['scipy.sparse.linalg.inv'](A)
    used('sparse.linalg.inv')
    if A.shape == (1, 1):
        return inv2(A._d).reshape((1,))    # as scipy does
    return SymSparse(inv2(A._d), A.format)


def sp_factorized(A):
    if not isinstance(A, SymSparse):
        return ORIG['scipy.sparse.linalg.factorized'](A)
    used('sparse.linalg.factorized')
    return lambda b: solve2(A._d, b)


class IntArr(np.ndarray):
    """an array of integers whose real-valued images hold symbolic numbers

    Assigning a symbolic number to it truncates, as for any integer array."""

    def __array_ufunc__(self, ufunc, method, *args, **kw):
        plain = lambda a: a.view(np.ndarray) if isinstance(a, IntArr) else a
        args = tuple(plain(a) for a in args)
        if 'out' in kw:
            kw['out'] = tuple(plain(a) for a in kw['out'])
        r = getattr(ufunc, method)(*args, **kw)
        return _unint(r)

    def astype(self, dtype, *args, **kw):
        return _unint(self.view(np.ndarray).astype(dtype, *args, **kw))


def _unint(r):
    if isinstance(r, np.ndarray) and r.dtype.kind == 'f':
        return emap(lambda v: v, r)
    if isinstance(r, np.ndarray) and r.dtype.kind in 'iu' and r.ndim:
        return r.view(IntArr)
    return r


class SymLU:
    """scipy's SuperLU: only what does not depend on the factors themselves"""

    def __init__(self, d):
        self._d = d
        self.shape = d.shape
        solve2(d, eye(d.shape[0]))      # a singular matrix is refused, as scipy does

    def solve(self, b, trans='N'):
        if trans not in ('N', 'T', 'H'):
            raise ValueError('trans must be N, T, or H')
        return solve2(self._d if trans == 'N' else self._d.T, b)


def sp_splu(A, *args, **kw):
    if not isinstance(A, SymSparse):
        return ORIG['scipy.sparse.linalg.splu'](A, *args, **kw)
    used('sparse.linalg.splu')
    return SymLU(A._d)


def sp_spsolve(A, b, *args, **kw):
    if not isinstance(A, SymSparse) and not isobj(b):
        return ORIG['scipy.sparse.linalg.spsolve'](A, b, *args, **kw)
    return solve2(_dense(A), b.toarray() if isinstance(b, _spbase) else b)


# -------------------------------------------------------------------------- json
class _Enc:
    pass


def _default(user):
    def f(o):
        if isinstance(o, Sym):
            return {'__sym__': o.t.id}
        if user is not None:
            return user(o)
        raise TypeError('Object of type %s is not JSON serializable'
                        % type(o).__name__)
    return f


def json_dumps(obj, *args, **kw):
    used('json')
    kw['default'] = _default(kw.get('default'))
    return ORIG['json.dumps'](obj, *args, **kw)


def _hook(user):
    def f(d):
        if set(d) == {'__sym__'}:
            return Sym(tm.term(d['__sym__']))
        return user(d) if user is not None else d
    return f


def json_loads(s, *args, **kw):
    kw['object_hook'] = _hook(kw.get('object_hook'))
    return ORIG['json.loads'](s, *args, **kw)


# --------------------------------------------------------------------- np.savez
STORE = {}


def _fname(f):
    f = f if isinstance(f, str) else getattr(f, 'name', str(f))
    return f


def np_savez(file, *args, **kw):
    used('savez')
    f = _fname(file)
    if not f.endswith('.npz'):
        f += '.npz'
    d = {}
    for i, a in enumerate(args):
        d['arr_%d' % i] = np.array(a, copy=True)
    for k, a in kw.items():
        if isinstance(a, Sym):
            a = np.array(a, dtype=object)
        d[k] = np.array(a, copy=True)
    STORE[f] = d


class NpzFile(dict):
    @property
    def files(self):
        return list(self)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


def np_load(file, *args, **kw):
    f = _fname(file)
    if f not in STORE:
        raise FileNotFoundError(f)
    return NpzFile({k: v.copy() for k, v in STORE[f].items()})


# ------------------------------------------------------------------------ random
RANDOM = [None]     # callable(index) -> value in [0, 1)


def _rand(shape):
    used('random')
    if shape is None:
        shape = ()
    if isinstance(shape, (builtins.int, np.integer)):
        shape = (shape,)
    a = np.empty_obj(tuple(shape))
    for i in range(a.size):
        a.flat[i] = RANDOM[0]()
    return a[()] if a.shape == () else a


def r_random(size=None):
    return _rand(size)


def r_rand(*shape):
    return _rand(shape)


def r_uniform(low=0.0, high=1.0, size=None):
    return low + (high - low) * _rand(size)


# -------------------------------------------------------------------- shims
class _FMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, builtins.float)

    def __subclasscheck__(cls, o):
        return issubclass(o, builtins.float)


class FloatShim(builtins.float, metaclass=_FMeta):
    def __new__(cls, x=0.0):
        if isinstance(x, Sym):
            return x
        if isinstance(x, np.ndarray) and x.dtype == object and x.size == 1:
            return FloatShim(x.ravel()[0])
        return builtins.float(x)


class _IMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, builtins.int)

    def __subclasscheck__(cls, o):
        return issubclass(o, builtins.int)


class IntShim(builtins.int, metaclass=_IMeta):
    def __new__(cls, x=0, *a):
        if isinstance(x, Sym) and x.t.sort == 'I':
            return x
        if isinstance(x, np.ndarray) and x.dtype == object and x.size == 1:
            return IntShim(x.ravel()[0])
        return builtins.int(x, *a)


# ---------------------------------------------------------------- derivatives
def _fill_uf():
    U = tm.UF_DERIV

    def un(name, d):
        U[name] = [d]
    c = tm.const
    un('psi', lambda x: tm.uf('polygamma', (c(1), x)))
    un('digamma', lambda x: tm.uf('polygamma', (c(1), x)))
    un('gammaln', lambda x: tm.uf('psi', (x,)))
    un('gamma', lambda x: tm.mul(tm.uf('gamma', (x,)), tm.uf('psi', (x,))))
    # 1/gamma(x) is entire: rgamma' = -psi * rgamma
    un('rgamma', lambda x: tm.neg(tm.mul(tm.uf('psi', (x,)),
                                         tm.uf('rgamma', (x,)))))
    un('gammasgn', lambda x: tm.ZERO)
    U['polygamma'] = [lambda n, x: tm.ZERO,
                      lambda n, x: tm.uf('polygamma', (tm.add(n, c(1)), x))]
    sp = scipy.special
    for n in ('psi', 'gammaln', 'gamma', 'rgamma', 'gammasgn'):
        tm.UF_EVAL[n] = (lambda f: lambda x: builtins.float(f(x)))(
            getattr(sp, n))
    tm.UF_EVAL['digamma'] = tm.UF_EVAL['psi']
    pg = sp.polygamma
    tm.UF_EVAL['polygamma'] = lambda n, x: builtins.float(pg(int(round(n)), x))
    # user functions: fK with derivatives fK_i
    from . import solve
    solve.UF_FACTS['gamma'] = lambda a, v: [v != 0]


def _rgamma(x):
    # away from the poles of gamma
    return 1.0 / sfun('gamma')(x)


def _polygamma(n, x):
    if not isinstance(n, Sym) and n == 0:
        return sfun('psi')(x)
    return sfun('polygamma')(n, x)


installed = False


def install():
    global installed
    if installed:
        return
    installed = True
    _fill_uf()
    ORIG['empty'] = np.empty
    for n, f in (('exp', sym.exp), ('log', sym.log), ('sqrt', sym.sqrt),
                 ('log1p', _log1p), ('expm1', _expm1), ('tanh', _tanh),
                 ('log2', lambda x: sym.log(x) / math.log(2.0)),
                 ('log10', lambda x: sym.log(x) / math.log(10.0)),
                 ('exp2', lambda x: sym.exp(x * math.log(2.0))),
                 ('sign', sym.sign)):
        unary(np, n, _lift(f) if n in ('exp', 'log', 'sqrt') else f)
    for n, f in (('isfinite', _isfinite), ('isnan', _isnan),
                 ('isinf', _isinf)):
        orig = getattr(np, n)

        def g(x, *a, _o=orig, _f=f, **k):
            if isobj(x):
                r = emap(_f, x)
                return r.astype(bool) if isinstance(r, np.ndarray) \
                    else np.bool_(r)
            return _o(x, *a, **k)
        patch(np, n, g, 'numpy.' + n)
    patch(np, 'isclose', _isclose)
    patch(np, 'allclose', _allclose)
    ol = np.logaddexp
    la = patch(np, 'logaddexp', lambda x, y, **k: emap(_logaddexp, x, y)
               if isobj(x) or isobj(y) else ol(x, y, **k), 'numpy.logaddexp')
    la.reduce, la.accumulate, la.outer, la.nin = _logaddexp_reduce, ol.accumulate, ol.outer, 2
    for n, f in (('isposinf', _isposinf), ('isneginf', _isneginf)):
        orig = getattr(np, n)

        def g(x, *a, _o=orig, _f=f, **k):
            if isobj(x):
                r = emap(_f, x)
                return r.astype(bool) if isinstance(r, np.ndarray) else np.bool_(r)
            return _o(x, *a, **k)
        patch(np, n, g, 'numpy.' + n)
    for n, f in (('fromiter', _fromiter), ('bincount', _bincount), ('float_power', _float_power),
                 ('isscalar', _scalar(np.isscalar))):
        patch(np, n, f, 'numpy.' + n)
    np.vectorize = _Vectorize
    for n, f in (('logsumexp', _logsumexp), ('softmax', _softmax), ('log_softmax', _log_softmax)):
        patch(scipy.special, n, f, 'scipy.special.' + n)
    for n, f in (('xlogy', _xlogy(sym.log)), ('xlog1py', _xlogy(_log1p))):
        patch(scipy.special, n, lambda x, y, _f=f, _o=getattr(scipy.special, n):
              emap(_f, x, y) if isobj(x) or isobj(y) else _o(x, y), 'scipy.special.' + n)
    if hasattr(scipy.special, 'log_expit'):
        unary(scipy.special, 'log_expit', _log_expit)
    _install_math()
    import numbers
    numbers.Real.register(Sym)
    for n, k in (('min', -1), ('max', 1), ('amin', -1), ('amax', 1)):
        patch(np, n, _reduce_extremum(getattr(np, n), k), 'numpy.' + n)
    for n, k in (('umr_minimum', -1), ('umr_maximum', 1)):
        setattr(np.core._methods, n, _umr(getattr(np.core._methods, n), k))
    for n, k in (('minimum', -1), ('maximum', 1)):
        patch(np, n, _extremum(getattr(np, n), k), 'numpy.' + n)
    oar = np.arange
    patch(np, 'arange', lambda *a, **k: oar(
        *[int(x) if isinstance(x, Sym) and x.t.sort == 'I' else x for x in a],
        **{n: int(x) if isinstance(x, Sym) and x.t.sort == 'I' else x for n, x in k.items()}))
    for n, f in (('zeros', zeros), ('ones', ones), ('full', full),
                 ('empty', empty), ('eye', eye), ('identity', identity)):
        patch(np, n, f)
    for n, f in (('zeros_like', zeros), ('ones_like', ones),
                 ('full_like', full), ('empty_like', empty)):
        patch(np, n, _like(f))
    for n in ('array', 'asarray', 'asanyarray', 'ascontiguousarray'):
        patch(np, n, _mk_array(getattr(np, n)))
    linalg1('cholesky', cholesky2)
    linalg1('inv', inv2)
    linalg1('det', lambda a: simp(_as(det2(a))))
    patch(np.linalg, 'solve', np_solve, 'numpy.linalg.solve')
    patch(np.linalg, 'slogdet', np_slogdet, 'numpy.linalg.slogdet')
    patch(np.linalg, 'norm', np_norm, 'numpy.linalg.norm')
    patch(np.linalg, 'eigh', np_eigh, 'numpy.linalg.eigh')
    patch(np.linalg, 'eigvalsh', np_eigvalsh, 'numpy.linalg.eigvalsh')
    patch(scipy.linalg, 'solve_triangular', sp_solve_triangular,
          'scipy.linalg.solve_triangular')
    patch(scipy.linalg, 'cholesky', sp_cholesky, 'scipy.linalg.cholesky')
    ose = scipy.linalg.eigh
    patch(scipy.linalg, 'eigh', lambda a, *r, **k: np_eigh(a) if isobj(a)
          else ose(a, *r, **k), 'scipy.linalg.eigh')
    patch(scipy.linalg, 'solve', lambda a, b, **k: np_solve(a, b),
          'scipy.linalg.solve')
    osi, osd = scipy.linalg.inv, scipy.linalg.det
    patch(scipy.linalg, 'inv', lambda a, **k: np.linalg.inv(a) if isobj(a)
          else osi(a, **k), 'scipy.linalg.inv')
    patch(scipy.linalg, 'det', lambda a, **k: np.linalg.det(a) if isobj(a)
          else osd(a, **k), 'scipy.linalg.det')
    for n in ('psi', 'digamma', 'gammaln', 'gamma', 'rgamma', 'gammasgn'):
        ORIG['scipy.special.' + n] = getattr(scipy.special, n)
        unary(scipy.special, n, _rgamma if n == 'rgamma' else sfun('psi' if n == 'digamma' else n))
    opg = scipy.special.polygamma
    ORIG['scipy.special.polygamma'] = opg
    patch(scipy.special, 'polygamma', lambda n, x: emap(
        _polygamma, n, x) if isobj(x) or isobj(n) else opg(n, x),
        'scipy.special.polygamma')
    unary(scipy.special, 'expit', _expit)
    unary(scipy.special, 'logit', lambda x: sym.log(x / (1.0 - x)))
    S = scipy.sparse
    for c in (scipy.sparse._base._spbase, scipy.sparse._data._data_matrix):
        if '_mul_scalar' in c.__dict__:
            c._mul_scalar = _mul_scalar(c._mul_scalar)
    for c in _subclasses(scipy.sparse._base._spbase):
        for n in ('_mul_dispatch', '__add__', '__radd__', '__sub__', '__rsub__', 'multiply', '__rmatmul__'):
            if n in c.__dict__ and c is not SymSparse:
                _with_sym(c, n)
    for n in ('lil', 'dok'):
        for suf in ('_matrix', '_array'):
            if hasattr(S, n + suf):
                patch(S, n + suf, _growing(n, getattr(S, n + suf)), 'scipy.sparse.' + n + suf)
    for fmt in ('coo', 'csr', 'csc', 'dia'):
        for suf in ('_matrix', '_array'):
            c = getattr(S, fmt + suf, None)
            if c is not None:
                patch(S, fmt + suf, _fmtclass(fmt, c), 'scipy.sparse.' + fmt
                      + suf)
    for n, f in (('block_diag', sp_block_diag), ('bmat', sp_bmat),
                 ('hstack', sp_hstack), ('vstack', sp_vstack),
                 ('diags', sp_diags), ('kron', sp_kron)):
        patch(S, n, f, 'scipy.sparse.' + n)
    for n, f in (('inv', sp_inv), ('factorized', sp_factorized), ('splu', sp_splu),
                 ('spsolve', sp_spsolve)):
        patch(S.linalg, n, f, 'scipy.sparse.linalg.' + n)
    if sksparse is not None:
        patch(sksparse.cholmod, 'cholesky', chol_factor, 'sksparse.cholmod.cholesky')
    patch(_json, 'dumps', json_dumps, 'json.dumps')
    patch(_json, 'loads', json_loads, 'json.loads')
    patch(np, 'savez', np_savez)
    patch(np, 'savez_compressed', np_savez)
    patch(np, 'load', np_load)
    for n, f in (('random', r_random), ('random_sample', r_random),
                 ('rand', r_rand), ('uniform', r_uniform)):
        patch(np.random, n, f, 'np.random.' + n)


def after_import():
    """register symbolic scalars with autograd, shim paragami's modules"""
    from autograd.numpy.numpy_boxes import ArrayBox
    from autograd.numpy.numpy_vspaces import ArrayVSpace
    from autograd.extend import VSpace
    for ty in (Sym, builtins.int):
        ArrayBox.register(ty)
        VSpace.register(ty, lambda x: ArrayVSpace(np.array(x, dtype=object)))
    ArrayBox.register(IntArr)
    VSpace.register(IntArr, lambda x: ArrayVSpace(x.view(np.ndarray)))
    VSpace.register(np.ndarray, lambda x: ArrayVSpace(x))
    for n, m in list(sys.modules.items()):
        if n.startswith('paragami') and isinstance(m, types.ModuleType):
            m.__dict__.setdefault('float', FloatShim)
