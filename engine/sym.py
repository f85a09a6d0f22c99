"""Symbolic scalars that flow through the real code in place of numbers."""
import builtins
import math
import numbers
from fractions import Fraction
import numpy as np
from . import terms as tm

INF = float('inf')
NAN = float('nan')

CUR = None      # the active engine (explore.Engine) or None


class Unsupported(BaseException):
    """The engine cannot follow the code here: inconclusive, never a verdict.

    A BaseException so that the code under test cannot swallow it.
    """


class PathAbort(BaseException):
    pass


def set_engine(e):
    global CUR
    CUR = e


def is_num(x):
    return isinstance(x, (builtins.int, builtins.float, np.number, Fraction,
                          np.bool_)) and not isinstance(x, np.ndarray)


def special(x):
    return isinstance(x, (builtins.float, np.floating)) and \
        (math.isinf(x) or math.isnan(x))


def lift(x):
    """python number -> term (finite)"""
    if isinstance(x, (bool, np.bool_)):
        return tm.const(int(x), 'I')
    if isinstance(x, (builtins.int, np.integer)):
        return tm.const(int(x), 'I')
    if isinstance(x, Fraction):
        return tm.const(x)
    return tm.const(exact(builtins.float(x)))


_EXACT = {}


def exact(x):
    """The real a float constant stands for: natively computed quotients of small
    integers (1/3, 0.1) are meant as such, everything else is taken bit by bit."""
    r = _EXACT.get(x)
    if r is None:
        r = Fraction(x)
        if r.denominator > 128 and 1e-4 < abs(x) < 1e4:
            f = r.limit_denominator(128)
            if builtins.float(f) == x or (
                    f.denominator % 3 == 0 and abs(f - r) < abs(r) / 2 ** 50):
                r = f
        _EXACT[x] = r
    return r


class _Scalar:
    """what numpy's own scalars offer besides arithmetic, in the terms of the
    0-d array of the value"""
    __slots__ = ()
    __iter__ = None         # not a sequence, whatever __getitem__ says

    def _0d(self):
        a = np.empty((), dtype=object)
        a[()] = self
        return a

    def __getitem__(self, k):
        return self._0d()[k]

    def any(self, *a, **k):
        return self

    all = max = min = any

    def squeeze(self, *a, **k):
        return self

    def transpose(self, *a):
        return self

    def cumsum(self, *a, **k):
        return self.flatten()

    def reshape(self, *a, **k):
        return self._0d().reshape(*a, **k)

    def flatten(self, *a):
        return self._0d().reshape(1)

    ravel = flatten

    def repeat(self, *a, **k):
        return self._0d().repeat(*a, **k)

    def item(self, *a):
        return self

    def copy(self, *a):
        return self

    def tolist(self):
        return self

    @property
    def T(self):
        return self


class SymBool(_Scalar):
    __slots__ = ('t',)

    shape = ()
    ndim = 0
    size = 1
    dtype = np.dtype(object)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return CUR.decide(self.t)

    def _o(self, o):
        if isinstance(o, SymBool):
            return o.t
        if isinstance(o, (bool, np.bool_)):
            return tm.TRUE if o else tm.FALSE
        return None

    def __and__(self, o):
        o = self._o(o)
        return NotImplemented if o is None else SymBool(tm.band(self.t, o))
    __rand__ = __and__

    def __or__(self, o):
        o = self._o(o)
        return NotImplemented if o is None else SymBool(tm.bor(self.t, o))
    __ror__ = __or__

    def __invert__(self):
        return SymBool(tm.bnot(self.t))

    def __eq__(self, o):
        o = self._o(o)
        return False if o is None else SymBool(tm.iff(self.t, o))

    def __ne__(self, o):
        r = self.__eq__(o)
        return True if r is False else ~r

    __xor__ = __ne__

    def __hash__(self):
        return hash(self.t.id)

    def num(self):
        return Sym(tm.ite(self.t, tm.const(1, 'I'), tm.const(0, 'I')))

    def __add__(self, o):
        return self.num() + (o.num() if isinstance(o, SymBool) else o)
    __radd__ = __add__

    def __mul__(self, o):
        return self.num() * (o.num() if isinstance(o, SymBool) else o)
    __rmul__ = __mul__

    def __repr__(self):
        return 'SymBool#%d' % self.t.id

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def mkbool(t):
    if t is tm.TRUE:
        return np.True_
    if t is tm.FALSE:
        return np.False_
    return SymBool(t)


def _z(x):
    """wrap a term as Sym"""
    return Sym(x)


class Sym(_Scalar):
    __slots__ = ('t',)

    # looks like a 0-d thing where code asks
    shape = ()
    ndim = 0
    size = 1
    dtype = np.dtype(object)

    def __init__(self, t):
        self.t = t

    # ---- coercion
    def _other(self, o):
        if isinstance(o, Sym):
            return o
        if isinstance(o, SymBool):
            return o.num()
        if is_num(o):
            return o
        if isinstance(o, np.ndarray) and o.ndim == 0 and False:
            return o.item()
        return None

    def _F(self, o):
        """both as F terms"""
        a = self.t
        if isinstance(o, Sym):
            b = o.t
            if b.sort != 'F':
                b = _to_F(b)
        else:
            b = tm.fconst(o)
        if a.sort != 'F':
            a = _to_F(a)
        return a, b

    def _sort2(self, o):
        s = self.t.sort
        if isinstance(o, Sym) and o.t.sort in 'FM':
            return o.t.sort
        return s

    def _R(self, o):
        a = self.t
        b = o.t if isinstance(o, Sym) else lift(o)
        if a.sort != b.sort:
            a, b = tm.to_real(a), tm.to_real(b)
        return a, b

    # ---- arithmetic
    def __add__(self, o):
        o = self._other(o)
        if o is None:
            return NotImplemented
        s = self._sort2(o)
        if s == 'F':
            return Sym(tm.fop('fadd', *self._F(o)))
        if s == 'M':
            from . import mround
            return mround.add(self, o)
        if special(o):
            return builtins.float(o)
        return Sym(tm.add(*self._R(o)))
    def __radd__(self, o):
        if self.t.sort == 'F':
            o = self._other(o)
            if o is None:
                return NotImplemented
            a, b = self._F(o)
            return Sym(tm.fop('fadd', b, a))
        return self.__add__(o)

    def __neg__(self):
        if self.t.sort == 'F':
            return Sym(tm.fneg(self.t))
        if self.t.sort == 'M':
            from . import mround
            return mround.neg(self)
        return Sym(tm.neg(self.t))

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = self._other(o)
        if o is None:
            return NotImplemented
        s = self._sort2(o)
        if s == 'F':
            return Sym(tm.fop('fsub', *self._F(o)))
        if s == 'M':
            from . import mround
            return mround.sub(self, o)
        if special(o):
            return -builtins.float(o)
        return Sym(tm.sub(*self._R(o)))

    def __rsub__(self, o):
        o = self._other(o)
        if o is None:
            return NotImplemented
        s = self._sort2(o)
        if s == 'F':
            a, b = self._F(o)
            return Sym(tm.fop('fsub', b, a))
        if s == 'M':
            from . import mround
            return mround.sub(o, self)
        if special(o):
            return builtins.float(o)
        a, b = self._R(o)
        return Sym(tm.sub(b, a))

    def __mul__(self, o):
        o = self._other(o)
        if o is None:
            return NotImplemented
        s = self._sort2(o)
        if s == 'F':
            return Sym(tm.fop('fmul', *self._F(o)))
        if s == 'M':
            from . import mround
            return mround.mul(self, o)
        if special(o):
            if math.isnan(o):
                return NAN
            if CUR.decide(tm.lt(tm.const(0, self.t.sort), self.t)):
                return builtins.float(o)
            if CUR.decide(tm.lt(self.t, tm.const(0, self.t.sort))):
                return -builtins.float(o)
            return NAN
        return Sym(tm.mul(*self._R(o)))

    def __rmul__(self, o):
        if self.t.sort == 'F':
            o = self._other(o)
            if o is None:
                return NotImplemented
            a, b = self._F(o)
            return Sym(tm.fop('fmul', b, a))
        return self.__mul__(o)

    def __truediv__(self, o):
        o = self._other(o)
        if o is None:
            return NotImplemented
        return _divide(self, o)

    def __rtruediv__(self, o):
        o = self._other(o)
        if o is None:
            return NotImplemented
        return _divide(o, self)

    def __floordiv__(self, o):
        o = self._other(o)
        if o is None:
            return NotImplemented
        return _floordiv(self, o)

    def __rfloordiv__(self, o):
        o = self._other(o)
        if o is None:
            return NotImplemented
        return _floordiv(o, self)

    def __mod__(self, o):
        o = self._other(o)
        if o is None:
            return NotImplemented
        return _mod(self, o)

    def __rmod__(self, o):
        o = self._other(o)
        if o is None:
            return NotImplemented
        return _mod(o, self)

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self

    def __pow__(self, o):
        o = self._other(o)
        if o is None:
            return NotImplemented
        return power(self, o)

    def __rpow__(self, o):
        o = self._other(o)
        if o is None:
            return NotImplemented
        return power(o, self)

    def __abs__(self):
        t = self.t
        if t.sort == 'F':
            return Sym(tm.fabs(t))
        if t.sort == 'M':
            from . import mround
            return mround.absolute(self)
        return Sym(tm.ite(tm.lt(t, tm.const(0, t.sort)), tm.neg(t), t))
    fabs = __abs__

    # ---- comparison
    def _cmp(self, o, op, swap=False):
        o = self._other(o)
        if o is None:
            return NotImplemented
        s = self._sort2(o)
        if s == 'F':
            a, b = self._F(o)
            if swap:
                a, b = b, a
            return mkbool(tm.fcmp('f' + op, a, b))
        if special(o):
            if math.isnan(o) or op == 'eq':
                return False
            lo = (o > 0) != swap      # self < inf, or -inf < self
            return bool(lo)
        if s == 'M':
            from . import mround
            a, b = mround.R(self), mround.R(o)
        else:
            a, b = self._R(o)
        if swap:
            a, b = b, a
        return mkbool({'lt': tm.lt, 'le': tm.le, 'eq': tm.eq}[op](a, b))

    def __lt__(self, o):
        return self._cmp(o, 'lt')

    def __le__(self, o):
        return self._cmp(o, 'le')

    def __gt__(self, o):
        return self._cmp(o, 'lt', True)

    def __ge__(self, o):
        return self._cmp(o, 'le', True)

    def __eq__(self, o):
        r = self._cmp(o, 'eq')
        return False if r is NotImplemented and not isinstance(
            o, np.ndarray) and not hasattr(o, '_trace') else r

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        if isinstance(r, SymBool):
            return ~r
        return not r

    def __hash__(self):
        return hash(self.t.id)

    def __bool__(self):
        t = self.t
        if t.sort == 'F':
            return not CUR.decide(tm.fcmp('feq', t, tm.fconst(0.0)))
        if t.sort == 'M':
            return not CUR.decide(tm.eq(tm.to_real(t), tm.ZERO))
        return not CUR.decide(tm.eq(t, tm.const(0, t.sort)))

    # ---- conversion
    def __float__(self):
        raise Unsupported('float() of a symbolic value')

    def __complex__(self):
        raise Unsupported('complex() of a symbolic value')

    def __int__(self):
        if self.t.sort == 'I':
            return CUR.concretize(self.t)
        if self.t.sort == 'R':
            if CUR.decide(tm.lt(self.t, tm.ZERO)):
                return CUR.concretize(tm.neg(tm.floor(tm.neg(self.t))))
            return CUR.concretize(tm.floor(self.t))
        raise Unsupported('int() of a symbolic float')

    def __index__(self):
        if self.t.sort == 'I':
            return CUR.concretize(self.t)
        raise TypeError('symbolic float cannot be interpreted as an integer')

    def __round__(self, n=None):
        # round half even on the exact value
        if self.t.sort not in 'RI':
            raise Unsupported('round() of a symbolic binary64')
        k = Fraction(10) ** (n or 0)
        s = Sym(tm.mul(tm.const(k), tm.to_real(self.t)))
        f = tm.floor((s + Fraction(1, 2)).t)
        if n is None:
            return Sym(f)
        return Sym(tm.div(tm.to_real(f), tm.const(k)))

    def rint(self):
        return self.__round__(0)

    def __floor__(self):
        return Sym(tm.floor(self.t))

    def floor(self):
        return Sym(tm.to_real(tm.floor(self.t)))

    def ceil(self):
        return Sym(tm.to_real(tm.neg(tm.floor(tm.neg(self.t)))))

    def __trunc__(self):
        return self.__int__()

    # ---- numpy-ish
    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0.0

    def conjugate(self):
        return self
    conj = conjugate

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def is_integer(self):
        return mkbool(tm.eq(tm.to_real(tm.floor(self.t)), self.t))

    def astype(self, dt, *a, **k):
        return np.array(self, dtype=object).astype(dt)[()]

    def sum(self, *a, **k):
        return self
    mean = prod = sum

    def isfinite(self):
        return True

    def exp(self):
        return exp(self)

    def log(self):
        return log(self)

    def sqrt(self):
        return sqrt(self)

    def square(self):
        return self * self

    def __repr__(self):
        return 'Sym#%d' % self.t.id
    __str__ = __repr__

    def __format__(self, spec):
        if self.t.sort in 'RFM' and spec not in ('', '0.8f', '.8f'):
            # printing precision is not part of any claim, but text built with
            # a lossy format must not be read back: make it unreadable.
            return '<sym>'
        return repr(self)


def _to_F(t):
    if tm.is_const(t):
        return tm.fconst(builtins.float(t.val))
    raise Unsupported('mixing exact and binary64 symbolic values')


def _sgn_special(num_positive, v):
    return v if num_positive else -v


def _divide(a, b):
    sa = a.t.sort if isinstance(a, Sym) else None
    sb = b.t.sort if isinstance(b, Sym) else None
    if 'F' in (sa, sb):
        if sa is None:
            y, x = b._F(a)
        else:
            x, y = a._F(b)
        return Sym(tm.fop('fdiv', x, y))
    if 'M' in (sa, sb):
        from . import mround
        return mround.div(a, b)
    if sb is None and special(b):
        return NAN if math.isnan(b) else 0.0
    if sa is None and special(a):
        if math.isnan(a):
            return NAN
        if CUR.decide(tm.lt(tm.const(0, sb), b.t)):
            return builtins.float(a)
        if CUR.decide(tm.lt(b.t, tm.const(0, sb))):
            return -builtins.float(a)
        return builtins.float(a)        # x / +0
    x = a.t if sa else lift(a)
    y = b.t if sb else lift(b)
    both_int = x.sort == 'I' and y.sort == 'I'
    x, y = tm.to_real(x), tm.to_real(y)
    if CUR.decide(tm.eq(y, tm.ZERO)):
        if both_int:
            raise ZeroDivisionError('division by zero')
        if CUR.decide(tm.lt(tm.ZERO, x)):
            return INF
        if CUR.decide(tm.lt(x, tm.ZERO)):
            return -INF
        return NAN
    return Sym(tm.div(x, y))


def _intpair(a, b):
    x = a.t if isinstance(a, Sym) else lift(a)
    y = b.t if isinstance(b, Sym) else lift(b)
    if x.sort == 'I' and y.sort == 'I':
        if CUR.decide(tm.eq(y, tm.const(0, 'I'))):
            raise ZeroDivisionError('integer division or modulo by zero')
        return x, y
    raise Unsupported('floor division of symbolic reals')


def _floordiv(a, b):
    x, y = _intpair(a, b)
    return Sym(tm.idiv(x, y))


def _mod(a, b):
    x, y = _intpair(a, b)
    return Sym(tm.imod(x, y))


def power(a, b):
    if isinstance(b, Sym):
        if tm.is_const(b.t):
            b = b.t.val
        else:
            return exp(b * log(a))
    if not isinstance(a, Sym):
        return exp(b * log(a))
    fb = Fraction(b) if not special(b) else None
    if fb is None:
        raise Unsupported('power with a non-finite exponent')
    if fb.denominator == 1:
        n = fb.numerator
        if a.t.sort in 'FM':
            if n == 2:
                return a * a
            if n == 1:
                return a
            if n == 0:
                return 1.0
            if n == -1:
                return 1.0 / a
            if a.t.sort == 'F':
                raise Unsupported('binary64 power')
            r = a
            for _ in range(abs(n) - 1):
                r = r * a
            return r if n > 0 else 1.0 / r
        if n >= 0:
            return Sym(tm.powi(a.t, n))
        return 1.0 / Sym(tm.powi(a.t, -n))
    if fb == Fraction(1, 2):
        return sqrt(a)
    if fb == Fraction(-1, 2):
        return 1.0 / sqrt(a)
    return exp(b * log(a))


def exp(a):
    if not isinstance(a, Sym):
        try:
            return math.exp(a)
        except OverflowError:
            return INF
    if a.t.sort == 'M':
        from . import mround
        return mround.exp(a)
    if a.t.sort == 'F':
        raise Unsupported('exp of a bit-precise binary64')
    return Sym(tm.exp(tm.to_real(a.t)))


def log(a):
    if not isinstance(a, Sym):
        if a > 0:
            return math.log(a) if not math.isinf(a) else INF
        return -INF if a == 0 else NAN
    if a.t.sort == 'M':
        from . import mround
        return mround.log(a)
    if a.t.sort == 'F':
        raise Unsupported('log of a bit-precise binary64')
    t = tm.to_real(a.t)
    if CUR.decide(tm.lt(tm.ZERO, t)):
        return Sym(tm.log(t))
    if CUR.decide(tm.eq(t, tm.ZERO)):
        return -INF
    return NAN


def sqrt(a):
    if not isinstance(a, Sym):
        return math.sqrt(a) if a >= 0 else NAN
    if a.t.sort == 'F':
        return Sym(tm.fsqrt(a.t))
    if a.t.sort == 'M':
        from . import mround
        return mround.sqrt(a)
    t = tm.to_real(a.t)
    if CUR.decide(tm.lt(t, tm.ZERO)):
        return NAN
    return Sym(tm.sqrt(t))


def sign(a):
    if not isinstance(a, Sym):
        return math.copysign(1.0, a) if a else 0.0
    if a.t.sort in 'FM':
        return 1.0 if a > 0 else (-1.0 if a < 0 else 0.0)
    t = tm.to_real(a.t)
    return Sym(tm.ite(tm.lt(tm.ZERO, t), tm.ONE,
                      tm.ite(tm.lt(t, tm.ZERO), tm.const(-1), tm.ZERO)))


def uf(name, *args):
    return Sym(tm.uf(name, [tm.to_real(a.t if isinstance(a, Sym) else lift(a))
                            for a in args]))


def has_sym(x):
    if isinstance(x, (Sym, SymBool)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object and any(
            isinstance(e, (Sym, SymBool)) for e in x.ravel())
    if isinstance(x, (list, tuple)):
        return any(has_sym(e) for e in x)
    if isinstance(x, dict):
        return any(has_sym(e) for e in x.values())
    return False
