"""The harness API.  One harness runs symbolically (SymH) and, for replays and
witness validation, on plain numbers with the unpatched real code (ConH)."""
import math
import numpy as np


class AssumeFailed(BaseException):
    pass


def flat(x):
    if isinstance(x, np.ndarray):
        return list(x.ravel())
    if isinstance(x, (list, tuple)):
        out = []
        for e in x:
            out += flat(e)
        return out
    if hasattr(x, 'toarray'):
        return list(np.asarray(x.toarray()).ravel())
    return [x]


class Base:
    def reals(self, name, shape, lo=-2.0, hi=2.0):
        if isinstance(shape, int):
            shape = (shape,)
        n = int(np.prod(shape)) if shape else 1
        v = [self.real('%s%d' % (name, i), lo, hi) for i in range(n)]
        return self.arr(v).reshape(shape)

    def arr(self, v):
        """array of scalars (object array when symbolic)"""
        raise NotImplementedError

    def tri(self, name, n, lo=-2.0, hi=2.0):
        """symmetric matrix of fresh reals"""
        a = np.empty((n, n), dtype=object)
        for i in range(n):
            for j in range(i + 1):
                v = self.real('%s_%d%d' % (name, i, j), lo, hi)
                a[i, j] = v
                a[j, i] = v
        return self.arr(list(a.ravel())).reshape((n, n))

    def choice(self, name, options):
        i = self.int(name, 0, len(options) - 1)
        for k in range(len(options) - 1):
            if i == k:
                return options[k]
        return options[-1]

    def all(self, conds):
        return self.And(*list(conds))

    def same(self, a, b, label):
        """structural equality of nested dict/list/array/scalar values"""
        if isinstance(a, dict) or isinstance(b, dict):
            ok = isinstance(a, dict) and isinstance(b, dict) and \
                list(a.keys()) == list(b.keys())
            self.check(ok, label + ':keys', lambda: '%r vs %r' % (a, b))
            if ok:
                for k in a:
                    self.same(a[k], b[k], label)
        elif isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            self.check(len(a) == len(b), label + ':len')
            for x, y in zip(a, b):
                self.same(x, y, label)
        else:
            self.eq(a, b, label)


class ConH(Base):
    symbolic = False

    def __init__(self, env, rtol=1e-6, atol=1e-7):
        self.env = env
        self.failures = []
        self.rtol = rtol
        self.atol = atol
        self.nrand = 0
        self.checks = 0

    # inputs
    def real(self, name, lo=-2.0, hi=2.0):
        v = self.env.get(name)
        return 0.5 if v is None else float(v)

    def fp(self, name, lo=-2.0, hi=2.0):
        return float(self.env.get(name, 0.0))

    def mreal(self, name, lo=-2.0, hi=2.0):
        return float(self.env.get(name, 0.5))

    def int(self, name, lo, hi):
        v = self.env.get(name)
        if v is None:
            return lo
        if not lo <= int(v) <= hi:
            raise AssumeFailed()
        return int(v)

    def bool(self, name):
        return bool(self.env.get(name, False))

    def arr(self, v):
        return np.array(v, dtype=float)

    def const(self, x):
        return float(x)

    # logic
    def And(self, *xs):
        return all(bool(x) for x in xs)

    def Or(self, *xs):
        return any(bool(x) for x in xs)

    def Not(self, x):
        return not bool(x)

    def Implies(self, a, b):
        return (not bool(a)) or bool(b)

    def Iff(self, a, b):
        return bool(a) == bool(b)

    def eqc(self, a, b):
        """equality as a condition"""
        return self._close(a, b)

    def exactly(self, a, b):
        """equal up to the rounding of a few operations"""
        return abs(float(a) - float(b)) <= 1e-15

    def _close(self, a, b, rtol=None, atol=None):
        try:
            a, b = float(a), float(b)
        except (TypeError, ValueError):
            return a == b
        if math.isnan(a) or math.isnan(b):
            return math.isnan(a) and math.isnan(b)
        if math.isinf(a) or math.isinf(b):
            return a == b
        return abs(a - b) <= (self.atol if atol is None else atol) + \
            (self.rtol if rtol is None else rtol) * max(abs(a), abs(b))

    def assume(self, c):
        if not bool(c):
            raise AssumeFailed()

    def check(self, c, label, detail=None):
        self.checks += 1
        if not bool(c):
            d = detail() if callable(detail) else (detail or '')
            self.failures.append((label, str(d)[:600]))
        return bool(c)

    def eq(self, a, b, label, rtol=None, atol=None, shape=True):
        fa, fb = flat(a), flat(b)
        if shape and np.shape(_dn(a)) != np.shape(_dn(b)):
            return self.check(False, label + ':shape',
                              '%s vs %s' % (np.shape(_dn(a)), np.shape(_dn(b))))
        ok = len(fa) == len(fb) and all(
            self._close(x, y, rtol, atol) for x, y in zip(fa, fb))
        return self.check(ok, label, lambda: 'got %r expected %r' % (a, b))

    def raises(self, fn, label, exc=Exception):
        try:
            r = fn()
        except exc as e:
            return self.check(True, label)
        except Exception as e:
            return self.check(False, label, 'raised %r instead' % (e,))
        return self.check(False, label, lambda: 'no error; returned %r' % (r,))

    def jac(self, f, x, eps=1e-6):
        """true derivative of the flat map f at x (central differences)"""
        x = np.array(x, dtype=float)
        cols = []
        for j in range(x.size):
            s = eps * max(1.0, abs(x.flat[j]))
            up, dn = x.copy(), x.copy()
            up.flat[j] += s
            dn.flat[j] -= s
            cols.append((np.array(flat(f(up)), dtype=float) -
                         np.array(flat(f(dn)), dtype=float)) / (2 * s))
        return np.array(cols).T.reshape((len(flat(f(x))), x.size))

    dtol = dict(rtol=1e-4, atol=1e-5)

    def random_value(self):
        v = self.env.get('rnd%d' % self.nrand, 0.25)
        self.nrand += 1
        return min(max(float(v), 0.0), 1.0 - 2.0 ** -53)

    def anchor(self, x):
        pass

    def merge_extrema(self):
        """symbolic: minima and maxima along an axis become terms instead of branches"""

    def intarr(self, a):
        """an array of integers (a plain one, except that its real images can hold symbolic numbers)"""
        return a

    def reg_eigh(self, A, w, U):
        pass

    def reg_chol(self, A, p, L):
        pass

    def smooth(self, name, derivs=None):
        raise NotImplementedError


def _dn(x):
    return x.toarray() if hasattr(x, 'toarray') else x


def symh():
    """SymH is built lazily: it needs the patched process"""
    from . import terms as tm
    from . import sym
    from . import npsym
    from .sym import Sym, SymBool

    def bt(c):
        if isinstance(c, SymBool):
            return c.t
        if isinstance(c, (bool, np.bool_)):
            return tm.TRUE if c else tm.FALSE
        if isinstance(c, Sym):
            return tm.bnot(tm.eq(c.t, tm.const(0, c.t.sort)))
        return tm.TRUE if c else tm.FALSE

    class SymH(Base):
        symbolic = True
        dtol = {}

        def __init__(self, eng):
            self.e = eng
            self.nrand = 0
            npsym.RANDOM[0] = self.random_value
            del npsym.EIGH[:]
            del npsym.CHOL[:]
            npsym.MERGE[0] = False
            npsym.STORE.clear()

        def real(self, name, lo=-2.0, hi=2.0):
            return Sym(self.e.newvar(name, 'R', ('R', lo, hi)))

        def fp(self, name, lo=-2.0, hi=2.0):
            return Sym(self.e.newvar(name, 'F', ('F', lo, hi)))

        def mreal(self, name, lo=-2.0, hi=2.0):
            from . import mround
            return mround.var(self.e, name, lo, hi)

        def anchor(self, x):
            from . import mround
            mround.anchor(x)

        def merge_extrema(self):
            npsym.MERGE[0] = True

        def intarr(self, a):
            return a.view(npsym.IntArr)

        def int(self, name, lo, hi):
            v = Sym(self.e.newvar(name, 'I', ('I', lo, hi)))
            self.e.assume(tm.le(tm.const(lo, 'I'), v.t))
            self.e.assume(tm.le(v.t, tm.const(hi, 'I')))
            return v

        def bool(self, name):
            return SymBool(self.e.newvar(name, 'B', ('B', 0, 1)))

        def arr(self, v):
            a = npsym._empty_obj(len(v))
            for i, x in enumerate(v):
                a[i] = x
            return a

        def const(self, x):
            return Sym(sym.lift(x))

        def And(self, *xs):
            return sym.mkbool(tm.band(*[bt(x) for x in xs]))

        def Or(self, *xs):
            return sym.mkbool(tm.bor(*[bt(x) for x in xs]))

        def Not(self, x):
            return sym.mkbool(tm.bnot(bt(x)))

        def Implies(self, a, b):
            return self.Or(self.Not(a), b)

        def Iff(self, a, b):
            return sym.mkbool(tm.iff(bt(a), bt(b)))

        def eqc(self, a, b):
            return sym.mkbool(self._eqt(a, b))

        exactly = eqc

        def assume(self, c):
            self.e.assume(bt(c))

        def check(self, c, label, detail=None):
            return self.e.check(bt(c), label)

        def _eqt(self, a, b):
            if not isinstance(a, (Sym, SymBool)) and \
                    not isinstance(b, (Sym, SymBool)):
                if sym.is_num(a) and sym.is_num(b):
                    if sym.special(a) or sym.special(b):
                        return tm.TRUE if (a == b or (a != a and b != b)) \
                            else tm.FALSE
                    ok = abs(float(a) - float(b)) <= 1e-9 * max(
                        1.0, abs(float(a)), abs(float(b)))
                    return tm.TRUE if ok else tm.FALSE
                return tm.TRUE if a == b else tm.FALSE
            if isinstance(a, SymBool) or isinstance(b, SymBool):
                return tm.iff(bt(a), bt(b))
            r = (a == b) if isinstance(a, Sym) else (b == a)
            return bt(r)

        def eq(self, a, b, label, rtol=None, atol=None, shape=True):
            if shape and np.shape(_dn(a)) != np.shape(_dn(b)):
                return self.check(False, label + ':shape')
            fa, fb = flat(a), flat(b)
            if len(fa) != len(fb):
                return self.check(False, label + ':size')
            ok = True
            for x, y in zip(fa, fb):
                if isinstance(x, Sym) and isinstance(y, Sym) and x.t is y.t:
                    self.e.same(x.t, y.t)
                if not self.check(sym.mkbool(self._eqt(x, y)), label):
                    ok = False
                    break
            return ok

        def raises(self, fn, label, exc=Exception):
            try:
                fn()
            except exc:
                return self.check(True, label)
            except Exception:
                return self.check(False, label)
            return self.check(False, label)

        def jac(self, f, x, eps=None):
            xs = flat(x)
            out = flat(f(x))
            a = npsym._empty_obj((len(out), len(xs)))
            memos = [dict() for _ in xs]
            for i, y in enumerate(out):
                for j, v in enumerate(xs):
                    if isinstance(y, Sym):
                        a[i, j] = Sym(tm.diff(tm.to_real(y.t), v.t, memos[j]))
                    else:
                        a[i, j] = 0.0
            return a

        def random_value(self):
            v = self.real('rnd%d' % self.nrand, 0.0, 1.0)
            self.nrand += 1
            self.assume(v >= 0)
            self.assume(v < 1)
            return v

        def reg_eigh(self, A, w, U):
            npsym.register_eigh(A, w, U)

        def reg_chol(self, A, p, L):
            npsym.register_chol(A, p, L)

    return SymH
