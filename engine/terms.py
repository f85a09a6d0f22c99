"""Hash-consed term DAG produced by symbolically executing the real code.

Sorts:
  'R'  exact real          (z3 Real; arithmetic is exact, see DESIGN.md)
  'I'  mathematical integer (python int)
  'B'  boolean
  'F'  IEEE-754 binary64   (z3 FloatingPoint(11, 53), round to nearest even)
  'M'  finite binary64 under the monotone-rounding abstraction (see mround.py)
"""
from fractions import Fraction
import math
import struct

_table = {}
_terms = []


class T:
    __slots__ = ('op', 'args', 'val', 'sort', 'id', 'vars', '_lin')

    def __repr__(self):
        return show(self)


def show(t, depth=6):
    if t.op in ('const', 'fconst'):
        return str(t.val)
    if t.op == 'var':
        return str(t.val)
    if depth == 0:
        return '#%d' % t.id
    return '(%s%s %s)' % (t.op, '' if t.val is None else ':' + str(t.val),
                          ' '.join(show(a, depth - 1) for a in t.args))


def mk(op, args=(), val=None, sort='R'):
    key = (op, tuple(a.id for a in args), val, sort)
    t = _table.get(key)
    if t is None:
        t = T()
        t.op = op
        t.args = tuple(args)
        t.val = val
        t.sort = sort
        t.id = len(_terms)
        t._lin = None
        if op == 'var':
            t.vars = frozenset((t.id,))
        else:
            vs = frozenset()
            for a in args:
                vs = vs | a.vars if vs else a.vars
            t.vars = vs
        _table[key] = t
        _terms.append(t)
    return t


def term(i):
    return _terms[i]


TRUE = mk('true', sort='B')
FALSE = mk('false', sort='B')


def const(x, sort='R'):
    if not isinstance(x, Fraction):
        x = Fraction(x)
    if x.denominator == 1:
        x = Fraction(x.numerator, 1)
    return mk('const', val=x, sort=sort)


def fconst(x):
    x = float(x)
    # keyed by bits so that -0.0 and nan stay distinct
    bits = struct.unpack('<Q', struct.pack('<d', x))[0]
    if math.isnan(x):
        bits = 0x7ff8000000000000
    return mk('fconst', val=bits, sort='F')


def fval(t):
    return struct.unpack('<d', struct.pack('<Q', t.val))[0]


ZERO = const(0)
ONE = const(1)


def is_const(t):
    return t.op == 'const'


def num_sort(a, b):
    if 'R' in (a.sort, b.sort):
        return 'R'
    return 'I'


# ---------------------------------------------------------------- exact reals
def add(a, b):
    s = num_sort(a, b)
    if is_const(a) and is_const(b):
        return const(a.val + b.val, s)
    if is_const(a):
        a, b = b, a
    if is_const(b) and b.val == 0 and a.sort == s:
        return a
    if b.op == 'neg' and b.args[0] is a:
        return const(0, s)
    if a.op == 'neg' and a.args[0] is b:
        return const(0, s)
    return mk('add', (a, b), sort=s)


def neg(a):
    if is_const(a):
        return const(-a.val, a.sort)
    if a.op == 'neg':
        return a.args[0]
    return mk('neg', (a,), sort=a.sort)


def sub(a, b):
    if a is b:
        return const(0, a.sort)
    return add(a, neg(b))


def mul(a, b):
    s = num_sort(a, b)
    if is_const(a) and is_const(b):
        return const(a.val * b.val, s)
    if is_const(b):
        a, b = b, a
    if is_const(a):
        if a.val == 0:
            return const(0, s)
        if a.val == 1 and b.sort == s:
            return b
        if a.val == -1 and b.sort == s:
            return neg(b)
    return mk('mul', (a, b), sort=s)


def div(a, b):
    """Real division; the caller has established b != 0."""
    if is_const(b):
        if is_const(a):
            return const(a.val / b.val)
        return mul(const(1 / b.val), a)
    if is_const(a) and a.val == 0:
        return ZERO
    return mk('div', (a, b))


def powi(a, n):
    if n == 0:
        return const(1, a.sort)
    if n == 1:
        return a
    if is_const(a):
        return const(a.val ** n)
    if n < 0:
        return div(ONE, powi(a, -n))
    r = a
    for _ in range(n - 1):
        r = mul(r, a)
    return r


def exp(a):
    if is_const(a) and a.val == 0:
        return ONE
    if a.op == 'log':
        return a.args[0]
    return mk('exp', (a,))


def log(a):
    """caller has established a > 0"""
    if is_const(a) and a.val == 1:
        return ZERO
    if a.op == 'exp':
        return a.args[0]
    return mk('log', (a,))


def sqrt(a):
    """caller has established a >= 0"""
    if is_const(a):
        v = a.val
        if v >= 0:
            n, d = math.isqrt(v.numerator), math.isqrt(v.denominator)
            if n * n == v.numerator and d * d == v.denominator:
                return const(Fraction(n, d))
    return mk('sqrt', (a,))


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    s = a.sort if a.sort in 'BFM' else num_sort(a, b)
    return mk('ite', (c, a, b), sort=s)


def uf(name, args, sort='R'):
    return mk('uf', tuple(args), val=name, sort=sort)


def floor(a):
    if is_const(a):
        return const(math.floor(a.val), 'I')
    if a.sort == 'I':
        return a
    return mk('floor', (a,), sort='I')


def to_real(a):
    if a.sort == 'R':
        return a
    if is_const(a):
        return const(a.val, 'R')
    return mk('toreal', (a,), sort='R')


def imod(a, b):
    if is_const(a) and is_const(b) and b.val != 0:
        return const(a.val % b.val, 'I')
    return mk('mod', (a, b), sort='I')


def idiv(a, b):
    if is_const(a) and is_const(b) and b.val != 0:
        return const(a.val // b.val, 'I')
    return mk('idiv', (a, b), sort='I')


# ------------------------------------------------------------------- booleans
def lt(a, b):
    if is_const(a) and is_const(b):
        return TRUE if a.val < b.val else FALSE
    if a is b:
        return FALSE
    return mk('lt', (a, b), sort='B')


def le(a, b):
    if is_const(a) and is_const(b):
        return TRUE if a.val <= b.val else FALSE
    if a is b:
        return TRUE
    return mk('le', (a, b), sort='B')


def eq(a, b):
    if a is b:
        return TRUE
    if is_const(a) and is_const(b):
        return TRUE if a.val == b.val else FALSE
    if a.id > b.id:
        a, b = b, a
    return mk('eq', (a, b), sort='B')


def bnot(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == 'not':
        return a.args[0]
    return mk('not', (a,), sort='B')


def band(*xs):
    out = []
    for x in xs:
        if x is FALSE:
            return FALSE
        if x is TRUE or x in out:
            continue
        out.append(x)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk('and', tuple(out), sort='B')


def bor(*xs):
    return bnot(band(*[bnot(x) for x in xs]))


def iff(a, b):
    if a is b:
        return TRUE
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is FALSE:
        return bnot(b)
    if b is FALSE:
        return bnot(a)
    return mk('iff', (a, b), sort='B')


# --------------------------------------------------------------- binary64 ops
_FOLD = {
    'fadd': lambda x, y: x + y,
    'fsub': lambda x, y: x - y,
    'fmul': lambda x, y: x * y,
}


def _fdiv(x, y):
    try:
        return x / y
    except ZeroDivisionError:
        if x == 0 or math.isnan(x):
            return float('nan')
        return math.copysign(float('inf'), x) * math.copysign(1.0, y)


_FOLD['fdiv'] = _fdiv


def fop(op, a, b):
    if a.op == 'fconst' and b.op == 'fconst':
        return fconst(_FOLD[op](fval(a), fval(b)))
    return mk(op, (a, b), sort='F')


def fneg(a):
    if a.op == 'fconst':
        return fconst(-fval(a))
    return mk('fneg', (a,), sort='F')


def fabs(a):
    if a.op == 'fconst':
        return fconst(abs(fval(a)))
    return mk('fabs', (a,), sort='F')


def fsqrt(a):
    if a.op == 'fconst':
        v = fval(a)
        return fconst(math.sqrt(v) if v >= 0 else float('nan'))
    return mk('fsqrt', (a,), sort='F')


_FCMP = {'flt': lambda x, y: x < y, 'fle': lambda x, y: x <= y,
         'feq': lambda x, y: x == y}


def fcmp(op, a, b):
    if a.op == 'fconst' and b.op == 'fconst':
        return TRUE if _FCMP[op](fval(a), fval(b)) else FALSE
    return mk(op, (a, b), sort='B')


def fisnan(a):
    if a.op == 'fconst':
        return TRUE if math.isnan(fval(a)) else FALSE
    return mk('fisnan', (a,), sort='B')


# ---------------------------------------------------------------- linear form
def lin(t):
    """(const, {atom: coef}) with exact rational coefficients."""
    if t._lin is not None:
        return t._lin
    if t.op == 'const':
        r = (t.val, {})
    elif t.op == 'add':
        c0, m0 = lin(t.args[0])
        c1, m1 = lin(t.args[1])
        m = dict(m0)
        for k, v in m1.items():
            w = m.get(k, 0) + v
            if w == 0:
                m.pop(k, None)
            else:
                m[k] = w
        r = (c0 + c1, m)
    elif t.op == 'neg':
        c0, m0 = lin(t.args[0])
        r = (-c0, {k: -v for k, v in m0.items()})
    elif t.op == 'mul' and t.args[0].op == 'const':
        k0 = t.args[0].val
        c0, m0 = lin(t.args[1])
        r = (c0 * k0, {k: v * k0 for k, v in m0.items()})
    elif t.op == 'mul' and not t.args[0].vars and not t.args[1].vars:
        r = (Fraction(0), {t: Fraction(1)})
    elif t.op == 'toreal':
        r = (Fraction(0), {t: Fraction(1)})
    else:
        r = (Fraction(0), {t: Fraction(1)})
    t._lin = r
    return r


# ------------------------------------------------------------ differentiation
# derivative rules of the uninterpreted (special) functions: name -> list of
# functions (args -> term), one per argument, None when not differentiable.
UF_DERIV = {}


def diff(t, v, memo=None):
    """Exact symbolic derivative of t with respect to variable term v."""
    if memo is None:
        memo = {}
    if v.id not in t.vars:
        return ZERO
    r = memo.get(t.id)
    if r is not None:
        return r
    a = t.args
    if t is v:
        r = ONE
    elif t.op == 'add':
        r = add(diff(a[0], v, memo), diff(a[1], v, memo))
    elif t.op == 'neg':
        r = neg(diff(a[0], v, memo))
    elif t.op == 'mul':
        r = add(mul(diff(a[0], v, memo), a[1]), mul(a[0], diff(a[1], v, memo)))
    elif t.op == 'div':
        r = div(sub(diff(a[0], v, memo), mul(t, diff(a[1], v, memo))), a[1])
    elif t.op == 'exp':
        r = mul(t, diff(a[0], v, memo))
    elif t.op == 'log':
        r = div(diff(a[0], v, memo), a[0])
    elif t.op == 'sqrt':
        r = div(diff(a[0], v, memo), mul(const(2), t))
    elif t.op == 'ite':
        r = ite(a[0], diff(a[1], v, memo), diff(a[2], v, memo))
    elif t.op == 'uf':
        r = ZERO
        rules = UF_DERIV[t.val]
        for i, arg in enumerate(a):
            if v.id in arg.vars:
                r = add(r, mul(rules[i](*a), diff(arg, v, memo)))
    else:
        raise NotImplementedError('diff of ' + t.op)
    memo[t.id] = r
    return r


def subst(t, m, memo=None):
    """t with variables (ids in m) replaced by terms, for real valued terms"""
    memo = {} if memo is None else memo
    if not any(i in m for i in t.vars):
        return t
    r = memo.get(t.id)
    if r is None:
        if t.op == 'var':
            r = m[t.id]
        else:
            a = [subst(x, m, memo) for x in t.args]
            f = {'add': add, 'neg': neg, 'mul': mul, 'div': div, 'exp': exp,
                 'log': log, 'sqrt': sqrt, 'ite': ite}.get(t.op)
            r = f(*a) if f else mk(t.op, a, val=t.val, sort=t.sort)
        memo[t.id] = r
    return r


# ----------------------------------------------------------------- evaluation
UF_EVAL = {}


def evaluate(t, env, memo=None):
    """Evaluate with floats/ints/bools; env maps var id -> value."""
    if memo is None:
        memo = {}
    if t.id in memo:
        return memo[t.id]
    op, a = t.op, t.args
    if op == 'var':
        r = env[t.id]
    elif op == 'const':
        r = int(t.val) if t.sort == 'I' else float(t.val)
    elif op == 'fconst':
        r = fval(t)
    elif op == 'true':
        r = True
    elif op == 'false':
        r = False
    elif op == 'ite':
        r = evaluate(a[1] if evaluate(a[0], env, memo) else a[2], env, memo)
    else:
        x = [evaluate(y, env, memo) for y in a]
        if op in ('add', 'fadd'):
            r = x[0] + x[1]
        elif op in ('neg', 'fneg'):
            r = -x[0]
        elif op in ('mul', 'fmul'):
            r = x[0] * x[1]
        elif op == 'fsub':
            r = x[0] - x[1]
        elif op == 'div':
            r = x[0] / x[1]
        elif op == 'fdiv':
            r = _fdiv(x[0], x[1])
        elif op == 'exp':
            r = math.exp(x[0])
        elif op == 'log':
            r = math.log(x[0])
        elif op in ('sqrt', 'fsqrt'):
            r = math.sqrt(x[0])
        elif op == 'fabs':
            r = abs(x[0])
        elif op == 'floor':
            r = math.floor(x[0])
        elif op == 'toreal':
            r = float(x[0])
        elif op == 'mod':
            r = x[0] % x[1]
        elif op == 'idiv':
            r = x[0] // x[1]
        elif op in ('lt', 'flt'):
            r = x[0] < x[1]
        elif op in ('le', 'fle'):
            r = x[0] <= x[1]
        elif op in ('eq', 'feq'):
            r = x[0] == x[1]
        elif op == 'fisnan':
            r = math.isnan(x[0])
        elif op == 'not':
            r = not x[0]
        elif op == 'and':
            r = all(x)
        elif op == 'iff':
            r = bool(x[0]) == bool(x[1])
        elif op == 'uf':
            r = UF_EVAL[t.val](*x)
        else:
            raise NotImplementedError(op)
    memo[t.id] = r
    return r
