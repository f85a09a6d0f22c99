"""Finite binary64 values under a rounding abstraction (sort 'M').

Every floating point operation of the executed code becomes a fresh real
constant together with facts that hold for IEEE-754 round to nearest even:

  * the result differs from the exact result by at most u|exact| (+ eta where a
    result may be subnormal),
  * rounding is monotone and leaves representable numbers alone, stated for the
    representable numbers at hand (0, 1, -1, the operands, the bounds),
  * results beyond the largest binary64 are infinities: the path forks, and
    infinities and NaNs travel on as python floats with their IEEE meaning.

exp, log and their relatives are characterised by sign, range and by their value
at a few points, as any implementation with an error below one unit in the last
place satisfies.  Products and quotients of two symbolic values get a constant of
their own, defined by a nonlinear equation the solver only looks at when the
linear facts do not decide the question, and by linear consequences of it.

Facts are added to the path condition; the sample assignments of the engine carry
the values the actual binary64 operations give.
"""
import math
from fractions import Fraction
import numpy as np
from . import terms as tm
from . import sym
from . import solve
from .sym import Sym, Unsupported, INF, NAN

U = Fraction(1, 2 ** 53)
ETA = Fraction(1, 2 ** 1075)
TINY = Fraction(1, 2 ** 1074)       # the smallest positive binary64
OVER = Fraction(2) ** 1024 - Fraction(2) ** 970
MAXF = Fraction(2) ** 1024 - Fraction(2) ** 971
FMAX = float(MAXF)
EXPMAX = 709.782712893384

AUX = solve.AUX     # ids of all variables of this module
IV = {}             # term id -> (lo, hi) floats
DEF = {}            # M var id -> (a, b, sign): rounded sum a + sign*b
NEG = {}
_C = [(k, math.exp(k)) for k in (-700.0, -300.0, -50.0, -37.0, -10.0, -1.0,
                                 1.0, 10.0, 50.0, 300.0, 350.0, 700.0)]
_G = [tm.const(Fraction(1, 2 ** k)) for k in (2, 210)]
_L = [(1e-300, math.log(1e-300)), (1e-10, math.log(1e-10)),
      (0.5, math.log(0.5)), (2.0, math.log(2.0)), (16.0, math.log(16.0)),
      (1e10, math.log(1e10)), (1e300, math.log(1e300)),
      (1e-62, math.log(1e-62)), (1e62, math.log(1e62))]


def eng():
    return sym.CUR


def _state():
    e = eng()
    if not hasattr(e, 'mr') or e.mr is None:
        e.mr = {'made': {}, 'anchors': []}
    return e.mr


def frac(x):
    return Fraction(float(x))


def R(x):
    """the real a value stands for, as a term of sort R"""
    if isinstance(x, Sym):
        if x.t.sort == 'M':
            return tm.to_real(x.t)
        if tm.is_const(x.t):
            return tm.const(x.t.val)
        raise Unsupported('mixing exact and rounded symbolic values')
    return tm.const(frac(x))


def num(x):
    """constant -> python float, symbolic stays"""
    if isinstance(x, Sym) and tm.is_const(x.t):
        return float(x.t.val)
    if isinstance(x, Sym):
        if x.t.sort != 'M':
            raise Unsupported('mixing exact and rounded symbolic values')
        return x
    return float(x)


def issym(x):
    return isinstance(x, Sym)


def kid(x):
    return 't%d' % x.t.id if issym(x) else float(x).hex()


def iv(x):
    if issym(x):
        return IV.get(x.t.id, (-FMAX, FMAX))
    return (float(x), float(x))


def pv(env, x):
    if issym(x):
        return env.vals[x.t.id]
    return float(x)


def imp(a, b):
    return tm.bor(tm.bnot(a), b)


def facts(*ts):
    e = eng()
    for t in ts:
        if t is tm.TRUE:
            continue
        e.pc.append(t)
        e.factids.add(t.id)
        e.known[t.id] = True


def soft(*ts):
    eng().soft.extend(ts)


def aux(name, sort, fn):
    """fresh constant (once per path); fn(env) is its value on a sample"""
    st = _state()
    t = tm.mk('var', val=name, sort=sort)
    if t.id in st['made']:
        return t, False
    st['made'][t.id] = True
    AUX.add(t.id)
    eng().auxfns.append((t, fn))
    for env in eng().pool:
        try:
            env.vals[t.id] = fn(env)
        except (ArithmeticError, ValueError, KeyError, TypeError):
            env.vals[t.id] = NAN
    return t, True


def var(e, name, lo, hi):
    t = e.newvar(name, 'M', ('M', lo, hi))
    AUX.add(t.id)
    IV[t.id] = (float(lo), float(hi))
    r = tm.to_real(t)
    facts(tm.le(tm.const(frac(lo)), r), tm.le(r, tm.const(frac(hi))))
    if lo <= 0 <= hi:
        apart(r, TINY)
    return Sym(t)


def apart(r, gap):
    """r is zero or at least gap away from it"""
    gap = tm.const(gap)
    facts(tm.bor(tm.eq(r, tm.ZERO), tm.le(gap, r), tm.le(r, tm.neg(gap))))


def anchor(x):
    """x is a representable number the results may be compared with"""
    _state()['anchors'].append(x)


# ------------------------------------------------------------------- intervals
def _dn(x):
    return float(np.nextafter(x, -INF)) if not math.isinf(x) else x


def _up(x):
    return float(np.nextafter(x, INF)) if not math.isinf(x) else x


def _clip(lo, hi):
    if lo != lo:
        lo = -INF
    if hi != hi:
        hi = INF
    return max(_dn(lo), -INF), min(_up(hi), INF)


def setiv(t, lo, hi):
    IV[t.id] = (max(lo, -FMAX), min(hi, FMAX))
    r = tm.to_real(t)
    lo, hi = IV[t.id]
    facts(tm.le(tm.const(frac(lo)), r), tm.le(r, tm.const(frac(hi))))


# -------------------------------------------------------------------- rounding
def overflow(et, lo, hi):
    """fork when the exact result may exceed the binary64 range"""
    e = eng()
    if hi > FMAX and e.decide(tm.le(tm.const(OVER), et)):
        return INF
    if lo < -FMAX and e.decide(tm.le(et, tm.const(-OVER))):
        return -INF
    return None


def rounded(name, et, fn, ops, lo, hi, sub=False, anchors=True):
    """binary64 rounding of the exact (finite, in range) result et"""
    t, new = aux(name, 'M', fn)
    if not new:
        return Sym(t)
    r = tm.to_real(t)
    zero = tm.ZERO
    pos = tm.le(zero, et)
    neg = tm.le(et, zero)
    up, dn = tm.const(1 + U), tm.const(1 - U)
    eta = tm.const(ETA) if sub else zero
    facts(imp(pos, tm.band(tm.le(tm.sub(tm.mul(dn, et), eta), r),
                           tm.le(r, tm.add(tm.mul(up, et), eta)))),
          imp(neg, tm.band(tm.le(tm.sub(tm.mul(up, et), eta), r),
                           tm.le(r, tm.add(tm.mul(dn, et), eta)))))
    done = set()
    for c in [zero, tm.ONE, tm.const(-1)] + [R(x) for x in ops] + \
            [R(x) for x in _state()['anchors']]:
        if c.id in done:
            continue
        done.add(c.id)
        facts(imp(tm.le(et, c), tm.le(r, c)), imp(tm.le(c, et), tm.le(c, r)))
    setiv(t, lo, hi)
    return Sym(t)


def neg(a):
    a = num(a)
    if not issym(a):
        return -a
    if a.t.id in NEG:
        return Sym(NEG[a.t.id])
    t, new = aux('m:neg:%d' % a.t.id, 'M', lambda env: -pv(env, a))
    if new:
        facts(tm.eq(tm.to_real(t), tm.neg(R(a))))
        lo, hi = iv(a)
        IV[t.id] = (-hi, -lo)
        NEG[t.id] = a.t
    return Sym(t)


def add(a, b, sign=1):
    a, b = num(a), num(b)
    if not issym(b) and (math.isinf(b) or math.isnan(b)):
        return sign * b
    if not issym(a) and (math.isinf(a) or math.isnan(a)):
        return a
    if not issym(b) and b == 0:
        return a
    if not issym(a) and a == 0:
        return b if sign > 0 else neg(b)
    if not issym(a) and not issym(b):
        return a + sign * b
    if sign < 0 and issym(a) and issym(b) and a.t is b.t:
        return 0.0
    ka, kb = kid(a), kid(b)
    if sign > 0 and ka > kb:
        a, b, ka, kb = b, a, kb, ka
    et = tm.add(R(a), R(b)) if sign > 0 else tm.sub(R(a), R(b))
    (al, ah), (bl, bh) = iv(a), iv(b)
    if sign < 0:
        bl, bh = -bh, -bl
    lo, hi = _clip(al + bl, ah + bh)
    o = overflow(et, lo, hi)
    if o is not None:
        return o
    z = rounded('m:add%d:%s:%s' % (sign, ka, kb), et,
                lambda env: pv(env, a) + sign * pv(env, b),
                [a, b] if sign > 0 else [a], lo, hi)
    if sign < 0:
        facts(imp(tm.le(R(a), R(b)), tm.le(R(z), tm.ZERO)))
    if issym(a) != issym(b):
        # distinct numbers are a unit in the last place apart
        c = abs(b if issym(a) else a)
        apart(R(z), frac(c) - frac(_dn(c)))
    DEF[z.t.id] = (a, b, sign)
    return z


def sub(a, b):
    return add(a, b, -1)


def _sgn(x):
    """sign of a value, forking"""
    if not issym(x):
        return (x > 0) - (x < 0)
    e = eng()
    if e.decide(tm.lt(tm.ZERO, R(x))):
        return 1
    if e.decide(tm.lt(R(x), tm.ZERO)):
        return -1
    return 0


def mul(a, b):
    a, b = num(a), num(b)
    for x, y in ((a, b), (b, a)):
        if not issym(x):
            if math.isnan(x):
                return NAN
            if math.isinf(x):
                s = _sgn(y)
                return NAN if s == 0 else s * x
            if x == 0:
                return 0.0
            if x == 1:
                return y
            if x == -1:
                return neg(y)
    if not issym(a) and not issym(b):
        return a * b
    ka, kb = kid(a), kid(b)
    if ka > kb:
        a, b, ka, kb = b, a, kb, ka
    (al, ah), (bl, bh) = iv(a), iv(b)
    c = []
    for x in (al, ah):
        for y in (bl, bh):
            c.append(x * y)
    lo, hi = _clip(min(c), max(c))
    ra, rb = R(a), R(b)
    if issym(a) and issym(b):
        if a.t is b.t:
            lo = 0.0
        nm = 'm:prod:%s:%s' % (ka, kb)
        et, new = aux(nm, 'R', lambda env: Fraction(pv(env, a)) *
                      Fraction(pv(env, b)))
        if new:
            soft(tm.eq(et, tm.mul(ra, rb)))
            Z, O = tm.ZERO, tm.ONE
            for x, y in ((ra, rb), (rb, ra)):
                xp, xn = tm.le(Z, x), tm.le(x, Z)
                yp, yn = tm.le(Z, y), tm.le(y, Z)
                y1 = tm.le(y, O)
                facts(imp(tm.band(xp, yp), tm.le(Z, et)),
                      imp(tm.band(xn, yn), tm.le(Z, et)),
                      imp(tm.band(xp, yn), tm.le(et, Z)),
                      imp(tm.band(xp, yp, y1), tm.le(et, x)),
                      imp(tm.band(xn, yp, y1), tm.le(x, et)),
                      imp(tm.band(xp, tm.le(O, y)), tm.le(x, et)),
                      imp(tm.band(xn, tm.le(O, y)), tm.le(et, x)))
                for c in _G:
                    facts(imp(tm.band(xp, tm.le(c, y)),
                              tm.le(tm.mul(c, x), et)))
                if ra is rb:
                    break
            if ra is rb:
                facts(tm.le(Z, et))
            if math.isfinite(lo):
                facts(tm.le(tm.const(frac(lo)), et))
            if math.isfinite(hi):
                facts(tm.le(et, tm.const(frac(hi))))
    else:
        et = tm.mul(ra, rb)
    o = overflow(et, lo, hi)
    if o is not None:
        return o
    z = rounded('m:mul:%s:%s' % (ka, kb), et,
                lambda env: pv(env, a) * pv(env, b), [a, b], lo, hi,
                sub=True)
    for c in (a, b):
        if not issym(c) and math.frexp(c)[0] in (0.5, -0.5):
            exact2(et, R(z))
    return z


def exact2(et, r):
    """a power of two times a number is exact above the subnormal range"""
    n = tm.const(frac(2.0 ** -1022))
    facts(tm.bor(tm.eq(r, et), tm.band(tm.lt(tm.neg(n), et), tm.lt(et, n))),
          imp(tm.eq(et, tm.ZERO), tm.eq(r, tm.ZERO)))


def quot(a, b):
    """exact quotient a / b of b != 0"""
    t, new = aux('m:quot:%s:%s' % (kid(a), kid(b)), 'R',
                 lambda env: Fraction(pv(env, a)) / Fraction(pv(env, b)))
    if new:
        ra, rb = R(a), R(b)
        Z, O = tm.ZERO, tm.ONE
        soft(tm.eq(tm.mul(t, rb), ra))
        bp, bn = tm.lt(Z, rb), tm.lt(rb, Z)
        ap, an = tm.le(Z, ra), tm.le(ra, Z)
        facts(imp(tm.band(bp, ap), tm.le(Z, t)),
              imp(tm.band(bp, an), tm.le(t, Z)),
              imp(tm.band(bn, ap), tm.le(t, Z)),
              imp(tm.band(bn, an), tm.le(Z, t)),
              imp(tm.band(bp, tm.le(ra, rb)), tm.le(t, O)),
              imp(tm.band(bp, tm.le(rb, ra)), tm.le(O, t)),
              imp(tm.band(bp, tm.le(tm.neg(rb), ra)), tm.le(tm.const(-1), t)),
              imp(tm.band(tm.le(O, rb), ap), tm.le(t, ra)),
              imp(tm.band(tm.le(O, rb), an), tm.le(ra, t)),
              imp(tm.band(bp, tm.le(rb, O), ap), tm.le(ra, t)))
    return t


def scaled(x, b, depth=0):
    """x / b as a term, with what is known about x divided by b"""
    if issym(x) and issym(b) and x.t is b.t:
        q = tm.ONE
    else:
        q = quot(x, b)
    st = _state()
    key = ('scaled', kid(x), kid(b))
    if key in st['made'] or not issym(x):
        return q
    st['made'][key] = True
    d = DEF.get(x.t.id)
    if d is not None and depth < 24:
        p, r, s = d
        p, r = scaled(p, b, depth + 1), scaled(r, b, depth + 1)
        se = tm.add(p, r) if s > 0 else tm.sub(p, r)
        up, dn = tm.const(1 + U), tm.const(1 - U)
        pos, ng = tm.le(tm.ZERO, se), tm.le(se, tm.ZERO)
        bz = tm.bnot(tm.eq(R(b), tm.ZERO))
        facts(imp(tm.band(bz, pos), tm.band(tm.le(tm.mul(dn, se), q),
                                            tm.le(q, tm.mul(up, se)))),
              imp(tm.band(bz, ng), tm.band(tm.le(tm.mul(up, se), q),
                                           tm.le(q, tm.mul(dn, se)))))
    return q


def div(a, b):
    a, b = num(a), num(b)
    if not issym(b):
        if math.isnan(b):
            return NAN
        if math.isinf(b):
            return 0.0
        if b == 0:
            s = _sgn(a)
            return NAN if s == 0 else s * INF
        if not issym(a):
            return a / b
        if b == 1:
            return a
        if b == -1:
            return neg(a)
    elif not issym(a) and (math.isnan(a) or math.isinf(a)):
        if math.isnan(a):
            return NAN
        s = _sgn(b)
        return a if s >= 0 else -a
    e = eng()
    if issym(b) and e.decide(tm.eq(R(b), tm.ZERO)):
        s = _sgn(a)
        return NAN if s == 0 else s * INF
    if not issym(a) and a == 0:
        return 0.0
    if issym(a) and issym(b) and a.t is b.t:
        return 1.0
    (al, ah), (bl, bh) = iv(a), iv(b)
    if bl > 0 or bh < 0:
        c = []
        for x in (al, ah):
            for y in (bl, bh):
                c.append(x / y)
        lo, hi = _clip(min(c), max(c))
    else:
        lo, hi = -INF, INF
    if issym(b):
        et = quot(a, b)
        scaled(b, b)
    else:
        et = tm.mul(tm.const(1 / frac(b)), R(a))
    o = overflow(et, lo, hi)
    if o is not None:
        return o
    z = rounded('m:div:%s:%s' % (kid(a), kid(b)), et,
                lambda env: pv(env, a) / pv(env, b), [a], lo, hi, sub=True)
    if not issym(b) and math.frexp(b)[0] in (0.5, -0.5):
        exact2(et, R(z))
    return z


def absolute(a):
    a = num(a)
    if not issym(a):
        return abs(a)
    if eng().decide(tm.le(tm.ZERO, R(a))):
        return a
    return neg(a)


# ------------------------------------------------------------------- functions
def _pts(r, z, pts):
    """z is the value at r of an increasing function known at some points"""
    for k, v in pts:
        k, d = tm.const(frac(k)), abs(frac(v)) / 10 ** 12
        facts(imp(tm.le(r, k), tm.le(z, tm.const(frac(v) + d))),
              imp(tm.le(k, r), tm.le(tm.const(frac(v) - d), z)))


def _f1(name, a, f, lo, hi):
    t, new = aux('m:%s:%d' % (name, a.t.id), 'M', lambda env: f(pv(env, a)))
    if new:
        setiv(t, lo, hi)
    return t, tm.to_real(t), new


def exp(a):
    a = num(a)
    if not issym(a):
        return float(np.exp(a))
    lo, hi = iv(a)
    if hi > EXPMAX and eng().decide(tm.lt(tm.const(frac(EXPMAX)), R(a))):
        return INF
    l2 = max(0.0, math.exp(max(lo, -745.0)) * (1 - 1e-12) if lo > -745 else 0.0)
    h2 = math.exp(hi) * (1 + 1e-12) if hi < 709.0 else FMAX
    t, z, new = _f1('exp', a, lambda x: float(np.exp(x)), l2, h2)
    if new:
        r = R(a)
        Z, O = tm.ZERO, tm.ONE
        facts(tm.le(Z, z), imp(tm.le(r, Z), tm.le(z, O)),
              imp(tm.le(Z, r), tm.le(O, z)),
              imp(tm.eq(r, Z), tm.eq(z, O)),
              tm.le(tm.mul(tm.const(1 - 4 * U), tm.add(O, r)), z),
              imp(tm.le(r, tm.const(-746)), tm.eq(z, Z)))
        _pts(r, z, _C)
    return Sym(t)


def log(a):
    a = num(a)
    if not issym(a):
        return sym.log(a)
    e = eng()
    if not e.decide(tm.lt(tm.ZERO, R(a))):
        return -INF if e.decide(tm.eq(R(a), tm.ZERO)) else NAN
    lo, hi = iv(a)
    l2 = max(-744.5, math.log(lo) - 1e-9 if lo > 0 else -744.5)
    t, z, new = _f1('log', a, lambda x: float(np.log(x)), l2,
                    min(709.8, math.log(hi) + 1e-9) if 0 < hi < INF else 709.8)
    if new:
        r = R(a)
        facts(imp(tm.le(tm.ONE, r), tm.le(tm.ZERO, z)),
              imp(tm.le(r, tm.ONE), tm.le(z, tm.ZERO)),
              tm.le(z, tm.mul(tm.const(1 + 4 * U), r)),
              imp(tm.le(tm.ONE, r), tm.le(z, tm.sub(r, tm.ONE))))
        _pts(r, z, _L)
    return Sym(t)


def log1p(a):
    a = num(a)
    if not issym(a):
        return float(np.log1p(a))
    e = eng()
    if not e.decide(tm.lt(tm.const(-1), R(a))):
        return -INF if e.decide(tm.eq(R(a), tm.const(-1))) else NAN
    t, z, new = _f1('log1p', a, lambda x: float(np.log1p(x)), -37.0, 709.8)
    if new:
        r = R(a)
        Z = tm.ZERO
        facts(imp(tm.le(Z, r), tm.le(Z, z)), imp(tm.le(r, Z), tm.le(z, Z)),
              imp(tm.le(Z, r), tm.le(z, r)), imp(tm.le(r, Z), tm.le(z, r)))
        _pts(r, z, [(k, math.log1p(k)) for k in
                    (-0.5, 1.0, 10.0, 1e10, 1e300)])
    return Sym(t)


def expm1(a):
    a = num(a)
    if not issym(a):
        return float(np.expm1(a))
    if iv(a)[1] > EXPMAX and eng().decide(tm.lt(tm.const(frac(EXPMAX)), R(a))):
        return INF
    t, z, new = _f1('expm1', a, lambda x: float(np.expm1(x)), -1.0, FMAX)
    if new:
        r = R(a)
        Z = tm.ZERO
        facts(imp(tm.le(Z, r), tm.le(r, z)), imp(tm.le(r, Z), tm.le(z, Z)))
        _pts(r, z, [(k, math.expm1(k)) for k in
                    (-10.0, -1.0, 1.0, 10.0, 300.0, 700.0)])
    return Sym(t)


def _sigm(name, f, mid, lo, hi):
    def g(a):
        a = num(a)
        if not issym(a):
            return float(f(a))
        t, z, new = _f1(name, a, lambda x: float(f(x)), lo, hi)
        if new:
            r = R(a)
            m = tm.const(frac(mid))
            facts(imp(tm.le(tm.ZERO, r), tm.le(m, z)),
                  imp(tm.le(r, tm.ZERO), tm.le(z, m)))
            _pts(r, z, [(k, float(f(k))) for k in (-30.0, -3.0, 3.0)])
        return Sym(t)
    return g


tanh = _sigm('tanh', np.tanh, 0.0, -1.0, 1.0)


def expit(a):
    from scipy import special
    return _sigm('expit', getattr(special, '_ufuncs').expit, 0.5, 0.0, 1.0)(a)


def sqrt(a):
    a = num(a)
    if not issym(a):
        return math.sqrt(a) if a >= 0 else NAN
    if eng().decide(tm.lt(R(a), tm.ZERO)):
        return NAN
    lo, hi = iv(a)
    r = R(a)
    et, new = aux('m:root:%d' % a.t.id, 'R',
                  lambda env: Fraction(math.sqrt(pv(env, a))))
    if new:
        soft(tm.eq(tm.mul(et, et), r))
        Z, O = tm.ZERO, tm.ONE
        facts(tm.le(Z, et), imp(tm.le(r, O), tm.band(tm.le(r, et),
                                                     tm.le(et, O))),
              imp(tm.le(O, r), tm.band(tm.le(et, r), tm.le(O, et))))
    return rounded('m:sqrt:%d' % a.t.id, et,
                   lambda env: math.sqrt(pv(env, a)), [a],
                   *_clip(0.0, math.sqrt(hi)))


def larger(a, b, sign=1):
    """max (sign 1) or min (sign -1) of two finite values, without forking"""
    a, b = num(a), num(b)
    if not issym(a) and not issym(b):
        return max(a, b) if sign > 0 else min(a, b)
    if kid(a) > kid(b):
        a, b = b, a
    f = max if sign > 0 else min
    t, new = aux('m:max%d:%s:%s' % (sign, kid(a), kid(b)), 'M',
                 lambda env: f(pv(env, a), pv(env, b)))
    if new:
        r, x, y = tm.to_real(t), R(a), R(b)
        le = tm.le if sign > 0 else (lambda p, q: tm.le(q, p))
        facts(le(x, r), le(y, r),
              tm.bor(tm.band(tm.eq(r, x), le(y, x)),
                     tm.band(tm.eq(r, y), le(x, y))))
        (al, ah), (bl, bh) = iv(a), iv(b)
        IV[t.id] = (f(al, bl), f(ah, bh))
    return Sym(t)


def extremum(a, b, sign):
    """np.maximum / np.minimum of possibly infinite values"""
    a, b = num(a), num(b)
    for x, y in ((a, b), (b, a)):
        if not issym(x):
            if math.isnan(x):
                return NAN
            if math.isinf(x):
                return x if (x > 0) == (sign > 0) else y
    return larger(a, b, sign)


def logaddexp(a, b):
    a, b = num(a), num(b)
    for x, y in ((a, b), (b, a)):
        if not issym(x):
            if math.isnan(x):
                return NAN
            if math.isinf(x):
                return y if x < 0 else x
    if not issym(a) and not issym(b):
        return float(np_logaddexp(a, b))
    m = larger(a, b)
    ct, new = aux('m:lae:%s:%s' % tuple(sorted((kid(a), kid(b)))), 'M',
                  lambda env: math.log1p(math.exp(
                      -abs(pv(env, a) - pv(env, b)))))
    if new:
        setiv(ct, 0.0, 0.694)
    return add(m, Sym(ct))


np_logaddexp = np.logaddexp


# ------------------------------------------------------------ exact evaluation
class NoValue(Exception):
    pass


def feval(t, env, memo):
    """exact rational value of an arithmetic term on a sample"""
    r = memo.get(t.id)
    if r is not None:
        return r
    op, a = t.op, t.args
    if op == 'const':
        r = t.val
    elif op == 'var':
        v = env.vals[t.id]
        if isinstance(v, float) and not math.isfinite(v):
            raise NoValue()
        r = Fraction(v)
    elif op == 'toreal':
        r = feval(a[0], env, memo)
    elif op == 'add':
        r = feval(a[0], env, memo) + feval(a[1], env, memo)
    elif op == 'neg':
        r = -feval(a[0], env, memo)
    elif op == 'mul':
        r = feval(a[0], env, memo) * feval(a[1], env, memo)
    elif op == 'div':
        d = feval(a[1], env, memo)
        if d == 0:
            raise NoValue()
        r = feval(a[0], env, memo) / d
    else:
        raise NoValue()
    memo[t.id] = r
    return r


def truth(env, t):
    memo = env.__dict__.setdefault('fmemo', {})
    try:
        a, b = feval(t.args[0], env, memo), feval(t.args[1], env, memo)
    except NoValue:
        return None
    return {'lt': a < b, 'le': a <= b, 'eq': a == b}[t.op]


POINTS = [0.0, 1.0, -1.0, 0.5, 30.0, -30.0, 36.7, -36.7, 37.5, 45.0, -45.0,
          200.0, -200.0, 709.0, -709.0, 710.0, -710.0, -745.0, 746.0, -800.0,
          1000.0, -1000.0, 1e10, -1e10, 1e17, 1e154, -1e154, 1e300, -1e300,
          1e308, -1e308, FMAX, -FMAX]


CENTRES = [0.0, 5.0, 20.0, 36.7, 40.0, 100.0, 290.0, 500.0, 700.0, 1000.0,
           1e6, 1e16, 1e300]


def draw(r, lo, hi, shared, name=''):
    k = shared.random()
    if k > 0.85:
        # all entries of one small or large magnitude, inside their bounds
        v = 10.0 ** shared.choice([-190, -140, -58, -30, 30, 58, 140, 190]) * r.uniform(0.5, 2.0)
        v = -v if name.startswith('lb') else 4 * v if name.startswith('ub') else v
        if lo <= v <= hi:
            return v
    if k < 0.35:
        # all entries close to one magnitude
        c = shared.choice(CENTRES) * shared.choice([1, 1, -1])
        w = shared.choice([0.3, 3.0, 3.0])
        for _ in range(5):
            v = c + r.uniform(-w, w)
            if r.random() < 0.15:
                v = -v
            if lo <= v <= hi:
                return v
    for _ in range(20):
        k = r.random()
        if k < 0.45:
            v = r.uniform(max(lo, -6.0), min(hi, 6.0)) if lo < 6 and hi > -6 \
                else r.uniform(lo, hi)
        elif k < 0.6:
            v = r.choice([lo, hi] + POINTS)
        elif k < 0.8 and lo < 800 and hi > -800:
            v = r.uniform(max(lo, -800.0), min(hi, 800.0))
        else:
            v = r.choice([-1, 1]) * 10.0 ** r.uniform(-20, 308)
            v = min(max(v, -FMAX), FMAX)
        if lo <= v <= hi:
            return v
    return min(max(0.0, lo), hi)
