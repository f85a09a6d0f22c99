"""Normal form of real-valued terms: multivariate fractions over atoms.

An atom is a symbolic input, exp(x) (positive), a square root, a log, an
application of an opaque function, a floor or an if-then-else.  Every atom
carries the facts the solver is given about it.  The normal form is exact
rational arithmetic; it is an encoding step, the verdict is the solver's.
"""
from fractions import Fraction
import math
from . import terms as tm


class Blowup(Exception):
    pass


MAXMONO = 30000


class Atom:
    __slots__ = ('id', 'kind', 'term', 'pos', 'sq', 'sqn', 'key', 'args',
                 'name', 'dep')

    def __repr__(self):
        return self.name


ATOMS = []
_atom_by_key = {}


def atom(key, kind, term=None, pos=False, **kw):
    a = _atom_by_key.get(key)
    if a is None:
        a = Atom()
        a.id = len(ATOMS)
        a.kind = kind
        a.term = term
        a.pos = pos
        a.sq = kw.get('sq')
        a.sqn = kw.get('sqn')
        a.args = kw.get('args')
        a.key = key
        a.name = '%s_%d' % (kind, a.id)
        ATOMS.append(a)
        _atom_by_key[key] = a
    return a


# ------------------------------------------------------------------ polynomials
def pconst(c):
    return {(): Fraction(c)} if c else {}


def patom(a):
    return {((a.id, 1),): Fraction(1)}


def padd(p, q, k=1):
    if not q:
        return p
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + k * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def pscale(p, k):
    if k == 1:
        return p
    if k == 0:
        return {}
    return {m: c * k for m, c in p.items()}


def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    i = j = 0
    out = []
    while i < len(a) and j < len(b):
        x, y = a[i], b[j]
        if x[0] == y[0]:
            out.append((x[0], x[1] + y[1]))
            i += 1
            j += 1
        elif x[0] < y[0]:
            out.append(x)
            i += 1
        else:
            out.append(y)
            j += 1
    out.extend(a[i:])
    out.extend(b[j:])
    return tuple(out)


def pmul(p, q):
    if len(p) > len(q):
        p, q = q, p
    if not p:
        return {}
    if len(p) * len(q) > 40 * MAXMONO:
        raise Blowup()
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = mmul(m1, m2)
            v = r.get(m, 0) + c1 * c2
            if v:
                r[m] = v
            else:
                del r[m]
    if len(r) > MAXMONO:
        raise Blowup()
    return r


def pkey(p):
    return frozenset(p.items())


def mdiv(a, b):
    """a / b as monomials or None"""
    d = dict(a)
    for v, e in b:
        k = d.get(v, 0) - e
        if k < 0:
            return None
        if k:
            d[v] = k
        else:
            del d[v]
    return tuple(sorted(d.items()))


def _order(m):
    return (sum(e for _, e in m), tuple((-v, e) for v, e in m))


def _lead(p):
    # lex order with smaller atom id larger: compare as sorted tuples padded
    return max(p, key=_lexkey)


def _lexkey(m):
    # dict order on exponent vectors, smallest id most significant
    return tuple((-v, e) for v, e in m)


def pdivexact(p, q):
    """p / q when q divides p exactly, else None (lex order division)."""
    if len(q) == 1:
        (mq, cq), = q.items()
        out = {}
        for m, c in p.items():
            d = mdiv(m, mq)
            if d is None:
                return None
            out[d] = c / cq
        return out
    if not p:
        return {}
    if len(p) < len(q) and len(q) > 1 and len(p) == 1:
        return None
    # true lex order comparator: exponent vector by ascending atom id
    vs = sorted({v for m in q for v, _ in m} | {v for m in p for v, _ in m})
    idx = {v: i for i, v in enumerate(vs)}
    n = len(vs)

    def vec(m):
        e = [0] * n
        for v, k in m:
            e[idx[v]] = k
        return tuple(e)
    qd = {vec(m): c for m, c in q.items()}
    pd = {vec(m): c for m, c in p.items()}
    lq = max(qd)
    cq = qd[lq]
    out = {}
    steps = 0
    import heapq
    while pd:
        steps += 1
        if steps > 4000:
            return None
        lp = max(pd)
        d = tuple(a - b for a, b in zip(lp, lq))
        if min(d) < 0:
            return None
        c = pd[lp] / cq
        out[d] = c
        for m, cc in qd.items():
            k = tuple(a + b for a, b in zip(m, d))
            v = pd.get(k, 0) - c * cc
            if v:
                pd[k] = v
            else:
                pd.pop(k, None)
    return {tuple((vs[i], e) for i, e in enumerate(m) if e): c
            for m, c in out.items()}


# -------------------------------------------------------------------- fractions
class Frac:
    """num / prod(factor ** exp); factors are monic non-constant polynomials."""
    __slots__ = ('num', 'den')

    def __init__(self, num, den=None):
        self.num = num
        self.den = den or {}

    def key(self):
        return (pkey(self.num), frozenset(self.den.items()))

    def is_const(self):
        return not self.den and (not self.num or
                                 (len(self.num) == 1 and () in self.num))

    def const(self):
        return self.num.get((), Fraction(0))


FPOLY = {}      # factor key -> poly


def _regf(p):
    k = pkey(p)
    FPOLY[k] = p
    return k


def fden_poly(den):
    r = pconst(1)
    for k, e in den.items():
        for _ in range(e):
            r = pmul(r, FPOLY[k])
    return r


def fadd(a, b, k=1):
    if not a.num:
        return Frac(pscale(b.num, k), b.den)
    if not b.num:
        return a
    if a.den == b.den:
        return fnorm(Frac(padd(a.num, b.num, k), a.den))
    den = dict(a.den)
    for f, e in b.den.items():
        den[f] = max(den.get(f, 0), e)
    na, nb = a.num, b.num
    for f, e in den.items():
        for _ in range(e - a.den.get(f, 0)):
            na = pmul(na, FPOLY[f])
        for _ in range(e - b.den.get(f, 0)):
            nb = pmul(nb, FPOLY[f])
    return fnorm(Frac(padd(na, nb, k), den))


def fscale(a, k):
    if k == 0:
        return Frac({})
    return Frac(pscale(a.num, k), a.den)


def fmul(a, b):
    if not a.num or not b.num:
        return Frac({})
    if a.is_const():
        return fscale(b, a.const())
    if b.is_const():
        return fscale(a, b.const())
    # cancel across before multiplying
    an, ad, bn, bd = a.num, dict(a.den), b.num, dict(b.den)
    an, bd = _cancel(an, bd)
    bn, ad = _cancel(bn, ad)
    den = dict(ad)
    for f, e in bd.items():
        den[f] = den.get(f, 0) + e
    return reduce(Frac(pmul(an, bn), den))


def _cancel(num, den):
    if not den:
        return num, den
    den = dict(den)
    for f in list(den):
        q = FPOLY[f]
        while den.get(f, 0) > 0:
            if len(q) > 1 and (len(num) > 400 or len(q) > 60):
                break
            r = pdivexact(num, q)
            if r is None:
                break
            num = r
            den[f] -= 1
        if den.get(f) == 0:
            del den[f]
    return num, den


def fnorm(a):
    if not a.num:
        return Frac({})
    num, den = _cancel(a.num, a.den)
    return Frac(num, den)


def finv(a):
    """1/a; a is not identically zero"""
    if not a.num:
        raise ZeroDivisionError
    num = fden_poly(a.den)
    p = a.num
    if len(p) == 1:
        (m, c), = p.items()
        r = Frac(pscale(num, 1 / c), {})
        den = {}
        for v, e in m:
            at = ATOMS[v]
            if at.sq is not None:
                # 1/s^e = s^(n-e%n..)/u : rationalise
                n = at.sqn
                k = -(-e // n)
                r = fmul(r, Frac({((v, n * k - e),): Fraction(1)} if
                                 n * k - e else pconst(1)))
                iu = finv(at.sq)
                for _ in range(k):
                    r = fmul(r, iu)
            else:
                den[_regf({((v, 1),): Fraction(1)})] = e
        return fnorm(Frac(r.num, _dmerge(r.den, den)))
    # pull out monomial content so that factors are comparable
    g = None
    for m in p:
        if g is None:
            g = dict(m)
        else:
            d = dict(m)
            g = {v: min(e, d.get(v, 0)) for v, e in g.items()
                 if d.get(v, 0) > 0}
        if not g:
            break
    if g:
        gm = tuple(sorted(g.items()))
        rest = Frac({mdiv(m, gm): c for m, c in p.items()}, a.den)
        return fmul(finv(rest), finv(Frac({gm: Fraction(1)})))
    lead = p[max(p, key=lambda m: (m,))]
    q = pscale(p, 1 / lead)
    k = _regf(q)
    return fnorm(Frac(pscale(num, 1 / lead), {k: 1}))


def _dmerge(a, b):
    d = dict(a)
    for f, e in b.items():
        d[f] = d.get(f, 0) + e
    return d


def reduce(a):
    """rewrite s**n -> u for root atoms, then cancel"""
    bad = False
    for m in a.num:
        for v, e in m:
            at = ATOMS[v]
            if at.sq is not None and e >= at.sqn:
                bad = True
                break
        if bad:
            break
    if not bad:
        return fnorm(a)
    groups = {}
    for m, c in a.num.items():
        low = []
        hi = []
        for v, e in m:
            at = ATOMS[v]
            if at.sq is not None and e >= at.sqn:
                hi.append((v, e // at.sqn))
                if e % at.sqn:
                    low.append((v, e % at.sqn))
            else:
                low.append((v, e))
        g = groups.setdefault(tuple(hi), {})
        lm = tuple(low)
        w = g.get(lm, 0) + c
        if w:
            g[lm] = w
        else:
            g.pop(lm, None)
    tot = Frac({})
    for hi, p in groups.items():
        r = Frac(p)
        for v, k in hi:
            for _ in range(k):
                r = fmul(r, ATOMS[v].sq)
        tot = fadd(tot, r)
    return fnorm(Frac(tot.num, _dmerge(tot.den, a.den)))


def fpow(a, n):
    if n < 0:
        return fpow(finv(a), -n)
    r = Frac(pconst(1))
    for _ in range(n):
        r = fmul(r, a)
    return r


# ---------------------------------------------------------------- terms -> Frac
_memo = {}


def norm(t):
    r = _memo.get(t.id)
    if r is None:
        # explicit stack: terms can be deep
        stack = [t]
        while stack:
            u = stack[-1]
            if u.id in _memo:
                stack.pop()
                continue
            kids = [a for a in u.args if a.sort in 'RIM' and
                    a.id not in _memo] if u.op not in ('ite',) else []
            if kids:
                stack.extend(kids)
                continue
            _memo[u.id] = _norm1(u)
            stack.pop()
        r = _memo[t.id]
    return r


def _norm1(t):
    op, a = t.op, t.args
    if op == 'const':
        return Frac(pconst(t.val))
    if op == 'var':
        return Frac(patom(atom(('v', t.id), 'var', t)))
    if op == 'add':
        return fadd(norm(a[0]), norm(a[1]))
    if op == 'neg':
        return fscale(norm(a[0]), Fraction(-1))
    if op == 'mul':
        return fmul(norm(a[0]), norm(a[1]))
    if op == 'div':
        return fmul(norm(a[0]), finv(norm(a[1])))
    if op == 'toreal':
        return norm(a[0])
    if op == 'exp':
        return nexp(norm(a[0]))
    if op == 'log':
        return nlog(norm(a[0]))
    if op == 'sqrt':
        return nroot(norm(a[0]), 2)
    if op == 'uf':
        ks = tuple(norm(x).key() for x in a)
        return Frac(patom(atom(('uf', t.val, ks), 'uf', t,
                               args=(t.val, [norm(x) for x in a]))))
    if op == 'ite':
        return Frac(patom(atom(('ite', t.id), 'ite', t)))
    if op in ('floor', 'mod', 'idiv'):
        return Frac(patom(atom((op, t.id), op, t)))
    raise NotImplementedError('normal form of ' + op)


def linform(f):
    """poly num/no den linear -> (const, {atom: coef}) or None"""
    if f.den:
        return None
    c0 = Fraction(0)
    out = {}
    for m, c in f.num.items():
        if not m:
            c0 = c
        elif len(m) == 1 and m[0][1] == 1:
            out[m[0][0]] = c
        else:
            return None
    return c0, out


def eatom(aid, q):
    """exp(atom/q)"""
    base = atom(('E', aid, 1), 'exp', None, True, args=(aid, 1))
    if q == 1:
        return base
    return atom(('E', aid, q), 'exp', None, True, args=(aid, q),
                sq=Frac(patom(base)), sqn=q)


def mono_atom(m):
    """opaque atom standing for a non-linear monomial inside exp"""
    return atom(('mono', m), 'mono', None, False, args=m)


def nexp(f):
    """exp of a fraction"""
    r = Frac(pconst(1))
    if f.den:
        a = atom(('fr', f.key()), 'frac', None, False, args=f)
        parts = [(((a.id, 1),), Fraction(1))]
    else:
        parts = list(f.num.items())
    for m, c in parts:
        if not m:
            a = atom(('Ec', c), 'expc', None, True, args=c)
            r = fmul(r, Frac(patom(a)))
            continue
        if len(m) == 1 and m[0][1] == 1:
            aid = m[0][0]
        else:
            aid = mono_atom(m).id
        at = ATOMS[aid]
        p, q = c.numerator, c.denominator
        if at.kind == 'log':
            b = nroot(at.args, q)
        else:
            b = Frac(patom(eatom(aid, q)))
        r = fmul(r, fpow(b, p))
    return r


def nroot(u, q):
    if q == 1:
        return u
    if u.is_const():
        c = u.const()
        if q == 2:
            n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if n * n == c.numerator and d * d == c.denominator:
                return Frac(pconst(Fraction(n, d)))
    # perfect power of positive atoms
    if len(u.num) == 1:
        (m, c), = u.num.items()
        ok = q == 2 and c > 0
        if ok:
            n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
            ok = n * n == c.numerator and d * d == c.denominator
        if ok:
            dm = []
            for k, e in u.den.items():
                p = FPOLY[k]
                if len(p) == 1:
                    (mm, cc), = p.items()
                    dm += [(v, -ee * e) for v, ee in mm]
                else:
                    ok = False
            allm = list(m) + dm
            if ok and all(e % q == 0 and ATOMS[v].pos for v, e in allm):
                r = Frac(pconst(Fraction(n, d)))
                for v, e in allm:
                    r = fmul(r, fpow(Frac(patom(ATOMS[v])), e // q))
                return r
    sq = _perfect_square(u) if q == 2 else None
    if sq is not None:
        return sq
    a = atom(('root', q, u.key()), 'root', None, True, sq=u, sqn=q)
    a.pos = False       # >= 0; strictly positive only when u is
    return Frac(patom(a))


SQUARE_HINTS = []       # fractions known to be positive on this path


def _perfect_square(u):
    return None


def nlog(u):
    """log of a positive fraction: pull out exp atoms"""
    out = Frac({})
    # monomial content of the numerator in exp atoms
    g = None
    for m in u.num:
        d = {v: e for v, e in m if ATOMS[v].kind in ('exp', 'expc')}
        if g is None:
            g = d
        else:
            g = {v: min(e, d[v]) for v, e in g.items() if v in d}
        if not g:
            break
    num = u.num
    if g:
        gm = tuple(sorted(g.items()))
        num = {mdiv(m, gm): c for m, c in num.items()}
        for v, e in gm:
            out = fadd(out, fscale(_logE(v), Fraction(e)))
    den = {}
    for k, e in u.den.items():
        p = FPOLY[k]
        if len(p) == 1:
            (m, c), = p.items()
            if all(ATOMS[v].kind in ('exp', 'expc') for v, _ in m):
                for v, ee in m:
                    out = fadd(out, fscale(_logE(v), Fraction(-ee * e)))
                continue
        den[k] = e
    rest = Frac(num, den)
    if rest.is_const() and rest.const() == 1:
        return out
    if not rest.den and len(rest.num) == 1:
        (m, c), = rest.num.items()
        if c == 1 and len(m) == 1 and ATOMS[m[0][0]].kind == 'root':
            at = ATOMS[m[0][0]]
            return fadd(out, fscale(nlog(at.sq),
                                    Fraction(m[0][1], at.sqn)))
    a = atom(('log', rest.key()), 'log', None, False, args=rest)
    return fadd(out, Frac(patom(a)))


def _logE(v):
    at = ATOMS[v]
    if at.kind == 'expc':
        return Frac(pconst(at.args))
    aid, q = at.args
    b = ATOMS[aid]
    if b.kind == 'mono':
        f = Frac({b.args: Fraction(1)})
    elif b.kind == 'frac':
        f = b.args
    else:
        f = Frac(patom(b))
    return fscale(f, Fraction(1, q))


# -------------------------------------------------------------------- back
def to_term(f):
    """Frac -> term (used by the linear algebra stubs to keep terms small)"""
    t = poly_term(f.num)
    for k, e in f.den.items():
        d = poly_term(FPOLY[k])
        for _ in range(e):
            t = tm.div(t, d)
    return t


_at_term = {}


def atom_term(a):
    r = _at_term.get(a.id)
    if r is not None:
        return r
    if a.kind in ('var', 'uf', 'ite', 'floor', 'mod', 'idiv'):
        r = tm.to_real(a.term)
    elif a.kind == 'exp':
        aid, q = a.args
        r = tm.exp(tm.mul(tm.const(Fraction(1, q)), atom_term(ATOMS[aid])))
    elif a.kind == 'expc':
        r = tm.exp(tm.const(a.args))
    elif a.kind == 'mono':
        r = poly_term({a.args: Fraction(1)})
    elif a.kind == 'frac':
        r = to_term(a.args)
    elif a.kind == 'log':
        r = tm.log(to_term(a.args))
    elif a.kind == 'root':
        u = to_term(a.sq)
        r = tm.sqrt(u) if a.sqn == 2 else tm.exp(
            tm.mul(tm.const(Fraction(1, a.sqn)), tm.log(u)))
    else:
        raise NotImplementedError(a.kind)
    _at_term[a.id] = r
    return r


def poly_term(p):
    t = tm.ZERO
    for m, c in sorted(p.items()):
        u = tm.const(c)
        for v, e in m:
            u = tm.mul(u, tm.powi(atom_term(ATOMS[v]), e))
        t = tm.add(t, u)
    return t


def simplify(t):
    """An equal term in normal form when that is small, else t."""
    try:
        f = norm(t)
    except Blowup:
        return t
    if len(f.num) > 300:
        return t
    return to_term(f)
