"""Terms -> z3, queries, models."""
from fractions import Fraction
import math
import time
import sys
if '/opt/veriftools/pyvenv/lib/python3.12/site-packages' not in sys.path:
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3
from . import terms as tm
from . import nf

STATS = {'queries': 0, 'sat': 0, 'unsat': 0, 'unknown': 0, 'time': 0.0,
         'cvc5': 0, 'max_time': 0.0, 'smt_nontrivial': 0}
UF_FACTS = {}       # name -> function(list of z3 args, z3 result) -> [z3 bool]

F64 = z3.Float64()
RNE = z3.RNE()


def q(c):
    return z3.Q(c.numerator, c.denominator)


AUX = set()         # variables of mround.py
_zc = {}


class Ctx:
    """One query: translates literals, collects the facts of their atoms."""

    def __init__(self, link=False):
        self.formulas = []
        self.vars = {}          # atom id -> z3 var
        self.todo = []
        self.bvars = {}
        self.fvars = {}
        self.fmemo = {}
        self.rmemo = {}
        self.dens = set()
        self.link = link
        self.linlits = []
        self.nonlinear = False
        self.has_int = False
        self.has_fp = False

    # ---- atoms
    def av(self, aid):
        v = self.vars.get(aid)
        if v is None:
            a = nf.ATOMS[aid]
            isint = a.kind in ('floor', 'mod', 'idiv') or \
                (a.kind == 'var' and a.term.sort == 'I')
            if isint:
                v = z3.Int('a%d' % aid)
                self.has_int = True
            else:
                v = z3.Real('a%d' % aid)
            self.vars[aid] = v
            self.todo.append(aid)
        return v

    def rv(self, aid):
        v = self.av(aid)
        return z3.ToReal(v) if v.is_int() else v

    def mono(self, m):
        r = []
        deg = 0
        for v, e in m:
            x = self.rv(v)
            r.extend([x] * e)
            deg += e
        if deg > 1:
            self.nonlinear = True
        return r

    def poly(self, p):
        if not p:
            return z3.RealVal(0)
        out = []
        for m, c in p.items():
            fs = self.mono(m)
            if not fs:
                out.append(q(c))
            elif c == 1:
                out.append(z3.Product(*fs) if len(fs) > 1 else fs[0])
            else:
                out.append(z3.Product(q(c), *fs))
        return z3.Sum(*out) if len(out) > 1 else out[0]

    def intpoly(self, p):
        """all atoms Int and integer coefficients (after scaling)"""
        l = 1
        for c in p.values():
            l = l * c.denominator // math.gcd(l, c.denominator)
        out = []
        for m, c in p.items():
            t = z3.IntVal(int(c * l))
            for v, e in m:
                x = self.av(v)
                if not x.is_int():
                    return None
                if e > 1 or len(m) > 1:
                    self.nonlinear = True
                for _ in range(e):
                    t = t * x
            out.append(t)
        return z3.Sum(*out) if out else z3.IntVal(0)

    def use_den(self, den):
        for k in den:
            if k not in self.dens:
                self.dens.add(k)
                p = nf.FPOLY[k]
                if not trivially_positive(p):
                    self.formulas.append(self.poly(p) != 0)
                else:
                    for m in p:
                        for v, _ in m:
                            self.av(v)

    def facts(self, aid):
        a = nf.ATOMS[aid]
        F = self.formulas
        v = self.vars[aid]
        if a.kind == 'exp':
            F.append(v > 0)
            base, qq = a.args
            if qq > 1:
                b = self.av(nf.eatom(base, 1).id)
                F.append(z3.Product(*([v] * qq)) == b)
                self.nonlinear = True
        elif a.kind == 'expc':
            c = math.exp(float(a.args))
            F.append(v > q(Fraction(c) * (1 - Fraction(1, 10**12))))
            F.append(v < q(Fraction(c) * (1 + Fraction(1, 10**12))))
        elif a.kind == 'root':
            F.append(v >= 0)
            self.use_den(a.sq.den)
            self.nonlinear = True
            F.append(z3.Product(*([v] * a.sqn)) *
                     self.poly(nf.fden_poly(a.sq.den)) == self.poly(a.sq.num))
        elif a.kind == 'ite':
            c, x, y = a.term.args
            cz = self.boolean(c)
            for cond, val in ((cz, x), (z3.Not(cz), y)):
                f = nf.fadd(nf.Frac(nf.patom(a)), nf.norm(val), -1)
                # denominators of the branch are only meaningful on it
                F.append(z3.Implies(cond, self.poly(f.num) == 0))
        elif a.kind == 'floor':
            f = nf.norm(a.term.args[0])
            self.use_den(f.den)
            d = nf.fadd(f, nf.Frac(nf.patom(a)), -1)      # 0 <= x - v < 1
            F.append(self.sign(d, 'ge'))
            F.append(self.sign(nf.fadd(d, nf.Frac(nf.pconst(1)), -1), 'lt'))
        elif a.kind in ('mod', 'idiv'):
            x = self.intpoly(nf.norm(a.term.args[0]).num)
            y = self.intpoly(nf.norm(a.term.args[1]).num)
            # python semantics: floor division
            qv = z3.Int('q%d' % a.term.args[0].id + '_%d' % a.term.args[1].id)
            rv = z3.Int('r%d' % a.term.args[0].id + '_%d' % a.term.args[1].id)
            F.append(x == qv * y + rv)
            F.append(z3.If(y > 0, z3.And(rv >= 0, rv < y),
                           z3.And(rv <= 0, rv > y)))
            F.append(v == (rv if a.kind == 'mod' else qv))
            if a.term.args[1].op != 'const':
                self.nonlinear = True
        elif a.kind == 'uf':
            name, fr = a.args
            for f in fr:
                self.use_den(f.den)
            if name in UF_FACTS:
                av = [self.fracvar(f) for f in fr]
                F.extend(UF_FACTS[name](av, v))
            for other, ov in list(self.vars.items()):
                b = nf.ATOMS[other]
                if other != aid and b.kind == 'uf' and b.args[0] == name \
                        and len(b.args[1]) == len(fr):
                    conds = []
                    for f, g in zip(fr, b.args[1]):
                        d = nf.fadd(f, g, -1)
                        conds.append(self.poly(d.num) == 0)
                    F.append(z3.Implies(z3.And(*conds), v == ov))
        elif a.kind == 'log' and self.link:
            u = a.args
            self.use_den(u.den)
            one = nf.Frac(nf.pconst(1))
            um1 = nf.fadd(u, one, -1)
            F.append((v < 0) == self.sign(um1, 'lt'))
            F.append((v > 0) == self.sign(um1, 'gt'))
            for other, ov in list(self.vars.items()):
                b = nf.ATOMS[other]
                if other != aid and b.kind == 'log':
                    d = nf.fadd(u, b.args, -1)
                    F.append((v < ov) == self.sign(d, 'lt'))
                    F.append((v == ov) == self.sign(d, 'eq'))
        if a.kind == 'exp' and self.link and a.args[1] == 1:
            x = self.rv(a.args[0])
            F.append((v < 1) == (x < 0))
            F.append((v > 1) == (x > 0))
            F.append(v >= x + 1)
            for other, ov in list(self.vars.items()):
                b = nf.ATOMS[other]
                if other != aid and b.kind == 'exp' and b.args[1] == 1:
                    y = self.rv(b.args[0])
                    F.append((v < ov) == (x < y))
                    F.append((v == ov) == (x == y))

    def fracvar(self, f):
        if not f.den:
            return self.poly(f.num)
        w = z3.FreshReal('fr')
        self.formulas.append(w * self.poly(nf.fden_poly(f.den)) ==
                             self.poly(f.num))
        self.nonlinear = True
        return w

    def finish(self):
        while self.todo:
            self.facts(self.todo.pop())
            if not self.todo:
                self.exponentiate_linear()

    def exponentiate_linear(self):
        # linear literals over atoms whose exponentials also occur
        for t in list(self.linlits):
            op, c0, m, lit = t
            if all(('E', v, 1) in nf._atom_by_key and
                   nf._atom_by_key[('E', v, 1)].id in self.vars for v in m):
                self.linlits.remove(t)
                g = self.expo(c0, m)
                if g is not None:
                    self.formulas.append(lit == self.sign(g, op))

    # ---- raw (un-normalised) arithmetic: the solver does the algebra
    def raw(self, t):
        r = self.rmemo.get(t.id)
        if r is not None:
            return r
        op, a = t.op, t.args
        if op == 'const':
            r = q(t.val)
        elif op == 'add':
            r = self.raw(a[0]) + self.raw(a[1])
        elif op == 'neg':
            r = -self.raw(a[0])
        elif op == 'mul':
            r = self.raw(a[0]) * self.raw(a[1])
            self.nonlinear = True
        elif op == 'div':
            d = self.raw(a[1])
            self.use_den(nf.norm(t).den)
            self.formulas.append(d != 0)
            r = self.raw(a[0]) / d
            self.nonlinear = True
        elif op == 'toreal':
            r = self.raw(a[0])
        else:
            f = nf.norm(t)
            r = self.poly(f.num)
            if f.den:
                self.use_den(f.den)
                self.nonlinear = True
                r = r / self.poly(nf.fden_poly(f.den))
        if r.is_int():
            r = z3.ToReal(r)
        self.rmemo[t.id] = r
        return r

    def rawbool(self, t):
        if t.op == 'not':
            return z3.Not(self.rawbool(t.args[0]))
        if t.op == 'and':
            return z3.And(*[self.rawbool(x) for x in t.args])
        if t.op in ('lt', 'le', 'eq'):
            f = litfrac(t)
            lf = nf.linform(f)
            if lf is not None and any(nf.ATOMS[v].kind == 'log'
                                      for v in lf[1]):
                return self.boolean(t)
            x, y = self.raw(t.args[0]), self.raw(t.args[1])
            return {'lt': x < y, 'le': x <= y, 'eq': x == y}[t.op]
        return self.boolean(t)

    # ---- literals
    def expo(self, c0, m):
        """exp(k*(c0 + sum m)) - 1 for the positive k clearing denominators"""
        l = 1
        for c in m.values():
            l = l * c.denominator // math.gcd(l, c.denominator)
        if l > 12 or sum(abs(c * l) for c in m.values()) > 24:
            return None
        r = nf.Frac(nf.pconst(1))
        if c0:
            r = nf.nexp(nf.Frac(nf.pconst(c0 * l)))
        for v, c in m.items():
            at = nf.ATOMS[v]
            b = at.args if at.kind == 'log' else \
                nf.Frac(nf.patom(nf.eatom(v, 1)))
            r = nf.fmul(r, nf.fpow(b, int(c * l)))
        return nf.fadd(r, nf.Frac(nf.pconst(1)), -1)

    def sign(self, f, op):
        """z3 formula for  f op 0"""
        self.use_den(f.den)
        if f.is_const():
            c = f.const()
            return z3.BoolVal({'lt': c < 0, 'le': c <= 0, 'eq': c == 0,
                               'gt': c > 0, 'ge': c >= 0}[op])
        if op == 'eq':
            ip = self._allint(f.num)
            if ip is not None:
                return ip == 0
            return self.poly(f.num) == 0
        num = f.num
        facs = []
        for k, e in f.den.items():
            if e % 2 and not trivially_positive(nf.FPOLY[k]):
                facs.append(nf.FPOLY[k])
        if not facs:
            ip = self._allint(num)
            x = ip if ip is not None else self.poly(num)
        else:
            x = self.poly(num)
            for p in facs:
                x = x * self.poly(p)
            self.nonlinear = True
        return {'lt': x < 0, 'le': x <= 0, 'gt': x > 0, 'ge': x >= 0}[op]

    def _allint(self, p):
        for m in p:
            for v, _ in m:
                a = nf.ATOMS[v]
                if not (a.kind in ('floor', 'mod', 'idiv') or
                        (a.kind == 'var' and a.term.sort == 'I')):
                    return None
        return self.intpoly(p)

    def boolean(self, t):
        """z3 formula of a boolean term; the facts of mround.py over plain
        variables are translated once per process"""
        if AUX.isdisjoint(t.vars):
            return self._boolean(t)
        r = _zc.get(t.id)
        if r is None:
            c = Ctx(False)
            z = c._boolean(t)
            plain = all(nf.ATOMS[a].kind == 'var' and
                        nf.ATOMS[a].term.sort != 'I' for a in c.vars) and \
                not (c.formulas or c.bvars or c.fvars or c.has_fp)
            r = _zc[t.id] = (z if plain else None, sorted(c.vars),
                             c.nonlinear)
        if r[0] is None:
            return self._boolean(t)
        for a in r[1]:
            self.av(a)
        if r[2]:
            self.nonlinear = True
        return r[0]

    def _boolean(self, t):
        op = t.op
        if op == 'true':
            return z3.BoolVal(True)
        if op == 'false':
            return z3.BoolVal(False)
        if op == 'not':
            return z3.Not(self.boolean(t.args[0]))
        if op == 'and':
            return z3.And(*[self.boolean(a) for a in t.args])
        if op == 'iff':
            return self.boolean(t.args[0]) == self.boolean(t.args[1])
        if op == 'ite':
            return z3.If(*[self.boolean(a) for a in t.args])
        if op == 'var':
            v = self.bvars.get(t.id)
            if v is None:
                v = self.bvars[t.id] = z3.Bool('b%d' % t.id)
            return v
        if op in ('lt', 'le', 'eq'):
            f = litfrac(t)
            lf = nf.linform(f)
            if lf is not None and lf[1]:
                if any(nf.ATOMS[v].kind == 'log' for v in lf[1]):
                    g = self.expo(*lf)
                    if g is not None:
                        r = self.sign(g, op)
                        if self.link:
                            for v in lf[1]:
                                self.av(v)
                            self.formulas.append(r == self.sign(f, op))
                        return r
                r = self.sign(f, op)
                self.linlits.append((op, lf[0], lf[1], r))
                return r
            return self.sign(f, op)
        if op in ('flt', 'fle', 'feq'):
            a, b = self.fp(t.args[0]), self.fp(t.args[1])
            return {'flt': z3.fpLT, 'fle': z3.fpLEQ, 'feq': z3.fpEQ}[op](a, b)
        if op == 'fisnan':
            return z3.fpIsNaN(self.fp(t.args[0]))
        raise NotImplementedError('boolean ' + op)

    def fp(self, t):
        r = self.fmemo.get(t.id)
        if r is not None:
            return r
        self.has_fp = True
        op = t.op
        if op == 'fconst':
            r = z3.fpBVToFP(z3.BitVecVal(t.val, 64), F64)
            r = z3.simplify(r)
        elif op == 'var':
            r = z3.FP('f%d' % t.id, F64)
            self.fvars[t.id] = r
        elif op == 'ite':
            r = z3.If(self.boolean(t.args[0]), self.fp(t.args[1]),
                      self.fp(t.args[2]))
        else:
            a = [self.fp(x) for x in t.args]
            if op == 'fadd':
                r = z3.fpAdd(RNE, *a)
            elif op == 'fsub':
                r = z3.fpSub(RNE, *a)
            elif op == 'fmul':
                r = z3.fpMul(RNE, *a)
            elif op == 'fdiv':
                r = z3.fpDiv(RNE, *a)
            elif op == 'fneg':
                r = z3.fpNeg(*a)
            elif op == 'fabs':
                r = z3.fpAbs(*a)
            elif op == 'fsqrt':
                r = z3.fpSqrt(RNE, *a)
            else:
                raise NotImplementedError('fp ' + op)
        self.fmemo[t.id] = r
        return r


def trivially_positive(p):
    has = False
    for m, c in p.items():
        if c <= 0:
            return False
        strict = True
        for v, e in m:
            if nf.ATOMS[v].pos:
                continue
            if e % 2:
                return False
            strict = False
        has = has or strict
    return has


_lf = {}


def litfrac(t):
    r = _lf.get(t.id)
    if r is None:
        r = _lf[t.id] = nf.fadd(nf.norm(t.args[0]), nf.norm(t.args[1]), -1)
    return r


def quick(t):
    """Decide a literal from its normal form alone: True / False / None."""
    if t.op == 'true':
        return True
    if t.op == 'false':
        return False
    if t.op == 'not':
        r = quick(t.args[0])
        return None if r is None else not r
    if t.op == 'and':
        rs = [quick(a) for a in t.args]
        if any(r is False for r in rs):
            return False
        if all(r is True for r in rs):
            return True
        return None
    if t.op in ('lt', 'le', 'eq'):
        f = litfrac(t)
        if f.is_const():
            c = f.const()
            return {'lt': c < 0, 'le': c <= 0, 'eq': c == 0}[t.op]
        if all(trivially_positive(nf.FPOLY[k]) for k in f.den):
            if trivially_positive(f.num):
                return False
            if trivially_positive(nf.pscale(f.num, -1)):
                return t.op != 'eq'
    return None


# --------------------------------------------------------------------- slicing
_deps = {}


def atom_deps(aid):
    """atoms reachable from an atom, plus T bool vars"""
    r = _deps.get(aid)
    if r is not None:
        return r
    _deps[aid] = frozenset((aid,))
    a = nf.ATOMS[aid]
    s = {aid}
    subs = []
    if a.kind == 'exp':
        s |= atom_deps(a.args[0])
        if a.args[1] > 1:
            s |= atom_deps(nf.eatom(a.args[0], 1).id)
    elif a.kind == 'root':
        subs.append(a.sq)
    elif a.kind == 'log':
        subs.append(a.args)
    elif a.kind == 'uf':
        subs.extend(a.args[1])
    elif a.kind == 'mono':
        for v, _ in a.args:
            s |= atom_deps(v)
    elif a.kind == 'frac':
        subs.append(a.args)
    elif a.kind == 'ite':
        c, x, y = a.term.args
        s |= lit_deps(c)
        subs += [nf.norm(x), nf.norm(y)]
    elif a.kind in ('floor', 'mod', 'idiv'):
        subs += [nf.norm(x) for x in a.term.args]
    for f in subs:
        s |= frac_deps(f)
    _deps[aid] = frozenset(s)
    return _deps[aid]


def frac_deps(f):
    s = set()
    for m in f.num:
        for v, _ in m:
            s |= atom_deps(v)
    for k in f.den:
        for m in nf.FPOLY[k]:
            for v, _ in m:
                s |= atom_deps(v)
    return s


_ld = {}


def lit_deps(t):
    r = _ld.get(t.id)
    if r is not None:
        return r
    if t.op in ('lt', 'le', 'eq'):
        s = frozenset(frac_deps(litfrac(t)))
    elif t.op == 'var':
        s = frozenset((('b', t.id),))
    elif t.op in ('flt', 'fle', 'feq', 'fisnan'):
        s = frozenset(('b', v) for v in t.vars)
    elif t.op in ('true', 'false'):
        s = frozenset()
    else:
        s = set()
        for a in t.args:
            s |= lit_deps(a)
        s = frozenset(s)
    _ld[t.id] = s
    return s


def slice_pc(pc, seed):
    need = set(seed)
    rest = list(pc)
    out = []
    changed = True
    while changed:
        changed = False
        keep = []
        for t in rest:
            d = lit_deps(t)
            if d & need:
                out.append(t)
                if not d <= need:
                    need |= d
                    changed = True
            else:
                keep.append(t)
        rest = keep
    return out


# --------------------------------------------------------------------- queries
_cache = {}


def check(lits, timeout=10.0, link=False, extra=None):
    """(status, model or None) for the conjunction of boolean terms.

    status: 'sat' | 'unsat' | 'unknown'.  extra(ctx) -> z3 constraints."""
    key = (frozenset(t.id for t in lits), link)
    if extra is None:
        r = _cache.get(key)
        if r is not None and (r[0] != 'unknown' or r[2] >= timeout):
            return r[:2]
    t0 = time.time()
    c = Ctx(link)
    fs = [c.boolean(t) for t in lits]
    c.finish()
    if extra is not None:
        fs += extra(c)
        c.finish()
    fs = fs + c.formulas
    st, model = solve(c, fs, timeout)
    dt = time.time() - t0
    STATS['queries'] += 1
    STATS['time'] += dt
    STATS['max_time'] = max(STATS['max_time'], dt)
    STATS[st] += 1
    m = None
    if model is not None:
        m = read_model(c, model)
    if extra is None:
        _cache[key] = (st, m, timeout)
    return st, m


def confirm(pc, goal, timeout=1.5):
    """The solver's own verdict on pc => goal, goal not normalised."""
    t0 = time.time()
    c = Ctx(False)
    fs = [c.boolean(t) for t in pc]
    fs.append(z3.Not(c.rawbool(goal)))
    c.finish()
    st, _ = solve(c, fs + c.formulas, timeout)
    STATS['queries'] += 1
    STATS[st] += 1
    STATS['time'] += time.time() - t0
    return st


def confirm_equal(pairs, timeout=0.5):
    """One verdict on the conjunction of got == expected over a path.

    got and expected are terms; what the code returned is a fresh constant
    defined by the term it computed.
    """
    t0 = time.time()
    c = Ctx(False)
    defs, goals = [], []
    try:
        for k, (a, b) in enumerate(pairs):
            g = z3.Real('got%d' % k)
            defs.append(g == c.raw(a))
            goals.append(g == c.raw(b))
    except Exception:
        return 'unknown'
    s = z3.Solver()
    s.set('timeout', int(timeout * 1000))
    s.add(*defs)
    s.add(z3.Not(z3.And(*goals)))
    r = str(s.check())
    STATS['queries'] += 1
    STATS[r] += 1
    STATS['time'] += time.time() - t0
    return r


def solve(c, fs, timeout):
    ms = int(timeout * 1000)
    order = []
    if c.has_fp:
        order = [(z3.Solver, ms)]
    elif c.nonlinear and not c.has_int:
        order = [(lambda: z3.SolverFor('QF_NRA'), ms), (z3.Solver, ms)]
    else:
        order = [(z3.Solver, ms)]
    st = 'unknown'
    for mk, t in order:
        s = mk()
        s.set('timeout', t)
        s.add(*fs)
        try:
            r = s.check()
        except z3.Z3Exception:
            r = z3.unknown
        if r == z3.unsat:
            return 'unsat', None
        if r == z3.sat:
            return 'sat', s.model()
    return st, None


def _tofloat(v):
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        n, d = v.numerator_as_long(), v.denominator_as_long()
        try:
            return n / d
        except OverflowError:
            return float('inf') if n > 0 else float('-inf')
    if z3.is_algebraic_value(v):
        a = v.approx(40)
        return a.numerator_as_long() / a.denominator_as_long()
    return None


def read_model(c, model):
    """{term id of input var: python value}"""
    env = {}
    for aid, v in c.vars.items():
        a = nf.ATOMS[aid]
        if a.kind == 'var':
            x = model.eval(v, model_completion=True)
            env.setdefault(a.term.id, _tofloat(x))
    for aid, v in c.vars.items():
        a = nf.ATOMS[aid]
        if a.kind == 'exp':
            b = nf.ATOMS[a.args[0]]
            if b.kind == 'var':
                x = _tofloat(model.eval(v, model_completion=True))
                if x is not None and x > 0:
                    if a.args[0] not in c.vars or not _constrained(c, a.args[0]):
                        env[b.term.id] = a.args[1] * math.log(x)
    for tid, v in c.bvars.items():
        env[tid] = z3.is_true(model.eval(v, model_completion=True))
    for tid, v in c.fvars.items():
        x = model.eval(v, model_completion=True)
        env[tid] = fpval(x)
    return env


def _constrained(c, aid):
    return False


def fpval(x):
    if z3.is_fp_value(x):
        if x.isNaN():
            return float('nan')
        if x.isInf():
            return float('-inf') if x.isNegative() else float('inf')
        if x.isZero():
            return -0.0 if x.isNegative() else 0.0
        bv = z3.simplify(z3.fpToIEEEBV(x)).as_long()
        import struct
        return struct.unpack('<d', struct.pack('<Q', bv))[0]
    return 0.0
