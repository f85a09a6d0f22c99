"""Path exploration: re-execute the harness, fork on symbolic decisions."""
import hashlib
import math
import random
import time
import traceback
from fractions import Fraction
from . import terms as tm
from . import nf
from . import solve
from . import sym
from . import mround
from .sym import Sym, SymBool, Unsupported

POOL = 96


class PathEnd(BaseException):
    """assumption false on this path"""


class BudgetExceeded(BaseException):
    pass


class Env:
    """One sample assignment; drawn lazily, deterministically by name."""

    def __init__(self, seed, k):
        self.k = k
        self.seed = seed
        self.vals = {}
        self.memo = {}
        self.ok = True

    def draw(self, t, spec):
        name = t.val
        h = hashlib.sha256(('%s/%d/%s' % (self.seed, self.k, name))
                           .encode()).digest()
        r = random.Random(h)
        kind, lo, hi = spec
        if kind == 'B':
            v = r.random() < 0.5
        elif kind == 'I':
            v = r.randint(lo, hi)
        elif kind == 'M':
            v = mround.draw(r, lo, hi, random.Random('%s/%d' % (self.seed, self.k)), name)
        elif kind == 'F':
            v = r.choice([0.0, 1.0, -1.0, r.uniform(lo, hi), r.uniform(lo, hi),
                          r.uniform(lo, hi), 2.0 ** r.randint(-60, 60)])
        else:
            v = round(r.uniform(lo, hi), 3)
        self.vals[t.id] = v

    def ev(self, t):
        return tm.evaluate(t, self.vals, self.memo)


def truth(env, t):
    """True/False when the sample decides the literal clearly, else None."""
    try:
        op = t.op
        if op == 'not':
            r = truth(env, t.args[0])
            return None if r is None else not r
        if op == 'and':
            rs = [truth(env, a) for a in t.args]
            if any(r is False for r in rs):
                return False
            return None if None in rs else True
        if op == 'iff':
            a, b = truth(env, t.args[0]), truth(env, t.args[1])
            return None if a is None or b is None else a == b
        if op in ('lt', 'le', 'eq'):
            if mround.AUX and not t.vars.isdisjoint(mround.AUX):
                return mround.truth(env, t)
            a, b = env.ev(t.args[0]), env.ev(t.args[1])
            if isinstance(a, int) and isinstance(b, int):
                return {'lt': a < b, 'le': a <= b, 'eq': a == b}[op]
            if math.isnan(a) or math.isnan(b) or math.isinf(a) \
                    or math.isinf(b):
                return None
            if abs(a - b) <= 1e-6 * max(1.0, abs(a), abs(b)):
                return None
            return {'lt': a < b, 'le': a < b, 'eq': False}[op]
        if op == 'var' or op in ('true', 'false') or op[0] == 'f':
            return bool(env.ev(t))
        if op == 'ite':
            c = truth(env, t.args[0])
            return None if c is None else truth(env, t.args[1 if c else 2])
    except (ArithmeticError, ValueError, KeyError, NotImplementedError):
        return None
    return None


class Failure:
    def __init__(self, kind, label, detail, envs, path):
        self.kind = kind            # 'check' | 'exception' | 'inconclusive'
        self.label = label
        self.detail = detail
        self.envs = envs            # candidate assignments {name: value}
        self.path = path


class Engine:
    def __init__(self, harness, cfg, seed=1, deadline=None, qtimeout=8.0,
                 max_paths=4000):
        self.harness = harness
        self.cfg = cfg
        self.seed = seed
        self.deadline = deadline or (time.time() + 600)
        self.qtimeout = qtimeout
        self.max_paths = max_paths
        self.stats = dict(paths=0, decisions=0, forks=0, forced=0, checks=0,
                          checks_nf=0, checks_smt=0, checks_trivial=0,
                          infeasible=0)
        self.confirmed = set()
        self.confirm_time = 0.0
        self.confirm_budget = 15.0
        self.failures = []
        self.witnesses = []
        self.labels = {}
        self.reached = set()

    # ---------------------------------------------------------------- variables
    def newvar(self, name, sort, spec):
        if name in self.names:
            raise RuntimeError('duplicate variable ' + name)
        t = tm.mk('var', val=name, sort=sort)
        self.names[name] = t
        self.specs.append((t, spec))
        for e in self.pool:
            e.draw(t, spec)
        return t

    # --------------------------------------------------------------- decisions
    def feasible(self, lits):
        """False only when the solver refutes."""
        base = self.pc
        seed = set()
        for t in lits:
            seed |= solve.lit_deps(t)
        sl = solve.slice_pc(base, seed)
        st, m = solve.check(sl + list(lits), timeout=min(self.qtimeout, 3.0))
        if st == 'unknown':
            st, m = solve.check(sl + list(lits), timeout=min(
                self.qtimeout, 3.0), link=True)
        elif st == 'sat' and self._transcendental(seed):
            st, m = solve.check(sl + list(lits), timeout=min(
                self.qtimeout, 2.0), link=True)
        if st != 'unsat':
            st = self.hard(sl, lits, seed, min(self.qtimeout, 3.0), st)[0]
        return st != 'unsat'

    def hard(self, sl, lits, seed, timeout, st, m=None):
        """ask again with the defining equations of products and quotients"""
        if self.soft:
            more = solve.slice_pc(self.pc + self.soft, seed)
            if len(more) > len(sl):
                s2, m2 = solve.check(more + list(lits), timeout=timeout)
                if s2 != 'unknown':
                    return s2, m2
                return ('unknown' if st == 'sat' else st), m
        return st, m

    def _transcendental(self, deps):
        return any(not isinstance(d, tuple) and
                   nf.ATOMS[d].kind in ('log', 'exp') for d in deps)

    def tick(self):
        if time.time() > self.deadline:
            raise BudgetExceeded('time budget')

    def decide(self, t):
        if t is tm.TRUE:
            return True
        if t is tm.FALSE:
            return False
        if t.op == 'not':
            return not self.decide(t.args[0])
        v = self.known.get(t.id)
        if v is not None:
            return v
        self.tick()
        self.stats['decisions'] += 1
        v = solve.quick(t)
        if v is not None:
            self.known[t.id] = v
            return v
        if self.pos < len(self.prefix):
            v, forced = self.prefix[self.pos]
            self.pos += 1
        else:
            can_t = can_f = False
            for e in self.pool:
                r = truth(e, t)
                if r is True:
                    can_t = True
                elif r is False:
                    can_f = True
                if can_t and can_f:
                    break
            nt = tm.bnot(t)
            if not can_t:
                can_t = self.feasible([t])
                if not can_t and not can_f:
                    can_f = self.feasible([nt])
                    if not can_f:
                        self.stats['infeasible'] += 1
                        raise PathEnd()
            if not can_f:
                can_f = self.feasible([nt])
            forced = not (can_t and can_f)
            v = can_t
            if forced:
                self.stats['forced'] += 1
            if not forced:
                self.stats['forks'] += 1
                self.stack.append(self.trail + [(False, False)])
            self.pos += 1
        self.trail = self.trail + [(v, forced)]
        if not forced:
            self.add(t if v else tm.bnot(t))
        self.known[t.id] = v
        return v

    def add(self, t):
        self.pc.append(t)
        pool = []
        for e in self.pool:
            r = truth(e, t)
            if r:
                pool.append(e)
        self.pool = pool

    def concretize(self, t):
        if tm.is_const(t):
            return int(t.val)
        for _ in range(64):
            self.tick()
            # candidate value: from the trail on replay it does not matter,
            # take a deterministic candidate from the sample pool or the solver
            cand = self._candidate(t)
            if self.decide(tm.eq(t, tm.const(cand, 'I'))):
                return cand
        raise Unsupported('too many values for an integer')

    def _candidate(self, t):
        key = (len(self.trail), t.id, tuple(x.id for x in self.pc))
        c = self.cands.get(key)
        if c is not None:
            return c
        st, m = solve.check(solve.slice_pc(self.pc, solve.lit_deps(
            tm.eq(t, tm.const(0, 'I')))) +
            [tm.le(t, t) if False else tm.eq(t, t)] +
            [tm.bnot(tm.eq(t, tm.const(-987654, 'I')))], timeout=3.0)
        if st != 'sat':
            raise PathEnd()
        env = {}
        for i in t.vars:
            env[i] = m.get(i, 0)
        c = int(tm.evaluate(t, env))
        self.cands[key] = c
        return c

    # ------------------------------------------------------------ assume/check
    def assume(self, t):
        if t is tm.TRUE:
            return
        v = solve.quick(t)
        if v is True:
            return
        if v is False or t is tm.FALSE:
            raise PathEnd()
        if self.known.get(t.id) is True:
            return
        if t.op == 'and':
            for a in t.args:
                self.assume(a)
            return
        self.add(t)
        self.known[t.id] = True
        if self.pos >= len(self.prefix) and not self.pool:
            # make sure the assumption is satisfiable here
            if not self.feasible([]) if False else False:
                raise PathEnd()

    def prove(self, t):
        """'proved' | ('cex', models) | 'unknown'"""
        v = solve.quick(t)
        if v is True:
            return self.confirm(t), []
        if t.op == 'and':
            for a in t.args:
                r = self.prove(a)
                if r[0] != 'proved':
                    return r
            return 'proved', []
        g = tm.bnot(t)
        sl = solve.slice_pc(self.pc, solve.lit_deps(g))
        st = 'unknown'
        for link in (False, True):
            st, m = solve.check(sl + [g], timeout=self.qtimeout, link=link)
            if st == 'unsat':
                self.stats['checks_smt'] += 1
                return 'proved', []
            if not self._transcendental(solve.lit_deps(g)):
                break
        st, m = self.hard(sl, [g], solve.lit_deps(g), self.qtimeout, st, m)
        if st == 'unsat':
            self.stats['checks_smt'] += 1
            return 'proved', []
        # a slice can be satisfiable although the whole path is not
        return st, ([m] if m else [])

    def confirm(self, t):
        """t holds by the normal form; have the solver decide it as well"""
        if t is not tm.TRUE and t.id not in self.confirmed and \
                self.confirm_time < self.confirm_budget:
            t0 = time.time()
            st = solve.confirm(solve.slice_pc(self.pc, solve.lit_deps(t)), t)
            self.confirm_time += time.time() - t0
            if st == 'sat':
                raise Unsupported('normal form and solver disagree')
            if st == 'unsat':
                self.confirmed.add(t.id)
        if t.id in self.confirmed:
            self.stats['checks_smt'] += 1
        elif t is tm.TRUE:
            self.stats['checks_trivial'] += 1
        else:
            self.stats['checks_nf'] += 1
        return 'proved'

    def same(self, a, b):
        """the code returned the very term that was expected"""
        if a.sort in 'RI':
            self.same_pairs.append((a, b))

    def flush_same(self):
        if not self.same_pairs or self.confirm_time > self.confirm_budget:
            return
        t0 = time.time()
        if solve.confirm_equal(self.same_pairs[:400]) == 'unsat':
            n = min(len(self.same_pairs), 400)
            self.stats['checks_smt'] += n
            self.stats['checks_trivial'] -= n
        self.confirm_time += time.time() - t0

    def counterexamples(self, g, models):
        """assignments likely to show not-g on the real code"""
        out = []
        for e in self.pool:
            if truth(e, g) is True:
                out.append(dict(e.vals))
                if len(out) >= 3:
                    break
        if not out and self.auxfns:
            out += self.resample(g)
        allpc = list(self.pc)
        import z3

        def rng(lo):
            def f(c):
                fs = []
                for aid, v in c.vars.items():
                    a = nf.ATOMS[aid]
                    if a.kind == 'var' and not v.is_int():
                        fs += [v <= 4, v >= -4]
                    elif a.kind == 'exp':
                        fs += [v <= 8, v * 8 >= 1]
                return fs
            return f
        marg = self._margin(g)
        tries = []
        if marg is not None:
            tries.append(([marg], rng(0)))
        tries += [([g], rng(0)), ([g], lambda c: [])]
        if not self._hasreal(g):
            tries = [([g], lambda c: [])]
        for lits, ex in tries:
            try:
                st, m = solve.check(allpc + lits, timeout=self.qtimeout,
                                    extra=ex)
            except nf.Blowup:
                continue
            if st == 'sat' and m:
                out.append(m)
        out += models
        return [self.named(m) for m in out[:6]]

    def resample(self, g, n=1500):
        """more sample assignments of rounded values that follow the path"""
        lits = [t for t in self.pc if t.id not in self.factids]
        out = []
        for k in range(POOL, POOL + n):
            e = Env(self.seed, k)
            try:
                for t, spec in self.specs:
                    e.draw(t, spec)
                for t, fn in self.auxfns:
                    e.vals[t.id] = fn(e)
            except (ArithmeticError, ValueError, KeyError, TypeError):
                continue
            if all(truth(e, t) for t in lits) and truth(e, g) is True:
                out.append(dict(e.vals))
                if len(out) >= 3:
                    break
        return out

    def _hasreal(self, g):
        return True

    def _margin(self, g):
        if g.op == 'not' and g.args[0].op == 'eq' and \
                g.args[0].args[0].sort == 'R':
            a, b = g.args[0].args
            m = tm.const(Fraction(1, 20))
            return tm.bor(tm.lt(tm.add(a, m), b), tm.lt(tm.add(b, m), a))
        return None

    def named(self, m):
        out = {}
        for n, t in self.names.items():
            v = m.get(t.id)
            if v is None:
                v = {'B': False, 'I': 0}.get(t.sort, 0.5)
            out[n] = v
        return out

    def path_models(self):
        """an assignment that follows the current path"""
        if self.pool:
            return [self.named(e.vals) for e in self.pool[:2]]
        import z3

        def rng(c):
            fs = []
            for aid, v in c.vars.items():
                a = nf.ATOMS[aid]
                if a.kind == 'var' and not v.is_int():
                    fs += [v <= 4, v >= -4]
                elif a.kind == 'exp':
                    fs += [v <= 8, v * 8 >= 1]
            return fs
        for ex in (rng, lambda c: []):
            try:
                st, m = solve.check(self.pc, timeout=self.qtimeout, extra=ex)
            except nf.Blowup:
                break
            if st == 'sat':
                return [self.named(m)]
            if st == 'unsat' and ex is not rng:
                return None
        return []

    def check(self, t, label, detail=''):
        self.tick()
        self.stats['checks'] += 1
        self.reached.add(label)
        if self.known.get(t.id) is True:
            self.stats['checks_nf'] += 1
            return True
        try:
            st, models = self.prove(t)
        except nf.Blowup:
            st, models = 'unknown', []
        if st == 'proved':
            return True
        g = tm.bnot(t)
        envs = self.counterexamples(g, models)
        self.failures.append(Failure(
            'check' if st == 'sat' else 'unknown', label, detail, envs,
            list(self.trail)))
        return False

    # ------------------------------------------------------------------- driver
    def run(self, make_h):
        self.stack = [[]]
        self.cands = {}
        exhausted = True
        while self.stack:
            if self.stats['paths'] >= self.max_paths:
                exhausted = False
                self.failures.append(Failure('inconclusive', 'path-bound',
                                             'path budget', [], []))
                break
            self.prefix = self.stack.pop()
            self.pos = 0
            self.trail = []
            self.pc = []
            self.soft = []
            self.mr = None
            self.known = {}
            self.same_pairs = []
            self.names = {}
            self.specs = []
            self.auxfns = []
            self.factids = set()
            self.pool = [Env(self.seed, k) for k in range(POOL)]
            sym.set_engine(self)
            h = make_h(self)
            try:
                try:
                    self.harness(h, **self.cfg)
                    ended = 'ok'
                except PathEnd:
                    ended = 'pruned'
                except BudgetExceeded as e:
                    self.failures.append(Failure(
                        'inconclusive', 'budget', str(e), [], []))
                    break
                except nf.Blowup as e:
                    self.failures.append(Failure(
                        'inconclusive', 'blowup', 'normal form too large',
                        self._pm(), list(self.trail)))
                    ended = 'err'
                except Unsupported as e:
                    self.failures.append(Failure(
                        'inconclusive', 'unsupported: %s' % e,
                        traceback.format_exc()[-2500:], self._pm(),
                        list(self.trail)))
                    ended = 'err'
                except Exception as e:
                    pm = self._pm()
                    if pm is None:
                        ended = 'pruned'
                    else:
                        self.failures.append(Failure(
                            'exception', '%s: %s' % (type(e).__name__, e),
                            traceback.format_exc()[-2500:], pm,
                            list(self.trail)))
                        ended = 'err'
                if ended == 'ok':
                    self.flush_same()
                    pm = self._pm()
                    if pm is None:
                        ended = 'pruned'
                    else:
                        self.witnesses.append(pm[0] if pm else None)
                if ended != 'pruned':
                    self.stats['paths'] += 1
                if len([f for f in self.failures]) > 12:
                    break
            finally:
                sym.set_engine(None)
        return self

    def _pm(self):
        try:
            return self.path_models()
        except (nf.Blowup, BudgetExceeded):
            return []
