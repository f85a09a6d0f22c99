"""C19: the optimisation objective counts, prints and logs on schedule."""
import contextlib
import io
import numpy as np
import autograd
import autograd.numpy as anp
from autograd import make_jvp
from paragami.optimization_lib import OptimizationObjective
from .c16 import poly

META = {
    'bounds': 'histories of up to 4 (thorough: 6) operations out of evaluation, gradient, Hessian, Hessian-vector '
              'product, the two period changes and the three resets; runs of up to 9 (14) evaluations; every period '
              '0..20; every point and value; points overwritten in place after they were evaluated',
    'outside': 'longer histories, negative periods, objectives that raise an error',
    'assumptions': ['exact real arithmetic', 'the text of the default printout is checked on concrete values only '
                    '(periods and point of printing remain symbolic)'],
}


class Watched(OptimizationObjective):
    """print_value is documented to be overridable"""

    def print_value(self, num_f_evals, x, f_val):
        self.__dict__.setdefault('printed', []).append((num_f_evals, x, f_val))


class Fun:
    def __init__(self, h, n):
        self.f, self.grad, self.hess = poly(h, n)
        self.calls = 0

    def __call__(self, x):
        self.calls += 1
        return self.f(x)


def due(h, count, period):
    """period > 0 and count is a multiple of it"""
    if not bool(period > 0):
        return False
    # count is concrete: it is a multiple of the period when period * k == count
    return any(bool(period * k == count) for k in range(count + 1))


def compare(h, got, want, label):
    if not h.check(len(got) == len(want), label + ': number of records',
                   lambda: 'got %r expected %r' % (got, want)):
        return False
    for g, w in zip(got, want):
        ok = len(g) == 3 and g[0] == w[0]
        if not h.check(ok, label + ': count', lambda: 'got %r expected %r' % (g, w)):
            return False
        if g[1] is not w[1]:
            h.eq(g[1], w[1], label + ': point')
        h.eq(g[2], w[2], label + ': value')
    return True


class Model:
    def __init__(self, p, l):
        self.p, self.l, self.count, self.printed, self.log = p, l, 0, [], []

    def call(self, h, x, v):
        if due(h, self.count, self.p):
            self.printed.append((self.count, x, v))
        if due(h, self.count, self.l):
            self.log.append((self.count, x, v))
        self.count += 1


OPS = ['f', 'grad', 'hessian', 'hvp', 'print', 'log', 'reset', 'reset_count', 'reset_log']


def history(h, ops, k, n=1):
    p, l = h.int('p', 0, 20), h.int('l', 0, 20)
    if not h.symbolic:
        p, l = int(p), int(l)
    f = Fun(h, n)
    o = Watched(f, print_every=p, log_every=l)
    o.__dict__.setdefault('printed', [])
    m = Model(p, l)
    h.check(o.num_iterations() == 0 and o.optimization_log == [] and o.printed == [] and f.calls == 0,
            'initially nothing has happened')
    for i in range(k):
        op = h.choice('op%d' % i, ops)
        x = h.reals('x%d_' % i, (n,), -1, 1)
        if op == 'f':
            r = o.f(x)
            v = f.f(x)
            h.eq(r, v, 'value of the wrapped function')
            m.call(h, x, v)
        elif op == 'grad':
            h.eq(o.grad(x), f.grad(x), 'gradient')
        elif op == 'hessian':
            h.eq(o.hessian(x), f.hess(x), 'Hessian')
        elif op == 'hvp':
            v = h.reals('v%d_' % i, (n,))
            h.eq(o.hessian_vector_product(x, v), np.dot(f.hess(x), v), 'Hessian vector product')
        elif op in ('print', 'log'):
            q = h.int('period%d' % i, 0, 20)
            if op == 'print':
                o.set_print_every(q)
                m.p = q
            else:
                o.set_log_every(q)
                m.l = q
        elif op == 'reset':
            o.reset()
            m.count, m.log = 0, []
        elif op == 'reset_count':
            o.reset_iteration_count()
            m.count = 0
        else:
            o.reset_log()
            m.log = []
        h.check(o.num_iterations() == m.count, 'evaluation count')
        if not compare(h, o.optimization_log, m.log, 'log') or not compare(h, o.printed, m.printed, 'printed'):
            return


def run(h, k, change=None):
    """many evaluations with fixed periods, one change on the way"""
    p, l = h.int('p', 0, 20), h.int('l', 0, 20)
    n = [0]

    def f(x):
        n[0] += 1
        return x
    o = Watched(f, p, l)
    o.__dict__.setdefault('printed', [])
    m = Model(p, l)
    x = h.real('x')
    at = h.choice('at', list(range(1, k))) if change else -1
    for i in range(k):
        if i == at:
            if change == 'reset':
                o.reset()
                m.count, m.log = 0, []
            elif change == 'count':
                o.reset_iteration_count()
                m.count = 0
            elif change == 'log':
                o.reset_log()
                m.log = []
        r = o.f(x)
        h.eq(r, x, 'value')
        h.check(n[0] == i + 1, 'function called once')
        m.call(h, x, x)
        h.check(o.num_iterations() == m.count, 'evaluation count')
    compare(h, o.optimization_log, m.log, 'log')
    compare(h, o.printed, m.printed, 'printed')


def default(h, k):
    """default printout and default arguments"""
    given = bool(h.bool('given'))
    vals = [1.25, -2.5, 0.0, 3.0, 1e-9, 7.5, 12345678.0][:k]
    pts = [np.array([float(i)]) for i in range(k)]
    f = lambda x: vals[int(x[0])]
    if given:
        p = h.int('p', 0, 20)
        o = OptimizationObjective(f, print_every=p)
    else:
        p = 1
        o = OptimizationObjective(f)
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        for x in pts:
            o.f(x)
    lines = [s for s in buf.getvalue().split('\n') if s]
    want = [i for i in range(k) if due(h, i, p)]
    h.check(len(lines) == len(want), 'number of lines printed', lambda: repr(lines))
    for s, i in zip(lines, want):
        h.check(str(i) in s and '%0.8f' % vals[i] in s, 'count and value printed', s)
    h.check(o.optimization_log == [], 'nothing logged by default')
    h.check(o.num_iterations() == k, 'count')


def overridden(h):
    """log_value is documented to be overridable"""
    class Own(Watched):
        def log_value(self, num_f_evals, x, f_val):
            self.__dict__.setdefault('own', []).append((num_f_evals, x, f_val))
    l = h.int('l', 0, 20)
    o = Own(lambda x: x, 0, l)
    xs = [h.real('x%d' % i) for i in range(5)]
    for x in xs:
        o.f(x)
    compare(h, o.__dict__.get('own', []), [(i, x, x) for i, x in enumerate(xs) if due(h, i, l)], 'custom log')
    h.check(o.optimization_log == [], 'default log untouched')
    h.check('printed' not in o.__dict__, 'printing disabled')


def overwritten(h, n, k):
    """one array as the point of every evaluation, overwritten in between: the log keeps the points evaluated"""
    l = h.int('l', 0, 3)
    f = Fun(h, n)
    o = Watched(f, 0, l)
    m = Model(0, l)
    buf = h.reals('x0', (n,), -1, 1)
    for i in range(k):
        x = np.array(buf)
        r = o.f(buf)
        m.call(h, x, r)
        if bool(h.bool('grad%d' % i)):
            h.eq(o.grad(buf), f.grad(x), 'gradient')
        buf[:] = h.reals('x%d' % (i + 1), (n,), -1, 1)
        compare(h, o.optimization_log, m.log, 'log')


def derivs(h, n):
    f = Fun(h, n)
    p = h.int('p', 0, 3)
    o = Watched(f, p, p)
    x, v = h.reals('x', (n,), -1, 1), h.reals('v', (n,))
    before = (o.num_iterations(), len(o.optimization_log))
    h.eq(o.grad(x), f.grad(x), 'gradient')
    h.eq(o.hessian(x), f.hess(x), 'Hessian')
    h.eq(o.hessian_vector_product(x, v), np.dot(f.hess(x), v), 'Hessian vector product')
    h.check((o.num_iterations(), len(o.optimization_log)) == before and 'printed' not in o.__dict__,
            'derivatives are not counted')
    two = Watched(f, p, 1)
    two.f(x)
    h.check(o.num_iterations() == 0 and o.optimization_log == [], 'objectives are independent')

    two.reset()
    two.f(x)
    h.check(len(two.optimization_log) == 1 , 'log after a reset starts afresh')


def tasks(tier):
    out = [dict(name='history:3', fn='history', cfg=dict(ops=OPS, k=3), max_paths=20000)]
    out.append(dict(name='history:4', fn='history', cfg=dict(ops=['f', 'print', 'log', 'reset_count'], k=4),
                    max_paths=20000))
    out.append(dict(name='history:4r', fn='history', cfg=dict(ops=['f', 'grad', 'reset', 'reset_log'], k=4),
                    max_paths=20000))
    out.append(dict(name='history:2x2', fn='history', cfg=dict(ops=OPS, k=2, n=2), max_paths=20000))
    k = 9 if tier == 'quick' else 14
    out.append(dict(name='run:%d' % k, fn='run', cfg=dict(k=k), max_paths=20000))
    for c in ('reset', 'count', 'log'):
        out.append(dict(name='run:%s' % c, fn='run', cfg=dict(k=5 if tier == 'quick' else 8, change=c),
                        max_paths=20000))
    out.append(dict(name='default', fn='default', cfg=dict(k=7)))
    out.append(dict(name='overwritten', fn='overwritten', cfg=dict(n=2, k=4 if tier == 'quick' else 6),
                    max_paths=20000))
    out.append(dict(name='overridden', fn='overridden', cfg={}))
    for n in (1, 2, 3):
        out.append(dict(name='derivs:%d' % n, fn='derivs', cfg=dict(n=n)))
    if tier == 'thorough':
        out.append(dict(name='history:6', fn='history', cfg=dict(ops=['f', 'reset_count', 'log'], k=6),
                        max_paths=60000))
        out.append(dict(name='history:5', fn='history', cfg=dict(ops=['f', 'print', 'reset', 'reset_log'], k=5),
                        max_paths=60000))
    return out
