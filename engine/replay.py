"""Concrete replay server: the unpatched real code on plain numbers.

Reads one JSON request per line, answers one JSON line.
"""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
import json
import importlib
import traceback
import warnings
import math
warnings.simplefilter('ignore')
import numpy as np
np.seterr(all='ignore')


def dec(v):
    if isinstance(v, dict) and '__f' in v:
        return float.fromhex(v['__f']) if v['__f'] not in (
            'nan', 'inf', '-inf') else float(v['__f'])
    return v


def enc(v):
    if isinstance(v, (bool, np.bool_)):
        return bool(v)
    if isinstance(v, (int, np.integer)):
        return int(v)
    if isinstance(v, (float, np.floating)):
        v = float(v)
        if math.isnan(v) or math.isinf(v):
            return {'__f': repr(v)}
        return {'__f': v.hex()}
    return v


def run(req):
    from engine.harness import ConH, AssumeFailed
    mod = importlib.import_module('props.' + req['module'])
    fn = getattr(mod, req['fn'])
    env = {k: dec(v) for k, v in req['env'].items()}
    h = ConH(env)
    saved = {}

    def rnd(size=None):
        if size is None or size == ():
            return h.random_value()
        a = np.empty(size)
        for i in range(a.size):
            a.flat[i] = h.random_value()
        return a
    for n, f in (('random', rnd), ('random_sample', rnd),
                 ('rand', lambda *s: rnd(s)),
                 ('uniform', lambda low=0., high=1., size=None:
                  low + (high - low) * rnd(size))):
        saved[n] = getattr(np.random, n)
        setattr(np.random, n, f)
    try:
        fn(h, **req['cfg'])
    except AssumeFailed:
        return {'status': 'assume', 'failures': h.failures}
    except Exception as e:
        return {'status': 'exception', 'failures': h.failures +
                [('exception', '%s: %s' % (type(e).__name__, e))],
                'tb': traceback.format_exc()[-2000:]}
    finally:
        for n, f in saved.items():
            setattr(np.random, n, f)
    return {'status': 'fail' if h.failures else 'ok', 'failures': h.failures,
            'checks': h.checks}


def main():
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)
    for line in sys.stdin:
        line = line.strip()
        if not line:
            continue
        try:
            r = run(json.loads(line))
        except BaseException as e:
            r = {'status': 'error', 'failures': [],
                 'tb': traceback.format_exc()[-2000:]}
        out.write(json.dumps(r) + '\n')
        out.flush()


if __name__ == '__main__':
    if len(sys.argv) > 1:
        req = json.load(open(sys.argv[1]))
        r = run(req)
        print(json.dumps(r, indent=1))
        sys.exit(1 if r['status'] in ('fail', 'exception') else 0)
    main()
