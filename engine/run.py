"""Run the check of one property.

usage: run.py --prop C01 [--tier quick|thorough] [--only SUBSTR] [-v]
"""
import os
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
for v in ('OPENBLAS_NUM_THREADS', 'OMP_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ[v] = '1'
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
os.environ['PYTHONHASHSEED'] = '0'
import argparse
import importlib
import json
import pickle
import select
import signal
import subprocess
import threading
import time
import traceback
import warnings
warnings.simplefilter('ignore')
sys.setrecursionlimit(20000)

PY = '/opt/venv/bin/python'
REPO = '/repo'


class Replayer:
    """a persistent replay server process"""

    def __init__(self):
        self.p = None
        self.lock = threading.Lock()

    def start(self):
        env = dict(os.environ)
        self.p = subprocess.Popen(
            [PY, os.path.join(ROOT, 'engine', 'replay.py')],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE,
            stderr=subprocess.DEVNULL, text=True, env=env, cwd=ROOT,
            start_new_session=True)

    def ask(self, req, timeout=60):
        with self.lock:
            if self.p is None or self.p.poll() is not None:
                self.start()
            try:
                self.p.stdin.write(json.dumps(req) + '\n')
                self.p.stdin.flush()
                r, _, _ = select.select([self.p.stdout], [], [], timeout)
                if r:
                    line = self.p.stdout.readline()
                    if line:
                        return json.loads(line)
            except (BrokenPipeError, OSError, ValueError):
                pass
            self.stop()
            return {'status': 'error', 'failures': [], 'tb': 'replay died'}

    def stop(self):
        if self.p is not None:
            try:
                os.killpg(self.p.pid, signal.SIGKILL)
            except OSError:
                pass
            self.p.wait()
            self.p = None


def task_child(wfd, module, task, seed, tlimit):
    """explore one task symbolically (in a forked child)"""
    res = {'task': task['name']}
    t0 = time.time()
    try:
        from engine import explore, solve, sym, npsym, harness, terms
        from engine.replay import enc
        mod = importlib.import_module('props.' + module)
        fn = getattr(mod, task['fn'])
        H = harness.symh()
        eng = explore.Engine(fn, task['cfg'], seed=seed,
                             deadline=t0 + tlimit,
                             qtimeout=task.get('qtimeout', 8.0),
                             max_paths=task.get('max_paths', 3000))
        funcs = set()
        pre = os.path.join(REPO, 'paragami') + os.sep

        def prof(frame, event, arg):
            if event == 'call':
                c = frame.f_code
                if c.co_filename.startswith(pre):
                    funcs.add(os.path.basename(c.co_filename)[:-3] + '.' +
                              c.co_qualname)
        first = [0]

        def mk(e):
            first[0] += 1
            sys.setprofile(prof if first[0] <= 4 else None)
            return H(e)
        eng.run(mk)
        sys.setprofile(None)
        fails = []
        for f in eng.failures:
            fails.append({'kind': f.kind, 'label': f.label,
                          'detail': f.detail,
                          'envs': [{k: enc(v) for k, v in e.items()}
                                   for e in (f.envs or [])]})
        res.update(stats=eng.stats, smt=dict(solve.STATS),
                   failures=fails, labels=sorted(eng.reached),
                   funcs=sorted(funcs), stubs=sorted(npsym.STUBS_USED),
                   witnesses=[None if w is None else
                              {k: enc(v) for k, v in w.items()}
                              for w in eng.witnesses],
                   nterms=len(terms._terms))
    except BaseException as e:
        sys.setprofile(None)
        res['crash'] = traceback.format_exc()[-3000:]
    res['wall'] = time.time() - t0
    with os.fdopen(wfd, 'wb') as f:
        f.write(pickle.dumps(res))


def run_tasks(module, tasks, seed, tlimit, total_deadline, jobs, on_result,
              verbose):
    live = {}
    queue = list(tasks)
    while queue or live:
        while queue and len(live) < jobs:
            t = queue.pop(0)
            left = total_deadline - time.time()
            if left <= 1:
                on_result(t, {'task': t['name'], 'crash': 'total time budget'
                              ' exhausted before this task', 'wall': 0})
                continue
            lim = min(t.get('tlimit', tlimit), left)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)
                    task_child(w, module, t, seed, lim)
                finally:
                    os._exit(0)
            os.close(w)
            live[r] = [pid, t, time.time(), lim, b'']
        if not live:
            break
        rs, _, _ = select.select(list(live), [], [], 0.5)
        for r in rs:
            d = os.read(r, 1 << 20)
            if d:
                live[r][4] += d
            else:
                pid, t, t0, lim, buf = live.pop(r)
                os.close(r)
                os.waitpid(pid, 0)
                try:
                    res = pickle.loads(buf)
                except Exception:
                    res = {'task': t['name'], 'crash': 'no result',
                           'wall': time.time() - t0}
                on_result(t, res)
        for r in list(live):
            pid, t, t0, lim, buf = live[r]
            if time.time() - t0 > lim + 20:
                os.kill(pid, signal.SIGKILL)
                live.pop(r)
                os.close(r)
                os.waitpid(pid, 0)
                on_result(t, {'task': t['name'], 'crash': 'killed after %.0f s'
                              % (time.time() - t0), 'wall': lim})


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--prop', required=True)
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only', default=None)
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--no-evidence', action='store_true')
    ap.add_argument('--early', action='store_true', help='also print violations as they are found')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    prop = a.prop
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    budget = 600 if tier == 'quick' else 820
    tlimit = 150 if tier == 'quick' else 500

    reps = [Replayer() for _ in range(4)]
    for r in reps:
        r.start()

    from engine import npsym
    npsym.install()
    import numpy as np
    np.seterr(all='ignore')
    sys.path.insert(0, REPO)
    import autograd            # noqa
    import paragami
    if not os.path.abspath(paragami.__file__).startswith(REPO + os.sep):
        print('paragami is not imported from', REPO)
        return 3
    try:
        import paragami.sparse_preconditioners_lib      # noqa
    except Exception:
        pass
    npsym.after_import()
    module = prop.lower()
    mod = importlib.import_module('props.' + module)
    tasks = mod.tasks(tier)
    if a.only:
        tasks = [t for t in tasks if a.only in t['name']]
    known = load_known(prop)

    results = []
    violations = []
    known_hits = {}
    inconclusive = []
    nval = [0, 0]
    samples = []
    lock = threading.Lock()
    threads = []
    rr = [0]

    def replay(t, env):
        with lock:
            rr[0] += 1
            k = rr[0]
        return reps[k % len(reps)].ask(
            {'module': module, 'fn': t['fn'], 'cfg': t['cfg'], 'env': env})

    def report(t, env, r, label):
        key = known_key(known, t, r)
        with lock:
            if key is not None:
                known_hits[key['id']] = key
                return
            os.makedirs(os.path.join(ROOT, 'replays'), exist_ok=True)
            path = os.path.join(ROOT, 'replays', '%s-%d.json' %
                                (prop, len(violations) + 1))
            with open(path, 'w') as f:
                json.dump({'module': module, 'fn': t['fn'], 'cfg': t['cfg'],
                           'env': env, 'label': label,
                           'failures': r['failures'], 'tb': r.get('tb')}, f,
                          indent=1)
            violations.append((path, t['name'], r['failures']))
            if a.early:
                print('EARLY %s %s' % (prop, t['name']), flush=True)

    def post(t, res):
        """validate one task's result against the real code"""
        out = {'replayed': 0}
        incon = []
        try:
            if 'crash' in res:
                incon.append((t, 'crash', res['crash']))
            for f in res.get('failures', []):
                hit = False
                for env in f['envs']:
                    r = replay(t, env)
                    if r['status'] in ('fail', 'exception'):
                        report(t, env, r, f['label'])
                        hit = True
                        break
                if not hit:
                    incon.append((t, '%s %s' % (f['kind'], f['label']),
                                  f['detail']))
            for env in sample_w(res.get('witnesses', [])):
                if env is None:
                    continue
                r = replay(t, env)
                with lock:
                    nval[1] += 1
                if r['status'] in ('fail', 'exception'):
                    report(t, env, r, 'witness of a path the encoding passed')
                elif r['status'] == 'ok':
                    with lock:
                        nval[0] += 1
                        if len(samples) < 12:
                            samples.append({'task': t['name'],
                                            'path_input': show_env(env),
                                            'concrete_checks': r['checks']})
                elif r['status'] == 'error':
                    incon.append((t, 'replay error', r.get('tb')))
        except Exception:
            incon.append((t, 'post', traceback.format_exc()))
        with lock:
            inconclusive.extend(incon)
            results.append((t, res))
            if a.v:
                s = res.get('stats', {})
                print('%-46s %6.1fs paths=%s checks=%s smt=%s nf=%s triv=%s q=%s %s' % (
                    t['name'], res['wall'], s.get('paths'), s.get('checks'),
                    s.get('checks_smt'), s.get('checks_nf'),
                    s.get('checks_trivial'),
                    res.get('smt', {}).get('queries'),
                    'INC' if incon else ''), flush=True)

    def on_result(t, res):
        th = threading.Thread(target=post, args=(t, res))
        th.start()
        threads.append(th)

    run_tasks(module, tasks, seed, tlimit, t0 + budget, a.jobs, on_result, a.v)
    for th in threads:
        th.join()
    for r in reps:
        r.stop()

    # ------------------------------------------------------------- evidence
    tot = {}
    smt = {}
    funcs, stubs, labels = set(), set(), set()
    for t, res in results:
        for k, v in res.get('stats', {}).items():
            tot[k] = tot.get(k, 0) + v
        for k, v in res.get('smt', {}).items():
            smt[k] = max(smt.get(k, 0), v) if k == 'max_time' else \
                smt.get(k, 0) + v
        funcs |= set(res.get('funcs', []))
        stubs |= set(res.get('stubs', []))
        labels |= set(res.get('labels', []))
    opt_inc = [x for x in inconclusive if x[0].get('optional')]
    req_inc = [x for x in inconclusive if not x[0].get('optional')]
    vac = [t['name'] for t, res in results if 'crash' not in res and
           (not res['labels'] or all(w is None for w in res['witnesses']))
           and not any(x[0] is t for x in inconclusive)
           and not res.get('failures')]
    nreq = len([t for t, _ in results if not t.get('optional')])
    ndec = nreq - len({x[0]['name'] for x in req_inc})
    meta = getattr(mod, 'META', {})
    ev = {
        'property': prop, 'tier': tier, 'seed': seed,
        'level': 'model_checking',
        'coverage': {
            'states': tot.get('paths', 0),
            'transitions': tot.get('decisions', 0),
            'traces_validated_against_impl': nval[0],
            'exhaustive': False,
            'samples': samples or [{'note': 'no path completed'}],
            'symbolic_configurations': len(results),
            'branch_forks': tot.get('forks', 0),
            'branches_forced_by_solver': tot.get('forced', 0),
            'assertions_decided': tot.get('checks', 0),
            'assertions_solver_unsat': tot.get('checks_smt', 0),
            'assertions_normal_form_only': tot.get('checks_nf', 0),
            'assertions_concrete_on_path': tot.get('checks_trivial', 0),
            'solver_queries': smt.get('queries', 0),
            'solver_unsat': smt.get('unsat', 0),
            'solver_sat': smt.get('sat', 0),
            'solver_unknown': smt.get('unknown', 0),
            'solver_seconds': round(smt.get('time', 0.0), 2),
            'slowest_query_seconds': round(smt.get('max_time', 0.0), 2),
            'functions_encoded': sorted(funcs),
            'stubs_used': sorted(stubs),
            'assertion_labels': sorted(labels),
            'bounds': meta['bounds'].get(tier) if isinstance(
                meta.get('bounds'), dict) else meta.get('bounds'),
            'outside_bounds': meta.get('outside'),
            'configurations': [t['name'] for t, _ in results][:400],
            'undecided_required': sorted({t['name'] + ': ' + w
                                          for t, w, _ in req_inc}),
            'undecided_optional': sorted({t['name'] + ': ' + w
                                          for t, w, _ in opt_inc}),
            'explanation': 'Symbolic execution of the real code; a state is '
            'one complete path of one configuration, a transition one branch '
            'decision on a symbolic condition; a forced branch is one whose '
            'other outcome the solver refuted, and an assertion concrete on '
            'its path is true there because of such branches.',
        },
        'assumptions': meta.get('assumptions', []),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(violations),
    }
    if not a.no_evidence and not a.only:
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    print('%s %s: %d configurations, %d paths, %d decisions, %d assertions '
          '(%d by solver), %d queries, %.1f s solver, %d traces replayed ok, '
          '%.1f s' % (prop, tier, len(results), tot.get('paths', 0),
                      tot.get('decisions', 0), tot.get('checks', 0),
                      tot.get('checks_smt', 0), smt.get('queries', 0),
                      smt.get('time', 0.0), nval[0], time.time() - t0))
    for k in known_hits.values():
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    if violations:
        seen = set()
        for path, name, fl in violations:
            key = (name, tuple(sorted({x[0] for x in fl})))
            if key in seen and len(seen) > 5:
                continue
            seen.add(key)
            print('  in %s: %s' % (name, '; '.join(
                '%s (%s)' % (l, d[:160]) for l, d in fl[:2])))
            print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if opt_inc:
        print('not decided within the larger bounds: %s' %
              sorted({x[0]['name'] for x in opt_inc}))
    if req_inc or vac:
        for t, w, d in req_inc[:10]:
            print('INCONCLUSIVE %s: %s' % (t['name'], w))
            if a.v or True:
                print('    ' + str(d)[-1200:].replace('\n', '\n    '))
        for n in vac:
            print('VACUOUS', n)
        if vac or ndec * 3 < nreq:
            return 3
        print('UNDECIDED: %d of %d required configurations; the property held '
              'on the other %d' % (nreq - ndec, nreq, ndec))
    return 0


def sample_w(ws, n=40):
    if len(ws) <= n:
        return ws
    step = len(ws) / n
    return [ws[int(i * step)] for i in range(n)]


def show_env(env):
    out = {}
    for k, v in list(env.items())[:24]:
        if isinstance(v, dict):
            v = v['__f']
            try:
                v = float.fromhex(v)
            except ValueError:
                pass
            v = repr(v)
        out[k] = v
    return out


def load_known(prop):
    p = os.path.join(ROOT, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get('findings', [])
            if k['property'] == prop]


def known_key(known, t, r):
    for k in known:
        if t['name'].startswith(k['task']) and \
                all(any(l.startswith(x) for x in k['labels'])
                    for l, _ in r['failures']):
            return k
    return None


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
