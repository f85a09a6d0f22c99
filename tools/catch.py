"""Apply each planted bug to a copy of /repo, run its property's quick check on it, and report what was caught."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, cwd=ROOT):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def main():
    ids = [a for a in sys.argv[1:] if not a.startswith('-')] or sorted(os.listdir(os.path.join(ROOT, 'seeded')))
    for b in ids:
        d = os.path.join(ROOT, 'seeded', b)
        prop = json.load(open(os.path.join(d, 'meta.json')))['property']
        t = time.time()
        tmp = tempfile.mkdtemp(prefix='catch')
        try:
            sh('cp -a /repo %s/repo' % tmp)
            a = sh('git apply %s/patch.diff' % d, tmp + '/repo')
            assert a.returncode == 0, a.stdout
            # the check sees the changed copy at /repo (in a mount namespace of its own)
            r = sh("unshare -m sh -c 'mount --bind %s/repo /repo; exec /opt/venv/bin/python engine/run.py --prop %s "
                   "--tier quick --no-evidence'" % (tmp, prop))
        finally:
            shutil.rmtree(tmp)
        dt = time.time() - t
        vio = [ln for ln in r.stdout.splitlines() if ln.startswith('VIOLATION property=%s ' % prop)]
        ok = r.returncode == 1 and vio
        print('%-30s %s exit=%d %4.0fs %s' % (b, 'caught' if ok else 'MISSED', r.returncode, dt,
                                             '' if ok else r.stdout[-300:]), flush=True)


main()
