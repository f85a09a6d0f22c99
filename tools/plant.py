"""Build /verif/seeded from tools/bugs.py and check each bug in a scratch copy of /repo.

usage: plant.py [--write] [--check] [ids...]
A bug counts when it builds, passes the stable tests and its demo exits 0 on the clean tree and nonzero with it.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'tools'))
import bugs  # noqa: E402

DEMO_SH = '''#!/bin/bash
# run in the root of the repository
PYTHONPATH="$PWD" exec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"
'''


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def main():
    ids = [a for a in sys.argv[1:] if not a.startswith('-')]
    for b in bugs.BUGS:
        if ids and b['id'] not in ids:
            continue
        d = tempfile.mkdtemp(prefix='plant')
        r = os.path.join(d, 'repo')
        try:
            sh('cp -a /repo %s' % r, '/')
            demo = os.path.join(d, 'demo.py')
            with open(demo, 'w') as f:
                f.write(b['demo'])
            run = 'PYTHONPATH=%s timeout 200 /opt/venv/bin/python %s' % (r, demo)
            clean = sh(run, r)
            for path, old, new in b['edits']:
                p = os.path.join(r, path)
                s = open(p).read()
                assert s.count(old) >= 1, (b['id'], 'text not found', old)
                assert s.count(old) == 1, (b['id'], 'text not unique', old)
                open(p, 'w').write(s.replace(old, new))
            diff = sh('git diff', r).stdout
            t = sh('cd %s && PYTHONPATH=%s /opt/venv/bin/python -m pytest -q -x -p no:cacheprovider 2>&1 | tail -5' %
                   (r, r), r)
            tests = ' passed' in t.stdout and 'failed' not in t.stdout and 'error' not in t.stdout
            bug = sh(run, r)
            # lines removed must exist in the base commit
            orig = True
            for path in {e[0] for e in b['edits']}:
                base = sh('git show 363b779:%s' % path, r).stdout.splitlines()
                removed = [ln[1:] for ln in sh('git diff -U0 %s' % path, r).stdout.splitlines()
                           if ln.startswith('-') and not ln.startswith('---')]
                if any(ln not in base for ln in removed):
                    orig = False
            ok = clean.returncode == 0 and bug.returncode != 0 and tests
            print('%-28s %s clean=%d bug=%d tests=%s original lines=%s' % (
                b['id'], 'OK ' if ok and orig else 'BAD', clean.returncode, bug.returncode, tests, orig))
            if clean.returncode:
                print(clean.stdout[-600:])
            if not tests:
                print(t.stdout[-500:])
            if bug.returncode == 0:
                print('   bug not shown by the demo')
            if ok and orig and '--write' in sys.argv:
                o = os.path.join(ROOT, 'seeded', b['id'])
                os.makedirs(o, exist_ok=True)
                open(os.path.join(o, 'patch.diff'), 'w').write(diff)
                open(os.path.join(o, 'demo.py'), 'w').write(b['demo'])
                open(os.path.join(o, 'demo.sh'), 'w').write(DEMO_SH)
                os.chmod(os.path.join(o, 'demo.sh'), 0o755)
                with open(os.path.join(o, 'meta.json'), 'w') as f:
                    json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), f, indent=1)
                    f.write('\n')
        finally:
            shutil.rmtree(d)


if __name__ == '__main__':
    main()
