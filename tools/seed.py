"""seed.py NAME PROPERTY: confirms a planted bug kept in /verif/seeded/NAME (patch.diff, demo.sh) in a scratch copy.

With --new FILE OLD NEW: creates patch.diff by replacing text in a scratch copy (helper for writing them).
--check also runs check.py of the property against the patched copy (PV_REPO).
"""
import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('names', nargs='*')
    ap.add_argument('--check', action='store_true')
    ap.add_argument('--notests', action='store_true')
    a = ap.parse_args()
    names = a.names or sorted(os.listdir(os.path.join(HERE, 'seeded')))
    bad = 0
    for name in names:
        d = os.path.join(HERE, 'seeded', name)
        meta = json.load(open(os.path.join(d, 'meta.json')))
        w = tempfile.mkdtemp(prefix='seed-')
        try:
            r = os.path.join(w, 'repo')
            sh('cp -a /repo ' + r)
            res = {}
            env = dict(os.environ, PATH='/opt/venv/bin:' + os.environ['PATH'], PYTHONPATH=os.path.join(r, 'src'), PYTHONDONTWRITEBYTECODE='1')
            res['clean'] = sh('bash {}/demo.sh'.format(d), cwd=r, env=env).returncode
            g = sh('git apply {}/patch.diff'.format(d), cwd=r)
            res['apply'] = g.returncode
            p = sh('bash {}/demo.sh'.format(d), cwd=r, env=env)
            res['patched'] = p.returncode
            ok = res['clean'] == 0 and res['apply'] == 0 and res['patched'] != 0
            if not a.notests:
                t = sh('/opt/venv/bin/python -m pytest -q -x -p no:cacheprovider --no-cov --ignore=tests/test_conformance.py 2>&1 | tail -3', cwd=r, env=env)
                res['tests'] = t.stdout.strip().split('\n')[-1]
                ok = ok and ' failed' not in res['tests'] and 'passed' in res['tests']
            if a.check:
                c = sh('/opt/venv/bin/python check.py {}'.format(meta['property']), cwd=HERE, env=dict(
                    os.environ, PV_REPO=r, PV_EVIDENCE=os.path.join(w, 'ev.json')))
                res['check'] = c.returncode
                if not c.stdout: print(c.stderr[-2000:])
                v = [l for l in c.stdout.split('\n') if 'VIOLATION' in l or 'failed obligation' in l]
                res['violation'] = ' | '.join(x[:160] for x in v[:2] + v[-1:])
            print('ok  ' if ok else 'BAD ', name, meta['property'], res)
            if not ok:
                bad += 1
                print(t.stdout if not a.notests else '', g.stderr, p.stdout[-500:], p.stderr[-500:])
        finally:
            shutil.rmtree(w)
    return bad


if __name__ == '__main__':
    sys.exit(main())
