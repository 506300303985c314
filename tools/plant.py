"""plant(name, prop, edits, demo, needs, breaks): writes /verif/seeded/name from text replacements in a scratch copy."""
import json
import os
import shutil
import subprocess
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def plant(name, prop, edits, demo, needs, breaks):
    d = os.path.join(HERE, 'seeded', name)
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix='plant-')
    try:
        subprocess.check_call('git clone -q /repo {}/r'.format(w), shell=True)
        for f, old, new in edits:
            p = os.path.join(w, 'r', 'src', 'csvw', f)
            s = open(p).read()
            assert s.count(old) == 1, (name, f, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        diff = subprocess.check_output('git diff', shell=True, cwd=w + '/r', text=True)
        for f in {f for f, _, _ in edits}:
            base = subprocess.check_output(['git', 'show', 'c0a8517:src/csvw/' + f], cwd='/repo', text=True).split('\n')
            gone = [x[1:] for x in diff.split('\n') if x.startswith('-') and not x.startswith('---')]
            for x in gone:
                if x not in base and len({g for g, _, _ in edits}) == 1:
                    print(name, 'changes a line which is not original:', x)
    finally:
        shutil.rmtree(w)
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    open(os.path.join(d, 'demo.py'), 'w').write(demo.lstrip('\n'))
    open(os.path.join(d, 'demo.sh'), 'w').write(
        '#!/bin/bash\nset -e\nexport PYTHONDONTWRITEBYTECODE=1\nPYTHONPATH=src /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
