"""python -m bounded.run PROP TIER SEED WALL [OUT [CHECK]] | python -m bounded.run replay FILE"""
import io
import sys
import json
import shutil
import tempfile
import contextlib

from bounded.lib import run, replay

if __name__ == '__main__':
    if sys.argv[1] == 'replay':
        sys.exit(replay(sys.argv[2]))
    base = tempfile.mkdtemp(prefix='pvb-run')
    tempfile.tempdir = base
    out = sys.argv[5] if len(sys.argv) > 5 else None
    try:
        stdout, buf = sys.stdout, io.StringIO()
        with contextlib.redirect_stdout(buf):
            rep = run(sys.argv[1], sys.argv[2], int(sys.argv[3]), float(sys.argv[4]),
                      sys.argv[6] if len(sys.argv) > 6 else None)
    finally:
        shutil.rmtree(base, ignore_errors=True)
    if out and out != '-':
        json.dump(rep, open(out, 'w'))
    else:
        for c in rep['checks']:
            print(c)
        for v in rep['violations']:
            print('BAD', v['check'], v['input'][:600], '->', v['message'])
