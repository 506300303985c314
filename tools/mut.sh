#!/bin/bash
# mut.sh PROP FILE OLD NEW [bounded]: runs the proofs (or the bounded checks) of PROP on a scratch copy with a replacement
R=$(mktemp -d); cp -a /repo $R/repo
python3 - "$R/repo/src/csvw/$2" "$3" "$4" <<'P'
import sys
p,o,n=sys.argv[1:]; s=open(p).read(); assert s.count(o)>=1, 'not found'; open(p,'w').write(s.replace(o,n,1))
P
cd /verif; export PYTHONDONTWRITEBYTECODE=1 PV_REPO=$R/repo
if [ -n "$5" ]; then PYTHONHASHSEED=0 PYTHONPATH=/verif:$R/repo/src /opt/venv/bin/python -m bounded.run $1 quick 1 60 | cut -c1-500; else /opt/venv/bin/python -m pv.runproofs $1 | cut -c1-400; fi
rm -rf "$R"
