#!/bin/bash
# p.sh PROP [max lines]: runs the proofs of PROP, short output
cd /verif; export PYTHONDONTWRITEBYTECODE=1
timeout ${T:-900} /opt/venv/bin/python -m pv.runproofs $1 > /tmp/p.$1 2>&1
grep -v '^ok\|^OK' /tmp/p.$1 | cut -c1-${W:-330} | head -${2:-12}
