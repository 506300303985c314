#!/bin/bash
cd /verif; export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 TZ=UTC LANG=C.UTF-8
for p in "$@"; do echo "== $p"; PYTHONPATH=.:${PV_REPO:-/repo}/src timeout 300 /opt/venv/bin/python -m bounded.run $p ${TIER:-quick} ${SEED:-1} 100 | cut -c1-1200; done
