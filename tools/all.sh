#!/bin/bash
# all.sh: runs all proofs in parallel, one line each
cd /verif; ls proofs | grep -o 'C[0-9]*' | sort | xargs -P 4 -I{} sh -c 'tools/p.sh {} 3 | sed "s/^/{} /" | cut -c1-200'
