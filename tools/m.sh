#!/bin/bash
# m.sh PROP FILE OLD NEW: one line per mutation: is it refuted?
cd /verif; echo "## $4" | head -2 | cut -c1-90; tools/mut.sh "$1" "$2" "$3" "$4" 2>/dev/null | grep -v '^ok' | cut -c1-${W:-170} | head -${N:-2}
