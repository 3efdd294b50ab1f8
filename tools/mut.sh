#!/bin/bash
# mut.sh "<sed/py expr file>" checks...   patch given as shell snippet run in /tmp/m
rm -rf /tmp/m; cp -a /repo /tmp/m; cd /tmp/m; eval "$1" || exit 9; git diff --stat | tail -1; shift
cd /verif
for c in "$@"; do VERIF_REPO=/tmp/m VERIF_SEED=${SEED:-1} VERIF_TIER=quick python3 run.py check $c 2>/dev/null | head -${L:-6} | cut -c1-300; done
