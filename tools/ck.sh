#!/bin/bash
cd /verif
for c in "$@"; do VERIF_SEED=${SEED:-1} VERIF_TIER=${TIER:-quick} python3 run.py check $c; echo rc $?; python3 -c "
import json;d=json.load(open('evidence/$c.json'));d=d['coverage'];print(d['evaluations_per_configuration'],d['unobserved_parts'],len(d['observed']), d['notes'],d['overlay_files_left_out']);
if '$V': print(d['observed'])"; done
