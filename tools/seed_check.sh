#!/bin/bash
# seed_check.sh ID: runs the property's quick check with the planted bug applied.
D=/verif/seeded/$1; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
git -C /repo apply $D/patch.diff || exit 1
cd /verif; python3 run.py check ${2:-$P} --tier quick | cut -c1-300 | tail -8
git -C /repo checkout -q -- .
