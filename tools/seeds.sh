#!/bin/bash
# seeds.sh [ID...]: run the check of each planted bug against a scratch tree with it.
for id in ${@:-$(ls /verif/seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  grep -q "\"$p\":" /verif/checks.py || { echo "$id: $p has no check"; continue; }
  TRY_DIR=${TRY_DIR:-/tmp/try} /verif/tools/try.sh /verif/seeded/$id/patch.diff $p
done
