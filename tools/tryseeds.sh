#!/bin/bash
# tryseeds.sh [ids...]: check each planted bug in a copy
cd /verif/seeded
L=${@:-$(ls)}
for b in $L; do
  [ -f $b/patch.diff ] || continue
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$b/meta.json'))['property'])")
  rm -rf /tmp/sr; cp -a /repo /tmp/sr; (cd /tmp/sr && git apply /verif/seeded/$b/patch.diff) || { echo "$b NOAPPLY"; continue; }
  s=$(date +%s)
  o=$(cd /verif && VERIF_REPO=/tmp/sr timeout 900 ./check ${CHK:-$p} quick 2>&1); rc=$?
  e=$(date +%s)
  echo "$b ${CHK:-$p} rc=$rc $((e-s))s $(echo "$o" | grep -v '^ ' | grep -v '^VIOL' | tail -1 | cut -c1-150)"
done
rm -rf /tmp/sr
