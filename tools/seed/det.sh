#!/bin/bash
# det.sh ID...: runs the property's check against the patched scratch tree
for i; do
  cd /tmp/wt; git checkout -q -- .; git apply /verif/seeded/$i/patch.diff || continue
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$i/meta.json'))['property'])")
  cd /verif; t=$(date +%s)
  VP_REPO=/tmp/wt timeout 900 ./check $p > /tmp/seed/$i.det 2>&1; echo "$i $p rc=$? $(( $(date +%s)-t ))s $(grep -m1 -A1 VIOLATION /tmp/seed/$i.det | tr '\n' ' ' | cut -c1-200)"
  cd /tmp/wt; git checkout -q -- .
done
