#!/bin/bash
# try.sh ID...: builds /tmp/wt without and with each patch and runs its demo
cd /tmp/wt || exit 1
b() { (cd _build && make -j8 all >/tmp/seed/build.log 2>&1); }
git checkout -q -- .; b || echo "base build failed"
for i; do sh /verif/seeded/$i/demo.sh >/tmp/seed/$i.base 2>&1; echo "$i base rc=$?"; done
for i; do
  git apply /verif/seeded/$i/patch.diff || { echo "$i no apply"; continue; }
  if b; then timeout 300 sh /verif/seeded/$i/demo.sh >/tmp/seed/$i.out 2>&1; echo "$i patched rc=$? $(tail -1 /tmp/seed/$i.out | cut -c1-150)"; else echo "$i build failed"; tail -5 /tmp/seed/build.log; fi
  git checkout -q -- .
done
