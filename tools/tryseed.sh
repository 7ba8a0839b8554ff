#!/bin/bash
# tryseed.sh ID..: confirm each planted bug (demo 0 before; applies, builds, 277 pass, demo non-zero with it) and list the checks that catch it
cd /repo
[ -z "$(git status --porcelain)" ] || { echo "/repo not clean"; exit 1; }
bash /opt/vp/build.sh >/tmp/ts.build 2>&1
for i in "$@"; do bash /verif/seeded/$i/demo.sh >/tmp/ts.$i.base 2>&1; echo "$i base demo: $?"; done
for i in "$@"; do
  git apply /verif/seeded/$i/patch.diff || { echo "$i: does not apply"; continue; }
  bash /opt/vp/build.sh >/tmp/ts.build 2>&1 || { echo "$i: DOES NOT BUILD"; tail -5 /tmp/ts.build; git checkout -q -- .; continue; }
  t=$(bash /opt/vp/test.sh /tmp/ts.json 2>&1 | tail -1)
  bash /verif/seeded/$i/demo.sh >/tmp/ts.$i.bug 2>&1; r=$?
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$i/meta.json'))['property'])")
  (cd /verif && ./check $p >/tmp/ts.$i.check 2>&1); c=$?
  echo "$i [$p] demo=$r check=$c tests: $t"
  git checkout -q -- .
done
bash /opt/vp/build.sh >/tmp/ts.build 2>&1
