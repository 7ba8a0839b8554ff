#!/bin/bash
# run.sh refactor|bugs [ID..]: contract comparison over each recorded edit
K=$1; shift
cd /tmp/wt
BIN=${CS_BIN:-/verif/analyzer/target/release/cairom-static}
for p in ${@:-$(ls /verif/selftest/$K | sed 's/.patch//')}; do
  git checkout -q -- . ; git apply /verif/selftest/$K/$p.patch || { echo "$p DOES NOT APPLY"; continue; }
  $BIN diff /verif/reference /tmp/wt > /tmp/st.out 2>&1
  [ "$RULES" = 0 ] || $BIN rules /tmp/wt 2>/dev/null | grep '^ *\[' | grep -v 'query cycle definition_semantic_type\|type name denotes a value\|literal range only checked' | sed 's/^ */! rule /' >> /tmp/st.out
  n=$(grep -c '^!' /tmp/st.out); q=$(grep -c '^?' /tmp/st.out)
  echo "$p violations=$n inconclusive=$q $(grep -E '^[!?]' /tmp/st.out | head -${LINES_:-2} | cut -c1-260)"
  git checkout -q -- .
done
