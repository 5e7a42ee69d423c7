#!/bin/bash
# confirm.sh ID...: confirms planted bugs (demo, build, stable tests) in the clone $SEED_REPO
R=${SEED_REPO:-/tmp/w/wt}
for id in "$@"; do
  d=/verif/seeded/$id
  cd $R && git checkout -q -- .
  bash $d/demo.sh >/tmp/w/demo0.log 2>&1; a=$?
  git apply $d/patch.diff || { echo "$id: does not apply"; continue; }
  for s in build test; do sed "s|/repo/|$R/|g; s|/opt/vp/logs|/tmp/w/vplogs|g" /opt/vp/$s.sh > /tmp/w/vp-$s.sh; done
  bash /tmp/w/vp-build.sh >/tmp/w/build.log 2>&1 || echo "$id: BUILD FAILS"
  bash /tmp/w/vp-test.sh /tmp/w/test.json >/tmp/w/test.log 2>&1
  t=$(python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; r=json.load(open('/tmp/w/test.json'))
p=r.get('passed') or r.get('pass') or []
print([x for x in b if x not in p])
P
)
  bash $d/demo.sh >/tmp/w/demo1.log 2>&1; c=$?
  echo "$id: demo clean=$a patched=$c stable tests failing=$t"
  git checkout -q -- .
done
