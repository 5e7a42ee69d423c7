#!/bin/bash
# try.sh ID...: confirms a planted bug (demo, build, tests) in /repo and runs its property's check
for id in "$@"; do
  d=/verif/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  cd /repo && git checkout -q -- .
  if [ -z "$NOCONFIRM" ]; then
    bash $d/demo.sh >/tmp/w/demo0.log 2>&1; a=$?
    git apply $d/patch.diff || { echo "$id: does not apply"; continue; }
    bash /opt/vp/build.sh >/tmp/w/build.log 2>&1 || echo "$id: BUILD FAILS"
    bash /opt/vp/test.sh /tmp/w/test.json >/tmp/w/test.log 2>&1
    t=$(python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; r=json.load(open('/tmp/w/test.json'))
p=r.get('passed') or r.get('pass') or []
print(len([x for x in b if x not in p]))
P
)
    bash $d/demo.sh >/tmp/w/demo1.log 2>&1; c=$?
    echo "$id: demo clean=$a patched=$c stable tests failing=$t"
  else
    git apply $d/patch.diff
  fi
  cd /verif && bin/check $prop > /tmp/w/check-$id.log 2>&1; e=$?
  echo "$id ($prop): check exit $e: $(grep -E '^VIOLATION' /tmp/w/check-$id.log)"; grep -E "FAILED|failing input|bounded|given up" /tmp/w/check-$id.log | grep -v "trusted contract" | cut -c1-300
  cd /repo && git checkout -q -- .
done
