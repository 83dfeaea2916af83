#!/bin/bash
# seed.sh ID...: try planted changes against the checks (applies to /repo, undoes).
cd "$(dirname "$0")/.." || exit 2
for id in "$@"; do
  d=$PWD/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  bash /opt/vp/build.sh || exit 2
  (cd /repo && timeout 300 bash $d/demo.sh >/tmp/demo0.log 2>&1); a=$?
  if ! git -C /repo apply --check $d/patch.diff; then echo "$id: patch does not apply"; continue; fi
  git -C /repo apply $d/patch.diff
  b=x; t=x; c=x
  if bash /opt/vp/build.sh; then
    if [ -z "$NOTEST" ]; then
    bash /opt/vp/test.sh /tmp/seedt.json >/dev/null 2>&1
    t=$(python3 -c "
import json;d=json.load(open('/tmp/seedt.json'));b=json.load(open('/opt/vp/BASELINE.json'))
print(len([x for x in b['stable'] if x not in d['passed']]))")
    fi
    (cd /repo && timeout 300 bash $d/demo.sh >/tmp/demo1.log 2>&1); b=$?
    if [ -n "$CHECK" ]; then
      timeout 900 bash check.sh $prop quick >/tmp/seedc.log 2>&1; c=$?
      cp /tmp/seedc.log /tmp/seedc.$id.log
    fi
  else t=BUILD; fi
  git -C /repo checkout -- .
  echo "$id prop=$prop demo_clean=$a demo_patched=$b tests_lost=$t check=$c $(grep -c VIOLATION /tmp/seedc.log 2>/dev/null) $(tail -1 /tmp/seedc.log 2>/dev/null | cut -c1-150)"
done
