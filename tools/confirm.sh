#!/bin/bash
# confirm planted bugs: demo passes clean, tests pass patched, demo fails patched; then runs the property's check (NOCHECK=1 skips)
cd /verif
base=$(python3 -c "import json;print(len(json.load(open('/opt/vp/BASELINE.json'))['stable']))")
for id in "${@:-$(ls seeded)}"; do for i in $id; do
  d=/verif/seeded/$i; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo checkout -q -- .
  [ -z "$NODEMO" ] && { (cd /repo && bash $d/demo.sh >/tmp/demo.out 2>&1); a=$?; }
  git -C /repo apply $d/patch.diff || { echo "$i: does not apply"; continue; }
  [ -z "$NODEMO" ] && { bash /opt/vp/test.sh /tmp/t.json >/tmp/t.log 2>&1; n=$(python3 -c "import json;print(len(set(json.load(open('/tmp/t.json'))['passed'])&set(json.load(open('/opt/vp/BASELINE.json'))['stable'])))")
  (cd /repo && bash $d/demo.sh >/tmp/demo.out 2>&1); b=$?; }
  if [ -z "$NOCHECK" ]; then timeout 900 python3 check.py $p quick >/tmp/chk.out 2>&1; c=$?; v=$(grep -c '^VIOLATION' /tmp/chk.out); w=$(grep -m1 -B0 'native:' /tmp/chk.out|cut -c1-200); t=$(grep -o '[0-9]* s$' /tmp/chk.out|head -1); fi
  git -C /repo checkout -q -- .
  echo "$i [$p] demo clean=$a patched=$b tests=$n/$base check=$c viol=$v $t :: $w"
done; done
git -C /repo checkout -q -- .
