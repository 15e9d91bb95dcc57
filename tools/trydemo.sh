#!/bin/bash
# trydemo.sh ID...: demo on the unchanged tree, then with the patch, then the check of its property with the patch (VF_ONLY honoured).
for id in "$@"; do
  d=/verif/seeded/$id
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  t=$(mktemp -d); cp -r $d/* $t/; rm -f $t/*.diff $t/meta.json
  (cd /repo; bash $t/demo.sh >$t/o1 2>&1); a=$?
  git -C /repo apply $d/patch.diff || continue
  (cd /repo; bash $t/demo.sh >$t/o2 2>&1); b=$?
  (cd /verif; [ -n "$NOCHECK" ] || timeout 900 python3-vt -m vf.check $p quick >$t/o3 2>&1); c=$?
  git -C /repo checkout -q -- .
  echo "$id: clean demo $a, patched demo $b, check $c $(grep -c VIOLATION $t/o3 2>/dev/null)"
  [ $a = 0 ] || tail -5 $t/o1
  [ $b != 0 ] || tail -5 $t/o2
  grep -h "VIOLATION" $t/o3 2>/dev/null | head -3
  [ $c = 1 ] || grep -v proved $t/o3 2>/dev/null | head
done
