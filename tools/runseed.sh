#!/bin/bash
# runseed.sh [ids..]: runs each seed's property check against a patched copy of /repo/src
cd /verif
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  w=$(mktemp -d); git -C /repo archive HEAD src tools | tar x -C $w; (cd $w && patch -s -p1 < /verif/seeded/$d/patch.diff)
  DV_SRC=$w/src python3-vt check.py $p > $w/out 2>&1; r=$?
  echo "$d $p exit=$r $(grep VIOLATION $w/out | head -1) $(grep -c . $w/out)"
  [ $r -ne 1 ] && tail -5 $w/out
  rm -rf "$w"
done
