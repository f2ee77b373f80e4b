#!/bin/bash
# trybug.sh ID...: demo without/with the patch, tests, and the property check.
V=$(cd "$(dirname "$0")/.." && pwd)
cd /repo || exit 1
for id in "$@"; do
  d=$V/seeded/$id
  pid=$(python3 -c "import json,sys;print(json.load(open('$d/meta.json'))['property'])")
  bash $d/demo.sh >/tmp/demo0.txt 2>&1; a=$?
  git apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  bash $d/demo.sh >/tmp/demo1.txt 2>&1; b=$?
  t='-'
  if [ -z "$NOTEST" ]; then
    bash /opt/vp/build.sh >/tmp/b.txt 2>&1; bb=$?
    bash /opt/vp/test.sh /tmp/t.json >/tmp/t.txt 2>&1; t="build=$bb tests=$?"
  fi
  (cd $V; python3 check.py $pid >/tmp/c_$id.txt 2>&1); c=$?
  git checkout -q -- .
  echo "$id [$pid] demo: $a -> $b  $t  check=$c $(grep -c '^  ' /tmp/c_$id.txt)"
done
