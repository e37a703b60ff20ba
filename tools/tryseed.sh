#!/bin/bash
# tryseed.sh ID...: confirm planted bugs on a repository and run their checks
V="$(cd "$(dirname "$0")/.." && pwd)"
R="${VERIF_REPO:-/repo}"
for id in "$@"; do
  d=$V/seeded/$id
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  cd "$R" || exit 1
  [ -z "$(git status --porcelain)" ] || { echo "repo not clean"; exit 1; }
  bash $d/demo.sh > /tmp/demo0.log 2>&1; a=$?
  git apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  b=- t=-
  if [ "$R" = /repo ]; then
    bash /opt/vp/build.sh > /tmp/seed-build.log 2>&1; b=$?
    bash /opt/vp/test.sh /tmp/seed-test.json > /dev/null 2>&1
    t=$(python3 -c "import json;d=json.load(open('/tmp/seed-test.json'));print(len(d['passed']),len(d['failed']))")
  fi
  bash $d/demo.sh > /tmp/demo1.log 2>&1; c=$?
  out=$(cd $V && python3 check.py $p 2>&1); r=$?
  git checkout -q -- .
  echo "$id [$p]: demo clean $a, build $b, tests $t, demo patched $c, check exit $r: $(echo "$out" | head -1 | cut -c1-150)"
done
[ "$R" = /repo ] && bash /opt/vp/build.sh > /dev/null 2>&1
true
