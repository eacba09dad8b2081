#!/bin/bash
# confirm planted changes in the scratch copy: seedtest.sh ID...
[ -d /tmp/sc/repo ] || bash /verif/tools/seedprep.sh
R=/tmp/sc/repo
for id in "$@"; do
  S=/verif/seeded/$id
  git -C $R checkout -q -- .; git -C $R fetch -q /repo HEAD && git -C $R reset -q --hard FETCH_HEAD
  (cd $R && bash $S/demo.sh) > /tmp/sc/demo0.log 2>&1; a=$?
  git -C $R apply $S/patch.diff || { echo "$id: patch does not apply"; continue; }
  (cd $R && bash $S/demo.sh) > /tmp/sc/demo1.log 2>&1; b=$?
  bash /tmp/sc/build.sh > /tmp/sc/build.log 2>&1; c=$?
  bash /tmp/sc/test.sh /tmp/sc/t.json > /tmp/sc/tst.log 2>&1
  m=$(python3 -c "
import json
b=set(json.load(open('/tmp/sc/BASELINE.json'))['stable']); p=set(json.load(open('/tmp/sc/t.json'))['passed'])
print(sorted(b-p)[:5])")
  git -C $R checkout -q -- .
  ok=BAD; [ $a = 0 ] && [ $b != 0 ] && [ $b != 3 ] && [ $c = 0 ] && [ "$m" = "[]" ] && ok=OK
  echo "$id: $ok demo clean=$a patched=$b build=$c failing=$m | $(tail -1 /tmp/sc/demo1.log | cut -c1-160)"
done
