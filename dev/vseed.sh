#!/bin/bash
# vseed.sh ID... : confirm each seed in a scratch copy (build, tests, demo both ways) and run check against it
for id in "$@"; do
  d=/verif/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  W=/tmp/vs-$id; rm -rf "$W"; git clone -q /repo "$W"; mkdir -p "$W/_build/bcl"; cp /repo/_build/bcl/bcl-config.h "$W/_build/bcl/"
  (cd "$W" && bash $d/demo.sh >/tmp/vs.out 2>&1); a=$?
  (cd "$W" && git apply $d/patch.diff) || echo "APPLY FAIL $id"
  (cd "$W" && bash $d/demo.sh >/tmp/vs.out2 2>&1); b=$?
  c=$(VF_REPO=$W python3 /verif/check.py $prop --quick 2>&1 | tail -1)
  echo "$id clean=$a patched=$b :: $c"
  rm -rf "$W"
done
