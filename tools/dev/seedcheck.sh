#!/bin/bash
# seedcheck.sh ID...: runs the property's check against each planted bug in a scratch copy (development aid)
for id in "$@"; do
  s=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  d=$(mktemp -d /tmp/sc-XXXXXX); cp -a /repo/. "$d"; git -C "$d" apply "$s/patch.diff" || echo "$id DOES NOT APPLY"
  for q in $p $ALSO; do out=$(VERIF_REPO=$d /verif/check $q --tier quick 2>&1); echo "$id $q exit $? $(echo "$out" | grep -m1 '^unit ' | cut -c1-180)"; done
  rm -rf "$d"
done
