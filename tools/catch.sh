#!/bin/bash
# catch.sh ID... -- run the property's quick check against each planted bug in a scratch copy of /repo (development aid)
work=/tmp/catch.$$; mkdir -p $work
cp -a /repo $work/repo
for id in "$@"; do
  git -C $work/repo checkout -q -- .
  git -C $work/repo apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
  prop=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  s=$(date +%s)
  out=$(PLUSENDI_REPO=$work/repo PLUSENDI_BUILD=${PLUSENDI_BUILD:-/tmp/catch_build} VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 /verif/check.py $prop 2>&1); rc=$?
  echo "$id: rc=$rc $(($(date +%s)-s))s $(echo "$out" | grep '^VIOLATION' | cut -c1-140)"
done
rm -rf /tmp/catch.$$
