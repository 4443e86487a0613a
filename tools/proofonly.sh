#!/bin/bash
# proofonly.sh ID... -- what the proof alone says about planted bugs (development aid)
work=/tmp/po.$$; mkdir -p $work; cp -a /repo $work/repo
for id in "$@"; do
  git -C $work/repo checkout -q -- .
  git -C $work/repo apply /verif/seeded/$id/patch.diff || continue
  prop=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  out=$(PLUSENDI_PROOF_ONLY=1 PLUSENDI_REPO=$work/repo PLUSENDI_BUILD=${PLUSENDI_BUILD:-/tmp/po_build} timeout 900 python3 /verif/check.py $prop 2>&1)
  echo "$id: $(echo "$out" | grep -E '^VIOLATION|proof unit' | cut -c1-260 | tr '\n' '|')"
done
rm -rf /tmp/po.$$
