#!/bin/bash
# checkseed.sh id [...]: run the property's check on a scratch copy of /repo with the planted bug (development aid)
for id in "$@"; do
  w=$(mktemp -d /tmp/cs.XXXXXX); git clone -q /repo $w/repo; git -C $w/repo apply /verif/seeded/$id/patch.diff || echo "no apply"
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  DV_REPO=$w/repo timeout 900 python3-vt /verif/check.py $p > /tmp/cs.$id.log 2>&1; rc=$?
  echo "$id $p exit=$rc $(grep -c '^FAILED contract' /tmp/cs.$id.log) failed contracts; $(grep -h '^VIOLATION\|^OK' /tmp/cs.$id.log | cut -c1-160)"
  grep -A1 'FAILING INPUT' /tmp/cs.$id.log | cut -c1-300
  rm -rf "$w"
done
