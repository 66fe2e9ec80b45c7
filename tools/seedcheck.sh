#!/bin/bash
# seedcheck.sh [ID...]: apply each planted bug to a scratch copy of /repo and run its property's check on it
cd /verif; ids=${@:-$(ls seeded)}
for n in $ids; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$n/meta.json'))['property'])")
  rm -rf /tmp/sc; cp -a /repo /tmp/sc; mkdir -p /tmp/scv
  git -C /tmp/sc apply /verif/seeded/$n/patch.diff || echo NOAPPLY
  VERIF_REPO=/tmp/sc VERIF_DIR=/tmp/scv timeout 600 bin/checker $p >/tmp/scv/o; rc=$?
  echo "$n $p rc=$rc $(grep -m1 -v '^VIOL' /tmp/scv/o | cut -c1-170)"
done
rm -rf /tmp/sc /tmp/scv
