#!/bin/bash
# catch.sh ID...: runs the check of each planted bug's property against a scratch
# copy of /repo with the bug, from a scratch copy of /verif.
set -u
for id in "$@"; do
  d=/verif/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  w=$(mktemp -d /tmp/catch.XXXXXX)
  git clone -q /repo $w/repo; git -C $w/repo apply $d/patch.diff || { echo "$id APPLY FAILED"; rm -rf "$w"; continue; }
  mkdir $w/verif; cp -a /verif/check.sh /verif/harness /verif/tools /verif/KNOWN_FINDINGS.txt $w/verif/; mkdir $w/verif/evidence
  sed -i "s#/repo#$w/repo#g" $w/verif/check.sh $w/verif/tools/overlay.sh $w/verif/harness/go.mod
  for p in ${PROPS:-$prop}; do
    s=$(date +%s); (cd $w/verif; timeout 900 ./check.sh $p > $w/out 2>&1); rc=$?
    if [ $rc = 1 ] && grep -q "^VIOLATION property=$p " $w/out; then v=CAUGHT; else v="MISSED(rc=$rc)"; fi
    echo "$id $p $v $(( $(date +%s)-s ))s $(grep -m1 -A3 VIOLATION $w/out | tr '\n' ' ' | cut -c1-${WIDTH:-200})"
    [ -n "${SHOW:-}" ] && tail -40 $w/out
  done
  rm -rf "$w"
done
