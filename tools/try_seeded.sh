#!/bin/bash
# try_seeded.sh [id...]: apply each planted change to /repo, run its property's quick check, undo.
cd /verif || exit 1
[ $# -gt 0 ] || set -- $(ls seeded)
for id; do
  p=$(sed -n 's/.*"property": "\(C[0-9]*\)".*/\1/p' seeded/$id/meta.json)
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id does not apply"; continue; }
  s=$(date +%s); timeout 900 ./check.sh $p quick >/tmp/try_$id.txt 2>&1; rc=$?
  git -C /repo checkout -q -- .
  n=$(grep -c "^VIOLATION property=$p " /tmp/try_$id.txt)
  echo "$id $p rc=$rc violations=$n $(( $(date +%s)-s ))s $([ $rc = 1 ] && [ $n -gt 0 ] && echo CAUGHT || echo MISSED)"
done
