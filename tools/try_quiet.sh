#!/bin/bash
# try_quiet.sh PATCH [Cxx...]: apply a behaviour-preserving patch to /repo, run the checks, undo; all must be quiet.
cd /verif || exit 1
p=$1; shift
[ $# -gt 0 ] || set -- $(seq -f C%02.0f 1 22)
git -C /repo apply "$p" || exit 1
for c; do
  s=$(date +%s); timeout 900 ./check.sh $c quick >/tmp/quiet_$c.txt 2>&1; rc=$?
  echo "$(basename $p) $c rc=$rc $(( $(date +%s)-s ))s $([ $rc = 0 ] && grep -o 'complete=[a-z]*' /tmp/quiet_$c.txt || echo ALARM)"
done
git -C /repo checkout -q -- . ; git -C /repo clean -fdq
git -C /repo status --short
