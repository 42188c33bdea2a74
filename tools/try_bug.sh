#!/bin/bash
# try_bug.sh SEEDED_DIR_OR_PATCH ID...: applies the patch to /repo, runs the named checks, undoes it. Development only.
p=$1; shift
[ -d "$p" ] && p=$p/patch.diff
git -C /repo apply "$p" || exit 9
for id in "$@"; do
  VERIF_TIER=quick VERIF_SEED=1 /verif/check.sh "$id" >/tmp/try.$id.log 2>&1; rc=$?
  echo "$id rc=$rc $(grep -m1 VIOLATION /tmp/try.$id.log)"; grep -m3 "^dst: .*violat\|class" /tmp/try.$id.log
done
git -C /repo checkout -- .
