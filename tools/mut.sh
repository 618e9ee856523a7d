#!/bin/bash
# mut.sh PATCH ID...: run checks with PATCH applied to /repo's working tree, then undo it.
p=$(realpath "$1"); shift
git -C /repo diff --quiet || { echo "/repo not clean"; exit 2; }
git -C /repo apply "$p" || exit 2
for i in "$@"; do
  timeout 900 python3 run.py $i quick > /tmp/mut.$i.out 2>&1; rc=$?
  echo "$(basename $(dirname $p)) $i rc=$rc $(grep -m1 'property C' /tmp/mut.$i.out | cut -c1-200)"
done
git -C /repo checkout -- .
