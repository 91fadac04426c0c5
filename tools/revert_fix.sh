#!/bin/bash
# revert_fix.sh COMMIT ID... : undo one fix commit in /repo's working tree, run the checks, restore the tree
c=$1; shift
p=$(mktemp); git -C /repo diff $c $c^ > $p && git -C /repo apply $p || exit 1
for i in "$@"; do echo "--- without $c: $i"; (cd /verif && timeout 900 ./check.sh $i 2>&1 | grep -E "VIOLATION|ERROR|^  [a-z_]+:" | cut -c1-250); done
git -C /repo checkout -q -- . ; git -C /repo status --short
