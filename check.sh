#!/bin/bash
# check.sh ID: decides one property on /repo's current working tree.
# Exit 0: held on everything explored. 1: VIOLATION line printed. 2: error of the check itself.
cd "$(dirname "$0")" || exit 2
export JE_VERIF=$PWD
python3 tools/build.py "$1" || exit 2
exec build/driver check "$1"
