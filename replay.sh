#!/bin/bash
# replay.sh FILE: re-runs one recorded case on /repo's current working tree.
f=$(realpath "$1") || exit 2
cd "$(dirname "$0")" || exit 2
export JE_VERIF=$PWD
id=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$f") || exit 2
python3 tools/build.py "$id" || exit 2
exec build/driver replay "$f"
