#!/bin/bash
# try.sh ID CHECK...: run checks in /repo with the seeded bug applied, then undo
ID=$1; shift
git -C /repo apply /verif/seeded/$ID/patch.diff || exit 2
for c in "$@"; do (cd /verif && timeout 900 python3 sa/check.py $c 2>&1 | cut -c1-300 | tail -${N:-8}); done
git -C /repo checkout -q -- .
