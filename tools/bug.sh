#!/bin/bash
# bug.sh ID: confirm seeded/ID in the scratch copy: applies, builds, stable tests pass, demo 0 without / nonzero with
ID=$1; S=/verif/seeded/$ID; R=${R:-/tmp/scratch/repo}
cd $R && git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD && git clean -fdq -e target
M=/tmp/scratch/demo_$ID; mkdir -p $M; cp -a $S/. $M/; rm -f $M/patch.diff $M/meta.json
echo "== clean demo"; bash $M/demo.sh > /tmp/scratch/$ID.clean 2>&1; c=$?; tail -3 /tmp/scratch/$ID.clean; echo "rc=$c"
git apply $S/patch.diff || { echo "PATCH FAILS"; exit 1; }
echo "== tests"; cargo test --workspace --all-features --no-fail-fast --offline 2>&1 | grep -E "FAILED|^error|panicked|failed;" | grep -v " 0 failed" | sort | uniq -c | cut -c1-200 | head -20
echo "== bug demo"; bash $M/demo.sh > /tmp/scratch/$ID.bug 2>&1; b=$?; tail -3 /tmp/scratch/$ID.bug | cut -c1-300; echo "rc=$b"
git checkout -q -- .
rm -rf /tmp/scratch/demo_$ID
[ $c = 0 ] && [ $b != 0 ] && echo "DEMO-OK $ID" || echo "DEMO-BAD $ID"
