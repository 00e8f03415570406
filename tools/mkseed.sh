#!/bin/bash
# mkseed.sh ID PROP "needs" "breaks": patch = current diff of the scratch copy; main.rs from stdin
ID=$1; D=/verif/seeded/$ID; mkdir -p $D
git -C /tmp/scratch/repo diff > $D/patch.diff; git -C /tmp/scratch/repo checkout -q -- .
cat > $D/main.rs; cp /verif/tools/demo_template.sh $D/demo.sh
python3 - "$2" "$3" "$4" > $D/meta.json <<'P'
import sys,json
print(json.dumps({"property":sys.argv[1],"needs":sys.argv[2],"what_it_breaks":sys.argv[3]},indent=1))
P
/verif/tools/bug.sh $ID
