#!/bin/bash
# mk.sh ID PROP "needs" "breaks"  : saves /tmp/p's diff as a planted bug, then resets
d=/verif/seeded/$1; mkdir -p $d; cd /tmp/p
git diff > $d/patch.diff; git checkout -q -- .
[ -s $d/patch.diff ] || echo "EMPTY DIFF"
cp /verif/tools/demo/demo.sh $d/demo.sh
python3 - "$d/meta.json" "$2" "$3" "$4" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1],"w"),indent=1)
P
