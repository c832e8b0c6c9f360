#!/bin/bash
# seed_new.sh ID PROPERTY "needs" "what" : takes the uncommitted diff of /repo as the patch and restores the tree
set -e
d=/verif/seeded/$1; mkdir -p $d
git -C /repo diff > $d/patch.diff
test -s $d/patch.diff
git -C /repo checkout -q -- .
python3 - "$d" "$2" "$3" "$4" <<'P'
import sys,json
json.dump(dict(property=sys.argv[2],needs=sys.argv[3],what_it_breaks=sys.argv[4]),open(sys.argv[1]+'/meta.json','w'),indent=1)
P
chmod +x $d/demo.sh 2>/dev/null || true
