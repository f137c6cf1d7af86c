#!/bin/bash
# mkseed.sh <id> <property> <needs> <what>: take the diff of /tmp/seedwork/repo as the patch
d=/verif/seeded/$1; mkdir -p $d
git -C /tmp/seedwork/repo diff > $d/patch.diff
python3 - "$2" "$3" "$4" > $d/meta.json <<'P'
import json,sys
print(json.dumps({"property":sys.argv[1],"needs":sys.argv[2],"what_it_breaks":sys.argv[3]},indent=1))
P
git -C /tmp/seedwork/repo checkout -q -- .
