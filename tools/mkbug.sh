#!/bin/bash
# mkbug.sh ID PROP NEEDS BREAKS EDITSCRIPT.py : edit a scratch clone with the script (cwd = clone), keep the diff
W=$(mktemp -d /tmp/mkbug.XXXXXX); trap 'rm -rf "$W"' EXIT
git clone -q /repo "$W/r"; cd "$W/r" || exit 2
python3 "$5" || exit 2
mkdir -p /verif/seeded/$1
git diff > /verif/seeded/$1/patch.diff
python3 -c "
import json,sys
json.dump(dict(property=sys.argv[2],needs=sys.argv[3],what_it_breaks=sys.argv[4]),open('/verif/seeded/'+sys.argv[1]+'/meta.json','w'),indent=1)" "$1" "$2" "$3" "$4"
wc -l /verif/seeded/$1/patch.diff
