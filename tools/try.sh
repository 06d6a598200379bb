#!/bin/bash
# try.sh ID... : runs the check of each seeded bug's property against /repo with the bug applied
cd /verif
for id in "$@"; do
 p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
 git -C /repo apply /verif/seeded/$id/patch.diff && { echo "== $id ($p)"; python3 check.py $p quick | cut -c1-300 | tail -${LINES_:-6}; }
 git -C /repo checkout -q -- .
done
