#!/bin/bash
# trybug.sh ID : applies seeded/ID/patch.diff to /repo, builds, tests, runs the demo and the check of its property, undoes the patch
id=$1; d=/verif/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
git -C /repo diff --quiet || { echo "repo dirty"; exit 2; }
git -C /repo apply $d/patch.diff || exit 2
trap 'git -C /repo checkout -- .' EXIT
bash /opt/vp/build.sh > /tmp/tb.$id.build 2>&1 || { echo "$id BUILD FAILED"; tail -5 /tmp/tb.$id.build; exit 2; }
bash /opt/vp/test.sh /tmp/tb.$id.json 2>&1 | tail -1
bash $d/demo.sh > /tmp/tb.$id.demo 2>&1; echo "$id demo rc $? (want nonzero): $(tail -1 /tmp/tb.$id.demo)"
for p in ${2:-$prop}; do VERIF_SEED=1 timeout 900 python3 /verif/run.py $p quick > /tmp/tb.$id.check.$p 2>&1; echo "$id check $p rc $? (want 1): $(grep -m1 VIOLATION /tmp/tb.$id.check.$p)"; done
