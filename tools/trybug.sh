#!/bin/bash
# trybug.sh ID [--notest]: verifies seeded/ID on /repo (applied, then reverted).
id=$1; d=/verif/seeded/$id
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 2; }
pid=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
bash $d/demo.sh >/tmp/demo0.log 2>&1; a=$?
git apply $d/patch.diff || { echo "$id: patch does not apply"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
bash $d/demo.sh >/tmp/demo1.log 2>&1; b=$?
t="(skipped)"
if [ "$2" != "--notest" ]; then t=$(/tmp/rt.sh | head -1); fi
(cd /verif && VERIF_EVIDENCE=/tmp/ev bash checks/run.sh $pid quick) >/tmp/chk.log 2>&1; c=$?
v=$(grep -c "VIOLATION property=$pid" /tmp/chk.log)
echo "$id ($pid): demo clean=$a patched=$b | tests: $t | check exit=$c violations=$v"
grep -m1 "^\[$pid\] section" /tmp/chk.log | cut -c1-200
