#!/bin/bash
# try.sh ID...: demo on the clean tree, then patch, build, stable tests, demo, quick check, undo
cd /repo
[ -z "$(git status --porcelain)" ] || { echo "/repo not clean"; exit 1; }
for id in "$@"; do
    s=/verif/seeded/$id
    p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
    t=$(mktemp -d); cp -r $s/. $t; rm -f $t/patch.diff $t/meta.json
    bash $t/demo.sh >/tmp/demo.clean 2>&1; a=$?
    git apply $s/patch.diff || { echo "$id: patch does not apply"; continue; }
    tests=$(bash /tmp/rt.sh 2>&1 | head -3)
    bash $t/demo.sh >/tmp/demo.bug 2>&1; b=$?
    ( cd /verif && VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 sim/check.py $p --tier quick >/tmp/seed.out 2>&1 ); c=$?
    git checkout -q -- .
    rm -rf "$t"
    echo "$id [$p] demo clean=$a bug=$b ($(tail -1 /tmp/demo.bug)) tests=$tests check=$c $(grep -m1 VIOLATION /tmp/seed.out)"
done
bash /opt/vp/build.sh >/dev/null 2>&1
