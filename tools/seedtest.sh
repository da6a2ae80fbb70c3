#!/bin/bash
# usage: seedtest.sh ID [notests]   confirm one planted bug: clean demo, patched demo, build, tests, check
D=/verif/seeded/$1; T=/verif/tools/inwt.sh
prop=$(python3 -c "import json,sys;print(json.load(open('$D/meta.json'))['property'])")
env='. /opt/vp/env.sh; cd /repo;'
bash $T $1-c - bash -c "$env bash $D/demo.sh" > /tmp/seed-$1.clean 2>&1; a=$?
bash $T $1-p $D/patch.diff bash -c "$env bash $D/demo.sh" > /tmp/seed-$1.pat 2>&1; b=$?
bash $T $1-k $D/patch.diff bash -c "mkdir -p /tmp/ev-$1; mount --bind /tmp/ev-$1 /verif/evidence; mount --bind /tmp/ev-$1 /verif/replays; cd /verif; VERIF_SEED=1 VERIF_TIER=quick /opt/venv/bin/python mc/check.py $prop --tier quick" > /tmp/seed-$1.check 2>&1; k=$?
t=skipped
if [ "$2" != notests ]; then
 bash $T $1-t $D/patch.diff bash -c "bash /opt/vp/build.sh >/dev/null 2>&1 || echo BUILDFAIL; bash /opt/vp/test.sh /opt/vp/out.json >/dev/null 2>&1; python3 /verif/tools/cmp_tests.py /opt/vp/out.json" > /tmp/seed-$1.tests 2>&1
 t=$(head -1 /tmp/seed-$1.tests)
fi
echo "$1 $prop clean=$a patched=$b check=$k tests: $t | $(grep -m1 VIOLATION /tmp/seed-$1.check)"
