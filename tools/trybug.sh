#!/bin/bash
# trybug.sh <seeded id>: apply to /repo, run this bug's check (and its demo with a fresh build), undo.
id=$1; d=/verif/seeded/$id; shift
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
git -C /repo apply "$d/patch.diff" || exit 9
trap 'git -C /repo checkout -- .' EXIT
if [ "${DEMO:-1}" = 1 ]; then bash /opt/vp/build.sh >/tmp/bugbuild.log 2>&1 || echo "BUILD FAILED"; (cd /repo && bash "$d/demo.sh" >/tmp/demo.log 2>&1); echo "$id demo rc=$?"; fi
(cd /verif && bash check.sh ${PROP:-$prop} quick > /tmp/bug-$id.log 2>&1); echo "$id check ${PROP:-$prop} rc=$? $(grep -c ^VIOLATION /tmp/bug-$id.log)"; grep "^violation class" -A3 /tmp/bug-$id.log | cut -c1-400; tail -1 /tmp/bug-$id.log | cut -c1-200
