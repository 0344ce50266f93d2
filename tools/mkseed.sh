#!/bin/bash
# mkseed.sh <id>: with the bug applied (uncommitted) in /repo's working tree and
# /verif/seeded/<id>/{demo.sh,meta.json} present: record the patch, confirm that the stable tests
# pass and the demo fails with it, undo it, confirm the demo passes without it.
id=$1; d=/verif/seeded/$id
cd /repo || exit 2
git diff --quiet && { echo "no change in /repo"; exit 2; }
git diff > $d/patch.diff
bash /opt/vp/build.sh --extensions >/tmp/b.log 2>&1 || { echo BUILD FAILED; git checkout -- .; exit 1; }
( timeout 300 bash $d/demo.sh ) >/tmp/demo.out 2>&1; r1=$?
tail -3 /tmp/demo.out
if [ "$2" != notest ]; then bash /opt/vp/test.sh /tmp/t.json >/dev/null 2>&1; python3 /verif/tools/stable.py /tmp/t.json; fi
if [ -n "$3" ] || [ "$2" = check ]; then p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])"); (cd /verif; ./check.sh $p | cut -c1-300 | head -8); fi
git checkout -- .
bash /opt/vp/build.sh --extensions >/tmp/b.log 2>&1
( timeout 300 bash $d/demo.sh ) >/tmp/demo.out 2>&1; r0=$?
tail -3 /tmp/demo.out
echo "demo with patch: $r1 (want nonzero), without: $r0 (want 0)"
