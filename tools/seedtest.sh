#!/bin/bash
# seedtest.sh ID [--noclean]: confirms a planted bug (clean demo passes, patched demo fails, build and stable tests pass) and runs the property's check on it.
id="$1"; d="/verif/seeded/$id"; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo; [ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 9; }
L=/tmp/seedtest-$id.log; : > $L
bash "$d/demo.sh" >> $L 2>&1 && a=pass || a=FAIL
git apply "$d/patch.diff" || { echo "$id: patch does not apply"; exit 9; }
bash /opt/vp/build.sh >> $L 2>&1 && b=pass || b=FAIL
bash /opt/vp/test.sh /tmp/seedtest.json >> $L 2>&1; t=$(python3 -c "
import json;r=json.load(open('/tmp/seedtest.json'));print('pass' if not r.get('failed') else 'FAIL')" 2>&1)
bash "$d/demo.sh" >> $L 2>&1 && c=PASS-BAD || c=fails
(cd /verif; VERIF_SEED=1 bash check.sh "$prop" > /tmp/seedcheck-$id.log 2>&1); rc=$?
git -C /repo checkout -- .
v=$(grep -c "^VIOLATION property=$prop" /tmp/seedcheck-$id.log)
echo "$id prop=$prop demo-clean=$a build=$b tests=$t demo-patched=$c check-rc=$rc violations=$v"
