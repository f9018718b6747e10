#!/bin/bash
# trybug.sh ID [nochk] : applies a planted bug to /repo, builds, runs the stable tests, the demo and the check, and undoes it
ID=$1; D=/verif/seeded/$ID; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
cd /repo && [ -z "$(git status --short)" ] || { echo "repo not clean"; exit 1; }
git apply $D/patch.diff || exit 1
bash /opt/vp/test.sh /tmp/tb_out.json > /tmp/tb_build.log 2>&1
M=$(python3 - <<'X'
import json
o=json.load(open('/tmp/tb_out.json')); b=json.load(open('/opt/vp/BASELINE.json'))
m=set(b['stable'])-set(o['passed']); print(len(m), sorted(m)[:3])
X
)
bash $D/demo.sh > /tmp/tb_demo.log 2>&1; DEMO=$?
CHK=skipped; [ "$2" = nochk ] || { python3 /verif/check.py $P > /tmp/tb_chk.log 2>&1; CHK="$? $(grep -m1 ^note: /tmp/tb_chk.log | cut -c1-200)"; }
git checkout -q -- .
echo "$ID | $P | stable missing: $M | demo: $DEMO | check: $CHK"
