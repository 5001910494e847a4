#!/bin/bash
# tools/seedtest.sh SEED_ID [PROP...]   (development aid, not used by any check)
# In a scratch copy of /repo bound over /repo inside a private mount namespace:
# demo on the clean tree, apply, build, test, demo, then the checks.
id=$1; shift
D=/verif/seeded/$id; [ -d $D ] || D=/verif/seeded_scm/$id
[ -f $D/patch.diff ] || { echo "no $D"; exit 2; }
W=$(mktemp -d /tmp/seedw.XXXXXX)
cp -a /repo/. $W
P="$*"; [ -n "$P" ] || P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
unshare -m bash -c '
W=$1; D=$2; id=$3; shift 3
mount --bind $W /repo && cd /repo || exit 9
[ -x _build/compact/src/sscm ] || bash /opt/vp/build.sh >/dev/null 2>&1
bash $D/demo.sh >/tmp/$id.demo0 2>&1; d0=$?
git apply --check $D/patch.diff || { echo "$id: DOES NOT APPLY"; exit 1; }
git apply $D/patch.diff
bash /opt/vp/build.sh >/tmp/$id.build 2>&1 || { echo "$id: BUILD FAILED"; tail -5 /tmp/$id.build; exit 1; }
if [ -z "$NOTEST" ]; then
bash /opt/vp/test.sh $W/out.json >/dev/null 2>&1
miss=$(python3 -c "
import json
b=json.load(open(\"/opt/vp/BASELINE.json\"));o=json.load(open(\"$W/out.json\"))
m=sorted(set(b[\"stable\"])-set(o[\"passed\"])); print(len(m), m[:3])")
else miss="0 (not run)"; fi
bash $D/demo.sh >/tmp/$id.demo1 2>&1; d1=$?
echo "$id: demo clean=$d0 patched=$d1 stable tests lost=$miss"
for p in "$@"; do
  t=$(date +%s)
  python3-vt /verif/check.py $p --seed ${SEED:-1} >/tmp/$id.$p.out 2>&1; rc=$?
  echo "$id: check $p rc=$rc $(( $(date +%s)-t ))s $(grep -A1 -- "--- why" /tmp/$id.$p.out | head -2 | cut -c1-200)"
done
' x $W $D $id $P
rm -rf "$W"
