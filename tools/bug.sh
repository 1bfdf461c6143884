#!/bin/bash
# bug.sh SLOT ID [check-args]: judges one planted bug in slot SLOT (scratch copies, private mount
# namespace): does it build, do the stable tests pass, what does the demo say, what does its check say?
slot=/tmp/slot$1; id=$2; shift 2
if [ ! -d "$slot/repo" ]; then mkdir -p "$slot"; cp -a /repo "$slot/repo"; cp -a /opt/vp "$slot/vp"; fi
mkdir -p "$slot/target" "$slot/evidence" "$slot/replays"
[ -d "$slot/target/art" ] || cp -a /verif/target/. "$slot/target/"
prop=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
exec unshare -Urm bash -c '
slot='"$slot"' id='"$id"' prop='"$prop"'
git -C $slot/repo fetch -q /repo HEAD && git -C $slot/repo reset -q --hard FETCH_HEAD
mount --bind $slot/repo /repo; mount --bind $slot/vp /opt/vp; mount --bind $slot/target /verif/target; mount --bind $slot/evidence /verif/evidence; mount --bind $slot/replays /verif/replays
cd /repo
if [ -z "$SKIP_DEMO" ]; then bash /verif/seeded/$id/demo.sh > $slot/demo0.log 2>&1; d0=$?; else d0=-; fi
git apply /verif/seeded/$id/patch.diff || { echo "$id APPLY-FAILED"; exit 1; }
if [ -z "$SKIP_TESTS" ]; then
bash /opt/vp/build.sh > $slot/build.log 2>&1; b=$?
bash /opt/vp/test.sh $slot/out.json > $slot/test.log 2>&1
p=$(python3 -c "import json;b=json.load(open(\"/opt/vp/BASELINE.json\"));o=json.load(open(\"$slot/out.json\"));print(len([t for t in b[\"stable\"] if t not in o[\"passed\"]]))" 2>/dev/null)
else b=- p=-; fi
if [ -z "$SKIP_DEMO" ]; then bash /verif/seeded/$id/demo.sh > $slot/demo1.log 2>&1; d1=$?; else d1=-; fi
[ -n "$SKIP_CHECK" ] && { echo "$id demo=$d0/$d1 | $(tail -1 $slot/demo1.log 2>/dev/null | cut -c1-200)"; cd /repo; git checkout -q -- .; exit; }
cd /verif; node js/check.mjs ${CHECK:-$prop} '"$*"' > $slot/check.log 2>&1; c=$?
ok=MISSED; [ $c = 1 ] && grep -q "VIOLATION property=${CHECK:-$prop}" $slot/check.log && ok=caught
[ $c -gt 1 ] && ok=ERROR
echo "$id ${CHECK:-$prop} build=$b lost_tests=$p demo=$d0/$d1 $ok | $(tail -1 $slot/demo1.log 2>/dev/null | cut -c1-100) | $(grep -v "^VIOLATION" $slot/check.log | head -1 | cut -c1-200)"
cd /repo && git checkout -q -- .
'
