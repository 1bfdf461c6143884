#!/bin/bash
# revert.sh SLOT COMMIT PROP: does the check of PROP report the defect again if the fix COMMIT is taken back?
slot=/tmp/slot$1; c=$2; prop=$3
exec unshare -Urm bash -c '
slot='"$slot"' c='"$c"' prop='"$prop"'
git -C $slot/repo fetch -q /repo HEAD && git -C $slot/repo reset -q --hard FETCH_HEAD
mount --bind $slot/repo /repo; mount --bind $slot/vp /opt/vp; mount --bind $slot/target /verif/target; mount --bind $slot/evidence /verif/evidence; mount --bind $slot/replays /verif/replays
cd /repo
git show $c | git apply -R --3way >$slot/rev.log 2>&1 || { echo "$c $prop CONFLICT"; git reset -q --hard; exit 1; }
cd /verif; for p in ${prop//,/ }; do node js/check.mjs $p > $slot/check.log 2>&1; r=$?; echo "$c $p exit=$r | $(grep -v "^VIOLATION" $slot/check.log | head -1 | cut -c1-220)"; done
cd /repo && git reset -q --hard
'
