#!/bin/bash
# mutrun.sh SLOT MUTANTS.jsonl OUT [SNAPSHOT]: judges mutants (ids on stdin) with the checks of the file
# they touch, in slot SLOT; SNAPSHOT is a copy of /verif to run from. One line per mutant in OUT.
slot=/tmp/slot$1; list=$2; out=$3; snap=${4:-/verif}
if [ ! -d "$slot/repo" ]; then mkdir -p "$slot"; cp -a /repo "$slot/repo"; cp -a /opt/vp "$slot/vp"; fi
mkdir -p "$slot/target" "$slot/evidence" "$slot/replays"
[ -d "$slot/target/art" ] || cp -a /verif/target/. "$slot/target/"
exec unshare -Urm bash -c '
slot='"$slot"' list='"$list"' out='"$out"' snap='"$snap"'
git -C $slot/repo fetch -q /repo HEAD && git -C $slot/repo reset -q --hard FETCH_HEAD
[ "$snap" = /verif ] || mount --bind $snap /verif
mount --bind $slot/repo /repo; mount --bind $slot/vp /opt/vp; mount --bind $slot/target /verif/target; mount --bind $slot/evidence /verif/evidence; mount --bind $slot/replays /verif/replays
export VH_SCALE=${VH_SCALE:-1} VH_JOBS=${VH_JOBS:-4}
cd /verif
while read id; do
  git -C /repo checkout -q -- .
  python3 tools/mutate.py apply $list $id /repo || { echo "$id APPLY" >> $out; continue; }
  f=$(git -C /repo diff --name-only)
  case $f in
    src/std.rs) P="S01 S03 S02 S05 S04 T01 C01";;
    src/timer/heap.rs) P="T05 T04 T02 T03";;
    src/timer/mod.rs|src/timer/arc_list.rs) P="T02 T04 T03 T05 C02 T01 T06 T09 T08";;
    src/timer/global.rs|src/js.rs) P="T02 T06 C02 T07 C03 T01 T04 T08";;
    src/timer/clock.rs|src/tokio/test_utils.rs) P="C01 C02 C03 C04 D01";;
    src/tokio/sleep.rs) P="T03 T01 T02 T04 T07 C02 T09 I01";;
    src/tokio/interval.rs) P="I02 I01 I03 T07 D01";;
    src/tokio/timeout.rs|src/tokio/error.rs) P="O01 O02 T07 D01";;
    src/tokio_util/wheel/*) P="Q01 Q03 Q08 Q05 Q02 C04 D01 Q04";;
    *) P="Q01 Q05 Q02 Q04 Q06 Q07 Q03 Q08 C04 Q09 Q10 D01";;
  esac
  v=SURVIVED
  for p in $P; do
    timeout 600 node js/check.mjs $p > $slot/mut.log 2>&1; r=$?
    if [ $r = 1 ]; then v="killed $p"; break; fi
    if [ $r -gt 1 ]; then if grep -q "could not compile\|build failed" $slot/mut.log; then v=NOBUILD; else v="ERROR$r $p $(head -1 $slot/mut.log | cut -c1-120)"; fi; break; fi
  done
  echo "$id $v" >> $out
done
git -C /repo checkout -q -- .
'
