// property id -> file of its check
export const FILES = {};
const add = (file, ids) => ids.split(' ').forEach((i) => { FILES[i] = file; });
add('timers.mjs', 'T01 T02 T03 T04 T05 T06 T07 T08 T09');
add('reentry.mjs', 'T10');
add('interval.mjs', 'I01 I02 I03');
add('timeout.mjs', 'O01 O02');
add('dq.mjs', 'Q01 Q02 Q03 Q04 Q05 Q06 Q07 Q08 Q09 Q10');
add('clock.mjs', 'C01 C02 C03 C04');
add('stdtime.mjs', 'S01 S02 S03 S04 S05');
add('diff.mjs', 'D01');
add('programs.mjs', 'E01');
