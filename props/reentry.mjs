// T10: what users do from within code of theirs that the crate runs.
import { hostCfg } from '../js/world.mjs';
import { must } from '../js/lib.mjs';
import { PausedWorld, progs, opArb } from './clock.mjs';

const KINDS = ['wake', 'drop', 'clone', 'val'];

/** Runs the history; whenever the crate invokes, drops or clones a waker, or drops a value, a script runs. */
function run(art, c, ctx) {
  const w = new PausedWorld(art, c.cfg, { fire: true, clock: true }, ctx);
  w.frugal = true; // the timers hold the last reference to the wakers
  w.a.watch_clones();
  let budget = 150; let depth = 0; const inside = {};
  const by = Object.fromEntries(KINDS.map((k) => [k, c.scripts.filter((s) => s.on === k)]));
  const user = (kind) => (id) => {
    const L = by[kind]; if (!L.length || budget <= 0 || depth >= 3) return;
    depth++; w.nested = w.dirty = true;
    if (!w.paused) w.primed = false; // whatever is under way
    const s = L[id % L.length]; let did = false;
    for (const op of s.ops) { budget--; const o = w.objs.length; const p = w.paused; w.act(op); did ||= w.objs.length !== o || w.paused !== p || !/^(sleep|until|to|iv|drop|same|pause|resume)$/.test(op[0]); }
    if (did) inside[kind] = (inside[kind] || 0) + 1;
    depth--; w.nested = depth > 0;
  };
  w.h.onWake = user('wake'); w.h.onWakerDrop = user('drop'); w.h.onWakerClone = user('clone'); w.h.onValDrop = user('val');
  w.step(['q']);
  for (const op of c.ops) w.step(op);
  w.h.onWake = w.h.onWakerDrop = w.h.onWakerClone = w.h.onValDrop = null;
  for (const k in inside) ctx.tag(`from-${k}`);
  // nothing was lost
  if (w.paused) w.step(['resume']);
  w.step(['run', 1000]);
  w.step(['pollall']);
  const near = w.objs.filter((o) => w.hostOf(o.D) - w.h.us < 100e6);
  const end = near.reduce((m, o) => Math.max(m, w.promptBy(o)), 0);
  if (end > w.h.us) w.step(['run', Math.ceil(end - w.h.us) + 1000]);
  w.step(['pollall']);
  for (const Q of w.qs) {
    w.drain(Q);
    const items = [...Q.items.values()].filter((it) => w.hostOf(it.lo) - w.h.us < 100e6);
    const n = Q.items.size;
    const last = items.reduce((m, it) => Math.max(m, w.hostOf(it.lo)), w.h.us) + w.slackUs + 8 * (n + 4) * (w.turnUs + 1000 + 8 * w.h.costUs) + (w.h.maxPending + 4) * w.h.costUs;
    if (Q.pend) w.followQ(Q, Math.ceil(last - w.h.us));
    for (const it of items) must(!Q.items.has(it.id), () => `entry ${it.id} (requested ${it.req} ns, due ${it.lo} ns, now ${w.a.now()} ns) was not yielded to a task that polls whenever it is woken`);
  }
  ctx.nontrivial = w.fires >= 2 && Object.keys(inside).length >= 2;
}
function suite(name, variants, tu, quick, thorough) {
  const main = { sleep: 7, until: 2, same: 3, to: 2, iv: 2, poll: 4, pollall: 7, reset: 4, drop: 3, ins: 4, insnear: 2, insmany: 1, drain: 3, remove: 2, qreset: 2, clear: 1, q2: 1, qdrop: 1, run: 7, block: 2, turn: 3, ...(tu ? { pause: 2, resume: 2, adv: 4, advto: 6 } : {}) };
  const within = { block: 1, sleep: 5, same: 3, until: 1, to: 1, iv: 1, poll: 4, pollall: 2, reset: 5, drop: 5, ins: 3, drain: 1, remove: 1, qreset: 1, clear: 1, q2: 1, qdrop: 1, ...(tu ? { pause: 1, resume: 1, adv: 2, advto: 1 } : {}) };
  return {
    name, variants, quick, thorough, run,
    arb: (fc) => fc.record({
      cfg: hostCfg(fc), ops: progs(fc, main),
      scripts: fc.array(fc.record({ on: fc.constantFrom(...KINDS, 'wake', 'drop'), ops: fc.array(opArb(fc, within), { minLength: 1, maxLength: 4 }) }), { minLength: 1, maxLength: 8, size: 'max' }),
    }),
  };
}
const T10 = {
  rule: 'Histories of sleeps, timeouts, intervals and delay queues whose tasks keep no reference to the wakers they poll with. Whenever the crate invokes, drops or clones a waker, or drops a value of a queue, a generated script runs from within: it creates, polls, resets and drops other timers, changes other queues, and in the second suite pauses, advances and resumes the time. Nothing panics or hangs, nothing completes early, Instant::now() follows the model, and at the end every timer and every entry that is due is reported to a task that polls only when it is woken. Non-trivial: scripts ran from at least two of the four places, and two timers completed.',
  suites: [suite('running', ['prod-checked', 'prod-plain', 'tu-checked'], false, 5000, 400000), suite('paused', ['tu-checked', 'tu-plain'], true, 5000, 400000)],
};
export default { T10 };
