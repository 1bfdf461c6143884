import { World, worldArb, hostCfg, opArb, durNs, runUs, MS } from '../js/world.mjs';
import { Host } from '../js/host.mjs';
import { must } from '../js/lib.mjs';
import { PausedWorld, progs as pausedProgs } from './clock.mjs';

const ALL = ['prod-checked', 'prod-plain', 'tu-checked', 'tu-plain'];
const MIX = ['prod-checked', 'prod-plain', 'tu-checked'];

function runWorld(art, c, ctx, oracle, extra) {
  const w = new World(art, c.cfg, oracle, ctx);
  extra?.(w);
  for (const op of c.ops) { ctx.tag('op:' + op[0]); w.step(op); }
  return w;
}
/** Lets the host run long enough for everything that is due within `ns` of now. */
function settle(w) {
  w.runFor(w.slackUs + w.turnUs + (w.h.maxPending + 5) * w.h.costUs + 1000);
  w.checkAll();
}

/** Hundreds to thousands of sleeps that are armed at once, spread over `span` µs. */
const crowdArb = (fc, env) => fc.record({
  cfg: hostCfg(fc, { coarse: false }), n: fc.oneof(fc.integer({ min: 100, max: 700 }), fc.constantFrom(255, 256, 257, 513, env.thorough ? 3000 : 1025)),
  mult: fc.integer({ min: 1, max: 100_003 }), span: fc.oneof(fc.integer({ min: 1, max: 3000 }), fc.integer({ min: 1000, max: 3_000_000 })), base: fc.integer({ min: 0, max: 200_000 }),
  drop: fc.integer({ min: 2, max: 40 }), reset: fc.integer({ min: 2, max: 40 }), early: fc.boolean(), block: fc.boolean(),
});
function crowd(art, c, ctx, o) {
  const h = new Host(art, { ...c.cfg, fuel: 2_000_000_000 }); const a = h.api; a.vh_base();
  const us0 = h.us; const items = [];
  const at = (k) => BigInt((c.base + ((k * c.mult) % c.span)) * 1000);
  const woken = [];
  h.onWake = (id) => { woken.push(items[id]); items[id].woken = (items[id].woken || 0) + 1; if (a.now() < items[id].D) items[id].early = a.now(); };
  for (let k = 0; k < c.n; k++) { const D = at(k); items.push({ k, D, h: a.sleep_until(D) }); }
  if (c.early) { const t = h.nextDue(); if (t) h.runFor(Math.max(0, t.due - h.us), c.cfg.lateUs); }
  for (const x of items) if (!a.sleep_poll(x.h, a.waker_new(x.k))) x.pend = true;
  let resets = 0;
  for (const x of items) {
    if (x.k % c.drop === 1) { a.sleep_drop(x.h); x.dropped = true; } else if (x.k % c.reset === 1 && x.pend && !x.woken) { x.D = at(x.k * 7 + 3); x.armed = woken.length; a.sleep_reset(x.h, x.D); resets++; }
  }
  if (c.block) h.block(c.base + c.span + 1000);
  const turn = c.cfg.minDelayMs * 1000 + c.cfg.lateUs;
  const end = Math.max(us0 + c.base + c.span, h.us) + 3 * turn + 10_000 + (c.n + 10) * h.costUs;
  must(h.runFor(end - h.us, c.cfg.lateUs, 100_000) >= 0, 'the host is kept busy');
  for (const x of items) {
    if (o.early) must(x.early === undefined, () => `sleep#${x.k} of ${c.n} (deadline ${x.D} ns) was woken at ${x.early} ns`);
    if (o.once && x.pend) must((x.woken || 0) === (x.dropped && !x.woken ? 0 : 1), () => `sleep#${x.k} of ${c.n} (deadline ${x.D} ns${x.dropped ? ', dropped' : ''}) was woken ${x.woken || 0} times (now ${a.now()} ns)`);
    if (o.once && !x.dropped) must(a.sleep_is_elapsed(x.h), () => `sleep#${x.k} of ${c.n} (deadline ${x.D} ns) is not elapsed (now ${a.now()} ns)`);
  }
  if (o.order) for (let k = 1; k < woken.length; k++) for (let j = Math.max(woken[k].armed ?? 0, k - 20); j < k; j++) must(woken[j].D <= woken[k].D, () => `sleep#${woken[j].k} (deadline ${woken[j].D} ns) was woken before sleep#${woken[k].k} (deadline ${woken[k].D} ns), ${c.n} sleeps`);
  ctx.nontrivial = woken.length > 64 && resets > 0;
}

const T01 = {
  rule: 'A case is a host (clock resolution, setTimeout clamp, how late or early it runs callbacks, callback cost, start) and up to 60 operations on sleeps, timeouts and intervals (create, poll, reset, drop) mixed with time passing responsively or blocked. After every operation every timer that reports completion must be due on the clock of the crate and of the host. Non-trivial: at least two timers completed and some other timer was observed still pending after time passed.',
  suites: [{
    name: 'history', variants: ALL, quick: 14000, thorough: 800000,
    arb: (fc) => worldArb(fc, { sleep: 5, until: 3, same: 1, near: 3, burst: 1, to: 3, iv: 2, poll: 6, pollall: 3, reset: 3, resetnear: 2, drop: 1, run: 5, rundue: 5, block: 2, turn: 2 }),
    run(art, c, ctx) {
      const w = runWorld(art, c, ctx, { early: true });
      for (const o of w.objs) if (!(o.kind === 'to' && o.done)) w.poll(o);
      ctx.nontrivial = w.fires >= 2 && w.objs.some((o) => !o.done && w.h.us > o.armUs);
      if (w.fires) ctx.tag('fired');
    },
  }],
};

const T02 = {
  rule: 'Histories as for T01 on a responsive host; once the deadline plus a slack (clock resolution + two setTimeout turns + 3 ms) has passed, every live timer must report completion and the waker of its last pending poll must have been invoked. In the second suite the tasks are polled from inside the waker, where they also create and drop timers and compute for a while; in the third the clock goes on while the crate runs, so that each look at it finds it a bit later; one repeats its operations up to 120 times on one instance. Non-trivial: at least two timers were armed in different turns, became due and were checked.',
  suites: [{
    name: 'history', variants: MIX, quick: 12000, thorough: 700000,
    arb: (fc) => worldArb(fc, { sleep: 6, until: 3, same: 1, near: 3, burst: 2, to: 3, iv: 2, poll: 3, pollall: 6, reset: 2, resetnear: 1, drop: 1, run: 6, rundue: 6, block: 2, turn: 1 }),
    run(art, c, ctx) {
      const w = runWorld(art, c, ctx, { prompt: true, early: true, fused: true });
      for (const o of w.objs) if (!(o.kind === 'to' && o.done)) w.poll(o);
      const near = w.objs.filter((o) => !o.done && w.ns2us(o.D) - w.h.us < 600e6).sort((x, y) => (x.D < y.D ? -1 : 1));
      for (const o of near) { const us = w.promptBy(o) + 1 - w.h.us; if (us > 0) { w.runFor(Math.ceil(us)); } w.checkAll(); }
      ctx.nontrivial = 'due' in ctx.tags && w.fires >= 2;
    },
  }, {
    // The task is polled from within the waker, as executors without a queue do.
    name: 'synchronous-executor', variants: ['prod-checked', 'prod-plain', 'tu-checked'], quick: 4000, thorough: 200000,
    arb: (fc) => fc.record({
      cfg: hostCfg(fc),
      tasks: fc.array(fc.record({ at: runUs(fc), chain: fc.array(durNs(fc, 10_000_000), { minLength: 1, maxLength: 6 }), dropOther: fc.boolean(), compute: fc.oneof({ weight: 2, arbitrary: fc.constant(0) }, { weight: 1, arbitrary: runUs(fc).map((x) => Math.min(x, 500_000)) }), keep: fc.boolean() }), { minLength: 1, maxLength: 12, size: 'max' }),
    }),
    run(art, c, ctx) {
      const w = new World(art, c.cfg, { prompt: true, early: true }, ctx);
      const tasks = c.tasks.map((t) => ({ ...t, at: Math.min(t.at, 5_000_000), pos: 0, o: null, spare: null }));
      const go = (t) => {
        for (;;) {
          if (t.o) {
            if (!w.poll(t.o)) { t.o.task = t; return; }
            if (!t.keep) w.drop(t.o); t.o = null; t.pos++;
            if (t.compute) w.step(['block', t.compute]);
            if (t.dropOther && t.spare) { w.drop(t.spare); t.spare = null; }
          }
          if (t.pos >= t.chain.length) return;
          w.step(['sleep', t.chain[t.pos]]); t.o = w.objs.at(-1);
          if (t.dropOther && !t.spare) { w.step(['sleep', 3_600_000 * MS]); t.spare = w.objs.at(-1); }
        }
      };
      w.h.onWake = (id) => { const t = tasks.find((x) => x.o?.poll?.w.id === id); if (t) { ctx.tag('nested'); t.woken = (t.woken || 0) + 1; go(t); } };
      for (const t of tasks) { w.runFor(t.at); w.checkAll(); go(t); }
      for (let k = 0; k < 400 && tasks.some((t) => t.pos < t.chain.length); k++) {
        const o = w.objs.filter((x) => x.task && !x.done).sort((x, y) => (x.D < y.D ? -1 : 1))[0];
        must(o, 'no task is waiting for a timer but some are not finished');
        w.runFor(Math.max(1, Math.ceil(w.promptBy(o) + 1 - w.h.us)));
        w.checkAll();
      }
      must(tasks.every((t) => t.pos >= t.chain.length), 'tasks did not finish');
      ctx.nontrivial = tasks.length >= 2 && tasks.some((t) => t.chain.length >= 2);
    },
  }, {
    // Thousands of operations on one instance.
    name: 'marathon', variants: MIX, quick: 40, thorough: 10000,
    arb: (fc) => fc.record({ h: worldArb(fc, { sleep: 6, until: 3, same: 1, near: 4, to: 3, iv: 2, poll: 4, pollall: 6, reset: 5, resetnear: 3, drop: 4, dropall: 1, run: 5, rundue: 8, block: 2, turn: 3 }, { minOps: 15, max: 10_000_000 }), rep: fc.integer({ min: 20, max: 120 }) }),
    run(art, c, ctx) {
      const w = new World(art, { ...c.h.cfg, fuel: 2_000_000_000 }, { prompt: true, early: true, fused: true, deadline: true }, ctx);
      for (let k = 0; k < c.rep; k++) {
        for (const op of c.h.ops) w.step(op.length > 1 && typeof op[1] === 'number' && /^(same|near|poll|reset|drop|rundue)/.test(op[0]) ? [op[0], op[1] + k, ...op.slice(2)] : op);
        while (w.objs.length > 30) w.step(['drop', k]);
        if (w.h.wakes.length > 5000) w.h.wakes.splice(0, 2500).length;
      }
      for (const o of w.objs) if (!(o.kind === 'to' && o.done)) w.poll(o);
      const near = w.objs.filter((o) => !o.done && w.ns2us(o.D) - w.h.us < 600e6).sort((x, y) => (x.D < y.D ? -1 : 1));
      for (const o of near) { const us = w.promptBy(o) + 1 - w.h.us; if (us > 0) { w.runFor(Math.ceil(us)); } w.checkAll(); }
      ctx.nontrivial = 'due' in ctx.tags && w.fires >= 200;
    },
  }, {
    // Every look at the clock finds it a bit later.
    name: 'moving-clock', variants: MIX, quick: 3000, thorough: 200000,
    arb: (fc) => worldArb(fc, { sleep: 4, until: 4, reads: 5, near: 3, burst: 1, to: 2, iv: 2, poll: 3, pollall: 5, reset: 3, resetnear: 3, drop: 1, run: 4, rundue: 6, block: 2, turn: 4 }, { cfg: fc.tuple(hostCfg(fc), fc.constantFrom(1, 1, 7, 50, 400)).map(([x, readUs]) => ({ ...x, readUs })) }),
    run(art, c, ctx) {
      const w = runWorld(art, c, ctx, { prompt: true, early: true, fused: true });
      for (const o of w.objs) if (!(o.kind === 'to' && o.done)) w.poll(o);
      const near = w.objs.filter((o) => !o.done && w.ns2us(o.D) - w.h.us < 600e6).sort((x, y) => (x.D < y.D ? -1 : 1));
      for (const o of near) { const us = w.promptBy(o) + 1 - w.h.us; if (us > 0) { w.runFor(Math.ceil(us)); } w.checkAll(); }
      ctx.nontrivial = 'due' in ctx.tags && w.fires >= 2;
    },
  }, {
    name: 'crowd', variants: MIX, quick: 30, thorough: 3000, arb: crowdArb, run(art, c, ctx) { crowd(art, c, ctx, { early: true, once: true }); },
  }],
};

const T03 = {
  rule: 'Histories dominated by resets of pending and of already completed sleeps, to earlier, later, equal and past deadlines, once to 65536 times between two turns of the host, and (second suite) from inside the wakers of other sleeps that fire in the same turn, which also take their time. After each operation a sleep is elapsed only if its latest deadline passed, deadline() reports the latest deadline, and it completes promptly after the latest deadline. Non-trivial: a sleep was reset at least twice and fired afterwards.',
  suites: [{
    name: 'resets', variants: MIX, quick: 14000, thorough: 800000,
    arb: (fc) => worldArb(fc, { sleep: 4, until: 1, near: 1, poll: 4, pollall: 2, reset: 8, resetnear: 6, resetmany: 1, drop: 1, run: 4, rundue: 6, block: 1, turn: 2 }),
    run(art, c, ctx) {
      const w = runWorld(art, c, ctx, { early: true, prompt: true, deadline: true, fused: true });
      finishT03(w);
      const resets = (ctx.tags['reset-after-fire'] || 0) + (ctx.tags['reset-earlier'] || 0) + (ctx.tags['reset-later'] || 0);
      ctx.nontrivial = resets >= 2 && w.fires >= 1;
    },
  }, {
    // what an executor does that runs a task from within the call that wakes it
    name: 'from-wakers', variants: MIX, quick: 5000, thorough: 300000,
    arb: (fc) => worldArb(fc, { sleep: 7, until: 1, near: 3, burst: 1, poll: 3, pollall: 6, reset: 2, resetnear: 1, drop: 1, run: 4, rundue: 5, block: 4, turn: 2 }, { max: 20_000 }).chain((c) => fc.array(fc.array(opArb(fc, { reset: 5, resetnear: 4, resetmany: 2, sleep: 2, until: 1, poll: 3, drop: 2, block: 2 }, 20_000), { maxLength: 4 }), { minLength: 1, maxLength: 6, size: 'max' }).map((scripts) => ({ ...c, scripts }))),
    run(art, c, ctx) {
      let nested = 0; let nestedResets = 0; let budget = 300;
      const w = runWorld(art, c, ctx, { early: true, prompt: true, deadline: true, fused: true }, (x) => {
        x.h.onWake = (id) => {
          const o = x.objs.find((y) => y.poll?.w.id === id); if (!o || budget <= 0) return;
          for (const op of c.scripts[o.n % c.scripts.length]) { budget--; nested++; if (/^reset/.test(op[0])) nestedResets++; x.act(op); }
        };
      });
      w.h.onWake = null;
      finishT03(w);
      if (nested) ctx.tag('nested');
      ctx.nontrivial = nestedResets > 0 && w.fires >= 2;
    },
  }],
};
function finishT03(w) {
  for (const o of [...w.objs]) {
    if (o.kind === 'to' && o.done) continue;
    w.poll(o);
    if (!o.done && w.ns2us(o.D) - w.h.us < 600e6) { w.runFor(Math.max(1, Math.ceil(w.promptBy(o) + 1 - w.h.us))); w.checkAll(); must(w.poll(o), () => `${w.show(o)} is pending after its latest deadline`); }
  }
}

const T04 = {
  rule: 'Histories dominated by drops (before being seen by the host, while armed, after completion, of the earliest timer, of all) checked against a model that only holds the survivors, which must neither fire early nor late; every waker that was handed to a dropped or completed timer must be released once the host had a turn. The same is asked of histories that pause, advance and resume the time (and end paused or running), for sleeps, timeouts, intervals and queues. The leak suite repeats a random create/poll/reset/drop cycle, also of many timers at once, and compares the size of the wasm memory after a few hundred and after thousands of cycles. Non-trivial: a timer was dropped while another was armed and the other fired later.',
  suites: [{
    name: 'drops', variants: MIX, quick: 12000, thorough: 700000,
    arb: (fc) => worldArb(fc, { sleep: 6, until: 2, same: 2, near: 2, burst: 2, to: 3, iv: 2, poll: 4, pollall: 3, reset: 2, resetnear: 1, drop: 9, dropall: 1, run: 3, rundue: 6, block: 1, turn: 2 }),
    run(art, c, ctx) {
      let droppedArmed = 0; let firedAfter = 0;
      const w = runWorld(art, c, ctx, { early: true, prompt: true }, (x) => {
        const d = x.drop.bind(x);
        x.drop = (o) => { if (!o.done && x.objs.length > 1) droppedArmed++; d(o); };
        x.onFire = () => { if (droppedArmed) firedAfter++; };
      });
      for (const o of w.objs) if (!(o.kind === 'to' && o.done)) w.poll(o);
      for (const o of w.objs.filter((o) => !o.done && w.ns2us(o.D) - w.h.us < 600e6)) { const us = Math.ceil(w.promptBy(o) + 1 - w.h.us); if (us > 0) w.runFor(us); w.checkAll(); }
      for (const o of [...w.objs]) w.drop(o);
      settle(w);
      for (const r of w.wk.values()) w.a.waker_release(r.h);
      for (const r of w.wk.values()) must(w.h.wakerDrops.get(r.id) === 1, () => `waker ${r.id} is still held after every timer was dropped and the host ran`);
      ctx.nontrivial = droppedArmed > 0 && firedAfter > 0;
    },
  }, {
    name: 'paused-drops', variants: ['tu-checked', 'tu-plain'], quick: 3000, thorough: 200000,
    arb: (fc) => fc.record({ cfg: hostCfg(fc), ops: pausedProgs(fc, { pause: 3, resume: 2, adv: 3, advto: 3, sleep: 6, until: 1, same: 2, to: 2, iv: 2, poll: 6, pollall: 3, reset: 2, drop: 8, q: 1, ins: 2, drain: 2, remove: 2, run: 5, block: 1, turn: 2 }) }),
    run(art, c, ctx) {
      const w = new PausedWorld(art, c.cfg, { fire: true, clock: true }, ctx);
      const made = []; let dropped = 0; let pausedDrop = 0;
      const mk = w.waker.bind(w);
      w.waker = () => { const x = mk(); made.push(x); return x; };
      for (const op of c.ops) { if (op[0] === 'drop' && w.objs.length) { dropped++; if (w.paused && w.objs.some((o) => o.pend)) pausedDrop++; } w.step(op); }
      const held = w.objs.filter((o) => o.pend).length;
      if (w.paused && held) pausedDrop++;
      while (w.objs.length) w.step(['drop', 0]);
      for (const Q of w.qs) w.a.dq_drop(Q.h);
      w.runFor(Math.ceil(w.slackUs + w.turnUs + (w.h.maxPending + 5) * w.h.costUs + 1000));
      for (const r of made) w.a.waker_release(r.h);
      for (const r of made) must(w.h.wakerDrops.get(r.id) === 1, () => `waker ${r.id} is still held after every timer was dropped and the host ran (${w.paused ? 'paused' : 'running'})`);
      if (pausedDrop) ctx.tag('dropped-while-paused');
      ctx.nontrivial = pausedDrop > 0 && dropped + held > 1;
    },
  }, {
    name: 'leak', variants: ['prod-checked', 'tu-checked'], quick: 60, thorough: 3000,
    arb: (fc) => fc.record({
      cfg: hostCfg(fc, { coarse: false }),
      cycle: fc.array(fc.tuple(fc.constantFrom('sleep', 'to', 'iv', 'many', 'poll', 'reset', 'drop', 'run', 'run'), fc.integer({ min: 0, max: 20 })), { minLength: 2, maxLength: 8, size: 'max' }),
      many: fc.integer({ min: 4, max: 24 }),
    }),
    run(art, c, ctx) {
      const h = new Host(art, c.cfg); const a = h.api; a.vh_base();
      const wk = a.waker_new(1);
      const cycle = () => {
        const live = [];
        for (const [op, x] of c.cycle) {
          const o = live.length ? live[x % live.length] : null;
          if (op === 'sleep') live.push(['s', a.sleep_new(BigInt(x * MS))]);
          else if (op === 'many') for (let k = 0; k < c.many; k++) live.push(['s', a.sleep_new(BigInt(x * MS + k))]);
          else if (op === 'to') live.push(['t', a.to_ctl(BigInt(x * MS), undefined)]);
          else if (op === 'iv') live.push(['i', a.iv_new(BigInt((x + 1) * MS))]);
          else if (op === 'poll' && o) { if (o[0] === 's') a.sleep_poll(o[1], wk); else if (o[0] === 't') a.to_poll(o[1], wk); else a.iv_poll(o[1], wk); } else if (op === 'reset' && o && o[0] === 's') a.sleep_reset(o[1], a.now() + BigInt(x * MS));
          else if (op === 'drop' && o) { live.splice(live.indexOf(o), 1); if (o[0] === 's') a.sleep_drop(o[1]); else if (o[0] === 't') a.to_drop(o[1]); else a.iv_drop(o[1]); } else if (op === 'run') h.runFor(x * 1000, c.cfg.lateUs);
        }
        for (const o of live) if (o[0] === 's') a.sleep_drop(o[1]); else if (o[0] === 't') a.to_drop(o[1]); else a.iv_drop(o[1]);
        h.runFor(8000, c.cfg.lateUs);
        h.wakes.length = 0;
      };
      const size = () => h.memory.buffer.byteLength;
      const cycles = c.cycle.some((x) => x[0] === 'many') ? [300, 2100] : [400, 3600];
      for (let i = 0; i < cycles[0]; i++) cycle();
      const s1 = size();
      for (let i = 0; i < cycles[1]; i++) cycle();
      const made = c.cycle.filter((x) => ['sleep', 'to', 'iv', 'many'].includes(x[0])).length;
      const own = 2 * 65536; // rounding to pages, fragmentation
      ctx.tag(`grew:${Math.round((size() - s1) / 65536)}`);
      must(size() - s1 <= own, () => `memory grew from ${s1} to ${size()} bytes over ${cycles[1]} cycles that end with every timer dropped`);
      must(h.timers.length <= 60, () => `${h.timers.length} host callbacks are outstanding after every timer was dropped`);
      ctx.nontrivial = made > 0;
    },
  }],
};

const T05 = {
  rule: 'Many sleeps with deadlines nanoseconds to seconds apart, armed and reset in random order, with the host blocked so that several become due in the same turn. For any two wakes, the one of the sleep with the earlier deadline comes first when both were armed and polled before the first of the two wakes. Non-trivial: at least four wakes within one host callback, not created in deadline order.',
  suites: [{
    name: 'order', variants: MIX, quick: 12000, thorough: 700000,
    arb: (fc) => worldArb(fc, { sleep: 6, until: 2, same: 2, near: 6, burst: 3, poll: 2, pollall: 4, reset: 2, resetnear: 4, drop: 2, run: 2, rundue: 4, block: 5, turn: 3 }),
    run(art, c, ctx) {
      const w = new World(art, c.cfg, {}, ctx);
      let batch = 0; let inversionPossible = false;
      const fired = []; // {D, us, batch}
      const seen = new Map(); // waker id -> object
      const poll0 = w.poll.bind(w);
      w.poll = (o) => { const r = poll0(o, 0); if (!r) seen.set(o.poll.w.id, { o, gen: o.first, D: o.D, seq: w.h.wakeSeq, batch: w.h.callbacksRun }); return r; };
      w.h.onWake = (id) => {
        const x = seen.get(id);
        if (!x || x.o.first !== x.gen || x.o.poll?.w.id !== id) return; // reset since, or polled by another task
        const seq = w.h.wakeSeq - 1;
        fired.push({ D: x.D, armSeq: x.o.armSeq, pollSeq: x.seq, seq, n: x.o.n, batch: w.h.callbacksRun });
      };
      for (const op of c.ops) w.step(op);
      w.step(['pollall']);
      for (let k = 0; k < 6; k++) { w.step(['block', 300_000 * (k + 1)]); w.step(['turn']); w.runFor(w.slackUs); }
      // compare neighbours and all pairs within a window
      for (let i = 0; i < fired.length; i++) {
        let cnt = 1;
        for (let j = i + 1; j < fired.length && j < i + 60; j++) {
          const x = fired[i]; const y = fired[j];
          if (y.batch === x.batch) cnt++;
          if (y.armSeq <= x.seq && y.pollSeq <= x.seq && y.D < x.D) {
            must(false, `sleep#${x.n} (deadline ${x.D} ns) was woken before sleep#${y.n} (deadline ${y.D} ns)`);
          }
          if (y.batch === x.batch && y.n < x.n) inversionPossible = true;
        }
        batch = Math.max(batch, cnt);
      }
      if (batch >= 4) ctx.tag('batch>=4');
      ctx.nontrivial = batch >= 4 && inversionPossible;
    },
  }, {
    name: 'crowd', variants: MIX, quick: 30, thorough: 3000, arb: crowdArb, run(art, c, ctx) { crowd(art, c, ctx, { order: true }); },
  }],
};

const T06 = {
  rule: 'Histories with short, long (up to 60 days) and dropped timers on hosts that clamp setTimeout to 1 or 4 ms. Counted on the host: no delay outside what setTimeout supports; outstanding callbacks never exceed the timers whose deadline has not passed plus 4; the callbacks that run are bounded by the operations, the deadlines that passed and one per second; and with no timers left the host is idle but for at most one callback per second. Non-trivial: at least 12 timers were created and the host ran for at least a second.',
  assumptions: ['the host clamps setTimeout to at least 1 ms, as every real one does in steady state'],
  suites: [{
    name: 'economy', variants: MIX, quick: 9000, thorough: 500000,
    arb: (fc) => worldArb(fc, { sleep: 8, until: 2, same: 1, near: 2, burst: 4, to: 2, iv: 2, poll: 3, pollall: 3, reset: 4, resetnear: 1, drop: 4, dropall: 1, run: 8, rundue: 6, block: 1, turn: 2 },
      { cfg: fc.record({ granUs: fc.constantFrom(1, 1, 5, 100), minDelayMs: fc.constantFrom(1, 1, 4), lateUs: fc.constantFrom(0, 0, 100, 1000), costUs: fc.constant(0), startUs: fc.constantFrom(1_000_000, 86_400_000_000, 0, 2_500) }) }),
    run(art, c, ctx) {
      const w = new World(art, c.cfg, {}, ctx);
      let ops = 0; let us0 = w.h.us;
      const deadlines = []; // every deadline ever armed
      const arm0 = w.arm.bind(w);
      w.arm = (o, D) => { arm0(o, D); deadlines.push(w.ns2us(D)); };
      let wakes = 0;
      const check = () => {
        const future = deadlines.reduce((n, d) => n + (d > w.h.us - w.slackUs), 0);
        // those that are overdue wait for the next turn of a blocked host
        const out = w.h.timers.reduce((n, t) => n + (t.due > w.h.us), 0);
        must(out <= future + 4, () => `${out} callbacks are outstanding for ${future} deadlines that are still to come`);
        must(w.h.badDelays.length === 0, () => `setTimeout was called with a delay of ${w.h.badDelays[0]}`);
        const secs = (w.h.us - us0) / 1e6;
        const bound = 20 + 3 * ops + 6 * deadlines.length + secs;
        must(w.h.callbacksRun <= bound, () => `${w.h.callbacksRun} callbacks ran for ${ops} operations, ${deadlines.length} deadlines and ${secs} s`);
      };
      for (const op of c.ops) { ops += op[0] === 'burst' ? op[1] : op[0] === 'pollall' ? w.objs.length : 1; w.step(op); check(); }
      const ranUs = w.h.us - us0;
      for (const o of [...w.objs]) { w.drop(o); ops++; }
      settle(w); check();
      const before = w.h.callbacksRun;
      const outstanding = w.h.timers.length;
      w.runFor(120e6);
      must(w.h.callbacksRun - before <= 120 + 2 * outstanding + 4, () => `${w.h.callbacksRun - before} callbacks ran in 120 s without any timer`);
      check();
      wakes = w.h.wakes.length; if (wakes) ctx.tag('wakes');
      ctx.nontrivial = w.created >= 12 && ranUs >= 1e6;
    },
  }, {
    name: 'long-waits', variants: ['prod-checked', 'tu-checked'], quick: 800, thorough: 40000,
    arb: (fc) => fc.record({
      minDelayMs: fc.constantFrom(1, 4), lateUs: fc.constantFrom(0, 1000),
      days: fc.array(fc.integer({ min: 1, max: 400 * 86400 }), { minLength: 1, maxLength: 6 }),
      steps: fc.array(fc.integer({ min: 1, max: 60 * 86400 }), { minLength: 1, maxLength: 12 }),
    }),
    run(art, c, ctx) {
      const w = new World(art, { minDelayMs: c.minDelayMs, lateUs: c.lateUs }, { early: true, prompt: true }, ctx);
      for (const s of c.days) { const t = w.a.now(); const d = BigInt(s) * 1_000_000_000n; w.add('sleep', w.a.sleep_new(d), t + d); }
      // a timer that outlasts the case keeps the idle period of the host out of the count
      { const d = 3000n * 86400n * 1_000_000_000n; const t = w.a.now(); w.add('sleep', w.a.sleep_new(d), t + d); }
      w.step(['pollall']);
      let run = 0;
      for (const s of c.steps) { w.step(['run', s * 1e6]); run += s; }
      must(w.h.badDelays.length === 0, () => `setTimeout was called with a delay of ${w.h.badDelays[0]}`);
      must(w.h.callbacksRun <= 30 + 10 * c.days.length + c.steps.length + run / 43200, () => `${w.h.callbacksRun} callbacks ran in ${run} s for ${c.days.length} sleeps`);
      ctx.nontrivial = c.days.some((s) => s > 2147483 && s < run);
    },
  }],
};

// Durations up to the largest one, as [secs, nanos].
const bigDur = (fc) => fc.oneof(
  fc.constantFrom(['18446744073709551615', 999999999], ['18446744073709551615', 0], ['18446744073709551614', 999999999], ['0', 0], ['9223372036854775807', 0], ['4294967296', 1], ['2147483', 647000000], ['2147483', 648000000], ['18446744073', 709551615]),
  fc.tuple(fc.bigInt({ min: 0n, max: 18446744073709551615n }).map(String), fc.integer({ min: 0, max: 999999999 })),
  fc.tuple(fc.integer({ min: 0, max: 63 }).chain((b) => fc.bigInt({ min: 0n, max: (1n << BigInt(b)) })).map(String), fc.integer({ min: 0, max: 999999999 })),
);
const T07 = {
  rule: 'Sleeps, timeouts and intervals of any Duration (0 to Duration::MAX, in seconds and nanoseconds), and at instants anywhere in the past and up to the last one, are created next to short ordinary timers, polled, reset and dropped while the host runs or sleeps for years. Nothing panics; deadline() is not before the one that was asked for (29 years ahead if that does not fit); a past or zero deadline completes within one turn; a far one stays pending; the ordinary timers fire on time. Non-trivial: at least one duration of more than 24.8 days together with an ordinary timer that fired.',
  suites: [{
    name: 'extremes', variants: ALL, quick: 8000, thorough: 400000,
    arb: (fc) => fc.record({
      cfg: hostCfg(fc),
      ops: fc.array(fc.oneof(
        bigDur(fc).map((d) => ['sleep', ...d]), bigDur(fc).map((d) => ['to', ...d]), bigDur(fc).map((d) => ['iv', ...d]),
        // instants up to the largest one there is
        bigDur(fc).map((d) => ['untilfar', ...d]), bigDur(fc).map((d) => ['tofar', ...d]), fc.tuple(bigDur(fc), bigDur(fc)).map(([d, e]) => ['ivfar', ...d, ...e]),
        fc.tuple(bigDur(fc), fc.nat(63)).map(([d, i]) => ['resetfar', ...d, i]),
        fc.integer({ min: 0, max: 900_000_000 }).map((x) => ['past', x]),
        fc.integer({ min: 0, max: 200 }).map((x) => ['short', x]),
        fc.nat(63).map((x) => ['poll', x]), fc.nat(63).map((x) => ['poll', x]),
        fc.nat(63).map((x) => ['drop', x]), fc.tuple(fc.nat(63), fc.integer({ min: -900, max: 100 })).map(([x, y]) => ['reset', x, y]),
        fc.tuple(fc.nat(63), fc.constantFrom(0, 1, 2)).map(([x, y]) => ['mtb', x, y]), fc.nat(63).map((x) => ['ivreset', x]),
        runUs(fc).map((x) => ['run', x]), runUs(fc).map((x) => ['block', x]),
        // the machine sleeps for years
        fc.integer({ min: 1, max: 400 }).map((x) => ['block', x * 15 * 86400e6]),
      ), { minLength: 1, maxLength: 40, size: 'max' }),
    }),
    run(art, c, ctx) {
      const w = new World(art, c.cfg, { early: true, prompt: true }, ctx);
      const { a } = w;
      const FAR = 1n << 62n; // rel() saturates beyond
      let far = 0; let short = 0;
      const YEARS = 29n * 365n * 86400n * 1_000_000_000n;
      w.onFire = (o) => { if (o.short) short++; };
      for (const op of c.ops) {
        const d = typeof op[1] === 'string' ? BigInt(op[1]) * 1_000_000_000n + BigInt(op[2]) : 0n;
        // it is known exactly unless it does not fit: then it is far, at least 29 years ahead
        const vague = d + BigInt(Math.floor(w.h.us)) * 1000n + YEARS > 18446744073709551615n * 1_000_000_000n;
        const clampD = (t) => t + (vague ? YEARS : d);
        const t = a.now();
        if (d > 2147483647n * 1_000_000n) far++;
        switch (op[0]) {
          case 'sleep': w.add('sleep', a.sleep_new_big(BigInt(op[1]), op[2]), clampD(t)).vague = vague; break;
          case 'to': w.add('to', a.to_ctl_big(BigInt(op[1]), op[2], undefined), clampD(t)).vague = vague; break;
          case 'iv': {
            const o = w.add('iv', a.iv_new_big(BigInt(op[1]), op[2]), t); o.per = d; o.mtb = 0; break;
          }
          case 'untilfar': case 'tofar': case 'ivfar': case 'resetfar': {
            const now = a.in_now(); let s = BigInt(op[1]); let i;
            // as far as asked for, or else just short of the end
            for (let k = 0; (i = a.in_checked_add(now, s, op[2])) === undefined; k++) s = 18446744073709551615n - BigInt(Math.floor(w.h.us / 1e6)) - BigInt(k);
            const D = t + s * 1_000_000_000n + BigInt(op[2]); ctx.tag('far-instant');
            if (op[0] === 'untilfar') w.add('sleep', a.sleep_until_inst(i), D);
            else if (op[0] === 'tofar') w.add('to', a.to_ctl_inst(i, undefined), D);
            else if (op[0] === 'ivfar') { const per = BigInt(op[3]) * 1_000_000_000n + BigInt(op[4]); const o = w.add('iv', a.iv_at_inst(i, BigInt(op[3]), op[4]), D); o.per = per; o.mtb = 0; } else { const o = w.pick(op[3]); if (o?.kind === 'sleep') { a.sleep_reset_inst(o.h, i); w.arm(o, D); ctx.tag('far-reset'); } }
            break;
          }
          case 'past': w.step(['until', -op[1]]); break;
          case 'short': w.step(['sleep', op[1] * MS]); w.objs.at(-1).short = true; break;
          case 'poll': {
            const o = w.pick(op[1]); if (!o || (o.kind === 'to' && o.done)) break;
            if (o.kind !== 'iv') { w.poll(o); break; }
            const wk = w.waker(); const v = a.iv_poll(o.h, wk.h);
            if (v === undefined) { o.poll = { w: wk, seq: w.h.wakeSeq }; break; }
            must(a.now() >= o.D, () => `${w.show(o)} ticked early`);
            // the schedule is checked by I01/I02; here: the next tick is in the right half of eternity
            if (o.per === 0n) { if (a.now() > o.D + 5_000_000n) ctx.tag(`zero-period:${['burst', 'delay', 'skip'][o.mtb]}`); w.arm(o, o.D); break; } // at once, at the host's next turn
            const per = o.per > YEARS ? YEARS : o.per;
            const nx = o.per > 4_000_000n * 1_000_000_000n ? o.D + (o.mtb === 2 ? 0n : per) : null;
            if (nx === null) { w.drop(o); break; }
            if (o.mtb === 2) { w.drop(o); break; }
            w.arm(o, nx); o.vague = o.per > YEARS; ctx.tag('far-tick');
            break;
          }
          case 'mtb': { const o = w.pick(op[1]); if (o?.kind === 'iv') { a.iv_set_mtb(o.h, op[2]); o.mtb = op[2]; } break; }
          case 'ivreset': { const o = w.pick(op[1]); if (o?.kind === 'iv') { a.iv_reset(o.h); w.arm(o, t + (o.per > YEARS ? YEARS : o.per)); o.vague = o.per > YEARS; } break; }
          case 'drop': { const o = w.pick(op[1]); if (o) w.drop(o); break; }
          case 'reset': { const o = w.pick(op[1]); if (o?.kind === 'sleep') { const D = w.past(t + BigInt(op[2] * MS)); a.sleep_reset(o.h, D); w.arm(o, D); } break; }
          case 'run': w.runFor(op[1]); break;
          case 'block': w.h.block(op[1]); w.lastBlockUs = w.h.us; break;
        }
        for (const o of w.objs) if (o.kind === 'sleep' && o.D < FAR) { const x = a.sleep_deadline(o.h); must(x >= o.D, () => `${w.show(o)} has the deadline ${x}`); }
        w.checkAll();
      }
      settle(w);
      for (const o of w.objs) {
        if (o.kind === 'iv' || (o.kind === 'to' && o.done)) continue;
        w.poll(o);
        if (o.D > a.now() + FAR / 8n) must(!o.done, () => `${w.show(o)} completed`);
      }
      ctx.nontrivial = far > 0 && short > 0;
    },
  }],
};

const T08 = {
  rule: 'A random program of sleeps, timeouts, intervals and delay queue entries runs on every kind of host the generator knows: global object reachable as globalThis, self, window or global only; setTimeout returning numbers or objects; `this` checked strictly or not; different clock resolutions and clamps; in debug and release builds, with and without the test-util feature. Nothing may panic and everything fires on time. The same program must complete its timers in the same order on two different hosts that only differ in shape. Non-trivial: a timer fired on a host that is not the default one.',
  suites: [{
    name: 'hosts', variants: ALL, quick: 8000, thorough: 400000,
    arb: (fc) => fc.record({
      handle: fc.constantFrom('number', 'object'), scope: fc.constantFrom('globalThis', 'self', 'window', 'global'), brand: fc.boolean(),
      cfg: hostCfg(fc),
      ops: fc.array(opT08(fc), { minLength: 1, maxLength: 25, size: 'max' }),
    }),
    run(art, c, ctx) {
      const trace = (shape) => {
        const w = new World(art, { ...c.cfg, ...shape }, { early: true, prompt: true }, ctx);
        const q = w.a.dq_new(); const out = []; let id = 0;
        w.onFire = (o) => out.push(`${o.kind}${o.n}@${w.h.us}`);
        for (const op of c.ops) {
          if (op[0] === 'dq') w.a.dq_insert(q, ++id, 0, BigInt(op[1]));
          else if (op[0] === 'dqpoll') { const r = w.a.dq_poll(q, w.waker().h); out.push(r === undefined ? 'P' : r.id === 0xffffffff ? 'N' : `q${r.id}`); } else if (op[0] === 'sys') { w.a.sy_now(); w.a.in_now(); } else w.step(op);
        }
        w.step(['pollall']);
        settle(w);
        ctx.nontrivial ||= w.fires > 0 && (c.handle === 'object' || c.scope !== 'globalThis');
        return out.join(' ');
      };
      const x = trace({ handle: c.handle, scope: c.scope, brand: c.brand });
      const y = trace({ handle: 'number', scope: 'globalThis', brand: false });
      ctx.tag(`scope:${c.scope}`); ctx.tag(`handle:${c.handle}`);
      must(x === y, () => `the same program behaves differently on hosts that differ only in shape:\n${x}\n${y}`);
    },
  }],
};
function opT08(fc) {
  const d = durNs(fc, 10_000_000);
  return fc.oneof(
    d.map((x) => ['sleep', x]), d.map((x) => ['to', x]), d.map((x) => ['iv', Math.max(1, x)]), d.map((x) => ['dq', x]),
    fc.constant(['dqpoll']), fc.constant(['sys']), fc.tuple(fc.nat(31), fc.constant(0)).map(([x, k]) => ['poll', x, k]), fc.constant(['pollall']),
    fc.tuple(fc.nat(31), d).map(([x, y]) => ['reset', x, y]), fc.nat(31).map((x) => ['drop', x]),
    runUs(fc).map((x) => ['run', x]), fc.nat(31).map((x) => ['rundue', x, 3000]), runUs(fc).map((x) => ['block', x]), fc.constant(['turn']),
  );
}

const T09 = {
  rule: 'Histories as for T01/T03 with tasks that poll one or several timers, again and again or never again, on running time and (second suite) with pause, advance and resume. Every invocation of a waker is matched, at that moment, with a live timer whose latest pending poll it was given to, whose current deadline has passed, and which has not used it before. Non-trivial: at least three wakes, and a timer was reset, dropped or polled again while it had a waker.',
  suites: [{
    name: 'wakes', variants: MIX, quick: 10000, thorough: 600000,
    arb: (fc) => worldArb(fc, { sleep: 5, until: 2, same: 1, near: 3, burst: 1, to: 3, iv: 3, poll: 7, pollall: 4, reset: 5, resetnear: 3, drop: 3, run: 5, rundue: 6, block: 3, turn: 2 }),
    run(art, c, ctx) {
      let wakes = 0; let changed = 0;
      const w = new World(art, c.cfg, {}, ctx);
      w.h.onWake = (id) => { wakes++; matchWake(id, w.objs, w.a.now()); };
      for (const op of c.ops) { if (/^(reset|drop|poll)/.test(op[0])) { const o = w.pick(op[1] ?? 0); if (o?.wreg && !o.wreg.used) changed++; } w.step(op); }
      w.step(['pollall']); w.runFor(2e6);
      ctx.nontrivial = wakes >= 3 && changed > 0;
    },
  }, {
    name: 'paused', variants: ['tu-checked', 'tu-plain'], quick: 4000, thorough: 250000,
    arb: (fc) => fc.record({ cfg: hostCfg(fc), ops: pausedProgs(fc, { pause: 2, resume: 2, adv: 4, advto: 6, sleep: 6, until: 1, same: 3, to: 2, iv: 2, poll: 6, pollall: 5, reset: 4, drop: 2, run: 4, block: 2, turn: 2 }) }),
    run(art, c, ctx) {
      let wakes = 0; let changed = 0;
      const w = new PausedWorld(art, c.cfg, {}, ctx);
      const waker = w.waker.bind(w); const mine = new Set();
      w.waker = () => { const x = waker(); mine.add(x.id); return x; };
      w.h.onWake = (id) => { wakes++; matchWake(id, w.objs, w.a.now()); };
      for (const op of c.ops) { if (/^(reset|drop|poll)/.test(op[0]) && w.objs.some((o) => o.wreg && !o.wreg.used)) changed++; w.step(op); }
      ctx.nontrivial = wakes >= 3 && changed > 0;
    },
  }, {
    // what an executor does that runs a task from within the call that wakes it
    name: 'from-wakers', variants: MIX, quick: 4000, thorough: 250000,
    arb: (fc) => worldArb(fc, { sleep: 7, until: 1, near: 3, burst: 1, poll: 3, pollall: 6, reset: 2, resetnear: 1, drop: 1, run: 4, rundue: 5, block: 4, turn: 2 }, { max: 20_000 }).chain((c) => fc.array(fc.array(opArb(fc, { reset: 5, resetnear: 4, resetmany: 2, sleep: 2, until: 1, poll: 3, drop: 2, block: 2 }, 20_000), { maxLength: 4 }), { minLength: 1, maxLength: 6, size: 'max' }).map((scripts) => ({ ...c, scripts }))),
    run(art, c, ctx) {
      let wakes = 0; let moved = 0; let budget = 300; let waking = false; const dropped = [];
      const w = new World(art, c.cfg, {}, ctx);
      w.h.onWake = (id) => {
        wakes++;
        matchWake(id, [...w.objs, ...dropped], w.a.now());
        const o = w.objs.find((y) => y.wreg?.w.id === id); if (!o || budget <= 0) return;
        waking = true;
        for (const op of c.scripts[o.n % c.scripts.length]) { budget--; if (/^(reset|drop)/.test(op[0])) { const x = w.pick(op[1] ?? 0); if (x?.wreg && !x.wreg.used && x.D <= w.a.now()) { moved++; ctx.tag('moved-while-due'); } } w.act(op); }
        waking = false;
      };
      // one task per timer: of two with the same waker it is unknown which one was woken for
      const poll = w.poll.bind(w);
      w.poll = (o, k) => poll(o, k === 1 ? 0 : k);
      // one that is due already when it is dropped from inside a waker may be woken by the same turn
      const d = w.drop.bind(w);
      w.drop = (o) => { if (waking && o.wreg && !o.wreg.used && o.D <= w.a.now()) dropped.push(o); d(o); };
      for (const op of c.ops) { dropped.length = 0; w.step(op); }
      w.step(['pollall']); w.runFor(2e6);
      ctx.nontrivial = wakes >= 3 && moved > 0;
    },
  }],
};
function matchWake(id, objs, now) {
  const o = objs.filter((y) => y.wreg?.w.id === id);
  must(o.length, () => `waker ${id} was invoked, but no live timer has it from its latest pending poll`);
  const fresh = o.filter((y) => !y.wreg.used);
  must(fresh.length, () => `waker ${id} was invoked again for ${o[0].kind}#${o[0].n}`);
  const due = fresh.filter((y) => y.D <= now).sort((x, y) => (x.D < y.D ? -1 : 1));
  must(due.length, () => `waker ${id} was invoked at ${now} ns, before the deadline of ${fresh[0].kind}#${fresh[0].n} (${fresh[0].D} ns)`);
  due[0].wreg.used = true;
}

export default { T09, T01, T02, T03, T04, T05, T06, T07, T08 };
