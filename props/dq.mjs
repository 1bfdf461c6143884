import { DqWorld, dqOps, RANGE_MS } from '../js/dqworld.mjs';
import { hostCfg, runUs, MS } from '../js/world.mjs';
import { must, Panic } from '../js/lib.mjs';
import { Host } from '../js/host.mjs';

const MIX = ['prod-checked', 'prod-plain', 'tu-checked'];
const MSn = 1_000_000n;
const rec = (fc, w, o) => fc.record({ cfg: hostCfg(fc), ops: dqOps(fc, w, o) });

function play(art, c, ctx, o, { eager = false, end = true } = {}) {
  const w = new DqWorld(art, c.cfg, o, ctx);
  w.eager = eager;
  for (const op of c.ops) w.step(op);
  if (end) for (const Q of w.qs) w.consume(Q);
  return w;
}
/** The last call of a case is documented to panic. */
function mustPanic(w, what, f) {
  let ok = false;
  try { f(); } catch (e) { if (!(e instanceof Panic)) throw e; ok = true; }
  must(ok, () => `${what} did not panic`);
}

const crowdArb = (fc, env) => fc.record({
  cfg: hostCfg(fc, { coarse: false }), n: fc.oneof({ weight: 6, arbitrary: fc.integer({ min: 200, max: 3000 }) }, { weight: 3, arbitrary: fc.constantFrom(255, 256, 257, 1023, 1025, 4097) }, { weight: 1, arbitrary: env.thorough ? fc.constantFrom(32769, 65537, 70001, 140001) : fc.constantFrom(16385, 32769, 65537) }),
  slots: fc.oneof(fc.constantFrom(1, 2, 3), fc.integer({ min: 1, max: 400 })), grid: fc.oneof(fc.constantFrom(1, 1, 64, 63, 65, 4096, 262144), fc.integer({ min: 1, max: 200_000 })), base: fc.integer({ min: 0, max: 5000 }), mult: fc.integer({ min: 1, max: 100_003 }),
  remove: fc.integer({ min: 2, max: 40 }), reset: fc.integer({ min: 2, max: 40 }), part: fc.integer({ min: 0, max: 100 }), mid: fc.constantFrom('none', 'none', 'compact', 'shrink', 'clear'), more: fc.nat(40),
  steps: fc.integer({ min: 1, max: 4 }), cap: fc.boolean(),
});
/** Thousands of entries, the most of them with the deadline of others. */
function crowd(art, c, ctx, o) {
  const h = new Host(art, { ...c.cfg, fuel: 20_000_000_000 }); const a = h.api; a.vh_base();
  const start = a.now(); const q = c.cap ? a.dq_with_capacity(c.n) : a.dq_new();
  const live = new Map(); let ids = 0; let yields = 0; let out = null; let top = 0n; let resets = 0; let removes = 0;
  const slot = (k) => BigInt(c.base + ((k * c.mult) % c.slots) * c.grid) * MSn;
  const place = (it, req) => { const now = a.now(); it.lo = start + (req > start ? ((req - start + MSn - 1n) / MSn) * MSn : 0n); it.future = req > now; };
  const insert = (k) => { const id = ++ids; const req = now0 + slot(k); const it = { id, tag: (id * 2654435761) >>> 0, key: a.dq_insert_at(q, id, (id * 2654435761) >>> 0, req) }; place(it, req); live.set(id, it); };
  const show = (it) => `entry ${it.id} of ${ids} (due ${it.lo} ns, now ${a.now()} ns)`;
  const left = (e, how) => {
    const it = live.get(e.id);
    must(it && e.tag === it.tag, () => `${how} returned entry ${e.id} of ${ids} ${it ? 'with another value' : 'which has left the queue'}`);
    live.delete(e.id);
    if (o.once) must(h.valDrops.get(e.id) === 1, () => `the value of ${show(it)} was dropped ${h.valDrops.get(e.id) || 0} times`);
    return it;
  };
  const drain = () => {
    let n = 0; let w = a.waker_new(1); const seq = h.wakes.length;
    for (;;) {
      const e = a.dq_poll(q, w);
      if (e === undefined) return n;
      if (e.id === 0xffffffff) { must(live.size === 0, () => `the queue ended with ${live.size} of ${ids} entries in it`); out = 'end'; return n; }
      const it = left(e, 'polling'); n++; yields++;
      const now = a.now();
      if (o.early) must(it.lo <= now && (e.deadline === it.lo || !it.future), () => `${show(it)} was yielded with the deadline ${e.deadline} ns`);
      if (o.order && it.future) { must(it.lo >= top, () => `${show(it)} was yielded after an entry due at ${top} ns`); top = it.lo; }
    }
  };
  const now0 = a.now();
  for (let k = 0; k < c.n; k++) insert(k);
  const modify = () => {
    for (const it of [...live.values()]) {
      if (it.id % c.remove === 1) { const e = (it.id & 1) ? a.dq_remove(q, it.key) : a.dq_try_remove(q, it.key); must(e !== undefined, () => `try_remove of ${show(it)} returned None`); must(e.id === it.id, () => `remove of ${show(it)} returned entry ${e.id}`); left(e, 'remove'); removes++; } else if (it.id % c.reset === 1) { const req = a.now() + slot(it.id * 7 + 3) + MSn; a.dq_reset_at(q, it.key, req); place(it, req); if (it.lo < top) top = it.lo; resets++; }
    }
  };
  if (o.len) must(a.dq_len(q) === live.size && a.dq_capacity(q) >= live.size, () => `len() is ${a.dq_len(q)} and capacity() ${a.dq_capacity(q)} with ${live.size} entries`);
  modify();
  const span = (c.base + c.slots * c.grid) * 1000 * c.part / 100;
  const pass = (us) => {
    for (let k = 0; k < c.steps; k++) { if (us / c.steps >= 1) h.block(Math.ceil(us / c.steps)); h.runDue(); drain(); }
  };
  pass(span);
  if (c.mid === 'compact') a.dq_compact(q); else if (c.mid === 'shrink') a.dq_shrink(q); else if (c.mid === 'clear' && live.size) { a.dq_clear(q); for (const it of [...live.values()]) left({ id: it.id, tag: it.tag }, 'clear'); top = 0n; }
  for (let k = 0; k < c.more; k++) { insert(k * 11); out = null; }
  if (c.more) top = 0n; // the new ones may be due before what came out
  if (o.len) must(a.dq_len(q) === live.size && a.dq_capacity(q) >= live.size, () => `len() is ${a.dq_len(q)} and capacity() ${a.dq_capacity(q)} with ${live.size} entries`);
  modify();
  // the rest: up to a turn per entry, and one per slot and level
  const last = [...live.values()].reduce((m, it) => (it.lo > m ? it.lo : m), 0n);
  const us = Number(last - a.now()) / 1000; if (us >= 1) h.block(Math.ceil(us));
  for (let k = 6 * (live.size + 62); k > 0 && out !== 'end'; k--) {
    drain(); if (out === 'end') break;
    const t = h.nextDue(); h.runFor(t ? Math.max(1, t.due - h.us + c.cfg.lateUs) : 1000, c.cfg.lateUs, 100_000);
  }
  must(out === 'end' && live.size === 0, () => `${live.size} of ${ids} entries were not yielded, such as ${show([...live.values()][0])}`);
  ctx.tag(c.n > 5000 ? 'over-5000' : c.n > 1000 ? 'over-1000' : 'hundreds');
  ctx.nontrivial = yields >= 200 && resets > 0 && removes > 0;
}
const crowdSuite = (o, quick = 24) => ({ name: 'crowd', variants: ['prod-checked', 'prod-plain'], quick, thorough: 3000, arb: crowdArb, run(art, c, ctx) { crowd(art, c, ctx, o); } });

const Q01 = {
  rule: 'Histories over up to three queues: insert (duration, instant, in the past, clusters around the slot boundaries of the wheel), poll, poll as a stream, remove, reset, clear, compact, time passing. Every entry leaves its queue exactly once, with its own value, key and value drop; the stream ends exactly when the model is empty; entries still due at the end reach a wake-driven consumer. Non-trivial: at least five entries were yielded and at least one left in another way or was reset. The second suite repeats its operations up to 120 times on the same queues, the third has hundreds to tens of thousands of entries in one queue, many with the deadline of others.',
  suites: [{
    name: 'histories', variants: MIX, quick: 10000, thorough: 600000,
    arb: (fc) => rec(fc, { ins: 8, insat: 4, insnear: 5, insmany: 1, poll: 6, drain: 5, follow: 3, remove: 2, tryremove: 2, reset: 2, resetat: 2, resetnear: 2, clear: 1, compact: 1, shrink: 1, run: 3, rundue: 5, block: 2, turn: 1, q: 1 }, { queues: 3 }),
    run(art, c, ctx) {
      const w = play(art, c, ctx, { once: true });
      w.finish();
      ctx.nontrivial = w.delivered >= 5 && (w.stats.removed || w.stats.clear || w.stats['reset-later'] || w.stats['reset-earlier']) > 0;
    },
  }, {
    // thousands of operations on the same queues
    name: 'marathon', variants: MIX, quick: 40, thorough: 10000,
    arb: (fc) => fc.record({ h: rec(fc, { ins: 8, insat: 4, insnear: 5, insmany: 1, poll: 5, drain: 7, follow: 2, remove: 3, tryremove: 3, trystale: 2, reset: 2, resetat: 2, resetnear: 3, clear: 1, compact: 1, shrink: 1, run: 4, rundue: 8, block: 2, turn: 1 }, { queues: 2, min: 20, max: 45 }), rep: fc.integer({ min: 20, max: 120 }) }),
    run(art, c, ctx) {
      const w = new DqWorld(art, { ...c.h.cfg, fuel: 2_000_000_000 }, { once: true, keys: true, early: true, deadline: true, order: true, len: true, wake: true }, ctx);
      const [q, ...ops] = c.h.ops;
      w.step(q);
      for (let k = 0; k < c.rep; k++) {
        for (const op of ops) w.step(op.length > 2 && /^(insnear|remove|tryremove|trystale|reset|rundue)/.test(op[0]) ? [op[0], op[1], op[2] + k, ...op.slice(3)] : op);
        for (const Q of w.qs) while (Q.items.size > 40) w.step(['remove', Q.n, k]);
        if (w.h.wakes.length > 5000) w.h.wakes.splice(0, 2500);
      }
      for (const Q of w.qs) w.consume(Q);
      w.finish();
      ctx.nontrivial = w.delivered >= 100 && w.ids >= 200;
    },
  }, crowdSuite({ once: true })],
};
const Q02 = {
  rule: 'Inserts and resets of every duration shape (sub-microsecond to hours, exact and fractional milliseconds, past instants) into queues created at fractional instants. An entry is not yielded before its deadline rounded up to the next millisecond since the creation of the queue, and the deadline it reports is that one (for entries that were due on insertion: one between theirs and the insertion). Non-trivial: at least three entries were yielded and one of them was polled for before it was due.',
  suites: [{
    name: 'not-early', variants: ['prod-checked', 'prod-plain', 'tu-checked', 'tu-plain'], quick: 12000, thorough: 700000,
    arb: (fc) => rec(fc, { ins: 8, insat: 5, insnear: 4, insmany: 1, poll: 8, drain: 6, follow: 3, remove: 2, tryremove: 1, reset: 3, resetat: 3, resetnear: 2, run: 4, rundue: 8, block: 3, turn: 2, compact: 1, q: 1, clear: 1 }, { queues: 2 }),
    run(art, c, ctx) {
      let pendings = 0;
      const w = new DqWorld(art, c.cfg, { early: true, deadline: true }, ctx);
      const poll = w.poll.bind(w);
      w.poll = (Q, s) => { const r = poll(Q, s); if (r === 'P') pendings++; return r; };
      for (const op of c.ops) w.step(op);
      for (const Q of w.qs) w.consume(Q);
      // what remains reports its deadline on removal, too
      for (const Q of w.qs) for (const it of [...Q.items.values()]) w.step(['remove', Q.n, [...Q.items.values()].indexOf(it)]);
      ctx.nontrivial = w.delivered >= 3 && pendings > 0;
    },
  }],
};
const Q03 = {
  rule: 'Many entries whose deadlines cluster within and across the slots of the wheel levels (1 ms, 64 ms, 4.1 s, 4.4 min), inserted, reset and removed in random order, consumed late. An entry that was in the future when it was last scheduled is never yielded while an entry with an earlier millisecond deadline is in the queue. Non-trivial: at least six entries were yielded out of insertion order.',
  suites: [{
    name: 'order', variants: MIX, quick: 10000, thorough: 600000,
    arb: (fc) => rec(fc, { ins: 8, insat: 2, insnear: 8, insmany: 3, poll: 4, drain: 4, remove: 2, reset: 3, resetat: 1, resetnear: 4, follow: 2, run: 2, rundue: 4, block: 4, turn: 2 }, { max: 80 }),
    run(art, c, ctx) {
      const seen = [];
      const w = new DqWorld(art, c.cfg, { order: true }, ctx);
      const gone = w.gone.bind(w);
      w.gone = (Q, it) => { seen.push(it.id); gone(Q, it); };
      for (const op of c.ops) w.step(op);
      for (const Q of w.qs) w.consume(Q, 20000e6);
      let inv = 0; for (let k = 1; k < seen.length; k++) if (seen[k] < seen[k - 1]) inv++;
      ctx.nontrivial = w.delivered >= 6 && inv >= 2;
    },
  }, crowdSuite({ order: true, early: true })],
};
const Q04 = {
  rule: 'Consumers that poll only when their waker was invoked (and, in half of the suites, at random) against concurrent inserts before the current head, resets to earlier, later and past, removals of the head and of the last entry, clear. After a pending poll the waker of that poll is invoked by the time an entry is due plus slack, at once when the queue becomes empty; the stream ends exactly on an empty queue. In one suite the clock goes on while the crate runs, so that each look at it finds it a bit later. Non-trivial: a wake was followed by an entry, and the queue was changed while a task was waiting.',
  suites: [{
    name: 'wake-driven', variants: MIX, quick: 8000, thorough: 500000,
    arb: (fc) => rec(fc, { ins: 6, insat: 4, insnear: 5, follow: 4, drain: 3, remove: 4, tryremove: 2, reset: 3, resetat: 4, resetnear: 3, clear: 1, compact: 1, run: 5, rundue: 6, block: 2, turn: 1 }, { max: 40 }),
    run(art, c, ctx) { q04(art, c, ctx, true); },
  }, {
    name: 'random-polls', variants: MIX, quick: 6000, thorough: 400000,
    arb: (fc) => rec(fc, { ins: 5, insat: 4, insnear: 4, insmany: 1, poll: 7, drain: 3, follow: 2, remove: 4, tryremove: 2, reset: 3, resetat: 4, resetnear: 3, clear: 1, run: 4, rundue: 6, block: 2, turn: 1, q: 1 }, { queues: 2 }),
    run(art, c, ctx) { q04(art, c, ctx, false); },
  }, {
    // several changes within one turn of the host, due and far entries mixed
    name: 'bursts', variants: MIX, quick: 4000, thorough: 400000,
    arb: (fc) => {
      const i = fc.nat({ max: 7 }); const ns = fc.oneof(fc.constantFrom(0, 0, -1, -MS, 1, MS), fc.integer({ min: -5 * MS, max: 5 * MS }), fc.integer({ min: 0, max: 3600 }).map((x) => x * 1000 * MS));
      const one = fc.oneof({ weight: 5, arbitrary: ns.map((x) => ['insat', 0, x]) }, { weight: 3, arbitrary: fc.tuple(i, ns).map(([k, x]) => ['resetat', 0, k, x]) }, { weight: 2, arbitrary: i.map((k) => ['remove', 0, k]) }, { weight: 3, arbitrary: fc.constant(['drain', 0]) }, { weight: 1, arbitrary: fc.boolean().map((b) => ['poll', 0, b]) });
      const turn = fc.oneof(runUs(fc).map((x) => ['run', Math.min(x, 600e6)]), fc.tuple(i, fc.integer({ min: -3000, max: 9000 })).map(([x, y]) => ['rundue', 0, x, y]), runUs(fc).map((x) => ['follow', 0, Math.min(x, 60e6)]), fc.constant(['turn']), runUs(fc).map((x) => ['block', x]));
      return fc.record({ cfg: hostCfg(fc, { coarse: false }), ops: fc.array(fc.tuple(fc.array(one, { minLength: 1, maxLength: 8, size: 'max' }), turn), { minLength: 1, maxLength: 6 }).map((L) => [['q', 0, 'new', 0], ...L.flatMap(([b, t]) => [...b, t])]) });
    },
    run(art, c, ctx) { q04(art, c, ctx, true); },
  }, {
    // every look at the clock finds it a bit later
    name: 'moving-clock', variants: MIX, quick: 4000, thorough: 300000,
    arb: (fc) => fc.record({ cfg: fc.tuple(hostCfg(fc, { coarse: false }), fc.constantFrom(1, 1, 7, 50, 400)).map(([x, readUs]) => ({ ...x, readUs })), ops: dqOps(fc, { ins: 6, insat: 4, insnear: 3, follow: 4, drain: 4, remove: 2, tryremove: 1, reset: 2, resetat: 3, resetnear: 2, clear: 1, run: 4, rundue: 6, turn: 3 }, { max: 40 }) }),
    run(art, c, ctx) { q04(art, c, ctx, true, { wake: true, early: true, deadline: true, once: true, order: true }); },
  }, {
    // few entries, so that the slack stays small
    name: 'few-entries', variants: MIX, quick: 6000, thorough: 400000,
    arb: (fc) => fc.record({ cfg: hostCfg(fc, { coarse: false }), ops: dqOps(fc, { ins: 2, insat: 1, follow: 4, drain: 3, remove: 2, reset: 2, resetat: 3, clear: 1, run: 5, rundue: 6 }, { max: 14 }) }),
    run(art, c, ctx) { q04(art, c, ctx, true); },
  }],
};
function q04(art, c, ctx, eager, o = { wake: true }) {
  let waiting = 0;
  const w = new DqWorld(art, c.cfg, o, ctx);
  w.eager = eager;
  for (const op of c.ops) { if (/^(ins|remove|try|reset|clear)/.test(op[0]) && w.qs.some((Q) => Q.pend && !w.woken(Q.pend))) waiting++; w.step(op); }
  for (const Q of w.qs) w.consume(Q);
  if (waiting) ctx.tag('changed-while-waiting');
  ctx.nontrivial = waiting > 0 && !!w.stats['followed-wake'] && w.delivered > 0;
}
const Q05 = {
  rule: 'Histories dominated by remove, try_remove (also with keys of entries that left), reset, reset_at and clear at every stage: pending in any wheel level, due but not yielded, already due on insertion. They affect the named entry only: it comes back with its value and deadline, the others are yielded unchanged, at their own deadlines. A final remove or reset with the key of an entry that left panics as documented. Non-trivial: at least two removals or resets of different kinds and three entries yielded.',
  suites: [{
    name: 'modify', variants: MIX, quick: 10000, thorough: 600000,
    arb: (fc) => fc.record({ cfg: hostCfg(fc), final: fc.nat(5), ops: dqOps(fc, { ins: 6, insat: 4, insnear: 4, insmany: 1, poll: 4, drain: 3, remove: 5, tryremove: 4, trystale: 4, reset: 4, resetat: 4, resetnear: 4, clear: 1, compact: 1, follow: 2, run: 2, rundue: 4, block: 3 }, { max: 70 }) }),
    run(art, c, ctx) {
      const w = play(art, c, ctx, { once: true, deadline: true, early: true, keys: true });
      const s = w.stats;
      ctx.nontrivial = ['removed', 'clear', 'reset-past', 'reset-earlier', 'reset-later', 'stale-key'].filter((k) => s[k]).length >= 2 && w.delivered >= 3;
      const Q = w.qs[0];
      if (c.final < 2 && Q.stale.length) {
        const k = Q.stale.at(-1);
        if (![...Q.items.values()].some((y) => w.a.key_eq(y.key, k))) {
          ctx.tag('final-panic');
          if (c.final === 0) mustPanic(w, 'remove with the key of an entry that has left', () => w.a.dq_remove(Q.h, k));
          else mustPanic(w, 'reset with the key of an entry that has left', () => w.a.dq_reset(Q.h, k, 1000n));
          return;
        }
      }
      w.finish();
    },
  }],
};
const Q06 = {
  rule: 'Histories with many removals and compact, shrink_to_fit and reserve calls in between, keys held over all of them. Every key keeps naming its own entry (remove and reset act on it, yielded entries carry it), no two entries in the queue share a key, and the yielded entries, their values and deadlines are those of the model. Non-trivial: an entry was removed or reset by a key that is older than a compact with holes.',
  suites: [{
    name: 'compact', variants: MIX, quick: 10000, thorough: 600000,
    arb: (fc) => rec(fc, { ins: 8, insat: 2, insnear: 4, insmany: 2, poll: 2, drain: 3, remove: 7, tryremove: 3, trystale: 3, reset: 3, resetat: 2, resetnear: 2, compact: 5, shrink: 2, reserve: 2, clear: 1, run: 1, rundue: 4, block: 2 }, { max: 90 }),
    run(art, c, ctx) {
      let old = false; let holes = false;
      const w = new DqWorld(art, c.cfg, { once: true, deadline: true, keys: true, order: true }, ctx);
      for (const op of c.ops) {
        const Q = w.qs[0];
        if (op[0] === 'compact' && Q?.stale.length && Q.items.size) { holes = true; w.cut = w.ids; }
        if (holes && /^(remove|tryremove|reset)/.test(op[0]) && Q.items.size) { const it = [...Q.items.values()][op[2] % Q.items.size]; if (it.id <= w.cut) old = true; }
        w.step(op);
      }
      for (const Q of w.qs) w.consume(Q);
      w.finish();
      ctx.nontrivial = old;
    },
  }],
};
const Q07 = {
  rule: 'Histories over queues made by new, default and with_capacity. After every operation len() and is_empty() agree with the model; capacity() is at least the length, at least what was asked of with_capacity and reserve, and does not change on an insert that fits; compact brings it down to about the length, shrink_to_fit to about the greatest length there was. A final reserve beyond the documented limit panics. Non-trivial: the length went up to at least four and down by a poll and by a removal.',
  suites: [{
    name: 'len', variants: MIX, quick: 8000, thorough: 500000,
    arb: (fc) => fc.record({ cfg: hostCfg(fc), final: fc.nat(4), over: fc.integer({ min: 2 ** 30 - 1, max: 2 ** 31 - 1 }), ops: dqOps(fc, { ins: 8, insat: 4, insnear: 3, insmany: 2, poll: 4, drain: 3, follow: 1, remove: 3, tryremove: 2, trystale: 1, reset: 2, resetat: 2, clear: 1, compact: 2, shrink: 2, reserve: 3, run: 2, rundue: 4, block: 2, q: 1 }, { queues: 2, caps: true }) }),
    run(art, c, ctx) {
      const w = play(art, c, ctx, { len: true });
      ctx.nontrivial = w.qs.some((Q) => Q.maxLen >= 4) && w.delivered > 0 && !!w.stats.removed;
      if (c.final === 0) {
        const Q = w.qs[0];
        if (w.a.dq_capacity(Q.h) + c.over > 2 ** 30 - 1) { ctx.tag('final-panic'); mustPanic(w, `reserve(${c.over})`, () => w.a.dq_reserve(Q.h, c.over)); }
      }
    },
  }, crowdSuite({ len: true }, 10)],
};
const Q08 = {
  rule: 'Queues that live for years of host time: entries anywhere up to 2^36 ms ahead, in every level of the wheel and across its turns, while the clock leaps by milliseconds to years (a sleeping machine). Nothing panics, nothing is early, lost or out of order, and a final insert or reset beyond 2^36 ms ahead of now, up to the largest Duration, panics as documented. Non-trivial: an entry more than 2^24 ms ahead was yielded.',
  assumptions: ['an entry is less than 2^36 ms ahead of the earliest entry in the queue that is due but was not polled yet (less the 2^30 ms of a slot)'],
  suites: [{
    name: 'years', variants: MIX, quick: 10000, thorough: 600000,
    arb: (fc) => fc.record({ cfg: hostCfg(fc, { coarse: false }), final: fc.nat(2), how: fc.nat(5), huge: fc.nat(3), over: fc.bigInt({ min: 1n, max: 1n << 40n }), ops: dqOps(fc, { ins: 8, insat: 2, insnear: 5, insmany: 1, drain: 6, poll: 2, remove: 2, reset: 2, resetat: 1, resetnear: 3, compact: 1, leap: 7, leapto: 7, follow: 1, turn: 1, clear: 1 }, { max: 60, far: true }) }),
    run(art, c, ctx) {
      let big = 0; let turns = 0;
      const w = new DqWorld(art, c.cfg, { once: true, deadline: true, early: true, order: true }, ctx);
      const gone = w.gone.bind(w);
      w.gone = (Q, it) => { if (it.lo <= w.a.now() && it.lo - w.ns(it) > (1n << 24n) * MSn) big++; if (it.lo - Q.start >= RANGE_MS * MSn) turns++; gone(Q, it); };
      w.ns = (it) => w.us2ns(it.armUs);
      for (const op of c.ops) w.step(op);
      const Q = w.qs[0];
      // sleep through everything that is left
      for (let k = 0; k < 40 && Q.items.size; k++) {
        const nx = [...Q.items.values()].reduce((m, it) => (it.lo < m ? it.lo : m), 1n << 100n);
        const us = Math.ceil(w.ns2us(nx) - w.h.us) + 1;
        w.drain(Q);
        if (us > 0) { w.h.block(us); w.lastBlockUs = w.h.us; }
        for (let j = 14 + 7 * Q.items.size; j > 0 && [...Q.items.values()].some((it) => it.lo <= nx); j--) { w.runFor(2 * w.slackUs); w.drain(Q); }
        must([...Q.items.values()].every((it) => it.lo > nx), () => `an entry due at ${nx} ns is still in the queue (host at ${w.h.us} µs)`);
      }
      if (turns) ctx.tag('beyond-one-turn');
      ctx.nontrivial = big > 0;
      if (c.final === 0) {
        const ahead = RANGE_MS + c.over; const far = w.a.now() + ahead * MSn;
        // beyond what 64-bit milliseconds, or an Instant, can hold
        const secs = c.huge === 0 ? ahead / 1000n + 1n : c.huge === 1 ? ahead << 10n : c.huge === 2 ? (1n << 64n) - 1n - c.over : ((1n << 64n) / 1000n) + ahead / 1000n;
        if (!w.inRange(Q, w.a.now() + MSn)) return; // not consumed for two years
        const it = (c.how ?? 0) > 2 ? w.insert(Q, w.a.now() + MSn, 'at') : null;
        ctx.tag('final-panic');
        const [what, f] = [
          ['insert_at', () => w.a.dq_insert_at(Q.h, 999999, 0, far)],
          ['insert', () => w.a.dq_insert(Q.h, 999999, 0, ahead * MSn)],
          ['insert', () => w.a.dq_insert_big(Q.h, 999999, 0, secs, 999_999_999)],
          ['reset_at', () => w.a.dq_reset_at(Q.h, it.key, far)],
          ['reset', () => w.a.dq_reset(Q.h, it.key, ahead * MSn)],
          ['reset', () => w.a.dq_reset_big(Q.h, it.key, secs, 999_999_999)],
        ][c.how ?? 0];
        if (ahead * MSn >= 1n << 63n && c.how !== 2 && c.how !== 5) return;
        mustPanic(w, `${what} more than 2^36 ms ahead`, f);
        return;
      }
      w.finish();
    },
  }],
};
const Q09 = {
  rule: 'Histories as for Q01/Q04, the handle of each waker given up right after the poll. Only the waker of the latest poll (or the latest pending poll) of a live queue may be invoked; once the host had a turn a queue holds no other, a dropped queue none, and the host is left idle. The leak suite repeats a random cycle of inserts and every way out of the queue (beside entries that stay for good) and compares capacity and the size of the wasm memory after hundreds and after thousands of cycles. Non-trivial: a waker was replaced by a later poll while its task was waiting, and entries were yielded.',
  suites: [{
    name: 'wakers', variants: MIX, quick: 6000, thorough: 400000,
    arb: (fc) => fc.record({ cfg: hostCfg(fc), keep: fc.boolean(), ops: dqOps(fc, { ins: 6, insat: 4, insnear: 3, insmany: 1, poll: 8, drain: 4, follow: 2, remove: 3, tryremove: 1, reset: 3, resetat: 3, resetnear: 2, clear: 1, compact: 1, run: 3, rundue: 5, block: 2, turn: 2, q: 2 }, { queues: 3 }) }),
    run(art, c, ctx) {
      const w = new DqWorld(art, c.cfg, {}, ctx);
      let replaced = 0; let dropped = false; const made = [];
      const mk = w.waker.bind(w);
      w.waker = () => { const r = mk(); made.push(r); return r; };
      const poll = w.poll.bind(w);
      w.poll = (Q, s) => {
        if (Q.pend && !w.woken(Q.pend)) replaced++;
        const n = made.length; Q.polling = w.nextWaker;
        const r = poll(Q, s);
        Q.latest = made[n].id; if (r === 'P') Q.waiting = made[n].id; w.a.waker_release(made[n].h);
        return r;
      };
      w.h.onWake = (id) => must(!dropped && w.qs.some((Q) => Q.latest === id || Q.waiting === id || Q.polling === id), () => `waker ${id} was invoked, but it is not from the latest poll of a queue, or the latest that was pending${dropped ? ', which are all dropped' : ''}`);
      const settled = () => { w.runFor(w.slackUs + w.turnUs + (w.h.maxPending + 5) * w.h.costUs + 1000); };
      const held = () => made.filter((r) => !w.h.wakerDrops.get(r.id));
      const ok = (n) => { const l = held(); must(l.length <= n, () => `wakers ${l.map((r) => r.id).join(', ')} are still held by ${w.qs.length} queues after the host ran`); };
      for (const op of c.ops) { w.step(op); if (op[0] === 'turn') { settled(); ok(2 * w.qs.length); } }
      settled(); ok(2 * w.qs.length);
      for (const r of made) must((w.h.wakerDrops.get(r.id) ?? 0) <= 1, () => `waker ${r.id} was dropped twice`);
      for (const Q of w.qs) w.a.dq_drop(Q.h);
      dropped = true; w.qs = [];
      settled(); ok(0);
      const n = w.h.callbacksRun; w.runFor(60e6);
      must(w.h.callbacksRun - n <= 64, () => `${w.h.callbacksRun - n} callbacks ran in 60 s after every queue was dropped`);
      ctx.nontrivial = replaced > 0 && w.delivered > 0;
    },
  }, {
    name: 'leak', variants: ['prod-checked', 'prod-plain', 'tu-checked'], quick: 90, thorough: 3000,
    arb: (fc) => fc.record({
      cfg: hostCfg(fc, { coarse: false }), stay: fc.integer({ min: 0, max: 8 }),
      cycle: fc.array(fc.tuple(fc.constantFrom('ins', 'ins', 'past', 'poll', 'drain', 'remove', 'stale', 'reset', 'resetpast', 'compact', 'clear', 'shrink', 'run', 'run', 'new'), fc.integer({ min: 0, max: 30 })), { minLength: 2, maxLength: 9, size: 'max' }),
    }),
    run(art, c, ctx) {
      const h = new Host(art, c.cfg); const a = h.api; a.vh_base();
      const wk = a.waker_new(1);
      let q = a.dq_new(); let id = 0; let live = []; let made = 0; let late = 0;
      const stay = () => { for (let k = 0; k < c.stay; k++) a.dq_insert(q, ++id, 0, BigInt(10_000_000 + k) * 1_000_000_000n); };
      stay();
      const t0 = h.us; const past = () => { const n = a.now(); return n > 0n ? n - 1n : h.us > 0 && t0 > 1 ? -1n : 0n; };
      const keys0 = a.keys_len();
      const poll = () => { const e = a.dq_poll(q, wk); const n = e?.id; e?.free(); if (e !== undefined && n !== 0xffffffff) { live = live.filter((x) => x[0] !== n); return true; } return false; };
      const cycle = () => {
        for (const [op, x] of c.cycle) {
          const o = live.length ? live[x % live.length] : null;
          if (op === 'ins') { for (let k = 0; k <= x % 5; k++) live.push([++id, a.dq_insert(q, id, 0, BigInt((x + k) * 1_000_000))]); } else if (op === 'past') live.push([++id, a.dq_insert_at(q, id, 0, past())]);
          else if (op === 'poll') late += poll(); else if (op === 'drain') { while (poll()) late++; } else if (op === 'remove' && o) { a.dq_remove(q, o[1]).free(); live.splice(live.indexOf(o), 1); } else if (op === 'stale' && o) { a.dq_remove(q, o[1]).free(); live.splice(live.indexOf(o), 1); a.dq_try_remove(q, o[1])?.free(); } else if (op === 'reset' && o) a.dq_reset(q, o[1], BigInt(x * 1_000_000));
          else if (op === 'resetpast' && o) a.dq_reset_at(q, o[1], past()); else if (op === 'compact') a.dq_compact(q); else if (op === 'shrink') a.dq_shrink(q); else if (op === 'clear') { a.dq_clear(q); live = []; stay(); } else if (op === 'run') h.runFor(x * 1000, c.cfg.lateUs); else if (op === 'new') { a.dq_drop(q); q = a.dq_new(); live = []; stay(); }
          made++;
        }
        h.runFor(60_000, c.cfg.lateUs);
        while (poll()) late++;
        for (const [, k] of live) a.dq_try_remove(q, k)?.free();
        live = [];
        h.runFor(8000, c.cfg.lateUs);
        h.wakes.length = 0; h.valDrops.clear(); a.keys_truncate(keys0);
      };
      const size = () => h.memory.buffer.byteLength;
      for (let i = 0; i < 300; i++) cycle();
      const s1 = size(); const c1 = a.dq_capacity(q);
      for (let i = 0; i < 2500; i++) cycle();
      must(a.dq_len(q) === c.stay, () => `${a.dq_len(q)} entries are in the queue, ${c.stay} were left in it`);
      ctx.tag(`grew:${Math.round((size() - s1) / 65536)}`);
      must(a.dq_capacity(q) <= c1, () => `the capacity grew from ${c1} to ${a.dq_capacity(q)} over 2500 cycles that leave ${c.stay} entries in the queue`);
      must(size() - s1 <= 2 * 65536, () => `memory grew from ${s1} to ${size()} bytes over 2500 cycles that leave ${c.stay} entries in the queue`);
      must(h.timers.length <= 60, () => `${h.timers.length} host callbacks are outstanding`);
      ctx.nontrivial = late > 0;
    },
  }],
};
const Q10 = {
  rule: 'Histories as for Q04 with entries in every level of the wheel, consumed by a task that polls whenever it is woken. Counted per history: the wakes are at most one per change of the queue and seven per scheduled entry (one per level it moves through, one to be yielded); the callbacks of the host are bounded by the operations, the polls, the same number of steps per entry and one per second. Non-trivial: at least five wakes and an entry that was more than a second ahead.',
  assumptions: ['the host clamps setTimeout to at least 1 ms'],
  suites: [{
    name: 'economy', variants: MIX, quick: 6000, thorough: 400000,
    arb: (fc) => fc.record({ cfg: fc.record({ granUs: fc.constantFrom(1, 1, 5, 100), minDelayMs: fc.constantFrom(1, 1, 4), lateUs: fc.constantFrom(0, 0, 100, 1000), costUs: fc.constant(0), startUs: fc.constantFrom(1_000_000, 86_400_000_000, 0, 2_500) }), ops: dqOps(fc, { ins: 6, insat: 3, insnear: 3, insmany: 1, drain: 3, follow: 4, remove: 3, reset: 3, resetat: 2, resetnear: 2, clear: 1, run: 5, rundue: 6, block: 2, turn: 1 }, { max: 40 }) }),
    run(art, c, ctx) {
      const w = new DqWorld(art, c.cfg, {}, ctx);
      w.eager = true; w.q = { ...w.q, wake: false };
      let sched = 0; let far = 0; let changes = 0; let polls = 0; const us0 = w.h.us;
      const place = w.place.bind(w);
      w.place = (Q, it, req) => { place(Q, it, req); sched++; if (it.lo - w.a.now() > 1_000_000_000n) far++; };
      const poll = w.poll.bind(w);
      w.poll = (Q, s) => { polls++; return poll(Q, s); };
      const check = () => {
        const wakes = w.h.wakes.length; const most = changes + 7 * sched + 4;
        must(wakes <= most, () => `${wakes} wakes for ${changes} changes and ${sched} entries scheduled`);
        const secs = (w.h.us - us0) / 1e6; const cb = 20 + 3 * (changes + polls) + 7 * sched + secs;
        must(w.h.callbacksRun <= cb, () => `${w.h.callbacksRun} callbacks ran for ${changes} changes, ${polls} polls, ${sched} entries scheduled and ${secs} s`);
        must(w.h.badDelays.length === 0, () => `setTimeout was called with a delay of ${w.h.badDelays[0]}`);
      };
      for (const op of c.ops) {
        changes += op[0] === 'insmany' ? op[2] : 1; w.step(op);
        for (const Q of w.qs) if (Q.pend && w.woken(Q.pend)) w.drain(Q);
        check();
      }
      for (const Q of w.qs) w.consume(Q);
      check();
      ctx.nontrivial = w.h.wakes.length >= 5 && far > 0;
    },
  }],
};
export default { Q09, Q10, Q01, Q02, Q03, Q04, Q05, Q06, Q07, Q08 };
