// E01: async programs over everything the crate offers, on an executor.
import { Host } from '../js/host.mjs';
import { durNs, hostCfg, runUs, MS } from '../js/world.mjs';
import { must } from '../js/lib.mjs';

const MSn = 1_000_000n;
const ceilMs = (x) => ((x + MSn - 1n) / MSn) * MSn;
const max = (...L) => L.reduce((a, b) => (b > a ? b : a));
const min = (...L) => L.reduce((a, b) => (b < a ? b : a));

// ---------------------------------------------------------------- generator

function progArb(fc, { paused = false } = {}) {
  const d = fc.oneof({ withCrossShrink: true }, { weight: 8, arbitrary: durNs(fc, 1000).map((x) => Math.min(x, 20_000 * MS)) }, { weight: 3, arbitrary: fc.constantFrom(0, 1, MS, 5 * MS, 10 * MS, 10 * MS, 64 * MS, 100 * MS) });
  const any = fc.oneof({ weight: 12, arbitrary: d }, { weight: 1, arbitrary: durNs(fc) });
  const leaf = fc.oneof({ withCrossShrink: true },
    { weight: 1, arbitrary: fc.constant(['none', 0]) },
    { weight: 8, arbitrary: d.map((x) => ['sleep', 0, x]) },
    { weight: 2, arbitrary: d.map((x) => ['until', 0, x]) },
    { weight: 2, arbitrary: fc.tuple(any, d, d).map(([x, y, z]) => ['reset', 0, x, y, z]) },
    { weight: 2, arbitrary: fc.constant(['yield', 0]) },
    paused ? { weight: 2, arbitrary: fc.oneof(d, fc.integer({ min: 0, max: 30 * MS })).map((x) => ['adv', 0, x]) } : { weight: 1, arbitrary: runUs(fc).map((x) => ['block', 0, Math.min(x, 2_000_000)]) });
  const few = (a, hi) => fc.array(a, { minLength: 1, maxLength: hi, size: 'max' });
  const body = (sub) => fc.oneof({ weight: 2, arbitrary: fc.constant(['none', 0]) }, { weight: 2, arbitrary: sub });
  const level = (sub) => fc.oneof({ withCrossShrink: true },
    { weight: 4, arbitrary: leaf },
    { weight: 3, arbitrary: few(sub, 4).map((L) => ['seq', 0, L]) },
    { weight: 3, arbitrary: fc.tuple(fc.constantFrom('join', 'joinall'), few(sub, 5)).map(([k, L]) => [k, 0, L]) },
    { weight: 3, arbitrary: few(sub, 4).map((L) => ['race', 0, L]) },
    { weight: 4, arbitrary: fc.tuple(fc.constantFrom('timeout', 'timeout', 'timeoutat'), d, sub).map(([k, x, c]) => [k, 0, x, c]) },
    { weight: 3, arbitrary: fc.tuple(d, fc.integer({ min: 1, max: 5 }), fc.nat(2), body(sub)).map(([x, n, m, b]) => ['interval', 0, Math.max(x, 1), n, m, b]) },
    { weight: 3, arbitrary: fc.tuple(few(d, 6), body(sub)).map(([L, b]) => ['queue', 0, L, b]) },
    { weight: 2, arbitrary: fc.tuple(d, body(sub), fc.nat(1)).map(([x, c, k]) => ['held', 0, x, c, k]) },
    { weight: 2, arbitrary: fc.tuple(d, few(sub, 4)).map(([x, L]) => ['keep', 0, x, L]) },
    { weight: 2, arbitrary: few(fc.tuple(fc.oneof(d, fc.constant(0)), fc.constantFrom(0, 0, 1), fc.nat(5), d), 8).map((L) => ['feed', 0, L.map((x) => ['sleep', 0, x[0]]), L.map((x) => x.slice(1))]) },
    { weight: 1, arbitrary: fc.tuple(d, sub).map(([x, c]) => ['abort', 0, x, c]) },
    { weight: 1, arbitrary: sub.map((c) => ['spawn', 0, c]) });
  return level(level(level(leaf)));
}
/** Where the children of a node are. */
const AT = { seq: 2, join: 2, joinall: 2, race: 2, timeout: 3, timeoutat: 3, queue: 3, interval: 5, spawn: 2, held: 3, keep: 3, feed: 2, abort: 3 };
const MANY = new Set(['seq', 'join', 'joinall', 'race', 'keep', 'feed']);
const kids = (n) => (!AT[n[0]] ? [] : MANY.has(n[0]) ? n[AT[n[0]]] : [n[AT[n[0]]]]);
/** How many executions of nodes a program makes at most. */
const cost = (n) => 1 + (n[0] === 'interval' ? n[3] : n[0] === 'queue' ? n[2].length : 1) * kids(n).reduce((s, c) => s + cost(c), 0);
/** Numbers the nodes. */
function number(n, byId) {
  const m = [...n]; m[1] = byId.length; byId.push(m);
  const at = AT[n[0]];
  if (at) m[at] = MANY.has(n[0]) ? n[at].map((c) => number(c, byId)) : number(n[at], byId);
  return m;
}

// ---------------------------------------------------------------- oracle

/**
 * Reads the log of a program. `due(D, from, t, extra)` is asked whether something that could be done at
 * D, by a task that waits since `from`, may be reported at (or still be outstanding at) t.
 */
class Judge {
  constructor(byId, due) { this.byId = byId; this.due = due; this.runs = new Map(); this.ends = 0; this.counts = {}; this.lastBlock = null; }
  name(r) { return `${r.n[0]}#${r.n[1]} (started at ${r.t0} ns)`; }
  bump(k) { this.counts[k] = (this.counts[k] || 0) + 1; }
  read(log) {
    for (let i = 0; i < log.length; i += 5) this.event(Number(log[i]), Number(log[i + 1]), log[i + 2], log[i + 3], log[i + 4]);
  }
  /** What the execution waits for: [instant, waiting since, extra], if it is a wait by itself. */
  waits(r) {
    const [k, , a, b, c] = r.n;
    switch (k) {
      case 'sleep': case 'until': case 'timeout': case 'timeoutat': return [r.t0 + BigInt(a), r.t0, 0];
      case 'reset': return r.mark === undefined ? [r.t0 + BigInt(Math.min(a, b)), r.t0, 0] : [r.mark + BigInt(c), r.mark, 0];
      case 'interval': return r.waiting === undefined ? null : [r.next, r.waiting, 0];
      case 'abort': return r.mark === undefined ? null : [r.mark + BigInt(a), r.mark, 0];
      case 'held': return r.mark === undefined ? [r.t0 + BigInt(a), r.t0, 0] : null;
      case 'keep': return [(r.mark ?? r.t0) + BigInt(a), r.mark ?? r.t0, 0];
      case 'feed': return r.waiting === undefined || !r.map.size ? null : [min(...r.map.values()), r.waiting, 8 * (r.map.size + 4)];
      case 'queue': return r.waiting === undefined ? null : [r.left.length ? r.left[0] : r.t0, r.waiting, 8 * (a.length + 4)];
      case 'yield': case 'block': case 'adv': return [r.t0, r.t0, 0];
      default: return null;
    }
  }
  inTime(r, t, what) {
    const w = this.waits(r);
    if (w) must(this.due(w[0], w[1], t, w[2]), () => `${this.name(r)} was to go on at ${w[0]} ns, and ${what} at ${t} ns`);
  }
  notEarly(r, D, t, what) { must(t >= D, () => `${this.name(r)} ${what} at ${t} ns, which is before ${D} ns`); }
  event(kind, inst, t, x, y) {
    this.t = t;
    if (kind === 9) return;
    if (kind === 0) {
      const n = this.byId[Number(x)]; const p = y >= 0n ? this.runs.get(Number(y)) : null;
      const r = { n, t0: t, open: true, kids: [], p };
      if (p) p.kids.push(r);
      if (n[0] === 'interval') r.next = t;
      if (n[0] === 'queue') { r.left = n[2].map((d) => t + ceilMs(BigInt(d))).sort((a, b) => (a < b ? -1 : a > b ? 1 : 0)); r.ids = new Set(n[2].keys()); }
      if (n[0] === 'feed') r.map = new Map();
      this.runs.set(inst, r);
      return;
    }
    const r = this.runs.get(inst); const n = r.n;
    if (kind === 6) { this.lastBlock = t; return; }
    must(r.open, () => `${this.name(r)} goes on after its end`);
    if (kind === 7) { r.waiting = t; return; }
    if (kind === 3) {
      this.notEarly(r, r.t0 + BigInt(x === 0n ? n[2] : n[3]), t, x === 0n ? 'completed' : 'timed out');
      this.inTime(r, t, 'went on'); r.mark = t; return;
    }
    if (kind === 4) { // tick
      must(x === r.next, () => `${this.name(r)}: tick ${y} is ${x} ns, scheduled for ${r.next} ns`);
      this.notEarly(r, r.next, t, `ticked`); this.inTime(r, t, 'ticked');
      const per = BigInt(n[2]); const late = t - x;
      r.next = late <= 5n * MSn || n[4] === 0 ? x + per : n[4] === 1 ? t + per : t + per - (late % per);
      r.waiting = undefined; this.bump('tick'); return;
    }
    if (kind === 8 && n[0] === 'keep') { this.inTime(r, t, 'was set anew'); r.mark = t; this.bump('watchdog'); return; }
    if (kind === 8 && n[0] === 'held') { this.notEarly(r, this.waits(r)[0], t, 'completed'); this.inTime(r, t, 'completed'); r.mark = t; this.bump('sleep'); return; }
    if (kind === 8 && n[0] === 'abort') { r.mark = t; return; }
    if (kind === 8) { // the owner of a queue was told something
      this.inTime(r, t, 'was told something');
      const k = Number(x); r.waiting = undefined;
      this.bump(r.map.has(k) ? y < 0n ? 'removed' : 'moved' : 'inserted');
      if (y < 0n) r.map.delete(k); else r.map.set(k, r.t0 + ceilMs(t - r.t0 + y));
      return;
    }
    if (kind === 5 && n[0] === 'feed') {
      const k = Number(y); const D = r.map.get(k);
      must(D !== undefined, () => `${this.name(r)}: entry ${k} is not there any more`);
      must(x === D, () => `${this.name(r)}: entry ${k} reports the deadline ${x} ns instead of ${D} ns`);
      this.notEarly(r, D, t, `gave entry ${k}`); this.inTime(r, t, `gave entry ${k}`);
      r.map.delete(k); r.waiting = undefined; this.bump('entry'); return;
    }
    if (kind === 5) { // entry
      const k = Number(y);
      must(r.ids.delete(k), () => `${this.name(r)}: entry ${k} came twice`);
      const D = r.t0 + ceilMs(BigInt(n[2][k]));
      must(x === D, () => `${this.name(r)}: entry ${k} reports the deadline ${x} ns instead of ${D} ns`);
      must(D === r.left[0], () => `${this.name(r)}: entry ${k} (${D} ns) came before an entry due at ${r.left[0]} ns`);
      this.notEarly(r, D, t, `gave entry ${k}`); this.inTime(r, t, `gave entry ${k}`);
      r.left.shift(); r.waiting = undefined; this.bump('entry'); return;
    }
    // the end
    r.open = false;
    if (kind === 2) { this.inTime(r, t, 'was still waiting'); this.bump('cancelled'); return; }
    this.ends++;
    const done = r.kids.filter((c) => c.end !== undefined);
    r.end = t;
    switch (n[0]) {
      case 'sleep': case 'until': this.notEarly(r, this.waits(r)[0], t, 'completed'); this.inTime(r, t, 'completed'); this.bump('sleep'); break;
      case 'reset': this.notEarly(r, this.waits(r)[0], t, 'completed'); this.inTime(r, t, 'completed'); this.bump('reset'); break;
      case 'timeout': case 'timeoutat': {
        this.inTime(r, t, 'ended');
        if (x === 0n) { this.notEarly(r, this.waits(r)[0], t, 'timed out'); must(!done.length, () => `${this.name(r)} timed out, but the future in it was done`); this.bump('timed-out'); } else { must(done.length === 1, () => `${this.name(r)} gave a value, but the future in it was not done`); this.bump('in-time'); }
        break;
      }
      case 'queue': must(!r.ids.size, () => `${this.name(r)} ended with ${r.ids.size} entries in it`); this.inTime(r, t, 'ended'); break;
      case 'yield': case 'adv': this.inTime(r, t, 'ended'); break;
      case 'abort': this.notEarly(r, this.waits(r)[0], t, 'completed'); this.inTime(r, t, 'completed'); this.bump('aborted'); break;
      case 'keep': if (x === 1n) this.notEarly(r, this.waits(r)[0], t, 'barked'); this.inTime(r, t, 'ended'); this.bump(x === 1n ? 'barked' : 'kept'); break;
      case 'feed': must(!r.map.size, () => `${this.name(r)} ended with ${r.map.size} entries in it`); break;
      case 'race': must(done.length === 1, () => `harness: ${done.length} ended`); break;
      default:
    }
  }
  /** Nothing is overdue, at the end. */
  finish(t) {
    for (const r of this.runs.values()) {
      if (!r.open) { if (r.n[0] === 'abort' && r.end !== undefined) must(!r.kids.some((c) => c.open), () => `${this.name(r)}: the aborted task is still there`); continue; }
      this.inTime(r, t, 'is still waiting');
      const [k] = r.n;
      if (!this.waits(r) && k !== 'none') must(r.kids.some((c) => c.open), () => `${this.name(r)} waits for nothing, and has not ended by ${t} ns`);
    }
  }
}

const small = (tasks) => tasks.reduce((s, x) => s + cost(x.prog), 0) <= 250;

const running = {
  name: 'running', variants: ['prod-checked', 'prod-plain', 'tu-checked'], quick: 4000, thorough: 400000,
  arb: (fc) => fc.record({
    cfg: hostCfg(fc), mode: fc.nat(2),
    tasks: fc.array(fc.record({ gap: runUs(fc).map((x) => Math.min(x, 100_000)), prog: progArb(fc) }), { minLength: 1, maxLength: 4, size: 'max' }).filter(small),
    steps: fc.array(fc.tuple(runUs(fc).map((x) => Math.min(x, 2_000_000)), fc.oneof(fc.constant(0), runUs(fc).map((x) => Math.min(x, 1_000_000)))), { maxLength: 6 }),
  }),
  run(art, c, ctx) {
    const h = new Host(art, c.cfg); const a = h.api; const late = c.cfg.lateUs;
    if (c.mode === 2) h.onReady = () => { h.setTimeout(() => a.ex_run(), 0); }; // tasks run in turns of their own
    a.ex_mode(c.mode === 1 ? 1 : 0);
    a.vh_base();
    const baseUs = h.us - (h.us % h.cfg.granUs);
    const turnUs = h.cfg.minDelayMs * 1000 + late;
    const ns = (us) => BigInt(Math.round((us - baseUs) * 1000));
    const blocks = []; // when they ended
    h.onBlock = () => blocks.push(ns(h.us));
    const due = (D, from, t, extra) => {
      let B = 0n; for (const b of blocks) if (b <= t + BigInt(h.cfg.granUs) * 1000n && b > B) B = b;
      const queue = (h.maxPending + 4) * h.cfg.costUs;
      const slack = h.cfg.granUs + (c.mode === 2 ? 4 : 2) * turnUs + 3000 + queue + extra * (turnUs + 1000 + 8 * h.cfg.costUs);
      return t <= max(D, from + BigInt(turnUs) * 1000n, B) + BigInt(slack) * 1000n;
    };
    const byId = []; const j = new Judge(byId, due);
    const run = (us) => { must(h.runFor(us, late, 100_000) >= 0, 'the host is kept busy'); j.read(a.ex_log()); };
    for (const t of c.tasks) {
      if (t.gap) run(t.gap);
      a.ex_spawn(JSON.stringify(number(t.prog, byId))); h.drainMicro();
    }
    for (const [us, bl] of c.steps) { run(us); if (bl) { h.block(bl); blocks.push(ns(h.us)); } }
    run(60_000_000);
    j.finish(a.now());
    for (const k in j.counts) ctx.tag(k);
    ctx.tag(['later', 'from-the-waker', 'own-turn'][c.mode]);
    ctx.nontrivial = j.ends >= 6 && Object.keys(j.counts).length >= 3;
  },
};
const paused = {
  name: 'paused', variants: ['tu-checked', 'tu-plain'], quick: 4000, thorough: 400000,
  arb: (fc) => fc.record({
    cfg: hostCfg(fc), mode: fc.nat(1),
    tasks: fc.array(fc.record({ gap: fc.oneof(fc.constant(0), durNs(fc, 1000).map((x) => Math.min(x, 2000 * MS))), prog: progArb(fc, { paused: true }) }), { minLength: 1, maxLength: 4, size: 'max' }).filter(small),
    advs: fc.array(fc.oneof({ weight: 1, arbitrary: durNs(fc, 1000).map((x) => Math.min(x, 20_000 * MS)) }, { weight: 4, arbitrary: fc.constant('next') }, { weight: 1, arbitrary: fc.integer({ min: -2, max: 2 }).map((x) => ['near', x]) }), { minLength: 2, maxLength: 25, size: 'max' }),
  }),
  run(art, c, ctx) {
    const h = new Host(art, c.cfg); const a = h.api;
    a.ex_mode(c.mode);
    a.vh_base();
    a.sleep_drop(a.sleep_new(MSn)); h.runFor(20_000_000, c.cfg.lateUs); // the driver is there
    a.tu_pause();
    const points = []; // all the instants there were
    const see = () => { const n = a.now(); if (points[points.length - 1] !== n) points.push(n); };
    see();
    const byId = []; let loose = false;
    for (const t of c.tasks) t.json = JSON.stringify(number(t.prog, byId));
    if (byId.some((n) => n[0] === 'adv')) loose = true;
    // reported at the first instant at which it was possible
    const due = (D, from, t) => { if (loose) return true; const w = max(D, from); const p = points.find((q) => q >= w); return p === undefined || t <= p; };
    const j = new Judge(byId, due);
    const w = { id: 1, h: a.waker_new(1) };
    const settle = () => { h.drainMicro(); see(); j.read(a.ex_log()); j.finish(a.now()); };
    const advance = (ns) => { const t = a.now() + ns; if (points[points.length - 1] !== t) points.push(t); a.tu_advance(ns, w.h); settle(); };
    for (const t of c.tasks) {
      if (t.gap) advance(BigInt(t.gap));
      a.ex_spawn(t.json);
      settle();
    }
    const soonest = () => { let D = null; for (const r of j.runs.values()) { const x = r.open && j.waits(r); if (x && x[0] > a.now() && (D === null || x[0] < D)) D = x[0]; } return D; };
    const until = (off) => { const D = soonest(); if (D !== null && D + off > a.now()) advance(D + off - a.now()); };
    for (const x of c.advs) { if (x === 'next') until(0n); else if (Array.isArray(x)) until(BigInt(x[1])); else advance(BigInt(x)); }
    if (!loose) must(h.timers.length <= 1, () => `${h.timers.length} host callbacks are outstanding while the time is paused`);
    for (const k in j.counts) ctx.tag(k);
    ctx.tag(['later', 'from-the-waker'][c.mode]);
    if (loose) ctx.tag('advanced-by-a-task');
    ctx.nontrivial = j.ends >= 6 && Object.keys(j.counts).length >= 3;
  },
};

const E01 = {
  rule: 'Cases are programs of one to four tasks: trees of sleeps, timeouts, intervals, delay queues (read as streams, or owned by a task that gets commands through a channel), watchdogs, resets, yields and computations, combined by sequence, join (futures unordered or join_all), select, timeout, spawn and abort, written as async code and run on an executor that runs tasks in microtasks, in turns of its own, or from within the waker. Every step is logged with its instant. No wait ends early, none is reported or still outstanding later than its slack allows, ticks and entries have the exact instants of the reference, timeouts give an error exactly if the future in them was not done by the deadline, and no task hangs. With time paused the instants are exact: each wait ends at the first instant, of those the clock was advanced to, at which it can. Non-trivial: at least six steps ended and three of sleep, reset, tick, entry, timeout in time, timeout passed, cancellation, watchdog, queue command occurred.',
  suites: [running, paused],
};
export default { E01 };
