import { Host } from '../js/host.mjs';
import { World, hostCfg, durNs, runUs, MS } from '../js/world.mjs';
import { must } from '../js/lib.mjs';

const MIX = ['prod-checked', 'prod-plain', 'tu-checked'];
const LAG = 5n * 1_000_000n; // a tick that is polled later than this has been missed

/** Reference for what follows a tick that was scheduled at `d` and is taken at `now`. */
function nextTicks(d, now, per, mtb) {
  const lag = now - d;
  const normal = d + per;
  const missed = mtb === 0 ? normal : mtb === 1 ? now + per : now + per - (lag % per);
  return lag > LAG ? missed : normal;
}
/** The same if it is only known that the clock showed something from n0 to n1 then: -> [lo, hi] of what may follow. */
function ranges(d, n0, n1, per, mtb) {
  const at = (n) => nextTicks(d, n, per, mtb);
  if (n0 === n1) return [[at(n0), at(n0)]];
  const out = [];
  if (n0 - d <= LAG) out.push([d + per, d + per]);
  if (n1 - d > LAG) {
    const a = n0 - d > LAG ? n0 : d + LAG + 1n;
    if (mtb === 1) out.push([at(a), at(n1)]);
    else for (let n = at(a); n <= at(n1); n += per) out.push([n, n]);
  }
  return out;
}

class IvWorld extends World {
  constructor(art, cfg, ctx) { super(art, cfg, { early: true, prompt: true }, ctx); this.ticks = 0; this.missed = [0, 0, 0]; this.cancels = 0; this.resets = 0; this.kinds = new Set(); }
  addIv(h, start, per, mtb) { const o = this.add('iv', h, start); o.per = per; o.mtb = mtb; o.alts = [[start, start]]; o.ticks = 0; o.fut = false; return o; }
  show(o) { return `interval#${o.n} (period ${o.per} ns, behaviour ${['Burst', 'Delay', 'Skip'][o.mtb]}, tick ${o.ticks} scheduled at ${o.alts.map(([x, y]) => (x === y ? x : `${x}..${y}`)).join(' or ')} ns, now ${this.clock()} ns)`; }
  promptBy(o) { const d = o.alts ? o.alts.reduce((x, y) => (x > y[1] ? x : y[1]), o.alts[0][1]) : o.D; const keep = o.D; o.D = d; const r = super.promptBy(o); o.D = keep; return r; }
  /** via: 'poll_tick' or 'tick' (a tick() future that is kept over pending polls) */
  pollIv(o, via) {
    const w = this.waker(); const before = this.clock();
    const v = via === 'tick' ? this.a.iv_tick_poll(o.h, w.h) : this.a.iv_poll(o.h, w.h);
    this.kinds.add(via);
    if (v === undefined) { o.poll = { w, seq: this.h.wakeSeq }; if (via === 'tick') o.fut = true; must(this.h.us <= this.promptBy(o), () => `${this.show(o)} does not tick`); return false; }
    o.fut = false;
    const now = this.clock();
    must(now >= v, () => `${this.show(o)} ticked for ${v}, before that instant`);
    must(o.alts.some(([x, y]) => v >= x && v <= y), () => `${this.show(o)} ticked for ${v}`);
    const lag = now - v;
    if (lag > LAG) this.missed[o.mtb]++;
    const alts = ranges(v, before, now, o.per, o.mtb);
    this.arm(o, alts.reduce((x, y) => (x < y[0] ? x : y[0]), alts[0][0]));
    o.alts = alts; o.ticks++; this.ticks++;
    return true;
  }
  drain(o, via, cap = 30) { let n = 0; while (n < cap && this.pollIv(o, via)) n++; return n; }
  /** A consumer that only polls when it was woken. */
  follow(o, us, via) {
    const end = this.h.us + us;
    this.drain(o, via);
    for (let k = 0; k < 60 && this.h.us < end; k++) {
      const n0 = this.h.wakes.length;
      const dt = Math.min(end - this.h.us, Math.max(1, Math.ceil(this.promptBy(o) + 1 - this.h.us)));
      // stop at the first wake
      let left = dt;
      while (left > 0 && this.h.wakes.length === n0) {
        const t = this.h.nextDue();
        const stepUs = t ? Math.min(left, Math.max(1, t.due + this.late - this.h.us)) : left;
        this.runFor(stepUs); left -= stepUs;
      }
      this.checkAll();
      if (this.h.wakes.length > n0) this.drain(o, via);
    }
  }
  ivStep(op) {
    const { a } = this;
    const iv = () => this.objs[op[1] % (this.objs.length || 1)];
    switch (op[0]) {
      case 'new': { const t = this.clock(); this.addIv(this.quietly(() => a.iv_new(BigInt(op[1]))), t, BigInt(op[1]), 0); break; }
      case 'at': { const s = this.past(this.clock() + BigInt(op[1])); this.addIv(a.iv_at(s, BigInt(op[2])), s, BigInt(op[2]), 0); break; }
      case 'mtb': { const o = iv(); if (!o) break; a.iv_set_mtb(o.h, op[2]); o.fut = false; o.mtb = op[2]; break; }
      case 'poll': { const o = iv(); if (!o) break; if (o.fut) { a.iv_tick_cancel(o.h); o.fut = false; } this.pollIv(o, 'poll_tick'); break; }
      case 'tick': { const o = iv(); if (o) this.pollIv(o, 'tick'); break; }
      case 'drain': { const o = iv(); if (!o) break; if (o.fut) { a.iv_tick_cancel(o.h); o.fut = false; } this.drain(o, 'poll_tick'); break; }
      case 'cancel': { const o = iv(); if (o?.fut) { a.iv_tick_cancel(o.h); o.fut = false; o.poll = null; this.cancels++; } break; }
      case 'follow': { const o = iv(); if (o) this.follow(o, op[2], op[3] ? 'tick' : 'poll_tick'); break; }
      case 'reset': { const o = iv(); if (!o) break; const D = this.clock() + o.per; this.quietly(() => a.iv_reset(o.h)); this.arm(o, D); o.alts = [[D, D]]; o.fut = false; this.resets++; break; }
      case 'get': {
        const o = iv(); if (!o) break;
        if (o.fut) { a.iv_tick_cancel(o.h); o.fut = false; o.poll = null; }
        must(a.iv_period(o.h) === o.per, () => `${this.show(o)}: period() is ${a.iv_period(o.h)}`);
        must(a.iv_get_mtb(o.h) === o.mtb, () => `${this.show(o)}: missed_tick_behavior() is ${a.iv_get_mtb(o.h)}`);
        must(a.mtb_default() === 0, 'the default behaviour is not Burst');
        break;
      }
      case 'drop': { const o = iv(); if (o) this.drop(o); break; }
      case 'run': this.runFor(op[1]); break;
      case 'rundue': { const o = iv(); if (!o) break; const us = Math.floor(this.ns2us(o.D) - this.h.us + op[2]); if (us > 0 && us < 3600e6) this.runFor(us); break; }
      case 'block': this.h.block(op[1]); this.lastBlockUs = this.h.us; break;
      case 'periods': { const o = iv(); if (!o) break; const us = Math.min(Math.floor(Number(o.per) / 1000 * op[2]), 3600e6); if (op[3]) { this.h.block(us); this.lastBlockUs = this.h.us; } else this.runFor(us); break; }
      case 'turn': this.h.runDue(); break;
      default: throw new Error(op[0]);
    }
    this.checkAll();
  }
}

function periodNs(fc) {
  return fc.oneof(
    { weight: 5, arbitrary: fc.integer({ min: 1, max: 40 }).map((x) => x * MS) },
    { weight: 3, arbitrary: fc.integer({ min: 10, max: 1000 }).map((x) => x * MS) },
    { weight: 2, arbitrary: fc.integer({ min: 1, max: 20_000 }).map((x) => x * 1000) },
    { weight: 1, arbitrary: fc.integer({ min: 1, max: 30_000_000 }) },
    { weight: 1, arbitrary: fc.integer({ min: 1, max: 3600 }).map((x) => x * 1000 * MS) },
  );
}
function ivOps(fc, w, max = 50) {
  const i = fc.nat({ max: 7 });
  const all = {
    new: periodNs(fc).map((p) => ['new', p]),
    at: fc.tuple(fc.oneof(durNs(fc, 10_000_000), fc.integer({ min: -900, max: 900 }).map((x) => x * MS)), periodNs(fc)).map(([s, p]) => ['at', s, p]),
    mtb: fc.tuple(i, fc.constantFrom(0, 1, 2)).map(([x, b]) => ['mtb', x, b]),
    poll: i.map((x) => ['poll', x]), tick: i.map((x) => ['tick', x]), drain: i.map((x) => ['drain', x]), cancel: i.map((x) => ['cancel', x]),
    follow: fc.tuple(i, runUs(fc).map((x) => Math.min(x, 120e6)), fc.boolean()).map(([x, us, t]) => ['follow', x, us, t]),
    reset: i.map((x) => ['reset', x]), get: i.map((x) => ['get', x]), drop: i.map((x) => ['drop', x]),
    run: runUs(fc).map((x) => ['run', Math.min(x, 600e6)]), block: runUs(fc).map((x) => ['block', x]),
    rundue: fc.tuple(i, fc.oneof(fc.integer({ min: -6000, max: 12_000 }), fc.constantFrom(-1, 0, 1, 4999, 5000, 5001))).map(([x, y]) => ['rundue', x, y]),
    periods: fc.tuple(i, fc.integer({ min: 0, max: 80 }).map((x) => x / 16), fc.boolean()).map(([x, y, b]) => ['periods', x, y, b]),
    turn: fc.constant(['turn']),
  };
  const one = fc.oneof(...Object.keys(w).map((k) => ({ weight: w[k], arbitrary: all[k] })));
  const start = fc.oneof(all.new, all.at);
  return fc.tuple(start, fc.array(one, { minLength: 1, maxLength: max, size: 'max' })).map(([s, r]) => [s, ...r]);
}
const cfgArb = (fc) => hostCfg(fc);

const I01 = {
  rule: 'One to several intervals (interval and interval_at, start in the past or the future, periods from 1 ns to an hour) consumed on time by a task that polls only when it is woken, on hosts of different resolution and lateness. Tick k is reported for start + k * period, not before that instant, once, and a woken consumer sees it within the slack. In the second suite an interval ticks up to thousands of times. Non-trivial: at least four ticks of one interval.',
  suites: [{
    name: 'schedule', variants: MIX, quick: 12000, thorough: 700000,
    arb: (fc) => fc.record({ cfg: cfgArb(fc), ops: ivOps(fc, { new: 1, at: 1, follow: 8, poll: 2, drain: 2, tick: 2, run: 2, rundue: 2, turn: 1, drop: 1 }, 25) }),
    run(art, c, ctx) {
      const w = new IvWorld(art, c.cfg, ctx);
      for (const op of c.ops) w.ivStep(op);
      if (w.missed[0]) ctx.tag('burst-catch-up');
      ctx.nontrivial = w.objs.some((o) => o.ticks >= 4);
    },
  }, {
    // thousands of ticks
    name: 'marathon', variants: MIX, quick: 30, thorough: 6000,
    arb: (fc, env) => fc.record({
      cfg: hostCfg(fc, { coarse: false }), start: durNs(fc, 1_000_000), per: fc.oneof(fc.integer({ min: 1, max: 20_000 }).map((x) => x * 1000), fc.integer({ min: 1, max: 100 }).map((x) => x * MS), fc.integer({ min: 1, max: 50_000_000 })),
      n: fc.oneof(fc.integer({ min: 200, max: 3000 }), fc.constantFrom(257, 1025, 4097, env.thorough ? 66_000 : 5000)), step: fc.integer({ min: 1, max: 700 }), mtb: fc.nat(2), tick: fc.boolean(),
    }),
    run(art, c, ctx) {
      const h = new Host(art, c.cfg); const a = h.api; a.vh_base();
      const D0 = BigInt(c.start); const per = BigInt(c.per);
      const iv = a.iv_at(D0, per); if (c.mtb) a.iv_set_mtb(iv, c.mtb);
      const turn = c.cfg.minDelayMs * 1000 + c.cfg.lateUs; const slack = 2 * turn + 3000 + 8 * h.costUs;
      const w = a.waker_new(1); let D = D0; let idle = 0; let since = 0n;
      for (let k = 0; k < c.n && idle < 20_000;) {
        const v = c.tick ? a.iv_tick_poll(iv, w) : a.iv_poll(iv, w);
        const t = a.now();
        if (v === undefined) {
          if (!idle) since = t > D ? t : D;
          must(t <= since + BigInt(slack) * 1000n, () => `tick ${k} (scheduled at ${D} ns, period ${per} ns) is outstanding at ${t} ns`);
          idle++;
          const x = h.nextDue(); h.runFor(x ? Math.max(1, Math.min(x.due + c.cfg.lateUs - h.us, 1_000_000_000)) : c.step, c.cfg.lateUs);
          continue;
        }
        must(v === D, () => `tick ${k} was reported for ${v} ns instead of ${D} ns (start ${D0} ns, period ${per} ns)`);
        must(t >= v, () => `tick ${k} (${v} ns) came early, at ${t} ns`);
        D = nextTicks(v, t, per, c.mtb); idle = 0; k++;
        if (k % c.step === 0) h.block(1 + (k % 4000));
      }
      ctx.nontrivial = idle === 0;
    },
  }],
};
const I02 = {
  rule: 'Intervals of every missed tick behaviour (changed on the way) whose consumer or host is late by fractions and multiples of the period. Each returned instant and the one scheduled after it must be those of a reference implementation: on time within 5 ms, Burst keeps the schedule, Delay restarts it from now, Skip takes the next multiple after now. In the second suite the clock goes on while the crate runs, and the instants are known up to that. Non-trivial: at least one tick missed by more than 5 ms with Delay or Skip, followed by another tick.',
  suites: [{
    name: 'missed', variants: MIX, quick: 14000, thorough: 800000,
    arb: (fc) => fc.record({ cfg: cfgArb(fc), ops: ivOps(fc, { new: 1, at: 1, mtb: 5, poll: 6, drain: 3, tick: 2, run: 2, block: 3, periods: 8, rundue: 4, follow: 2, turn: 1 }, 40) }),
    run(art, c, ctx) {
      const w = new IvWorld(art, c.cfg, ctx);
      for (const op of c.ops) w.ivStep(op);
      // whatever is scheduled next must be seen
      for (const o of w.objs) if (o.per < 600n * 1_000_000_000n) { if (o.fut) { w.a.iv_tick_cancel(o.h); o.fut = false; } const us = Math.ceil(w.promptBy(o) + 1 - w.h.us); if (us > 0) w.runFor(us); must(w.pollIv(o, 'poll_tick'), () => `${w.show(o)} does not tick`); }
      w.missed.forEach((n, b) => n && ctx.tag('missed:' + ['Burst', 'Delay', 'Skip'][b]));
      ctx.nontrivial = w.missed[1] + w.missed[2] > 0 && w.ticks >= 2;
    },
  }, {
    // every look at the clock finds it a bit later
    name: 'moving-clock', variants: MIX, quick: 4000, thorough: 300000,
    arb: (fc) => fc.record({ cfg: fc.tuple(hostCfg(fc, { coarse: false }), fc.constantFrom(1, 1, 7, 50)).map(([x, readUs]) => ({ ...x, readUs })), ops: ivOps(fc, { at: 1, mtb: 4, poll: 5, drain: 3, tick: 2, reset: 2, run: 2, block: 3, periods: 8, rundue: 4, follow: 3, turn: 1 }, 40).filter((L) => L.every((x) => x[0] !== 'at' && x[0] !== 'new' || x[x.length - 1] >= 2 * MS)) }),
    run(art, c, ctx) {
      const w = new IvWorld(art, c.cfg, ctx);
      for (const op of c.ops) w.ivStep(op);
      ctx.nontrivial = w.ticks >= 3 && w.missed.some((x) => x);
    },
  }],
};
const I03 = {
  rule: 'Intervals on which reset, tick() futures that are dropped while pending, poll_tick, set_missed_tick_behavior and the getters are mixed. After reset the next tick is one period from now; a cancelled tick() loses nothing; period() and missed_tick_behavior() report what was set. Non-trivial: a reset or a cancelled tick() followed by a tick.',
  suites: [{
    name: 'reset-cancel', variants: MIX, quick: 12000, thorough: 700000,
    arb: (fc) => fc.record({ cfg: cfgArb(fc), ops: ivOps(fc, { new: 1, at: 1, mtb: 3, poll: 3, tick: 6, cancel: 4, drain: 2, reset: 5, get: 4, run: 3, block: 1, periods: 4, rundue: 5, follow: 3, drop: 1 }, 45) }),
    run(art, c, ctx) {
      const w = new IvWorld(art, c.cfg, ctx);
      let ok = false;
      for (const op of c.ops) { const t = w.ticks; const armed = w.resets + w.cancels > 0; w.ivStep(op); if (armed && w.ticks > t) ok = true; }
      for (const o of w.objs) if (o.per < 600n * 1_000_000_000n) { const us = Math.ceil(w.promptBy(o) + 1 - w.h.us); if (us > 0) w.runFor(us); must(w.pollIv(o, o.fut ? 'tick' : 'poll_tick'), () => `${w.show(o)} does not tick`); w.ivStep(['get', w.objs.indexOf(o)]); }
      if (w.resets) ctx.tag('reset'); if (w.cancels) ctx.tag('cancel');
      ctx.nontrivial = ok;
    },
  }],
};

export default { I01, I02, I03 };
