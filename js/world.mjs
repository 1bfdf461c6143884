// Model-based interpreter for histories of one-shot and periodic timers on the virtual host with
// running (not paused) time. Used by the T, I and O properties, which each switch on the oracle
// they state.
import { Host } from './host.mjs';
import { must } from './lib.mjs';

export const MS = 1_000_000; // ns per ms

// ---------------------------------------------------------------- generators

/** Durations in ns, from nothing to weeks, with the shapes that matter to a ms-granular host. */
export function durNs(fc, max = 60 * 86400_000) {
  const ms = (lo, hi) => fc.integer({ min: lo, max: hi }).map((x) => x * MS);
  const opts = [
    { weight: 1, arbitrary: fc.constant(0) },
    { weight: 2, arbitrary: fc.integer({ min: 0, max: 3 * MS }) },
    { weight: 2, arbitrary: fc.integer({ min: 0, max: 3000 }).map((us) => us * 1000) },
    { weight: 6, arbitrary: ms(0, 30) },
    { weight: 3, arbitrary: fc.integer({ min: 0, max: 50_000 }).map((us) => us * 1000 + 1) },
    { weight: 3, arbitrary: ms(20, 500) },
    { weight: 2, arbitrary: ms(500, 20_000) },
    { weight: 1, arbitrary: ms(20_000, 7_200_000) },
  ];
  if (max >= 2147483648) opts.push({ weight: 1, arbitrary: fc.integer({ min: 2147483600, max: 2147483700 }).map((x) => x * MS) }, { weight: 1, arbitrary: ms(86400_000, max) });
  return fc.oneof({ withCrossShrink: true }, ...opts);
}
/** How long the host runs or is blocked, in µs. */
export function runUs(fc) {
  return fc.oneof({ withCrossShrink: true },
    { weight: 2, arbitrary: fc.integer({ min: 0, max: 2000 }) },
    { weight: 4, arbitrary: fc.integer({ min: 0, max: 40 }).map((x) => x * 1000) },
    { weight: 3, arbitrary: fc.integer({ min: 10, max: 600 }).map((x) => x * 1000) },
    { weight: 2, arbitrary: fc.integer({ min: 1000, max: 60_000 }).map((x) => x * 1000) },
    { weight: 1, arbitrary: fc.integer({ min: 1, max: 300 }).map((x) => x * 60_000_000) },
  );
}
export function hostCfg(fc, { coarse = true, early = true } = {}) {
  return fc.record({
    granUs: coarse ? fc.constantFrom(1, 1, 1, 5, 20, 100, 1000, 16667) : fc.constant(1),
    minDelayMs: fc.constantFrom(1, 1, 1, 0, 4),
    lateUs: fc.constantFrom(0, 0, 0, 100, 1000, 7000),
    costUs: fc.constantFrom(0, 0, 10, 300),
    earlyUs: early ? fc.constantFrom(0, 0, 0, 0, 0, 100, 1000, 16_000) : fc.constant(0),
    startUs: fc.constantFrom(1_000_000, 1_234_567, 86_400_000_000, 5_000_001, 0, 700, 3_000, 40_000),
  });
}
/** One operation; handles are indices modulo the live objects, so any subsequence is a program. */
export function opArb(fc, w, max) {
  const i = fc.nat({ max: 63 });
  const d = durNs(fc, max);
  const all = {
    sleep: d.map((x) => ['sleep', x]),
    until: fc.tuple(d, fc.boolean()).map(([x, past]) => ['until', past ? -Math.min(x, 900 * MS) : x]),
    same: i.map((x) => ['same', x]), // a sleep with the deadline of another one
    near: fc.tuple(i, fc.integer({ min: -2_000_000, max: 2_000_000 })).map(([x, y]) => ['near', x, y]),
    burst: fc.tuple(fc.integer({ min: 2, max: 40 }), d, fc.integer({ min: -3 * MS, max: 3 * MS })).map(([n, x, st]) => ['burst', n, x, st]),
    to: d.map((x) => ['to', x]),
    iv: d.map((x) => ['iv', Math.max(x, 1)]),
    poll: fc.tuple(i, fc.constantFrom(0, 0, 0, 1, 2)).map(([x, k]) => ['poll', x, k]),
    reads: fc.tuple(fc.nat(12), fc.integer({ min: -1, max: 1 })).map(([x, y]) => ['reads', x, y]),
    pollall: fc.constant(['pollall']),
    reset: fc.tuple(i, d, fc.nat({ max: 9 })).map(([x, y, p]) => ['reset', x, p === 0 ? -Math.min(y, 900 * MS) : y]),
    resetnear: fc.tuple(i, i, fc.integer({ min: -2_000_000, max: 2_000_000 })).map(([x, y, z]) => ['resetnear', x, y, z]),
    resetmany: fc.tuple(i, fc.oneof({ weight: 5, arbitrary: fc.integer({ min: 2, max: 70 }) }, { weight: 3, arbitrary: fc.constantFrom(32, 63, 64, 127, 128, 256, 512) }, { weight: 1, arbitrary: fc.constantFrom(1024, 4096, 8192, 16384, 65536) }), d).map(([x, n, y]) => ['resetmany', x, n, y]),
    drop: i.map((x) => ['drop', x]),
    dropall: fc.constant(['dropall']),
    run: runUs(fc).map((x) => ['run', x]),
    rundue: fc.tuple(i, fc.integer({ min: -1500, max: 30_000 })).map(([x, y]) => ['rundue', x, y]),
    block: runUs(fc).map((x) => ['block', x]),
    turn: fc.constant(['turn']),
  };
  return fc.oneof({ withCrossShrink: false }, ...Object.keys(w).map((k) => ({ weight: w[k], arbitrary: all[k] })));
}
export function worldArb(fc, weights, { minOps = 1, maxOps = 60, max = 60 * 86400_000, cfg } = {}) {
  return fc.record({ cfg: cfg ?? hostCfg(fc), ops: fc.array(opArb(fc, weights, max), { minLength: minOps, maxLength: maxOps, size: 'max' }) });
}

// ---------------------------------------------------------------- interpreter

const now = (h) => { const s = h.still; h.still = true; const t = h.api.now(); h.still = s; return t; }; // BigInt ns since base

export class World {
  /** oracle: {early, prompt, order, economy, ...}: which statements are asserted. */
  constructor(art, cfg, oracle, ctx) {
    this.h = new Host(art, cfg);
    this.a = this.h.api;
    this.cfg = this.h.cfg;
    this.o = oracle;
    this.ctx = ctx;
    this.late = this.cfg.lateUs ?? 0;
    this.turnUs = this.cfg.minDelayMs * 1000 + this.late;
    // Several callbacks may be needed in a row: the one that sees a new timer, the one at the
    // truncated delay, the one that makes up for it.
    this.slackUs = this.cfg.granUs + 2 * this.turnUs + 3000 + 100 * this.h.readUs;
    this.h.still = true; this.a.vh_base(); this.h.still = false;
    this.baseUs = this.h.us - (this.h.us % this.cfg.granUs);
    this.floor = -BigInt(this.baseUs) * 1000n; // the origin of the clock, the earliest instant there is
    this.objs = []; // live timers
    this.wk = new Map(); // waker id -> record
    this.nextWaker = 1;
    this.lastBlockUs = this.h.us;
    this.fires = 0;
    this.armed = 0;
    this.created = 0;
    this.onFire = null;
  }
  /** The clock, which does not go on because of that. */
  clock() { return now(this.h); }
  /** Runs f while the clock stands still. */
  quietly(f) { const s = this.h.still; this.h.still = true; const r = f(); this.h.still = s; return r; }
  past(D) { return D < this.floor ? this.floor : D; }
  us2ns(us) { return BigInt(Math.round((us - this.baseUs) * 1000)); }
  ns2us(ns) { return Number(ns) / 1000 + this.baseUs; }
  waker() {
    const id = this.nextWaker++;
    const r = { id, h: this.a.waker_new(id) };
    this.wk.set(id, r);
    return r;
  }
  add(kind, h, D) {
    const o = { kind, h, D, n: this.created++ };
    this.arm(o, D);
    this.objs.push(o);
    return o;
  }
  arm(o, D) { o.vague = false;
    o.D = D; o.armUs = this.h.us; o.armSeq = this.h.wakeSeq; o.done = false; o.poll = null; o.fired = false;
    o.first = this.armed++;
  }
  pick(i) { return this.objs.length ? this.objs[i % this.objs.length] : null; }
  elapsed(o) {
    if (o.kind === 'sleep') return this.a.sleep_is_elapsed(o.h);
    return o.done;
  }
  promptBy(o) {
    if (o.vague) return Infinity; // the model knows a lower bound of the deadline only
    // every callback that is outstanding may run first
    const queue = (this.h.maxPending + 4) * this.h.costUs;
    return Math.max(this.ns2us(o.D), o.armUs + this.turnUs, this.lastBlockUs) + this.slackUs + queue;
  }

  /** Polls an object; returns true when it completed. */
  poll(o, k = 0) {
    let w;
    if (k === 1 && this.lastW) w = this.lastW; // a task that polls several timers
    else if (k === 2 && o.poll) w = o.poll.w; // polled again by the same task
    else w = this.waker();
    this.lastW = w;
    let ready; let val;
    if (o.kind === 'sleep') ready = this.a.sleep_poll(o.h, w.h);
    else if (o.kind === 'to') { const r = this.a.to_poll(o.h, w.h); ready = r !== -1n; val = r; must(r === -1n || r === -2n, () => `timeout of a pending future returned ${r}`); } else { val = this.a.iv_poll(o.h, w.h); ready = val !== undefined; }
    if (!ready) {
      o.poll = o.wreg = { w, seq: this.h.wakeSeq, used: false };
      if (this.o.fused && o.done) must(false, () => `completed ${this.show(o)} is pending again without a reset`);
      return false;
    }
    this.checkReady(o, 'completed');
    if (o.kind === 'iv') {
      if (this.o.tick) must(val === o.D, () => `tick returned ${val}, scheduled at ${o.D}`);
            // Burst, the default: always one period after the previous one
      this.arm(o, o.D + o.per);
    } else { o.done = true; o.poll = null; }
    return true;
  }
  show(o) { return `${o.kind}#${o.n} (deadline ${o.D} ns, now ${now(this.h)} ns)`; }
  /** A timer that reports completion must be due on the clock of the crate and of the host. */
  checkReady(o, what) {
    if (!o.fired) { o.fired = true; this.fires++; this.onFire?.(o); }
    if (!this.o.early) return;
    must(now(this.h) >= o.D, () => `${this.show(o)} ${what} early`);
    must(this.h.us * 1000 >= this.ns2us(o.D) * 1000 - 1000, () => `${this.show(o)} ${what} early by the clock of the host`);
  }
  checkAll(final = false) {
    const us = this.h.us;
    for (const o of this.objs) {
      if (o.kind === 'sleep') {
        const e = this.a.sleep_is_elapsed(o.h);
        if (e) this.checkReady(o, 'is elapsed');
        if (this.o.fused && o.done && !e) must(false, () => `completed ${this.show(o)} is no longer elapsed`);
        if (this.o.deadline) must(this.a.sleep_deadline(o.h) === o.D, () => `deadline() of ${this.show(o)} is ${this.a.sleep_deadline(o.h)}`);
      }
      if (this.o.prompt && us > this.promptBy(o)) {
        this.ctx.tag('due');
        if (o.kind === 'sleep') must(this.a.sleep_is_elapsed(o.h), () => `${this.show(o)} did not fire by ${this.promptBy(o)} µs (host at ${us})`);
        if (o.poll && !this.woken(o)) must(false, () => `${this.show(o)}: the task that polled it last was not woken by ${this.promptBy(o)} µs (host at ${us})`);
      }
    }
    if (final) return;
  }
  woken(o) {
    const { w, seq } = o.poll;
    const L = this.h.wakes;
    for (let i = L.length - 1; i >= 0 && L[i].seq >= seq; i--) if (L[i].id === w.id) return true;
    return false;
  }
  runFor(us) {
    const r = this.h.runFor(us, this.late, 100_000);
    must(r >= 0, () => `the host is kept busy: 100000 callbacks within ${us} µs`);
    return r;
  }
  step(op) { this.act(op); this.checkAll(); }
  /** Executes one operation without looking at the result. */
  act(op) {
    const { a, h } = this;
    switch (op[0]) {
      case 'sleep': { const t = now(h); this.add('sleep', a.sleep_new(BigInt(op[1])), t + BigInt(op[1])); break; }
      case 'until': { const t = now(h); const D = this.past(t + BigInt(op[1])); this.add('sleep', a.sleep_until(D), D); break; }
      case 'reads': { const t = now(h); const D = this.past(t + BigInt(op[1] * h.readUs * 1000 + op[2])); this.add('sleep', a.sleep_until(D), D); break; }
      case 'same': case 'near': {
        const o = this.pick(op[1]); if (!o) break;
        const D = o.D + BigInt(op[2] ?? 0);
        if (D < this.floor) break;
        this.add('sleep', a.sleep_until(D), D); break;
      }
      case 'burst': for (let k = 0; k < op[1]; k++) this.act(['sleep', Math.max(0, op[2] + k * op[3])]); break;
      case 'to': { const t = now(h); this.add('to', a.to_ctl(BigInt(op[1]), undefined), t + BigInt(op[1])); break; }
      case 'iv': { const t = now(h); const o = this.add('iv', a.iv_new(BigInt(op[1])), t); o.per = BigInt(op[1]); break; }
      case 'poll': { const o = this.pick(op[1]); if (o && !(o.kind === 'to' && o.done)) this.poll(o, op[2]); break; }
      case 'pollall': for (const o of this.objs) if (!(o.kind === 'to' && o.done)) this.poll(o); break;
      case 'reset': case 'resetnear': {
        const o = this.pick(op[1]); if (!o || o.kind !== 'sleep') break;
        let D;
        if (op[0] === 'reset') D = this.past(now(h) + BigInt(op[2]));
        else { const p = this.pick(op[2]); D = p.D + BigInt(op[3]); if (D < this.floor) break; }
        this.ctx.tag(o.done || a.sleep_is_elapsed(o.h) ? 'reset-after-fire' : D < o.D ? 'reset-earlier' : 'reset-later');
        a.sleep_reset(o.h, D);
        this.arm(o, D);
        break;
      }
      case 'resetmany': { // so many times before the host has a turn
        const o = this.pick(op[1]); if (!o || o.kind !== 'sleep') break;
        const t = now(h); const D = this.past(t + BigInt(op[3]));
        for (let k = 1; k < op[2]; k++) a.sleep_reset(o.h, k % 3 ? D + BigInt(k % 3) * 1_000_000n : t);
        a.sleep_reset(o.h, D);
        this.ctx.tag(o.done || a.sleep_is_elapsed(o.h) ? 'reset-after-fire' : D < o.D ? 'reset-earlier' : 'reset-later');
        this.arm(o, D);
        break;
      }
      case 'drop': { const o = this.pick(op[1]); if (!o) break; this.drop(o); break; }
      case 'dropall': for (const o of [...this.objs]) this.drop(o); break;
      case 'run': this.runFor(op[1]); break;
      case 'rundue': {
        const o = this.pick(op[1]); if (!o) break;
        const us = Math.floor(this.ns2us(o.D) - h.us + op[2]);
        if (us > 0) this.runFor(us);
        break;
      }
      case 'block': h.block(op[1]); this.lastBlockUs = h.us; break;
      case 'turn': h.runDue(); break;
      default: throw new Error('op ' + op[0]);
    }
  }
  drop(o) {
    this.objs.splice(this.objs.indexOf(o), 1);
    if (o.kind === 'sleep') this.a.sleep_drop(o.h);
    else if (o.kind === 'to') this.a.to_drop(o.h);
    else this.a.iv_drop(o.h);
    o.dropped = true;
  }
}
