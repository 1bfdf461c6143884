// C: the pausable clock of the `tokio-test-util` feature.
import { Host } from '../js/host.mjs';
import { durNs, hostCfg, runUs, MS } from '../js/world.mjs';
import { must, Panic } from '../js/lib.mjs';

const TU = ['tu-checked', 'tu-plain'];
const MSn = 1_000_000n;
const ceilMs = (x) => ((x + MSn - 1n) / MSn) * MSn;

/** Everything that can be timed, on a clock that the history pauses, advances and resumes. */
export class PausedWorld {
  constructor(art, cfg, o, ctx) {
    this.h = new Host(art, cfg); this.a = this.h.api; this.o = o; this.ctx = ctx; this.cfg = this.h.cfg;
    this.late = this.cfg.lateUs;
    this.turnUs = this.cfg.minDelayMs * 1000 + this.late;
    this.slackUs = this.cfg.granUs + 2 * this.turnUs + 3000;
    this.a.vh_base();
    this.floor = -BigInt(this.q()) * 1000n;
    this.paused = false;
    this.ref = 0n; this.refUs = this.q(); // model: now == ref + (host - refUs) while running
    this.tolUs = 1; // the clock is read in whole microseconds
    this.last = 0n;
    this.objs = []; this.qs = []; this.ids = 0; this.nextWaker = 1;
    this.timerMade = false; this.primed = false;
    this.lastBlockUs = this.h.us; this.resumedUs = this.h.us;
    this.fires = 0; this.stats = {};
    // what an operation that is under way has hold of: user code that runs meanwhile leaves it alone
    this.busy = new Set();
  }
  using(x, f) { if (this.busy.has(x)) return undefined; this.busy.add(x); try { return f(); } finally { this.busy.delete(x); } }
  q() { const g = this.cfg.granUs; return Math.floor(this.h.us / g) * g; }
  bump(k) { this.stats[k] = (this.stats[k] || 0) + 1; this.ctx.tag(k); }
  model() { return this.paused ? this.ref : this.ref + BigInt(Math.round((this.q() - this.refUs) * 1000)); }
  now() {
    const n = this.a.now();
    if (this.o.clock) {
      const m = this.model(); const d = n > m ? n - m : m - n;
      must(d <= BigInt(this.tolUs) * 1000n, () => `Instant::now() is ${n} ns, expected ${m} ns (${this.paused ? 'paused' : 'running'})`);
      if (this.paused) { if (this.frozen !== undefined) must(n === this.frozen, () => `Instant::now() is ${n} ns, but the time is paused at ${this.frozen} ns`); }
      must(n >= this.last, () => `Instant::now() went back from ${this.last} ns to ${n} ns`);
    }
    this.last = n;
    return n;
  }
  // the model moves first: tasks may run from within these calls
  pause() {
    this.ref = this.model(); this.paused = true; this.tolUs += 1; this.frozen = undefined;
    this.a.tu_pause();
    this.snap();
    this.made();
  }
  snap() { if (this.paused && this.frozen === undefined) { this.frozen = this.now(); this.ref = this.frozen; this.tolUs = 0; } }
  resume() {
    this.snap();
    this.paused = false; this.refUs = this.q(); this.tolUs = 1; this.frozen = undefined;
    this.resumedUs = this.h.us;
    this.a.tu_resume();
    this.made();
  }
  advance(ns) {
    const seq = this.h.wakeSeq;
    this.snap();
    this.ref += BigInt(ns); this.frozen = this.ref;
    if (!this.nested) this.dirty = false;
    const w = this.waker();
    const polls = this.a.tu_advance(BigInt(ns), w.h);
    this.release(w);
    must(polls <= 100, () => `advance did not complete`);
    this.made();
    return seq;
  }
  /** A timer exists from the first timed object (or transition) on. */
  made() {
    // while the time runs, changes wait for a turn of the host; only then pause and advance see them
    if (this.timerMade && !this.paused) this.primed = false;
    if (!this.timerMade) { this.timerMade = true; if (this.paused) this.primed = true; }
  }
  waker() { const id = this.nextWaker++; return { id, h: this.a.waker_new(id) }; }
  runFor(us) { this.dirty = false; const r = this.h.runFor(us, this.late, 100_000); must(r >= 0, () => `the host is kept busy: 100000 callbacks within ${us} µs`); if (r > 0 && this.timerMade) this.primed = !this.dirty; return r; }
  wokenBetween(id, lo, hi = Infinity) { return this.h.wakes.findIndex((w) => w.id === id && w.seq >= lo && w.seq < hi); }
  add(kind, h, D, per) { const o = { kind, h, D, per, n: this.objs.length, done: false, pend: null, armUs: this.h.us }; this.objs.push(o); this.made(); this.bump(kind); return o; }
  show(o) { return `${o.kind}#${o.n} (deadline ${o.D} ns, now ${this.a.now()} ns, ${this.paused ? 'paused' : 'running'})`; }
  hostOf(D) { return this.paused ? Infinity : this.refUs + Number(D - this.ref) / 1000; }
  /** 'now' | 'not' | 'may': must the object complete if it is polled now? */
  expect(o) {
    const now = this.now();
    if (o.D > now) return 'not';
    if (this.nested) return 'may'; // of several that are due, the others may be next
    if (this.paused && this.primed) return 'now';
    return this.h.us > this.promptBy(o) ? 'now' : 'may';
  }
  promptBy(o) { return this.paused ? Infinity : Math.max(this.hostOf(o.D), o.armUs, this.lastBlockUs, this.resumedUs) + this.slackUs + this.turnUs + (this.h.maxPending + 4) * this.h.costUs; }
  /** The task is done with the waker: the timer, if any, has the only one left. */
  release(w) { if (this.frugal) this.a.waker_release(w.h); }
  poll(o) { return this.using(o, () => this.poll_(o)); }
  poll_(o) {
    const e = this.expect(o);
    const w = this.waker(); const seq = this.h.wakeSeq;
    let ready; let v;
    if (o.kind === 'sleep') ready = this.a.sleep_poll(o.h, w.h);
    else if (o.kind === 'to') { v = this.a.to_poll(o.h, w.h); ready = v !== -1n; } else { v = this.a.iv_poll(o.h, w.h); ready = v !== undefined; }
    if (this.o.fire) {
      if (ready && !o.done) must(e !== 'not' || o.D <= this.now(), () => `${this.show(o)} completed early`);
      // a timeout or a tick may need the delay to be seen by the host first
      if (!ready) must(e !== 'now', () => `${this.show(o)} is due, but pending`);
      if (o.kind === 'iv' && ready) must(v === o.D, () => `${this.show(o)}: the tick returned ${v} ns`);
    }
    if (!ready) { o.pend = o.wreg = { w, seq, used: false }; this.release(w); return; }
    o.pend = null; this.fires++;
    if (o.kind === 'iv') { const n = this.a.now(); if (n - o.D > 5n * MSn) this.bump('late-tick'); o.D += o.per; o.armUs = this.h.us; } else o.done = true;
    this.release(w);
  }
  check() {
    for (const o of this.objs) {
      const e = this.expect(o);
      if (this.o.fire && o.kind === 'sleep') {
        const el = this.a.sleep_is_elapsed(o.h);
        if (e === 'not') must(!el, () => `${this.show(o)} is elapsed early`);
        if (e === 'now') must(el, () => `${this.show(o)} is due, but not elapsed`);
      }
      if (this.o.fire && e === 'now' && o.pend) must(this.wokenBetween(o.pend.w.id, o.pend.seq) >= 0, () => `${this.show(o)} is due, but the task that polled it was not woken`);
    }
    for (const Q of this.qs) this.checkQ(Q);
  }
  checkOrder(seq) {
    // wakes of one advance come in the order of the deadlines
    if (this.dirty) return; // tasks made changes meanwhile
    const L = this.objs.filter((o) => o.pend && o.kind !== 'iv').map((o) => [o, this.wokenBetween(o.pend.w.id, Math.max(seq, o.pend.seq))]).filter((x) => x[1] >= 0).sort((x, y) => x[1] - y[1]);
    for (let k = 1; k < L.length; k++) must(L[k - 1][0].D <= L[k][0].D, () => `advance woke ${this.show(L[k - 1][0])} before ${this.show(L[k][0])}`);
    if (L.length > 1) this.bump('several-at-once');
  }

  // ---- delay queues (with an exact model while the time is paused)
  newQ() { const start = this.now(); this.qs.push({ h: this.a.dq_new(), start, items: new Map(), pend: null, n: this.qs.length }); }
  place(Q, it, req) { const now = this.now(); it.req = req; it.lo = Q.start + (req > Q.start ? ceilMs(req - Q.start) : 0n); it.exp = it.lo <= now; it.hi = it.exp ? now + 1_000_000n : it.lo; }
  insert(Q, req, rel) {
    const id = ++this.ids; const d = req - this.now();
    const key = rel && d >= 0n ? this.a.dq_insert(Q.h, id, id, d) : this.a.dq_insert_at(Q.h, id, id, req);
    const it = { id, key }; this.place(Q, it, req); Q.items.set(id, it); this.made();
  }
  checkDeadline(it, e) { must(e.deadline >= it.lo && e.deadline <= it.hi, () => `entry ${it.id} (requested ${it.req} ns, due ${it.lo} ns) reports the deadline ${e.deadline} ns`); }
  drain(Q) { this.using(Q, () => this.drain_(Q)); }
  drain_(Q) {
    const got = [];
    for (let k = 0; k < 300; k++) {
      const w = this.waker(); const seq = this.h.wakeSeq;
      const e = this.a.dq_poll(Q.h, w.h);
      if (e === undefined) { Q.pend = { w, seq }; got.end = 'P'; this.release(w); break; }
      Q.pend = null; this.release(w);
      if (e.id === 0xffffffff) { got.end = 'N'; break; }
      got.push(e);
    }
    if (!this.o.dq) { for (const e of got) Q.items.delete(e.id); return; }
    const now = this.now();
    const show = (it) => `entry ${it.id} (requested ${it.req} ns, due ${it.lo} ns, queue created ${Q.start} ns, paused at ${now} ns)`;
    let prev = null;
    for (const e of got) {
      const it = Q.items.get(e.id);
      must(it, () => `entry ${e.id} came out again`);
      must(it.lo <= now, () => `${show(it)} was yielded early`);
      this.checkDeadline(it, e);
      if (prev && !it.exp) must(prev.lo <= it.lo, () => `${show(prev)} was yielded before ${show(it)}`);
      Q.items.delete(it.id); this.fires++;
      if (!it.exp) prev = it;
    }
    if (got.length > 1) this.bump('several-entries');
    if (got.end === 'N') must(Q.items.size === 0, () => `the queue ended with ${Q.items.size} entries in it`);
    if (this.primed && this.paused) {
      for (const it of Q.items.values()) must(it.lo > now, () => `${show(it)} is due, but was not yielded`);
      must(got.end === (Q.items.size ? 'P' : 'N'), () => `the queue has ${Q.items.size} entries, but polling it ${got.end === 'P' ? 'is pending' : 'ended'}`);
    }
  }
  checkQ(Q) {
    if (!this.o.dq || !Q.pend || !this.primed || !this.paused) return;
    if (this.wokenBetween(Q.pend.w.id, Q.pend.seq) >= 0) return;
    const now = this.now();
    for (const it of Q.items.values()) must(it.lo > now, () => `entry ${it.id} (requested ${it.req} ns, due ${it.lo} ns) of the queue created at ${Q.start} ns is due at ${now} ns (paused), but the task that polls it was not woken`);
    must(Q.items.size > 0, () => 'the queue became empty (paused) and the task that polls it was not woken');
  }

  /** A consumer that polls the queue only when its waker was invoked, for at most `us` or until the queue ends. */
  followQ(Q, us) {
    const end = this.h.us + us;
    while (this.h.us < end && Q.pend) {
      const t = this.h.nextDue();
      this.runFor(t ? Math.min(end - this.h.us, Math.max(1, t.due + this.late - this.h.us)) : end - this.h.us);
      if (Q.pend && this.wokenBetween(Q.pend.w.id, Q.pend.seq) >= 0) { this.bump('followed-wake'); this.drain(Q); this.made(); }
      this.checkQ(Q);
    }
  }
  step(op) {
    this.act(op);
    this.now();
    this.check();
  }
  act(op) {
    const o = this.objs.length ? this.objs[(op[1] ?? 0) % this.objs.length] : null;
    const Q = this.qs.find((q) => !this.busy.has(q)) ?? null;
    const on = { ins: Q, insnear: Q, insmany: Q, remove: Q, qreset: Q, clear: Q, qdrop: Q, reset: o, drop: o }[op[0]];
    if (on) this.using(on, () => this.act_(op, o, Q)); else this.act_(op, o, Q);
  }
  act_(op, o, Q) {
    const { a, h } = this;
    const item = (i) => (Q && Q.items.size ? [...Q.items.values()][i % Q.items.size] : null);
    switch (op[0]) {
      case 'pause': if (!this.paused) this.pause(); break;
      case 'resume': if (this.paused) { this.resume(); this.bump('resume'); } break;
      case 'adv': if (this.paused) { const s = this.advance(op[1]); if (this.o.fire) this.checkOrder(s); this.bump('advance'); } break;
      case 'advto': if (this.paused && o) { const d = o.D - this.ref + BigInt(op[2]); if (d >= 0n) { const s = this.advance(d); if (this.o.fire) this.checkOrder(s); this.bump('advance'); } } break;
      case 'advitem': { const it = item(op[1]); if (this.paused && it) { const d = it.lo - this.ref + BigInt(op[2]); if (d >= 0n) { this.advance(d); this.bump('advance'); } } break; }
      case 'sleep': { const t = this.now(); this.add('sleep', a.sleep_new(BigInt(op[1])), t + BigInt(op[1])); break; }
      case 'until': { const D = this.now() + BigInt(op[1]); if (D >= this.floor) this.add('sleep', a.sleep_until(D), D); break; }
      case 'same': if (o) { const D = o.D + BigInt(op[2]); if (D >= this.floor) this.add('sleep', a.sleep_until(D), D); } break;
      case 'to': { const t = this.now(); this.add('to', a.to_ctl(BigInt(op[1]), undefined), t + BigInt(op[1])); break; }
      case 'iv': { const t = this.now(); const per = BigInt(Math.max(op[1], 1)); this.add('iv', a.iv_new(per), t, per); break; }
      case 'poll': if (o && !(o.kind === 'to' && o.done)) this.poll(o); break;
      case 'pollall': for (const x of this.objs) if (!(x.kind === 'to' && x.done)) this.poll(x); break;
      case 'reset': if (o && o.kind === 'sleep') { const D = this.now() + BigInt(op[2]); if (D >= this.floor) { o.D = D; a.sleep_reset(o.h, D); o.done = false; o.pend = null; o.armUs = h.us; this.bump('reset'); } } break;
      case 'drop': if (o) { this.objs.splice(this.objs.indexOf(o), 1); if (o.kind === 'sleep') a.sleep_drop(o.h); else if (o.kind === 'to') a.to_drop(o.h); else a.iv_drop(o.h); } break;
      case 'q': if (!this.qs.length) this.newQ(); break;
      case 'q2': if (this.qs.length < 3) this.newQ(); break;
      case 'qdrop': if (Q && this.qs.length > 1) { this.qs.splice(this.qs.indexOf(Q), 1); a.dq_drop(Q.h); } break;
      case 'ins': if (Q) { const req = this.now() + BigInt(op[1]); this.insert(Q, req < this.floor ? this.floor : req, op[2]); } break;
      case 'insnear': { const it = item(op[1]); const req = it && it.lo + BigInt(op[2]); if (it && req >= this.floor) this.insert(Q, req); break; }
      case 'insmany': if (Q) for (let k = 0; k < op[1]; k++) this.insert(Q, this.now() + BigInt(op[2]) * BigInt(k)); break;
      case 'remove': { const it = item(op[1]); if (it) { const e = a.dq_remove(Q.h, it.key); must(e.id === it.id, () => `remove of entry ${it.id} returned entry ${e.id}`); if (this.o.dq) this.checkDeadline(it, e); Q.items.delete(it.id); this.bump('removed'); } break; }
      case 'qreset': { const it = item(op[1]); if (it) { let req = this.now() + BigInt(op[2]); if (req < this.floor) req = this.floor; if (op[3] && op[2] >= 0) a.dq_reset(Q.h, it.key, BigInt(op[2])); else a.dq_reset_at(Q.h, it.key, req); this.place(Q, it, req); this.bump('qreset'); } break; }
      case 'clear': if (Q) { a.dq_clear(Q.h); Q.items.clear(); } break;
      case 'drain': if (Q) this.drain(Q); break;
      case 'follow': if (Q) { if (!Q.pend) this.drain(Q); this.followQ(Q, op[1]); } break;
      case 'runitem': { const it = item(op[1]); if (!this.paused && it) { const us = Math.floor(this.hostOf(it.lo) - h.us + op[2] / 1000); if (us > 0 && us < 600e6) this.runFor(us); } break; }
      case 'run': this.runFor(op[1]); break;
      case 'block': h.block(op[1]); this.lastBlockUs = h.us; break;
      case 'turn': { this.dirty = false; const n = h.runDue(); if (n && this.timerMade) this.primed = !this.dirty; break; }
      case 'now': { const r = this.now(); const e = a.elapsed_since(r); if (this.o.clock) must(e === 0n, () => `elapsed() of an instant of now is ${e} ns`); break; }
      case 'quiet': // nothing to do for the host while the time is paused
        if (this.paused) { const b = h.setTimeoutCalls; this.runFor(20_000_000); must(h.setTimeoutCalls === b, () => `the host was asked for ${h.setTimeoutCalls - b} callbacks in 20 s with the time paused`); this.bump('quiet'); }
        break;
      default: throw new Error('op ' + op[0]);
    }
    if (!['run', 'turn', 'block', 'now', 'quiet', 'pause', 'adv'].includes(op[0])) this.made();
  }
}

export function opArb(fc, w, max = 4_000_000_000) {
  const i = fc.nat({ max: 63 }); const d = durNs(fc, 10_000_000);
  const off = fc.oneof(fc.constantFrom(0, 0, 1, -1, MS, -MS), fc.integer({ min: -3 * MS, max: 3 * MS }), fc.tuple(fc.integer({ min: -2, max: 2 }), fc.integer({ min: 0, max: 3 })).map(([k, l]) => k * 64 ** l * MS));
  const signed = fc.tuple(d, fc.nat(6)).map(([x, p]) => (p === 0 ? -Math.min(x, 900 * MS) : x));
  const all = {
    pause: fc.constant(['pause']), resume: fc.constant(['resume']),
    adv: d.map((x) => ['adv', x]), advto: fc.tuple(i, off).map(([x, y]) => ['advto', x, y]), advitem: fc.tuple(i, off).map(([x, y]) => ['advitem', x, y]),
    sleep: d.map((x) => ['sleep', x]), until: signed.map((x) => ['until', x]), same: fc.tuple(i, off).map(([x, y]) => ['same', x, y]),
    to: d.map((x) => ['to', x]), iv: d.map((x) => ['iv', x]),
    poll: i.map((x) => ['poll', x]), pollall: fc.constant(['pollall']), reset: fc.tuple(i, signed).map(([x, y]) => ['reset', x, y]), drop: i.map((x) => ['drop', x]),
    q: fc.constant(['q']), ins: fc.tuple(signed, fc.boolean()).map(([x, b]) => ['ins', x, b]), insnear: fc.tuple(i, off).map(([x, y]) => ['insnear', x, y]), insmany: fc.tuple(fc.integer({ min: 2, max: 20 }), durNs(fc, 10_000_000)).map(([n, x]) => ['insmany', n, x]),
    remove: i.map((x) => ['remove', x]), qreset: fc.tuple(i, signed, fc.boolean()).map(([x, y, b]) => ['qreset', x, y, b]), clear: fc.constant(['clear']), q2: fc.constant(['q2']), qdrop: fc.constant(['qdrop']), drain: fc.constant(['drain']), follow: runUs(fc).map((x) => ['follow', Math.min(x, 60e6)]), runitem: fc.tuple(i, off).map(([x, y]) => ['runitem', x, y]),
    run: runUs(fc).map((x) => ['run', Math.min(x, 600e6)]), block: runUs(fc).map((x) => ['block', x]), turn: fc.constant(['turn']), now: fc.constant(['now']), quiet: fc.constant(['quiet']),
  };
  return fc.oneof(...Object.keys(w).map((k) => ({ weight: w[k], arbitrary: all[k] })));
}
export const progs = (fc, w, { min = 1, max = 60, pre = [] } = {}) => fc.tuple(...pre, fc.array(opArb(fc, w), { minLength: min, maxLength: max, size: 'max' })).map((x) => [...x.slice(0, -1).filter(Boolean), ...x.at(-1)]);
function mustPanic(what, f) {
  let ok = false;
  try { f(); } catch (e) { if (!(e instanceof Panic)) throw e; ok = true; }
  must(ok, () => `${what} did not panic`);
}

/** The operations again and again on the same objects: thousands of them on one instance. */
function again(w, c) {
  for (let k = 0; k < c.rep; k++) {
    for (const op of c.ops) w.step(op.length > 1 && typeof op[1] === 'number' && /^(advto|advitem|same|poll|reset|drop|insnear|remove|qreset|runitem)/.test(op[0]) ? [op[0], op[1] + k, ...op.slice(2)] : op);
    while (w.objs.length > 25) w.step(['drop', k]);
    for (const Q of w.qs) while (Q.items.size > 30) w.step(['remove', k]);
    if (w.h.wakes.length > 5000) w.h.wakes.splice(0, 2500);
  }
}
const REP = (fc) => fc.integer({ min: 10, max: 100 });
const LONG = (cfg) => ({ ...cfg, fuel: 2_000_000_000 });
function movingClock(art, c, ctx) {
  const h = new Host(art, { ...c.cfg, readUs: c.readUs }); const a = h.api;
  a.vh_base();
  let last = a.now(); let paused = false; let flips = 0; let reads = 0; let advs = 0;
  let off = [last - BigInt(h.us) * 1000n, last - BigInt(h.us - 2 * c.readUs) * 1000n]; // the clock is that far from the one of the host
  let F = null; // it stands there
  const sleeps = []; let fired = 0;
  const slack = c.cfg.granUs + 2 * (c.cfg.minDelayMs * 1000 + c.cfg.lateUs) + 3000 + 100 * c.readUs;
  const tol = 1000n; // the host gives doubles
  const read = () => {
    const u0 = BigInt(h.us); const t = a.now(); const u1 = BigInt(h.us);
    must(t >= last, () => `the clock went back from ${last} ns to ${t} ns`); last = t; reads++;
    if (paused) {
      must(t >= F[0] - tol && t <= F[1] + tol, () => `the time is paused, and ${t} ns instead of ${F[0]}..${F[1]} ns`); F = [t, t];
    } else must(t >= u0 * 1000n + off[0] - tol && t <= u1 * 1000n + off[1] + tol, () => `the clock shows ${t} ns instead of ${u0 * 1000n + off[0]}..${u1 * 1000n + off[1]} ns`);
    return t;
  };
  const look = (final) => {
    h.still = true; const t = a.now(); h.still = false;
    for (const s of sleeps) {
      const D = a.sleep_deadline(s.h); const e = a.sleep_is_elapsed(s.h);
      if (e) { if (!s.fired) { s.fired = true; fired++; } must(t >= D, () => `a sleep is elapsed at ${t} ns, before its deadline ${D} ns`); } else if (final) must(t < D + BigInt(slack + (h.maxPending + 4) * h.costUs) * 1000n, () => `a sleep (deadline ${D} ns) is not elapsed at ${t} ns`);
    }
  };
  const flip = () => {
    const u0 = BigInt(h.us);
    if (paused) { a.tu_resume(); off = [F[0] - BigInt(h.us) * 1000n, F[1] - u0 * 1000n]; F = null; } else { a.tu_pause(); F = [u0 * 1000n + off[0], BigInt(h.us) * 1000n + off[1]]; }
    paused = !paused; flips++;
  };
  for (const op of c.ops) {
    if (op[0] === 'flip') flip();
    else if (op[0] === 'adv') { if (!paused) continue; const w = a.waker_new(1); a.tu_advance(BigInt(op[1]), w); F = [F[0] + BigInt(op[1]), F[1] + BigInt(op[1])]; advs++; } else if (op[0] === 'now') read();
    else if (op[0] === 'run') h.runFor(op[1], c.cfg.lateUs, 100_000);
    else if (op[0] === 'block') h.block(op[1]);
    else if (op[0] === 'drop') { const s = sleeps.splice(op[1], 1)[0]; if (s) a.sleep_drop(s.h); } else {
      const lo = last; const s = { h: a.sleep_new(BigInt(op[1])) }; sleeps.push(s);
      must(a.sleep_deadline(s.h) >= lo + BigInt(op[1]), () => `a sleep of ${op[1]} ns made after ${lo} ns has the deadline ${a.sleep_deadline(s.h)} ns`);
    }
    look(false);
  }
  read();
  if (paused) flip();
  h.runFor(60_000_000, c.cfg.lateUs, 100_000); look(true);
  ctx.nontrivial = flips >= 2 && reads >= 2 && (fired >= 1 || advs >= 1);
}
const C01 = {
  rule: 'Histories of pause, advance, resume, reads of the clock, timers of all kinds, and host time passing with or without turns. Instant::now() is constant while paused, moves by exactly what advance is told, continues from there at the rate of the host after resume, and never goes back; in the second suite the clock of the host goes on while the crate runs. A final misuse (pause while paused, resume or advance while running) panics. Non-trivial: at least two advances, a resume, and host time passing while paused.',
  suites: [{
    name: 'clock', variants: TU, quick: 10000, thorough: 800000,
    arb: (fc) => fc.record({ cfg: hostCfg(fc), final: fc.nat(4), ops: progs(fc, { pause: 4, resume: 3, adv: 5, advto: 1, now: 4, run: 5, block: 3, turn: 2, sleep: 2, poll: 1, iv: 1, q: 1, ins: 1, drain: 1 }) }),
    run(art, c, ctx) {
      const w = new PausedWorld(art, c.cfg, { clock: true }, ctx);
      let passed = false;
      for (const op of c.ops) { if (w.paused && (op[0] === 'run' || op[0] === 'block') && op[1] > 1000) passed = true; w.step(op); }
      ctx.nontrivial = (w.stats.advance ?? 0) >= 2 && !!w.stats.resume && passed;
      if (c.final === 0) {
        ctx.tag('misuse');
        if (w.paused) mustPanic('pause while the time is paused', () => w.a.tu_pause());
        else if (c.ops.length % 2) mustPanic('resume while the time runs', () => w.a.tu_resume());
        else mustPanic('advance while the time runs', () => w.a.tu_advance(1000n, w.waker().h));
      }
    },
  }, {
    // every look at the clock of the host finds it a bit later
    name: 'moving-clock', variants: TU, quick: 4000, thorough: 300000,
    arb: (fc) => fc.record({
      cfg: hostCfg(fc, { coarse: false }), readUs: fc.constantFrom(1, 3, 50, 700),
      ops: fc.array(fc.oneof({ weight: 3, arbitrary: fc.constant(['flip']) }, { weight: 3, arbitrary: durNs(fc, 10_000_000).map((x) => ['adv', x]) }, { weight: 4, arbitrary: fc.constant(['now']) }, { weight: 2, arbitrary: runUs(fc).map((x) => ['run', Math.min(x, 5_000_000)]) }, { weight: 1, arbitrary: runUs(fc).map((x) => ['block', Math.min(x, 5_000_000)]) }, { weight: 3, arbitrary: durNs(fc, 10_000_000).map((x) => ['sleep', x]) }, { weight: 1, arbitrary: fc.nat(20).map((x) => ['drop', x]) }), { minLength: 3, maxLength: 40, size: 'max' }),
    }),
    run(art, c, ctx) { movingClock(art, c, ctx); },
  }],
};
const C02 = {
  rule: 'The time is paused at a random point of a history of sleeps, timeouts and intervals, and only advance moves it, in steps that stop before, at and beyond deadlines. Every sleep, timeout and tick is ready exactly if its deadline is not after now; advance itself wakes the tasks that wait for what became due, in the order of the deadlines; host time passing changes nothing; the host is asked for no callbacks. Non-trivial: at least three completions, and an advance that woke several tasks. The second suite runs tasks from inside their wakers, as executors without a queue do: each works through a chain of sleeps (also of zero length), and drops, resets, creates timers and moves the time on the way; after every advance no task waits for a deadline that has been reached. The third repeats its operations up to 100 times on one instance.',
  assumptions: ['what was changed before the pause without a turn of the host since is seen at the next turn'],
  suites: [{
    name: 'paused', variants: TU, quick: 10000, thorough: 800000,
    arb: (fc) => {
      const pre = fc.array(opArb(fc, { sleep: 3, poll: 2, iv: 1, run: 2 }), { maxLength: 6, size: 'max' });
      return fc.record({ cfg: hostCfg(fc), pre, ops: fc.array(opArb(fc, { adv: 5, advto: 8, sleep: 6, until: 2, same: 5, to: 3, iv: 2, poll: 6, pollall: 4, reset: 4, drop: 2, run: 1, block: 1, turn: 1, quiet: 1 }), { minLength: 1, maxLength: 60, size: 'max' }) });
    },
    run(art, c, ctx) {
      const w = new PausedWorld(art, c.cfg, { fire: true, clock: true }, ctx);
      for (const op of c.pre) w.step(op);
      w.step(['pause']);
      for (const op of c.ops) w.step(op);
      w.step(['pollall']);
      ctx.nontrivial = w.fires >= 3 && !!w.stats['several-at-once'];
    },
  }, {
    name: 'synchronous-executor', variants: TU, quick: 4000, thorough: 300000,
    arb: (fc) => {
      const d = fc.oneof(durNs(fc, 10_000_000), fc.constantFrom(0, 0, 1, MS));
      const act = fc.oneof(fc.constant(['none']), fc.constant(['drop']), fc.tuple(fc.constant('reset'), fc.nat(7), d), fc.tuple(fc.constant('adv'), fc.integer({ min: 0, max: 3 * MS })), fc.tuple(fc.constant('iv'), d));
      return fc.record({
        cfg: hostCfg(fc), skew: fc.integer({ min: 0, max: 2_500_000 }),
        tasks: fc.array(fc.record({ chain: fc.array(fc.tuple(d, act), { minLength: 1, maxLength: 5 }), at: fc.nat(3) }), { minLength: 1, maxLength: 8, size: 'max' }),
        advs: fc.array(fc.oneof(d, fc.constant('next')), { minLength: 2, maxLength: 10, size: 'max' }),
      });
    },
    run(art, c, ctx) {
      const w = new PausedWorld(art, c.cfg, { clock: true }, ctx);
      w.step(['pause']); w.step(['adv', c.skew]);
      const tasks = c.tasks.map((t) => ({ ...t, pos: 0, s: null, D: 0n, wid: -1, done: false }));
      const spares = [];
      let nested = 0; let inside = 0;
      const show = (t) => `task ${tasks.indexOf(t)} (sleep ${t.pos} until ${t.D} ns, now ${w.a.now()} ns)`;
      const go = (t) => {
        for (;;) {
          if (t.s !== null) {
            const k = w.waker();
            if (!w.a.sleep_poll(t.s, k.h)) { t.wid = k.id; return; }
            must(t.D <= w.now(), () => `${show(t)} completed early`);
            const was = t.s; t.s = null; t.pos++; w.a.sleep_drop(was);
            const [what, x, y] = t.chain[t.pos - 1][1];
            if (what === 'drop' && spares.length) w.a.sleep_drop(spares.pop());
            if (what === 'iv') spares.push(w.a.sleep_new(BigInt(x) + MSn));
            if (what === 'reset') { const o = tasks[x % tasks.length]; if (o.s !== null && o !== t && !w.h.inUse('sleep', o.s)) { o.D = w.now() + BigInt(y); w.a.sleep_reset(o.s, o.D); o.wid = -1; again.add(o); } }
            if (what === 'adv' && inside < 3) { inside++; w.ref += BigInt(x); w.frozen = w.ref; w.a.tu_advance(BigInt(x), w.waker().h); inside--; }
          }
          if (t.pos >= t.chain.length) { t.done = true; return; }
          const ns = BigInt(t.chain[t.pos][0]);
          t.D = w.now() + ns; t.s = w.a.sleep_new(ns);
        }
      };
      const again = new Set(); // their sleep was reset, so they poll it again
      w.h.onWake = (id) => { const t = tasks.find((x) => x.wid === id && !x.done); if (t) { nested++; t.wid = -1; if (w.h.inUse('sleep', t.s)) again.add(t); else go(t); } };
      // what was being reset, or was reset, is polled by its task later, outside of wakers
      const settleAgain = () => { for (let k = 0; k < 50 && again.size; k++) { const L = [...again]; again.clear(); for (const t of L) if (!t.done && t.wid === -1) go(t); } };
      const check = () => {
        settleAgain();
        const n = w.now();
        for (const t of tasks) if (t.s !== null) must(t.D > n, () => `${show(t)} is due, but its task still waits (paused)`);
      };
      for (const ns of c.advs) {
        for (const t of tasks) if (t.s === null && !t.done && t.at-- <= 0) { go(t); check(); }
        const D = tasks.filter((t) => t.s !== null).reduce((m, t) => (m === null || t.D < m ? t.D : m), null);
        const d = ns !== 'next' ? BigInt(ns) : D === null ? 0n : D - w.now();
        w.ref += d; w.frozen = w.ref;
        w.a.tu_advance(d, w.waker().h);
        check();
      }
      must(w.h.timers.length <= 2, () => `${w.h.timers.length} host callbacks are outstanding while the time is paused`);
      ctx.tag(`finished:${Math.min(3, tasks.filter((t) => t.done).length)}`);
      ctx.nontrivial = nested >= 3;
    },
  }, {
    name: 'marathon', variants: TU, quick: 40, thorough: 8000,
    arb: (fc) => fc.record({ cfg: hostCfg(fc), rep: REP(fc), ops: fc.array(opArb(fc, { adv: 5, advto: 8, sleep: 6, until: 2, same: 5, to: 3, iv: 2, poll: 6, pollall: 4, reset: 4, drop: 2, run: 1, block: 1, turn: 1 }), { minLength: 20, maxLength: 45, size: 'max' }) }),
    run(art, c, ctx) {
      const w = new PausedWorld(art, LONG(c.cfg), { fire: true, clock: true }, ctx);
      w.step(['pause']); again(w, c); w.step(['pollall']);
      ctx.nontrivial = w.fires >= 100 && !!w.stats['several-at-once'];
    },
  }],
};
const C03 = {
  rule: 'Sleeps, timeouts, intervals and delay queues across pauses and resumes at random points, with the host responsive or blocked in between. What is not due never completes while paused, whatever the host does; after a resume each timer completes at its own deadline by the clock of the crate, which goes on from where it was, and within the slack of a running timer. One suite has tasks that pause, advance and resume the time, and use timers, from within their wakers; one is about delay queues; one repeats its operations up to 100 times on one instance. Non-trivial: at least three completions and at least one resume with timers outstanding.',
  suites: [{
    name: 'transitions', variants: TU, quick: 10000, thorough: 800000,
    arb: (fc) => fc.record({ cfg: hostCfg(fc), ops: progs(fc, { pause: 3, resume: 4, adv: 3, advto: 3, sleep: 6, until: 1, same: 3, to: 2, iv: 2, poll: 6, pollall: 4, reset: 3, drop: 1, run: 9, block: 2, turn: 2, quiet: 1 }) }),
    run(art, c, ctx) {
      const w = new PausedWorld(art, c.cfg, { fire: true, clock: true }, ctx);
      let outstanding = false;
      for (const op of c.ops) { if (op[0] === 'resume' && w.paused && w.objs.some((o) => o.D > w.ref)) outstanding = true; w.step(op); }
      if (w.paused) w.step(['resume']);
      w.step(['pollall']);
      // everything that is near completes now that the time runs
      const near = w.objs.filter((o) => w.hostOf(o.D) - w.h.us < 100e6);
      const end = near.reduce((m, o) => Math.max(m, w.promptBy(o)), 0);
      if (end > w.h.us) w.step(['run', Math.ceil(end - w.h.us) + 1000]);
      w.step(['pollall']);
      ctx.nontrivial = w.fires >= 3 && outstanding;
    },
  }, {
    // tasks that run from within their waker, and move the clock on the way
    name: 'from-wakers', variants: TU, quick: 4000, thorough: 300000,
    arb: (fc) => fc.record({ cfg: hostCfg(fc), ops: progs(fc, { pause: 3, resume: 4, adv: 3, advto: 5, sleep: 7, same: 4, to: 1, iv: 1, poll: 3, pollall: 7, reset: 2, drop: 1, run: 9, block: 3, turn: 2 }), scripts: fc.array(fc.array(opArb(fc, { pause: 4, resume: 4, adv: 3, advto: 2, sleep: 3, poll: 3, reset: 2, drop: 1, q: 1, ins: 1, drain: 1, remove: 1 }), { maxLength: 4 }), { minLength: 1, maxLength: 6, size: 'max' }) }),
    run(art, c, ctx) {
      const w = new PausedWorld(art, c.cfg, { fire: true, clock: true }, ctx);
      let budget = 200; let moved = 0; let depth = 0;
      w.h.onWake = (id) => {
        const o = w.objs.find((x) => x.wreg?.w.id === id); if (!o || budget <= 0 || depth > 3) return;
        depth++; w.dirty = w.nested = true;
        for (const op of c.scripts[o.n % c.scripts.length]) { budget--; const p = w.paused; if (/^adv/.test(op[0]) && p || op[0] === 'pause' && !p || op[0] === 'resume' && p) moved++; w.act(op); }
        depth--; w.nested = depth > 0;
      };
      for (const op of c.ops) w.step(op);
      w.h.onWake = null;
      if (w.paused) w.step(['resume']);
      w.step(['run', 1000]);
      w.step(['pollall']);
      const near = w.objs.filter((o) => w.hostOf(o.D) - w.h.us < 100e6);
      const end = near.reduce((m, o) => Math.max(m, w.promptBy(o)), 0);
      if (end > w.h.us) w.step(['run', Math.ceil(end - w.h.us) + 1000]);
      w.step(['pollall']);
      ctx.nontrivial = w.fires >= 3 && moved >= 2;
    },
  }, {
    name: 'queues', variants: TU, quick: 6000, thorough: 500000,
    arb: (fc) => fc.record({ cfg: hostCfg(fc), eager: fc.nat(2), ops: progs(fc, { pause: 4, resume: 5, adv: 2, advitem: 6, ins: 8, insnear: 5, insmany: 1, drain: 4, remove: 2, qreset: 4, clear: 1, run: 5, follow: 3, runitem: 5, block: 2, turn: 2, quiet: 1, sleep: 1, pollall: 1 }, { max: 70 }) }),
    run(art, c, ctx) {
      const w = new PausedWorld(art, c.cfg, { dq: true, clock: true }, ctx);
      w.step(['q']);
      const Q = w.qs[0];
      let outstanding = 0;
      for (const op of c.ops) {
        if ((op[0] === 'resume' && w.paused || op[0] === 'pause' && !w.paused) && Q.items.size) outstanding++;
        w.step(op);
        if (c.eager && Q.pend && w.wokenBetween(Q.pend.w.id, Q.pend.seq) >= 0) w.step(['drain']);
      }
      if (w.paused) w.step(['resume']);
      // from here on the task polls whenever it is woken
      w.step(['drain']);
      const near = [...Q.items.values()].filter((it) => w.hostOf(it.lo) - w.h.us < 100e6);
      const n = Q.items.size;
      const last = near.reduce((m, it) => Math.max(m, w.hostOf(it.lo)), w.h.us) + w.slackUs + 8 * (n + 4) * (w.turnUs + 1000 + 8 * w.h.costUs) + (w.h.maxPending + 4) * w.h.costUs;
      w.step(['follow', Math.ceil(last - w.h.us)]);
      for (const it of near) must(!Q.items.has(it.id), () => `entry ${it.id} (requested ${it.req} ns, due ${it.lo} ns, now ${w.a.now()} ns) was not yielded to a task that polls whenever it is woken, since the time runs again`);
      ctx.nontrivial = w.fires >= 4 && outstanding >= 2;
    },
  }, {
    name: 'marathon', variants: TU, quick: 40, thorough: 8000,
    arb: (fc) => fc.record({ cfg: hostCfg(fc), rep: REP(fc), ops: progs(fc, { pause: 3, resume: 4, adv: 3, advto: 3, advitem: 2, sleep: 6, until: 1, same: 3, to: 2, iv: 2, q: 1, ins: 3, insnear: 2, drain: 4, remove: 1, qreset: 1, poll: 6, pollall: 4, reset: 3, drop: 1, run: 9, runitem: 2, block: 2, turn: 2 }, { min: 20, max: 45 }) }),
    run(art, c, ctx) {
      const w = new PausedWorld(art, LONG(c.cfg), { fire: true, clock: true, dq: true }, ctx);
      again(w, c);
      if (w.paused) w.step(['resume']);
      w.step(['pollall']);
      ctx.nontrivial = w.fires >= 100 && (w.stats.resume ?? 0) >= 20;
    },
  }],
};
const C04 = {
  rule: 'A DelayQueue whose time is paused: inserts (clustered around the slots of the wheel, in the past), resets, removals, clear, and advances that stop before, at and beyond deadlines. Polling until it is pending yields exactly the entries whose deadline, rounded up to the millisecond, is not after now, in order; the stream ends exactly when the queue is empty; advance wakes the task if an entry became due; the second suite repeats its operations up to 100 times on one queue. Non-trivial: at least four entries came out, several of them at once.',
  suites: [{
    name: 'paused-queue', variants: TU, quick: 10000, thorough: 800000,
    arb: (fc) => fc.record({ cfg: hostCfg(fc), before: fc.nat(3), skew: fc.integer({ min: 0, max: 2_500_000 }), ops: progs(fc, { ins: 8, insnear: 6, insmany: 2, adv: 4, advitem: 8, drain: 8, remove: 3, qreset: 4, clear: 1, run: 1, turn: 1, quiet: 1 }, { max: 70 }) }),
    run(art, c, ctx) {
      const w = new PausedWorld(art, c.cfg, { dq: true }, ctx);
      if (c.before === 0) { w.step(['q']); w.step(['run', 3000]); }
      w.step(['pause']); w.step(['adv', c.skew]); w.step(['q']);
      for (const op of c.ops) w.step(op);
      w.step(['drain']);
      // up to the last entry
      const last = [...w.qs[0].items.values()].reduce((m, it) => (it.lo > m ? it.lo : m), w.ref);
      w.step(['adv', last - w.ref]); w.step(['drain']);
      must(w.qs[0].items.size === 0, () => 'the queue is not empty after the last deadline');
      ctx.nontrivial = w.fires >= 4 && !!w.stats['several-entries'];
    },
  }, {
    name: 'marathon', variants: TU, quick: 40, thorough: 8000,
    arb: (fc) => fc.record({ cfg: hostCfg(fc), rep: REP(fc), skew: fc.integer({ min: 0, max: 2_500_000 }), ops: progs(fc, { ins: 8, insnear: 6, insmany: 1, adv: 4, advitem: 8, drain: 8, remove: 3, qreset: 4, clear: 1, run: 1, turn: 1 }, { min: 20, max: 45 }) }),
    run(art, c, ctx) {
      const w = new PausedWorld(art, LONG(c.cfg), { dq: true }, ctx);
      w.step(['pause']); w.step(['adv', c.skew]); w.step(['q']);
      again(w, c); w.step(['drain']);
      ctx.nontrivial = w.fires >= 100 && !!w.stats['several-entries'];
    },
  }],
};
export default { C01, C02, C03, C04 };
