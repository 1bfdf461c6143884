// Model-based interpreter for DelayQueue histories on the virtual host (time not paused).
import { World, MS } from './world.mjs';
import { must } from './lib.mjs';

const MSn = 1_000_000n;
export const RANGE_MS = 2n ** 36n; // how far ahead a deadline may be
const ceilMs = (x) => ((x + MSn - 1n) / MSn) * MSn;

export class DqWorld extends World {
  /** o: {order, deadline, wake, once, len, keys} switch the statements on. */
  constructor(art, cfg, o, ctx) {
    super(art, cfg, {}, ctx);
    this.q = o; this.qs = []; this.ids = 0; this.delivered = 0; this.stats = {};
    this.vals = new Map(); // id -> 'live' | 'gone'
    this.stepUs = this.turnUs + 1000 + 8 * this.h.costUs + 30 * this.h.readUs;
  }
  bump(k) { this.stats[k] = (this.stats[k] || 0) + 1; this.ctx.tag(k); }
  newQ(kind, cap) {
    const { a } = this;
    const start = this.clock();
    const h = this.quietly(() => (kind === 'cap' ? a.dq_with_capacity(cap) : kind === 'def' ? a.dq_default() : a.dq_new()));
    const Q = { h, n: this.qs.length, start, items: new Map(), stale: [], pend: null, progress: start, top: start, chainUs: 0, lastUs: -Infinity, work: 0, compacted: false, ended: false, maxLen: 0 };
    this.qs.push(Q);
    if (this.q.len && kind === 'cap') must(a.dq_capacity(h) >= cap, () => `with_capacity(${cap}) made a queue of capacity ${a.dq_capacity(h)}`);
    return Q;
  }
  /** Model of one entry that was inserted or reset to `req` now. */
  place(Q, it, req) {
    const now = this.clock();
    const rel = req > Q.start ? ceilMs(req - Q.start) : 0n;
    it.req = req; it.lo = Q.start + rel;
    // an entry that is due already is reported for some instant between its own and now
    it.hi = req > now ? it.lo : it.lo > now ? it.lo : now;
    it.future = req > now;
    it.armUs = this.h.us; it.seq = this.h.wakeSeq;
  }
  insert(Q, req, how, dur) {
    const { a } = this;
    if (req - Q.progress > RANGE_MS * MSn) this.bump('beyond-what-was-yielded');
    const id = ++this.ids; const tag = (id * 2654435761) >>> 0;
    const cap = this.q.len ? a.dq_capacity(Q.h) : 0;
    const key = how === 'dur' ? this.quietly(() => a.dq_insert(Q.h, id, tag, BigInt(dur))) : a.dq_insert_at(Q.h, id, tag, req);
    const it = { id, tag, key };
    this.place(Q, it, req);
    if (this.q.keys) for (const y of Q.items.values()) must(!a.key_eq(key, y.key), () => `entry ${id} got the key of entry ${y.id}, which is still in the queue`);
    Q.items.set(id, it); this.vals.set(id, 'live'); Q.ended = false; Q.work++;
    Q.maxLen = Math.max(Q.maxLen, Q.items.size);
    if (this.q.len && Q.items.size <= cap) must(a.dq_capacity(Q.h) === cap, () => `inserting entry ${Q.items.size} changed the capacity from ${cap} to ${a.dq_capacity(Q.h)}`);
    return it;
  }
  desc(Q, it) { return `entry ${it.id} (requested ${it.req} ns, due ${it.lo}${it.hi !== it.lo ? '..' + it.hi : ''} ns, queue created ${Q.start} ns, now ${this.clock()} ns)`; }
  gone(Q, it) {
    Q.items.delete(it.id); this.vals.set(it.id, 'gone'); Q.stale.push(it.key); Q.work++;
    if (Q.stale.length > 40) Q.stale.shift();
    if (this.q.once) must(this.h.valDrops.get(it.id) === 1, () => `the value of entry ${it.id} was dropped ${this.h.valDrops.get(it.id) || 0} times after it left the queue`);
  }
  checkOut(Q, e, how) {
    const it = Q.items.get(e.id);
    if (!it) {
      must(!this.q.once && !this.q.keys, () => `${how} returned entry ${e.id}, which ${this.vals.has(e.id) ? 'has left the queue already' : 'never existed'}`);
      return null;
    }
    if (this.q.once || this.q.keys) {
      must(e.tag === it.tag, () => `${how}: entry ${e.id} came back with another value`);
      must(this.a.key_eq(e.key, it.key), () => `${how}: entry ${e.id} came back under another key`);
    }
    if (this.q.deadline) must(e.deadline >= it.lo && e.deadline <= it.hi, () => `${how}: ${this.desc(Q, it)} reports the deadline ${e.deadline} ns`);
    return it;
  }
  /** -> 'P' | 'N' | item */
  poll(Q, stream) {
    const { a } = this;
    const w = this.waker();
    // a consumer that was not there keeps the queue from advancing
    const last = Q.pend ? (this.woken(Q.pend) ? Q.pend.wokeUs : this.h.us) : Q.lastUs;
    if (!(this.h.us - last <= this.slackUs)) Q.chainUs = this.h.us;
    Q.lastUs = this.h.us;
    const e = stream ? a.dq_poll_next(Q.h, w.h) : a.dq_poll(Q.h, w.h);
    const now = this.clock();
    if (e === undefined) {
      Q.pend = { w, seq: this.h.wakeSeq }; Q.ended = false; Q.pendEmptyUs = Q.items.size ? undefined : this.h.us;
      if (this.q.wake) {
        this.overdue(Q, 'polling is pending');
      }
      return 'P';
    }
    Q.pend = null;
    if (e.id === 0xffffffff) {
      if (this.q.once || this.q.wake) must(Q.items.size === 0, () => `the queue ended with ${Q.items.size} entries in it, such as ${this.desc(Q, [...Q.items.values()][0])}`);
      Q.ended = true;
      return 'N';
    }
    const it = this.checkOut(Q, e, 'polling');
    if (!it) return 'P';
    if (this.q.early) {
      must(now >= it.lo, () => `${this.desc(Q, it)} was yielded early`);
      must(this.h.us + 1 >= this.ns2us(it.req), () => `${this.desc(Q, it)} was yielded early by the clock of the host`);
    }
    if (this.q.order && it.future) {
      for (const y of Q.items.values()) if (y !== it) must(y.lo >= it.lo, () => `${this.desc(Q, it)} was yielded before ${this.desc(Q, y)}`);
    }
    // the wheel moves past an entry when it yields the next one
    if (it.future && it.lo > Q.top) { Q.progress = Q.top; Q.top = it.lo; }
    if (this.h.us > this.ns2us(it.lo) + this.slackUs) Q.chainUs = this.h.us; // catching up
    this.gone(Q, it);
    this.delivered++;
    return it;
  }
  promptItem(Q, it) {
    // every entry that is due may need a turn of its own, and one per level of the wheel
    const turns = 6 * (Q.items.size + 2) + 2;
    return Math.max(this.ns2us(it.lo), it.armUs, this.lastBlockUs, Q.chainUs) + this.slackUs + turns * this.stepUs + (this.h.maxPending + 4) * this.h.costUs;
  }
  overdue(Q, what) {
    for (const it of Q.items.values()) {
      const by = this.promptItem(Q, it);
      if (this.h.us > by) must(false, () => `${what}, but ${this.desc(Q, it)} should have been yielded by ${by} µs (host at ${this.h.us})`);
    }
  }
  /** Both give back what is not needed; shrink_to_fit does not move entries, so it may need as much as there ever were. */
  checkCap(Q, what, need) {
    if (!this.q.len) return;
    const cap = this.a.dq_capacity(Q.h);
    must(cap <= 2 * need + 16, () => `capacity() is ${cap} after ${what} with ${Q.items.size} entries in the queue (never more than ${Q.maxLen})`);
  }
  checkQ(Q) {
    const { a } = this;
    if (this.q.len) {
      must(a.dq_len(Q.h) === Q.items.size, () => `len() is ${a.dq_len(Q.h)} with ${Q.items.size} entries in the queue`);
      must(a.dq_is_empty(Q.h) === (Q.items.size === 0), () => `is_empty() is ${a.dq_is_empty(Q.h)} with ${Q.items.size} entries in the queue`);
      must(a.dq_capacity(Q.h) >= Q.items.size, () => `capacity() is ${a.dq_capacity(Q.h)} with ${Q.items.size} entries in the queue`);
    }
    if (this.q.wake && Q.pend && !this.woken(Q.pend)) {
      // a poll of an empty queue may be pending for a turn (a leftover delay), the end is reported then
      if (!Q.items.size) {
        if (Q.pendEmptyUs === undefined) must(false, () => 'the queue became empty and the task that polls it was not woken');
        else must(this.h.us <= Math.max(Q.pendEmptyUs, this.lastBlockUs) + this.slackUs + this.stepUs + (this.h.maxPending + 4) * this.h.costUs, () => 'the queue is empty and the task that polls it was not woken');
      }
      this.overdue(Q, 'the task that polls the queue was not woken');
    }
  }
  woken(p) {
    if (p.woke) return true;
    const L = this.h.wakes;
    for (let i = L.length - 1; i >= 0 && L[i].seq >= p.seq; i--) if (L[i].id === p.w.id) { p.woke = true; p.wokeUs = L[i].us; } // the first one
    return !!p.woke;
  }
  drain(Q, cap = 400) { let n = 0; let r; do { r = this.poll(Q, n & 1); n++; } while (r !== 'P' && r !== 'N' && n < cap); return n - 1; }
  /** A consumer that only polls when its waker was invoked. */
  follow(Q, us) {
    const end = this.h.us + us;
    this.drain(Q);
    for (let k = 0; k < 3000 && this.h.us < end && !Q.ended; k++) {
      const t = this.h.nextDue();
      this.runFor(t ? Math.min(end - this.h.us, Math.max(1, t.due + this.late - this.h.us)) : end - this.h.us);
      if (Q.pend && this.woken(Q.pend)) { this.bump('followed-wake'); this.drain(Q); }
      this.checkQ(Q);
    }
    if (this.h.us < end && Q.ended) this.runFor(Math.min(end - this.h.us, 20e6));
  }
  /** How far a deadline may be ahead is counted from now, or from an entry that is due and was not yielded. */
  base(Q) {
    const now = this.clock(); let lo = now;
    for (const it of Q.items.values()) { const t = it.lo - (2n ** 30n + 2n) * MSn; if (t < lo) lo = t; }
    return lo > Q.progress ? lo : Q.progress;
  }
  inRange(Q, req) { const rel = req > Q.start ? ceilMs(req - Q.start) : 0n; return req >= this.floor && Q.start + rel - this.base(Q) <= (RANGE_MS - 2n) * MSn; }
  step(op) {
    const { a, h } = this;
    const Q = this.qs.length ? this.qs[(op[1] ?? 0) % this.qs.length] : null;
    const nowN = this.clock();
    const pickItem = (i) => (Q && Q.items.size ? [...Q.items.values()][i % Q.items.size] : null);
    const inRange = (req) => this.inRange(Q, req);
    switch (op[0]) {
      case 'q': if (this.qs.length < 3) this.newQ(op[2], op[3]); break;
      case 'ins': if (Q && inRange(nowN + BigInt(op[2]))) this.insert(Q, nowN + BigInt(op[2]), 'dur', op[2]); break;
      case 'insat': { if (!Q) break; const req = nowN + BigInt(op[2]); if (inRange(req)) this.insert(Q, req, 'at'); break; }
      case 'insnear': { const it = pickItem(op[2]); if (!it) break; const req = it.lo + BigInt(op[3]); if (inRange(req)) this.insert(Q, req, 'at'); break; }
      case 'insmany': if (Q) for (let k = 0; k < op[2]; k++) { const req = nowN + BigInt(op[3]) + BigInt(k) * BigInt(op[4]); if (inRange(req)) this.insert(Q, req, 'at'); } break;
      case 'poll': if (Q) this.poll(Q, op[2]); break;
      case 'drain': if (Q) this.drain(Q); break;
      case 'follow': if (Q) this.follow(Q, op[2]); break;
      case 'remove': case 'tryremove': {
        const it = pickItem(op[2]); if (!it) break;
        const e = op[0] === 'remove' ? a.dq_remove(Q.h, it.key) : a.dq_try_remove(Q.h, it.key);
        must(e !== undefined, () => `try_remove of ${this.desc(Q, it)} returned None`);
        const x = this.checkOut(Q, e, op[0]);
        must(x === it, () => `${op[0]} of entry ${it.id} returned entry ${e.id}`);
        this.gone(Q, it); this.bump('removed'); if (Q.items.size === 0) this.bump('removed-last');
        break;
      }
      case 'trystale': {
        if (!Q || !Q.stale.length) break;
        const k = Q.stale[op[2] % Q.stale.length];
        if ([...Q.items.values()].some((y) => a.key_eq(y.key, k))) { this.bump('key-reused'); break; }
        const e = a.dq_try_remove(Q.h, k);
        must(e === undefined, () => `try_remove with a key that left the queue returned entry ${e.id}`);
        this.bump('stale-key');
        break;
      }
      case 'reset': case 'resetat': case 'resetnear': {
        const it = pickItem(op[2]); if (!it) break;
        let req;
        if (op[0] === 'resetnear') { const y = pickItem(op[3]); req = y.lo + BigInt(op[4]); } else req = nowN + BigInt(op[3]);
        if (!inRange(req)) break;
        if (op[0] === 'reset') this.quietly(() => a.dq_reset(Q.h, it.key, BigInt(op[3]))); else a.dq_reset_at(Q.h, it.key, req);
        this.bump(req <= nowN ? 'reset-past' : req < it.req ? 'reset-earlier' : 'reset-later');
        this.place(Q, it, req); Q.work++;
        break;
      }
      case 'clear': {
        if (!Q) break;
        const all = [...Q.items.values()];
        a.dq_clear(Q.h);
        for (const it of all) this.gone(Q, it);
        Q.progress = Q.top = Q.start;
        this.bump('clear');
        break;
      }
      case 'compact': if (Q) { a.dq_compact(Q.h); Q.compacted = true; this.bump('compact'); this.checkCap(Q, 'compact', Q.items.size); } break;
      case 'shrink': if (Q) { a.dq_shrink(Q.h); this.bump('shrink'); this.checkCap(Q, 'shrink_to_fit', Q.maxLen); } break;
      case 'reserve': {
        if (!Q) break;
        a.dq_reserve(Q.h, op[2]);
        if (this.q.len) must(a.dq_capacity(Q.h) >= Q.items.size + op[2], () => `after reserve(${op[2]}) with ${Q.items.size} entries the capacity is ${a.dq_capacity(Q.h)}`);
        break;
      }
      case 'run': this.runFor(op[1]); break;
      case 'block': h.block(op[1]); this.lastBlockUs = h.us; break;
      case 'turn': h.runDue(); break;
      case 'rundue': { const it = pickItem(op[2]); if (!it) break; const us = Math.floor(this.ns2us(it.lo) - h.us + op[3]); if (us > 0 && us < 86400e6) this.runFor(us); break; }
      case 'leap': { // the machine sleeps through it
        const it = op[3] ? pickItem(op[2]) : null;
        const us = it ? Math.floor(this.ns2us(it.lo) - h.us + op[2]) : op[2] * 1000;
        if (us > 0) { h.block(us); this.lastBlockUs = h.us; this.runFor(3 * this.slackUs); }
        break;
      }
      default: throw new Error('op ' + op[0]);
    }
    for (const x of this.qs) {
      this.checkQ(x);
      if (x.pend && this.q.wake && this.eager && this.woken(x.pend)) this.drain(x);
    }
  }
  /** Drops everything and accounts for every value. */
  finish() {
    for (const Q of this.qs) this.a.dq_drop(Q.h);
    if (this.q.once) for (const id of this.vals.keys()) must(this.h.valDrops.get(id) === 1, () => `the value of entry ${id} was dropped ${this.h.valDrops.get(id) || 0} times`);
  }
  /** Consumes what is left with a wake-driven consumer. */
  consume(Q, maxUs = 200e6) {
    this.drain(Q);
    const near = [...Q.items.values()].filter((it) => this.ns2us(it.lo) - this.h.us < maxUs);
    for (let k = 0; k < 50; k++) {
      // blocked turns and late polls move the bound
      const last = near.reduce((m, it) => (Q.items.has(it.id) ? Math.max(m, this.promptItem(Q, it)) : m), 0);
      if (last <= this.h.us) break;
      this.follow(Q, last - this.h.us + 1000);
    }
    this.checkQ(Q);
    if (this.q.once || this.q.wake) for (const it of near) must(!Q.items.has(it.id), () => `${this.desc(Q, it)} was never yielded to a task that polls whenever it is woken (host at ${this.h.us} µs)`);
  }
}

// ---------------------------------------------------------------- generators

import { durNs, runUs } from './world.mjs';
export function dqOps(fc, w, { min = 1, max = 60, queues = 1, dmax = 10_000_000, caps = false, far = false } = {}) {
  const qn = fc.nat({ max: queues - 1 }); const i = fc.nat({ max: 63 });
  const d = far ? fc.oneof({ weight: 3, arbitrary: durNs(fc, dmax) }, { weight: 4, arbitrary: fc.bigInt({ min: 0n, max: (RANGE_MS - 2n) * MSn }) }, { weight: 2, arbitrary: fc.integer({ min: 0, max: 35 }).chain((b) => fc.bigInt({ min: 0n, max: (1n << BigInt(b)) * MSn })) }) : durNs(fc, dmax);
  const signed = fc.tuple(d, fc.nat(7)).map(([x, p]) => (p === 0 ? -(typeof x === 'bigint' ? 5_000_000n : Math.min(x, 900 * MS)) : x));
  // offsets that straddle the slots of the wheel: 1 ms, 64 ms, 4.096 s, ...
  const off = fc.oneof(fc.integer({ min: -2_000_000, max: 2_000_000 }), fc.tuple(fc.integer({ min: -2, max: 2 }), fc.integer({ min: 0, max: 3 })).map(([k, l]) => k * 64 ** l * MS), fc.constantFrom(0, 0, 1, -1, MS, -MS));
  const all = {
    ins: fc.tuple(qn, d).map(([q, x]) => ['ins', q, x]),
    insat: fc.tuple(qn, signed).map(([q, x]) => ['insat', q, x]),
    insnear: fc.tuple(qn, i, off).map(([q, x, y]) => ['insnear', q, x, y]),
    insmany: fc.tuple(qn, fc.integer({ min: 2, max: 24 }), durNs(fc, dmax), off).map(([q, n, x, y]) => ['insmany', q, n, x, y]),
    poll: fc.tuple(qn, fc.boolean()).map(([q, s]) => ['poll', q, s]),
    drain: qn.map((q) => ['drain', q]),
    follow: fc.tuple(qn, runUs(fc).map((x) => Math.min(x, 60e6))).map(([q, us]) => ['follow', q, us]),
    remove: fc.tuple(qn, i).map(([q, x]) => ['remove', q, x]), tryremove: fc.tuple(qn, i).map(([q, x]) => ['tryremove', q, x]),
    trystale: fc.tuple(qn, i).map(([q, x]) => ['trystale', q, x]),
    reset: fc.tuple(qn, i, d).map(([q, x, y]) => ['reset', q, x, y]),
    resetat: fc.tuple(qn, i, signed).map(([q, x, y]) => ['resetat', q, x, y]),
    resetnear: fc.tuple(qn, i, i, off).map(([q, x, y, z]) => ['resetnear', q, x, y, z]),
    clear: qn.map((q) => ['clear', q]), compact: qn.map((q) => ['compact', q]), shrink: qn.map((q) => ['shrink', q]),
    reserve: fc.tuple(qn, fc.integer({ min: 0, max: 100 })).map(([q, x]) => ['reserve', q, x]),
    run: runUs(fc).map((x) => ['run', Math.min(x, 600e6)]), block: runUs(fc).map((x) => ['block', x]), turn: fc.constant(['turn']),
    rundue: fc.tuple(qn, i, fc.integer({ min: -3000, max: 9000 })).map(([q, x, y]) => ['rundue', q, x, y]),
    leap: fc.tuple(qn, fc.oneof(fc.integer({ min: 1, max: 200_000 }), fc.integer({ min: 0, max: 37 }).chain((b) => fc.integer({ min: 1, max: 2 ** b }))), fc.constant(0)).map(([q, x]) => ['leap', q, x, 0]),
    leapto: fc.tuple(qn, fc.integer({ min: -2000, max: 2000 })).map(([q, x]) => ['leap', q, x, 1]),
  };
  const newq = fc.tuple(qn, fc.constantFrom('new', 'new', 'def', 'cap'), fc.integer({ min: 0, max: 50 })).map(([q, k, c]) => ['q', q, caps ? k : 'new', c]);
  all.q = newq;
  const one = fc.oneof(...Object.keys(w).map((k) => ({ weight: w[k], arbitrary: all[k] })));
  return fc.tuple(newq, fc.array(one, { minLength: min, maxLength: max, size: 'max' })).map(([s, r]) => [s, ...r]);
}
