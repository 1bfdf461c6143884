// Virtual JavaScript host for the wasm build of the crate under test.
//
// A fresh wasm instance is made per case, with its own fake global object: clock, setTimeout,
// Date. Nothing in a case reads real time or the real event loop, so a case is a pure function of
// (wasm module, case description).
import fs from 'node:fs';
import path from 'node:path';

import { Panic, Violation } from './lib.mjs';
export { Panic };

// More reads of the clock than this within one call from the host mean the call never returns.
const MAX_CLOCK_READS = 100_000;
// Iterations of all loops within one call from the host (see instrument/).
const FUEL = 20_000_000;

const ON_HANDLE = /^(sleep|iv|to|dq)_/;
const NOT_ON_HANDLE = new Set(['sleep_new', 'sleep_new_big', 'sleep_until', 'iv_new', 'iv_new_big', 'iv_at', 'to_ctl', 'to_ctl_big', 'to_ctl_at', 'to_sleep', 'to_sleep_at', 'to_complete', 'to_inner_polls', 'to_inner_drops', 'dq_new', 'dq_default', 'dq_with_capacity']);

const FACTORY_PARAMS = [
  'globalThis', 'self', 'window', 'global', 'Date', 'FinalizationRegistry', 'console',
  'setTimeout', 'clearTimeout', 'queueMicrotask', 'performance',
  '__vh_panic', '__vh_wake', '__vh_waker_drop', '__vh_val_drop', '__vh_waker_clone', '__vh_ready', '__vh_block',
];

export function loadArtifact(dir) {
  const src = fs.readFileSync(path.join(dir, 'vharness.js'), 'utf8');
  const module = new WebAssembly.Module(fs.readFileSync(path.join(dir, 'vharness_bg.wasm')));
  const factory = new Function(...FACTORY_PARAMS, src + '\n;return wasm_bindgen;');
  return { factory, module };
}

/**
 * cfg:
 *   startUs      host clock at instance creation, microseconds (integer)
 *   granUs       resolution of performance.now(), microseconds
 *   earlyUs      how much before its time the host runs a callback (0)
 *   minDelayMs   clamp applied to setTimeout delays (node: 1, browsers: 0..4)
 *   handle       'number' | 'object': what setTimeout returns
 *   scope        'globalThis' | 'self' | 'window' | 'global': which global names exist
 *   brand        check `this` of performance.now / setTimeout as browsers do
 *   dateMs       Date.now() at creation
 */
export class Host {
  constructor(art, cfg = {}) {
    this.cfg = { startUs: 1_000_000, granUs: 1, minDelayMs: 1, handle: 'number', scope: 'globalThis', brand: true, dateMs: 1_700_000_000_000, ...cfg };
    this.us = this.cfg.startUs;
    this.readUs = this.cfg.readUs || 0;
    this.still = false;
    this.costUs = this.cfg.costUs || (this.cfg.minDelayMs === 0 ? 20 : 0);
    this.dateMs = this.cfg.dateMs;
    this.timers = [];
    this.seq = 0;
    this.micro = [];
    this.setTimeoutCalls = 0;
    this.callbacksRun = 0;
    this.maxPending = 0;
    this.badDelays = [];
    this.wakes = []; // {id, us, seq}
    this.wakeSeq = 0;
    this.wakerDrops = new Map();
    this.valDrops = new Map();
    this.panicMsg = null;
    this.dead = false;
    this.depth = 0;
    this.calls = new Set();
    this.clockReads = 0;
    this.onWake = this.onWakerDrop = this.onValDrop = this.onWakerClone = null; // user code that the crate runs
    this.onReady = () => { this.micro.push(() => this.api.ex_run()); }; // tasks run in microtasks
    this.onBlock = null;
    const self = this;
    const perf = {
      now() {
        if (self.cfg.brand && this !== perf) throw new TypeError('Illegal invocation: performance.now');
        return self.perfNow();
      },
    };
    const setTimeoutFn = function (cb, ms, ...rest) {
      if (self.cfg.brand && this !== undefined && this !== g) throw new TypeError('Illegal invocation: setTimeout');
      return self.setTimeout(cb, ms, rest);
    };
    const clearTimeoutFn = (id) => self.clearTimeout(id);
    const qm = (f) => { self.micro.push(f); };
    const DateFn = { now: () => self.dateNow() };
    const g = { performance: perf, setTimeout: setTimeoutFn, clearTimeout: clearTimeoutFn, queueMicrotask: qm, Date: DateFn, Object, Promise };
    this.g = g;
    const sc = this.cfg.scope;
    const pick = (name) => (sc === name ? g : undefined);
    g[sc] = g;
    const quiet = { log() {}, warn() {}, error() {}, debug() {}, info() {} };
    this.wb = art.factory(
      pick('globalThis'), pick('self'), pick('window'), pick('global'),
      DateFn, undefined, quiet, setTimeoutFn.bind(g), clearTimeoutFn, qm, perf,
      (s) => { if (this.panicMsg === null) this.panicMsg = s; },
      (id) => { this.wakes.push({ id, us: this.us, seq: this.wakeSeq++ }); if (this.onWake) this.onWake(id); },
      (id) => { this.wakerDrops.set(id, (this.wakerDrops.get(id) || 0) + 1); if (this.onWakerDrop) this.onWakerDrop(id); },
      (id) => { this.valDrops.set(id, (this.valDrops.get(id) || 0) + 1); if (this.onValDrop) this.onValDrop(id); },
      (id) => { if (this.onWakerClone) this.onWakerClone(id); },
      () => { this.onReady(); },
      (us) => { this.block(us); if (this.onBlock) this.onBlock(); },
    );
    const exports = this.wb.initSync({ module: art.module });
    this.memory = exports.memory;
    this.fuel = exports.__fuel;
    this.wb.vh_init();
    const raw = this.wb;
    // every call into wasm goes through here: a trap marks the instance dead
    this.api = new Proxy({}, {
      get: (_, name) => {
        const f = raw[name];
        if (typeof f !== 'function') return undefined;
        return (...a) => this.call(name, f, a);
      },
    });
    this.has = (name) => typeof raw[name] === 'function';
  }

  /** No timer or queue is used while a call on it is in progress: safe Rust does not allow that. */
  inUse(kind, handle) { return this.calls.has(`${kind}:${handle}`); }

  call(name, f, args) {
    const on = ON_HANDLE.exec(name);
    if (!on || NOT_ON_HANDLE.has(name)) return this.call_(name, f, args);
    const key = `${on[1]}:${args[0]}`;
    if (this.calls.has(key)) throw new Error(`harness: ${name} of a ${key} that is in use`);
    if (name.endsWith('_drop') || name === 'to_into_inner') return this.call_(name, f, args); // the handle is free at once
    this.calls.add(key);
    try { return this.call_(name, f, args); } finally { this.calls.delete(key); }
  }

  call_(name, f, args) {
    if (this.dead) throw new Panic(`instance already dead (${this.panicMsg})`);
    if (this.depth++ === 0) { this.clockReads = 0; this.fuel.value = this.cfg.fuel ?? FUEL; }
    try {
      return f(...args);
    } catch (e) {
      this.dead = true;
      if (e instanceof Violation) throw e;
      if (this.fuel.value === 0) throw new Violation(`${name} does not return`);
      throw new Panic(`${name}: ${this.panicMsg ?? e?.message ?? e}`);
    } finally {
      this.depth--;
    }
  }

  perfNow() {
    if (++this.clockReads > MAX_CLOCK_READS) throw new Error('runaway: the call reads the clock endlessly');
    const g = this.cfg.granUs;
    const t = g > 1 ? Math.floor(this.us / g) * g : this.us;
    if (!this.still) this.us += this.readUs; // time goes on while a program runs
    return t / 1000;
  }
  dateNow() { return this.dateMs + Math.floor((this.us - this.cfg.startUs) / 1000); }

  setTimeout(cb, ms) {
    this.setTimeoutCalls++;
    let d = Number(ms);
    if (typeof cb !== 'function') throw new TypeError('setTimeout handler is not a function');
    // HTML / Node: delays that do not fit a signed 32-bit integer do not wait at all
    if (!(d >= 0) || d > 2147483647) { this.badDelays.push(ms); d = 0; }
    d = Math.max(Math.trunc(d), this.cfg.minDelayMs);
    // some hosts run a callback a little before its time (coarse or skewed clocks)
    const wait = Math.max(d * 1000 - (this.cfg.earlyUs || 0), Math.min(d * 1000, Math.max(this.cfg.minDelayMs, 1) * 1000));
    const t = { id: ++this.seq, due: this.us + wait, delay: d, cb };
    this.timers.push(t);
    if (this.timers.length > this.maxPending) this.maxPending = this.timers.length;
    return this.cfg.handle === 'object' ? { _id: t.id, ref() { return this; }, unref() { return this; }, hasRef: () => true } : t.id;
  }
  clearTimeout(h) {
    const id = typeof h === 'object' && h ? h._id : h;
    this.timers = this.timers.filter((t) => t.id !== id);
  }

  nextDue() {
    let best = null;
    for (const t of this.timers) if (best === null || t.due < best.due || (t.due === best.due && t.id < best.id)) best = t;
    return best;
  }
  runOne(t) {
    this.timers.splice(this.timers.indexOf(t), 1);
    this.callbacksRun++;
    this.us += this.costUs; // running a callback takes time
    this.call('setTimeout callback', t.cb, []);
    this.drainMicro();
  }
  drainMicro() {
    let n = 0;
    while (this.micro.length) {
      if (++n > 10000) throw new Violation('the microtask queue never empties');
      this.micro.shift()();
    }
  }
  /** Run what is due now (timers created meanwhile included if they are due). */
  runDue(cap = 100000) {
    let n = 0;
    for (;;) {
      const t = this.nextDue();
      if (!t || t.due > this.us) return n;
      if (++n > cap) throw new Violation(`the host is kept busy: ${cap} callbacks in one turn`);
      this.runOne(t);
    }
  }
  /** Let virtual time pass with a responsive event loop: each callback runs when due (+ lateUs). */
  runFor(us, lateUs = 0, cap = 200000) {
    const end = this.us + us;
    let n = 0;
    for (;;) {
      const t = this.nextDue();
      const at = t ? Math.max(this.us, t.due + lateUs) : Infinity;
      if (at > end) break;
      this.us = at;
      if (++n > cap) return -1;
      this.runOne(t);
    }
    if (this.us < end) this.us = end;
    return n;
  }
  /** Time passes while the main thread is blocked: nothing runs. */
  block(us) { this.us += us; }
}
