import { World, hostCfg, durNs, runUs, MS } from '../js/world.mjs';
import { must } from '../js/lib.mjs';

const MIX = ['prod-checked', 'prod-plain', 'tu-checked'];

// A timeout of a future under control of the case (ctl) or of a sleep.
class ToWorld extends World {
  constructor(art, cfg, ctx) { super(art, cfg, {}, ctx); this.late_ok = 0; this.err = 0; this.ok = 0; this.vals = 0; }
  checkAll() {}
  addTo(h, D, inner) { const o = this.add('to', h, D); Object.assign(o, inner); o.polls = 0; return o; }
  show(o) { return `timeout#${o.n} (deadline ${o.D} ns, ${o.kind2 === 'sleep' ? `inner sleep until ${o.Din} ns` : `inner ${o.out === undefined ? 'pending' : 'ready'}`}, now ${this.a.now()} ns)`; }
  innerBy(o) { const k = o.D; o.D = o.Din; const r = this.promptBy(o); o.D = k; return r; }
  pollTo(o) {
    if (o.done) return;
    const w = this.waker();
    const r = this.a.to_poll(o.h, w.h);
    o.polls++;
    const now = this.a.now();
    if (o.kind2 === 'ctl') must(this.a.to_inner_polls(o.h) === o.polls, () => `${this.show(o)}: polled ${o.polls} times, its future ${this.a.to_inner_polls(o.h)} times`);
    if (r === -1n) {
      must(o.out === undefined, () => `${this.show(o)} is pending although its future is ready`);
      must(this.h.us <= this.promptBy(o), () => `${this.show(o)} did not elapse by ${this.promptBy(o)} µs (host at ${this.h.us})`);
      if (o.kind2 === 'sleep') must(this.h.us <= this.innerBy(o), () => `${this.show(o)} is pending although its sleep is due`);
      o.poll = { w, seq: this.h.wakeSeq };
    } else if (r === -2n) {
      must(now >= o.D, () => `${this.show(o)} elapsed early`);
      must(o.out === undefined, () => `${this.show(o)} elapsed although its future is ready`);
      if (o.kind2 === 'sleep') must(o.Din > o.D, () => `${this.show(o)} elapsed although its sleep was due first`);
      o.done = true; o.res = 'err'; o.poll = null; this.err++;
    } else {
      if (o.kind2 === 'ctl') { must(o.out !== undefined && r === BigInt(o.out), () => `${this.show(o)} returned ${r}, its future returns ${o.out}`); if (now >= o.D) this.late_ok++; } else must(now >= o.Din, () => `${this.show(o)}: the sleep inside completed early`);
      o.done = true; o.res = 'ok'; o.poll = null; this.ok++;
    }
  }
  checkWakes() {
    for (const o of this.objs) {
      if (!o.poll) continue;
      const by = o.kind2 === 'sleep' ? Math.min(this.promptBy(o), this.innerBy(o)) : this.promptBy(o);
      if (this.h.us > by) must(this.woken(o), () => `${this.show(o)}: its task was not woken by ${by} µs (host at ${this.h.us})`);
    }
  }
  toStep(op) {
    const { a } = this;
    const o = () => this.pick(op[1]);
    const t = a.now();
    switch (op[0]) {
      case 'new': { const rdy = op[2] ? ++this.vals : undefined; this.addTo(a.to_ctl(BigInt(op[1]), rdy), t + BigInt(op[1]), { kind2: 'ctl', out: rdy }); break; }
      case 'at': { const D = this.past(t + BigInt(op[1])); const rdy = op[2] ? ++this.vals : undefined; this.addTo(a.to_ctl_at(D, rdy), D, { kind2: 'ctl', out: rdy }); break; }
      case 'sleep': this.addTo(a.to_sleep(BigInt(op[1]), BigInt(op[2])), t + BigInt(op[1]), { kind2: 'sleep', Din: t + BigInt(op[2]) }); break;
      case 'sleepat': { const D = this.past(t + BigInt(op[1])); const I = this.past(t + BigInt(op[2])); this.addTo(a.to_sleep_at(D, I), D, { kind2: 'sleep', Din: I }); break; }
      case 'poll': { const x = o(); if (x) this.pollTo(x); break; }
      case 'pollall': for (const x of this.objs) this.pollTo(x); break;
      case 'complete': {
        const x = o(); if (!x || x.done || x.kind2 !== 'ctl' || x.out !== undefined) break;
        x.out = ++this.vals;
        a.to_complete(x.h, x.out, op[2]);
        if (op[2] && x.poll) must(this.woken(x), () => `${this.show(x)}: its future did not get the waker of the last poll`);
        break;
      }
      case 'access': { const x = o(); if (!x || x.kind2 !== 'ctl') break; const tag = ++this.vals; must(a.to_access(x.h, tag) === tag && a.to_inner_tag(x.h) === tag, () => `${this.show(x)}: get_mut / get_ref do not reach the future`); break; }
      case 'into': {
        const x = o(); if (!x) break;
        this.objs.splice(this.objs.indexOf(x), 1);
        if (x.kind2 === 'ctl') { const r = a.to_into_inner(x.h); must(r === 1, () => `into_inner: the future was dropped ${Math.floor(r / 100)} times before it was returned, ${r % 100} times after`); this.ctx.tag('into_inner'); } else { const s = a.to_into_inner(x.h); must(a.sleep_deadline(s) === x.Din, 'into_inner returned another sleep'); a.sleep_drop(s); }
        break;
      }
      case 'drop': { const x = o(); if (!x) break; this.objs.splice(this.objs.indexOf(x), 1); if (x.kind2 === 'ctl') must(a.to_inner_drops(x.h) === 0, () => `${this.show(x)}: its future is dropped already`); a.to_drop(x.h); break; }
      case 'run': this.runFor(op[1]); break;
      case 'rundue': { const x = o(); if (!x) break; const us = Math.floor(this.ns2us(x.kind2 === 'sleep' && op[3] ? x.Din : x.D) - this.h.us + op[2]); if (us > 0 && us < 7200e6) this.runFor(us); break; }
      case 'block': this.h.block(op[1]); this.lastBlockUs = this.h.us; break;
      case 'turn': this.h.runDue(); break;
    }
    this.checkWakes();
  }
}
function toOps(fc, w, max = 50) {
  const i = fc.nat({ max: 31 });
  const d = durNs(fc, 10_000_000);
  const sd = fc.oneof(d, fc.integer({ min: -900, max: 0 }).map((x) => x * MS));
  const pair = fc.oneof(fc.tuple(d, d), d.map((x) => [x, x]), fc.tuple(d, fc.integer({ min: -2_000_000, max: 2_000_000 })).map(([x, y]) => [x, Math.max(0, x + y)]));
  const all = {
    new: fc.tuple(d, fc.integer({ min: 0, max: 5 })).map(([x, r]) => ['new', x, r === 0]),
    at: fc.tuple(sd, fc.integer({ min: 0, max: 5 })).map(([x, r]) => ['at', x, r === 0]),
    sleep: pair.map(([x, y]) => ['sleep', x, y]), sleepat: fc.tuple(sd, sd).map(([x, y]) => ['sleepat', x, y]),
    poll: i.map((x) => ['poll', x]), pollall: fc.constant(['pollall']),
    complete: fc.tuple(i, fc.boolean()).map(([x, k]) => ['complete', x, k]),
    access: i.map((x) => ['access', x]), into: i.map((x) => ['into', x]), drop: i.map((x) => ['drop', x]),
    run: runUs(fc).map((x) => ['run', x]), block: runUs(fc).map((x) => ['block', x]), turn: fc.constant(['turn']),
    rundue: fc.tuple(i, fc.integer({ min: -1500, max: 12_000 }), fc.boolean()).map(([x, y, b]) => ['rundue', x, y, b]),
  };
  return fc.array(fc.oneof(...Object.keys(w).map((k) => ({ weight: w[k], arbitrary: all[k] }))), { minLength: 1, maxLength: max, size: 'max' });
}

const O01 = {
  rule: 'Timeouts of futures that complete when the case says so and of sleeps, by duration and by deadline (also past), polled at arbitrary moments. A poll yields the value if the future is ready, also when the deadline has passed as well; otherwise an error only at or after the deadline and no later than the slack; a pending poll leaves its waker registered with both. Non-trivial: one timeout elapsed and another one returned the value of its future.',
  suites: [{
    name: 'result', variants: MIX, quick: 14000, thorough: 800000,
    arb: (fc) => fc.record({ cfg: hostCfg(fc), ops: toOps(fc, { new: 6, at: 3, sleep: 3, sleepat: 2, poll: 5, pollall: 6, complete: 6, drop: 1, run: 4, rundue: 6, block: 2, turn: 1 }) }),
    run(art, c, ctx) {
      const w = new ToWorld(art, c.cfg, ctx);
      for (const op of c.ops) w.toStep(op);
      w.toStep(['pollall']);
      for (const o of w.objs.filter((x) => !x.done && w.ns2us(x.D) - w.h.us < 600e6)) { if (o.done) continue; w.runFor(Math.max(1, Math.ceil(w.promptBy(o) + 1 - w.h.us))); w.checkWakes(); w.pollTo(o); must(o.done, () => `${w.show(o)} never completed`); }
      if (w.late_ok) ctx.tag('ready-after-deadline'); if (w.err) ctx.tag('elapsed'); if (w.ok) ctx.tag('value');
      ctx.nontrivial = w.err > 0 && w.ok > 0;
    },
  }],
};
const O02 = {
  rule: 'The same timeouts, with get_ref, get_mut, into_inner and drops in between. Every poll polls the future exactly once, first, with the waker of that poll; get_ref and get_mut reach that future; into_inner returns it undropped; dropping drops it once; the error displays "deadline has elapsed" and converts to an io error of kind TimedOut. Non-trivial: a future was polled at least twice through its timeout and accessed or recovered.',
  suites: [{
    name: 'transparency', variants: MIX, quick: 10000, thorough: 600000,
    arb: (fc) => fc.record({ cfg: hostCfg(fc), ops: toOps(fc, { new: 6, at: 2, sleep: 2, poll: 8, pollall: 4, complete: 4, access: 5, into: 3, drop: 2, run: 3, rundue: 4, block: 1 }) }),
    run(art, c, ctx) {
      const w = new ToWorld(art, c.cfg, ctx);
      let acc = false;
      for (const op of c.ops) { if ((op[0] === 'access' || op[0] === 'into') && w.pick(op[1])?.polls >= 2) acc = true; w.toStep(op); }
      // the error itself
      const o = w.objs.find((x) => !x.done && x.kind2 === 'ctl' && x.out === undefined && w.ns2us(x.D) - w.h.us < 600e6);
      if (o) {
        w.runFor(Math.max(1, Math.ceil(w.promptBy(o) + 1 - w.h.us)));
        const txt = w.a.to_err_text(o.h, w.waker().h);
        must(txt === 'deadline has elapsed|deadline has elapsed|TimedOut', () => `${w.show(o)}: the error reads ${txt}`);
        ctx.tag('error-text');
      }
      ctx.nontrivial = acc;
    },
  }],
};
export default { O01, O02 };
