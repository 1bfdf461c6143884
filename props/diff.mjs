// D: the same program on this crate (time paused, on the virtual host) and on native tokio.
import { execFileSync, spawn } from 'node:child_process';
import fs from 'node:fs';
import os from 'node:os';
import path from 'node:path';
import { Host } from '../js/host.mjs';
import { NATIVE_BIN } from '../js/build.mjs';
import { must } from '../js/lib.mjs';

const MSn = 1_000_000n;
const ns = (ms) => BigInt(ms) * MSn;

/** The reference runs in a process of its own, one per worker, which answers line by line. */
let ref = null;
function native(prog) {
  if (!ref) {
    const dir = fs.mkdtempSync(path.join(os.tmpdir(), 'vh-native-'));
    try {
      const [i, o] = ['in', 'out'].map((x) => path.join(dir, x));
      execFileSync('mkfifo', [i, o]);
      const p = spawn(NATIVE_BIN, [i, o], { stdio: 'ignore' });
      p.on('error', (e) => { throw e; });
      p.unref();
      ref = { tx: fs.openSync(i, 'w'), rx: fs.openSync(o, 'r'), buf: '' };
    } finally { fs.rmSync(dir, { recursive: true }); }
  }
  fs.writeSync(ref.tx, prog + '\n');
  const b = Buffer.alloc(65536);
  for (;;) {
    const k = ref.buf.indexOf('\n');
    if (k >= 0) { const l = ref.buf.slice(0, k); ref.buf = ref.buf.slice(k + 1); return l; }
    const n = fs.readSync(ref.rx, b);
    if (n === 0) throw new Error('native-ref ended');
    ref.buf += b.toString('utf8', 0, n);
  }
}

/** Runs the case here, resolving indices to objects; returns [operation, result] pairs. */
function local(art, c, ctx) {
  const h = new Host(art, c.cfg); const a = h.api;
  a.tu_pause(); a.vh_base();
  let now = 0; let nextW = 1;
  const S = []; const I = []; const T = []; const Q = [];
  const log = [];
  const waker = () => { const id = nextW++; return { id, h: a.waker_new(id), seq: h.wakeSeq }; };
  const woken = (p) => (p ? String(h.wakes.some((w) => w.id === p.id && w.seq >= p.seq)) : '');
  const ms = (n) => { must(n % MSn === 0n, () => `${n} ns is not a whole millisecond`); return String(n / MSn); };
  const pick = (l, i) => (l.length ? i % l.length : -1);
  const out = (op, r) => log.push([op, r]);
  const dues = []; // interesting instants
  for (const [op, x, y, z] of c.ops) {
    switch (op) {
      case 'adv': case 'advto': {
        let d = x;
        if (op === 'advto') { const t = dues.filter((t) => t >= now - 2); if (!t.length) break; d = Math.max(0, t[x % t.length] + y - now); }
        const n = a.tu_advance(ns(d), waker().h);
        must(n <= 100, () => 'advance does not complete');
        now += d;
        out(`adv ${d}`, ms(a.now()));
        break;
      }
      case 'sleep': S.push({ h: a.sleep_new(ns(x)) }); dues.push(now + x); out(`sleep ${x}`, ''); break;
      case 'until': { const t = Math.max(0, now + x); S.push({ h: a.sleep_until(ns(t)) }); dues.push(t); out(`until ${t}`, ''); break; }
      case 'sp': { const i = pick(S, x); if (i < 0) break; const w = waker(); const r = a.sleep_poll(S[i].h, w.h); S[i].p = r ? null : w; if (r) ctx.tag('sleep-ready'); out(`sp ${i}`, `${r ? 'R' : 'P'} ${a.sleep_is_elapsed(S[i].h)}`); break; }
      case 'sr': { const i = pick(S, x); if (i < 0) break; const t = Math.max(0, now + y); a.sleep_reset(S[i].h, ns(t)); S[i].p = null; dues.push(t); ctx.tag('sleep-reset'); out(`sr ${i} ${t}`, ''); break; }
      case 'sd': { const i = pick(S, x); if (i >= 0) out(`sd ${i}`, ms(a.sleep_deadline(S[i].h))); break; }
      case 'sw': { const i = pick(S, x); if (i >= 0) out(`sw ${i}`, woken(S[i].p)); break; }
      case 'iv': I.push({ h: a.iv_new(ns(Math.max(1, x))) }); for (let k = 1; k < 4; k++) dues.push(now + k * Math.max(1, x)); out(`iv ${Math.max(1, x)}`, ''); break;
      case 'ivat': { const t = Math.max(0, now + x); const p = Math.max(1, y); I.push({ h: a.iv_at(ns(t), ns(p)) }); for (let k = 0; k < 4; k++) dues.push(t + k * p); out(`ivat ${t} ${p}`, ''); break; }
      case 'im': { const i = pick(I, x); if (i < 0) break; a.iv_set_mtb(I[i].h, y); out(`im ${i} ${y}`, ''); break; }
      case 'ip': { const i = pick(I, x); if (i < 0) break; const w = waker(); const r = a.iv_poll(I[i].h, w.h); I[i].p = r === undefined ? w : null; if (r !== undefined) ctx.tag('tick'); out(`ip ${i}`, r === undefined ? 'P' : ms(r)); break; }
      case 'ir': { const i = pick(I, x); if (i < 0) break; a.iv_reset(I[i].h); I[i].p = null; out(`ir ${i}`, ''); break; }
      case 'iw': { const i = pick(I, x); if (i >= 0) out(`iw ${i}`, woken(I[i].p)); break; }
      case 'to': T.push({ h: a.to_sleep(ns(x), ns(y)) }); dues.push(now + x, now + y); out(`to ${x} ${y}`, ''); break;
      case 'toat': { const t = Math.max(0, now + x); const u = Math.max(0, now + y); T.push({ h: a.to_sleep_at(ns(t), ns(u)) }); dues.push(t, u); out(`toat ${t} ${u}`, ''); break; }
      case 'tp': {
        const i = pick(T, x); if (i < 0 || T[i].done) break;
        const w = waker(); const r = a.to_poll(T[i].h, w.h);
        if (r === -1n) T[i].p = w; else { T[i].p = null; T[i].done = true; ctx.tag(r === -2n ? 'timeout-elapsed' : 'timeout-value'); }
        out(`tp ${i}`, r === -1n ? 'P' : r === -2n ? 'E' : 'R');
        break;
      }
      case 'tw': { const i = pick(T, x); if (i >= 0 && !T[i].done) out(`tw ${i}`, woken(T[i].p)); break; }
      case 'q': if (Q.length < 2) { Q.push({ h: x ? a.dq_with_capacity(x) : a.dq_new(), keys: [] }); out(`q ${x ?? 0}`, ''); } break;
      case 'qi': case 'qd': case 'qn': {
        const i = pick(Q, x); if (i < 0) break;
        const q = Q[i]; const id = q.keys.length;
        let t = Math.max(0, now + y);
        if (op === 'qn') { const l = dues.filter((t) => t >= now); if (!l.length) break; t = Math.max(0, l[y % l.length] + z); }
        const k = op === 'qd' ? a.dq_insert(q.h, id, id, ns(Math.max(0, y))) : a.dq_insert_at(q.h, id, id, ns(t));
        q.keys.push(k); dues.push(t);
        out(op === 'qd' ? `qd ${i} ${Math.max(0, y)}` : `qi ${i} ${t}`, String(a.dq_len(q.h)));
        break;
      }
      case 'qx': case 'qt': {
        const i = pick(Q, x); if (i < 0) break;
        const q = Q[i]; const k = pick(q.keys, y); if (k < 0 || q.keys[k] === null) break;
        const e = op === 'qx' ? a.dq_remove(q.h, q.keys[k]) : a.dq_try_remove(q.h, q.keys[k]);
        must(e, () => `try_remove of entry ${k}, which is in the queue, returned None`);
        q.keys[k] = null; ctx.tag('queue-remove');
        out(`${op} ${i} ${k}`, `${e.id} ${ms(e.deadline)} ${a.dq_len(q.h)}`);
        break;
      }
      case 'qr': case 'qs': {
        const i = pick(Q, x); if (i < 0) break;
        const q = Q[i]; const k = pick(q.keys, y); if (k < 0 || q.keys[k] === null) break;
        const t = Math.max(0, now + (op === 'qs' ? Math.max(0, z) : z));
        if (op === 'qr') a.dq_reset_at(q.h, q.keys[k], ns(t)); else a.dq_reset(q.h, q.keys[k], ns(t - now));
        dues.push(t); ctx.tag('queue-reset');
        out(`${op} ${i} ${k} ${op === 'qr' ? t : t - now}`, '');
        break;
      }
      case 'qw': { const i = pick(Q, x); if (i >= 0) out(`qw ${i}`, woken(Q[i].p)); break; }
      case 'ql': { const i = pick(Q, x); if (i >= 0) out(`ql ${i}`, `${a.dq_len(Q[i].h)} ${a.dq_is_empty(Q[i].h)} ${a.dq_capacity(Q[i].h) >= a.dq_len(Q[i].h)}`); break; }
      case 'qc': { const i = pick(Q, x); if (i < 0) break; a.dq_clear(Q[i].h); Q[i].keys.fill(null); out(`qc ${i}`, String(a.dq_len(Q[i].h))); break; }
      case 'qk': { const i = pick(Q, x); if (i < 0) break; a.dq_compact(Q[i].h); out(`qk ${i}`, ''); break; }
      case 'qp': {
        const i = pick(Q, x); if (i < 0) break;
        const q = Q[i]; const got = []; let end = '';
        for (let n = 0; n < 1000 && !end; n++) { const w = waker(); q.p = null; const e = a.dq_poll(q.h, w.h); if (e === undefined) { end = 'P'; q.p = w; } else if (e.id === 0xffffffff) end = 'N'; else { q.keys[e.id] = null; got.push([e.id, ms(e.deadline)]); } }
        if (got.length) ctx.tag('queue-yield');
        out(`qp ${i}`, got.sort((m, n) => m[0] - n[0]).map(([m, d]) => `${m}@${d},`).join('') + end);
        break;
      }
      default: throw new Error('op ' + op);
    }
  }
  return log;
}

const OPS = (fc) => {
  const i = fc.nat({ max: 40 });
  const d = fc.oneof({ weight: 5, arbitrary: fc.integer({ min: 0, max: 30 }) }, { weight: 2, arbitrary: fc.integer({ min: 0, max: 300 }) }, { weight: 2, arbitrary: fc.tuple(fc.integer({ min: 0, max: 3 }), fc.integer({ min: 1, max: 3 }), fc.integer({ min: -2, max: 2 })).map(([l, k, o]) => Math.max(0, k * 64 ** l + o)) }, { weight: 1, arbitrary: fc.integer({ min: 0, max: 5_000_000 }) });
  const s = fc.tuple(d, fc.nat(6)).map(([x, p]) => (p === 0 ? -x : x));
  const o1 = (n) => i.map((x) => [n, x]);
  return {
    adv: d.map((x) => ['adv', x]), advto: fc.tuple(i, fc.integer({ min: -1, max: 7 })).map(([x, y]) => ['advto', x, y]),
    sleep: d.map((x) => ['sleep', x]), until: s.map((x) => ['until', x]), sp: o1('sp'), sr: fc.tuple(i, s).map(([x, y]) => ['sr', x, y]), sd: o1('sd'), sw: o1('sw'),
    iv: d.map((x) => ['iv', x]), ivat: fc.tuple(s, d).map(([x, y]) => ['ivat', x, y]), im: fc.tuple(i, fc.nat(2)).map(([x, y]) => ['im', x, y]), ip: o1('ip'), ir: o1('ir'), iw: o1('iw'),
    to: fc.tuple(d, d).map(([x, y]) => ['to', x, y]), toat: fc.tuple(s, s).map(([x, y]) => ['toat', x, y]), tp: o1('tp'), tw: o1('tw'),
    q: fc.constantFrom(['q', 0], ['q', 0], ['q', 3], ['q', 40]), qi: fc.tuple(i, s).map(([x, y]) => ['qi', x, y]), qd: fc.tuple(i, d).map(([x, y]) => ['qd', x, y]), qn: fc.tuple(i, i, fc.integer({ min: -2, max: 66 })).map(([x, y, z]) => ['qn', x, y, z]),
    qx: fc.tuple(i, i).map(([x, y]) => ['qx', x, y]), qr: fc.tuple(i, i, s).map(([x, y, z]) => ['qr', x, y, z]), qs: fc.tuple(i, i, d).map(([x, y, z]) => ['qs', x, y, z]), qt: fc.tuple(i, i).map(([x, y]) => ['qt', x, y]), qw: o1('qw'), ql: o1('ql'), qc: o1('qc'), qk: o1('qk'), qp: o1('qp'),
  };
};
const arb = (w, max, min = 3) => (fc) => {
  const all = OPS(fc);
  const one = fc.oneof(...Object.keys(w).map((k) => ({ weight: w[k], arbitrary: all[k] })));
  return fc.record({ cfg: fc.record({ startUs: fc.constantFrom(1_000_000, 1_234_567, 0, 600), granUs: fc.constantFrom(1, 100) }), ops: fc.array(one, { minLength: min, maxLength: max, size: 'max' }) });
};
function run(tags) {
  return (art, c, ctx) => {
    const log = local(art, c, ctx);
    if (!log.length) return;
    const prog = log.map((x) => x[0]).join(';');
    const line = native(prog);
    // the reference gets no program that this crate did not get through, so only a difference
    // (an object that is there for one of them only) can make it fail
    must(line[0] !== '!', () => `native tokio panics: ${line.slice(1)} in ${prog}`);
    const want = line.split(';');
    for (let k = 0; k < log.length; k++) must(log[k][1] === want[k], () => `after ${log.slice(0, k).map((x) => x[0]).join('; ')}: "${log[k][0]}" is "${log[k][1]}", native tokio has "${want[k]}"`);
    const n = tags.filter((t) => ctx.tags[t] >= 2).length;
    ctx.nontrivial = n >= Math.min(2, tags.length);
  };
}
const TU = ['tu-checked'];
const D01 = {
  native: true,
  rule: 'Programs over sleep, reset, interval (all missed tick behaviours), interval_at, timeout(_at) of sleeps, and delay queues, with the time paused and advanced in whole milliseconds, run on this crate and on native tokio 1.54 / tokio-util 0.7. Every poll has the same result (ties within one drained batch of a queue in any order), every instant and reported deadline is equal, and the tasks of sleeps, intervals, timeouts and queues have been woken alike. The last suite repeats its operations up to 60 times on the same objects. Non-trivial: two kinds of completions, at least twice each.',
  assumptions: ['whole milliseconds; stale keys and zero periods are not used'],
  suites: [
    { name: 'timers', variants: TU, quick: 12000, thorough: 600000, arb: arb({ adv: 4, advto: 8, sleep: 4, until: 2, sp: 6, sr: 4, sd: 1, sw: 3, iv: 2, ivat: 2, im: 3, ip: 8, ir: 2, iw: 2, to: 3, toat: 2, tp: 6, tw: 2 }, 60), run: run(['sleep-ready', 'tick', 'timeout-elapsed', 'timeout-value', 'sleep-reset']) },
    { name: 'queues', variants: TU, quick: 12000, thorough: 600000, arb: (fc) => arb({ adv: 3, advto: 8, qi: 5, qd: 6, qn: 5, qx: 2, qt: 1, qr: 3, qs: 3, qw: 3, ql: 1, qc: 1, qk: 1, qp: 9 }, 70)(fc).map((c) => ({ ...c, ops: [['q', c.ops.length % 3 ? 0 : 8], ...c.ops] })), run: run(['queue-yield', 'queue-remove', 'queue-reset']) },
    { name: 'mixed', variants: TU, quick: 4000, thorough: 300000, arb: arb({ adv: 4, advto: 8, sleep: 3, sp: 4, sr: 2, sw: 2, iv: 2, ip: 5, ir: 1, to: 2, tp: 3, q: 2, qi: 3, qd: 3, qn: 3, qx: 1, qr: 1, qs: 1, qw: 1, qp: 6 }, 80), run: run(['sleep-ready', 'tick', 'timeout-elapsed', 'timeout-value', 'queue-yield']) },
    { // thousands of operations on the same objects
      name: 'marathon', variants: TU, quick: 60, thorough: 10000,
      arb: (fc) => fc.tuple(arb({ adv: 5, advto: 9, sleep: 5, sp: 6, sr: 4, sw: 2, iv: 3, im: 1, ip: 5, ir: 1, to: 5, tp: 5, q: 2, qi: 3, qd: 4, qn: 4, qx: 2, qt: 1, qr: 2, qs: 2, qw: 2, qk: 1, qp: 7 }, 45, 20)(fc), fc.integer({ min: 5, max: 60 })).map(([c, rep]) => ({ ...c, rep })),
      run(art, c, ctx) { run(['sleep-ready', 'tick', 'timeout-elapsed', 'timeout-value', 'queue-yield'])(art, { cfg: { ...c.cfg, fuel: 2_000_000_000 }, ops: Array.from({ length: c.rep }, (_, k) => c.ops.map((o) => (typeof o[1] === 'number' && /^(advto|s[prdw]|i[pmrw]|t[pw])$/.test(o[0]) ? [o[0], o[1] + k, ...o.slice(2)] : /^q[xtrsn]$/.test(o[0]) ? [o[0], o[1], o[2] + k * 7, ...o.slice(3)] : o))).flat() }, ctx); },
    },
  ],
};
export default { D01 };
