// S: Instant and SystemTime.
import { Host } from '../js/host.mjs';
import { must, Panic } from '../js/lib.mjs';

const ALL = ['prod-checked', 'prod-plain', 'tu-checked', 'tu-plain'];
const NS = 1_000_000_000n;
const MAX = (2n ** 64n - 1n) * NS + 999_999_999n; // the longest Duration
const parts = (d) => [d / NS, Number(d % NS)];
const text = (d) => `${d / NS}.${String(d % NS).padStart(9, '0')}`;
const parse = (s) => { const [a, b] = s.split('.'); return BigInt(a) * NS + BigInt(b); };
const abs = (x) => (x < 0n ? -x : x);
function trap(f) { try { f(); } catch (e) { if (!(e instanceof Panic)) throw e; return true; } return false; }

/** Durations in ns, from nothing to the longest one. */
const durArb = (fc) => fc.oneof(
  { weight: 2, arbitrary: fc.bigInt({ min: 0n, max: 5000n }) },
  { weight: 2, arbitrary: fc.bigInt({ min: 0n, max: 10n * NS }) },
  { weight: 2, arbitrary: fc.bigInt({ min: 0n, max: 100_000n }).map((x) => x * 1_000_000n) },
  { weight: 2, arbitrary: fc.bigInt({ min: 0n, max: 1_000_000n * NS }) },
  { weight: 2, arbitrary: fc.tuple(fc.integer({ min: 0, max: 63 }), fc.bigInt({ min: 0n, max: 999_999_999n })).chain(([b, n]) => fc.bigInt({ min: 0n, max: (1n << BigInt(b + 1)) - 1n }).map((s) => s * NS + n)) },
  { weight: 1, arbitrary: fc.bigInt({ min: 0n, max: 3n * NS }).map((x) => MAX - x) },
  { weight: 1, arbitrary: fc.constantFrom(0n, 1n, 999_999_999n, NS, MAX, MAX - 1n, MAX - NS + 1n) },
);

function checkCmp(bits, x, y, what) {
  const c = x < y ? -1 : x > y ? 1 : 0;
  const want = Number(x < y) | Number(x <= y) << 1 | Number(x === y) << 2 | Number(x >= y) << 3 | Number(x > y) << 4 | Number(x !== y) << 5 | (c + 1) << 8 | (c + 1) << 12;
  must(bits === want, () => `${what}: comparing ${x} with ${y} gives ${bits.toString(2)}, expected ${want.toString(2)} (bits: <, <=, ==, >=, >, !=; then cmp + 1 and partial_cmp + 1)`);
}

const S01 = {
  rule: 'Instants are derived from an instant of now by +, +=, -, -=, checked_add and checked_sub with durations from zero to the longest one, then all pairs are compared and subtracted. Reference: unbounded integers of nanoseconds. Non-trivial: at least three distinct instants, one of them by an operation that is within an hour of an overflow or was refused.',
  suites: [{
    name: 'algebra', variants: ALL, quick: 20000, thorough: 1500000,
    arb: (fc) => fc.record({
      startUs: fc.oneof(fc.integer({ min: 0, max: 2000 }), fc.integer({ min: 0, max: 10_000_000_000 })),
      ops: fc.array(fc.tuple(fc.nat(5), fc.nat(20), durArb(fc), fc.nat(3)), { minLength: 1, maxLength: 16, size: 'max' }),
      edge: fc.array(fc.tuple(fc.nat(20), fc.boolean(), fc.bigInt({ min: -3n, max: 3n })), { maxLength: 4 }),
      final: fc.nat(2),
    }),
    run(art, c, ctx) {
      const h = new Host(art, { startUs: c.startUs }); const a = h.api;
      const zero = a.in_now();
      // its absolute value, by how far it can go back; the clock is read in whole microseconds
      let v0 = null;
      for (const k of [0, -1]) { const v = BigInt(c.startUs + k) * 1000n; if (v >= 0n && a.in_checked_sub(zero, ...parts(v)) !== undefined && a.in_checked_sub(zero, ...parts(v + 1n)) === undefined) v0 = v; }
      must(v0 !== null, () => `Instant::now() is not at ${c.startUs} µs`);
      const pool = [[zero, v0]];
      let edge = false;
      const apply = (op, [i, x], d) => {
        const [s, n] = parts(d);
        const add = op < 3; const y = add ? x + d : x - d; const fits = y >= 0n && y <= MAX;
        if (!fits || y < 3600n * NS || y > MAX - 3600n * NS) edge = true;
        let r;
        if (op === 2) r = a.in_checked_add(i, s, n); else if (op === 5) r = a.in_checked_sub(i, s, n);
        else if (!fits) return; // documented to panic, tried at the end
        else r = add ? a.in_add(i, s, n, op === 1) : a.in_sub(i, s, n, op === 4);
        must((r !== undefined) === fits, () => `${add ? 'checked_add' : 'checked_sub'} of ${text(d)} s to the instant at ${text(x)} s is ${r === undefined ? 'None' : 'Some'}`);
        if (r !== undefined) pool.push([r, y]);
      };
      for (const [op, i, d, how] of c.ops) {
        const p = pool[i % pool.length];
        apply(op, p, d);
        if (how === 0) pool.push([a.in_copy(p[0]), p[1]]);
      }
      // durations that reach exactly to the ends of the range and one step beyond
      for (const [i, up, k] of c.edge) { const p = pool[i % pool.length]; const d = (up ? MAX - p[1] : p[1]) + k; if (d >= 0n && d <= MAX) apply(up ? 2 : 5, p, d); }
      for (const [i, x] of pool) {
        for (const [j, y] of pool) {
          checkCmp(a.in_cmp(i, j), x, y, 'Instant');
          const d = x > y ? x - y : 0n;
          for (const f of ['in_duration_since', 'in_saturating', 'in_minus']) { const r = a[f](i, j); must(r === text(d), () => `${f.slice(3)} of the instants at ${text(x)} s and ${text(y)} s is ${r}`); }
          const ch = a.in_checked_ds(i, j);
          must(ch === (x >= y ? text(x - y) : undefined), () => `checked_duration_since of the instants at ${text(x)} s and ${text(y)} s is ${ch}`);
        }
      }
      ctx.nontrivial = edge && new Set(pool.map((p) => p[1])).size >= 3;
      if (c.final < 2) {
        const [i, x] = pool.at(-1);
        const d = c.final === 0 ? MAX - x + 1n : x + 1n;
        if (d <= MAX) {
          ctx.tag('final-panic');
          must(trap(() => (c.final === 0 ? a.in_add : a.in_sub)(i, ...parts(d), c.ops.length % 2 === 0)), () => `an instant that overflows its range by 1 ns did not panic`);
        }
      }
    },
  }],
};
const S02 = {
  rule: 'The clock of the host is read at random, non-decreasing times (whole, fractional and coarse milliseconds, up to years). Instant::now() is within a microsecond of what performance.now() returns, never goes back, and elapsed() and differences of instants are the time that passed on the host, within a microsecond per read. Non-trivial: at least four reads at distinct times.',
  suites: [{
    name: 'track', variants: ALL, quick: 20000, thorough: 1500000,
    arb: (fc) => fc.record({
      start: fc.oneof(fc.double({ min: 0, max: 1e5, noNaN: true }), fc.integer({ min: 0, max: 100_000_000 }).map((x) => x / 10), fc.double({ min: 0, max: 1e11, noNaN: true })),
      steps: fc.array(fc.tuple(fc.oneof(fc.constant(0), fc.double({ min: 0, max: 0.01, noNaN: true }), fc.integer({ min: 0, max: 50 }).map((x) => x * 0.1), fc.double({ min: 0, max: 5000, noNaN: true }), fc.double({ min: 0, max: 1e9, noNaN: true })), fc.nat(2)), { minLength: 1, maxLength: 40, size: 'max' }),
    }),
    run(art, c, ctx) {
      const h = new Host(art, {}); const a = h.api;
      let t = c.start;
      h.perfNow = () => t;
      const first = a.in_now(); const t0 = t;
      // one read is off by less than 1 µs, and by what a double can't tell
      const tol = (t0) => 1000n + BigInt(Math.ceil(t0 * 1e6 * 2 ** -50));
      const hostNs = (from, to) => BigInt(Math.round((to - from) * 1e6));
      // absolute: going back by the time of the host (less the error) is possible, more is not
      const lowNs = BigInt(Math.floor(t0 * 1e6)) - tol(t0); const highNs = BigInt(Math.ceil(t0 * 1e6)) + 1n + tol(t0) - 1000n;
      if (lowNs > 0n) must(a.in_checked_sub(first, ...parts(lowNs)) !== undefined, () => `Instant::now() is more than 1 µs behind the host at ${t0} ms`);
      must(a.in_checked_sub(first, ...parts(highNs + 1n)) === undefined, () => `Instant::now() is ahead of the host at ${t0} ms`);
      let prev = first; let distinct = new Set([t]);
      const reads = [[first, t0]];
      for (const [dt, how] of c.steps) {
        t += dt; distinct.add(t);
        if (how === 0) {
          const [i, ti] = reads[(c.steps.length * 7) % reads.length];
          const e = parse(a.in_elapsed(i)); const w = hostNs(ti, t);
          must(abs(e - w) <= tol(t), () => `elapsed() is ${e} ns for ${w} ns on the host (from ${ti} ms to ${t} ms)`);
          continue;
        }
        const n = a.in_now();
        must((a.in_cmp(n, prev) >> 8 & 3) >= 1, () => `Instant::now() went back at ${t} ms`);
        const d = parse(a.in_minus(n, first)); const w = hostNs(t0, t);
        must(abs(d - w) <= tol(t), () => `the instants at ${t0} ms and ${t} ms on the host are ${d} ns apart`);
        prev = n; reads.push([n, t]);
      }
      ctx.nontrivial = distinct.size >= 4;
    },
  }],
};

const LIM = 2n ** 52n; // ms; doubles are exact there
const msArb = (fc) => fc.oneof(fc.bigInt({ min: 0n, max: 2000n }), fc.bigInt({ min: 0n, max: 4_000_000_000_000n }), fc.integer({ min: 0, max: 50 }).chain((b) => fc.bigInt({ min: 0n, max: 1n << BigInt(b) })), fc.constantFrom(0n, 1n, 999n, 1000n, 4294967295n, 4294967296n));
const dateArb = (fc) => fc.oneof(fc.integer({ min: 0, max: 4_102_444_800_000 }), fc.integer({ min: -62_135_596_800_000, max: 8_640_000_000_000_000 / 4 }), fc.constantFrom(0, 1, -1, 999, 1_700_000_000_123));
/** what a system time is after the epoch, in ns (negative: before) */
const since = (a, i, e) => { const s = a.sy_duration_since(i, e); return (s[0] === '-' ? -1n : 1n) * parse(s.slice(1)); };

const S03 = {
  rule: 'System times are derived from the epoch and from now by +, +=, checked_add, -, -= and checked_sub, on both sides of the epoch, within 2^52 ms. Whole milliseconds are exact (against integers); of a fraction of a millisecond less than one millisecond is lost. All pairs are compared and subtracted: duration_since is the difference, or an error with the difference. Non-trivial: at least three distinct times, one before another base, and one operation with a fraction.',
  suites: [{
    name: 'algebra', variants: ALL, quick: 20000, thorough: 1500000,
    arb: (fc) => fc.record({ dateMs: dateArb(fc), ops: fc.array(fc.tuple(fc.nat(5), fc.nat(20), msArb(fc), fc.oneof(fc.constant(0), fc.integer({ min: 0, max: 999_999 }))), { minLength: 1, maxLength: 14, size: 'max' }) }),
    run(art, c, ctx) {
      const h = new Host(art, { dateMs: c.dateMs }); const a = h.api;
      const e = a.sy_epoch(0); const e2 = a.sy_epoch(1); const now = a.sy_now();
      const pool = [[e, 0n], [e2, 0n], [now, BigInt(c.dateMs) * 1_000_000n]];
      let frac = false; let neg = false;
      for (const [op, i, ms, f] of c.ops) {
        const [p, x] = pool[i % pool.length];
        const d = ms * 1_000_000n + BigInt(f);
        const want = op < 3 ? x + d : x - d;
        if (abs(want) / 1_000_000n >= LIM) continue;
        const r = a.sy_op(p, op, ...parts(d));
        must(r !== undefined, () => `${op < 3 ? 'checked_add' : 'checked_sub'} of ${text(d)} s to the time ${x} ns after the epoch is None`);
        const got = since(a, r, e);
        if (f === 0 && x % 1_000_000n === 0n) must(got === want, () => `${x} ns ${op < 3 ? 'plus' : 'minus'} ${d} ns after the epoch is ${got} ns`);
        else { frac = true; must(abs(got - want) < 1_000_000n, () => `${x} ns ${op < 3 ? 'plus' : 'minus'} ${d} ns after the epoch is ${got} ns`); }
        if (got < 0n) neg = true;
        pool.push([r, got]);
      }
      for (const [i, x] of pool) for (const [j, y] of pool) {
        checkCmp(a.sy_cmp(i, j), x, y, 'SystemTime');
        const s = a.sy_duration_since(i, j); const want = (x < y ? '-' : '+') + text(abs(x - y));
        must(s === want, () => `duration_since of ${x} ns and ${y} ns after the epoch is ${s === undefined ? s : s[0] === '-' ? 'Err ' + s.slice(1) : 'Ok ' + s.slice(1)}`);
        must((a.sy_err_text(i, j) === '') === (x >= y), () => `duration_since of ${x} ns and ${y} ns after the epoch has the wrong result or an error without a text`);
      }
      ctx.nontrivial = frac && neg && new Set(pool.map((p) => p[1])).size >= 3;
    },
  }],
};

const U64 = 2n ** 64n; const U32 = 2n ** 32n;
const secsArb = (fc) => fc.oneof(fc.bigInt({ min: 0n, max: 5_000_000_000n }), fc.integer({ min: 0, max: 63 }).chain((b) => fc.bigInt({ min: 0n, max: (1n << BigInt(b + 1)) - 1n })), fc.constantFrom(U64 - 1n, U64 - 2n, U64 - 4n, U64 - 5n, U64, 0n));
const nanosArb = (fc) => fc.oneof(fc.bigInt({ min: 0n, max: NS - 1n }), fc.bigInt({ min: 0n, max: U32 + 5n }), fc.bigInt({ min: 0n, max: 999n }).map((x) => x * 1_000_000n), fc.constantFrom(0n, NS - 1n, NS, 2n * NS, 4n * NS, U32 - 1n, U32));
/** The reference of decoding: ns after the epoch, or null. */
function decode(secs, nanos) {
  if (secs === null || nanos === null || secs >= U64 || nanos >= U32 || secs + nanos / NS >= U64) return null;
  return secs * NS + nanos;
}
const S04 = {
  rule: 'Times after the epoch serialize to the seconds and nanoseconds that std::time::SystemTime uses (names, lengths and types announced to the format included, compared with std itself) and come back equal from JSON, the sequence form, the map form with byte keys and a format that is not self-describing; times before the epoch are refused. Generated documents (values over the whole ranges, fields in any order, missing, repeated, unknown or of the wrong type, sequences of any length) are accepted exactly if serde accepts them for std, with the value truncated to the millisecond. Non-trivial: a fraction of a second, or a document that is refused.',
  suites: [{
    name: 'round-trip', variants: ALL, quick: 8000, thorough: 800000,
    arb: (fc) => fc.record({ dateMs: dateArb(fc), plus: msArb(fc), minus: fc.nat(6), form: fc.nat(4), sp: fc.constantFrom('', ' ', '\n\t') }),
    run(art, c, ctx) {
      const h = new Host(art, { dateMs: c.dateMs }); const a = h.api;
      const want = BigInt(c.dateMs) + (c.minus ? c.plus : -c.plus);
      if (abs(want) > LIM) return;
      const t = a.sy_op(a.sy_now(), c.minus ? 0 : 3, ...parts(c.plus * 1_000_000n));
      const s = a.sy_to_json(t);
      if (want < 0n) { ctx.tag('before-epoch'); must(s.startsWith('err:'), () => `${want} ms after the epoch serializes to ${s}`); ctx.nontrivial = true; return; }
      must(s.startsWith('ok:'), () => `${want} ms after the epoch does not serialize: ${s}`);
      const o = JSON.parse(s.slice(3).replace(/(\d+)/g, '"$1"'));
      const secs = want / 1000n; const nanos = (want % 1000n) * 1_000_000n;
      must(Object.keys(o).sort().join() === 'nanos_since_epoch,secs_since_epoch' && o.secs_since_epoch === String(secs) && o.nanos_since_epoch === String(nanos), () => `${want} ms after the epoch serializes to ${s}`);
      const { sp } = c;
      const back = c.form === 0 ? a.sy_from_json(s.slice(3))
        : c.form === 1 ? a.sy_from_json(`${sp}{${sp}"nanos_since_epoch"${sp}:${nanos}${sp},"secs_since_epoch":${sp}${secs}${sp}}${sp}`)
          : c.form === 2 ? a.sy_from_json(`[${sp}${secs},${nanos}${sp}]`)
            : c.form === 3 ? a.sy_from_seq(new BigUint64Array([secs, nanos]))
              : a.sy_from_bytes_map('secs_since_epoch,nanos_since_epoch', new BigUint64Array([secs, nanos]));
      must(back !== undefined, () => `${s} is refused in form ${c.form}`);
      checkCmp(a.sy_cmp(back, t), want, want, `${want} ms after the epoch, deserialized in form ${c.form}`);
      // formats that are not self-describing rely on names, lengths and types
      const [sh, sd] = [a.sy_shape(t), a.std_shape(want)];
      must(sh === sd, () => `${want} ms after the epoch is written as ${sh}, by std as ${sd}`);
      const vals = new BigUint64Array([secs, nanos]).subarray(0, c.sp ? 2 : c.form % 3);
      const [ak, ad] = [a.sy_ask(vals), a.std_ask(vals)];
      must(ak === ad, () => `${vals} is read as ${ak}, by std as ${ad}`);
      ctx.nontrivial = nanos !== 0n;
    },
  }, {
    name: 'documents', variants: ALL, quick: 12000, thorough: 800000,
    arb: (fc) => {
      const key = fc.oneof({ weight: 5, arbitrary: fc.constantFrom('secs_since_epoch', 'nanos_since_epoch') }, { weight: 1, arbitrary: fc.constantFrom('secs', 'nanos', 'secs_since_epoc', 'nanos_since_epochs', '', 'Secs_since_epoch', 'tv_sec') });
      const junk = fc.constantFrom('-1', '1.5', '"1"', 'null', 'true', '[]', '{}', '1e3', '-0', '18446744073709551616');
      const val = fc.tuple(fc.boolean(), secsArb(fc), nanosArb(fc), fc.option(junk, { freq: 12 }));
      return fc.record({
        form: fc.constantFrom('map', 'map', 'map', 'seq', 'rawseq', 'bytes', 'other'),
        fields: fc.oneof({ weight: 3, arbitrary: fc.tuple(fc.boolean(), secsArb(fc), nanosArb(fc), fc.option(junk, { freq: 20 })).map(([o, s, n, j]) => (o ? [['secs_since_epoch', [false, s, n, j]], ['nanos_since_epoch', [true, s, n, null]]] : [['nanos_since_epoch', [true, s, n, null]], ['secs_since_epoch', [false, s, n, j]]])) }, { weight: 2, arbitrary: fc.array(fc.tuple(key, val), { maxLength: 4 }) }),
        other: fc.constantFrom('null', '1', '"x"', 'true', '', '{', '[1,2', '1.5'),
      });
    },
    run(art, c, ctx) {
      const h = new Host(art, {}); const a = h.api;
      const vals = c.fields.map(([, [isN, s, n]]) => (isN ? n : s));
      const junk = c.fields.map(([, [, , , j]]) => j);
      let want; let got; let doc;
      const seqWant = () => (vals.length === 2 ? decode(vals[0], vals[1]) : null);
      const bad = (k) => junk[k] !== null; // none of the texts is an integer in range
      if (c.form === 'other') { doc = c.other; want = null; got = a.sy_from_json(doc); } else if (c.form === 'rawseq' || c.form === 'bytes') {
        if (vals.some((v) => v >= U64)) return;
        if (c.form === 'rawseq') { doc = `raw sequence ${vals}`; want = seqWant(); got = a.sy_from_seq(new BigUint64Array(vals)); } else {
          const ks = c.fields.map((f) => f[0]); if (ks.some((k) => k === '')) return;
          doc = `bytes map ${ks} ${vals}`; want = mapWant(ks, vals, () => false); got = a.sy_from_bytes_map(ks.join(','), new BigUint64Array(vals));
        }
      } else if (c.form === 'seq') { doc = `[${vals.map((v, k) => junk[k] ?? v).join(',')}]`; want = vals.some((_, k) => bad(k)) ? null : seqWant(); got = a.sy_from_json(doc); } else {
        doc = `{${c.fields.map(([k], i) => `${JSON.stringify(k)}:${junk[i] ?? vals[i]}`).join(',')}}`;
        want = mapWant(c.fields.map((f) => f[0]), vals, bad); got = a.sy_from_json(doc);
      }
      if (/-0|1e3/.test(doc)) return; // number syntax at the discretion of the format
      ctx.tag(want === null ? 'refused' : 'accepted');
      must((got !== undefined) === (want !== null), () => `${doc} is ${got === undefined ? 'refused' : 'accepted'}`);
      if (want === null) { ctx.nontrivial = true; if (c.form === 'map' || c.form === 'seq' || c.form === 'other') must(a.sy_from_json_err(doc) !== '', () => `${doc} is refused without a message`); return; }
      if (want / 1_000_000n > LIM) { ctx.tag('beyond-doubles'); return; }
      const ns = since(a, got, a.sy_epoch(0));
      must(ns <= want && want - ns < 1_000_000n, () => `${doc} is read as ${ns} ns after the epoch`);
      ctx.nontrivial = want % NS !== 0n;
    },
  }],
};
function mapWant(keys, vals, bad) {
  let secs = null; let nanos = null;
  for (let k = 0; k < keys.length; k++) {
    if (keys[k] === 'secs_since_epoch') { if (secs !== null || bad(k) || vals[k] >= U64) return null; secs = vals[k]; } else if (keys[k] === 'nanos_since_epoch') { if (nanos !== null || bad(k) || vals[k] >= U32) return null; nanos = vals[k]; } else return null;
  }
  return decode(secs, nanos);
}
const S05 = {
  rule: 'The wall clock of the host is read at random dates, before and after the epoch, while it runs and is set forward and back. SystemTime::now() is exactly Date.now(); elapsed() is the difference to it, or an error with the difference if the clock was set back. Non-trivial: the clock went back after a read.',
  suites: [{
    name: 'wall', variants: ALL, quick: 20000, thorough: 1000000,
    arb: (fc) => fc.record({ dates: fc.array(dateArb(fc), { minLength: 2, maxLength: 20, size: 'max' }) }),
    run(art, c, ctx) {
      const h = new Host(art, {}); const a = h.api;
      let d = 0; h.dateNow = () => d;
      const e = a.sy_epoch(0);
      const seen = []; let back = false;
      for (d of c.dates) {
        const t = a.sy_now();
        const ns = since(a, t, e);
        must(ns === BigInt(d) * 1_000_000n, () => `SystemTime::now() is ${ns} ns after the epoch at Date.now() == ${d}`);
        for (const [u, y] of seen) {
          const diff = BigInt(d) - BigInt(y); if (diff < 0n) back = true;
          const s = a.sy_elapsed(u);
          must(s === (diff < 0n ? '-' : '+') + text(abs(diff) * 1_000_000n), () => `elapsed() is ${s} with Date.now() going from ${y} to ${d}`);
        }
        seen.push([t, d]);
      }
      ctx.nontrivial = back;
    },
  }],
};
export default { S01, S02, S03, S04, S05 };
