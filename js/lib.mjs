// Shared pieces of the checks: violations, statistics, the seeded fast-check driver.
import { createRequire } from 'node:module';
import crypto from 'node:crypto';
const require = createRequire('/opt/veriftools/node/node_modules/');
export const fc = require('fast-check');

/** The property under check does not hold. */
export class Violation extends Error {}
/** The wasm instance trapped (Rust panic, or an exception thrown through it). */
export class Panic extends Error {}
/** A trap inside the domain of a property is a violation; one in the harness itself is not. */
export function asViolation(e) {
  if (e instanceof Violation) return e;
  if (notAllowed(e)) return null;
  if (e instanceof Panic && !/harness: (stale handle|base not set)/.test(e.message)) return new Violation(`unexpected panic: ${e.message.split('\n').slice(0, 3).join(' ')}`);
  return null;
}
/** The case uses an object while it is in use, which safe Rust does not allow: it says nothing. */
export const notAllowed = (e) => e instanceof Error && /harness: \S+ of a \S+ that is in use/.test(e.message);
export function must(cond, msg) { if (!cond) throw new Violation(typeof msg === 'function' ? msg() : msg); }

export class Stats {
  constructor() { this.evaluations = 0; this.nontrivial = new Set(); this.tags = {}; this.samples = []; }
  tag(t, n = 1) { this.tags[t] = (this.tags[t] || 0) + n; }
}
export const h64 = (s) => crypto.createHash('sha1').update(s).digest('hex').slice(0, 16);
export const replacer = (_, v) => (typeof v === 'bigint' ? `${v}n` : v);
export const reviver = (_, v) => (typeof v === 'string' && /^-?\d+n$/.test(v) ? BigInt(v.slice(0, -1)) : v);
export const enc = (c, sp) => JSON.stringify(c, replacer, sp);
export const dec = (s) => JSON.parse(s, reviver);

const MAX_SHRINK = 1500;

/**
 * Searches `runs` generated cases of one suite on one artifact. `run(art, case, ctx)` throws
 * Violation when the oracle rejects, any other exception when the harness itself is broken.
 */
export function search(suite, art, env, seed, runs) {
  const stats = new Stats();
  let failure = null; // last (smallest) failing case seen
  let broken = null;
  let after = 0;
  const evalCase = (c) => {
    if (broken) return true;
    if (failure && ++after > MAX_SHRINK) return true; // shrinking budget, a count
    const counting = !failure;
    const ctx = { env, tags: {}, nontrivial: false, tag(t, n = 1) { this.tags[t] = (this.tags[t] || 0) + n; } };
    try {
      suite.run(art, c, ctx);
    } catch (e) {
      const v = asViolation(e);
      if (v) { failure = { case: c, message: v.message }; return false; }
      if (notAllowed(e)) { ctx.nontrivial = false; ctx.tag('not-allowed'); return true; }
      broken = e;
      return true;
    } finally {
      if (counting) {
        stats.evaluations++;
        for (const k in ctx.tags) stats.tag(k, ctx.tags[k] ? 1 : 0);
        if (ctx.nontrivial) {
          const s = enc(c);
          stats.nontrivial.add(h64(s));
          if (stats.samples.length < 2 && s.length < 1500) stats.samples.push(JSON.parse(s));
        }
      }
    }
    return true;
  };
  const out = fc.check(fc.property(suite.arb(fc, env), evalCase), { seed, numRuns: runs, endOnFailure: false, verbose: 0 });
  if (broken) throw broken;
  if (out.failed && !failure) throw new Error('driver: fast-check failed without a violation: ' + out.error);
  return {
    evaluations: stats.evaluations, nontrivial: [...stats.nontrivial], tags: stats.tags, samples: stats.samples,
    failure: failure && { case: enc(failure.case), message: failure.message },
  };
}
