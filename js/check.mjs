// node js/check.mjs <PROPERTY> [--thorough] [--replay FILE] [--no-build]
// Exit 0: held on everything explored. Exit 1 + VIOLATION line: broken. Anything else: an error.
import { Worker } from 'node:worker_threads';
import fs from 'node:fs';
import path from 'node:path';
import { build, ROOT, VARIANTS } from './build.mjs';
import { enc, h64 } from './lib.mjs';
import { FILES } from '../props/index.mjs';

const id = process.argv[2];
const flag = (n) => process.argv.includes(n);
const opt = (n) => (flag(n) ? process.argv[process.argv.indexOf(n) + 1] : undefined);
const thorough = flag('--thorough') || process.env.VERIF_TIER === 'thorough';
const seed = Number.parseInt(process.env.VERIF_SEED ?? '1', 10) || 1;
// the counts in props/ are for one unit; a quick check is five of them
const scale = Number(process.env.VH_SCALE ?? (thorough ? 1 : 5));
const NPROC = Number(process.env.VH_JOBS ?? 8);
const WATCHDOG_MS = (thorough ? 6 * 3600 : 780) * 1000;

function fail(msg) { console.error(msg); process.exit(2); }
const file = FILES[id];
if (!file) fail(`unknown property ${id}`);
const prop = (await import(`../props/${file}`)).default[id];
const t0 = Date.now();
const watchdog = setTimeout(() => fail('watchdog: no verdict within the time limit'), WATCHDOG_MS);

const variants = [...new Set(prop.suites.flatMap((s) => s.variants))];
if (!flag('--no-build')) {
  try { await build(variants, !!prop.native); } catch (e) { fail(`build failed: ${e.message}`); }
}
const tBuild = (Date.now() - t0) / 1000;

// ---- tasks
const seedOf = (...parts) => Number.parseInt(h64([seed, ...parts].join('/')).slice(0, 8), 16) | 0;
const tasks = [];
const base = { id, file, thorough };
const replayFile = opt('--replay');
if (replayFile) {
  const r = JSON.parse(fs.readFileSync(replayFile, 'utf8'));
  if (r.property !== id) fail(`${replayFile} is a replay of ${r.property}`);
  tasks.push({ ...base, suite: r.suite, variant: r.variant, replay: JSON.stringify(r.case), label: replayFile });
} else {
  const cdir = path.join(ROOT, 'corpus', id);
  if (fs.existsSync(cdir)) {
    for (const f of fs.readdirSync(cdir).filter((x) => x.endsWith('.json')).sort()) {
      const r = JSON.parse(fs.readFileSync(path.join(cdir, f), 'utf8'));
      for (const v of prop.suites.find((s) => s.name === r.suite).variants) tasks.push({ ...base, suite: r.suite, variant: v, replay: JSON.stringify(r.case), corpus: true });
    }
  }
  for (const s of prop.suites) {
    const total = Math.max(1, Math.round((thorough ? s.thorough : s.quick) * scale));
    const per = Math.ceil(total / s.variants.length);
    // fixed shards: the result does not depend on how many cores there are
    const shards = Math.min(per, thorough ? 64 : 8);
    for (let k = 0; k < shards; k++) {
      for (const v of s.variants) {
        const runs = Math.floor(per / shards) + (k < per % shards ? 1 : 0);
        if (runs) tasks.push({ ...base, suite: s.name, variant: v, runs, seed: seedOf(id, s.name, v, k) });
      }
    }
  }
}
tasks.forEach((t, i) => { t.task = i; });

// ---- known findings (only suppress the exact listed case)
const kfFile = path.join(ROOT, 'known-findings.jsonl');
const known = fs.existsSync(kfFile) ? fs.readFileSync(kfFile, 'utf8').split('\n').filter((l) => l.startsWith('{')).map((l) => JSON.parse(l)) : [];
for (const k of known) if (k.status === 'open' && k.property === id) console.log(`KNOWN-FINDING: property=${id} ${k.what}`);

// ---- run
const agg = { evaluations: 0, nontrivial: new Set(), tags: {}, samples: [], perSuite: {} };
let next = 0;
const failures = [];
await new Promise((resolve) => {
  let live = 0;
  const n = Math.min(NPROC, tasks.length);
  const feed = (w) => {
    if (failures.length || next >= tasks.length) { w.terminate(); if (--live === 0) resolve(); return; }
    w.postMessage(tasks[next++]);
  };
  for (let i = 0; i < n; i++) {
    const w = new Worker(new URL('./worker.mjs', import.meta.url), { resourceLimits: { maxOldGenerationSizeMb: 2048 } });
    live++;
    w.on('error', (e) => fail(`worker: ${e.stack ?? e}`));
    w.on('message', (m) => {
      if (m.error) fail(`harness error in ${id}/${tasks[m.task].suite}/${tasks[m.task].variant}: ${m.error}`);
      const t = tasks[m.task];
      agg.evaluations += m.res.evaluations;
      for (const x of m.res.nontrivial) agg.nontrivial.add(t.suite + x);
      const key = `${t.suite}/${t.variant}`;
      const ps = (agg.perSuite[key] ??= { evaluations: 0, classes: {} });
      ps.evaluations += m.res.evaluations;
      for (const k in m.res.tags) ps.classes[k] = (ps.classes[k] || 0) + m.res.tags[k];
      if (t.replay === undefined && agg.samples.filter((s) => s.suite === t.suite).length < 2) for (const s of m.res.samples.slice(0, 1)) agg.samples.push({ suite: t.suite, variant: t.variant, case: s });
      if (m.res.failure) failures.push({ t, f: m.res.failure });
      feed(w);
    });
    feed(w);
  }
});
clearTimeout(watchdog);

let code = 0;
if (failures.length) {
  failures.sort((a, b) => a.t.task - b.t.task);
  const { t, f } = failures[0];
  const dir = path.join(ROOT, 'replays');
  fs.mkdirSync(dir, { recursive: true });
  const body = { property: id, suite: t.suite, variant: t.variant, seed, message: f.message, case: JSON.parse(f.case) };
  const rp = replayFile ?? path.join(dir, `${id}-${h64(enc(body))}.json`);
  if (!replayFile) fs.writeFileSync(rp, JSON.stringify(body, null, 1) + '\n');
  console.log(`${id} ${t.suite} on ${t.variant}: ${f.message}`);
  console.log(`VIOLATION property=${id} replay=${path.relative(ROOT, rp)}`);
  code = 1;
}
if (!replayFile) {
  fs.mkdirSync(path.join(ROOT, 'evidence'), { recursive: true });
  const ev = {
    property: id, tier: thorough ? 'thorough' : 'quick', seed, level: 'exploration',
    coverage: {
      evaluations: agg.evaluations, distinct_nontrivial: agg.nontrivial.size, rule: prop.rule, samples: agg.samples.slice(0, 6),
      suites: agg.perSuite,
    },
    assumptions: prop.assumptions ?? [], wall_s: (Date.now() - t0) / 1000, violations: failures.length,
  };
  if (agg.samples.length === 0) ev.coverage.samples = ['no small sample in this run'];
  fs.writeFileSync(path.join(ROOT, 'evidence', `${id}.json`), JSON.stringify(ev, null, 1) + '\n');
}
console.log(`${id}: ${agg.evaluations} cases, ${agg.nontrivial.size} distinct non-trivial, build ${tBuild.toFixed(1)} s, total ${((Date.now() - t0) / 1000).toFixed(1)} s${code ? '' : ', held'}`);
process.exit(code);
