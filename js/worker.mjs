import { parentPort } from 'node:worker_threads';
import { search, dec, asViolation, notAllowed } from './lib.mjs';
import { loadArtifact } from './host.mjs';
import { artDir } from './build.mjs';

const arts = new Map();
const art = (v) => { if (!arts.has(v)) arts.set(v, loadArtifact(artDir(v))); return arts.get(v); };
parentPort.on('message', async (t) => {
  try {
    const prop = (await import(`../props/${t.file}`)).default[t.id];
    const suite = prop.suites.find((s) => s.name === t.suite);
    const env = { variant: t.variant, testutil: t.variant.startsWith('tu'), checked: t.variant.endsWith('checked'), thorough: t.thorough };
    if (t.replay !== undefined) {
      let failure = null;
      const ctx = { env, tags: {}, tag() {} };
      try { suite.run(art(t.variant), dec(t.replay), ctx); } catch (e) {
        const v = asViolation(e);
        if (!v && !notAllowed(e)) throw e;
        if (v) failure = { case: t.replay, message: v.message };
      }
      parentPort.postMessage({ task: t.task, res: { evaluations: 1, nontrivial: [], tags: {}, samples: [], failure } });
      return;
    }
    const res = search(suite, art(t.variant), env, t.seed, t.runs);
    parentPort.postMessage({ task: t.task, res });
  } catch (e) {
    parentPort.postMessage({ task: t.task, error: `${e?.stack ?? e}` });
  }
});
