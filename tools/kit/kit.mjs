// What the demonstrations have in common: one host, one instance, plain assertions.
import { Host, loadArtifact } from './host.mjs';
export const MS = 1_000_000n;
const art = loadArtifact(new URL('./art', import.meta.url).pathname);
let wid = 0;
export function start(cfg) {
  const h = new Host(art, cfg);
  h.api.vh_base();
  const a = h.api;
  const waker = () => { const id = ++wid; return { id, h: a.waker_new(id), seq: h.wakeSeq }; };
  return {
    h, a, waker,
    run: (ms, late = 0) => h.runFor(ms * 1000, late),
    woken: (w) => h.wakes.some((x) => x.id === w.id && x.seq >= w.seq),
    // polls until it is pending; -> ids, then 'P' or 'N'
    drain(q) {
      const out = [];
      for (let k = 0; k < 10000; k++) {
        const e = a.dq_poll(q, waker().h);
        if (e === undefined) { out.push('P'); return out; }
        if (e.id === 0xffffffff) { out.push('N'); return out; }
        out.push(e.id);
      }
      throw new Error('endless');
    },
  };
}
export function eq(got, want, what) {
  const s = (x) => JSON.stringify(x, (_, v) => (typeof v === 'bigint' ? `${v}n` : v));
  if (s(got) !== s(want)) { console.error(`FAILED ${what}: got ${s(got)}, expected ${s(want)}`); process.exit(1); }
}
