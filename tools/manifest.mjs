import fs from 'node:fs';
import { FILES } from '/verif/props/index.mjs';
const tech = { T: 'stateful property-based testing against a model, on a virtual host', I: 'stateful property-based testing against a reference interval, on a virtual host', O: 'stateful property-based testing against a model, on a virtual host', Q: 'stateful model-based property testing of the queue, on a virtual host', C: 'stateful property-based testing against a clock and timer model, on a virtual host', S: 'property-based testing against an integer reference', D: 'differential property-based testing against native tokio', M: 'metamorphic property-based testing', E: 'property-based testing of generated async programs against a reference, on a virtual host' };
const special = { S04: 'generated documents and round trips against a reference decoder', Q08: 'stateful model-based property testing with leaping clocks', T08: 'metamorphic property-based testing over host configurations' };
const notes = { T: 'Sampled histories on a simulated host that owns the clock and all callbacks; assumes that host represents real ones.', I: 'Sampled histories on a simulated host; the reference schedule is written from the documentation of tokio.', O: 'Sampled histories on a simulated host that owns the clock and all callbacks.', Q: 'Sampled histories on a simulated host, every operation checked against a map of entries; within the range limits listed in DESIGN.md.', C: 'Sampled histories with the test feature on, on a simulated host.', S: 'Sampled values biased to boundaries, exact reference in unbounded integers.', D: 'Sampled programs in whole milliseconds; trusts tokio 1.54 and tokio-util 0.7 as the reference.', M: '', E: 'Sampled programs on a simulated host, the logs judged step by step; assumes that host represents real ones.' };
const checks = Object.keys(FILES).map((id) => ({ property: id, quick_cmd: `node js/check.mjs ${id}`, thorough_cmd: `VERIF_TIER=thorough node js/check.mjs ${id} --thorough`, technique: special[id] ?? tech[id[0]], level: 'exploration', level_note: notes[id[0]] }));
fs.writeFileSync('/verif/MANIFEST.json', JSON.stringify({ version: 1, setup_cmd: 'node js/build.mjs', checks, not_applicable: [], notes: 'No hooks: the checks use the public API of the crate only.' }, null, 1) + '\n');
