import { FILES } from '/verif/props/index.mjs';
import fs from 'node:fs';
const props = fs.readFileSync('/verif/properties.jsonl', 'utf8').trim().split('\n').map(JSON.parse);
const reach = JSON.parse(fs.readFileSync('/verif/tools/reach.json', 'utf8'));
let out = '';
for (const x of props) {
  const p = (await import('/verif/props/' + FILES[x.id])).default[x.id];
  out += `### ${x.id} ${x.title}\n\n${p.rule}\n`;
  if (p.assumptions) out += `\nAssumes: ${p.assumptions.join('; ')}.\n`;
  out += `\nQuick: ${p.suites.map((s) => `${s.name} ${s.quick * 5} cases`).join(', ')} on ${[...new Set(p.suites.flatMap((s) => s.variants))].join(', ')}; thorough: ${p.suites.map((s) => s.thorough).join(' + ')}.\n`;
  if (reach[x.id]) out += `\nReach: ${reach[x.id]}\n`;
  out += '\n';
}
let tab = '';
for (const d of fs.readdirSync('/verif/seeded').sort()) { const m = JSON.parse(fs.readFileSync(`/verif/seeded/${d}/meta.json`)); tab += `| ${d} | ${m.needs} | ${m.what_it_breaks} |\n`; }
fs.writeFileSync('/verif/DESIGN.md', fs.readFileSync('/verif/tools/design_head.md', 'utf8') + out + fs.readFileSync('/verif/tools/design_tail.md', 'utf8').replace('@SEEDED@', tab));
