// Writes DESIGN.md from tools/design_head.md, properties.jsonl, checks/,
// tools/design_notes.json, known-findings.txt, seeded/ and tools/caught.json.
import { readFileSync, readdirSync, writeFileSync, existsSync } from 'node:fs';
import { join, dirname } from 'node:path';
import { fileURLToPath } from 'node:url';
const R = dirname(dirname(fileURLToPath(import.meta.url)));
const read = (p) => readFileSync(join(R, p), 'utf8');
const props = read('properties.jsonl').trim().split('\n').map((l) => JSON.parse(l));
const notes = JSON.parse(read('tools/design_notes.json'));
const caught = existsSync(join(R, 'tools/caught.json')) ? JSON.parse(read('tools/caught.json')) : {};
const findings = read('known-findings.txt').split('\n').filter((l) => /^(fixed|known):/.test(l));
const seeds = existsSync(join(R, 'seeded')) ? readdirSync(join(R, 'seeded')).sort().map((id) => ({ id, ...JSON.parse(read(`seeded/${id}/meta.json`)) })) : [];
let out = read('tools/design_head.md').trimEnd() + '\n\n## The properties\n';
for (const p of props) {
  const c = (await import(join(R, 'checks', p.id + '.mjs'))).default;
  out += `\n### ${p.id} ${p.title}\n\n${p.statement}\n\n`;
  out += `* Decided by: ${c.technique}.\n`;
  out += `* Workload and oracle: ${c.rule}\n`;
  out += `* Bounds: quick ${c.quick.cases} cases, thorough up to ${c.thorough.cases} cases (or ${c.thorough.secs} s). ${c.note}\n`;
  const need = Object.entries(c.require ?? {}).map(([k, v]) => `${v} ${k}`);
  if (need.length > 0) out += `* A quick run that observes less than this is inconclusive: ${need.slice(0, 14).join(', ')}${need.length > 14 ? `, and ${need.length - 14} more` : ''}.\n`;
  out += `* Beyond the tests: ${p.why_tests_cant}\n`;
  for (const n of notes[p.id] ?? []) out += `* ${n}\n`;
  for (const f of findings.filter((l) => l.includes(`property=${p.id} `))) {
    const [, kind, rest] = /^(fixed|known): property=\w+ (.*)$/.exec(f);
    out += kind === 'fixed' ? `* Found and repaired: ${rest.replace(/^(\w+) (.*)$/, '$2 ($1)')}.\n` : `* Known finding (not repaired): ${rest.replace(/^id=(\S+) (.*)$/, '$2 ($1)')}.\n`;
  }
}
out += '\n' + read('tools/design_tail.md').trimEnd() + '\n\n| planted bug | property | needs | caught by |\n| --- | --- | --- | --- |\n';
for (const s of seeds) out += `| ${s.id} | ${s.property} | ${s.needs} | ${caught[s.id] ?? s.property} |\n`;
writeFileSync(join(R, 'DESIGN.md'), out);
process.exit(0);
