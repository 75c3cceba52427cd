// Rewrites the generated part of DESIGN.md (between the markers) from harness/checks.mjs, properties.jsonl, tools/design_notes.json,
// known-findings.jsonl and seeded/*/meta.json. State counts come from the last evidence files, when there.
import { readFileSync, writeFileSync, existsSync, readdirSync } from 'node:fs';
import { CHECKS, NOT_APPLICABLE } from '../harness/checks.mjs';
const rd = f => readFileSync(new URL('../' + f, import.meta.url), 'utf8');
const props = rd('properties.jsonl').split('\n').filter(Boolean).map(l => JSON.parse(l));
const notes = JSON.parse(rd('tools/design_notes.json'));
let o = '';
for (const p of props) {
  const c = CHECKS[p.id]; if (!c) continue;
  const n = notes[p.id] ?? {};
  const specs = [...new Set(c.suites.map(s => s.spec))], drivers = [...new Set(c.suites.map(s => s.job?.consts?.inner ? `${s.driver} over ${s.job.consts.inner}` : s.driver))];
  const cfgs = c.suites.filter(s => s.cfg).map(s => s.cfg), sims = c.suites.filter(s => s.sim).map(s => `${s.sim.cfg} (${s.sim.num} behaviours of ${s.sim.depth} steps; thorough ${(s.simDeep ?? s.sim).num})`);
  o += `### ${p.id} — ${p.title}\n\n- **Specified** (${specs.map(s => `\`spec/${s}.tla\``).join(', ')}): ${n.spec ?? ''}\n- **Decided on the real code by** ${drivers.map(d => `\`${d}\``).join(', ')}: ${n.drive ?? 'every transition of the exhaustive graphs and every simulated behaviour is performed; results and projected state are compared after each step.'}\n- **Bounds**: ${cfgs.length ? `exhaustive ${cfgs.join(', ')}` : ''}${cfgs.length && sims.length ? '; ' : ''}${sims.length ? `simulated ${sims.join(', ')}` : ''}${n.size ? ` — ${n.size}` : ''}\n${n.why ? `- **Beyond the tests**: ${n.why}\n` : ''}${n.open ? `- **Left unspecified / limits**: ${n.open}\n` : ''}\n`;
}
o += '## Properties not claimed\n\n'; for (const p of props) if (!CHECKS[p.id]) o += `- **${p.id}** ${p.title}: ${NOT_APPLICABLE[p.id] ?? 'not claimed'}\n`;
o += '\n## Defects found and repaired (`known-findings.jsonl`)\n\nEach was first shown by a check against the real code (the check fails again when the commit is reverted); each is a `fix:` commit in /repo.\n\n| property | commit | what failed |\n|---|---|---|\n';
for (const l of rd('known-findings.jsonl').split('\n').filter(Boolean)) { const k = JSON.parse(l); const t = k.entry.replace(/^(fixed|KNOWN-FINDING): property=\S+ \S+ /, ''); o += `| ${k.property} | ${k.commit ?? k.status} | ${t} |\n`; }
o += '\n## Planted bugs (`seeded/`)\n\n| bug | property | what it breaks | caught by |\n|---|---|---|---|\n';
for (const d of readdirSync(new URL('../seeded', import.meta.url)).sort()) { const f = `seeded/${d}/meta.json`; if (!existsSync(new URL('../' + f, import.meta.url))) continue; const m = JSON.parse(rd(f)); o += `| ${d} | ${m.property} | ${m.what_it_breaks} | ${notes.seeds?.[d] ?? `${m.property} (quick)`} |\n`; }
const B = '<!-- generated: tools/gen_design.mjs -->', E = '<!-- end generated -->';
const t = rd('DESIGN.md'), i = t.indexOf(B), j = t.indexOf(E);
writeFileSync(new URL('../DESIGN.md', import.meta.url), `${t.slice(0, i)}${B}\n\n${o}\n${t.slice(j)}`);
