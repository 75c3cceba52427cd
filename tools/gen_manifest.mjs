// Writes MANIFEST.json from harness/checks.mjs and properties.jsonl.
import { readFileSync, writeFileSync } from 'node:fs';
import { CHECKS, NOT_APPLICABLE } from '../harness/checks.mjs';
const props = readFileSync(new URL('../properties.jsonl', import.meta.url), 'utf8').trim().split('\n').map(l => JSON.parse(l));
const checks = [], na = [];
for (const p of props) {
  const c = CHECKS[p.id];
  if (!c) { na.push({ property: p.id, reason: NOT_APPLICABLE[p.id] ?? 'check not built yet' }); continue; }
  const specs = [...new Set(c.suites.map(s => s.spec))].join(', ');
  checks.push({ property: p.id, quick_cmd: `bin/check ${p.id}`, thorough_cmd: `bin/check ${p.id} --thorough`, evidence_file: `evidence/${p.id}.json`,
    technique: `TLA+ specification (${specs}) model-checked with TLC; every transition and seeded random behaviours replayed into the real code`,
    level: c.level ?? 'model_checking',
    level_note: c.note ?? 'TLC checks the invariants exhaustively within the constants of the .cfg; conformance replays every transition of that graph plus simulated behaviours into the real code and compares result and projected state after each step. Assumes the projection through the public API and the bounds in the .cfg.' });
}
writeFileSync(new URL('../MANIFEST.json', import.meta.url), JSON.stringify({ version: 1, setup_cmd: 'bin/setup', checks, not_applicable: na, notes: 'All checks import /repo/src (or camon/src) directly and run in scratch directories under /tmp.' }, null, 1) + '\n');
console.log(checks.length, 'checks', na.length, 'not claimed');
