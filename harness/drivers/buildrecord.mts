import { mkdirSync, rmSync, existsSync, readFileSync, writeFileSync } from 'node:fs';
import { dirname, join } from 'node:path';
import * as clock from '../lib/clock.mts';
const R = process.env.VERIF_REPO ?? '/repo';
const imp = (p: string) => import(`${R}/src/${p}.ts`);
const g = await imp('workflow/gates'), st = await imp('workflow/storage'), br = await imp('workflow/runners/build/standalone-record'), val = await imp('mcp/build-step/phases/validate'), impl = await imp('mcp/build-step/phases/implement');
const EPIC = 'a3f4b8c9d1e2f3a4', OTHER = 'a3f4b8c9d1e2f3a5';
const task = (id: string, order: number) => ({ id, title: `Implement ${id}`, summary: 'Add it.', size: 'M', order, dependsOn: [], acceptanceChecks: ['works'], derivedFrom: ['c1'], tests: [{ level: 'unit', name: 'u' }] });
const FOCUS: any = { f1: 'fix the typo', f2: 'rename the flag' };
let n = 0;
export default async function create(ctx: any) {
  let repo = '', other = '', writers = new Map<string, string>(), text = '';
  val._setBuildValidateProviderForTests({ runEditSession: async () => ({ text }) });
  const bp = () => st.buildArtifactPaths(repo, EPIC, 's1');
  const now = () => new Date().toISOString();
  return {
    reset() {
      if (repo) rmSync(repo, { recursive: true, force: true });
      n++; clock.install(Date.UTC(2026, 0, 5) + n * 1000); repo = join(ctx.scratch, `r${n}`); mkdirSync(repo, { recursive: true }); writers = new Map();
      st.writeAtomic(st.defineArtifactPaths(repo, EPIC, 'slug').json, JSON.stringify({ meta: { workflow: 'define', epicHash: EPIC, epicSlug: 'slug', createdAt: now() }, body: { stories: [{ id: 's1', title: 'S' }, { id: 's2', title: 'S' }] }, citations: [] }));
      st.writeAtomic(st.planArtifactPaths(repo, EPIC, 's1', 'slug').json, JSON.stringify({ meta: { workflow: 'plan', epicHash: EPIC, epicSlug: 'slug', storyId: 's1' }, body: { tasks: ['t1', 't2', 't3'].map((t, i) => task(t, i + 1)) }, citations: [] }));
      other = br.persistBuildRecord(repo, { meta: { workflow: 'build', standalone: false, epicHash: EPIC, storyId: 's2', createdAt: 'x' }, body: { tasks: [{ id: 't1', passed: true }] } }).json; other = readFileSync(other, 'utf8') && other;
    },
    async step(a: any) {
      clock.advance(1000);
      switch (a.name) {
        case 'Validate': case 'Garbled': {
          writers.set(now(), 'validate');
          text = a.name === 'Garbled' ? ['no verdict here', '```json\n{ "passed": tru\n```', '{'][n % 3]! : [`All good.\n\`\`\`json\n{"passed": ${a.ok}}\n\`\`\``, `{"passed": ${!a.ok}}\nafter a second look:\n{"passed": ${a.ok}, "notes": "a } b"}`, `\`\`\`json\n{"passed": ${!a.ok}}\n\`\`\`\nfinal\n\`\`\`json\n{"passed": ${a.ok}, "x": {"y": 1}}\n\`\`\``][n % 3]!;
          const r = await val.handleValidate({ phase: 'validate', repo, target: `s1/${a.t}` } as any);
          return r.next === 'done' ? ['done', r.passed] : [r.next, r.error?.code];
        }
        case 'Record': { writers.set(now(), 'record'); const p = br.persistBuildRecord(repo, { meta: { workflow: 'build', standalone: false, epicHash: EPIC, storyId: 's1', createdAt: now(), updatedAt: now() }, body: { tasks: a.ts.map((t: any) => ({ id: t[0], passed: t[1] })), commit: a.c } }); return p.json === bp().json ? 'ok' : p; }
        case 'Trivial': { writers.set(now(), 'trivial'); const r = await impl.handleImplement({ phase: 'implement', repo, standalone: { standalone: true, sizeClass: 'trivial', focus: FOCUS[a.f], epicHash: EPIC, storyId: 's1' } } as any); return r.next; }
        case 'Approve': g.approveArtifactByJsonPath(bp().json); return 'ok';
        case 'Override': { const p = bp().json; const j = JSON.parse(readFileSync(p, 'utf8')); j.meta.review = { artifact: 'x', stage: 'build', verdict: 'block', findings: [{ claimId: 'f1', kind: 'citation', severity: 'HIGH', premise: 'p', evidence: 'e', action: 'a', fixability: 'manual' }], counts: { high: 1, med: 0, low: 0 } }; writeFileSync(p, JSON.stringify(j)); g.approveArtifactByJsonPath(p, { overrideReview: 'because' }); const k = JSON.parse(readFileSync(p, 'utf8')); delete k.meta.review; writeFileSync(p, JSON.stringify(k)); return 'ok'; }
        case 'Reject': g.rejectArtifactByJsonPath(bp().json, a.w); return 'ok';
        case 'Damage': {
          const p = bp().json, j = readFileSync(p, 'utf8');
          if (a.k === 'torn') writeFileSync(p, ['', '{"meta": {"epicHash": "' + EPIC, j.slice(0, Math.max(1, Math.floor(j.length / 2)))][n % 3]!);
          else if (a.k === 'other') writeFileSync(p, ['{}', 'null', '[]', '{"meta":{"epicHash":5}}'][n % 4]!);
          else { const o = JSON.parse(j); if (n % 3 === 0) delete o.body; else o.body = n % 3 === 1 ? {} : { ...o.body, tasks: null }; writeFileSync(p, JSON.stringify(o)); }
          return 'ok';
        }
      }
      throw new Error(a.name);
    },
    project() {
      const o = JSON.parse(readFileSync(other, 'utf8')); if (o.body.tasks.length !== 1 || o.meta.storyId !== 's2') return { otherTouched: o };
      const p = bp(); if (!existsSync(p.json)) return { is: 'absent' };
      let j: any; try { j = JSON.parse(readFileSync(p.json, 'utf8')); } catch { return { is: 'torn' }; }
      if (!j || typeof j.meta?.epicHash !== 'string') return { is: 'other' };
      const m = j.meta, b = j.body ?? {}; if (m.storyId !== 's1' || m.epicHash !== EPIC || m.workflow !== 'build') return { meta: m };
      const md = readFileSync(p.md, 'utf8'); const tasks = b.tasks ?? [];
      if (!m.standalone && b.tasks && !tasks.every((t: any) => md.includes(t.id))) return { md };
      const k = Object.keys(FOCUS).find(f => FOCUS[f] === b.focus);
      return { is: 'record', kind: m.standalone ? 'solo' : 'plan', by: writers.get(m.createdAt) ?? m.createdAt, st: m.approvedAt ? (m.rejectedAt ? 'both' : 'approved') : m.rejectedAt ? 'rejected' : 'open', reason: m.rejectReason ?? '-', ov: m.reviewOverride?.reason ?? '-', tasks: tasks.map((t: any) => [t.id, t.passed]), commit: b.commit ?? '-', focus: b.focus === undefined ? '-' : k ?? b.focus };
    },
    close() { if (repo) rmSync(repo, { recursive: true, force: true }); },
  };
}
