import { mkdirSync, rmSync, existsSync, readFileSync, writeFileSync } from 'node:fs';
import { dirname, join } from 'node:path';
import * as clock from '../lib/clock.mts';
const R = process.env.VERIF_REPO ?? '/repo';
const g = await import(`${R}/src/workflow/gates.ts`), st = await import(`${R}/src/workflow/storage.ts`), rr = await import(`${R}/src/workflow/review/resolve.ts`);
const { PATHS } = await import(`${R}/src/shared/paths.ts`);
const EPIC = 'b3f4b8c9d1e2f3a4', OTHER = 'b3f4b8c9d1e2f3a5', SLUG = 'tag-filtering';
const F: any = {
  f1: { claimId: 'f1', kind: 'inventory', severity: 'HIGH', premise: 'p', evidence: 'e', action: 'fix', fixability: 'assisted', proposedFix: { rationale: 'r', artifactEdits: [{ find: 'seven callers', replace: 'nine callers' }] } },
  f2: { claimId: 'f2', ref: 's1', kind: 'semantic', severity: 'MED', premise: 'p', evidence: 'e', action: 'decide', fixability: 'manual', proposedFix: { rationale: 'r', options: ['a', 'b'] } },
  f3: { claimId: 'f3', kind: 'citation', severity: 'LOW', premise: 'p', evidence: 'e', action: 'none', fixability: 'auto' } };
const IN: any = { none: [], h: ['f1'], low: ['f3'], all: ['f1', 'f2', 'f3'] };
let n = 0;
export default async function create(ctx: any) {
  let repo = '', foreign = '', ks: string[] = [];
  const DOCS: any = { D: () => st.defineArtifactPaths(repo, EPIC, SLUG), L: () => st.lldArtifactPaths(repo, EPIC, 's1', SLUG), B: () => st.buildArtifactPaths(repo, EPIC, 's1', SLUG) };
  const cr = () => st.codeReviewArtifactPaths(repo, EPIC, 's1', SLUG);
  const ID: any = { D: st.defineArtifactId(EPIC), L: st.lldArtifactId(EPIC, 's1'), B: st.buildArtifactId(EPIC, 's1') };
  const which = (p: string) => Object.keys(DOCS).find(k => DOCS[k]().json === p) ?? p;
  const read = (k: string) => JSON.parse(readFileSync(DOCS[k]().json, 'utf8'));
  const viaConfig = ctx.flavour % 3 === 1;
  const gateOpts = (enf: boolean) => { if (!viaConfig) return { enforce: enf }; mkdirSync(dirname(PATHS.config), { recursive: true }); if (enf) writeFileSync(PATHS.config, JSON.stringify({ codeReview: { enforce: true } })); else if (n % 2) rmSync(PATHS.config, { force: true }); else writeFileSync(PATHS.config, JSON.stringify({ codeReview: { enforce: 'yes' } })); return undefined; };
  const target = (req: any, enf: boolean) => {
    let r: any; const o = gateOpts(enf);
    try { r = o ? g.approveWorkflowTarget({ repoPath: repo, ...req }, o) : g.approveWorkflowTarget({ repoPath: repo, ...req }); } catch (e: any) { return e.name === 'ArtifactMissingError' ? 'missing' : e.name === 'NoPendingArtifactsError' ? 'nothing' : `error ${e.message}`; }
    const approved = r.approved.map((x: any) => (x.result.path === x.path ? which(x.path) : 'path mismatch')).sort();
    const skipped = r.skipped.map((x: any) => [which(x.path), /code review BLOCKS/i.test(x.reason) ? 'code-review' : /requires a code review/i.test(x.reason) ? 'no-code-review' : /unresolved/i.test(x.reason) ? 'review' : x.reason]).sort();
    const gates = r.codeReview.map((x: any) => { const k = which(x.path); if (x.storyId !== 's1') return [k, 'wrong story']; if (x.status === 'overridden' && (x.overrideReason !== 'because' || !x.at)) return [k, 'override not recorded']; if (['pass', 'warn', 'blocked', 'overridden'].includes(x.status) && JSON.stringify(x.counts) !== JSON.stringify({ high: 1, med: 2, low: 3 })) return [k, `counts ${JSON.stringify(x.counts)}`]; return [k, x.status === 'warn' && /enforce is off|advisory/i.test(x.message ?? '') ? 'advisory' : x.status]; }).sort();
    return { approved, skipped, gates };
  };
  const ovOpt = (ov: string) => (ov === '-' ? {} : { overrideReview: ov });
  return {
    reset(i: any) {
      ks = Object.keys(i.docs);
      if (repo) rmSync(repo, { recursive: true, force: true }); rmSync(PATHS.config, { force: true });
      n++; clock.install(Date.UTC(2026, 0, 5) + n * 1000); repo = join(ctx.scratch, `r${n}`); mkdirSync(repo, { recursive: true });
      foreign = st.defineArtifactPaths(repo, OTHER).json; st.writeAtomic(foreign, JSON.stringify({ meta: { workflow: 'define', epicHash: OTHER }, body: {} }));
      writeFileSync(join(dirname(foreign), `PLAN-${EPIC}-s9.json`), '{"meta":'); // a torn file of the same epic is skipped
      writeFileSync(join(dirname(foreign), `AMD-${EPIC}-1.json`), JSON.stringify({ meta: {} }));
    },
    async step(a: any) {
      clock.advance(1500);
      switch (a.name) {
        case 'Write': {
          const review = a.rv === 'none' ? {} : { review: { artifact: 'x', stage: 'define', verdict: a.rv === 'low' ? 'warn' : 'block', findings: IN[a.rv].map((f: string) => F[f]), counts: { high: 1, med: 1, low: 1 } } };
          const p = DOCS[a.k](); st.writeAtomic(p.json, JSON.stringify({ meta: { workflow: a.k === 'D' ? 'define' : a.k === 'L' ? 'design.story' : 'build', epicHash: EPIC, epicSlug: SLUG, ...(a.k === 'D' ? {} : { storyId: 's1' }), ...review }, body: { text: ['it has seven callers today'], other: 'kept' } }, null, 2));
          st.writeAtomic(p.md, `${st.artifactIdMarker(ID[a.k])}\n# Doc\n\nit has seven callers today\n`); return 'ok';
        }
        case 'CodeReview': {
          const p = cr(); if (a.v === 'none') { rmSync(p.json, { force: true }); return 'ok'; }
          st.writeAtomic(p.json, a.v === 'torn' ? '{"body": {' : JSON.stringify({ meta: {}, body: { verdict: a.v === 'odd' ? 'maybe' : a.v, counts: { high: 1, med: 2, low: 3 } } })); return 'ok';
        }
        case 'Reject': try { g.rejectArtifactByJsonPath(DOCS[a.k]().json, 'no'); return 'ok'; } catch (e: any) { return e.name === 'ArtifactMissingError' ? 'missing' : 'error'; }
        case 'Resolve': try { const r = rr.resolveReviewFinding(DOCS[a.k]().md, DOCS[a.k]().json, a.f, a.how, n % 2 ? 'a note' : undefined); return { status: r.status, verdict: r.effectiveVerdict, left: r.remainingBlocking }; } catch { return 'error'; }
        case 'Approve': { const p = DOCS[a.k](); try { g.approveArtifactByJsonPath(p.json, a.ov === '-' ? undefined : { overrideReview: a.ov }); return 'ok'; } catch (e: any) { return e.name === 'ArtifactMissingError' ? 'missing' : e.name === 'ReviewBlockedError' ? 'blocked' : 'error'; } }
        case 'One': { const p = DOCS[a.k](); return target({ artifactPath: n % 2 && existsSync(p.md) ? p.md : p.json, ...ovOpt(a.ov) }, a.enf); }
        case 'Batch': return target({ epicHash: EPIC, ...ovOpt(a.ov) }, a.enf);
      }
      throw new Error(a.name);
    },
    project(_a: any) {
      if (readFileSync(foreign, 'utf8') !== JSON.stringify({ meta: { workflow: 'define', epicHash: OTHER }, body: {} })) return { foreignTouched: true };
      const docs: any = {};
      for (const k of ks) {
        const p = DOCS[k](); if (!existsSync(p.json)) { docs[k] = { st: 'absent', ov: '-', rv: 'none', res: {}, fixed: false, verdict: 'pass', pending: [] }; continue; }
        const { meta: m, body } = read(k); const ids = (m.review?.findings ?? []).map((f: any) => f.claimId);
        const md = readFileSync(p.md, 'utf8'); const inMd = md.includes('nine callers'), inBody = body.text[0].includes('nine callers');
        const res = m.reviewResolutions ?? {};
        docs[k] = { st: m.approvedAt ? (m.rejectedAt ? 'both' : 'approved') : m.rejectedAt ? 'rejected' : 'draft', ov: m.reviewOverride?.reason ?? '-', rv: Object.keys(IN).find(x => JSON.stringify(IN[x]) === JSON.stringify(ids)),
          res: Object.fromEntries(Object.keys(res).map(f => [f, res[f].findingId === f ? res[f].status : 'wrong id'])), fixed: inMd !== inBody || body.other !== 'kept' ? 'torn' : inMd,
          verdict: m.review ? rr.effectiveReviewVerdict(m.review, m.reviewResolutions) : 'pass', pending: m.review ? rr.listPendingReviewFindings(m.review, m.reviewResolutions).map((f: any) => f.claimId) : [] };
      }
      const p = cr(); let v = 'none'; if (existsSync(p.json)) { try { v = JSON.parse(readFileSync(p.json, 'utf8')).body.verdict; if (v === 'maybe') v = 'odd'; } catch { v = 'torn'; } }
      return { docs, cr: v };
    },
    close() { if (repo) rmSync(repo, { recursive: true, force: true }); },
  };
}
