import { mkdirSync, rmSync, existsSync, readFileSync } from 'node:fs';
import { join } from 'node:path';
import * as clock from '../lib/clock.mts';
const R = process.env.VERIF_REPO ?? '/repo';
const imp = (p: string) => import(`${R}/src/${p}.ts`);
const st = await imp('workflow/storage'), qs = await imp('workflow/questions'), gate = await imp('mcp/workflow-step/questions-gate'), { handleWorkflowStep } = await imp('mcp/workflow-step/handler'), wf = await imp('workflow/index'), svc = await imp('cli/services/workflow');
const EPIC = 'a3f4b8c9d1e2f3a4', OTHER = 'a3f4b8c9d1e2f3a5', SLUG = 'slug';
const CIT = [{ id: 'c1', kind: 'analyze-bundle', ref: 'todos module' }];
const story = (id: string) => ({ id, title: `Story ${id}`, userValue: 'v', acceptanceCriteria: [{ id: 'ac1', given: 'x', when: 'y', then: 'z', operationalizes: ['k1'] }], dependsOn: [] });
const alts = [{ id: 'a1', name: 'One', oneLineSummary: 'x', approach: 'own', pros: ['x'], cons: ['x'], costEstimate: 'S' }, { id: 'a2', name: 'Two', oneLineSummary: 'x', approach: 'scan', pros: ['x'], cons: ['x'], costEstimate: 'XS', reasonRejected: 'perf' }];
const BODY: any = {
  D: () => ({ flavor: 'new-capability', problem: 'P.', nonGoals: [], assumptions: [], constraints: [{ id: 'k1', text: 'Reuse', type: 'convention', source: 'c1' }], stories: [story('s1'), story('s2')] }),
  H: () => ({ frameworkSummary: 'E.', architectureShape: 'x [[c1]]', sharedContracts: [], storyBoundaries: [{ storyId: 's1', owns: [], depends: [], internal: 'x' }], nonFunctional: {}, rolloutOverview: { phases: [{ name: 'A', includesStories: ['s1'], rationale: 'x', backwardCompat: '', featureFlag: null }], orderingRationale: 'x', riskyBits: [] }, alternativesConsidered: alts, chosenAlternative: 'a1' }),
  L: () => ({ hldContextSlice: { frameworkSummary: 'E.', ownedContracts: [], consumedContracts: [], boundary: { storyId: 's1', owns: [], depends: [], internal: 'p' }, rolloutPhase: 'A', nonFunctional: {} },
    contractDetails: { surfaceLevel: 'internal-shared', api: [{ name: 'T.list', signature: 'list(): T[]', parameters: [], returns: { type: 'T[]', meaning: 't' }, errors: [], preconditions: ['p'], postconditions: ['q'] }] },
    dataModelChanges: [], interactionWithShared: [], errorPaths: { errorCases: [], edgeCases: [], invariantsToPreserve: [] }, testStrategy: { testLevels: [], acceptanceMapping: [], testFramework: 'node:test' }, alternativesConsidered: alts, chosenAlternative: 'a1' }) };
const WF: any = { D: 'design.epic', H: 'design.story', L1: 'plan', L2: 'plan' }, KIND: any = { D: 'define', H: 'hld', L1: 'lld', L2: 'lld' }, STORY: any = { L1: 's1', L2: 's2' };
const TEXT: any = { 'sc2a': '[sc2 / missed] Who owns the cache?', 'sc2b': '[sc2 / drift] Who evicts the cache?', 'px': 'What about retries: how many, and when?', 'p2x': 'What about timeouts?' };
const pads = [(t: string) => t, (t: string) => `  ${t}\n`, (t: string) => `${t} `];
let n = 0;
export default async function create(ctx: any) {
  try { wf.registerWorkflowRunners(); } catch { /* once */ }
  let asked = 0; const opts = { options: [{ label: 'a', detail: 'b' }, { label: 'c', detail: 'd' }], recommendation: 'a' };
  qs._setQuestionProviderForTests({ completeStructured: async () => { asked++; return opts; } });
  const idOf: any = { sc2: qs.questionId(TEXT.sc2a), p: qs.questionId(TEXT.px), p2: qs.questionId(TEXT.p2x), zz: 'zz' };
  const nameOf = (id: string) => Object.keys(idOf).find(k => idOf[k] === id) ?? id;
  let repo = '', ds: string[] = [], lists: any = {}, foreign = '', foreignText = '';
  const paths = (d: string) => (d === 'D' ? st.defineArtifactPaths(repo, EPIC, SLUG) : d === 'H' ? st.hldArtifactPaths(repo, EPIC, SLUG) : st.lldArtifactPaths(repo, EPIC, STORY[d], SLUG));
  const read = (d: string) => JSON.parse(readFileSync(paths(d).json, 'utf8'));
  const texts = (l: any) => l.map((q: any) => pads[(n + ctx.flavour) % 3]!(TEXT[q[0] + q[1]]));
  const params = (d: string) => ({ epicHash: EPIC, ...(STORY[d] ? { storyId: STORY[d] } : {}) });
  const call = async (x: any) => { const r = await handleWorkflowStep({ repo, ...x }); return JSON.parse(r.content[0].text); };
  const check = (qsx: any[]) => { for (const q of qsx) if (JSON.stringify(q.options) !== JSON.stringify(opts.options)) return 'bad options'; return qsx.map(q => nameOf(q.questionId)); };
  return {
    reset(i: any) {
      ds = Object.keys(i.docs);
      if (repo) rmSync(repo, { recursive: true, force: true });
      n++; clock.install(Date.UTC(2026, 0, 5) + n * 1000); repo = join(ctx.scratch, `r${n}`); mkdirSync(repo, { recursive: true });
      foreign = st.lldArtifactPaths(repo, OTHER, 's1').json; foreignText = JSON.stringify({ meta: { workflow: 'design.story', epicHash: OTHER, storyId: 's1', questionResolutions: { p: { status: 'deferred' } } }, body: { openQuestions: ['p'] }, citations: [] }); st.writeAtomic(foreign, foreignText);
    },
    async step(a: any) {
      clock.advance(1000);
      if (a.name === 'Write') {
        st.writeAtomic(paths(a.d).json, JSON.stringify({ meta: { workflow: a.d === 'D' ? 'define' : a.d === 'H' ? 'design.epic' : 'design.story', runId: `r${clock.get()}`, repoPath: repo, createdAt: new Date().toISOString(), schemaVersion: 1, elapsedMs: 1, repoIndexedAt: null, epicHash: EPIC, epicSlug: SLUG, approvedAt: 'kept', ...(STORY[a.d] ? { storyId: STORY[a.d], hldBaseRunId: 'x', hldEffectiveHash: 'h', hldAmendmentsApplied: [] } : {}) }, body: { ...BODY[a.d[0]](), openQuestions: texts(a.l) }, citations: CIT }));
        st.writeAtomic(paths(a.d).md, '# old\n'); return 'ok';
      }
      if (a.name === 'Reword') { const j = read(a.d); j.body.openQuestions = texts(a.l); st.writeAtomic(paths(a.d).json, JSON.stringify(j)); return 'ok'; }
      if (a.name === 'NotGated') { const r = await call({ phase: 'resolve_question', workflow: a.w, params: { epicHash: EPIC }, questionId: idOf.p, choice: 'x' }); return [r.error?.code ?? r.next]; }
      const [how, choice] = a.how.split(':');
      const r = await call({ phase: 'resolve_question', workflow: WF[a.d], params: params(a.d), questionId: idOf[a.q], ...(how === 'deferred' ? { defer: true } : how === 'ignored' ? { ignore: true } : choice || n % 2 ? { choice } : {}), ...(n % 2 ? { rationale: 'because' } : {}) });
      if (r.next === 'error') return [r.error.code];
      const md = readFileSync(paths(a.d).md, 'utf8'); const rs = read(a.d).meta.questionResolutions[idOf[a.q]];
      if (!md.includes(rs.question.trim()) || (choice && !md.includes(choice)) || md.includes('# old')) return ['decision missing from the document', md];
      return r.next === 'ready' ? ['ready'] : ['more', check(r.questions)];
    },
    async project() {
      if (readFileSync(foreign, 'utf8') !== foreignText) return { foreignTouched: true };
      const docs: any = {};
      for (const d of ds) {
        const pf = await gate.preflightUpstreamQuestions(WF[d], repo, params(d));
        if (!existsSync(paths(d).json)) { docs[d] = { ex: false, qs: [], res: {}, held: pf ? check(pf.questions) : [] }; continue; }
        const j = read(d); if (j.meta.approvedAt !== 'kept' || j.meta.workflow === undefined) return { metaLost: j.meta };
        let held = pf ? check(pf.questions) : [];
        if (pf && (n + asked) % 4 === 0) { const r = await call({ phase: 'start', workflow: WF[d], focus: 'f', params: params(d) }); held = r.next === 'resolve_questions' ? check(r.questions) : `start went on: ${JSON.stringify(r)}` as any; }
        if (d === 'D' && (await gate.preflightUpstreamQuestions('define', repo, { epicHash: EPIC }))) held = ['define is gated'] as any;
        const res: any = {}; for (const [id, r] of Object.entries<any>(j.meta.questionResolutions ?? {})) res[nameOf(id)] = r.status === 'resolved' ? `resolved:${r.choice}` : r.choice ? `choice kept ${r.status}` : r.status;
        docs[d] = { ex: true, qs: j.body.openQuestions.map((t: string) => { const k = Object.keys(TEXT).find(x => TEXT[x] === t.trim())!; return [k.slice(0, -1), k.slice(-1)]; }), res, held };
        const ao = qs.artifactOpenQuestions(repo, KIND[d], EPIC, STORY[d]); if (JSON.stringify(qs.openQuestions(ao.texts, ao.resolutions).map((q: any) => q.status)) !== JSON.stringify(docs[d].qs.map((q: any) => (res[q[0]] ?? 'open').split(':')[0]))) return { openQuestions: ao };
      }
      const rv = await call({ phase: 'review_deferred', workflow: 'define', params: { epicHash: EPIC } });
      const lbl = (q: any) => Object.keys(KIND).find(k => KIND[k] === q.kind && STORY[k] === q.storyId) ?? q.kind;
      const deferred = rv.questions.map((q: any) => { const k = Object.keys(TEXT).find(x => TEXT[x] === q.text.trim())!; if (q.resolveWith.workflow !== WF[lbl(q)] || q.resolveWith.params.epicHash !== EPIC || q.resolveWith.params.storyId !== STORY[lbl(q)]) return q; return [lbl(q), nameOf(q.questionId), k.slice(-1)]; });
      if (svc.deferredQuestions(repo, EPIC).length !== deferred.length) return { deferredService: true };
      return { docs, deferred };
    },
    close() { if (repo) rmSync(repo, { recursive: true, force: true }); },
  };
}
