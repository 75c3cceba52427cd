import { mkdirSync, rmSync, existsSync, readFileSync, writeFileSync } from 'node:fs';
import { dirname, join } from 'node:path';
import * as clock from '../lib/clock.mts';
const R = process.env.VERIF_REPO ?? '/repo';
const imp = (p: string) => import(`${R}/src/workflow/${p}.ts`);
const g = await imp('gates'), st = await imp('storage'), chain = await imp('chain'), am = await imp('amendments/index'), orch = await imp('orchestrator'),
  ex = await imp('executor'), adm = await imp('runners/build/admission'), wf = await imp('index'), seed = await imp('seed-focus'),
  def = await imp('artifacts/define'), hldA = await imp('artifacts/hld');
const amStore = await imp('amendments/store'), amStale = await imp('amendments/staleness');
const EPIC = 'a3f4b8c9d1e2f3a4', OTHER = 'a3f4b8c9d1e2f3a5', SPEC = '00ff00ff00ff00ff', SOLO = '0123456789abcdef';
const CIT = [{ id: 'c1', kind: 'analyze-bundle', ref: 'todos module' }];
const story = (id: string) => ({ id, title: `Story ${id}`, userValue: 'v', acceptanceCriteria: [{ id: 'ac1', given: 'x', when: 'y', then: 'z', operationalizes: ['k1'] }], dependsOn: [] });
const alts = [{ id: 'a1', name: 'One', oneLineSummary: 'x', approach: 'own the index', pros: ['x'], cons: ['x'], costEstimate: 'S' }, { id: 'a2', name: 'Two', oneLineSummary: 'x', approach: 'scan', pros: ['x'], cons: ['x'], costEstimate: 'XS', reasonRejected: 'perf' }];
const lldBody = () => ({
  hldContextSlice: { frameworkSummary: 'Extract.', ownedContracts: [], consumedContracts: [], boundary: { storyId: 's1', owns: [], depends: [], internal: 'private' }, rolloutPhase: 'Phase A', nonFunctional: {} },
  contractDetails: { surfaceLevel: 'internal-shared', api: [{ name: 'T.list', signature: 'list(tag: string): Todo[]', parameters: [{ name: 'tag', type: 'string', purpose: 'the tag', optional: false }], returns: { type: 'Todo[]', meaning: 'todos' }, errors: [{ type: 'E', condition: 'unknown' }], preconditions: ['p'], postconditions: ['q'] }] },
  dataModelChanges: [{ entity: 'Todo', change: 'invariant-change', details: 'index', callSites: ['src/a.ts:f'] }], interactionWithShared: [],
  errorPaths: { errorCases: [{ scenario: 'unknown tag', detection: 'miss', response: 'throw', userImpact: 'none', recoverable: true }], edgeCases: [{ input: 'empty', expected: 'empty' }], invariantsToPreserve: [{ text: 'status filter works', source: 'c1' }] },
  testStrategy: { testLevels: [{ level: 'unit', purpose: 'x', subjects: ['unit: filter by tag'] }], acceptanceMapping: [{ criterionId: 'ac1', provingTests: ['unit: filter by tag'] }], testFramework: 'node:test' },
  alternativesConsidered: alts, chosenAlternative: 'a1', openQuestions: [] });
const task = { id: 't1', title: 'Implement', summary: 'Add it.', size: 'M', order: 1, dependsOn: [], acceptanceChecks: ['works'], derivedFrom: ['c1'], tests: [{ level: 'unit', name: 'unit: filter by tag' }] };
const cls = (e: any): string => ['ArtifactMissingError', 'SpecArtifactNotFoundError', 'AmendmentNotFoundError'].includes(e?.name) ? 'missing' : ['ArtifactNotApprovedError', 'SpecNotApprovedError'].includes(e?.name) ? 'refused' : 'error';
const attempt = (f: () => any): string => { try { f(); return 'ok'; } catch (e) { const c = cls(e); return c; } };
try { wf.registerWorkflowRunners(); } catch { /* once */ }
let n = 0;
export default async function create(ctx: any) {
  let repo = '', c: any, hldRun = 0, ids: string[] = [], frozen: any = {}, bases: any = {};
  const SLUG = ['tag-filtering', undefined, 'Tag Filtering: v2'][ctx.flavour % 3];
  const SOLOSLUG = SLUG ? `solo ${SLUG}` : undefined;
  const dp = () => st.defineArtifactPaths(repo, EPIC, SLUG), hp = () => st.hldArtifactPaths(repo, EPIC, SLUG), lp = (s: string) => st.lldArtifactPaths(repo, EPIC, s, SLUG),
    pp = (s: string) => st.planArtifactPaths(repo, EPIC, s, SLUG), sp = () => st.specArtifactPaths(repo, SPEC, SLUG), slp = () => st.lldArtifactPaths(repo, SOLO, 's1', SOLOSLUG);
  const meta = (workflow: string, runId: string, x: any = {}) => ({ workflow, runId, repoPath: repo, createdAt: new Date().toISOString(), elapsedMs: 1, repoIndexedAt: null, schemaVersion: 1, ...x });
  const ep = { epicHash: EPIC, ...(SLUG ? { epicSlug: SLUG } : {}) };
  const put = (paths: any, art: any, md: string, id: string) => { st.writeAtomic(paths.json, JSON.stringify(art, null, 2) + '\n'); st.writeAtomic(paths.md, `${st.artifactIdMarker(id)}\n${md}`); };
  const intent = (workflow: string, params: any) => ({ workflow, focus: 'filter todos by tag', repoPath: repo, repoIndexedAt: null, params });
  const writeDefine = () => { const a = { meta: meta('define', `def-${n}-${clock.get()}`, ep), body: { flavor: 'new-capability', problem: 'Users cannot filter.', nonGoals: [], assumptions: [], constraints: [{ id: 'k1', text: 'Reuse', type: 'convention', source: 'c1' }], stories: c.stories.map(story), openQuestions: [] }, citations: CIT }; put(dp(), a, def.renderDefineMarkdown(a), st.defineArtifactId(EPIC)); };
  const writeHld = () => { hldRun++; const a = { meta: meta('design.epic', `hld-run-${hldRun}`, ep), body: { frameworkSummary: 'Extract.', architectureShape: 'x [[c1]]', sharedContracts: [], storyBoundaries: c.stories.map((s: string) => ({ storyId: s, owns: [], depends: [], internal: 'x' })), nonFunctional: {}, rolloutOverview: { phases: [{ name: 'Phase A', includesStories: [...c.stories], rationale: 'x', backwardCompat: '', featureFlag: null }], orderingRationale: 'x', riskyBits: [] }, alternativesConsidered: alts, chosenAlternative: 'a1', openQuestions: [] }, citations: CIT }; put(hp(), a, hldA.renderHldMarkdown(a), st.hldArtifactId(EPIC)); bases[hldRun] = JSON.stringify(a.body); };
  const fin = (workflow: string, params: any, run: string, art: any) => {
    const r = orch.finalizeArtifact(intent(workflow, params), {}, run, 5, art);
    if (!r.ok) { if (process.env.VDEBUG) console.error(JSON.stringify(r.failure)); return /not approved|not found|rejected|stale|Run `/i.test(JSON.stringify(r.failure)) ? 'refused' : 'error'; }
    const m: any = r.finalized.artifact.meta;
    const paths = st.pathsForWorkflow({ workflow, repoPath: repo, epicKey: EPIC, runId: run, epicHash: m.epicHash, epicSlug: m.epicSlug, storyId: m.storyId, storyIdParam: params.storyId });
    st.writeAtomic(paths.json, r.finalized.renderedJson); st.writeAtomic(paths.md, r.finalized.renderedMd); return 'ok';
  };
  const jsonOf = (k: string, s: string) => (k === 'D' ? dp() : k === 'H' ? hp() : k === 'L' ? lp(s) : k === 'P' ? pp(s) : k === 'S' ? sp() : slp());
  const rec = (id: string, i: number, status = 'pending') => ({ id, ...ep, epicSlug: SLUG ?? 'x', hldBaseRunId: 'hld-run-1', amendment: { type: 'storyBoundary.addStory', storyId: `x${i}`, internal: `boundary ${i}` }, rationale: `because ${i}`, citations: CIT, proposedBy: { workflow: 'design.story', runId: 'r', stepId: 's4' }, proposedAt: new Date().toISOString(), status });
  const nth = (i: number) => ids[i - 1] ?? `AMD-${EPIC}-${i}`;
  const stageStart = async (workflow: string, params: any): Promise<any> => {
    const r: any = await ex.startRun(intent(workflow, params), { workflow, steps: [{ id: 's1', runner: 'context.assemble', params: {} }] }, `run-${n}`, EPIC).catch((e: any) => ({ kind: 'error', e }));
    const kind = r.type ?? r.kind ?? r.status; return kind === 'paused' ? true : kind === 'error' ? false : `?${kind}`;
  };
  const vis = (paths: any) => {
    if (!existsSync(paths.json)) return { st: 'absent', reason: '-' };
    const m = JSON.parse(readFileSync(paths.json, 'utf8')).meta;
    if (m.approvedAt && m.rejectedAt) return { st: 'approved and rejected', reason: m.rejectReason };
    return { st: m.approvedAt ? 'approved' : m.rejectedAt ? 'rejected' : 'draft', reason: m.rejectReason ?? '-' };
  };
  return {
    reset(init: any) {
      if (repo) rmSync(repo, { recursive: true, force: true });
      n++; clock.install(Date.UTC(2026, 0, 5, 9) + n * 1000); repo = join(ctx.scratch, `repo${n}`); mkdirSync(repo, { recursive: true }); hldRun = 0; ids = []; frozen = {}; bases = {};
      c = { stories: Object.keys(init.docs.L).sort() };
      // other epics and unrelated files share the directory
      const dir = join(repo, st.ARTIFACTS_DIR); mkdirSync(dir, { recursive: true });
      const foreign = (i: number, status: string) => ({ ...rec(`AMD-${OTHER}-${i}`, 90 + i), epicHash: OTHER, status, ...(status === 'approved' ? { approvedAt: '2020-01-01T00:00:00.000Z', approvedBy: 'x' } : {}) });
      if (ctx.flavour !== 1) { writeFileSync(join(dir, `AMD-${OTHER}-1.json`), JSON.stringify(foreign(1, 'approved'))); writeFileSync(join(dir, `AMD-${OTHER}-7.json`), JSON.stringify(foreign(7, 'pending'))); writeFileSync(join(dir, `AMD-${EPIC}-notes.json`), JSON.stringify({ note: 'hand written' })); writeFileSync(join(dir, `AMD-${EPIC}-99.json.bak`), 'x'); writeFileSync(join(dir, `LLD-${OTHER}-s1.json`), JSON.stringify({ meta: { approvedAt: 'x', storyId: 's1' } })); writeFileSync(join(dir, `DEF-${OTHER}.json`), '{"meta":'); }
      if (init.docs.D.st === 'approved') { writeDefine(); g.approveArtifactByJsonPath(dp().json); writeHld(); g.approveArtifactByJsonPath(hp().json); }
    },
    async step(a: any) {
      clock.advance(1000 + (n % 7) * 13);
      switch (a.name) {
        case 'WriteDefine': writeDefine(); return 'ok';
        case 'WriteHld': writeHld(); return 'ok';
        case 'WriteLld': return fin('design.story', { epicHash: EPIC, storyId: a.s }, `lld-${clock.get()}`, { body: lldBody(), citations: CIT });
        case 'WritePlan': return fin('plan', { epicHash: EPIC, storyId: a.s }, `plan-${clock.get()}`, { body: { tasks: [task], testStrategyCoverage: [{ lldStrategyItem: 'unit: filter by tag', coveredByTaskIds: ['t1'] }] }, citations: [{ id: 'c1', kind: 'prior-artifact', ref: 'LLD' }] });
        case 'WriteSpec': put(sp(), { meta: meta('brainstorm', `br-${clock.get()}`, { specHash: SPEC, ...(SLUG ? { epicSlug: SLUG } : {}) }), body: { category: 'design', intent: 'i', scopeBoundary: 'b', nonGoals: [], openItems: [], decisions: [] }, citations: CIT }, '# spec', st.specArtifactId(SPEC)); return 'ok';
        case 'WriteSolo': put(slp(), { meta: meta('design.story', `solo-${clock.get()}`, { epicHash: SOLO, storyId: 's1', standalone: true, hldBaseRunId: 'none', hldEffectiveHash: 'none', hldAmendmentsApplied: [], ...(SLUG ? { epicSlug: SOLOSLUG } : {}) }), body: lldBody(), citations: CIT }, '# lld', st.lldArtifactId(SOLO, 's1')); return 'ok';
        case 'Decide': {
          const paths = jsonOf(a.k, a.s);
          const form = n % 2 === 0 && existsSync(paths.md) ? g.jsonPathForMd(paths.md) : paths.json;
          if (a.how === 'approve') return attempt(() => g.approveArtifactByJsonPath(form));
          return attempt(() => g.rejectArtifactByJsonPath(form, a.how === '' ? (n % 2 ? '' : '  \n') : a.how));
        }
        case 'AppendStory': {
          if (!existsSync(dp().json)) return attempt(() => g.appendStoryToDefine(repo, EPIC, story('s9')));
          const d = g.readDefineArtifact(repo, EPIC); const id = a.dup ? d.body.stories[(n + d.body.stories.length) % d.body.stories.length].id : g.nextStoryId(d);
          const r = attempt(() => g.appendStoryToDefine(repo, EPIC, story(id))); return r === 'ok' ? id : r;
        }
        case 'Ack': return attempt(() => g.ackStaleArtifact(lp(a.s).json, a.blank ? (n % 2 ? '' : ' ') : 'known and accepted'));
        case 'Propose': {
          const i = ids.length + 1;
          if (a.how === 'new') { const id = amStore.nextAmendmentId(repo, EPIC); const r = attempt(() => amStore.proposeAmendment(repo, rec(id, i))); if (r !== 'ok') return r; ids.push(id); frozen[id] = amStore.readAmendment(repo, id); return i; }
          if (a.how === 'reuse') return attempt(() => amStore.proposeAmendment(repo, rec(ids[n % ids.length]!, 77)));
          return attempt(() => amStore.proposeAmendment(repo, rec(amStore.nextAmendmentId(repo, EPIC), 78, n % 2 ? 'approved' : 'rejected')));
        }
        case 'DecideAm': {
          const id = nth(a.i);
          const r = attempt(() => a.how === 'approve' ? amStore.approveAmendment(repo, id, 'me') : amStore.rejectAmendment(repo, id, a.how === '' ? (n % 2 ? '' : ' ') : a.how));
          if (r === 'ok') { const now = amStore.readAmendment(repo, id); const was = frozen[id]; const { status, approvedAt, approvedBy, rejectedAt, rejectedReason, ...rest } = now; const { status: _s, ...old } = was; if (JSON.stringify(rest) !== JSON.stringify(old)) return { changed: rest }; if (a.how === 'approve' ? !approvedAt || approvedBy !== 'me' || rejectedAt : !rejectedAt || rejectedReason !== a.how || approvedAt) return { badStamp: now }; frozen[id] = now; }
          return r;
        }
      }
      throw new Error(a.name);
    },
    async project() {
      const S = c.stories as string[]; const per = (f: (s: string) => any) => Object.fromEntries(S.map(s => [s, f(s)]));
      for (const id of ids) if (JSON.stringify(amStore.readAmendment(repo, id)) !== JSON.stringify(frozen[id])) return { amendmentChanged: id };
      if (hldRun && existsSync(hp().json) && JSON.stringify(JSON.parse(readFileSync(hp().json, 'utf8')).body) !== bases[hldRun]) return { baseDesignChanged: true };
      const all = amStore.listAmendments(repo, EPIC); if (JSON.stringify(all.map((x: any) => x.id)) !== JSON.stringify(ids)) return { listing: all.map((x: any) => x.id), ids };
      const idx = (id: string) => ids.indexOf(id) + 1;
      const appr = amStore.listApprovedAmendments(repo, EPIC).map((x: any) => idx(x.id));
      const D = existsSync(dp().json) ? g.readDefineArtifact(repo, EPIC) : null;
      const cat = g.epicCatalog(repo).filter((e: any) => e.epicHash === EPIC);
      if ((D === null) !== (cat.length === 0) || (D && (cat[0].approved !== !!D.meta.approvedAt || JSON.stringify(cat[0].stories.map((x: any) => x.id)) !== JSON.stringify(D.body.stories.map((x: any) => x.id))))) return { catalog: cat };
      if (D && D.body.stories.some((s: any) => JSON.stringify(s) !== JSON.stringify(story(s.id)))) return { storyChanged: D.body.stories };
      let design: number[] = []; const hld = attempt(() => { const e = g.requireApprovedHld(repo, EPIC); design = e.body.storyBoundaries.map((b: any) => b.storyId).filter((x: string) => x.startsWith('x')).map((x: string) => Number(x.slice(1))); });
      const spec = attempt(() => g.requireApprovedSpec(repo, SPEC)); const rs = (() => { try { const r: any = g.resolveApprovedSpec(repo, SPEC); return r.spec ? 'ok' : r.code === 'not-found' ? 'missing' : r.code === 'not-approved' ? 'refused' : r.code; } catch { return 'error'; } })();
      const solo = (() => { const r: any = adm.admitStandaloneBuild(repo, SOLO, 's1', true); return r.admitted ? 'ok' : r.refusal.reason === 'plan-missing' ? 'missing' : 'refused'; })();
      if (adm.admitStandaloneBuild(repo, SOLO, 's1', false).admitted !== true) return { trivial: 'refused' };
      if (attempt(() => g.requireApprovedLld(repo, SOLO, 's1')) !== solo || attempt(() => g.readPlanUpstream(repo, SOLO, 's1')) !== solo) return { solo };
      const base = existsSync(hp().json) ? g.readBaseHld(repo, EPIC) : null;
      const scan = base ? amStale.scanLldStaleness(repo, EPIC, base) : []; if (scan.some((e: any) => !S.includes(e.storyId))) return { scan };
      const staleOf = (s: string) => { const e = scan.filter((x: any) => x.storyId === s); if (e.length === 0) return '-'; if (e.length > 1) return 'twice'; const x = e[0]; return !x.stale ? 'fresh' : String(x.staleReason).startsWith('amendment-') ? `amendment-${idx(String(x.staleReason).slice(10))}` : x.staleReason; };
      const admit = (s: string) => { try { const r: any = adm.admitBuild(repo, EPIC, s); if (!r.admitted) return r.refusal.reason; if (r.plan.storyId !== s || r.plan.planArtifactId !== st.planArtifactId(EPIC, s) || !/^[0-9a-f]{64}$/.test(r.plan.planArtifactHash)) return 'bad pointer'; 
        const j = readFileSync(pp(s).json, 'utf8'); const same = adm.admitBuild(repo, EPIC, s).plan.planArtifactHash === r.plan.planArtifactHash; writeFileSync(pp(s).json, j.replace('Add it.', 'Add it!')); const other = adm.admitBuild(repo, EPIC, s).plan?.planArtifactHash; writeFileSync(pp(s).json, j); return same && other !== r.plan.planArtifactHash ? 'admitted' : 'plan content not identified'; } catch (e) { return cls(e); } };
      const rep = chain.buildChainReport(repo, EPIC); const na: any = rep.nextAction;
      if (rep.define.exists !== (D !== null) || rep.hld.exists !== (base !== null) || rep.define.approved !== !!D?.meta.approvedAt || rep.hld.approved !== !!base?.meta.approvedAt) return { chain: rep };
      const storyStage: any = {}, planStage: any = {}; for (const s of S) { storyStage[s] = await stageStart('design.story', { epicHash: EPIC, storyId: s }); planStage[s] = await stageStart('plan', { epicHash: EPIC, storyId: s }); }
      return {
        docs: { D: vis(dp()), H: vis(hp()), L: per(s => vis(lp(s))), P: per(s => vis(pp(s))), S: vis(sp()), SL: vis(slp()) },
        stories: D ? D.body.stories.map((x: any) => x.id) : [], next: D ? g.nextStoryId(D) : '-',
        epic: attempt(() => g.requireApprovedEpic(repo, EPIC)), hld, spec: spec === rs ? spec : { spec, rs }, solo, design,
        lld: per(s => attempt(() => g.requireApprovedLld(repo, EPIC, s))), planUp: per(s => attempt(() => g.readPlanUpstream(repo, EPIC, s))), plan: per(s => { const p = attempt(() => g.requireApprovedPlan(repo, EPIC, s)); const b = attempt(() => g.readBuildUpstream(repo, EPIC, s)); return p === b ? p : { p, b }; }),
        admit: per(admit), stale: per(staleOf),
        stage: { epic: await stageStart('design.epic', { epicHash: EPIC }), story: storyStage, plan: planStage, spec: attempt(() => seed.resolveStageFocus(repo, 'x', { specHash: SPEC })) === 'ok' },
        chain: [na.kind, na.storyId ?? '-'], ams: all.map((x: any) => x.status), order: appr, counts: { p: rep.amendments.pending, a: rep.amendments.approved, r: rep.amendments.rejected },
      };
    },
    close() { if (repo) rmSync(repo, { recursive: true, force: true }); },
  };
}
