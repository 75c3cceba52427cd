import { mkdirSync, rmSync, readFileSync } from 'node:fs';
import { join } from 'node:path';
import * as clock from '../lib/clock.mts';
import { rngFrom } from '../lib/util.mts';
const R = process.env.VERIF_REPO ?? '/repo';
const imp = (p: string) => import(`${R}/src/${p}.ts`);
const g = await imp('workflow/gates'), st = await imp('workflow/storage'), am = await imp('workflow/amendments/index'), svc = await imp('cli/services/workflow');
const EPIC = 'a3f4b8c9d1e2f3a4', OTHER = 'a3f4b8c9d1e2f3a5';
const SKETCH = 'interface X {\n  id: string;\n  list(): void;\n}';
const c = (id: string, name: string, owner: string, cons: string[]) => ({ id, name, purpose: 'p', interfaceSketch: SKETCH, ownedByStory: owner, consumedByStories: cons, assumptions: ['c1'] });
const b = (storyId: string, owns: string[], depends: string[]) => ({ storyId, owns, depends, internal: 'private' });
const ph = (name: string, includesStories: string[]) => ({ name, includesStories, rationale: `why ${name}`, backwardCompat: 'shim', featureFlag: null });
const freeze = (x: any): any => { if (x && typeof x === 'object') { Object.values(x).forEach(freeze); Object.freeze(x); } return x; };
const base = () => ({ frameworkSummary: 'F', architectureShape: 'x [[c1]]', sharedContracts: [c('sc1', 'TodoStore', 's1', ['s2']), c('sc2', 'TagIndex', 's2', [])],
  storyBoundaries: [b('s1', ['sc1'], []), b('s2', ['sc2'], ['sc1']), b('s3', [], [])], nonFunctional: { performance: 'fast', durability: 'daily' },
  rolloutOverview: { phases: [ph('A', ['s1', 's2']), ph('B', ['s3', 's1']), ph('C', [])], orderingRationale: 'o', riskyBits: [] }, alternativesConsidered: [], chosenAlternative: 'a1', openQuestions: ['q'] });
let n = 0;
const real = (a: any): any => {
  switch (a.t) {
    case 'fieldAdd': return { type: 'sharedContract.fieldAdd', contractId: a.c, field: { name: a.m, type: 'string', optional: n % 2 === 1, purpose: 'why' }, breaking: false };
    case 'methodAdd': return { type: 'sharedContract.methodAdd', contractId: a.c, method: { name: a.m, signature: a.bad ? (n % 2 ? `${a.m}(): void { return 1; }` : `${a.m}() => { x }`) : `${a.m}(): void`, purpose: 'why' } };
    case 'fieldRemove': return { type: 'sharedContract.fieldRemove', contractId: a.c, fieldName: a.m, breaking: !(a.bad && n % 2), migrationCue: a.bad && !(n % 2) ? '' : 'use another' };
    case 'rename': return { type: 'sharedContract.rename', contractId: a.c, oldName: a.old, newName: a.new, breaking: !(a.bad && n % 2), migrationCue: a.bad && !(n % 2) ? '' : 'rename calls' };
    case 'reassign': return { type: 'storyBoundary.reassignOwnership', contractId: a.c, oldOwner: a.old, newOwner: a.new, rationale: 'r' };
    case 'consumer': return { type: 'storyBoundary.addConsumer', contractId: a.c, consumer: a.s };
    case 'story': return { type: 'storyBoundary.addStory', storyId: a.s, ...(n % 2 || a.deps.length ? { depends: a.deps } : {}), internal: 'private' };
    case 'retarget': return { type: 'nonFunctional.retarget', property: a.p, oldTarget: a.old, newTarget: a.new, rationale: 'r' };
    case 'reorder': return { type: 'rollout.reorder', newPhaseOrder: a.order };
    case 'split': return { type: 'rollout.splitPhase', phase: a.p, newPhases: a.into.map((x: any) => ({ name: x.name, includesStories: x.st })) };
    case 'merge': return { type: 'rollout.mergePhases', phases: a.ps, newPhase: { name: a.new } };
  }
};
const abs = (x: any) => ({
  cs: x.sharedContracts.map((s: any) => {
    if (!s.interfaceSketch.startsWith(SKETCH) || s.purpose !== 'p' || s.assumptions[0] !== 'c1') return { changed: s };
    const marks = s.interfaceSketch.slice(SKETCH.length).split('\n').filter((l: string) => l.trim()).map((l: string) => { const m = /([+-])\s*(\w+)/.exec(l); return m ? [m[1], m[2]] : l; });
    return { id: s.id, name: s.name, owner: s.ownedByStory, cons: s.consumedByStories, marks };
  }),
  bs: x.storyBoundaries.map((s: any) => (s.internal === 'private' ? { id: s.storyId, owns: s.owns, deps: s.depends } : s)),
  nf: x.nonFunctional.durability === 'daily' ? { performance: x.nonFunctional.performance ?? '-', security: x.nonFunctional.security ?? '-' } : x.nonFunctional,
  ph: x.rolloutOverview.phases.map((p: any) => ({ name: p.name, st: p.includesStories })) });
export default async function create(ctx: any) {
  let repo = '', hldText = '', accepted: any[] = [], otherText = '';
  const hp = () => st.hldArtifactPaths(repo, EPIC, 'slug');
  const propose = (a: any) => { clock.advance(tick()); const id = am.nextAmendmentId(repo, EPIC); am.proposeAmendment(repo, { id, epicHash: EPIC, epicSlug: 'slug', hldBaseRunId: 'hld-1', amendment: real(a), rationale: 'r', citations: [], proposedBy: { workflow: 'design.story', runId: 'r', stepId: 's4' }, proposedAt: new Date().toISOString(), status: 'pending' }); clock.advance(tick()); return id; };
  const tick = () => n % 2 ? 3 : 2000; // approved one after the other within a second, or not
  // amendments proposed up front, in an order unrelated to the order they are approved in
  const seen = new Map<string, any>(), held = new Map<string, string[]>(); const rng = rngFrom(ctx.seed);
  return {
    reset() {
      if (repo) rmSync(repo, { recursive: true, force: true });
      n++; held.clear(); accepted = []; clock.install(Date.UTC(2026, 0, 5) + n * 1000); repo = join(ctx.scratch, `r${n}`); mkdirSync(repo, { recursive: true });
      st.writeAtomic(hp().json, JSON.stringify({ meta: { workflow: 'design.epic', runId: 'hld-1', repoPath: repo, epicHash: EPIC, epicSlug: 'slug', approvedAt: new Date().toISOString() }, body: base(), citations: [] }, null, 2)); hldText = readFileSync(hp().json, 'utf8');
      // another epic with an approved amendment of its own
      const o = st.hldArtifactPaths(repo, OTHER, 'slug'); otherText = JSON.stringify({ meta: { workflow: 'design.epic', runId: 'hld-o', epicHash: OTHER, approvedAt: new Date().toISOString() }, body: base(), citations: [] }); st.writeAtomic(o.json, otherText);
      const oid = am.nextAmendmentId(repo, OTHER); am.proposeAmendment(repo, { id: oid, epicHash: OTHER, epicSlug: 'slug', hldBaseRunId: 'hld-o', amendment: { type: 'sharedContract.rename', contractId: 'sc2', oldName: 'TagIndex', newName: 'Other', breaking: true, migrationCue: 'x' }, rationale: 'r', citations: [], proposedBy: { workflow: 'w', runId: 'r', stepId: 's' }, proposedAt: new Date().toISOString(), status: 'pending' }); clock.advance(1000); am.approveAmendment(repo, oid, 'x');
      if (ctx.flavour > 0) for (let k = 0; k < 8 && seen.size; k++) { const key = [...seen.keys()][Math.floor(rng() * seen.size)]; held.set(key, [...(held.get(key) ?? []), propose(seen.get(key))]); }
    },
    step({ name, a }: any) {
      if (name === 'Propose') { propose(a); return 'ok'; }
      if (name === 'Decline') { const id = propose(a); svc.rejectAmendmentById(repo, id, 'no'); return 'ok'; }
      const key = JSON.stringify(a); seen.set(key, a); clock.advance(tick());
      const id = held.get(key)?.pop() ?? propose(a); // an earlier proposal approved after a later one counts from its approval on
      try { const r = svc.approveAmendmentById(repo, id, 'me'); accepted.push(r); return r.status === 'approved' && r.id === id ? 'ok' : r; }
      catch (e: any) { const r = am.readAmendment(repo, id); return e.name === 'AmendmentApplyError' && e.amendmentId === id && r.status === 'pending' ? 'refused' : { error: String(e), status: r.status }; }
    },
    project() {
      if (readFileSync(hp().json, 'utf8') !== hldText) return { baseModified: true };
      const eff = g.requireApprovedHld(repo, EPIC);
      if (eff.meta.runId !== 'hld-1' || JSON.stringify(eff.body.openQuestions) !== '["q"]') return { meta: eff.meta };
      const b0 = freeze(base()); const pure = am.applyAmendments(b0, freeze(JSON.parse(JSON.stringify(accepted))));
      if (JSON.stringify(abs(pure)) !== JSON.stringify(abs(eff.body))) return { foldDiffers: abs(pure), effective: abs(eff.body) };
      if (am.getEffectiveHld(repo, OTHER, JSON.parse(otherText)).body.sharedContracts[1].name !== 'Other') return { otherEpic: true };
      return abs(eff.body);
    },
    close() { if (repo) rmSync(repo, { recursive: true, force: true }); },
  };
}
