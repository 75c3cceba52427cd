// Drives src/analyze/explore/executor.ts and src/mcp/analyze-step against spec/Explore.tla (E01).
import { mkdirSync } from 'node:fs';
import { join } from 'node:path';
import { fresh, done, dump } from '../lib/graph.mts';
const R = process.env.VERIF_REPO ?? '/repo';
const Rep = await import(`${R}/src/db/repos.ts`), Ent = await import(`${R}/src/db/entities.ts`), C = await import(`${R}/src/db/exploration-cache.ts`);
const X = await import(`${R}/src/analyze/explore/executor.ts`), St = await import(`${R}/src/mcp/analyze-step/state.ts`);
const P = `${R}/src/mcp/analyze-step/phases`;
const { handleStart } = await import(`${P}/start.ts`), { handlePlan } = await import(`${P}/plan.ts`), { handleNarrow } = await import(`${P}/narrow.ts`), { handleBundle } = await import(`${P}/bundle.ts`);
// the types whose outcome needs no model and may be cached: a plan's plain explorations are of each in turn
const PLAIN = ['search.text', 'symbol.locate', 'concept.resolve', 'module.profile', 'import.graph', 'doc.mention', 'usage.example', 'class.hierarchy', 'convention.detect', 'config.trace', 'test.locate', 'manifests.locate'];
const TYPE: any = { text: 'search.text', probe: 'freeform.probe', nope: 'db.tables.list', narrow: 'doc.decision.trace' };
const ACC: any = { first: '.hits[0].path', all: '.hits', range: '.hits[0..1].path', tail: '.hits[1..5].path', topic: '.topic', beyond: '.hits[7].path', nofield: '.hits[0].nothing', broken: '.hits[zz' };
const word = (v: any): string => Array.isArray(v) ? (typeof v[0] === 'object' ? `rows[${v.map(x => x?.path).join(',')}]` : `[${v.join(',')}]`) : String(v);
const GEN = (g: number) => Date.parse(`2026-01-0${g}T00:00:00.000Z`);
export default async function create(ctx: any) {
  // the same parameter, carried at three different depths
  const wrap = (v: any) => ctx.flavour % 3 === 0 ? { query: v } : ctx.flavour % 3 === 1 ? { n: 3, q: { z: null, deep: { query: v } } } : { list: [true, v], n: 1.5 };
  const open = (p: any) => ctx.flavour % 3 === 0 ? p.query : ctx.flavour % 3 === 1 ? p.q.deep.query : p.list[1];
  const valueOf = (e: any) => e.type === TYPE.narrow ? e.params.topic : open(e.params);
  const short = (t: string) => Object.keys(TYPE).find(k => TYPE[k] === t) ?? t;
  const qOf = (e: any) => `${short(e.type)}:${word(valueOf(e))}`;
  const real = X._getRunnersForTest ? { ...X._getRunnersForTest() } : {};
  let nth = 0;
  let world = 1, gen = 1, ran: string[] = [], repo = '', doc = '', toks: string[] = [], gens = 1; const seen = new Map<string, any>();
  const runner = (t: string) => async (e: any) => {
    const v = valueOf(e); if (e.type !== t) throw new Error(`runner of ${t} got ${e.type}`);
    ran.push(qOf(e)); if (v === 'boom') throw new Error('cannot go on'); const w = word(v);
    return { type: t, from: `w${world}`, hits: v === 'none' ? [] : [{ path: `${w}@w${world}` }, { path: `${w}#w${world}` }] };
  };
  const plan = (spec: any[]) => ({ answerType: 'structural-map', synthesisHint: 'x', explorations: spec.map((e: any) => {
    const v = e.p.ref === '-' ? e.p.word : `$${e.p.ref}${ACC[e.p.acc]}`; return { id: e.id, type: TYPE[e.t], purpose: 'p', params: e.t === 'narrow' ? { topic: v } : wrap(v) }; }) });
  const show = (rs: any[]) => rs.map(r => {
    const o = r.output, e = r.exploration; if (['ok'].includes(kind(o)) && (e.type === TYPE.text || e.type === TYPE.probe || e.type === TYPE.narrow)) seen.set(qOf(e), e);
    return [e.id, kind(o), o.type === 'failed' ? o.errorCode : '-', hitsOf(o), fromOf(o), r.cached]; });
  const kind = (o: any) => o.type === 'failed' || o.type === 'unsupported' ? o.type : Object.values(TYPE).includes(o.type) ? 'ok' : `?${o.type}`;
  const hitsOf = (o: any) => (o.hits ?? []).map((h: any) => h.path);
  const fromOf = (o: any) => o.type === TYPE.narrow ? (o.decisions.length === 0 ? 'nothing' : o.decisions.map((d: any) => d.decision).join('+')) : o.from ?? '-';
  const out = (r: any) => {
    if (r.next === 'error') return { next: 'error', code: r.error.code };
    if (r.next === 'done') return { next: 'done', calls: r.meta.toolCalls, gen: Array.from({ length: gens }, (_, i) => i + 1).find(g => GEN(g) === r.meta.repoLastIndexedAt) ?? r.meta };
    if (toks.includes(r.state)) return { reused: r.state }; toks.push(r.state);
    if (r.next === 'emit_plan') return 'emit_plan';
    const s = St.decodeState(r.state); const rs = r.next === 'emit_bundle' ? s.executed.results : s.narrow.resumeState.results;
    if (r.next === 'emit_bundle' && !rs.every((x: any) => r.userTurn.includes(x.exploration.id))) return { notShown: true };
    return { next: r.next, results: show(rs), ask: r.explorationId ?? '-', ran: ran.splice(0) };
  };
  const answer = (d: string) => d === 'bad' ? {} : { topic: 'whatever', notFoundNote: '', decisions: [{ decision: d, sourceEntityId: doc, file: 'x', heading: 'h', rationale: 'r' }, { decision: 'made up', sourceEntityId: 'f'.repeat(32), file: 'x', heading: 'h', rationale: 'r' }] };
  const reg = async () => Rep.updateRepoStatus(undefined, repo, 'ready', new Date(GEN(gen)).toISOString());
  return {
    async reset() {
      await fresh(ctx.scratch); repo = join(ctx.scratch, 'repo'); mkdirSync(repo, { recursive: true }); world = 1; gen = gens = 1; ran = []; toks = []; seen.clear();
      if (nth > 0) X._overrideRunnerForTest(TYPE.text, real[TYPE.text]); TYPE.text = PLAIN[nth++ % PLAIN.length];
      X._overrideRunnerForTest(TYPE.text, runner(TYPE.text)); X._overrideRunnerForTest(TYPE.probe, runner(TYPE.probe)); X._overrideRunnerForTest(TYPE.nope, undefined);
      const now = '2026-01-01T00:00:00.000Z';
      await Rep.addRepo(undefined, { kind: 'workspace', path: repo, name: 'r', addedAt: now, status: 'pending' }); await reg();
      doc = 'ab'.repeat(16);
      await Ent.upsertEntities(undefined, [{ id: doc, kind: 'section', name: 'Heading', language: 'markdown', repo, repoId: 0, file: `${repo}/d.md`, startLine: 1, endLine: 2, body: 'We chose alpha over beta.', embedding: [], indexedAt: now } as any]);
    },
    async step(a: any) {
      ran = [];
      switch (a.name) {
        case 'Once': { const r = await X.executePlan({ runId: 'r', repoPath: repo, closureRepos: [repo], repoLastIndexedAtMs: BigInt(GEN(gen)), plan: plan(a.plan) }); return { results: show(r.results), ran: ran.splice(0) }; }
        case 'Begin': return out(await handleStart({ phase: 'start', focus: 'f', repo } as any));
        case 'SendPlan': return out(await handlePlan({ phase: 'plan', plan: plan(a.plan), state: toks[a.k - 1] } as any));
        case 'BadPlan': { const p: any = plan([{ id: 'e1', t: 'text', p: { ref: '-', word: 'a' } }]); if (a.why === 'twice') p.explorations.push({ ...p.explorations[0] }); else delete p.explorations[0].params; return out(await handlePlan({ phase: 'plan', plan: p, state: toks[a.k - 1] } as any)); }
        case 'Answer': {
          const st = (() => { try { return St.decodeState(toks[a.k - 1]!); } catch { return undefined; } })();
          return out(await handleNarrow({ phase: 'narrow', explorationId: a.d === 'wrong' ? 'e99' : st?.narrow?.explorationId ?? 'e1', narrow: answer(a.d), state: toks[a.k - 1] } as any));
        }
        case 'Bundle': { const l = { system: 's', focus: 'f', summary: 'x', structure: '', surface: '', artefacts: '', upstream: '' } as any; if (!a.ok) delete l.summary; return out(await handleBundle({ phase: 'bundle', bundle: l, state: toks[a.k - 1] } as any)); }
        case 'Edit': world = 3 - world; return 'ok';
        case 'Reindex': gen++; gens = gen; await reg(); return 'ok';
      }
      throw new Error(a.name);
    },
    async project() {
      const cache: any[] = [];
      for (let g = 1; g <= gens; g++) for (const [q, e] of seen) { const o = await C.getCachedExploration(repo, BigInt(GEN(g)), e); if (o !== null) cache.push([g, q, hitsOf(o), fromOf(o)]); }
      const rows = (await dump())['explorationCache']; if (rows !== undefined && rows.length !== cache.length) cache.push({ rows: rows.length });
      return { cache, toks: toks.map(t => { try { const s = St.decodeState(t); return [s.stage.replace('awaiting_', ''), gensOf(s.repoIndexedAt), (s.executed?.results ?? s.narrow?.resumeState.results ?? []).length]; } catch { return ['gone', 0, 0]; } }) };
      function gensOf(ms: any) { return Array.from({ length: gens }, (_, i) => i + 1).find(g => GEN(g) === ms) ?? ms; }
    },
    sets: ['cache'],
    close: done,
  };
}
