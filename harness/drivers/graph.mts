// Drives src/db/{entities,relations,repos,doc-summaries,search}.ts against spec/Graph.tla (G01-G04).
import { mkdirSync, rmSync } from 'node:fs';
import { join } from 'node:path';
import { fresh, reopen, done, dump } from '../lib/graph.mts';
import { same } from '../lib/util.mts';
const R = process.env.VERIF_REPO ?? '/repo';
const Ent = await import(`${R}/src/db/entities.ts`), Rel = await import(`${R}/src/db/relations.ts`), Rep = await import(`${R}/src/db/repos.ts`), Doc = await import(`${R}/src/db/doc-summaries.ts`), Sea = await import(`${R}/src/db/search.ts`);
const Edg = await import(`${R}/src/db/graph/edges.ts`), Tra = await import(`${R}/src/db/graph/traversal.ts`), LC = await import(`${R}/src/db/lance/conn.ts`), LV = await import(`${R}/src/db/lance/entity-vec.ts`);
const Emb = await import(`${R}/src/indexer/embedder.ts`);
const D: any = undefined;
const PATHS = [{ r1: '/w/app', r2: '/w/lib' }, { r1: '/w/app', r2: '/w/app2' }, { r1: '/w/\u00e9pp', r2: '/w/\u00e9pp/sub' }] as any[];
const NAMES = [{ n1: 'run', n2: 'runAll' }, { n1: 'a', n2: 'a\u00fc' }, { n1: 'x.y', n2: 'x' }] as any[];
const FILES = [{ f1: 'src/a.ts', f2: 'src/b.ts' }, { f1: 'a', f2: 'ab' }, { f1: 'd \u00fc/a.ts', f2: 'd \u00fc/a.ts.bak' }] as any[];
// what distinguishes two versions of an entity: its text; only a flag; only where it ends and whether it is an artifact
const BODIES = [{ x1: { body: 'one', hash: 'h1' }, x2: { body: 'two', hash: 'h2' } }, { x1: {}, x2: { isExported: true } }, { x1: { isAsync: true, signature: 's' }, x2: { artifact: true, endLine: 9, signature: 's' } }] as any[];
const T0 = '2026-01-01T00:00:00.000Z', T1 = '2026-02-02T00:00:00.000Z', SYS = '/usr';
const hex = (s: string) => Buffer.from(s.repeat(16)).toString('hex').slice(0, 32);
export default async function create(ctx: any) {
  const P = PATHS[ctx.flavour % 3], N = NAMES[ctx.flavour % 3], F = FILES[ctx.flavour % 3], B = BODIES[ctx.flavour % 3];
  const rid = (s: string) => ctx.flavour === 1 ? s : hex(s); const all: string[] = ['a1', 'a2', 'a3', 'b1', 'b2', 'm1'];
  const back = new Map(all.map(s => [rid(s), s])); const un = (v: string) => back.get(v) ?? `?${v}`;
  const rOf = (p: string) => Object.keys(P).find(k => P[k] === p) ?? (p === '' ? 'mod' : `?${p}`);
  const abs = (r: string, f: string) => `${P[r]}/${F[f]}`;
  const spelled = (p: string, sp: string) => sp === 'slash' ? `${P[p]}/` : sp === 'dots' ? `${P[p]}/./zz/..` : P[p];
  const home = (i: string) => i[0] === 'm' ? 'mod' : i[0] === 'a' ? 'r1' : 'r2';
  let notes: string[] = []; let gens = new Map<string, any[]>(), owner = new Map<any, string>(), embedded = new Set<string>(); let lance = 0, turn = 0; let refs: any[] = [];
  // only the search suites store real vectors: e1 and e2 point in different directions
  const vec = (m: string): number[] => { if (!ctx.consts.vec) return []; const v = Array(Emb.EMBEDDING_DIM).fill(0); v[m === 'e1' ? 3 : 7] = 1; return v; };
  const gen = (what: string, u: any) => {
    const k = String(u); const l = gens.get(what) ?? []; gens.set(what, l); const o = owner.get(what[0] + k);
    if (o !== undefined && o !== what) return `reused from ${o}`; if (l.at(-1) === k) return l.length; if (l.includes(k)) return 'reused';
    owner.set(what[0] + k, what); l.push(k); return l.length;
  };
  const ent = (s: any) => ({ id: rid(s.id), kind: s.k, name: s.bad === 'long' ? 'x'.repeat(5000) : N[s.n], language: 'typescript', repo: home(s.id) === 'mod' ? '' : P[home(s.id)], repoId: 0, file: s.f === '-' ? '' : abs(home(s.id), s.f), startLine: 1, endLine: 2, body: 'b', embedding: s.em === '-' ? [] : vec(s.em), ...(s.em === '-' ? {} : { embeddingModel: s.em }), indexedAt: T0, ...B[s.b] });
  const refRow = (u: any, bad?: string) => ({ kind: u.k, from: rid(u.a), to: `raw:${u.raw}`, resolved: false, meta: { repo: P[u.r], file: bad === 'long' ? 'y'.repeat(5000) : abs(u.r, u.f), m: u.m } });
  const rel = (x: any) => x.t === 'edge' ? { kind: x.k, from: rid(x.a), to: rid(x.b), resolved: true } : refRow(x, x.bad);
  const pendingRow = async (u: any) => (await Rel.listUnresolvedRelations(D, P[u.r])).find((x: any) => un(x.fromEntity) === u.a && x.kind === u.k && x.rawTo === `raw:${u.raw}`);
  const sum = (s: string) => ({ title: s, family: 'design', kind: 'design', subjects: ['x'], summary: s, keyDecisions: [], keyConstraints: [], relatedEntities: [rid('a1')], status: 'current', summarisedAt: T0, modelId: 'm', contentHash: s });
  const run = async (a: any): Promise<any> => {
    switch (a.name) {
      case 'AddRepo': return Rep.addRepo(D, { kind: 'workspace', path: spelled(a.p, a.sp), name: `repo ${a.p}`, addedAt: T0, status: 'pending' });
      case 'BadRepo': return Rep.addRepo(D, { kind: 'workspace', path: a.why === 'empty' ? '' : a.why === 'relative' ? 'w/app' : `${SYS}/`, name: 'x', addedAt: T0, status: 'pending' });
      case 'RemoveRepo': return Rep.removeRepo(D, spelled(a.p, a.sp));
      case 'Status': return Rep.updateRepoStatus(D, spelled(a.p, a.sp), a.st, a.li === '-' ? undefined : T1, a.st === 'error' ? 'why' : undefined);
      case 'Upsert': return Ent.upsertEntities(D, a.batch.map(ent));
      case 'Reindex': return Ent.reindexFile(D, P[a.r], abs(a.r, a.f), a.batch.map(ent));
      case 'DeleteFile': return Ent.deleteEntitiesForFile(D, abs(a.r, a.f));
      case 'DeleteIds': return Ent.deleteEntitiesById(D, a.ids.map(rid));
      case 'DeleteRepoEntities': return Ent.deleteEntitiesForRepo(D, P[a.r]);
      case 'Embed': return Ent.updateEmbedding(D, rid(a.id), vec(a.m), a.m);
      case 'Summarise': return Doc.writeDocSummary(D, rid(a.id), P[home(a.id)], sum(a.s));
      case 'Unsummarise': return Doc.deleteDocSummary(D, rid(a.id));
      case 'Relate': return a.batch.length === 1 && ctx.flavour === 1 ? Rel.upsertRelation(D, rel(a.batch[0])) : Rel.upsertRelations(D, a.batch.map(rel));
      case 'Unrelate': return Rel.deleteResolvedRelations(D, a.es.map((e: any) => ({ from: rid(e[0]), kind: e[1], to: rid(e[2]) })));
      case 'Promote': {
        const items = []; for (const p of a.ps) { const u = await pendingRow(p.u); if (!u) throw new Error(`pending reference ${JSON.stringify(p.u)} is not listed`); items.push({ unresolved: u, targetEntityId: rid(p.to) }); }
        return a.single ? Rel.promoteToResolved(D, items[0]!.unresolved, items[0]!.targetEntityId) : Rel.promoteResolvedBatch(D, items);
      }
      case 'Meta': { const u = await pendingRow(a.u); if (!u) throw new Error('pending reference is not listed'); const m = { repo: P[a.u.r], file: abs(a.u.r, a.u.f), m: a.m }; return ctx.flavour === 1 ? Rel.updateUnresolvedMetaBatch(D, [{ id: u.id, meta: m }]) : Rel.updateUnresolvedMeta(D, u.id, m); }
      case 'DropFileRefs': return Rel.deleteUnresolvedForFile(D, abs(a.r, a.f));
      case 'DropRepoRefs': return Rel.deleteUnresolvedForRepo(D, P[a.r]);
      case 'Reopen': return reopen();
    }
    throw new Error('op ' + a.name);
  };
  const lanceDir = () => join(ctx.scratch, `v${lance}`);
  const drop = async () => { await LC.closeLanceConn(); LV._resetEntityVecCache(); rmSync(lanceDir(), { recursive: true, force: true }); };
  return {
    sets: ['edges', 'U'],
    async close() { await drop(); await done(); },
    async reset(init: any) {
      await drop(); lance++; mkdirSync(lanceDir(), { recursive: true }); LC.setLanceConnPath(lanceDir());
      await fresh(ctx.scratch); notes = []; gens = new Map(); owner = new Map();
      for (const p of Object.keys(init.R ?? {})) await run({ name: 'AddRepo', p, sp: 'plain' });
      for (const [i, e] of Object.entries<any>(init.E ?? {})) await run({ name: 'Upsert', batch: [{ id: i, f: e.f, k: e.k, n: e.n, b: e.b, em: '-', bad: '-' }] });
    },
    async step(a: any) {
      notes = []; const before = await dump();
      const r = await run(a).then(() => 'ok', (e: any) => e?.name === 'InvalidRepoPathError' ? 'invalid' : 'refused');
      return { r, intact: r !== 'ok' || a.name === 'Reopen' ? same(before, await dump()) : false };
    },
    async project() {
      const bad: string[] = [...notes]; const J = JSON.stringify; const sorted = (l: string[]) => [...l].sort().join(' ');
      const Rs: any = {}, E: any = {}, edges: any[] = [], U: any[] = [];
      const must = (what: string, got: any, want: any) => { if (J(got) !== J(want)) bad.push(`${what}: ${J(got)} instead of ${J(want)}`); };
      // repositories
      for (const r of await Rep.listRepos(D)) {
        const p = rOf(r.path); if (Rs[p]) bad.push(`${r.path} listed twice`);
        Rs[p] = { g: gen('r' + p, await Rep.lookupRepoId(r.path)), st: r.status, li: r.lastIndexed === undefined ? '-' : r.lastIndexed === T1 ? 't1' : `?${r.lastIndexed}` };
        if (r.name !== `repo ${p}` || r.addedAt !== T0 || (r.errorMsg ?? '-') !== (r.status === 'error' ? 'why' : '-')) bad.push(`row of ${p} is ${J(r)}`);
        for (const sp of ['slash', 'dots']) must(`lookupRepoId of ${p} spelled ${sp}`, await Rep.lookupRepoId(spelled(p, sp)), await Rep.lookupRepoId(r.path));
      }
      for (const p of Object.keys(P)) if (!Rs[p] && await Rep.lookupRepoId(P[p]) !== undefined) bad.push(`${p} is found but not listed`);
      // entities
      const live = new Map<string, any>(), num = new Map<string, bigint>();
      for (const i of all) {
        const e = await Ent.getEntity(D, rid(i)); const u = await Ent.entityU64ForId(rid(i));
        if (e === null) { if (u !== undefined) bad.push(`${i} is gone but has an identity`); if (await Doc.getDocSummary(D, rid(i)) !== null) bad.push(`${i} is gone but has a summary`); continue; }
        if (u === undefined) { bad.push(`${i} has no identity`); continue; }
        live.set(i, e); num.set(i, u); must(`id of ${u}`, await Ent.entityIdByU64(u), rid(i));
        const mod = home(i) === 'mod'; const r = mod ? (await Rep.listRepos(D)).some((x: any) => x.path === e.repo) ? `?${e.repo}` : 'mod' : rOf(e.repo);
        const f = e.file === '' || mod ? '-' : Object.keys(F).find(x => r[0] === 'r' && abs(r, x) === e.file) ?? `?${e.file}`;
        const n = Object.keys(N).find(k => N[k] === e.name) ?? `?${e.name.slice(0, 20)}`;
        const b = Object.keys(B).find(k => { const w: any = { body: 'b', endLine: 2, ...B[k] }; return ['body', 'hash', 'isExported', 'isAsync', 'isAbstract', 'artifact', 'signature', 'endLine'].every(x => (e[x] ?? '-') === (w[x] ?? '-')); }) ?? '?';
        const s = await Doc.getDocSummary(D, rid(i));
        E[i] = { r, f, k: e.kind, n, b: b, em: e.embeddingModel ?? '-', sum: s === null ? '-' : s.title, g: gen('e' + i, u) };
        if (s !== null && J(s) !== J(sum(s.title))) bad.push(`summary of ${i} is ${J(s)}`);
        if (e.language !== 'typescript' || e.indexedAt !== T0 || e.startLine !== 1) bad.push(`${i} is ${J(e)}`);
      }
      const known = [...live.keys()]; const is = (l: any[]) => sorted(l.map((e: any) => un(e.id))); const want = (p: (i: string) => boolean) => sorted(known.filter(p));
      const deep = (what: string, l: any[]) => { for (const e of l) must(`${what} ${un(e.id)}`, e, live.get(un(e.id))); };
      deep('getEntitiesByIds', await Ent.getEntitiesByIds(D, all.map(rid))); must('getEntitiesByIds', is(await Ent.getEntitiesByIds(D, all.map(rid))), want(() => true));
      must('entityIdsByU64s', sorted([...(await Ent.entityIdsByU64s([...num.values()])).values()].map(un)), want(() => true));
      const kinds = ['function', 'class', 'module'];
      for (const n of Object.keys(N)) {
        must(`findEntitiesByName ${n}`, is(await Ent.findEntitiesByName(D, [N[n]])), want(i => E[i].n === n));
        for (const k of kinds) must(`findEntitiesByName ${n} ${k}`, is(await Ent.findEntitiesByName(D, [N[n]], { kinds: [k] })), want(i => E[i].n === n && E[i].k === k));
        for (const r of Object.keys(P)) { must(`findEntitiesByName ${n} in ${r}`, is(await Ent.findEntitiesByName(D, [N[n]], { repo: P[r] })), want(i => E[i].n === n && E[i].r === r)); must(`findEntitiesByName ${n} in [${r}]`, is(await Ent.findEntitiesByName(D, [N[n]], { repos: [P[r]] })), want(i => E[i].n === n && E[i].r === r)); }
      }
      must('findEntitiesByName both', is(await Ent.findEntitiesByName(D, Object.values(N), { repos: Object.values(P) as any })), want(i => E[i].r !== 'mod'));
      for (const k of kinds) { const l = await Ent.listEntitiesByKind(D, k); deep('listEntitiesByKind', l); must(`listEntitiesByKind ${k}`, is(l), want(i => E[i].k === k)); for (const r of Object.keys(P)) must(`listEntitiesByKind ${k} ${r}`, is(await Ent.listEntitiesByKind(D, k, { repo: P[r] })), want(i => E[i].k === k && E[i].r === r)); }
      must('listEntitiesByKinds', is(await Ent.listEntitiesByKinds(D, kinds)), want(() => true));
      for (const r of Object.keys(P)) {
        const l = await Ent.listEntitiesForRepo(D, P[r]); deep('listEntitiesForRepo', l); must(`listEntitiesForRepo ${r}`, is(l), want(i => E[i].r === r));
        must(`listEntitiesByKinds ${r}`, is(await Ent.listEntitiesByKinds(D, kinds, { repo: P[r] })), want(i => E[i].r === r));
        must(`listUnembeddedEntities ${r}`, is(await Ent.listUnembeddedEntities(D, P[r])), want(i => E[i].r === r && E[i].em === '-'));
        for (const f of Object.keys(F)) { const x = await Ent.findEntitiesByFile(D, abs(r, f)); deep('findEntitiesByFile', x); must(`findEntitiesByFile ${r} ${f}`, is(x), want(i => E[i].r === r && E[i].f === f)); }
        const sums = want(i => E[i].r === r && E[i].sum !== '-');
        must(`summarised in ${r}`, sorted((await Doc.listDocSummaryEntityIdsForRepo(D, P[r])).map(un)), sums); must(`summaries of ${r}`, (await Doc.listDocSummariesForRepo(D, P[r])).length, sums === '' ? 0 : sums.split(' ').length);
        must(`summary count of ${r}`, await Doc.countDocSummariesForRepo(D, P[r]), sums === '' ? 0 : sums.split(' ').length);
        // pending references: listed as a whole and by file
        const pend = await Rel.listUnresolvedRelations(D, P[r]); const byFile: any[] = []; const files = new Set([...pend.map((x: any) => x.fromFile), ...Object.keys(F).map(f => abs(r, f))]); for (const f of files) for (const x of await Rel.listUnresolvedRelations(D, P[r], f)) { byFile.push(x); if (x.fromFile !== f) bad.push(`reference of ${x.fromFile} listed under ${f}`); }
        must(`references by file in ${r}`, sorted(byFile.map(x => x.id)), sorted(pend.map((x: any) => x.id)));
        for (const x of pend) { U.push({ r, a: un(x.fromEntity), k: x.kind, raw: x.rawTo.replace(/^raw:/, ''), f: Object.keys(F).find(f => abs(r, f) === x.fromFile) ?? `?${x.fromFile.slice(0, 20)}`, m: x.meta?.m }); if (x.repo !== P[r] || x.meta?.repo !== P[r] || x.meta?.file !== x.fromFile) bad.push(`reference ${J(x).slice(0, 200)}`); }
      }
      // edges: seen from both ends
      const kindsR = ['CALLS', 'DEFINES', 'IMPORTS', 'DEPENDS_ON']; const ins: any[] = []; const name = new Map([...num].map(([i, u]) => [u, i]));
      for (const [i, u] of num) {
        for (const k of kindsR) { for (const t of await Edg.outNeighbors(u, { kindFilter: [k] })) edges.push([i, k, name.get(t) ?? `?${t}`]); for (const t of await Edg.inNeighbors(u, { kindFilter: [k] })) ins.push([name.get(t) ?? `?${t}`, k, i]); }
      }
      must('incoming edges', ins.map(x => J(x)).sort(), edges.map(x => J(x)).sort());
      for (const [i, u] of num) {
        must(`outNeighbors of ${i}`, sorted((await Edg.outNeighbors(u)).map((t: bigint) => name.get(t) ?? '?')), sorted([...new Set<string>(edges.filter(e => e[0] === i).map(e => e[2]))]));
        must(`callers of ${i}`, is(await Sea.findCallers(D, rid(i))), sorted(edges.filter(e => e[1] === 'CALLS' && e[2] === i).map(e => e[0])));
        must(`callees of ${i}`, is(await Sea.findCallees(D, rid(i))), sorted(edges.filter(e => e[1] === 'CALLS' && e[0] === i).map(e => e[2])));
        for (const x of await Tra.transitiveClosure([u])) if (!name.has(x)) bad.push(`${i} reaches an entity that is gone`);
      }
      // semantic search: every embedded entity of the scope once, the nearest first, nothing else
      if (ctx.consts.vec) for (const scope of [['r1'], ['r2'], ['r1', 'r2']]) for (const filter of ['all', 'code', 'artifact', { kinds: ['function'] }] as any[]) for (const q of ['e1', 'e2']) {
        if (turn++ % 5 !== 0) continue; // a fifth of the questions after each step, in turn
        const there = known.filter(i => scope.includes(E[i].r) && E[i].em !== '-' && (filter === 'all' || (typeof filter === 'object' ? filter.kinds.includes(E[i].k) : (live.get(i).artifact === true) === (filter === 'artifact'))));
        const hits = await LV.searchEntityVecs(vec(q), scope.map(r => P[r]), 20, filter); const got = hits.map((h: any) => un(h.id)); const near = there.filter(i => E[i].em === q).length;
        must(`search ${q} ${J(filter)} in ${scope}`, sorted(got), sorted(there)); must('nearest first', sorted(got.slice(0, near)), sorted(there.filter(i => E[i].em === q)));
        if (typeof filter === 'string') { const l = await Sea.searchEntities(D, vec(q), scope.map(r => P[r]), 20, filter); must(`searchEntities ${q} ${filter} in ${scope}`, sorted(l.map((e: any) => un(e.id))), sorted(there)); deep('searchEntities', l); }
      }
      // nothing is left behind in any table
      const t = await dump(); for (const [tab, n] of Object.entries({ entity: known.length, entityStringByU64: known.length, entityIdByString: known.length, nameIndex: known.length, outEdge: edges.length, inEdge: edges.length, unresolved: U.length, unresolvedByFile: U.length, docSummary: known.filter(i => E[i].sum !== '-').length, docSummaryByRepo: known.filter(i => E[i].sum !== '-').length }))
        if (t[tab] && t[tab]!.length !== n) bad.push(`${t[tab]!.length} rows in ${tab} for ${n} things that exist`);
      return { R: Rs, E, edges, U, ...(bad.length ? { bad } : {}) };
    },
  };
}
