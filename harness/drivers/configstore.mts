// Drives src/config/{store,search}.ts against spec/ConfigStore.tla (C04).
import { mkdirSync, rmSync } from 'node:fs';
import { join } from 'node:path';
import { fresh, reopen, done } from '../lib/graph.mts';
import { same } from '../lib/util.mts';
const R = process.env.VERIF_REPO ?? '/repo';
const { ConfigStore } = await import(`${R}/src/config/store.ts`), { searchConfig, resolveTemplate } = await import(`${R}/src/config/search.ts`);
const LC = await import(`${R}/src/db/lance/conn.ts`), CV = await import(`${R}/src/db/lance/config-vec.ts`), Emb = await import(`${R}/src/indexer/embedder.ts`);
// scopes and namespaces that continue one another, quotes, ids that look like parts of a key
const SCOPES = [{ p: '/w/app', pq: '/w/app2' }, { p: "/w/o'brien", pq: "/w/o'brien/sub" }, { p: '/w/\u00e9', pq: '/w/\u00e9x' }] as any[];
const NS = [{ x: 'tester', xy: 'testerx' }, { x: 'common', xy: 'com' }, { x: 'designer', xy: 'design' }] as any[];
const T0 = Date.UTC(2026, 0, 1);
export default async function create(ctx: any) {
  const S = SCOPES[ctx.flavour % 3], N = NS[ctx.flavour % 3]; let store: any, dir: string | null = null, n = 0, saved: any = {}, turn = 0;
  const scope = (s: string) => (s === 'global' ? { kind: 'global' } : { kind: 'project', repoPath: S[s] });
  const key = (s: string) => (s === 'global' ? 'global' : `project:${S[s]}`);
  const unScope = (x: any) => (x.kind === 'global' ? 'global' : Object.keys(S).find(k => S[k] === x.repoPath) ?? x);
  const unNs = (x: string) => Object.keys(N).find(k => N[k] === x) ?? x;
  const rid = (i: string) => ['', 'global', '0'][ctx.flavour % 3] + i, un = (i: string) => i.slice(['', 'global', '0'][ctx.flavour % 3]!.length);
  const vec = (m: string): number[] => { if (m === '-') return []; const v = Array(Emb.EMBEDDING_DIM).fill(0); v[m === 'e1' ? 3 : 7] = 1; return v; };
  const lance = async () => { await LC.closeLanceConn(); CV._resetConfigVecCache(); if (dir) rmSync(dir, { recursive: true, force: true }); dir = join(ctx.scratch, `l${n++}`); mkdirSync(dir, { recursive: true }); LC.setLanceConnPath(dir); };
  const full = (i: string, e: any) => ({ id: rid(i), scope: scope(e.scope), namespace: N[e.ns], category: e.cat, language: e.shape.lang, name: e.shape.name, filePath: `/f/${i}`, body: `body ${JSON.stringify(e)}`, tags: e.shape.name === 'n1' ? [] : ['t', 'u'], updatedAt: new Date(T0 + (turn++) * 1000).toISOString(), contentHash: `h${turn}`, embedding: vec(e.em) });
  return {
    async reset() { await fresh(ctx.scratch); if (ctx.consts.vec) await lance(); else if (!dir) await lance(); store = new ConfigStore(undefined); saved = {}; turn = 0; },
    async step(a: any) {
      switch (a.name) {
        case 'Save': { const f = full(a.i, a.e); await store.upsertEntry(f); saved[a.i] = { f, em: a.e.em }; return 'ok'; }
        case 'Delete': await store.deleteEntry(rid(a.i)); delete saved[a.i]; return 'ok';
        case 'Clear': await store.deleteByScope(key(a.s)); return 'ok';
        case 'Reopen': await reopen(); return 'ok';
        case 'Resolve': { const r = await resolveTemplate(store, [], { name: a.n, namespace: N[a.ns], language: a.l, ...(a.s === 'global' ? {} : { repoPath: S[a.s] }) }); return r === null ? '-' : un(r.id); }
      }
      throw new Error(a.name);
    },
    async project() {
      const E: any = {};
      for (const i of ['i1', 'i2', 'i3', 'i4']) {
        const e = await store.getEntry(rid(i)); if (e === null) continue;
        const want = saved[i] && { ...saved[i].f, embedding: [] };
        if (!want || !same(e, want)) return { entry: e, saved: want };
        E[i] = { scope: unScope(e.scope), ns: unNs(e.namespace), cat: e.category, shape: { name: e.name, lang: e.language }, em: saved[i].em };
      }
      const lists: any[] = [], scopes = ['-', 'global', 'p', 'pq'], found: any[] = [];
      for (const s of scopes) for (const ns of ['-', 'x', 'xy']) for (const c of ['-', 'template', 'feedback', 'convention']) {
        const l = await store.listEntries({ ...(s === '-' ? {} : { scope: key(s) }), ...(ns === '-' ? {} : { namespace: N[ns] }), ...(c === '-' ? {} : { category: c }) });
        const ids = l.map((e: any) => un(e.id)); if (new Set(ids).size !== ids.length) return { twice: ids, in: [s, ns, c] };
        for (const e of l) { if (!same(e, await store.getEntry(e.id))) return { listed: e }; lists.push([s, ns, c, un(e.id)]); }
      }
      if (ctx.consts.vec) for (const s of scopes) for (const q of ['e1', 'e2']) {
        const l = await searchConfig(store, vec(q), { query: q, limit: 20, ...(s === '-' ? {} : { scope: scope(s) }) });
        const ids = l.map((r: any) => un(r.entry.id)); if (new Set(ids).size !== ids.length) return { foundTwice: ids, in: s };
        for (let k = 1; k < l.length; k++) if (l[k].score > l[k - 1].score) return { unranked: l.map((r: any) => [r.entry.id, r.score]) };
        for (const r of l) { if (!same(r.entry, await store.getEntry(r.entry.id))) return { found: r.entry }; found.push([s, q, un(r.entry.id), r.score > 0.5]); }
      }
      return { E, lists, found };
    },
    sets: ['lists', 'found'],
    async close() { await done(); await LC.closeLanceConn(); if (dir) rmSync(dir, { recursive: true, force: true }); },
  };
}
