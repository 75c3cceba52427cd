// Drives src/db/exploration-cache.ts against spec/ExploreCache.tla (S03).
import { mkdirSync } from 'node:fs';
import { join } from 'node:path';
import { fresh, reopen, done } from '../lib/graph.mts';
import { rngFrom } from '../lib/util.mts';
const R = process.env.VERIF_REPO ?? '/repo';
const Rep = await import(`${R}/src/db/repos.ts`), Ent = await import(`${R}/src/db/entities.ts`), C = await import(`${R}/src/db/exploration-cache.ts`);
// questions that are close to one another; each group holds pairwise different ones
const J = (s: string) => JSON.parse(s), t = (type: string, p: string) => ({ type, params: J(p) });
const GROUPS: any[][] = [
  [t('search.text', '{"a":1,"b":2}'), t('search.text', '{"a":1,"b":"2"}'), t('search.text', '{"a":1}'), t('symbol.locate', '{"a":1,"b":2}'), t('search.text', '{"a":2,"b":1}'), t('search.text', '{"b":2}')],
  [t('search.text', '{"l":[1,2]}'), t('search.text', '{"l":[2,1]}'), t('search.text', '{"l":[[1],2]}'), t('search.text', '{"l":"1,2"}'), t('search.text', '{"l":{"0":1,"1":2}}'), t('search.text', '{"l":[1,2,null]}')],
  [t('search.text', '{"x":{"y":{"z":"q","w":true}}}'), t('search.text', '{"x":{"y":{"z":"q"},"w":true}}'), t('search.text', '{"x.y.z":"q","w":true}'), t('search.text', '{"x":{"y":{"z":"Q","w":true}}}'), t('search.text', '{"x":{"y":{"z":"q","w":"true"}}}'), t('search.text', '{"x":{"y":{"z":"q ","w":true}}}')],
  [t('search.text', '{"n":null}'), t('search.text', '{}'), t('search.text', '{"n":{}}'), t('search.text', '{"n":[]}'), t('search.text', '{"n":""}'), t('search.text', '{"n":0}')],
  [t('search.text', '{"__proto__":{"a":1}}'), t('search.text', '{"__proto__":{"a":2}}'), t('search.text', '{"constructor":1}'), t('search.text', '{"toString":1}'), t('search.text', '{"a":{"__proto__":1}}'), t('search.text', '{"a":{}}')],
  [t('search.text', '{"\u00e9":1}'), t('search.text', '{"e\u0301":1}'), t('search.text', '{"":1}'), t('search.text', '{" ":1}'), t('search.text', '{"k":"a\\u0000b"}'), t('search.text', '{"k":"a"}')],
  [t('search.text', '{"f":1.5,"l":[{"a":1,"b":[{"d":1,"c":2}]}]}'), t('search.text', '{"f":1.5,"l":[{"a":1,"b":[{"c":1,"d":2}]}]}'), t('search.text', '{"f":1.5,"l":[{"a":1},{"b":[{"d":1,"c":2}]}]}'), t('search.text', '{"f":-1.5,"l":[{"a":1,"b":[{"d":1,"c":2}]}]}'), t('search.text', '{"f":15,"l":[{"a":1,"b":[{"d":1,"c":2}]}]}'), t('search.text', '{"f":1.5,"l":{"a":1,"b":[{"d":1,"c":2}]}}')],
];
const GENS = [[0n, 1n, 256n], [1767225600000n, 1767225600001n, 1767225600256n], [5n, (1n << 32n) + 5n, (1n << 40n) + 5n]];
export default async function create(ctx: any) {
  const rng = rngFrom(ctx.seed); let root = '', n = 0, g: any[] = GROUPS[0]!, known: string[] = [];
  const path = (r: string) => join(root, r === 'ra' ? 'app' : r === 'rb' ? 'app2' : 'app/sub');
  // the same question, its keys in another order
  const shuffle = (v: any): any => {
    if (v === null || typeof v !== 'object') return v; if (Array.isArray(v)) return v.map(shuffle);
    const ks = Object.keys(v); for (let i = ks.length - 1; i > 0; i--) { const j = Math.floor(rng() * (i + 1)); [ks[i], ks[j]] = [ks[j]!, ks[i]!]; }
    const o: any = {}; for (const k of ks) Object.defineProperty(o, k, { value: shuffle(v[k]), enumerable: true, configurable: true, writable: true }); return o;
  };
  const ask = (q: string) => { const e = g[Number(q.slice(1)) - 1]; return { id: `e${Math.floor(rng() * 9)}`, type: e.type, params: shuffle(e.params), purpose: rng() < 0.5 ? 'p' : 'other' }; };
  const gen = (k: number) => GENS[n % 3]![k - 1]!;
  const add = async (r: string) => { known.push(r); await Rep.addRepo(undefined, { kind: 'workspace', path: path(r), name: r, addedAt: '2026-01-01T00:00:00.000Z', status: 'ready' }); };
  return {
    async reset() { n++; g = GROUPS[(n + ctx.flavour) % GROUPS.length]!; root = await fresh(ctx.scratch); known = []; for (const r of ['ra', 'rb', 'rc']) mkdirSync(path(r), { recursive: true }); await add('ra'); },
    async step(a: any) {
      switch (a.name) {
        case 'Put': await C.putCachedExploration(path(a.r), gen(a.g), ask(a.q), { type: 'search.text', v: a.v, hits: [{ path: a.v }] } as any); return 'ok';
        case 'Drop': await C.deleteCachedExplorationsForRepo(path(a.r)); return 'ok';
        case 'Add': await add(a.r); return 'ok';
        case 'RemoveRepo': known = known.filter(x => x !== a.r); await Rep.removeRepo(undefined, path(a.r)); return 'ok';
        case 'Reopen': await reopen(); return 'ok';
      }
      throw new Error(a.name);
    },
    async project() {
      const hits: any[] = [];
      for (const r of ['ra', 'rb', 'rc']) for (let k = 1; k <= 3; k++) for (let q = 1; q <= 6; q++) {
        const o: any = await C.getCachedExploration(path(r), gen(k), ask(`q${q}`) as any); if (o !== null) hits.push([r, k, `q${q}`, o.type === 'search.text' && o.hits[0].path === o.v ? o.v : o]);
      }
      return { hits };
    },
    sets: ['hits'],
    close: done,
  };
}
