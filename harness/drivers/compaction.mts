// Drives src/db/compaction.ts against spec/Compaction.tla (S02).
import { mkdirSync, rmSync } from 'node:fs';
import { join } from 'node:path';
import { fresh, done, store } from '../lib/graph.mts';
import * as clock from '../lib/clock.mts';
const R = process.env.VERIF_REPO ?? '/repo';
const C = await import(`${R}/src/db/conversations.ts`), K = await import(`${R}/src/db/compaction.ts`), LC = await import(`${R}/src/db/lance/conn.ts`);
const TV = await import(`${R}/src/db/lance/turn-vec.ts`), SV = await import(`${R}/src/db/lance/session-vec.ts`), RV = await import(`${R}/src/db/lance/response-segment-vec.ts`), Emb = await import(`${R}/src/indexer/embedder.ts`);
const DAY = 86_400_000, CELLS = ['s1.0', 's1.1', 's1.2', 's2.0', 's2.1', 's3.0'];
const w = (c: string) => c.replace('.', '');
const RULE = [(c: string) => `always keep ${w(c)} in mind`, (c: string) => `never put .${w(c)} files under v1.2`, (c: string) => `From now on ${w(c)}() comes before ${w(c)}.next`];
const WORD = [(c: string) => `what does ${w(c)} do?`, (c: string) => `show ${w(c)}`, (c: string) => `rename ${w(c)} and run it`];
const LONG = 'z'.repeat(640), SHORT = ['It does.', 'noted', 'ok then'];
export default async function create(ctx: any) {
  const f = ctx.flavour % 3, rule = RULE[f]!, word = WORD[f]!; let dir: string | null = null, n = 0, made = 0, vecs: any = {}, tag = '';
  const repoOf = (r: string) => `/w/${r}${tag}`, IDX = f === 1 ? [3, 9, 10] : [0, 1, 2];
  const sid = (c: string) => `${c.slice(0, 2)}${tag}`, idx = (c: string) => IDX[+c[3]!]!, cellOf = (s: string, i: number) => CELLS.find(c => sid(c) === s && idx(c) === i) ?? `${s}:${i}`;
  const vec = (v: number[]) => { if (!v[0] && !v[1]) return []; const x = Array(Emb.EMBEDDING_DIM).fill(0); x[3] = v[0]; x[4] = v[1]; return x; };
  const lance = async () => { await LC.closeLanceConn(); TV._resetTurnVecCache(); SV._resetSessionVecCache(); RV._resetResponseSegmentVecCache(); if (dir) rmSync(dir, { recursive: true, force: true }); dir = join(ctx.scratch, `l${n++}`); mkdirSync(dir, { recursive: true }); LC.setLanceConnPath(dir); };
  const embed = async (text: string) => {
    const c = CELLS.find(x => text.includes(rule(x)) || text.includes(word(x))), v = vec(vecs[c ?? ''] ?? [0, 0]);
    if (v.length === 0 && f === 1) throw new Error('no embeddings today'); return v;
  };
  const save = async (c: string, r: string, x: any) => {
    clock.advance(1000); vecs[c] = x.vec;
    await C.saveTurn(undefined, { sessionId: sid(c), idx: idx(c), user: (x.d ? rule : word)(c) + (x.d && f === 0 ? '.' : ''), assistant: x.asst === 'long' ? LONG : SHORT[f]!, entities: [c], vector: vec(x.vec), repo: repoOf(r), format: 'markdown' });
  };
  const run = (a: any) => K.compactConversations(undefined, embed, { ...(a.r === 'all' ? {} : { repo: repoOf(a.r) }), ...(a.mt === undefined || a.mt === 500 ? {} : { maxTurnsPerRepo: a.mt }), ...(a.md === undefined || a.md === 50 ? {} : { maxDirectivesPerRepo: a.md }), ...(a.dry ? { dryRun: true } : {}) });
  const ratio = (v: number[]) => {
    if (v.length === 0) return [0, 0]; const a = v[3]!, b = v[4]!; if (v.some((x, i) => i !== 3 && i !== 4 && x !== 0)) return ['?'];
    for (let q = 0; q <= 24; q++) for (let p = 0; p <= 24; p++) { if ((p || q) && Math.abs(a * q - b * p) < 1e-5 * Math.hypot(a, b) * Math.hypot(p, q) && (p === 0) === (Math.abs(a) < 1e-6) && (q === 0) === (Math.abs(b) < 1e-6)) { const g = (x: number, y: number): number => y ? g(y, x % y) : x, k = g(p, q); return [p / k, q / k]; } }
    return [a, b];
  };
  return {
    async reset() { await fresh(ctx.scratch); if (!dir || made % 25 === 24) await lance(); tag = `-${made++}`; vecs = {}; clock.install(Date.UTC(2026, 0, 1)); },
    async step(a: any) {
      clock.advance(1000);
      switch (a.name) {
        case 'Fill': {
          const start = clock.get(); await save('s3.0', 'rb', { d: false, asst: 'short', vec: [1, 0] }); // 100 days ago
          for (const x of a.f) { const at = start + (100 - x.age) * DAY; if (at > clock.get()) clock.advance(at - clock.get()); await save(x.c, 'ra', x); }
          const end = start + 100 * DAY + 3600_000; clock.advance(end - clock.get()); return 'ok';
        }
        case 'Save': await save(a.c, a.r, a); return 'ok';
        case 'Compact': await run(a); return 'ok';
        case 'Crash': {
          const root = (await store.getGraphStore()).root, real = root.childTransaction; let c = 0;
          root.childTransaction = function (...x: any[]) { if (++c >= a.n) return Promise.reject(new Error('process is gone')); return real.apply(this, x); };
          try { await run(a); } catch {} finally { delete root.childTransaction; } return 'ok';
        }
        case 'Tick': clock.advance(a.n * DAY); return 'ok';
      }
      throw new Error(a.name);
    },
    async project() {
      const turns: any = {};
      for (const r of ['ra', 'rb']) for (const t of await C.getAllTurnsWithVectorsForRepo(undefined, repoOf(r))) {
        const c = cellOf(t.sessionId, t.idx), said = `${t.user}\n${t.assistant}`; if (turns[c]) return { twice: c };
        const words = CELLS.filter(x => said.includes(t.type === 'directive' ? rule(x) : word(x)) || (t.type === 'turn' && said.includes(rule(x))));
        const asst = t.type === 'summary' ? 'sum' : t.assistant === '' ? 'none' : t.assistant === LONG ? 'long' : t.assistant === LONG.slice(0, 500) ? 'cut' : t.assistant === SHORT[f] ? 'short' : t.assistant;
        const ents = [...t.entities].sort().join(), days = Math.floor((clock.get() - Date.parse(t.createdAt)) / DAY);
        if (ents !== words.join()) return { entities: t };
        turns[c] = { repo: r, type: t.type, tier: t.tier, words, asst, age: Math.min(120, days), vec: ratio(t.vector) };
      }
      const all = await C.getAllTurns(undefined); if (all.length !== Object.keys(turns).length) return { all };
      return { turns };
    },
    async close() { clock.uninstall(); await done(); await LC.closeLanceConn(); if (dir) rmSync(dir, { recursive: true, force: true }); },
  };
}
