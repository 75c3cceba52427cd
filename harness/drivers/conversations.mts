// Drives src/db/conversations.ts against spec/Conversations.tla (S01).
import { mkdirSync, rmSync } from 'node:fs';
import { join } from 'node:path';
import { fresh, reopen, done } from '../lib/graph.mts';
import * as clock from '../lib/clock.mts';
const R = process.env.VERIF_REPO ?? '/repo';
const C = await import(`${R}/src/db/conversations.ts`), LC = await import(`${R}/src/db/lance/conn.ts`);
const TV = await import(`${R}/src/db/lance/turn-vec.ts`), SV = await import(`${R}/src/db/lance/session-vec.ts`), RV = await import(`${R}/src/db/lance/response-segment-vec.ts`), Emb = await import(`${R}/src/indexer/embedder.ts`);
// names that continue one another, that look like turn ids, with quotes
const SID = [{ s1: 's', s2: 's1', s3: 's1:1', s4: 't' }, { s1: "o'x", s2: "o'x'", s3: '\u00e9', s4: '\u00e9\u00e9' }, { s1: 'a:1', s2: 'a', s3: 'a:1:0', s4: 'b' }] as any[];
const REPO = [{ ra: '/w/app', rb: '/w/app2' }, { ra: "/w/o'brien", rb: "/w/o'brien/sub" }, { ra: '/w/\u00e9', rb: '/w' }] as any[];
const IDX = [[0, 1, 2], [0, 255, 256], [2, 10, 70000]]; const DAY = 86_400_000, SIDS = ['s1', 's2', 's3', 's4'], REPOS = ['ra', 'rb'];
export default async function create(ctx: any) {
  const f = ctx.flavour % 3, S = SID[f], P = REPO[f], I = IDX[f]!; let dir: string | null = null, uses = 0, n = 0, t = 0, crowds: string[] = [];
  const unS = (x: string) => SIDS.find(k => S[k] === x) ?? x, unP = (x: string) => REPOS.find(k => P[k] === x) ?? x, unI = (i: number) => { const k = I.indexOf(i); return k < 0 ? `?${i}` : k; };
  const vec = (at: number) => { const v = Array(Emb.EMBEDDING_DIM).fill(0); v[at] = 1; return v; };
  const lance = async () => { await LC.closeLanceConn(); TV._resetTurnVecCache(); SV._resetSessionVecCache(); RV._resetResponseSegmentVecCache(); if (dir) rmSync(dir, { recursive: true, force: true }); dir = join(ctx.scratch, `l${n++}`); mkdirSync(dir, { recursive: true }); LC.setLanceConnPath(dir); };
  const home = (s: string) => P[['s1', 's2', 'ca'].includes(s) ? 'ra' : 'rb'];
  // every saved text carries what has to come back with it
  const turn = (s: string, i: number, r: string, v: string, wantVec: boolean, more: any = {}) => {
    const at = new Date(clock.get()).toISOString();
    return { sessionId: S[s], idx: I[i]!, user: `${v}|${at}`, assistant: `re ${v}|${at}`, entities: ['x', at], vector: wantVec ? vec(3) : [], repo: P[r], format: 'markdown', ...(v === 'v2' ? { assertionRefs: [at] } : {}), ...more };
  };
  const shape = (x: any) => {
    const [v, at] = x.user.split('|'); const bad = { turn: x };
    if (x.assistant !== `re ${x.user}` || x.entities.join() !== `x,${at}` || x.createdAt !== at || x.format !== 'markdown' || JSON.stringify(x.assertionRefs ?? []) !== JSON.stringify(v === 'v2' ? [at] : [])) return bad;
    return [unS(x.sessionId), unI(x.idx), unP(x.repo), v, x.type, x.tier];
  };
  const key = (x: any) => JSON.stringify(x);
  return {
    async reset() { await fresh(ctx.scratch); if (ctx.consts.vec || !dir || uses++ % 10 === 9) await lance(); t = 0; crowds = []; clock.install(Date.UTC(2026, 0, 1)); },
    async step(a: any) {
      clock.advance(1000); const s = S[a.s];
      switch (a.name) {
        case 'SaveTurn': await C.saveTurn(undefined, turn(a.s, a.i, a.r, a.v, a.vec, a.v === 'v3' ? { createdAt: new Date(clock.get()).toISOString(), type: 'nonsense' } : {})); return 'ok';
        case 'Compacted': await C.addCompactedTurns(undefined, [turn(a.s, a.i, a.r, a.v, a.vec, { type: a.type, tier: a.tier }), turn(a.s2, a.i2, a.r, a.v, a.vec2, a.type === 'merged' ? {} : { type: a.type, tier: a.tier })]); return 'ok';
        case 'SaveSession': await C.saveSession(undefined, { id: s, repo: home(a.s), summary: a.v, ...(a.ag === '-' ? {} : { agent: a.ag }), ...(a.st === '-' ? {} : { status: a.st }) }, a.vec ? vec(5) : undefined); return 'ok';
        case 'Close': await C.closeSession(undefined, { id: s, repo: home(a.s), summary: a.v, seenEntities: ['e1', a.v] }, a.vec ? vec(5) : []); return 'ok';
        case 'SetAgent': await C.setSessionAgent(undefined, s, a.x, `k-${a.x}`); return 'ok';
        case 'SetStatus': await C.setSessionStatus(undefined, s, a.x); return 'ok';
        case 'Bump': await C.bumpSessionActivity(undefined, s); return 'ok';
        case 'DelSession': { const r = await C.deleteSession(undefined, s); return [r.sessionRows, r.turnRows]; }
        case 'DelTurns': await C.deleteTurnsForSession(undefined, s); return 'ok';
        case 'DelRecord': await C.deleteSessionRecord(undefined, s); return 'ok';
        case 'DelIds': await C.deleteTurnsByIds(undefined, ['nothing', 'gone:7', ...a.ids.map((k: any) => `${S[k[0]]}:${I[k[1]]}`)]); return 'ok';
        case 'Forget': await C.deleteSessionsForRepo(undefined, P[a.r]); return 'ok';
        case 'DelTurnsRepo': await C.deleteTurnsForRepo(undefined, P[a.r]); return 'ok';
        case 'Tick': clock.advance(16 * DAY); return 'ok';
        case 'Crowd': for (let k = 0; k < a.n; k++) { clock.advance(1); await C.saveSession(undefined, { id: `zz${a.r}${k}`, repo: P[a.r], summary: 'filler' }, ctx.consts.vec && k < 4 ? vec(5) : undefined); } return 'ok';
        case 'Prune': { const r = await C.pruneConversations(undefined); return [r.expired, r.capped]; }
        case 'Reopen': await reopen(); return 'ok';
      }
      throw new Error(a.name);
    },
    async project() {
      const all = (await C.getAllTurns(undefined)).map(shape), filler = (x: any) => x.id.startsWith('zz');
      const sess: any = {}, shown: any = {}, crowds: any = {}, byAge: any = {}, byUse: any = {}, seeds: any = {}, open: string[] = [], found: any[] = [];
      const rec = (x: any) => {
        const left = Date.parse(x.expiresAt) - clock.get(); if (x.createdAt > new Date(clock.get()).toISOString()) return { when: x };
        return { repo: unP(x.repo), sum: x.summary, agent: x.agent, cat: x.category === '' ? '-' : x.category, status: x.status, seen: x.seenEntities, ttl: left <= 0 ? 0 : Math.ceil(left / (16 * DAY)) };
      };
      for (const s of SIDS) {
        const x = await C.getSessionById(undefined, S[s]); if (x !== null) sess[s] = rec(x);
        const l = await C.getTurnsForSession(undefined, S[s]); shown[s] = l.map((y: any) => unI(y.idx));
        for (const y of l) if (!all.some((z: any) => key(z) === key(shape(y)))) return { strange: y };
      }
      if (new Set(all.map((x: any) => key(x.slice?.(0, 2) ?? x))).size !== all.length) return { twice: all };
      const st = await C.getConversationStats(undefined); if (st.totalTurns !== all.length) return { stats: st };
      for (const r of REPOS) {
        const mine = (await C.getAllTurnsForRepo(undefined, P[r])).map(shape), want = all.filter((x: any) => x[2] === r);
        if (key(mine.map(key).sort()) !== key(want.map(key).sort())) return { repo: r, mine, want };
        const rs = await C.getConversationStats(undefined, P[r]), list = await C.listSessions(undefined, P[r]), recs = await C.listSessionRecords(undefined, { repo: P[r] });
        const count = (k: number) => { const o: any = {}; for (const x of want) o[x[k]] = (o[x[k]] ?? 0) + 1; return o; };
        if (rs.totalTurns !== want.length || rs.sessions !== list.length || key(Object.entries(rs.byType).sort()) !== key(Object.entries(count(4)).sort()) || key(Object.entries(rs.byTier).sort()) !== key(Object.entries(count(5)).sort()) || (rs.byRepo[P[r]] ?? 0) !== want.length) return { stats: rs, want };
        crowds[r] = list.filter(filler).length; byAge[r] = list.filter((x: any) => !filler(x)).map((x: any) => unS(x.id));
        if (recs.length !== list.length) return { records: recs.length, listed: list.length };
        byUse[r] = recs.filter((x: any) => !filler(x)).map((x: any) => unS(x.id));
        for (const x of recs) if (!filler(x) && key(rec(x)) !== key(sess[unS(x.id)])) return { record: rec(x) };
        seeds[r] = [];
        if (ctx.consts.vec) {
          const hits = await C.searchTurnsByRepo(undefined, P[r], vec(3), 50); for (const h of hits) { const x = shape(h); if (!all.some((z: any) => key(z) === key(x))) return { hit: h }; found.push([r, x[0], x[1]]); if (x[2] !== r) return { foreign: h }; }
          const sd = await C.seedFromPrior(undefined, P[r], vec(5), 50), one = await C.seedFromPrior(undefined, P[r], vec(5), 1);
          seeds[r] = sd.filter((x: any) => !filler(x)).map((x: any) => unS(x.id)); for (const x of sd) if (!filler(x) && key(rec(x)) !== key(sess[unS(x.id)])) return { seed: x };
          if (one.length !== Math.min(1, sd.length)) return { limited: one.length, of: sd.length };
        }
      }
      if ((await C.listSessions(undefined)).length !== crowds.ra + crowds.rb + Object.keys(sess).length || st.sessions !== crowds.ra + crowds.rb + Object.keys(sess).length) return { sessions: st.sessions };
      for (const x of await C.listSessionRecords(undefined, { statuses: ['active'] })) if (!filler(x)) open.push(unS(x.id));
      return { sess, crowds, turns: all, shown, byAge, byUse, open, found, seeds };
    },
    sets: ['turns', 'open', 'found'],
    async close() { clock.uninstall(); await done(); await LC.closeLanceConn(); if (dir) rmSync(dir, { recursive: true, force: true }); },
  };
}
