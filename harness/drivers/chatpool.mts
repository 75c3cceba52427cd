import * as clock from '../lib/clock.mts';
import { settle } from '../lib/util.mts';
import { fresh, done } from '../lib/graph.mts';
const R = process.env.VERIF_REPO ?? '/repo';
const T0 = Date.UTC(2026, 0, 5, 9), TICK = 30 * 60_000 - 1000;
// the pool's timers are held, so that the driver decides when cleanup runs
let timers = new Map<number, () => void>(), n = 0;
const hold = (f: any) => { const id = ++n; timers.set(id, f); return { id, unref() { return this; }, ref() { return this; }, hasRef: () => false, [Symbol.toPrimitive]: () => id } as any; };
const release = (h: any) => { if (h && typeof h === 'object' && 'id' in h) timers.delete(h.id); };
const { ChatSessionPool } = await import(`${R}/src/daemon/chat-sessions.ts`);
const { ChatSession } = await import(`${R}/src/daemon/session.ts`);
const { getSessionById, deleteSession } = await import(`${R}/src/db/conversations.ts`);
let closes: string[] = []; const orig = ChatSession.prototype.close;
ChatSession.prototype.close = async function (this: any) { closes.push(this.id); await settle(1); return orig.call(this); };
const realSet = globalThis.setInterval, realClear = globalThis.clearInterval;
export default async function create(ctx: any) {
  let pool: any, ids: Record<string, string> = {}, back: Record<string, string> = {}, bad: any;
  const repos: Record<string, string> = [{ a: '/srv/app', b: '/srv/app/lib' }, { a: '/опт/a', b: '/опт/b' }, { a: '/x', b: '/xy' }][ctx.flavour % 3]!;
  const repoName = (p: string) => Object.keys(repos).find(k => repos[k] === p) ?? p;
  const start = () => { timers.clear(); (globalThis as any).setInterval = hold; try { pool = new ChatSessionPool(); } finally { globalThis.setInterval = realSet; } };
  const dispose = async () => { (globalThis as any).clearInterval = release; try { await pool.dispose(); } finally { globalThis.clearInterval = realClear; } if (timers.size) bad = 'cleanup still scheduled after dispose'; };
  const info = (x: any) => (x === null ? '-' : { repo: repoName(x.repo), age: age(x.idleSeconds) });
  const age = (s: number) => { const k = Math.floor(s / (TICK / 1000)); if (s - k * (TICK / 1000) > 1) return { idleSeconds: s }; return Math.min(2, k); };
  const ask = (op: string, i: string): Promise<any> | any => {
    const id = ids[i]!;
    switch (op) {
      case 'get': { const s = pool.get(id); if (s === undefined) return false; return s.id === id && s.session.id === id ? true : { got: s.id }; }
      case 'status': return info(pool.status(id));
      case 'close': return pool.close(id);
      case 'restore': return pool.restore(id).then((r: any) => (r === null ? false : r === id ? true : { got: r }));
      case 'cleanup': for (const f of [...timers.values()]) f(); return true;
      case 'dispose': return dispose().then(() => true);
    }
    throw new Error(op);
  };
  return {
    async reset() { clock.install(T0); await fresh(ctx.scratch); start(); ids = {}; back = {}; bad = undefined; closes = []; },
    async step(a: any) {
      clock.advance(1); closes = [];
      const res = await (async () => {
        switch (a.name) {
          case 'Create': { const id = await pool.create(repos[a.repo]!); const k = Object.keys(ids).length + 1; if (back[id]) return { reused: id }; ids[`s${k}`] = id; back[id] = `s${k}`; return `s${k}`; }
          case 'One': return await ask(a.op, a.i);
          case 'Status': return ask('status', a.i);
          case 'Pair': { const p = [ask(a.a, a.i), ask(a.b, a.j)]; const r = await Promise.all(p); if (a.a === 'dispose') { await settle(3); start(); } return r; }
          case 'Purge': pool.drop(ids[a.i]); await deleteSession({}, ids[a.i]); return 'ok';
          case 'Drop': pool.drop(ids[a.i]); return 'ok';
          case 'Tick': clock.advance(TICK - 1); return 'ok';
          case 'Restart': await dispose(); start(); return 'ok';
        }
        throw new Error(a.name);
      })();
      await settle(4);
      return res;
    },
    async project() {
      if (bad) return { bad };
      const live: any = {}; for (const s of pool.list()) { const k = back[s.id] ?? s.id; if (live[k]) return { twice: k }; live[k] = info(s); }
      for (const [k, id] of Object.entries(ids)) { const st = info(pool.status(id)); if (JSON.stringify(st) !== JSON.stringify(live[k] ?? '-')) return { list: live, status: { [k]: st } }; }
      const rows: any = {}; for (const [k, id] of Object.entries(ids)) { const r = await getSessionById({}, id); if (r) rows[k] = repoName(r.repo); }
      const closed: any = {}; for (const id of closes) closed[back[id] ?? id] = (closed[back[id] ?? id] ?? 0) + 1;
      return { live, rows, closed };
    },
    async close() { await done(); },
  };
}
