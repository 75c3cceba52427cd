import { settle } from '../lib/util.mts';
const R = process.env.VERIF_REPO ?? '/repo';
const reg = await import(`${R}/src/daemon/tools/registry.ts`), { executeTool } = await import(`${R}/src/daemon/tools/executor.ts`);
export default async function create(ctx: any) {
  const nm = (n: string) => (ctx.flavour % 3 === 1 ? ({ a: 'file:read', b: 'constructor', c: '__proto__', x: 'Read', y: 'toString', z: 'b' } as any)[n] : ctx.flavour % 3 === 2 ? `ns:${n}` : n);
  const back = (s: string) => ['a', 'b', 'c', 'x', 'y', 'z'].find(n => nm(n) === s) ?? s;
  let names: string[] = [], vers = new Map<any, number>(), calls = new Map<string, any>(), k = 0;
  const make = (id: string, v: number, als: string[]) => {
    let mine: any = null; // behaviour is carried by the input
    const t: any = {
      id: nm(id), description: 'd', inputSchema: {}, ...(als.length || k % 2 ? { aliases: als.map(nm) } : {}),
      requiresApproval: (input: any) => { if (input.gate === 'throws') throw new TypeError('bad input'); return input.gate === 'fn'; },
      execute(input: any, deps: any) {
        const out = (success: boolean) => ({ output: `${id}/${v}/${input.call}/${deps.requestId}`, format: 'text', success, ...(success ? {} : { error: 'reported' }) });
        switch (input.how) {
          case 'ok': return input.call === 'c2' ? out(true) : Promise.resolve(out(true));
          case 'report': return Promise.resolve(out(false));
          case 'throw': if (input.call === 'c2') throw new Error(`boom ${input.call}`); return Promise.reject(new Error(`boom ${input.call}`));
          case 'odd': if (input.call === 'c2') throw undefined; return Promise.reject('text');
          case 'later': return new Promise((res, rej) => { calls.get(input.call).fin = (how: string) => (how === 'ok' ? res(out(true)) : how === 'report' ? res(out(false)) : how === 'throw' ? rej(new Error(`boom ${input.call}`)) : rej(null)); });
        }
      },
    };
    void mine; k++; vers.set(t, v); return t;
  };
  const judge = (c: string, r: any) => {
    if (r.status === 'rejected') return { rejected: String(r.reason) };
    const o = r.value; if (typeof o !== 'object' || o === null || typeof o.output !== 'string' || typeof o.success !== 'boolean') return { malformed: o };
    const m = /^([^/]+)\/(\d+)\/([^/]+)\/(\d+)$/.exec(o.output);
    if (!m) return o.success || !o.error ? { success: o } : { ok: false, by: '-' };
    if (m[3] !== c || Number(m[4]) !== calls.get(c).req) return { answerOf: m[3], to: c };
    return { ok: o.success, by: [m[1], Number(m[2])] };
  };
  return {
    reset(init: any) { reg._resetRegistryForTests(); names = Object.keys(init.found); vers = new Map(); calls = new Map(); k = 0; },
    async step(a: any) {
      switch (a.name) {
        case 'Register': reg.registerTool(make(a.id, a.v, a.als)); return 'ok';
        case 'Alias': reg.registerToolAlias(nm(a.id), nm(a.n)); return 'ok';
        case 'Exec': {
          const t = reg.getTool(nm(a.n)); if (t) (t as any).requiresApproval = a.gate === 'no' ? (k % 2 ? undefined : false) : a.gate === 'yes' ? true : t.requiresApproval instanceof Function ? t.requiresApproval : (input: any) => { if (input.gate === 'throws') throw new TypeError('bad input'); return true; };
          const c: any = { req: ++k }; calls.set(a.c, c);
          let p: any; try { p = executeTool(nm(a.n), { call: a.c, how: a.how, gate: a.gate }, { sessionId: 's', repoPath: '/x', send() {}, requestId: c.req }); } catch (e) { return { threw: String(e) }; }
          c.p = Promise.resolve(p).then((value: any) => (c.r = { status: 'ok', value }), (reason: any) => (c.r = { status: 'rejected', reason }));
          await settle(); return c.r ? judge(a.c, c.r) : 'running';
        }
        case 'Finish': { const c = calls.get(a.c); if (c.r) return { early: c.r }; c.fin(a.how); await settle(); return c.r ? judge(a.c, c.r) : 'running'; }
      }
      throw new Error(a.name);
    },
    project() {
      const ids = reg.listTools(); const seen = new Set(ids.map((t: any) => t.id)); if (seen.size !== ids.length) return { duplicate: ids.map((t: any) => t.id) };
      return {
        found: Object.fromEntries(names.map(n => { const t = reg.getTool(nm(n)); return [n, t ? [back(t.id), vers.get(t)] : '-']; })), ids: ids.map((t: any) => back(t.id)),
        alias: Object.fromEntries([...reg.getAliases()].map(([p, q]: any) => [back(p), back(q)])), running: [...calls].filter(([, c]) => !c.r).map(([c]) => c),
      };
    },
    sets: ['ids', 'running'],
  };
}
