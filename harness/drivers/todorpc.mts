// Drives the todos.* request handlers (src/daemon/todos-rpc.ts) against spec/TodoRpc.tla (T03).
import { fresh, done } from '../lib/graph.mts';
import * as clock from '../lib/clock.mts';
const R = process.env.VERIF_REPO ?? '/repo';
const rpc = await import(`${R}/src/daemon/todos-rpc.ts`);
const T = await import(`${R}/src/db/todos.ts`);
const UNIT = 45 * 86400000; const BASE = Date.parse('2026-03-01T00:00:00.000Z');
const SES = [(s: string) => s, (s: string) => ({ s1: 'sess', s2: 'sess-2' }[s] ?? s), (s: string) => ({ s1: 'é/1', s2: 'é' }[s] ?? s)];
const BIG = 'é'.repeat(20000);
export default async function create(ctx: any) {
  const D: any = undefined; const ses = SES[ctx.flavour % 3]!;
  let L: string[][] = []; let fwd = new Map<string, string>(), back = new Map<string, string>(); let events: any[] = []; let off: any = null; let bad: string[] = []; let born: string[] = []; let tiny = 0;
  const bind = (n: string, id: string) => { fwd.set(n, id); back.set(id, n); };
  const id = (n: string) => n === 'ghost' ? 'f'.repeat(32) : fwd.get(n) ?? `never-${n}`;
  const un = (v: any) => v === undefined || v === '' ? '-' : back.get(v) ?? `?${v}`;
  const unS = (v: string) => ['s1', 's2'].find(s => ses(s) === v) ?? `?${v}`;
  const filler = (x: any) => x.title === 'filler';
  const view = (l: any) => ({ s: unS(l.sessionId), par: un(l.parentListId), own: l.owner, src: l.source, st: l.status, tr: l.transfers.length, upd: Math.floor((Date.parse(l.updatedAt) - BASE) / UNIT), title: l.title, fl: l.items.filter(filler).length,
    its: l.items.filter((x: any) => !filler(x)).map((x: any) => ({ i: un(x.id), st: x.status, why: x.blockedReason ?? '-', cs: (x.comments ?? []).map((c: any) => ({ c: un(c.id), by: c.author, body: c.body, ack: c.agentAcknowledged === true })) })) });
  const who = (c: string) => c === '-' ? {} : { caller: c };
  let day = 0;
  return {
    close: async () => { off?.(); clock.uninstall(); await done(); },
    async reset(init: any) {
      off?.(); await fresh(ctx.scratch); day = 0; clock.install(BASE); fwd = new Map(); back = new Map(); events = []; bad = []; born = []; tiny = 0;
      const Ls = Array.isArray(init.L) ? {} : init.L;
      for (const l of Object.keys(Ls)) { clock.set(BASE + ++tiny);
        const x = Ls[l]; const r = await rpc.create(D, { caller: x.own, owner: x.own, sessionId: ses(x.s), title: x.title, items: x.its.map((y: any) => ({ title: y.i })) });
        if (r.error) throw new Error(JSON.stringify(r)); bind(l, r.id); born.push(l); r.items.forEach((y: any, n: number) => bind(x.its[n].i, y.id));
      }
      off = rpc.subscribeToTodosBus((e: any) => events.push(JSON.parse(JSON.stringify(e))));
    },
    async step(a: any) {
      events = [];
      // every call happens at its own millisecond of the day; the sweeps measure ages in whole days
      clock.set(BASE + day * UNIT + (a.name === 'Cleanup' || a.name === 'Retention' ? 0 : ++tiny));
      let r: any; const c = who(a.caller ?? '-');
      const P = (o: any) => ({ ...c, ...o });
      switch (a.name) {
        case 'Create': r = await rpc.create(D, P({ ...(a.own === '-' ? {} : { owner: a.own }), sessionId: ses(a.s), title: 't0', ...(a.par === '-' ? {} : { parentListId: id(a.par) }), ...(a.big ? { body: BIG } : {}), items: Array.from({ length: a.seeds }, (_, n) => ({ title: `i${n}` })) }));
          if (!r.error && a.l) { bind(a.l, r.id); r.items.forEach((y: any, n: number) => bind(a.new[n], y.id)); } break;
        case 'Title': r = await rpc.update(D, P({ listId: id(a.l), patch: { title: a.t } })); break;
        case 'BigBody': r = await rpc.update(D, P({ listId: id(a.l), patch: { body: BIG, title: 'never' } })); break;
        case 'Status': r = a.via === 'archive' ? await rpc.archive(D, P({ listId: id(a.l) })) : a.via === 'unarchive' ? await rpc.unarchive(D, P({ listId: id(a.l) })) : await rpc.update(D, P({ listId: id(a.l), patch: { status: a.st } })); break;
        case 'Transfer': r = await rpc.transfer(D, P({ listId: id(a.l), to: a.to, reason: 'why' })); break;
        case 'Reparent': r = await rpc.reparent(D, P({ listId: id(a.l), newParentListId: a.par === '-' ? null : id(a.par) })); break;
        case 'AddItem': r = await rpc.addItem(D, P({ listId: id(a.l), title: 'it', ...(a.after === '-' ? {} : { insertAfterItemId: id(a.after) }), ...(a.big ? { description: BIG } : {}) })); if (!r.error && a.i) bind(a.i, r.id); break;
        case 'UpdateItem': r = await rpc.updateItem(D, P({ itemId: id(a.i), patch: { ...(a.st === '-' ? {} : { status: a.st }), ...(a.why === '-' ? {} : { blockedReason: a.why }) } })); break;
        case 'Reorder': r = await rpc.reorderItem(D, P({ itemId: id(a.i), insertAfterItemId: a.after === '-' ? null : id(a.after) })); break;
        case 'RemoveItem': r = await rpc.removeItem(D, P({ itemId: id(a.i) })); break;
        case 'Clear': r = await rpc.clearCompleted(D, P({ listId: id(a.l) })); break;
        case 'DeleteList': r = await rpc.deleteList(D, P({ listId: id(a.l) })); break;
        case 'Cleanup': r = await rpc.cleanup(D, P({ ...(a.ses.length ? { sessionIds: a.ses.map(ses) } : {}), ...(a.sts.length ? { statuses: a.sts } : {}), ...(a.srcs.length ? { sources: a.srcs } : {}), ...(a.age === -1 ? {} : { olderThanDays: a.age * 45 }), dryRun: a.dry })); break;
        case 'Retention': { const stop = rpc.scheduleTodosRetention(D); for (let k = 0; k < 12; k++) await new Promise<void>(f => setTimeout(f, 1)); stop(); r = {}; break; }
        case 'Tick': day++; r = {}; break;
        case 'Comment': r = await rpc.addComment(D, P({ itemId: id(a.i), body: a.big ? BIG : 'b0' })); if (!r.error && a.c) bind(a.c, r.id); break;
        case 'Edit': r = await rpc.editComment(D, P({ commentId: id(a.c), body: a.body })); break;
        case 'Uncomment': r = await rpc.deleteCommentRpc(D, P({ commentId: id(a.c) })); break;
        case 'Ack': r = await rpc.ackComment(D, P({ commentId: id(a.c) })); break;
        case 'See': { const ls = await rpc.listForSession(D, P({ sessionId: ses(a.s), ...(a.arch ? { includeArchived: true } : {}) })); r = { ids: ls.map((l: any) => un(l.id)) }; break; }
        case 'Fill': { for (let k = 0; k < a.n; k++) { const x = await rpc.addItem(D, P({ listId: id(a.l), title: 'filler', insertAfterItemId: id(a.after) })); if (x.error) { r = x; break; } } r ??= {}; events = events.slice(-1); break; }
      }
      if (a.name === 'Create' && r.id) born.push(a.l);
      if (r.error === 'owner_mismatch' && (!r.list || r.list.id !== id(a.l ?? un(r.list.id)))) bad.push('owner_mismatch without the list');
      const ev = events.map(e => ({ k: e.kind, l: un(e.list.id), v: view(e.list) }));
      if (a.name === 'Cleanup' || a.name === 'Retention') ev.sort((x, y) => born.lastIndexOf(x.l) - born.lastIndexOf(y.l));
      return { r: r.error ?? 'ok', ev, ...(r.ids ? { ids: r.ids } : {}), ...(a.name === 'Cleanup' && !r.error ? { lists: r.deletedListCount, items: r.deletedItemCount, dry: r.dryRun } : {}) };
    },
    async project() {
      const out: any = {}; for (const l of await T.listAllLists(D)) out[un(l.id)] = view(l);
      return { L: out, day, ...(bad.length ? { bad } : {}) };
    },
  };
}
