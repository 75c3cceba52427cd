// Drives src/db/todos.ts against spec/Todos.tla (T01: one call at a time, T02: two calls in flight).
import { fresh, done } from '../lib/graph.mts';
const R = process.env.VERIF_REPO ?? '/repo';
const T = await import(`${R}/src/db/todos.ts`);
const hex = (s: string) => Buffer.from(s.repeat(16)).toString('hex').slice(0, 32);
const FLAV = [(s: string) => hex(s), (s: string) => ({ l1: 'a', l2: 'aa', l3: 'a-', l4: 'b', i1: 'x', i2: 'xx', i3: 'xy', c1: 'k', c2: 'kk', c3: 'l', s1: 's', s2: 'ss' }[s] ?? s), (s: string) => ({ s1: 'sess:é', s2: 'sess' }[s] ?? `${s}\u00fc/..`)];
const OWN: any = [{ u: 'user', p: 'planner', d: 'designer' }, { u: 'planner', p: 'user', d: 'chat' }, { u: 'system', p: 'tester', d: 'user' }];
const BASE = Date.parse('2026-03-01T00:00:00.000Z');
export default async function create(ctx: any) {
  const f = FLAV[ctx.flavour % 3]!, own = OWN[ctx.flavour % 3]!;
  const back = new Map<string, string>(); const id = (s: string) => { const v = s === 'ghost' ? hex('zz') : f(s); back.set(v, s); return v; };
  const un = (v: any) => v === undefined || v === null || v === '' ? '-' : back.get(v) ?? `?${v}`;
  const unOwn = (v: any) => Object.keys(own).find(k => own[k] === v) ?? `?${v}`;
  let together = false; let t = 0; let born = new Map<string, string>(); let notes: string[] = []; let sess: string[] = [];
  const iso = () => new Date(BASE + ++t * 1000).toISOString();
  const kind = (e: any) => { const m = String(e?.message ?? e); if (m.startsWith('parent-cycle')) return 'cycle'; if (m.startsWith('parent-missing')) return 'missing'; if (m.startsWith('parent-session')) return 'session';
    if (/does not exist|vanished|failed to read back/.test(m)) return 'missing'; if (/illegal .*transition/.test(m)) return 'transition'; if (/blockedReason/.test(m)) return 'reason'; return `error: ${m}`; };
  const call = (o: any): Promise<any> => {
    const now = iso(); const D: any = undefined;
    const fresh_ = (r: any) => { if (!together && r.updatedAt !== now) notes.push(`${o.k}: updatedAt ${r.updatedAt} is not ${now}`); return r; };
    switch (o.k) {
      case 'newList': return T.insertList(D, { id: id(o.l), sessionId: id(o.s), ...(o.par === '-' ? {} : { parentListId: id(o.par) }), title: 't0', description: 'd', owner: own[o.own], source: own[o.src], createdAt: now }).then((r: any) => { born.set('l' + r.id, now); });
      case 'newItem': return T.insertItem(D, { id: id(o.i), listId: id(o.l), title: 'it', orderKey: o.ord, tags: ['x'], meta: { n: 1 }, createdAt: now }).then((r: any) => { born.set('i' + r.id, now); });
      case 'listStatus': return T.updateList(D, id(o.l), { status: o.st }, now).then(fresh_);
      case 'listTitle': return T.updateList(D, id(o.l), { title: o.title }, now).then(fresh_);
      case 'item': return T.updateItem(D, id(o.i), { ...(o.st === '-' ? {} : { status: o.st }), ...(o.why === '-' ? {} : { blockedReason: o.why }) }, now).then((r: any) => { fresh_(r); if (!together && o.st === 'completed' && r.completedAt !== now) notes.push(`completedAt ${r.completedAt} is not ${now}`); });
      case 'itemOrder': return T.updateItem(D, id(o.i), { orderKey: o.ord }, now).then(fresh_);
      case 'transfer': return T.transferList(D, id(o.l), own[o.to], 'why', now, o.ini === '-' ? undefined : own[o.ini]).then((r: any) => { if (!r.transfers.some((x: any) => x.at === now && x.reason === 'why')) notes.push('transfer entry lacks its time or reason'); });
      case 'reparent': return T.reparentList(D, id(o.l), o.par === '-' ? null : id(o.par), now);
      case 'comment': return T.insertComment(D, { id: id(o.c), itemId: id(o.i), author: own[o.by], body: 'b0', createdAt: now }).then((r: any) => { born.set('c' + r.id, now); });
      case 'editComment': return T.updateComment(D, id(o.c), { body: o.body, editedAt: now });
      case 'ack': return T.updateComment(D, id(o.c), { agentAcknowledged: true });
      case 'delComment': return T.deleteComment(D, id(o.c));
      case 'delItem': return T.deleteItem(D, id(o.i));
      case 'delList': return T.deleteList(D, id(o.l));
      case 'delSession': return T.deleteListsBySession(D, id(o.s));
    }
    throw new Error('op ' + o.k);
  };
  const names = (p: string) => ['1', '2', '3', '4'].map(n => p + n);
  return {
    close: done,
    async reset(init: any) {
      await fresh(ctx.scratch); t = 0; together = false; sess = Object.keys(init.all ?? {}); born = new Map(); notes = []; back.clear();
      for (const n of ['l', 'i', 'c', 's'].flatMap(names)) id(n);
      const order = Object.values<any>(init.all ?? {}).flat();
      for (const l of order) { const x = init.L[l]; await call({ k: 'newList', l, s: x.s, par: x.par, own: x.own, src: x.src }); }
      for (const i of Object.keys(Array.isArray(init.I) ? {} : init.I)) await call({ k: 'newItem', i, l: init.I[i].l, ord: init.I[i].ord });
    },
    async step(a: any) {
      together = a.name !== 'Op'; if (!together) { const r = await call(a.op).then(() => 'ok', kind); return [r]; }
      const c = (p: Promise<any>) => p.then(() => 'ok', e => { const k = kind(e); return k.startsWith('error') ? k : 'refused'; });
      return await Promise.all([c(call(a.o1)), c(call(a.o2))]);
    },
    async project() {
      const D: any = undefined; const L: any = {}, I: any = {}, C: any[] = []; const bad: string[] = [...notes];
      const all = await T.listAllLists(D);
      for (const l of all) {
        const one = await T.getList(D, l.id); if (JSON.stringify(one) !== JSON.stringify(l)) bad.push(`getList and listAllLists disagree on ${un(l.id)}`);
        if (born.has('l' + l.id) && l.createdAt !== born.get('l' + l.id)) bad.push('createdAt of a list moved');
        if (l.description !== 'd') bad.push('description lost');
        L[un(l.id)] = { s: un(l.sessionId), par: un(l.parentListId), st: l.status, own: unOwn(l.owner), src: unOwn(l.source), tr: l.transfers.map((x: any) => [unOwn(x.from), unOwn(x.to), unOwn(x.initiator)]), title: l.title };
        if (l.items.some((x: any, n: number) => n > 0 && l.items[n - 1].order > x.order)) bad.push('items out of order');
        for (const x of l.items) if (x.listId !== l.id) bad.push('item listed under another list');
      }
      const seen: any[] = [];
      for (const n of names('i')) {
        const x = await T.getItem(D, id(n)); if (x === null) { if ((await T.listCommentsForItem(D, id(n))).length) bad.push(`comments of absent item ${n} remain`); continue; }
        if (born.has('i' + x.id) && x.createdAt !== born.get('i' + x.id)) bad.push('createdAt of an item moved');
        if (JSON.stringify(x.tags) !== '["x"]' || JSON.stringify(x.meta) !== '{"n":1}') bad.push('tags or meta lost');
        I[n] = { l: un(x.listId), st: x.status, ord: x.order, why: x.blockedReason ?? '-', done: x.completedAt !== undefined };
        const own_ = await T.listCommentsForItem(D, id(n)); seen.push(...own_);
        const via = (all.find((l: any) => l.id === x.listId)?.items ?? []).find((y: any) => y.id === x.id);
        if (!via) bad.push(`item ${n} is not listed in its list`); else if (JSON.stringify(via.comments) !== JSON.stringify(own_)) bad.push('comments differ between list and item view');
      }
      const listed = all.flatMap((l: any) => l.items.map((x: any) => un(x.id))).sort(); if (JSON.stringify(listed) !== JSON.stringify(Object.keys(I).sort())) bad.push(`listed items ${listed}`);
      seen.sort((a, b) => a.createdAt < b.createdAt ? -1 : 1);
      for (const c of seen) {
        if (JSON.stringify(await T.getComment(D, c.id)) !== JSON.stringify(c)) bad.push('getComment disagrees');
        C.push({ c: un(c.id), i: un(c.itemId), by: unOwn(c.author), body: c.body, edited: c.editedAt !== undefined, ack: c.agentAcknowledged === true });
      }
      for (const n of names('c')) { const c = await T.getComment(D, id(n)); if (c && !seen.some(x => x.id === c.id)) bad.push(`comment ${n} survives its item`); }
      const shown: any = {}, allv: any = {};
      for (const s of sess) { const v = async (inc?: boolean) => (await T.listListsBySession(D, id(s), inc ? { includeArchived: true } : {})).map((l: any) => un(l.id)); shown[s] = await v(); allv[s] = await v(true); }
      return { L, I, C, shown, all: allv, ...(bad.length ? { bad } : {}) };
    },
  };
}
