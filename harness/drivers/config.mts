// Drives src/config/{reconcile,write-path}.ts against spec/Config.tla (C01).
import { same } from '../lib/util.mts';
const R = process.env.VERIF_REPO ?? '/repo';
const Rec = await import(`${R}/src/config/reconcile.ts`), Cat = await import(`${R}/src/config/config-catalog.ts`), Wr = await import(`${R}/src/config/write-path.ts`);
const byRepo = Cat.CONFIG_MIGRATIONS.find((m: any) => m.transform !== undefined)?.transform;
const entry = (b: string[], old: string[]) => ({ be: [...b, '/w/a.b'], bt: [...b, '/w/a.b', 'tasks'], bc: [...b, '/w/a.b', 'tiers', 'core'], bx: [...b, '/w/a.b', 'note'],
  oe: [...old, '/w/a.b'], oer: [...old, '/w/a.b', 'roleTiers'], oep: [...old, '/w/a.b', 'shaperProvider'], oem: [...old, '/w/a.b', 'shaperModel'], oec: [...old, '/w/a.b', 'tiers', 'core'], oex: [...old, '/w/a.b', 'note'] });
const FLAT: any = { l: ['l'], lr: ['l', 'r'], ln: ['l', 'n'], lu: ['l', 'x y'], f: ['f'], b: ['b'], g: ['g'], gs: ['g', 's'], gu: ['g', 'u.v'], o: ['o'], ol: ['o', 'l'], olr: ['o', 'l', 'r'], oln: ['o', 'l', 'n'], olu: ['o', 'l', 'x y'], of: ['o', 'f'], ob: ['o', 'b'], oz: ['o', 'z'], q: ['q'], u: ['u'], uv: ['u', 'v'], ...entry(['b'], ['o', 'b']) };
const deep = (p: string[]) => ['top', 'm\u00fc', ...p];
const DEEP: any = Object.fromEntries(Object.entries<string[]>(FLAT).map(([k, p]) => [k, k[0] === 'u' ? p : deep(p)]));
const M = (...p: string[]) => ['models', ...p], A = (...p: string[]) => ['models', 'analyze', ...p];
const REAL: any = { l: M('shaper'), lr: M('shaper', 'maxToolTurns'), ln: M('shaper', 'ollamaNumCtx'), lu: M('shaper', 'mine'), f: M('coreFloor'), b: M('byRepo'), g: ['codeReview'], gs: ['codeReview', 'enforce'], gu: ['codeReview', 'mine'], o: A(), ol: A('shaper'), olr: A('shaper', 'maxToolTurns'), oln: A('shaper', 'ollamaNumCtx'), olu: A('shaper', 'mine'), of: A('coreFloor'), ob: A('byRepo'), oz: A('shaperProvider'), q: M('embedding'), u: ['mine'], uv: ['mine', 'v'], ...entry(M('byRepo'), A('byRepo')) };
const isObj = (v: any) => typeof v === 'object' && v !== null && !Array.isArray(v);
const freeze = (v: any): any => { if (typeof v === 'object' && v !== null) { Object.values(v).forEach(freeze); Object.freeze(v); } return v; };
export default async function create(ctx: any) {
  const real = ctx.flavour === 2; const P = real ? REAL : ctx.flavour === 1 ? DEEP : FLAT; const dot = (n: string) => P[n].join('.');
  const catalog = real ? Cat.CONFIG_CATALOG : [{ path: dot('lr'), type: 'string', default: 'dflt', desc: '' }, { path: dot('ln'), type: 'number', default: 0, desc: '' }, { path: dot('f'), type: 'enum', default: '', desc: '' }, { path: dot('gs'), type: 'boolean', default: false, desc: '' }];
  const retired = real ? Cat.RETIRED_PATHS : [{ path: dot('q') }, { path: dot('o'), prefix: true }];
  const moves = real ? Cat.CONFIG_MIGRATIONS : [{ from: dot('ol'), to: dot('l') }, { from: dot('of'), to: dot('f') }, { from: dot('ob'), to: dot('b'), transform: byRepo }];
  const nodeOf = (path: string) => Object.keys(P).find(k => dot(k) === path);
  const numeric = (n: string) => real && /^o?lr$/.test(n);
  const val = (n: string, v: string): any => v === 'obj' ? {} : v === 'arr' ? ['x'] : v === 'nul' ? null : v === 'b1' ? true : v === 'n1' ? (numeric(n) ? 'no number' : 7) : v === 'd' ? structuredClone(catalog.find((o: any) => o.path === dot(n)).default) : numeric(n) ? (v === 's1' ? 11 : 12) : v === 's1' ? 'one' : 'two';
  const token = (n: string, v: any): string => {
    if (isObj(v)) { if (n === 'bc' && Object.keys(v).length) { const s = (x: any) => x === undefined ? '' : x === 'one' ? 's1' : x === 'two' ? 's2' : '?'; return `pin-${s(v.runner)}-${s(v.model)}${Object.keys(v).every(k => k === 'runner' || k === 'model') ? '' : '?'}`; } return 'obj'; }
    for (const t of ['s1', 's2', 'n1', 'b1', 'nul', 'arr']) if (same(val(n, t), v)) return t;
    const o = catalog.find((o: any) => o.path === dot(n)); if (o && same(o.default, v) && typeof o.default === typeof v) return 'd';
    return `? ${JSON.stringify(v)}`;
  };
  const at = (d: any, p: string[]): { has: boolean, v?: any } => { let x = d; for (const k of p) { if (!isObj(x) || !Object.hasOwn(x, k)) return { has: false }; x = x[k]; } return { has: true, v: x }; };
  let doc: any = {}, root = 'obj', notes: string[] = [], turn = 0;
  return {
    sets: ['carried', 'filled', 'repaired', 'pruned', 'migrated'],
    async reset() { doc = {}; root = 'obj'; notes = []; turn = 0; },
    async step(a: any) {
      turn++; notes = [];
      switch (a.name) {
        case 'Write': case 'BadWrite': {
          doc = structuredClone(doc); const p = a.name === 'Write' ? P[a.n] : a.why === 'none' ? [] : turn % 2 ? ['l', ''] : ['', 'l'];
          const before = structuredClone(doc);
          try { Wr.setConfigAtPath(doc, p.length && p.every((k: string) => !k.includes('.')) && (turn + ctx.seed) % 2 ? p.join('.') : p, a.name === 'Write' ? val(a.n, a.v) : 1); return 'ok'; }
          catch (e: any) { if (!same(before, doc)) notes.push('refused write changed the document'); return e?.name === 'ConfigPathError' ? 'refused' : `? ${e}`; }
        }
        case 'Cut': { doc = structuredClone(doc); const p = P[a.n]; let x = doc; for (const k of p.slice(0, -1)) x = x[k]; delete x[p.at(-1)!]; return 'ok'; }
        case 'Replace': root = a.v; doc = a.v === 'none' ? undefined : val('uv', a.v); return 'ok';
      }
      const input = freeze(structuredClone(doc)), copy = structuredClone(doc);
      const r = real ? Rec.reconcileConfig(input) : Rec.reconcileConfig(input, freeze(structuredClone(catalog)), retired, moves);
      if (!same(input, copy)) notes.push('input changed');
      const strict = (x: any, y: any) => JSON.stringify(x) === JSON.stringify(y); const sort = (x: any): any => isObj(x) ? Object.fromEntries(Object.keys(x).sort().map(k => [k, sort(x[k])])) : x;
      const differs = !isObj(input) || !strict(sort(input), sort(r.config)); if (r.changed !== differs) notes.push(`changed is ${r.changed}`);
      const lists = r.filled.length + r.repaired.length + r.pruned.length + r.migrated.length; if (r.changed !== lists > 0) notes.push('changed without a reason');
      const paths = [...r.carried, ...r.filled, ...r.repaired.map((x: any) => x.path)]; if (!strict([...paths].sort(), catalog.map((o: any) => o.path).sort())) notes.push('rows not accounted for');
      for (const o of catalog) { const x = at(r.config, o.path.split('.')); if (!x.has || typeof x.v !== (o.type === 'enum' ? 'string' : o.type)) notes.push(`row ${o.path}`); }
      root = 'obj'; doc = structuredClone(r.config);
      const known = (l: string[]) => l.map(nodeOf).filter(x => x !== undefined);
      return { carried: known(r.carried), filled: known(r.filled), repaired: r.repaired.filter((x: any) => nodeOf(x.path)).map((x: any) => { const n = nodeOf(x.path)!; return { n, was: ((k: string) => k[0] === '?' ? token('uv', x.discarded) : k)(token(n, x.discarded)) }; }), pruned: known(r.pruned), migrated: r.migrated.map((x: string) => nodeOf(x.split(' ')[0]!)).filter((x: any) => x !== undefined) };
    },
    async project() {
      const t: any = {}; if (root === 'obj') for (const n of Object.keys(P)) { const x = at(doc, P[n]); if (x.has) t[n] = token(n, x.v); }
      return { root, t, ...(notes.length ? { notes } : {}) };
    },
  };
}
