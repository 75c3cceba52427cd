// Drives src/indexer (IndexerService, cross-file resolver) and src/daemon/queue.ts against spec/Indexer.tla (I02).
import { mkdirSync, writeFileSync, rmSync, existsSync } from 'node:fs';
import { execFileSync } from 'node:child_process';
import { join, dirname } from 'node:path';
import { fresh, done, reopen, store } from '../lib/graph.mts';
const R = process.env.VERIF_REPO ?? '/repo';
const { IndexerService } = await import(`${R}/src/indexer/index.ts`), { IndexQueue } = await import(`${R}/src/daemon/queue.ts`), { Watcher } = await import(`${R}/src/indexer/watcher.ts`);
const Rep = await import(`${R}/src/db/repos.ts`), Ent = await import(`${R}/src/db/entities.ts`), Edg = await import(`${R}/src/db/graph/edges.ts`), LC = await import(`${R}/src/db/lance/conn.ts`), LV = await import(`${R}/src/db/lance/entity-vec.ts`);
const tick = () => new Promise(r => setImmediate(r)); const sleep = (ms: number) => new Promise(r => setTimeout(r, ms));
const SETTLE = 77_000_000; // the settle timers are fired by the driver
const timers = new Map<any, () => void>(), realSet = globalThis.setTimeout, realClear = globalThis.clearTimeout;
(globalThis as any).setTimeout = (f: any, ms?: number, ...x: any[]) => { if (ms !== SETTLE) return realSet(f, ms as any, ...x); const t = realSet(() => {}, 1e9); timers.set(t, () => f(...x)); return t; };
(globalThis as any).clearTimeout = (t: any) => { timers.delete(t); realClear(t); };
// layouts: where the files are, how one imports another
const TS = (paths: any, imp: any) => ({ paths, imp: (f: string, g: string, ns: string[]) => `import { ${ns.join(', ')} } from '${imp(f, g)}';`,
  def: (n: string, calls: string[], v: number) => `export function ${n}() { /* v${v} */ return [${calls.map(c => `${c}()`).join(', ')}]; }`,
  cls: (n: string, sup: string | undefined, v: number) => `export class ${n}${sup ? ` extends ${sup}` : ''} { /* v${v} */ }`, pre: (v: number) => `// v${v}` });
const PY = (paths: any, imp: any) => ({ paths, imp: (f: string, g: string, ns: string[]) => imp(f, g, ns),
  def: (n: string, calls: string[], v: number) => `def ${n}():\n    "v${v}"\n    return [${calls.map(c => `${c}()`).join(', ')}]`,
  cls: (n: string, sup: string | undefined, v: number) => `class ${n}${sup ? `(${sup})` : ''}:\n    "v${v}"`, pre: (v: number) => `# v${v}` });
const near = (ext: string) => (f: string, g: string) => f === 'c' ? `../${g}${ext}` : g === 'c' ? `./sub/c${ext}` : `./${g}${ext}`;
const at = (e: string) => ({ a: `a${e}`, b: `b${e}`, c: `sub/c${e}` });
const pk = { a: 'pkg/a.py', b: 'pkg/b.py', c: 'pkg/sub/c.py' }, mod: any = { a: 'a', b: 'b', c: 'sub.c' };
const LAYOUTS: any = {
  ts: [TS(at('.ts'), near('')), TS(at('.ts'), near('.js')), TS(at('.tsx'), near('.js')), TS({ a: 'lib/a.ts', b: 'b/index.ts', c: 'sub/index.ts' }, (f: string, g: string) => ({ 'a>b': '../b', 'a>c': '../sub/index', 'b>a': '../lib/a', 'b>c': '../sub', 'c>a': '../lib/a.js', 'c>b': '../b' } as any)[`${f}>${g}`])],
  py: [PY(pk, (f: string, g: string, ns: string[]) => `from ${f === 'c' ? '..' : '.'}${mod[g]} import ${ns.join(', ')}`), PY(pk, (_f: string, g: string, ns: string[]) => `from pkg.${mod[g]} import ${ns.join(', ')}`), PY({ a: 'a.py', b: 'b/__init__.py', c: 'sub/c.py' }, (f: string, g: string, ns: string[]) => f === 'a' && g === 'b' ? `from .b import ${ns.join(', ')}` : `import ${mod[g]}`)],
};
export default async function create(ctx: any) {
  const lang = ctx.consts?.lang ?? 'ts', L = LAYOUTS[lang][ctx.flavour % LAYOUTS[lang].length], git = lang === 'ts' ? ctx.flavour % 4 === 1 : ctx.flavour % 3 === 0;
  let n = 0, dir = '', repo = '', repo2 = '', q: any, ix: any, handler: any, up = false, known = true, busy = 0, running = 0, finished = 0, errs: string[] = [], live: any = null, free = false, permits = 0, wake: (() => void) | null = null, before2 = '';
  const text = (f: string, c: any) => [L.pre(c.v), ...c.imports.map((g: string) => L.imp(f, g, uses(c, g))), ...c.cls.map((k: string) => L.cls(k, c.inh.find((p: any) => p[0] === k)?.[1], c.v)), ...c.defs.map((d: string) => L.def(d, c.calls.filter((p: any) => p[0] === d).map((p: any) => p[1]), c.v))].join('\n') + '\n';
  const uses = (c: any, g: string) => { const u = [...c.calls, ...c.inh].map((p: any) => p[1]).filter((x: string) => x.endsWith(g)); return u.length ? [...new Set(u)] as string[] : ['zz']; };
  const put = (root: string, rel: string, s: string) => { const p = join(root, rel); mkdirSync(dirname(p), { recursive: true }); writeFileSync(p, s); return p; };
  const commit = () => { if (git) { execFileSync('git', ['add', '-A'], { cwd: repo, stdio: 'ignore' }); } };
  const boot = async () => {
    q = new IndexQueue(); const w: any = new Watcher(); w.addRepo = async () => {}; w.removeRepo = async () => {}; w.addConfigDir = async () => {}; w.onEvents = (h: any) => { handler = h; };
    ix = new IndexerService(undefined, q, w, undefined, SETTLE); free = false; permits = 0;
    await ix.start(await Rep.listRepos(undefined)); up = true;
    live = q; void q.start(async (job: any) => {
      const mine = live; busy++;
      try {
        if (job.kind === 'file' || job.kind === 'full') { while (!free && permits === 0) await new Promise<void>(r => { wake = r; }); if (mine !== live) return; if (!free) permits--; }
        running++; try { await ix.processJob(job); } catch (e: any) { errs.push(`${job.kind}: ${e?.stack ?? e}`); throw e; } finally { running--; finished++; }
      } finally { busy--; }
    });
  };
  const halt = async () => { up = false; live = null; for (const t of [...timers.keys()]) clearTimeout(t); q?.stop?.(); q = null; handler = null; free = true; wake?.(); await tick(); while (busy > 0) { wake?.(); await sleep(1); } };
  const settle = async () => {
    const ps: Promise<any>[] = [], real = ix.runSettlePass, due = [...timers]; if (!due.length) return; let seen = 0;
    if (typeof real === 'function') ix.runSettlePass = (...x: any[]) => { const p = real.apply(ix, x); seen++; ps.push(Promise.resolve(p).catch(() => {})); return p; };
    for (const [t, f] of due) { clearTimeout(t); f(); }
    for (let i = 0; i < 3; i++) { await tick(); await Promise.all(ps); }
    if (seen < due.length) await sleep(400);
    if (typeof real === 'function') delete ix.runSettlePass;
  };
  const drain = async () => { free = true; permits = 0; wake?.(); for (let i = 0; i < 3; i++) { await tick(); while (busy > 0 || q.depth > 0) await sleep(1); } await settle(); free = false; permits = 0; };
  const status = async () => (await Rep.listRepos(undefined)).filter((r: any) => r.path === repo).map((r: any) => r.status + (r.errorMsg ?? '')).join();
  const look = async (root: string) => {
    const es = await Ent.listEntitiesForRepo(undefined, root), ents: any[] = [], edges: any[] = []; const by = new Map<string, string>();
    const fileOf = (p: string) => Object.keys(L.paths).find(k => join(root, L.paths[k]) === p) ?? p.replace(root, '');
    for (const e of es) by.set(e.id, e.kind === 'file' ? fileOf(e.file) : e.name);
    for (const e of es) {
      ents.push([by.get(e.id), e.kind === 'file' ? 0 : Number(/v(\d+)/.exec(e.body)?.[1] ?? -1)]); const u = await Ent.entityU64ForId(e.id);
      for (const kind of ['DEFINES', 'IMPORTS', 'CALLS', 'INHERITS', 'IMPLEMENTS']) { const m = await Ent.entityIdsByU64s(await Edg.outNeighbors(u, { kindFilter: [kind] })); for (const id of m.values()) { const t = by.get(id); if (t !== undefined) edges.push([kind, by.get(e.id), t]); else if (await other(id)) edges.push([kind, by.get(e.id), '?elsewhere']); } }
      const inn = await Edg.inNeighbors(u); const ids = await Ent.entityIdsByU64s(inn); for (const id of ids.values()) if (!by.has(id)) edges.push(['?', id, by.get(e.id)]);
    }
    return { ents, edges };
  };
  const other = async (id: string) => { const e = await Ent.getEntity(undefined, id); return e !== null && e.kind !== 'module'; };
  return {
    sets: ['ents', 'edges'],
    async reset() {
      if (q) await halt(); if (dir) rmSync(dir, { recursive: true, force: true });
      await LC.closeLanceConn(); LV._resetEntityVecCache(); const g = await fresh(ctx.scratch); LC.setLanceConnPath(join(g, 'lance'));
      dir = join(ctx.scratch, `x${n++}`); repo = join(dir, 'repo'); repo2 = join(dir, 'repo2'); mkdirSync(repo, { recursive: true }); mkdirSync(repo2, { recursive: true }); known = true; up = false;
      const e = lang === 'py' ? '.py' : '.ts';
      for (const r of [repo, repo2]) { put(r, `node_modules/z${e}`, lang === 'py' ? 'def zz():\n    return 1\n' : 'export function zz() { return 1; }\n'); if (lang === 'py') { put(r, 'pkg/notes.txt', 'x'); } }
      if (git) { execFileSync('git', ['init', '-q'], { cwd: repo, stdio: 'ignore' }); put(repo, '.git/info/exclude', 'node_modules\n'); }
      // a second repository using the same names
      put(repo2, L.paths.b, text('b', { v: 9, defs: ['fb', 'ga'], cls: ['Cb'], imports: [], calls: [['ga', 'fb']], inh: [] })); put(repo2, L.paths.c, text('c', { v: 9, defs: ['fc'], cls: ['Cc'], imports: ['b', 'a'], calls: [['fc', 'fb']], inh: [['Cc', 'Cb']] }));
      for (const r of [repo, repo2]) await Rep.addRepo(undefined, { kind: 'workspace', path: r, name: r, addedAt: new Date().toISOString(), status: 'pending' });
      await boot(); await drain(); await halt(); before2 = JSON.stringify(await look(repo2));
      // start over with the first repository
      await Rep.updateRepoStatus(undefined, repo, 'pending');
    },
    async step(a: any) {
      const f = a.f && join(repo, L.paths[a.f]);
      switch (a.name) {
        case 'Write': { await sleep(12); // file times have the kernel tick's resolution
          const ev = existsSync(f) ? 'update' : 'create'; put(repo, L.paths[a.f], text(a.f, a.src)); if (up) handler([{ path: f, type: ev }]); return 'ok'; }
        case 'Unlink': rmSync(f); if (up) handler([{ path: f, type: 'delete' }]); return 'ok';
        case 'Drain': { await drain(); known = true; const x = errs.splice(0); return x.length ? x : status(); }
        case 'Partial': { known = false; permits = a.n; wake?.(); for (let i = 0; i < 4; i++) { await sleep(1); while (running > 0 || (permits > 0 && (q.depth > 0 || busy > 0))) await sleep(1); } if (a.settle) await settle(); permits = 0; return 'ok'; }
        case 'Crash': {
          known = false; const root = (await store.getGraphStore()).root; let c = 0; const real = root.childTransaction;
          root.childTransaction = function (...x: any[]) { if (++c >= a.n) return Promise.reject(new Error('process is gone')); return real.apply(this, x); };
          try { await drain(); } catch {}
          await halt(); errs = []; delete root.childTransaction; await LC.closeLanceConn(); LV._resetEntityVecCache(); await reopen(); return 'ok';
        }
        case 'Stop': commit(); await halt(); return 'ok';
        case 'Start': await boot(); return 'ok';
        case 'Reindex': q.enqueue({ kind: 'full', repoPath: repo }); return 'ok';
      }
    },
    async project() {
      const o = JSON.stringify(await look(repo2));
      return { up, known, ...(known ? await look(repo) : { ents: [], edges: [] }), other: o === before2 ? 'intact' : o };
    },
    async close() { if (q) await halt(); await done(); if (dir) rmSync(dir, { recursive: true, force: true }); },
  };
}
