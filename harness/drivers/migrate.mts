// Drives src/db/graph/{migrations,store}.ts against spec/Migrate.tla (G05).
import { EventEmitter } from 'node:events';
import { createHash } from 'node:crypto';
import { copyFileSync, existsSync, mkdirSync, readdirSync, rmSync } from 'node:fs';
import { join } from 'node:path';
// every write of the store can be watched: lmdb assigns `put` and `remove` on a subclass of EventEmitter
let onWrite: (() => void) | null = null; let nesting = 0;
for (const m of ['put', 'remove', 'putSync', 'removeSync', 'clearSync', 'clearAsync'] as const) Object.defineProperty(EventEmitter.prototype, m, {
  configurable: true, get: () => undefined,
  set(v: any) { Object.defineProperty(this, m, { configurable: true, writable: true, value: function (this: any, ...args: any[]) { if (onWrite && nesting === 0) onWrite(); nesting++; try { return v.apply(this, args); } finally { nesting--; } } }); },
});
const R = process.env.VERIF_REPO ?? '/repo';
const { fresh, done, dump, store } = await import('../lib/graph.mts');
const { same, rngFrom } = await import('../lib/util.mts');
const Mig = await import(`${R}/src/db/graph/migrations.ts`), Keys = await import(`${R}/src/db/graph/keys.ts`), Codec = await import(`${R}/src/db/graph/codec.ts`), Ids = await import(`${R}/src/db/graph/ids.ts`), NS = await import(`${R}/src/shared/repo-namespaces.ts`);
const Rep = await import(`${R}/src/db/repos.ts`);
const idOf = (repo: string, kind: string, name: string) => createHash('sha256').update(`${repo}\x00\x00${kind}\x00${name}`).digest('hex').slice(0, 32);
const KIND: Record<string, string> = { w1: 'function', p1: 'class', mj: 'module', mn: 'module', my: 'module' };
const SHARED: Record<string, string> = { mj: 'jvm', mn: 'npm' };
const FLAV = [
  { phantom: '', name: { w1: 'run', p1: 'Ghost', mj: 'org.a.B', mn: 'lodash', my: 'notes' }, lang: { w1: 'typescript', p1: 'java', mj: 'java', mn: 'typescript', my: 'markdown' }, kind: 'CALLS', tagged: false },
  { phantom: 'w/app', name: { w1: 'x', p1: 'x', mj: 'x', mn: 'xx', my: 'xy' }, lang: { w1: 'python', p1: 'python', mj: 'scala', mn: 'javascript', my: 'yaml' }, kind: 'IMPORTS', tagged: true },
  { phantom: './app', name: { w1: '\u00fc', p1: 'q', mj: '\u00fc', mn: '@a/b', my: '\u00fcx' }, lang: { w1: 'go', p1: 'markdown', mj: 'java', mn: 'typescript', my: 'html' }, kind: 'REFERENCES', tagged: false },
] as any[];
const T = 1_760_000_000_000;
export default async function create(ctx: any) {
  const F = FLAV[ctx.flavour % 3]; const rnd = rngFrom(ctx.seed + ctx.flavour); let mode = 'runner', dir = '', base: any = null, init: any = null, opened = false, u64 = new Map<string, bigint>(), rid: Record<string, number> = {}; let cp = 0;
  const oldId = (i: string) => KIND[i] === 'module' ? idOf('', 'module', F.name[i]) : idOf(i === 'w1' ? '/w/app' : F.phantom, KIND[i]!, F.name[i]);
  const newId = (i: string) => SHARED[i] ? idOf(SHARED[i]!, 'module', F.name[i]) : oldId(i);
  const clock = async (f: () => Promise<any>) => { const real = Date.now; Date.now = () => T; try { return await f(); } finally { Date.now = real; } };
  const name = (n: number) => n === rid.w ? 'w' : n === rid.p ? 'p' : Object.keys(NS.SHARED_MODULES_REPO_ID).find(k => NS.SHARED_MODULES_REPO_ID[k] === n) ?? `?${n}`;
  const build = async (st: any) => {
    const s = await store.getGraphStore(); u64 = new Map(); const v = st.ver as number; const old = v < 3;
    await s.root.transaction(() => {
      if (old) for (const n of Object.values(NS.SHARED_MODULES_REPO_ID) as number[]) s.repo.remove(Keys.encodeRepoKey(n));
      for (const r of ['w', 'p']) {
        rid[r] = Ids.allocateRepoIdInTxn(s); if (!st.repos.includes(r)) continue;
        const row: any = { id: rid[r], kind: 'workspace', path: r === 'w' ? '/w/app' : F.phantom, name: `repo ${r}`, addedAt: T - 5, lastIndexed: 7, status: 'ready', errorMsg: '' };
        if (old && !F.tagged) delete row.kind;
        s.repo.put(Keys.encodeRepoKey(rid[r]), Codec.encodeRepoRow(row));
      }
      for (const [i, home] of Object.entries<string>(st.E ?? {})) {
        const k = Ids.allocateEntityIdInTxn(s), key = Keys.encodeEntityKey(k); u64.set(i, k); const n = home in rid ? rid[home]! : NS.SHARED_MODULES_REPO_ID[home];
        const row = { repoId: n, kind: KIND[i], name: F.name[i], filePath: KIND[i] === 'module' ? '' : 'a.ts', startLine: 3, endLine: 4, language: F.lang[i], rootPath: '', body: `body of ${i}`, signature: 's', summary: '', isExported: true, isAsync: false, isAbstract: false, artifact: false, contentHash: 'h', embeddingModel: '', indexedAt: T - 9 };
        s.entity.put(key, Codec.encodeEntityRow(row)); const sid = old ? oldId(i) : newId(i);
        s.entityIdByString.put(sid, k); if (v > 1) { s.entityStringByU64.put(key, sid); s.nameIndex.put(Keys.encodeNameIndexKey(n, Keys.ENTITY_KIND_BYTE[KIND[i]!], F.name[i]), key); }
      }
      for (const [a, b] of st.X ?? []) { const kb = Keys.RELATION_KIND_BYTE[F.kind]; s.outEdge.put(Keys.encodeOutEdgeKey(u64.get(a)!, kb, u64.get(b)!), Buffer.alloc(0)); s.inEdge.put(Keys.encodeInEdgeKey(u64.get(b)!, kb, u64.get(a)!), Buffer.alloc(0)); }
      s.meta.put('schema_version', v);
    });
  };
  // the raw rows of the file at `path`, without the daemon's open logic
  const lmdb = () => join(dir, 'graph.lmdb');
  const copy = (to: string) => { mkdirSync(to, { recursive: true }); copyFileSync(lmdb(), join(to, 'graph.lmdb')); };
  // with the migrations replaced by one that goes no further than `upTo`, from a copy of the built store
  const reference = async (upTo: number): Promise<any> => {
    const d = join(ctx.scratch, `ref${cp++}`); mkdirSync(d); copyFileSync(base.file, join(d, 'graph.lmdb'));
    const s = await raw(join(d, 'graph.lmdb')); await clock(() => upTo > init.ver ? Mig.runMigrations(s, init.ver, upTo) : Promise.resolve());
    const out = await rows(s); await s.root.close(); rmSync(d, { recursive: true, force: true }); return out;
  };
  const { open } = await import(`${R}/node_modules/lmdb/index.js`);
  let shape: any = null; // table options, learnt from the store itself
  const raw = async (file: string): Promise<any> => { const root = open({ path: file, mapSize: 1 << 30, maxDbs: 64 }); const s: any = { root }; for (const k of Object.keys(shape)) s[k] = root.openDB(shape[k]); return s; };
  const rows = async (s: any) => { const out: any = {}; for (const k of Object.keys(shape)) { const l: string[] = []; for (const { key, value } of s[k].getRange()) l.push(`${Buffer.isBuffer(key) ? key.toString('hex') : key}=${Buffer.isBuffer(value) ? value.toString('hex') : String(value)}`); out[k] = l; } return out; };
  const learn = (s: any) => { shape = {}; for (const k of Object.keys(s)) { const db = s[k]; if (k === 'root' || typeof db?.getRange !== 'function') continue; shape[k] = { name: db.name, keyEncoding: db.keyEncoding ?? (db.keyIsBuffer ? 'binary' : db.keyIsUint32 ? 'uint32' : 'ordered-binary'), encoding: db.encoding, dupSort: !!db.dupSort }; } };
  const registry = (reg: number[], fail: number) => {
    const l = reg.map(e => ({ from: Math.floor(e / 10), to: e % 10, description: `step ${e}`, run: (s: any) => {
      const k = `m${Math.floor(e / 10)}-${e % 10}`; const n = (s.meta.get(k) ?? 0) + 1; s.meta.put(k, n); count++;
      if (count === fail) { s.meta.put('half', true); s.plan.put('half', { x: 1 }); if (ctx.flavour === 1) return Promise.reject(new Error('step')); throw new Error('step'); }
      if (ctx.flavour === 2) return new Promise<void>(r => setImmediate(() => { s.plan.put('later', { x: 1 }); r(); }));
    } }));
    let count = 0; for (let i = l.length - 1; i > 0; i--) { const j = Math.floor(rnd() * (i + 1)); [l[i], l[j]] = [l[j]!, l[i]!]; } return l;
  };
  const openAll = (k: number) => clock(() => Promise.allSettled(Array.from({ length: k }, () => store.getGraphStore())));
  const verdict = (rs: any[]) => { const v = rs.map((r: any) => r.status === 'fulfilled' ? 'ok' : r.reason?.name === 'LmdbStoreSchemaVersionMismatch' ? 'newer' : `? ${r.reason}`); return v.every(x => x === v[0]) ? v[0] : v.join(); };
  return {
    sets: ['repos', 'X'],
    async close() { onWrite = null; await done(); },
    async reset(st: any) {
      onWrite = null; dir = await fresh(ctx.scratch); init = st; opened = false; rid = {}; mode = ctx.consts.mode;
      const s = await store.getGraphStore(); if (!shape) learn(s);
      if (mode === 'runner') { await s.meta.put('schema_version', st.ver); return; }
      await build(st); base = { rows: await rows(s) }; await store.closeGraphStore(); base.file = join(dir, 'base'); copyFileSync(lmdb(), base.file); base.step = st.ver;
    },
    async step(a: any) {
      if (a.name === 'Run') {
        const s = await store.getGraphStore(); const at = s.meta.get('schema_version');
        return Mig.runMigrations(s, at, a.to, registry(a.reg, a.fail)).then((n: number) => ({ r: 'ok', n }), (e: any) => ({ r: e?.name === 'MigrationPathError' ? 'path' : e?.message === 'step' ? 'fail' : `? ${e}`, n: 0 }));
      }
      await store.closeGraphStore();
      if (a.name === 'Open') { const r = verdict(await openAll(a.k)); opened = r === 'ok'; return { r, torn: false }; }
      // CrashOpen: what a crash right before the n-th write leaves on disk
      const snap = join(ctx.scratch, 'snap'); rmSync(snap, { recursive: true, force: true }); let n = 0;
      onWrite = () => { if (++n === a.n) copy(snap); };
      try { await openAll(1); } finally { onWrite = null; }
      await store.closeGraphStore(); let torn = false;
      if (existsSync(join(snap, 'graph.lmdb'))) {
        copyFileSync(join(snap, 'graph.lmdb'), lmdb()); rmSync(snap, { recursive: true, force: true });
        if (!opened) {
          const s = await raw(lmdb()); const v = s.meta.get('schema_version'); const got = await rows(s); await s.root.close();
          torn = !same(got, v === init.ver ? base.rows : await reference(v));
        }
      }
      const r = verdict(await openAll(1)); opened = r === 'ok'; return { r, torn };
    },
    async project() {
      if (mode === 'runner') { const s = await store.getGraphStore(); const log: any = {}; for (const { key, value } of s.meta.getRange()) if (/^m\d/.test(String(key))) log[String(key).slice(1)] = value; const half = s.meta.get('half') !== undefined || s.plan.get('half') !== undefined; return { ver: s.meta.get('schema_version'), log, repos: half ? ['half'] : [], E: {}, X: [] }; }
      if (!opened) { // nothing may have touched the file
        await store.closeGraphStore(); const s = await raw(lmdb()); const got = await rows(s); await s.root.close();
        return same(got, base.rows) ? init : { changed: got };
      }
      const s = await store.getGraphStore(); const notes: string[] = []; const E: any = {}; const back = new Map([...u64].map(([i, k]) => [String(k), i]));
      const repos: string[] = []; for (const { key, value } of s.repo.getRange()) { const row = Codec.decodeRepoRow(value); const n = name(row.id); repos.push(n); if (Keys.decodeRepoKey(key) !== row.id) notes.push('repo key'); if (n !== 'w' && n !== 'p' && (row.kind !== 'shared-modules' || row.namespace !== n)) notes.push(`row ${n}`); if (n === 'w' && (row.kind !== 'workspace' || row.path !== '/w/app' || row.name !== 'repo w' || row.addedAt !== T - 5 || row.lastIndexed !== 7 || row.status !== 'ready')) notes.push('workspace row changed'); }
      const listed = (await Rep.listRepos(undefined)).map((x: any) => x.path); if (!same(listed.filter((p: string) => p !== ''), repos.includes('w') ? ['/w/app'] : [])) notes.push(`listed: ${listed}`);
      for (const { key, value } of s.entity.getRange()) {
        const k = Keys.decodeEntityKey(key), i = back.get(String(k)) ?? `?${k}`, row = Codec.decodeEntityRow(value); E[i] = name(row.repoId);
        if (row.name !== F.name[i] || row.kind !== KIND[i] || row.body !== `body of ${i}` || row.language !== F.lang[i] || row.startLine !== 3 || row.indexedAt !== T - 9) notes.push(`content of ${i}`);
        const sid = s.entityStringByU64.get(key); if (sid !== newId(i)) notes.push(`id of ${i}: ${sid}`);
        if (String(s.entityIdByString.get(newId(i))) !== String(k)) notes.push(`lookup of ${i}`);
        const nk = Keys.encodeNameIndexKey(row.repoId, Keys.ENTITY_KIND_BYTE[row.kind], row.name); if (![...s.nameIndex.getValues(nk)].some((v: any) => Buffer.compare(v, key) === 0)) notes.push(`name of ${i}`);
      }
      const live = Object.keys(E).length; const size = (db: any) => [...db.getRange()].length;
      if (size(s.entityIdByString) !== live) notes.push('stale ids'); if (size(s.entityStringByU64) !== live) notes.push('stale reverse ids'); if (size(s.nameIndex) !== live) notes.push('stale names');
      const X: any[] = []; const kb = Keys.RELATION_KIND_BYTE[F.kind]; for (const { key } of s.outEdge.getRange()) { const e = Keys.decodeOutEdgeKey(key); X.push([back.get(String(e.from)) ?? '?', back.get(String(e.to)) ?? '?']); if (e.kind !== kb || s.inEdge.get(Keys.encodeInEdgeKey(e.to, e.kind, e.from)) === undefined) notes.push('edge'); }
      if (size(s.inEdge) !== X.length) notes.push('stale incoming edges');
      return { ver: s.meta.get('schema_version'), log: {}, repos, E, X, ...(notes.length ? { notes } : {}) };
    },
  };
}
