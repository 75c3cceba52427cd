// Drives src/config/reconcile-io.ts against spec/ConfigFile.tla (C02): real files, with faults, crashes and edits placed at its file-system calls.
import * as ff from '../lib/fsfault.mts';
import { join } from 'node:path';
import { same } from '../lib/util.mts';
const R = process.env.VERIF_REPO ?? '/repo';
const Io = await import(`${R}/src/config/reconcile-io.ts`), Cat = await import(`${R}/src/config/config-catalog.ts`), { PATHS } = await import(`${R}/src/shared/paths.ts`);
const fs = ff.real;
const at = (d: any, p: string[]): any => p.reduce((x, k) => (x !== null && typeof x === 'object' && Object.hasOwn(x, k) ? x[k] : undefined), d);
const put = (d: any, p: string[], v: any) => { let x = d; for (const k of p.slice(0, -1)) x = x[k] ??= {}; x[p.at(-1)!] = v; };
export default async function create(ctx: any) {
  const real = ctx.flavour !== 0, root = ctx.flavour === 2 ? join(PATHS.config, '..') : join(ctx.scratch, 'home'), file = ctx.flavour === 2 ? PATHS.config : join(root, 'config.json');
  const rows = real ? Cat.CONFIG_CATALOG : [{ path: 'a.x', type: 'string', default: 'dflt', desc: '' }, { path: 'y', type: 'string', default: '', desc: '' }];
  const strs = rows.filter((o: any) => o.type === 'string' || o.type === 'enum'); const X = strs[0], Y = strs.at(-1);
  const P: any = { x: X.path.split('.'), y: Y.path.split('.'), u: real ? ['mine', 'sub'] : ['a', 'mine'] };
  const dflt: any = { x: X.default, y: Y.default };
  const others = rows.filter((o: any) => o !== X && o !== Y);
  const cats: any = { one: rows.filter((o: any) => o !== Y), two: real ? undefined : rows, bad: [...rows.filter((o: any) => o !== Y), { path: 'zz.bad', type: 'number', default: 'no number', desc: '' }] };
  const val = (n: string, v: string) => v === 'd' ? dflt[n] : v === 's1' ? 'one \u00e9\u6f22' : 'two';
  let stamp = 1e9, turn = 0, notes: string[] = [];
  const clear = () => { if (fs.existsSync(root)) for (const e of fs.readdirSync(root)) if (e.startsWith('config')) fs.rmSync(join(root, e), { recursive: true, force: true }); fs.mkdirSync(root, { recursive: true }); };
  const body = (w: string): string => {
    if (w === 'junk') return ['{"models": {', '', '{} trailing', '\u0000\u0001', '// c\n{}'][(turn + ctx.seed) % 5]!;
    if (w === 'odd') return ['[]', 'null', '"x"', '7', '[{"models":1}]'][(turn + ctx.seed) % 5]!;
    const U: any = { empty: {}, x: { x: 's1' }, xy: { x: 's1', y: 's2' }, u: { u: 's1' }, xu: { x: 'd', u: 's2' }, full: { x: 's2', y: 'd', u: 's1' } };
    const d: any = {}; for (const o of others) put(d, o.path.split('.'), o.default); for (const [n, v] of Object.entries<string>(U[w])) put(d, P[n], val(n, v));
    return JSON.stringify(d, null, turn % 3);
  };
  const write = (w: string, how = 0) => {
    if (w === 'absent') { fs.rmSync(file, { recursive: true, force: true }); return; }
    if (fs.existsSync(file) && fs.statSync(file).isDirectory()) fs.rmSync(file, { recursive: true });
    if (w === 'dir') { fs.rmSync(file, { force: true }); fs.mkdirSync(file); return; }
    const size = fs.existsSync(file) ? fs.statSync(file).size : 0, keep = how === 2 && fs.existsSync(file) && size !== Buffer.byteLength(body(w)) ? fs.statSync(file, { bigint: false }).mtime : null;
    if (how === 1) { fs.writeFileSync(`${file}.editor`, body(w)); fs.renameSync(`${file}.editor`, file); } else fs.writeFileSync(file, body(w));
    stamp += 10; if (keep) fs.utimesSync(file, keep, keep); else fs.utimesSync(file, stamp, stamp);
  };
  const ident = () => { try { const s = fs.statSync(file, { bigint: true }); return `${s.ino}/${s.mtimeNs}/${s.size}/${s.isDirectory() ? 'dir' : fs.readFileSync(file, 'latin1')}`; } catch { return 'none'; } };
  const listing = () => fs.readdirSync(root).filter((e: string) => e.startsWith('config')).sort();
  return {
    async reset(init: any) { turn = 0; notes = []; clear(); if (init.f.k !== 'absent') throw new Error('init'); },
    async step(a: any) {
      turn++; notes = [];
      if (a.name === 'UserWrites') { write(a.w, turn % 2); return 'ok'; }
      let reads = 0, muts = 0, dead = false, changes = 0, last = ident(), edited = false;
      const before = listing(); const look = () => { const now = ident(); if (now !== last) { changes++; last = now; } };
      const code = ['EIO', 'EACCES', 'ENOSPC', 'EROFS'][(turn + ctx.seed) % 4]!;
      const edit = () => { if (!edited) { edited = true; write(a.w, (turn + ctx.seed) % 3); last = ident(); } };
      const isFile = (i: any) => i.path === file && i.op !== 'existsSync';
      ff.watch({ root,
        before(i) {
          if (dead) throw ff.failure(i, 'EIO');
          if (i.kind === 'read') { if (isFile(i) && ++reads === a.i && a.name === 'ReadFault') throw ff.failure(i, code); return; }
          look(); muts++;
          if (muts === a.i && (a.name === 'WriteFault' || a.name === 'Crash')) { if (a.half) ff.tear(i); if (a.name === 'Crash') dead = true; look(); throw ff.failure(i, code); }
        },
        after(i) {
          if (i.kind === 'read') { if (isFile(i) && a.name === 'Race' && (a.at === 'look' || (a.at === 'read' && i.op === 'readFileSync'))) edit(); return; }
          look(); if (a.name === 'Race' && a.at === 'write' && muts === 1) edit();
        } });
      let r: any; try { r = Io.reconcileConfigFile({ ...(ctx.flavour === 2 ? {} : { configPath: file }), ...(a.cat === 'two' && real ? {} : { catalog: cats[a.cat] }) }); } catch (e: any) { r = { kind: `threw ${e}` }; } finally { ff.unwatch(); }
      if (a.name === 'Race' && !edited) { edit(); if (!changes) r = { kind: 'late' }; }
      look();
      if ((r.kind === 'written' || r.kind === 'first-boot') && !dead && !same(JSON.parse(fs.readFileSync(file, 'utf8')), r.result?.config)) notes.push('the file is not what was reported');
      if (r.kind === 'written' && !dead && r.result.changed !== true) notes.push('written without a change');
      return { kind: dead ? 'died' : r.kind, changes, left: dead ? 0 : listing().filter((e: string) => !before.includes(e) && e !== 'config.json').length };
    },
    async project() {
      const f = (() => {
        if (!fs.existsSync(file)) return { k: 'absent', d: {} };
        if (fs.statSync(file).isDirectory()) return { k: 'dir', d: {} };
        let v: any; try { v = JSON.parse(fs.readFileSync(file, 'utf8')); } catch { return { k: 'junk', d: {} }; }
        if (typeof v !== 'object' || v === null || Array.isArray(v)) return { k: 'odd', d: {} };
        const d: any = {}; for (const n of ['x', 'y', 'u']) { const x = at(v, P[n]); if (x !== undefined) d[n] = n !== 'u' && x === dflt[n] ? 'd' : x === val(n, 's1') ? 's1' : x === val(n, 's2') ? 's2' : `? ${JSON.stringify(x)}`; }
        for (const o of others) if (at(v, o.path.split('.')) !== o.default) notes.push(`row ${o.path} is ${at(v, o.path.split('.'))}`);
        return { k: 'doc', d };
      })();
      return { f, ...(notes.length ? { notes } : {}) };
    },
    close() { clear(); },
  };
}
