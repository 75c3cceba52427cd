// Observes and disturbs the file-system calls that the code under test makes below one directory.
// Every *mutating* call is a point where a fault, a crash or someone else's edit can be placed.
import fs from 'node:fs';
import { syncBuiltinESMExports } from 'node:module';
import { join, resolve, sep } from 'node:path';
export type Snap = Record<string, string>;
type Info = { n: number, op: string, path: string, to?: string, data?: string | Uint8Array, kind: 'write' | 'read' };
export type Hooks = { root: string, before?: (i: Info) => void, after?: (i: Info) => void, torn?: (i: Info) => void };
let hooks: Hooks | null = null, depth = 0, n = 0, nr = 0;
const raw: any = { ...fs }; const rawP: any = { ...fs.promises };
const fds = new Map<number, string>();
const under = (p: any): string | null => { if (!hooks) return null; const s = typeof p === 'number' ? fds.get(p) : p instanceof URL ? p.pathname : Buffer.isBuffer(p) ? p.toString() : typeof p === 'string' ? p : undefined; if (s === undefined) return null; const r = resolve(s); return r === hooks.root || r.startsWith(hooks.root + sep) ? r : null; };
const WRITES: Record<string, number[]> = { writeFileSync: [0], appendFileSync: [0], writeSync: [0], renameSync: [0, 1], unlinkSync: [0], rmSync: [0], rmdirSync: [0], mkdirSync: [0], copyFileSync: [1], cpSync: [1], truncateSync: [0], ftruncateSync: [0], linkSync: [1], symlinkSync: [1], closeSync: [0], openSync: [0], writevSync: [0] };
const READS = ['readFileSync', 'statSync', 'lstatSync', 'fstatSync', 'existsSync', 'readdirSync', 'accessSync'];
const data = (op: string) => /^(write|append)/.test(op);
const mutates = (op: string, a: any[]) => op === 'openSync' || op === 'open' ? /[wa+x]/.test(String(a[1] ?? 'r')) || (typeof a[1] === 'number' && (a[1] & 3) !== 0) : op !== 'mkdirSync' && op !== 'mkdir' || !raw.existsSync(a[0]);
const info = (op: string, pos: number[], a: any[], kind: 'write' | 'read'): Info | null => {
  const hit = pos.map(i => under(a[i])).find(x => x !== null); if (hit === undefined) return null;
  if (kind === 'write' && !mutates(op, a)) return null;
  return { n: kind === 'write' ? ++n : ++nr, op, path: under(a[pos[0]!]) ?? String(a[pos[0]!]), ...(pos.length > 1 ? { to: String(a[pos[1]!]) } : {}), ...(data(op) ? { data: a[1] } : {}), kind };
};
const quiet = <T,>(f: () => T): T => { depth++; try { return f(); } finally { depth--; } };
for (const [op, pos] of Object.entries(WRITES)) {
  const orig = raw[op]; if (typeof orig !== 'function') continue;
  (fs as any)[op] = function (...a: any[]) {
    if (!hooks || depth) return orig.apply(this, a);
    const i = info(op, pos, a, 'write'); if (!i) { const r = quiet(() => orig.apply(this, a)); if (op === 'openSync' && typeof r === 'number') fds.set(r, String(a[0])); return r; }
    quiet(() => hooks?.before?.(i));
    const r = quiet(() => orig.apply(this, a));
    if (op === 'openSync') fds.set(r, String(a[0])); if (op === 'closeSync') fds.delete(a[0]);
    quiet(() => hooks?.after?.(i)); return r;
  };
}
for (const op of READS) {
  const orig = raw[op];
  (fs as any)[op] = function (...a: any[]) {
    if (!hooks || depth) return orig.apply(this, a);
    const i = info(op, [0], a, 'read'); if (!i) return orig.apply(this, a);
    quiet(() => hooks?.before?.(i)); const r = quiet(() => orig.apply(this, a)); quiet(() => hooks?.after?.(i)); return r;
  };
}
// the asynchronous interface: only the call boundaries are points
for (const [op, pos] of Object.entries({ writeFile: [0], appendFile: [0], rename: [0, 1], unlink: [0], rm: [0], mkdir: [0], copyFile: [1], truncate: [0] })) {
  const orig = rawP[op];
  (fs.promises as any)[op] = async function (...a: any[]) {
    if (!hooks || depth) return orig.apply(this, a);
    const i = info(op, pos, a, 'write'); if (!i) return orig.apply(this, a);
    quiet(() => hooks?.before?.(i)); const r = await orig.apply(this, a); quiet(() => hooks?.after?.(i)); return r;
  };
}
syncBuiltinESMExports();
export const real = raw;
export function watch(h: Hooks) { hooks = h; n = 0; nr = 0; }
export function unwatch(): number { hooks = null; return n; }
/** Every file below root with its content (base64-free: latin1 keeps every byte). */
export function snap(root: string): Snap {
  const out: Snap = {};
  quiet(() => { const go = (d: string, rel: string) => { let es: any[]; try { es = raw.readdirSync(d, { withFileTypes: true }); } catch { return; } for (const e of es) { const p = join(d, e.name), r = rel ? `${rel}/${e.name}` : e.name; if (e.isDirectory()) go(p, r); else out[r] = raw.readFileSync(p, 'latin1'); } }; go(root, ''); });
  return out;
}
export function restore(root: string, s: Snap) {
  quiet(() => { raw.rmSync(root, { recursive: true, force: true }); raw.mkdirSync(root, { recursive: true }); for (const [p, c] of Object.entries(s)) { const f = join(root, p); raw.mkdirSync(join(f, '..'), { recursive: true }); raw.writeFileSync(f, c, 'latin1'); } });
}
/** What a torn write leaves: the first half of the data that was to be written. */
export function tear(i: Info) {
  if (i.data === undefined) return;
  const b = typeof i.data === 'string' ? Buffer.from(i.data) : Buffer.from(i.data); const half = b.subarray(0, Math.floor(b.length / 2));
  quiet(() => { if (i.op.startsWith('append') || i.op === 'writeSync') raw.appendFileSync(i.path, half); else raw.writeFileSync(i.path, half); });
}
export const failure = (i: Info, code: string) => Object.assign(new Error(`${code}: injected, ${i.op} '${i.path}'`), { code, errno: -1, syscall: i.op.replace('Sync', ''), path: i.path });
