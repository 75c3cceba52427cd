// A fresh, private LMDB graph store per behaviour.
import { rmSync, mkdirSync } from 'node:fs';
import { join } from 'node:path';
const repo = process.env.VERIF_REPO ?? '/repo';
export const store = await import(`${repo}/src/db/graph/store.ts`);
let n = 0; let cur: string | null = null;
export async function fresh(scratch: string): Promise<string> {
  await store.closeGraphStore();
  if (cur) rmSync(cur, { recursive: true, force: true });
  cur = join(scratch, `g${n++}`); mkdirSync(cur, { recursive: true });
  store.setGraphStorePath(join(cur, 'graph.lmdb'));
  await store.getGraphStore();
  return cur;
}
/** close and open again: everything acknowledged must still be there */
export async function reopen(): Promise<void> { await store.closeGraphStore(); await store.getGraphStore(); }
export async function done(): Promise<void> { await store.closeGraphStore(); if (cur) rmSync(cur, { recursive: true, force: true }); cur = null; }
/** every stored row, byte for byte, table by table */
export async function dump(): Promise<Record<string, string[]>> {
  const s = await store.getGraphStore(); const out: Record<string, string[]> = {};
  for (const k of Object.keys(s)) {
    const db = s[k]; if (k === 'root' || typeof db?.getRange !== 'function') continue;
    const rows: string[] = [];
    const enc = (x: any) => Buffer.isBuffer(x) ? 'x' + x.toString('hex') : JSON.stringify(x, (_k, v) => typeof v === 'bigint' ? `${v}n` : v);
    for (const { key, value } of db.getRange()) rows.push(enc(key) + '=' + enc(value));
    out[k] = rows;
  }
  return out;
}
