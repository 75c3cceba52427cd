import { createHash } from 'node:crypto';
export function rngFrom(seed: number): () => number {
  let a = (seed >>> 0) || 1;
  return () => { a |= 0; a = a + 0x6D2B79F5 | 0; let t = Math.imul(a ^ a >>> 15, 1 | a); t = t + Math.imul(t ^ t >>> 7, 61 | t) ^ t; return ((t ^ t >>> 14) >>> 0) / 4294967296; };
}
/** canonical form: object keys sorted; empty object == empty array; arrays under `sets` keys sorted. */
export function canon(x: any, sets: ReadonlySet<string> = new Set(), key = ''): any {
  if (x === undefined) return null;
  if (Array.isArray(x)) { const a = x.map(v => canon(v, sets, key + '[]')); if (sets.has(key)) { const u = [...new Set(a.map(v => JSON.stringify(v)))].sort(); return u.map(v => JSON.parse(v)); } return a; }
  if (x && typeof x === 'object') {
    const ks = Object.keys(x).filter(k => x[k] !== undefined).sort(); if (ks.length === 0) return [];
    const o: any = {}; for (const k of ks) o[k] = canon(x[k], sets, k); return o;
  }
  if (typeof x === 'bigint') return x.toString();
  return x;
}
export const same = (a: any, b: any, sets?: ReadonlySet<string>) => JSON.stringify(canon(a, sets)) === JSON.stringify(canon(b, sets));
export const sha = (s: string) => createHash('sha256').update(s).digest('hex');
/** let every pending microtask / immediate run */
export async function settle(rounds = 3): Promise<void> { for (let i = 0; i < rounds; i++) await new Promise<void>(r => setImmediate(r)); }
export function deferred<T = any>() { let resolve!: (v: T) => void, reject!: (e: any) => void; const promise = new Promise<T>((a, b) => { resolve = a; reject = b; }); return { promise, resolve, reject }; }
export const outcome = <T,>(p: Promise<T>) => { const o: { s: 'pending' | 'ok' | 'err', v?: T, e?: any } = { s: 'pending' }; p.then(v => { o.s = 'ok'; o.v = v; }, e => { o.s = 'err'; o.e = e; }); return o; };
