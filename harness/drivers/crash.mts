// W10: wraps another driver and looks at the file system at every modifying call its steps make (spec/*Crash.tla).
import * as ff from '../lib/fsfault.mts';
import * as clock from '../lib/clock.mts';
import { canon } from '../lib/util.mts';
const J = (x: any) => JSON.stringify(canon(x));
const counts = (f: string) => !f.endsWith('.tmp');
export default async function create(ctx: any) {
  const d: any = await (await import(`./${ctx.consts.inner}`)).default(ctx);
  const root = ctx.scratch, raw = new Set<string>(ctx.consts.raw ?? []), once = new Set<string>(ctx.consts.once ?? []);
  let turn = 0;
  const documents = (s: ff.Snap) => Object.keys(s).filter(counts);
  return {
    sets: d.sets, crashes: d.crashes,
    reset: (i: any) => { turn = 0; return d.reset(i); },
    async step(a: any, last: boolean) {
      turn++; const { fault, half, ...inner } = a;
      if (raw.has(a.name)) return { r: await d.step(inner, last), torn: [], damaged: [], silent: [] };
      const before = ff.snap(root), t0 = clock.get(); let left: ff.Snap | null = null, failed: any = null;
      if (fault > 0 && !once.has(a.name)) { // the fault-th modifying call fails
        let n = 0; const code = ['ENOSPC', 'EIO', 'EROFS', 'EACCES'][(turn + fault) % 4]!; let fired = false;
        ff.watch({ root, before(i) { if (i.kind === 'read') return; if (++n === fault) { fired = true; if (half) ff.tear(i); throw ff.failure(i, code); } } });
        try { failed = await d.step(inner, last); } catch (e: any) { failed = { uncaught: String(e?.message ?? e) }; } finally { ff.unwatch(); }
        if (fired) { left = ff.snap(root); ff.restore(root, before); clock.set(t0); }
        else return { r: failed, torn: [], damaged: [], silent: [] };
      }
      const shots: ff.Snap[] = []; const versions = new Map<string, Set<string>>(); const allow = (p: string, c: string) => { if (!versions.has(p)) versions.set(p, new Set()); versions.get(p)!.add(c); };
      const rel = (p: string) => p.slice(root.length + 1);
      ff.watch({ root,
        before(i) { if (i.kind === 'read') return; const s = ff.snap(root); shots.push(s); if (i.data !== undefined) { const p = rel(i.path), b = Buffer.from(i.data as any), h = b.subarray(0, Math.floor(b.length / 2)).toString('latin1'); shots.push({ ...s, [p]: i.op.startsWith('append') ? (s[p] ?? '') + h : h }); } },
        after(i) { if (i.op === 'renameSync' || i.op === 'rename') { const p = rel(i.to!); const s = ff.snap(root); if (s[p] !== undefined) allow(p, s[p]!); } } });
      let r: any; try { r = await d.step(inner, last); } finally { ff.unwatch(); }
      const after = ff.snap(root); for (const s of [before, after]) for (const [p, c] of Object.entries(s)) allow(p, c);
      const bad = (s: ff.Snap) => [...documents(s).filter(p => !versions.get(p)?.has(s[p]!)), ...documents(before).filter(p => p in after && !(p in s)).map(p => `missing ${p}`)];
      const torn = [...new Set(shots.flatMap(bad))].sort();
      const damaged = left ? bad(left).sort() : [];
      const silent = left && !(ctx.consts.quiet ?? []).includes(a.name) && J(failed) === J(r) ? [...documents(after).filter(p => left![p] !== after[p]), ...documents(left).filter(p => !(p in after))] : [];
      return { r, torn, damaged, silent };
    },
    project: (a: any) => { if (!a) return d.project(); const { fault, half, ...inner } = a; return d.project(inner); },
    close: () => d.close?.(),
  };
}
