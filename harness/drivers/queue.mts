import { settle, deferred } from '../lib/util.mts';
const { IndexQueue } = await import(`${process.env.VERIF_REPO ?? '/repo'}/src/daemon/queue.ts`);

const FLAV = [
  (k: string) => ({ A: '/r/a', B: '/r/a/b', p: '/r/a/x.ts', q: '/r/a/x.tsx', e: 'e1', f: 'e11', g: 'g' }[k] ?? k),
  (k: string) => ({ A: '/r/global', B: '/r/Global', p: '/r/ü.ts', q: '/r/u.ts', e: '/r/a', f: '/r/b', g: 'g' }[k] ?? k),
  (k: string) => ({ A: 'global', B: 'project:global', p: 'global', q: 'x', e: 'x', f: 'global', g: 'g' }[k] ?? k),
];
export default async function create(ctx: any) {
  const c = FLAV[ctx.flavour % FLAV.length]!;
  const scope = (key: string) => key === 'g' ? { kind: 'global' } : { kind: 'project', repoPath: c(key) };
  const mk = (j: any): any => {
    switch (j.k) {
      case 'file': return { kind: 'file', filePath: c(j.key), event: j.ev };
      case 'config-file': return { kind: 'config-file', filePath: c(j.key), scope: { kind: 'global' }, event: j.ev };
      case 'config-full': case 'config-reindex': return { kind: j.k, scope: scope(j.key) };
      case 'doc-summarise-entity': return { kind: j.k, entityId: c(j.key) };
      default: return { kind: j.k, repoPath: c(j.key) };
    }
  };
  class World {
    q = new IndexQueue(); gate: any = null; cur: any = null; tags = new Map<any, any>(); active = 0; maxActive = 0; loopDone: Promise<void> | null = null; loop = false; executed: any[] = [];
    proc = async (job: any) => {
      this.active++; this.maxActive = Math.max(this.maxActive, this.active);
      this.cur = job; this.executed.push(job); this.gate = deferred();
      try { await this.gate.promise; } finally { this.active--; this.cur = null; this.gate = null; }
    };
    async apply(a: any) {
      if (a.name === 'Submit') { const j = mk(a.job); this.tags.set(j, a.job); this.q.enqueue(j); }
      else if (a.name === 'Burst') for (const x of [a.j1, a.j2]) { const j = mk(x); this.tags.set(j, x); this.q.enqueue(j); }
      else if (a.name === 'Finish') { const g = this.gate; if (a.ok) g.resolve(); else g.reject(new Error('job failed')); }
      else if (a.name === 'Stop') this.q.stop();
      else if (a.name === 'Start') { this.loop = true; this.loopDone = this.q.start(this.proc).then(() => { this.loop = false; }); }
      await settle(2);
    }
    tag(j: any) { return j === null ? [] : [this.tags.get(j) ?? { unknown: j }]; }
  }
  let w: World; let hist: any[] = []; let up = true;
  return {
    async reset() { w = new World(); hist = []; up = true; },
    async step(a: any) { hist.push(a); if (a.name === 'Stop') up = false; if (a.name === 'Start') up = true; await w.apply(a); },
    async project() {
      if (w.maxActive > 1) return { overlapping: w.maxActive };
      if (w.q.isProcessing !== (w.cur !== null)) return { isProcessing: w.q.isProcessing };
      // a twin with the same history is drained to learn what waits, in which order, with which event
      const t = new World(); for (const a of hist) await t.apply(a);
      const run = t.tag(t.cur); const depth = t.q.depth; const n0 = t.executed.length;
      if (!t.loop) await t.apply({ name: 'Start' });
      else if (!up) { t.gate?.resolve(); await settle(2); await t.apply({ name: 'Start' }); }
      for (let i = 0; i < 50 && t.gate; i++) { t.gate.resolve(); await settle(2); }
      const pend = t.executed.slice(n0).map(j => t.tag(j)[0]);
      t.q.stop(); await settle(1);
      if (w.q.depth !== pend.length || depth !== pend.length) return { depth: w.q.depth, pend };
      if (t.maxActive > 1) return { overlapping: t.maxActive };
      return { pend, run: w.tag(w.cur), up, loop: w.loop, ...(JSON.stringify(run) === JSON.stringify(w.tag(w.cur)) ? {} : { runTwin: run }) };
    },
  };
}
