import { settle, deferred } from '../lib/util.mts';
import { mkdirSync, existsSync, readdirSync, rmSync } from 'node:fs';
import { join } from 'node:path';
const R = process.env.VERIF_REPO ?? '/repo';
const reg = await import(`${R}/src/daemon/workflow-run-registry.ts`);
import * as clock from '../lib/clock.mts';

const PLAN = { workflow: 'stub', steps: [{ id: 's1', runner: 'echo.a', params: {} }, { id: 's2', runner: 'echo.b', params: {} }, { id: 's3', runner: 'echo.c', params: {} }] };
const BADPLAN = { workflow: 'stub', steps: [{ id: 's1', runner: 'echo.zzz', params: {} }] };
const ART = { body: { title: 'Demo', summary: 'A demo summary grounded in a step [[c1]].', bulletList: ['first point [[c1]]'] }, citations: [{ id: 'c1', kind: 'step-output', ref: 's1' }] };
const BADART = { body: { title: 'Demo' }, citations: [] };
const REAL_CAP = 64;

class Gated {
  gates: any[] = []; calls = 0; readonly supportsTools = false;
  get capabilities() { return { structuredOutput: true, toolCalling: false, vision: false, webSearch: false, streaming: false, embeddings: false }; }
  async complete(): Promise<never> { throw new Error('unused'); }
  async *stream(): AsyncIterable<string> { throw new Error('unused'); }
  async embed(): Promise<number[]> { return []; }
  completeStructured(): Promise<any> { this.calls++; const g = deferred(); this.gates.push(g); return g.promise; }
}
let n = 0;
export default async function create(ctx: any) {
  const cap: number = ctx.consts.Cap; let runs: any[] = []; let repo = '';
  clock.install(1_700_000_000_000);
  const start = (id: string) => {
    const p = new Gated();
    const prep: any = { intent: { workflow: 'stub', focus: 'demo stub run', repoPath: repo, repoIndexedAt: null, params: {} }, runId: id, epicKey: `demo-${id}`, provider: p, modelLabel: 'ollama:m', clientDefault: undefined, review: false };
    const { runId } = reg.startWorkflowRun({ workflow: 'stub' }, { prepare: () => prep });
    if (runId !== id) throw new Error('runId');
    return { id, p };
  };
  const files = (id: string) => { const md = existsSync(join(repo, 'docs/stub', `demo-stub-${id}.md`)) || readdirSync(repo, { recursive: true } as any).some((f: any) => String(f).endsWith(`${id}.md`)); const js = readdirSync(repo, { recursive: true } as any).some((f: any) => String(f).endsWith(`${id}.json`)); return md && js ? true : (md || js ? 'half' : false); };
  return {
    async reset() {
      reg._resetWorkflowRuns(); runs = []; n++;
      if (repo) rmSync(repo, { recursive: true, force: true });
      repo = join(ctx.scratch, `repo-${n}`); mkdirSync(repo, { recursive: true });
      for (let i = 0; i < REAL_CAP - cap; i++) start(`pad-${n}-${i}`);
      await settle(1);
    },
    async step(a: any) {
      clock.advance(1000);
      const run = a.i ? runs[a.i - 1] : null;
      switch (a.name) {
        case 'Start': runs.push(start(`w-${n}-${runs.length}`)); await settle(2); return;
        case 'Return': {
          const g = run.p.gates.shift(); const first = run.done0 !== true; run.done0 = true;
          if (a.o === 'throw') g.reject(new Error('provider failed'));
          else g.resolve(structuredClone(first ? (a.o === 'ok' ? PLAN : BADPLAN) : (a.o === 'ok' ? ART : BADART)));
          await settle(6); return;
        }
        case 'Abort': { const r = reg.abortWorkflowRun(run.id); await settle(2); return r; }
        case 'AbortUnknown': return reg.abortWorkflowRun(`nope-${n}`);
        case 'PollUnknown': case 'Poll': {
          const r: any = reg.pollWorkflowRun(run ? run.id : 'nope', a.c);
          if (r.status === 'unknown') return { status: 'unknown', frames: r.frames };
          return { status: r.status, frames: r.frames.map((f: any) => f.phase), cursor: r.cursor, err: r.error !== undefined, res: r.result !== undefined };
        }
      }
      throw new Error(a.name);
    },
    async project() {
      return runs.map(x => {
        const r: any = reg.pollWorkflowRun(x.id, 0); const busy = x.p.gates.length > 0; const f = files(x.id);
        if (r.status === 'unknown') return { live: false, files: f, busy };
        return { live: true, st: r.status, frames: r.frames.map((y: any) => y.phase), err: r.error !== undefined, res: r.result !== undefined, files: f, busy };
      });
    },
  };
}
