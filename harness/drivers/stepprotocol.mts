import { mkdirSync, rmSync, readdirSync, readFileSync } from 'node:fs';
import { join } from 'node:path';
const R = process.env.VERIF_REPO ?? '/repo';
const { handleWorkflowStep } = await import(`${R}/src/mcp/workflow-step/handler.ts`);
const { _clearWorkflowStateStoreForTests } = await import(`${R}/src/mcp/workflow-step/state-store.ts`);
const wf = await import(`${R}/src/workflow/index.ts`); const ex = await import(`${R}/src/workflow/executor.ts`);
const body = (e: any) => { const p = JSON.parse(e.content[0].text); if ((p.next === 'error') !== (e.isError === true)) throw new Error('isError flag does not match'); return p; };
const ART = (r: number) => ({ body: { title: `Demo ${r}`, summary: 'A demo summary grounded in a step [[c1]].', bulletList: ['first point [[c1]]'] }, citations: [{ id: 'c1', kind: 'step-output', ref: 's1' }] });
let n = 0;
export default async function create(ctx: any) {
  try { wf.registerWorkflowRunners(); } catch { /* once */ }
  const asked: any[] = [];
  ex.registerRunner({ id: 'echo.ask', workflow: 'stub', async run(c: any) { return { type: 'llm-pause', prompt: 'p', userTurn: 'turn 1', schema: { type: 'object' }, preparedBlob: { turn: 1, seed: c.params.seed } }; },
    async finalize(resp: any, blob: any, c: any) { asked.push([blob, c.params.seed]);
      if (resp.k === 'answer') return { type: 'output', output: { marker: `${blob.seed}:${blob.turn}`, echoed: 'x' } };
      if (resp.k === 'again') return { type: 'llm-pause', prompt: 'p', userTurn: `turn ${blob.turn + 1}`, schema: { type: 'object' }, preparedBlob: { turn: blob.turn + 1, seed: blob.seed } };
      return { type: 'error', code: 'rejected', message: 'not like that', retryable: true }; } });
  let repos: string[] = [], toks: string[] = [];
  const plan = (k: string, r: number): any => ({ workflow: k === 'mismatch' ? 'define' : 'stub', steps: k === 'empty' ? [] : [
    { id: 's1', runner: 'echo.a', params: { seed: `seed${r}` } }, { id: 's2', runner: k === 'pausing' ? 'echo.ask' : k === 'badrunner' ? 'echo.zzz' : 'echo.b', params: { fromA: '$s1.echoed', seed: `seed${r}` } },
    { id: 's3', runner: 'echo.c', params: { fromA: '$s1.marker', fromB: '$s2.marker' } }] });
  const out = (p: any) => {
    if (p.next === 'error') return { next: 'error', kind: p.error.code === 'internal' ? 'refused' : p.error.retryable ? 'retry' : 'fatal' };
    if (p.next === 'done') { const r = repos.findIndex(x => String(p.path).startsWith(x)) + 1; return { next: 'done', run: r }; }
    if (typeof p.state !== 'string' || toks.includes(p.state)) return { next: p.next, token: 'reused or missing' };
    toks.push(p.state);
    return { next: p.next, token: toks.length, ...(p.next === 'emit_step' ? { turn: Number(String(p.userTurn).replace('turn ', '')), ...(p.stepId !== 's2' ? { bad: p.stepId } : {}) } : {}) };
  };
  const runOf: number[] = [];
  return {
    reset() { _clearWorkflowStateStoreForTests(); n++; for (const r of repos) rmSync(r, { recursive: true, force: true }); repos = []; toks = []; runOf.length = 0; },
    async step(a: any) {
      const call = async (x: any) => body(await handleWorkflowStep(x));
      const T = a.t ? toks[a.t - 1] : ''; const r = a.t ? runOf[a.t - 1]! : 0;
      const rec = (o: any, run: number) => { while (runOf.length < toks.length) runOf.push(run); return o; };
      switch (a.name) {
        case 'Start': { const repo = join(ctx.scratch, `r${n}-${repos.length + 1}`); mkdirSync(repo, { recursive: true }); repos.push(repo); const o = out(await call({ phase: 'start', workflow: 'stub', focus: `demo run ${repos.length}`, repo })); return rec(o, repos.length); }
        case 'Plan': return rec(out(await call({ phase: 'plan', plan: plan(a.k, r), state: T })), r);
        case 'Step': return rec(out(await call({ phase: 'step', stepId: a.k === 'otherstep' ? 's1' : 's2', response: { k: a.k }, state: T })), r);
        case 'Synth': { const art: any = ART(r); if (a.k === 'bad') delete art.body.summary; return out(await call({ phase: 'synthesize', artifact: art, state: T })); }
        case 'Bogus': {
          if (a.k === 'phase') return out(await call({ phase: 'nope', state: toks[0] })); if (a.k === 'shape') return out(await call('hello'));
          const state = 'Z'.repeat(22); return out(await call(a.k === 'plan' ? { phase: 'plan', plan: plan('straight', 1), state } : a.k === 'step' ? { phase: 'step', stepId: 's2', response: { k: 'answer' }, state } : { phase: 'synthesize', artifact: ART(1), state }));
        }
      }
      throw new Error(a.name);
    },
    project: () => repos.map((repo, i) => {
      const fs = readdirSync(repo, { recursive: true } as any).map(String).filter(f => /\.(md|json)$/.test(f));
      if (fs.length === 0) return false;
      const md = fs.filter(f => f.endsWith('.md')), js = fs.filter(f => f.endsWith('.json'));
      const ok = md.length === 1 && js.length === 1 && JSON.parse(readFileSync(join(repo, js[0]!), 'utf8')).body.title === `Demo ${i + 1}` && readFileSync(join(repo, md[0]!), 'utf8').includes(`Demo ${i + 1}`);
      return ok ? true : fs;
    }),
  };
}
