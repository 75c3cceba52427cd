const R = process.env.VERIF_REPO ?? '/repo';
const ex = await import(`${R}/src/workflow/executor.ts`);
// Concrete parameter shapes through which a step refers to earlier outputs.
const REFS = [
  (i: number) => ({ prev: i > 1 ? `$s${i - 1}.v` : 'lit', first: i > 1 ? '$s1.deep.list[1].x' : 'lit' }),
  (i: number) => ({ prev: i > 1 ? `$s${i - 1}.deep.list.0` : 'lit', first: i > 1 ? '$s1.v' : 'lit' }),
  (i: number) => ({ prev: i > 1 ? `$s${i - 1}.deep.list[1].x` : 'lit', first: i > 1 ? '$s1.deep.list[0]' : 'lit' }),
];
export default async function create(ctx: any) {
  const refs = REFS[ctx.flavour % REFS.length]!;
  let plan: any, held: any[], frozen: string[], queue: string[], inv: any[], N = 3, kind = 'plain', lastPaused: any;
  const valOf = (o: string) => (o === 'outA' ? 'A' : 'B');
  const out = (v: string) => ({ v, deep: { list: [v, { x: v }] } });
  const seen = (i: number, k: string, c: any) => {
    const done = Object.keys(c.stepOutputs).sort().map((s: string) => c.stepOutputs[s].v);
    const p = c.params;
    const r: any = { step: i, kind: k, params: { me: p.me, prev: p.prev, first: p.nested[0].first }, done };
    if (Object.keys(c.stepOutputs).some((s: string, n) => s !== `s${n + 1}`)) r.badKeys = Object.keys(c.stepOutputs);
    inv.push(r);
  };
  const next = (): string => { const o = queue.shift(); if (o === undefined) throw new Error('unexpected runner call'); return o; };
  const res = (o: string, i: number): any => {
    if (o === 'outA' || o === 'outB') return { type: 'output', output: out(valOf(o)) };
    if (o === 'pause') return { type: 'llm-pause', prompt: `p${i}`, userTurn: `u${i}`, schema: { type: 'object' }, preparedBlob: { blob: i, turn: ++turn } };
    if (o === 'throw') throw new Error('boom');
    return { type: 'error', code: 'bad', message: 'x', retryable: o === 'errR' };
  };
  let turn = 0; let expectBlob: any = null;
  const install = () => {
    ex._clearRunnerRegistryForTests();
    for (let i = 1; i <= 6; i++) {
      if (kind === 'norunner' && i === 2) continue;
      const r: any = { id: `r${i}`, workflow: 'stub', async run(c: any) { seen(i, 'run', c); await 0; return res(next(), i); } };
      if (kind !== 'nofinalize') r.finalize = async (resp: any, blob: any, c: any) => { seen(i, 'finalize', c); if (resp.answer !== 'yes' || JSON.stringify(blob) !== JSON.stringify(expectBlob)) inv.push({ wrongBlob: blob, expectBlob }); await 0; return res(next(), i); };
      ex.registerRunner(r);
    }
    let dup = false; try { ex.registerRunner({ id: 'r1', workflow: 'stub', async run() { throw 0; } } as any); dup = true; } catch { /* expected */ }
    if (dup) throw new Error('duplicate runner registration accepted');
  };
  const intent = { workflow: 'stub', focus: 'f', repoPath: '/r', repoIndexedAt: null, params: {} };
  async function tick(p: Promise<any>): Promise<any> {
    let t: any; try { t = await p; } catch (e) { return { type: 'throws', inv, step: 0, code: '-', retry: false, outs: [] }; }
    const left = queue.length ? { leftover: queue.length } : {};
    if (t.type === 'complete') return { type: 'complete', inv, step: 0, code: '-', retry: false, outs: Object.keys(t.stepOutputs).sort().map(k => t.stepOutputs[k].v), ...left };
    if (t.type === 'error') return { type: 'error', inv, step: Number(String(t.stepId).slice(1)), code: t.code, retry: t.retryable, outs: [], ...left };
    held.push(t.state); frozen.push(JSON.stringify(t.state));
    const ps = t.state.pause; const i = Number(ps.stepId.slice(1));
    const bad = ps.runner !== `r${i}` || ps.prompt !== `p${i}` || ps.userTurn !== `u${i}` ? { badPause: ps } : {};
    return { type: 'paused', inv, step: i, code: '-', retry: false, outs: Object.keys(t.state.stepOutputs).sort().map(k => t.state.stepOutputs[k].v), ...bad, ...left };
  }
  let turns: number[] = [];
  return {
    async reset(init: any) {
      kind = init.plan; held = []; frozen = []; turns = []; turn = 0; N = ctx.consts.N ?? 3;
      install();
      plan = { workflow: 'stub', steps: Array.from({ length: N }, (_, k) => ({ id: `s${k + 1}`, runner: `r${k + 1}`, params: { me: k + 1, prev: refs(k + 1).prev, nested: [{ first: refs(k + 1).first }], ...(kind === 'badref' && k === 1 ? { oops: '$s1.nope.deeper' } : {}) } })) };
    },
    async step(a: any) {
      inv = []; queue = [...(a.oc ?? [])];
      if (a.name === 'Start') { const r = await tick(ex.startRun(intent, plan, 'run-1', 'slug')); if (r.type === 'paused') turns.push(1); return r; }
      if (a.name === 'Resume') { const h = held[a.k - 1]; expectBlob = h.pause.preparedBlob; if (kind === 'nofinalize') queue = []; const t0 = turns[a.k - 1]!; const i0 = h.nextStepIndex; const r = await tick(ex.resumeRun(h, { answer: 'yes' }, 'slug')); if (r.type === 'paused') turns.push(r.step === i0 + 1 && a.oc.length === 1 && a.oc[0] === 'pause' ? t0 + 1 : 1); return r; }
      if (a.name === 'ResumeUnpaused') { const { pause, ...clean } = (held[0] ?? { intent, plan, runId: 'x', nextStepIndex: 0, stepOutputs: {} }); const t: any = await ex.resumeRun(clean, { answer: 'yes' }, 'slug'); return { type: t.type, code: t.code, retry: t.retryable, ...(inv.length ? { inv } : {}) }; }
      if (a.name === 'ResumeForeign') { const h = held[a.k - 1]; const t: any = await ex.resumeRun({ ...h, pause: { ...h.pause, stepId: 's9' } }, { answer: 'yes' }, 'slug'); return { type: t.type, code: t.code, retry: t.retryable, ...(inv.length ? { inv } : {}) }; }
      throw new Error(a.name);
    },
    async project() {
      held.forEach((h, i) => { if (JSON.stringify(h) !== frozen[i]) throw new Error('held state changed'); });
      return { plan: kind, held: held.map((h, i) => ({ next: h.nextStepIndex + 1, outs: Object.keys(h.stepOutputs).sort().map(k => h.stepOutputs[k].v), turns: turns[i] })) };
    },
  };
}
