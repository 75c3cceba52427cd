import * as clock from '../lib/clock.mts';
const R = process.env.VERIF_REPO ?? '/repo';
const REAL_CAP = 100;
/** one adapter per store */
async function adapter(kind: string) {
  const d = `${R}/src/mcp/${kind}-step`;
  const st = await import(`${d}/state-store.ts`);
  const clear = st._clearStateStoreForTests ?? st._clearReviewStateStoreForTests ?? st._clearWorkflowStateStoreForTests ?? st._clearCodeReviewStateStoreForTests;
  const size = st._stateStoreSize ?? st._reviewStateStoreSize ?? st._workflowStateStoreSize ?? st._codeReviewStateStoreSize;
  const why = (e: any) => e instanceof st.StateTokenNotFound ? 'unknown' : e?.code === 'malformed' && /not found/.test(String(e.message)) ? 'unknown' : e?.code === 'not-found' ? 'unknown' : e?.code ?? `other:${e}`;
  if (kind === 'workflow' || kind === 'analyze') {
    const codec = await import(`${d}/state.ts`);
    const S: any = kind === 'workflow' ? { s1: 'awaiting_plan', s2: 'awaiting_synthesize' } : { s1: 'awaiting_plan', s2: 'awaiting_bundle' };
    return { clear, size, why, codec: true, stages: S, save: (tok: any, stage: string) => codec.encodeState({ version: codec.STATE_VERSION, runId: `r${tok}`, epicKey: 'e', startedAtMs: 1, intent: { focus: `f${tok}` }, stage: S[stage], val: 0 }),
      load: (t: string) => codec.decodeState(t), loadAt: (t: string, s: string) => { const p = codec.decodeState(t); codec.assertStage(p, S[s]); return p; }, release: st.releaseState, update: null as any };
  }
  return { clear, size, why, codec: false, stages: { s1: 's1', s2: 's2' } as any, save: (tok: any, stage: string) => st.saveState({ runId: `r${tok}`, storyId: `S${tok}`, stage, val: 0 }),
    load: (t: string) => st.loadState(t), loadAt: null as any, release: st.releaseState,
    update: st.updateState ? (t: string, v: number, tok: any, stage: string) => st.updateState(t, { runId: `r${tok}`, storyId: `S${tok}`, stage, val: v }) : null };
}
export default async function create(ctx: any) {
  const kind: string = ctx.consts.kind; const a = await adapter(kind); const cap: number = ctx.consts.Cap;
  let pads: string[] = []; let toks: string[] = []; const seen = new Set<string>(); let meta: any[] = [];
  clock.install(1_700_000_000_000);
  const inv: any = Object.fromEntries(Object.entries(a.stages).map(([k, v]) => [v, k]));
  const touchPads = () => { clock.advance(1); for (const p of pads) a.load(p); };
  const shape = (p: any) => ({ ok: true, tok: Number(String(p.runId).slice(1)), val: p.val, stage: inv[p.stage] });
  return {
    reset() { a.clear(); pads = []; toks = []; meta = []; for (let i = 0; i < REAL_CAP - cap; i++) pads.push(a.save(-1 - i, 's1')); },
    step(x: any) {
      clock.advance(1); const T = x.t ? toks[x.t - 1]! : '';
      try {
        switch (x.name) {
          case 'Save': { const t = a.save(toks.length + 1, x.stage); const fresh = !seen.has(t) && t.length >= 8 && t.length <= 128 && /^[A-Za-z0-9_-]+$/.test(t); seen.add(t); toks.push(t); meta.push({ stage: x.stage, val: 0 }); return { fresh }; }
          case 'Load': return shape(a.load(T));
          case 'LoadAt': return shape(a.loadAt(T, x.s));
          case 'Update': { const m = meta[x.t - 1]; a.update(T, 1 - m.val, x.t, m.stage); m.val = 1 - m.val; return { ok: true }; }
          case 'Release': a.release(T); return;
          case 'Tick': clock.advance(x.d * 30_000); return;
          case 'Bogus': {
            const base = toks[toks.length - 1] ?? pads[0] ?? 'AAAAAAAAAAAAAAAAAAAAAA';
            const t = x.k === 'short' ? 'abc' : x.k === 'long' ? 'x'.repeat(200) : x.k === 'damaged' ? base.slice(0, -1) + (base.endsWith('A') ? 'B' : 'A') + '=' : 'Z'.repeat(22);
            try { a.load(t); return { ok: true }; } catch (e) { const w = a.why(e); return { ok: false, why: !a.codec && (x.k === 'short' || x.k === 'long') && w === 'unknown' ? 'malformed' : w }; }
          }
        }
      } catch (e) { return { ok: false, why: a.why(e) }; } finally { touchPads(); }
      throw new Error(x.name);
    },
    project: () => ({ size: a.size() - pads.length }),
  };
}
