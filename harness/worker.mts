// Replays specification paths into the real code. Run as: node --import tsx worker.mts <jobfile>
import fs, { readFileSync, mkdirSync, writeFileSync } from 'node:fs';
import { canon, rngFrom } from './lib/util.mts';

const job = JSON.parse(readFileSync(process.argv[2]!, 'utf8'));
const outFile: string = process.argv[3]!;
mkdirSync(job.scratch, { recursive: true });
// What would bring the process down: an uncaught exception always counts, an unhandled rejection where the driver asks for it.
let crash: string | null = null;
process.on('unhandledRejection', (e: any) => { console.error('unhandledRejection', e); if (d?.crashes) crash ??= 'unhandled rejection: ' + String(e?.stack ?? e); });
process.on('uncaughtException', (e: any) => { console.error('uncaughtException', e); crash ??= 'uncaught exception: ' + String(e?.stack ?? e); });
// progress marks let the parent name the step at which the process died or stopped responding
const hb = fs.openSync(outFile + '.hb', 'w'); const rawWrite = fs.writeSync.bind(fs); const hbuf = Buffer.alloc(24);
const mark = (p: number, s: number) => { hbuf.fill(32); hbuf.write(`${p} ${s}`); rawWrite(hb, hbuf, 0, 24, 0); };
const realSetTimeout = globalThis.setTimeout, realClear = globalThis.clearTimeout;
const STEP_MS = job.stepMs ?? 60000;
const limited = <T,>(p: Promise<T>): Promise<T> => { let t: any; return Promise.race([p, new Promise<T>((_, rej) => { t = realSetTimeout(() => rej(new Error('step never settled')), STEP_MS); })]).finally(() => realClear(t)); };
let d: any = null;
const mod = await import(job.driver);
d = await mod.default({ scratch: job.scratch, seed: job.seed, flavour: job.flavour ?? 0, consts: job.consts ?? {}, tier: job.tier });
const sets = new Set<string>(d.sets ?? []);
const J = (x: any) => JSON.stringify(canon(x, sets));
const result = { traces: 0, steps: 0, byAction: {} as Record<string, number>, violation: null as any, probe: null as any, sample: null as any, error: null as any, truncated: 0 };
const realNow = performance.now.bind(performance); const deadline = realNow() + (job.budgetMs ?? 1e9);

/** path: {init: state, steps: [{a, alts:[{res?, s}]}]} — alts lists every outcome the spec allows for this label */
async function runPath(path: any, corrupt = -1, pi = 0): Promise<any> {
  mark(pi, -1); crash = null;
  const done: any[] = [];
  try { await limited(Promise.resolve(d.reset(path.init))); } catch (e: any) { return { step: -1, done, expected: path.init, observedState: 'setting up the initial state failed: ' + (e?.stack ?? e) }; }
  let st0; try { st0 = await d.project(); } catch (e: any) { return { step: -1, done, expected: path.init, observedState: 'projection threw: ' + (e?.stack ?? e) }; }
  if (J(st0) !== J(path.init)) return { step: -1, done, expected: path.init, observedState: st0 };
  for (let i = 0; i < path.steps.length; i++) {
    const step = path.steps[i];
    let res: any, st: any;
    mark(pi, i);
    try { res = await limited(Promise.resolve(d.step(step.a, i === path.steps.length - 1))); } catch (e: any) { res = { uncaught: String(e?.stack ?? e) }; }
    try { st = await d.project(step.a); } catch (e: any) { st = { projectionThrew: String(e?.stack ?? e) }; }
    if (crash) { res = { uncaught: crash }; crash = null; }
    if (corrupt === i) st = { corrupted: true, st };
    result.steps++; result.byAction[step.a.name] = (result.byAction[step.a.name] ?? 0) + 1;
    const sJ = J(st), rJ = J(res);
    let hit = -1;
    for (let k = 0; k < step.alts.length; k++) {
      const alt = step.alts[k];
      if (J(alt.s) === sJ && (!('res' in alt) || J(alt.res) === rJ) && !(res && res.uncaught)) { hit = k; break; }
    }
    done.push(step.a);
    if (hit < 0) return { step: i, action: step.a, done, expected: step.alts, observedRes: res, observedState: st };
    if (hit > 0) { result.truncated++; break; } // real code took another allowed branch: the rest of this path no longer applies
  }
  return null;
}
/** Walks that traverse every label of this worker's share of the graph, following whichever allowed outcome is observed. */
async function runGraph(G: any, [me, of]: number[], maxLen: number) {
  const todo: Set<number>[] = G.groups.map((l: any[], s: number) => new Set(l.map((_, k) => k).filter(k => (s + k) % of === me)));
  let left = todo.reduce((n, s) => n + s.size, 0), idle = 0;
  const seen = new Map<string, number>(); // `state/label` -> the state it led to when last taken
  const next = (s: number, k: number) => seen.get(`${s}/${k}`) ?? G.groups[s][k].alts[0].t;
  const route = (s0: number): number => { // first label on the shortest way to an uncovered one
    const prev = new Map<number, [number, number]>(); const q = [s0]; prev.set(s0, [-1, -1]);
    for (const s of q) {
      if (todo[s]!.size && s !== s0) { let x = s, lab = -1; while (x !== s0) { const [p, k] = prev.get(x)!; lab = k; x = p; } return lab; }
      G.groups[s].forEach((_: any, k: number) => { const t = next(s, k); if (!prev.has(t)) { prev.set(t, [s, k]); q.push(t); } });
    }
    return -1;
  };
  while (left > 0) {
    if (realNow() > deadline) { (result as any).budgetHit = left; return; }
    let s = G.init[(result.traces + me) % G.init.length]; mark(result.traces, -1); crash = null;
    const steps: any[] = [], done: any[] = []; const path = () => ({ init: G.states[G.init[(result.traces + me) % G.init.length]], steps });
    const st0 = await limited(Promise.resolve(d.reset(G.states[s]))).then(() => d.project()).catch((e: any) => ({ threw: String(e?.stack ?? e) }));
    if (J(st0) !== J(G.states[s])) { result.violation = { step: -1, done, expected: G.states[s], observedState: st0, path: path() }; return; }
    let progress = false;
    while (steps.length < maxLen && left > 0) {
      let k = todo[s]!.size ? [...todo[s]!][Math.floor(rnd() * todo[s]!.size)]! : route(s);
      if (k < 0) break;
      const g = G.groups[s][k]; const alts = g.alts.map((x: any) => ({ s: G.states[x.t], ...('res' in x ? { res: x.res } : {}) }));
      let res: any, st: any; mark(result.traces, steps.length);
      try { res = await limited(Promise.resolve(d.step(g.a, false))); } catch (e: any) { res = { uncaught: String(e?.stack ?? e) }; }
      try { st = await d.project(g.a); } catch (e: any) { st = { projectionThrew: String(e?.stack ?? e) }; }
      if (crash) { res = { uncaught: crash }; crash = null; }
      result.steps++; result.byAction[g.a.name] = (result.byAction[g.a.name] ?? 0) + 1; done.push(g.a);
      const sJ = J(st), rJ = J(res); const fits = (sj: string) => alts.findIndex((alt: any) => J(alt.s) === sj && (!('res' in alt) || J(alt.res) === rJ) && !(res && res.uncaught));
      const hit = fits(sJ); if (result.probe === null) result.probe = fits(J({ corrupted: true, st })) < 0;
      steps.push({ a: g.a, alts: hit > 0 ? [alts[hit], ...alts.filter((_: any, i: number) => i !== hit)] : alts });
      if (hit < 0) { result.violation = { step: steps.length - 1, action: g.a, done, expected: alts, observedRes: res, observedState: st, path: path() }; return; }
      if (todo[s]!.delete(k)) { left--; progress = true; }
      seen.set(`${s}/${k}`, g.alts[hit].t); s = g.alts[hit].t;
    }
    if (!result.sample && steps.length) result.sample = { init: path().init, steps: steps.slice(0, 12).map((x: any) => ({ a: x.a, s: x.alts[0].s })) };
    result.traces++; idle = progress ? 0 : idle + 1;
    if (idle > 2 * G.init.length + 3) { (result as any).unreached = left; return; } // outcomes the code never takes lead there
  }
}
const rnd = rngFrom(job.seed ?? 1);
try {
  if (job.graph) await runGraph(job.graph, job.share, job.maxLen);
  for (let i = 0; i < job.paths.length; i++) {
    if (realNow() > deadline) { (result as any).budgetHit = job.paths.length - i; break; }
    const p = job.paths[i];
    const v = await runPath(p, -1, i);
    result.traces++;
    if (!result.sample) result.sample = { init: p.init, steps: p.steps.slice(0, 12).map((s: any) => ({ a: s.a, s: s.alts[0].s })) };
    if (v) { result.violation = { ...v, path: p }; break; }
    if (i === 0 && p.steps.length > 0) { const c = await runPath(p, p.steps.length - 1) ?? await runPath(p, 0); result.probe = c !== null; }
  }
} catch (e: any) { result.error = String(e?.stack ?? e); }
try { await d.close?.(); } catch (e: any) { result.error ??= 'close: ' + String(e?.stack ?? e); }
writeFileSync(outFile, JSON.stringify(result));
process.exit(0);
