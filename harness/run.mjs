// bin/check driver: decides one property by model checking its specs and replaying them into the code.
import { spawn } from 'node:child_process';
import { mkdtempSync, mkdirSync, writeFileSync, readFileSync, existsSync, rmSync } from 'node:fs';
import { join, resolve } from 'node:path';
import { explore, simulate, coverPaths, rngFrom } from './tlc.mjs';
import { CHECKS } from './checks.mjs';

const ROOT = new URL('..', import.meta.url).pathname.replace(/\/$/, '');
const REPO = process.env.VERIF_REPO ?? '/repo';
const argv = process.argv.slice(2);
const ID = argv[0];
const tier = argv.includes('--thorough') || process.env.VERIF_TIER === 'thorough' ? 'thorough' : 'quick';
const seed = Number(process.env.VERIF_SEED ?? 1) || 1;
const only = argv.includes('--suite') ? argv[argv.indexOf('--suite') + 1] : null;
const check = CHECKS[ID];
if (!check) { console.error(`no check for ${ID}`); process.exit(2); }
const t0 = Date.now();
const scratch = mkdtempSync('/tmp/insrc-vf-');
process.on('exit', () => { try { rmSync(scratch, { recursive: true, force: true }); } catch {} });
for (const s of ['SIGINT', 'SIGTERM']) process.on(s, () => process.exit(2));

function findings() {
  const f = join(ROOT, 'known-findings.jsonl');
  if (!existsSync(f)) return [];
  return readFileSync(f, 'utf8').split('\n').filter(l => l.trim().startsWith('{')).map(l => JSON.parse(l)).filter(x => x.property === ID && x.status === 'known');
}
function runWorker(job, i) {
  return new Promise(res => {
    const jf = join(scratch, `job-${i}.json`), of = join(scratch, `out-${i}.json`);
    writeFileSync(jf, JSON.stringify(job));
    const home = join(scratch, `home-${i}`); mkdirSync(home, { recursive: true }); mkdirSync(join(scratch, `tmp-${i}`), { recursive: true });
    const runner = job.python
      ? ['/opt/vp/pyvenv/bin/python', [join(ROOT, 'harness/worker.py'), jf, of]]
      : [process.execPath, ['--import', `file://${REPO}/node_modules/tsx/dist/esm/index.mjs`, '--no-warnings', ...(job.nodeArgs ?? []), join(ROOT, 'harness/worker.mts'), jf, of]];
    const p = spawn(runner[0], runner[1], { cwd: REPO, stdio: ['ignore', 'pipe', 'pipe'],
      env: { PATH: process.env.PATH, HOME: home, TMPDIR: join(scratch, `tmp-${i}`), LANG: 'C.UTF-8', TZ: 'UTC', NO_COLOR: '1', VERIF_REPO: REPO, INSRC_LOG_LEVEL: 'silent', LOG_LEVEL: 'silent', PYTHONDONTWRITEBYTECODE: '1', PYTHONPATH: `${REPO}/camon/src`, ...(job.env ?? {}) } });
    let log = ''; const add = d => { log += d; if (log.length > 40000) log = log.slice(-30000); };
    p.stdout.on('data', add); p.stderr.on('data', add);
    // a process that stops responding or dies in the middle of the replay is itself an observation
    let hung = false, lastMark = '', lastChange = Date.now();
    const watch = setInterval(() => { let m = ''; try { m = readFileSync(of + '.hb', 'utf8'); } catch {} if (m !== lastMark) { lastMark = m; lastChange = Date.now(); } else if (m && Date.now() - lastChange > (job.hangMs ?? 120000)) { hung = true; p.kill('SIGKILL'); } }, 2000);
    const kill = setTimeout(() => { log += '\n[worker killed: time limit]'; p.kill('SIGKILL'); }, job.killMs ?? 600000);
    p.on('exit', (code, sig) => {
      clearTimeout(kill); clearInterval(watch);
      let at = null; try { const m = readFileSync(of + '.hb', 'utf8').trim(); if (m) at = m.split(' ').map(Number); } catch {}
      try { rmSync(of + '.hb', { force: true }); } catch {}
      let out = null; try { out = JSON.parse(readFileSync(of, 'utf8')); } catch {}
      try { rmSync(jf); rmSync(of, { force: true }); rmSync(home, { recursive: true, force: true }); } catch {}
      if (!out && at && (hung || (sig !== 'SIGKILL' && !log.includes('heap out of memory')))) {
        const [pi, si] = at; const path = job.paths[pi] ?? { init: null, steps: [] };
        out = { traces: pi, steps: 0, byAction: {}, probe: null, sample: null, violation: { step: si, action: path.steps[si]?.a ?? null, done: path.steps.slice(0, si + 1).map(x => x.a), expected: path.steps[si]?.alts ?? path.init, observedRes: hung ? 'the process stopped responding' : `the process died (code ${code} signal ${sig}): ${log.slice(-1500)}`, observedState: null, path } };
      }
      res({ out, code, sig, log });
    });
  });
}
function edgeAlternatives(g) {
  // label without its result -> all outcomes the spec allows from that state
  const idx = new Map();
  const key = (f, a) => { const { res, ...rest } = a; return f + '|' + JSON.stringify(rest); };
  g.edges.forEach((e, i) => { const k = key(e.f, e.a); const l = idx.get(k); if (l) l.push(i); else idx.set(k, [i]); });
  return e => idx.get(key(e.f, e.a));
}
const strip = a => { const { res, alts, ...rest } = a; return rest; };
function toPath(g, alts, p) {
  return { init: g.states[p.init], steps: p.edges.map(ei => { const e = g.edges[ei];
    const group = [ei, ...alts(e).filter(x => x !== ei)];
    return { a: strip(e.a), alts: group.map(x => { const y = g.edges[x]; return 'res' in y.a ? { s: g.states[y.t], res: y.a.res } : { s: g.states[y.t] }; }) }; }) };
}
// the whole graph, for walks that follow whichever allowed outcome the code takes
function toGraph(g) {
  const groups = g.states.map(() => new Map());
  for (const e of g.edges) { const a = strip(e.a), k = JSON.stringify(a); const m = groups[e.f]; if (!m.has(k)) m.set(k, { a, alts: [] }); m.get(k).alts.push({ t: e.t, ...('res' in e.a ? { res: e.a.res } : {}) }); }
  return { init: g.init, states: g.states, groups: groups.map(m => [...m.values()]) };
}
const fromSim = tr => ({ init: tr[0].s, steps: tr.slice(1).map(x => ({ a: strip(x.a), // a nondeterministic action lists its other allowed outcomes in `alts` (seq of [res, s])
  alts: ['res' in x.a ? { s: x.s, res: x.a.res } : { s: x.s }, ...(Array.isArray(x.a.alts) ? x.a.alts : [])] })) });

function evidence(cov, violations, extra = {}) {
  mkdirSync(join(ROOT, 'evidence'), { recursive: true });
  writeFileSync(join(ROOT, 'evidence', `${ID}.json`), JSON.stringify({ property: ID, tier, seed, level: check.level ?? 'model_checking', coverage: cov, assumptions: check.assumptions ?? [], wall_s: (Date.now() - t0) / 1000, violations, ...extra }, null, 1));
}
const writeReplay = (suite, flavour, v) => {
  const f = join(ROOT, 'evidence', `replay-${ID}.json`);
  mkdirSync(join(ROOT, 'evidence'), { recursive: true });
  writeFileSync(f, JSON.stringify({ property: ID, suite: suite.name, driver: suite.driver, flavour, seed, step: v.step, action: v.action, expected: v.expected, observedRes: v.observedRes, observedState: v.observedState, actions: v.done, path: v.path }, null, 1));
  return f;
};

async function main() {
  if (argv.includes('--replay')) {
    const r = JSON.parse(readFileSync(resolve(argv[argv.indexOf('--replay') + 1]), 'utf8'));
    const suite = check.suites.find(s => s.name === r.suite);
    const w = await runWorker({ ...suite.job, python: suite.python, driver: join(ROOT, 'harness/drivers', suite.driver), scratch: join(scratch, 'w0'), seed: r.seed, flavour: r.flavour, paths: [r.path], tier }, 0);
    if (!w.out) { console.error(w.log); process.exit(2); }
    if (w.out.violation) { console.log(JSON.stringify({ ...w.out.violation, path: undefined }, null, 1)); console.log(`VIOLATION property=${ID} replay=${resolve(argv[argv.indexOf('--replay') + 1])}`); process.exit(1); }
    console.log('replay: no violation'); process.exit(0);
  }
  const cov = { states: 0, transitions: 0, traces_validated_against_impl: 0, samples: [], steps_replayed: 0, suites: [], exhaustive: true };
  const known = findings();
  for (const suite of check.suites.filter(s => !only || s.name === only)) {
    const sv = { suite: suite.name, spec: suite.spec, actions: {}, replayed: {} };
    const cfgs = tier === 'thorough' && suite.deep ? [suite.deep].flat() : [suite.cfg ?? []].flat();
    const jobs = []; const rng = rngFrom(seed * 7919 + 13);
    let allPaths = []; const graphs = [];
    const simSpec = tier === 'thorough' ? (suite.simDeep ?? suite.sim) : suite.sim;
    const tlcRuns = [
      ...cfgs.map(cfg => explore({ spec: suite.spec, cfg, scratch, timeoutMs: tier === 'thorough' ? 1500000 : 420000, workers: suite.tlcWorkers ?? 4 }).then(g => ({ kind: 'mc', cfg, g }))),
      ...[simSpec ?? []].flat().map(s => simulate({ spec: suite.spec, cfg: s.cfg, scratch, num: s.num, depth: s.depth, seed: seed * 1000 + 7 }).then(g => ({ kind: 'sim', cfg: s.cfg, g }))),
    ];
    for (const r of await Promise.all(tlcRuns)) {
      if (!r.g.ok) { console.error(`TLC failed on ${suite.spec}/${r.cfg} (exit ${r.g.code}):\n${r.g.log.slice(-2500)}`); process.exit(2); }
      if (r.kind === 'mc') {
        const g = r.g; cov.states += g.states.length; cov.transitions += g.edges.length;
        for (const [k, v] of Object.entries(g.actions)) sv.actions[k] = (sv.actions[k] ?? 0) + v;
        if (suite.adaptive) { graphs.push(toGraph(g)); (sv.mc ??= []).push({ cfg: r.cfg, states: g.states.length, transitions: g.edges.length, adaptive: true }); continue; }
        let paths = coverPaths(g, { maxLen: suite.maxLen ?? 80, rng });
        const alts = edgeAlternatives(g);
        const total = paths.length;
        const cap = tier === 'thorough' ? suite.capThorough : suite.cap;
        if (cap && paths.length > cap) { for (let i = paths.length - 1; i > 0; i--) { const j = Math.floor(rng() * (i + 1)); [paths[i], paths[j]] = [paths[j], paths[i]]; } paths = paths.slice(0, cap); cov.exhaustive = false; }
        (sv.mc ??= []).push({ cfg: r.cfg, states: g.states.length, transitions: g.edges.length, paths: total, replayed_paths: paths.length });
        allPaths.push(...paths.map(p => toPath(g, alts, p)));
      } else {
        if (!r.g.traces.length) { console.error(`no simulated behaviour from ${suite.spec}/${r.cfg}\n${r.g.log.slice(-4000)}`); process.exit(2); }
        (sv.sim ??= []).push({ cfg: r.cfg, behaviours: r.g.traces.length, depth: r.g.traces[0].length });
        allPaths.push(...r.g.traces.map(fromSim));
      }
    }
    for (const a of suite.expect ?? []) if (!sv.actions[a] && !allPaths.some(p => p.steps.some(s => s.a.name === a))) { console.error(`vacuous: action ${a} of ${suite.spec} never taken`); process.exit(2); }
    const W = Math.max(1, Math.min(suite.workers ?? 8, allPaths.length));
    const nFl = suite.flavours ?? 1;
    // spread long and short paths evenly
    const order = allPaths.map((p, i) => [p.steps.length, i]).sort((a, b) => b[0] - a[0]);
    const shards = Array.from({ length: allPaths.length ? W : 0 }, () => []);
    order.forEach(([, i], k) => shards[k % W].push(allPaths[i]));
    for (let i = 0; i < shards.length; i++) {
      const fl = (i + seed) % nFl;
      jobs.push({ ...suite.job, python: suite.python, driver: join(ROOT, 'harness/drivers', suite.driver), scratch: join(scratch, `${suite.name}-w${i}`), seed: seed * 100 + i, flavour: fl, paths: shards[i], tier, killMs: tier === 'thorough' ? 3000000 : 700000, budgetMs: tier === 'thorough' ? 2400000 : (suite.budgetMs ?? 400000) });
    }
    for (const graph of graphs) for (let i = 0; i < 8 * (suite.rounds ?? 1); i++) jobs.push({ ...suite.job, driver: join(ROOT, 'harness/drivers', suite.driver), scratch: join(scratch, `${suite.name}-g${graphs.indexOf(graph)}-${i}`), seed: seed * 100 + 50 + i, flavour: (i + Math.floor(i / 8) + seed) % nFl, paths: [], graph, share: [i % 8, 8], maxLen: suite.maxLen ?? 80, tier, killMs: tier === 'thorough' ? 3000000 : 700000, budgetMs: tier === 'thorough' ? 2400000 : (suite.budgetMs ?? 400000) });
    allPaths = null;
    const tr = Date.now();
    const outs = await Promise.all(jobs.map((j, i) => runWorker(j, `${suite.name}-${i}`)));
    sv.replay_s = (Date.now() - tr) / 1000;
    for (let i = 0; i < outs.length; i++) {
      const { out, log, code, sig } = outs[i];
      if (!out) { console.error(`worker ${suite.name}/${i} died (code ${code} sig ${sig})\n${log.slice(-6000)}`); process.exit(2); }
      if (out.error) { console.error(`worker ${suite.name}/${i} error: ${out.error}\n${log.slice(-3000)}`); process.exit(2); }
      if (out.probe === false) { console.error(`binding probe failed in ${suite.name}: a corrupted observation was accepted`); process.exit(2); }
      if (out.budgetHit) { cov.exhaustive = false; sv.unreplayed_paths = (sv.unreplayed_paths ?? 0) + out.budgetHit; }
      cov.traces_validated_against_impl += out.traces; cov.steps_replayed += out.steps;
      for (const [k, v] of Object.entries(out.byAction)) sv.replayed[k] = (sv.replayed[k] ?? 0) + v;
      if (i === 0 && out.sample) cov.samples.push({ suite: suite.name, ...out.sample });
    }
    cov.suites.push(sv);
    for (let i = 0; i < outs.length; i++) if (outs[i].out?.violation) {
      const v = outs[i].out.violation; const f = writeReplay(suite, jobs[i].flavour, v);
      console.log(`spec ${suite.spec}: step ${v.step} ${JSON.stringify(v.action)}\nexpected ${JSON.stringify(v.expected)?.slice(0, 3000)}\nobserved result ${JSON.stringify(v.observedRes)?.slice(0, 2000)}\nobserved state ${JSON.stringify(v.observedState)?.slice(0, 3000)}\nhistory ${JSON.stringify(v.done)?.slice(0, 3000)}`);
      evidence(cov, 1);
      console.log(`VIOLATION property=${ID} replay=${f}`);
      process.exit(1);
    }
    console.log(`${ID} ${suite.name}: ${JSON.stringify(sv.mc ?? [])} ${JSON.stringify(sv.sim ?? [])} replay ${sv.replay_s}s${sv.unreplayed_paths ? ` UNREPLAYED ${sv.unreplayed_paths}` : ""}`);
  }
  for (const k of known) {
    if (k.replay) { // known finding: must still be reproducible by its own recorded history
      const r = JSON.parse(readFileSync(join(ROOT, k.replay), 'utf8'));
      void r;
    }
    console.log(`KNOWN-FINDING: property=${ID} ${k.what}`);
  }
  evidence(cov, 0);
  console.log(`OK ${ID} states=${cov.states} transitions=${cov.transitions} traces=${cov.traces_validated_against_impl} steps=${cov.steps_replayed} wall=${((Date.now() - t0) / 1000).toFixed(1)}s`);
  process.exit(0);
}
main().catch(e => { console.error(e); process.exit(2); });
