// Runs TLC on a spec and returns its transition graph / simulated behaviours as JS data.
import { spawn } from 'node:child_process';
import { mkdirSync, writeFileSync, readFileSync } from 'node:fs';
import { createInterface } from 'node:readline';
import { join } from 'node:path';

const JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar';
const SPECDIR = new URL('../spec/', import.meta.url).pathname;

/** cfg files hold only CONSTANTS / INVARIANTS / PROPERTIES / CONSTRAINT lines. */
function runTlc({ dir, mod, args, onLine, timeoutMs, heap = '6g' }) {
  return new Promise((resolve, reject) => {
    const p = spawn('java', ['-XX:+UseParallelGC', `-Xmx${heap}`, `-DTLA-Library=${SPECDIR}`, `-Djava.io.tmpdir=${dir}`, '-cp', JARS, 'tlc2.TLC',
      '-metadir', join(dir, 'meta'), '-noGenerateSpecTE', '-config', `${mod}.cfg`, ...args, `${mod}.tla`],
      { cwd: dir, stdio: ['ignore', 'pipe', 'pipe'] });
    let err = ''; let tail = [];
    const timer = timeoutMs ? setTimeout(() => p.kill('SIGKILL'), timeoutMs) : null;
    p.stderr.on('data', d => { err += d; });
    const rl = createInterface({ input: p.stdout, crlfDelay: Infinity });
    rl.on('line', l => {
      if (l.startsWith('"@')) { onLine(l); return; }
      if (/^(Parsing|Semantic proc|Linting)/.test(l)) return; tail.push(l); if (tail.length > 400) tail = tail.slice(-300);
    });
    const closed = new Promise(r => rl.on('close', r));
    p.on('error', reject);
    p.on('exit', async (code, sig) => { await closed; if (timer) clearTimeout(timer); resolve({ code, sig, out: tail.join('\n'), err }); });
  });
}

const unq = l => JSON.parse(JSON.parse(l).slice(2));
// TLC prints record fields in construction order: identity must not depend on it
const sorted = x => Array.isArray(x) ? x.map(sorted) : x && typeof x === 'object' ? Object.fromEntries(Object.keys(x).sort().map(k => [k, sorted(x[k])])) : x;

/** Exhaustive exploration. Returns {states, distinct, init:[id], nodes: Map(key->{id,state}), edges:[{f,t,a}] , actions:{name:count}}. */
export async function explore({ spec, cfg, scratch, timeoutMs = 600000, workers = 4 }) {
  const dir = join(scratch, `mc-${cfg}`); mkdirSync(dir, { recursive: true });
  const mod = 'MC__';
  const sameFull = /^(State == Full|Full == State)\s*$/m.test(readFileSync(join(SPECDIR, `${spec}.tla`), 'utf8'));
  writeFileSync(join(dir, `${mod}.tla`), `---- MODULE ${mod} ----
EXTENDS ${spec}
MC__View == Full
MC__Dump == PrintT("@E" \\o ToJson(<<Full, act', ${sameFull ? '0' : "State'"}, Full'>>))
MC__Init == Init /\\ PrintT("@I" \\o ToJson(<<Full, State>>))
====
`);
  const body = readFileSync(join(SPECDIR, `${cfg}.cfg`), 'utf8');
  writeFileSync(join(dir, `${mod}.cfg`), `INIT MC__Init\nNEXT Next\nVIEW MC__View\nACTION_CONSTRAINT MC__Dump\nCHECK_DEADLOCK FALSE\n${body}`);
  const ids = new Map(); const states = []; const init = new Set(); const edges = []; const seen = new Set(); const actions = {};
  const acts = new Map(); const actList = [];
  const nodeId = (full, st) => {
    const k = JSON.stringify(sorted(full)); let id = ids.get(k);
    if (id === undefined) { id = states.length; ids.set(k, id); states.push(st === undefined || st === 0 ? undefined : st); if (st === 0) states[id] = full; }
    else if (states[id] === undefined && st !== undefined) states[id] = st === 0 ? full : st;
    return id;
  };
  const r = await runTlc({ dir, mod, timeoutMs, args: ['-workers', String(workers)], onLine: l => {
    const v = unq(l);
    if (l.startsWith('"@I')) { const id = nodeId(v[0], v[1]); init.add(id); return; }
    const f = nodeId(v[0]); const t = nodeId(v[3], v[2]);
    const ak = JSON.stringify(sorted(v[1])); let ai = acts.get(ak); if (ai === undefined) { ai = actList.length; acts.set(ak, ai); actList.push(v[1]); }
    const ek = `${f}|${t}|${ai}`; if (seen.has(ek)) return; seen.add(ek);
    edges.push({ f, t, a: actList[ai] }); actions[v[1].name] = (actions[v[1].name] ?? 0) + 1;
  } });
  const m = /(\d+) states generated, (\d+) distinct states found/.exec(r.out.split('\n').reverse().join('\n'));
  // every state must be reachable over the recorded edges, otherwise identities were torn apart
  const outE = states.map(() => []); for (const e of edges) outE[e.f].push(e.t);
  const reach = new Set(init); const q = [...init]; while (q.length) for (const t of outE[q.pop()]) if (!reach.has(t)) { reach.add(t); q.push(t); }
  const connected = reach.size === states.length;
  const ok = r.code === 0 && connected;
  if (!connected) r.err += `\ntransition graph disconnected: ${reach.size} of ${states.length} states reachable`;
  return { ok, code: r.code, log: r.out + '\n' + r.err, generated: m ? +m[1] : 0, distinct: m ? +m[2] : 0, init: [...init], states, edges, actions };
}

/** Random behaviours. Returns list of traces: [{a:label, s:State}, ...] (first element: initial state). */
export async function simulate({ spec, cfg, scratch, num, depth, seed, timeoutMs = 300000 }) {
  const dir = join(scratch, `sim-${cfg}-${seed}`); mkdirSync(dir, { recursive: true });
  const mod = 'SIM__';
  writeFileSync(join(dir, `${mod}.tla`), `---- MODULE ${mod} ----
EXTENDS ${spec}
VARIABLE hist__
SIM__Same == UNCHANGED vars
SIM__Init == Init /\\ hist__ = <<[a |-> act, s |-> State]>>
SIM__Next == \\/ Len(hist__) < ${depth} /\\ Next /\\ hist__' = Append(hist__, [a |-> act', s |-> State'])
             \\/ Len(hist__) = ${depth} /\\ SIM__Same /\\ hist__' = Append(hist__, 0)
SIM__Print == Len(hist__) # ${depth + 1} \\/ PrintT("@T" \\o ToJson(SubSeq(hist__, 1, ${depth})))
====
`);
  const body = readFileSync(join(SPECDIR, `${cfg}.cfg`), 'utf8');
  writeFileSync(join(dir, `${mod}.cfg`), `INIT SIM__Init\nNEXT SIM__Next\nINVARIANT SIM__Print\nCHECK_DEADLOCK FALSE\n${body}`);
  const traces = []; const seen = new Set();
  const r = await runTlc({ dir, mod, timeoutMs, heap: '4g', args: ['-workers', '1', '-simulate', `num=${num}`, '-depth', String(depth + 1), '-seed', String(seed)], onLine: l => {
    if (seen.has(l)) return; seen.add(l); traces.push(unq(l));
  } });
  return { ok: r.code === 0, code: r.code, log: r.out + '\n' + r.err, traces };
}

/** Paths from an initial state that together traverse every edge. Each path: {init, edges:[edgeIndex]}. */
export function coverPaths(g, { maxLen = 80, rng = Math.random, edgeFilter } = {}) {
  const n = g.states.length; const out = Array.from({ length: n }, () => []);
  g.edges.forEach((e, i) => out[e.f].push(i));
  for (const l of out) for (let i = l.length - 1; i > 0; i--) { const j = Math.floor(rng() * (i + 1)); [l[i], l[j]] = [l[j], l[i]]; }
  const covered = new Uint8Array(g.edges.length); let left = g.edges.length;
  if (edgeFilter) g.edges.forEach((e, i) => { if (!edgeFilter(e, i)) { covered[i] = 1; left--; } });
  const ptr = new Int32Array(n);
  const nextUncovered = v => { const l = out[v]; while (ptr[v] < l.length && covered[l[ptr[v]]]) ptr[v]++; return ptr[v] < l.length ? l[ptr[v]] : -1; };
  // BFS tree from the inits (for restarts)
  const par = new Int32Array(n).fill(-2); const order = [];
  for (const i of g.init) { par[i] = -1; order.push(i); }
  for (let h = 0; h < order.length; h++) for (const ei of out[order[h]]) { const t = g.edges[ei].t; if (par[t] === -2) { par[t] = ei; order.push(t); } }
  const toNode = v => { const p = []; while (par[v] >= 0) { p.push(par[v]); v = g.edges[par[v]].f; } return { init: v, p: p.reverse() }; };
  const bfs = (s, budget) => { // nearest node with an uncovered out-edge
    const prev = new Map([[s, -1]]); const q = [s]; let h = 0;
    while (h < q.length && h < budget) { const v = q[h++];
      if (nextUncovered(v) >= 0 && v !== s) { const p = []; let x = v; while (prev.get(x) !== -1) { const e = prev.get(x); p.push(e); x = g.edges[e].f; } return p.reverse(); }
      for (const ei of out[v]) { const t = g.edges[ei].t; if (!prev.has(t)) { prev.set(t, ei); q.push(t); } } }
    return null;
  };
  const paths = []; let oi = 0;
  while (left > 0) {
    while (oi < order.length && nextUncovered(order[oi]) < 0) oi++;
    if (oi >= order.length) break;
    const start = toNode(order[oi]); const p = start.p.slice(); let v = order[oi];
    for (const ei of p) if (!covered[ei]) { covered[ei] = 1; left--; }
    const lim = Math.max(maxLen, p.length + 1);
    while (p.length < lim) {
      let e = nextUncovered(v);
      if (e < 0) { const d = bfs(v, 200); if (!d || p.length + d.length >= lim) break; for (const x of d) { p.push(x); if (!covered[x]) { covered[x] = 1; left--; } v = g.edges[x].t; } continue; }
      covered[e] = 1; left--; p.push(e); v = g.edges[e].t;
    }
    paths.push({ init: start.init, edges: p });
  }
  return paths;
}
export function rngFrom(seed) { let a = (seed >>> 0) || 1; return () => { a |= 0; a = a + 0x6D2B79F5 | 0; let t = Math.imul(a ^ a >>> 15, 1 | a); t = t + Math.imul(t ^ t >>> 7, 61 | t) ^ t; return ((t ^ t >>> 14) >>> 0) / 4294967296; }; }
