// Drives src/config/analyze.ts, write-path.ts, src/analyze/context/role-router.ts and the settings pane against spec/Router.tla (C03).
import { mkdirSync, writeFileSync, readFileSync, existsSync, rmSync, chmodSync } from 'node:fs';
import { join } from 'node:path';
const R = process.env.VERIF_REPO ?? '/repo';
const { PATHS } = await import(`${R}/src/shared/paths.ts`), A = await import(`${R}/src/config/analyze.ts`), W = await import(`${R}/src/config/write-path.ts`), G = await import(`${R}/src/config/core-floor-guard.ts`), T = await import(`${R}/src/config/role-taxonomy.ts`);
const RR = await import(`${R}/src/analyze/context/role-router.ts`), P = await import(`${R}/src/cli/panes/model-tiers.ts`);
const VAL: any = { a: ['cli-claude', 'm-a'], b: ['cli-codex', 'm-b'], l: ['ollama', 'loc:7b'], x: ['cli-claude', 'loc:9b'], norunner: ['openai', 'm-c'], nomodel: ['cli-codex', ''] };
const ROLES = [{ build: 'build', synth: 'synthesize', classify: 'analyze.classify', other: 'no.such.role' }, { build: 'design.alternatives.judge', synth: 'context.assemble', classify: 'tracker.render.summary', other: 'x' }, { build: 'review', synth: 'analyze.plan', classify: 'indexer.summarise', other: 'analyze' }] as any[];
const REPO = [{ r1: '/w/app', r2: '/w/app2' }, { r1: '/w/a.b.c/d', r2: '/w/a' }, { r1: '/home/u/my app', r2: '/home/u/my app/sub' }] as any[];
export default async function create(ctx: any) {
  const f = ctx.flavour % 3, role = ROLES[f], repo = REPO[f]; let kept: any, n = 0;
  const bin = join(ctx.scratch, 'bin'), log = join(ctx.scratch, 'calls'); mkdirSync(bin, { recursive: true });
  // stand-ins for the command-line backends: they note how they were called
  for (const b of ['claude', 'codex']) { writeFileSync(join(bin, b), `#!/bin/sh\necho "${b} $*" >> '${log}'\ncat > /dev/null\nif [ ${b} = claude ]; then echo '{"type":"result","result":"ok","structured_output":{}}'; else echo '{"type":"item.completed","item":{"type":"agent_message","text":"ok"}}'; fi\n`); chmodSync(join(bin, b), 0o755); }
  process.env.PATH = `${bin}:${process.env.PATH}`;
  if (!PATHS.config.startsWith(ctx.scratch) && !PATHS.config.startsWith(process.env.HOME!)) throw new Error('config outside scratch');
  mkdirSync(PATHS.insrc, { recursive: true });
  const disk = () => existsSync(PATHS.config) ? JSON.parse(readFileSync(PATHS.config, 'utf8')) : {};
  const nameOf = (k: string) => role[k.slice(5)], under = (s: string) => s === 'g' ? ['models'] : ['models', 'byRepo', repo[s]];
  const where = (s: string, k: string) => [...under(s), ...(k === 'floor' ? ['coreFloor'] : k.startsWith('task-') ? ['tasks', nameOf(k)] : ['tiers', k])];
  const write = (s: string, k: string, v: any) => {
    const c = disk();
    if (k.startsWith('task-') && f === 1) { const at = under(s).reduce((o: any, x) => o?.[x], c)?.tasks; W.setConfigAtPath(c, [...under(s), 'tasks'], P.nextRoleTiers(at, nameOf(k), v === undefined ? null : v)); }
    else if (s === 'g' && k === 'floor') W.setConfigAtPath(c, 'models.coreFloor', v);
    else if (s === 'g' && !k.startsWith('task-') && v !== undefined && f !== 2) { W.setConfigAtPath(c, P.tierFieldPath(k, 'model'), v.model); W.setConfigAtPath(c, P.tierFieldPath(k, 'runner'), v.runner); }
    else W.setConfigAtPath(c, where(s, k), v);
    writeFileSync(PATHS.config, JSON.stringify(c));
  };
  const told = async (p: any, runner: string, model: string) => {
    const cls = p.constructor.name; if (runner === 'ollama') return cls === 'OllamaProvider' && p.supportsTools && (typeof p.model !== 'string' || p.model === model) ? model : cls;
    if (p.supportsTools || n++ % 10 !== 0) return p.supportsTools ? cls : p.defaultModel ?? '-';
    rmSync(log, { force: true }); await p.complete([{ role: 'user', content: 'hello' }]);
    const line = readFileSync(log, 'utf8').trim(), m = /(?:--model|-m)[ =](\S+)/.exec(line); if (!line.startsWith(runner.slice(4) + ' ')) return line; return m ? m[1] : '-';
  };
  const ask = async (router: any, a: any) => {
    if (a.fresh) A._resetAnalyzeConfigCacheForTests();
    const id = role[a.r], cfg = A.loadAnalyzeConfig(), { provider, resolution: x } = router.resolveProviderForRole(id, cfg, a.s === 'g' ? undefined : repo[a.s]);
    if (a.name === 'Ask' && JSON.stringify(RR.resolveRole(id, cfg, a.s === 'g' ? undefined : repo[a.s])) !== JSON.stringify(x)) return { differs: x };
    return { role: x.role === id ? a.r : x.role, tier: x.tier, runner: x.runner, model: x.model, clamped: x.clampedByFloor, told: await told(provider, x.runner, x.model) };
  };
  return {
    async reset() { rmSync(PATHS.config, { force: true }); if (f > 0) writeFileSync(PATHS.config, JSON.stringify({ keep: { me: [1] }, models: { host: 'http://127.0.0.1:1', ...(f === 2 ? { byRepo: [], tasks: null } : {}) } })); A._resetAnalyzeConfigCacheForTests(); kept = RR.createRoleRouter({}); },
    async step(a: any) {
      switch (a.name) {
        case 'Set': write(a.s, a.k, VAL[a.v] && ['core', 'mid', 'cheap'].includes(a.k) ? { runner: VAL[a.v][0], model: VAL[a.v][1] } : a.v); return 'ok';
        case 'Clear': write(a.s, a.k, undefined); return 'ok';
        case 'Restart': A._resetAnalyzeConfigCacheForTests(); kept = RR.createRoleRouter({}); return 'ok';
        case 'Ask': return ask(RR.createRoleRouter({}), a);
        case 'AskKept': return ask(kept, a);
        case 'Pin': return [A.resolveRepoShaperProvider(repo[a.s]) ?? '-', A.resolveRepoShaperModel(repo[a.s]) ?? '-'];
        case 'Summariser': { if (a.fresh) A._resetAnalyzeConfigCacheForTests(); const { resolution: x } = RR.createRoleRouter({}).resolveSummariser(A.loadAnalyzeConfig()); return { tier: x.tier, runner: x.runner, model: x.model }; }
        case 'Guard': try { const o = G.applyCoreFloor({ role: T.roleDescriptor(role[a.r]), resolvedTier: a.t, ...(a.f === '-' ? {} : { configuredFloor: a.f }) }); return [o.effectiveTier, o.clamped ? 'raised' : 'kept']; } catch (e: any) { return ['refused', e.field ?? String(e)]; }
      }
      throw new Error(a.name);
    },
    async project() {
      const c = disk(), file: any[] = [], seen = (s: string) => under(s).reduce((o: any, x) => o?.[x], c) ?? {};
      if (f > 0 && (JSON.stringify(c.keep) !== '{"me":[1]}' || c.models.host !== 'http://127.0.0.1:1')) return { lost: c };
      for (const s of ['g', 'r1', 'r2']) {
        const o = seen(s); if (o.coreFloor !== undefined) file.push([s, 'floor', o.coreFloor]);
        for (const [k, v] of Object.entries(o.tiers ?? {}) as any) file.push([s, k, Object.keys(VAL).find(x => VAL[x][0] === v?.runner && VAL[x][1] === v?.model) ?? v]);
        for (const [k, v] of Object.entries(o.tasks ?? {})) file.push([s, `task-${Object.keys(role).find(x => role[x] === k) ?? k}`, v]);
      }
      const e = P.computeEffectiveTiers(A.parseTiering(c.models ?? {})), shown: any = {}, models: any = {};
      for (const r of ['build', 'synth', 'classify']) { const x = e.roles.find((y: any) => y.id === role[r]); shown[r] = [x.assignedTier, x.effectiveTier, x.clamped]; }
      for (const t of ['core', 'mid', 'cheap']) models[t] = [e.tiers[t].runner, e.tiers[t].model];
      return { file, shown, floor: e.coreFloor, models };
    },
    sets: ['file'],
    async close() { rmSync(PATHS.config, { force: true }); },
  };
}
