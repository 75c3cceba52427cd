// Approvals and syncs against a tracker (and a git checkout) that exist only in this process and fail where the specification says.
import { mkdirSync, rmSync, existsSync, readFileSync, writeFileSync } from 'node:fs';
import { join } from 'node:path';
import * as clock from '../lib/clock.mts';
const R = process.env.VERIF_REPO ?? '/repo';
const imp = (p: string) => import(`${R}/src/${p}.ts`);
const svc = await imp('cli/services/workflow'), ght = await imp('workflow/tracker/github'), st = await imp('workflow/storage'), sy = await imp('workflow/tracker/sync'),
  def = await imp('workflow/artifacts/define'), hldA = await imp('workflow/artifacts/hld'), lldA = await imp('workflow/artifacts/lld'), planA = await imp('workflow/artifacts/plan');
const EPIC = 'a3f4b8c9d1e2f3a4';
const CIT = [{ id: 'c1', kind: 'analyze-bundle', ref: 'todos module' }];
const alts = [{ id: 'a1', name: 'One', oneLineSummary: 'x', approach: 'own the index', pros: ['x'], cons: ['x'], costEstimate: 'S' }];
let n = 0;
export default async function create(ctx: any) {
  const fl = ctx.flavour % 3;
  const SLUG = ['tag-filtering', 'a very long slug for an epic that is about filtering todos by their tags', 'tags'][fl];
  const own = ['acme', 'acme', 'my.org'][fl], rep = ['todo', 'todo.app', 'todo'][fl];
  const labels = fl === 1 ? { epicLabel: 'kind/epic', storyLabel: 'kind/story', taskLabel: 'kind/task', epicIssueType: '' } : {};
  const L = { epic: (labels as any).epicLabel ?? 'insrc:epic', story: (labels as any).storyLabel ?? 'insrc:story', task: (labels as any).taskLabel ?? 'insrc:task' };
  const conffile = join(ctx.scratch, 'github.json'); process.env.INSRC_GITHUB_CONFIG = conffile;
  let repo = '', remote = true, fail: any = { c: 'none', k: 1 }, issues: any[] = [], head: any = {}, index: any = {}, tries = 0, views = 0, lastTitle = '', commits = 0, base = 0;
  const dp = () => st.defineArtifactPaths(repo, EPIC, SLUG), hp = () => st.hldArtifactPaths(repo, EPIC, SLUG), lp = (s: string) => st.lldArtifactPaths(repo, EPIC, s, SLUG), pp = (s: string) => st.planArtifactPaths(repo, EPIC, s, SLUG);
  const bad = (m: string): never => { const e: any = new Error(m); e.status = 1; throw e; };
  const opt = (a: string[], k: string) => { const i = a.indexOf(k); return i < 0 ? undefined : a[i + 1]; };
  const fields = (a: string[]) => { const o: any = { labels: [] }; a.forEach((x, i) => { if (x === '-f' || x === '-F') { const v = a[i + 1]!; const j = v.indexOf('='); const k = v.slice(0, j); if (k === 'labels[]') o.labels.push(v.slice(j + 1)); else o[k] = v.slice(j + 1); } }); return o; };
  const at = (k: string) => issues[Number(k) - base - 1] ?? bad(`no issue ${k}`);
  const open_ = (title: string, body: string, ls: string[]) => { issues.push({ title, body, labels: ls, state: 'OPEN', id: 9000 + issues.length * 7, parent: null, comments: 0 }); return issues.length + base; };
  const gh = (a: string[]): string => {
    if (a[0] === 'auth') return fail.c === 'auth' ? bad('not logged in') : 'ok';
    const target = opt(a, '--repo'); if (target !== undefined && target !== `${own}/${rep}`) bad(`other repository ${target}`);
    if (a[0] === 'label') return fail.c === 'label' ? bad('HTTP 403') : '';
    if (a[0] === 'api') {
      const path = a.find(x => x.startsWith('repos/')) ?? bad(`unexpected ${a.join(' ')}`); const rest = path.slice(`repos/${own}/${rep}/`.length); if (!path.startsWith(`repos/${own}/${rep}/`)) bad(`other repository ${path}`);
      const f = fields(a);
      if (rest === 'milestones') return fail.c === 'milestone' ? bad('HTTP 500') : '{}';
      const m = /^issues\/(\d+)\/sub_issues$/.exec(rest);
      if (m) { if (fail.c === 'link') bad('HTTP 404'); const c = issues.find(i => String(i.id) === f.sub_issue_id) ?? bad('no such issue'); c.parent = Number(m[1]) - base; return '{}'; }
      if (rest === 'issues') {
        if (f.title !== lastTitle) { tries++; lastTitle = f.title; }
        if (fail.c === 'create' && tries === (fail.plan ? fail.k : 1)) bad('HTTP 502');
        if (f.type !== undefined && (fail.c === 'typed' || fl === 2)) bad('HTTP 422');
        const num = open_(f.title, f.body, f.labels); return JSON.stringify({ number: num, id: issues[issues.length - 1].id });
      }
    }
    if (a[0] === 'issue') {
      if (a[1] === 'list') { if (fail.c === 'list') bad('HTTP 500'); const want = a.flatMap((x, i) => (x === '--label' ? [a[i + 1]] : [])); const hit = issues.map((x, i) => [x, i]).filter(([x]) => want.every(w => x.labels.includes(w))).map(([, i]) => i + 1); return hit.length ? String(hit[hit.length - 1] + base) : ''; }
      if (a[1] === 'view') {
        const i = at(a[2]!); const j = opt(a, '--json');
        if (j === 'body') return fail.c === 'body' ? bad('HTTP 500') : i.body;
        views++; if (fail.c === 'view' && views === fail.k) bad('HTTP 500');
        return JSON.stringify({ state: i.state, labels: i.labels.map((name: string) => ({ name })) });
      }
      if (a[1] === 'edit') { const i = at(a[2]!); const b = opt(a, '--body'); if (b !== undefined) { if (fail.c === 'body') bad('HTTP 500'); i.body = b; } if (a.includes('--milestone') && fail.c === 'milestone') bad('HTTP 500'); return ''; }
      if (a[1] === 'comment') { if (fail.c === 'comment') bad('HTTP 500'); at(a[2]!).comments++; return ''; }
      if (a[1] === 'create') { if (f_(a)) bad('HTTP 502'); return `https://github.com/${own}/${rep}/issues/${open_(opt(a, '--title')!, opt(a, '--body')!, (opt(a, '--label') ?? '').split(','))}\n`; }
    }
    return bad(`unexpected gh ${a.join(' ')}`);
  };
  const f_ = (a: string[]) => { const t = opt(a, '--title')!; if (t !== lastTitle) { tries++; lastTitle = t; } return fail.c === 'create' && tries === (fail.plan ? fail.k : 1); };
  const git = (a: string[]): string => {
    const b = a[0] === '-C' ? a.slice(2) : a;
    if (b[0] === 'remote') return remote ? [`git@github.com:${own}/${rep}.git`, `https://github.com/${own}/${rep}`, `https://github.com/${own}/${rep}.git/`][fl]! : bad('no origin');
    if (b[0] === 'rev-parse') return 'true';
    if (b[0] === 'add') { if (fail.c === 'git') bad('index.lock'); for (const p of b.slice(b.indexOf('--') + 1)) index[p] = readFileSync(p, 'utf8'); return ''; }
    if (b[0] === 'diff') return JSON.stringify(index) === JSON.stringify(head) ? '' : bad('differs');
    if (b[0] === 'commit') { head = { ...index }; commits++; return ''; }
    if (b[0] === 'push') return fail.c === 'push' ? bad('rejected') : '';
    return bad(`unexpected git ${b.join(' ')}`);
  };
  ght._setTrackerExecForTests((cmd: string, args: string[]) => (cmd === 'gh' ? gh([...args]) : cmd === 'git' ? git([...args]) : bad(cmd)));
  const configure = (c: string) => {
    remote = c !== 'broken';
    const on = { type: 'github', pushTasks: c === 'tasks', useMilestones: fl === 0, commitArtifacts: c !== 'plain', ...labels };
    const v: any = c === 'none' ? (fl === 0 ? {} : fl === 1 ? { default: { type: 'none' } } : { default: { type: 'github' }, repos: { [repo]: { type: 'none' } } })
      : c === 'broken' ? { repos: { [repo]: { ...on } } }
      : fl === 0 ? { default: on } : fl === 1 ? { default: { type: 'none' }, repos: { [repo]: { ...on, owner: own, repo: rep } } } : { default: { ...on, owner: 'somebody', repo: 'else' } };
    writeFileSync(conffile, JSON.stringify(v));
  };
  const put = (paths: any, art: any, md: string) => { st.writeAtomic(paths.json, JSON.stringify(art, null, 2) + '\n'); st.writeAtomic(paths.md, md); };
  const meta = (workflow: string, runId: string, x: any = {}) => ({ workflow, runId, repoPath: repo, createdAt: new Date().toISOString(), elapsedMs: 1, repoIndexedAt: null, schemaVersion: 1, epicHash: EPIC, epicSlug: SLUG, ...x });
  let S: string[] = [], T: string[] = [];
  const writeDefine = () => { const a = { meta: meta('define', `d${n}`), body: { flavor: 'new-capability', problem: 'Users cannot filter. At all.', nonGoals: [], assumptions: [], constraints: [], stories: S.map((id, i) => ({ id, title: fl === 1 ? 'Same title' : `Story ${id}`, userValue: 'v', acceptanceCriteria: [{ id: 'ac1', given: 'x', when: 'y', then: 'z', operationalizes: ['k1'] }], dependsOn: [], ...(i ? { sizeEstimate: 'M' } : {}) })), openQuestions: [] }, citations: CIT }; put(dp(), a, def.renderDefineMarkdown(a)); };
  const writeHld = () => { const a = { meta: meta('design.epic', `h${clock.get()}`), body: { frameworkSummary: 'Extract.', architectureShape: 'x', sharedContracts: [], storyBoundaries: S.map(s => ({ storyId: s, owns: [], depends: [], internal: 'x' })), nonFunctional: {}, rolloutOverview: { phases: [{ name: 'Phase A', includesStories: [...S], rationale: 'x', backwardCompat: '', featureFlag: null }], orderingRationale: 'x', riskyBits: [] }, alternativesConsidered: alts, chosenAlternative: 'a1', openQuestions: [] }, citations: CIT }; put(hp(), a, hldA.renderHldMarkdown(a)); };
  const writeLld = (s: string) => { const a = { meta: meta('design.story', `l${clock.get()}`, { storyId: s, hldBaseRunId: 'h', hldEffectiveHash: 'ab'.repeat(32), hldAmendmentsApplied: [] }), body: { hldContextSlice: { frameworkSummary: 'Extract.', ownedContracts: [], consumedContracts: [], boundary: { storyId: s, owns: [], depends: [], internal: 'private' }, rolloutPhase: 'Phase A', nonFunctional: {} }, contractDetails: { surfaceLevel: 'internal-shared', api: [] }, dataModelChanges: [], interactionWithShared: [], errorPaths: { errorCases: [], edgeCases: [], invariantsToPreserve: [] }, testStrategy: { testLevels: [], acceptanceMapping: [], testFramework: 'node:test' }, alternativesConsidered: alts, chosenAlternative: 'a1', openQuestions: [] }, citations: CIT }; put(lp(s), a, lldA.renderLldMarkdown(a)); };
  const writePlan = (s: string) => { const tasks = T.map((id, i) => ({ id, title: fl === 1 ? `Same ${i}` : `Task ${id}`, summary: 'Add it.', size: 'M', order: i + 1, dependsOn: [], acceptanceChecks: ['works'], derivedFrom: ['c1'], tests: [{ level: 'unit', name: 'x' }] })); if (fl) tasks.reverse(); const a = { meta: meta('plan', `p${clock.get()}`, { storyId: s, lldRunId: 'l', lldEffectiveHash: 'ab'.repeat(32) }), body: { tasks, testStrategyCoverage: [] }, citations: CIT }; put(pp(s), a, planA.renderPlanMarkdown(a)); };
  const num = (r: any) => { if (r === undefined || r === null || r === '') return 0; const m = /^(.+)\/(.+)#(\d+)$/.exec(r); return m && m[1] === own && m[2] === rep ? Number(m[3]) - base : { ref: r }; };
  const load = (p: any) => JSON.parse(readFileSync(p.json, 'utf8'));
  const status = (m: any) => (m.approvedAt && m.rejectedAt ? 'both' : m.approvedAt ? 'approved' : m.rejectedAt ? 'rejected' : 'draft');
  const approve = (paths: any, f: any, plan: boolean) => {
    fail = { ...f, plan }; tries = 0; lastTitle = ''; views = 0; const c0 = commits;
    try {
      const r: any = svc.approve(n % 2 ? paths.md : paths.json);
      const m = load(paths).meta; const t = r.tracker;
      const same = Object.keys(index).length > 0 && [paths.json, paths.md, ...(plan ? [] : [dp().json, dp().md])].every(p => head[p] === readFileSync(p, 'utf8'));
      for (const k of ['epicRef', 'storyRef', 'taskRefs']) if (t?.[k] !== undefined && JSON.stringify(t[k]) !== JSON.stringify(m.tracker?.[k])) return { reported: t[k], recorded: m.tracker };
      if ((r.commit?.committed === true) !== (commits > c0)) return { commit: r.commit, commits: commits - c0 };
      return { approved: r.approval.approvedAt === m.approvedAt && !!m.approvedAt, push: t?.status ?? 'none', checkedIn: commits > c0 ? (same ? 'current' : 'outdated') : 'no' };
    } catch (e: any) { if (process.env.VDEBUG) console.error(e); return { threw: e.name }; } finally { fail = { c: 'none' }; }
  };
  return {
    reset(init: any) {
      if (repo) rmSync(repo, { recursive: true, force: true });
      n++; clock.install(Date.UTC(2026, 0, 5, 9) + n * 1000); repo = join(ctx.scratch, `repo${n}`); mkdirSync(join(repo, st.ARTIFACTS_DIR), { recursive: true });
      S = Object.keys(init.L).sort(); T = ctx.consts?.tasks ?? ['t1', 't2']; issues = []; head = {}; index = {}; base = fl === 0 ? 0 : 40;
      configure('tasks'); writeDefine(); writeHld(); for (const s of S) { writeLld(s); writePlan(s); }
      configure('none'); svc.approve(dp().json, false); configure('tasks');
    },
    async step(a: any) {
      clock.advance(1000 + (n % 7) * 13);
      switch (a.name) {
        case 'ApproveEpic': return approve(hp(), a.fail, false);
        case 'ApproveStory': return approve(lp(a.s), a.fail, false);
        case 'ApprovePlan': return approve(pp(a.s), a.fail, true);
        case 'Redo': if (a.k === 'H') writeHld(); else writeLld(a.s); return 'ok';
        case 'Reject': svc.reject((a.k === 'H' ? hp() : a.k === 'L' ? lp(a.s) : pp(a.s)).json, 'not yet'); return 'ok';
        case 'ByHand': issues.push({ title: 'Filtering', body: 'by hand', labels: ['urgent', L.epic, (await imp('workflow/tracker/conventions')).epicMembershipLabel(SLUG)], state: 'OPEN', id: 9000 + issues.length * 7, parent: null, comments: 0 }); return 'ok';
        case 'Configure': configure(a.c); return 'ok';
        case 'Mark': { const i = issues[a.i - 1]; i.labels = i.labels.filter((l: string) => !['insrc:blocked', 'insrc:in-progress'].includes(l)); i.state = a.m === 'closed' ? 'CLOSED' : 'OPEN'; if (a.m === 'blocked' || (a.m === 'closed' && fl)) i.labels.push('insrc:blocked'); if (a.m === 'in-progress' || (a.m === 'blocked' && fl)) i.labels.push('insrc:in-progress'); return 'ok'; }
        case 'Sync': { fail = a.fail; views = 0; try { return sy.syncTracker(repo, EPIC).status; } catch (e: any) { return { threw: e.name }; } finally { fail = { c: 'none' }; } }
      }
      throw new Error(a.name);
    },
    project() {
      const D = load(dp()).meta, H = load(hp()).meta;
      const tr = D.tracker ?? {};
      const map = (o: any, f: (v: any) => any) => Object.fromEntries(Object.entries(o ?? {}).map(([k, v]) => [k, f(v)]));
      // a document shows the link to its own issue
      const shown = (paths: any, ref: any) => { if (!ref) return true; const md = readFileSync(paths.md, 'utf8'); return md.includes(`[${ref}](https://github.com/${own}/${rep}/issues/${num(ref) as number + base})`); };
      for (const [w, p, r] of [['D', dp(), tr.epicRef], ['H', hp(), H.tracker?.epicRef], ...S.map(s => [s, lp(s), load(lp(s)).meta.tracker?.storyRef])] as any) if (!shown(p, r)) return { unlinked: w, ref: r };
      const what = (i: any) => (i.labels.includes(L.epic) ? 'epic' : i.labels.includes(L.story) ? 'story' : i.labels.includes(L.task) ? 'task' : '?');
      const ids = (i: any, w: string) => { if (w === 'epic') return '-'; const m = w === 'story' ? S.filter(s => i.body.includes(`LLD`) && i.body.includes(st.lldArtifactPaths(repo, EPIC, s, SLUG).md.split('/').pop())) : /_task: (\S+)\/(\S+)_/.exec(i.body); return w === 'story' ? ((m as any).length === 1 ? (m as any)[0] : m) : m ? [m[1], m[2]] : null; };
      return {
        D: { epic: num(tr.epicRef), stories: map(tr.storyRefs, num), sync: { ...(tr.epicStatus ? { epic: tr.epicStatus } : {}), ...(tr.storyStatus ?? {}) } },
        H: { st: status(H), ref: num(H.tracker?.epicRef) },
        L: Object.fromEntries(S.map(s => { const m = load(lp(s)).meta; return [s, { st: status(m), ref: num(m.tracker?.storyRef) }]; })),
        P: Object.fromEntries(S.map(s => { const m = load(pp(s)).meta; return [s, { st: status(m), refs: map(m.tracker?.taskRefs, num) }]; })),
        gh: issues.map((i, k) => {
          const w = what(i); const back = /\*\*(Epic|Story):\*\* #(\d+)/.exec(i.body); const of = back ? Number(back[2]) - base : 0; const id = ids(i, w);
          const rows = w === 'story' && of > 0 ? issues[of - 1].body.split('\n').filter((l: string) => l.startsWith(`- [ ] #${k + 1 + base} — ${id}: `)).length : 0;
          return { what: w, of, id, linked: i.parent !== null && i.parent === of, listed: w === 'epic' ? i.body.includes('## Stories') && S.every(s => i.body.split('\n').filter((l: string) => new RegExp(`^- \\[ \\] (#\\d+ — )?${s}: `).test(l)).length === 1) : rows === 1, mark: i.state === 'CLOSED' ? 'closed' : i.labels.includes('insrc:blocked') ? 'blocked' : i.labels.includes('insrc:in-progress') ? 'in-progress' : 'open', ...(i.parent !== null && i.parent !== of ? { parent: i.parent } : {}) };
        }),
      };
    },
    close() { if (repo) rmSync(repo, { recursive: true, force: true }); ght._setTrackerExecForTests(); },
  };
}
