// property id -> suites (spec + driver). See DESIGN.md.
export const CHECKS = {
  I01: { suites: [{ name: 'queue', spec: 'IndexQueue', cfg: 'IndexQueue', driver: 'queue.mts', maxLen: 20, flavours: 3, sim: { cfg: 'IndexQueue_sim', num: 400, depth: 40 }, expect: ['Submit', 'Finish', 'Stop', 'Start'] }] },
  W08: { suites: [{ name: 'executor', spec: 'Executor', cfg: 'Executor', driver: 'executor.mts', maxLen: 20, flavours: 3, expect: ['Start', 'Resume', 'ResumeUnpaused', 'ResumeForeign'] },
    { name: 'executor4', spec: 'Executor', driver: 'executor.mts', flavours: 3, job: { consts: { N: 4 } }, sim: { cfg: 'Executor_sim', num: 300, depth: 25 } }] },
  D03: { suites: [{ name: 'registry', spec: 'RunRegistry', cfg: 'RunRegistry', driver: 'runregistry.mts', maxLen: 60, job: { consts: { Cap: 1 } }, expect: ['Start', 'Return', 'Abort', 'Poll'] },
    { name: 'registry-many', spec: 'RunRegistry', driver: 'runregistry.mts', job: { consts: { Cap: 4 } }, sim: { cfg: 'RunRegistry_sim', num: 200, depth: 60 } }] },
};
export const NOT_APPLICABLE = {};
const tok = (kind, cfg) => ({ name: `tokens-${kind}`, spec: 'TokenStore', cfg, driver: 'tokenstore.mts', maxLen: 40, job: { consts: { kind, Cap: cfg === 'TokenStore_plain' ? 3 : 2 } }, expect: ['Save', 'Load', 'Release', 'Bogus', 'Tick', ...(kind === 'review' ? ['Update'] : []), ...(cfg === 'TokenStore' ? ['LoadAt'] : [])] });
CHECKS.M01 = { suites: [tok('workflow', 'TokenStore'), tok('analyze', 'TokenStore'), tok('review', 'TokenStore_upd'), tok('code-review', 'TokenStore_plain'),
  { name: 'tokens-sim', spec: 'TokenStore', driver: 'tokenstore.mts', job: { consts: { kind: 'workflow', Cap: 6 } }, sim: { cfg: 'TokenStore_sim', num: 150, depth: 120 } }] };
CHECKS.M02 = { suites: [{ name: 'step-protocol', spec: 'StepProtocol', cfg: 'StepProtocol', driver: 'stepprotocol.mts', maxLen: 40, expect: ['Start', 'Plan', 'Step', 'Synth', 'Bogus'], sim: { cfg: 'StepProtocol_sim', num: 150, depth: 40 } }] };
const ef = (cfg, extra = {}) => ({ name: `epic-${cfg}`, spec: 'EpicFlow', cfg: `EpicFlow_${cfg}`, driver: 'epicflow.mts', maxLen: 60, flavours: 3, ...extra });
const efSim = (cfg, num, depth) => ({ name: `epic-${cfg}`, spec: 'EpicFlow', driver: 'epicflow.mts', flavours: 3, sim: { cfg: `EpicFlow_${cfg}`, num, depth }, simDeep: { cfg: `EpicFlow_${cfg}`, num: num * 20, depth } });
CHECKS.W01 = { suites: [ef('gates', { expect: ['WriteDefine', 'WriteHld', 'WriteLld', 'WritePlan', 'Decide'] }), ef('docs', { expect: ['WriteSpec', 'WriteSolo', 'AppendStory'] }), efSim('sim', 60, 40)] };
CHECKS.W02 = { suites: [ef('ams', { expect: ['Propose', 'DecideAm'] }), efSim('simready', 60, 50)] };
CHECKS.W04 = { suites: [ef('stale', { expect: ['WriteHld', 'WriteLld', 'Ack', 'DecideAm'] }), efSim('simready', 60, 50)] };
CHECKS.W05 = { suites: [ef('build', { expect: ['WritePlan', 'WriteLld', 'WriteHld', 'DecideAm'] }), efSim('simready', 60, 50)] };
const rg = (cfg, expect) => ({ name: `review-${cfg}`, spec: 'ReviewGate', cfg: `ReviewGate_${cfg}`, driver: 'reviewgate.mts', maxLen: 200, flavours: 3, expect });
CHECKS.W06 = { suites: [rg('resolve', ['Write', 'Reject', 'Resolve', 'Approve']), rg('target', ['CodeReview', 'One']), rg('batch', ['Batch']),
  { name: 'review-sim', spec: 'ReviewGate', driver: 'reviewgate.mts', flavours: 3, sim: { cfg: 'ReviewGate_sim', num: 150, depth: 60 }, simDeep: { cfg: 'ReviewGate_sim', num: 3000, depth: 80 } }] };
const hf = (cfg, expect) => ({ name: `fold-${cfg}`, spec: 'HldFold', cfg: `HldFold_${cfg}`, driver: 'hldfold.mts', maxLen: 24, flavours: 3, expect });
CHECKS.W03 = { suites: [hf('contracts', ['Adopt', 'Propose', 'Decline']), hf('bounds', ['Adopt']), hf('rollout', ['Adopt']),
  { name: 'fold-sim', spec: 'HldFold', driver: 'hldfold.mts', sim: { cfg: 'HldFold_sim', num: 100, depth: 40 }, simDeep: { cfg: 'HldFold_sim', num: 2000, depth: 50 } }] };
CHECKS.W07 = { suites: [{ name: 'build-record', spec: 'BuildRecord', cfg: 'BuildRecord_mc', driver: 'buildrecord.mts', maxLen: 60, flavours: 3, expect: ['Validate', 'Record', 'Trivial', 'Damage', 'Override', 'Reject', 'Garbled'],
  sim: { cfg: 'BuildRecord_sim', num: 150, depth: 40 }, simDeep: { cfg: 'BuildRecord_sim', num: 3000, depth: 60 } }] };
const oq = (cfg, expect) => ({ name: `questions-${cfg}`, spec: 'OpenQuestions', cfg: `OpenQuestions_${cfg}`, driver: 'questions.mts', maxLen: 120, flavours: 3, expect });
CHECKS.W09 = { suites: [...['d', 'h', 'l'].map(c => ({ ...oq(c, ['Write', 'Reword', 'Decide', 'NotGated']), cap: 200 })), oq('two'),
  { name: 'questions-sim', spec: 'OpenQuestions', driver: 'questions.mts', flavours: 3, sim: { cfg: 'OpenQuestions_sim', num: 60, depth: 50 }, simDeep: { cfg: 'OpenQuestions_sim', num: 1500, depth: 60 } }] };
const ips = (cfg, expect) => ({ name: `ipc-${cfg}`, spec: 'IpcServer', cfg: `IpcServer_${cfg}`, driver: 'ipcserver.mts', maxLen: 200, flavours: 3, expect });
CHECKS.D01 = { suites: [ips('a', ['Connect', 'Chunk', 'Work', 'Disconnect', 'OrphanWork']), ips('b', ['Chunk']), ips('two', ['Chunk', 'OrphanWork']),
  { name: 'ipc-sim', spec: 'IpcServer', driver: 'ipcserver.mts', flavours: 3, sim: { cfg: 'IpcServer_sim', num: 200, depth: 60 }, simDeep: { cfg: 'IpcServer_sim', num: 4000, depth: 80 } }] };
const ipc2 = (cfg, expect) => ({ name: `client-${cfg}`, spec: 'IpcClient', cfg: `IpcClient_${cfg}`, driver: 'ipcclient.mts', maxLen: 60, flavours: 3, expect });
CHECKS.D02 = { suites: [ipc2('stream', ['Call', 'Recv', 'Hangup', 'Break', 'Abort']), ipc2('unary', ['Call', 'Recv', 'Hangup', 'Break']), ipc2('two'),
  { name: 'client-sim', spec: 'IpcClient', driver: 'ipcclient.mts', flavours: 3, sim: { cfg: 'IpcClient_sim', num: 200, depth: 24 }, simDeep: { cfg: 'IpcClient_sim', num: 3000, depth: 50 } }] };
const td = (cfg, extra = {}) => ({ name: `todos-${cfg}`, spec: 'Todos', cfg: `Todos_${cfg}`, driver: 'todos.mts', maxLen: 150, flavours: 3, ...extra });
const tdSim = (cfg, num, depth) => ({ name: `todos-${cfg}`, spec: 'Todos', driver: 'todos.mts', flavours: 3, sim: { cfg: `Todos_${cfg}`, num, depth }, simDeep: { cfg: `Todos_${cfg}`, num: num * 20, depth } });
CHECKS.T01 = { suites: [td('tree', { cap: 300 }), td('status'), td('items', { cap: 800 }), td('talk', { cap: 800 }), td('hand'), tdSim('sim', 150, 60)] };
CHECKS.T02 = { suites: [td('ctree', { cap: 800 }), td('citems', { cap: 800 }), td('chand', { cap: 800 }), tdSim('csim', 150, 40)] };
const tr = (cfg, extra = {}) => ({ name: `todorpc-${cfg}`, spec: 'TodoRpc', cfg: `TodoRpc_${cfg}`, driver: 'todorpc.mts', maxLen: 100, flavours: 3, cap: 600, ...extra });
CHECKS.T03 = { suites: [tr('lists', { expect: ['Create', 'Status', 'Transfer', 'DeleteList', 'See'] }), tr('tree'), tr('items', { expect: ['UpdateItem', 'RemoveItem', 'Clear'] }), tr('order', { expect: ['AddItem', 'Reorder'] }), tr('talk', { expect: ['Comment', 'Edit', 'Uncomment', 'Ack'] }), tr('fill', { expect: ['Fill', 'AddItem', 'Reorder'] }), tr('clean1', { expect: ['Cleanup', 'Retention'] }), tr('clean2'),
  { name: 'todorpc-sim', spec: 'TodoRpc', driver: 'todorpc.mts', flavours: 3, sim: { cfg: 'TodoRpc_sim', num: 150, depth: 60 }, simDeep: { cfg: 'TodoRpc_sim', num: 3000, depth: 80 } }] };
const gr = (cfg, extra = {}) => ({ name: `graph-${cfg}`, spec: 'Graph', cfg: `Graph_${cfg}`, driver: 'graph.mts', maxLen: 150, flavours: 3, cap: 800, ...extra });
const grSim = (num, depth) => ({ name: 'graph-sim', spec: 'Graph', driver: 'graph.mts', flavours: 3, sim: { cfg: 'Graph_sim', num, depth }, simDeep: { cfg: 'Graph_sim', num: num * 20, depth: depth * 2 } });
CHECKS.G01 = { suites: [gr('batch', { expect: ['Upsert', 'Relate', 'Reindex', 'BadRepo'] }), grSim(150, 40)] };
CHECKS.G02 = { suites: [gr('ents'), gr('files'), gr('edges'), grSim(150, 40)] };
CHECKS.G03 = { suites: [gr('repos'), gr('repos2'), grSim(150, 40)] };
CHECKS.G04 = { suites: [gr('refs'), grSim(150, 40)] };
CHECKS.G06 = { suites: [gr('vec', { cap: 300, job: { consts: { vec: true } } }), { ...grSim(40, 30), name: 'graph-vecsim', sim: { cfg: 'Graph_vecsim', num: 40, depth: 30 }, simDeep: { cfg: 'Graph_vecsim', num: 1000, depth: 50 }, job: { consts: { vec: true } } }] };
const mg = (mode, expect, extra = {}) => ({ name: `migrate-${mode}`, spec: 'Migrate', cfg: `Migrate_${mode}`, driver: 'migrate.mts', maxLen: 6, flavours: 3, cap: 2500, job: { consts: { mode } }, expect, ...extra });
CHECKS.G05 = { suites: [mg('runner', ['Run']), mg('open', ['Open', 'CrashOpen'])] };
const cf = (cfg, extra = {}) => ({ name: `config-${cfg}`, spec: 'Config', cfg: `Config_${cfg}`, driver: 'config.mts', maxLen: 200, flavours: 3, cap: 3000, expect: ['Reconcile', 'Write'], ...extra });
CHECKS.C01 = { suites: [cf('move'), cf('leaf'), cf('repos'), { name: 'config-sim', spec: 'Config', driver: 'config.mts', flavours: 3, sim: { cfg: 'Config_sim', num: 400, depth: 60 }, simDeep: { cfg: 'Config_sim', num: 8000, depth: 100 } }] };
CHECKS.C02 = { suites: [{ name: 'config-file', spec: 'ConfigFile', cfg: 'ConfigFile_all', adaptive: true, driver: 'configfile.mts', maxLen: 60, flavours: 3, rounds: 3, expect: ['Reconcile', 'ReadFault', 'WriteFault', 'Crash', 'Race'] }] };
const cr = (spec, inner, num, depth, consts = {}) => ({ name: `crash-${inner}`, spec, driver: 'crash.mts', flavours: 3, job: { consts: { inner: `${inner}.mts`, ...consts } }, sim: { cfg: `${spec}_sim`, num, depth }, simDeep: { cfg: `${spec}_sim`, num: num * 20, depth } });
CHECKS.W10 = { suites: [cr('EpicCrash', 'epicflow', 100, 40, { once: ['WriteHld'] }), cr('ReviewCrash', 'reviewgate', 150, 50), { ...cr('BuildCrash', 'buildrecord', 100, 40, { raw: ['Damage', 'Override'], quiet: ['Validate', 'Garbled'] }), cfg: 'BuildCrash_mc', cap: 150, maxLen: 40 }, cr('QuestionCrash', 'questions', 60, 40)] };
const tp = (cfg, expect) => ({ name: `tracker-${cfg}`, spec: 'TrackerPush', cfg: `TrackerPush_${cfg}`, driver: 'tracker.mts', maxLen: 150, flavours: 3, cap: 2500, expect });
CHECKS.W11 = { suites: [tp('push', ['ApproveEpic', 'ApproveStory', 'ApprovePlan', 'Reject']), tp('redo', ['Redo', 'ByHand', 'Configure']), tp('sync', ['Mark', 'Sync']),
  { name: 'tracker-sim', spec: 'TrackerPush', driver: 'tracker.mts', flavours: 3, job: { consts: { tasks: ['t1', 't2', 't3'] } }, sim: { cfg: 'TrackerPush_sim', num: 200, depth: 40 }, simDeep: { cfg: 'TrackerPush_sim', num: 4000, depth: 60 } }] };
const ac = (cfg, keys, expect, extra = {}) => ({ name: `access-${cfg}`, spec: 'Access', cfg: `Access_${cfg}`, driver: 'access.mts', maxLen: 400, flavours: 3, cap: 3000, job: { consts: { keys } }, expect, ...extra });
const acE = ['Approve', 'ApprovePrefix', 'Revoke', 'RevokePrefix'];
CHECKS.A01 = { suites: [ac('paths', 'path', acE), ac('kinds', 'two', acE), ac('cloud', 'cloud', acE), ac('log', 'none', ['Record', 'Tick']),
  { name: 'access-sim', spec: 'Access', driver: 'access.mts', flavours: 3, job: { consts: { keys: 'all' } }, sim: { cfg: 'Access_sim', num: 150, depth: 80 }, simDeep: { cfg: 'Access_sim', num: 3000, depth: 120 } }] };
const tl = (cfg, expect) => ({ name: `tools-${cfg}`, spec: 'Tools', cfg: `Tools_${cfg}`, driver: 'tools.mts', maxLen: 300, flavours: 3, cap: 3000, expect });
CHECKS.A02 = { suites: [tl('names', ['Register', 'Alias']), tl('exec', ['Exec', 'Finish']),
  { name: 'tools-sim', spec: 'Tools', driver: 'tools.mts', flavours: 3, sim: { cfg: 'Tools_sim', num: 150, depth: 80 }, simDeep: { cfg: 'Tools_sim', num: 3000, depth: 120 } }] };
const cp = (cfg, expect) => ({ name: `chatpool-${cfg}`, spec: 'ChatPool', cfg: `ChatPool_${cfg}`, adaptive: true, driver: 'chatpool.mts', maxLen: 120, flavours: 3, rounds: 3, cap: 600, expect });
CHECKS.D04 = { suites: [cp('two', ['Create', 'Pair', 'Purge', 'Tick', 'Restart']), cp('three', ['Pair']),
  { name: 'chatpool-sim', spec: 'ChatPool', driver: 'chatpool.mts', flavours: 3, sim: { cfg: 'ChatPool_sim', num: 100, depth: 60 }, simDeep: { cfg: 'ChatPool_sim', num: 3000, depth: 80 } }] };
const cst = (cfg, expect, extra = {}) => ({ name: `configstore-${cfg}`, spec: 'ConfigStore', cfg: `ConfigStore_${cfg}`, driver: 'configstore.mts', maxLen: 150, flavours: 3, cap: 1000, expect, ...extra });
CHECKS.C04 = { suites: [cst('move', ['Save', 'Delete', 'Clear', 'Reopen']), cst('names', ['Resolve']), cst('vec', ['Save', 'Clear'], { cap: 150, job: { consts: { vec: true } } }),
  { name: 'configstore-sim', spec: 'ConfigStore', driver: 'configstore.mts', flavours: 3, sim: { cfg: 'ConfigStore_sim', num: 60, depth: 50 }, simDeep: { cfg: 'ConfigStore_sim', num: 1500, depth: 60 } },
  { name: 'configstore-vecsim', spec: 'ConfigStore', driver: 'configstore.mts', flavours: 3, job: { consts: { vec: true } }, sim: { cfg: 'ConfigStore_vecsim', num: 24, depth: 25 }, simDeep: { cfg: 'ConfigStore_vecsim', num: 600, depth: 40 } }] };
const exs = (n, expect, more = {}) => ({ name: `explore-${n}`, spec: 'Explore', cfg: `Explore_${n}`, driver: 'explore.mts', maxLen: 50, expect, ...more });
CHECKS.E01 = { suites: [exs('once', ['Once', 'Edit']), exs('step', ['Begin', 'SendPlan', 'BadPlan', 'Answer', 'Bundle']), exs('edit', ['Begin', 'SendPlan', 'Answer', 'Edit', 'Reindex']),
  { name: 'explore-sim', spec: 'Explore', driver: 'explore.mts', flavours: 3, sim: { cfg: 'Explore_sim', num: 60, depth: 50 }, simDeep: { cfg: 'Explore_sim', num: 1500, depth: 70 } }] };
const ixs = (cfg, lang, flavours, expect, extra = {}) => ({ name: `indexer-${cfg}`, spec: 'Indexer', cfg: `Indexer_${cfg}`, driver: 'indexer.mts', maxLen: 60, flavours, job: { consts: { lang }, stepMs: 20000 }, cap: 120, expect, ...extra });
CHECKS.I02 = { suites: [ixs('ev', 'ts', 4, ['Write', 'Unlink', 'Drain']), ixs('off', 'ts', 4, ['Stop', 'Start', 'Partial', 'Reindex']), ixs('crash', 'ts', 4, ['Crash', 'Start']), ixs('offpy', 'py', 3, ['Stop', 'Start']),
  { name: 'indexer-sim', spec: 'Indexer', driver: 'indexer.mts', flavours: 4, job: { consts: { lang: 'ts' }, stepMs: 20000 }, sim: { cfg: 'Indexer_sim', num: 60, depth: 40 }, simDeep: { cfg: 'Indexer_sim', num: 1500, depth: 60 } },
  { name: 'indexer-simpy', spec: 'Indexer', driver: 'indexer.mts', flavours: 3, job: { consts: { lang: 'py' }, stepMs: 20000 }, sim: { cfg: 'Indexer_simpy', num: 40, depth: 40 }, simDeep: { cfg: 'Indexer_simpy', num: 1000, depth: 60 } }] };
const cv = (cfg, vec, expect, extra = {}) => ({ name: `conversations-${cfg}`, spec: 'Conversations', cfg: `Conversations_${cfg}`, driver: 'conversations.mts', maxLen: 150, flavours: 3, job: { consts: { vec } }, cap: vec ? 200 : 2000, expect, ...extra });
CHECKS.S01 = { suites: [cv('turns', false, ['SaveTurn', 'DelSession', 'DelTurns', 'DelRecord', 'DelIds', 'Forget', 'DelTurnsRepo'], { cap: 90 }), cv('compact', false, ['Compacted'], { cap: 60 }), cv('sess', false, ['Close', 'SetAgent', 'SetStatus', 'Tick', 'Prune']), cv('two', false, ['Bump'], { cap: 400 }), cv('prune', false, ['Crowd', 'Prune'], { cap: 160 }), cv('vec', true, ['SaveTurn', 'Forget'], { cap: 40 }), cv('seed', true, ['Prune', 'SetStatus'], { cap: 60 }), cv('seeds', true, ['SaveSession'], { cap: 60 }),
  { name: 'conversations-sim', spec: 'Conversations', driver: 'conversations.mts', flavours: 3, job: { consts: { vec: true } }, sim: { cfg: 'Conversations_sim', num: 30, depth: 40 }, simDeep: { cfg: 'Conversations_sim', num: 800, depth: 60 } }] };
const ec = (cfg, expect) => ({ name: `cache-${cfg}`, spec: 'ExploreCache', cfg: `ExploreCache_${cfg}`, driver: 'explorecache.mts', maxLen: 30, flavours: 3, cap: 600, expect });
CHECKS.S03 = { suites: [ec('repos', ['Put', 'Drop', 'Add', 'RemoveRepo']), ec('gens', ['Put', 'Drop']),
  { name: 'cache-sim', spec: 'ExploreCache', driver: 'explorecache.mts', flavours: 3, sim: { cfg: 'ExploreCache_sim', num: 150, depth: 50 }, simDeep: { cfg: 'ExploreCache_sim', num: 3000, depth: 80 } }] };
const cm = (cfg, expect, extra = {}) => ({ name: `compaction-${cfg}`, spec: 'Compaction', cfg: `Compaction_${cfg}`, driver: 'compaction.mts', maxLen: 12, flavours: 3, cap: 500, expect, ...extra });
CHECKS.S02 = { suites: [cm('age', ['Fill', 'Compact']), cm('vec', ['Fill', 'Compact', 'Tick']), cm('cap', ['Compact']), cm('crash', ['Crash'], { adaptive: true, rounds: 2 }),
  { name: 'compaction-sim', spec: 'Compaction', driver: 'compaction.mts', flavours: 3, sim: { cfg: 'Compaction_sim', num: 120, depth: 25 }, simDeep: { cfg: 'Compaction_sim', num: 1500, depth: 40 } }] };
const rt = (cfg, expect) => ({ name: `router-${cfg}`, spec: 'Router', cfg: `Router_${cfg}`, driver: 'router.mts', maxLen: 400, flavours: 3, cap: 1500, expect });
CHECKS.C03 = { suites: [rt('tiers', ['Set', 'Clear', 'Ask']), rt('models', ['Ask', 'Pin', 'Summariser']), rt('kinds', ['Ask', 'Pin', 'Guard']), rt('memo', ['AskKept', 'Restart']),
  { name: 'router-sim', spec: 'Router', driver: 'router.mts', flavours: 3, sim: { cfg: 'Router_sim', num: 150, depth: 80 }, simDeep: { cfg: 'Router_sim', num: 3000, depth: 120 } }] };
