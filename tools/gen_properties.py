#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. One entry per property; edit here, run, commit both."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, hook=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state: a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    a['observe_at'] = observe or []
    a['hook_needed'] = hook
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why, 'anchors': a})

# ---------------------------------------------------------------- graph store
prop('G01', 'Graph mutations are all-or-nothing',
 'Every batch mutation of the code-knowledge graph (storing entities, storing relations, re-indexing a file, registering a repository) either takes effect completely or, when it reports an error, leaves every stored row, index and identity mapping exactly as it was before the call. In particular a batch containing one invalid element never leaves the valid elements behind.',
 ['histories', 'fault_sequences'], 'all histories of graph mutations over a small universe of repos, files and entities in which any batch may contain an element that makes it fail at any position',
 'Tests exercise successful batches and a single failing call; none inspects the store after a failure in the middle of a batch, and the number of (history, failing position) pairs is unbounded.',
 ['src/db/graph/store.ts', 'src/db/entities.ts', 'src/db/relations.ts', 'src/db/repos.ts'],
 [('write transaction', 'src/db/graph/store.ts withWriteTxn'), ('entity upsert', 'src/db/entities.ts upsertEntities'), ('file re-index', 'src/db/entities.ts reindexFile')],
 ['entity/relation/repo read APIs after each call'])
prop('G02', 'Graph adjacency and lookups stay consistent under any mutation history',
 'After any sequence of entity, relation, file and repository mutations, an edge is reported by outgoing lookups exactly when it is reported by the matching incoming lookup, both its endpoints exist, and lookups by id, by name, by file, by kind and by repository all describe the same set of entities. Deleting a file, an entity or a repository removes exactly the entities that belong to it together with every edge that touches them, and nothing else.',
 ['histories'], 'all interleaved histories of upsert/delete operations over repos, files, entities and edge kinds',
 'Unit tests check a handful of straight-line histories; consistency between the secondary indexes is a global invariant over every reachable store state.',
 ['src/db/entities.ts', 'src/db/relations.ts', 'src/db/graph/edges.ts', 'src/db/graph/keys.ts', 'src/db/graph/traversal.ts'],
 [('paired edge tables', 'src/db/relations.ts upsertRelations'), ('cascade delete', 'src/db/entities.ts'), ('neighbour scans', 'src/db/graph/edges.ts'), ('reachability', 'src/db/graph/traversal.ts')],
 ['neighbour/closure/lookup APIs'])
prop('G03', 'Repository registry isolates repositories and never mixes their data',
 'A repository registered under any spelling of its path is one repository: it is listed once, found again, updated and removed under the same normalised path. Removing a repository removes its entities, edges, unresolved references and search rows and leaves every other repository untouched, and the identity of a removed repository or entity is never given to a later one.',
 ['histories'], 'all histories of register / status update / populate / remove / re-register over several repositories whose paths are prefixes of one another or differ by trailing separators',
 'Tests add and remove one repository at a time; identity reuse and cross-repository leakage only appear in longer histories.',
 ['src/db/repos.ts', 'src/db/graph/ids.ts', 'src/db/entities.ts', 'src/db/relations.ts'],
 [('registry', 'src/db/repos.ts'), ('monotonic counters', 'src/db/graph/ids.ts')],
 ['listRepos, lookupRepoId, entity listing'])
prop('G04', 'Unresolved references are promoted to edges exactly once and never lost',
 'A relation whose target is not known yet is kept as pending under its file and repository until it is promoted or its file or repository is dropped; storing the same reference again never duplicates it. Promoting it makes exactly that edge appear and removes the pending record; a promotion whose endpoint does not exist leaves the reference pending instead of losing it.',
 ['histories'], 'all histories of storing, promoting, updating and dropping references',
 'Tests promote one reference with both endpoints present; the loss only occurs in histories where endpoints vanish in between.',
 ['src/db/relations.ts'],
 [('unresolved queue', 'src/db/relations.ts listUnresolvedRelations'), ('promotion', 'src/db/relations.ts promoteToResolved / promoteResolvedBatch')],
 ['listUnresolvedRelations, neighbour lookups'])

prop('G05', 'Schema migrations apply exactly once and newer stores are refused',
 'Opening a store written by an older schema applies every missing migration exactly once, in order, each together with the version it reaches; a migration that fails or a crash in between leaves the store at the last version completed with that step undone, so that opening again continues from there. Migrating keeps every repository with a proper path and its entities, lookups and edges, moves modules to their shared namespace rows, and leaves nothing behind of a repository row it drops. A store written by a newer schema is refused and left unchanged.',
 ['histories', 'crashes'], 'all start versions, registries and failing or crashing steps, with reopening in between',
 'Tests run one migration from one version.',
 ['src/db/graph/migrations.ts', 'src/db/graph/store.ts'],
 [('migration runner', 'src/db/graph/migrations.ts runMigrations'), ('version check', 'src/db/graph/store.ts openGraphStore')],
 ['store contents and version after opening'])

prop('G06', 'Semantic search finds every embedded entity once and none that is gone',
 'After any history of storing, re-indexing, embedding, re-embedding and deleting entities and removing repositories, a vector search scoped to some repositories returns each entity of those repositories that currently has an embedding exactly once (respecting the code, artifact and kind filters), ranked by its latest embedding, and never an entity that was removed, belongs to another repository, or lost its embedding when it was stored again.',
 ['histories'], 'all histories of storing with and without embedding, embedding, re-indexing, deleting and removing repositories',
 'Whether a stored vector is added, replaced or dropped depends on what happened to the entity before; tests embed each entity once.',
 ['src/db/entities.ts', 'src/db/lance/entity-vec.ts', 'src/db/search.ts'],
 [('vector writes', 'src/db/entities.ts upsertEntities/reindexFile/updateEmbedding'), ('search', 'src/db/lance/entity-vec.ts searchEntityVecs')],
 ['search results'])

# ---------------------------------------------------------------- queue / daemon
prop('I02', 'The code index catches up with the files on disk',
 'Whenever the indexer has worked off its queue and settled, the index holds exactly the files of the repository that are on disk, each with the definitions of its current content, and exactly the import, call and inheritance links between them that the current contents imply - whatever order the files were created, edited, deleted and re-created in, and whether the changes arrived as events, as a full re-index, or were made while the daemon was stopped, stopped with work outstanding, or killed in the middle of indexing. Other repositories with files of the same names are unaffected.',
 ['histories', 'crash_points'], 'all histories of writing and deleting mutually importing files, with the daemon running, stopped, working off part of its queue, or dying before any store write, then restarted and drained',
 'Tests index one file or one fixture; losing a link needs a particular order of edits in several files or a crash between two particular writes.',
 ['src/indexer/index.ts', 'src/indexer/cross-file-resolver.ts', 'src/indexer/resolver.ts', 'src/daemon/queue.ts', 'src/db/entities.ts', 'src/db/relations.ts'],
 [('incremental index', 'src/indexer/index.ts indexFile/fileEvent'), ('startup catch-up', 'src/indexer/index.ts start/detectDelta'), ('linking', 'src/indexer/cross-file-resolver.ts'), ('job queue', 'src/daemon/queue.ts')],
 ['entity listing and edge lookups of the repository after draining'])
prop('I01', 'Index queue never loses, duplicates or reorders work incorrectly',
 'Every index job submitted to the daemon is eventually executed exactly once unless a documented deduplication rule merges it into an equivalent job still waiting; jobs run one at a time in submission order, a file job keeps its place but carries the latest event, and a re-index request replaces a waiting full index of the same scope. A failing job never stops or starves later jobs, and a job that is already running never absorbs a new submission.',
 ['schedules', 'histories'], 'all interleavings of submissions with job starts, completions and failures, and of stopping and restarting the queue',
 'Tests submit a few jobs up front; merge decisions depend on which job is running when a submission arrives, i.e. on the schedule.',
 ['src/daemon/queue.ts'],
 [('dedup on enqueue', 'src/daemon/queue.ts enqueue'), ('drain loop', 'src/daemon/queue.ts start')],
 ['executed job sequence, queue depth'])
prop('D01', 'Every IPC request gets exactly its own response, whatever the framing',
 'For every request line a client sends to the daemon socket, that client and only that client receives exactly one terminal reply carrying the same request id, with stream events of that request strictly before it. This holds however the bytes are split or coalesced into chunks (including inside a multi-byte character), for pipelined requests, unknown methods, failing handlers and malformed lines, and one client\'s error or disconnect never disturbs another client.',
 ['inputs', 'schedules'], 'all ways to chunk request streams of several clients and all completion orders of their handlers',
 'Tests send one whole line per write; the chunk boundaries and the completion orders are chosen by the kernel and the event loop.',
 ['src/daemon/server.ts', 'src/cli/client.ts', 'src/mcp/daemon-stream.ts'],
 [('NDJSON framing', 'src/daemon/server.ts'), ('client framing', 'src/cli/client.ts')],
 ['bytes on a unix socket'])
prop('D02', 'A daemon call settles exactly once in every ending',
 'A client call to the daemon, unary or streaming, settles exactly once: with the result when the terminal reply arrives, or with an error on an error reply, an undecodable reply, an abort, a connection failure or the connection closing before the terminal reply. Nothing that arrives after settlement changes the outcome or reaches the progress callback, and no ending leaves the call pending.',
 ['schedules', 'fault_sequences'], 'all orders of progress events, terminal replies, garbage, abort and close on the connection',
 'Tests cover a few single endings; the property quantifies over every order and repetition of them.',
 ['src/mcp/daemon-stream.ts', 'src/cli/client.ts'],
 [('settle-once guard', 'src/mcp/daemon-stream.ts runWorkflowStream, unaryRpc'), ('rpc', 'src/cli/client.ts')],
 ['promise settlement and progress callbacks against a scripted unix-socket server'])
prop('D03', 'Background workflow runs move through one lifecycle and report it faithfully',
 'A started workflow run is running until it first completes, fails or is aborted, and that first terminal status and its outcome never change afterwards, whatever its driver does later. Polling from any cursor returns exactly the events not yet seen in emission order together with the next cursor, runs are independent of each other and unknown ids are reported as such. A finished run stays pollable until more runs than the retained maximum (64) exist, the oldest finished ones being dropped first, while a running one is never dropped.',
 ['schedules', 'histories'], 'all interleavings of start, progress, completion, failure, abort, poll and passage of time across several runs',
 'Tests poll a run once or twice on the happy path; the races are between abort and completion and between garbage collection and polling.',
 ['src/daemon/workflow-run-registry.ts'],
 [('registry', 'src/daemon/workflow-run-registry.ts')],
 ['start/poll/abort replies'])
prop('D04', 'Chat session pool keeps live sessions and expires only idle ones',
 'A chat session created or restored in the pool stays retrievable under its own id and repository until it is dropped, closed or idle for longer than the limit; fetching it counts as activity, listing it or asking for its status does not. Idle cleanup never removes the most recently used session nor one that was active within the limit, and every session that is closed, expires or is alive when the daemon stops is closed exactly once, also when requests for it race; racing requests answer as if one had come after the other.',
 ['histories', 'schedules'], 'all histories of create / restore / get / list / drop / close / idle cleanup and passage of time over several sessions',
 'Tests check one idle session; the protected-most-recent rule and double close depend on the history.',
 ['src/daemon/chat-sessions.ts'],
 [('pool', 'src/daemon/chat-sessions.ts ChatSessionPool')],
 ['pool listing and close calls'])

# ---------------------------------------------------------------- workflow
prop('W01', 'No workflow stage runs on an upstream artifact that is not approved',
 'A downstream stage is admitted only when the artifact it builds on exists, carries an approval, and that approval has not been revoked by a later rejection; rejecting needs a reason, revokes the approval and records the reason, and approving again clears the rejection. Adding a story to an approved definition never duplicates a story id and never disturbs the other stories or the approval.',
 ['histories'], 'all histories of produce / approve / reject / re-approve / add-story over definition, high-level design, low-level design and plan',
 'Tests check each gate once from a hand-written artifact; the property is over every history of decisions that led to the artifact.',
 ['src/workflow/gates.ts', 'src/workflow/storage.ts'],
 [('gates', 'src/workflow/gates.ts require*'), ('decisions', 'src/workflow/gates.ts approveArtifactByJsonPath / rejectArtifactByJsonPath')],
 ['gate outcomes and artifact files on disk'])
prop('W02', 'Design amendments decide once and never change afterwards',
 'A proposed amendment has a fresh id, starts pending and can be approved or rejected exactly once; every later decision on it is refused and its content and first decision stay as recorded. Listing, counting and ordering of amendments of one epic always agree with those decisions and are unaffected by other epics or by unrelated files stored next to them.',
 ['histories'], 'all histories of propose / approve / reject / list over several amendments and epics',
 'Tests take each transition once; the property is about every sequence, including repeated and conflicting decisions.',
 ['src/workflow/amendments/storage.ts', 'src/workflow/amendments/types.ts'],
 [('transitions', 'src/workflow/amendments')],
 ['amendment files and listing API'])
prop('W03', 'The effective design is the approved amendments applied in approval order',
 'The design that downstream stages see equals the approved base design with exactly the approved amendments applied one by one in the order of their approval; pending and rejected amendments have no effect and the stored base design is never modified. An amendment that does not fit the design it is applied to is refused as a whole, leaving no partial change.',
 ['histories', 'inputs'], 'all sequences of amendments of every supported kind over small designs, including ones whose preconditions fail',
 'Tests apply each amendment kind once to one fixture; interactions between amendments (rename then reference, split then merge) are combinatorial.',
 ['src/workflow/amendments/applier.ts', 'src/workflow/amendments/effective.ts'],
 [('applier', 'src/workflow/amendments/applier.ts'), ('effective fold', 'src/workflow/amendments/effective.ts')],
 ['effective design returned to callers'])
prop('W04', 'A low-level design is stale exactly when the design beneath it changed',
 'A story design is reported stale, and refused as the basis of later stages, exactly when the effective high-level design it was written against differs from the current one because the base design was re-run or amendments were approved since, with the reason naming that change; an explicit acknowledgement lifts the refusal and standalone designs are exempt. The chain report proposes the next action in the documented order, never proposes work on an unmet prerequisite, and stops asking for a refresh once it is acknowledged.',
 ['histories'], 'all histories of re-running designs, approving amendments, acknowledging, and regenerating story designs across several stories',
 'Tests construct one stale and one fresh artifact; the property relates the report to the whole history of the epic.',
 ['src/workflow/amendments/staleness.ts', 'src/workflow/gates.ts', 'src/workflow/chain.ts'],
 [('effective hash comparison', 'src/workflow/gates.ts requireApprovedLld'), ('next action', 'src/workflow/chain.ts computeNextAction')],
 ['staleness scan, gate outcome, chain report'])
prop('W05', 'A build is admitted only against the current approved plan and design',
 'A build is admitted only when its plan exists, is approved and not rejected, and the design basis recorded in it equals that of the story design that is current at that moment; otherwise it is refused with the reason that applies. A standalone build is admitted according to its size class, and the admission reports the exact plan content that was checked.',
 ['histories'], 'all histories of producing, approving, rejecting and regenerating plans and designs before a build request',
 'Tests try each refusal once; the order of regeneration and approval decides the outcome.',
 ['src/workflow/runners/build/admission.ts'],
 [('admission', 'src/workflow/runners/build/admission.ts admitBuild / admitStandaloneBuild')],
 ['admission outcome'])
prop('W06', 'A blocking review or code review is never approved without an override',
 'An artifact whose review still blocks (an unresolved high or medium finding) is never approved without an explicit override, which is then recorded with it; resolving every such finding lifts the block. Approving a target in one step approves exactly its artifacts still awaiting a decision: ones held back by a review or an enforced code review are skipped with that reason, already approved ones are untouched, and rejected ones stay rejected.',
 ['histories', 'configurations'], 'all combinations of artifact states, review and code-review verdicts, enforcement and overrides, and all histories of resolve / approve / reject over them',
 'Tests pick single combinations; the cross product of verdict, enforcement, override and decision history is what matters.',
 ['src/workflow/gates.ts', 'src/workflow/review/resolve.ts', 'src/workflow/code-review/gate.ts'],
 [('review block', 'src/workflow/gates.ts approveArtifactByJsonPath'), ('code-review gate', 'src/workflow/code-review/gate.ts'), ('batch approval', 'src/workflow/gates.ts approveWorkflowTarget')],
 ['artifact files and batch summary'])
prop('W07', 'Recording build progress never loses a task or a decision',
 'Recording the outcome of a build on an existing record keeps its creation time, its approval, rejection and override, and every task it already held; a task reported again replaces its earlier outcome in place, new tasks are added after the others. A record that cannot be read is replaced, and a damaged one never blocks recording.',
 ['histories'], 'all histories of build recordings interleaved with approvals and rejections',
 'Tests record once or twice; merge rules are over arbitrary histories.',
 ['src/workflow/runners/build/standalone-record.ts'],
 [('upsert', 'src/workflow/runners/build/standalone-record.ts')],
 ['build artifact on disk'])
prop('W08', 'A paused workflow resumes exactly where it stopped',
 'A multi-step run executes its steps in plan order, each exactly once per success, feeding each step the outputs of the earlier ones. When a step pauses, resuming with the caller\'s answer continues that same step and then the rest without re-running completed steps, and resuming never alters the paused state it started from, so that state can be resumed again with another answer. A state that is not paused is refused, and a step that fails ends the run at that step with earlier outputs intact.',
 ['histories', 'fault_sequences'], 'all plans of a few steps with every pattern of success, pause, repeated pause and failure per step, and every resume order',
 'Tests pause a single step once.',
 ['src/workflow/executor.ts'],
 [('tick loop', 'src/workflow/executor.ts startRun / resumeRun')],
 ['runner invocations and run state'])
prop('W09', 'Open upstream questions block the stages that depend on them',
 'A stage that depends on an artifact with open questions is held back until each of them has been resolved, ignored or deferred, and is not held back otherwise; recording a decision changes only the question it names, an unknown question is refused, and deferred questions remain listed. A question keeps its identity as long as its text or tag does not change.',
 ['histories'], 'all histories of raising and deciding questions across the upstream artifacts',
 'Tests resolve one question; the gate must hold for every subset of decisions.',
 ['src/workflow/questions.ts', 'src/mcp/workflow-step/questions-gate.ts'],
 [('question ledger', 'src/workflow/questions.ts'), ('gate', 'src/mcp/workflow-step/questions-gate.ts')],
 ['gate outcome and question lists'])
prop('W10', 'A crash never leaves a torn workflow artifact',
 'Whatever point a crash or write failure hits while an artifact is being stored, approved, rejected or amended, a later reader finds each file either exactly as it was before or exactly as it was meant to become, never truncated, mixed or missing. A failed write is reported to the caller.',
 ['crash_points', 'fault_sequences'], 'every file-system operation issued by each storing operation, crashed before, in the middle or after, or failing with an I/O error',
 'Tests never crash; the property is quantified over every intermediate disk state.',
 ['src/workflow/storage.ts', 'src/workflow/gates.ts', 'src/workflow/amendments/storage.ts', 'src/workflow/tracker/refs.ts'],
 [('write to temp then rename', 'src/workflow/storage.ts writeAtomic')],
 ['files on disk after an interrupted operation'])
prop('W11', 'Pushing to the issue tracker never creates an issue twice',
 'However often approvals push an epic, its stories and its tasks to the issue tracker, and whichever tracker call fails in between, each epic, story and task ends up with at most one issue whose reference is recorded in the artifact, provided the recorded references survive. Tracker failures and tracker misconfiguration never undo or block the approval itself, stories are only pushed under a pushed epic and tasks under a pushed story, what is checked in includes the references, and a sync records either the current status of every issue or nothing.',
 ['histories', 'fault_sequences'], 'all histories of pushes and retries with a failure injected at any tracker call that has no remote effect',
 'Tests run one successful push with a fake tracker and one idempotent repeat; partial failure followed by retry is not sampled.',
 ['src/workflow/tracker-auto.ts', 'src/workflow/tracker/refs.ts', 'src/workflow/tracker/github.ts'],
 [('duplicate guard', 'src/workflow/tracker-auto.ts'), ('ref persistence', 'src/workflow/tracker/refs.ts patchTrackerMeta')],
 ['issues in a fake tracker and refs in artifacts'])

# ---------------------------------------------------------------- config
prop('C01', 'Configuration reconciliation preserves the user\'s settings and is idempotent',
 'Reconciling any stored configuration against the catalog keeps every valid value the user set, fills what is missing with defaults, replaces only values of an invalid form, moves or removes retired settings without overwriting anything the user set at the new place, and leaves settings it does not know alone. Reconciling the result again changes nothing, the input is never modified, and a change is reported exactly when the result differs.',
 ['inputs', 'configurations'], 'all small configuration trees (missing, valid, invalid, unknown and retired leaves at every position) and small catalogs',
 'Tests use a few fixture files; the statement is universally quantified over configuration trees.',
 ['src/config/reconcile.ts', 'src/config/config-catalog.ts'],
 [('pure reconcile', 'src/config/reconcile.ts')],
 ['reconcile result'])
prop('C02', 'Startup reconciliation never corrupts or loses the configuration file',
 'Reconciling the configuration file at startup never fails the daemon, writes at most once and only when something changed, and whatever I/O fault or crash occurs the file on disk is either untouched or the complete new content. A file that cannot be read or parsed is left alone, and an edit made by someone else during the reconciliation is not overwritten.',
 ['fault_sequences', 'crash_points', 'schedules'], 'every I/O call of the reconciliation failing or crashing, and a concurrent edit at every point in between',
 'Tests inject a single fault each.',
 ['src/config/reconcile-io.ts'],
 [('read-check-write with rename', 'src/config/reconcile-io.ts')],
 ['file contents and reported outcome'])
prop('C03', 'Model routing honours overrides and never drops below a quality floor',
 'The model tier and model chosen for a role follow from the most specific valid setting that applies (repository over global over built-in default), are the same every time they are asked of one run, and an override for one repository never affects another. A request whose quality is critical is never served below the floor in force; other requests are served exactly as assigned, and a value that is no tier is ignored in the settings and refused by the guard. What the settings screen shows is what a newly started daemon would do, and editing one setting leaves all others as they were.',
 ['configurations', 'inputs'], 'all combinations of global and per-repository tier, floor and model settings for several roles and repositories, in any query order',
 'Tests check single settings; precedence is over the cross product and over the order of queries because results are cached.',
 ['src/analyze/context/role-router.ts', 'src/config/analyze.ts', 'src/config/core-floor-guard.ts', 'src/config/role-taxonomy.ts', 'src/config/write-path.ts', 'src/cli/panes/model-tiers.ts'],
 [('resolution and per-run memo', 'src/analyze/context/role-router.ts'), ('settings parsing and cache', 'src/config/analyze.ts'), ('floor', 'src/config/core-floor-guard.ts'), ('effective tiers shown', 'src/cli/panes/model-tiers.ts computeEffectiveTiers')],
 ['resolved tier/model'])
prop('C04', 'Stored settings entries are found in exactly the scope they were put in',
 'A stored configuration entry is returned by id and by its scope exactly from the time it is saved until it is deleted or moved to another scope, with the latest content; listing a scope returns each of its entries once and none from another scope. Clearing a repository\'s entries removes exactly those.',
 ['histories'], 'all histories of save / move / delete / list over several scopes',
 'Tests save and list a few entries; scope moves and re-saves over histories are not sampled.',
 ['src/config/store.ts'],
 [('entry + scope index', 'src/config/store.ts ConfigStore')],
 ['ConfigStore read API'])

# ---------------------------------------------------------------- user data
prop('T01', 'Todo lists and items only make legal state changes',
 'A todo list or item changes status only along the documented transitions, every illegal change is refused without side effects, and an item carries a completion time exactly when it is completed. The lists of a session form a forest inside that session (never a cycle, never a missing or foreign parent when the parent is set), and deleting a list or item removes exactly what hangs below it, its items and their comments, and nothing else.',
 ['histories'], 'all histories of create / update / transition / re-parent / comment / delete over a few lists and items',
 'Tests take each transition once from a fresh list.',
 ['src/db/todos.ts', 'src/shared/todos.ts'],
 [('transition tables', 'src/shared/todos.ts'), ('store', 'src/db/todos.ts')],
 ['todo read API'])
prop('T02', 'Concurrent todo updates are never lost',
 'When several todo operations are in flight at the same time, the outcome equals running the successful ones one after another in some order: no accepted update, transfer or re-parenting disappears, every accepted status change was legal when it took effect, and no cycle can be formed. The transfer history only ever grows.',
 ['schedules'], 'all interleavings of two or three concurrent operations on the same lists and items',
 'Tests await each call before the next.',
 ['src/db/todos.ts'],
 [('read-validate-write', 'src/db/todos.ts updateList / updateItem / transferList / reparentList')],
 ['todo read API after concurrent calls'])
prop('T03', 'Only its owner changes a todo list, and every change is announced',
 'Through the todos requests a list and its items are changed only by the caller that owns the list: the user and other agents are refused, and the system may only clean up. A refused request changes nothing and announces nothing. Items stay exactly where they were inserted or moved, however many others are put next to them; a list whose items are all finished completes itself; bulk cleanup requires a scope and removes exactly the lists that match. Every accepted change is announced to subscribers with the state it produced.',
 ['histories', 'inputs'], 'all histories of requests by owners, other agents, the user, the system and unknown callers, including insertions at the same place beyond the key space between two items',
 'Tests check one refusal and one event per request; positions and authorisation after transfers are properties of histories.',
 ['src/daemon/todos-rpc.ts', 'src/db/todos.ts'],
 [('ownership guard', 'src/daemon/todos-rpc.ts guardListMutation'), ('item order', 'src/daemon/todos-rpc.ts orderKeyAfter'), ('events', 'src/daemon/todos-rpc.ts emit')],
 ['todos.* responses, todo read API, todos.subscribe events'])
prop('S01', 'Conversation history is complete, ordered and removed as a whole',
 'Every saved turn is returned by its session in turn order with the content last saved until it or its session is deleted; sessions are listed under their own repository only, and closing a session keeps its turns. Deleting a session or all sessions of a repository removes exactly those sessions with all their turns.',
 ['histories'], 'all histories of saving turns and sessions, closing, deleting and pruning across repositories',
 'Tests save and read back a short session.',
 ['src/db/conversations.ts'],
 [('turn store', 'src/db/conversations.ts'), ('by-repo index', 'src/db/conversations.ts')],
 ['conversation read API'])
prop('S02', 'Compaction keeps directives and recent turns',
 'Compacting a conversation history keeps every user directive found in it as a directive with its wording, whatever its age, except that beyond the directive cap the oldest go first and that an earlier directive gives way to a later near-identical one. Other turns leave only as documented: assistant text of turns past the hot window is cut short, similar older turns are merged into one entry that carries what each asked, the oldest are collapsed per session into a summary that names each, near-duplicates of the same tier give way to the newest, and beyond the size cap the lowest tier and the oldest go first; all else, and every other repository, stays as it was. A dry run changes nothing, and a run that is cut short loses nothing.',
 ['histories', 'inputs'], 'all small histories of turns of every age class, with and without directives, under repeated compaction',
 'Tests compact one fixture per age class; interactions between steps working on the same turn are not sampled.',
 ['src/db/compaction.ts', 'src/db/conversations.ts'],
 [('compaction steps', 'src/db/compaction.ts')],
 ['turns and directives after compaction'])
prop('S03', 'Cached explorations are only served for the same question on the same index',
 'A cached exploration result is returned exactly when the same parameters (irrespective of how their keys are ordered) were stored for the same repository at the same index generation, and it is the latest stored one; any other parameter, repository or generation misses. Dropping a repository\'s cache removes all and only its results.',
 ['histories', 'inputs'], 'all histories of store / lookup / re-index / drop over small parameter trees and repositories',
 'Tests check a hit and a miss.',
 ['src/db/exploration-cache.ts'],
 [('canonical hash key', 'src/db/exploration-cache.ts')],
 ['cache lookups'])

# ---------------------------------------------------------------- mcp / access / tools
prop('M01', 'Step tokens identify exactly one live state until released or expired',
 'A token handed out for a multi-step protocol yields exactly the state stored under it until it is released, expires by inactivity or is evicted because the store is full, in which case the least recently used one goes first; afterwards it is reported as unknown. Tokens are never reused or shared, malformed tokens and tokens presented at the wrong stage are refused with that reason, and no operation affects another token\'s state.',
 ['histories'], 'all histories of save / load / update / release and passage of time over more states than the store holds',
 'Tests use one or two tokens; eviction order and expiry depend on the whole history of touches.',
 ['src/mcp/analyze-step/state-store.ts', 'src/mcp/review-step/state-store.ts', 'src/mcp/code-review-step/state-store.ts', 'src/mcp/workflow-step/state-store.ts', 'src/mcp/workflow-step/state.ts'],
 [('in-memory stores', 'src/mcp/*/state-store.ts'), ('stage check', 'src/mcp/workflow-step/state.ts')],
 ['load outcomes'])
prop('M02', 'A step-by-step workflow run advances only along its phases',
 'Driving a workflow through the step protocol, a submission is accepted only with a token issued for exactly that phase of that run; one that comes out of order or with an unknown or released token is refused and has no effect. A rejected submission (bad plan, bad answer, invalid artifact) leaves its token usable so the corrected one continues, a paused step asks again until it is answered, and finishing writes the artifact of exactly that run and releases its token. Runs in one server never affect each other.',
 ['histories'], 'all histories of submissions of every phase, good and bad, with every token issued so far, over several interleaved runs',
 'Tests walk the happy path of one run.',
 ['src/mcp/workflow-step/handler.ts', 'src/mcp/workflow-step/phases/plan.ts', 'src/mcp/workflow-step/phases/step.ts', 'src/mcp/workflow-step/phases/synthesize.ts', 'src/mcp/workflow-step/state.ts'],
 [('phase handlers', 'src/mcp/workflow-step/phases')],
 ['protocol replies and artifacts on disk'])
prop('A01', 'Access is granted only while a matching approval is in force',
 'A request is allowed exactly when an approval for that very resource or for a prefix containing it (whole path components only for files, same kind of resource) has been given and not revoked since; revoking with the same argument takes back exactly that approval. The approvals list and the audit log are chronological; the log holds every recorded decision up to its documented bound, dropping only the oldest, and a snapshot of it never changes.',
 ['histories'], 'all histories of approve / approve-prefix / revoke / clear / check over nested paths and resource kinds',
 'Tests check single approvals.',
 ['src/shared/access.ts'],
 [('approval store', 'src/shared/access.ts DefaultAccessStore'), ('audit log', 'src/shared/access.ts DefaultAccessAuditLog')],
 ['isApproved answers and audit queries'])
prop('A02', 'Tool lookup is unambiguous and tool execution never throws',
 'A tool is reachable under its own id and under the aliases bound to it last, an id always wins over another tool\'s alias, an alias of an unregistered tool or one that is already an id is refused, and a re-registration takes effect under every name. Executing any tool by any name always ends in one result that is either a success or a reported failure, however the tool or its approval check misbehaves, and each result belongs to the call that asked for it.',
 ['histories', 'fault_sequences'], 'all histories of register / unregister with colliding ids and aliases, and executions of tools that succeed, report failure or throw',
 'Tests register disjoint tools.',
 ['src/daemon/tools/registry.ts', 'src/daemon/tools/executor.ts'],
 [('registry', 'src/daemon/tools/registry.ts'), ('executor', 'src/daemon/tools/executor.ts')],
 ['lookup and execution results'])
prop('U01', 'Traffic monitor totals equal what was observed',
 'In the agent traffic monitor, per-day, per-provider and per-session totals always equal the sums over the recorded requests that fall into them, every recorded request is counted exactly once, and purging removes exactly what is older than the retention period. The gap-free activity series shows every day of its window once with that day\'s totals.',
 ['histories'], 'all histories of recording requests (with and without model and session), passage of days and purging',
 'Tests record one or two events.',
 ['camon/src/camon/storage.py', 'camon/src/camon/addon_runtime.py'],
 [('record', 'camon/src/camon/storage.py Storage.record'), ('purge', 'camon/src/camon/storage.py purge_expired')],
 ['summary queries'])
prop('U02', 'Rotated traffic logs lose no record before the rotation limit',
 'When traffic logging is enabled for an agent, every request of that agent appends exactly one record to the log of its day; rotation moves whole files in order, keeps at most the documented number of them, discards only the oldest, and no file exceeds the configured size unless a single record does. Agents without enabled logging leave no log.',
 ['histories'], 'all histories of record sizes, size limits and enablement changes across enough rotations to overflow the limit',
 'Tests rotate at most once.',
 ['camon/src/camon/addon_runtime.py'],
 [('rotation', 'camon/src/camon/addon_runtime.py _rotate_log')],
 ['log files on disk'])

prop('E01', 'Exploration plans answer each question once, in order, and cache what is sound',
 'Executing an exploration plan (in one go, or step by step with the client answering the questions that need a model) yields one result per exploration in plan order: the runner\'s output, a cached output, "unsupported", or "failed"; a failing or impossible exploration never stops the others. Parameters that refer to earlier results are replaced by exactly the referenced values ($e1.hits[0].path, a range, a field over a range, a whole list) before the exploration runs; a reference that yields nothing (unknown, later or failed step, no such field, empty list) makes the exploration a skipped one. Step-by-step runs give the results of a run in one go: they pause only at questions the client has to answer, refuse an answer to another question or of the wrong shape without losing the run, keep only citations of retrieved sections, and continue after the answer. An output is served from the cache only for the same repository, index generation, type and (resolved) parameters; live probes, failures and skips are never cached; an answer given by the client is kept under the question that was asked.',
 ['inputs', 'histories'], 'all plans of a set built around each kind of reference, failure, repetition and pause, in all orders of runs, replayed steps, file changes and re-indexing within the bounds',
 'Tests run single plans with one kind of placeholder and check one cache hit; none compares the two executors over histories.',
 ['src/analyze/explore/executor.ts', 'src/mcp/analyze-step/phases/plan.ts', 'src/mcp/analyze-step/phases/narrow.ts', 'src/db/exploration-cache.ts'],
 [('one go', 'src/analyze/explore/executor.ts executePlan'), ('step by step', 'src/analyze/explore/executor.ts stepPlan, src/mcp/analyze-step/phases')],
 ['results of a plan', 'explorationCache reads'])

with open(OUT, 'w') as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + '\n')
print(len(P), 'properties')
