From 21b491b2e33478b4078838275bd8bc3a75e955c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:26 +0000
Subject: [PATCH 01/60] fix: an aborted workflow run stays aborted and reports
 its error

---
 src/daemon/workflow-run-registry.ts | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/daemon/workflow-run-registry.ts b/src/daemon/workflow-run-registry.ts
index 8c13afa..52dbeac 100644
--- a/src/daemon/workflow-run-registry.ts
+++ b/src/daemon/workflow-run-registry.ts
@@ -115,6 +115,9 @@ export function startWorkflowRun(rawParams: unknown, deps: StartRunDeps = {}): {
 		: driveWithSeam();
 	void run.then(
 		(result) => {
+			// An abort that already ended the run is final: callers that saw
+			// 'aborted' must not later see the same run flip to 'done'.
+			if (state.status !== 'running') return;
 			state.status = 'done';
 			state.result = result;
 			// Refresh the seeded run-wide label with the artifact's per-output
@@ -123,10 +126,7 @@ export function startWorkflowRun(rawParams: unknown, deps: StartRunDeps = {}): {
 			log.info({ runId, path: result.path }, 'workflow.run (async) done');
 		},
 		(err: unknown) => {
-			if (abort.signal.aborted) {
-				state.status = 'aborted';
-				state.error  = 'workflow.run: aborted';
-			} else {
+			if (state.status === 'running') {
 				state.status = 'error';
 				state.error  = err instanceof Error ? err.message : String(err);
 			}
@@ -163,7 +163,10 @@ export function abortWorkflowRun(runId: string): { ok: boolean } {
 	const state = runs.get(runId);
 	if (state === undefined) return { ok: false };
 	state.abort.abort();
-	if (state.status === 'running') state.status = 'aborted';
+	if (state.status === 'running') {
+		state.status = 'aborted';
+		state.error  = 'workflow.run: aborted';
+	}
 	return { ok: true };
 }
 
-- 
2.43.0


From 95caf3be3de0d169f9df0f1cfed91b6747d28c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:13 +0000
Subject: [PATCH 02/60] fix: the chain report honours an acknowledged stale LLD

---
 src/workflow/chain.ts | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/workflow/chain.ts b/src/workflow/chain.ts
index 717335a..6525623 100644
--- a/src/workflow/chain.ts
+++ b/src/workflow/chain.ts
@@ -49,6 +49,8 @@ export interface ChainReport {
 		readonly approved: boolean;
 		readonly stale:    boolean;
 		readonly staleReason?: string;
+		/** The staleness was explicitly acknowledged (`ack-stale`). */
+		readonly staleAcked?: boolean;
 		readonly path?:    string;
 	}[];
 	readonly amendments: {
@@ -159,7 +161,7 @@ function readStoryLldStatus(
 ): ChainReport['stories'] {
 	if (define.artifact === undefined) return [];
 	const stories = define.artifact.body.stories;
-	const staleness = hld.artifact === undefined ? new Map<string, { stale: boolean; staleReason?: string }>()
+	const staleness = hld.artifact === undefined ? new Map<string, StoryStaleness>()
 		: staleByStory(scanLldStaleness(repoPath, epicHash, hld.artifact));
 	const epicSlug = define.artifact.meta.epicSlug;
 	return stories.map(s => {
@@ -179,15 +181,26 @@ function readStoryLldStatus(
 			hasLld, approved,
 			stale: stale?.stale === true,
 			...(stale?.staleReason !== undefined ? { staleReason: stale.staleReason } : {}),
+			...(stale?.acked === true ? { staleAcked: true } : {}),
 			...(hasLld ? { path: lldArtifactPaths(repoPath, epicHash, s.id, epicSlug).md } : {}),
 		};
 	});
 }
 
-function staleByStory(entries: ReturnType<typeof scanLldStaleness>): Map<string, { stale: boolean; staleReason?: string }> {
-	const m = new Map<string, { stale: boolean; staleReason?: string }>();
+interface StoryStaleness {
+	readonly stale:        boolean;
+	readonly staleReason?: string;
+	readonly acked:        boolean;
+}
+
+function staleByStory(entries: ReturnType<typeof scanLldStaleness>): Map<string, StoryStaleness> {
+	const m = new Map<string, StoryStaleness>();
 	for (const e of entries) {
-		m.set(e.storyId, { stale: e.stale, ...(e.staleReason !== undefined ? { staleReason: e.staleReason } : {}) });
+		m.set(e.storyId, {
+			stale: e.stale,
+			...(e.staleReason !== undefined ? { staleReason: e.staleReason } : {}),
+			acked: e.stale && e.ackedStale !== undefined,
+		});
 	}
 	return m;
 }
@@ -269,7 +282,9 @@ function computeNextAction(epicHash: string, s: NextActionInput): NextAction {
 	}
 	// 4. LLDs: pick the first Story that's missing OR stale OR unapproved.
 	for (const story of s.stories) {
-		if (story.stale) {
+		// An acknowledged staleness no longer blocks — same rule as
+		// `requireApprovedLld`.
+		if (story.stale && story.staleAcked !== true) {
 			return {
 				kind: 'refresh-stale',
 				storyId: story.id,
-- 
2.43.0


From 3e6f3ac6f7e320eace165fe9f875933544ac3387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:41 +0000
Subject: [PATCH 03/60] fix: an empty review override does not bypass the
 enforced build code review

---
 src/workflow/gates.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/workflow/gates.ts b/src/workflow/gates.ts
index b85756e..a636978 100644
--- a/src/workflow/gates.ts
+++ b/src/workflow/gates.ts
@@ -646,7 +646,7 @@ export function approveWorkflowTarget(
 			if (
 				effectiveEnforce &&
 				gate.status === 'no-review' &&
-				req.overrideReview === undefined &&
+				(req.overrideReview === undefined || req.overrideReview.length === 0) &&
 				basename(jsonPath).startsWith('BUILD-')
 			) {
 				skipped.push({ path: jsonPath, reason: 'completion requires a code review; none was run' });
-- 
2.43.0


From 5c29c63bde13adaa7159cf83911d82f11d7b2cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:41 +0000
Subject: [PATCH 04/60] fix: a batch approve leaves rejected artifacts rejected

---
 src/workflow/gates.ts | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/workflow/gates.ts b/src/workflow/gates.ts
index a636978..6a1a668 100644
--- a/src/workflow/gates.ts
+++ b/src/workflow/gates.ts
@@ -582,7 +582,7 @@ export interface WorkflowApproveResult {
 }
 
 /** JSON paths of every DEF/HLD/LLD/PLAN/BUILD artifact under `epicHash` that is
- *  not yet approved (meta.approvedAt absent). BUILD is the story-completion
+ *  awaiting a decision (meta.approvedAt and meta.rejectedAt absent). BUILD is the story-completion
  *  approval target, so it joins the batch sweep alongside the design artifacts.
  *  Sorted; malformed files skipped. */
 function pendingArtifactJsonPaths(repoPath: string, epicHash: string): string[] {
@@ -594,8 +594,8 @@ function pendingArtifactJsonPaths(repoPath: string, epicHash: string): string[]
 		if (!re.test(name)) continue;
 		const jsonPath = join(dir, name);
 		try {
-			const meta = (JSON.parse(readFileSync(jsonPath, 'utf8')) as { meta?: { approvedAt?: string } }).meta;
-			if (meta?.approvedAt === undefined) out.push(jsonPath);
+			const meta = (JSON.parse(readFileSync(jsonPath, 'utf8')) as { meta?: { approvedAt?: string; rejectedAt?: string } }).meta;
+			if (meta?.approvedAt === undefined && meta?.rejectedAt === undefined) out.push(jsonPath);
 		} catch { /* malformed — skip */ }
 	}
 	return out;
-- 
2.43.0


From b9b6be82445fec64b2fb7362b4497ef8f5937677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:02 +0000
Subject: [PATCH 05/60] fix: approving an amendment that no longer fits the
 effective HLD is refused

---
 src/cli/services/workflow.ts | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/cli/services/workflow.ts b/src/cli/services/workflow.ts
index a464097..73a97fc 100644
--- a/src/cli/services/workflow.ts
+++ b/src/cli/services/workflow.ts
@@ -43,6 +43,8 @@ import {
 	approveAmendment,
 	rejectAmendment,
 } from '../../workflow/amendments/store.js';
+import { applyAmendments } from '../../workflow/amendments/applier.js';
+import { getEffectiveHld } from '../../workflow/amendments/effective.js';
 import { scanLldStaleness, type StaleLldEntry } from '../../workflow/amendments/staleness.js';
 import { listDeferred, type DeferredQuestion } from '../../workflow/questions.js';
 import type { AmendmentRecord } from '../../workflow/amendments/types.js';
@@ -261,7 +263,15 @@ export function showAmendment(repoPath: string, amendmentId: string): AmendmentR
 	return readAmendment(repoPath, amendmentId);
 }
 
+/** Approve a pending amendment. Dry-runs the applier against the current
+ *  effective HLD first: an amendment that no longer fits is refused here rather
+ *  than leaving the Epic with an effective HLD nobody can compute. */
 export function approveAmendmentById(repoPath: string, amendmentId: string, approvedBy: string): AmendmentRecord {
+	const rec = readAmendment(repoPath, amendmentId);
+	if (rec.status === 'pending' && existsSync(hldArtifactPaths(repoPath, rec.epicHash).json)) {
+		const effective = getEffectiveHld(repoPath, rec.epicHash, readBaseHld(repoPath, rec.epicHash));
+		applyAmendments(effective.body, [rec]);
+	}
 	return approveAmendment(repoPath, amendmentId, approvedBy);
 }
 
-- 
2.43.0


From 87571780e534496d914178c404f082e1e05b359c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:22 +0000
Subject: [PATCH 06/60] fix: a build record with a damaged body no longer
 blocks recording progress

---
 src/workflow/runners/build/standalone-record.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/workflow/runners/build/standalone-record.ts b/src/workflow/runners/build/standalone-record.ts
index 57a00a4..6fdfb4a 100644
--- a/src/workflow/runners/build/standalone-record.ts
+++ b/src/workflow/runners/build/standalone-record.ts
@@ -203,7 +203,9 @@ function mergeTasks(prior: readonly BuildRecordTask[] | undefined, next: readonl
 function mergeWithPrior(jsonPath: string, rec: BuildRecord): BuildRecord {
 	const prior = readPriorRecord(jsonPath);
 	if (prior === null) return rec;
-	const tasks = mergeTasks(prior.body.tasks, rec.body.tasks);
+	// A damaged body never blocks the write (fail-open); the stamps still carry over.
+	const priorTasks = Array.isArray(prior.body?.tasks) ? prior.body.tasks : undefined;
+	const tasks = mergeTasks(priorTasks, rec.body.tasks);
 	const meta: BuildRecord['meta'] = {
 		...rec.meta,
 		createdAt: prior.meta.createdAt,
-- 
2.43.0


From 014c51aadea069bcde9893b19e68f0565834b61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:51 +0000
Subject: [PATCH 07/60] fix: multi-byte characters split across IPC chunks are
 decoded intact

---
 src/cli/client.ts        | 4 +++-
 src/daemon/server.ts     | 4 +++-
 src/mcp/daemon-stream.ts | 7 +++++--
 3 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/cli/client.ts b/src/cli/client.ts
index 28e2f26..740f1a2 100644
--- a/src/cli/client.ts
+++ b/src/cli/client.ts
@@ -1,4 +1,5 @@
 import { createConnection, type Socket } from 'node:net';
+import { StringDecoder } from 'node:string_decoder';
 import type { IpcRequest, IpcResponse } from '../shared/types.js';
 import { PATHS } from '../shared/paths.js';
 
@@ -15,6 +16,7 @@ let _nextId = 1;
 export async function rpc<T = unknown>(method: string, params: unknown = {}, connect: () => Socket = () => createConnection(PATHS.sockFile)): Promise<T> {
   return new Promise<T>((resolve, reject) => {
     const socket = connect();
+    const decoder = new StringDecoder('utf8');   // a chunk may end inside a multi-byte character
     let   buffer = '';
 
     socket.on('connect', () => {
@@ -24,7 +26,7 @@ export async function rpc<T = unknown>(method: string, params: unknown = {}, con
     });
 
     socket.on('data', (chunk: Buffer) => {
-      buffer += chunk.toString();
+      buffer += decoder.write(chunk);
       const lines = buffer.split('\n');
       buffer = lines.pop() ?? '';
 
diff --git a/src/daemon/server.ts b/src/daemon/server.ts
index 5330579..d2a192c 100644
--- a/src/daemon/server.ts
+++ b/src/daemon/server.ts
@@ -1,4 +1,5 @@
 import { createServer, type Server, type Socket } from 'node:net';
+import { StringDecoder } from 'node:string_decoder';
 import { rmSync } from 'node:fs';
 import type { AttachedClient, IpcRequest, IpcResponse, IpcStreamMessage } from '../shared/types.js';
 import { PATHS } from '../shared/paths.js';
@@ -120,6 +121,7 @@ export class IpcServer {
   }
 
   private handleConnection(socket: Socket): void {
+    const decoder = new StringDecoder('utf8');   // a chunk may end inside a multi-byte character
     let buffer = '';
 
     // Register the connection (Story s4) — 'unknown' until a message identifies it.
@@ -127,7 +129,7 @@ export class IpcServer {
     socket.on('close', () => { this.conns.delete(socket); });
 
     socket.on('data', (chunk: Buffer) => {
-      buffer += chunk.toString();
+      buffer += decoder.write(chunk);
       const lines = buffer.split('\n');
       buffer = lines.pop() ?? '';
 
diff --git a/src/mcp/daemon-stream.ts b/src/mcp/daemon-stream.ts
index c4c5964..b1ecb81 100644
--- a/src/mcp/daemon-stream.ts
+++ b/src/mcp/daemon-stream.ts
@@ -21,6 +21,7 @@
  */
 
 import { createConnection, type Socket } from 'node:net';
+import { StringDecoder } from 'node:string_decoder';
 import { PATHS } from '../shared/paths.js';
 import { getLogger } from '../shared/logger.js';
 import type { RunWorkflowResult, WorkflowProgress } from '../daemon/workflow-rpc.js';
@@ -85,6 +86,7 @@ export function runWorkflowStream(
 ): Promise<RunWorkflowStreamResult> {
 	return new Promise<RunWorkflowStreamResult>((resolve, reject) => {
 		const socket = deps.connect !== undefined ? deps.connect() : createConnection(PATHS.sockFile);
+		const decoder = new StringDecoder('utf8');   // a chunk may end inside a multi-byte character
 		let   buffer  = '';
 		let   settled = false;
 
@@ -129,7 +131,7 @@ export function runWorkflowStream(
 		});
 
 		function onData(chunk: Buffer): void {
-			buffer += chunk.toString();
+			buffer += decoder.write(chunk);
 			const lines = buffer.split('\n');
 			buffer = lines.pop() ?? '';   // keep the partial trailing line
 
@@ -202,13 +204,14 @@ export interface UnaryRpcDeps {
 function unaryRpc<T>(method: string, params: unknown, deps: UnaryRpcDeps): Promise<T> {
 	return new Promise<T>((resolve, reject) => {
 		const socket = deps.connect !== undefined ? deps.connect() : createConnection(PATHS.sockFile);
+		const decoder = new StringDecoder('utf8');   // a chunk may end inside a multi-byte character
 		let   buffer = '';
 
 		socket.on('connect', () => {
 			socket.write(JSON.stringify({ id: _nextId++, method, params, client: { label: 'mcp', pid: process.pid } }) + '\n');
 		});
 		socket.on('data', (chunk: Buffer) => {
-			buffer += chunk.toString();
+			buffer += decoder.write(chunk);
 			const lines = buffer.split('\n');
 			buffer = lines.pop() ?? '';
 			for (const line of lines) {
-- 
2.43.0


From 5144cbc99a947bc45191057ee8f1d49afa09e056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:51 +0000
Subject: [PATCH 08/60] fix: a JSON line that is not an object no longer
 crashes the daemon

---
 src/daemon/server.ts | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/daemon/server.ts b/src/daemon/server.ts
index d2a192c..72ed1c5 100644
--- a/src/daemon/server.ts
+++ b/src/daemon/server.ts
@@ -151,6 +151,10 @@ export class IpcServer {
       this.send(socket, { id: -1, error: 'invalid JSON' });
       return;
     }
+    if (typeof request !== 'object' || request === null) {
+      this.send(socket, { id: -1, error: 'invalid request' });
+      return;
+    }
 
     // Update the connection registry from the (validated) client identity +
     // the method just invoked (Story s4). Untrusted wire input is validated
-- 
2.43.0


From 8ceffedcb2c8f4bbb58d86d099a82bd357a7fffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:51 +0000
Subject: [PATCH 09/60] fix: an IPC method named after an inherited property is
 an unknown method

---
 src/daemon/server.ts | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/daemon/server.ts b/src/daemon/server.ts
index 72ed1c5..54be6bf 100644
--- a/src/daemon/server.ts
+++ b/src/daemon/server.ts
@@ -48,6 +48,12 @@ export type StreamHandler = (
 export type RpcHandlers = Record<string, RpcHandler>;
 export type StreamHandlers = Record<string, StreamHandler>;
 
+/** The handler registered under `method` — never a name inherited from
+ *  Object.prototype (`toString`, `constructor`, ...). */
+function ownHandler<H>(handlers: Record<string, H>, method: string): H | undefined {
+  return Object.hasOwn(handlers, method) ? handlers[method] : undefined;
+}
+
 // ---------------------------------------------------------------------------
 // IPC Server
 // ---------------------------------------------------------------------------
@@ -174,7 +180,7 @@ export class IpcServer {
     }
 
     // Standard request → response
-    const handler = this.handlers[request.method];
+    const handler = ownHandler(this.handlers, request.method);
     if (!handler) {
       this.send(socket, { id: request.id, error: `unknown method: ${request.method}` });
       return;
@@ -190,10 +196,10 @@ export class IpcServer {
   }
 
   private async handleStreamMessage(request: IpcRequest, socket: Socket): Promise<void> {
-    const handler = this.streamHandlers[request.method];
+    const handler = ownHandler(this.streamHandlers, request.method);
     if (!handler) {
       // Fall back to standard handler if no stream handler registered
-      const stdHandler = this.handlers[request.method];
+      const stdHandler = ownHandler(this.handlers, request.method);
       if (stdHandler) {
         try {
           const result = await stdHandler(request.params);
-- 
2.43.0


From 31c2827a6e949fab95863a9c19d8684cc4b26550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:51 +0000
Subject: [PATCH 10/60] fix: a result that cannot be serialised is answered
 with an error

---
 src/daemon/server.ts | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/daemon/server.ts b/src/daemon/server.ts
index 54be6bf..aa4fc1c 100644
--- a/src/daemon/server.ts
+++ b/src/daemon/server.ts
@@ -250,8 +250,15 @@ export class IpcServer {
   }
 
   private send(socket: Socket, response: IpcResponse): void {
+    let line: string;
     try {
-      socket.write(JSON.stringify(response) + '\n');
+      line = JSON.stringify(response);
+    } catch (err) {
+      const msg = err instanceof Error ? err.message : String(err);
+      line = JSON.stringify({ id: response.id, error: `unserialisable result: ${msg}` });
+    }
+    try {
+      socket.write(line + '\n');
     } catch { /* socket already closed */ }
   }
 }
-- 
2.43.0


From 90b86d7c8fef15a46a80cb50d47592a72c0f207e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:51 +0000
Subject: [PATCH 11/60] fix: rpc() rejects on a daemon error with an empty
 message

---
 src/cli/client.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cli/client.ts b/src/cli/client.ts
index 740f1a2..6d65aba 100644
--- a/src/cli/client.ts
+++ b/src/cli/client.ts
@@ -35,8 +35,8 @@ export async function rpc<T = unknown>(method: string, params: unknown = {}, con
         try {
           const res = JSON.parse(line) as IpcResponse;
           socket.end();
-          if (res.error) reject(new Error(res.error));
-          else           resolve(res.result as T);
+          if (res.error !== undefined) reject(new Error(res.error));
+          else                         resolve(res.result as T);
         } catch {
           socket.end();
           reject(new Error('invalid response from daemon'));
-- 
2.43.0


From 28b29b031c33dbfcb242a668c7f04043137675ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:51 +0000
Subject: [PATCH 12/60] fix: a unary IPC call rejects when the daemon closes
 without replying

---
 src/cli/client.ts        | 3 +++
 src/mcp/daemon-stream.ts | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/src/cli/client.ts b/src/cli/client.ts
index 6d65aba..a5bc5ab 100644
--- a/src/cli/client.ts
+++ b/src/cli/client.ts
@@ -51,5 +51,8 @@ export async function rpc<T = unknown>(method: string, params: unknown = {}, con
         reject(err);
       }
     });
+
+    // A no-op once the reply has settled the promise.
+    socket.on('close', () => { reject(new Error('connection closed before the daemon replied')); });
   });
 }
diff --git a/src/mcp/daemon-stream.ts b/src/mcp/daemon-stream.ts
index b1ecb81..524a7ac 100644
--- a/src/mcp/daemon-stream.ts
+++ b/src/mcp/daemon-stream.ts
@@ -235,6 +235,8 @@ function unaryRpc<T>(method: string, params: unknown, deps: UnaryRpcDeps): Promi
 				reject(err);
 			}
 		});
+		// A no-op once the reply has settled the promise.
+		socket.on('close', () => { reject(new Error('connection closed before the daemon replied')); });
 	});
 }
 
-- 
2.43.0


From 35654a225f664be893d3c81499bbe728edca6138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:51 +0000
Subject: [PATCH 13/60] fix: a stream line that is not an object is an invalid
 frame

---
 src/mcp/daemon-stream.ts | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mcp/daemon-stream.ts b/src/mcp/daemon-stream.ts
index 524a7ac..b589c42 100644
--- a/src/mcp/daemon-stream.ts
+++ b/src/mcp/daemon-stream.ts
@@ -140,6 +140,7 @@ export function runWorkflowStream(
 				let frame: DaemonFrame;
 				try {
 					frame = JSON.parse(line) as DaemonFrame;
+					if (typeof frame !== 'object' || frame === null) throw new Error('not a frame');
 				} catch {
 					finish(() => {
 						socket.destroy();
-- 
2.43.0


From d33a38f568a62b0179f8b52f005cc23726baa1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:51 +0000
Subject: [PATCH 14/60] fix: a refused workflow run rejects instead of hanging

---
 src/mcp/daemon-stream.ts | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/mcp/daemon-stream.ts b/src/mcp/daemon-stream.ts
index b589c42..d0542be 100644
--- a/src/mcp/daemon-stream.ts
+++ b/src/mcp/daemon-stream.ts
@@ -72,6 +72,7 @@ interface DaemonFrame {
 	readonly id?:    number;
 	readonly stream: 'progress' | 'delta' | 'done' | 'error';
 	readonly data:   unknown;
+	readonly error?: string;
 }
 
 /**
@@ -162,6 +163,12 @@ export function runWorkflowStream(
 					});
 					return;
 				}
+				// A plain (non-stream) error reply — the daemon refused the request.
+				if (frame.stream === undefined && typeof frame.error === 'string') {
+					const message = frame.error;
+					finish(() => { socket.end(); reject(new Error(message)); });
+					return;
+				}
 				// Unknown stream kind — ignore (forward-compatible).
 			}
 		}
-- 
2.43.0


From 2931f95db41c1ddd7bb823ed7f7159129be2363f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:16 +0000
Subject: [PATCH 15/60] fix: a write transaction that throws is rolled back

---
 src/db/graph/store.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/db/graph/store.ts b/src/db/graph/store.ts
index 95d9383..c452f6a 100644
--- a/src/db/graph/store.ts
+++ b/src/db/graph/store.ts
@@ -628,7 +628,9 @@ export async function withWriteTxn<T>(
 	fn: (store: GraphStore) => T | Promise<T>,
 ): Promise<T> {
 	const store = await getGraphStore();
-	return store.root.transaction(() => fn(store));
+	// A child transaction, because only that one is rolled back when `fn` throws:
+	// `transaction()` commits whatever was written up to the throw.
+	return store.root.childTransaction(() => fn(store));
 }
 
 /**
-- 
2.43.0


From 25d1b416b4c79368eca4a41652119577d5e1aad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:00 +0000
Subject: [PATCH 16/60] fix: a migration step that throws is rolled back

---
 src/db/graph/migrations.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/db/graph/migrations.ts b/src/db/graph/migrations.ts
index 730e187..9f7664a 100644
--- a/src/db/graph/migrations.ts
+++ b/src/db/graph/migrations.ts
@@ -439,7 +439,8 @@ export async function runMigrations(
 		}
 
 		const t0 = Date.now();
-		await store.root.transaction(async () => {
+		// A child transaction: `transaction()` would commit the writes made before a throw.
+		await store.root.childTransaction(async () => {
 			await step.run(store);
 			// Advance the version IN THE SAME TXN so a crash either
 			// rolls everything (including the version write) back, or
-- 
2.43.0


From 9a49739dc68087ec4555c62125e6fbcc0e7fd390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:03 +0000
Subject: [PATCH 17/60] fix: concurrent todo updates are no longer lost

---
 src/db/todos.ts | 238 ++++++++++++++++++++++++------------------------
 1 file changed, 121 insertions(+), 117 deletions(-)

diff --git a/src/db/todos.ts b/src/db/todos.ts
index cabf98b..d6c1d96 100644
--- a/src/db/todos.ts
+++ b/src/db/todos.ts
@@ -23,6 +23,7 @@
 import {
 	getGraphStore,
 	withWriteTxn,
+	type GraphStore,
 } from './graph/store.js';
 import {
 	encodeTodoCommentKey,
@@ -83,10 +84,6 @@ export async function insertList(_db: DbClient, opts: InsertListOpts): Promise<T
 		throw new Error(`insertList: unknown source '${opts.source}'`);
 	}
 
-	if (opts.parentListId !== undefined) {
-		await assertParentAllowed(_db, opts.parentListId, opts.id, opts.sessionId);
-	}
-
 	const seedTransfer: TodoTransfer = {
 		from:      opts.source,
 		to:        opts.owner,
@@ -111,6 +108,9 @@ export async function insertList(_db: DbClient, opts: InsertListOpts): Promise<T
 		updatedAt:    createdAtMs,
 	};
 	await withWriteTxn(s => {
+		if (opts.parentListId !== undefined) {
+			assertParentAllowedIn(s, opts.parentListId, opts.id, opts.sessionId);
+		}
 		s.todoList.put(row.id, encodeTodoListRow(row));
 		s.todoListBySession.put(
 			encodeTodoListBySessionKey(row.sessionId, row.id),
@@ -137,10 +137,6 @@ export interface InsertItemOpts {
 }
 
 export async function insertItem(_db: DbClient, opts: InsertItemOpts): Promise<TodoItem> {
-	const list = await getList(_db, opts.listId, { withItems: false });
-	if (list === null) {
-		throw new Error(`insertItem: list '${opts.listId}' does not exist`);
-	}
 	const createdAtMs = parseTs(opts.createdAt);
 	const row: TodoItemRow = {
 		id:            opts.id,
@@ -157,6 +153,9 @@ export async function insertItem(_db: DbClient, opts: InsertItemOpts): Promise<T
 		meta:          opts.meta !== undefined ? { ...opts.meta } : {},
 	};
 	await withWriteTxn(s => {
+		if (s.todoList.get(opts.listId) === undefined) {
+			throw new Error(`insertItem: list '${opts.listId}' does not exist`);
+		}
 		s.todoItem.put(opts.id, encodeTodoItemRow(row));
 	});
 
@@ -368,7 +367,16 @@ export async function assertParentAllowed(
 	childId: string,
 	childSessionId: string,
 ): Promise<void> {
-	const store = await getGraphStore();
+	assertParentAllowedIn(await getGraphStore(), proposedParentId, childId, childSessionId);
+}
+
+/** As above, but against `store` as it is now -- callable inside a write txn. */
+function assertParentAllowedIn(
+	store: GraphStore,
+	proposedParentId: string,
+	childId: string,
+	childSessionId: string,
+): void {
 	const seen = new Set<string>();
 	let cursor: string | null = proposedParentId;
 	let depth = 0;
@@ -415,24 +423,24 @@ export async function updateList(
 	fields: UpdateListFields,
 	now: string,
 ): Promise<TodoList> {
-	const store = await getGraphStore();
-	const buf = store.todoList.get(listId);
-	if (buf === undefined) throw new Error(`updateList: list '${listId}' does not exist`);
-	const cur = decodeTodoListRow(buf as Buffer);
+	// Read, validate and write in one txn: a concurrent update must not be lost.
+	await withWriteTxn(s => {
+		const buf = s.todoList.get(listId);
+		if (buf === undefined) throw new Error(`updateList: list '${listId}' does not exist`);
+		const cur = decodeTodoListRow(buf as Buffer);
 
-	if (fields.status !== undefined && !canTransitionList(cur.status, fields.status)) {
-		throw new Error(`updateList: illegal list-status transition '${cur.status}' -> '${fields.status}'`);
-	}
+		if (fields.status !== undefined && !canTransitionList(cur.status, fields.status)) {
+			throw new Error(`updateList: illegal list-status transition '${cur.status}' -> '${fields.status}'`);
+		}
 
-	const next: TodoListRow = {
-		...cur,
-		updatedAt: parseTs(now),
-		...(fields.title       !== undefined ? { title:       fields.title } : {}),
-		...(fields.description !== undefined ? { description: fields.description } : {}),
-		...(fields.status      !== undefined ? { status:      fields.status } : {}),
-		...(fields.body        !== undefined ? { body:        fields.body } : {}),
-	};
-	await withWriteTxn(s => {
+		const next: TodoListRow = {
+			...cur,
+			updatedAt: parseTs(now),
+			...(fields.title       !== undefined ? { title:       fields.title } : {}),
+			...(fields.description !== undefined ? { description: fields.description } : {}),
+			...(fields.status      !== undefined ? { status:      fields.status } : {}),
+			...(fields.body        !== undefined ? { body:        fields.body } : {}),
+		};
 		s.todoList.put(listId, encodeTodoListRow(next));
 	});
 
@@ -457,35 +465,35 @@ export async function updateItem(
 	fields: UpdateItemFields,
 	now: string,
 ): Promise<TodoItem> {
-	const store = await getGraphStore();
-	const buf = store.todoItem.get(itemId);
-	if (buf === undefined) throw new Error(`updateItem: item '${itemId}' does not exist`);
-	const cur = decodeTodoItemRow(buf as Buffer);
+	// Read, validate and write in one txn: a concurrent update must not be lost.
+	await withWriteTxn(s => {
+		const buf = s.todoItem.get(itemId);
+		if (buf === undefined) throw new Error(`updateItem: item '${itemId}' does not exist`);
+		const cur = decodeTodoItemRow(buf as Buffer);
 
-	if (fields.status !== undefined && !canTransitionItem(cur.status, fields.status)) {
-		throw new Error(`updateItem: illegal item-status transition '${cur.status}' -> '${fields.status}'`);
-	}
-	if (fields.status === 'blocked') {
-		const reason = fields.blockedReason ?? cur.blockedReason ?? '';
-		if (reason.trim().length === 0) {
-			throw new Error(`updateItem: transition to 'blocked' requires a non-empty blockedReason`);
+		if (fields.status !== undefined && !canTransitionItem(cur.status, fields.status)) {
+			throw new Error(`updateItem: illegal item-status transition '${cur.status}' -> '${fields.status}'`);
+		}
+		if (fields.status === 'blocked') {
+			const reason = fields.blockedReason ?? cur.blockedReason ?? '';
+			if (reason.trim().length === 0) {
+				throw new Error(`updateItem: transition to 'blocked' requires a non-empty blockedReason`);
+			}
 		}
-	}
 
-	const nowMs = parseTs(now);
-	const next: TodoItemRow = {
-		...cur,
-		updatedAt: nowMs,
-		...(fields.title         !== undefined ? { title:         fields.title } : {}),
-		...(fields.description   !== undefined ? { description:   fields.description } : {}),
-		...(fields.status        !== undefined ? { status:        fields.status } : {}),
-		...(fields.blockedReason !== undefined ? { blockedReason: fields.blockedReason } : {}),
-		...(fields.tags          !== undefined ? { tags:          [...fields.tags] } : {}),
-		...(fields.meta          !== undefined ? { meta:          { ...fields.meta } } : {}),
-		...(fields.orderKey      !== undefined ? { order:         fields.orderKey } : {}),
-		...(fields.status === 'completed' ? { completedAt: nowMs } : {}),
-	};
-	await withWriteTxn(s => {
+		const nowMs = parseTs(now);
+		const next: TodoItemRow = {
+			...cur,
+			updatedAt: nowMs,
+			...(fields.title         !== undefined ? { title:         fields.title } : {}),
+			...(fields.description   !== undefined ? { description:   fields.description } : {}),
+			...(fields.status        !== undefined ? { status:        fields.status } : {}),
+			...(fields.blockedReason !== undefined ? { blockedReason: fields.blockedReason } : {}),
+			...(fields.tags          !== undefined ? { tags:          [...fields.tags] } : {}),
+			...(fields.meta          !== undefined ? { meta:          { ...fields.meta } } : {}),
+			...(fields.orderKey      !== undefined ? { order:         fields.orderKey } : {}),
+			...(fields.status === 'completed' ? { completedAt: nowMs } : {}),
+		};
 		s.todoItem.put(itemId, encodeTodoItemRow(next));
 	});
 
@@ -503,25 +511,25 @@ export async function transferList(
 	initiator?: TodoOwner,
 ): Promise<TodoList> {
 	if (!isValidTodoOwner(to)) throw new Error(`transferList: unknown target owner '${to}'`);
-	const store = await getGraphStore();
-	const buf = store.todoList.get(listId);
-	if (buf === undefined) throw new Error(`transferList: list '${listId}' does not exist`);
-	const cur = decodeTodoListRow(buf as Buffer);
-
-	const entry: TodoTransfer = {
-		from:      cur.owner,
-		to,
-		reason,
-		at:        now,
-		initiator: initiator ?? cur.owner,
-	};
-	const next: TodoListRow = {
-		...cur,
-		owner:     to,
-		transfers: [...cur.transfers, entry],
-		updatedAt: parseTs(now),
-	};
+	// Read, validate and write in one txn: a concurrent update must not be lost.
 	await withWriteTxn(s => {
+		const buf = s.todoList.get(listId);
+		if (buf === undefined) throw new Error(`transferList: list '${listId}' does not exist`);
+		const cur = decodeTodoListRow(buf as Buffer);
+
+		const entry: TodoTransfer = {
+			from:      cur.owner,
+			to,
+			reason,
+			at:        now,
+			initiator: initiator ?? cur.owner,
+		};
+		const next: TodoListRow = {
+			...cur,
+			owner:     to,
+			transfers: [...cur.transfers, entry],
+			updatedAt: parseTs(now),
+		};
 		s.todoList.put(listId, encodeTodoListRow(next));
 	});
 
@@ -536,21 +544,21 @@ export async function reparentList(
 	newParentListId: string | null,
 	now: string,
 ): Promise<TodoList> {
-	const store = await getGraphStore();
-	const buf = store.todoList.get(listId);
-	if (buf === undefined) throw new Error(`reparentList: list '${listId}' does not exist`);
-	const cur = decodeTodoListRow(buf as Buffer);
+	// Read, validate and write in one txn: a concurrent update must not be lost.
+	await withWriteTxn(s => {
+		const buf = s.todoList.get(listId);
+		if (buf === undefined) throw new Error(`reparentList: list '${listId}' does not exist`);
+		const cur = decodeTodoListRow(buf as Buffer);
 
-	if (newParentListId !== null) {
-		await assertParentAllowed(_db, newParentListId, listId, cur.sessionId);
-	}
+		if (newParentListId !== null) {
+			assertParentAllowedIn(s, newParentListId, listId, cur.sessionId);
+		}
 
-	const next: TodoListRow = {
-		...cur,
-		parentListId: newParentListId ?? '',
-		updatedAt:    parseTs(now),
-	};
-	await withWriteTxn(s => {
+		const next: TodoListRow = {
+			...cur,
+			parentListId: newParentListId ?? '',
+			updatedAt:    parseTs(now),
+		};
 		s.todoList.put(listId, encodeTodoListRow(next));
 	});
 
@@ -574,33 +582,30 @@ export async function updateComment(
 	commentId: string,
 	fields: UpdateCommentFields,
 ): Promise<TodoComment> {
-	const store = await getGraphStore();
-	// Find the comment row + its key
-	let foundKey: Buffer | null = null;
-	let cur: TodoCommentRow | null = null;
-	for (const { key, value } of store.todoComment.getRange()) {
-		const row = decodeTodoCommentRow(value as Buffer);
-		if (row.id === commentId) {
-			foundKey = key as Buffer;
-			cur = row;
-			break;
+	return withWriteTxn(s => {
+		// Find the comment row + its key
+		let foundKey: Buffer | null = null;
+		let cur: TodoCommentRow | null = null;
+		for (const { key, value } of s.todoComment.getRange()) {
+			const row = decodeTodoCommentRow(value as Buffer);
+			if (row.id === commentId) {
+				foundKey = key as Buffer;
+				cur = row;
+				break;
+			}
+		}
+		if (cur === null || foundKey === null) {
+			throw new Error(`updateComment: comment '${commentId}' does not exist`);
 		}
-	}
-	if (cur === null || foundKey === null) {
-		throw new Error(`updateComment: comment '${commentId}' does not exist`);
-	}
-
-	let mutated = false;
-	const next: TodoCommentRow = { ...cur };
-	if (fields.body !== undefined) { next.body = fields.body; mutated = true; }
-	if (fields.editedAt !== undefined) { next.editedAt = parseTs(fields.editedAt); mutated = true; }
-	if (fields.agentAcknowledged !== undefined) { next.agentAcknowledged = fields.agentAcknowledged; mutated = true; }
-	if (!mutated) return rowToComment(cur);
 
-	await withWriteTxn(s => {
-		s.todoComment.put(foundKey as Buffer, encodeTodoCommentRow(next));
+		let mutated = false;
+		const next: TodoCommentRow = { ...cur };
+		if (fields.body !== undefined) { next.body = fields.body; mutated = true; }
+		if (fields.editedAt !== undefined) { next.editedAt = parseTs(fields.editedAt); mutated = true; }
+		if (fields.agentAcknowledged !== undefined) { next.agentAcknowledged = fields.agentAcknowledged; mutated = true; }
+		if (mutated) s.todoComment.put(foundKey, encodeTodoCommentRow(next));
+		return rowToComment(next);
 	});
-	return rowToComment(next);
 }
 
 export async function deleteComment(_db: DbClient, commentId: string): Promise<void> {
@@ -648,19 +653,18 @@ export async function deleteItem(_db: DbClient, itemId: string): Promise<void> {
 }
 
 export async function deleteList(_db: DbClient, listId: string): Promise<void> {
-	const store = await getGraphStore();
-	// Collect item ids belonging to this list
-	const itemIds: string[] = [];
-	for (const { value } of store.todoItem.getRange()) {
-		const row = decodeTodoItemRow(value as Buffer);
-		if (row.listId === listId) itemIds.push(row.id);
-	}
+	await withWriteTxn(s => {
+		// Collect item ids belonging to this list
+		const itemIds: string[] = [];
+		for (const { value } of s.todoItem.getRange()) {
+			const row = decodeTodoItemRow(value as Buffer);
+			if (row.listId === listId) itemIds.push(row.id);
+		}
 
-	// Get the session_id so we can clean the by_session index
-	const buf = store.todoList.get(listId);
-	const sessionId = buf !== undefined ? decodeTodoListRow(buf as Buffer).sessionId : null;
+		// Get the session_id so we can clean the by_session index
+		const buf = s.todoList.get(listId);
+		const sessionId = buf !== undefined ? decodeTodoListRow(buf as Buffer).sessionId : null;
 
-	await withWriteTxn(s => {
 		for (const itemId of itemIds) {
 			const prefix = encodeTodoCommentPrefix(itemId);
 			const succ = prefixSuccessor(prefix);
-- 
2.43.0


From b4c5bf8d8db7e2c26a449bec91886d7c31e77e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:55 +0000
Subject: [PATCH 18/60] fix: inserting repeatedly after one todo item keeps the
 requested order

---
 src/daemon/todos-rpc.ts | 42 ++++++++++++++++++++++++++++++-----------
 src/db/todos.ts         | 18 ++++++++++++++++++
 2 files changed, 49 insertions(+), 11 deletions(-)

diff --git a/src/daemon/todos-rpc.ts b/src/daemon/todos-rpc.ts
index 121d5c8..d61ef1f 100644
--- a/src/daemon/todos-rpc.ts
+++ b/src/daemon/todos-rpc.ts
@@ -44,7 +44,7 @@ import type {
 	TodoListStatus, TodoOwner, TodoSnapshot, TodoStreamEvent,
 	TodoStreamEventKind,
 } from '../shared/todos.js';
-import { TODO_LIMITS, betweenOrderKeys } from '../shared/todos.js';
+import { ORDER_KEY_EPSILON, TODO_LIMITS, betweenOrderKeys } from '../shared/todos.js';
 import { isAgentFamily } from '../shared/agent-registry.js';
 import * as todos from '../db/todos.js';
 import { getLogger } from '../shared/logger.js';
@@ -488,6 +488,30 @@ export async function reparent(db: DbClient, params: unknown): Promise<TodoList
 // RPC: items
 // ---------------------------------------------------------------------------
 
+/**
+ * Order key that places an item right after `afterId`, ignoring the item
+ * being moved. Renumbers the list first when its two neighbours are too close
+ * for a key in between. `null` when `afterId` is not in the list.
+ */
+async function orderKeyAfter(
+	db: DbClient,
+	listId: string,
+	afterId: string,
+	movingId: string | null,
+): Promise<number | null> {
+	for (let rebalanced = false; ; rebalanced = true) {
+		const siblings = (await todos.listItems(db, listId, false)).filter(it => it.id !== movingId);
+		const idx = siblings.findIndex(it => it.id === afterId);
+		if (idx < 0) return null;
+		const prev = siblings[idx]!.order;
+		const next = idx + 1 < siblings.length ? siblings[idx + 1]!.order : undefined;
+		if (rebalanced || next === undefined || next - prev >= ORDER_KEY_EPSILON) {
+			return betweenOrderKeys(prev, next);
+		}
+		await todos.rebalanceItemOrder(db, listId);
+	}
+}
+
 export async function addItem(db: DbClient, params: unknown): Promise<TodoItem | TodosRpcError> {
 	const caller = resolveCaller(params);
 	const p = (params ?? {}) as Record<string, unknown>;
@@ -523,13 +547,11 @@ export async function addItem(db: DbClient, params: unknown): Promise<TodoItem |
 	// Compute fractional order key.
 	let orderKey: number;
 	if (typeof insertAfterItemId === 'string') {
-		const idx = existing.findIndex(it => it.id === insertAfterItemId);
-		if (idx < 0) {
+		const key = await orderKeyAfter(db, listId, insertAfterItemId, null);
+		if (key === null) {
 			return { error: 'invalid_ids', reason: `insertAfterItemId '${insertAfterItemId}' not found in list` };
 		}
-		const prev = existing[idx]!.order;
-		const next = idx + 1 < existing.length ? existing[idx + 1]!.order : undefined;
-		orderKey = betweenOrderKeys(prev, next);
+		orderKey = key;
 	} else {
 		const last = existing.length > 0 ? existing[existing.length - 1]!.order : undefined;
 		orderKey = betweenOrderKeys(last, undefined);
@@ -621,13 +643,11 @@ export async function reorderItem(db: DbClient, params: unknown): Promise<TodoIt
 		const first = siblings.length > 0 ? siblings[0]!.order : undefined;
 		orderKey = betweenOrderKeys(undefined, first);
 	} else if (typeof after === 'string') {
-		const idx = siblings.findIndex(it => it.id === after);
-		if (idx < 0) {
+		const key = await orderKeyAfter(db, existing.listId, after, itemId);
+		if (key === null) {
 			return { error: 'invalid_ids', reason: `insertAfterItemId '${after}' not found in list` };
 		}
-		const prev = siblings[idx]!.order;
-		const next = idx + 1 < siblings.length ? siblings[idx + 1]!.order : undefined;
-		orderKey = betweenOrderKeys(prev, next);
+		orderKey = key;
 	} else {
 		return { error: 'invalid_ids', reason: 'insertAfterItemId must be string or null' };
 	}
diff --git a/src/db/todos.ts b/src/db/todos.ts
index d6c1d96..83ea3aa 100644
--- a/src/db/todos.ts
+++ b/src/db/todos.ts
@@ -502,6 +502,24 @@ export async function updateItem(
 	return refreshed;
 }
 
+/**
+ * Give the items of a list whole-number order keys again, in their current
+ * order, so there is room between any two neighbours.
+ */
+export async function rebalanceItemOrder(_db: DbClient, listId: string): Promise<void> {
+	await withWriteTxn(s => {
+		const rows: TodoItemRow[] = [];
+		for (const { value } of s.todoItem.getRange()) {
+			const row = decodeTodoItemRow(value as Buffer);
+			if (row.listId === listId) rows.push(row);
+		}
+		rows.sort((a, b) => a.order - b.order);
+		rows.forEach((row, i) => {
+			if (row.order !== i) s.todoItem.put(row.id, encodeTodoItemRow({ ...row, order: i }));
+		});
+	});
+}
+
 export async function transferList(
 	_db: DbClient,
 	listId: string,
-- 
2.43.0


From 18aa5a9d78953ffd308c3d4083985411b90f1751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:04 +0000
Subject: [PATCH 19/60] fix: the event of an acknowledged todo comment shows
 the acknowledgement

---
 src/daemon/todos-rpc.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/daemon/todos-rpc.ts b/src/daemon/todos-rpc.ts
index d61ef1f..1d08f02 100644
--- a/src/daemon/todos-rpc.ts
+++ b/src/daemon/todos-rpc.ts
@@ -1061,7 +1061,8 @@ export async function ackComment(
 		return { error: 'comment_ack_not_owner' };
 	}
 	const updated = await todos.updateComment(db, commentId, { agentAcknowledged: true });
-	emit('commentUpdated', list);
+	const refreshed = await todos.getList(db, list.id);
+	if (refreshed !== null) { emit('commentUpdated', refreshed); }
 	return updated;
 }
 
-- 
2.43.0


From d3fafeb03ec6dc962436ac3d6a8c54d1938f71de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:55 +0000
Subject: [PATCH 20/60] fix: store a batch of relations in one transaction

A batch mixing resolved and unresolved relations was written in two transactions: when the
unresolved half was refused (for example a file path longer than the index key limit), the
resolved edges of the refused batch stayed behind.
---
 src/db/relations.ts | 97 +++++++++++++++++++++------------------------
 1 file changed, 46 insertions(+), 51 deletions(-)

diff --git a/src/db/relations.ts b/src/db/relations.ts
index 5d5f6ae..f7a4e9f 100644
--- a/src/db/relations.ts
+++ b/src/db/relations.ts
@@ -98,11 +98,7 @@ export function makeUnresolvedRelationId(
 // ---------------------------------------------------------------------------
 
 export async function upsertRelation(_db: DbClient, relation: Relation): Promise<void> {
-	if (!relation.resolved) {
-		await upsertUnresolvedRelations([relation]);
-		return;
-	}
-	await upsertResolvedRelations([relation]);
+	await upsertRelations(_db, [relation]);
 }
 
 export async function upsertRelations(_db: DbClient, relations: Relation[]): Promise<void> {
@@ -113,11 +109,14 @@ export async function upsertRelations(_db: DbClient, relations: Relation[]): Pro
 	for (const r of relations) {
 		if (r.resolved) resolved.push(r); else unresolved.push(r);
 	}
-	if (resolved.length > 0) await upsertResolvedRelations(resolved);
-	if (unresolved.length > 0) await upsertUnresolvedRelations(unresolved);
+	// One txn for both halves: a batch that is refused leaves nothing behind.
+	await withWriteTxn(s => {
+		upsertResolvedRelationsInTxn(s, resolved);
+		upsertUnresolvedRelationsInTxn(s, unresolved);
+	});
 }
 
-async function upsertResolvedRelations(relations: Relation[]): Promise<void> {
+function upsertResolvedRelationsInTxn(s: GraphStore, relations: Relation[]): void {
 	const unique = dedupeResolvedRelations(relations);
 	if (unique.length < relations.length) {
 		log.debug(
@@ -128,23 +127,21 @@ async function upsertResolvedRelations(relations: Relation[]): Promise<void> {
 	if (unique.length === 0) return;
 
 	let skipped = 0;
-	await withWriteTxn(s => {
-		for (const r of unique) {
-			const fromU64 = lookupU64ByStringId(s, r.from);
-			const toU64   = lookupU64ByStringId(s, r.to);
-			if (fromU64 === undefined || toU64 === undefined) {
-				skipped++;
-				continue;
-			}
-			const kindByte = RELATION_KIND_BYTE[r.kind as InternalRelationKind];
-			if (kindByte === undefined) {
-				skipped++;
-				continue;
-			}
-			s.outEdge.put(encodeOutEdgeKey(fromU64, kindByte, toU64), Buffer.alloc(0));
-			s.inEdge.put(encodeInEdgeKey(toU64, kindByte, fromU64), Buffer.alloc(0));
+	for (const r of unique) {
+		const fromU64 = lookupU64ByStringId(s, r.from);
+		const toU64   = lookupU64ByStringId(s, r.to);
+		if (fromU64 === undefined || toU64 === undefined) {
+			skipped++;
+			continue;
 		}
-	});
+		const kindByte = RELATION_KIND_BYTE[r.kind as InternalRelationKind];
+		if (kindByte === undefined) {
+			skipped++;
+			continue;
+		}
+		s.outEdge.put(encodeOutEdgeKey(fromU64, kindByte, toU64), Buffer.alloc(0));
+		s.inEdge.put(encodeInEdgeKey(toU64, kindByte, fromU64), Buffer.alloc(0));
+	}
 	if (skipped > 0) {
 		log.debug(
 			{ skipped, total: unique.length },
@@ -208,7 +205,7 @@ export async function deleteRelationsForRepo(_db: DbClient, _repo: string): Prom
 // Unresolved relations -- cross-file resolver queue
 // ---------------------------------------------------------------------------
 
-async function upsertUnresolvedRelations(relations: Relation[]): Promise<void> {
+function upsertUnresolvedRelationsInTxn(s: GraphStore, relations: Relation[]): void {
 	if (relations.length === 0) return;
 
 	const attemptedAt = Date.now();
@@ -244,34 +241,32 @@ async function upsertUnresolvedRelations(relations: Relation[]): Promise<void> {
 	}
 	if (tupleById.size === 0) return;
 
-	await withWriteTxn(s => {
-		const repoIdCache = new Map<string, number>();
-		for (const t of tupleById.values()) {
-			let repoId = repoIdCache.get(t.repoPath);
-			if (repoId === undefined) {
-				const found = repoIdByPathInTxn(s, t.repoPath);
-				if (found === undefined) {
-					// No registered repo. Skip rather than auto-allocate
-					// here: upsertEntities is the canonical creation
-					// point in the indexer flow, so by the time we hit
-					// unresolved relations the repo should exist.
-					log.debug(
-						{ repo: t.repoPath, id: t.id },
-						'upsertUnresolvedRelations: repo not registered; dropping',
-					);
-					continue;
-				}
-				repoId = found;
-				repoIdCache.set(t.repoPath, repoId);
+	const repoIdCache = new Map<string, number>();
+	for (const t of tupleById.values()) {
+		let repoId = repoIdCache.get(t.repoPath);
+		if (repoId === undefined) {
+			const found = repoIdByPathInTxn(s, t.repoPath);
+			if (found === undefined) {
+				// No registered repo. Skip rather than auto-allocate
+				// here: upsertEntities is the canonical creation
+				// point in the indexer flow, so by the time we hit
+				// unresolved relations the repo should exist.
+				log.debug(
+					{ repo: t.repoPath, id: t.id },
+					'upsertUnresolvedRelations: repo not registered; dropping',
+				);
+				continue;
 			}
-			const row: UnresolvedRow = { ...t.row, repoId };
-			// Write the canonical row
-			s.unresolved.put(t.id, encodeUnresolvedRow(row));
-			// Maintain the (repoId, fromFile) -> id dupsort index
-			const idxKey = encodeUnresolvedByFileKey(repoId, row.fromFile);
-			s.unresolvedByFile.put(idxKey, Buffer.from(t.id, 'utf8'));
+			repoId = found;
+			repoIdCache.set(t.repoPath, repoId);
 		}
-	});
+		const row: UnresolvedRow = { ...t.row, repoId };
+		// Write the canonical row
+		s.unresolved.put(t.id, encodeUnresolvedRow(row));
+		// Maintain the (repoId, fromFile) -> id dupsort index
+		const idxKey = encodeUnresolvedByFileKey(repoId, row.fromFile);
+		s.unresolvedByFile.put(idxKey, Buffer.from(t.id, 'utf8'));
+	}
 }
 
 export async function listUnresolvedRelations(
-- 
2.43.0


From 4e4c62b62a601da3c9e63b65af6c292092d4c326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:08 +0000
Subject: [PATCH 21/60] fix: drop the old by-file entry when an unresolved
 relation moves to another file

Storing the same reference again from another file left it listed under its old file too, and
dropping the old file's references then removed it.
---
 src/db/relations.ts | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/db/relations.ts b/src/db/relations.ts
index f7a4e9f..8a46486 100644
--- a/src/db/relations.ts
+++ b/src/db/relations.ts
@@ -261,6 +261,12 @@ function upsertUnresolvedRelationsInTxn(s: GraphStore, relations: Relation[]): v
 			repoIdCache.set(t.repoPath, repoId);
 		}
 		const row: UnresolvedRow = { ...t.row, repoId };
+		// The id does not cover the file: drop the index entry of a row that moved.
+		const prevBuf = s.unresolved.get(t.id);
+		if (prevBuf !== undefined) {
+			const prev = decodeUnresolvedRow(prevBuf as Buffer);
+			s.unresolvedByFile.remove(encodeUnresolvedByFileKey(prev.repoId, prev.fromFile), Buffer.from(t.id, 'utf8'));
+		}
 		// Write the canonical row
 		s.unresolved.put(t.id, encodeUnresolvedRow(row));
 		// Maintain the (repoId, fromFile) -> id dupsort index
-- 
2.43.0


From f5bd9f8ebe8fbb66fac5a55c946507b7e75eed2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:20 +0000
Subject: [PATCH 22/60] fix: keep an unresolved relation whose promotion could
 not write an edge

Promoting to a target that no longer exists removed the pending row without writing any edge,
so the reference was lost until its file was indexed again.
---
 src/db/relations.ts | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/db/relations.ts b/src/db/relations.ts
index 8a46486..2f0552f 100644
--- a/src/db/relations.ts
+++ b/src/db/relations.ts
@@ -368,13 +368,13 @@ export async function promoteToResolved(
 		if (fromU64 !== undefined && toU64 !== undefined && kindByte !== undefined) {
 			s.outEdge.put(encodeOutEdgeKey(fromU64, kindByte, toU64), Buffer.alloc(0));
 			s.inEdge.put(encodeInEdgeKey(toU64, kindByte, fromU64), Buffer.alloc(0));
+			deleteUnresolvedRowInTxn(s, unresolved.id);
 		} else {
 			log.debug(
 				{ unresolvedId: unresolved.id, fromEntity: unresolved.fromEntity, targetEntityId, kind: unresolved.kind },
-				'promoteToResolved: missing endpoint or unknown kind; resolved edge skipped (unresolved row still removed)',
+				'promoteToResolved: missing endpoint or unknown kind; no edge to write, unresolved row kept',
 			);
 		}
-		deleteUnresolvedRowInTxn(s, unresolved.id);
 	});
 }
 
@@ -407,8 +407,8 @@ export async function promoteResolvedBatch(
 			if (fromU64 !== undefined && toU64 !== undefined && kindByte !== undefined) {
 				s.outEdge.put(encodeOutEdgeKey(fromU64, kindByte, toU64), Buffer.alloc(0));
 				s.inEdge.put(encodeInEdgeKey(toU64, kindByte, fromU64), Buffer.alloc(0));
+				deleteUnresolvedRowInTxn(s, unresolved.id);
 			}
-			deleteUnresolvedRowInTxn(s, unresolved.id);
 		}
 	});
 }
-- 
2.43.0


From 3575db5a0f9cef7b48c09b0bdab1497f838b8372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:47 +0000
Subject: [PATCH 23/60] fix: re-indexing a file stores entities whose flags
 changed

The unchanged-row short-circuit compared only hash, body, lines, signature and embedding model,
so a change of export, async, abstract or artifact flags (or of the file) was dropped.
---
 src/db/entities.ts | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/src/db/entities.ts b/src/db/entities.ts
index 9d3295e..3546f80 100644
--- a/src/db/entities.ts
+++ b/src/db/entities.ts
@@ -442,18 +442,11 @@ export async function reindexFile(
 			}
 
 			// Body-write short-circuit: skip the put if everything that
-			// would change is identical. We compare contentHash + body
-			// (contentHash alone is a hash collision risk but body adds
-			// the actual-bytes safety net).
+			// would change, the index time aside, is identical.
 			const newRow = entityToRow(e, repoId, repoPath);
 			if (prevBuf !== undefined) {
 				const prev = decodeEntityRow(prevBuf as Buffer);
-				if (prev.contentHash === newRow.contentHash
-				 && prev.body === newRow.body
-				 && prev.startLine === newRow.startLine
-				 && prev.endLine === newRow.endLine
-				 && prev.signature === newRow.signature
-				 && prev.embeddingModel === newRow.embeddingModel) {
+				if (encodeEntityRow({ ...prev, indexedAt: newRow.indexedAt }).equals(encodeEntityRow(newRow))) {
 					seen.add(u64);
 					continue; // unchanged -- skip write
 				}
-- 
2.43.0


From f065bd5e75380bcc137d81295309cd2fde604948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:00 +0000
Subject: [PATCH 24/60] fix: find, update and remove a repository under any
 spelling of its path

addRepo stores the normalised path, but removeRepo, updateRepoStatus and lookupRepoId compared
the path as given, so a trailing slash made them silently do nothing.
---
 src/db/repos.ts | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/db/repos.ts b/src/db/repos.ts
index 5479ae9..397b16e 100644
--- a/src/db/repos.ts
+++ b/src/db/repos.ts
@@ -174,7 +174,8 @@ export async function addRepo(_db: DbClient, repo: RegisteredRepo): Promise<void
 	});
 }
 
-export async function removeRepo(_db: DbClient, path: string): Promise<void> {
+export async function removeRepo(_db: DbClient, rawPath: string): Promise<void> {
+	const path = canonicalPath(rawPath);
 	// Phase 2.10 cascade: delete entities (which transitively cascades
 	// to out_edge / in_edge mirrors + entity_id_by_string + name_index),
 	// then unresolved relations for the repo, then conversation sessions
@@ -248,7 +249,7 @@ export async function updateRepoStatus(
 	errorMsg?: string,
 ): Promise<void> {
 	await withWriteTxn(s => {
-		const id = findRepoIdByPath(s, path);
+		const id = findRepoIdByPath(s, canonicalPath(path));
 		if (id === undefined) {
 			// Path isn't registered -- silently no-op to match the prior
 			// DuckDB behaviour where the UPDATE matched zero rows.
@@ -272,6 +273,11 @@ export async function updateRepoStatus(
 // Internals
 // ---------------------------------------------------------------------------
 
+/** The spelling `addRepo` stores: absolute paths lose trailing slashes, `.` and `..`. */
+function canonicalPath(path: string): string {
+	return isAbsolute(path) ? resolve(path) : path;
+}
+
 /**
  * Linear scan of the `repo` sub-DB looking for the row matching `path`.
  * O(N) where N is the repo count; expected ≤ a few hundred even on
@@ -314,7 +320,7 @@ export function lookupRepoIdInTxn(store: GraphStore, path: string): number | und
 export async function lookupRepoId(path: string): Promise<number | undefined> {
 	if (typeof path !== 'string' || path.length === 0) return undefined;
 	const store = await getGraphStore();
-	return findRepoIdByPath(store, path);
+	return findRepoIdByPath(store, canonicalPath(path));
 }
 
 /**
-- 
2.43.0


From eb8412bc9df14c8b573de8708dc19abbfcf41bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:32 +0000
Subject: [PATCH 25/60] fix: an entity stored again without its embedding loses
 its old vector

Re-embedding assumes that a row without an embedding model has no vector yet and adds one;
the stale vector left by the overwrite stayed searchable and was then duplicated.
---
 src/db/entities.ts | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/db/entities.ts b/src/db/entities.ts
index 3546f80..7c307cb 100644
--- a/src/db/entities.ts
+++ b/src/db/entities.ts
@@ -219,6 +219,8 @@ export async function upsertEntities(_db: DbClient, entities: Entity[]): Promise
 	// Lance failure doesn't block the structural write.
 	type LanceWrite = { entity: Entity; firstEmbed: boolean };
 	const lanceWrites: LanceWrite[] = [];
+	// Embedded rows stored again without an embedding: the old vector goes.
+	const lostEmbedding: string[] = [];
 
 	await withWriteTxn(s => {
 		// Phase 5.x strict-contract resolver. The storage layer no
@@ -277,6 +279,8 @@ export async function upsertEntities(_db: DbClient, entities: Entity[]): Promise
 						entity: e,
 						firstEmbed: prev === null || prev.embeddingModel === '',
 					});
+				} else if (prev !== null && prev.embeddingModel !== '' && row.embeddingModel === '') {
+					lostEmbedding.push(e.id);
 				}
 				continue;
 			}
@@ -305,9 +309,10 @@ export async function upsertEntities(_db: DbClient, entities: Entity[]): Promise
 	// Lance failure is non-fatal: the LMDB row's `embeddingModel`
 	// already reflects the intent; a `daemon reembed` (Phase 9.x or
 	// manual) replays the missing vectors.
-	if (lanceWrites.length > 0) {
+	if (lanceWrites.length > 0 || lostEmbedding.length > 0) {
 		try {
 			const lance = await import('./lance/entity-vec.js');
+			await lance.deleteEntityVecsByIds(lostEmbedding);
 			type Row = Parameters<typeof lance.addEntityEmbeddings>[0][number];
 			const adds:    Row[] = [];
 			const upserts: Row[] = [];
@@ -397,6 +402,7 @@ export async function reindexFile(
 		);
 	}
 
+	// Ids that are tombstoned or stored again without their embedding.
 	const toLanceDelete: string[] = [];
 	type LanceWrite = { entity: Entity; firstEmbed: boolean };
 	const lanceWrites: LanceWrite[] = [];
@@ -460,6 +466,8 @@ export async function reindexFile(
 					entity: e,
 					firstEmbed: isNew || prev === null || prev.embeddingModel === '',
 				});
+			} else if (prev !== null && prev.embeddingModel !== '' && newRow.embeddingModel === '') {
+				toLanceDelete.push(e.id);
 			}
 			seen.add(u64);
 		}
-- 
2.43.0


From 2539c56c404e71ddfe706bfb6d66815c86ce13d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:07 +0000
Subject: [PATCH 26/60] fix: the v2->v3 migration drops the edges of the
 entities it drops

---
 src/db/graph/migrations.ts | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/db/graph/migrations.ts b/src/db/graph/migrations.ts
index 9f7664a..05e8e2a 100644
--- a/src/db/graph/migrations.ts
+++ b/src/db/graph/migrations.ts
@@ -43,10 +43,17 @@ import {
 } from '../../shared/repo-namespaces.js';
 import {
 	decodeEntityKey,
+	decodeInEdgeKey,
+	decodeOutEdgeKey,
 	encodeEntityKey,
+	encodeInEdgeKey,
 	encodeNameIndexKey,
+	encodeOutEdgeKey,
+	encodeOutEdgePrefix,
+	encodeInEdgePrefix,
 	encodeRepoKey,
 	ENTITY_KIND_BYTE,
+	prefixSuccessor,
 } from './keys.js';
 import {
 	decodeEntityRow,
@@ -342,6 +349,7 @@ const MIGRATION_V2_TO_V3: Migration = {
 				}
 				store.entityStringByU64.remove(u64Key);
 				store.entity.remove(u64Key);
+				dropEdges(store, u64);
 				phantomEntitiesDropped++;
 			}
 			store.repo.remove(encodeRepoKey(p.repoId));
@@ -388,6 +396,25 @@ function makeEntityIdLite(repo: string, file: string, kind: string, name: string
 		.slice(0, 32);
 }
 
+/** Remove every edge at `u64`, in both mirrors. Same two-phase pattern: collect, then remove. */
+function dropEdges(store: GraphStore, u64: bigint): void {
+	const outPrefix = encodeOutEdgePrefix(u64);
+	const outKeys: Buffer[] = [];
+	for (const { key } of store.outEdge.getRange({ start: outPrefix, end: prefixSuccessor(outPrefix) })) {
+		outKeys.push(key as Buffer);
+	}
+	const inPrefix = encodeInEdgePrefix(u64);
+	for (const { key } of store.inEdge.getRange({ start: inPrefix, end: prefixSuccessor(inPrefix) })) {
+		const { to, kind, from } = decodeInEdgeKey(key as Buffer);
+		outKeys.push(encodeOutEdgeKey(from, kind, to));
+	}
+	for (const outKey of outKeys) {
+		const { from, kind, to } = decodeOutEdgeKey(outKey);
+		store.outEdge.remove(outKey);
+		store.inEdge.remove(encodeInEdgeKey(to, kind, from));
+	}
+}
+
 function readStringByU64(store: GraphStore, u64: bigint): string | undefined {
 	const v = store.entityStringByU64.get(encodeEntityKey(u64));
 	if (v === undefined) return undefined;
-- 
2.43.0


From a654b5b1fa09afde52c9836bb12ed29dc63260e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:56 +0000
Subject: [PATCH 27/60] fix: a first boot with a contradictory catalog reports
 catalog-error instead of throwing

---
 src/config/reconcile-io.ts | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/config/reconcile-io.ts b/src/config/reconcile-io.ts
index 72f911f..50427a5 100644
--- a/src/config/reconcile-io.ts
+++ b/src/config/reconcile-io.ts
@@ -115,8 +115,17 @@ function parseOffset(message: string): number | undefined {
 	return m ? Number(m[1]) : undefined;
 }
 
-function reconcile(existing: unknown, catalog: readonly ConfigOption[] | undefined): ConfigReconcileResult {
-	return catalog === undefined ? reconcileConfig(existing) : reconcileConfig(existing, catalog);
+/** Reconcile, mapping a throw onto its outcome: a ConfigCatalogError is a
+ *  shipped-catalog bug, distinct from user-config and I/O failures. */
+function reconcile(existing: unknown, catalog: readonly ConfigOption[] | undefined): ConfigReconcileResult | ConfigIoOutcome {
+	try {
+		return catalog === undefined ? reconcileConfig(existing) : reconcileConfig(existing, catalog);
+	} catch (err) {
+		if (err instanceof ConfigCatalogError) {
+			return { kind: 'catalog-error', catalogPath: err.catalogPath, message: err.message };
+		}
+		return { kind: 'read-error', errno: 'RECONCILE', message: err instanceof Error ? err.message : String(err) };
+	}
 }
 
 /** Serialize + write-temp-then-rename. `statBefore` is null for first-boot
@@ -181,7 +190,8 @@ export function reconcileConfigFile(opts: ReconcileFileOpts = {}): ConfigIoOutco
 		const e = err as NodeJS.ErrnoException;
 		if (e.code === 'ENOENT') {
 			// First boot — no file. Reconcile undefined → catalog defaults, write once.
-			return commit(fs, path, reconcile(undefined, opts.catalog), 'first-boot', null);
+			const first = reconcile(undefined, opts.catalog);
+			return 'kind' in first ? first : commit(fs, path, first, 'first-boot', null);
 		}
 		return { kind: 'read-error', errno: e.code ?? 'UNKNOWN', message: e.message };
 	}
@@ -199,15 +209,8 @@ export function reconcileConfigFile(opts: ReconcileFileOpts = {}): ConfigIoOutco
 
 	// 3. Reconcile. A ConfigCatalogError is a shipped-catalog bug — surface it
 	//    as its own outcome kind, distinct from user-config and I/O failures.
-	let result: ConfigReconcileResult;
-	try {
-		result = reconcile(parsed, opts.catalog);
-	} catch (err) {
-		if (err instanceof ConfigCatalogError) {
-			return { kind: 'catalog-error', catalogPath: err.catalogPath, message: err.message };
-		}
-		return { kind: 'read-error', errno: 'RECONCILE', message: err instanceof Error ? err.message : String(err) };
-	}
+	const result = reconcile(parsed, opts.catalog);
+	if ('kind' in result) return result;
 
 	// 4. Write only when changed.
 	if (!result.changed) return { kind: 'unchanged', result };
-- 
2.43.0


From a531d29423ba670c0db7aca7849a070fcc5cbd95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:56 +0000
Subject: [PATCH 28/60] fix: re-check the settings file right before the rename
 so that an edit made meanwhile survives

---
 src/config/reconcile-io.ts | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/config/reconcile-io.ts b/src/config/reconcile-io.ts
index 50427a5..b98217c 100644
--- a/src/config/reconcile-io.ts
+++ b/src/config/reconcile-io.ts
@@ -140,16 +140,16 @@ function commit(
 	const tmp = `${path}.tmp`;
 	const serialized = `${JSON.stringify(result.config, null, 2)}\n`;
 
-	// Concurrent-modification guard: re-stat right before writing and abandon
-	// if the on-disk document changed under us (only meaningful when a file
-	// existed at read time).
-	if (statBefore !== null) {
+	// Concurrent-modification guard: re-stat right before writing, and again
+	// right before the rename, and abandon if the on-disk document changed
+	// under us (only meaningful when a file existed at read time).
+	const modified = (): boolean => {
+		if (statBefore === null) return false;
 		let statNow: FsStat | null = null;
 		try { statNow = fs.statSync(path); } catch { statNow = null; }
-		if (statNow !== null && (statNow.mtimeMs !== statBefore.mtimeMs || statNow.size !== statBefore.size)) {
-			return { kind: 'concurrent-modification', result };
-		}
-	}
+		return statNow !== null && (statNow.mtimeMs !== statBefore.mtimeMs || statNow.size !== statBefore.size);
+	};
+	if (modified()) return { kind: 'concurrent-modification', result };
 
 	try {
 		fs.writeFileSync(tmp, serialized, 'utf-8');
@@ -157,6 +157,10 @@ function commit(
 		try { fs.unlinkSync(tmp); } catch { /* best effort */ }
 		return { kind: 'write-error', message: err instanceof Error ? err.message : String(err), result };
 	}
+	if (modified()) {
+		try { fs.unlinkSync(tmp); } catch { /* best effort */ }
+		return { kind: 'concurrent-modification', result };
+	}
 	try {
 		fs.renameSync(tmp, path);
 	} catch (err) {
-- 
2.43.0


From 44a0a9abb7f07b5e86ce51f4fac652fab06d9148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:56 +0000
Subject: [PATCH 29/60] fix: approving with a misconfigured tracker reports the
 approval instead of throwing after it

---
 src/cli/services/workflow.ts | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/cli/services/workflow.ts b/src/cli/services/workflow.ts
index 73a97fc..96f753b 100644
--- a/src/cli/services/workflow.ts
+++ b/src/cli/services/workflow.ts
@@ -95,7 +95,14 @@ function commitApprovedArtifacts(approval: ApprovalResult): CommitArtifactsResul
 	const { repoPath, epicHash, epicSlug, storyId } = meta;
 	if (typeof repoPath !== 'string' || typeof epicHash !== 'string') return undefined;
 
-	const cfg = resolveGithubConfig(repoPath);
+	let cfg: ReturnType<typeof resolveGithubConfig>;
+	try {
+		cfg = resolveGithubConfig(repoPath);
+	} catch (err) {
+		// Misconfigured tracker: the approval already stands, nothing to check in.
+		log.warn({ workflow: approval.workflow, err: (err as Error).message }, 'approve: artifact check-in skipped');
+		return undefined;
+	}
 	if (cfg.type !== 'github' || cfg.commitArtifacts === false) return undefined;
 
 	// The files this approval touched: the approved artifact, plus the Define
-- 
2.43.0


From 5c69fa7451424b0face94ad6279294e70b7623e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:56 +0000
Subject: [PATCH 30/60] fix: a redone epic design adopts the epic issue its
 definition already records

---
 src/workflow/tracker-auto.ts | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/workflow/tracker-auto.ts b/src/workflow/tracker-auto.ts
index 4113ed9..9efac31 100644
--- a/src/workflow/tracker-auto.ts
+++ b/src/workflow/tracker-auto.ts
@@ -120,7 +120,12 @@ export function autoPushEpicOnHld(hldJsonPath: string): AutoPushResult {
 	// Duplicate guard: adopt an existing Epic issue (unique by epic +
 	// epic-membership labels) rather than creating a second one.
 	const membership = epicMembershipLabel(epicSlug);
-	const adopted = ghFindIssueByLabels(cfg.owner, cfg.repo, [cfg.epicLabel, membership]);
+	// The Define's own record comes first: it survives a redone HLD and needs
+	// no lookup that could fail.
+	const recorded = (define.meta as { tracker?: TrackerMeta }).tracker?.epicRef;
+	const adopted = typeof recorded === 'string' && recorded.length > 0
+		? recorded
+		: ghFindIssueByLabels(cfg.owner, cfg.repo, [cfg.epicLabel, membership]);
 	let epicRef: string;
 	let created: string[] = [];
 	if (adopted !== undefined) {
-- 
2.43.0


From 04b8f7807c4bc14b082146cf3d1f1863015f0892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:56 +0000
Subject: [PATCH 31/60] fix: a plan push that fails midway keeps the issues it
 created

---
 src/workflow/tracker-auto.ts | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/workflow/tracker-auto.ts b/src/workflow/tracker-auto.ts
index 9efac31..8af1d36 100644
--- a/src/workflow/tracker-auto.ts
+++ b/src/workflow/tracker-auto.ts
@@ -306,7 +306,12 @@ export function autoPushTasksOnPlan(planJsonPath: string): AutoPushResult {
 				renderTaskBody(parentStoryRef, storyId, task, epicSlug, { owner: cfg.owner, repo: cfg.repo }, taskWid),
 				[cfg.taskLabel, membership], cfg.taskIssueType,
 			);
-		} catch (err) { return { status: 'failed', reason: `gh issue create (task ${task.id}) failed: ${(err as Error).message}` }; }
+		} catch (err) {
+			// Keep the refs of the tasks created so far: a retry must adopt them,
+			// not create them a second time.
+			if (createdCount > 0) patchTrackerMeta(planJsonPath, { taskRefs, pushedAt: new Date().toISOString() });
+			return { status: 'failed', reason: `gh issue create (task ${task.id}) failed: ${(err as Error).message}` };
+		}
 		taskRefs[task.id] = issue.ref;
 		createdCount += 1;
 		bestEffort(`sub-issue ${task.id}`, () => ghLinkSubIssue(cfg.owner, cfg.repo, parentStoryRef, issue.id));
-- 
2.43.0


From 768afb4c9aa9d8cbb412cc32ff8efba64d0f3990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:15 +0000
Subject: [PATCH 32/60] fix: revoking a path prefix finds the approval given
 under the same argument

---
 src/shared/access.ts | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/shared/access.ts b/src/shared/access.ts
index 2a1b89c..2735d9b 100644
--- a/src/shared/access.ts
+++ b/src/shared/access.ts
@@ -172,6 +172,18 @@ function prefixKindFor(exactKind: string): string {
     : `${exactKind}${PREFIX_KIND_SUFFIX}`;
 }
 
+/**
+ * Auto-append `/` for fs-path-prefix to avoid `/var/log` matching
+ * `/var/log_archive/` accidentally. Other kinds (cloud-resource,
+ * network-host) carry their own delimiters in the key shape and
+ * don't need this normalisation.
+ */
+function normalisePrefix(prefKind: string, prefix: string): string {
+  return prefKind === 'fs-path-prefix' && !prefix.endsWith('/')
+    ? `${prefix}/`
+    : prefix;
+}
+
 /**
  * Default in-memory implementation. The Session pool constructs one
  * per session; the executor's gate dispatcher reads/writes through
@@ -212,13 +224,7 @@ export class DefaultAccessStore implements AccessStore {
 
   approvePrefix(kind: string, prefix: string): void {
     const prefKind = prefixKindFor(kind);
-    // Auto-append `/` for fs-path-prefix to avoid `/var/log` matching
-    // `/var/log_archive/` accidentally. Other kinds (cloud-resource,
-    // network-host) carry their own delimiters in the key shape and
-    // don't need this normalisation.
-    const normalised = prefKind === 'fs-path-prefix' && !prefix.endsWith('/')
-      ? `${prefix}/`
-      : prefix;
+    const normalised = normalisePrefix(prefKind, prefix);
     let bucket = this.prefix.get(prefKind);
     if (bucket === undefined) {
       bucket = new Map<string, number>();
@@ -234,7 +240,8 @@ export class DefaultAccessStore implements AccessStore {
   }
 
   revokePrefix(kind: string, prefix: string): void {
-    this.prefix.get(prefixKindFor(kind))?.delete(prefix);
+    const prefKind = prefixKindFor(kind);
+    this.prefix.get(prefKind)?.delete(normalisePrefix(prefKind, prefix));
   }
 
   list(): readonly AccessApproval[] {
-- 
2.43.0


From 994f027ae45aea0c80d92bf09c25f9c614c0a1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:47 +0000
Subject: [PATCH 33/60] fix: a tool whose approval check throws reports a
 failed call

---
 src/daemon/tools/executor.ts | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/daemon/tools/executor.ts b/src/daemon/tools/executor.ts
index 057ce4f..5c63d13 100644
--- a/src/daemon/tools/executor.ts
+++ b/src/daemon/tools/executor.ts
@@ -38,13 +38,13 @@ export async function executeTool(
 
 	log.info({ id: tool.id }, 'executing tool');
 
-	const needsGate = tool.requiresApproval === true
-		|| (typeof tool.requiresApproval === 'function' && tool.requiresApproval(input));
-	if (needsGate) {
-		log.warn({ id: tool.id }, 'tool requires approval but the gate dispatcher is gone; auto-approving');
-	}
-
 	try {
+		const needsGate = tool.requiresApproval === true
+			|| (typeof tool.requiresApproval === 'function' && tool.requiresApproval(input));
+		if (needsGate) {
+			log.warn({ id: tool.id }, 'tool requires approval but the gate dispatcher is gone; auto-approving');
+		}
+
 		return await tool.execute(input, deps);
 	} catch (err) {
 		const errMsg = err instanceof Error ? err.message : String(err);
-- 
2.43.0


From 55b0083ad96d3706efa4502476b231101a125847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:43 +0000
Subject: [PATCH 34/60] fix: closing a chat session twice at once closes it
 once

---
 src/daemon/chat-sessions.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/daemon/chat-sessions.ts b/src/daemon/chat-sessions.ts
index a36b595..0a5ba8d 100644
--- a/src/daemon/chat-sessions.ts
+++ b/src/daemon/chat-sessions.ts
@@ -121,9 +121,11 @@ export class ChatSessionPool {
 	async close(sessionId: string): Promise<boolean> {
 		const s = this.sessions.get(sessionId);
 		if (!s) return false;
+		// Leave the pool before awaiting, so that a concurrent close does not
+		// close the session again and nobody is handed a closing session.
+		this.sessions.delete(sessionId);
 		try { await s.session.close(); }
 		catch (err) { log.warn({ sessionId, error: String(err) }, 'error closing session'); }
-		this.sessions.delete(sessionId);
 		log.info({ sessionId }, 'chat session closed');
 		return true;
 	}
-- 
2.43.0


From caf489d54302bb237796cdb1afb91c21c56f22be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:55 +0000
Subject: [PATCH 35/60] fix: a settings entry stored again without its
 embedding loses its old vector

---
 src/config/store.ts | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/config/store.ts b/src/config/store.ts
index 79b4c5b..a6cfc74 100644
--- a/src/config/store.ts
+++ b/src/config/store.ts
@@ -112,10 +112,12 @@ export class ConfigStore {
 
 	async upsertEntry(entry: ConfigEntry): Promise<void> {
 		const row = entryToRow(entry);
+		let replaced = false;
 		await withWriteTxn(s => {
 			// Read prior row (if any) so we can clean up the by-scope index
 			// when scope/namespace/category change.
 			const prevBuf = s.configEntry.get(entry.id);
+			replaced = prevBuf !== undefined;
 			if (prevBuf !== undefined) {
 				const prev = decodeConfigEntryRow(prevBuf as Buffer);
 				if (prev.scope !== row.scope
@@ -144,6 +146,11 @@ export class ConfigStore {
 				category:  row.category,
 				language:  row.language,
 			});
+		} else if (replaced) {
+			// Stored again without an embedding: the vector of the previous
+			// content (and scope) must not stay searchable.
+			const { deleteConfigVec } = await import('../db/lance/config-vec.js');
+			await deleteConfigVec(entry.id);
 		}
 	}
 
-- 
2.43.0


From aa0e7dd230de5ad7b126ff27d7a6a7a7dcd9a3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:45 +0000
Subject: [PATCH 36/60] fix: a plan parameter naming a field of a range of
 results is resolved

---
 src/analyze/explore/executor.ts | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/analyze/explore/executor.ts b/src/analyze/explore/executor.ts
index b4fcb7f..d64bed5 100644
--- a/src/analyze/explore/executor.ts
+++ b/src/analyze/explore/executor.ts
@@ -754,14 +754,23 @@ function resolvePlaceholder(
 	}
 
 	let cur: unknown = dep;
+	let pickedRange = false;
 	for (const step of steps) {
 		if (cur === null || cur === undefined) return undefined;
-		if (step.kind === 'field') {
+		if (step.kind === 'field' && pickedRange && Array.isArray(cur)) {
+			// `hits[0..2].name`: the field of every picked element.
+			cur = cur.map(item =>
+				typeof item === 'object' && item !== null && !Array.isArray(item)
+					? (item as Record<string, unknown>)[step.name]
+					: undefined,
+			).filter(v => v !== undefined);
+		} else if (step.kind === 'field') {
 			if (typeof cur !== 'object' || Array.isArray(cur)) return undefined;
 			cur = (cur as Record<string, unknown>)[step.name];
 		} else if (step.kind === 'index') {
 			if (!Array.isArray(cur)) return undefined;
 			cur = cur[step.index];
+			pickedRange = false;
 		} else {
 			if (!Array.isArray(cur)) return undefined;
 			const slice: unknown[] = [];
@@ -770,6 +779,7 @@ function resolvePlaceholder(
 				slice.push(cur[j]);
 			}
 			cur = slice;
+			pickedRange = true;
 		}
 	}
 	return cur;
-- 
2.43.0


From d8fbc92d2efce9d0c9a8f4cb4a7f0c3c21b9995c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:45 +0000
Subject: [PATCH 37/60] fix: a step-by-step plan does not serve live probes
 from the cache

---
 src/analyze/explore/executor.ts | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/analyze/explore/executor.ts b/src/analyze/explore/executor.ts
index d64bed5..b2a1a69 100644
--- a/src/analyze/explore/executor.ts
+++ b/src/analyze/explore/executor.ts
@@ -524,9 +524,10 @@ export async function stepPlan(
 			}
 		} else {
 			// Deterministic path -- identical to executePlan.
-			const hit = await getCachedExploration(
-				args.repoPath, args.repoLastIndexedAtMs, exp,
-			);
+			const cacheable = !NON_CACHEABLE.has(exp.type);
+			const hit = cacheable
+				? await getCachedExploration(args.repoPath, args.repoLastIndexedAtMs, exp)
+				: null;
 			if (hit !== null) {
 				output = hit;
 				cached = true;
@@ -541,9 +542,11 @@ export async function stepPlan(
 						ignoreFilter,
 					};
 					output = await runner(exp, ctx);
-					await putCachedExploration(
-						args.repoPath, args.repoLastIndexedAtMs, exp, output,
-					);
+					if (cacheable) {
+						await putCachedExploration(
+							args.repoPath, args.repoLastIndexedAtMs, exp, output,
+						);
+					}
 				} catch (err) {
 					const msg = err instanceof Error ? err.message : String(err);
 					log.warn(
-- 
2.43.0


From b75e503692aaf98fb6a7b19142ebb5f64c67ac77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:05 +0000
Subject: [PATCH 38/60] fix: a failing exploration does not abort a
 step-by-step plan

---
 src/analyze/explore/executor.ts | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/analyze/explore/executor.ts b/src/analyze/explore/executor.ts
index b2a1a69..ad64419 100644
--- a/src/analyze/explore/executor.ts
+++ b/src/analyze/explore/executor.ts
@@ -494,8 +494,25 @@ export async function stepPlan(
 					readDep:      (id: string) => outputsById.get(id),
 					ignoreFilter,
 				};
-				const prep = await narrow.prepare(exp, ctx);
-				if (prep.kind === 'short-circuit') {
+				let prep: NarrowPrepareResult | undefined;
+				try {
+					prep = await narrow.prepare(exp, ctx);
+				} catch (err) {
+					const msg = err instanceof Error ? err.message : String(err);
+					log.warn(
+						{ runId: args.runId, explorationId: exp.id, type: exp.type, err: msg },
+						'multi-turn exploration failed',
+					);
+					output = {
+						type:      'failed',
+						requested: exp.type,
+						errorCode: classifyExplorationError(err),
+						message:   msg,
+					};
+				}
+				if (prep === undefined) {
+					// prepare failed: one failed result, the plan goes on
+				} else if (prep.kind === 'short-circuit') {
 					output = prep.shortCircuit;
 					await putCachedExploration(
 						args.repoPath, args.repoLastIndexedAtMs, exp, output,
-- 
2.43.0


From cceb608acb2d20ff28b75ba3e2cdf92f5b711b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:05 +0000
Subject: [PATCH 39/60] fix: the answer to a paused exploration is kept under
 the question that was asked

---
 src/analyze/explore/executor.ts       | 3 +++
 src/mcp/analyze-step/phases/narrow.ts | 5 +++--
 src/mcp/analyze-step/phases/plan.ts   | 1 +
 src/mcp/analyze-step/state.ts         | 3 +++
 4 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/analyze/explore/executor.ts b/src/analyze/explore/executor.ts
index ad64419..b7dc16e 100644
--- a/src/analyze/explore/executor.ts
+++ b/src/analyze/explore/executor.ts
@@ -390,6 +390,8 @@ export interface StepPlanResumeState {
  *  and (b) resume on the next call. */
 export interface StepPlanPending {
 	readonly kind:            'pending';
+	/** The paused exploration, placeholders resolved. */
+	readonly exploration:     Exploration;
 	readonly explorationId:   string;
 	readonly explorationType: ExplorationType;
 	readonly systemPrompt:    string;
@@ -523,6 +525,7 @@ export async function stepPlan(
 					const elapsedForPause = Date.now() - runnerStart;
 					return {
 						kind:            'pending',
+						exploration:     exp,
 						explorationId:   exp.id,
 						explorationType: exp.type,
 						systemPrompt:    prep.systemPrompt,
diff --git a/src/mcp/analyze-step/phases/narrow.ts b/src/mcp/analyze-step/phases/narrow.ts
index d916968..915381e 100644
--- a/src/mcp/analyze-step/phases/narrow.ts
+++ b/src/mcp/analyze-step/phases/narrow.ts
@@ -125,8 +125,8 @@ export async function handleNarrow(
 	}
 
 	// (4) Cache the finalized output (same key executePlan uses).
-	//     Requires locating the paused exploration in the plan.
-	const pausedExp = state.plan.explorations.find(e => e.id === state.narrow!.explorationId);
+	//     The key is the exploration as it was asked, placeholders resolved.
+	const pausedExp = state.narrow.exploration ?? state.plan.explorations.find(e => e.id === state.narrow!.explorationId);
 	if (pausedExp !== undefined) {
 		try {
 			await putCachedExploration(
@@ -193,6 +193,7 @@ export async function handleNarrow(
 			synthesizerKey: state.synthesizerKey,
 			plan:           state.plan,
 			narrow: {
+				exploration:     step.exploration,
 				explorationId:   step.explorationId,
 				explorationType: step.explorationType,
 				preparedBlob:    step.preparedBlob,
diff --git a/src/mcp/analyze-step/phases/plan.ts b/src/mcp/analyze-step/phases/plan.ts
index d132874..cab44ce 100644
--- a/src/mcp/analyze-step/phases/plan.ts
+++ b/src/mcp/analyze-step/phases/plan.ts
@@ -133,6 +133,7 @@ export async function handlePlan(
 			synthesizerKey,
 			plan:           validatedPlan,
 			narrow: {
+				exploration:     step.exploration,
 				explorationId:   step.explorationId,
 				explorationType: step.explorationType,
 				preparedBlob:    step.preparedBlob,
diff --git a/src/mcp/analyze-step/state.ts b/src/mcp/analyze-step/state.ts
index e222451..41696e9 100644
--- a/src/mcp/analyze-step/state.ts
+++ b/src/mcp/analyze-step/state.ts
@@ -31,6 +31,7 @@
 import type { ClassifiedIntent } from '../../shared/analyze-types.js';
 import type {
 	ExecutedPlan,
+	Exploration,
 	ExplorationPlan,
 	ExplorationType,
 	StepPlanResumeState,
@@ -55,6 +56,8 @@ export type StepStage =
  *  narrow-LLM exploration. Rehydrated on the phase='narrow' turn so
  *  the finalizer + resume knows where it left off. */
 export interface NarrowPause {
+	/** The paused exploration, placeholders resolved. */
+	readonly exploration?:    Exploration;
 	readonly explorationId:   string;
 	readonly explorationType: ExplorationType;
 	/** Runner-specific opaque blob the finalize step needs. */
-- 
2.43.0


From 76b4887e336e937a426fa9c11bd1f80fa7b4b75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:40 +0000
Subject: [PATCH 40/60] fix: an import of a file that is indexed later is
 linked

---
 src/indexer/cross-file-resolver.ts | 24 +++++++++++++++++++++++-
 src/indexer/index.ts               |  8 +++++++-
 2 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/src/indexer/cross-file-resolver.ts b/src/indexer/cross-file-resolver.ts
index 0029997..bc73db6 100644
--- a/src/indexer/cross-file-resolver.ts
+++ b/src/indexer/cross-file-resolver.ts
@@ -61,6 +61,7 @@ import {
   type UnresolvedRelation,
 } from '../db/relations.js';
 import { inNeighbors, outNeighbors } from '../db/graph/edges.js';
+import { resolveRelations } from './resolver.js';
 import type { SourceRoots } from './source-roots.js';
 
 const log = getLogger('cross-file-resolver');
@@ -127,7 +128,7 @@ export async function runCrossFileResolver(
 
   // -- Pass 1 --
   const tPass1 = Date.now();
-  const importsRewired = await runPass1(opts, index);
+  const importsRewired = await runPass1(opts, index) + await linkPendingImports(opts, index);
   log.info(
     { repo: opts.repoRoot, importsRewired, elapsedMs: Date.now() - tPass1 },
     'cross-file Pass 1 (IMPORTS rewire) complete',
@@ -255,6 +256,27 @@ async function runPass1(
   return rewires.length;
 }
 
+/**
+ * Link the relative imports whose target was not indexed when the importing
+ * file was (indexed later in the pass, or created after its importer).
+ */
+async function linkPendingImports(
+  opts:  CrossFileResolveOpts,
+  index: EntityIndex,
+): Promise<number> {
+  const promotes: { unresolved: UnresolvedRelation; targetEntityId: string }[] = [];
+  for (const row of await listUnresolvedRelations(opts.db, opts.repoRoot)) {
+    if (row.kind !== 'IMPORTS' || row.meta['isRelative'] !== true) continue;
+    const [rel] = resolveRelations(
+      [{ kind: row.kind, from: row.fromEntity, to: row.rawTo, resolved: false, meta: row.meta }],
+      row.fromFile, opts.repoRoot,
+    );
+    if (rel?.resolved === true && index.byId.has(rel.to)) promotes.push({ unresolved: row, targetEntityId: rel.to });
+  }
+  await promoteResolvedBatch(opts.db, promotes);
+  return promotes.length;
+}
+
 // ---------------------------------------------------------------------------
 // Pass 2: resolve INHERITS / IMPLEMENTS / CALLS rows
 // ---------------------------------------------------------------------------
diff --git a/src/indexer/index.ts b/src/indexer/index.ts
index 4bfa895..361de52 100644
--- a/src/indexer/index.ts
+++ b/src/indexer/index.ts
@@ -789,7 +789,13 @@ export class IndexerService {
 
     // Persist
     await upsertEntities(this.db, result.entities);
-    await upsertRelations(this.db, resolved);
+    // An import of a file that is not indexed yet stays pending: the
+    // cross-file pass links it once the target is there.
+    const linkable = await Promise.all(resolved.map(async (rel, i) =>
+      rel.kind === 'IMPORTS' && rel !== result.relations[i] && await getEntity(this.db, rel.to) === null
+        ? result.relations[i]!
+        : rel));
+    await upsertRelations(this.db, linkable);
 
     log.debug(
       { file: filePath, entities: result.entities.length, relations: resolved.length, resolved: resolvedCount },
-- 
2.43.0


From 2b700480f9ab93a8d8276da5f7cc285cffdfc4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:49 +0000
Subject: [PATCH 41/60] fix: the settle pass links what other files were
 waiting for

---
 src/indexer/index.ts | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/indexer/index.ts b/src/indexer/index.ts
index 361de52..4ac02ea 100644
--- a/src/indexer/index.ts
+++ b/src/indexer/index.ts
@@ -579,16 +579,11 @@ export class IndexerService {
     this.settleScopeFiles.delete(repoPath);
     if (scope === undefined || scope.size === 0) return;
 
-    const sourceRoots = detectSourceRoots(repoPath);
-    let totalResolved = 0, totalAmbiguous = 0, totalRewired = 0;
-    for (const file of scope) {
-      const result = await runCrossFileResolver({
-        db: this.db, repoRoot: repoPath, sourceRoots, scopeFile: file,
-      });
-      totalResolved  += result.resolved;
-      totalAmbiguous += result.ambiguous;
-      totalRewired   += result.importsRewired;
-    }
+    // Repo-wide: an edit can also settle what other files are waiting for
+    // (a callee that came back, an import target that was created).
+    const cf = await runCrossFileResolver({
+      db: this.db, repoRoot: repoPath, sourceRoots: detectSourceRoots(repoPath),
+    });
 
     // S003: resolve any CALLS_HTTP relations the just-edited files emitted into
     // externalEndpoint nodes + edges — once per repo, after the per-file loop.
@@ -616,7 +611,7 @@ export class IndexerService {
     }
 
     log.info(
-      { repo: repoPath, files: scope.size, resolved: totalResolved, ambiguous: totalAmbiguous, importsRewired: totalRewired },
+      { repo: repoPath, files: scope.size, resolved: cf.resolved, ambiguous: cf.ambiguous, importsRewired: cf.importsRewired },
       'cross-file settle pass complete',
     );
   }
-- 
2.43.0


From dae9684a9b2807cf16c6632f659b30deeb6b98dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:16 +0000
Subject: [PATCH 42/60] fix: editing or deleting a file keeps what other files
 refer to in it

---
 src/indexer/index.ts | 44 ++++++++++++++++++++++++++++++++++++--------
 1 file changed, 36 insertions(+), 8 deletions(-)

diff --git a/src/indexer/index.ts b/src/indexer/index.ts
index 4ac02ea..36b17f3 100644
--- a/src/indexer/index.ts
+++ b/src/indexer/index.ts
@@ -3,14 +3,17 @@ import { execFileSync } from 'node:child_process';
 import { createHash } from 'node:crypto';
 import { join, extname, resolve, relative, sep } from 'node:path';
 import type { DbClient } from '../db/client.js';
-import type { RegisteredRepo, IndexJob, ConfigScope } from '../shared/types.js';
+import type { RegisteredRepo, IndexJob, ConfigScope, Relation } from '../shared/types.js';
 import { upsertEntities } from '../db/entities.js';
 import { upsertRelations, deleteRelationsForFile, deleteUnresolvedForFile } from '../db/relations.js';
 import { runCrossFileResolver } from './cross-file-resolver.js';
 import { resolveExternalEndpoints } from './external-endpoints.js';
 import { resolveMessagingEndpoints } from './messaging-endpoints.js';
 import { detectSourceRoots } from './source-roots.js';
-import { deleteEntitiesForFile, getEntity } from '../db/entities.js';
+import {
+  deleteEntitiesForFile, getEntity, getEntitiesByIds, findEntitiesByFile, entityU64ForId, entityIdsByU64s,
+} from '../db/entities.js';
+import { inNeighbors } from '../db/graph/edges.js';
 import { updateRepoStatus, lookupRepoId, UnregisteredRepoError } from '../db/repos.js';
 import { SHARED_MODULES_REPO_ID } from '../shared/repo-namespaces.js';
 import { embedEntities, embedText } from './embedder.js';
@@ -510,9 +513,7 @@ export class IndexerService {
       return;
     }
     if (event === 'delete') {
-      await deleteRelationsForFile(this.db, filePath);
-      await deleteEntitiesForFile(this.db, filePath);
-      await deleteUnresolvedForFile(this.db, filePath);
+      await this.dropFile(filePath);
       log.info({ file: filePath }, 'file deleted from index');
       this.scheduleSettle(repoPath, filePath);
       return;
@@ -731,6 +732,35 @@ export class IndexerService {
   // Core indexing pipeline: parse → resolve → embed → upsert
   // -------------------------------------------------------------------------
 
+  /**
+   * Remove a file from the index. The references other files make into it go
+   * back to the pending queue, so that the cross-file pass links them again
+   * if their target returns.
+   */
+  private async dropFile(filePath: string): Promise<void> {
+    const entities = await findEntitiesByFile(this.db, filePath);
+    const pending: Relation[] = [];
+    for (const target of entities) {
+      const u64 = await entityU64ForId(target.id);
+      if (u64 === undefined) continue;
+      for (const kind of ['CALLS', 'IMPORTS', 'INHERITS', 'IMPLEMENTS'] as const) {
+        const sources = await entityIdsByU64s(await inNeighbors(u64, { kindFilter: [kind] }));
+        for (const from of await getEntitiesByIds(this.db, [...sources.values()])) {
+          if (from.file === filePath) continue;
+          pending.push({
+            kind, from: from.id, resolved: false,
+            to:   target.kind === 'file' ? target.file : target.name,
+            meta: { file: from.file, repo: from.repo, ...(kind === 'IMPORTS' ? { isRelative: true } : {}) },
+          });
+        }
+      }
+    }
+    await upsertRelations(this.db, pending);
+    await deleteRelationsForFile(this.db, filePath);
+    await deleteUnresolvedForFile(this.db, filePath);
+    await deleteEntitiesForFile(this.db, filePath);
+  }
+
   /** @returns true if the file was indexed, false if skipped (unchanged or no parser). */
   private async indexFile(
     filePath:   string,
@@ -754,9 +784,7 @@ export class IndexerService {
         return false;
       }
     } else {
-      await deleteRelationsForFile(this.db, filePath);
-      await deleteEntitiesForFile(this.db, filePath);
-      await deleteUnresolvedForFile(this.db, filePath);
+      await this.dropFile(filePath);
     }
 
     // Phase 5.x strict-contract: resolve the repoId once per file
-- 
2.43.0


From 05cc3ffbbea0fe47cde2a7b165fe116a7bc6f853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:01 +0000
Subject: [PATCH 43/60] fix: files deleted or changed while the daemon was away
 leave no stale entries

---
 src/indexer/index.ts | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/indexer/index.ts b/src/indexer/index.ts
index 36b17f3..757e80e 100644
--- a/src/indexer/index.ts
+++ b/src/indexer/index.ts
@@ -11,7 +11,7 @@ import { resolveExternalEndpoints } from './external-endpoints.js';
 import { resolveMessagingEndpoints } from './messaging-endpoints.js';
 import { detectSourceRoots } from './source-roots.js';
 import {
-  deleteEntitiesForFile, getEntity, getEntitiesByIds, findEntitiesByFile, entityU64ForId, entityIdsByU64s,
+  deleteEntitiesForFile, getEntity, getEntitiesByIds, findEntitiesByFile, listEntitiesForRepo, entityU64ForId, entityIdsByU64s,
 } from '../db/entities.js';
 import { inNeighbors } from '../db/graph/edges.js';
 import { updateRepoStatus, lookupRepoId, UnregisteredRepoError } from '../db/repos.js';
@@ -257,8 +257,12 @@ export class IndexerService {
       } else if (repo.status === 'ready' && repo.lastIndexed) {
         // Delta indexing: find files modified since last index
         const delta = this.detectDelta(repo.path, repo.lastIndexed);
-        if (delta.length > 0) {
-          log.info({ repo: repo.path, changed: delta.length }, 'delta index on startup');
+        const gone  = await this.vanishedFiles(repo.path);
+        if (delta.length + gone.length > 0) {
+          log.info({ repo: repo.path, changed: delta.length, deleted: gone.length }, 'delta index on startup');
+          for (const filePath of gone) {
+            this.queue.enqueue({ kind: 'file', filePath, event: 'delete' });
+          }
           for (const filePath of delta) {
             this.queue.enqueue({ kind: 'file', filePath, event: 'update' });
           }
@@ -317,6 +321,13 @@ export class IndexerService {
     return changed;
   }
 
+  /** Indexed files of a repo that are not on disk any more. */
+  private async vanishedFiles(repoPath: string): Promise<string[]> {
+    if (!existsSync(repoPath)) return [];  // unmounted, not emptied
+    const files = new Set((await listEntitiesForRepo(this.db, repoPath)).map(e => e.file));
+    return [...files].filter(f => !existsSync(f));
+  }
+
   /** Add a repo: start watching + enqueue full index. */
   async addRepo(repoPath: string): Promise<void> {
     log.info({ repo: repoPath }, 'repo added, enqueuing full index');
@@ -387,6 +398,8 @@ export class IndexerService {
         'full index: files to process',
       );
 
+      for (const filePath of await this.vanishedFiles(repoPath)) await this.dropFile(filePath);
+
       for (const filePath of supported) {
         total++;
         if (total % 50 === 0 || total === 1) {
@@ -783,9 +796,8 @@ export class IndexerService {
         log.debug({ file: filePath }, 'skipped (unchanged)');
         return false;
       }
-    } else {
-      await this.dropFile(filePath);
     }
+    await this.dropFile(filePath);
 
     // Phase 5.x strict-contract: resolve the repoId once per file
     // and hand it to the parser. Lookup throws if the repo isn't
-- 
2.43.0


From c1cda56050e05efdf59a4a71f5833069607a02be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:45 +0000
Subject: [PATCH 44/60] fix: changes found at startup are not forgotten when
 the daemon stops before indexing them

---
 src/indexer/index.ts | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/indexer/index.ts b/src/indexer/index.ts
index 757e80e..d11cbf5 100644
--- a/src/indexer/index.ts
+++ b/src/indexer/index.ts
@@ -176,6 +176,9 @@ export class IndexerService {
    */
   private readonly registeredRepos: Set<string> = new Set();
 
+  /** Files found changed at startup and not indexed yet, per repo. */
+  private readonly startupDelta: Map<string, { files: Set<string>; scannedAt: string }> = new Map();
+
   /** How long to wait after the last file event before kicking the
    *  cross-file pass on the incremental path. Sits *on top of* the
    *  watcher's existing 200 ms event-debounce. */
@@ -256,6 +259,7 @@ export class IndexerService {
         this.queue.enqueue({ kind: 'full', repoPath: repo.path });
       } else if (repo.status === 'ready' && repo.lastIndexed) {
         // Delta indexing: find files modified since last index
+        const scannedAt = new Date().toISOString();
         const delta = this.detectDelta(repo.path, repo.lastIndexed);
         const gone  = await this.vanishedFiles(repo.path);
         if (delta.length + gone.length > 0) {
@@ -266,8 +270,9 @@ export class IndexerService {
           for (const filePath of delta) {
             this.queue.enqueue({ kind: 'file', filePath, event: 'update' });
           }
-          // Update lastIndexed so next startup doesn't re-scan the same files
-          await updateRepoStatus(this.db, repo.path, 'ready', new Date().toISOString());
+          // lastIndexed moves once these files are indexed and settled, so that
+          // the next startup picks up whatever this run does not get to.
+          this.startupDelta.set(repo.path, { files: new Set([...gone, ...delta]), scannedAt });
         } else {
           log.info({ repo: repo.path }, 'no changes since last index');
         }
@@ -356,7 +361,10 @@ export class IndexerService {
   async processJob(job: IndexJob): Promise<void> {
     switch (job.kind) {
       case 'full':           await this.fullIndex(job.repoPath);            break;
-      case 'file':           await this.fileEvent(job.filePath, job.event); break;
+      case 'file':
+        await this.fileEvent(job.filePath, job.event);
+        this.startupDelta.get(this.repoForFile(job.filePath))?.files.delete(job.filePath);
+        break;
       case 'reembed':        await this.reembed(job.repoPath);             break;
       case 'config-full':    await this.configFullIndex(job.scope);         break;
       case 'config-file':    await this.configFileEvent(job.filePath, job.scope, job.event); break;
@@ -372,6 +380,7 @@ export class IndexerService {
 
   private async fullIndex(repoPath: string): Promise<void> {
     log.info({ repo: repoPath }, 'full index started');
+    this.startupDelta.delete(repoPath);
     await updateRepoStatus(this.db, repoPath, 'indexing');
 
     try {
@@ -497,7 +506,8 @@ export class IndexerService {
 
       const elapsed = ((Date.now() - t0) / 1000).toFixed(1);
       log.info({ repo: repoPath, fileCount, skipped, elapsed: `${elapsed}s` }, 'full index complete');
-      await updateRepoStatus(this.db, repoPath, 'ready', new Date().toISOString());
+      // As of the start of the pass: a file edited while it ran is newer.
+      await updateRepoStatus(this.db, repoPath, 'ready', new Date(t0).toISOString());
       // Post-indexing doc summarisation (plans/docs-module.md Section 8).
       // Enqueued at background priority -- the queue runs it after
       // whatever else is pending. Skip-if-unchanged inside the driver
@@ -624,6 +634,12 @@ export class IndexerService {
       );
     }
 
+    const delta = this.startupDelta.get(repoPath);
+    if (delta?.files.size === 0) {
+      this.startupDelta.delete(repoPath);
+      await updateRepoStatus(this.db, repoPath, 'ready', delta.scannedAt);
+    }
+
     log.info(
       { repo: repoPath, files: scope.size, resolved: cf.resolved, ambiguous: cf.ambiguous, importsRewired: cf.importsRewired },
       'cross-file settle pass complete',
-- 
2.43.0


From 4b5a0f947eec299176c834bc69308b2d34d1e840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:21 +0000
Subject: [PATCH 45/60] fix: a file whose indexing was cut short is not taken
 for unchanged

---
 src/indexer/index.ts | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/indexer/index.ts b/src/indexer/index.ts
index d11cbf5..04a0e29 100644
--- a/src/indexer/index.ts
+++ b/src/indexer/index.ts
@@ -827,10 +827,6 @@ export class IndexerService {
     // Parse
     const result = parser.parse(filePath, source, repoPath, repoId);
 
-    // Stamp hash on the File entity
-    const fileEntity = result.entities.find(e => e.kind === 'file' && e.file === filePath);
-    if (fileEntity) fileEntity.hash = hash;
-
     // Resolve relative imports
     const resolved = resolveRelations(result.relations, filePath, repoPath, result.entities);
     const resolvedCount = resolved.filter(r => r.resolved).length;
@@ -848,6 +844,10 @@ export class IndexerService {
         : rel));
     await upsertRelations(this.db, linkable);
 
+    // Stamp the hash on the File entity last: it vouches for all of the above.
+    const fileEntity = result.entities.find(e => e.kind === 'file' && e.file === filePath);
+    if (fileEntity) await upsertEntities(this.db, [{ ...fileEntity, hash, embedding: [] }]);
+
     log.debug(
       { file: filePath, entities: result.entities.length, relations: resolved.length, resolved: resolvedCount },
       'indexed',
-- 
2.43.0


From b7d01159f0e5b9b64b011d1a327606215bbf5b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:27 +0000
Subject: [PATCH 46/60] fix: an event for an unchanged file does not take the
 file out of the index

---
 src/indexer/index.ts | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/indexer/index.ts b/src/indexer/index.ts
index 04a0e29..f3ca084 100644
--- a/src/indexer/index.ts
+++ b/src/indexer/index.ts
@@ -415,7 +415,7 @@ export class IndexerService {
           log.info({ repo: repoPath, progress: `${total}/${supported.length}`, fileCount, skipped }, 'full index: progress');
         }
         try {
-          const indexed = await this.indexFile(filePath, repoPath, false);
+          const indexed = await this.indexFile(filePath, repoPath);
           if (indexed) fileCount++; else skipped++;
         } catch (err) {
           const msg = err instanceof Error ? err.message : String(err);
@@ -542,7 +542,7 @@ export class IndexerService {
       return;
     }
     // create or update
-    await this.indexFile(filePath, repoPath, true);
+    await this.indexFile(filePath, repoPath);
     this.scheduleSettle(repoPath, filePath);
     // Doc-summariser follow-up: if the touched file produced doc /
     // section entities, enqueue per-entity summarisation. Queue
@@ -794,7 +794,6 @@ export class IndexerService {
   private async indexFile(
     filePath:   string,
     repoPath:   string,
-    cleanFirst: boolean,
   ): Promise<boolean> {
     const parser = getParser(filePath) ?? (basenameParser.handles(filePath) ? basenameParser : null);
     if (!parser) return false;
@@ -805,13 +804,13 @@ export class IndexerService {
 
     const hash = contentHash(source);
 
-    // Skip if unchanged (handles editor save-without-change)
-    if (!cleanFirst) {
-      const existing = await getEntity(this.db, makeEntityId(repoPath, filePath, 'file', filePath));
-      if (existing?.hash === hash) {
-        log.debug({ file: filePath }, 'skipped (unchanged)');
-        return false;
-      }
+    // Skip if unchanged (handles editor save-without-change). Nothing of an
+    // unchanged file may be dropped: were the daemon to stop before the file is
+    // back and settled, no later startup would look at it again.
+    const existing = await getEntity(this.db, makeEntityId(repoPath, filePath, 'file', filePath));
+    if (existing?.hash === hash) {
+      log.debug({ file: filePath }, 'skipped (unchanged)');
+      return false;
     }
     await this.dropFile(filePath);
 
-- 
2.43.0


From eb8b64eb6848e718e3e764aa74946113a9595a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:25 +0000
Subject: [PATCH 47/60] fix: an import keeps its edge when the cross-file pass
 is cut short

---
 src/indexer/cross-file-resolver.ts | 35 +++++++++++++++---------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/src/indexer/cross-file-resolver.ts b/src/indexer/cross-file-resolver.ts
index bc73db6..01eb5b5 100644
--- a/src/indexer/cross-file-resolver.ts
+++ b/src/indexer/cross-file-resolver.ts
@@ -216,41 +216,42 @@ async function runPass1(
   );
   if (rewires.length === 0) return 0;
 
-  // Step 4 -- batched DELETE of (file -> module-stub) IMPORTS edges.
-  const tDelete = Date.now();
+  // Step 4 -- batched INSERT of new (file -> file) IMPORTS edges, before the
+  // stub edges go: a pass cut short in between can be run again.
+  // upsertRelations is idempotent (LMDB put on the same key is a no-op),
+  // matching the prior `ON CONFLICT DO NOTHING` semantics.
+  const tMerge = Date.now();
   for (let i = 0; i < rewires.length; i += BATCH_SIZE) {
     const chunk = rewires.slice(i, i + BATCH_SIZE);
-    await deleteResolvedRelations(
-      opts.db,
-      chunk.map(r => ({ from: r.fromId, kind: 'IMPORTS' as const, to: r.oldModuleId })),
-    );
+    await upsertRelations(opts.db, chunk.map(r => ({
+      kind: 'IMPORTS' as const, from: r.fromId, to: r.targetFileId, resolved: true,
+    })));
   }
   log.info(
     {
       repo: opts.repoRoot,
       batches: Math.ceil(rewires.length / BATCH_SIZE),
-      elapsedMs: Date.now() - tDelete,
+      elapsedMs: Date.now() - tMerge,
     },
-    'cross-file Pass 1: DELETE complete',
+    'cross-file Pass 1: MERGE complete',
   );
 
-  // Step 5 -- batched INSERT of new (file -> file) IMPORTS edges.
-  // upsertRelations is idempotent (LMDB put on the same key is a no-op),
-  // matching the prior `ON CONFLICT DO NOTHING` semantics.
-  const tMerge = Date.now();
+  // Step 5 -- batched DELETE of (file -> module-stub) IMPORTS edges.
+  const tDelete = Date.now();
   for (let i = 0; i < rewires.length; i += BATCH_SIZE) {
     const chunk = rewires.slice(i, i + BATCH_SIZE);
-    await upsertRelations(opts.db, chunk.map(r => ({
-      kind: 'IMPORTS' as const, from: r.fromId, to: r.targetFileId, resolved: true,
-    })));
+    await deleteResolvedRelations(
+      opts.db,
+      chunk.map(r => ({ from: r.fromId, kind: 'IMPORTS' as const, to: r.oldModuleId })),
+    );
   }
   log.info(
     {
       repo: opts.repoRoot,
       batches: Math.ceil(rewires.length / BATCH_SIZE),
-      elapsedMs: Date.now() - tMerge,
+      elapsedMs: Date.now() - tDelete,
     },
-    'cross-file Pass 1: MERGE complete',
+    'cross-file Pass 1: DELETE complete',
   );
 
   return rewires.length;
-- 
2.43.0


From c35d6d357b9bb5bdb72db208da0b6a024feb99e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:30 +0000
Subject: [PATCH 48/60] fix: a file whose removal was cut short is not taken
 for unchanged

---
 src/indexer/index.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/indexer/index.ts b/src/indexer/index.ts
index f3ca084..fbc5b35 100644
--- a/src/indexer/index.ts
+++ b/src/indexer/index.ts
@@ -785,9 +785,10 @@ export class IndexerService {
       }
     }
     await upsertRelations(this.db, pending);
+    // Entities first: while they are there, their hash says the file is indexed.
+    await deleteEntitiesForFile(this.db, filePath);
     await deleteRelationsForFile(this.db, filePath);
     await deleteUnresolvedForFile(this.db, filePath);
-    await deleteEntitiesForFile(this.db, filePath);
   }
 
   /** @returns true if the file was indexed, false if skipped (unchanged or no parser). */
-- 
2.43.0


From 1165cc9952d2caa0f84ae9f3bc7ab11df59a5e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:26 +0000
Subject: [PATCH 49/60] fix: a turn saved again under another repo leaves the
 old repo's history

The by-repo index kept its entry, so the turn was returned by both
repositories and forgetting the old one deleted it.
---
 src/db/conversations.ts | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/db/conversations.ts b/src/db/conversations.ts
index 15fdbe6..b69e6cf 100644
--- a/src/db/conversations.ts
+++ b/src/db/conversations.ts
@@ -317,6 +317,14 @@ export async function addCompactedTurns(_db: DbClient, turns: TurnRecord[]): Pro
 
 function writeTurnInTxn(s: GraphStore, row: TurnRow): void {
 	const key = encodeConversationTurnKey(row.sessionId, row.idx);
+	const buf = s.conversationTurn.get(key);
+	if (buf !== undefined) {
+		// A turn saved again under another repo leaves the old repo's index.
+		const prev = decodeTurnRow(buf as Buffer);
+		if (prev.repo !== '' && prev.repo !== row.repo) {
+			s.conversationTurnByRepo.remove(encodeConvTurnByRepoKey(prev.repo, prev.id), Buffer.alloc(0));
+		}
+	}
 	s.conversationTurn.put(key, encodeTurnRow(row));
 	if (row.repo !== '') {
 		const idxKey = encodeConvTurnByRepoKey(row.repo, row.id);
-- 
2.43.0


From 94e3e9274323d052887a84613f3da3df6f237f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:26 +0000
Subject: [PATCH 50/60] fix: a turn saved again without a vector loses its old
 one

It kept being found by the embedding of the text it replaced, under the
repo it used to belong to.
---
 src/db/conversations.ts | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/db/conversations.ts b/src/db/conversations.ts
index b69e6cf..9f039de 100644
--- a/src/db/conversations.ts
+++ b/src/db/conversations.ts
@@ -234,7 +234,9 @@ export async function saveTurn(_db: DbClient, turn: TurnRecord): Promise<void> {
 	const now = Date.now();
 	const type = coerceTurnType(turn.type);
 	const tier = coerceTier(turn.tier);
+	let replaced = false;
 	await withWriteTxn(s => {
+		replaced = s.conversationTurn.get(encodeConversationTurnKey(turn.sessionId, turn.idx)) !== undefined;
 		const row: TurnRow = {
 			id,
 			sessionId:   turn.sessionId,
@@ -265,6 +267,10 @@ export async function saveTurn(_db: DbClient, turn: TurnRecord): Promise<void> {
 			type,
 			tier,
 		});
+	} else if (replaced) {
+		// The vector of the text this turn replaces must not keep finding it.
+		const { deleteTurnVecsByIds } = await import('./lance/turn-vec.js');
+		await deleteTurnVecsByIds([id]);
 	}
 }
 
@@ -275,6 +281,7 @@ export async function addCompactedTurns(_db: DbClient, turns: TurnRecord[]): Pro
 		id: string; embedding: Float32Array;
 		repo: string; sessionId: string; type: string; tier: string;
 	}> = [];
+	const staleVecs: string[] = [];
 	await withWriteTxn(s => {
 		for (const t of turns) {
 			const id = turnIdFor(t.sessionId, t.idx);
@@ -296,7 +303,9 @@ export async function addCompactedTurns(_db: DbClient, turns: TurnRecord[]): Pro
 				format:      coerceFormat(t.format),
 				...(t.assertionRefs !== undefined ? { assertionRefs: t.assertionRefs } : {}),
 			};
+			const replaced = s.conversationTurn.get(encodeConversationTurnKey(t.sessionId, t.idx)) !== undefined;
 			writeTurnInTxn(s, row);
+			if (replaced && !(t.vector.length > 0 && t.repo !== '')) staleVecs.push(id);
 			if (t.vector.length > 0 && t.repo !== '') {
 				lanceWrites.push({
 					id,
@@ -309,6 +318,10 @@ export async function addCompactedTurns(_db: DbClient, turns: TurnRecord[]): Pro
 			}
 		}
 	});
+	if (staleVecs.length > 0) {
+		const { deleteTurnVecsByIds } = await import('./lance/turn-vec.js');
+		await deleteTurnVecsByIds(staleVecs);
+	}
 	if (lanceWrites.length > 0) {
 		const { writeTurnEmbeddings } = await import('./lance/turn-vec.js');
 		await writeTurnEmbeddings(lanceWrites);
-- 
2.43.0


From e28e4944b156b70450bf2d849db992a1c8c370e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:26 +0000
Subject: [PATCH 51/60] fix: pruning sessions also drops their vectors

seedFromPrior asks for the nearest few vectors; those of pruned sessions
took the places and the remaining sessions were not returned.
---
 src/db/conversations.ts | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/db/conversations.ts b/src/db/conversations.ts
index 9f039de..0bc7c11 100644
--- a/src/db/conversations.ts
+++ b/src/db/conversations.ts
@@ -705,6 +705,10 @@ export async function pruneConversations(
 		for (const id of expiredIds) s.conversationSession.remove(id);
 		for (const id of cappedIds)  s.conversationSession.remove(id);
 	});
+	// Left behind, the vectors of pruned sessions would use up the limit of
+	// every seedFromPrior search.
+	const { deleteSessionVecsByIds } = await import('./lance/session-vec.js');
+	await deleteSessionVecsByIds([...expiredIds, ...cappedIds]);
 	return { expired: expiredIds.length, capped: cappedIds.length };
 }
 
-- 
2.43.0


From 913e2710a4f37d8d0c28cd93db3fc6e870a5ecb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:01 +0000
Subject: [PATCH 52/60] fix: seeding from prior sessions follows their current
 status

The status stored beside a session's vector was only the one it had when
the vector was written: a session discarded later was still returned, one
taken up again was not.
---
 src/db/conversations.ts     | 18 ++++++++++++++++++
 src/db/lance/session-vec.ts |  6 ++++++
 2 files changed, 24 insertions(+)

diff --git a/src/db/conversations.ts b/src/db/conversations.ts
index 0bc7c11..c414665 100644
--- a/src/db/conversations.ts
+++ b/src/db/conversations.ts
@@ -356,10 +356,12 @@ export async function closeSession(
 ): Promise<void> {
 	const now = Date.now();
 	const expiresAt = now + 30 * 86_400_000;
+	let statusBefore: string | undefined;
 	await withWriteTxn(s => {
 		const buf = s.conversationSession.get(session.id);
 		if (buf !== undefined) {
 			const cur = decodeSessionRow(buf as Buffer);
+			statusBefore = cur.status;
 			const next: SessionRow = {
 				...cur,
 				summary:        session.summary,
@@ -395,9 +397,18 @@ export async function closeSession(
 			repo:      session.repo,
 			status:    'archived',
 		});
+	} else {
+		await syncSessionVecStatus(session.id, statusBefore, 'archived');
 	}
 }
 
+/** seedFromPrior filters on the status stored beside the vector. */
+async function syncSessionVecStatus(id: string, before: string | undefined, after: string): Promise<void> {
+	if (before === undefined || before === after) return;
+	const { updateSessionVecStatus } = await import('./lance/session-vec.js');
+	await updateSessionVecStatus(id, after);
+}
+
 export async function saveSession(
 	_db: DbClient,
 	session: {
@@ -413,10 +424,12 @@ export async function saveSession(
 	const now = Date.now();
 	const expiresAt = now + 30 * 86_400_000;
 	let writtenStatus: string = 'active';
+	let statusBefore: string | undefined;
 	await withWriteTxn(s => {
 		const buf = s.conversationSession.get(session.id);
 		if (buf !== undefined) {
 			const cur = decodeSessionRow(buf as Buffer);
+			statusBefore = cur.status;
 			const next: SessionRow = {
 				...cur,
 				summary:        session.summary,
@@ -454,6 +467,8 @@ export async function saveSession(
 			repo:      session.repo,
 			status:    writtenStatus,
 		});
+	} else {
+		await syncSessionVecStatus(session.id, statusBefore, writtenStatus);
 	}
 }
 
@@ -484,13 +499,16 @@ export async function setSessionStatus(
 	status: SessionStatus,
 ): Promise<void> {
 	const now = Date.now();
+	let statusBefore: string | undefined;
 	await withWriteTxn(s => {
 		const buf = s.conversationSession.get(id);
 		if (buf === undefined) return;
 		const cur = decodeSessionRow(buf as Buffer);
+		statusBefore = cur.status;
 		const next: SessionRow = { ...cur, status: publicToRowStatus(status), lastActivityAt: now };
 		s.conversationSession.put(id, encodeSessionRow(next));
 	});
+	await syncSessionVecStatus(id, statusBefore, publicToRowStatus(status));
 }
 
 export async function bumpSessionActivity(_db: DbClient, id: string): Promise<void> {
diff --git a/src/db/lance/session-vec.ts b/src/db/lance/session-vec.ts
index 1976316..2861463 100644
--- a/src/db/lance/session-vec.ts
+++ b/src/db/lance/session-vec.ts
@@ -79,6 +79,12 @@ export async function writeSessionEmbeddings(rows: readonly SessionVecRow[]): Pr
 		})));
 }
 
+/** Carry a session's new status over to its vector, if it has one. */
+export async function updateSessionVecStatus(id: string, status: string): Promise<void> {
+	const table = await getSessionVecTable();
+	await table.update({ where: `id = '${escapeLanceString(id)}'`, values: { status } });
+}
+
 // ---------------------------------------------------------------------------
 // Search
 // ---------------------------------------------------------------------------
-- 
2.43.0


From 664e92810ff8ffc23ccded5b006db20154c5c43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:33 +0000
Subject: [PATCH 53/60] fix: forgetting a repo drops the vectors of all its
 sessions' turns

Only vectors stored under the repo itself went; one of a turn saved under
another repo stayed and stood for whatever is saved under its id next.
---
 src/db/conversations.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/db/conversations.ts b/src/db/conversations.ts
index c414665..fe3f0ce 100644
--- a/src/db/conversations.ts
+++ b/src/db/conversations.ts
@@ -622,9 +622,11 @@ export async function deleteSessionsForRepo(_db: DbClient, repo: string): Promis
 	});
 	// Phase 3.3 cascade: drop Lance rows in bulk by repo
 	const { deleteSessionVecsForRepo } = await import('./lance/session-vec.js');
-	const { deleteTurnVecsForRepo }    = await import('./lance/turn-vec.js');
+	const { deleteTurnVecsForRepo, deleteTurnVecsBySessionId } = await import('./lance/turn-vec.js');
 	await deleteSessionVecsForRepo(repo);
 	await deleteTurnVecsForRepo(repo);
+	// A session's turns may have been saved under another repo.
+	for (const id of ids) await deleteTurnVecsBySessionId(id);
 }
 
 export async function deleteTurnsForRepo(_db: DbClient, repo: string): Promise<void> {
-- 
2.43.0


From 2030bcabfec8b4ef1d5c8bec0727653169c00d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:57 +0000
Subject: [PATCH 54/60] fix: a parameter named __proto__ counts in the
 exploration cache key

Assigning it set the prototype of the canonical copy instead, so two
questions that differ only there shared one cached answer.
---
 src/db/exploration-cache.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/db/exploration-cache.ts b/src/db/exploration-cache.ts
index ec5fa8f..39d8121 100644
--- a/src/db/exploration-cache.ts
+++ b/src/db/exploration-cache.ts
@@ -74,7 +74,8 @@ function canonicalise(v: unknown): unknown {
 	if (Array.isArray(v)) return v.map(canonicalise);
 	const obj = v as Record<string, unknown>;
 	const keys = Object.keys(obj).sort();
-	const out: Record<string, unknown> = {};
+	// No prototype: '__proto__' is a parameter name like any other here.
+	const out: Record<string, unknown> = Object.create(null) as Record<string, unknown>;
 	for (const k of keys) out[k] = canonicalise(obj[k]);
 	return out;
 }
-- 
2.43.0


From dd6a797750ce490253d461e3d9ce5376f6df3f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:29 +0000
Subject: [PATCH 55/60] fix: compaction does not overwrite the directives it
 has just found

A directive older than the hot window was also truncated, merged or
collapsed under its own id, and that row, written last, replaced it.
---
 src/db/compaction.ts | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/db/compaction.ts b/src/db/compaction.ts
index d9c75d3..4599324 100644
--- a/src/db/compaction.ts
+++ b/src/db/compaction.ts
@@ -121,7 +121,7 @@ export async function compactConversations(
     }
 
     // Step 2: Time-based tiering (skip directives and already-compacted)
-    const nonDirectives = repoTurns.filter(t => (t.type ?? 'turn') === 'turn');
+    const nonDirectives = repoTurns.filter(t => (t.type ?? 'turn') === 'turn' && !isDirective(t.user));
 
     for (const t of nonDirectives) {
       const created = new Date(t.compactedAt || '').getTime() || parseCreatedAt(t);
@@ -166,8 +166,7 @@ export async function compactConversations(
     }
 
     // Step 3: Semantic clustering (cold tier)
-    const coldTurns = repoTurns.filter(t => {
-      if ((t.type ?? 'turn') !== 'turn') return false;
+    const coldTurns = nonDirectives.filter(t => {
       const created = parseCreatedAt(t);
       return created >= coldCutoff && created < warmCutoff;
     });
@@ -187,8 +186,7 @@ export async function compactConversations(
     }
 
     // Step 4: Archive collapse (group by session)
-    const archiveTurns = repoTurns.filter(t => {
-      if ((t.type ?? 'turn') !== 'turn') return false;
+    const archiveTurns = nonDirectives.filter(t => {
       const created = parseCreatedAt(t);
       return created < coldCutoff;
     });
-- 
2.43.0


From b37a424eddfdfc12a6aee9fda8a54072ce4d4630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:29 +0000
Subject: [PATCH 56/60] fix: a session summary does not overwrite what is kept
 at index 0

The summary of a session's archived turns was always written as turn 0:
over an earlier summary, a merged entry or a directive found there.
---
 src/db/compaction.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/db/compaction.ts b/src/db/compaction.ts
index 4599324..e738270 100644
--- a/src/db/compaction.ts
+++ b/src/db/compaction.ts
@@ -214,7 +214,8 @@ export async function compactConversations(
 
       toAdd.push({
         sessionId,
-        idx: 0,
+        // One of the turns it stands for: index 0 may hold something else.
+        idx: Math.min(...sessionTurns.map(t => t.idx)),
         user: 'Session summary',
         assistant: summary,
         entities: entityUnion,
-- 
2.43.0


From 92033cd638f1dd85833a6676dbb7cbc21279408d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:29 +0000
Subject: [PATCH 57/60] fix: the directive cap applies to directives found in
 the same run

They were put on the delete list like the others, and then added.
---
 src/db/compaction.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/db/compaction.ts b/src/db/compaction.ts
index e738270..926d692 100644
--- a/src/db/compaction.ts
+++ b/src/db/compaction.ts
@@ -263,6 +263,8 @@ export async function compactConversations(
       const excess = sorted.slice(0, repoDirectives.length - maxDirectives);
       for (const t of excess) {
         toDelete.push(`${t.sessionId}:${t.idx}`);
+        const added = toAdd.indexOf(t);
+        if (added >= 0) toAdd.splice(added, 1);
         result.capped++;
       }
     }
-- 
2.43.0


From a564dae28b141c9fcf138a4e7ccdff7fbe914b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:29 +0000
Subject: [PATCH 58/60] fix: a directive is not dropped as a duplicate of an
 ordinary turn

A later turn close to it (a question about the rule, say) counted as its
newer duplicate, and the rule was gone.
---
 src/db/compaction.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/db/compaction.ts b/src/db/compaction.ts
index 926d692..512e1b8 100644
--- a/src/db/compaction.ts
+++ b/src/db/compaction.ts
@@ -285,6 +285,8 @@ export async function compactConversations(
         const bId = `${b.sessionId}:${b.idx}`;
         if (toDelete.includes(bId)) continue;
         if ((a.tier ?? 'hot') !== (b.tier ?? 'hot')) continue;
+        // Directives outlive turns that merely resemble them.
+        if ((a.type === 'directive') !== (b.type === 'directive')) continue;
 
         const sim = cosineSimilarity(a.vector, b.vector);
         if (sim > 0.92) {
-- 
2.43.0


From 0537d875653c7b9f0d1f47a8d414437490d1dafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:29 +0000
Subject: [PATCH 59/60] fix: compaction cut short does not lose the turns it
 was replacing

It deleted them first and stored the directives, merged entries and
summaries made from them afterwards.
---
 src/db/compaction.ts | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/db/compaction.ts b/src/db/compaction.ts
index 512e1b8..27b2014 100644
--- a/src/db/compaction.ts
+++ b/src/db/compaction.ts
@@ -308,19 +308,22 @@ export async function compactConversations(
     return result;
   }
 
-  // Apply mutations
-  if (uniqueDeletes.length > 0) {
+  // Apply mutations. What replaces the turns is stored before they go: a run
+  // that is cut short may leave some of them beside it, but loses nothing.
+  if (toAdd.length > 0) {
+    await addCompactedTurns(db, toAdd);
+  }
+
+  const rewritten = new Set(toAdd.map(t => `${t.sessionId}:${t.idx}`));
+  const goners = uniqueDeletes.filter(id => !rewritten.has(id));
+  if (goners.length > 0) {
     // Delete in batches to avoid huge IN clauses
     const batchSize = 100;
-    for (let i = 0; i < uniqueDeletes.length; i += batchSize) {
-      await deleteTurnsByIds(db, uniqueDeletes.slice(i, i + batchSize));
+    for (let i = 0; i < goners.length; i += batchSize) {
+      await deleteTurnsByIds(db, goners.slice(i, i + batchSize));
     }
   }
 
-  if (toAdd.length > 0) {
-    await addCompactedTurns(db, toAdd);
-  }
-
   log.info({ ...result }, 'compaction complete');
   return result;
 }
-- 
2.43.0


From e634181e0569691360d7a4150c9d7c224e02dcee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:23 +0000
Subject: [PATCH 60/60] fix: a dot inside a word does not cut a directive short

---
 src/db/directives.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/db/directives.ts b/src/db/directives.ts
index 0b974fb..986df2a 100644
--- a/src/db/directives.ts
+++ b/src/db/directives.ts
@@ -70,7 +70,8 @@ export function extractDirectiveText(
   assistantResponse: string,
 ): string {
   // Split message into sentences and keep directive-matching ones
-  const sentences = userMessage.split(/[.!?\n]+/).filter(s => s.trim().length > 5);
+  // (a dot inside a word, as in `.js` or `v1.2`, ends no sentence)
+  const sentences = userMessage.split(/[.!?]+(?=\s|$)|\n+/).filter(s => s.trim().length > 5);
   const directiveSentences = sentences.filter(s => {
     let sentenceScore = 0;
     for (const { pattern, weight } of DIRECTIVE_PATTERNS) {
-- 
2.43.0

