From 3d28b06c8091fd03ecb1ce19ebdc63f272e60a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:57 +0000
Subject: [PATCH 01/84] fix: serialise sidecar drains so overlapping flushes
 cannot overwrite a chunk

---
 .../src/recorder-session-object.ts                | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/packages/backend-recorder-sidecar-worker/src/recorder-session-object.ts b/packages/backend-recorder-sidecar-worker/src/recorder-session-object.ts
index a67c09d..9c8da08 100644
--- a/packages/backend-recorder-sidecar-worker/src/recorder-session-object.ts
+++ b/packages/backend-recorder-sidecar-worker/src/recorder-session-object.ts
@@ -76,6 +76,8 @@ export class MeticulousRecorderSession {
   private readonly storage: DurableStorage;
   private readonly env: SidecarEnv;
   private storageBackend: StorageBackend | undefined;
+  /** Tail of the drains started so far, so that the next one waits for them. */
+  private drainQueue: Promise<unknown> = Promise.resolve();
 
   constructor(ctx: DurableContext, env: SidecarEnv) {
     this.storage = ctx.storage;
@@ -136,7 +138,18 @@ export class MeticulousRecorderSession {
     await this.storage.put(entries);
   }
 
-  private async drain(): Promise<void> {
+  /**
+   * Runs one drain at a time. The object's input gate only covers storage operations: while an
+   * upload is in flight a flush request (or the alarm) can start a second drain, which would read
+   * the same batches and chunk index and write a conflicting chunk under the same key.
+   */
+  private drain(): Promise<void> {
+    const run = this.drainQueue.then(() => this.drainOnce());
+    this.drainQueue = run.catch(() => undefined);
+    return run;
+  }
+
+  private async drainOnce(): Promise<void> {
     const pending = await this.storage.list<CaptureEvent[]>({
       prefix: BATCH_KEY_PREFIX,
       limit: MAX_BATCHES_PER_FLUSH,
-- 
2.43.0


From 6a5df5cf49088a58f4da46c0677a44206cc410b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:57 +0000
Subject: [PATCH 02/84] fix: keep pending sidecar batches when a chunk upload
 fails so the next attempt retries them

---
 .../src/recorder-session-object.ts            | 12 +++++++++-
 .../src/session-store.ts                      | 22 ++++++++++---------
 2 files changed, 23 insertions(+), 11 deletions(-)

diff --git a/packages/backend-recorder-sidecar-worker/src/recorder-session-object.ts b/packages/backend-recorder-sidecar-worker/src/recorder-session-object.ts
index 9c8da08..4d91f0b 100644
--- a/packages/backend-recorder-sidecar-worker/src/recorder-session-object.ts
+++ b/packages/backend-recorder-sidecar-worker/src/recorder-session-object.ts
@@ -165,7 +165,7 @@ export class MeticulousRecorderSession {
       (await this.storage.get<SessionState>(STATE_KEY)) ??
       newSessionState(nowMs, randomHex(8));
 
-    const { state: nextState } = await flushChunk(
+    const { state: nextState, retry } = await flushChunk(
       events,
       state,
       this.getStorageBackend(),
@@ -174,6 +174,16 @@ export class MeticulousRecorderSession {
       randomHex(8),
     );
 
+    if (retry) {
+      // Neither uploaded nor given up on: dropping the batches here would leave a gap in a
+      // session that still reads as complete, so they stay for the next attempt.
+      await this.storage.put(STATE_KEY, nextState);
+      if ((await this.storage.getAlarm()) === null) {
+        await this.storage.setAlarm(Date.now() + FLUSH_DELAY_MS);
+      }
+      return;
+    }
+
     // Written before the batches are dropped, so a crash in between re-uploads a chunk rather
     // than losing one. A duplicate chunk is harmless — ingestion reads spans, and a repeated span
     // matches the same way — whereas a lost chunk is a gap in the recording.
diff --git a/packages/backend-recorder-sidecar-worker/src/session-store.ts b/packages/backend-recorder-sidecar-worker/src/session-store.ts
index 70277a2..71220aa 100644
--- a/packages/backend-recorder-sidecar-worker/src/session-store.ts
+++ b/packages/backend-recorder-sidecar-worker/src/session-store.ts
@@ -82,6 +82,8 @@ export interface FlushResult {
   state: SessionState;
   /** True when this flush rolled over to a fresh session before writing. */
   rolledOver: boolean;
+  /** True when the upload failed and the same events should be offered again by a later flush. */
+  retry?: boolean;
 }
 
 /**
@@ -177,17 +179,17 @@ export const flushChunk = async (
       `Failed to write chunk ${chunkIndex} of ${current.sessionId} (consecutive failures: ${consecutiveFailures}): ${String(error)}`,
     );
     const failed = { ...current, consecutiveFailures };
+    if (consecutiveFailures < MAX_CONSECUTIVE_FAILURES) {
+      return { state: failed, rolledOver, retry: true };
+    }
     return {
-      state:
-        consecutiveFailures >= MAX_CONSECUTIVE_FAILURES
-          ? await abandon(
-              failed,
-              storage,
-              config,
-              "consecutive_failures",
-              nowMs,
-            )
-          : failed,
+      state: await abandon(
+        failed,
+        storage,
+        config,
+        "consecutive_failures",
+        nowMs,
+      ),
       rolledOver,
     };
   }
-- 
2.43.0


From a565d686fc461c97efec8928e40253a0e1846ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:11 +0000
Subject: [PATCH 03/84] fix: make the sidecar flush endpoint drain everything
 accepted and report failed uploads

---
 .../src/recorder-session-object.ts            | 40 +++++++++++++++----
 1 file changed, 33 insertions(+), 7 deletions(-)

diff --git a/packages/backend-recorder-sidecar-worker/src/recorder-session-object.ts b/packages/backend-recorder-sidecar-worker/src/recorder-session-object.ts
index 4d91f0b..3898128 100644
--- a/packages/backend-recorder-sidecar-worker/src/recorder-session-object.ts
+++ b/packages/backend-recorder-sidecar-worker/src/recorder-session-object.ts
@@ -61,6 +61,13 @@ interface DurableStorage {
   setAlarm(scheduledTime: number): Promise<void>;
 }
 
+interface DrainResult {
+  /** Oldest batch still waiting, if any. */
+  firstPendingKey?: string;
+  /** True when the upload failed and the batches were kept for another attempt. */
+  retry?: boolean;
+}
+
 /** Structural subset of `DurableObjectState`. */
 export interface DurableContext {
   storage: DurableStorage;
@@ -92,8 +99,8 @@ export class MeticulousRecorderSession {
   async fetch(request: Request): Promise<Response> {
     const url = new URL(request.url);
     if (url.pathname === "/flush") {
-      await this.drain();
-      return new Response(null, { status: 204 });
+      const complete = await this.drainAccepted();
+      return new Response(null, { status: complete ? 204 : 500 });
     }
 
     const events = (await request.json()) as CaptureEvent[];
@@ -143,19 +150,37 @@ export class MeticulousRecorderSession {
    * upload is in flight a flush request (or the alarm) can start a second drain, which would read
    * the same batches and chunk index and write a conflicting chunk under the same key.
    */
-  private drain(): Promise<void> {
+  private drain(): Promise<DrainResult> {
     const run = this.drainQueue.then(() => this.drainOnce());
     this.drainQueue = run.catch(() => undefined);
     return run;
   }
 
-  private async drainOnce(): Promise<void> {
+  /**
+   * Drains everything that was accepted before the call, however many chunks that takes. Returns
+   * false when some of it could not be uploaded yet.
+   */
+  private async drainAccepted(): Promise<boolean> {
+    const endSeq = (await this.storage.get<number>(NEXT_SEQ_KEY)) ?? 0;
+    const endKey = `${BATCH_KEY_PREFIX}${pad(endSeq)}`;
+    while (true) {
+      const { firstPendingKey, retry } = await this.drain();
+      if (firstPendingKey === undefined || firstPendingKey >= endKey) {
+        return true;
+      }
+      if (retry) {
+        return false;
+      }
+    }
+  }
+
+  private async drainOnce(): Promise<DrainResult> {
     const pending = await this.storage.list<CaptureEvent[]>({
       prefix: BATCH_KEY_PREFIX,
       limit: MAX_BATCHES_PER_FLUSH,
     });
     if (pending.size === 0) {
-      return;
+      return {};
     }
 
     const events = [...pending.values()].flat();
@@ -181,7 +206,7 @@ export class MeticulousRecorderSession {
       if ((await this.storage.getAlarm()) === null) {
         await this.storage.setAlarm(Date.now() + FLUSH_DELAY_MS);
       }
-      return;
+      return { firstPendingKey: [...pending.keys()][0], retry: true };
     }
 
     // Written before the batches are dropped, so a crash in between re-uploads a chunk rather
@@ -194,7 +219,7 @@ export class MeticulousRecorderSession {
       // Nothing more can be uploaded under this session, and holding batches for one that will
       // never be read would grow storage without limit.
       await this.dropEverythingPending();
-      return;
+      return {};
     }
 
     // More arrived while this chunk was uploading, or the drain was capped.
@@ -210,6 +235,7 @@ export class MeticulousRecorderSession {
         wasCapped ? Date.now() : Date.now() + FLUSH_DELAY_MS,
       );
     }
+    return { firstPendingKey: [...remaining.keys()][0] };
   }
 
   private async dropEverythingPending(): Promise<void> {
-- 
2.43.0


From 7aa4e1dca8cf27f4a8da1c7fedb6272c0b54b8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:11 +0000
Subject: [PATCH 04/84] fix: time-bound sidecar credential and upload requests
 so a stalled one cannot block recording

---
 .../src/s3/cognito-credentials.ts                             | 4 ++++
 packages/backend-recorder-sidecar-worker/src/s3/storage.ts    | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/packages/backend-recorder-sidecar-worker/src/s3/cognito-credentials.ts b/packages/backend-recorder-sidecar-worker/src/s3/cognito-credentials.ts
index 24fc2a6..3b8230a 100644
--- a/packages/backend-recorder-sidecar-worker/src/s3/cognito-credentials.ts
+++ b/packages/backend-recorder-sidecar-worker/src/s3/cognito-credentials.ts
@@ -25,6 +25,9 @@ export interface CognitoConfig {
 /** Refresh this far before real expiry, so an in-flight upload cannot expire mid-signature. */
 export const CREDENTIALS_EXPIRY_MARGIN_MS = 5 * 60 * 1000;
 
+/** Bounds one call: concurrent writes share the fetch, so a stalled one would block them all. */
+const COGNITO_TIMEOUT_MS = 30_000;
+
 interface GetIdResponse {
   IdentityId?: unknown;
 }
@@ -102,6 +105,7 @@ const cognitoCall = async <T>(
         "x-amz-target": `AWSCognitoIdentityService.${target}`,
       },
       body: JSON.stringify(payload),
+      signal: AbortSignal.timeout(COGNITO_TIMEOUT_MS),
     },
   );
   if (!response.ok) {
diff --git a/packages/backend-recorder-sidecar-worker/src/s3/storage.ts b/packages/backend-recorder-sidecar-worker/src/s3/storage.ts
index 91e02e7..2d3a6a9 100644
--- a/packages/backend-recorder-sidecar-worker/src/s3/storage.ts
+++ b/packages/backend-recorder-sidecar-worker/src/s3/storage.ts
@@ -18,6 +18,9 @@ export const DEFAULT_S3_BUCKET = "user-events-v3";
 export const DEFAULT_IDENTITY_POOL_ID =
   "us-west-2:6a0e6f85-53d0-41d7-b268-dede2251cc9d";
 
+/** Bounds one upload, so a stalled connection fails the write instead of blocking every later one. */
+const UPLOAD_TIMEOUT_MS = 60_000;
+
 export interface S3StorageConfig {
   region?: string;
   bucket?: string;
@@ -58,6 +61,7 @@ export class S3StorageBackend implements StorageBackend {
       method: signed.method,
       headers: signed.headers,
       body: signed.body as BodyInit,
+      signal: AbortSignal.timeout(UPLOAD_TIMEOUT_MS),
     });
     if (!response.ok) {
       const detail = await response.text().catch(() => "");
-- 
2.43.0


From 05ed3badd7f6d88f71d55090d7bf3ada50689f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:53 +0000
Subject: [PATCH 05/84] fix: measure sidecar storage values in bytes so
 non-ASCII reports are split below the limit

---
 .../src/recorder-session-object.ts            | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/packages/backend-recorder-sidecar-worker/src/recorder-session-object.ts b/packages/backend-recorder-sidecar-worker/src/recorder-session-object.ts
index 3898128..966b388 100644
--- a/packages/backend-recorder-sidecar-worker/src/recorder-session-object.ts
+++ b/packages/backend-recorder-sidecar-worker/src/recorder-session-object.ts
@@ -279,17 +279,18 @@ export const splitToFitValueLimit = (
   events: CaptureEvent[],
 ): CaptureEvent[][] => {
   const groups: CaptureEvent[][] = [];
+  const encoder = new TextEncoder();
   let current: CaptureEvent[] = [];
-  let currentChars = 0;
+  let currentBytes = 0;
   for (const event of events) {
-    const chars = JSON.stringify(event)?.length ?? 0;
-    if (current.length > 0 && currentChars + chars > MAX_VALUE_CHARS) {
+    const bytes = encoder.encode(JSON.stringify(event) ?? "").length;
+    if (current.length > 0 && currentBytes + bytes > MAX_VALUE_BYTES) {
       groups.push(current);
       current = [];
-      currentChars = 0;
+      currentBytes = 0;
     }
     current.push(event);
-    currentChars += chars;
+    currentBytes += bytes;
   }
   if (current.length > 0) {
     groups.push(current);
@@ -298,8 +299,8 @@ export const splitToFitValueLimit = (
 };
 
 /**
- * Character budget per stored value. Half the 2 MB limit, because the measurement is UTF-16 code
- * units of the JSON while the limit counts UTF-8 bytes of the whole entry — a body of non-ASCII
- * text can be three bytes to the unit, and the key and array punctuation are on top.
+ * Byte budget per stored value, measured on the UTF-8 JSON. Half the 2 MB limit, because the limit
+ * covers the whole stored entry: its own encoding of the value, the key and array punctuation are
+ * on top.
  */
-const MAX_VALUE_CHARS = 1024 * 1024;
+const MAX_VALUE_BYTES = 1024 * 1024;
-- 
2.43.0


From 9df72400c5660fece5b8c1d11fe0727d230cf74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:08 +0000
Subject: [PATCH 06/84] fix: count busy-wait clock reads per replayed request
 so one request's spin cannot move another's frozen clock

---
 .../src/virtual-clock.ts                      | 40 +++++++++++--------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/packages/backend-recorder-workerd/src/virtual-clock.ts b/packages/backend-recorder-workerd/src/virtual-clock.ts
index 1c30074..b2a738f 100644
--- a/packages/backend-recorder-workerd/src/virtual-clock.ts
+++ b/packages/backend-recorder-workerd/src/virtual-clock.ts
@@ -1,4 +1,4 @@
-import { requestCaptureContext } from "./context";
+import { type RequestReplayContext, requestCaptureContext } from "./context";
 import { warnOnce } from "./log";
 
 /**
@@ -49,37 +49,43 @@ export const UNANCHORED_BASE_TIME_MS = OriginalDate.UTC(2026, 4, 13);
 // count, so a base and head replay break an identical loop identically.
 const BREAK_AFTER = 20_000;
 
-let lastLoopBreakBaseMs = 0;
-let sameKeyCount = 0;
-let loopBreakResetScheduled = false;
+// Counted per request: concurrent requests can share a macrotask (two first requests awaiting one
+// handshake, say), and one request's spin must not move the clock another one sees.
+let currentTurn = 0;
+let turnEndScheduled = false;
+const readsByRequest = new WeakMap<
+  RequestReplayContext,
+  { turn: number; sameKeyCount: number }
+>();
 
-const applyLoopBreak = (baseMs: number): number => {
+const applyLoopBreak = (ctx: RequestReplayContext, baseMs: number): number => {
   // Reset at the end of the current macrotask. A synchronous busy-wait blocks the loop so
   // this cannot fire, letting the counter accumulate until it breaks the spin; once the
   // turn yields, the reset runs and the next turn starts fresh.
-  if (!loopBreakResetScheduled) {
-    loopBreakResetScheduled = true;
+  if (!turnEndScheduled) {
+    turnEndScheduled = true;
     try {
       setTimeout(() => {
-        sameKeyCount = 0;
-        loopBreakResetScheduled = false;
+        currentTurn++;
+        turnEndScheduled = false;
       }, 0);
     } catch {
       // Timers throw outside a request context in workerd. Nothing to reset in that case,
       // since clock reads there fall through to the real clock anyway.
-      loopBreakResetScheduled = false;
+      turnEndScheduled = false;
     }
   }
 
-  if (baseMs === lastLoopBreakBaseMs) {
-    sameKeyCount++;
+  let reads = readsByRequest.get(ctx);
+  if (reads === undefined || reads.turn !== currentTurn) {
+    reads = { turn: currentTurn, sameKeyCount: 0 };
+    readsByRequest.set(ctx, reads);
   } else {
-    lastLoopBreakBaseMs = baseMs;
-    sameKeyCount = 0;
+    reads.sameKeyCount++;
   }
-  return sameKeyCount <= BREAK_AFTER
+  return reads.sameKeyCount <= BREAK_AFTER
     ? baseMs
-    : baseMs + (sameKeyCount - BREAK_AFTER);
+    : baseMs + (reads.sameKeyCount - BREAK_AFTER);
 };
 
 // ---------------------------------------------------------------------------
@@ -98,7 +104,7 @@ const resolveVirtualNow = (): number | null => {
   if (ctx === undefined || ctx.mode !== "replay") {
     return null;
   }
-  return applyLoopBreak(ctx.clockAnchorMs ?? UNANCHORED_BASE_TIME_MS);
+  return applyLoopBreak(ctx, ctx.clockAnchorMs ?? UNANCHORED_BASE_TIME_MS);
 };
 
 // ---------------------------------------------------------------------------
-- 
2.43.0


From 3b1488c53964126e17d13a7b5664f5e6d49cb19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:01 +0000
Subject: [PATCH 07/84] fix: do not append app container logs to an earlier
 download of them

---
 .../src/file-downloads/app-container-logs.ts                 | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/packages/downloading-helpers/src/file-downloads/app-container-logs.ts b/packages/downloading-helpers/src/file-downloads/app-container-logs.ts
index dcda5c1..0428969 100644
--- a/packages/downloading-helpers/src/file-downloads/app-container-logs.ts
+++ b/packages/downloading-helpers/src/file-downloads/app-container-logs.ts
@@ -1,4 +1,4 @@
-import { appendFile, mkdir } from "fs/promises";
+import { appendFile, mkdir, writeFile } from "fs/promises";
 import { join } from "path";
 import type { AppContainerLogsLocations } from "@alwaysmeticulous/api";
 import { initLogger } from "@alwaysmeticulous/common";
@@ -44,6 +44,9 @@ const downloadPodLogs = async ({
   // The S3 objects have both Content-Type: application/gzip and Content-Encoding: gzip set,
   // so fetch automatically decompresses the response body. We save as .log (not .log.gz).
   const outputPath = join(logsDir, `${podName}.log`);
+  // Start from an empty file: an earlier download into the same directory may
+  // already have written some or all of these chunks.
+  await writeFile(outputPath, "");
   for (const chunkKey of chunkKeys) {
     const url = buildChunkUrl(signedBaseUrl, chunkKey);
     const response = await fetch(url);
-- 
2.43.0


From aa84761c9f47eb61b6e6cb351adda77b94f1f915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:49 +0000
Subject: [PATCH 08/84] fix: withdraw the downloaded marker while a replay or
 test run directory is rewritten

---
 .../src/file-downloads/test-runs.ts                |  6 +++++-
 .../downloading-helpers/src/scripts/replays.ts     | 14 +++++++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/packages/downloading-helpers/src/file-downloads/test-runs.ts b/packages/downloading-helpers/src/file-downloads/test-runs.ts
index b85b449..dfee8e0 100644
--- a/packages/downloading-helpers/src/file-downloads/test-runs.ts
+++ b/packages/downloading-helpers/src/file-downloads/test-runs.ts
@@ -1,4 +1,4 @@
-import { mkdir, readFile, writeFile } from "fs/promises";
+import { mkdir, readFile, rm, writeFile } from "fs/promises";
 import { join } from "path";
 import type { TestRunDataLocations } from "@alwaysmeticulous/api";
 import type { MeticulousClient } from "@alwaysmeticulous/client";
@@ -128,6 +128,10 @@ export const getOrFetchTestRunData = async (
       process.exit(1);
     }
 
+    // Files already in the directory may be rewritten in place below, so until
+    // that has finished the directory must not look completely downloaded.
+    await rm(previouslyDownloadedFile, { force: true });
+
     logger.info("Downloading test run data...");
     const downloadPromises = Object.entries(testRunData)
       .filter(([fileType]) =>
diff --git a/packages/downloading-helpers/src/scripts/replays.ts b/packages/downloading-helpers/src/scripts/replays.ts
index 83f77fd..89d19a9 100644
--- a/packages/downloading-helpers/src/scripts/replays.ts
+++ b/packages/downloading-helpers/src/scripts/replays.ts
@@ -1,4 +1,4 @@
-import { readFile, writeFile, mkdir } from "fs/promises";
+import { readFile, rm, writeFile, mkdir } from "fs/promises";
 import { dirname, join } from "path";
 import type { MeticulousClient } from "@alwaysmeticulous/client";
 import { getReplay, getReplayV3DownloadUrls } from "@alwaysmeticulous/client";
@@ -248,6 +248,10 @@ export const getOrFetchReplayArchive = async (
 
     const replay = await getReplay(client, replayId);
 
+    // Files already in the directory may be rewritten in place below, so until
+    // that has finished the directory must not look completely downloaded.
+    await rm(previouslyDownloadedFile, { force: true });
+
     if (replay.version === "v3") {
       await downloadReplayV3Files(
         client,
@@ -279,6 +283,14 @@ export const getOrFetchReplayArchive = async (
     // exclusion) may have left it incomplete.
     if (!bypassCache) {
       await writeFile(previouslyDownloadedFile, downloadScope, "utf-8");
+    } else if (previouslyDownloadedScope != null && !hasBestEffort) {
+      // Everything attempted succeeded and excluded files were left alone, so
+      // what was complete before still is.
+      await writeFile(
+        previouslyDownloadedFile,
+        previouslyDownloadedScope,
+        "utf-8",
+      );
     }
     logger.debug(`Extracted replay archive in ${replayDir}`);
     return { fileName: replayDir };
-- 
2.43.0


From 519a98100eb00812d6b7c97e77a41f737dbdadf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:08 +0000
Subject: [PATCH 09/84] fix: write the downloaded marker atomically so that a
 crash cannot make a replay undownloadable

---
 .../src/file-downloads/local-data.utils.ts       | 16 +++++++++++++++-
 .../src/file-downloads/test-runs.ts              |  3 ++-
 .../downloading-helpers/src/scripts/replays.ts   |  6 +++---
 3 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/packages/downloading-helpers/src/file-downloads/local-data.utils.ts b/packages/downloading-helpers/src/file-downloads/local-data.utils.ts
index 55f65be..c52e680 100644
--- a/packages/downloading-helpers/src/file-downloads/local-data.utils.ts
+++ b/packages/downloading-helpers/src/file-downloads/local-data.utils.ts
@@ -1,4 +1,4 @@
-import { access, mkdir, readFile, writeFile } from "fs/promises";
+import { access, mkdir, readFile, rename, writeFile } from "fs/promises";
 import { dirname, join } from "path";
 import { initLogger } from "@alwaysmeticulous/common";
 import { Duration } from "luxon";
@@ -129,6 +129,20 @@ export const waitToAcquireLockOnFile = async (
   });
 };
 
+/**
+ * Writes the file so that it is only ever seen absent, with its previous
+ * contents, or with all of its new contents, even if this process dies part way
+ * through. The caller must hold the lock that guards the file.
+ */
+export const writeFileAtomically = async (
+  filePath: string,
+  contents: string,
+): Promise<void> => {
+  const partialFilePath = `${filePath}.partial`;
+  await writeFile(partialFilePath, contents, "utf-8");
+  await rename(partialFilePath, filePath);
+};
+
 export const fileExists = (filePath: string) =>
   access(filePath)
     .then(() => true)
diff --git a/packages/downloading-helpers/src/file-downloads/test-runs.ts b/packages/downloading-helpers/src/file-downloads/test-runs.ts
index dfee8e0..4765257 100644
--- a/packages/downloading-helpers/src/file-downloads/test-runs.ts
+++ b/packages/downloading-helpers/src/file-downloads/test-runs.ts
@@ -13,6 +13,7 @@ import {
   fileExists,
   sanitizeFilename,
   waitToAcquireLockOnDirectory,
+  writeFileAtomically,
 } from "./local-data.utils";
 
 /**
@@ -175,7 +176,7 @@ export const getOrFetchTestRunData = async (
       await downloadAppContainerLogs(testRunData.appContainerLogs, testRunDir);
     }
 
-    await writeFile(previouslyDownloadedFile, downloadScope, "utf-8");
+    await writeFileAtomically(previouslyDownloadedFile, downloadScope);
     logger.info("Test run data downloaded.");
 
     return { fileName: testRunDir, data: testRunData };
diff --git a/packages/downloading-helpers/src/scripts/replays.ts b/packages/downloading-helpers/src/scripts/replays.ts
index 89d19a9..e03eb20 100644
--- a/packages/downloading-helpers/src/scripts/replays.ts
+++ b/packages/downloading-helpers/src/scripts/replays.ts
@@ -15,6 +15,7 @@ import {
   fileExists,
   getOrDownloadJsonFile,
   waitToAcquireLockOnDirectory,
+  writeFileAtomically,
 } from "../file-downloads/local-data.utils";
 import { ReplayHasNoArtifactsError } from "../errors";
 
@@ -282,14 +283,13 @@ export const getOrFetchReplayArchive = async (
     // unfiltered callers even though a swallowed best-effort failure (or an
     // exclusion) may have left it incomplete.
     if (!bypassCache) {
-      await writeFile(previouslyDownloadedFile, downloadScope, "utf-8");
+      await writeFileAtomically(previouslyDownloadedFile, downloadScope);
     } else if (previouslyDownloadedScope != null && !hasBestEffort) {
       // Everything attempted succeeded and excluded files were left alone, so
       // what was complete before still is.
-      await writeFile(
+      await writeFileAtomically(
         previouslyDownloadedFile,
         previouslyDownloadedScope,
-        "utf-8",
       );
     }
     logger.debug(`Extracted replay archive in ${replayDir}`);
-- 
2.43.0


From a20ea4c0b1e9938acc760ea194e63ac28df1b6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:53 +0000
Subject: [PATCH 10/84] fix: keep the directory lock until every download into
 the directory has settled

---
 .../src/file-downloads/app-container-logs.ts  |  3 ++-
 .../src/file-downloads/local-data.utils.ts    | 16 ++++++++++++++++
 .../src/file-downloads/test-runs.ts           |  3 ++-
 .../src/scripts/replays.ts                    | 19 +++++++++++++++++--
 4 files changed, 37 insertions(+), 4 deletions(-)

diff --git a/packages/downloading-helpers/src/file-downloads/app-container-logs.ts b/packages/downloading-helpers/src/file-downloads/app-container-logs.ts
index 0428969..aa99334 100644
--- a/packages/downloading-helpers/src/file-downloads/app-container-logs.ts
+++ b/packages/downloading-helpers/src/file-downloads/app-container-logs.ts
@@ -2,6 +2,7 @@ import { appendFile, mkdir, writeFile } from "fs/promises";
 import { join } from "path";
 import type { AppContainerLogsLocations } from "@alwaysmeticulous/api";
 import { initLogger } from "@alwaysmeticulous/common";
+import { allSettledOrThrow } from "./local-data.utils";
 
 export const downloadAppContainerLogs = async (
   appContainerLogs: AppContainerLogsLocations,
@@ -17,7 +18,7 @@ export const downloadAppContainerLogs = async (
   const logsDir = join(testRunDir, "app-container-logs");
   await mkdir(logsDir, { recursive: true });
 
-  await Promise.all(
+  await allSettledOrThrow(
     appContainerLogs.pods.map(async ({ podName, chunkKeys }) => {
       await downloadPodLogs({
         podName,
diff --git a/packages/downloading-helpers/src/file-downloads/local-data.utils.ts b/packages/downloading-helpers/src/file-downloads/local-data.utils.ts
index c52e680..fbf391f 100644
--- a/packages/downloading-helpers/src/file-downloads/local-data.utils.ts
+++ b/packages/downloading-helpers/src/file-downloads/local-data.utils.ts
@@ -143,6 +143,22 @@ export const writeFileAtomically = async (
   await rename(partialFilePath, filePath);
 };
 
+/**
+ * Like `Promise.all`, but on failure only rejects once every promise has
+ * settled. Use this for downloads into a locked directory: the lock must not be
+ * released while some of them are still writing.
+ */
+export const allSettledOrThrow = async (
+  promises: Promise<unknown>[],
+): Promise<void> => {
+  const results = await Promise.allSettled(promises);
+  for (const result of results) {
+    if (result.status === "rejected") {
+      throw result.reason;
+    }
+  }
+};
+
 export const fileExists = (filePath: string) =>
   access(filePath)
     .then(() => true)
diff --git a/packages/downloading-helpers/src/file-downloads/test-runs.ts b/packages/downloading-helpers/src/file-downloads/test-runs.ts
index 4765257..5df6011 100644
--- a/packages/downloading-helpers/src/file-downloads/test-runs.ts
+++ b/packages/downloading-helpers/src/file-downloads/test-runs.ts
@@ -10,6 +10,7 @@ import {
 import { downloadAppContainerLogs } from "./app-container-logs";
 import { downloadAndExtractFile } from "./download-file";
 import {
+  allSettledOrThrow,
   fileExists,
   sanitizeFilename,
   waitToAcquireLockOnDirectory,
@@ -169,7 +170,7 @@ export const getOrFetchTestRunData = async (
       })
       .filter((promise): promise is () => Promise<void> => promise !== null);
 
-    await Promise.all(downloadPromises.map((fn) => fn()));
+    await allSettledOrThrow(downloadPromises.map((fn) => fn()));
 
     if (testRunData.appContainerLogs != null) {
       logger.info("Downloading app container logs...");
diff --git a/packages/downloading-helpers/src/scripts/replays.ts b/packages/downloading-helpers/src/scripts/replays.ts
index e03eb20..fb1be2d 100644
--- a/packages/downloading-helpers/src/scripts/replays.ts
+++ b/packages/downloading-helpers/src/scripts/replays.ts
@@ -12,6 +12,7 @@ import {
   downloadFile,
 } from "../file-downloads/download-file";
 import {
+  allSettledOrThrow,
   fileExists,
   getOrDownloadJsonFile,
   waitToAcquireLockOnDirectory,
@@ -536,15 +537,29 @@ const downloadReplayV3Files = async (
         ]
       : [];
 
+  // Once one download has failed the rest are pointless, so don't start any more.
+  let anyFailed = false;
+  const unlessFailed = (thunk: () => Promise<unknown>) => async () => {
+    if (anyFailed) {
+      return;
+    }
+    try {
+      await thunk();
+    } catch (error) {
+      anyFailed = true;
+      throw error;
+    }
+  };
+
   const limited = pLimit(MAX_DOWNLOAD_CONCURRENCY);
-  await Promise.all(
+  await allSettledOrThrow(
     [
       ...filePromises,
       ...screenshotPromises,
       ...diffsPromises,
       ...archivePromises,
       ...appContainerLogsPromises,
-    ].map((p) => limited(p)),
+    ].map((p) => limited(unlessFailed(p))),
   );
 };
 
-- 
2.43.0


From 7a8b53ef42a19f2b74fd76728f4e2e3742cb7e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:32 +0000
Subject: [PATCH 11/84] fix: fail a tar extraction when a file in it could not
 be written

---
 .../src/file-downloads/download-file.ts          | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/packages/downloading-helpers/src/file-downloads/download-file.ts b/packages/downloading-helpers/src/file-downloads/download-file.ts
index 784996b..6d02b30 100644
--- a/packages/downloading-helpers/src/file-downloads/download-file.ts
+++ b/packages/downloading-helpers/src/file-downloads/download-file.ts
@@ -342,6 +342,7 @@ const streamDownloadAndExtractTarImpl = async (
       }
 
       const entries: string[] = [];
+      let writeError: Error | null = null;
       await pipeline(
         response.data as Readable,
         decompressFactory(),
@@ -352,10 +353,25 @@ const streamDownloadAndExtractTarImpl = async (
           // saved per file.
           noMtime: true,
           onReadEntry: (entry) => entries.push(entry.path),
+          // Outside of strict mode tar reports a file it failed to write (disk
+          // full, I/O error...) as a warning and carries on. Such failures are
+          // passed as the file system's own error.
+          onwarn: (_code, _message, data) => {
+            if (
+              data instanceof Error &&
+              (data as NodeJS.ErrnoException).errno != null
+            ) {
+              writeError ??= data;
+            }
+          },
         }),
         { signal: abortController.signal },
       );
 
+      if (writeError != null) {
+        throw writeError as Error;
+      }
+
       return entries;
     } catch (error) {
       const wasAbortedBeforeCleanup = abortController.signal.aborted;
-- 
2.43.0


From 0ca4dc0857f3985d8542fd29c1952e1390244f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:44 +0000
Subject: [PATCH 12/84] fix: let a failed tar extraction's writes settle before
 cleaning up and retrying

---
 .../src/file-downloads/download-file.ts       | 138 ++++++++++++------
 1 file changed, 94 insertions(+), 44 deletions(-)

diff --git a/packages/downloading-helpers/src/file-downloads/download-file.ts b/packages/downloading-helpers/src/file-downloads/download-file.ts
index 6d02b30..31fa34c 100644
--- a/packages/downloading-helpers/src/file-downloads/download-file.ts
+++ b/packages/downloading-helpers/src/file-downloads/download-file.ts
@@ -343,30 +343,43 @@ const streamDownloadAndExtractTarImpl = async (
 
       const entries: string[] = [];
       let writeError: Error | null = null;
-      await pipeline(
-        response.data as Readable,
-        decompressFactory(),
-        tarExtract({
-          cwd: extractPath,
-          // Skip the per-entry `utimes` call. The asset server doesn't care
-          // about mtime, and on high-latency filesystems this is one full RPC
-          // saved per file.
-          noMtime: true,
-          onReadEntry: (entry) => entries.push(entry.path),
-          // Outside of strict mode tar reports a file it failed to write (disk
-          // full, I/O error...) as a warning and carries on. Such failures are
-          // passed as the file system's own error.
-          onwarn: (_code, _message, data) => {
-            if (
-              data instanceof Error &&
-              (data as NodeJS.ErrnoException).errno != null
-            ) {
-              writeError ??= data;
-            }
-          },
-        }),
-        { signal: abortController.signal },
-      );
+      const extractor = tarExtract({
+        cwd: extractPath,
+        // Skip the per-entry `utimes` call. The asset server doesn't care
+        // about mtime, and on high-latency filesystems this is one full RPC
+        // saved per file.
+        noMtime: true,
+        onReadEntry: (entry) => entries.push(entry.path),
+        // Outside of strict mode tar reports a file it failed to write (disk
+        // full, I/O error...) as a warning and carries on. Such failures are
+        // passed as the file system's own error.
+        onwarn: (_code, _message, data) => {
+          if (
+            data instanceof Error &&
+            (data as NodeJS.ErrnoException).errno != null
+          ) {
+            writeError ??= data;
+          }
+        },
+      });
+      try {
+        await pipeline(response.data as Readable, decompressFactory(), extractor, {
+          signal: abortController.signal,
+        });
+      } catch (error) {
+        // `pipeline` doesn't stop the extractor, which keeps writing the
+        // entries it has already parsed. End it and wait for those writes, as
+        // otherwise they would land in a later attempt's files.
+        await settleWithin(
+          new Promise<void>((resolve) => {
+            extractor.on("error", () => {});
+            extractor.on("end", () => resolve());
+            extractor.end();
+          }),
+          EXTRACTOR_SETTLE_TIMEOUT_MS,
+        );
+        throw error;
+      }
 
       if (writeError != null) {
         throw writeError as Error;
@@ -513,6 +526,26 @@ export const streamDownloadAndInflateTar = async (
 
 const DEFAULT_FILE_MODE = 0o644;
 
+/**
+ * How long a failed extraction may wait for the file system calls it has
+ * already issued, so that a stalled file system cannot hold up the error.
+ */
+const EXTRACTOR_SETTLE_TIMEOUT_MS = 10_000;
+const PARALLEL_WRITES_SETTLE_TIMEOUT_MS = 1_000;
+
+const settleWithin = async (
+  promise: Promise<unknown>,
+  timeoutInMs: number,
+): Promise<void> => {
+  let timeoutId: ReturnType<typeof setTimeout>;
+  await Promise.race([
+    promise,
+    new Promise<void>((resolve) => {
+      timeoutId = setTimeout(resolve, timeoutInMs);
+    }),
+  ]).finally(() => clearTimeout(timeoutId));
+};
+
 /**
  * Parallel-write tar extraction.
  *
@@ -558,7 +591,12 @@ const extractTarWithParallelWrites = async ({
     }
   };
 
+  let hasFailed = false;
+
   const throwIfAborted = (): void => {
+    if (hasFailed) {
+      throw new Error("extraction failed");
+    }
     if (!abortSignal.aborted) {
       return;
     }
@@ -641,6 +679,7 @@ const extractTarWithParallelWrites = async ({
           // an unhandled rejection before allSettled attaches a handler.
           limit(async () => {
             await ensureDir(dirname(target));
+            throwIfAborted();
             // Passing the abort signal to writeFile means that if the outer
             // totalTimeoutInMs fires while writes are draining (common on
             // stalled EFS), the in-flight fs call rejects promptly instead
@@ -654,28 +693,39 @@ const extractTarWithParallelWrites = async ({
     },
   });
 
-  await pipeline(sourceStream, decompressFactory(), parser, {
-    signal: abortSignal,
-  });
+  try {
+    await pipeline(sourceStream, decompressFactory(), parser, {
+      signal: abortSignal,
+    });
 
-  // The pipeline resolves as soon as Parser has consumed all input bytes; the
-  // file writes scheduled above may still be outstanding. Drain them before
-  // returning so the caller sees a fully-materialized directory.
-  //
-  // We race the drain against the abort signal so that a totalTimeoutInMs
-  // firing during the drain phase (e.g. stuck writes on EFS) bubbles out
-  // promptly. Without this, `abortSignal` is only wired to the `pipeline`
-  // call and has no effect on pending `writeFile`s that are queued in
-  // `p-limit`, letting the function run past its timeout.
-  await raceAgainstAbort(Promise.allSettled(pendingWrites), abortSignal).then(
-    (settled) => {
-      for (const result of settled) {
-        if (result.status === "rejected") {
-          recordError(result.reason);
+    // The pipeline resolves as soon as Parser has consumed all input bytes; the
+    // file writes scheduled above may still be outstanding. Drain them before
+    // returning so the caller sees a fully-materialized directory.
+    //
+    // We race the drain against the abort signal so that a totalTimeoutInMs
+    // firing during the drain phase (e.g. stuck writes on EFS) bubbles out
+    // promptly. Without this, `abortSignal` is only wired to the `pipeline`
+    // call and has no effect on pending `writeFile`s that are queued in
+    // `p-limit`, letting the function run past its timeout.
+    await raceAgainstAbort(Promise.allSettled(pendingWrites), abortSignal).then(
+      (settled) => {
+        for (const result of settled) {
+          if (result.status === "rejected") {
+            recordError(result.reason);
+          }
         }
-      }
-    },
-  );
+      },
+    );
+  } catch (error) {
+    // Start no further writes, and wait for those in flight as otherwise they
+    // would land in a later attempt's files.
+    hasFailed = true;
+    await settleWithin(
+      Promise.allSettled(pendingWrites),
+      PARALLEL_WRITES_SETTLE_TIMEOUT_MS,
+    );
+    throw error;
+  }
 
   if (firstError != null) {
     throw firstError as Error;
-- 
2.43.0


From a3dc4cada4a1d333967dd2c173987b94d4dd833e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:55 +0000
Subject: [PATCH 13/84] fix: never let a remembered asset etag vouch for other
 or partial contents

---
 .../src/file-downloads/download-file.ts       | 12 ++++++--
 .../src/scripts/replay-assets.ts              | 28 +++++++++++--------
 .../src/scripts/replays.ts                    |  2 +-
 3 files changed, 28 insertions(+), 14 deletions(-)

diff --git a/packages/downloading-helpers/src/file-downloads/download-file.ts b/packages/downloading-helpers/src/file-downloads/download-file.ts
index 31fa34c..4bed9b2 100644
--- a/packages/downloading-helpers/src/file-downloads/download-file.ts
+++ b/packages/downloading-helpers/src/file-downloads/download-file.ts
@@ -38,6 +38,11 @@ const formatBytes = (bytes: number): string => {
 
 const MIN_BYTES_TO_SHOW_PROGRESS_BAR = 10_000;
 
+export interface DownloadFileResult {
+  /** The etag that the downloaded contents were served with, if any. */
+  etag: string | null;
+}
+
 interface DownloadFileOptions {
   firstDataTimeoutInMs?: number;
   downloadCompleteTimeoutInMs?: number;
@@ -54,7 +59,7 @@ export const downloadFile = async (
   fileUrl: string,
   path: string,
   opts: DownloadFileOptions = {},
-): Promise<void> => {
+): Promise<DownloadFileResult> => {
   // Using the same timeout as the standard client in meticulous-sdk/packages/client/src/client.ts
   const firstDataTimeoutInMs = opts.firstDataTimeoutInMs ?? 60_000;
   const downloadCompleteTimeoutInMs =
@@ -128,6 +133,9 @@ export const downloadFile = async (
       clearTimeout(timeoutId);
     }
     progressBar?.stop();
+
+    const etag = response.headers["etag"];
+    return { etag: etag ? String(etag) : null };
   } catch (err) {
     if (timeoutId) {
       clearTimeout(timeoutId);
@@ -150,7 +158,7 @@ export const downloadFile = async (
     await new Promise((resolve) =>
       setTimeout(resolve, downloadContentRetryDelay),
     );
-    await downloadFile(fileUrl, path, {
+    return await downloadFile(fileUrl, path, {
       firstDataTimeoutInMs,
       downloadCompleteTimeoutInMs,
       maxDownloadContentRetries: maxDownloadContentRetries - 1,
diff --git a/packages/downloading-helpers/src/scripts/replay-assets.ts b/packages/downloading-helpers/src/scripts/replay-assets.ts
index 160bb6a..998f424 100644
--- a/packages/downloading-helpers/src/scripts/replay-assets.ts
+++ b/packages/downloading-helpers/src/scripts/replay-assets.ts
@@ -158,18 +158,24 @@ const fetchAndCacheFile = async (
       return filePath;
     }
 
-    await downloadFile(urlToDownloadFrom, filePath);
-    if (entry) {
-      logger.debug(`${urlToDownloadFrom} updated`);
-      entry.etag = etag;
-    } else {
-      logger.debug(`${urlToDownloadFrom} downloaded`);
-      assetMetadata.assets.push({
-        fileName: fileNameToDownloadAs,
-        etag,
-        fetchUrl: urlToDownloadFrom,
-      });
+    // Forget the etag before overwriting the file: should the download not
+    // complete then no etag must vouch for what it leaves behind.
+    const updatedEntry = entry ?? {
+      fileName: fileNameToDownloadAs,
+      etag: "",
+      fetchUrl: urlToDownloadFrom,
+    };
+    if (!entry) {
+      assetMetadata.assets.push(updatedEntry);
     }
+    updatedEntry.etag = "";
+    await saveAssetMetadata(assetMetadata);
+
+    const download = await downloadFile(urlToDownloadFrom, filePath);
+    logger.debug(`${urlToDownloadFrom} ${entry ? "updated" : "downloaded"}`);
+    // The asset may have been redeployed since the HEAD request, so prefer the
+    // etag of what was actually downloaded.
+    updatedEntry.etag = download.etag ?? etag;
     await saveAssetMetadata(assetMetadata);
     await releaseLock();
     return filePath;
diff --git a/packages/downloading-helpers/src/scripts/replays.ts b/packages/downloading-helpers/src/scripts/replays.ts
index fb1be2d..e94a5b6 100644
--- a/packages/downloading-helpers/src/scripts/replays.ts
+++ b/packages/downloading-helpers/src/scripts/replays.ts
@@ -420,7 +420,7 @@ const downloadReplayV3Files = async (
   // marker is only ever written after an unfiltered run) and skip re-download.
   // Safe even when `excludeFileTypes` is set: we're leaving existing files in
   // place, not re-using stale data.
-  const screenshotPromises: (() => Promise<string[] | void>)[] =
+  const screenshotPromises: (() => Promise<unknown>)[] =
     !includes("screenshots") || previouslyDownloadedScope === "screenshots-only"
       ? []
       : Object.values(screenshots).flatMap((data) => {
-- 
2.43.0


From 1553b0004446203f5bec1bd652cbf916f13dd03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:39 +0000
Subject: [PATCH 14/84] fix: clear the request timeout when an API request
 fails

---
 packages/client/src/client.ts | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/packages/client/src/client.ts b/packages/client/src/client.ts
index 76fd375..a78acc7 100644
--- a/packages/client/src/client.ts
+++ b/packages/client/src/client.ts
@@ -96,11 +96,16 @@ const makeSingleRequest = async <T>(
   const timeoutId = setTimeout(() => {
     controller.abort();
   }, timeout ?? DEFAULT_TIMEOUT);
-  const response = await meticulousFetch(url, {
-    ...options,
-    signal: controller.signal,
-  });
-  clearTimeout(timeoutId);
+  let response: Awaited<ReturnType<typeof meticulousFetch>>;
+  try {
+    response = await meticulousFetch(url, {
+      ...options,
+      signal: controller.signal,
+    });
+  } finally {
+    // Also when the request failed: a pending timer keeps the process alive.
+    clearTimeout(timeoutId);
+  }
 
   const responseHeaders: Record<string, string> = {};
   response.headers.forEach((value: string, key: string) => {
-- 
2.43.0


From e700d6dd915177388d96393bd5520d0234088d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:39 +0000
Subject: [PATCH 15/84] fix: send no login token once refreshing it was
 rejected

---
 packages/client/src/client.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/client/src/client.ts b/packages/client/src/client.ts
index a78acc7..347e496 100644
--- a/packages/client/src/client.ts
+++ b/packages/client/src/client.ts
@@ -362,7 +362,7 @@ export const createClientWithOAuth = async (
   const usingOAuth = !options.apiToken && getStoredOAuthTokens() != null;
 
   const token: string | null | (() => Promise<string | null>) = usingOAuth
-    ? async () => (await getAuthToken(options.apiToken)) ?? apiToken
+    ? () => getAuthToken(options.apiToken)
     : apiToken;
 
   return buildClient(token, initLogger(), options.appInfo);
-- 
2.43.0


From 99244eb1c8af54cf7d894af4f312993a3e2423bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:39 +0000
Subject: [PATCH 16/84] fix: never erase login tokens that another call or
 process refreshed

---
 packages/client/src/oauth/oauth-refresh.ts | 25 ++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/packages/client/src/oauth/oauth-refresh.ts b/packages/client/src/oauth/oauth-refresh.ts
index 77ab348..8ce5379 100644
--- a/packages/client/src/oauth/oauth-refresh.ts
+++ b/packages/client/src/oauth/oauth-refresh.ts
@@ -1,4 +1,5 @@
 import { CLI_CLIENT_ID, getTokenEndpoint } from "./oauth-constants";
+import type { StoredOAuthTokens } from "./oauth-token-store";
 import {
   clearOAuthTokens,
   getStoredOAuthTokens,
@@ -13,8 +14,7 @@ export const getValidAccessToken = async (): Promise<string | null> => {
     return null;
   }
 
-  const now = Math.floor(Date.now() / 1000);
-  if (tokens.expiresAt > now + TOKEN_EXPIRY_BUFFER_SECONDS) {
+  if (!isExpired(tokens)) {
     return tokens.accessToken;
   }
 
@@ -23,6 +23,17 @@ export const getValidAccessToken = async (): Promise<string | null> => {
     return null;
   }
 
+  // A concurrent call or process may have rotated the tokens while this refresh
+  // was failing: only the tokens that could not be refreshed are cleared.
+  const handleRefreshFailure = (): string | null => {
+    const current = getStoredOAuthTokens();
+    if (current && current.refreshToken !== tokens.refreshToken) {
+      return isExpired(current) ? null : current.accessToken;
+    }
+    clearOAuthTokens();
+    return null;
+  };
+
   try {
     const body = new URLSearchParams({
       grant_type: "refresh_token",
@@ -38,8 +49,7 @@ export const getValidAccessToken = async (): Promise<string | null> => {
     });
 
     if (!response.ok) {
-      clearOAuthTokens();
-      return null;
+      return handleRefreshFailure();
     }
 
     const data = (await response.json()) as {
@@ -60,7 +70,10 @@ export const getValidAccessToken = async (): Promise<string | null> => {
     storeOAuthTokens(updatedTokens);
     return updatedTokens.accessToken;
   } catch {
-    clearOAuthTokens();
-    return null;
+    return handleRefreshFailure();
   }
 };
+
+const isExpired = (tokens: StoredOAuthTokens): boolean =>
+  tokens.expiresAt <=
+  Math.floor(Date.now() / 1000) + TOKEN_EXPIRY_BUFFER_SECONDS;
-- 
2.43.0


From a469e843821a61dbe26f9575a32dcde7485f8f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:39 +0000
Subject: [PATCH 17/84] fix: fail a signed upload whose connection is lost
 during the response

---
 packages/client/src/utils/put-file-to-signed-url.ts | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/packages/client/src/utils/put-file-to-signed-url.ts b/packages/client/src/utils/put-file-to-signed-url.ts
index 1447ba9..97be43e 100644
--- a/packages/client/src/utils/put-file-to-signed-url.ts
+++ b/packages/client/src/utils/put-file-to-signed-url.ts
@@ -52,6 +52,10 @@ export const putFileToSignedUrl = async ({
           responseData += chunk;
         });
 
+        // A connection lost after the response headers is reported on the
+        // response only: without this the upload would never settle.
+        response.on("error", reject);
+
         response.on("end", () => {
           if (response.statusCode === 200) {
             resolve();
-- 
2.43.0


From 6400b451399784e3e0116ff0fa8a3e40210cf902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:31 +0000
Subject: [PATCH 18/84] fix: fail a buffer upload whose connection drops during
 the response

---
 packages/remote-replay-launcher/src/asset-upload-utils.ts | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/packages/remote-replay-launcher/src/asset-upload-utils.ts b/packages/remote-replay-launcher/src/asset-upload-utils.ts
index 22b1613..24481a8 100644
--- a/packages/remote-replay-launcher/src/asset-upload-utils.ts
+++ b/packages/remote-replay-launcher/src/asset-upload-utils.ts
@@ -445,6 +445,10 @@ const putBufferToSignedUrl = async (
             reject(new UploadError(response.statusCode ?? 0, responseData));
           }
         });
+
+        // Once the response has started, a dropped connection is reported here
+        // rather than on the request.
+        response.on("error", reject);
       },
     );
 
-- 
2.43.0


From 3cc370a781a0a55fe0810ded01d24c8ac28cdc68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:31 +0000
Subject: [PATCH 19/84] fix: reject instead of hanging when a tar stream failed
 before its upload started

---
 .../src/upload-utils/multipart-compressing-uploader.ts   | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/packages/remote-replay-launcher/src/upload-utils/multipart-compressing-uploader.ts b/packages/remote-replay-launcher/src/upload-utils/multipart-compressing-uploader.ts
index ac80cbb..4ee9576 100644
--- a/packages/remote-replay-launcher/src/upload-utils/multipart-compressing-uploader.ts
+++ b/packages/remote-replay-launcher/src/upload-utils/multipart-compressing-uploader.ts
@@ -1,3 +1,4 @@
+import type { Readable } from "stream";
 import { constants as zlibConstants } from "zlib";
 import type { DeploymentArchiveType } from "@alwaysmeticulous/api";
 import type {
@@ -88,6 +89,14 @@ export class MultipartCompressingUploader {
         return;
       }
 
+      // A provided stream may have failed before we could listen to it (e.g.
+      // while requesting the upload), in which case it emits nothing further.
+      const earlyError = (tarStream as Partial<Readable>).errored;
+      if (earlyError) {
+        reject(earlyError);
+        return;
+      }
+
       tarStream.on("data", (chunk: Buffer) => {
         const compressed = deflate.process(chunk);
         if (compressed.length > 0) {
-- 
2.43.0


From c6118aea11cc68f849d57efe9ce2804b964f4a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:31 +0000
Subject: [PATCH 20/84] fix: report a failed part upload to the caller instead
 of as an unhandled rejection

---
 .../src/upload-utils/multipart-buffer-manager.ts               | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/packages/remote-replay-launcher/src/upload-utils/multipart-buffer-manager.ts b/packages/remote-replay-launcher/src/upload-utils/multipart-buffer-manager.ts
index d2a1bb5..9e98952 100644
--- a/packages/remote-replay-launcher/src/upload-utils/multipart-buffer-manager.ts
+++ b/packages/remote-replay-launcher/src/upload-utils/multipart-buffer-manager.ts
@@ -81,6 +81,9 @@ export class MultipartBufferManager {
     const uploadPromise = this.uploadLimiter(() =>
       this.uploadPart(bufferToUpload, partNumber, isLastPart),
     ).then((eTag) => ({ partNumber, eTag }));
+    // Failures are reported by finalize(), which may only start waiting for
+    // this part after it has failed.
+    uploadPromise.catch(() => {});
     this.pendingUploads.push(uploadPromise);
 
     if (remainingBuffer) {
-- 
2.43.0


From eea5fac8debf6a3e4cbb5cea48a08d7c22be7a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:09 +0000
Subject: [PATCH 21/84] fix: list the paths of a prefixed asset chunk in its
 files index as they are in the archive

---
 packages/remote-replay-launcher/src/upload-asset-chunk.ts | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/packages/remote-replay-launcher/src/upload-asset-chunk.ts b/packages/remote-replay-launcher/src/upload-asset-chunk.ts
index 3722122..c050e00 100644
--- a/packages/remote-replay-launcher/src/upload-asset-chunk.ts
+++ b/packages/remote-replay-launcher/src/upload-asset-chunk.ts
@@ -218,7 +218,12 @@ export const writeCompressedTar = ({
         ...(prefix ? { prefix } : {}),
         onWriteEntry(entry) {
           if (entry.type === "File") {
-            filePaths.push(entry.path);
+            // tar applies the prefix after this hook
+            filePaths.push(
+              prefix
+                ? `${prefix.replace(/\/+$/, "")}/${entry.path.replace(/^\.\//, "")}`
+                : entry.path,
+            );
           }
         },
       },
-- 
2.43.0


From 997bdb16ed53d26678e6138a5c1006240fe8443e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:18 +0000
Subject: [PATCH 22/84] fix: pass the base commit and git diff on when
 uploading a container and triggering its run

---
 .../src/upload-container-and-trigger-test-run.ts              | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/packages/remote-replay-launcher/src/upload-container-and-trigger-test-run.ts b/packages/remote-replay-launcher/src/upload-container-and-trigger-test-run.ts
index e8311a1..6ab644e 100644
--- a/packages/remote-replay-launcher/src/upload-container-and-trigger-test-run.ts
+++ b/packages/remote-replay-launcher/src/upload-container-and-trigger-test-run.ts
@@ -9,6 +9,8 @@ export const uploadContainerAndTriggerTestRun = async ({
   apiToken,
   localImageTag,
   commitSha,
+  baseSha,
+  gitDiffOutput,
   waitForBase,
   containerPort,
   containerEnv,
@@ -22,6 +24,8 @@ export const uploadContainerAndTriggerTestRun = async ({
     apiToken,
     localImageTag,
     commitSha,
+    baseSha,
+    gitDiffOutput,
     waitForBase,
     containerPort,
     containerEnv,
-- 
2.43.0


From 7c7816a91d8ecbecf3ae6423b1e76b5286cf5d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:50 +0000
Subject: [PATCH 23/84] fix: do not crash with an uncaught error when building
 an asset chunk fails

---
 packages/remote-replay-launcher/src/upload-asset-chunk.ts | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/packages/remote-replay-launcher/src/upload-asset-chunk.ts b/packages/remote-replay-launcher/src/upload-asset-chunk.ts
index c050e00..f144384 100644
--- a/packages/remote-replay-launcher/src/upload-asset-chunk.ts
+++ b/packages/remote-replay-launcher/src/upload-asset-chunk.ts
@@ -231,8 +231,10 @@ export const writeCompressedTar = ({
     );
 
     const onError = (err: unknown) => {
-      tarStream.removeAllListeners();
-      outStream.removeAllListeners();
+      // Keep listening for errors: reads and writes that are still in flight
+      // can fail too, which would otherwise be an uncaught exception.
+      tarStream.removeAllListeners("data");
+      tarStream.removeAllListeners("end");
       outStream.destroy();
       reject(err instanceof Error ? err : new Error(String(err)));
     };
-- 
2.43.0


From 0d868b65467d16f44af8c236dbda813619564bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:17 +0000
Subject: [PATCH 24/84] fix: fail an asset chunk upload when its archive could
 not be written completely

---
 packages/remote-replay-launcher/src/upload-asset-chunk.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/remote-replay-launcher/src/upload-asset-chunk.ts b/packages/remote-replay-launcher/src/upload-asset-chunk.ts
index f144384..25e82fb 100644
--- a/packages/remote-replay-launcher/src/upload-asset-chunk.ts
+++ b/packages/remote-replay-launcher/src/upload-asset-chunk.ts
@@ -247,6 +247,8 @@ export const writeCompressedTar = ({
     });
     tarStream.on("error", onError);
     outStream.on("error", onError);
+    // Not the callback of end(), which is also called when a write failed.
+    outStream.on("finish", () => resolvePromise({ filePaths }));
     tarStream.on("end", () => {
       const finalChunk = deflate.process(
         Buffer.alloc(0),
@@ -255,7 +257,7 @@ export const writeCompressedTar = ({
       if (finalChunk.length > 0) {
         outStream.write(finalChunk);
       }
-      outStream.end(() => resolvePromise({ filePaths }));
+      outStream.end();
     });
   });
 };
-- 
2.43.0


From 57446f5053e7f5214c1196003811699927d980f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:35 +0000
Subject: [PATCH 25/84] fix: close the tunnel and stop polling when a remote
 test run fails

---
 .../src/execute-remote-test-run.ts            | 307 +++++++++---------
 1 file changed, 159 insertions(+), 148 deletions(-)

diff --git a/packages/remote-replay-launcher/src/execute-remote-test-run.ts b/packages/remote-replay-launcher/src/execute-remote-test-run.ts
index 0761498..5597e17 100644
--- a/packages/remote-replay-launcher/src/execute-remote-test-run.ts
+++ b/packages/remote-replay-launcher/src/execute-remote-test-run.ts
@@ -111,174 +111,185 @@ export const executeRemoteTestRun = async ({
     silenceTunnelWorker,
   });
 
-  logger.debug(`Creating test run`);
+  let progressUpdateInterval: NodeJS.Timeout | undefined = undefined;
+  let tunnelCheckInterval: NodeJS.Timeout | undefined = undefined;
 
-  if (!tunnel.url || !tunnel.basicAuthUser || !tunnel.basicAuthPassword) {
-    throw new Error(
-      "Either Tunnel URL, basic auth user or basic auth password were not set",
-    );
-  }
+  try {
+    logger.debug(`Creating test run`);
 
-  onTunnelCreated?.({
-    url: tunnel.url,
-    basicAuthUser: tunnel.basicAuthUser,
-    basicAuthPassword: tunnel.basicAuthPassword,
-  });
+    if (!tunnel.url || !tunnel.basicAuthUser || !tunnel.basicAuthPassword) {
+      throw new Error(
+        "Either Tunnel URL, basic auth user or basic auth password were not set",
+      );
+    }
 
-  const response = await executeSecureTunnelTestRun({
-    client,
-    headSha: commitSha,
-    tunnelUrl: tunnel.url,
-    basicAuthUser: tunnel.basicAuthUser,
-    basicAuthPassword: tunnel.basicAuthPassword,
-    environment,
-    isLockable,
-    postComment,
-    ...(companionAssetsInfo ? { companionAssetsInfo } : {}),
-    ...(pullRequestHostingProviderId ? { pullRequestHostingProviderId } : {}),
-    ...(debugContext ? { debugContext } : {}),
-  });
-  if (!response.testRun) {
-    throw new Error(`${response.message ?? "Test run was not created"}`);
-  }
+    onTunnelCreated?.({
+      url: tunnel.url,
+      basicAuthUser: tunnel.basicAuthUser,
+      basicAuthPassword: tunnel.basicAuthPassword,
+    });
 
-  const { testRun, deploymentId } = response;
-  onTestRunCreated?.(testRun);
+    const response = await executeSecureTunnelTestRun({
+      client,
+      headSha: commitSha,
+      tunnelUrl: tunnel.url,
+      basicAuthUser: tunnel.basicAuthUser,
+      basicAuthPassword: tunnel.basicAuthPassword,
+      environment,
+      isLockable,
+      postComment,
+      ...(companionAssetsInfo ? { companionAssetsInfo } : {}),
+      ...(pullRequestHostingProviderId ? { pullRequestHostingProviderId } : {}),
+      ...(debugContext ? { debugContext } : {}),
+    });
+    if (!response.testRun) {
+      throw new Error(`${response.message ?? "Test run was not created"}`);
+    }
 
-  const testRunCompleted = defer<TestRun>();
+    const { testRun, deploymentId } = response;
+    onTestRunCreated?.(testRun);
 
-  let progressUpdateInterval: NodeJS.Timeout | undefined = undefined;
-  let startedWaitingForRetryAt: number | undefined = undefined;
+    const testRunCompleted = defer<TestRun>();
 
-  const onTestRunCompleted = (completedTestRun: TestRun) => {
-    if (
-      completedTestRun.status === "ExecutionError" &&
-      (startedWaitingForRetryAt === undefined ||
-        Date.now() - startedWaitingForRetryAt < MS_TO_WAIT_FOR_RETRY)
-    ) {
-      // It may get re-triggered: let's wait to see if it does: we keep progressUpdateInterval
-      // so it'll keep polling for updates. Eventually it'll either hit the timeout or the test run
-      // will move to the Running state again and we'll wait a while more.
-      if (startedWaitingForRetryAt === undefined) {
-        startedWaitingForRetryAt = Date.now();
-        logger.info(
-          `Test run failed with execution error. Waiting for ${
-            MS_TO_WAIT_FOR_RETRY / 1_000
-          } seconds to see if it gets automatically retried...`,
-        );
+    let startedWaitingForRetryAt: number | undefined = undefined;
+
+    const onTestRunCompleted = (completedTestRun: TestRun) => {
+      if (
+        completedTestRun.status === "ExecutionError" &&
+        (startedWaitingForRetryAt === undefined ||
+          Date.now() - startedWaitingForRetryAt < MS_TO_WAIT_FOR_RETRY)
+      ) {
+        // It may get re-triggered: let's wait to see if it does: we keep progressUpdateInterval
+        // so it'll keep polling for updates. Eventually it'll either hit the timeout or the test run
+        // will move to the Running state again and we'll wait a while more.
+        if (startedWaitingForRetryAt === undefined) {
+          startedWaitingForRetryAt = Date.now();
+          logger.info(
+            `Test run failed with execution error. Waiting for ${
+              MS_TO_WAIT_FOR_RETRY / 1_000
+            } seconds to see if it gets automatically retried...`,
+          );
+        }
+        return;
       }
-      return;
-    }
 
-    switch (completedTestRun.status) {
-      case "Failure":
-        logger.info(
-          `Test run completed with differences. See the test run page to view the differences.`,
-        );
-        break;
-      case "Success":
-        logger.info(`Test run completed with 0 differences.`);
-        break;
-      case "Aborted":
-        logger.info(
-          `Test run aborted because a newer commit was pushed. A new test run will start shortly.`,
-        );
-        break;
-      case "Skipped":
-        logger.info(
-          `Test run skipped because no base test run was found. No sessions were executed.`,
-        );
-        break;
-      case "ExecutionError":
-        logger.info(`Test run failed with execution error.`);
-        break;
-      case "Partial":
-        logger.info(
-          `Test run partially completed. Some test cases may not have been executed.`,
-        );
-        break;
-      case "PreProcessing":
-      case "Scheduled":
-      case "Running":
-      case "PostProcessing":
-        logger.warn(`Test run is still executing. This should never happen.`);
-        break;
-      default:
-        assertNever(completedTestRun.status);
-    }
+      switch (completedTestRun.status) {
+        case "Failure":
+          logger.info(
+            `Test run completed with differences. See the test run page to view the differences.`,
+          );
+          break;
+        case "Success":
+          logger.info(`Test run completed with 0 differences.`);
+          break;
+        case "Aborted":
+          logger.info(
+            `Test run aborted because a newer commit was pushed. A new test run will start shortly.`,
+          );
+          break;
+        case "Skipped":
+          logger.info(
+            `Test run skipped because no base test run was found. No sessions were executed.`,
+          );
+          break;
+        case "ExecutionError":
+          logger.info(`Test run failed with execution error.`);
+          break;
+        case "Partial":
+          logger.info(
+            `Test run partially completed. Some test cases may not have been executed.`,
+          );
+          break;
+        case "PreProcessing":
+        case "Scheduled":
+        case "Running":
+        case "PostProcessing":
+          logger.warn(`Test run is still executing. This should never happen.`);
+          break;
+        default:
+          assertNever(completedTestRun.status);
+      }
 
-    if (progressUpdateInterval) {
-      clearInterval(progressUpdateInterval);
-    }
+      if (progressUpdateInterval) {
+        clearInterval(progressUpdateInterval);
+      }
 
-    testRunCompleted.resolve(completedTestRun);
-  };
+      testRunCompleted.resolve(completedTestRun);
+    };
 
-  // Poll every few seconds for progress updates and exit when the test run is completed
-  const resourceTracker = new ResourceTracker(logger, testRun);
-  progressUpdateInterval = setInterval(() => {
-    void (async () => {
-      const updatedTestRun = await getTestRun({
-        client,
-        testRunId: testRun.id,
-      });
-      onProgressUpdate?.(updatedTestRun);
+    // Poll every few seconds for progress updates and exit when the test run is completed
+    const resourceTracker = new ResourceTracker(logger, testRun);
+    progressUpdateInterval = setInterval(() => {
+      void (async () => {
+        const updatedTestRun = await getTestRun({
+          client,
+          testRunId: testRun.id,
+        });
+        onProgressUpdate?.(updatedTestRun);
 
-      if (!IN_PROGRESS_TEST_RUN_STATUS.includes(updatedTestRun.status)) {
-        onTestRunCompleted(updatedTestRun);
+        if (!IN_PROGRESS_TEST_RUN_STATUS.includes(updatedTestRun.status)) {
+          onTestRunCompleted(updatedTestRun);
 
-        return;
-      } else if (startedWaitingForRetryAt !== undefined) {
-        logger.info(
-          `Retrying test run... (status is now ${updatedTestRun.status})`,
+          return;
+        } else if (startedWaitingForRetryAt !== undefined) {
+          logger.info(
+            `Retrying test run... (status is now ${updatedTestRun.status})`,
+          );
+          startedWaitingForRetryAt = undefined;
+        }
+        await resourceTracker.checkUsage();
+      })().catch((error: unknown) => {
+        testRunCompleted.reject(
+          error instanceof Error ? error : new Error(String(error)),
         );
-        startedWaitingForRetryAt = undefined;
-      }
-      await resourceTracker.checkUsage();
-    })().catch((error: unknown) => {
-      testRunCompleted.reject(
-        error instanceof Error ? error : new Error(String(error)),
-      );
-    });
-  }, PROGRESS_UPDATE_INTERVAL_MS);
+      });
+    }, PROGRESS_UPDATE_INTERVAL_MS);
 
-  const completedTestRun = await testRunCompleted.promise;
+    const completedTestRun = await testRunCompleted.promise;
 
-  const tunnelUnlocked = defer<void>();
-  let tunnelCheckInterval: NodeJS.Timeout | undefined = undefined;
-  const checkUnlocked = async () => {
-    const isLocked = await getIsLocked({ client, deploymentId });
-    if (isLocked) {
-      onTunnelStillLocked?.();
-      await resourceTracker.checkUsage();
-      return false;
+    const tunnelUnlocked = defer<void>();
+    const checkUnlocked = async () => {
+      const isLocked = await getIsLocked({ client, deploymentId });
+      if (isLocked) {
+        onTunnelStillLocked?.();
+        await resourceTracker.checkUsage();
+        return false;
+      }
+      tunnelUnlocked.resolve();
+      return true;
+    };
+    const alreadyUnlocked = await checkUnlocked();
+    if (!alreadyUnlocked) {
+      tunnelCheckInterval = setInterval(() => {
+        checkUnlocked().catch((error: unknown) => {
+          tunnelUnlocked.reject(
+            error instanceof Error ? error : new Error(String(error)),
+          );
+        });
+      }, POLL_LOCK_INTERVAL_MS);
+      await tunnelUnlocked.promise;
+    }
+    if (tunnelCheckInterval) {
+      clearInterval(tunnelCheckInterval);
     }
-    tunnelUnlocked.resolve();
-    return true;
-  };
-  const alreadyUnlocked = await checkUnlocked();
-  if (!alreadyUnlocked) {
-    tunnelCheckInterval = setInterval(() => {
-      checkUnlocked().catch((error: unknown) => {
-        tunnelUnlocked.reject(
-          error instanceof Error ? error : new Error(String(error)),
-        );
-      });
-    }, POLL_LOCK_INTERVAL_MS);
-    await tunnelUnlocked.promise;
-  }
-  if (tunnelCheckInterval) {
-    clearInterval(tunnelCheckInterval);
-  }
 
-  if (keepTunnelOpenPromise) {
-    await keepTunnelOpenPromise;
-  }
-  tunnel.close();
+    if (keepTunnelOpenPromise) {
+      await keepTunnelOpenPromise;
+    }
 
-  return {
-    testRun: completedTestRun,
-  };
+    return {
+      testRun: completedTestRun,
+    };
+  } finally {
+    // Also on failure: neither keep polling nor leave the app exposed.
+    if (progressUpdateInterval) {
+      clearInterval(progressUpdateInterval);
+    }
+    if (tunnelCheckInterval) {
+      clearInterval(tunnelCheckInterval);
+    }
+    tunnel.close();
+  }
 };
 
 const assertNever = (value: never): never => {
-- 
2.43.0


From 141c7da6b35a8da7f2235832a50f3d40e651d5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:41 +0000
Subject: [PATCH 26/84] fix: undo the network interception when asked to stop
 before its script has loaded

---
 .../src/install-meticulous-intercepts.ts      | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/packages/recorder-loader/src/install-meticulous-intercepts.ts b/packages/recorder-loader/src/install-meticulous-intercepts.ts
index 080710b..bdf65f4 100644
--- a/packages/recorder-loader/src/install-meticulous-intercepts.ts
+++ b/packages/recorder-loader/src/install-meticulous-intercepts.ts
@@ -105,6 +105,11 @@ export const tryInstallMeticulousIntercepts = async (
         window.clearTimeout(timeout);
       }
       resolve(interceptor);
+      if (requestedToStopIntercepting) {
+        // We were asked to stop before the script finished loading (i.e. after
+        // the load timed out), so there was nothing to dispose of until now.
+        stopIntercepting().catch((error) => console.error(error));
+      }
     };
     script.onerror = () => {
       if (timeout) {
@@ -119,14 +124,8 @@ export const tryInstallMeticulousIntercepts = async (
   });
 
   // Try to load the early network recorder and silence any initialisation error.
-  return promise
-    .catch((error) => {
-      console.error(error);
-      return interceptor;
-    })
-    .finally(() => {
-      if (requestedToStopIntercepting) {
-        void stopIntercepting();
-      }
-    });
+  return promise.catch((error) => {
+    console.error(error);
+    return interceptor;
+  });
 };
-- 
2.43.0


From ba61ab104c82706d35accb37f8e12346d18c2f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:41 +0000
Subject: [PATCH 27/84] fix: let tryInstallMeticulousIntercepts be called
 without options, as documented

---
 packages/recorder-loader/src/install-meticulous-intercepts.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/recorder-loader/src/install-meticulous-intercepts.ts b/packages/recorder-loader/src/install-meticulous-intercepts.ts
index bdf65f4..ea2c0c1 100644
--- a/packages/recorder-loader/src/install-meticulous-intercepts.ts
+++ b/packages/recorder-loader/src/install-meticulous-intercepts.ts
@@ -66,7 +66,7 @@ const DEFAULT_MAX_MS_TO_BLOCK_FOR = 2000;
  * ```
  */
 export const tryInstallMeticulousIntercepts = async (
-  options: InterceptorOptions,
+  options: InterceptorOptions = {},
 ): Promise<Interceptor> => {
   let requestedToStopIntercepting = false;
   let disposedEarlyNetworkRecorder = false;
-- 
2.43.0


From ec815db298c970d592584434490bab54c365b225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:42 +0000
Subject: [PATCH 28/84] fix: keep waiting for the test run of a custom check
 through transient request failures

---
 packages/custom-checks/src/wait-for-test-run.ts | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/packages/custom-checks/src/wait-for-test-run.ts b/packages/custom-checks/src/wait-for-test-run.ts
index 6c2f12f..f5b61eb 100644
--- a/packages/custom-checks/src/wait-for-test-run.ts
+++ b/packages/custom-checks/src/wait-for-test-run.ts
@@ -11,7 +11,7 @@ import {
   markTestRunExpectsCustomChecks,
   type MeticulousClient,
 } from "@alwaysmeticulous/client";
-import { initLogger } from "@alwaysmeticulous/common";
+import { defaultShouldRetry, initLogger } from "@alwaysmeticulous/common";
 
 type SdkLogger = ReturnType<typeof initLogger>;
 
@@ -245,7 +245,18 @@ export const pollUntilTestRunComplete = async ({
   let lastLoggedElapsedMs = 0;
 
   for (;;) {
-    const testRun = await getTestRun({ client, testRunId });
+    let testRun: TestRun;
+    try {
+      testRun = await getTestRun({ client, testRunId });
+    } catch (error) {
+      // A transient error must not end a wait that may have been going on for a
+      // long time already: retry until the timeout, like the later phases do.
+      if (!defaultShouldRetry(error) || clock.now() - startTime > timeoutMs) {
+        throw error;
+      }
+      await clock.sleep(pollIntervalMs);
+      continue;
+    }
     // Done once the run leaves the in-progress states — matching how the rest of
     // the SDK determines completion. This also returns for `Partial` (lazy
     // session pools), which is terminal enough and would otherwise hang here
-- 
2.43.0


From 03a56a2513839038dede05d7edbebe48fc3f1594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:15 +0000
Subject: [PATCH 29/84] fix: notice a recording process that dies while
 starting, and never orphan it

A sidecar whose spawn failed crashed the CLI and the dev command with it, one
that died while its first health answer was on its way was never restarted nor
reported, and one whose start-up was interrupted was left running.
---
 .../commands/record/backend-sidecar.utils.ts  | 44 +++++++++++++------
 1 file changed, 31 insertions(+), 13 deletions(-)

diff --git a/packages/cli/src/commands/record/backend-sidecar.utils.ts b/packages/cli/src/commands/record/backend-sidecar.utils.ts
index 1dfc892..f88f3c8 100644
--- a/packages/cli/src/commands/record/backend-sidecar.utils.ts
+++ b/packages/cli/src/commands/record/backend-sidecar.utils.ts
@@ -1,5 +1,6 @@
 import { type ChildProcess, spawn } from "child_process";
 import * as net from "net";
+import { constants } from "os";
 import * as readline from "readline";
 import { initLogger } from "@alwaysmeticulous/common";
 import chalk from "chalk";
@@ -135,6 +136,9 @@ const spawnSidecarProcess = (options: StartSidecarOptions): SpawnedSidecar => {
   });
 
   const stderrTail: string[] = [];
+  // A failed spawn emits "error" instead of "exit". Unhandled, it would crash
+  // the CLI (and the wrapped dev command with it); awaitHealthy reports it.
+  child.on("error", (error) => stderrTail.push(String(error)));
   const prefix = chalk.dim("[meticulous sidecar]");
   if (child.stdout) {
     prefixPipe(child.stdout, (line) => logger.info(`${prefix} ${line}`));
@@ -156,18 +160,12 @@ const awaitHealthy = async (
   url: string,
 ): Promise<void> => {
   const deadline = Date.now() + HEALTH_TIMEOUT_MS;
-  let exited = false;
-  let exitCode: number | null = null;
-  spawned.child.once("exit", (code) => {
-    exited = true;
-    exitCode = code;
-  });
-
-  while (Date.now() < deadline) {
-    if (exited) {
+  const { child } = spawned;
+  const throwIfExited = (): void => {
+    if (child.exitCode !== null || child.signalCode !== null) {
       throw new CliUserError(
         `The Meticulous sidecar exited during startup (exit code ${String(
-          exitCode,
+          child.exitCode,
         )}).${
           spawned.stderrTail.length > 0
             ? `\n${spawned.stderrTail.join("\n")}`
@@ -175,18 +173,27 @@ const awaitHealthy = async (
         }`,
       );
     }
+  };
+
+  while (Date.now() < deadline) {
+    throwIfExited();
+    let healthy = false;
     try {
       const response = await fetchWithTimeout(
         `${url}/v1/health`,
         { method: "GET" },
         1_000,
       );
-      if (response.ok) {
-        return;
-      }
+      healthy = response.ok;
     } catch {
       // Not up yet — keep polling.
     }
+    if (healthy) {
+      // It may have died (or another process answered) while the response was
+      // on its way. Its "exit" event is gone by then, so nobody would notice.
+      throwIfExited();
+      return;
+    }
     await sleep(HEALTH_POLL_INTERVAL_MS);
   }
   throw new CliUserError(
@@ -272,6 +279,14 @@ export const startSidecar = async (
     });
   };
 
+  // Until the caller handles them, a signal would end the CLI without running
+  // "exit" hooks and orphan the detached sidecar.
+  const exitOnSignal = (signal: NodeJS.Signals): void => {
+    current.child.kill("SIGKILL");
+    process.exit(128 + constants.signals[signal]);
+  };
+  process.once("SIGINT", exitOnSignal);
+  process.once("SIGTERM", exitOnSignal);
   try {
     await awaitHealthy(current, url);
   } catch (error) {
@@ -279,6 +294,9 @@ export const startSidecar = async (
     // the failed CLI run and hold the port. (No-op if it already exited.)
     current.child.kill("SIGKILL");
     throw error;
+  } finally {
+    process.off("SIGINT", exitOnSignal);
+    process.off("SIGTERM", exitOnSignal);
   }
   // Supervision starts only once the sidecar is healthy: an exit during
   // startup is a startup failure (reported above), not a crash to restart.
-- 
2.43.0


From 38f034325050f943cfa73f88b0810099f926f0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:56 +0000
Subject: [PATCH 30/84] fix: never take a half-copied replay for a complete one
 when a debug workspace is reused

---
 .../debug-workspace/src/download-debug-data.ts  | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/packages/debug-workspace/src/download-debug-data.ts b/packages/debug-workspace/src/download-debug-data.ts
index fb7a56a..65f02f1 100644
--- a/packages/debug-workspace/src/download-debug-data.ts
+++ b/packages/debug-workspace/src/download-debug-data.ts
@@ -1,4 +1,12 @@
-import { cpSync, existsSync, mkdirSync, readdirSync, writeFileSync } from "fs";
+import {
+  cpSync,
+  existsSync,
+  mkdirSync,
+  readdirSync,
+  renameSync,
+  rmSync,
+  writeFileSync,
+} from "fs";
 import { join } from "path";
 import type { MeticulousClient } from "@alwaysmeticulous/client";
 import {
@@ -125,7 +133,12 @@ const downloadReplays = async (
 
     const destDir = join(debugDataDir, "replays", subDir, replayId);
     if (!existsSync(destDir)) {
-      copyReplayDir(cachedPath, destDir);
+      // Copy to the side and rename, so that a copy that fails or is killed part
+      // way through isn't taken for a complete one when the workspace is reused.
+      const partialDir = `${destDir}.partial`;
+      rmSync(partialDir, { recursive: true, force: true });
+      copyReplayDir(cachedPath, partialDir);
+      renameSync(partialDir, destDir);
     }
   }
 };
-- 
2.43.0


From 13c12b22e53d571cefd5db4942e6d3ae70a46eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:56 +0000
Subject: [PATCH 31/84] fix: never leave truncated log text files behind in a
 downloaded replay

---
 .../src/file-downloads/local-data.utils.ts    | 11 +++++++---
 .../file-downloads/replay-log-text-files.ts   | 20 ++++++++++++++++---
 2 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/packages/downloading-helpers/src/file-downloads/local-data.utils.ts b/packages/downloading-helpers/src/file-downloads/local-data.utils.ts
index fbf391f..39cd5d3 100644
--- a/packages/downloading-helpers/src/file-downloads/local-data.utils.ts
+++ b/packages/downloading-helpers/src/file-downloads/local-data.utils.ts
@@ -1,4 +1,4 @@
-import { access, mkdir, readFile, rename, writeFile } from "fs/promises";
+import { access, mkdir, readFile, rename, rm, writeFile } from "fs/promises";
 import { dirname, join } from "path";
 import { initLogger } from "@alwaysmeticulous/common";
 import { Duration } from "luxon";
@@ -139,8 +139,13 @@ export const writeFileAtomically = async (
   contents: string,
 ): Promise<void> => {
   const partialFilePath = `${filePath}.partial`;
-  await writeFile(partialFilePath, contents, "utf-8");
-  await rename(partialFilePath, filePath);
+  try {
+    await writeFile(partialFilePath, contents, "utf-8");
+    await rename(partialFilePath, filePath);
+  } catch (error) {
+    await rm(partialFilePath, { force: true }).catch(() => {});
+    throw error;
+  }
 };
 
 /**
diff --git a/packages/downloading-helpers/src/file-downloads/replay-log-text-files.ts b/packages/downloading-helpers/src/file-downloads/replay-log-text-files.ts
index edecfc6..dff58bf 100644
--- a/packages/downloading-helpers/src/file-downloads/replay-log-text-files.ts
+++ b/packages/downloading-helpers/src/file-downloads/replay-log-text-files.ts
@@ -1,7 +1,11 @@
-import { access, readFile, writeFile } from "fs/promises";
+import { access, readFile } from "fs/promises";
 import { join } from "path";
 import type { ConsoleMessageWithStackTracePointer } from "@alwaysmeticulous/api";
 import { initLogger } from "@alwaysmeticulous/common";
+import {
+  waitToAcquireLockOnDirectory,
+  writeFileAtomically,
+} from "./local-data.utils";
 
 const LOGS_NDJSON = "logs.ndjson";
 const LOGS_CONCISE = "logs.concise.txt";
@@ -47,8 +51,18 @@ export const ensureReplayLogTextFiles = async (
       .filter((line) => line !== "")
       .map((line) => JSON.parse(line) as ConsoleMessageWithStackTracePointer);
 
-    await writeFile(concisePath, formatConciseLogs(logs));
-    await writeFile(deterministicPath, formatDeterministicLogs(logs));
+    // A later run takes the files for complete once both exist, so they must
+    // never be seen part written.
+    const releaseLock = await waitToAcquireLockOnDirectory(replayDir);
+    try {
+      await writeFileAtomically(concisePath, formatConciseLogs(logs));
+      await writeFileAtomically(
+        deterministicPath,
+        formatDeterministicLogs(logs),
+      );
+    } finally {
+      await releaseLock();
+    }
   } catch (err) {
     logger.error(
       `Error generating concise/deterministic log files in ${replayDir}`,
-- 
2.43.0


From 3bd1760cef77f5d3f5ae50e746f1629feb435e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:31 +0000
Subject: [PATCH 32/84] fix: let the process exit once the browser is installed

---
 packages/common/src/browser-installer.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/packages/common/src/browser-installer.ts b/packages/common/src/browser-installer.ts
index 943ff5f..8889535 100644
--- a/packages/common/src/browser-installer.ts
+++ b/packages/common/src/browser-installer.ts
@@ -84,10 +84,11 @@ async function installBrowserWithRetry(
   let lastError: Error | null = null;
 
   for (let attempt = 1; attempt <= maxRetries; attempt++) {
+    let timeout: NodeJS.Timeout | undefined;
     try {
       // Create timeout promise
       const timeoutPromise = new Promise<never>((_, reject) => {
-        setTimeout(
+        timeout = setTimeout(
           () =>
             reject(
               new Error(
@@ -123,6 +124,9 @@ async function installBrowserWithRetry(
         );
         await new Promise((resolve) => setTimeout(resolve, retryDelay));
       }
+    } finally {
+      // Otherwise the timer keeps the process alive for up to five minutes
+      clearTimeout(timeout);
     }
   }
 
-- 
2.43.0


From 1ce15ce7c7b2289142a9c8e1d3b965f9c0cde8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:32 +0000
Subject: [PATCH 33/84] fix: never take a partly unpacked browser for an
 installed one

---
 packages/common/src/browser-installer.ts | 109 +++++++++++++++++------
 1 file changed, 80 insertions(+), 29 deletions(-)

diff --git a/packages/common/src/browser-installer.ts b/packages/common/src/browser-installer.ts
index 8889535..501ae7d 100644
--- a/packages/common/src/browser-installer.ts
+++ b/packages/common/src/browser-installer.ts
@@ -1,7 +1,7 @@
 import * as fs from "fs";
 import * as os from "os";
 import * as path from "path";
-import type { InstallOptions, InstalledBrowser } from "@puppeteer/browsers";
+import type { InstallOptions } from "@puppeteer/browsers";
 import {
   install,
   Browser,
@@ -74,39 +74,93 @@ function validateCacheDir(cacheDir: string | undefined): string | undefined {
   return cacheDir;
 }
 
+/**
+ * Installs the browser into a directory of its own, and only moves it into the
+ * cache directory once it's complete: an install that fails, times out or is
+ * killed while unpacking must not be taken for an installed browser by the next
+ * attempt, by a later run or by another process.
+ *
+ * Returns the path to the browser executable.
+ */
+async function installBrowserOnce(options: InstallOptions): Promise<string> {
+  const { cacheDir } = options;
+  const stagingDir = await fs.promises.mkdtemp(
+    path.join(cacheDir, ".meticulous-install-"),
+  );
+  let timeout: NodeJS.Timeout | undefined;
+  try {
+    const timeoutPromise = new Promise<never>((_, reject) => {
+      timeout = setTimeout(
+        () =>
+          reject(
+            new Error(
+              `Browser installation timed out after ${INSTALL_TIMEOUT_MS / 1000} seconds`,
+            ),
+          ),
+        INSTALL_TIMEOUT_MS,
+      );
+    });
+
+    // Race between installation and timeout
+    // Explicitly type the install call to use the unpack=true overload
+    const installed = await Promise.race([
+      install({ ...options, cacheDir: stagingDir, unpack: true }),
+      timeoutPromise,
+    ]);
+
+    const toCachePath = (stagedPath: string) =>
+      path.join(cacheDir, path.relative(stagingDir, stagedPath));
+    const executablePath = toCachePath(installed.executablePath);
+    moveInstallIntoCache(
+      installed.path,
+      toCachePath(installed.path),
+      executablePath,
+    );
+    return executablePath;
+  } finally {
+    clearTimeout(timeout);
+    await fs.promises
+      .rm(stagingDir, { recursive: true, force: true })
+      .catch(() => {});
+  }
+}
+
+function moveInstallIntoCache(
+  stagedPath: string,
+  installPath: string,
+  executablePath: string,
+): void {
+  fs.mkdirSync(path.dirname(installPath), { recursive: true });
+  if (fs.existsSync(executablePath)) {
+    return; // Another process has installed it in the meantime
+  }
+  try {
+    fs.renameSync(stagedPath, installPath);
+  } catch (error) {
+    if (fs.existsSync(executablePath)) {
+      return;
+    }
+    if (!fs.existsSync(installPath)) {
+      throw error;
+    }
+    // The remains of an install that never got as far as the executable
+    fs.rmSync(installPath, { recursive: true, force: true });
+    fs.renameSync(stagedPath, installPath);
+  }
+}
+
 /**
  * Attempts to install browser with retry logic
  */
 async function installBrowserWithRetry(
   options: InstallOptions,
   maxRetries: number = MAX_INSTALL_RETRIES,
-): Promise<InstalledBrowser> {
+): Promise<string> {
   let lastError: Error | null = null;
 
   for (let attempt = 1; attempt <= maxRetries; attempt++) {
-    let timeout: NodeJS.Timeout | undefined;
     try {
-      // Create timeout promise
-      const timeoutPromise = new Promise<never>((_, reject) => {
-        timeout = setTimeout(
-          () =>
-            reject(
-              new Error(
-                `Browser installation timed out after ${INSTALL_TIMEOUT_MS / 1000} seconds`,
-              ),
-            ),
-          INSTALL_TIMEOUT_MS,
-        );
-      });
-
-      // Race between installation and timeout
-      // Explicitly type the install call to use the unpack=true overload
-      const result = await Promise.race([
-        install({ ...options, unpack: true }),
-        timeoutPromise,
-      ]);
-
-      return result;
+      return await installBrowserOnce(options);
     } catch (error) {
       lastError = error instanceof Error ? error : new Error(String(error));
 
@@ -124,9 +178,6 @@ async function installBrowserWithRetry(
         );
         await new Promise((resolve) => setTimeout(resolve, retryDelay));
       }
-    } finally {
-      // Otherwise the timer keeps the process alive for up to five minutes
-      clearTimeout(timeout);
     }
   }
 
@@ -285,9 +336,9 @@ export async function ensureBrowser(
   console.log(chalk.gray("This is a one-time setup (~200MB download)."));
 
   try {
-    const installedBrowser = await installBrowserWithRetry(installOptions);
+    const executablePath = await installBrowserWithRetry(installOptions);
     console.log(chalk.green("✓ Browser installed successfully!"));
-    return installedBrowser.executablePath;
+    return executablePath;
   } catch (error) {
     const errorMessage = error instanceof Error ? error.message : String(error);
     const errorCause = error instanceof Error ? error : undefined;
-- 
2.43.0


From 02a70bd48eb9ccf69a592ce1711d8bfd0f489610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:34 +0000
Subject: [PATCH 34/84] fix: tell the requester when the local app fails before
 it answers

---
 .../src/lib/tunnel-http2-cluster.ts           | 24 +++++++++++++++----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/packages/tunnel-client/src/lib/tunnel-http2-cluster.ts b/packages/tunnel-client/src/lib/tunnel-http2-cluster.ts
index d49db55..a91d9ad 100644
--- a/packages/tunnel-client/src/lib/tunnel-http2-cluster.ts
+++ b/packages/tunnel-client/src/lib/tunnel-http2-cluster.ts
@@ -165,13 +165,27 @@ export class TunnelHTTP2Cluster extends (EventEmitter as new () => TypedEmitter<
         },
       );
 
+      let failed = false;
+      const onRequestFailed = (err: Error) => {
+        if (failed) {
+          return;
+        }
+        failed = true;
+        this.logger.error("Request pipeline error", err);
+        // Once the response has started it's up to the response pipeline to
+        // complete it, or to tell the other side that it's been cut short.
+        if (!res.headersSent) {
+          res.writeHead(502);
+          res.end();
+        }
+      };
+
+      // The pipeline is done as soon as the request has been sent: it doesn't
+      // tell us about a failure while we wait for the response.
+      clientReq.on("error", onRequestFailed);
       pipeline(req, clientReq, (err) => {
         if (err) {
-          this.logger.error("Request pipeline error", err);
-          if (!res.headersSent) {
-            res.writeHead(502);
-          }
-          res.end();
+          onRequestFailed(err);
         }
       });
     });
-- 
2.43.0


From cedc243a69918839f9b23dfedae0cc692d9f8fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:51 +0000
Subject: [PATCH 35/84] fix: frame a forwarded request body that has no
 content-length

---
 packages/tunnel-client/src/lib/tunnel-http2-cluster.ts | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/packages/tunnel-client/src/lib/tunnel-http2-cluster.ts b/packages/tunnel-client/src/lib/tunnel-http2-cluster.ts
index a91d9ad..136429b 100644
--- a/packages/tunnel-client/src/lib/tunnel-http2-cluster.ts
+++ b/packages/tunnel-client/src/lib/tunnel-http2-cluster.ts
@@ -127,6 +127,16 @@ export class TunnelHTTP2Cluster extends (EventEmitter as new () => TypedEmitter<
         {} as Record<string, string | string[] | undefined>,
       );
 
+      // HTTP2 frames the body of a request without a content-length. For some methods
+      // (e.g. DELETE) Node wouldn't: the local server would then take the body for the
+      // next request.
+      if (
+        !req.stream.endAfterHeaders &&
+        headersToForward["content-length"] === undefined
+      ) {
+        headersToForward["transfer-encoding"] = "chunked";
+      }
+
       // Forward the request to the right target
       const { hostToRequest, portToRequest, protocolToRequest } =
         this.getRequestTarget(originalUrl);
-- 
2.43.0


From 86746e2f210e27909d45d3e71730f1ba5b28e009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:23 +0000
Subject: [PATCH 36/84] fix: keep the tunnel worker alive when a response can't
 be expressed in HTTP2

---
 .../src/lib/tunnel-http2-cluster.ts             | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/packages/tunnel-client/src/lib/tunnel-http2-cluster.ts b/packages/tunnel-client/src/lib/tunnel-http2-cluster.ts
index 136429b..97e9e9c 100644
--- a/packages/tunnel-client/src/lib/tunnel-http2-cluster.ts
+++ b/packages/tunnel-client/src/lib/tunnel-http2-cluster.ts
@@ -162,10 +162,25 @@ export class TunnelHTTP2Cluster extends (EventEmitter as new () => TypedEmitter<
             "keep-alive": _,
 
             "transfer-encoding": __,
+            "proxy-connection": _proxyConnection,
+            upgrade,
+            te,
+            "http2-settings": _http2Settings,
             ...headersToForward
           } = clientRes.headers;
 
-          res.writeHead(clientRes.statusCode as number, headersToForward);
+          try {
+            res.writeHead(clientRes.statusCode as number, headersToForward);
+          } catch (err) {
+            // HTTP2 doesn't allow this response (e.g. status 999). Don't let it take
+            // down the worker, and all of the other requests with it.
+            this.logger.error("Error forwarding response", err);
+            clientRes.destroy();
+            res.getHeaderNames().forEach((name) => res.removeHeader(name));
+            res.writeHead(502);
+            res.end();
+            return;
+          }
 
           pipeline(clientRes, res, (err) => {
             if (err) {
-- 
2.43.0


From 6905b2636c84333b02d5690ac0275e84137e18d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:44 +0000
Subject: [PATCH 37/84] fix: proxy requests to hosts with an explicit port

---
 packages/tunnel-client/src/lib/tunnel-http2-cluster.ts | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/packages/tunnel-client/src/lib/tunnel-http2-cluster.ts b/packages/tunnel-client/src/lib/tunnel-http2-cluster.ts
index 97e9e9c..b223eef 100644
--- a/packages/tunnel-client/src/lib/tunnel-http2-cluster.ts
+++ b/packages/tunnel-client/src/lib/tunnel-http2-cluster.ts
@@ -243,18 +243,19 @@ export class TunnelHTTP2Cluster extends (EventEmitter as new () => TypedEmitter<
         return defaultTarget;
       }
       const parsed = new URL(originalUrl.toString());
-      const hostToRequest = parsed.host;
-      if (this.isRequestToTunnelServer(hostToRequest)) {
+      if (this.isRequestToTunnelServer(parsed.host)) {
         // This is actually a request to the tunnel server itself. If we forward it, we will
         // end up in an infinite loop. We want to dispatch this request to the local server.
         return defaultTarget;
       }
       if (!this.opts.proxyAllUrls) {
         this.logger.warn(
-          `Refusing to proxy request to ${hostToRequest} because proxyAllUrls is not set!`,
+          `Refusing to proxy request to ${parsed.host} because proxyAllUrls is not set!`,
         );
         return defaultTarget;
       }
+      // Without the port, and without the brackets of an IPv6 address
+      const hostToRequest = parsed.hostname.replace(/^\[|\]$/g, "");
       const protocolToRequest = (parsed.protocol || "http").replace(":", "");
       const portToRequest =
         parsed.port.length > 0
-- 
2.43.0


From 3bffe4d357d1e5b764fe71c5af53e9f5f7338785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:57 +0000
Subject: [PATCH 38/84] fix: end the local request when the tunnelled one is
 cancelled

---
 packages/tunnel-client/src/lib/tunnel-http2-cluster.ts | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/packages/tunnel-client/src/lib/tunnel-http2-cluster.ts b/packages/tunnel-client/src/lib/tunnel-http2-cluster.ts
index b223eef..73ce38c 100644
--- a/packages/tunnel-client/src/lib/tunnel-http2-cluster.ts
+++ b/packages/tunnel-client/src/lib/tunnel-http2-cluster.ts
@@ -205,6 +205,13 @@ export class TunnelHTTP2Cluster extends (EventEmitter as new () => TypedEmitter<
         }
       };
 
+      // Don't keep the local server busy with a request nobody is waiting for anymore
+      req.stream.once("close", () => {
+        if (!res.writableEnded) {
+          clientReq.destroy();
+        }
+      });
+
       // The pipeline is done as soon as the request has been sent: it doesn't
       // tell us about a failure while we wait for the response.
       clientReq.on("error", onRequestFailed);
-- 
2.43.0


From 84f47c6c51d369f0757ad9c1ae840b355a566ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:37 +0000
Subject: [PATCH 39/84] fix: don't pass off a cancelled upload as a complete
 one

---
 .../tunnel-client/src/lib/tunnel-http2-cluster.ts    | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/packages/tunnel-client/src/lib/tunnel-http2-cluster.ts b/packages/tunnel-client/src/lib/tunnel-http2-cluster.ts
index 73ce38c..0ae13c5 100644
--- a/packages/tunnel-client/src/lib/tunnel-http2-cluster.ts
+++ b/packages/tunnel-client/src/lib/tunnel-http2-cluster.ts
@@ -4,7 +4,7 @@ import EventEmitter from "events";
 import { request as httpRequest } from "http";
 import { request as httpsRequest } from "https";
 import * as net from "net";
-import { createServer, Http2Server } from "node:http2";
+import { constants, createServer, Http2Server } from "node:http2";
 import { pipeline } from "stream";
 import Agent, { HttpsAgent } from "agentkeepalive";
 import CacheableLookup from "cacheable-lookup";
@@ -206,8 +206,14 @@ export class TunnelHTTP2Cluster extends (EventEmitter as new () => TypedEmitter<
       };
 
       // Don't keep the local server busy with a request nobody is waiting for anymore
-      req.stream.once("close", () => {
-        if (!res.writableEnded) {
+      // (and don't complete it: for Node the body of a request that has been answered
+      // already ends normally, even when the requester cancels it).
+      const { stream } = req;
+      stream.once("close", () => {
+        if (
+          !res.writableEnded ||
+          stream.rstCode !== constants.NGHTTP2_NO_ERROR
+        ) {
           clientReq.destroy();
         }
       });
-- 
2.43.0


From 6ad747f1cf11fce31db87e1863bd75fd321b8c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:29 +0000
Subject: [PATCH 40/84] fix: establish the requested number of tunnel
 connections

---
 packages/tunnel-client/src/lib/tunnel.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/packages/tunnel-client/src/lib/tunnel.ts b/packages/tunnel-client/src/lib/tunnel.ts
index 9ef8e95..9174082 100644
--- a/packages/tunnel-client/src/lib/tunnel.ts
+++ b/packages/tunnel-client/src/lib/tunnel.ts
@@ -84,6 +84,7 @@ export class Tunnel extends (EventEmitter as new () => TypedEmitter<TunnelEvents
       proxyAllUrls,
       rewriteHostnameToAppUrl,
       enableDnsCache,
+      http2Connections,
     } = this.opts;
     const parsedHost = new URL(url);
 
@@ -117,6 +118,7 @@ export class Tunnel extends (EventEmitter as new () => TypedEmitter<TunnelEvents
       proxyAllUrls,
       rewriteHostnameToAppUrl,
       enableDnsCache,
+      http2Connections,
     };
   }
 
-- 
2.43.0


From 8661644edfa51941b4faf59175fae6197ca1ac97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:29 +0000
Subject: [PATCH 41/84] fix: report a refused tunnel also when the refusal
 isn't JSON

---
 packages/tunnel-client/src/lib/tunnel.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/packages/tunnel-client/src/lib/tunnel.ts b/packages/tunnel-client/src/lib/tunnel.ts
index 9174082..fa1ae34 100644
--- a/packages/tunnel-client/src/lib/tunnel.ts
+++ b/packages/tunnel-client/src/lib/tunnel.ts
@@ -159,8 +159,7 @@ export class Tunnel extends (EventEmitter as new () => TypedEmitter<TunnelEvents
         headers,
       })
         .then(async (res) => {
-          const body = await res.json();
-          this.logger.debug("got tunnel information", body);
+          // Don't ask for JSON first: a refusal may come without it (e.g. from a gateway)
           if (res.status === 401 || res.status === 403) {
             return cb(
               new Error(
@@ -170,6 +169,8 @@ export class Tunnel extends (EventEmitter as new () => TypedEmitter<TunnelEvents
               ),
             );
           }
+          const body = await res.json();
+          this.logger.debug("got tunnel information", body);
           if (res.status !== 200) {
             const err = new Error(
               (body &&
-- 
2.43.0


From 730930d6159ea45c91d4e4a4e5e749e021834140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:30 +0000
Subject: [PATCH 42/84] fix: report tunnel workers that can't be started

---
 packages/tunnel-client/src/lib/tunnel.ts | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/packages/tunnel-client/src/lib/tunnel.ts b/packages/tunnel-client/src/lib/tunnel.ts
index fa1ae34..c8d654b 100644
--- a/packages/tunnel-client/src/lib/tunnel.ts
+++ b/packages/tunnel-client/src/lib/tunnel.ts
@@ -293,16 +293,27 @@ export class Tunnel extends (EventEmitter as new () => TypedEmitter<TunnelEvents
 
       const worker = cluster.fork();
 
+      let failed = false;
+      const onWorkerFailed = (message: string) => {
+        if (failed || this.closed) {
+          return;
+        }
+        failed = true;
+        this.logger.error(message);
+        this.emit("error", new Error(message));
+      };
+
       worker.on("exit", (code) => {
-        if (code !== 0 && !this.closed) {
-          this.logger.error(`Worker ${i} stopped with exit code ${code}`);
-          this.emit(
-            "error",
-            new Error(`Worker ${i} stopped with exit code ${code}`),
-          );
+        if (code !== 0) {
+          onWorkerFailed(`Worker ${i} stopped with exit code ${code}`);
         }
       });
 
+      // E.g. the worker couldn't be started, or stopped before we could reach it
+      worker.on("error", (err) => {
+        onWorkerFailed(`Worker ${i} failed: ${err.message}`);
+      });
+
       worker.send({
         type: "init",
         options: workerOptions,
-- 
2.43.0


From b876401c683c14a3f8d3817ec084c06c49f848cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:42 +0000
Subject: [PATCH 43/84] fix: reject when the tunnel can't be established

---
 packages/tunnel-client/src/lib/tunnel.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/packages/tunnel-client/src/lib/tunnel.ts b/packages/tunnel-client/src/lib/tunnel.ts
index c8d654b..1b1ff5d 100644
--- a/packages/tunnel-client/src/lib/tunnel.ts
+++ b/packages/tunnel-client/src/lib/tunnel.ts
@@ -341,7 +341,10 @@ export class Tunnel extends (EventEmitter as new () => TypedEmitter<TunnelEvents
           cb();
         })
         .catch((err) => {
-          this.emit("error", err);
+          // Nobody can listen to "error" yet
+          this.closed = true;
+          this._terminateWorkers();
+          cb(err);
         });
     });
   }
-- 
2.43.0


From 3c16a2a82a2ed1b52d7a408b94eefc8e7b20f073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:43 +0000
Subject: [PATCH 44/84] fix: don't hang or give up on a proxy that answers in
 pieces or not at all

---
 packages/tunnel-client/src/utils/open-socket.ts | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/packages/tunnel-client/src/utils/open-socket.ts b/packages/tunnel-client/src/utils/open-socket.ts
index b5e7688..9f35265 100644
--- a/packages/tunnel-client/src/utils/open-socket.ts
+++ b/packages/tunnel-client/src/utils/open-socket.ts
@@ -43,8 +43,13 @@ const createProxyConnection = async (
 
       proxySocket.write(connectRequest);
 
+      let response = "";
       const onData = (data: Buffer) => {
-        const response = data.toString();
+        // The response may arrive in pieces
+        response += data.toString();
+        if (!response.includes("\r\n\r\n")) {
+          return;
+        }
         if (
           response.includes("200 Connection established") ||
           response.includes("200 OK")
@@ -63,6 +68,9 @@ const createProxyConnection = async (
     });
 
     proxySocket.once("error", reject);
+    proxySocket.once("close", () => {
+      reject(new Error("Proxy closed the connection"));
+    });
   });
 
   if (useTls) {
-- 
2.43.0


From 6122c0379a579d9896e6d830adae970f91498553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:02 +0000
Subject: [PATCH 45/84] fix: accept a proxy's success whatever its reason
 phrase

---
 packages/tunnel-client/src/utils/open-socket.ts | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/packages/tunnel-client/src/utils/open-socket.ts b/packages/tunnel-client/src/utils/open-socket.ts
index 9f35265..aeeffc9 100644
--- a/packages/tunnel-client/src/utils/open-socket.ts
+++ b/packages/tunnel-client/src/utils/open-socket.ts
@@ -50,10 +50,8 @@ const createProxyConnection = async (
         if (!response.includes("\r\n\r\n")) {
           return;
         }
-        if (
-          response.includes("200 Connection established") ||
-          response.includes("200 OK")
-        ) {
+        // The reason phrase differs between proxies
+        if (/^HTTP\/1\.[01] 200\b/.test(response)) {
           proxySocket.removeListener("data", onData);
           resolve();
         } else {
-- 
2.43.0


From 759fa05b0f1889de73ec1e82714ac28a675bda5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:03 +0000
Subject: [PATCH 46/84] fix: start the handshake over a plain connection
 through a proxy

---
 packages/tunnel-client/src/utils/open-socket.ts | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/packages/tunnel-client/src/utils/open-socket.ts b/packages/tunnel-client/src/utils/open-socket.ts
index aeeffc9..ec839e1 100644
--- a/packages/tunnel-client/src/utils/open-socket.ts
+++ b/packages/tunnel-client/src/utils/open-socket.ts
@@ -151,7 +151,7 @@ export const openSocket = async ({
   const connectEvent = useTls ? "secureConnect" : "connect";
 
   await new Promise<void>((resolve, reject) => {
-    socket.once(connectEvent, () => {
+    const onConnected = () => {
       // Send the tunnel passphrase to the server
       socket.write(`AUTH ${tunnelPassphrase}`);
 
@@ -177,7 +177,14 @@ export const openSocket = async ({
           resolve();
         }
       });
-    });
+    };
+
+    if (proxyUrl && !useTls) {
+      // The proxy has already connected us
+      onConnected();
+    } else {
+      socket.once(connectEvent, onConnected);
+    }
 
     socket.once("error", reject);
   });
-- 
2.43.0


From f9fd3fe476186702b6786dad4db8a2770a3ba8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:16 +0000
Subject: [PATCH 47/84] fix: don't mistake lines of a multi-line value in a
 Codex config for tables

---
 .../cli/src/commands/onboard/codex-mcp.ts     | 76 ++++++++++++++++++-
 1 file changed, 72 insertions(+), 4 deletions(-)

diff --git a/packages/cli/src/commands/onboard/codex-mcp.ts b/packages/cli/src/commands/onboard/codex-mcp.ts
index 8baee66..d51e432 100644
--- a/packages/cli/src/commands/onboard/codex-mcp.ts
+++ b/packages/cli/src/commands/onboard/codex-mcp.ts
@@ -237,6 +237,67 @@ const parseTomlAssignmentKeyPath = (line: string): string[] | null => {
 const isMeticulousMcpPath = (path: string[]): boolean =>
   path.length >= 2 && path[0] === "mcp_servers" && path[1] === "Meticulous";
 
+/**
+ * For every line of `contents`, whether it continues a value that started on an
+ * earlier line (a multi-line string or array). Such a line is part of that
+ * value, however much it looks like a `[table]` header or an assignment.
+ */
+const findContinuationLines = (contents: string): boolean[] => {
+  const continuations: boolean[] = [];
+  let openString: '"""' | "'''" | null = null;
+  let openBrackets = 0;
+  for (const line of contents.split("\n")) {
+    const isContinuation = openString !== null || openBrackets > 0;
+    continuations.push(isContinuation);
+    if (!isContinuation && parseTomlTableHeaderPath(line) !== null) {
+      continue;
+    }
+
+    let index = 0;
+    while (index < line.length) {
+      if (openString !== null) {
+        if (openString === '"""' && line[index] === "\\") {
+          index += 2;
+        } else if (line.startsWith(openString, index)) {
+          index += openString.length;
+          // Up to two quotes may directly precede the closing delimiter.
+          while (line[index] === openString[0]) {
+            index += 1;
+          }
+          openString = null;
+        } else {
+          index += 1;
+        }
+        continue;
+      }
+
+      const char = line[index];
+      if (char === "#") {
+        break;
+      }
+      if (char === '"' || char === "'") {
+        const delimiter = char === '"' ? '"""' : "'''";
+        if (line.startsWith(delimiter, index)) {
+          openString = delimiter;
+          index += delimiter.length;
+          continue;
+        }
+        // A single-line string ends on its line, at the latest.
+        index += 1;
+        while (index < line.length && line[index] !== char) {
+          index += char === '"' && line[index] === "\\" ? 2 : 1;
+        }
+      } else if (char === "[" || char === "{") {
+        openBrackets += 1;
+      } else if (char === "]" || char === "}") {
+        openBrackets = Math.max(0, openBrackets - 1);
+      }
+      index += 1;
+    }
+  }
+  return continuations;
+};
+
 /** Why onboard cannot rewrite a Codex config in place. */
 type CodexBlocker =
   | { kind: "meticulous-definition"; line: string }
@@ -255,8 +316,12 @@ type CodexBlocker =
  * tables defined that way.
  */
 const findCodexBlocker = (contents: string): CodexBlocker | null => {
+  const continuations = findContinuationLines(contents);
   let table: string[] = [];
-  for (const rawLine of contents.split(/\r?\n/u)) {
+  for (const [index, rawLine] of contents.split(/\r?\n/u).entries()) {
+    if (continuations[index]) {
+      continue;
+    }
     const headerPath = parseTomlTableHeaderPath(rawLine);
     if (headerPath) {
       table = headerPath;
@@ -287,8 +352,11 @@ export const splitCodexMeticulousSection = (
   contents: string,
 ): { remainder: string; sectionBody: string | null } => {
   const lines = contents.split(/(?<=\n)/u);
-  const headerIndex = lines.findIndex((line) => {
-    const path = parseTomlTableHeaderPath(line);
+  const continuations = findContinuationLines(contents);
+  const headerPathAt = (index: number): string[] | null =>
+    continuations[index] ? null : parseTomlTableHeaderPath(lines[index]);
+  const headerIndex = lines.findIndex((_line, index) => {
+    const path = headerPathAt(index);
     return path !== null && isMeticulousMcpPath(path);
   });
   if (headerIndex === -1) {
@@ -298,7 +366,7 @@ export const splitCodexMeticulousSection = (
   // The section body runs until the next header of any table.
   let bodyEndIndex = lines.length;
   for (let index = headerIndex + 1; index < lines.length; index += 1) {
-    if (parseTomlTableHeaderPath(lines[index]) !== null) {
+    if (headerPathAt(index) !== null) {
       bodyEndIndex = index;
       break;
     }
-- 
2.43.0


From cb0b77fe1c793ed3e7dce2661211ef3c8015755b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:16 +0000
Subject: [PATCH 48/84] fix: don't take another kind of table for the
 Meticulous server in a Codex config

---
 .../cli/src/commands/onboard/codex-mcp.ts     | 22 ++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/packages/cli/src/commands/onboard/codex-mcp.ts b/packages/cli/src/commands/onboard/codex-mcp.ts
index d51e432..f45c2f0 100644
--- a/packages/cli/src/commands/onboard/codex-mcp.ts
+++ b/packages/cli/src/commands/onboard/codex-mcp.ts
@@ -23,6 +23,7 @@ export const mergeCodexMcp = (
   // `[mcp_servers.Meticulous.*]` included). A single canonical body is the
   // only case that may stay as-is.
   const sectionBodies: string[] = [];
+  let isServerTable = true;
   let remainder = existing;
   for (;;) {
     const split = splitCodexMeticulousSection(remainder);
@@ -31,6 +32,7 @@ export const mergeCodexMcp = (
       break;
     }
     sectionBodies.push(split.sectionBody);
+    isServerTable &&= split.isServerTable;
     remainder = split.remainder;
   }
 
@@ -53,8 +55,10 @@ export const mergeCodexMcp = (
 
   // Same rule as JSON: the section must exist *and* contain only the
   // canonical `url` — a bare header (or a header with `command`/`args`/etc.)
-  // must be overwritten.
+  // must be overwritten. So must a `[[mcp_servers.Meticulous]]` or a lone
+  // `[mcp_servers.Meticulous.*]`: neither defines the server.
   if (
+    isServerTable &&
     sectionBodies.length === 1 &&
     isCanonicalCodexMeticulousSectionBody(sectionBodies[0], mcpUrl)
   ) {
@@ -345,12 +349,17 @@ const findCodexBlocker = (contents: string): CodexBlocker | null => {
 /**
  * Splits out `[mcp_servers.Meticulous]` or a nested
  * `[mcp_servers.Meticulous.*]` table and its body. `sectionBody` is `null`
- * when no such section is present. Callers that must remove every copy
+ * when no such section is present, and `isServerTable` tells whether the table
+ * is the server's own. Callers that must remove every copy
  * should loop until `sectionBody` is `null`.
  */
 export const splitCodexMeticulousSection = (
   contents: string,
-): { remainder: string; sectionBody: string | null } => {
+): {
+  remainder: string;
+  sectionBody: string | null;
+  isServerTable: boolean;
+} => {
   const lines = contents.split(/(?<=\n)/u);
   const continuations = findContinuationLines(contents);
   const headerPathAt = (index: number): string[] | null =>
@@ -360,8 +369,11 @@ export const splitCodexMeticulousSection = (
     return path !== null && isMeticulousMcpPath(path);
   });
   if (headerIndex === -1) {
-    return { remainder: contents, sectionBody: null };
+    return { remainder: contents, sectionBody: null, isServerTable: false };
   }
+  const isServerTable =
+    headerPathAt(headerIndex)?.length === 2 &&
+    !lines[headerIndex].trim().startsWith("[[");
 
   // The section body runs until the next header of any table.
   let bodyEndIndex = lines.length;
@@ -382,7 +394,7 @@ export const splitCodexMeticulousSection = (
       ? afterSection.replace(/^(?:\r?\n)+/u, "")
       : `${cleanedBefore}${afterSection}`;
 
-  return { remainder, sectionBody };
+  return { remainder, sectionBody, isServerTable };
 };
 
 /**
-- 
2.43.0


From 75029f8dfd37c9d3c9961dbb7934e6a8b6f33168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:16 +0000
Subject: [PATCH 49/84] fix: don't truncate the user's files when onboarding is
 interrupted

---
 .../cli/src/commands/onboard/safe-repo-fs.ts  | 29 ++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/packages/cli/src/commands/onboard/safe-repo-fs.ts b/packages/cli/src/commands/onboard/safe-repo-fs.ts
index 3d95eb4..02e76fe 100644
--- a/packages/cli/src/commands/onboard/safe-repo-fs.ts
+++ b/packages/cli/src/commands/onboard/safe-repo-fs.ts
@@ -1,10 +1,14 @@
+import { randomUUID } from "crypto";
 import {
+  chmodSync,
   copyFileSync,
   existsSync,
   lstatSync,
   mkdirSync,
   readdirSync,
   realpathSync,
+  renameSync,
+  rmSync,
   writeFileSync,
 } from "fs";
 import {
@@ -123,10 +127,33 @@ export const writeFileSafeSync = (
   }
   // Re-resolve after parents exist so a symlink planted on a parent is caught.
   const target = resolveSafeWritePath(projectRoot, relativePath);
-  writeFileSync(target, data);
+  replaceFileSync(target, data);
   return target;
 };
 
+/**
+ * Writes `data` beside `target` and renames it into place, so that a full disk
+ * or a crash half-way cannot leave the user's file truncated. The exclusive
+ * create refuses to follow a symlink at the temporary path.
+ */
+const replaceFileSync = (
+  target: string,
+  data: string | NodeJS.ArrayBufferView,
+): void => {
+  const existing = tryLstat(target);
+  const temporary = `${target}.${randomUUID()}.tmp`;
+  try {
+    writeFileSync(temporary, data, { flag: "wx" });
+    if (existing) {
+      chmodSync(temporary, existing.mode & 0o7777);
+    }
+    renameSync(temporary, target);
+  } catch (error) {
+    rmSync(temporary, { force: true });
+    throw error;
+  }
+};
+
 export const copyFileSafeSync = (
   projectRoot: string,
   relativePath: string,
-- 
2.43.0


From 1025ee9c5c4a9629e177817912f10e6b4f1ef916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:16 +0000
Subject: [PATCH 50/84] fix: report the agent's exit code from onboard

---
 packages/cli/src/command-utils/sentry.utils.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/cli/src/command-utils/sentry.utils.ts b/packages/cli/src/command-utils/sentry.utils.ts
index 4724514..dca0bc8 100644
--- a/packages/cli/src/command-utils/sentry.utils.ts
+++ b/packages/cli/src/command-utils/sentry.utils.ts
@@ -23,7 +23,7 @@ export const wrapHandler = function wrapHandler_<T>(
 
         // This is required: otherwise the process will hang for a while,
         // presumably waiting on some setTimeout to trigger
-        process.exit(0);
+        process.exit(process.exitCode ?? 0);
       })
       .catch(async (error) => {
         const exitCode = reportHandlerError(error);
-- 
2.43.0


From a624282258936da3250ed359457758037ec3d2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:23 +0000
Subject: [PATCH 51/84] fix: a malformed event no longer holds up every later
 event of its shard

---
 .../src/session-store.ts                      | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/packages/backend-recorder-sidecar-worker/src/session-store.ts b/packages/backend-recorder-sidecar-worker/src/session-store.ts
index 71220aa..d68156d 100644
--- a/packages/backend-recorder-sidecar-worker/src/session-store.ts
+++ b/packages/backend-recorder-sidecar-worker/src/session-store.ts
@@ -126,9 +126,8 @@ export const flushChunk = async (
 
   const builder = new SpanBuilder();
   const spans = events
-    .map((event) => builder.build(event))
-    .filter((span) => span !== null)
-    .map((span) => serializeSpan(span));
+    .map((event) => buildSpan(builder, event))
+    .filter((span) => span !== null);
   if (spans.length === 0) {
     return { state: current, rolledOver };
   }
@@ -195,6 +194,20 @@ export const flushChunk = async (
   }
 };
 
+/** Wire input: one event no span can be built from must not hold up every event behind it. */
+const buildSpan = (
+  builder: SpanBuilder,
+  event: CaptureEvent,
+): ReturnType<typeof serializeSpan> | null => {
+  try {
+    const span = builder.build(event);
+    return span === null ? null : serializeSpan(span);
+  } catch (error) {
+    log.warn(`Skipping a malformed event: ${String(error)}`);
+    return null;
+  }
+};
+
 const abandonCooldownElapsed = (state: SessionState, nowMs: number): boolean =>
   // A state written before this field existed has no timestamp to measure from; treating it as
   // elapsed recovers such an object on its next report rather than leaving it dead forever.
-- 
2.43.0


From 906dec4fceb31f35e12a82c3266c8a1f431d61a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:23 +0000
Subject: [PATCH 52/84] fix: answer a null events payload with 400 instead of
 throwing

---
 packages/backend-recorder-sidecar-worker/src/index.ts | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/packages/backend-recorder-sidecar-worker/src/index.ts b/packages/backend-recorder-sidecar-worker/src/index.ts
index 08e7951..6036e8f 100644
--- a/packages/backend-recorder-sidecar-worker/src/index.ts
+++ b/packages/backend-recorder-sidecar-worker/src/index.ts
@@ -126,13 +126,13 @@ export default {
       return json(413, { error: "payload too large" });
     }
 
-    let payload: CaptureEventsPayload;
+    let payload: CaptureEventsPayload | null;
     try {
-      payload = (await request.json()) as CaptureEventsPayload;
+      payload = (await request.json()) as CaptureEventsPayload | null;
     } catch {
       return json(400, { error: "invalid JSON" });
     }
-    if (!Array.isArray(payload.events)) {
+    if (!Array.isArray(payload?.events)) {
       return json(400, { error: "missing events array" });
     }
     if (payload.events.length === 0) {
-- 
2.43.0


From 26c6db2fb74e760799338097bd38f4833978b90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:08 +0000
Subject: [PATCH 53/84] fix: do not take a working tree git could not inspect
 for a clean one

---
 .../src/utils/resolve-test-run-from-commit.ts | 14 +++-
 packages/common/src/commit-sha.utils.ts       | 65 ++++++++++++++-----
 2 files changed, 61 insertions(+), 18 deletions(-)

diff --git a/packages/cli/src/utils/resolve-test-run-from-commit.ts b/packages/cli/src/utils/resolve-test-run-from-commit.ts
index d2399b1..344930d 100644
--- a/packages/cli/src/utils/resolve-test-run-from-commit.ts
+++ b/packages/cli/src/utils/resolve-test-run-from-commit.ts
@@ -53,10 +53,18 @@ export const logResolvedCommitSha = async (
 /**
  * True when the working tree differs from HEAD in any way the by-commit lookup
  * won't reflect — tracked modifications/staged changes *or* untracked files.
- * (`hasUncommittedChanges` alone ignores untracked files.)
+ * (`hasUncommittedChanges` alone ignores untracked files.) Only used for the
+ * caveat, so when git can't tell the caveat is shown rather than the lookup failed.
  */
-const hasLocalChanges = async (): Promise<boolean> =>
-  (await hasUncommittedChanges()) || (await getUntrackedFiles()).length > 0;
+const hasLocalChanges = async (): Promise<boolean> => {
+  try {
+    return (
+      (await hasUncommittedChanges()) || (await getUntrackedFiles()).length > 0
+    );
+  } catch {
+    return true;
+  }
+};
 
 export interface ResolvedTestRun {
   testRunId: string;
diff --git a/packages/common/src/commit-sha.utils.ts b/packages/common/src/commit-sha.utils.ts
index d084491..93aeec6 100644
--- a/packages/common/src/commit-sha.utils.ts
+++ b/packages/common/src/commit-sha.utils.ts
@@ -13,22 +13,47 @@ const execPromise = (command: string, cwd?: string): Promise<string> => {
   });
 };
 
-const execFilePromise = (
+const execFileRawPromise = (
   file: string,
   args: string[],
   cwd?: string,
 ): Promise<string> => {
   return new Promise((resolve, reject) => {
-    execFile(file, args, { encoding: "utf-8", cwd }, (error, output) => {
-      if (error) {
-        reject(error instanceof Error ? error : new Error(String(error)));
-        return;
-      }
-      resolve(output.trim());
-    });
+    execFile(
+      file,
+      args,
+      {
+        encoding: "utf-8",
+        cwd,
+        // Diffs and file listings easily exceed the 1 MiB default.
+        maxBuffer: Number.POSITIVE_INFINITY,
+        // Untranslated messages, see `isNotAGitRepositoryError`.
+        env: { ...process.env, LC_ALL: "C" },
+      },
+      (error, output) => {
+        if (error) {
+          reject(error instanceof Error ? error : new Error(String(error)));
+          return;
+        }
+        resolve(output);
+      },
+    );
   });
 };
 
+const execFilePromise = async (
+  file: string,
+  args: string[],
+  cwd?: string,
+): Promise<string> => (await execFileRawPromise(file, args, cwd)).trim();
+
+/**
+ * Whether git answered that there is no repository, as opposed to failing to
+ * answer (locked or corrupt index, killed, could not be started, ...).
+ */
+const isNotAGitRepositoryError = (error: unknown): boolean =>
+  error instanceof Error && /not a git repository/i.test(error.message);
+
 const getGitRevParseHead: (cwd?: string) => Promise<string> = (cwd) => {
   return new Promise((resolve, reject) => {
     exec("git rev-parse HEAD", { encoding: "utf-8", cwd }, (error, output) => {
@@ -170,18 +195,24 @@ export const getLocalBaseSha = async (options?: {
 
 /**
  * Returns true if the git working tree has uncommitted changes (staged or unstaged).
+ * Returns `false` outside a git repository, and throws if git can't tell: callers
+ * treat `false` as "HEAD describes the working tree".
  */
 export const hasUncommittedChanges = async (options?: {
   cwd?: string;
 }): Promise<boolean> => {
   try {
-    const output = await execPromise(
-      "git status --porcelain --untracked-files=no",
+    const output = await execFilePromise(
+      "git",
+      ["status", "--porcelain", "--untracked-files=no"],
       options?.cwd,
     );
     return output.length > 0;
-  } catch {
-    return false;
+  } catch (error) {
+    if (isNotAGitRepositoryError(error)) {
+      return false;
+    }
+    throw error;
   }
 };
 
@@ -189,7 +220,8 @@ export const hasUncommittedChanges = async (options?: {
  * Returns the untracked (and not git-ignored) files in the working tree.
  * These cannot be captured by `git stash create` or a `base..head` diff, so
  * callers that infer a build commit / diff from the working tree should refuse
- * to proceed while any exist. Returns `[]` outside a git repository.
+ * to proceed while any exist. Returns `[]` outside a git repository, and throws
+ * if git can't tell.
  */
 export const getUntrackedFiles = async (options?: {
   cwd?: string;
@@ -204,8 +236,11 @@ export const getUntrackedFiles = async (options?: {
       .split("\n")
       .map((line) => line.trim())
       .filter((line) => line.length > 0);
-  } catch {
-    return [];
+  } catch (error) {
+    if (isNotAGitRepositoryError(error)) {
+      return [];
+    }
+    throw error;
   }
 };
 
-- 
2.43.0


From 24e92fdb29732570d5aa2af0efcd5b2e0f8caf3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:17 +0000
Subject: [PATCH 54/84] fix: read git diffs in full and independent of the
 user's git configuration

---
 .../commands/local/get-edited-files.utils.ts  |  5 ++--
 packages/common/src/commit-sha.utils.ts       | 27 +++++++++++++++++--
 packages/common/src/index.ts                  |  1 +
 3 files changed, 29 insertions(+), 4 deletions(-)

diff --git a/packages/cli/src/commands/local/get-edited-files.utils.ts b/packages/cli/src/commands/local/get-edited-files.utils.ts
index 5f70682..6cd09f8 100644
--- a/packages/cli/src/commands/local/get-edited-files.utils.ts
+++ b/packages/cli/src/commands/local/get-edited-files.utils.ts
@@ -1,13 +1,14 @@
 import { execFile } from "child_process";
 import type { EditedFileWithLines } from "@alwaysmeticulous/client";
+import { PLAIN_GIT_DIFF_ARGS } from "@alwaysmeticulous/common";
 import parseDiff from "parse-diff";
 
 export const getGitDiff = (baseSha: string, cwd?: string): Promise<string> => {
   return new Promise((resolve, reject) => {
     execFile(
       "git",
-      ["diff", baseSha, "--unified=0"],
-      { encoding: "utf-8", cwd },
+      [...PLAIN_GIT_DIFF_ARGS, baseSha, "--unified=0"],
+      { encoding: "utf-8", cwd, maxBuffer: Number.POSITIVE_INFINITY },
       (error, output) => {
         if (error) {
           reject(error instanceof Error ? error : new Error(String(error)));
diff --git a/packages/common/src/commit-sha.utils.ts b/packages/common/src/commit-sha.utils.ts
index 93aeec6..83f940f 100644
--- a/packages/common/src/commit-sha.utils.ts
+++ b/packages/common/src/commit-sha.utils.ts
@@ -244,6 +244,24 @@ export const getUntrackedFiles = async (options?: {
   }
 };
 
+/**
+ * `git diff` arguments whose output doesn't depend on the user's git
+ * configuration or the directory within the repository: an unconfigured,
+ * uncoloured diff of the whole tree.
+ */
+export const PLAIN_GIT_DIFF_ARGS: readonly string[] = [
+  "-c",
+  "color.diff=false",
+  "-c",
+  "diff.noprefix=false",
+  "-c",
+  "diff.mnemonicPrefix=false",
+  "-c",
+  "diff.relative=false",
+  "diff",
+  "--no-ext-diff",
+];
+
 /**
  * Returns the raw `git diff` output between baseSha and either a specific commit or the working tree.
  * - If headSha is provided: `git diff baseSha headSha`
@@ -254,8 +272,13 @@ export const getGitDiff = async (
   headSha: string | undefined,
   options?: { cwd?: string },
 ): Promise<string> => {
-  const args = headSha ? ["diff", baseSha, headSha] : ["diff", baseSha];
-  return execFilePromise("git", args, options?.cwd);
+  const revisions = headSha ? [baseSha, headSha] : [baseSha];
+  // Not trimmed: the last lines of a diff can be blank context lines.
+  return execFileRawPromise(
+    "git",
+    [...PLAIN_GIT_DIFF_ARGS, ...revisions],
+    options?.cwd,
+  );
 };
 
 /**
diff --git a/packages/common/src/index.ts b/packages/common/src/index.ts
index 7cef5e7..4563f10 100644
--- a/packages/common/src/index.ts
+++ b/packages/common/src/index.ts
@@ -32,6 +32,7 @@ export {
   hasUncommittedChanges,
   getUntrackedFiles,
   getGitDiff,
+  PLAIN_GIT_DIFF_ARGS,
   getStashCreateSha,
 } from "./commit-sha.utils";
 export {
-- 
2.43.0


From 629bc96893997a67c477ea54c3775bc803e8a11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:17 +0000
Subject: [PATCH 55/84] fix: notice untracked files outside of the current
 directory

---
 packages/common/src/commit-sha.utils.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/common/src/commit-sha.utils.ts b/packages/common/src/commit-sha.utils.ts
index 83f940f..3d4abd7 100644
--- a/packages/common/src/commit-sha.utils.ts
+++ b/packages/common/src/commit-sha.utils.ts
@@ -229,7 +229,9 @@ export const getUntrackedFiles = async (options?: {
   try {
     const output = await execFilePromise(
       "git",
-      ["ls-files", "--others", "--exclude-standard"],
+      // ":/" is the top of the repository: by default only the files below the
+      // current directory are listed.
+      ["ls-files", "--others", "--exclude-standard", "--", ":/"],
       options?.cwd,
     );
     return output
-- 
2.43.0


From bfe4a2ceaee0da75bd72789ebaaeec57c9ade139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:28 +0000
Subject: [PATCH 56/84] fix: detect the default branch whatever git's language,
 and not when the remote has none

---
 packages/common/src/commit-sha.utils.ts | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/packages/common/src/commit-sha.utils.ts b/packages/common/src/commit-sha.utils.ts
index 3d4abd7..9826de0 100644
--- a/packages/common/src/commit-sha.utils.ts
+++ b/packages/common/src/commit-sha.utils.ts
@@ -27,7 +27,7 @@ const execFileRawPromise = (
         cwd,
         // Diffs and file listings easily exceed the 1 MiB default.
         maxBuffer: Number.POSITIVE_INFINITY,
-        // Untranslated messages, see `isNotAGitRepositoryError`.
+        // Untranslated: some of git's messages are interpreted below.
         env: { ...process.env, LC_ALL: "C" },
       },
       (error, output) => {
@@ -325,9 +325,14 @@ const detectDefaultBranch = async (
 
   // 2. Try `git remote show origin` (network call, authoritative)
   try {
-    const output = await execPromise("git remote show origin", cwd);
+    const output = await execFilePromise(
+      "git",
+      ["remote", "show", "origin"],
+      cwd,
+    );
     const match = output.match(/HEAD branch:\s*(\S+)/);
-    if (match) {
+    // "(unknown)" is what git prints when the remote has no HEAD
+    if (match && match[1] !== "(unknown)") {
       const branch = `origin/${match[1]}`;
       logger.debug(`Default branch from remote show: ${branch}`);
       return branch;
-- 
2.43.0


From 7b40299b2a64d1b503871de679c04a6811fb5398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:42 +0000
Subject: [PATCH 57/84] fix: exact edited line ranges for diffs without context

---
 .../src/commands/local/get-edited-files.utils.ts   | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/packages/cli/src/commands/local/get-edited-files.utils.ts b/packages/cli/src/commands/local/get-edited-files.utils.ts
index 6cd09f8..933c7c7 100644
--- a/packages/cli/src/commands/local/get-edited-files.utils.ts
+++ b/packages/cli/src/commands/local/get-edited-files.utils.ts
@@ -45,7 +45,10 @@ export const parseGitDiffToEditedFiles = (
     let lastDeletedLine: number | null = null;
 
     for (const chunk of modifiedFile.chunks) {
-      let currentOriginalLine = chunk.oldStart - 1;
+      // A chunk that covers no old lines (a pure addition in a diff without
+      // context) starts *after* the line it names.
+      let currentOriginalLine =
+        chunk.oldLines === 0 ? chunk.oldStart : chunk.oldStart - 1;
 
       for (const change of chunk.changes) {
         if (change.type === "del") {
@@ -82,10 +85,13 @@ export const parseGitDiffToEditedFiles = (
           }
         }
       }
-    }
 
-    if (firstDeletedLine !== null && lastDeletedLine !== null) {
-      editedRanges.push([firstDeletedLine, lastDeletedLine]);
+      // A range never spans chunks: the lines between them are unchanged
+      if (firstDeletedLine !== null && lastDeletedLine !== null) {
+        editedRanges.push([firstDeletedLine, lastDeletedLine]);
+        firstDeletedLine = null;
+        lastDeletedLine = null;
+      }
     }
 
     result.push({
-- 
2.43.0


From e6e53dfa150ad81b841d3f8028ad176563e7006e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:51 +0000
Subject: [PATCH 58/84] fix: a dry run of ci run-with-tunnel does not run the
 trigger script

---
 packages/cli/src/commands/ci/run.command.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/cli/src/commands/ci/run.command.ts b/packages/cli/src/commands/ci/run.command.ts
index b87e44e..eca6502 100644
--- a/packages/cli/src/commands/ci/run.command.ts
+++ b/packages/cli/src/commands/ci/run.command.ts
@@ -106,9 +106,11 @@ const handler = async ({
   // In this case, we trigger the preparation for meticulous tests.
   // Do this only if we did not prepare for the tests.
   // Skip if METICULOUS_DISABLE_RECURSIVE_TRIGGER is set to prevent infinite recursion.
+  // Skip in a dry run, which must not run the script.
   if (
     !hadPreparedForTests &&
     triggerScript &&
+    !dryRun &&
     !process.env.METICULOUS_DISABLE_RECURSIVE_TRIGGER
   ) {
     await prepareForMeticulousTests({
@@ -119,7 +121,7 @@ const handler = async ({
     });
   }
 
-  if (hadPreparedForTests || triggerScript) {
+  if (hadPreparedForTests || (triggerScript && !dryRun)) {
     // If we prepared to run all tests in cloud, then we need to wait for base to be available.
     // The preprocessing step starts to compute base, but it might take some time to have it available.
     await waitForBase({ apiToken: apiToken_, commitSha, logger });
-- 
2.43.0


From 280cc0209ed9759160a17fcfd81504e4d3950529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:51 +0000
Subject: [PATCH 59/84] fix: keep login credentials out of a failed launch's
 error

---
 .../src/api/agentic-session-generation.api.ts | 24 ++++++++++++++-----
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/packages/client/src/api/agentic-session-generation.api.ts b/packages/client/src/api/agentic-session-generation.api.ts
index 0f417cc..0fcbab4 100644
--- a/packages/client/src/api/agentic-session-generation.api.ts
+++ b/packages/client/src/api/agentic-session-generation.api.ts
@@ -125,13 +125,14 @@ const redactLaunchCredentials = (
   if (secrets.length === 0 || typeof error !== "object" || error === null) {
     return;
   }
-  const config = (error as { config?: { data?: unknown } }).config;
+  const config = (error as { config?: { data?: unknown; body?: unknown } })
+    .config;
+  // The client attaches the request it sent, with its JSON body, to the error.
+  if (typeof config?.body === "string") {
+    config.body = redactSecrets(config.body, secrets);
+  }
   if (typeof config?.data === "string") {
-    let redacted = config.data;
-    for (const secret of secrets) {
-      redacted = redacted.split(secret).join("[REDACTED]");
-    }
-    config.data = redacted;
+    config.data = redactSecrets(config.data, secrets);
   } else if (typeof config?.data === "object" && config.data !== null) {
     const target = config.data as {
       appTarget?: { backend?: { loginOptions?: Record<string, string> } };
@@ -145,6 +146,17 @@ const redactLaunchCredentials = (
   }
 };
 
+/** Also redacts the form a secret takes within a JSON document. */
+const redactSecrets = (text: string, secrets: string[]): string =>
+  secrets
+    .flatMap((secret) => [secret, JSON.stringify(secret).slice(1, -1)])
+    // A secret may contain another one.
+    .sort((a, b) => b.length - a.length)
+    .reduce(
+      (redacted, secret) => redacted.split(secret).join("[REDACTED]"),
+      text,
+    );
+
 export type AgenticRunResultCaseOutcome =
   | "pass"
   | "fail"
-- 
2.43.0


From 68c29ac65e129ff0b96ef1248e91d04705ffeff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:19 +0000
Subject: [PATCH 60/84] fix: tag images for a registry with a port

---
 packages/remote-replay-launcher/src/docker-utils.ts | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/packages/remote-replay-launcher/src/docker-utils.ts b/packages/remote-replay-launcher/src/docker-utils.ts
index 09876f1..52cca1a 100644
--- a/packages/remote-replay-launcher/src/docker-utils.ts
+++ b/packages/remote-replay-launcher/src/docker-utils.ts
@@ -73,8 +73,14 @@ export const tagImage = async (
   const logger = initLogger();
   try {
     const image = docker.getImage(sourceImage);
-    const [repo, tag] = targetImage.split(":");
-    await image.tag({ repo, tag: tag || "latest" });
+    // The registry may have a port, so only a colon in the last path segment
+    // starts the tag.
+    const colon = targetImage.lastIndexOf(":");
+    const hasTag = colon > targetImage.lastIndexOf("/");
+    await image.tag({
+      repo: hasTag ? targetImage.slice(0, colon) : targetImage,
+      tag: (hasTag && targetImage.slice(colon + 1)) || "latest",
+    });
     logger.info(`Tagged image ${sourceImage} as ${targetImage}`);
   } catch (error) {
     logger.error(`Failed to tag image ${sourceImage} as ${targetImage}`);
-- 
2.43.0


From e1ba3b24ef6d352afbda21e803cd191423317b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:01 +0000
Subject: [PATCH 61/84] fix: redact logged credentials whose value contains a
 quote

A header dumped as {name, value} kept the rest of its value in the logs of a
debug workspace when the value contained an (escaped) quote.
---
 packages/debug-workspace/src/generate-debug-workspace.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/debug-workspace/src/generate-debug-workspace.ts b/packages/debug-workspace/src/generate-debug-workspace.ts
index 2c63614..fbcef3b 100644
--- a/packages/debug-workspace/src/generate-debug-workspace.ts
+++ b/packages/debug-workspace/src/generate-debug-workspace.ts
@@ -869,7 +869,7 @@ const LOG_CREDENTIAL_REPLACEMENTS: Array<{
     // (HAR-style header/cookie entries), whether logged via `util.inspect`
     // (unquoted keys, single-quoted strings) or `JSON.stringify`.
     pattern: new RegExp(
-      `(['"]?name['"]?\\s*:\\s*['"]?(?:${CREDENTIAL_HEADER_NAMES})['"]?[\\s\\S]{0,80}?['"]?value['"]?\\s*:\\s*(['"]))[^'"\n]*\\2`,
+      `(['"]?name['"]?\\s*:\\s*['"]?(?:${CREDENTIAL_HEADER_NAMES})['"]?[\\s\\S]{0,80}?['"]?value['"]?\\s*:\\s*(['"]))(?:\\\\.|(?!\\2)[^\\\\\n])*\\2`,
       "gi",
     ),
     replacement: `$1${REDACTED_VALUE_MARKER}$2`,
-- 
2.43.0


From dfa4303dea6c5251c1f19605ce08888c6b987076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:21 +0000
Subject: [PATCH 62/84] fix: give every screenshot its own timeline context in
 a debug workspace

The contexts of screenshots with the same event number (other logic versions,
auxiliary ones) or without one (end states) overwrote each other.
---
 packages/debug-workspace/src/generate-debug-derived-files.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/packages/debug-workspace/src/generate-debug-derived-files.ts b/packages/debug-workspace/src/generate-debug-derived-files.ts
index c51234c..f6c2232 100644
--- a/packages/debug-workspace/src/generate-debug-derived-files.ts
+++ b/packages/debug-workspace/src/generate-debug-derived-files.ts
@@ -8,6 +8,7 @@ import {
   type ReplayDir,
   type TimelineEntry,
 } from "./replay-walk";
+import { screenshotIdentifierToBaseName } from "./screenshot-identifier";
 
 const NETWORK_KINDS = new Set([
   "pollyReplay",
@@ -453,5 +454,7 @@ const getScreenshotIdentifierString = (entry: TimelineEntry): string | null => {
   if (id == null) {
     return null;
   }
-  return formatScreenshotIdentifier(id);
+  // The name of the screenshot's own file where there is one: it tells apart
+  // screenshots that share an event number (and those that have none).
+  return screenshotIdentifierToBaseName(id) ?? formatScreenshotIdentifier(id);
 };
-- 
2.43.0


From 15201d78348e6e89f8a3e6378e88e7e8ef7a9af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:26 +0000
Subject: [PATCH 63/84] fix: leave out of a debug workspace what can't be
 redacted

A file or log line that could not be parsed was kept with the credentials in
it, and so were those of a file whose redaction failed. Redacted files also
replace the originals atomically, so that a run killed part way through doesn't
leave half a file in a workspace that is reused.
---
 .../src/generate-debug-workspace.ts           | 131 +++++++++---------
 1 file changed, 69 insertions(+), 62 deletions(-)

diff --git a/packages/debug-workspace/src/generate-debug-workspace.ts b/packages/debug-workspace/src/generate-debug-workspace.ts
index fbcef3b..37f54e7 100644
--- a/packages/debug-workspace/src/generate-debug-workspace.ts
+++ b/packages/debug-workspace/src/generate-debug-workspace.ts
@@ -6,6 +6,7 @@ import {
   mkdirSync,
   readFileSync,
   readdirSync,
+  renameSync,
   statSync,
   unlinkSync,
   writeFileSync,
@@ -452,6 +453,7 @@ export const detectSnapshotAssets = (workspaceDir: string): boolean => {
 // ---------------------------------------------------------------------------
 
 const REDACTED_VALUE_MARKER = "<redacted>";
+const UNPARSABLE_LOG_LINE_MARKER = "<unparsable log line left out>";
 
 // Array-valued keys whose entries are `{ name, value }` or `{ key, value }`
 // pairs (or, in the case of `cookies.json`, richer cookie objects) where
@@ -629,50 +631,60 @@ const redactNestedStaticValueEntry = (item: unknown): unknown => {
 const redactCookiesAndHeadersInFile = (
   filePath: string,
   topLevelKey?: string,
-): boolean => {
-  if (!existsSync(filePath)) {
-    return false;
-  }
-  try {
-    const parsed: unknown = JSON.parse(readFileSync(filePath, "utf8"));
+): boolean =>
+  redactOrRemoveFile(filePath, (raw) => {
+    const parsed: unknown = JSON.parse(raw);
     const redacted = redactCookiesAndHeadersInJson(parsed, topLevelKey);
-    writeFileSync(filePath, JSON.stringify(redacted, null, 2));
-    return true;
-  } catch (error) {
-    const message = error instanceof Error ? error.message : String(error);
-    console.warn(
-      `  Warning: Could not redact cookies/headers/storage in ${filePath}: ${message}`,
-    );
-    return false;
-  }
-};
+    return JSON.stringify(redacted, null, 2);
+  });
 
 // Redacts an NDJSON file (one JSON value per line) in place, running
 // `redactCookiesAndHeadersInJson` over each line independently. Used for
 // `timeline.ndjson`, which -- unlike `timeline.json` -- is sometimes already
 // present in the downloaded replay archive rather than generated fresh from
 // the (by-then-redacted) `timeline.json`.
-const redactCookiesAndHeadersInNdjsonFile = (filePath: string): boolean => {
+const redactCookiesAndHeadersInNdjsonFile = (filePath: string): boolean =>
+  redactOrRemoveFile(filePath, (raw) =>
+    raw
+      .split("\n")
+      .map((line) =>
+        line.trim() === ""
+          ? line
+          : JSON.stringify(redactCookiesAndHeadersInJson(JSON.parse(line))),
+      )
+      .join("\n"),
+  );
+
+// A file that can't be parsed can't be redacted either, so it is left out of
+// the workspace instead of being handed on with the values still in it.
+const redactOrRemoveFile = (
+  filePath: string,
+  redact: (raw: string) => string,
+): boolean => {
   if (!existsSync(filePath)) {
     return false;
   }
+  const raw = readFileSync(filePath, "utf8");
+  let redacted: string;
   try {
-    const raw = readFileSync(filePath, "utf8");
-    const redactedLines = raw.split("\n").map((line) => {
-      if (line.trim() === "") {
-        return line;
-      }
-      return JSON.stringify(redactCookiesAndHeadersInJson(JSON.parse(line)));
-    });
-    writeFileSync(filePath, redactedLines.join("\n"));
-    return true;
-  } catch (error) {
-    const message = error instanceof Error ? error.message : String(error);
+    redacted = redact(raw);
+  } catch {
+    unlinkSync(filePath);
     console.warn(
-      `  Warning: Could not redact cookies/headers/storage in ${filePath}: ${message}`,
+      `  Warning: Could not redact cookies/headers/storage in ${filePath} (not valid JSON), so it was left out of the workspace`,
     );
     return false;
   }
+  replaceFile(filePath, redacted);
+  return true;
+};
+
+// Writes to the side and renames, so that a run that is killed part way through
+// doesn't leave half a file in a workspace that is reused.
+const replaceFile = (filePath: string, content: string): void => {
+  const partialPath = `${filePath}.partial`;
+  writeFileSync(partialPath, content);
+  renameSync(partialPath, filePath);
 };
 
 // Redacts cookie, header, and local/session storage values from the raw
@@ -810,7 +822,7 @@ export const generateFilteredLogs = (workspaceDir: string): void => {
       const raw = readFileSync(logPath, "utf8");
       const credentialsRedacted = redactLogCredentials(raw);
       if (credentialsRedacted !== raw) {
-        writeFileSync(logPath, credentialsRedacted);
+        replaceFile(logPath, credentialsRedacted);
         redactedCount++;
       }
 
@@ -904,7 +916,7 @@ const redactLogCredentialsInFile = (filePath: string): boolean => {
   if (redacted === raw) {
     return false;
   }
-  writeFileSync(filePath, redacted);
+  replaceFile(filePath, redacted);
   return true;
 };
 
@@ -915,41 +927,36 @@ const redactLogCredentialsInNdjsonFile = (filePath: string): boolean => {
   if (!existsSync(filePath)) {
     return false;
   }
-  try {
-    const raw = readFileSync(filePath, "utf8");
-    let changed = false;
-    const redactedLines = raw.split("\n").map((line) => {
-      if (line.trim() === "") {
-        return line;
-      }
-      let entry: Record<string, unknown>;
-      try {
-        entry = JSON.parse(line);
-      } catch {
-        return line;
-      }
-      if (typeof entry.message !== "string") {
-        return line;
-      }
-      const redactedMessage = redactLogCredentials(entry.message);
-      if (redactedMessage === entry.message) {
-        return line;
-      }
+  const raw = readFileSync(filePath, "utf8");
+  let changed = false;
+  const redactedLines = raw.split("\n").map((line) => {
+    if (line.trim() === "") {
+      return line;
+    }
+    let entry: Record<string, unknown> | null;
+    try {
+      entry = JSON.parse(line);
+    } catch {
+      // Can't tell which part of it is the message, so leave it out (but
+      // keep a line in its place, so that the other lines keep their index).
       changed = true;
-      return JSON.stringify({ ...entry, message: redactedMessage });
-    });
-    if (!changed) {
-      return false;
+      return UNPARSABLE_LOG_LINE_MARKER;
     }
-    writeFileSync(filePath, redactedLines.join("\n"));
-    return true;
-  } catch (error) {
-    const message = error instanceof Error ? error.message : String(error);
-    console.warn(
-      `  Warning: Could not redact credentials in ${filePath}: ${message}`,
-    );
+    if (typeof entry?.message !== "string") {
+      return line;
+    }
+    const redactedMessage = redactLogCredentials(entry.message);
+    if (redactedMessage === entry.message) {
+      return line;
+    }
+    changed = true;
+    return JSON.stringify({ ...entry, message: redactedMessage });
+  });
+  if (!changed) {
     return false;
   }
+  replaceFile(filePath, redactedLines.join("\n"));
+  return true;
 };
 
 const LOG_NOISE_PATTERNS = [
-- 
2.43.0


From 370153688809b9081271a86f593b1c65f91fe0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:46 +0000
Subject: [PATCH 64/84] fix: redact every session found in a reused debug
 workspace

The data of a session that an earlier, interrupted run left in a named workspace
kept its credentials when the next run was about another session.
---
 .../src/generate-debug-workspace.ts             | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/packages/debug-workspace/src/generate-debug-workspace.ts b/packages/debug-workspace/src/generate-debug-workspace.ts
index 37f54e7..d4acae8 100644
--- a/packages/debug-workspace/src/generate-debug-workspace.ts
+++ b/packages/debug-workspace/src/generate-debug-workspace.ts
@@ -754,14 +754,15 @@ export const redactCookiesAndHeaders = (
     }
   }
 
-  for (const sessionId of debugContext.sessionIds) {
-    const dataPath = join(
-      workspaceDir,
-      DEBUG_DATA_DIRECTORY,
-      "sessions",
-      sessionId,
-      "data.json",
-    );
+  // Not only the sessions of this context: a workspace that is reused may hold
+  // the data of a session that an earlier run didn't get to redact.
+  const sessionsDir = join(workspaceDir, DEBUG_DATA_DIRECTORY, "sessions");
+  const sessionIds = existsSync(sessionsDir) ? readdirSync(sessionsDir) : [];
+  for (const sessionId of new Set([
+    ...debugContext.sessionIds,
+    ...sessionIds,
+  ])) {
+    const dataPath = join(sessionsDir, sessionId, "data.json");
     if (redactCookiesAndHeadersInFile(dataPath)) {
       count++;
     }
-- 
2.43.0


From 2a20403a33ab14c97286430a5b8f28d356b3d071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:45 +0000
Subject: [PATCH 65/84] fix: keep a debug workspace usable after an interrupted
 run about something else

Half a replay diff failed every later run that reused the workspace, and half a
copied replay was taken for a replay.
---
 .../src/download-debug-data.ts                | 27 +++++++++++++++----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/packages/debug-workspace/src/download-debug-data.ts b/packages/debug-workspace/src/download-debug-data.ts
index 65f02f1..ca29dfc 100644
--- a/packages/debug-workspace/src/download-debug-data.ts
+++ b/packages/debug-workspace/src/download-debug-data.ts
@@ -126,6 +126,7 @@ const downloadReplays = async (
     ),
   );
 
+  removePartialReplayDirs(debugDataDir);
   for (const { replayId, cachedPath } of results) {
     const isHead = headReplayIds.has(replayId);
     const isBase = baseReplayIds.has(replayId);
@@ -136,13 +137,28 @@ const downloadReplays = async (
       // Copy to the side and rename, so that a copy that fails or is killed part
       // way through isn't taken for a complete one when the workspace is reused.
       const partialDir = `${destDir}.partial`;
-      rmSync(partialDir, { recursive: true, force: true });
       copyReplayDir(cachedPath, partialDir);
       renameSync(partialDir, destDir);
     }
   }
 };
 
+// Leftovers of an earlier run that was killed while it copied, perhaps about
+// other replays than this one: they would be taken for replays.
+const removePartialReplayDirs = (debugDataDir: string): void => {
+  for (const subDir of ["head", "base", "other"]) {
+    const subDirPath = join(debugDataDir, "replays", subDir);
+    if (!existsSync(subDirPath)) {
+      continue;
+    }
+    for (const name of readdirSync(subDirPath)) {
+      if (name.endsWith(".partial")) {
+        rmSync(join(subDirPath, name), { recursive: true, force: true });
+      }
+    }
+  }
+};
+
 // File-type keys (matching `REPLAY_V3_UPLOAD_FILE_KEYS` on the backend) that
 // the debug agent never reads, so we tell the downloader not to fetch them at
 // all. `playbackData` and the raw coverage variants are duplicates/derivatives
@@ -254,10 +270,11 @@ const downloadReplayDiffs = async (
       limit(async () => {
         console.log(chalk.cyan(`  Downloading replay diff ${diff.id}...`));
         const diffData = await getReplayDiff(client, diff.id);
-        writeFileSync(
-          join(diffsDir, `${diff.id}.json`),
-          JSON.stringify(diffData, null, 2),
-        );
+        // Written to the side: half a file would fail every later run that
+        // reuses the workspace, also one about another diff.
+        const diffPath = join(diffsDir, `${diff.id}.json`);
+        writeFileSync(`${diffPath}.partial`, JSON.stringify(diffData, null, 2));
+        renameSync(`${diffPath}.partial`, diffPath);
       }),
     ),
   );
-- 
2.43.0


From 9002a54bd3bc890e51599c77b6680eb2e3689583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:30 +0000
Subject: [PATCH 66/84] fix: don't report a project as missing when the service
 couldn't answer

---
 packages/cli/src/utils/select-project.ts | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/packages/cli/src/utils/select-project.ts b/packages/cli/src/utils/select-project.ts
index ed69ff9..f25163e 100644
--- a/packages/cli/src/utils/select-project.ts
+++ b/packages/cli/src/utils/select-project.ts
@@ -198,8 +198,15 @@ const toProjectResolutionError = async (
   const list = projects.length
     ? `\n\nAvailable projects:\n${formatProjectList(projects)}`
     : "";
+  // Without an answer, or with one about the backend's own trouble, nothing is
+  // known about the project.
+  const status = isFetchError(error) ? error.response?.status : undefined;
+  const isRejected = status != null && status < 500 && status !== 429;
   const detail =
-    serverMessage ?? `Project '${identifier}' not found or not accessible.`;
+    serverMessage ??
+    (isRejected
+      ? `Project '${identifier}' not found or not accessible.`
+      : `Could not select project '${identifier}': ${error instanceof Error ? error.message : String(error)}`);
   return new CliUserError(`${detail}${list}`);
 };
 
-- 
2.43.0


From cd406cfba13f2807952c8833c97cca8fc5786c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:42 +0000
Subject: [PATCH 67/84] fix: download images of screenshots whose name contains
 a slash

---
 .../src/commands/agent/screenshot-image-files.command.ts    | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/packages/cli/src/commands/agent/screenshot-image-files.command.ts b/packages/cli/src/commands/agent/screenshot-image-files.command.ts
index ee61478..98035ea 100644
--- a/packages/cli/src/commands/agent/screenshot-image-files.command.ts
+++ b/packages/cli/src/commands/agent/screenshot-image-files.command.ts
@@ -90,7 +90,11 @@ const handler = async ({
   }
 
   const timestamp = Date.now();
-  const prefix = `${timestamp}_${replayDiffId}_${screenshotName}`;
+  // A screenshot name isn't necessarily a file name (it may contain slashes).
+  const prefix = `${timestamp}_${replayDiffId}_${screenshotName}`.replace(
+    /[/\\]/g,
+    "_",
+  );
 
   // Print the outcome up-front (non-JSON) so it's visible even if a download
   // below fails; the JSON path emits it as part of the single object instead.
-- 
2.43.0


From 7b225b092e1169d90645521d207b4d8f0f187184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:55 +0000
Subject: [PATCH 68/84] fix: print one row per timeline event

---
 packages/cli/src/commands/agent/timeline.command.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/cli/src/commands/agent/timeline.command.ts b/packages/cli/src/commands/agent/timeline.command.ts
index 1b99618..a04fd24 100644
--- a/packages/cli/src/commands/agent/timeline.command.ts
+++ b/packages/cli/src/commands/agent/timeline.command.ts
@@ -55,7 +55,8 @@ const handler = async ({
         STATUS_PREFIX[entry.status] ?? " ",
         entry.timeMs,
         entry.eventKind,
-        entry.description,
+        // Preserve a one-row-per-event TSV shape for multiline/tabbed text.
+        entry.description.replace(/[\t\r\n]+/g, " "),
       ].join("\t"),
     );
   }
-- 
2.43.0


From 90a6fc2422d107c8b4f0784edb2101e267a52819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:31 +0000
Subject: [PATCH 69/84] fix: keep the code in a debug workspace at the commit
 being debugged

The worktree in a workspace that is used again stayed at the commit of the
earlier run, a deleted workspace kept its path unusable for a worktree when it
was cleaned up from outside of its repository, and paths with quotes or dollar
signs were mangled by a shell.
---
 .../src/commands/debug/project-worktree.ts    | 58 ++++++++++++++-----
 1 file changed, 44 insertions(+), 14 deletions(-)

diff --git a/packages/cli/src/commands/debug/project-worktree.ts b/packages/cli/src/commands/debug/project-worktree.ts
index ccdec2f..1667bab 100644
--- a/packages/cli/src/commands/debug/project-worktree.ts
+++ b/packages/cli/src/commands/debug/project-worktree.ts
@@ -1,4 +1,4 @@
-import { execSync } from "child_process";
+import { execFileSync } from "child_process";
 import { existsSync } from "fs";
 import { join } from "path";
 import type { DebugContext } from "@alwaysmeticulous/debug-workspace";
@@ -42,16 +42,25 @@ export const createProjectWorktree = (
     // SHA may already be local or not fetchable -- that's fine
   }
 
+  // A workspace that is used again already has a worktree, maybe of another
+  // commit.
+  if (existsSync(join(projectRepoDir, ".git"))) {
+    return checkOutInWorktree(projectRepoDir, commitSha);
+  }
+
   try {
     console.log(
       chalk.cyan(
         `  Creating project repo worktree at ${commitSha.slice(0, 8)}...`,
       ),
     );
-    execSync(`git worktree add --detach "${projectRepoDir}" ${commitSha}`, {
-      cwd: gitRoot,
-      stdio: "pipe",
-    });
+    // --force: the repository may still list a worktree at this path whose
+    // workspace has since been deleted.
+    execFileSync(
+      "git",
+      ["worktree", "add", "--force", "--detach", projectRepoDir, commitSha],
+      { cwd: gitRoot, stdio: "pipe" },
+    );
     console.log(chalk.green(`  Project repo worktree created.`));
     return projectRepoDir;
   } catch (error) {
@@ -76,14 +85,11 @@ export const removeProjectWorktree = (workspaceDir: string): void => {
     return;
   }
 
-  const gitRoot = detectGitRoot();
-  if (!gitRoot) {
-    return;
-  }
-
   try {
-    execSync(`git worktree remove --force "${projectRepoDir}"`, {
-      cwd: gitRoot,
+    // Run in the worktree, as the current directory may well be outside of the
+    // repository that the worktree belongs to.
+    execFileSync("git", ["worktree", "remove", "--force", projectRepoDir], {
+      cwd: projectRepoDir,
       stdio: "pipe",
     });
   } catch {
@@ -93,7 +99,7 @@ export const removeProjectWorktree = (workspaceDir: string): void => {
 
 const detectGitRoot = (): string | undefined => {
   try {
-    return execSync("git rev-parse --show-toplevel", {
+    return execFileSync("git", ["rev-parse", "--show-toplevel"], {
       encoding: "utf8",
       stdio: ["pipe", "pipe", "pipe"],
     }).trim();
@@ -103,8 +109,32 @@ const detectGitRoot = (): string | undefined => {
 };
 
 const fetchSha = (repoPath: string, sha: string): void => {
-  execSync(`git fetch origin ${sha}`, {
+  execFileSync("git", ["fetch", "origin", sha], {
     cwd: repoPath,
     stdio: "pipe",
   });
 };
+
+const checkOutInWorktree = (
+  projectRepoDir: string,
+  commitSha: string,
+): string | undefined => {
+  try {
+    execFileSync("git", ["checkout", "--detach", commitSha], {
+      cwd: projectRepoDir,
+      stdio: "pipe",
+    });
+    console.log(
+      chalk.green(`  Project repo worktree is at ${commitSha.slice(0, 8)}.`),
+    );
+    return projectRepoDir;
+  } catch (error) {
+    const message = error instanceof Error ? error.message : String(error);
+    console.warn(
+      chalk.yellow(
+        `  Warning: Could not check out ${commitSha} in the existing ${projectRepoDir}, which is left at another commit: ${message}`,
+      ),
+    );
+    return undefined;
+  }
+};
-- 
2.43.0


From 762ed6ba41e663250e498f59e9b71edb0683f936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:31 +0000
Subject: [PATCH 70/84] fix: count only the debug workspaces that were deleted

---
 .../src/commands/debug/clean-workspaces.ts    | 34 +++++++++++--------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/packages/cli/src/commands/debug/clean-workspaces.ts b/packages/cli/src/commands/debug/clean-workspaces.ts
index 75c7998..474870b 100644
--- a/packages/cli/src/commands/debug/clean-workspaces.ts
+++ b/packages/cli/src/commands/debug/clean-workspaces.ts
@@ -43,10 +43,8 @@ export const cleanWorkspaces = async (
   console.log(`\nTotal: ${formatSize(totalSize)}`);
 
   if (options.all) {
-    for (const ws of workspaceInfos) {
-      deleteWorkspace(ws.path, ws.name, options.beforeDelete);
-    }
-    console.log(`\nDeleted ${entries.length} workspace(s).`);
+    const deleted = deleteWorkspaces(workspaceInfos, options.beforeDelete);
+    console.log(`\nDeleted ${deleted} workspace(s).`);
     return;
   }
 
@@ -83,10 +81,8 @@ export const cleanWorkspaces = async (
       return;
     }
 
-    for (const ws of workspaceInfos) {
-      deleteWorkspace(ws.path, ws.name, options.beforeDelete);
-    }
-    console.log(`Deleted ${entries.length} workspace(s).`);
+    const deleted = deleteWorkspaces(workspaceInfos, options.beforeDelete);
+    console.log(`Deleted ${deleted} workspace(s).`);
     return;
   }
 
@@ -108,30 +104,40 @@ export const cleanWorkspaces = async (
       return;
     }
 
-    for (const path of selected) {
-      const ws = workspaceInfos.find((w) => w.path === path);
-      deleteWorkspace(path, ws?.name ?? path, options.beforeDelete);
-    }
-    console.log(`Deleted ${selected.length} workspace(s).`);
+    const deleted = deleteWorkspaces(
+      workspaceInfos.filter((ws) => selected.includes(ws.path)),
+      options.beforeDelete,
+    );
+    console.log(`Deleted ${deleted} workspace(s).`);
   }
 };
 
+/** Returns how many of the workspaces were deleted */
+const deleteWorkspaces = (
+  workspaces: Array<{ name: string; path: string }>,
+  beforeDelete?: (workspaceDir: string) => void,
+): number =>
+  workspaces.filter((ws) => deleteWorkspace(ws.path, ws.name, beforeDelete))
+    .length;
+
 const deleteWorkspace = (
   fullPath: string,
   name: string,
   beforeDelete?: (workspaceDir: string) => void,
-): void => {
+): boolean => {
   if (beforeDelete) {
     beforeDelete(fullPath);
   }
   try {
     rmSync(fullPath, { recursive: true, force: true });
     console.log(`  Deleted: ${name}`);
+    return true;
   } catch (error) {
     const message = error instanceof Error ? error.message : String(error);
     console.warn(
       chalk.yellow(`  Warning: Could not delete ${name}: ${message}`),
     );
+    return false;
   }
 };
 
-- 
2.43.0


From 1586bb8949cec79ff377232aa892cc991653a586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:31 +0000
Subject: [PATCH 71/84] fix: don't present a part of a PR diff, or the diff of
 other commits, as the PR diff

---
 .../src/generate-debug-workspace.ts            | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/packages/debug-workspace/src/generate-debug-workspace.ts b/packages/debug-workspace/src/generate-debug-workspace.ts
index d4acae8..c898c2e 100644
--- a/packages/debug-workspace/src/generate-debug-workspace.ts
+++ b/packages/debug-workspace/src/generate-debug-workspace.ts
@@ -7,6 +7,7 @@ import {
   readFileSync,
   readdirSync,
   renameSync,
+  rmSync,
   statSync,
   unlinkSync,
   writeFileSync,
@@ -1352,6 +1353,9 @@ const generatePrDiff = (
   workspaceDir: string,
 ): void => {
   const projectRepoDir = join(workspaceDir, "project-repo");
+  const prDiffPath = join(workspaceDir, DEBUG_DATA_DIRECTORY, "pr-diff.txt");
+  // Left by an earlier run in the same workspace, maybe about other commits
+  rmSync(prDiffPath, { force: true });
   if (!existsSync(projectRepoDir)) {
     return;
   }
@@ -1375,15 +1379,17 @@ const generatePrDiff = (
       ["diff", `${effectiveBaseSha}..${headSha}`],
       { cwd: projectRepoDir, encoding: "utf8", maxBuffer: 50 * 1024 * 1024 },
     );
-  } catch (error: any) {
-    diffOutput = error?.stdout ?? "";
+  } catch (error) {
+    // What was output until then, if anything, is only a part of the diff
+    const message = error instanceof Error ? error.message : String(error);
+    console.warn(
+      chalk.yellow(`  Warning: Could not generate the PR diff: ${message}`),
+    );
+    return;
   }
 
   if (diffOutput.trim()) {
-    writeFileSync(
-      join(workspaceDir, DEBUG_DATA_DIRECTORY, "pr-diff.txt"),
-      diffOutput,
-    );
+    writeFileSync(prDiffPath, diffOutput);
     console.log(
       chalk.green(
         `  Generated PR diff (${effectiveBaseSha.slice(0, 8)}..${headSha.slice(0, 8)})`,
-- 
2.43.0


From 1266b13dd3e3d69d78962ea283aa28c3f58e4170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:39 +0000
Subject: [PATCH 72/84] fix: keep an earlier version's project selection that
 can't be read for now

---
 packages/client/src/oauth/legacy-project-migration.ts | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/packages/client/src/oauth/legacy-project-migration.ts b/packages/client/src/oauth/legacy-project-migration.ts
index da2e813..e686035 100644
--- a/packages/client/src/oauth/legacy-project-migration.ts
+++ b/packages/client/src/oauth/legacy-project-migration.ts
@@ -38,12 +38,19 @@ export const migrateLegacySelectedProjectIfPresent = async (
     return;
   }
 
+  let raw: string;
+  try {
+    raw = readFileSync(filePath, "utf-8");
+  } catch {
+    // Unreadable for now: leave the file in place to retry.
+    return;
+  }
+
   let legacyProjectId: string | undefined;
   try {
-    const raw = readFileSync(filePath, "utf-8");
     legacyProjectId = (JSON.parse(raw) as { projectId?: string }).projectId;
   } catch {
-    // Corrupt/unreadable legacy file — discard it and move on.
+    // Corrupt legacy file — discard it and move on.
     removeLegacyFile(filePath);
     return;
   }
-- 
2.43.0


From d83e7b4513ea61d5a70439a1e67f5de821db73e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:51 +0000
Subject: [PATCH 73/84] fix: don't report a logout that left the login stored

---
 packages/cli/src/commands/auth/logout.command.ts | 10 +++++++++-
 packages/client/src/oauth/oauth-token-store.ts   |  6 ++++--
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/packages/cli/src/commands/auth/logout.command.ts b/packages/cli/src/commands/auth/logout.command.ts
index 5a53d63..d12c4a0 100644
--- a/packages/cli/src/commands/auth/logout.command.ts
+++ b/packages/cli/src/commands/auth/logout.command.ts
@@ -3,13 +3,21 @@ import { initLogger, logNotice } from "@alwaysmeticulous/common";
 import type { Logger } from "loglevel";
 import type { CommandModule } from "yargs";
 import { wrapHandler } from "../../command-utils/sentry.utils";
+import { CliUserError } from "../../utils/cli-user-error";
 
 export const logoutCommand: CommandModule = {
   command: "logout",
   describe: "Clear stored OAuth tokens",
   handler: wrapHandler(() => {
     const logger = initLogger();
-    clearOAuthTokens();
+    if (clearOAuthTokens() === false) {
+      return Promise.reject(
+        new CliUserError(
+          "Could not remove the stored OAuth tokens: you are still logged in. " +
+            "Check that the Meticulous data directory is writable and try again.",
+        ),
+      );
+    }
     // The default project is a server-side, per-user setting (not local
     // machine state), so logging out here deliberately leaves it — it's
     // still there the next time this account logs back in, anywhere.
diff --git a/packages/client/src/oauth/oauth-token-store.ts b/packages/client/src/oauth/oauth-token-store.ts
index 347746b..73792b9 100644
--- a/packages/client/src/oauth/oauth-token-store.ts
+++ b/packages/client/src/oauth/oauth-token-store.ts
@@ -43,12 +43,14 @@ export const storeOAuthTokens = (tokens: StoredOAuthTokens): void => {
   });
 };
 
-export const clearOAuthTokens = (): void => {
+/** Best-effort: returns false, without throwing, if tokens remain stored. */
+export const clearOAuthTokens = (): boolean => {
   try {
     if (existsSync(getTokenFilePath())) {
       unlinkSync(getTokenFilePath());
     }
+    return true;
   } catch {
-    // Ignore errors during cleanup
+    return !existsSync(getTokenFilePath());
   }
 };
-- 
2.43.0


From 34b6b675a93eb78ba634f94f053656788c103f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:51 +0000
Subject: [PATCH 74/84] fix: keep the stored login when refreshed tokens cannot
 be written

---
 packages/client/src/oauth/oauth-refresh.ts     |  6 +++++-
 packages/client/src/oauth/oauth-token-store.ts | 18 +++++++++++++++---
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/packages/client/src/oauth/oauth-refresh.ts b/packages/client/src/oauth/oauth-refresh.ts
index 8ce5379..78fad08 100644
--- a/packages/client/src/oauth/oauth-refresh.ts
+++ b/packages/client/src/oauth/oauth-refresh.ts
@@ -67,7 +67,11 @@ export const getValidAccessToken = async (): Promise<string | null> => {
       ...(data.id_token !== undefined ? { idToken: data.id_token } : {}),
     };
 
-    storeOAuthTokens(updatedTokens);
+    try {
+      storeOAuthTokens(updatedTokens);
+    } catch {
+      // Tokens that can't be stored (e.g. on a full disk) are still valid.
+    }
     return updatedTokens.accessToken;
   } catch {
     return handleRefreshFailure();
diff --git a/packages/client/src/oauth/oauth-token-store.ts b/packages/client/src/oauth/oauth-token-store.ts
index 73792b9..75ae41d 100644
--- a/packages/client/src/oauth/oauth-token-store.ts
+++ b/packages/client/src/oauth/oauth-token-store.ts
@@ -1,7 +1,10 @@
+import { randomUUID } from "crypto";
 import {
   existsSync,
   mkdirSync,
   readFileSync,
+  renameSync,
+  rmSync,
   unlinkSync,
   writeFileSync,
 } from "fs";
@@ -38,9 +41,18 @@ export const storeOAuthTokens = (tokens: StoredOAuthTokens): void => {
   if (!existsSync(getMeticulousDir())) {
     mkdirSync(getMeticulousDir(), { recursive: true });
   }
-  writeFileSync(getTokenFilePath(), JSON.stringify(tokens, null, 2), {
-    mode: 0o600,
-  });
+  // Written aside and moved into place, so that a failed or interrupted write
+  // (e.g. a full disk) doesn't destroy the login that is stored.
+  const temporaryPath = `${getTokenFilePath()}.${randomUUID()}.tmp`;
+  try {
+    writeFileSync(temporaryPath, JSON.stringify(tokens, null, 2), {
+      mode: 0o600,
+    });
+    renameSync(temporaryPath, getTokenFilePath());
+  } catch (error) {
+    rmSync(temporaryPath, { force: true });
+    throw error;
+  }
 };
 
 /** Best-effort: returns false, without throwing, if tokens remain stored. */
-- 
2.43.0


From fc17435d86b08934060b03aaa199678a28e396ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:51 +0000
Subject: [PATCH 75/84] fix: don't replace a login made while another user's
 was refreshed

---
 packages/client/src/oauth/oauth-refresh.ts | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/packages/client/src/oauth/oauth-refresh.ts b/packages/client/src/oauth/oauth-refresh.ts
index 78fad08..7e04feb 100644
--- a/packages/client/src/oauth/oauth-refresh.ts
+++ b/packages/client/src/oauth/oauth-refresh.ts
@@ -5,6 +5,7 @@ import {
   getStoredOAuthTokens,
   storeOAuthTokens,
 } from "./oauth-token-store";
+import { getJwtClaims } from "./oauth-utils";
 
 const TOKEN_EXPIRY_BUFFER_SECONDS = 30;
 
@@ -67,10 +68,14 @@ export const getValidAccessToken = async (): Promise<string | null> => {
       ...(data.id_token !== undefined ? { idToken: data.id_token } : {}),
     };
 
-    try {
-      storeOAuthTokens(updatedTokens);
-    } catch {
-      // Tokens that can't be stored (e.g. on a full disk) are still valid.
+    // Someone may have logged in as another user during this refresh.
+    const current = getStoredOAuthTokens();
+    if (!current || getSubject(current) === getSubject(tokens)) {
+      try {
+        storeOAuthTokens(updatedTokens);
+      } catch {
+        // Tokens that can't be stored (e.g. on a full disk) are still valid.
+      }
     }
     return updatedTokens.accessToken;
   } catch {
@@ -78,6 +83,9 @@ export const getValidAccessToken = async (): Promise<string | null> => {
   }
 };
 
+const getSubject = (tokens: StoredOAuthTokens): unknown =>
+  getJwtClaims(tokens.accessToken)?.["sub"];
+
 const isExpired = (tokens: StoredOAuthTokens): boolean =>
   tokens.expiresAt <=
   Math.floor(Date.now() / 1000) + TOKEN_EXPIRY_BUFFER_SECONDS;
-- 
2.43.0


From 952a8f46bcdad0b44fcb133e512724aca9e73572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:18 +0000
Subject: [PATCH 76/84] fix: onboard takes the CI provider from the remote's
 host, not from its path

---
 .../cli/src/commands/onboard/git-repo-info.ts    | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/packages/cli/src/commands/onboard/git-repo-info.ts b/packages/cli/src/commands/onboard/git-repo-info.ts
index ee5de6c..b5e4d96 100644
--- a/packages/cli/src/commands/onboard/git-repo-info.ts
+++ b/packages/cli/src/commands/onboard/git-repo-info.ts
@@ -59,18 +59,28 @@ export const detectCiProvider = (
   if (!repoUrl) {
     return "unknown";
   }
-  if (/github\.com/i.test(repoUrl)) {
+  // Only the host says where the repository is: its path may name another one
+  // (e.g. a mirror called `github.com-mirror` on GitLab).
+  const host = repoHost(repoUrl);
+  if (/github\.com/i.test(host)) {
     return "github-actions";
   }
-  if (/gitlab\.com/i.test(repoUrl) || /gitlab\./i.test(repoUrl)) {
+  if (/gitlab\.com/i.test(host) || /gitlab\./i.test(host)) {
     return "gitlab-ci";
   }
-  if (/bitbucket\.org/i.test(repoUrl) || /bitbucket\./i.test(repoUrl)) {
+  if (/bitbucket\.org/i.test(host) || /bitbucket\./i.test(host)) {
     return "bitbucket-pipelines";
   }
   return "unknown";
 };
 
+/** Host part of an `https://host/path`, `ssh://…` or `git@host:path` remote. */
+const repoHost = (repoUrl: string): string =>
+  repoUrl
+    .replace(/^[a-z][a-z0-9+.-]*:\/\//i, "")
+    .replace(/^[^@:/]*@/, "")
+    .split(/[:/]/)[0];
+
 export const parseGitHubRepo = (
   repoUrl: string,
 ): { owner: string; repo: string } | null => {
-- 
2.43.0


From ebdd292afd536af0fec4d155379e6fc40a3bdddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:18 +0000
Subject: [PATCH 77/84] fix: onboard finds the secrets page of repositories
 with dots in their names

---
 packages/cli/src/commands/onboard/git-repo-info.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/cli/src/commands/onboard/git-repo-info.ts b/packages/cli/src/commands/onboard/git-repo-info.ts
index b5e4d96..3e83fc3 100644
--- a/packages/cli/src/commands/onboard/git-repo-info.ts
+++ b/packages/cli/src/commands/onboard/git-repo-info.ts
@@ -84,7 +84,7 @@ const repoHost = (repoUrl: string): string =>
 export const parseGitHubRepo = (
   repoUrl: string,
 ): { owner: string; repo: string } | null => {
-  const ssh = repoUrl.match(/github\.com[:/]([^/]+)\/([^/.]+)(?:\.git)?$/i);
+  const ssh = repoUrl.match(/github\.com[:/]([^/]+)\/([^/]+?)(?:\.git)?$/i);
   if (ssh) {
     return { owner: ssh[1], repo: ssh[2] };
   }
-- 
2.43.0


From 98924961ef26af5417b9ccee7df5abc488173d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:18 +0000
Subject: [PATCH 78/84] fix: onboard treats a nuxt3 app without a config as
 rendered on the server

---
 packages/cli/src/commands/onboard/detect-framework.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/packages/cli/src/commands/onboard/detect-framework.ts b/packages/cli/src/commands/onboard/detect-framework.ts
index 208de66..fab6f9f 100644
--- a/packages/cli/src/commands/onboard/detect-framework.ts
+++ b/packages/cli/src/commands/onboard/detect-framework.ts
@@ -160,7 +160,10 @@ const detectNuxtSsr = (
     return { ssr: true, confirmedByConfig: true };
   }
   // Dependency only: no config to confirm the default.
-  return { ssr: hasDependency(pkg, "nuxt"), confirmedByConfig: false };
+  return {
+    ssr: hasDependency(pkg, "nuxt") || hasDependency(pkg, "nuxt3"),
+    confirmedByConfig: false,
+  };
 };
 
 const detectRemixSsr = (
-- 
2.43.0


From 6147b45b51d245cfa1a1e8c8cefeda9b849b44d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:18 +0000
Subject: [PATCH 79/84] fix: leaving the project picker ends onboarding

---
 packages/cli/src/commands/onboard/resolve-project.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/packages/cli/src/commands/onboard/resolve-project.ts b/packages/cli/src/commands/onboard/resolve-project.ts
index bbbb42e..40c0dbe 100644
--- a/packages/cli/src/commands/onboard/resolve-project.ts
+++ b/packages/cli/src/commands/onboard/resolve-project.ts
@@ -53,7 +53,11 @@ export const resolveOnboardProject = async (options: {
     }
     return await getProject(client, selectedId);
   } catch (error) {
-    if (error instanceof CliUserError) {
+    // Leaving the picker (Ctrl+C) is a wish to stop, not a failed login.
+    if (
+      error instanceof CliUserError ||
+      (error instanceof Error && error.name === "ExitPromptError")
+    ) {
       throw error;
     }
     console.log(
-- 
2.43.0


From a4096e99ec7ba4a5a7ce871fa941ad58192ed4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:47 +0000
Subject: [PATCH 80/84] fix: show the Finish Recording button on pages that
 load before it is injected

---
 .../record/utils/inject-finish-recording-frame.ts    | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/packages/record/src/record/utils/inject-finish-recording-frame.ts b/packages/record/src/record/utils/inject-finish-recording-frame.ts
index cbac2fb..64e3a66 100644
--- a/packages/record/src/record/utils/inject-finish-recording-frame.ts
+++ b/packages/record/src/record/utils/inject-finish-recording-frame.ts
@@ -21,7 +21,7 @@ export const injectFinishRecordingFrame = async (
         }
 
         await frame.evaluate((callbackFnName) => {
-          window.addEventListener("load", () => {
+          const injectFrame = () => {
             const hasFinishRecordingIframe = !!document.getElementById(
               "__meticulous__finish_recording_iframe",
             );
@@ -83,7 +83,15 @@ export const injectFinishRecordingFrame = async (
           </html>
         `);
             iframeDoc.close();
-          });
+          };
+
+          // The page may have finished loading by the time this runs, in which
+          // case there is no load event left to wait for.
+          if (document.readyState === "complete") {
+            injectFrame();
+          } else {
+            window.addEventListener("load", injectFrame);
+          }
         }, callbackFnName);
       } catch (err) {
         console.error(err);
-- 
2.43.0


From 66a10e6fd73557f08c50a4b1aeccadc0e1638c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:47 +0000
Subject: [PATCH 81/84] fix: a double click on Finish Recording does not fail
 the login recording

---
 packages/record/src/record/record-login-flow.ts | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/packages/record/src/record/record-login-flow.ts b/packages/record/src/record/record-login-flow.ts
index 296ada5..5f42cfd 100644
--- a/packages/record/src/record/record-login-flow.ts
+++ b/packages/record/src/record/record-login-flow.ts
@@ -101,6 +101,7 @@ export const recordLoginFlowSession = async ({
   let isRecordingComplete = false;
   let onDataSessionSaved = false;
   let startedLoginSessionRecording = false;
+  let isFinishing = false;
 
   const recordingCompleteCallback = defer();
 
@@ -125,6 +126,11 @@ export const recordLoginFlowSession = async ({
     "__meticulousFinishRecording",
     async () => {
       logger.debug("Finish recording button clicked");
+      if (isFinishing) {
+        // A double click: the first click is already saving the recording.
+        return;
+      }
+      isFinishing = true;
       const loginDataPage = await context.newPage();
       const finalLoginUrl = loginFlowPage.url();
 
-- 
2.43.0


From da4b36cbc1b261fe9b006cdf0394f8ebd3cdad3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:47 +0000
Subject: [PATCH 82/84] fix: handle workers that are gone before they could be
 instrumented

---
 packages/record/src/record/record.utils.ts | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/packages/record/src/record/record.utils.ts b/packages/record/src/record/record.utils.ts
index cc59d09..984c6f2 100644
--- a/packages/record/src/record/record.utils.ts
+++ b/packages/record/src/record/record.utils.ts
@@ -1,4 +1,5 @@
 import { readFile } from "fs/promises";
+import { initLogger } from "@alwaysmeticulous/common";
 import type { Page } from "puppeteer-core";
 import {
   METICULOUS_BYPASS_CSP_DOCS_URL,
@@ -89,9 +90,14 @@ export async function bootstrapPage({
 
   const workerBundleSource = await readFile(workerRecordingSnippet, "utf8");
   page.on("workercreated", (worker) => {
-    void worker.evaluate((src: string) => {
-      (0, eval)(src);
-    }, workerBundleSource);
+    worker
+      .evaluate((src: string) => {
+        (0, eval)(src);
+      }, workerBundleSource)
+      .catch((error) => {
+        // Expected for a worker that is gone before it could be instrumented
+        initLogger().debug("Could not instrument worker", error);
+      });
   });
 
   await page.evaluateOnNewDocument(
-- 
2.43.0


From 7b981d54ab4692d7331e7ed08d5361feaeab3e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:48 +0000
Subject: [PATCH 83/84] fix: wait for session notifications before ending
 record session

---
 packages/cli/src/commands/record/session.command.ts | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/packages/cli/src/commands/record/session.command.ts b/packages/cli/src/commands/record/session.command.ts
index 39db613..e5d6071 100644
--- a/packages/cli/src/commands/record/session.command.ts
+++ b/packages/cli/src/commands/record/session.command.ts
@@ -94,13 +94,14 @@ const handler = async ({
   const cookieDir = join(getMeticulousLocalDataDir(), "cookies");
   const recordingCommandId = await getRecordingCommandId(client, projectId);
 
+  const pendingNotifications: Promise<void>[] = [];
   const onDetectedSession = (sessionId: string) => {
     const organizationName = encodeURIComponent(project.organization.name);
     const projectName = encodeURIComponent(project.name);
     const sessionUrl = `https://app.meticulous.ai/projects/${organizationName}/${projectName}/sessions/${sessionId}`;
     logger.info(`Recording session: ${sessionUrl}`);
 
-    postSessionIdNotification(
+    const notification = postSessionIdNotification(
       client,
       sessionId,
       recordingCommandId,
@@ -115,6 +116,7 @@ const handler = async ({
       );
       debugLogger?.log(`${error}`);
     });
+    pendingNotifications.push(notification);
   };
 
   await recordSession({
@@ -139,6 +141,9 @@ const handler = async ({
     debugLogger?.log(`${error}`);
     throw error;
   });
+
+  // The process exits once the handler returns
+  await Promise.all(pendingNotifications);
 };
 
 export const recordSessionCommand: CommandModule<unknown, Options> = {
-- 
2.43.0


From f82080a6b36e44bb01349522227a5c8eb0f04bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:48 +0000
Subject: [PATCH 84/84] fix: replace the saved cookies atomically and start
 without them if they cannot be read

---
 packages/record/src/record/record.ts | 50 ++++++++++++++++++++++------
 1 file changed, 39 insertions(+), 11 deletions(-)

diff --git a/packages/record/src/record/record.ts b/packages/record/src/record/record.ts
index 398277b..d73be39 100644
--- a/packages/record/src/record/record.ts
+++ b/packages/record/src/record/record.ts
@@ -1,7 +1,7 @@
-import { mkdir, readFile, writeFile } from "fs/promises";
+import { mkdir, readFile, rename, writeFile } from "fs/promises";
 import { join } from "path";
 import { initLogger, ensureBrowser } from "@alwaysmeticulous/common";
-import type { Browser, PuppeteerNode } from "puppeteer-core";
+import type { Browser, Page, PuppeteerNode } from "puppeteer-core";
 import puppeteer, { launch } from "puppeteer-core";
 import type { RecordSessionOptions } from "../types";
 import {
@@ -125,8 +125,10 @@ export const recordSession = async ({
       join(cookieDir, COOKIE_FILENAME),
       "utf-8",
     ).catch(() => "");
-    if (cookiesStr) {
-      const cookies = JSON.parse(cookiesStr);
+    const cookies = parseCookies(cookiesStr);
+    if (cookies == null) {
+      logger.warn("Could not restore the saved cookies, continuing without.");
+    } else {
       await page.setCookie(...cookies);
     }
   }
@@ -158,6 +160,7 @@ export const recordSession = async ({
   // Collect and show recorded session ids
   // Also save page cookies if not in incognito context
   const sessionIds: string[] = [];
+  let isSavingCookies = false;
   const interval = setInterval(() => {
     void (async () => {
       try {
@@ -170,13 +173,13 @@ export const recordSession = async ({
             onDetectedSession(sessionId);
           }
         }
-        if (!useIncognito && cookieDir) {
-          const cookies = await page.cookies();
-          await writeFile(
-            join(cookieDir, COOKIE_FILENAME),
-            JSON.stringify(cookies, null, 2),
-            "utf-8",
-          );
+        if (!useIncognito && cookieDir && !isSavingCookies) {
+          isSavingCookies = true;
+          try {
+            await saveCookies(cookieDir, await page.cookies());
+          } finally {
+            isSavingCookies = false;
+          }
         }
       } catch (error) {
         // Suppress expected errors due to page navigation
@@ -197,3 +200,28 @@ export const recordSession = async ({
 
   await browser.close();
 };
+
+const parseCookies = (
+  cookiesStr: string,
+): Parameters<Page["setCookie"]> | null => {
+  if (!cookiesStr) {
+    return [];
+  }
+  try {
+    return JSON.parse(cookiesStr);
+  } catch {
+    return null;
+  }
+};
+
+// Replaces the file in one step, so that it can be read back whenever the
+// recording ends.
+const saveCookies = async (
+  cookieDir: string,
+  cookies: Awaited<ReturnType<Page["cookies"]>>,
+): Promise<void> => {
+  const cookiesPath = join(cookieDir, COOKIE_FILENAME);
+  const tempPath = `${cookiesPath}.${process.pid}.tmp`;
+  await writeFile(tempPath, JSON.stringify(cookies, null, 2), "utf-8");
+  await rename(tempPath, cookiesPath);
+};
-- 
2.43.0

