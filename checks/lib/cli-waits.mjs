// Harness for CLI commands that wait for a test run, a report or a base run.
// The real command handlers run against a service whose runs and reports
// evolve in simulated time; the oracle re-derives the expected ending from the
// answers the service actually delivered.
import { bundle } from "../../sim/bundle.mjs";
import { Disk } from "../../sim/fs.mjs";
import { realPackages } from "../../sim/npm.mjs";
import { simFetch } from "../../sim/net.mjs";
import { mkProc } from "./downloads.mjs";

const CMD = "packages/cli/src/commands/";
export const WAITS_META = {
  real: ["packages/cli/src/commands/agent/{complete-base-run,test-run-check,test-run-diffs,trigger-test-run,test-run-for-commit,js-coverage}.command.ts", "packages/cli/src/commands/ci/{run,run-with-uploaded-asset-chunks,prepare}.command.ts", "packages/cli/src/utils, command-utils", "packages/remote-replay-launcher/src (triggering)", "packages/client/src", "packages/common/src"],
  stubs: ["API service: runs, base runs and reports evolving in time", "storage for signed uploads, fetch: simulated network", "ora, cli-progress, chalk, loglevel, @sentry/node, yargs: trivial", "fs: simulated disk"],
  assumptions: ["the wall clock does not jump while a command waits (monotonic deadlines are not affected)", "a run does not leave a final state"],
};
let built;
export const buildWaitsBundle = async () => (built ??= { cli: (await bundle({
  complete: CMD + "agent/complete-base-run.command.ts", check: CMD + "agent/test-run-check.command.ts", diffs: CMD + "agent/test-run-diffs.command.ts", trigger: CMD + "agent/trigger-test-run.command.ts",
  forCommit: CMD + "agent/test-run-for-commit.command.ts", coverage: CMD + "agent/js-coverage.command.ts", chunks: CMD + "ci/run-with-uploaded-asset-chunks.command.ts", ciRun: CMD + "ci/run.command.ts",
}, { real: realPackages() })).code });

const IN_PROGRESS = ["PreProcessing", "Scheduled", "Running", "PostProcessing"];
const inProgress = (s) => IN_PROGRESS.includes(s);
const failedRun = (s) => s === "Aborted" || s === "ExecutionError";
const MIN = 60e3;
const json = (r) => ({ ...r, headers: { "content-type": "application/json", ...(r.headers ?? {}) }, body: JSON.stringify(r.body ?? null) });
class End extends Error { constructor(o) { super("end"); this.o = o; } }

/** time at which something ends, relative to a time-out */
const when = (sim, timeout) => { const k = sim.pick("w:span", ["0", "short", "short", "mid", "mid", "edge", "over", "never"]); return k === "0" ? 0 : k === "short" ? sim.int("w:t", 1, 30e3) : k === "mid" ? sim.int("w:t", 1, timeout) : k === "edge" ? timeout + sim.int("w:te", -25e3, 25e3) : k === "over" ? timeout + sim.int("w:t", 1, timeout) : Infinity; };

export const runCommand = async (sim, { scripts }) => {
  const K = sim.prop; const disk = new Disk(sim); disk.mkdir("/tmp", { recursive: true });
  const cmd = sim.pick("w:cmd", ["complete", "complete", "check", "check", "diffs", "diffs", "trigger", "forCommit", "coverage", "chunks", "ciRun"]);
  const byCommit = ["forCommit"].includes(cmd) || (["complete", "check", "diffs", "coverage"].includes(cmd) && sim.chance("w:byCommit", 0.35));
  const dontWait = cmd !== "ciRun" && sim.chance("w:dont", 0.12); const asJson = sim.chance("w:json", 0.5);
  const checkType = sim.pick("w:ct", ["builtin", "custom"]); const counts = cmd === "diffs" && sim.chance("w:counts", 0.2); const union = cmd === "coverage" && sim.chance("w:union", 0.4);
  // ---- the service's world
  const mkRun = (id, o = {}) => {
    const end = o.end ?? when(sim, 10 * MIN); const final = o.final ?? sim.pick("w:final", ["Success", "Success", "Failure", "Failure", "Partial", "Skipped", "Aborted", "ExecutionError"]); const pool = sim.chance("w:pool", o.pool ?? 0.06);
    const first = sim.int("w:first", 0, 3);
    return { id, end, final, pool, at: (t) => ({ id, url: `https://app.sim/${id}`, status: t >= end ? final : IN_PROGRESS[Math.min(3, first + (end === Infinity ? (t > 200e3 ? 1 : 0) : Math.floor((t / end) * (4 - first))))], project: { id: "p" }, configData: { arguments: pool ? { isSessionPool: true } : {}, testCases: [] }, resultData: { results: [] } }) };
  };
  const runs = new Map();
  const total = sim.int("w:sessions", 1, 5); const S = Array.from({ length: total }, (_, i) => `s${i}`);
  const base = { // a base run being completed: sessions gain results over time, some need a further request first, some never can
    doneAt: S.map(() => when(sim, 10 * MIN)), lostAt: S.map(() => sim.chance("w:lost", 0.2) ? (sim.chance("w:lost0", 0.5) ? 0 : sim.int("w:lostAt", 1, 12 * MIN)) : Infinity), needsAsk: S.map(() => sim.chance("w:ask", 0.25) ? sim.int("w:asks", 2, 4) : 1), dup: sim.chance("w:dup", 0.2), extra: sim.chance("w:extra", 0.2), fail: sim.chance("w:bfail", 0.12) ? { at: when(sim, 10 * MIN), status: sim.pick("w:bf", ["Aborted", "ExecutionError", "Skipped"]) } : null, settle: sim.pick("w:settle", [0, 5e3, 60e3, 400e3, Infinity]), reject: sim.chance("w:rej", 0.08) ? { from: sim.pick("w:rejn", [1, 1, 2, 3]), reason: sim.pick("w:rejr", ["not-a-base-run", "dead-end-status", "ephemeral-deployment", "other"]) } : null, asked: 0, askAt: [],
  };
  const doneTime = (i) => { const from = base.askAt[base.needsAsk[i] - 1]; const d = from === undefined ? Infinity : from + base.doneAt[i]; return d < base.lostAt[i] ? d : Infinity; };
  const sessDone = (i, t) => t >= doneTime(i);
  const baseState = (t) => { const done = S.filter((_, i) => sessDone(i, t)); const left = S.filter((_, i) => !sessDone(i, t)); const lost = left.filter((s) => t >= base.lostAt[S.indexOf(s)]);
    let status = "Partial"; if (base.fail && t >= base.fail.at) status = base.fail.status; else if (left.length === lost.length) { const last = Math.max(0, ...S.map((_, i) => Math.min(base.lostAt[i], doneTime(i)))); status = t >= last + base.settle ? base.finalStatus : base.stale ? "Success" : "Partial"; }
    return { done, left, lost, status }; };
  base.stale = sim.chance("w:stale", 0.3); base.finalStatus = sim.pick("w:bstatus", ["Success", "Failure"]);
  if (cmd === "complete") runs.set("run1", { id: "run1", at: (t) => { const b = baseState(t); const results = b.done.map((s) => ({ sessionId: s })); if (base.dup && results.length) results.push(results[0]); if (base.extra) results.push({ sessionId: "other" }); return { id: "run1", status: b.status, configData: { testCases: [...S.map((s) => ({ sessionId: s })), ...(base.dup ? [{ sessionId: "s0" }] : [])] }, resultData: results.length || sim.chance("w:rd", 0.5) ? { results } : undefined }; } });
  else runs.set("run1", mkRun("run1"));
  const unionIds = union ? Array.from({ length: sim.int("w:un", 1, 2) }, (_, i) => `u${i}`) : [];
  for (const u of unionIds) runs.set(u, mkRun(u, { final: sim.pick("w:final", ["Success", "Failure", "Partial", "Aborted"]) }));
  const noRun = byCommit && sim.chance("w:norun", 0.05); const gone = sim.chance("w:gone", 0.03) ? sim.pick("w:goneS", [404, 403]) : null;
  const report = { readyAt: null, kind: sim.pick("w:rk", ["complete", "complete", "complete", "failed", "weird", "never"]), delay: when(sim, cmd === "diffs" ? 10 * MIN : 3 * MIN), reject: sim.chance("w:rrej", 0.05), rejectReason: sim.pick("w:rrr", ["base-run-not-applicable", "other"]), rows: Array.from({ length: sim.int("w:rows", 0, 3) }, (_, i) => ({ replayDiffId: `d${i}`, screenshotName: `shot ${i}` })) };
  const baseTest = { at: when(sim, 30 * MIN) };
  // ---- faults: only on the waiting requests
  const p = sim.pick("w:pf", [0, 0, 0.03, 0.1, 0.4]); let burst = 0, outage = null, disturbed = 0;
  if (p && sim.chance("f:outage", 0.4)) { const a = sim.int("f:oa", 0, 12 * MIN); outage = [a, a + sim.pick("f:ol", [3e3, 8e3, 20e3, 200e3])]; }
  const waiting = (i) => i.method === "GET" && !/projects?$/.test(i.path) || /complete-base-run$/.test(i.path);
  const faultFor = (info) => {
    if (!p || !waiting(info)) return null; const out = outage && sim.now >= outage[0] && sim.now < outage[1];
    if (!out && burst <= 0) { if (!sim.chance("f:p", p)) return null; burst = sim.pick("f:burst", [1, 1, 2, 3, 4, 12]); }
    burst--; disturbed++; const k = sim.pick("f:k", ["status", "status", "lost", "refuse", "stall", "cut", "slow"]);
    return k === "status" ? { kind: k, status: sim.pick("f:st", [500, 502, 503, 504, 429]) } : k === "slow" ? { kind: k, delay: sim.pick("f:sd", [500, 5e3, 30e3]) } : { kind: k, after: 0 };
  };
  const handle = (info, f) => {
    if (f?.kind === "status") return json({ status: f.status, body: { message: "try later" } });
    const path = info.path.replace(/^\/api\//, ""); let m; const t = sim.now; const nope = json({ status: gone ?? 404, body: { message: "gone" } });
    if (path === "agent/test-runs") return json({ body: noRun ? { testRunId: null, status: null } : { testRunId: "run1", status: runs.get("run1").at(t).status, commitSha: "c1" } });
    if (path === "project-deployments/create-run-with-uploaded-asset-chunks") return json({ body: { sourceDeploymentId: "dep1" } });
    if (path === "project-deployments/request-git-diff-upload" || path === "agent/upload-build/git-diff") return json({ body: { uploadUrl: "https://s3.sim/diff", deploymentId: "dep1" } });
    if (path === "project-deployments/trigger-run-with-uploaded-asset-chunks" || path === "agent/trigger-test-run") return json({ body: { testRun: runs.get("run1").at(t), commitSha: "c1" } });
    if (path === "github-cloud-replay/base-test-run") return json({ body: { baseTestRun: t >= baseTest.at ? { id: "b1" } : null, baseCommitSha: "b0" } });
    if ((m = /^test-runs\/([^/]+)$/.exec(path))) { const r = runs.get(m[1]); return r && !(gone && m[1] === "run1") ? json({ body: r.at(t) }) : nope; }
    if (path === "agent/test-runs/run1/complete-base-run" && info.method === "POST") {
      base.asked++; if (base.reject && base.asked >= base.reject.from) return json({ status: 400, body: { reason: base.reject.reason, message: `declined: ${base.reject.reason}` } });
      const before = base.askAt.length; base.askAt.push(t); const b = baseState(t); const scheduled = S.filter((_, i) => t < base.lostAt[i] && base.needsAsk[i] === before + 1 && !sessDone(i, t)).length;
      return json({ body: { testRunId: "run1", status: b.status, unexecutedSessionCount: b.left.length, unobtainableSessionCount: b.lost.length, sessionsScheduled: scheduled, configuredSessionCount: total } });
    }
    if ((m = /^agent\/test-runs\/([^/]+)\/(checks\/my%20check|diffs-summary|diffs-summary\/counts|js-coverage)$/.exec(path))) {
      if (report.reject) return json({ status: 400, body: { reason: report.rejectReason, message: `refused: ${report.rejectReason}` } });
      if (m[2] === "diffs-summary/counts") return json({ body: { numReplays: 1, numDiffs: report.rows.length, numApproved: 0, numIgnored: 0, numRejected: 0, numUnreviewed: report.rows.length, numWithOpenComments: 0 } });
      if (m[2] === "js-coverage") return json({ body: { files: report.rows.map((r) => ({ repoFilePath: r.screenshotName, executedRanges: [] })) } });
      report.readyAt ??= t + report.delay; const ready = t >= report.readyAt && report.kind !== "never";
      if (!ready) return json({ body: { status: m[2] === "diffs-summary" ? sim.pick("w:rst", ["pending", "processing"]) : "processing" } });
      if (report.kind === "failed") return json({ body: { status: "failed", reason: sim.pick("w:rr", ["test-run-not-ready", "no-data"]) } });
      if (report.kind === "weird" && m[2] === "diffs-summary") return json({ body: { status: "paused" } });
      return json({ body: m[2] === "diffs-summary" ? { status: "complete", data: report.rows } : { status: "complete", text: "# the report", ...(report.rows.length ? { url: "https://x/y" } : {}) } });
    }
    return nope;
  };
  // ---- the process
  const proc = mkProc(sim, disk, "cli", { handle, faultFor }, { clockOffset: sim.pick("w:skew", [0, -3600e3, 86400e3]), tty: false, argv: ["node", "meticulous"], env: { METICULOUS_DIR: "/data", METICULOUS_IS_CLOUD_REPLAY: "true", CI: "true" } });
  const stored = []; proc.opts.httpNet = { name: "s3", latency: [1, 60], chunks: 2, faultFor: () => null, handle: (i) => { stored.push(i.method); return { status: 200 }; } };
  proc.factories.ora = () => { const o = () => ({ start() { return this; }, stop() { return this; }, succeed() { return this; }, fail() { return this; }, text: "" }); return Object.assign(o, { default: o, __esModule: true }); };
  proc.onUncaught = () => {};
  const log = []; // every attempt, as the command saw it
  const inner = simFetch(proc, { name: "api", latency: [1, 60], chunks: 2, undiciTimeouts: true, faultFor, handle });
  proc.opts.fetch = async (u, i) => {
    const url = new URL(String(u?.url ?? u)); const e = { t: sim.now, end: null, status: null, path: url.pathname.replace(/^\/api\//, ""), query: url.searchParams, method: i?.method ?? "GET", value: undefined }; log.push(e);
    try { const r = await inner(u, i); e.status = r.status; const orig = r.json.bind(r); r.json = async () => { try { const v = await orig(); e.value = v; e.end = sim.now; return v; } catch (x) { e.err = x; e.end = sim.now; throw x; } }; return r; } catch (x) { e.err = x; e.end = sim.now; throw x; }
  };
  const m = proc.load(scripts.cli); const start = sim.now; let endAt = null; (proc.onCrash ??= []).push(() => { endAt ??= sim.now; });
  const id = byCommit ? { commitSha: "c1" } : { testRunId: "run1" }; const o = { apiToken: "t", json: asJson, dontWaitForTestRunToComplete: dontWait };
  disk.put("/work/manifest.json", JSON.stringify([{ name: "a", versionId: "1" }]));
  const handler = {
    complete: () => m.complete.completeBaseRunCommand.handler({ ...o, ...id }), check: () => m.check.testRunCheckCommand.handler({ ...o, ...id, checkId: "my check", checkType, availableIds: false }),
    diffs: () => m.diffs.testRunDiffsCommand.handler({ ...o, ...id, counts }), trigger: () => m.trigger.triggerTestRunCommand.handler({ ...o, deploymentId: "dep1", baseSha: "b0", gitDiffOutput: "diff --git a b" }),
    forCommit: () => m.forCommit.testRunForCommitCommand.handler({ ...o, commitSha: "c1" }), coverage: () => m.coverage.jsCoverageCommand.handler({ ...o, ...(union && !byCommit ? { testRunIds: ["run1", ...unionIds].join(",") } : { ...id, ...(union ? { headPlusTestRunIds: unionIds.join(",") } : {}) }) }),
    chunks: () => m.chunks.ciRunWithUploadedAssetChunksCommand.handler({ apiToken: "t", commitSha: "c1", baseSha: "b0", gitDiffOutput: "diff", assetReferencesManifest: "/work/manifest.json", rewrites: "[]", waitForBase: true, waitForTestRunToComplete: !dontWait }),
    ciRun: () => m.ciRun.ciRunCommand.handler({ apiToken: "t", commitSha: "c1", appUrl: "http://localhost:3000", keepTunnelOpenSec: 0, hadPreparedForTests: true, dryRun: true }),
  }[cmd];
  proc.at(0, () => { handler().catch(() => {}); }, "start");
  // commands without a deadline of their own are stopped by the user eventually
  const cap = cmd === "chunks" ? 40 * MIN : 3 * 3600e3;
  const st = await sim.run(async () => { while (proc.alive && sim.now < cap) await sim.sleep(5000); }, { maxTime: cap + MIN, maxEvents: 120000 });
  if (sim.stopped) return { sample: {} };
  const ended = !proc.alive; const lines = proc.consoleLines; const out = lines.filter((l) => l.startsWith("log ")).map((l) => l.slice(4)); const say = lines.filter((l) => !l.startsWith("log "));
  // ---- group attempts into the requests the command made
  const reqs = []; for (const a of log) { const g = reqs.at(-1); const last = g?.list.at(-1);
    if (last && (last.err || last.status === 429 || last.status >= 500) && g.path === a.path && g.method === a.method && g.list.length < 4) { g.list.push(a); } else reqs.push({ path: a.path, method: a.method, t: a.t, list: [a] }); }
  for (const g of reqs) { const l = g.list.at(-1); g.end = l.end; g.ok = !l.err && l.status < 300 && l.end !== null; g.value = l.value; g.status = l.status; g.transient = l.err || l.status === 429 || l.status >= 500; g.pending = l.end === null && !l.err;
    if (!g.ok && !g.pending && g.transient && (ended || sim.now - l.end > 40e3)) sim.check(g.list.length === 4, `${K}.gave-up`, () => `${cmd}: ${g.method} ${g.path} was given up after ${g.list.length} attempts (${l.err?.message ?? l.status})`); }
  if (sim.stopped) return { sample: {} };
  // ---- what should have happened, step by step
  { const rest = reqs.filter((g) => !/^(agent\/)?projects?(\/|$)/.test(g.path)); reqs.length = 0; reqs.push(...rest); } // hints that name the project
  let i = 0; const EPS = 5; const trace = []; const FAILREQ = { exit: 1 };
  const peek = () => reqs[i];
  const take = (method, re, prev, gap) => {
    const r = peek(); if (!r && !ended && sim.now - (reqs.at(-1)?.end ?? 0) < 45e3) throw new End({ exit: null }); if (!r) { sim.violate(`${K}.stopped-early`, `${cmd}: expected ${method} ${re} but the command ended (exit ${proc.exitCode}) after ${trace.at(-1)}`); throw new End(null); }
    if (r.method !== method || !re.test(r.path)) { sim.violate(`${K}.wrong-step`, `${cmd}: expected ${method} ${re}, saw ${r.method} ${r.path} after ${trace.at(-1)}`); throw new End(null); }
    i++; trace.push(`${r.method} ${r.path} -> ${r.pending ? "pending" : r.ok ? r.value?.status : "failed"}`);
    if (prev) { sim.check(r.t - prev.end >= gap - EPS, `${K}.rate`, () => `${cmd}: ${r.path} asked again after ${r.t - prev.end} ms`); sim.check(r.t - prev.end <= gap + 500, `${K}.slow`, () => `${cmd}: ${r.path} asked again only after ${r.t - prev.end} ms`); }
    if (r.pending) throw new End({ exit: null });
    if (!r.ok) throw new End({ ...FAILREQ, r });
    return r;
  };
  const RUN = (rid) => new RegExp(`^test-runs/${rid}$`);
  /** @param r the request whose answer is the current one */
  const poll = (method, re, r, { gap, timeout, t0, busy, cmdName, deadline = true }) => {
    while (busy(r.value)) {
      const el = r.end - t0; const next = peek();
      if (deadline && el >= timeout + EPS && next && next.method === method && re.test(next.path)) { sim.violate(`${K}.too-long`, `${cmd}: ${re} asked again ${Math.round(el)} ms into a wait limited to ${timeout} ms`); throw new End(null); }
      if (deadline && el >= timeout - EPS && (!next || el >= timeout + EPS)) return { r, timedOut: true };
      r = take(method, re, r, gap);
    }
    return { r, timedOut: false };
  };
  const waitRun = (rid, { throwOnFailure = true, first = true } = {}) => {
    let r = take("GET", RUN(rid)); const t0 = r.end;
    // a redundant immediate re-read is tolerated
    if (peek()?.method === "GET" && RUN(rid).test(peek().path) && peek().t - r.end < 2000 && first) r = take("GET", RUN(rid));
    const { r: last, timedOut } = poll("GET", RUN(rid), r, { gap: 10e3, timeout: 10 * MIN, t0: Math.max(t0, r.end), busy: (v) => inProgress(v.status) });
    if (timedOut) { sim.probe("runTimeout"); throw new End({ exit: 1, say: /has not completed after 10 minutes/ }); }
    const s = last.value.status; if (last !== r) sim.probe("runWaited");
    if (throwOnFailure && failedRun(s)) { sim.probe("runFailed"); throw new End({ exit: 1, say: /finished unsuccessfully|unsuccessful/, last }); }
    return s;
  };
  const assertComplete = (s) => { if (s === "Skipped") throw new End({ exit: 1, say: /skipped/ }); if (!["Success", "Failure"].includes(s)) throw new End({ exit: 1 }); };
  const lookup = () => { const r = take("GET", /^agent\/test-runs$/); if (r.value.testRunId == null) throw new End(cmd === "forCommit" ? { exit: 0, out: asJson ? (l) => JSON.parse(l.join("\n")).testRunId === null : (l) => l.length === 0, say: /No test run found/ } : { exit: 1, say: /No test run found/ }); return r; };
  /** status known when the command decides whether to wait */
  const known = () => { if (byCommit) return lookup().value; const r = take("GET", RUN("run1")); if (r.value.configData.arguments?.isSessionPool && cmd !== "coverage") throw new End({ exit: 1, say: /base run/ }); return { status: r.value.status, r }; };
  const finished = (cur, rid, emptyOut) => {
    if (dontWait && inProgress(cur.status)) throw new End({ exit: 0, out: emptyOut, say: /not complete/ });
    if (cur.r && !(peek() && RUN(rid).test(peek().path))) { if (inProgress(cur.status)) return waitRun(rid); if (failedRun(cur.status)) throw new End({ exit: 1 }); return cur.status; }
    return waitRun(rid, { first: false });
  };
  const tryJson = (l) => { try { return JSON.parse(l.join("\n")); } catch { return undefined; } };
  let want = null;
  try {
    if (cmd === "complete") {
      if (byCommit) lookup();
      const POST = /^agent\/test-runs\/run1\/complete-base-run$/; const declined = (e) => { if (e instanceof End && e.o?.r && e.o.r.status === 400 && !e.o.r.list.at(-1).err && base.reject.reason !== "other") { e.o.say = /declined/; } throw e; };
      let r; try { r = take("POST", POST); } catch (e) { declined(e); }
      const first = r.value; let cur = { status: first.status, un: first.unexecutedSessionCount, lost: first.unobtainableSessionCount }; const done = () => cur.un <= cur.lost && ["Success", "Failure"].includes(cur.status);
      const t0 = r.end; let lastAsk = r.end; let timedOut = false; if (!dontWait) while (!done()) {
        const el = r.end - t0; const next = peek(); if (el >= 10 * MIN + EPS && next) { sim.violate(`${K}.too-long`, `${cmd}: still asking ${el} ms into the wait`); throw new End(null); }
        if (el >= 10 * MIN - EPS && !next) { timedOut = true; break; }
        r = take("GET", RUN("run1"), r, 10e3); const v = r.value; const have = new Set((v.resultData?.results ?? []).map((x) => x.sessionId));
        cur.status = v.status; cur.un = new Set(v.configData.testCases.map((c) => c.sessionId).filter((s) => !have.has(s))).size;
        if (failedRun(v.status) || v.status === "Skipped") { sim.probe("baseFailed"); throw new End({ exit: 1, say: v.status === "Skipped" ? /skipped/ : /unsuccessful/ }); }
        if (r.end - lastAsk >= 60e3 - EPS && (r.end - lastAsk >= 60e3 + EPS || peek()?.method === "POST")) { const at = r.end; sim.check(peek()?.method !== "POST" || peek().t - r.end < 500, `${K}.slow`, "late re-request"); try { r = take("POST", POST); } catch (e) { declined(e); } lastAsk = at; sim.probe("reasked"); cur = { status: r.value.status, un: r.value.unexecutedSessionCount, lost: r.value.unobtainableSessionCount }; }
      }
      if (timedOut) sim.probe("baseTimeout"); else if (r.value !== first) sim.probe("baseWaited");
      const result = { ...first, status: cur.status, unexecutedSessionCount: cur.un, unobtainableSessionCount: cur.lost };
      want = { exit: 0, say: timedOut ? /check back later|Check back later/ : undefined, out: (l) => asJson ? JSON.stringify(tryJson(l)) === JSON.stringify(result) : l.join("\n") === Object.entries(result).map(([k, v]) => `${k}:\t${v}`).join("\n"), result };
    } else if (cmd === "check" || cmd === "diffs") {
      const header = (l) => asJson ? JSON.stringify(tryJson(l)) === "[]" : l.length === 1 && l[0].startsWith("replayDiffId\tscreenshotName");
      const s = finished(known(), "run1", cmd === "check" ? (asJson ? (l) => tryJson(l)?.status === "processing" : (l) => l.length === 0) : counts ? (l) => l.length === 0 : header);
      if (s === "Partial") throw new End({ exit: 1, say: /base run/ }); assertComplete(s);
      const re = cmd === "check" ? /^agent\/test-runs\/run1\/checks\/my%20check$/ : counts ? /^agent\/test-runs\/run1\/diffs-summary\/counts$/ : /^agent\/test-runs\/run1\/diffs-summary$/;
      let r = take("GET", re);
      if (counts) want = { exit: 0, out: (l) => asJson ? tryJson(l)?.numDiffs === r.value.numDiffs : l[1] === `numDiffs:\t${r.value.numDiffs}` };
      else {
        const timeout = cmd === "check" ? 3 * MIN : 10 * MIN; const q = poll("GET", re, r, { gap: 2000, timeout, t0: r.end, busy: (v) => v.status === "processing" || (cmd === "diffs" && v.status === "pending") });
        if (q.r !== r) sim.probe("reportWaited"); r = q.r;
        if (q.timedOut) { sim.probe("reportTimeout"); throw new End({ exit: 1, say: /did not arrive within 3 minutes|did not complete within 10 minutes/ }); }
        if (r.value.status === "failed") { sim.probe("reportFailed"); throw new End({ exit: 1, say: /computation failed/ }); }
        if (r.value.status !== "complete") throw new End({ exit: 1, say: /unexpected status/ });
        sim.probe("report"); want = { exit: 0, out: (l) => cmd === "check" ? (asJson ? tryJson(l)?.text === "# the report" : l[0] === "# the report") : asJson ? JSON.stringify(tryJson(l)?.map((d) => d.replayDiffId)) === JSON.stringify(r.value.data.map((d) => d.replayDiffId)) : l.length === r.value.data.length + 1 && r.value.data.every((d, n) => l[n + 1] === `${d.replayDiffId}\t${d.screenshotName}`) };
      }
    } else if (cmd === "coverage") {
      const empty = (l) => asJson ? JSON.stringify(tryJson(l)) === "[]" : l.length === 1; const usable = (s) => { if (s !== "Partial") assertComplete(s); };
      usable(finished(known(), "run1", empty));
      for (const u of unionIds) { const r = take("GET", RUN(u)); usable(finished({ status: r.value.status, r }, u, empty)); }
      const r = take("GET", /^agent\/test-runs\/run1\/js-coverage$/); want = { exit: 0, out: (l) => asJson ? tryJson(l)?.length === r.value.files.length : l.length === 1 + r.value.files.length };
    } else if (cmd === "forCommit") {
      let { status } = lookup().value; if (!dontWait && inProgress(status)) status = waitRun("run1", { throwOnFailure: false });
      want = { exit: 0, out: (l) => asJson ? tryJson(l)?.status === status && tryJson(l)?.testRunId === "run1" : l.length === 1 && l[0] === "run1" };
    } else if (cmd === "trigger") {
      take("POST", /upload-build\/git-diff$/); take("POST", /^agent\/trigger-test-run$/); const status = dontWait ? null : waitRun("run1");
      want = { exit: 0, out: (l) => asJson ? tryJson(l)?.status === status && tryJson(l)?.testRunId === "run1" : l.length === 1 && l[0] === "run1" };
      sim.check(stored.length === 1, `${K}.diff`, () => `the diff was uploaded ${stored.length} times`);
    } else if (cmd === "chunks") {
      take("POST", /create-run-with/); take("POST", /request-git-diff-upload$/); take("POST", /trigger-run-with/);
      if (dontWait) want = { exit: 0 };
      else { const r = take("GET", RUN("run1")); const q = poll("GET", RUN("run1"), r, { gap: 10e3, busy: (v) => inProgress(v.status), deadline: false }); if (q.r !== r) sim.probe("chunksWaited"); want = { exit: 0, all: new RegExp(`finished with status: ${q.r.value.status}`) }; }
    } else {
      const re = /^github-cloud-replay\/base-test-run$/; const r = take("GET", re); const q = poll("GET", re, r, { gap: 10e3, timeout: 30 * MIN, t0: start, busy: (v) => !v.baseTestRun });
      want = { exit: 0, all: q.timedOut ? /Timed out after 1800 seconds/ : /would start tunnel/ }; sim.probe(q.timedOut ? "ciTimeout" : q.r === r ? "ciReady" : "ciWaited");
    }
  } catch (e) { if (!(e instanceof End)) throw e; want = e.o; }
  if (sim.stopped || !want) return { sample: { cmd } };
  const tail = trace.slice(-3).join("; ");
  if (cmd === "chunks" && !ended) sim.check(want.exit === null || i >= reqs.length, `${K}.hang`, () => `${cmd} still running; ${tail}`);
  if (ended || want.exit !== null) {
    if (cmd === "chunks" && !ended && runs.get("run1").end > cap - 5 * MIN) return { sample: { cmd, ended } };
    sim.check(ended, `${K}.hang`, () => `${cmd} never ended (${st}); ${tail}`);
    sim.check(i >= reqs.length, `${K}.wrong-step`, () => `${cmd}: ${reqs[i]?.method} ${reqs[i]?.path} after its outcome was known; ${tail}`);
    sim.check(proc.exitCode === want.exit, `${K}.exit-code`, () => `${cmd}: exit ${proc.exitCode}, expected ${want.exit}; ${tail}; said ${say.at(-1)}`);
    const last = reqs.at(-1); if (last?.end != null) sim.check(endAt - last.end <= 1500 + (cmd === "trigger" || cmd === "chunks" ? 5000 : 0), `${K}.slow`, () => `${cmd}: ended ${endAt - last.end} ms after its last answer`);
    if (want.out) sim.check(want.out(out), `${K}.output`, () => `${cmd}: printed ${JSON.stringify(out).slice(0, 300)}${want.result ? ` instead of ${JSON.stringify(want.result)}` : ""}; ${tail}`);
    else if (want.exit === 1) sim.check(out.filter((l) => l && !/Tip: run/.test(l)).length === 0, `${K}.output`, () => `${cmd}: failed but printed ${JSON.stringify(out).slice(0, 200)}`);
    if (want.say) sim.check(lines.some((l) => want.say.test(l)), `${K}.message`, () => `${cmd}: nothing matching ${want.say} was said; ${JSON.stringify(say.slice(-3))}; ${tail}`);
    if (want.all) sim.check(lines.some((l) => want.all.test(l)), `${K}.message`, () => `${cmd}: nothing matching ${want.all} was said; ${JSON.stringify(lines.slice(-3))}; ${tail}`);
    sim.probe(`${cmd}:${want.exit}`);
  }
  const n = log.length; await sim.settle(120e3);
  if (ended) sim.check(log.length === n && proc.activeTimers?.length !== -1, `${K}.after`, () => `${log.length - n} requests after the command had ended`);
  sim.check(sim.unhandled.length === 0 && proc.uncaughtErrors.length === 0, `${K}.unhandled`, () => `escaped: ${sim.unhandled[0]?.reason ?? proc.uncaughtErrors[0]}`);
  return { sample: { cmd, byCommit, dontWait, exit: proc.exitCode, disturbed, seconds: Math.round((endAt ?? sim.now) / 1000) } };
};
