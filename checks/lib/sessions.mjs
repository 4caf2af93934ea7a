// Harness for the commands that put recorded sessions and replays on the user's
// disk: `download session` (both formats), `download replay` and
// `local relevant-sessions`, run one after the other into the same directories
// while the service, the network and the disk fail and commands are interrupted.
import { isDeepStrictEqual } from "node:util";
import { bundle } from "../../sim/bundle.mjs";
import { Disk } from "../../sim/fs.mjs";
import { realPackages, makeZip } from "../../sim/npm.mjs";
import { mkProc, makeReplay, netFaults, text } from "./downloads.mjs";
import { gitChildProcess } from "./git-model.mjs";
import { makeRepo, parseDiff } from "./cli-git.mjs";

const CMD = "packages/cli/src/commands/";
export const SESSIONS_META = {
  real: ["packages/cli/src/commands/download/{session,replay}.command.ts, local/relevant-sessions.command.ts, command-utils/download-session.utils.ts", "packages/downloading-helpers/src (sessions, replay archives, log text files, caches, locks)", "packages/client/src (API calls, retries)", "packages/common/src (git, data dir, retry helper)"],
  stubs: ["API service: a model holding sessions, structured session data, replays and what is relevant", "storage for signed downloads, network, fs: simulated", "git: the model of git-model.mjs; parse-diff re-implemented", "proper-lockfile, extract-zip: models over the simulated disk", "chalk, loglevel, yargs, @sentry/node: trivial"],
  assumptions: ["a recorded session does not change while it is downloaded", "session ids differ in more than punctuation"],
};
let built;
export const buildSessions = async () => (built ??= { cli: (await bundle({ session: CMD + "download/session.command.ts", replay: CMD + "download/replay.command.ts", relevant: CMD + "local/relevant-sessions.command.ts" }, { real: realPackages() })).code });

const json = (r) => ({ ...r, headers: { "content-type": "application/json" }, body: JSON.stringify(r.body ?? null) });
const WORDS = ["plain", "späße 🐟", "two\nlines", 'quo"ted', "</script>", "\u2028 sep", "a\\b", ""];

const makeSession = (sim, id) => {
  const w = () => `${sim.pick("s:w", WORDS)}${sim.int("s:n", 0, 999)}`; const list = (lo, hi, f) => Array.from({ length: sim.int("s:len", lo, hi) }, (_, i) => f(i)); const maybe = (p, f) => (sim.chance("s:has", p) ? f() : undefined);
  const base = sim.pick("s:base", [0, 0, 1, 7]); const reqs = list(0, sim.chance("s:many", 0.1) ? 40 : 5, (i) => ({ order: base + i, method: sim.pick("s:m", ["GET", "POST"]), url: `https://app.sim/${w()}`, status: 200, contentType: maybe(0.6, () => "application/json") ?? null, timeMs: i * 3 }));
  const conns = sim.chance("s:ws", 0.4) ? list(0, 3, (i) => ({ connectionId: i + base, url: `wss://${w()}`, events: list(0, 3, () => ({ data: w() })) })) : null;
  const data = {
    summary: { sessionId: id, startUrl: `https://app.sim/${w()}`, eventCount: sim.int("s:ec", 0, 50), totalDurationMs: 1234, networkRequestCount: reqs.length, pageNavigations: list(0, 2, w), ...(sim.chance("s:vp", 0.6) ? { viewport: { width: 1280, height: 720 } } : {}) },
    userEvents: list(0, 6, (i) => ({ index: i, type: "click", selector: w(), timestampMs: i * 10 })), networkRequests: { summary: reqs, entries: reqs.map((r) => ({ order: r.order, startedDateTime: "2026-01-01T00:00:00.000Z", request: { method: r.method, url: r.url, headers: [{ name: "x", value: w() }], queryString: [], ...(sim.chance("s:pd", 0.3) ? { postData: { mimeType: "text/plain", text: w() } } : {}) }, response: { status: 200, headers: [], content: { mimeType: "text/plain", text: text(sim, w(), sim.chance("s:big", 0.05) ? 9e4 : 100) } }, timeMs: r.timeMs })) },
    storage: { cookies: list(0, 2, () => ({ name: w(), domain: null })), localStorage: list(0, 2, () => ({ key: w(), value: w() })), ...(sim.chance("s:ss", 0.5) ? { sessionStorage: list(0, 2, () => ({ key: w(), value: w() })) } : {}), ...(sim.chance("s:idb", 0.4) ? { indexedDb: list(0, 2, () => ({ databaseName: w(), objectStoreName: w(), entryCount: 3 })) } : {}) },
    urlHistory: list(0, 3, (i) => ({ timestampMs: i, url: w() })), context: sim.chance("s:ctx", 0.5) ? { userId: w() } : null, ...(conns ? { webSockets: { summary: conns.map((c) => ({ connectionId: c.connectionId, url: c.url, eventCount: c.events.length })), connections: conns } } : {}),
  };
  return { id, data, meta: { id, createdAt: "2026-01-01", title: w() }, raw: { userEvents: { event_log: data.userEvents }, rest: text(sim, w(), 300) } };
};
/** the documented tree of one session */
const filesOf = (s, dir) => {
  const d = s.data; const f = new Map(); const put = (p, v) => f.set(`${dir}/sessions/${s.id.replace(/[^a-zA-Z0-9]/g, "_")}/${p}`, v);
  put("summary.json", d.summary); put("user-events.json", d.userEvents); put("network-requests/summary.json", d.networkRequests.summary); for (const e of d.networkRequests.entries) put(`network-requests/${e.order}.json`, e);
  put("storage/cookies.json", d.storage.cookies); put("storage/local-storage.json", d.storage.localStorage); if (d.storage.sessionStorage) put("storage/session-storage.json", d.storage.sessionStorage); if (d.storage.indexedDb) put("storage/indexed-db.json", d.storage.indexedDb);
  put("url-history.json", d.urlHistory); if (d.context) put("context.json", d.context); if (d.webSockets) { put("websockets/summary.json", d.webSockets.summary); for (const c of d.webSockets.connections) put(`websockets/${c.connectionId}.json`, c); }
  return f;
};
/** what the two readable log files say about a replay's log */
const makeLog = (sim) => { let n = 0; const out = []; for (let i = sim.int("l:n", 0, 8); i > 0; i--) { const k = sim.pick("l:k", ["time", "app", "app", "rr", "nd", "ev"]); if (k === "time") out.push({ type: "virtual-time-change", virtualTime: sim.int("l:vt", 0, 5000) }); else out.push({ type: "log", source: k === "app" ? "application" : "meticulous", stackTraceId: `t${n++}`, realTime: sim.int("l:rt", 0, 9000), message: k === "nd" ? `took [non-deterministic] ${n}ms` : k === "ev" ? `Executing event {"id": ${n}, "x": {"id":${n + 1}}}` : `said ${sim.pick("l:w", WORDS).replace(/\n/g, " ")} ${n}`, ...(sim.chance("l:rep", 0.3) ? { repetitionCount: sim.int("l:r", 2, 9) } : {}) }); } return out; };
const textsOf = (log) => { let t = 0; const a = [], b = []; for (const l of log) { if (l.type === "virtual-time-change") { t = l.virtualTime; a.push(""); b.push(""); continue; } const x = l.repetitionCount ? ` [x${l.repetitionCount}]` : ""; const app = l.source === "application"; a.push(app ? `[trace-id: ${l.stackTraceId}] [virtual: ${t}ms] [application]${x} ${l.message}` : `[trace-id: ${l.stackTraceId}] [virtual: ${t}ms, real: ${l.realTime}ms]${x} ${l.message}`); if (l.message.includes("[non-deterministic]")) continue; const m = l.message.startsWith("Executing event") ? l.message.replace(/"id": ?\d+/g, '"id": "<non-deterministic>"') : l.message; b.push(app ? `[virtual: ${t}ms] [application]${x} ${m}` : `[virtual: ${t}ms]${x} ${m}`); } return [a.join("\n"), b.join("\n")]; };

export const runSessions = async (sim, { scripts }) => {
  const K = "D05"; const disk = new Disk(sim); for (const d of ["/data", "/tmp", "/work/repo"]) disk.mkdir(d, { recursive: true });
  const store = new Map(); const sessions = new Map(); const ids = ["sess-1", "2024/abc_x", "b7-patched", "d", "e_9"].slice(0, sim.int("c:sess", 1, 5)); for (const id of ids) sessions.set(id, makeSession(sim, id));
  const replay = makeReplay(sim, "r0", store); const log = sim.chance("c:log", 0.8) ? makeLog(sim) : null;
  if (log) { const body = log.map((l) => JSON.stringify(l)).join("\n") + (sim.chance("l:nl", 0.8) ? "\n" : ""); store.set("/r0/logs.zip", makeZip([["logs.ndjson", body]])); replay.urls.logs = { signedUrl: "https://s3.sim/r0/logs.zip?sig=1", filePath: "logs.ndjson" }; replay.files = replay.files.filter((f) => f.type !== "logs"); replay.files.push({ type: "logs", path: "logs.ndjson", data: Buffer.from(body) }); }
  const REL = ["is-relevant", "is-relevant-beta", "is-pr-author-relevant", "maybe-relevant", "not-relevant", "is-pr-author", undefined];
  const g = makeRepo(sim); const outDirs = ["/work/repo/.meticulous/sessions", "/work/out"];
  const p = { on: sim.chance("c:faults", 0.65), net: sim.pick("c:net", [0.02, 0.08, 0.25]), fs: sim.chance("c:fs", 0.4) ? sim.pick("c:fsp", [0.004, 0.02, 0.08]) : 0 }; const gonePct = sim.chance("c:gone", 0.35) ? 0.4 : 0; const gone = new Set(ids.filter(() => gonePct && sim.chance("c:g1", gonePct))); const noData = new Set(ids.filter((i) => !gone.has(i) && sim.chance("c:nodata", 0.06)));
  const pause = () => sim.run(() => sim.sleep(20e3), { maxTime: sim.now + 60e3, maxEvents: 2e6 });
  const sample = []; let last = null;
  for (let step = 0, steps = sim.pick("c:steps", [1, 1, 2, 3]); step < steps; step++) {
    const cmd = sim.pick("c:cmd", ["session", "session", "relevant", "relevant", "relevant", "replay"]); const start = sim.now; let failedFs = 0, netFault = 0; const asked = []; const outDir = sim.pick("c:dir", outDirs);
    // ---- what is relevant now
    const mk = (id) => ({ sessionId: id, title: sim.pick("r:t", ["Checkout", null, "späße"]), description: sim.pick("r:d", [null, "buys a thing"]), baseReplayId: sim.pick("r:b", [null, `base-${id}`]), relevanceToPR: sim.pick("r:r", REL) });
    const cases = sim.shuffle ? sim.shuffle("r:o", ids.filter(() => sim.chance("r:in", 0.8)).map(mk)) : []; const main = cases.filter((c) => REL.slice(0, 3).includes(c.relevanceToPR)); const maybe = cases.filter((c) => !main.includes(c));
    const answer = { testCases: cases, ...(sim.chance("r:run", 0.6) ? { baseTestRunId: "tr9" } : {}), ...(sim.chance("r:url", 0.5) ? { baseTestRunUrl: "https://app.sim/tr9" } : {}), ...(sim.chance("r:err", 0.1) ? { error: "Coverage of the base is incomplete" } : {}) }; const none = cmd === "relevant" && sim.chance("r:404", 0.1);
    const nf = netFaults(sim, p); const faultFor = (info) => { const f = nf(info); if (f) netFault++; return f; };
    const handle = (info, fault) => {
      if (fault?.kind === "status") return { status: fault.status, body: "err" };
      if (info.host === "s3.sim") { const b = store.get(decodeURIComponent(info.path)); return b ? { status: 200, body: b } : { status: 404, body: "NoSuchKey" }; }
      const path = info.path.replace(/^\/api\//, ""); asked.push(path); let m;
      if (path === "projects/token-info") return json({ status: 200, body: { id: "p1", name: "p", organization: { name: "o" } } });
      if (path === "local-changes/relevant-sessions") { const b = JSON.parse(String(info.body)); sim.check(b.projectId === "p1" && b.baseCommitSha && (o.minimumTimesToCoverEachLine === b.minimumTimesToCoverEachLine) && b.loadSuperfluousTestCases === o.includeSuperfluousSessions, `${K}/asked`, () => `relevant-sessions: asked for ${JSON.stringify({ ...b, editedFilesWithLines: undefined })} when given ${JSON.stringify(o)}`); return none ? json({ status: 404, body: { message: "No test run for the base commit" } }) : json({ status: 200, body: answer }); }
      if ((m = /^agent\/sessions\/(.+)\/structured-data$/.exec(path))) { const s = sessions.get(m[1]); return s && !gone.has(m[1]) ? json({ status: 200, body: s.data }) : json({ status: 404, body: { message: "no such session" } }); }
      if ((m = /^sessions\/(.+?)(\/data)?$/.exec(path))) { const s = sessions.get(m[1]); return s && !gone.has(m[1]) && !(m[2] && noData.has(m[1])) ? json({ status: 200, body: m[2] ? s.raw : s.meta }) : json({ status: 404, body: { message: "no such session" } }); }
      if ((m = /^replays\/([^/]+)(\/.*)?$/.exec(path))) { if (m[1] !== "r0") return json({ status: 404, body: { message: "no" } }); if (!m[2]) return json({ status: 200, body: { id: "r0", version: "v3" } }); const u = { ...replay.urls }; if (info.query.get("includeScreenshots") === "false") u.screenshots = {}; if (info.query.get("includeDiffs") === "false") delete u.diffs; if (info.query.get("includeAppContainerLogs") === "true" && replay.logs) u.appContainerLogs = replay.logs; return json({ status: 200, body: u }); }
      return json({ status: 404, body: { message: `no ${path}` } });
    };
    const fsFault = (op, path_) => { if (!p.on || !p.fs || path_.includes(".lock") || !["open", "write", "mkdir", "writeFile", "rename", "read", "readFile", "fsync", "close"].includes(op)) return null; if (!sim.chance("f:fs", p.fs)) return null; failedFs++; return sim.pick("f:fsk", ["EIO", "ENOSPC", "EMFILE", "EACCES"]); };
    const proc = mkProc(sim, disk, `cli${step}`, { handle, faultFor }, { cwd: "/work/repo", tmpdir: "/tmp", argv: ["node", "meticulous"], fsFault, fsLatency: [0, 4], childProcess: gitChildProcess(sim, g, () => proc, () => null, [1, 8]) });
    proc.factories["parse-diff"] = () => Object.assign((s) => parseDiff(s), { default: parseDiff, __esModule: true }); proc.onUncaught = () => {};
    // a session or replay that is not there, or an id the user mistyped
    const id = sim.chance("c:nosuch", 0.05) ? "nope" : sim.pick("c:id", ids); const format = cmd === "session" ? sim.pick("c:fmt", ["json", "multi-file", "multi-file"]) : sim.pick("c:fmt2", [undefined, "multi-file", "multi-file"]);
    const o = cmd === "session" ? { apiToken: "t", sessionId: id, format, outputDir: outDir } : cmd === "replay" ? { apiToken: "t", replayId: sim.chance("c:nosuch", 0.05) ? "nope" : "r0" } : { apiToken: "t", showMaybeRelevant: sim.chance("c:maybe", 0.5), includeSuperfluousSessions: sim.chance("c:sup", 0.3), ...(sim.chance("c:min", 0.3) ? { minimumTimesToCoverEachLine: sim.int("c:minN", 0, 3) } : {}), format, outputDir: outDir };
    const m = proc.load(scripts.cli); const h = { session: m.session.downloadSessionCommand, replay: m.replay.downloadReplayCommand, relevant: m.relevant.relevantSessionsCommand }[cmd]; let killed = false;
    proc.at(0, () => { h.handler(o).catch(() => {}); }, "start"); if (sim.chance("c:kill", step < steps - 1 ? 0.3 : 0)) sim.at(sim.int("c:killAt", 5, sim.pick("c:kw", [200, 2000, 60e3])), () => { if (proc.alive) { killed = true; sim.fault("interrupted"); proc.crash("interrupted"); } }, { name: "interrupt" });
    const st = await sim.run(async () => { while (proc.alive && sim.now < start + 4 * 3600e3) await sim.sleep(250); }, { maxTime: start + 5 * 3600e3, maxEvents: 300000 * (step + 1) }); if (sim.stopped) return { sample };
    const end = sim.now; const code = proc.exitCode; const ok = code === 0; const raw = proc.consoleLines.map((l) => l); const lines = raw.flatMap((l) => l.replace(/^(info|log|warn|error|debug) /, "").split("\n")); const said = lines.join("\n"); const errs = raw.filter((l) => /^(error|warn) /.test(l) && !/simulated process.exit/.test(l));
    const where = `${cmd}${cmd === "relevant" ? "" : ` ${o.sessionId ?? o.replayId}`}${format ? ` --format ${format}` : ""}${step ? ` (step ${step + 1})` : ""}${failedFs || netFault ? `, ${failedFs} disk and ${netFault} network faults` : ""}, exit ${code}`; sample.push(cmd);
    if (killed) { sim.probe("interrupted"); last = cmd; await pause(); continue; }
    sim.check(st === "done" && !proc.alive, `${K}/hang`, () => `${where}: never ended (${st})`); if (sim.stopped) return { sample };
    if (!ok) { sim.probe("refused"); sim.check(errs.some((l) => l.trim().length > 8), `${K}/report`, () => `${where}: failed without saying why`); }
    const faulty = failedFs || netFault;
    const doc = (path) => { const t = disk.exists(path) ? disk.text(path) : null; if (t === null) return { missing: true }; try { return { v: JSON.parse(t) }; } catch { return { torn: t.length }; } };
    const complete = (s, what) => { for (const [f, v] of filesOf(s, o.outputDir)) { const d = doc(f); sim.check(!d.missing, `${K}/incomplete`, () => `${where}: ${what} but ${f} is missing`); sim.check(d.missing || d.torn === undefined && isDeepStrictEqual(d.v, v), `${K}/wrong-content`, () => `${where}: ${what} but ${f} holds ${d.torn !== undefined ? `${d.torn} characters that are not JSON` : JSON.stringify(d.v).slice(0, 200)} instead of ${JSON.stringify(v).slice(0, 200)}`); if (sim.stopped) return; } };
    const manifest = (want) => { const d = doc(`${o.outputDir}/manifest.json`); sim.check(!d.missing && d.torn === undefined, `${K}/manifest`, () => `${where}: ${o.outputDir}/manifest.json is ${d.missing ? "missing" : "torn"}`); if (sim.stopped) return; const t = Date.parse(d.v.generatedAt) - sim.epoch; sim.check(d.v.sessionCount === want.length && isDeepStrictEqual(d.v.sessions, want.map((s) => s.data.summary)), `${K}/manifest`, () => `${where}: the manifest lists ${d.v.sessionCount}: ${d.v.sessions?.map((x) => x.sessionId)}, downloaded were ${want.map((s) => s.id)}`); sim.check(!Number.isNaN(Date.parse(d.v.generatedAt)), `${K}/manifest`, () => `${where}: generated at ${d.v.generatedAt}`); };
    if (cmd === "session") {
      const s = sessions.get(id); const there = s && !gone.has(id) && !(format === "json" && noData.has(id));
      if (ok) {
        if (format === "json") { sim.check(there, `${K}/claimed`, () => `${where}: the service does not have it`); const paths = ["metadata", "data"].map((w) => new RegExp(`^Downloaded session ${w} to: (.*)$`, "m").exec(said)?.[1]); for (const [i, want] of [s?.meta, s?.raw].entries()) { sim.check(paths[i], `${K}/report`, () => `${where}: does not say where the ${i ? "data" : "metadata"} is`); if (sim.stopped) return { sample }; const d = doc(paths[i]); sim.check(want && isDeepStrictEqual(d.v, want), `${K}/${d.missing ? "incomplete" : "wrong-content"}`, () => `${where}: ${paths[i]} is ${d.missing ? "missing" : d.torn !== undefined ? "torn" : "not what was recorded"}`); } sim.probe("json"); }
        else { sim.check(there, `${K}/claimed`, () => `${where}: the service has no such session`); if (sim.stopped) return { sample }; complete(s, "reported as downloaded"); if (!sim.stopped) manifest([s]); sim.check(said.includes(outDir), `${K}/report`, () => `${where}: does not say where the data is`); sim.probe("multiFile"); }
      } else if (there && !faulty) sim.check(last !== null && format === "json", `${K}/false-failure`, () => `${where}: ${errs.at(-1)?.slice(0, 200)}`); // a cached document may be unreadable after an interrupted run, never a fresh tree
    }
    if (cmd === "replay") {
      if (ok) {
        const dir = /^Downloaded replay data to: (.*)$/m.exec(said)?.[1]; sim.check(dir && o.replayId === "r0", `${K}/report`, () => `${where}: does not say where the replay is`); if (sim.stopped) return { sample };
        for (const f of replay.files) { const b = disk.exists(`${dir}/${f.path}`) ? disk.get(`${dir}/${f.path}`)?.data : null; sim.check(b, `${K}/incomplete`, () => `${where}: ${f.path} is missing`); sim.check(!b || Buffer.from(b).equals(f.data), `${K}/wrong-content`, () => `${where}: ${f.path} differs from what was served`); }
        const md = doc(/^Downloaded replay metadata to: (.*)$/m.exec(said)?.[1] ?? "/none"); sim.check(md.v?.id === "r0", `${K}/incomplete`, () => `${where}: the metadata is not on disk`);
        const admitted = /Error generating concise/.test(said); if (log) { const want = textsOf(log); for (const [i, n] of ["logs.concise.txt", "logs.deterministic.txt"].entries()) { const t = disk.exists(`${dir}/${n}`) ? disk.text(`${dir}/${n}`) : null; sim.check(t !== null || admitted, `${K}/incomplete`, () => `${where}: ${n} is missing`); sim.check(t === null || t === want[i], `${K}/log-text`, () => `${where}: ${n} holds ${JSON.stringify(t.slice(0, 300))} instead of ${JSON.stringify(want[i].slice(0, 300))}`); } if (admitted) sim.check(faulty, `${K}/false-failure`, () => `${where}: ${errs.at(-1)}`); sim.probe("replayLogs"); } sim.probe("replay");
      } else if (o.replayId === "r0" && !faulty) sim.check(last !== null, `${K}/false-failure`, () => `${where}: ${errs.at(-1)?.slice(0, 200)}`);
    }
    if (cmd === "relevant") {
      const gitSaid = /Could not determine the base|Command failed|fatal:|unknown revision/.test(said) || !g.exists; if (gitSaid) { sim.probe("noBase"); last = cmd; await pause(); continue; }
      const found = none ? [] : main; const others = none ? [] : maybe; const shown = [...found, ...(o.showMaybeRelevant ? others : [])]; const multi = format === "multi-file" && found.length;
      const reached = /relevant sessions/.test(said); if (!reached) { sim.check(!ok, `${K}/claimed`, () => `${where}: ended without an answer`); if (!faulty) sim.check(false, `${K}/false-failure`, () => `${where}: ${errs.at(-1)?.slice(0, 200)}`); last = cmd; await pause(); continue; }
      // ---- the printed list
      const blocks = []; for (const l of lines) { const f = /^ {2}(Session ID|Title|Description|Base replay ID|Relevance): (.*)$/.exec(l); if (!f) continue; if (f[1] === "Session ID") blocks.push({}); if (blocks.length) blocks.at(-1)[f[1]] = f[2]; }
      const wantBlocks = shown.map((c) => ({ "Session ID": c.sessionId, ...(c.title ? { Title: c.title } : {}), ...(c.description ? { Description: c.description } : {}), ...(c.baseReplayId ? { "Base replay ID": c.baseReplayId } : {}), ...(c.relevanceToPR ? { Relevance: c.relevanceToPR } : {}) }));
      sim.check(isDeepStrictEqual(blocks, wantBlocks), `${K}/listed`, () => `${where}: listed ${JSON.stringify(blocks)} instead of ${JSON.stringify(wantBlocks)}`);
      const n = /Found (\d+) relevant sessions/.exec(said)?.[1]; sim.check((n ? +n : 0) === found.length && /No relevant sessions/.test(said) === !found.length, `${K}/listed`, () => `${where}: ${found.length} sessions are relevant, said ${n ?? "none"}`); const k = /Also found (\d+) maybe relevant/.exec(said)?.[1]; sim.check((k ? +k : 0) === others.length, `${K}/listed`, () => `${where}: ${others.length} may be relevant, said ${k ?? "none"}`);
      sim.check(said.includes("tr9") === !none && Boolean(answer.baseTestRunId || answer.baseTestRunUrl) || none || !said.includes("tr9"), `${K}/listed`, () => `${where}: the base test run is ${JSON.stringify(answer.baseTestRunId)}`);
      const e = none ? "No test run for the base commit" : answer.error; if (e) { sim.check(said.includes(e), `${K}/report`, () => `${where}: does not say "${e}"`); sim.probe("answeredError"); }
      // ---- the downloads
      if (multi) {
        const got = found.filter((c) => raw.some((l) => l.includes(`Downloaded session ${c.sessionId}`) && !/Failed/.test(l))); const failed = found.filter((c) => errs.some((l) => l.includes(`Failed to download session ${c.sessionId}:`)));
        if (ok) {
          sim.check(got.length > 0 && found.every((c) => got.includes(c) !== failed.includes(c)), `${K}/report`, () => `${where}: of ${found.map((c) => c.sessionId)}, ${got.map((c) => c.sessionId)} are said to be downloaded and ${failed.map((c) => c.sessionId)} to have failed`); for (const c of got) { sim.check(!gone.has(c.sessionId), `${K}/claimed`, () => `${where}: ${c.sessionId} is gone`); if (!sim.stopped) complete(sessions.get(c.sessionId), `${c.sessionId} is reported as downloaded`); } if (sim.stopped) return { sample };
          manifest(got.map((c) => sessions.get(c.sessionId))); const part = got.length < found.length; sim.check(part === new RegExp(`only ${got.length} of ${found.length} sessions`).test(said) && (part || said.includes(`(${got.length} sessions)`)), `${K}/report`, () => `${where}: ${got.length} of ${found.length} were downloaded; said: ${lines.at(-1)}`); sim.probe(part ? "partial" : "all");
        } else { sim.check(!found.some((c) => !gone.has(c.sessionId)) || faulty, `${K}/false-failure`, () => `${where}: ${errs.at(-1)?.slice(0, 200)}`); sim.probe("noneDownloaded"); }
        if (!faulty && ok) sim.check(failed.every((c) => gone.has(c.sessionId)), `${K}/false-failure`, () => `${where}: ${failed.map((c) => c.sessionId)} failed: ${errs.at(-1)}`);
      } else sim.check(ok, `${K}/false-failure`, () => `${where}: the sessions were listed: ${errs.at(-1)}`);
      sim.check(!asked.some((a) => /structured-data/.test(a)) || multi, `${K}/asked`, () => `${where}: downloaded sessions though not told to`);
    }
    sim.check(proc.uncaughtErrors.filter((e) => e?.name !== "ProcExit" && !/exited|ProcExit/.test(String(e))).length === 0, `${K}/unhandled`, () => `${where}: ${proc.uncaughtErrors[0]?.stack ?? proc.uncaughtErrors[0]}`);
    last = cmd; if (sim.stopped) return { sample }; await pause();
  }
  return { sample };
};
