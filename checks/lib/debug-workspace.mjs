// Harness for debug workspaces: fetching DOM diffs (G01) and building the
// debug data directory (G02).
import { bundle } from "../../sim/bundle.mjs";
import { Disk } from "../../sim/fs.mjs";
import { makeZip, realPackages } from "../../sim/npm.mjs";
import { simFetch } from "../../sim/net.mjs";
import { fsFaults, makeReplay, mkProc, netFaults, serve, text } from "./downloads.mjs";

export const DEBUG_META = {
  real: ["packages/debug-workspace/src/{fetch-dom-diffs,download-debug-data,replay-walk,screenshot-identifier}.ts", "packages/downloading-helpers/src", "packages/client/src", "packages/common/src", "npm p-limit 3.1.0"],
  stubs: ["API service and object storage: models", "fetch, axios, axios-retry: simulated network", "proper-lockfile: model over the simulated disk", "extract-zip, fast-zlib, loglevel, luxon, chalk: models or trivial", "fs: simulated disk"],
  assumptions: ["a process crash keeps every file system call that had completed (no power loss)", "no other command downloads the same replay with other file types at the same moment", "one file system call takes less than the retry delay of a download"],
};
let built;
export const buildDebug = async () => (built ??= { dw: (await bundle({
  dom: "packages/debug-workspace/src/fetch-dom-diffs.ts", dl: "packages/debug-workspace/src/download-debug-data.ts", client: "packages/client/src/index.ts", helpers: "packages/downloading-helpers/src/index.ts",
}, { real: realPackages() })).code });
const json = (status, body) => ({ status, headers: { "content-type": "application/json" }, body: JSON.stringify(body) });

// ------------------------------------------------------------------ G01
const WS = "/data/debug-sessions/w";
const pad = (n) => String(n).padStart(5, "0");
const shot = (sim, i) => { // [identifier, name on disk, name for the service]
  const v = sim.chance("w:lv", 0.4) ? { logicVersion: sim.int("w:lvn", 0, 3) } : {}; const vs = v.logicVersion === undefined ? "" : `-v${v.logicVersion}`;
  switch (sim.pick("w:st", ["after", "after", "after", "aux", "end", "redacted", "none", "odd"])) {
    case "end": return [{ type: "end-state", ...v }, `final-state${vs}`, "end-state"];
    case "aux": { const end = sim.chance("w:es", 0.3); return [{ type: "auxiliary", eventNumber: i, sequenceNumber: i + 1, reason: "scroll", ...(end ? { endState: true } : {}), ...v }, `screenshot-auxiliary-${pad(i)}-${end ? "end-" : ""}${pad(i + 1)}-scroll${vs}`, `auxiliary-${i}-${i + 1}-scroll`]; }
    case "redacted": return [{ type: "after-event", eventNumber: i, variant: "redacted", ...v }, `screenshot-after-event-${pad(i)}${vs}.redacted`, null];
    case "none": return [undefined, null, null];
    case "odd": return [{ type: "from-the-future", eventNumber: i }, null, null];
    default: return [{ type: "after-event", eventNumber: i, ...v }, `screenshot-after-event-${pad(i)}${vs}`, `after-event-${i}`];
  }
};
export const runDomDiffs = async (sim, { scripts }) => {
  const K = sim.prop; const disk = new Disk(sim); disk.mkdir(`${WS}/debug-data`, { recursive: true });
  const p = sim.pick("w:pf", [0, 0.05, 0.2, 0.5]); const max = sim.pick("w:max", [undefined, undefined, 1, 2, 5, 8]);
  const pairs = []; const bodies = new Map(); // `${diff}/${name}/${context}` -> response
  for (let d = 0, n_ = sim.pick("w:pairs", [0, 1, 1, 1, 2, 2, 3, 5]); d < n_; d++) {
    const pair = { id: `diff${d}`, head: sim.chance("w:unsafe", 0.05) ? "../h" : `h${d}`, base: `b${d}`, file: sim.pick("w:file", ["ok", "ok", "ok", "ok", "ok", "ok", "ok", "ok", "ok", "ok", "ok", "ok", "missing", "torn", "noData"]), shots: [] };
    pair.label = `${pair.head}-vs-${pair.base}`; const seen = new Set();
    for (let i = 0, n_ = sim.pick("w:shots", [1, 1, 3, 8, 8, 20, 40]); i < n_; i++) {
      const [identifier, disk_, name] = shot(sim, i); if (disk_ && (seen.has(disk_) || (name && seen.has(name)))) continue; seen.add(disk_); if (name) seen.add(name);
      const s = { identifier, base: disk_, name, outcome: sim.pick("w:out", ["diff", "diff", "diff", "flake", "different-size", "no-diff", "missing-base", "missing-head", "missing-base-and-head", "brand-new"]), url: null, gone: sim.chance("w:gone", 0.05), goneFull: sim.chance("w:goneF", 0.05) };
      const hunks = sim.pick("w:h", [0, 1, 2, 5]); const mk = (ctx) => ({ totalDiffs: hunks, diffs: Array.from({ length: hunks }, (_, k) => ({ content: `@@ ${pair.id} ${disk_} ${ctx} ${k} ${sim.pick("w:c", ["", "ü✓", "x".repeat(3000)])}` })) });
      s.hunks = hunks; if (name) { bodies.set(`${pair.id}/${name}/`, mk("3")); bodies.set(`${pair.id}/${name}/full`, mk("full")); }
      for (const [role, id] of [["base", pair.base], ["head", pair.head]]) if (disk_ && sim.chance("w:md", 0.3)) { const url = `https://app/${role}/${i}`; s.url = url; disk.put(`${WS}/debug-data/replays/${role}/${id}/screenshots/${disk_}.metadata.json`, JSON.stringify({ before: { routeData: { url } } })); }
      pair.shots.push(s);
    }
    const doc = pair.file === "noData" ? { data: null } : { data: { screenshotDiffResults: pair.shots.map((s) => ({ ...(s.identifier ? { identifier: s.identifier } : {}), outcome: s.outcome })) } };
    if (pair.file !== "missing") { const t = JSON.stringify(doc); disk.put(`${WS}/debug-data/diffs/${pair.id}.json`, pair.file === "torn" ? t.slice(0, -3) : t); }
    pairs.push(pair);
  }
  const find = (id, name) => pairs.find((q) => q.id === id)?.shots.find((s) => s.name === name);
  let open = 0, most = 0; const req = []; const faultAll = { faultFor: () => { if (!p || !sim.chance("f:p", p)) return null; const k = sim.pick("f:k", ["status", "status", "refuse", "lost", "cut", "slow", "stall", "stallBody"]); return k === "status" ? { kind: k, status: sim.pick("f:st", [500, 502, 503, 504, 429, 400, 403]) } : k === "slow" ? { kind: k, delay: sim.pick("f:sd", [3e3, 50e3]) } : { kind: k, after: 0 }; } };
  const handle = (info, f) => {
    if (f?.kind === "status") return json(f.status, { message: "no" });
    const m = /^\/api\/agent\/replay-diffs\/([^/]+)\/screenshots\/([^/]+)\/dom-diff$/.exec(info.path); if (!m) return json(404, {});
    const ctx = info.query.get("context") ?? ""; const s = find(m[1], decodeURIComponent(m[2])); const b = bodies.get(`${m[1]}/${decodeURIComponent(m[2])}/${ctx}`);
    if (!s || !b || s.gone || (ctx && s.goneFull)) return json(404, { message: "no such diff" });
    return json(200, b);
  };
  const proc = mkProc(sim, disk, "cli", { handle, faultFor: faultAll.faultFor }, {});
  const inner = simFetch(proc, { name: "api", latency: [1, sim.pick("w:lat", [20, 400])], chunks: 3, undiciTimeouts: true, handle, faultFor: faultAll.faultFor });
  proc.opts.fetch = async (u, i) => {
    const url = new URL(String(u?.url ?? u)); const e = { key: url.pathname.replace(/^\/api\/agent\/replay-diffs\//, "").replace(/\/screenshots\//, "/").replace(/\/dom-diff$/, ""), ctx: url.searchParams.get("context") ?? "", ok: false, done: false }; req.push(e); open++; most = Math.max(most, open);
    const close = () => { if (!e.done) { e.done = true; open--; } };
    try { const r = await inner(u, i); const orig = r.json.bind(r); if (r.status !== 200) close(); r.json = async () => { try { const v = await orig(); if (r.status === 200) e.ok = true; return v; } finally { close(); } }; return r; } catch (x) { close(); throw x; }
  };
  const m = proc.load(scripts.dw);
  const ctx = { testRunId: "t", replayDiffs: pairs.map((q) => ({ id: q.id, headReplayId: q.head, baseReplayId: q.base, sessionId: "s", numScreenshotDiffs: q.shots.length })), replayIds: [], sessionIds: [] };
  let result; const st = await sim.run(async () => { try { result = { v: await m.dom.fetchDomDiffs({ client: m.client.createClient({ apiToken: "t" }), debugContext: ctx, workspaceDir: WS, ...(max ? { maxConcurrency: max } : {}) }) }; } catch (e) { result = { e }; } }, { maxTime: 6 * 3600e3 });
  if (sim.stopped) return { sample: {} };
  sim.check(st === "done", `${K}.hang`, () => `never settled (${st})`); if (sim.stopped) return { sample: {} };
  sim.check(!result.e, `${K}.threw`, () => `failures of single screenshots failed everything: ${result.e?.message}`); if (sim.stopped) return { sample: {} };
  sim.check(most <= (max ?? 8), `${K}.concurrency`, () => `${most} requests at once, limit ${max ?? 8}`);
  sim.check(open === 0, `${K}.left`, () => `${open} request(s) still open`);
  const tree = disk.tree(`${WS}/debug-data/dom-diffs`); const expectKeys = new Set(), expectFiles = new Set(); let nDiff = 0, nErr = 0;
  for (const q of pairs) {
    const unsafe = q.head.includes("/"); const usable = !unsafe && q.file === "ok";
    const rows = []; if (usable) for (const s of q.shots) {
      if (!s.base) continue; const got = (c) => req.some((e) => e.key === `${q.id}/${s.name}` && e.ctx === c && e.ok); const asked = req.filter((e) => e.key === `${q.id}/${s.name}`);
      const key = `${q.label}/${s.base}`; const file = `${q.label}-${s.base}.diff`, full = `${q.label}-${s.base}.full.diff`; let status, hunks = 0, bytes = 0;
      const fetched = !["no-diff", "missing-base", "missing-head", "missing-base-and-head"].includes(s.outcome) && s.name;
      sim.check(fetched || asked.length === 0, `${K}.needless`, () => `${key} (${s.outcome}) was asked for`);
      if (s.outcome === "missing-base-and-head") continue;
      if (s.outcome === "missing-base") status = "only-in-head"; else if (s.outcome === "missing-head") status = "only-in-base"; else if (s.outcome === "no-diff") status = "identical";
      else if (!s.name) status = "skipped-unsupported";
      else if (!got("")) { status = "skipped-error"; sim.check(asked.length > 0, `${K}.not-asked`, () => `${key} was never asked for`); if (!p && !s.gone) sim.violate(`${K}.false-error`, `${key} failed without a fault`); nErr++; }
      else if (s.hunks === 0) status = "identical";
      else {
        status = "diff"; nDiff++; hunks = s.hunks; const body = bodies.get(`${q.id}/${s.name}/`).diffs.map((d) => d.content).join("\n\n"); bytes = Buffer.byteLength(body); expectKeys.add(key); expectFiles.add(file);
        const e = result.v[key]; sim.check(e, `${K}.missing`, () => `no entry for ${key}, whose diff was delivered`); if (sim.stopped) break;
        sim.check(e.diffPath === `dom-diffs/${file}` && tree.get(file)?.toString() === body, `${K}.content`, () => `${e.diffPath} does not hold the diff of ${key}`);
        sim.check(e.totalHunks === hunks && e.bytes === bytes && e.url === s.url, `${K}.entry`, () => `entry of ${key}: ${JSON.stringify(e)}`);
        if (got("full")) { const fb = bodies.get(`${q.id}/${s.name}/full`).diffs.map((d) => d.content).join("\n\n"); expectFiles.add(full); sim.check(e.fullDiffPath === `dom-diffs/${full}` && tree.get(full)?.toString() === fb, `${K}.full`, () => `full diff of ${key} was delivered; entry ${JSON.stringify(e)}`); }
        else { sim.check(e.fullDiffPath === null, `${K}.full`, () => `${key} names a full diff that was never delivered`); sim.check(req.some((r) => r.key === `${q.id}/${s.name}` && r.ctx === "full"), `${K}.not-asked`, () => `full diff of ${key} was never asked for`); }
      }
      rows.push([s.base, status, hunks, bytes, s.url ?? ""]);
    }
    if (sim.stopped) break;
    const sum = tree.get(`${q.label}.summary.txt`)?.toString();
    if (!rows.length) { sim.check(sum === undefined, `${K}.summary`, () => `summary of ${q.label} without screenshots`); continue; }
    expectFiles.add(`${q.label}.summary.txt`); sim.check(sum, `${K}.summary`, () => `no summary of ${q.label}`); if (sim.stopped) break;
    const table = sum.slice(sum.indexOf("screenshot\tstatus")).trim().split("\n").slice(1).map((l) => l.split("\t"));
    sim.check(table.length === rows.length, `${K}.summary`, () => `summary of ${q.label} has ${table.length} rows, expected ${rows.length}`);
    rows.forEach((r, i) => { const t = table[i] ?? []; sim.check(t[0] === r[0] && t[1] === r[1] && t[2] === String(r[2]) && (t[4] ?? "") === r[4], `${K}.order`, () => `row ${i} of ${q.label}: ${t.join("|")}, expected ${r.join("|")}`); });
    const count = (label) => Number(new RegExp(`${label}:\\s+(\\d+)`).exec(sum)?.[1] ?? 0); const n = (s) => rows.filter((r) => r[1] === s).length;
    for (const [label, s] of [["with DOM diff", "diff"], ["identical DOM", "identical"], ["only in HEAD", "only-in-head"], ["only in BASE", "only-in-base"], ["skipped \\(API error\\)", "skipped-error"], ["skipped \\(unsupported identifier\\)", "skipped-unsupported"]]) sim.check(count(label) === n(s), `${K}.counts`, () => `${label}: ${count(label)}, rows say ${n(s)}`);
  }
  if (!sim.stopped) {
    for (const k of Object.keys(result.v)) sim.check(expectKeys.has(k), `${K}.extra`, () => `entry ${k} for a screenshot without a delivered diff`);
    for (const f of tree.keys()) sim.check(expectFiles.has(f), `${K}.extra`, () => `file ${f} for a screenshot without a delivered diff`);
    await sim.settle(120e3); sim.check(sim.unhandled.length === 0 && proc.uncaughtErrors.length === 0, `${K}.unhandled`, () => `unhandled ${sim.unhandled[0]?.reason ?? proc.uncaughtErrors[0]}`);
    sim.probe("diff", nDiff); sim.probe("error", nErr); sim.probe(`most${most}`);
  }
  return { sample: { pairs: pairs.length, requests: req.length } };
};

// ------------------------------------------------------------------ G02
const EXCLUDED = new Set(["playbackData", "rawCoverage", "rawPerScreenshotCssCoverage", "rawPerScreenshotJsCoverage", "diffs"]);
const logLine = (sim, i) => sim.chance("w:vt", 0.3) ? { type: "virtual-time-change", virtualTime: i * 16 } : { type: "console", source: sim.pick("w:src", ["application", "browser"]), stackTraceId: `s${i}`, message: sim.pick("w:msg", ["hello", "[non-deterministic] x", 'Executing event {"id": 12}', "ü✓"]), realTime: i, ...(sim.chance("w:rep", 0.2) ? { repetitionCount: 3 } : {}) };
// as documented: concise keeps everything with both times, deterministic drops what varies between runs
const concise = (logs) => { let v = 0; return logs.map((l) => (l.type === "virtual-time-change" ? ((v = l.virtualTime), "") : `[trace-id: ${l.stackTraceId}] [virtual: ${v}ms${l.source === "application" ? "] [application]" : `, real: ${l.realTime}ms]`}${l.repetitionCount ? ` [x${l.repetitionCount}]` : ""} ${l.message}`)).join("\n"); };
const deterministic = (logs) => { let v = 0; const out = []; for (const l of logs) { if (l.type === "virtual-time-change") { v = l.virtualTime; out.push(""); continue; } if (l.message.includes("[non-deterministic]")) continue; const msg = l.message.startsWith("Executing event") ? l.message.replace(/"id": ?\d+/g, '"id": "<non-deterministic>"') : l.message; out.push(`[virtual: ${v}ms]${l.source === "application" ? " [application]" : ""}${l.repetitionCount ? ` [x${l.repetitionCount}]` : ""} ${msg}`); } return out.join("\n"); };

export const runDebugData = async (sim, { scripts }) => {
  const K = sim.prop; sim.tieChoice = true; const disk = new Disk(sim); disk.mkdir("/data", { recursive: true });
  const world = { store: new Map(), replays: new Map(), testRuns: new Map(), requests: [], gone: new Set() };
  const p = { on: sim.chance("cfg:faults", 0.75), net: sim.pick("cfg:net", [0.005, 0.02, 0.06]), fs: sim.chance("cfg:fs", 0.3) ? 0.003 : 0 }; const pSync = p.on && sim.chance("cfg:sync", 0.5) ? sim.pick("cfg:psync", [0.003, 0.02]) : 0; const crash = p.on && sim.chance("cfg:crash", 0.5);
  const nd = sim.pick("w:diffs", [0, 1, 1, 2, 3]); const reps = []; const diffs = [];
  for (let i = 0; i < nd; i++) { diffs.push({ id: `d${i}`, headReplayId: `h${i}`, baseReplayId: sim.chance("w:sharedBase", 0.2) && i ? "b0" : `b${i}`, sessionId: `s${i}`, numScreenshotDiffs: 1 }); reps.push(`h${i}`, diffs[i].baseReplayId); }
  for (let i = 0, n_ = sim.pick("w:others", nd ? [0, 0, 1] : [1, 2]); i < n_; i++) reps.push(`o${i}`);
  const ids = [...new Set(reps)]; const logs = new Map();
  for (const id of ids) {
    const r = makeReplay(sim, id, world.store); world.replays.set(id, r);
    if (sim.chance("w:nd", 0.6)) { const l = Array.from({ length: sim.int("w:nl", 0, 8) }, (_, i) => logLine(sim, i)); logs.set(id, l); const body = l.map((x) => JSON.stringify(x)).join("\n"); r.files = r.files.filter((f) => f.type !== "logs"); r.files.push({ type: "logs", path: "logs.ndjson", data: Buffer.from(body) }); world.store.set(`/${id}/logs.zip`, makeZip([["logs.ndjson", body]])); r.urls.logs = { signedUrl: `https://s3.sim/${id}/logs.zip?sig=1`, filePath: "logs.ndjson" }; }
    if (r.urls.snapshottedAssets && sim.chance("w:pruned", 0.3)) world.gone.add(`/${id}/snapshottedAssets.zip`);
  }
  const sessions = nd || sim.chance("w:sess", 0.7) ? [...new Set(diffs.map((d) => d.sessionId).concat(sim.chance("w:s2", 0.3) ? ["s9"] : []))] : []; const testRunId = sim.chance("w:tr", 0.7) ? "tr1" : undefined;
  const doc = new Map(); for (const s of sessions) doc.set(s, { id: s, events: Array.from({ length: sim.int("w:ev", 0, 5) }, () => ({ t: text(sim, "e", 30) })), u: "ü", n: null }); for (const d of diffs) doc.set(d.id, { id: d.id, data: { screenshotDiffResults: [{ outcome: "diff" }] } });
  doc.set("tr1", { id: "tr1", status: "Success", configData: { a: 1 }, resultData: null });
  const pr = Object.fromEntries(["pr-diff", "pr-description"].map((k) => [k, sim.pick("w:pr", ["none", "blank", "text", "text"])])); const prText = { "pr-diff": "diff --git a b\n+ü\n", "pr-description": "# What\n" };
  world.doc = (k) => (/^sessions\/[^/]+\/data$/.test(k) ? doc.get(k.split("/")[1]) ?? null : { id: k, version: "v3" });
  const base = serve(world);
  const handle = (info, f) => {
    if (f?.kind === "status") return { status: f.status, body: "err" };
    const m = info.path.replace(/^\/api\/+/, "").split("/");
    if (info.host === "app.meticulous.ai") {
      if (m[0] === "replay-diffs") return doc.has(m[1]) ? json(200, doc.get(m[1])) : json(404, {});
      if (m[0] === "test-runs" && m[2]) { const v = pr[m[2]]; return v === "none" ? json(404, { message: "no" }) : json(200, { content: v === "blank" ? " \n" : prText[m[2]] }); }
      if (m[0] === "test-runs") return m[1] === "tr1" ? json(200, doc.get("tr1")) : json(404, {});
    }
    return base(info, f);
  };
  let last = null; const plan = netFaults(sim, p);
  const faultFor = (info) => { const f = plan(info); if (f && last) { last.faulted.push(info.path); } return f; };
  const spawn = (name) => {
    const proc = mkProc(sim, disk, name, { faultFor, handle }, { fsLatency: [0, 4], fsFault: (op, pth) => { const f = fsFaults(sim, p)(op, pth); if (f && last) last.disk.push(pth); return f; },
      fsFaultSync: (op, pth) => { if (!p.on || !pSync || !/debug-sessions/.test(pth) && op !== "copyfile" || !sim.chance("f:sync", pSync)) return null; if (last) last.disk.push(pth); if (crash && sim.chance("f:syncCrash", 0.5)) { sim.fault("process-crash"); proc.crash("crash"); return null; } return sim.pick("f:syncK", ["ENOSPC", "EIO"]); } });
    proc.sut = proc.load(scripts.dw); proc.client = proc.sut.client.createClient({ apiToken: "t" }); return proc;
  };
  const ctx = { testRunId, replayDiffs: diffs, replayIds: ids, sessionIds: sessions, projectId: "p", orgAndProject: "o/p" };
  const skip = sim.chance("w:skip", 0.25); const max = sim.pick("w:maxc", [undefined, 1, 2, 8]);
  const verify = (dir, rec, what) => {
    const tree = disk.tree(`${dir}/debug-data`);
    for (const id of ids) {
      const role = diffs.some((d) => d.headReplayId === id) ? "head" : diffs.some((d) => d.baseReplayId === id) ? "base" : "other"; const r = world.replays.get(id); const at = (f) => `replays/${role}/${id}/${f}`;
      for (const f of r.files) {
        if (EXCLUDED.has(f.type) || f.type === "appContainerLogs" && !tree.has(at(f.path))) continue;
        if (f.path.startsWith("screenshots/") && !f.path.endsWith(".metadata.json")) { sim.check(!tree.has(at(f.path)), `${K}.extra`, () => `${what}: image ${at(f.path)} was copied`); continue; }
        if (f.type === "snapshottedAssets") { const g = tree.get(at(f.path)); if (!g) { const z = `/${id}/snapshottedAssets.zip`; sim.check(skip || world.gone.has(z) || rec.disturbed, `${K}.extra-lost`, () => `${what}: ${at(f.path)} is missing though nothing failed`); continue; } if (rec.disturbed) continue; sim.check(g.equals(f.data), `${K}.content`, () => `${what}: ${at(f.path)} differs`); continue; }
        const g = tree.get(at(f.path)); sim.check(g, `${K}.incomplete`, () => `${what}: reported as built but ${at(f.path)} (${f.type}) is missing`); if (sim.stopped) return;
        sim.check(g.equals(f.data), `${K}.content`, () => `${what}: ${at(f.path)} holds ${g.length} bytes that differ from the ${f.data.length} stored`);
      }
      if (logs.has(id)) for (const [f, fn] of [["logs.concise.txt", concise], ["logs.deterministic.txt", deterministic]]) { const g = tree.get(at(f)); if (!g) { sim.check(rec.disturbed, `${K}.logs`, () => `${what}: ${at(f)} is missing though nothing failed`); continue; } sim.check(g.toString() === fn(logs.get(id)), `${K}.logs`, () => `${what}: ${at(f)} holds ${JSON.stringify(g.toString().slice(0, 80))}, not the whole log`); }
      sim.check(!tree.has(at("previously-downloaded.txt")), `${K}.extra`, () => `${what}: the cache marker of ${id} was copied`);
    }
    const same = (f, d) => { let v; try { v = JSON.parse(tree.get(f).toString()); } catch { v = undefined; } sim.check(v !== undefined && JSON.stringify(v) === JSON.stringify(d), `${K}.doc`, () => `${what}: ${f} ${tree.has(f) ? "differs from what was served" : "is missing"}`); };
    for (const s of sessions) same(`sessions/${s}/data.json`, doc.get(s)); for (const d of diffs) same(`diffs/${d.id}.json`, doc.get(d.id)); if (testRunId) same(`test-run/${testRunId}.json`, doc.get("tr1"));
    for (const k of Object.keys(pr)) { const f = `${k}.txt`; const g = tree.get(f); if (testRunId && pr[k] === "text") { const hit = rec.faulted.some((x) => x.endsWith(k)) || rec.disk.some((x) => x.endsWith(f)); if (!g) sim.check(hit || rec.reused, `${K}.extra-lost`, () => `${what}: ${f} is missing though nothing failed`); else sim.check(hit || g.toString() === prText[k], `${K}.content`, () => `${what}: ${f} differs`); } else sim.check(!g, `${K}.extra`, () => `${what}: ${f} appeared`); }
    for (const f of tree.keys()) if (/\.partial/.test(f)) sim.violate(`${K}.extra`, `${what}: ${f} was left in the workspace`);
    sim.probe("verified");
  };
  let built_ = 0, failed = 0, crashed = 0;
  const st = await sim.run(async () => {
    const tries = sim.int("w:tries", 1, 3); let everDisturbed = false;
    for (let t = 0; t <= tries && !sim.stopped; t++) {
      if (t === tries) p.on = false; // the environment has recovered
      const reuse = sim.chance("w:reuse", 0.6); const dir = reuse ? "/data/debug-sessions/named" : `/data/debug-sessions/debug-${t}`;
      const rec = last = { faulted: [], disk: [], disturbed: false, reused: reuse && t > 0 }; const proc = spawn(`cli${t}`);
      const gone = new Promise((res) => { (proc.onCrash ??= []).push(() => sim.at(0, () => res("dead"), { name: "reap" })); });
      const ev = crash && p.on && sim.chance("f:crash", 0.4) ? sim.at(sim.latency("f:crasht", 0, sim.pick("cfg:cw", [300, 3000, 60e3])), () => { if (proc.alive) { sim.fault("process-crash"); proc.crash("crash"); } }, { name: "crash", daemon: true }) : null;
      let r; const job = proc.sut.dl.downloadDebugData({ client: proc.client, debugContext: ctx, workspaceDir: dir, ...(max ? { maxConcurrentDownloads: max } : {}), ...(skip ? { skipSnapshottedAssets: true } : {}) }).then(() => (r = { ok: true }), (e) => (r = { ok: false, e }));
      const how = await Promise.race([job, gone]); sim.cancel(ev);
      if (how === "dead" || !proc.alive) { crashed++; everDisturbed = true; sim.log(`cli${t} crashed`); await sim.sleep(sim.latency("wl:restart", 10, 30e3)); continue; }
      everDisturbed ||= rec.faulted.length > 0 || rec.disk.length > 0; rec.disturbed = everDisturbed; sim.log(`cli${t} ${r.ok ? "built" : `failed: ${r.e?.message}`} in ${dir}`);
      if (r.ok) { built_++; verify(dir, rec, `attempt ${t}`); } else { failed++; sim.check(rec.faulted.length || rec.disk.length || everDisturbed && p.on, `${K}.false-failure`, () => `attempt ${t} failed though nothing is disturbed any more: ${r.e?.message}`); }
      if (!r.ok) { await sim.sleep(120e3); } proc.crash("done"); await sim.sleep(10);
    }
  }, { maxTime: 8 * 3600e3, maxEvents: 300000 });
  if (!sim.stopped) { sim.check(st === "done", `${K}.hang`, () => `never settled (${st})`); sim.check(sim.unhandled.length === 0, `${K}.unhandled`, () => `unhandled ${sim.unhandled[0]?.reason?.message}`); }
  sim.probe("built", built_); sim.probe("failed", failed); sim.probe("crashed", crashed);
  return { sample: { replays: ids.length, built: built_, failed, crashed } };
};

// ------------------------------------------------------------------ G03
// A whole workspace: recorded credentials sit at every place the recordings
// are documented to hold them, everything else is data to keep.
let built3;
export const buildWorkspace = async () => (built3 ??= { ws: (await bundle({
  pipeline: "packages/debug-workspace/src/pipeline.ts", client: "packages/client/src/index.ts", helpers: "packages/downloading-helpers/src/index.ts",
}, { real: realPackages(), define: { __dirname: '"/sdk/dist"' } })).code });
class Secret { constructor(v) { this.v = v; } }
const GONE = "<redacted>";
const render = (x, hide) => (x instanceof Secret ? (hide ? GONE : x.v) : Array.isArray(x) ? x.map((y) => render(y, hide)) : x && typeof x === "object" ? Object.fromEntries(Object.entries(x).map(([k, v]) => [k, render(v, hide)])) : x);
const CORE = /zq\d+x/;
const same = (a, b) => JSON.stringify(a) === JSON.stringify(b);
const makeRecording = (sim) => {
  let n = 0; const core = () => `zq${n++}x`; const keep = () => `kp${n++}`;
  const sec = () => { const c = core(); return new Secret(sim.pick("w:sec", [c, c, `Bearer ${c}`, `a"b${c}`, `it's ${c}`, `l\n${c}`, `{"t":"${c}"}`, `ü${c}✓`, "x".repeat(300) + c, "", { deep: c }, [c], `<redacted>${c}`])); };
  const list = (mk, max = 3) => Array.from({ length: sim.int("w:n", 0, max) }, mk);
  const headers = () => list(() => ({ name: sim.pick("w:hn", ["Cookie", "authorization", "x-custom", "Set-Cookie", "accept"]), value: sec(), ...(sim.chance("w:hx", 0.2) ? { comment: keep() } : {}) }));
  const cookies = () => list(() => ({ name: keep(), value: sec(), domain: keep(), path: "/", httpOnly: sim.chance("w:ho", 0.5), ...(sim.chance("w:cx", 0.2) ? { expires: 12 } : {}) }));
  const entries = () => list(() => ({ key: keep(), value: sec() }));
  const extra = () => ({ state: list(() => ({ key: keep(), value: keep() })), values: [keep(), null, 3, true], nested: { value: keep(), name: keep() } });
  const attrs = () => ({ "http.request.header.cookie": list(sec), "http.response.header.set-cookie": list(sec), "http.route": keep(), "http.request.method": "GET" });
  const http = () => ({ request: { method: "POST", url: `https://app/${keep()}`, headers: headers(), cookies: cookies(), postData: { text: keep() } }, response: { status: 200, headers: headers(), cookies: cookies(), content: { text: keep() } }, time: 3 });
  const line = () => { const nm = sim.pick("l:n", ["Cookie", "Authorization", "set-cookie", "X-Api-Key", "proxy-authorization", "X-Auth-Token", "x-csrf-token"]); const c = core(); const v = sim.pick("l:v", [c, c, `a=b; s=${c}`, `${c}; Path=/; HttpOnly`]); const k = keep();
    switch (sim.pick("l:form", ["header", "header", "json", "json", "inspect", "bearer", "basic", "multi", "pretty"])) {
      case "header": return [`${k} ${nm}: ${v}`, `${k} ${nm}: ${GONE}`];
      case "json": { const q = sim.pick("l:q", ["", "", "it's ", 'say "x" ']); const o = (val) => `headers ${JSON.stringify([{ name: nm, value: val }, { name: "accept", value: k }])}`; return [o(q + v), o(GONE)]; }
      case "inspect": { const o = (val) => `[ { name: '${nm}', value: '${val}' }, { name: 'accept', value: '${k}' } ]`; return [o(v), o(GONE)]; }
      case "bearer": return [`${k} used Bearer ${c}.a-b_c/+== then ${k}`, `${k} used Bearer ${GONE} then ${k}`];
      case "basic": return [`${k} used Basic ${c}/+= then ${k}`, `${k} used Basic ${GONE} then ${k}`];
      case "multi": return [`GET /${k}\n${nm}: ${v}\nhost: ${k}`, `GET /${k}\n${nm}: ${GONE}\nhost: ${k}`];
      default: { const o = (val) => JSON.stringify([{ name: nm, value: val }, { name: "host", value: k }], null, 2); return [o(v), o(GONE)]; }
    } };
  const logs = () => { let vt = 0; return Array.from({ length: sim.int("w:nl", 0, 10) }, (_, i) => {
    if (sim.chance("w:vt", 0.3)) { vt += 16; return [{ type: "virtual-time-change", virtualTime: vt }]; }
    const b = { type: "console", source: sim.pick("w:src", ["application", "browser"]), stackTraceId: `s${i}`, message: "", realTime: i, ...(sim.chance("w:rep", 0.2) ? { repetitionCount: 3 } : {}) };
    if (sim.chance("l:sec", 0.5)) { const [a, r] = line(); const p = sim.chance("l:nd", 0.15) ? "[non-deterministic] " : ""; return [{ ...b, message: p + a }, { ...b, message: p + r }]; }
    return [{ ...b, message: `${keep()} ${sim.pick("w:msg", ["hello cookies", 'Executing event {"id": 12}', "ü✓", "no authorization needed"])}` }];
  }); };
  const timeline = () => { const seen = new Set(); return Array.from({ length: sim.int("w:tl", 0, 14) }, (_, i) => {
    const t = { virtualTimeStart: i * 10, virtualTimeEnd: i * 10 + sim.int("w:te", 0, 5) };
    switch (sim.pick("w:tk", ["poll", "poll", "pass", "shot", "shot", "js", "span", "console"])) {
      case "poll": return { kind: "pollyReplay", ...t, data: { pollyRequest: http(), matchedRequest: http(), result: "matched" } };
      case "pass": return { kind: "passedThroughNetworkRequest", ...t, data: http() };
      case "shot": { const [identifier, name] = shot(sim, i); if (!identifier || !name || seen.has(name)) return { kind: "debugEvent", ...t, data: { type: keep() } }; seen.add(name); return { kind: "screenshot", ...t, data: { identifier } }; }
      case "span": return { kind: "debugEvent", ...t, data: { type: keep(), attributes: attrs(), ...extra() } };
      case "console": return { kind: "consoleMessage", ...t, data: { type: "log", message: keep() } };
      default: return { kind: "jsReplay", ...t, data: { event: "simulate", userEvent: { type: keep() }, result: "ok" } };
    }
  }); };
  return { core, keep, logs, timeline,
    params: () => ({ session: { id: keep(), recordingToken: new Secret(core()), cookies: cookies(), ...extra() }, replayExecutionOptions: { extraCookies: cookies(), extraLocalStorageEntries: entries(), extraSessionStorageEntries: entries(), customRequestHeaders: list(() => ({ name: keep(), value: { type: "static", value: new Secret(core()) }, requestTargets: { type: "all" } })), headless: true, note: keep() }, applicationStorageDataOverride: { localStorageEntries: entries(), sessionStorageEntries: entries(), cookies: cookies() }, ...extra() }),
    cookies, network: () => list(() => ({ url: `https://app/${keep()}`, method: "GET", requestHeaders: headers(), responseHeaders: headers(), status: 200, body: keep() })),
    session: (id) => ({ id, recording_token: new Secret(core()), cookies: cookies(), hostname: keep(), randomEvents: { localStorage: { state: entries() }, sessionStorage: { state: entries() }, indexedDb: { state: list(() => ({ key: keep(), value: keep() })) } }, pollyHAR: { pollyHAR: { [keep()]: { log: { entries: list(http) } } } }, backendSpans: list(() => ({ name: keep(), attributes: attrs() })), userEvents: { window: { startUrl: `https://app/${keep()}`, width: 800, height: 600 }, event_log: list(() => ({ type: "click", timeStamp: 5 })) }, urlHistory: list(() => ({ timestamp: 1, url: keep() })), ...extra() }) };
};

export const runWorkspace = async (sim, { scripts }) => {
  const K = sim.prop; const disk = new Disk(sim); disk.mkdir("/data", { recursive: true }); disk.mkdir("/sdk/overlay/agents", { recursive: true }); disk.put("/sdk/overlay/CLAUDE.md", "# W\n"); disk.put("/sdk/overlay/settings.json", "{}"); disk.put("/sdk/overlay/agents/a.md", "a");
  const R = makeRecording(sim); const store = new Map(); const replays = new Map(); const requests = [];
  const about = sim.pick("w:about", [["diff"], ["diff"], ["one"], ["two"], ["diff", "one"], ["diff", "two"]]); const IDS = { diff: ["h0", "b0"], one: ["o0"], two: ["o0", "o1"] }; let byDiff = false, ids = []; const session = sim.chance("w:sess", 0.9) ? "s0" : undefined;
  let now = session; const sessionDoc = R.session("s0"); const badRate = sim.pick("w:bad", [0, 0, 0.1]);
  for (const id of about.flatMap((a) => IDS[a])) {
    const r = { id, urls: { screenshots: {} }, files: new Map(), json: new Map(), torn: new Set(), rows: null, timeline: null, shots: [] };
    const zip = (k, list) => { store.set(`/${id}/${k}.zip`, makeZip(list)); return { signedUrl: `https://s3.sim/${id}/${k}.zip?sig=1`, filePath: `${k}.json` }; };
    const file = (name, v) => { let s = JSON.stringify(render(v, false)); r.json.set(name, v); if (sim.chance("w:torn", badRate)) { s = s.slice(0, sim.int("w:tornAt", 0, s.length - 1)); r.torn.add(name); } r.files.set(name, s); return [name, s]; };
    const meta = [["metadata.json", JSON.stringify({ id })]]; if (sim.chance("w:ck", 0.7)) meta.push(file("cookies.json", R.cookies())); if (sim.chance("w:lp", 0.8)) meta.push(file("launchBrowserAndReplayParams.json", R.params())); if (sim.chance("w:cc", 0.4)) meta.push(file("custom-checks-snapshots/network-requests.json", R.network()));
    r.urls.metadata = zip("metadata", meta);
    const tl = (r.timeline = R.timeline()); const tz = [file("timeline.json", tl)]; if (sim.chance("w:tnd", 0.3)) { let s = tl.map((e) => JSON.stringify(render(e, false))).join("\n"); r.nd = true; if (sim.chance("w:torn", badRate)) { s = s.slice(0, sim.int("w:tornAt", 0, s.length)); r.torn.add("timeline.ndjson"); } r.files.set("timeline.ndjson", s); tz.push(["timeline.ndjson", s]); } r.urls.timeline = zip("timeline", tz);
    if (sim.chance("w:nd", 0.8)) { r.rows = R.logs(); let s = r.rows.map((l) => JSON.stringify(l[0])).join("\n"); if (s && sim.chance("w:torn", badRate)) { s = s.slice(0, sim.int("w:tornAt", 0, s.length)); r.torn.add("logs.ndjson"); } r.files.set("logs.ndjson", s); r.urls.logs = { ...zip("logs", [["logs.ndjson", s]]), filePath: "logs.ndjson" }; }
    for (const e of tl) if (e.kind === "screenshot" && sim.chance("w:shotFile", 0.5)) { const i = r.shots.length; const nm = e.data.identifier; void nm; r.shots.push(i); }
    replays.set(id, r);
  }
  const world = { store, replays, testRuns: new Map(), requests, gone: new Set(), doc: (k) => (/^sessions\/[^/]+\/data$/.test(k) ? render(sessionDoc, false) : { id: k.split("/")[1], version: "v3", sessionId: now, projectId: "p" }) };
  const base = serve(world);
  const handle = (info, f) => {
    if (f?.kind === "status") return { status: f.status, body: "err" };
    const m = info.path.replace(/^\/api\/+/, "").split("/");
    if (info.host === "app.meticulous.ai") {
      if (m[0] === "replay-diffs") return m[1] === "d0" ? json(200, { id: "d0", headReplay: { id: "h0", sessionId: now, commitSha: "c1" }, baseReplay: { id: "b0", sessionId: now }, project: { id: "p", name: "p", organization: { name: "o" } }, data: { screenshotDiffResults: [] } }) : json(404, {});
      if (m[0] === "agent") return json(404, {});
    }
    return base(info, f);
  };
  const p = { on: sim.chance("cfg:faults", 0.6), net: sim.pick("cfg:net", [0, 0.01]), fs: 0 }; const pSync = sim.pick("cfg:psync", [0.002, 0.01, 0.03]); const crash = sim.chance("cfg:crash", 0.6);
  const plan = netFaults(sim, p); let hit = false; let unread = []; const faultFor = (info) => { const f = plan(info); if (f) hit = true; return f; };
  const diffOf = (a, b) => { const x = disk.read(a).toString(), y = disk.read(b).toString(); if (x === y) return ""; const out = `--- ${a}\n+++ ${b}\n@@ -1 +1 @@\n${x.split("\n").map((l) => `-${l}`).join("\n")}\n${y.split("\n").map((l) => `+${l}`).join("\n")}\n`; throw Object.assign(new Error("Command failed: diff"), { status: 1, stdout: out }); };
  const spawn = (name) => {
    const proc = mkProc(sim, disk, name, { faultFor, handle }, { fsLatency: [0, 4],
      childProcess: { execFileSync: (cmd, args) => { if (cmd === "diff") return diffOf(args[1], args[2]); throw Object.assign(new Error(`spawnSync ${cmd} ENOENT`), { code: "ENOENT" }); }, exec: () => {} },
      fsFaultSync: (op, pth) => { if (!p.on || !/debug-sessions/.test(pth) || !sim.chance("f:sync", pSync)) return null; hit = true; unread.push(pth); if (crash && sim.chance("f:syncCrash", 0.5)) { sim.fault("process-crash"); proc.crash("crash"); return null; } return sim.pick("f:syncK", ["ENOSPC", "EIO"]); } });
    proc.factories.prettier = () => ({ format: async (s) => s, __esModule: true, default: { format: async (s) => s } });
    proc.sut = proc.load(scripts.ws); proc.client = proc.sut.client.createClient({ apiToken: "t" }); return proc;
  };
  const role = (id) => (byDiff ? (id === "h0" ? "head" : "base") : "other");
  const verify = (dir, what) => {
    const tree = disk.tree(dir);
    for (const [f, b] of tree) { const m = CORE.exec(b.toString("utf8")); if (m) { sim.violate(`${K}.credential`, `${what}: ${f} holds the recorded credential ${m[0]} (…${b.toString("utf8").slice(Math.max(0, m.index - 60), m.index + 10)})`); return; } }
    const text_ = (f) => tree.get(f)?.toString(); const parse = (s) => { try { return JSON.parse(s); } catch { return undefined; } };
    for (const id of ids) {
      const r = replays.get(id); const at = (f) => `debug-data/replays/${role(id)}/${id}/${f}`;
      for (const [f, v] of r.json) { if (r.torn.has(f)) { sim.probe("torn-file"); continue; } const got = parse(text_(at(f))); sim.check(got !== undefined && same(got, render(v, true)), `${K}.lost`, () => `${what}: ${at(f)} ${tree.has(at(f)) ? "is not what was recorded less its credentials" : "is missing"}`); if (sim.stopped) return; }
      if (!r.torn.has("timeline.json") && !unread.some((f) => f.endsWith(`/${id}/timeline.json`))) { // an unreadable timeline only loses what is derived from it
        const nd = text_(at("timeline.ndjson")); const ls = nd?.split("\n").filter(Boolean).map(parse); sim.check(ls && same(ls, render(r.timeline, true)), `${K}.timeline`, () => `${what}: ${at("timeline.ndjson")} ${nd === undefined ? "is missing" : "does not list the entries of the timeline"}`); if (sim.stopped) return;
        const idx = text_(`debug-data/events-index/${role(id)}-${id}.txt`); sim.check(idx !== undefined && idx.split("\n").filter(Boolean).length === r.timeline.length, `${K}.index`, () => `${what}: the events index of ${id} does not have the timeline's ${r.timeline.length} entries`); if (sim.stopped) return;
        const ctx = [...tree.keys()].filter((k) => k.startsWith(`debug-data/screenshot-timeline-context/${role(id)}-${id}-`)); const shots = r.timeline.filter((e) => e.kind === "screenshot").length; sim.check(ctx.length === shots, `${K}.contexts`, () => `${what}: ${shots} screenshots of ${id} have ${ctx.length} timeline contexts`); if (sim.stopped) return;
      }
      if (r.rows && !r.torn.has("logs.ndjson")) {
        const want = r.rows.map((l) => l[1] ?? l[0]); const ls = text_(at("logs.ndjson"))?.split("\n").filter(Boolean).map(parse); sim.check(ls && same(ls, want), `${K}.logs`, () => `${what}: ${at("logs.ndjson")} is not what was logged less its credentials`); if (sim.stopped) return;
        for (const [f, fn] of [["logs.concise.txt", concise], ["logs.deterministic.txt", deterministic]]) { const g = text_(at(f)); sim.check(g === fn(want), `${K}.logs`, () => `${what}: ${at(f)} is not the log less its credentials: ${JSON.stringify(g?.slice(0, 300))} expected ${JSON.stringify(fn(want).slice(0, 300))}`); if (sim.stopped) return; }
        sim.check(tree.has(at("logs.deterministic.filtered.txt")), `${K}.logs`, () => `${what}: no filtered log of ${id}`);
      }
      const cached = disk.tree(`/data/replays/${id}`); for (const [f, s] of r.files) { const g = cached.get(f)?.toString(); sim.check(g === s || g !== undefined && same(parse(g), parse(s)), `${K}.cache`, () => `${what}: the downloaded ${f} of ${id} was changed in the download cache`); if (sim.stopped) return; }
    }
    if (now) { const got = parse(text_("debug-data/sessions/s0/data.json")); sim.check(got !== undefined && same(got, render(sessionDoc, true)), `${K}.lost`, () => `${what}: the session's data ${got === undefined ? "is missing" : "is not what was recorded less its credentials"}`); if (sim.stopped) return; }
    const ctx = parse(text_("debug-data/context.json")); sim.check(ctx, `${K}.context`, () => `${what}: no context.json`); if (sim.stopped) return;
    for (const m of ctx.fileMetadata) { const b = tree.get(m.path); sim.check(b && b.length === m.bytes, `${K}.context`, () => `${what}: context.json lists ${m.path} with ${m.bytes} bytes, it ${b ? `has ${b.length}` : "is missing"}`); if (sim.stopped) return; }
    sim.check(![...tree.keys()].some((f) => /\.partial\//.test(f)), `${K}.left`, () => `${what}: a temporary file was left: ${[...tree.keys()].filter((f) => /partial/.test(f))}`);
    sim.probe("verified");
  };
  let ready = 0, failed = 0, crashed = 0;
  const st = await sim.run(async () => {
    const tries = p.on ? sim.int("w:tries", 1, 3) : 0;
    for (let t = 0; t <= tries && !sim.stopped; t++) {
      if (t === tries) p.on = false; // the environment has recovered
      const proc = spawn(`cli${t}`); const name = sim.chance("w:reuse", 0.8) ? "named" : `other${t}`; hit = false; unread = []; now = sim.chance("w:now", 0.85) ? session : undefined; const topic = sim.pick("w:topic", about); byDiff = topic === "diff"; ids = IDS[topic];
      const gone = new Promise((res) => { (proc.onCrash ??= []).push(() => sim.at(0, () => res("dead"), { name: "reap" })); });
      let r; const job = proc.sut.pipeline.runDebugPipeline({ client: proc.client, workspaceName: name, ...(byDiff ? { replayDiffId: "d0" } : { replayIds: ids }), ...(now && sim.chance("w:so", 0.5) ? { sessionId: "s0" } : {}), additionalTemplatesDir: "/sdk/overlay" }).then(() => (r = { ok: true }), (e) => (r = { ok: false, e }));
      const how = await Promise.race([job, gone]);
      if (how === "dead" || !proc.alive) { crashed++; sim.log(`cli${t} crashed`); await sim.sleep(sim.latency("wl:restart", 10, 30e3)); continue; }
      sim.log(`cli${t} ${r.ok ? "ready" : `failed: ${r.e?.message}`}`);
      if (r.ok) { ready++; verify(`/data/debug-sessions/${name}`, `attempt ${t}`); } else { failed++; sim.check(hit, `${K}.false-failure`, () => `attempt ${t} failed though nothing went wrong in it: ${r.e?.stack}`); await sim.sleep(120e3); }
      proc.crash("done"); await sim.sleep(10);
    }
  }, { maxTime: 8 * 3600e3, maxEvents: 300000 });
  if (!sim.stopped) { sim.check(st === "done", `${K}.hang`, () => `never settled (${st})`); sim.check(sim.unhandled.length === 0, `${K}.unhandled`, () => `unhandled ${sim.unhandled[0]?.reason?.message}`); }
  sim.probe("ready", ready); sim.probe("failed", failed); sim.probe("crashed", crashed);
  return { sample: { replays: replays.size, ready, failed, crashed } };
};
