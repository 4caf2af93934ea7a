// Harness for packages/custom-checks: waiting for the run to check, and fetching its snapshots.
import { isDeepStrictEqual } from "node:util";
import { bundle } from "../../sim/bundle.mjs";
import { Disk } from "../../sim/fs.mjs";
import { realPackages, makeZip } from "../../sim/npm.mjs";
import { simFetch } from "../../sim/net.mjs";
import { mkProc } from "./downloads.mjs";

export const CUSTOM_META = {
  real: ["packages/custom-checks/src", "packages/downloading-helpers/src (download and extract)", "packages/client/src (client, API wrappers)", "packages/common/src (retry helper)", "npm p-limit 3.1.0"],
  stubs: ["API service: scenario model of test runs evolving in time", "storage, fetch, axios, extract-zip: simulated network and archive models", "fs, fs/promises: simulated disk", "loglevel, luxon, chalk: trivial"],
  assumptions: ["the clock of a process does not jump while it waits"],
};
let built;
export const buildCustomBundle = async () => (built ??= { cc: (await bundle({ cc: "packages/custom-checks/src/index.ts", client: "packages/client/src/index.ts" }, { real: realPackages() })).code });

const IN_PROGRESS = ["PreProcessing", "Scheduled", "Running", "PostProcessing"];
const DONE = ["Success", "Failure", "Partial"], UNUSABLE = ["Skipped", "Aborted", "ExecutionError"];
const json = (r) => ({ ...r, headers: { "content-type": "application/json" }, body: JSON.stringify(r.body ?? null) });
const settle = (sim, p) => { const r = { at: null }; r.p = p.then((v) => { r.at = sim.now; r.ok = true; r.v = v; }, (e) => { r.at = sim.now; r.ok = false; r.e = e; }); return r; };

// ------------------------------------------------------------------ K01
/** a run whose status advances with time; ends (or not) at `end` */
const mkRun = (sim, id, { end, final, base }) => {
  const steps = sim.int("w:steps", 1, 4);
  return { id, end, final, at: (t) => ({ id, status: t >= end ? final : IN_PROGRESS[Math.min(3, Math.floor((t / (end === Infinity ? 3600e3 : end)) * steps) % 4)], project: { id: "p" }, configData: base === undefined ? undefined : base === null ? { arguments: {} } : { arguments: { baseTestRunId: base } }, resultData: { n: t >= end ? "final" : "partial" } }) };
};
const REQ = 4 * 61e3 + 35e3; // one client call with all its retries
export const runWait = async (sim, { scripts }) => {
  const K = sim.prop; const disk = new Disk(sim);
  const poll = sim.pick("w:poll", [10e3, 10e3, 1000, 60e3]), timeout = sim.pick("w:to", [1800e3, 1800e3, 120e3, 600e3]);
  const span = () => sim.pick("w:span", ["0", "short", "short", "mid", "mid", "over", "never"]);
  const when = (k) => k === "0" ? 0 : k === "short" ? sim.int("w:t", 1, 60e3) : k === "mid" ? sim.int("w:t", 1, timeout) : k === "over" ? timeout + sim.int("w:t", 1, timeout) : Infinity;
  const headEnd = when(sim.pick("w:headSpan", ["0", "short", "mid", "mid", "mid", "over", "never"]));
  const unusable = sim.chance("w:unusable", 0.1);
  const baseKind = sim.pick("w:base", ["run", "run", "run", "run", "none", "null", "self", "404", "403"]);
  const baseId = baseKind === "none" ? undefined : baseKind === "null" ? null : baseKind === "self" ? "head" : "base";
  const runs = new Map();
  runs.set("head", mkRun(sim, "head", { end: headEnd, final: unusable ? sim.pick("w:final", UNUSABLE) : sim.pick("w:final", DONE), base: baseId }));
  if (!["404", "403"].includes(baseKind)) runs.set("base", mkRun(sim, "base", { end: when(span()), final: sim.pick("w:final", [...DONE, ...UNUSABLE]), base: undefined }));
  // network patching: absent, unsupported by the service, or settling some time after the head run
  const patch = sim.pick("w:patch", ["none", "none", "unsupported", "merged", "merged", "merged", "never", "nullBody"]);
  const patchAt = patch === "merged" ? (headEnd === Infinity ? 0 : headEnd) + when(sim.pick("w:patchSpan", ["0", "short", "mid", "over"])) : patch === "never" ? Infinity : 0;
  const mergedBase = patch === "merged" || patch === "never" ? sim.pick("w:mbase", [baseId, baseId, "base2"]) : baseId;
  if (patch === "merged" || patch === "never") { runs.set("merged", mkRun(sim, "merged", { end: patchAt, final: sim.pick("w:final", DONE), base: mergedBase })); if (mergedBase === "base2") runs.set("base2", mkRun(sim, "base2", { end: when(span()), final: "Success", base: undefined })); }
  const skip = sim.chance("w:skip", 0.2); const expect404 = sim.chance("w:e404", 0.1);
  const p = sim.pick("w:pf", [0, 0, 0.03, 0.15, 0.5]); let burst = 0, outage = null; let disturbed = 0;
  if (p && sim.chance("f:outage", 0.4)) { const a = sim.int("f:oa", 0, timeout); outage = [a, a + sim.pick("f:ol", [20e3, 120e3, 900e3, 3 * timeout])]; }
  const headGone = sim.chance("w:gone", 0.04) ? sim.pick("w:goneS", [404, 401, 403]) : null;
  const faultFor = () => {
    if (!p) return null; const out = outage && sim.now >= outage[0] && sim.now < outage[1];
    if (!out && burst <= 0) { if (!sim.chance("f:p", p)) return null; burst = sim.pick("f:burst", [1, 1, 2, 4, 12]); }
    burst--; disturbed++; const k = sim.pick("f:k", ["status", "status", "lost", "refuse", "stall", "cut", "slow"]);
    return k === "status" ? { kind: k, status: sim.pick("f:st", [500, 502, 503, 504, 429]) } : k === "slow" ? { kind: k, delay: sim.pick("f:sd", [5e3, 30e3]) } : { kind: k, after: 0 };
  };
  const proc = mkProc(sim, disk, "check", { handle: () => ({ status: 404, body: "" }) }, { clockOffset: sim.pick("w:skew", [0, -3600e3, 86400e3]) });
  proc.onUncaught = () => {};
  const log = []; const marked = []; const latest = sim.chance("w:byCommit", 0.3); const noRun = latest && sim.chance("w:norun", 0.15);
  proc.opts.fetch = simFetch(proc, { name: "api", latency: [1, 60], chunks: 2, undiciTimeouts: true,
    faultFor: (info) => { const f = faultFor(info); info.e = { t: sim.now, path: info.path.replace(/^\/api\//, ""), method: info.method, fault: f, done: null }; log.push(info.e); return f; },
    handle: (info, f) => {
      const e = info.e; if (f?.kind === "status") return json({ status: f.status, body: { message: "no" } });
      const path = e.path; let r = { status: 404, body: { message: "not found" } }; let m;
      if (path === "test-runs/cache") r = noRun ? sim.pick("w:nr", [{ status: 404, body: {} }, { body: null }]) : decodeURIComponent(info.query.get("commitSha")) === "sha1" ? { body: runs.get("head").at(sim.now) } : r;
      else if ((m = /^test-runs\/([^/]+)$/.exec(path))) { const run = runs.get(m[1]); if (m[1] === "head" && headGone) r = { status: headGone, body: { message: "gone" } }; else if (run) { r = { body: run.at(sim.now) }; } else if (baseKind === "403") r = { status: 403, body: {} }; }
      else if (/^test-runs\/head\/network-patching-result$/.test(path)) r = patch === "unsupported" ? { status: 404, body: {} } : patch === "nullBody" ? { body: null } : patch === "none" ? { body: { effectiveTestRunId: "head", isNetworkPatchingInProgress: false } } : { body: { effectiveTestRunId: sim.now >= patchAt ? "merged" : sim.pick("w:known", ["head", "merged"]), isNetworkPatchingInProgress: sim.now < patchAt } };
      else if ((m = /^test-runs\/([^/]+)\/expect-custom-checks$/.exec(path)) && info.method === "POST") { if (expect404) r = { status: 404, body: {} }; else { marked.push({ id: m[1], t: sim.now }); r = { body: {} }; } }
      e.status = r.status ?? 200; e.answer = r.body; return json(r);
    } });
  const m = proc.load(scripts.cc); const client = m.client.createClient({ apiToken: "t" });
  const o = { client, ...(poll === 10e3 && sim.chance("w:def", 0.5) ? {} : { pollIntervalMs: poll }), ...(timeout === 1800e3 && sim.chance("w:def", 0.5) ? {} : { timeoutMs: timeout }), ...(skip ? { skipRegisteringExpectedCustomChecks: true } : {}) };
  const start = sim.now;
  const r = settle(sim, latest ? m.cc.findTestRunByCommitForCustomChecks({ commitSha: "sha1", ...o }) : m.cc.findTestRunForCustomChecks({ testRunId: "head", ...o }));
  const begun = () => { const e = log.find((x) => x.path !== "test-runs/cache"); return e ? e.t : start; };
  const st = await sim.run(async () => { await r.p; }, { maxTime: 12 * 3600e3, maxEvents: 120000 });
  if (sim.stopped) return { sample: {} };
  // the deadline covers the whole wait; each phase may still make one (retried) request after it
  const t0 = begun(); const deadline = t0 + timeout; const bound = deadline + 2 * poll + (p ? 5 * REQ : 2e3);
  sim.check(r.at !== null, `${K}.hang`, () => `never settled (${st}, ${Math.round(sim.now / 1000)} s)`);
  sim.check(r.at <= bound, `${K}.too-long`, () => `took ${r.at - t0} ms with a time-out of ${timeout} ms`);
  const expired = (slack = 0) => r.at > deadline - slack; // only after its deadline may a phase give up
  const head = runs.get("head");
  const gets = (id) => log.filter((e) => e.path === `test-runs/${id}` && e.method === "GET");
  if (!r.ok) {
    if (latest && noRun) { sim.check(/No test run found/.test(r.e?.message) || p > 0, `${K}.error`, () => `rejected with ${r.e}`); sim.check(gets("head").length === 0, `${K}.error`, () => "went on without a run"); }
    else if (latest && log.every((e) => e.path === "test-runs/cache")) sim.check(disturbed > 0, `${K}.error`, () => `looking up the run failed: ${r.e}`);
    else if (headGone) sim.probe("gone");
    else { sim.check(expired(1), `${K}.gave-up`, () => `gave up after ${r.at - t0} ms of ${timeout} ms: ${r.e}`); sim.check(head.end > deadline - poll - (p ? REQ : 2e3) || disturbed > 0, `${K}.gave-up`, () => `timed out although the run had ended at ${head.end - t0} ms`); sim.probe("timeout"); if (!p) sim.check(/Timed out/.test(r.e?.message), `${K}.error`, () => `rejected with ${r.e}`); }
    sim.check(marked.length === 0, `${K}.registered`, () => `registered ${marked.map((x) => x.id)} although the wait failed`);
  } else {
    const { testRunId, testRun } = r.v; const run = runs.get(testRunId);
    sim.check(!(latest && noRun) && !headGone, `${K}.error`, () => `resolved to ${testRunId} although the run cannot be read`);
    if (!sim.check(run && testRun?.id === testRunId && ["head", "merged"].includes(testRunId), `${K}.wrong-run`, () => `resolved to ${testRunId} / ${testRun?.id}`)) return { sample: {} };
    sim.check(r.at >= head.end, `${K}.running`, () => `resolved at ${r.at} although the run ends at ${head.end}`);
    // the state handed over is one the service reported, and (before the deadline) final
    const served = gets(testRunId).filter((e) => e.answer && isDeepStrictEqual(JSON.parse(JSON.stringify(e.answer)), testRun));
    sim.check(served.length > 0, `${K}.state`, () => `returned state ${JSON.stringify(testRun)} was never reported by the service`);
    if (!expired()) sim.check(!IN_PROGRESS.includes(testRun.status), `${K}.running`, () => `resolved to run ${testRunId} in state ${testRun.status}`);
    const noCheck = UNUSABLE.includes(head.final);
    const wantId = noCheck || ["none", "unsupported", "nullBody"].includes(patch) ? "head" : "merged";
    if (!expired()) sim.check(testRunId === wantId, `${K}.wrong-run`, () => `resolved to ${testRunId} after ${r.at - t0} ms, patching ${patch} settled at ${patchAt - t0}`);
    else sim.check(testRunId === wantId || wantId === "merged" && (patchAt > deadline - poll - REQ || disturbed > 0), `${K}.wrong-run`, () => `resolved to ${testRunId}`);
    if (noCheck) { sim.check(marked.length === 0 && !log.some((e) => /network-patching|expect-custom/.test(e.path)), `${K}.registered`, () => "an unusable run was registered"); sim.probe("unusable"); }
    else {
      const posts = log.filter((e) => /expect-custom-checks$/.test(e.path));
      sim.check(skip ? posts.length === 0 : posts.length >= 1 && posts.every((e) => e.path === `test-runs/${testRunId}/expect-custom-checks`), `${K}.registered`, () => `registered ${posts.map((e) => e.path)} for ${testRunId} (skip ${skip})`);
      if (!skip && !expect404 && !p) sim.check(marked.length === 1, `${K}.registered`, () => `registered ${marked.length} times`);
      // the base run of the run that was returned
      const bid = run.at(0).configData?.arguments?.baseTestRunId; const base = bid && bid !== testRunId ? runs.get(bid) : null;
      const basePolls = bid && bid !== testRunId ? gets(bid) : [];
      if (posts.length && basePolls.length && bid !== "head") sim.check(posts[0].t <= basePolls[0].t, `${K}.registered`, () => "the base run was awaited before registering");
      if (bid && bid !== testRunId && bid !== "head") sim.check(basePolls.length > 0, `${K}.base`, () => `resolved without looking at base run ${bid}`);
      if (base) { sim.check(expired() || r.at >= base.end, `${K}.base`, () => `resolved after ${r.at - t0} ms although base run ${bid} ends at ${base.end - t0}`); sim.probe(base.end > r.at ? "baseTimeout" : basePolls.length > 1 ? "baseWaited" : "baseReady"); }
      else if (bid === "base" && !p) sim.check(basePolls.length === 1, `${K}.base`, () => `asked ${basePolls.length} times for an unreadable base run`);
    }
    // promptness without faults: the answer comes one poll after the last thing it waits for
    if (!p && !noCheck) { const bid = run.at(0).configData?.arguments?.baseTestRunId; const bEnd = bid && bid !== testRunId && runs.get(bid) ? runs.get(bid).end : 0; const last = Math.min(deadline, Math.max(head.end, patch === "merged" || patch === "never" ? patchAt : 0, bEnd, t0)); sim.check(r.at <= last + 3 * poll + 3e3, `${K}.too-long`, () => `resolved ${r.at - last} ms after everything had ended`); }
    sim.probe(testRunId);
  }
  // rate: after an answered poll the next one of the same kind waits for the interval
  const byPath = new Map(); for (const e of log) { if (e.method !== "GET") continue; const prev = byPath.get(e.path); if (prev && prev.status === 200 && !prev.fault && prev.path !== "test-runs/cache") sim.check(e.t - prev.t >= poll - 1 || /test-runs\/(head|merged)$/.test(e.path) && !IN_PROGRESS.includes(prev.answer?.status), `${K}.rate`, () => `${e.path} polled ${e.t - prev.t} ms after the last answer`); byPath.set(e.path, e); }
  if (p) { const perMin = log.length / Math.max(1, (sim.now - start) / 60e3); sim.check(perMin <= 12 * (60e3 / poll + 1) + 30, `${K}.rate`, () => `${Math.round(perMin)} requests per minute`); }
  const n = log.length; await sim.settle(400e3);
  sim.check(log.length === n, `${K}.after`, () => `${log.length - n} requests after the wait had ended`);
  sim.check(sim.unhandled.length === 0 && proc.uncaughtErrors.length === 0, `${K}.unhandled`, () => `escaped: ${sim.unhandled[0]?.reason ?? proc.uncaughtErrors[0]}`);
  return { sample: { patch, baseKind, ok: r.ok, seconds: Math.round((r.at - t0) / 1000), disturbed } };
};

// ------------------------------------------------------------------ K02
export const runSnapshots = async (sim, { scripts }) => {
  const K = sim.prop; const disk = new Disk(sim); disk.mkdir("/tmp", { recursive: true }); disk.put("/tmp/other.txt", "keep");
  let damaged = 0, nobase = false; const plan = { bad: sim.pick("w:badp", [0, 0, 0, 0.05, 0.3]), mode: sim.pick("w:mode", ["clean", "few", "few", "many"]), fs: sim.pick("w:fs", [0, 0, 0, 0.01, 0.05]) };
  const store = new Map(); let seq = 0; const hosts = "https://cdn.sim";
  const types = sim.pick("w:types", [["network-requests"], ["a", "b"], ["x y", "ü&z"]]);
  const mk = (side, n) => Array.from({ length: n }, () => {
    const id = seq++; const type = sim.pick("w:type", types); const key = sim.pick("w:key", [`replays/${side}/${id}/${type}.json.gz`, `r ü/${side}-${id}.json.gz`, `a+b/${side}/${id}#1.json.gz`]);
    const entries = Array.from({ length: sim.int("w:n", 0, 4) }, (_, i) => ({ stageDuringSession: sim.pick("w:stage", ["start", "end", `s${i}`]), data: { side, id, i, text: "x".repeat(sim.int("w:len", 0, 200)), u: "é✓" }, ...(sim.chance("w:v", 0.5) ? { versionNumber: sim.int("w:vn", 0, 3) } : {}), ...(sim.chance("w:d", 0.4) ? { sessionDescription: sim.pick("w:dv", [null, "login", ""]) } : {}) }));
    const damage = sim.chance("w:bad", plan.bad) ? sim.pick("w:badk", ["missing", "noJson", "notArray", "notJson"]) : null;
    const body = damage === "noJson" ? makeZip([["x.txt", "hi"]]) : damage === "notArray" ? makeZip([[`${type}.json`, JSON.stringify({ entries })]]) : damage === "notJson" ? makeZip([[`${type}.json`, "[1,"]]) : makeZip([...(sim.chance("w:extra", 0.1) ? [["readme.txt", "r"]] : []), [`snap.json`, JSON.stringify(entries)]]);
    if (damage) damaged++; if (damage !== "missing") store.set(`/${key}`, body);
    return { file: { type, sessionId: `sess${sim.int("w:sess", 0, 3)}`, key }, entries, damage };
  });
  const big = sim.chance("w:big", 0.15); const base = mk("base", sim.int("w:nb", 0, big ? 60 : 8)), head = mk("head", sim.int("w:nh", 0, big ? 60 : 8));
  const net = { few: 0.1, many: 0.5, clean: 0 }[plan.mode]; const fsp = plan.mode === "clean" ? 0 : plan.fs; let disturbed = 0; let open = 0, maxOpen = 0;
  const proc = mkProc(sim, disk, "check", {
    faultFor: (info) => { if (!net || !sim.chance("f:net", net)) return null; disturbed++; const k = sim.pick("f:k", ["status", "refuse", "lost", "cut", "stallBody", "stall", "slow"]); return k === "status" ? { kind: k, status: sim.pick("f:st", [500, 503, 404]) } : k === "slow" ? { kind: k, delay: sim.pick("f:sd", [2e3, 30e3]) } : { kind: k, after: sim.int("f:after", 0, 3) }; },
    handle: (info, f) => { if (f?.kind === "status") return { status: f.status, body: "x" }; const path = decodeURIComponent(info.path ?? new URL(info.url).pathname); const q = info.query ?? new URL(info.url).searchParams; if (q.get("Signature") !== "s+g/=" || q.get("Policy") !== "p") return { status: 403, body: "bad signature" }; const b = store.get(path); return b ? { status: 200, body: b } : { status: 404, body: "none" }; },
  }, { fsFault: (op, path) => { if (!fsp || ["unlink", "rmdir", "lstat", "readdir", "close", "rm"].includes(op) || !sim.chance("f:fs", fsp)) return null; disturbed++; return sim.pick("f:fsk", ["EIO", "ENOSPC", "EMFILE"]); }, tmpdir: "/tmp" });
  proc.onUncaught = () => {};
  const signedBaseUrl = `${hosts}/?Policy=p&Signature=${encodeURIComponent("s+g/=")}&Key-Pair-Id=K`; let asked = null; let apiFail = sim.chance("f:api", 0.05);
  proc.opts.fetch = simFetch(proc, { name: "api", latency: [1, 60], chunks: 3, undiciTimeouts: true, faultFor: (info) => (apiFail ? (disturbed++, { kind: "status", status: 500 }) : net && sim.chance("f:apip", net / 4) ? (disturbed++, { kind: "status", status: 503 }) : null),
    handle: (info, f) => { if (f?.kind === "status") return json({ status: f.status, body: {} }); asked = { path: info.path, types: info.query.getAll("snapshotTypes") }; if (sim.chance("w:nobase", 0.03)) { nobase = true; return json({ status: 400, body: { message: "no base" } }); } return json({ body: { testRunId: "run1", baseTestRunId: "run0", signedBaseUrl, baseSnapshotFiles: base.map((x) => x.file), headSnapshotFiles: head.map((x) => x.file) } }); } });
  // concurrency: files being worked on = working directories
  const work = () => disk.list("/tmp").filter((n) => n !== "other.txt").length;
  sim.onEvent = () => { const w = work(); if (w > maxOpen) maxOpen = w; };
  const m = proc.load(scripts.cc); const client = m.client.createClient({ apiToken: "t" });
  const r = settle(sim, m.cc.getSnapshotsFromTestRun({ client, testRunId: "run1", snapshotTypes: types }));
  const st = await sim.run(async () => { await r.p; }, { maxTime: 12 * 3600e3, maxEvents: 200000 });
  if (sim.stopped) return { sample: {} };
  sim.check(r.at !== null, `${K}.hang`, () => `never settled (${st})`);
  const shape = (l) => l.flatMap((x) => x.entries.map((e) => ({ type: x.file.type, sessionId: x.file.sessionId, sessionDescription: e.sessionDescription ?? null, stageDuringSession: e.stageDuringSession, data: e.data, versionNumber: e.versionNumber ?? 0 })));
  if (r.ok) {
    sim.check(damaged === 0 && !nobase, `${K}.partial`, () => `succeeded although ${damaged} snapshot files cannot be read`);
    sim.check(asked && asked.path === "/api/test-runs/run1/custom-check-snapshots-download-urls" && isDeepStrictEqual(asked.types, types), `${K}.request`, () => `asked ${JSON.stringify(asked)}`);
    sim.check(r.v.testRunId === "run1" && r.v.baseTestRunId === "run0", `${K}.content`, () => `runs ${r.v.testRunId} ${r.v.baseTestRunId}`);
    const plain = (x) => JSON.parse(JSON.stringify(x));
    for (const [side, want] of [["base", shape(base)], ["head", shape(head)]]) sim.check(isDeepStrictEqual(plain(r.v[`${side}Snapshots`]), plain(want)), `${K}.content`, () => { const got = r.v[`${side}Snapshots`]; const i = want.findIndex((x, k) => !isDeepStrictEqual(plain(x), plain(got[k] ?? null))); return `${side}: ${got.length} snapshots, expected ${want.length}; first difference at ${i}: ${JSON.stringify(got[i])?.slice(0, 150)}`; });
    sim.probe("ok"); sim.check(work() === 0, `${K}.leftover`, () => `left ${disk.list("/tmp").join(" ")} behind`);
  } else { sim.check(damaged > 0 || disturbed > 0 || nobase, `${K}.failed`, () => `failed without a cause: ${r.e?.stack ?? r.e}`); sim.probe("failed"); }
  await sim.settle(3 * 3600e3, 200000);
  sim.check(work() === 0, `${K}.leftover`, () => `left ${disk.list("/tmp").join(" ")} behind`);
  sim.check(disk.list("/tmp").includes("other.txt"), `${K}.leftover`, () => "removed a file it does not own");
  sim.check(maxOpen <= 40, `${K}.concurrency`, () => `${maxOpen} files were being downloaded at once`);
  sim.check(sim.unhandled.length === 0 && proc.uncaughtErrors.length === 0, `${K}.unhandled`, () => `escaped: ${sim.unhandled[0]?.reason ?? proc.uncaughtErrors[0]}`);
  sim.probe("files", base.length + head.length);
  return { sample: { plan, ok: r.ok, files: base.length + head.length, maxOpen } };
};
