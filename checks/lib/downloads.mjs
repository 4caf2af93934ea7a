// Harness for packages/downloading-helpers: replay archives, test run data,
// single downloads, cached JSON documents and replay assets, on a simulated
// disk shared by several simulated processes.
import zlib from "node:zlib";
import path from "node:path";
import { isDeepStrictEqual } from "node:util";
import { bundle } from "../../sim/bundle.mjs";
import { Proc } from "../../sim/proc.mjs";
import { Disk } from "../../sim/fs.mjs";
import { npmModules, realPackages, makeZip } from "../../sim/npm.mjs";
import { simFetch } from "../../sim/net.mjs";

export const DOWNLOADS_META = {
  real: ["packages/downloading-helpers/src (all download, cache and lock code)", "packages/client/src (API calls, retries)", "packages/common/src (data dir, retry helper)", "npm tar 7.5.11, p-limit 3.1.0, node streams and zlib inflate"],
  stubs: ["axios, axios-retry, undici: model of request, timeout, cancel and retry behaviour over the simulated network", "proper-lockfile 4: model (stale take-over atomic) over the simulated disk", "extract-zip: model reading a private archive format", "fast-zlib: the same node zlib _processChunk calls", "fs, fs/promises: simulated disk", "loglevel, luxon, cli-progress, chalk: trivial"],
  assumptions: ["HTTP client reports a body shorter than content-length as an error", "a process crash keeps every file system call that had completed (no power loss)", "one file system call takes less than the retry delay of a download"],
};
let built;
export const buildDownloads = async () => (built ??= { dl: (await bundle({
  dl: "packages/downloading-helpers/src/index.ts", file: "packages/downloading-helpers/src/file-downloads/download-file.ts",
  assets: "packages/downloading-helpers/src/scripts/replay-assets.ts", client: "packages/client/src/index.ts",
}, { real: realPackages() })).code });

const DATA = "/data";
export const mkProc = (sim, disk, name, net, extra = {}) => {
  const proc = new Proc(sim, name, { modules: npmModules, disk, env: { METICULOUS_DIR: DATA, METICULOUS_IS_CLOUD_REPLAY: "true", ...(extra.env ?? {}) }, ...extra });
  proc.opts.http = { name: "s3", latency: [1, 60], chunks: 4, faultFor: net.faultFor, handle: net.handle };
  proc.opts.fetch = simFetch(proc, { name: "api", latency: [1, 60], faultFor: net.apiFault ?? net.faultFor, handle: net.handle, undiciTimeouts: true });
  return proc;
};

/** seeded network fault plan */
export const netFaults = (sim, p, w = {}) => (info) => {
  if (!p.on || !sim.chance("f:net", p.net)) return null;
  const kinds = ["status500", "status503", "refuse", "lost", "cut", "cut", "stallBody", "stall", "slow", "slowBody"];
  const k = sim.pick("f:netk", kinds);
  if (k === "status500" || k === "status503") return { kind: "status", status: k === "status500" ? 500 : 503 };
  if (k === "cut" || k === "stallBody") return { kind: k, after: sim.int("f:after", 0, 4) };
  if (k === "slow") return { kind: k, delay: sim.pick("f:slow", [2e3, 30e3, 59e3, 70e3]) };
  if (k === "slowBody") return { kind: k, delay: sim.pick("f:slowb", [1e3, 20e3, 45e3]) };
  return { kind: k };
};
export const fsFaults = (sim, p) => (op, path_) => {
  if (!p.on || !p.fs) return null;
  if (op === "unlink" || op === "rmdir" || op === "lstat" || op === "readdir" || op === "close" || op === "realpath") return null;
  if (path_.includes(".lock")) return null;
  if (!sim.chance("f:fs", p.fs)) return null;
  return sim.pick("f:fsk", ["EIO", "ENOSPC", "EMFILE"]);
};

// ------------------------------------------------------------------ world
export const text = (sim, tag, hi = 120) => `${tag}|${"abcdefghij".repeat(Math.ceil((sim.int("w:len", 0, hi) + 1) / 10))}`;
const FLAT = ["metadata", "timeline", "rawCoverage", "mappedCoverage", "accuracy", "logs", "playbackData"];
const ARCH = { snapshottedAssets: "snapshotted-assets", rawPerScreenshotCssCoverage: "raw-per-screenshot-css-coverage", rawPerScreenshotJsCoverage: "raw-per-screenshot-js-coverage", mappedPerScreenshotJsCoverage: "mapped-per-screenshot-js-coverage" };
const SCOPES = ["everything", "screenshots-only", "timeline-only", "post-test-run-processing-files-only", "post-process-including-unmapped-ranges"];
// the scopes as documented in replays.ts
const inScope = (type, scope) => ({
  everything: () => true, "screenshots-only": () => type.startsWith("screenshots"), "timeline-only": () => type.startsWith("timeline"),
  "post-test-run-processing-files-only": () => /^(mappedCoverage|timeline|mappedPerScreenshotJsCoverage)/.test(type),
  "post-process-including-unmapped-ranges": () => /^(mappedCoverage|timeline|mappedPerScreenshotJsCoverage|rawCoverage)/.test(type),
})[scope]();

export const makeReplay = (sim, id, store) => {
  const key = (k) => { const u = `https://s3.sim/${id}/${k}?sig=1`; return u; };
  const put = (k, body) => { store.set(`/${id}/${k}`, Buffer.from(body)); return key(k); };
  const files = []; // {type, path, data}
  const urls = { screenshots: {} };
  const zip = (k, dir, list, type) => { const entries = list.map((n) => [n, text(sim, `${id}/${dir}${n}`)]); for (const [n, d] of entries) files.push({ type, path: dir + n, data: Buffer.from(d) }); return put(k, makeZip(entries)); };
  for (const t of FLAT) if (t === "timeline" || t === "metadata" || sim.chance("w:flat", 0.5)) urls[t] = { signedUrl: zip(`${t}.zip`, "", sim.chance("w:two", 0.3) ? [`${t}.json`, `${t}-index.json`] : [`${t}.json`], t), filePath: `${t}.json` };
  const n = sim.int("w:shots", 0, 4);
  for (let i = 0; i < n; i++) {
    const d = text(sim, `${id}/png${i}`); const p = `screenshots/shot-${i}.png`; files.push({ type: "screenshots", path: p, data: Buffer.from(d) });
    const s = { image: { signedUrl: put(`shot-${i}.png`, d), filePath: p } };
    if (sim.chance("w:meta", 0.5)) s.metadata = { signedUrl: zip(`shot-${i}.meta.zip`, "screenshots/", [`shot-${i}.metadata.json`], "screenshots"), filePath: `screenshots/shot-${i}.metadata` };
    urls.screenshots[`shot-${i}`] = s;
  }
  if (sim.chance("w:diffs", 0.4)) {
    urls.diffs = { base1: {} };
    for (let i = 0, n_ = sim.int("w:ndiffs", 1, 2); i < n_; i++) {
      const f = text(sim, `${id}/full${i}`), t = text(sim, `${id}/thumb${i}`);
      files.push({ type: "diffs", path: `diffs/base1/${i}.png`, data: Buffer.from(f) }, { type: "diffs", path: `diffs/base1/${i}.thumb.png`, data: Buffer.from(t) });
      urls.diffs.base1[`shot-${i}`] = { full: { signedUrl: put(`diff-${i}`, f), filePath: `diffs/base1/${i}.png` }, thumbnail: { signedUrl: put(`diff-${i}-t`, t), filePath: `diffs/base1/${i}.thumb.png` } };
    }
  }
  for (const [t, dir] of Object.entries(ARCH)) if (sim.chance("w:arch", 0.35)) urls[t] = { signedUrl: zip(`${t}.zip`, `${dir}/`, ["a.js", "sub/b.css"].slice(0, sim.int("w:na", 1, 2)), t), filePath: `${t}.zip` };
  let logs = null;
  if (sim.chance("w:acl", 0.3)) { const d = text(sim, `${id}/acl`); logs = { signedUrl: put("acl", d), filePath: "app-container-logs.ndjson" }; files.push({ type: "appContainerLogs", path: "app-container-logs.ndjson", data: Buffer.from(d) }); }
  if (sim.chance("w:ccs", 0.3)) urls.customCheckSnapshots = { a: { file: { signedUrl: key("ccs"), filePath: "x" } } };
  return { id, files, urls, logs };
};
const TR_TYPES = ["coverage", "coverageStats", "coveragePr", "coverageStatsPr", "coverageByReplayPr", "testCases"];
const TR_SCOPES = ["everything", "app-container-logs", "coverage-by-replay-pr-only", "coverage-only", "coverage-pr-only"];
const trInScope = (t, s) => ({ everything: () => true, "app-container-logs": () => false, "coverage-by-replay-pr-only": () => t.startsWith("coverageByReplayPr"), "coverage-only": () => t === "coverage" || t === "coverageStats", "coverage-pr-only": () => t === "coveragePr" || t === "coverageStatsPr" })[s]();
const makeTestRun = (sim, id, store) => {
  const files = []; const data = {};
  for (const t of TR_TYPES) {
    if (!sim.chance("w:tr", 0.7)) { if (sim.chance("w:trnull", 0.3)) data[t] = null; continue; }
    const name = `${t}.out.json`; const d = JSON.stringify({ t, id, v: text(sim, "v") });
    store.set(`/${id}/${t}.zip`, makeZip([[name, d]])); files.push({ type: t, path: name, data: Buffer.from(d) });
    data[t] = { signedUrl: `https://s3.sim/${id}/${t}.zip?sig`, filePath: `${t}.zip` };
  }
  let logs = null;
  if (sim.chance("w:pods", 0.6)) {
    logs = { signedBaseUrl: "https://s3.sim/base?sig=1", pods: [] };
    for (let i = 0, n_ = sim.int("w:npods", 0, 2); i < n_; i++) {
      const chunkKeys = []; let all = "";
      for (let c = 0, n_ = sim.int("w:nchunks", 1, 3); c < n_; c++) { const d = text(sim, `${id}/pod${i}/${c}`, 40); all += d; store.set(`/${id}/pod${i}/${c}.gz`, Buffer.from(d)); chunkKeys.push(`${id}/pod${i}/${c}.gz`); }
      logs.pods.push({ podName: `pod${i}`, chunkKeys }); files.push({ type: "app-container-logs", path: `app-container-logs/pod${i}.log`, data: Buffer.from(all) });
    }
  }
  return { id, files, data, logs };
};

export const serve = (world) => (info, fault) => {
  if (fault?.kind === "status") return { status: fault.status, body: "err" };
  if (info.host === "s3.sim") {
    const k = decodeURIComponent(info.path);
    if (world.gone?.has(k)) return { status: 403, body: "AccessDenied" };
    const b = world.store.get(k);
    return b ? { status: 200, body: b } : { status: 404, body: "NoSuchKey" };
  }
  if (info.host === "app.meticulous.ai") {
    const m = /^\/api\/(.*)$/.exec(info.path)[1].split("/");
    world.requests.push({ path: info.path, t: info.t });
    if (m[0] === "replays") {
      const r = world.replays.get(m[1]); if (!r) return { status: 404, body: { message: "no" } };
      if (!m[2]) return { status: 200, body: world.doc ? world.doc(`replays/${m[1]}`) : { id: r.id, version: "v3" } };
      const u = { ...r.urls };
      if (info.query.get("includeScreenshots") === "false") u.screenshots = {};
      if (info.query.get("includeDiffs") === "false") delete u.diffs;
      if (info.query.get("includeAppContainerLogs") === "true" && r.logs) u.appContainerLogs = r.logs;
      return { status: 200, body: u };
    }
    if (m[0] === "test-runs") {
      const r = world.testRuns.get(m[1]); if (!r) return { status: 404, body: { message: "no" } };
      const d = { ...r.data }; if (info.query.get("includeAppContainerLogs") === "true" && r.logs) d.appContainerLogs = r.logs;
      return { status: 200, body: d };
    }
    if (m[0] === "sessions") { const d = world.doc(`sessions/${m[1]}${m[2] ? "/" + m[2] : ""}`); return d === null ? { status: 404, body: { message: "no" } } : { status: 200, body: d }; }
  }
  return { status: 404, body: "?" };
};

const verifyTree = (sim, kind, tree, need, what) => {
  for (const f of need) {
    const got = tree.get(f.path);
    if (!got) { sim.violate(`${kind}/incomplete`, `${what}: reported as downloaded but ${f.path} is missing`); return; }
    if (!got.equals(f.data)) { sim.violate(`${kind}/wrong-content`, `${what}: reported as downloaded but ${f.path} holds ${got.length} bytes that differ from the ${f.data.length} served`); return; }
  }
};

// ------------------------------------------------------------------ D01
export const runArchive = async (sim, { scripts }, kind) => {
  sim.tieChoice = true;
  const disk = new Disk(sim); disk.mkdir(DATA, { recursive: true });
  const world = { store: new Map(), replays: new Map(), testRuns: new Map(), requests: [], gone: new Set() };
  const plan = {
    what: kind, faults: sim.chance("cfg:faults", 0.7), net: sim.pick("cfg:net", [0.02, 0.06, 0.15]), fs: sim.chance("cfg:fs", 0.3) ? 0.004 : 0,
    procs: sim.int("cfg:procs", 1, 3), calls: sim.int("cfg:calls", 1, 4), ids: sim.int("cfg:ids", 1, 2), crash: sim.chance("cfg:crash", 0.6), par: sim.chance("cfg:par", 0.3),
    gap: sim.pick("cfg:gap", [100, 3000, 60e3]), crashWithin: sim.pick("cfg:cw", [300, 1500, 20e3, 200e3]), gone: sim.chance("cfg:gone", 0.25),
  };
  const p = { on: plan.faults, net: plan.net, fs: plan.fs };
  const ids = [];
  for (let i = 0; i < plan.ids; i++) { const id = `r${i}`; ids.push(id); if (kind === "replay") world.replays.set(id, makeReplay(sim, id, world.store)); else world.testRuns.set(id, makeTestRun(sim, id, world.store)); }
  if (plan.gone && kind === "replay") for (const r of world.replays.values()) for (const t of Object.keys(ARCH)) if (r.urls[t] && sim.chance("w:gone", 0.5)) world.gone.add(`/${r.id}/${t}.zip`);
  const net = { faultFor: netFaults(sim, p), handle: serve(world) };
  const dirOf = (id) => (kind === "replay" ? `${DATA}/replays/${id}` : `${DATA}/test-runs/${id}`);
  const need = (id, scope, excl, be) => {
    if (kind === "replay") { const r = world.replays.get(id); return r.files.filter((f) => inScope(f.type, scope) && !excl?.has(f.type) && !be?.has(f.type)); }
    const r = world.testRuns.get(id); return r.files.filter((f) => (f.type === "app-container-logs" ? scope === "everything" || scope === "app-container-logs" : trInScope(f.type, scope)));
  };
  let gen = 0, ok = 0, failed = 0, crashes = 0, cached = 0;
  const spawn = (name) => {
    const proc = mkProc(sim, disk, name, net, { fsFault: fsFaults(sim, p), fsLatency: [0, 4] });
    proc.snaps = new Map();
    proc.opts.onUnlock = (lp) => { const d = path.dirname(lp); proc.snaps.set(d, disk.tree(d)); };
    proc.opts.onDoubleLock = (lp, prev) => sim.log(`two holders of ${lp}: ${prev.proc.name}, ${proc.name}`);
    const m = proc.load(scripts.dl);
    proc.sut = m; proc.client = m.client.createClient({ apiToken: "tok" });
    return proc;
  };
  const call = async (proc, id, scope, opts, label) => {
    const before = world.requests.length;
    try {
      if (kind === "replay") await proc.sut.dl.getOrFetchReplayArchive(proc.client, id, scope, opts.format ?? false, { ...(opts.excl ? { excludeFileTypes: opts.excl } : {}), ...(opts.be ? { bestEffortFileTypes: opts.be } : {}) });
      else await proc.sut.dl.getOrFetchTestRunData(proc.client, id, scope, opts.format ?? false);
    } catch (e) {
      sim.log(`${proc.name} ${label} failed: ${e?.message}`);
      if (/Unknown previously download scope/.test(e?.message)) sim.probe("unknown-scope-error");
      failed++; return { ok: false, e };
    }
    ok++; if (world.requests.length === before) cached++;
    const tree = proc.snaps.get(dirOf(id)) ?? new Map();
    verifyTree(sim, "D01", tree, need(id, scope, opts.excl, opts.be), `${kind} ${id} scope ${scope} (${label})`);
    sim.log(`${proc.name} ${label} ok`);
    return { ok: true };
  };
  const pickOpts = () => {
    const o = { format: sim.chance("op:fmt", 0.2) };
    if (kind === "replay" && sim.chance("op:excl", 0.2)) o.excl = new Set([sim.pick("op:x", ["playbackData", "diffs", "screenshots", "rawCoverage", "metadata"])]);
    if (kind === "replay" && sim.chance("op:be", plan.gone ? 0.5 : 0.15)) o.be = new Set(Object.keys(ARCH));
    return o;
  };
  const scopes = kind === "replay" ? SCOPES : TR_SCOPES;
  const actor = async (i) => {
    let proc = spawn(`p${i}.${gen++}`);
    for (let c = 0; c < plan.calls && !sim.stopped; c++) {
      await sim.sleep(sim.latency("wl:gap", 0, plan.gap));
      const n = plan.par ? sim.int("wl:n", 1, 2) : 1;
      const jobs = Array.from({ length: n }, (_, j) => { const id = sim.pick("op:id", ids); const scope = sim.weighted("op:s", [3, 2, 2, 1, 1]); return call(proc, id, scopes[scope], pickOpts(), `call${c}.${j}`); });
      let crashEv = null;
      const dead = new Promise((res) => { if (plan.crash && sim.chance("f:crash", 0.5)) crashEv = sim.at(sim.latency("f:crasht", 1, plan.crashWithin), () => { if (!proc.alive) return res("dead"); sim.fault("process-crash"); crashes++; proc.crash("crash"); res("dead"); }, { name: "crash", daemon: true }); });
      const gone = new Promise((res) => { (proc.onCrash ??= []).push(() => sim.at(0, () => res("dead"), { name: "reap" })); });
      const r = await Promise.race([Promise.all(jobs), dead, gone]);
      sim.cancel(crashEv);
      if (r === "dead") { await sim.sleep(sim.latency("wl:restart", 50, 20e3)); proc = spawn(`p${i}.${gen++}`); }
    }
    return proc;
  };
  const st = await sim.run(async () => {
    await Promise.all(Array.from({ length: plan.procs }, (_, i) => actor(i)));
    p.on = false; world.gone.clear();
    // stragglers of failed attempts may still run; then everything must be fetchable and complete
    await sim.sleep(sim.pick("wl:quiet", [0, 2000, 700e3]));
    const proc = spawn(`final.${gen++}`);
    for (const id of ids) {
      const first = sim.pick("op:fs", scopes);
      for (const scope of [first, "everything"]) {
        let r = await call(proc, id, scope, {}, "final");
        // a predecessor's lock or stragglers may be in the way for a bounded time
        for (let k = 0; !r.ok && k < 3 && !sim.stopped; k++) { await sim.sleep(200e3); r = await call(proc, id, scope, {}, "final"); }
        if (!r.ok && !sim.stopped) sim.violate("D01/unrecoverable", `${kind} ${id} can no longer be fetched although network and disk recovered: ${r.e?.message}`);
      }
    }
  }, { maxTime: 6 * 3600e3, maxEvents: 60000 });
  if (!sim.stopped && st !== "done") sim.violate("D01/hang", `fetching never settled (${st})`);
  sim.probe("fetch-ok", ok); sim.probe("fetch-failed", failed); sim.probe("cache-hits", cached); sim.probe("crashes", crashes);
  return { sample: { plan, ok, failed, cached, crashes } };
};

// ------------------------------------------------------------------ D02
const tarHeader = (name, size, type = "0", mode = 0o644, link = "") => {
  const h = Buffer.alloc(512);
  h.write(name, 0, 100); h.write(mode.toString(8).padStart(7, "0") + "\0", 100); h.write("0001750\0", 108); h.write("0001750\0", 116);
  h.write(size.toString(8).padStart(11, "0") + "\0", 124); h.write("14000000000\0", 136); h.write("        ", 148); h.write(type, 156); h.write(link, 157, 100);
  h.write("ustar\0" + "00", 257);
  let sum = 0; for (const b of h) sum += b; h.write(sum.toString(8).padStart(6, "0") + "\0 ", 148);
  return h;
};
export const makeTar = (entries) => {
  const out = [];
  for (const e of entries) { const d = e.data ?? Buffer.alloc(0); out.push(tarHeader(e.name, e.type === "5" || e.type === "2" ? 0 : d.length, e.type ?? "0", e.mode ?? 0o644, e.link ?? "")); if (d.length && (e.type ?? "0") === "0") { out.push(d); const pad = (512 - (d.length % 512)) % 512; if (pad) out.push(Buffer.alloc(pad)); } }
  out.push(Buffer.alloc(1024)); return Buffer.concat(out);
};
export const runDownload = async (sim, { scripts }, fn) => {
  const disk = new Disk(sim); disk.mkdir("/out", { recursive: true }); disk.mkdir("/other", { recursive: true }); disk.put("/other/keep.txt", "keep");
  const plan = {
    fn, mode: sim.pick("cfg:mode", ["few", "many", "hopeless", "clean"]), fs: sim.chance("cfg:fs", 0.35) ? sim.pick("cfg:fsp", [0.01, 0.05]) : 0,
    conc: sim.pick("cfg:conc", [1, 4, 16]), retries: sim.pick("cfg:ret", [3, 0, 1]), total: sim.pick("cfg:total", [undefined, 90e3, 5e3]), delay: sim.pick("cfg:delay", [1000, 200]),
    first: sim.pick("cfg:first", [undefined, 3000]), cpu: sim.chance("cfg:old", 0.3), truncated: sim.chance("cfg:trunc", 0.15), slowExtract: sim.chance("cfg:sx", 0.1), lat: sim.pick("cfg:lat", [[0, 6], [0, 60], [0, 400]]),
  };
  const p = { on: plan.mode !== "clean", net: { few: 0.2, many: 0.6, hopeless: 1, clean: 0 }[plan.mode], fs: plan.mode === "clean" ? 0 : plan.fs };
  const store = new Map(); let url = "https://s3.sim/obj?sig=1"; let served = 0;
  const size = sim.pick("w:size", [0, 1, 300, 5000, 70000]);
  const blob = (n, tag) => { const b = Buffer.alloc(n); let x = 7 + tag; for (let i = 0; i < n; i++) { x = (Math.imul(x, 1103515245) + 12345) >>> 0; b[i] = (x >>> 16) & 0xff; } return b; };
  let expect = new Map(), listed = [];
  const evil = sim.chance("w:evil", 0.3);
  let object = blob(size, 1);
  if (fn === "zip") { const files = Array.from({ length: sim.int("w:n", 0, 5) }, (_, i) => [sim.chance("w:sub", 0.4) ? `d${i}/f${i}.bin` : `f${i}.bin`, blob(sim.int("w:len", 0, 400), i)]); for (const [n, d] of files) { expect.set(n, d); listed.push(n); } object = makeZip(files); }
  let tar = null;
  if (fn.startsWith("tar") || fn === "inflate") {
    const entries = [];
    for (let i = 0, n_ = sim.int("w:n", 1, 8); i < n_; i++) {
      if (sim.chance("w:dir", 0.2)) { entries.push({ name: `dir${i}/`, type: "5", mode: 0o755 }); listed.push(`dir${i}/`); }
      const name = sim.chance("w:sub", 0.5) ? `deep/p${i % 3}/f${i}.bin` : `f${i}.bin`; const data = blob(sim.int("w:len", 0, 3000), i);
      entries.push({ name, data, mode: sim.chance("w:x", 0.2) ? 0o755 : 0o644 }); expect.set(name, data); listed.push(name);
      if (evil && sim.chance("w:ev", 0.3)) entries.push({ name: sim.pick("w:evn", ["../other/keep.txt", "/other/keep.txt", "a/../../other/evil.txt"]), data: Buffer.from("EVIL") });
      if (evil && sim.chance("w:ln", 0.2)) entries.push({ name: `link${i}`, type: "2", link: "/other" }, { name: `link${i}/keep.txt`, data: Buffer.from("EVIL") });
    }
    tar = makeTar(entries);
    object = fn === "targz" ? zlib.gzipSync(tar) : zlib.deflateRawSync(tar);
  }
  let truncated = plan.truncated && p.on && (fn.startsWith("tar") || fn === "inflate");
  const cutTo = truncated ? sim.int("w:cut", 0, object.length - 1) : 0;
  const outPath = fn === "inflate" ? "/out/nested/x.tar" : "/out/file.bin", extractDir = "/out/tree", tmpZip = "/out/tmp.zip";
  let preexisting = null;
  if (plan.cpu && fn === "file") { preexisting = Buffer.from("OLD CONTENT"); disk.put(outPath, preexisting); }
  const net = { faultFor: netFaults(sim, p), handle: (info, fault) => {
    served++;
    if (fault?.kind === "status") return { status: fault.status, body: "x" };
    // a truncated stored object arrives with a matching length: only the decompressor can tell
    if (truncated && sim.chance("f:trunc", 0.7)) { sim.fault("object-truncated"); return { status: 200, body: object.subarray(0, cutTo) }; }
    return { status: 200, body: object };
  } };
  const proc = mkProc(sim, disk, "app", net, { fsFault: fsFaults(sim, p), fsLatency: plan.lat, extractDelay: plan.slowExtract ? () => sim.pick("f:xd", [0, 40e3, 200e3]) : undefined });
  const m = proc.load(scripts.dl);
  const F = m.file; const rd = plan.delay, R = plan.retries;
  let result, error, settled = false, bound;
  const header = (plan.first ?? 60e3) * 4 + 2000;
  const st = await sim.run(async () => {
    try {
      if (fn === "file") { const o = { maxDownloadContentRetries: R, downloadContentRetryDelay: rd, ...(plan.first ? { firstDataTimeoutInMs: plan.first } : {}), ...(plan.total ? { downloadCompleteTimeoutInMs: plan.total } : {}) }; bound = (R + 1) * (header + (plan.total ?? 120e3) + 5000); result = await F.downloadFile(url, outPath, o); }
      else if (fn === "zip") { const xt = plan.total; bound = 4 * (240e3 + 2000 + 120e3 + 5000) + (xt ?? 300e3) + 5000; result = await F.downloadAndExtractFile(url, tmpZip, "/out/x", ...(xt ? [xt] : [])); }
      else { const tt = plan.total ?? (fn === "inflate" ? 600e3 : 3600e3); bound = (R + 1) * (tt + rd + 14000) + 10000; const o = { maxRetries: R, retryDelay: rd, ...(plan.total ? { totalTimeoutInMs: plan.total } : {}), ...(plan.first ? { firstDataTimeoutInMs: plan.first } : {}), ...(fn === "inflate" ? {} : { extractConcurrency: plan.conc }) };
        result = fn === "inflate" ? await F.streamDownloadAndInflateTar(url, outPath, o) : fn === "targz" ? await F.streamDownloadAndExtractTarGz(url, extractDir, o) : await F.streamDownloadAndExtractTar(url, extractDir, o); }
    } catch (e) { error = e; }
    settled = true;
  }, { maxTime: 24 * 3600e3, maxEvents: 80000 });
  const t = sim.now;
  if (!settled) { sim.violate("D02/hang", `${fn} never settled (${st}; ${Math.round(sim.now / 1000)} simulated seconds)`); return { sample: { plan } }; }
  sim.check(t <= bound, "D02/too-long", `${fn} took ${Math.round(t / 1000)} s, more than its timeouts and retries allow (${Math.round(bound / 1000)} s)`);
  const hdrs = served; sim.check(hdrs <= (R + 1) * 4 || fn === "zip" && hdrs <= 16, "D02/too-many-attempts", `${hdrs} requests for one download`);
  const verify = (root, exp, what) => { const tree = disk.tree(root); for (const [n, d] of exp) { const g = tree.get(n); if (!g) return sim.violate("D02/wrong-bytes", `${what} succeeded but ${n} is missing`); if (!g.equals(d)) return sim.violate("D02/wrong-bytes", `${what} succeeded but ${n} has wrong content (${g.length} bytes, expected ${d.length})`); } };
  const containment = () => { const tree = disk.tree("/other"); sim.check(tree.size === 1 && tree.get("keep.txt")?.toString() === "keep", "D02/outside", `${fn} wrote outside its target directory: ${[...tree.keys()]}`); };
  if (error === undefined) {
    if (fn === "file") verify("/out", [["file.bin", object]], fn);
    if (fn === "zip") { verify("/out/x", expect, fn); sim.check(isDeepStrictEqual(result, listed), "D02/wrong-bytes", `zip entries ${result} expected ${listed}`); }
    if (fn === "inflate") { verify("/out/nested", [["x.tar", tar]], fn); sim.check(result.inflatedBytes === tar.length && (result.compressedBytes === object.length), "D02/wrong-stats", `stats ${JSON.stringify(result)} for ${object.length}/${tar.length} bytes`); }
    if (fn.startsWith("tar")) { verify(extractDir, expect, fn); const files = new Set(result); for (const n of expect.keys()) sim.check(files.has(n), "D02/wrong-bytes", `${n} was extracted but is not in the returned list`); }
    sim.probe("download-ok");
  } else { sim.probe("download-failed"); sim.log(`failed: ${error?.message}`); sim.check(error instanceof Error || error?.message !== undefined, "D02/bad-error", `rejected with ${String(error)}`); }
  containment();
  if (fn === "zip") sim.check(!disk.exists(tmpZip), "D02/leftover", "the temporary archive was left behind");
  if (error !== undefined && fn === "file" && disk.exists(outPath)) { const d = disk.read(outPath); sim.check(preexisting && d.equals(preexisting), "D02/leftover", `the failed download left ${d.length} bytes at its target path`); }
  if (error !== undefined && fn === "inflate") sim.check(!disk.exists(outPath), "D02/leftover", "the failed download left a partial tar file");
  if (error !== undefined && fn.startsWith("tar")) { const l = [...disk.tree(extractDir).keys()]; sim.check(l.length === 0, "D02/leftover", `the failed extraction left files behind: ${l.slice(0, 3)}`); }
  sim.check(sim.unhandled.length === 0, "D02/unhandled", () => `unhandled rejection ${sim.unhandled[0].reason?.message}`);
  sim.check(proc.uncaughtErrors.length === 0, "D02/uncaught", () => `uncaught ${proc.uncaughtErrors[0]?.message}`);
  // nothing may appear afterwards either
  if (!sim.stopped) {
    await sim.settle(600e3);
    if (error !== undefined && fn === "file" && disk.exists(outPath) && !(preexisting && disk.read(outPath).equals(preexisting))) sim.violate("D02/leftover", "a partial file appeared after the download had failed");
    if (error !== undefined && fn.startsWith("tar")) { const l = [...disk.tree(extractDir).keys()]; sim.check(l.length === 0, "D02/leftover", `files appeared after the extraction had failed: ${l.slice(0, 3)}`); }
    if (error === undefined) { if (fn === "file") verify("/out", [["file.bin", object]], fn + " (later)"); if (fn.startsWith("tar")) verify(extractDir, expect, fn + " (later)"); if (fn === "zip") verify("/out/x", expect, fn + " (later)"); }
    sim.check(sim.unhandled.length === 0, "D02/unhandled", () => `unhandled rejection ${sim.unhandled[0].reason?.message}`);
    sim.check(proc.uncaughtErrors.length === 0, "D02/uncaught", () => `uncaught ${proc.uncaughtErrors[0]?.message}`);
    containment();
  }
  return { sample: { plan, served, ok: error === undefined, seconds: Math.round(t / 1000) } };
};


// ------------------------------------------------------------------ D03
const bigDoc = (sim, k, v) => ({ id: k, version: v, list: Array.from({ length: sim.int("w:dl", 0, 12) }, (_, i) => ({ i, s: sim.pick("w:ds", ["x", "ü✓ 日本", "\u0000\"\\", "</script>", ""]), n: i / 3 })), nested: { deep: [null, true, [], {}], n: -0.5e10 }, ...(sim.chance("w:bool", 0.2) ? { wasNull: null } : {}) });
export const runDocs = async (sim, { scripts }) => {
  sim.tieChoice = true;
  const disk = new Disk(sim); disk.mkdir(DATA, { recursive: true });
  const KINDS = { session: (id) => `sessions/${id}`, data: (id) => `sessions/${id}/data`, replay: (id) => `replays/${id}` };
  const FILES = { session: (id) => `${DATA}/sessions/${id}.json`, data: (id) => `${DATA}/sessions/${id}_data.json`, replay: (id) => `${DATA}/replays/${id}/${id}.json` };
  const plan = { faults: sim.chance("cfg:faults", 0.7), net: sim.pick("cfg:net", [0.05, 0.2]), fs: sim.chance("cfg:fs", 0.3) ? 0.01 : 0, procs: sim.int("cfg:procs", 1, 4), calls: sim.int("cfg:calls", 1, 5), ids: sim.int("cfg:ids", 1, 2), crash: sim.chance("cfg:crash", 0.6), par: sim.chance("cfg:par", 0.4), gap: sim.pick("cfg:gap", [20, 500, 20e3]), cw: sim.pick("cfg:cw", [20, 100, 1000, 60e3]), missing: sim.chance("cfg:miss", 0.15), lat: sim.pick("cfg:lat", [[0, 4], [0, 40]]), evolve: sim.chance("cfg:evolve", 0.5) };
  const p = { on: plan.faults, net: plan.net, fs: plan.fs };
  const served = new Map(); const world = { store: new Map(), replays: new Map(), testRuns: new Map(), requests: [] };
  const ids = Array.from({ length: plan.ids }, (_, i) => `s${i}`);
  for (const id of ids) world.replays.set(id, { id, files: [], urls: { screenshots: {} } });
  const current = new Map(); let missingUntil = plan.missing ? sim.int("w:mu", 0, 30e3) : 0;
  world.doc = (k) => {
    if (sim.now < missingUntil) return null;
    if (!current.has(k) || (plan.evolve && sim.chance("w:ev", 0.3))) current.set(k, bigDoc(sim, k, (current.get(k)?.version ?? 0) + 1));
    const d = current.get(k); (served.get(k) ?? served.set(k, []).get(k)).push(JSON.parse(JSON.stringify(d))); return d;
  };
  const base = serve(world);
  const net = { faultFor: netFaults(sim, p), handle: (info, fault) => { const r = base(info, fault); if (world.doc && info.path.startsWith("/api/replays/") && r.status === 200 && r.body === null) return { status: 404, body: { message: "no" } }; return r; } };
  const firstOk = new Map(), unreadable = new Map();
  const writing = new Map(); // path -> Set(proc)
  const spawn = (name) => {
    const faults = fsFaults(sim, p);
    const proc = mkProc(sim, disk, name, net, { fsLatency: plan.lat, fsFault: (op, pa, info) => {
      if (pa.endsWith(".json")) {
        if (op === "write") { const s = writing.get(pa) ?? writing.set(pa, new Set()).get(pa); s.add(proc); const live = [...s].filter((x) => x.alive); if (live.length > 1) sim.violate("D03/two-writers", `${live.map((x) => x.name)} write ${pa} at the same time`); }
        if (op === "close") writing.get(pa)?.delete(proc);
      }
      const f = faults(op, pa, info);
      if (f && pa.endsWith(".json")) for (const id of ids) for (const kind of Object.keys(KINDS)) if (FILES[kind](id) === pa) { firstOk.delete(KINDS[kind](id)); unreadable.set(pa, (unreadable.get(pa) ?? 0) + 1); }
      return f;
    } });
    proc.opts.onDoubleLock = (lp, prev) => { sim.log(`lock ${lp} taken by ${proc.name} although held by ${prev.proc.name}`); sim.probe("double-lock"); };
    proc.docs = new Map(); // cached files as they are when this process lets go of their lock
    proc.opts.onUnlock = (lp) => { const f = lp.replace(/\.lock$/, ""); if (disk.exists(f)) proc.docs.set(f, Buffer.from(disk.read(f))); };
    proc.sut = proc.load(scripts.dl); proc.client = proc.sut.client.createClient({ apiToken: "tok" });
    return proc;
  };
  let gen = 0, ok = 0, failed = 0, hits = 0, exits = 0, crashes = 0;
  const call = async (proc, kind, id, label) => {
    const disturbed = unreadable.get(FILES[kind](id)); const k = KINDS[kind](id); const t0 = sim.now; const before = world.requests.length; const known = firstOk.get(k);
    const mine = () => world.requests.slice(before).filter((r) => r.path === `/api/${k}` && r.t >= t0);
    try {
      const F = proc.sut.dl; const r = await (kind === "session" ? F.getOrFetchRecordedSession : kind === "data" ? F.getOrFetchRecordedSessionData : F.getOrFetchReplay)(proc.client, id);
      let doc = r.data; if (kind === "replay") { try { doc = JSON.parse(proc.docs.get(FILES.replay(id)).toString()); } catch (e) { doc = `unreadable: ${e.message}`; } }
      const v = served.get(k) ?? [];
      if (!v.some((d) => isDeepStrictEqual(d, JSON.parse(JSON.stringify(doc))))) sim.violate("D03/torn", `${label}: ${k} returned ${JSON.stringify(doc)?.slice(0, 120)}…, which the backend never served`);
      if (known !== undefined && unreadable.get(FILES[kind](id)) === disturbed && mine().length) sim.violate("D03/refetched", `${label}: ${k} was fetched again although a complete copy had been cached since t=${known}`);
      if (known !== undefined) hits++;
      ok++; if (!firstOk.has(k) && unreadable.get(FILES[kind](id)) === disturbed) firstOk.set(k, sim.now);
      if (kind === "replay" ? r.fileName !== undefined && r.fileName !== FILES.replay(id) : r.fileName !== FILES[kind](id)) sim.violate("D03/file", `${label}: file name ${r.fileName}`);
      return { ok: true };
    } catch (e) {
      if (e?.name === "ProcExit" || !proc.alive) { exits++; return { ok: false, exit: true, e }; }
      failed++; sim.log(`${proc.name} ${label} ${k} failed: ${e?.message}`); return { ok: false, e };
    } finally { writing.get(FILES[kind](id))?.delete(proc); }
  };
  const actor = async (i) => {
    let proc = spawn(`p${i}.${gen++}`);
    for (let c = 0; c < plan.calls && !sim.stopped; c++) {
      await sim.sleep(sim.latency("wl:gap", 0, plan.gap));
      const n = plan.par ? sim.int("wl:n", 1, 3) : 1;
      const gone = new Promise((res) => { (proc.onCrash ??= []).push(() => sim.at(0, () => res("dead"), { name: "reap" })); });
      const jobs = Array.from({ length: n }, (_, j) => call(proc, sim.pick("op:k", ["session", "data", "replay"]), sim.pick("op:id", ids), `call${c}.${j}`));
      let ev = null;
      if (plan.crash && sim.chance("f:crash", 0.5)) ev = sim.at(sim.latency("f:crasht", 0, plan.cw), () => { if (!proc.alive) return; sim.fault("process-crash"); crashes++; proc.crash("crash"); }, { name: "crash", daemon: true });
      const r = await Promise.race([Promise.all(jobs), gone]); sim.cancel(ev);
      if (r === "dead" || !proc.alive) { const other = await Promise.race([Promise.all(jobs), sim.sleep(0)]); void other; await sim.sleep(sim.latency("wl:restart", 10, 20e3)); proc = spawn(`p${i}.${gen++}`); }
    }
  };
  const st = await sim.run(async () => {
    await Promise.all(Array.from({ length: plan.procs }, (_, i) => actor(i)));
    p.on = false; missingUntil = 0;
    const proc = spawn("final");
    for (const id of ids) for (const kind of Object.keys(KINDS)) {
      const r = await Promise.race([call(proc, kind, id, "final"), new Promise((res) => (proc.onCrash ??= []).push(() => sim.at(0, () => res({ ok: false, e: { message: "exited" } }), { name: "reap" })))]);
      if (!r.ok && !sim.stopped) sim.violate("D03/unrecoverable", `${KINDS[kind](id)} cannot be fetched although network and disk recovered and no call is in progress: ${r.e?.message}`);
    }
  }, { maxTime: 4 * 3600e3, maxEvents: 60000 });
  if (!sim.stopped && st !== "done") sim.violate("D03/hang", `never settled (${st})`);
  sim.probe("doc-ok", ok); sim.probe("doc-failed", failed); sim.probe("cache-hits", hits); sim.probe("not-found-exits", exits); sim.probe("crashes", crashes);
  return { sample: { plan, ok, failed, hits, exits, crashes } };
};

// ------------------------------------------------------------------ D04
export const runAssets = async (sim, { scripts }) => {
  sim.tieChoice = true;
  const disk = new Disk(sim); disk.mkdir(DATA, { recursive: true });
  const plan = { faults: sim.chance("cfg:faults", 0.7), net: sim.pick("cfg:net", [0.05, 0.2]), fs: sim.chance("cfg:fs", 0.3) ? 0.01 : 0, procs: sim.int("cfg:procs", 1, 3), calls: sim.int("cfg:calls", 1, 5), assets: sim.int("cfg:assets", 1, 2), crash: sim.chance("cfg:crash", 0.6), gap: sim.pick("cfg:gap", [50, 1000, 30e3]), cw: sim.pick("cfg:cw", [50, 300, 2000, 100e3]), custom: sim.chance("cfg:custom", 0.3), etags: sim.pick("cfg:etags", ["strong", "strong", "none", "late"]), change: sim.pick("cfg:change", [0, 1, 4, 8]), changeGap: sim.pick("cfg:cgap", [60, 500, 20e3]), rollback: sim.chance("cfg:rb", 0.5), unlinker: sim.chance("cfg:unlink", 0.2), lat: sim.pick("cfg:lat", [[0, 4], [0, 30]]) };
  const p = { on: plan.faults, net: plan.net, fs: plan.fs };
  const names = ["replay/v2/bundle.js", "record/v1/rec.js"].slice(0, plan.assets);
  const fileOf = (n) => path.basename(n).replace(/\.js$/, ".cjs");
  const hist = new Map(names.map((n) => [n, [{ t: -1, v: 0 }]])); // version history
  const cur = (n) => hist.get(n).at(-1).v;
  const content = (n, v) => Buffer.from(`/* ${n} v${v} */` + "x".repeat((v * 137) % 900));
  const etag = (n, v) => `"${path.basename(n)}-${v}"`;
  let tagOn = plan.etags !== "none" && plan.etags !== "late";
  const handle = (info, fault) => {
    if (fault?.kind === "status") return { status: fault.status, body: "x" };
    const n = names.find((x) => info.path === "/" + x); if (!n) return { status: 404, body: "no" };
    return { status: 200, body: info.method === "HEAD" ? "" : content(n, cur(n)), headers: tagOn ? { etag: etag(n, cur(n)) } : {} };
  };
  const net = { faultFor: netFaults(sim, p), handle };
  const snippetsHost = plan.custom ? "https://preview.sim/" : undefined;
  let dir = null;
  const spawn = (name) => {
    const proc = mkProc(sim, disk, name, net, { fsLatency: plan.lat, fsFault: fsFaults(sim, p), env: snippetsHost ? { METICULOUS_SNIPPETS_BASE_URL: snippetsHost } : {} });
    proc.snap = new Map();
    proc.opts.onUnlock = (lp) => { dir = path.dirname(lp); proc.snap = disk.tree(dir); if (sim.alive !== false) tagCheck(proc.snap); };
    proc.sut = proc.load(scripts.dl).assets; return proc;
  };
  const parse = (b) => { try { return JSON.parse(b.toString()); } catch { return null; } };
  const tagCheck = (tree) => {
    const m = parse(tree.get("assets.json") ?? Buffer.alloc(0)); if (!m) return;
    for (const e of m.assets) {
      if (!e.etag) continue; const n = names.find((x) => fileOf(x) === e.fileName); const f = tree.get(e.fileName); if (!n || !f) continue;
      const v = Number(/-(\d+)"$/.exec(e.etag)?.[1]);
      if (!f.equals(content(n, v))) sim.violate("D04/tag", `the remembered tag ${e.etag} of ${e.fileName} does not belong to its content (${f.length} bytes, "${f.toString().slice(0, 40)}")`);
    }
  };
  let ok = 0, failed = 0, crashes = 0, gen = 0; const removed = new Map();
  const during = (n, a, b) => { const h = hist.get(n); const out = new Set(); for (let i = 0; i < h.length; i++) { const end = h[i + 1]?.t ?? Infinity; if (h[i].t <= b && end >= a) out.add(h[i].v); } return out; };
  const call = async (proc, n, label) => {
    const t0 = sim.now;
    try {
      const f = await proc.sut.fetchAsset(n); ok++;
      if (path.basename(f) !== fileOf(n)) sim.violate("D04/file", `fetchAsset(${n}) returned ${f}`);
      const got = proc.snap.get(path.basename(f)); const vs = during(n, t0, sim.now);
      if (!got) { if (!(removed.get(n) >= t0)) sim.violate("D04/missing", `${label}: ${f} reported up to date but is missing`); }
      else if (![...vs].some((v) => got.equals(content(n, v)))) sim.violate("D04/stale-or-torn", `${label}: ${n} was brought up to date but holds "${got.toString().slice(0, 40)}" (${got.length} bytes); served during the call: v${[...vs]}`);
      return true;
    } catch (e) { if (proc.alive) failed++; sim.log(`${proc.name} ${label} failed ${e?.message}`); return false; }
  };
  const check = async (proc, label) => {
    const t0 = sim.now;
    try {
      const r = await proc.sut.checkIfAssetsOutdated(names);
      for (const n of names) {
        if (typeof r[n] !== "boolean") sim.violate("D04/outdated", `no answer for ${n}`);
        // judged only when nobody was writing: single process plans
        if (r[n] === false && plan.procs === 1 && !plan.unlinker && dir) { const f = disk.tree(dir).get(fileOf(n)); const vs = during(n, t0, sim.now); if (!f || ![...vs].some((v) => f.equals(content(n, v)))) sim.violate("D04/outdated", `${label}: ${n} reported as current but holds "${f?.toString().slice(0, 40)}"`); }
      }
      return r;
    } catch (e) { sim.log(`${proc.name} check failed ${e?.message}`); return null; }
  };
  const actor = async (i) => {
    let proc = spawn(`p${i}.${gen++}`);
    for (let c = 0; c < plan.calls && !sim.stopped; c++) {
      await sim.sleep(sim.latency("wl:gap", 0, plan.gap));
      const gone = new Promise((res) => { (proc.onCrash ??= []).push(() => sim.at(0, () => res("dead"), { name: "reap" })); });
      let ev = null;
      if (plan.crash && sim.chance("f:crash", 0.5)) ev = sim.at(sim.latency("f:crasht", 0, plan.cw), () => { if (!proc.alive) return; sim.fault("process-crash"); crashes++; proc.crash("crash"); }, { name: "crash", daemon: true });
      const job = sim.chance("op:check", 0.2) ? check(proc, `check${c}`) : call(proc, sim.pick("op:n", names), `call${c}`);
      const r = await Promise.race([job, gone]); sim.cancel(ev);
      if (r === "dead" || !proc.alive) { await sim.sleep(sim.latency("wl:restart", 10, 20e3)); proc = spawn(`p${i}.${gen++}`); }
    }
  };
  const deployer = async () => {
    for (let k = 0; k < plan.change && !sim.stopped; k++) {
      await sim.sleep(sim.latency("dep:gap", 0, plan.changeGap));
      if (plan.etags === "late") tagOn = true;
      const n = sim.pick("dep:n", names); const h = hist.get(n); const v = plan.rollback && h.length > 1 && sim.chance("dep:rb", 0.5) ? h.at(-2).v : Math.max(...h.map((x) => x.v)) + 1;
      h.push({ t: sim.now, v }); sim.log(`deploy ${n} v${v}`);
      if (plan.unlinker && dir && sim.chance("dep:rm", 0.3)) { const f = `${dir}/${fileOf(n)}`; if (disk.exists(f)) { disk.unlink(f); removed.set(n, sim.now); sim.fault("asset-deleted"); } }
    }
  };
  const st = await sim.run(async () => {
    await Promise.all([deployer(), ...Array.from({ length: plan.procs }, (_, i) => actor(i))]);
    p.on = false; await sim.sleep(sim.pick("wl:quiet", [0, 1000, 300e3]));
    const proc = spawn("final");
    for (const n of names) {
      let r = await call(proc, n, "final"); for (let k = 0; !r && k < 2 && !sim.stopped; k++) { await sim.sleep(130e3); r = await call(proc, n, "final"); }
      if (!r && !sim.stopped) sim.violate("D04/unrecoverable", `${n} cannot be fetched although network and disk recovered`);
    }
    if (tagOn && !sim.stopped) { const r = await check(proc, "final check"); for (const n of names) if (r && r[n] !== false && plan.etags === "strong" && !plan.unlinker) sim.violate("D04/outdated", `${n} reported as outdated right after it was brought up to date`); }
  }, { maxTime: 6 * 3600e3, maxEvents: 60000 });
  if (!sim.stopped && st !== "done") sim.violate("D04/hang", `never settled (${st})`);
  sim.probe("asset-ok", ok); sim.probe("asset-failed", failed); sim.probe("crashes", crashes);
  return { sample: { plan, ok, failed, crashes } };
};
