// Harness for `meticulous project upload-source`: the real command, the real
// tar package, a simulated disk, an API and a store for signed uploads.
import zlib from "node:zlib";
import { bundle } from "../../sim/bundle.mjs";
import { Disk } from "../../sim/fs.mjs";
import { realPackages } from "../../sim/npm.mjs";
import { mkProc } from "./downloads.mjs";
import { storageFault } from "./client.mjs";
import { makeTree, parseTar } from "./launcher.mjs";

export const SOURCE_META = {
  real: ["packages/cli/src/commands/project/upload-source.command.ts", "packages/cli/src/command-utils/sentry.utils.ts", "packages/client/src (putFileToSignedUrl, retryTransientUploadErrors, API client)", "packages/common/src", "npm tar"],
  stubs: ["API service and storage: models", "fs, http, fetch: simulated", "loglevel, @sentry/node, yargs: trivial"],
  assumptions: ["the user does not kill the command (a killed process leaves its temporary directory to the operating system)", "removing files does not fail"],
};
let built;
export const buildSourceBundle = async () => (built ??= { cli: (await bundle({ up: "packages/cli/src/commands/project/upload-source.command.ts" }, { real: realPackages() })).code });

const json = (status, body) => ({ status, headers: { "content-type": "application/json" }, body: JSON.stringify(body) });
const UP_CODES = ["ECONNRESET", "ETIMEDOUT", "ECONNABORTED", "EAI_AGAIN", "EPIPE"];
const norm = (p) => p.replace(/^\.\/?/, "").replace(/\/$/, "");

export const runUploadSource = async (sim, { scripts }) => {
  const K = sim.prop; const disk = new Disk(sim); disk.mkdir("/tmp", { recursive: true }); disk.mkdir("/work", { recursive: true });
  const world = { full: false }; const store = new Map(); const urls = new Map(); let open = 0;
  disk.put("/tmp/meticulous-source-old/source.tar.gz", "left by somebody else"); disk.put("/tmp/keep", "x");
  const n = sim.pick("w:procs", [1, 1, 1, 2]); const cmds = [];
  for (let i = 0; i < n; i++) {
    const c = { i, sha: `c0ffee${i}`, dir: `/work/src${i}`, disturbed: 0, apiDisturbed: 0, puts: [], reqs: [], removed: new Set(), racing: false }; cmds.push(c);
    c.kind = sim.pick("w:dirKind", ["tree", "tree", "tree", "tree", "tree", "tree", "tree", "missing"]);
    c.files = new Map(); c.links = new Map();
    if (c.kind === "tree") {
      c.files = makeTree(sim, disk, c.dir);
      if (sim.chance("w:links", 0.3)) { c.links.set("link", sim.pick("w:lt", ["f0", "../outside", "/etc/passwd"])); disk.get(c.dir).children.set("link", { type: "symlink", target: c.links.get("link"), mode: 0o777, ino: disk.ino++, mtimeMs: 0, birthtimeMs: 0 }); }
      for (const dot of [".gitignore", "node_modules/x/index.js", "-dash", "@at"]) if (sim.chance("w:dot", 0.2)) { const d = Buffer.from(dot === ".gitignore" ? "*\n" : "y"); c.files.set(dot, d); disk.put(`${c.dir}/${dot}`, d); }
      c.empty = sim.chance("w:emptyDir", 0.3); if (c.empty) disk.mkdir(`${c.dir}/empty`);
    }
    const pf = c.pf = sim.pick("w:pf", [0, 0, 0.2, 0.5, 0.85]); const pFs = sim.chance("w:fsf", 0.25) ? sim.pick("w:pfs", [0.01, 0.05, 0.2]) : 0;
    c.enabled = !sim.chance("w:403", 0.08);
    const plan = storageFault(sim, pf);
    const proc = c.proc = mkProc(sim, disk, `cli${i}`, {
      apiFault: () => { if (!sim.chance("f:api", pf / 2)) return null; c.apiDisturbed++; const k = sim.pick("f:apik", ["status", "status", "refuse", "lost", "stall", "cut", "slow"]); return k === "status" ? { kind: k, status: sim.pick("f:apis", [500, 502, 503, 429, 400]) } : k === "slow" ? { kind: k, delay: 20e3 } : { kind: k, after: 0 }; },
      handle: (info, f) => {
        if (f?.kind === "status") return json(f.status, { message: "try later" });
        const path = info.path.replace(/^\/api\//, "");
        if (path !== "projects/source-code-upload-url" || info.method !== "POST") return json(404, { message: "no such thing" });
        const b = JSON.parse(info.body || "{}"); c.reqs.push(b); if (!c.enabled) return json(403, { error: "Forbidden", message: "source code uploads are not enabled" });
        const key = `/source/${b.commitSha}/${c.reqs.length}`; urls.set(key, b);
        return json(200, { uploadUrl: `https://s3.sim${key}?sig=ok`, objectKey: key });
      },
    }, { cwd: "/work", tmpdir: "/tmp", env: { METICULOUS_DIR: `/data${i}`, METICULOUS_IS_CLOUD_REPLAY: "true", CI: "true" }, argv: ["node", "meticulous"], fsLatency: [0, sim.pick("w:fsl", [1, 4, 20])],
      fsFault: (op, p) => { if (!pFs || ["close", "unlink", "rmdir", "rm"].includes(op) || !/^\/(work|tmp)\//.test(p) || !sim.chance("f:fs", pFs)) return null;
        if (["lstat", "readdir"].includes(op) && /^\/tmp\//.test(p)) return null; // clean-up
        c.disturbed++; c.badFs = true; return sim.pick("f:fsk", ["EIO", "ENOSPC", "EMFILE", "EACCES"]); } });
    if (sim.chance("w:full", 0.08)) { disk.capacity = disk.used + sim.int("w:room", 0, 30000); world.full = true; }
    proc.opts.httpNet = { name: "s3", latency: [1, 60], chunks: 3, onOpen: (info) => { open++; c.puts.push(info); info.live = true; }, onClose: (info) => { open--; if (info) info.live = false; }, faultFor: (info) => (info.fault = plan(info)),
      handle: (info) => { info.reached = true; if (info.query.get("sig") !== "ok" || !urls.has(info.path) || info.method !== "PUT") return { status: 403, body: "denied" }; info.accepted = true; store.set(info.path, { data: info.body, type: info.headers.get("content-type"), len: Number(info.headers.get("content-length")) }); return { status: 200, body: sim.chance("w:rb", 0.5) ? "" : "<ok/>" }; } };
    proc.onUncaught = () => {};
    (proc.onCrash ??= []).push(() => { c.endedAt ??= sim.now; c.tmpAtEnd = disk.list("/tmp"); });
    const m = proc.load(scripts.cli);
    proc.at(i ? sim.int("w:start", 0, 2000) : 0, () => { c.before = disk.list("/tmp"); m.up.uploadSourceCommand.handler({ apiToken: "t", commitSha: c.sha, sourceDir: c.dir }).catch(() => {}); }, "start");
    // the directory changes while it is being packed
    if (c.kind === "tree" && c.files.size && sim.chance("w:race", 0.12)) { c.racing = true; const f = sim.pick("w:rf", [...c.files.keys()]); sim.at(sim.int("w:rt", 0, 60), () => { const p = `${c.dir}/${f}`; if (!disk.exists(p)) return; sim.fault("source-changes"); if (sim.chance("w:rd", 0.5)) disk.unlink(p); else { const nn = disk.get(p); nn.data = nn.data.subarray(0, nn.data.length >> 1); } }, { name: "user edits" }); }
  }
  const st = await sim.run(async () => { while (cmds.some((c) => c.proc.alive) && sim.now < 3600e3) await sim.sleep(2000); }, { maxTime: 3700e3, maxEvents: 400000 });
  if (sim.stopped) return { sample: {} };
  sim.check(st === "done" && !cmds.some((c) => c.proc.alive), `${K}.hang`, () => `the command never ended (${st}); uploads: ${cmds.flatMap((c) => c.puts).map((q) => q.fault?.kind ?? "clean")}`);
  for (const c of cmds) {
    if (sim.stopped) break; const proc = c.proc; const what = `upload-source of ${c.kind}${c.i}`; const said = proc.consoleLines; const failed = said.filter((l) => l.startsWith("error ") && !/simulated process.exit/.test(l));
    const mine = [...store].filter(([k]) => urls.get(k).commitSha === c.sha); const putFaults = c.puts.map((q) => q.fault?.kind ?? "clean").join(",");
    const ok = proc.exitCode === 0; sim.check(ok || proc.exitCode === 1, `${K}.exit`, () => `${what} ended with ${proc.exitCode ?? proc.signalCode}`);
    // temporary files
    if (n === 1) sim.check(c.tmpAtEnd?.join() === c.before.join(), `${K}.temp-left`, () => `${what} left ${c.tmpAtEnd?.filter((t) => !c.before.includes(t))} in the temporary directory (exit ${proc.exitCode})`);
    sim.check(disk.list("/tmp").join() === "keep,meticulous-source-old", `${K}.temp-left`, () => `left in the temporary directory: ${disk.list("/tmp")} (exit ${proc.exitCode})`);
    sim.check(disk.exists("/tmp/keep") && disk.text("/tmp/meticulous-source-old/source.tar.gz") === "left by somebody else", `${K}.temp-foreign`, () => `${what} removed somebody else's temporary files`);
    // the source stays as it was
    if (!c.racing) { const t = disk.tree(c.dir); for (const [f, d] of c.files) sim.check(t.get(f)?.equals(d), `${K}.source`, () => `${what} changed ${f}`); }
    // attempts
    sim.check(c.puts.length <= 5, `${K}.too-many`, () => `${c.puts.length} uploads (${putFaults})`);
    c.puts.forEach((q, k) => { if (k === c.puts.length - 1) return; const f = q.fault; const transient = f && (f.kind === "reset" || f.kind === "lost" || f.kind === "cut" || f.kind === "early" || (f.kind === "refuse" && UP_CODES.includes(f.code)) || (f.kind === "status" && (f.status === 429 || f.status >= 500)));
      sim.check(transient || c.badFs, `${K}.retried-permanent`, () => `${what}: uploaded again after ${f ? `${f.kind} ${f.status ?? f.code ?? ""}` : "an undisturbed attempt"}`); });
    for (const r of c.reqs) sim.check(r.commitSha === c.sha, `${K}.commit`, () => `${what}: asked for an upload for ${r.commitSha}`);
    if (ok) {
      sim.check(mine.length > 0, `${K}.false-success`, () => `${what} succeeded; storage holds nothing for ${c.sha} (uploads: ${putFaults})`);
      if (sim.stopped) break; const [key, o] = mine.at(-1);
      sim.check(o.type === "application/gzip", `${K}.type`, () => `stored with content type ${o.type}`);
      sim.check(urls.get(key).size === o.data.length, `${K}.size`, () => `announced ${urls.get(key).size} bytes, stored ${o.data.length}`);
      let tar; try { tar = parseTar(zlib.gunzipSync(o.data)); } catch (e) { sim.violate(`${K}.archive`, `${what}: stored object is not a complete archive: ${e.message}`); break; }
      const got = new Map([...tar].map(([k, v]) => [norm(k), v]));
      for (const [f, d] of c.files) { const g = got.get(f); if (c.racing) continue; sim.check(g && g.type === "file" && g.data.equals(d), `${K}.archive`, () => `${what}: ${f} ${g ? "differs" : "is missing"} in the archive`); }
      for (const [f, t] of c.links) { const g = got.get(f); sim.check(g?.type === "type 2" && g.link === t, `${K}.archive`, () => `${what}: link ${f} ${g ? `became ${g.type} ${g.link}` : "is missing"}`); }
      for (const f of got.keys()) { if (!f) continue; const g = got.get(f); if (g.type === "dir") continue; sim.check(c.files.has(f) || c.links.has(f), `${K}.archive`, () => `${what}: unexpected ${f} in the archive`); }
      if (c.empty) sim.check(got.get("empty")?.type === "dir", `${K}.archive`, () => `${what}: the empty directory is missing`);
      sim.check(c.kind === "tree", `${K}.false-success`, () => `${what} succeeded though the source is ${c.kind}`);
      sim.check(failed.length === 0, `${K}.report`, () => `${what} succeeded and said ${failed[0]}`);
      sim.probe("uploaded"); if (c.puts.length > 1) sim.probe("uploadedAfterRetry"); if (c.links.size) sim.probe("link"); if (c.racing) sim.probe("racing");
    } else {
      sim.check(failed.length > 0, `${K}.report`, () => `${what} failed without saying why`);
      sim.check(!said.some((l) => /Successfully uploaded/.test(l)), `${K}.report`, () => `${what} failed after announcing success`);
      const last = c.puts.at(-1); const lf = last?.fault;
      const cause = c.badFs || world.full || c.racing || c.apiDisturbed || c.kind !== "tree" || !c.enabled || lf;
      sim.check(cause, `${K}.false-failure`, () => `${what} failed without cause: ${failed[0]}`);
      if (last && c.kind === "tree" && !c.badFs && !world.full && !c.racing && c.puts.length < 5) {
        const surely = lf && ((lf.kind === "status" && (lf.status === 429 || lf.status >= 500)) || (lf.kind === "refuse" && UP_CODES.includes(lf.code)) || lf.kind === "reset" || lf.kind === "cut");
        sim.check(!surely, `${K}.gave-up`, () => `${what} gave up after ${c.puts.length} attempt(s) (${putFaults}, ${lf.status ?? lf.code ?? ""}): ${failed[0]}`);
      }
      sim.probe("failed"); if (c.kind !== "tree") sim.probe(c.kind); if (!c.enabled) sim.probe("notEnabled"); if (c.badFs) sim.probe("diskFault"); if (world.full) sim.probe("diskFull");
    }
  }
  if (!sim.stopped) sim.check(cmds.every((c) => c.proc.uncaughtErrors.filter((e) => e?.name !== "ProcExit" && !/exited|ProcExit/.test(String(e))).length === 0), `${K}.unhandled`, () => `unhandled error: ${cmds.flatMap((c) => c.proc.uncaughtErrors)[0]?.message}`);
  return { sample: { commands: n, uploads: cmds.flatMap((c) => c.puts).length } };
};
