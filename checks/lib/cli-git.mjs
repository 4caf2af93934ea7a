// Harness for the commands that describe the user's working tree to the
// service: which commit a build is of, what it is compared to, which lines were
// edited. The real commands run against a model of git that can fail, and a
// user who keeps working meanwhile.
import { bundle } from "../../sim/bundle.mjs";
import { Disk } from "../../sim/fs.mjs";
import { realPackages } from "../../sim/npm.mjs";
import { mkProc } from "./downloads.mjs";
import { Git, editScript, gitChildProcess, treeDiff } from "./git-model.mjs";

const CMD = "packages/cli/src/commands/";
export const GIT_META = {
  real: ["packages/cli/src/commands/agent/{build-git-options,upload-build.command,trigger-test-run.command,test-run-for-commit.command}.ts", "packages/cli/src/commands/ci/{resolve-git-options,run-with-uploaded-asset-chunks.command}.ts", "packages/cli/src/commands/local/{relevant-sessions.command,get-edited-files.utils}.ts", "packages/common/src/commit-sha.utils.ts", "packages/cli/src/utils/resolve-test-run-from-commit.ts", "packages/remote-replay-launcher/src (registering and triggering)", "packages/client/src"],
  stubs: ["git: a model of commits, index, working tree, remote and configuration behind child_process (diff text compared with git 2.43 beforehand)", "API service and storage for signed uploads: models", "parse-diff: re-implemented", "fs: simulated disk", "loglevel, @sentry/node, yargs: trivial"],
  assumptions: ["no renames, binary files, submodules or merge conflicts", "file names need no quoting"],
};
let built;
export const buildGitBundle = async () => (built ??= { cli: (await bundle({ build: CMD + "agent/upload-build.command.ts", trigger: CMD + "agent/trigger-test-run.command.ts", forCommit: CMD + "agent/test-run-for-commit.command.ts", chunks: CMD + "ci/run-with-uploaded-asset-chunks.command.ts", relevant: CMD + "local/relevant-sessions.command.ts" }, { real: realPackages() })).code });

/** parse-diff as published: names from the headers, old and new line numbers */
export const parseDiff = (input) => {
  const files = []; let file = null, chunk = null, del = 0, add = 0, oldLeft = 0, newLeft = 0; if (typeof input !== "string" || !input.trim()) return files;
  const name = (l) => l.replace(/^[-+]+/, "").trim().replace(/^\\?['"]|\\?['"]$/g, "").replace(/^(a|b|i|w|c|o|1|2)\//, "");
  for (const line of input.split("\n")) {
    if (/^\\ No newline/.test(line)) { const last = chunk?.changes.at(-1); if (last) chunk.changes.push({ type: last.type, [last.type]: true, ln1: last.ln1, ln2: last.ln2, ln: last.ln, content: line }); continue; }
    if (oldLeft > 0 || newLeft > 0) { if (line[0] === "-") { chunk.changes.push({ type: "del", del: true, ln: del++, content: line }); file.deletions++; oldLeft--; } else if (line[0] === "+") { chunk.changes.push({ type: "add", add: true, ln: add++, content: line }); file.additions++; newLeft--; } else if (/^\s/.test(line)) { chunk.changes.push({ type: "normal", normal: true, ln1: del++, ln2: add++, content: line }); oldLeft--; newLeft--; } continue; }
    let m;
    if (/^diff\s/.test(line)) { const n = line.match(/(a|i|w|c|o|1|2)\/.*(?=["']? ["']?(b|i|w|c|o|1|2)\/)|(b|i|w|c|o|1|2)\/.*$/g)?.map((f) => f.replace(/^(a|b|i|w|c|o|1|2)\//, "")) ?? []; file = { chunks: [], deletions: 0, additions: 0, from: n[0], to: n[1] }; files.push(file); chunk = null; continue; }
    if (/^new file mode/.test(line)) { file.new = true; file.from = "/dev/null"; } else if (/^deleted file mode/.test(line)) { file.deleted = true; file.to = "/dev/null"; } else if (/^---\s/.test(line)) { file ??= (files.push({ chunks: [], deletions: 0, additions: 0 }), files.at(-1)); file.from = name(line); } else if (/^\+\+\+\s/.test(line)) { if (file) file.to = name(line); } else if (file && (m = /^@@\s+-(\d+),?(\d+)?\s+\+(\d+),?(\d+)?\s@@/.exec(line))) { chunk = { content: line, changes: [], oldStart: +m[1], oldLines: +(m[2] || 1), newStart: +m[3], newLines: +(m[4] || 1) }; file.chunks.push(chunk); del = +m[1]; add = +m[3]; oldLeft = chunk.oldLines; newLeft = chunk.newLines; }
  }
  return files;
};

const json = (r) => ({ ...r, headers: { "content-type": "application/json", ...(r.headers ?? {}) }, body: JSON.stringify(r.body ?? null) });
const STATUS = ["status"], OTHERS = ["ls-files"]; const BASE = ["symbolic-ref", "remote", "merge-base"];
const GITERR = ["fatal: unable to read tree\n", "error: bad signature 0x00000000\nfatal: index file corrupt\n", "fatal: Unable to create '/work/repo/.git/index.lock': File exists.\n", "fatal: detected dubious ownership in repository at '/work/repo'\n"];

/** a repository with a remote, a branch, and whatever the user left lying around */
export const makeRepo = (sim) => {
  const g = new Git(sim); let k = 0; const word = () => `v${k++}${sim.int("g:w", 0, 9)}`;
  const file = (n) => Array.from({ length: n }, (_, i) => (sim.chance("g:blank", 0.12) ? "" : `line ${i} ${word()}`)).join("\n") + (n && !sim.chance("g:noeol", 0.15) ? "\n" : "");
  const names = ["README.md", "packages/app/src/main.ts", "packages/app/src/deep/view.tsx", "packages/lib/index.ts", "b/tool.js", "package.json"]; const tree = new Map();
  for (const n of names) if (sim.chance("g:has", 0.85)) tree.set(n, file(sim.int("g:len", 1, 22)));
  if (sim.chance("g:gen", 0.04)) { tree.set("gen/", "g1"); g.big = true; }
  const edit = (t, p = 0.35) => { let n = 0; for (const f of [...t.keys()]) { if (f === "gen/") { if (g.big && sim.chance("g:genE", 0.5)) { t.set(f, `g${++k}`); n++; } continue; } if (!sim.chance("g:e", p)) continue; n++; if (sim.chance("g:rm", 0.1)) { t.delete(f); continue; } const old = t.get(f); const eol = old.endsWith("\n"); const L = (eol ? old.slice(0, -1) : old).split("\n"); for (let m = sim.pick("g:hunks", [1, 1, 2, 3]); m > 0; m--) { const at = sim.int("g:at", 0, L.length); const w = sim.pick("g:ek", ["ins", "ins", "del", "chg", "big"]); if (w === "ins") L.splice(at, 0, ...Array.from({ length: sim.int("g:in", 1, 3) }, () => (sim.chance("g:blank", 0.15) ? "" : `new ${word()}`))); else if (w === "del") L.splice(at, sim.int("g:dn", 1, 3)); else if (w === "chg") L.splice(at, 1, `changed ${word()}`); else if (sim.chance("g:huge", 0.03)) { L.splice(at, 1, `bundle ${word()} ${"x".repeat(1200000)}`); g.big = true; } else L.splice(at, 2, `changed ${word()}`, `more ${word()}`); } const out = L.join("\n") + (L.length && (eol !== sim.chance("g:eol", 0.1)) ? "\n" : ""); if (out === old) n--; t.set(f, out); } if (sim.chance("g:add", 0.25)) { t.set(`packages/app/src/added${k++}.ts`, sim.chance("g:empty", 0.1) ? "" : file(sim.int("g:len", 1, 6))); n++; } return n; };
  g.edit = edit;
  const main = sim.pick("g:main", ["main", "main", "main", "master", "develop"]); g.mainName = main; g.server.head = sim.chance("g:nohead", 0.04) ? null : main;
  const c0 = g.commit(tree, []); edit(tree); const c1 = g.commit(tree, [c0]); let tip = c1;
  const onBranch = sim.pick("g:on", ["feature", "feature", "feature", "feature", "main", "detached"]); let feat = c1; const ft = new Map(tree);
  for (let i = sim.int("g:ahead", 0, 2); i > 0; i--) { edit(ft); feat = g.commit(ft, [feat]); }
  const mt = new Map(tree); for (let i = sim.pick("g:behind", [0, 0, 1, 2]); i > 0; i--) { edit(mt); tip = g.commit(mt, [tip]); }
  const known = sim.chance("g:stale", 0.4) ? c1 : tip; g.remote.set(`origin/${main}`, known); g.server.branches.set(main, tip);
  if (sim.chance("g:second", 0.3)) { const other = sim.pick("g:sn", ["main", "master"]); if (other !== main) { g.remote.set(`origin/${other}`, c0); if (sim.chance("g:ss", 0.7)) g.server.branches.set(other, c0); } }
  if (sim.chance("g:noremote", 0.05)) { g.remote.clear(); g.server.branches.clear(); g.server.head = null; }
  // the default branch moved past a merge of this branch: the merge base follows
  if (onBranch === "feature" && sim.chance("g:merged", 0.1) && g.server.branches.has(main)) g.server.branches.set(main, g.commit(ft, [tip, feat]));
  g.originHead = sim.chance("g:oh", 0.6) && g.remote.size ? (sim.chance("g:ohStale", 0.12) ? "origin/trunk-was-renamed" : `origin/${main}`) : null;
  g.branch = onBranch === "feature" ? sim.pick("g:bn", ["feature/x", "fix-1", "main-2"]) : onBranch === "main" ? main : null; g.head = onBranch === "main" ? known : feat; if (g.branch) g.branches.set(g.branch, g.head);
  // the default branch locally is ahead of what was fetched
  if (onBranch === "main" && sim.chance("g:localAhead", 0.4)) { const t = new Map(g.headTree); edit(t); g.head = g.commit(t, [g.head]); g.branches.set(g.branch, g.head); }
  g.index = new Map(g.headTree); g.work = new Map(g.headTree);
  const d = sim.pick("g:dirty", ["no", "no", "no", "work", "work", "staged", "both", "added"]);
  if (d === "work" || d === "both") { edit(g.work, 0.5); for (const f of [...g.work.keys()]) if (!g.index.has(f)) g.work.delete(f); } // a file that was never added is untracked, not dirty
  if (d === "staged" || d === "both") { const t = new Map(g.headTree); edit(t, 0.5); g.index = t; if (d === "staged") g.work = new Map(t); else for (const f of t.keys()) if (!g.work.has(f) && sim.chance("g:b", 0.5)) g.work.set(f, t.get(f)); }
  if (d === "added") { g.index.set("packages/app/src/brand-new.ts", "a\n"); g.work.set("packages/app/src/brand-new.ts", "a\n"); }
  if (sim.chance("g:untracked", 0.2)) for (const f of ["notes.txt", "packages/app/src/new-one.ts", "packages/lib/scratch.ts"]) if (sim.chance("g:u1", 0.5)) g.untracked.add(f);
  if (sim.chance("g:massU", 0.02)) g.massUntracked = true;
  g.cwd = sim.pick("g:cwd", ["", "", "packages/app/"]);
  if (sim.chance("g:conf", 0.15)) g.config = { [sim.pick("g:confK", ["color", "ext", "noprefix", "mnemonic", "relative", "locale"])]: true };
  if (sim.chance("g:norepo", 0.03)) g.exists = false;
  g.mark(); return g;
};

/** the user keeps working */
const meddle = (sim, g, until) => {
  const n = sim.pick("m:n", [1, 1, 2]); g.meddled = true;
  for (let i = 0; i < n; i++) sim.at(sim.int("m:at", 1, until), () => {
    const k = sim.pick("m:k", ["edit", "edit", "commit", "checkout", "untracked", "add", "undo", "clean"]); sim.fault(`user-${k}`);
    if (k === "edit") { g.edit(g.work, 0.5); for (const f of [...g.work.keys()]) if (!g.index.has(f)) g.work.delete(f); }
    else if (k === "commit") { if (!g.dirty()) g.edit(g.work, 0.6); g.index = new Map(g.work); g.head = g.commit(g.work, [g.head]); if (g.branch) g.branches.set(g.branch, g.head); }
    else if (k === "checkout") { const other = g.server.branches.get(g.mainName) ?? g.head; if (!g.dirty()) { g.head = other; g.branch = null; g.index = new Map(g.headTree); g.work = new Map(g.headTree); } }
    else if (k === "untracked") g.untracked.add("typed-just-now.ts"); else if (k === "clean") { g.untracked.clear(); g.massUntracked = false; }
    else if (k === "add") { for (const f of g.untracked) { g.index.set(f, "u\n"); g.work.set(f, "u\n"); } g.untracked.clear(); }
    else { g.index = new Map(g.headTree); g.work = new Map(g.headTree); }
    g.mark();
  }, { name: `user ${i}` });
};

export const runGitCommand = async (sim, { scripts }, only) => {
  const K = sim.prop; const disk = new Disk(sim); disk.mkdir("/tmp", { recursive: true }); disk.mkdir("/work/repo", { recursive: true }); disk.put("/work/app.zip", "PK\u0003\u0004 a build"); disk.put("/work/manifest.json", '[{"name":"a","versionId":"1"}]');
  const g = makeRepo(sim); const cmd = only ?? sim.pick("c:cmd", ["build", "build", "trigger", "trigger", "trigger", "chunks", "forCommit"]); const start = sim.now;
  const pf = sim.pick("c:pf", [0, 0, 0, 0.05, 0.15, 0.4]); const sticky = sim.chance("c:sticky", 0.25) ? sim.pick("c:stickyOn", [["status"], ["ls-files"], ["status", "ls-files", "stash", "diff"], ["fetch", "remote"], ["stash"], ["diff"], ["merge-base"], ["symbolic-ref", "remote"]]) : null;
  const stickyErr = sim.pick("c:stickyE", GITERR);
  const faultFor = (args) => {
    const sub = args.find((a) => !a.startsWith("-") && !a.includes("=")) ?? "";
    if (sticky?.includes(sub)) return { kind: "fail", code: 128, err: stickyErr };
    if (!pf || !sim.chance("f:git", pf)) return null; const k = sim.pick("f:gitk", ["fail", "fail", "killed", "spawn", "slow"]);
    return k === "fail" ? { kind: k, code: sim.pick("f:code", [128, 128, 1]), err: sim.pick("f:err", GITERR) } : k === "spawn" ? { kind: k, code: sim.pick("f:sp", ["EAGAIN", "ENOMEM", "EMFILE"]) } : k === "slow" ? { kind: k, delay: sim.pick("f:sl", [200, 3e3, 60e3]) } : { kind: k };
  };
  if (sim.chance("c:meddle", 0.2)) meddle(sim, g, 400);
  // ---- the service
  const seen = { build: [], diffs: [], triggers: [], created: [], relevant: [], forCommit: [] }; const stored = new Map(); let n = 0; const deployed = sim.pick("c:deployed", ["head", "head", "other", null]);
  const handle = (info) => {
    const path = info.path.replace(/^\/api\//, ""); const b = info.method === "GET" || !String(info.body ?? "") ? null : JSON.parse(String(info.body)); const url = () => `https://s3.sim/o${++n}?sig=ok`; const run = { id: "run1", status: "Success", url: "https://app.sim/run1", project: { id: "p" }, configData: { arguments: {} } };
    if (path === "projects/token-info") return json({ status: 200, body: { id: "p1", name: "p", organization: { name: "o" } } });
    if (path === "project-deployments/request-upload" || path === "project-deployments/request-asset-upload") return json({ status: 200, body: { uploadId: "up1", uploadUrl: url() } });
    if (path === "agent/upload-build/asset") { seen.build.push(b); return json({ status: 200, body: { deploymentId: "dep1" } }); }
    if (path === "agent/upload-build/git-diff") { const u = url(); seen.diffs.push({ ...b, u: u.split("?")[0] }); return json({ status: 200, body: { uploadUrl: u, deploymentId: "dep1" } }); }
    if (path === "project-deployments/request-git-diff-upload") { const u = url(); seen.diffs.push({ ...b, u: u.split("?")[0] }); return json({ status: 200, body: { uploadUrl: u } }); }
    if (path === "agent/trigger-test-run") { seen.triggers.push(b); return json({ status: 200, body: { testRun: run, commitSha: deployed === "head" ? g.head : deployed === "other" ? "0".repeat(40) : null } }); }
    if (path === "project-deployments/create-run-with-uploaded-asset-chunks") { seen.created.push(b); return json({ status: 200, body: { sourceDeploymentId: "dep1" } }); }
    if (path === "project-deployments/trigger-run-with-uploaded-asset-chunks") { seen.triggers.push(b); return json({ status: 200, body: { testRun: run } }); }
    if (path === "local-changes/relevant-sessions") { seen.relevant.push(b); return json({ status: 200, body: { testCases: [] } }); }
    if (path === "agent/test-runs") { seen.forCommit.push(info.query.get("commitSha")); return json({ status: 200, body: { testRunId: "run1", status: "Success", commitSha: "c" } }); }
    return json({ status: 404, body: { message: `no ${path}` } });
  };
  const proc = mkProc(sim, disk, "cli", { handle, faultFor: () => null }, { cwd: "/work/repo", tmpdir: "/tmp", argv: ["node", "meticulous"], env: { METICULOUS_DIR: "/data", METICULOUS_IS_CLOUD_REPLAY: "true", CI: "true" }, childProcess: gitChildProcess(sim, g, () => proc, faultFor, sim.pick("c:lat", [[1, 5], [2, 40], [10, 300]])) });
  proc.opts.httpNet = { name: "s3", latency: [1, 40], chunks: 2, faultFor: () => null, handle: (i) => { stored.set(`https://s3.sim${i.path}`, i.body); return { status: 200 }; } };
  proc.factories["parse-diff"] = () => Object.assign((s) => parseDiff(s), { default: parseDiff, __esModule: true }); proc.onUncaught = () => {};
  const m = proc.load(scripts.cli); let endAt = null; (proc.onCrash ??= []).push(() => { endAt ??= sim.now; });
  // ---- the command
  const pinned = [...g.commits.keys()]; const someCommit = () => sim.pick("c:sha", [...pinned, g.head, g.head, "f".repeat(40)]);
  const o = { apiToken: "t", json: sim.chance("c:json", 0.5), dryRun: false }; const baseArg = sim.chance("c:base", 0.3) ? someCommit() : undefined;
  if (cmd === "build") { o.commitSha = sim.chance("c:given", 0.15) ? someCommit() : undefined; o.dryRun = sim.chance("c:dry", 0.4); if (o.dryRun) o.json = true; o.appZip = "/work/app.zip"; o.rewrites = "[]"; }
  if (cmd === "trigger") { const by = sim.pick("c:by", ["deployment", "deployment", "commit", "none", "none"]); if (by === "deployment") o.deploymentId = "dep1"; if (by === "commit") o.commitSha = someCommit(); o.baseSha = baseArg; o.gitDiffOutput = baseArg && sim.chance("c:diff", 0.15) ? "diff --git a/x b/x\n" : undefined; o.dontWaitForTestRunToComplete = true; o.sessionIds = sim.chance("c:pin", 0.1) ? "s1,s2" : undefined; }
  if (cmd === "chunks") { const by = sim.pick("c:by", ["repo", "repo", "repo", "explicit", "none"]); if (by === "repo") o.repoDirectory = "/work/repo"; else { if (by === "explicit") o.commitSha = someCommit(); o.baseSha = baseArg; o.gitDiffOutput = baseArg && sim.chance("c:diff", 0.5) ? "diff --git a/x b/x\n" : undefined; } o.assetReferencesManifest = "/work/manifest.json"; o.rewrites = "[]"; o.waitForBase = false; o.waitForTestRunToComplete = false; }
  if (cmd === "relevant") { o.startingPointSha = sim.chance("c:from", 0.25) ? someCommit() : undefined; o.includeSuperfluousSessions = false; o.outputDir = "/tmp/out"; }
  if (cmd === "forCommit") { o.commitSha = sim.chance("c:given", 0.2) ? someCommit() : undefined; o.dontWaitForTestRunToComplete = true; o.json = false; }
  const h = { build: m.build.uploadBuildCommand, trigger: m.trigger.triggerTestRunCommand, forCommit: m.forCommit.testRunForCommitCommand, chunks: m.chunks.ciRunWithUploadedAssetChunksCommand, relevant: m.relevant.relevantSessionsCommand ?? Object.values(m.relevant).find((x) => x?.handler) }[cmd];
  proc.at(0, () => { h.handler(o).catch(() => {}); }, "start");
  const st = await sim.run(async () => { while (proc.alive && sim.now < start + 900e3) await sim.sleep(250); }, { maxTime: start + 1000e3, maxEvents: 200000 });
  if (sim.stopped) return { sample: { cmd } };
  sim.check(st === "done" && !proc.alive, `${K}/hang`, () => `${cmd} never ended (${st})`); if (sim.stopped) return { sample: { cmd } };
  // ---- what was true meanwhile
  const states = g.history.filter((s, i) => s.t <= endAt && (g.history[i + 1]?.t ?? Infinity) >= start); const meddled = states.some((s, i) => i && (s.head !== states[0].head || s.branch !== states[0].branch || s.dirty !== states[0].dirty || s.untracked !== states[0].untracked || s.work.size !== states[0].work.size || [...s.work].some(([f, c]) => states[0].work.get(f) !== c)));
  const bad = (subs) => g.calls.some((c) => c.fault && c.fault !== "slow" && subs.includes(c.args.find((a) => !a.startsWith("-") && !a.includes("=")))); const anyFault = g.calls.some((c) => c.fault && c.fault !== "slow");
  const lines = proc.consoleLines.map((l) => l.replace(/^(info|log|warn|error|debug) /, "")); const said = lines.join("\n"); const errs = proc.consoleLines.filter((l) => /^(error|warn) /.test(l) && !/simulated process.exit/.test(l)); const out = proc.consoleLines.filter((l) => l.startsWith("log ") || l.startsWith("stdout ")).map((l) => l.replace(/^\w+ /, ""));
  const code = proc.exitCode; const ok = code === 0; const where = `${cmd}${o.deploymentId ? " --deploymentId" : ""}${o.commitSha ? " --commitSha" : ""}${o.baseSha ? " --baseSha" : ""}${o.repoDirectory ? " --repoDirectory" : ""} (${g.exists ? `${states[0].branch ?? "detached"}${states[0].dirty ? ", dirty" : ""}${states[0].untracked ? ", untracked files" : ""}` : "no repository"}${meddled ? ", changed meanwhile" : ""}${Object.keys(g.config).length ? `, user sets ${Object.keys(g.config)}` : ""}${g.cwd ? ", in a subdirectory" : ""}${anyFault ? `, failed: ${g.calls.filter((c) => c.fault && c.fault !== "slow").map((c) => `git ${c.args[0]}`)}` : ""}; exit ${code})`;
  const clean = (s) => !s.dirty; const some = (f) => g.exists && states.some(f); const short = (s) => s?.slice(0, 8) ?? s;
  const tree = (sha) => g.commits.get(sha)?.tree; const isStash = (sha) => g.stashes.includes(sha); const stashOk = (sha) => isStash(sha) && states.some((s) => { const t = tree(sha); return s.dirty && t.size === s.work.size && [...t].every(([f, c]) => s.work.get(f) === c); });
  // ---- bases
  const bases = (fallback) => { const set = new Set(); for (const s of states) for (const remote of states.map((x) => x.remote)) {
    const asked = g.server.head ? `origin/${g.server.head}` : null; const defs = fallback ? [...new Set([s.originHead, asked, null])] : [s.originHead ?? asked];
    for (const def of defs) {
      const first = () => { const out = []; for (const c of new Set([...(def ? [def] : []), "origin/main", "origin/master"])) { const r = remote.get(c); const mb = r && g.mergeBase(r, s.head); if (mb) { out.push(mb); if (!fallback) break; } } return out; };
      const names = def ? [def.replace(/^origin\//, "")] : ["main", "master"]; if (!s.branch || names.includes(s.branch)) set.add(s.head); if (!s.branch || fallback || !names.includes(s.branch)) for (const x of first()) set.add(x);
    } }
    return set; };
  const fetched = g.calls.some((c) => c.args[0] === "fetch" && !c.failed); const exact = !bad([...BASE, "rev-parse"]) && !g.calls.some((c) => c.args[0] === "fetch" && c.fault === "killed") && !meddled;
  const baseOk = (b) => { let set = bases(!exact); if (exact) { const last = states.at(-1); const was = states.splice(0, states.length); states.push(fetched ? last : was[0]); set = bases(false); states.splice(0, 1, ...was); } return set.has(b); };
  const baseKnown = () => bases(false).size > 0;
  const diffOf = (a, b) => treeDiff(tree(a), b, {}); const plain = (s, fn) => fn(s);
  const refuse = (why) => { sim.check(!ok, `${K}/accepted`, () => `${where}: ${why}`); };
  const told = () => { if (!ok) sim.check(errs.length > 0 || /Could not|cannot|No commit|Untracked/.test(said), `${K}/report`, () => `${where}: failed without saying why`); };
  const falseRefusal = (need) => { if (ok || meddled || anyFault) return; sim.check(need, `${K}/false-refusal`, () => `${where}: refused: ${errs.at(-1)?.slice(0, 300) ?? lines.at(-1)}`); };
  told();
  const head1 = states[0].head;
  if (cmd === "build") {
    const done = ok ? (o.dryRun ? JSON.parse(out.join("\n")).commitSha : seen.build[0]?.commitSha) : null;
    if (ok && o.json) { const p = JSON.parse(out.join("\n")); sim.check(p.commitSha === done && p.deploymentId === (o.dryRun ? null : "dep1") && p.commitShaSource === (o.commitSha ? "provided" : isStash(done) ? "local-ephemeral" : "local"), `${K}/output`, () => `${where}: printed ${JSON.stringify(p)} for ${done}`); }
    sim.check(seen.build.length === (ok && !o.dryRun ? 1 : 0), `${K}/registered`, () => `${where}: ${seen.build.length} builds registered`);
    if (o.commitSha) { sim.check(ok && done === o.commitSha, `${K}/label`, () => `${where}: registered ${done} instead of ${o.commitSha}`); }
    else if (ok) {
      if (isStash(done)) { sim.check(stashOk(done), `${K}/label`, () => `${where}: labelled with ${short(done)}, which does not hold the working tree`); sim.check(said.includes(done) && /ephemeral/.test(said), `${K}/notice`, () => `${where}: the ephemeral commit is not announced`); sim.probe("ephemeral"); }
      else { sim.check(some((s) => s.head === done), `${K}/label`, () => `${where}: labelled with ${short(done)}; HEAD was ${states.map((s) => short(s.head))}`); sim.check(some(clean), `${K}/dirty-as-clean`, () => `${where}: labelled with the clean HEAD ${short(done)} though the tree had uncommitted changes`); sim.probe("labelled"); }
      sim.check(some((s) => !s.untracked), `${K}/untracked-ignored`, () => `${where}: labelled with ${short(done)}, which lacks the untracked files`);
    } else falseRefusal(!g.exists || states[0].untracked);
  }
  if (cmd === "trigger" || cmd === "chunks") {
    const t = seen.triggers[0]; const d = seen.diffs[0]; const text = d && stored.get(d.u)?.toString(); const skipped = ok && !t; const given = o.gitDiffOutput;
    sim.check(seen.triggers.length <= 1 && seen.diffs.length <= 1, `${K}/registered`, () => `${where}: ${seen.triggers.length} runs, ${seen.diffs.length} diffs`); if (!ok) sim.check(!t, `${K}/registered`, () => `${where}: triggered a run and failed: ${errs.at(-1)}`);
    if (d && ok) sim.check(text !== undefined && Buffer.byteLength(text) === d.size, `${K}/diff`, () => `${where}: announced a diff of ${d.size} bytes, stored ${text?.length}`);
    if (sim.stopped) return { sample: { cmd } };
    if (cmd === "trigger") {
      if (!o.deploymentId && !o.commitSha && ok) { const c = t ? t.commitSha ?? seen.diffs[0]?.commitSha : null; sim.check(some(clean), `${K}/dirty-as-clean`, () => `${where}: looked up the deployment of HEAD though the tree had uncommitted changes`); if (seen.diffs[0]) sim.check(some((s) => s.head === seen.diffs[0].commitSha), `${K}/label`, () => `${where}: looked up ${short(seen.diffs[0].commitSha)}; HEAD was ${states.map((s) => short(s.head))}`); else if (c) sim.check(some((s) => s.head === c), `${K}/label`, () => `${where}: ran ${short(c)}`); }
      if (t && o.commitSha && !seen.diffs.length) sim.check(t.commitSha === o.commitSha, `${K}/label`, () => `${where}: triggered for ${t.commitSha}`); if (o.commitSha && d) sim.check(d.commitSha === o.commitSha, `${K}/label`, () => `${where}: attached the diff to ${d.commitSha}`); if (o.deploymentId && t) sim.check(t.deploymentId === "dep1", `${K}/label`, () => `${where}: triggered for ${JSON.stringify(t)}`);
      if (t && o.sessionIds) sim.check(t.sessionIds?.join() === o.sessionIds, `${K}/label`, () => `${where}: pinned ${t.sessionIds}`);
    }
    if (cmd === "chunks" && ok && !skipped) { const c = seen.created[0]?.commitSha; sim.check(c === t.commitSha && (o.commitSha ? c === o.commitSha : some((s) => s.head === c)), `${K}/label`, () => `${where}: created for ${short(c)}, triggered for ${short(t.commitSha)}; HEAD was ${states.map((s) => short(s.head))}`); }
    if (t) {
      const b = t.baseSha; if (d && d.baseSha !== undefined) sim.check(d.baseSha === b, `${K}/base`, () => `${where}: the diff is attached for ${d.baseSha}, the run compares to ${b}`);
      const mustBase = cmd === "trigger" || o.repoDirectory; if (o.baseSha) sim.check(b === o.baseSha, `${K}/base`, () => `${where}: base ${b}`); else if (mustBase) sim.check(baseOk(b), `${K}/base`, () => `${where}: compares to ${short(b)}, expected ${[...bases(!exact)].map(short)}`); else sim.check(b === undefined, `${K}/base`, () => `${where}: compares to ${b}`);
      if (sim.stopped) return { sample: { cmd } };
      if (given) sim.check(text === given, `${K}/diff`, () => `${where}: uploaded ${JSON.stringify(text)} instead of the given diff`);
      else if (cmd === "trigger" || o.repoDirectory) {
        const cands = []; // [what, tree]
        if (cmd === "trigger") { if (o.commitSha) cands.push([short(o.commitSha), tree(o.commitSha)]); else if (!o.deploymentId) { const c = d?.commitSha ?? t.commitSha; cands.push([short(c), tree(c)]); } else { for (const s of states) { if (!s.dirty || meddled) cands.push([`HEAD ${short(s.head)}`, tree(s.head)]); } for (const s of g.stashes) if (stashOk(s)) cands.push([`stash ${short(s)}`, tree(s)]); if (!some(clean)) for (let i = cands.length - 1; i >= 0; i--) if (cands[i][0].startsWith("HEAD")) cands.splice(i, 1); } }
        else { if (some(clean)) cands.push([`HEAD`, tree(t.commitSha)]); for (const s of states) if (s.dirty) cands.push(["working tree", s.work]); }
        const right = cands.some(([, x]) => x && tree(b) && diffOf(b, x) === (text ?? "")); const dirtyAs = !some(clean) && (text ?? "") === (tree(b) ? diffOf(b, tree(states[0].head)) : null);
        sim.check(right, dirtyAs ? `${K}/dirty-as-clean` : `${K}/diff`, () => { const want = cands[0]?.[1] && tree(b) ? diffOf(b, cands[0][1]) : "?"; const at = [...want].findIndex((c, i) => c !== text?.[i]); return `${where}: the diff is not ${short(b)}..${cands.map(([w]) => w)}; ${text?.length ?? 0} instead of ${want.length} characters, differs at ${at}: ${JSON.stringify(text?.slice(Math.max(0, at - 60), at + 60))} instead of ${JSON.stringify(want.slice(Math.max(0, at - 60), at + 60))}`; });
        if (cmd === "trigger" && o.deploymentId) sim.check(some((s) => !s.untracked), `${K}/untracked-ignored`, () => `${where}: compared without the untracked files`);
        if (text) sim.probe("diff"); else sim.probe("emptyDiff"); if (text?.length > 1 << 20) sim.probe("bigDiff");
      }
      if (cmd === "trigger" && o.deploymentId && !given && !meddled && !states[0].dirty && !anyFault) { const drift = deployed === "other"; sim.check(/git diff was computed against/.test(said) === drift, `${K}/drift`, () => `${where}: ${drift ? "does not say" : "says"} that the deployment is of another commit`); }
    } else if (ok) { const nothing = cmd === "trigger" ? !o.sessionIds && !o.deploymentId : true; sim.check(nothing, `${K}/skipped`, () => `${where}: nothing was run`);
      const b = (s) => o.baseSha ? [o.baseSha] : [...bases(true)]; const h2 = (s) => o.commitSha ?? s.head; sim.check(some((s) => b(s).includes(h2(s))) || (cmd === "chunks" && o.commitSha === o.baseSha), `${K}/skipped`, () => `${where}: nothing was run though base and head differ`); sim.check(!o.repoDirectory || some((s) => !s.dirty || treeDiff(tree(s.head), s.work) === ""), `${K}/dirty-as-clean`, () => `${where}: nothing was run though there are uncommitted changes`); sim.probe("nothingToDo"); }
    else {
      const needsBase = !o.baseSha && (cmd === "trigger" || o.repoDirectory); const known = (s) => g.commits.has(s); let need = !g.exists;
      if (needsBase) need ||= !baseKnown(); if (cmd === "trigger") { if (!o.deploymentId && !o.commitSha) need ||= states[0].dirty; if (o.deploymentId && !given) need ||= states[0].untracked; if (!given) need ||= (o.baseSha && !known(o.baseSha)) || (o.commitSha && !known(o.commitSha)); if (given && (o.deploymentId || o.commitSha)) need = false; }
      if (cmd === "chunks") { if (o.commitSha) need = false; } falseRefusal(need);
    }
  }
  if (cmd === "forCommit") {
    if (o.commitSha) sim.check(ok && seen.forCommit[0] === o.commitSha, `${K}/label`, () => `${where}: looked up ${seen.forCommit[0]}`);
    else if (ok) { const c = seen.forCommit[0]; sim.check(some((s) => s.head === c), `${K}/label`, () => `${where}: looked up ${short(c)}`); if (!meddled && !anyFault) { const differs = states[0].dirty || states[0].untracked; sim.check(/ignoring local changes/.test(said) === differs, `${K}/notice`, () => `${where}: ${differs ? "does not say" : "says"} that local changes are ignored`); } }
    else { falseRefusal(!g.exists); if (!bad(["rev-parse"])) sim.check(!g.exists || meddled, `${K}/false-refusal`, () => `${where}: an informational git call stopped the lookup: ${errs.at(-1)}`); }
  }
  if (cmd === "relevant") {
    const r = seen.relevant[0];
    if (ok) {
      sim.check(seen.relevant.length === 1, `${K}/registered`, () => `${where}: asked ${seen.relevant.length} times`); if (sim.stopped) return { sample: { cmd } };
      sim.check(baseOk(r.baseCommitSha), `${K}/base`, () => `${where}: base ${short(r.baseCommitSha)}, expected ${[...bases(!exact)].map(short)}`);
      const from = o.startingPointSha ?? r.baseCommitSha; const A = tree(from); sim.check(A, `${K}/edited`, () => `${where}: edits from the unknown ${from}`); if (sim.stopped) return { sample: { cmd } };
      const why = (W) => {
        const got = new Map(); for (const f of r.editedFilesWithLines) { if (got.has(f.filePath)) return `${f.filePath} appears twice`; got.set(f.filePath, f.editedRanges); }
        for (const f of new Set([...A.keys(), ...W.keys()])) {
          if (f === "gen/") { if (A.get(f) !== W.get(f)) { for (const i of [0, 21999]) { const k2 = `/gen/module-${String(i).padStart(6, "0")}/generated-by-the-build.ts`; if (!got.has(k2)) return `${k2} is missing`; } for (const k2 of [...got.keys()]) if (k2.startsWith("/gen/")) got.delete(k2); } continue; }
          const ranges = got.get(`/${f}`); got.delete(`/${f}`); if (A.get(f) === W.get(f) || !A.has(f)) { if (ranges?.length) return `/${f} ${A.has(f) ? "did not change" : "is new"} but has ranges ${JSON.stringify(ranges)}`; continue; }
          const split = (s) => { if (s === undefined || s === "") return []; const L = s.split("\n"); if (L.at(-1) === "") { L.pop(); } else L[L.length - 1] += "\0"; return L; }; const L = split(A.get(f)), M = split(W.get(f)); const must = new Set(), may = new Set(); const ops = editScript(L, M);
          for (let i = 0; i < ops.length; ) { if (ops[i][0] === " ") { i++; continue; } let j = i; while (j < ops.length && ops[j][0] !== " ") j++; const dels = ops.slice(i, j).filter((p) => p[0] === "-").map((p) => p[1] + 1); const before = ops[i][1]; // old lines before this block
            if (dels.length) { for (const x of dels) must.add(x); may.add(dels[0] - 1); may.add(dels.at(-1) + 1); } else { if (before >= 1) must.add(before); if (before < L.length && before >= 1) must.add(before + 1); may.add(before); may.add(before + 1); } i = j; }
          if (!ranges) { if (must.size === 0 && ![...may].length) continue; return `/${f} is missing`; }
          let last = 0; const have = new Set(); for (const [x, y] of ranges) { if (!(x <= y) || x < last) return `/${f} has ranges ${JSON.stringify(ranges)}`; last = y; for (let q = x; q <= y; q++) have.add(q); }
          for (const x of must) if (!have.has(x)) return `/${f}: line ${x} is edited but not among ${JSON.stringify(ranges)}`; for (const x of have) if (!must.has(x) && !may.has(x)) return `/${f}: line ${x} is not edited but among ${JSON.stringify(ranges)} (edited: ${[...must]})`;
        }
        for (const k2 of got.keys()) return `${k2} is not part of the change`; return null;
      };
      const reasons = states.map((s) => why(s.work)); sim.check(reasons.includes(null), `${K}/edited`, () => `${where}: ${[...new Set(reasons)].join("; or ")}`); sim.probe(r.editedFilesWithLines.length ? "edits" : "noEdits");
    } else falseRefusal(!g.exists || !baseKnown() || (o.startingPointSha && !g.commits.has(o.startingPointSha)));
  }
  if (g.big) sim.probe("big"); if (anyFault && ok) sim.probe("survivedFault"); if (!ok) sim.probe("refused"); if (meddled) sim.probe("meddled");
  sim.check(proc.uncaughtErrors.filter((e) => e?.name !== "ProcExit" && !/exited|ProcExit/.test(String(e))).length === 0, `${K}/unhandled`, () => `${where}: ${proc.uncaughtErrors[0]}`);
  return { sample: { cmd, exit: code, gitCalls: g.calls.length } };
};
