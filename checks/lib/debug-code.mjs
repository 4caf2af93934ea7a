// Harness for the code in debug workspaces and for cleaning workspaces up: the
// real `debug` command runs again and again on one machine, from different
// directories, against a model of git and of the service.
import { bundle } from "../../sim/bundle.mjs";
import { Disk } from "../../sim/fs.mjs";
import { makeZip, realPackages } from "../../sim/npm.mjs";
import { mkProc, netFaults, serve } from "./downloads.mjs";

export const CODE_META = {
  real: ["packages/cli/src/commands/debug (replay-diff, replay, clean)", "packages/debug-workspace/src", "packages/downloading-helpers/src", "packages/client/src", "packages/common/src", "packages/cli/src/command-utils/sentry.utils.ts"],
  stubs: ["git: a model of repositories, remotes and linked worktrees over the simulated disk; a shell is modelled by its quoting rules", "API service and object storage: models", "inquirer: a user whose answers the seed draws", "prettier: identity", "diff: prints nothing", "fetch, axios, axios-retry: simulated network"],
  assumptions: ["git worktree add is atomic", "no other program changes a workspace while a command runs", "commits are identified by what they contain"],
};
let built;
export const buildDebugCode = async () => (built ??= { cli: (await bundle({ debug: "packages/cli/src/commands/debug/index.ts" }, { real: realPackages(), define: { __dirname: '"/sdk/dist"' } })).code });
const json = (status, body) => ({ status, headers: { "content-type": "application/json" }, body: JSON.stringify(body) });
const WS = "/data/debug-sessions";

/** Repositories with a remote each, and their linked worktrees */
class Git {
  constructor(disk) { this.disk = disk; this.repos = new Map(); }
  repo(root, remote, local) { this.repos.set(root, { root, remote: new Set(remote), local: new Set(local), trees: new Map() }); this.disk.put(`${root}/.git/HEAD`, "ref: refs/heads/main\n"); this.disk.put(`${root}/src/app.js`, "// main\n"); this.disk.put(`${root}/sub/x.js`, "// main\n"); }
  top(cwd) { for (let d = cwd; ; d = d.slice(0, d.lastIndexOf("/"))) { if (d === "") return null; if (this.disk.exists(`${d}/.git`)) return d; } }
  of(cwd) { const top = this.top(cwd); if (!top) return null; const f = this.disk.lookup(`${top}/.git`); if (f.type === "dir") return { repo: this.repos.get(top), top }; const root = f.data.toString().replace(/^gitdir: /, "").split("/.git/")[0]; const repo = this.repos.get(root); return repo?.trees.has(top) ? { repo, top } : null; }
  fill(p, sha) { this.disk.put(`${p}/src/app.js`, `// ${sha}\n`); }
  run(args, cwd) {
    const bad = (m, code = 128) => ({ code, out: "", err: `fatal: ${m}` }); let dir = cwd; const a = [...args]; while (a[0] === "-C" || a[0] === "-c") { if (a[0] === "-C") dir = a[1]; a.splice(0, 2); }
    if (!this.disk.isDir(dir)) return bad(`cannot change to '${dir}'`); const at = this.of(dir); if (!at) return bad("not a git repository"); const { repo, top } = at; const flags = a.slice(1).filter((x) => x.startsWith("-")); const pos = a.slice(1).filter((x) => !x.startsWith("-")); const ok = (out = "") => ({ code: 0, out, err: "" }); const force = flags.some((f) => f === "--force" || /^-[a-z]*f/.test(f));
    const alive = (p) => this.disk.exists(`${p}/.git`);
    switch (a[0]) {
      case "rev-parse": if (flags.includes("--show-toplevel")) return ok(`${top}\n`); if (flags.includes("--git-common-dir")) return ok(`${repo.root}/.git\n`); if (flags.includes("--is-inside-work-tree")) return ok("true\n"); return ok(`${repo.trees.get(top) ?? "main"}\n`);
      case "fetch": { const sha = pos[1]; if (sha && !repo.remote.has(sha)) return bad(`remote error: upload-pack: not our ref ${sha}`); if (sha) repo.local.add(sha); return ok(); }
      case "cat-file": return repo.local.has(pos.at(-1).replace(/\^.*/, "")) ? ok() : bad("Not a valid object name");
      case "worktree": switch (pos[0]) {
        case "add": { const [, p, sha] = pos; if (!p || !sha) return bad("usage", 129); if (!repo.local.has(sha)) return bad(`invalid reference: ${sha}`); if (this.disk.isDir(p) ? this.disk.list(p).length : this.disk.exists(p)) return bad(`'${p}' already exists`); if (repo.trees.has(p) && !force) return bad(`'${p}' is a missing but already registered worktree;\nuse 'add -f' to override, or 'prune' or 'remove' to clear`); repo.trees.set(p, sha); this.disk.put(`${p}/.git`, `gitdir: ${repo.root}/.git/worktrees/${p.split("/").at(-2)}\n`); this.fill(p, sha); return ok(); }
        case "remove": { const p = pos[1] === "." ? dir : pos[1]; if (!repo.trees.has(p)) return bad(`'${p}' is not a working tree`); if (!this.disk.exists(p)) { repo.trees.delete(p); return ok(); } if (!alive(p)) return bad(`validation failed, cannot remove working tree: '${p}/.git' does not exist`); if (!force && this.dirty(p, repo.trees.get(p))) return bad(`'${p}' contains modified or untracked files, use --force to delete it`); repo.trees.delete(p); this.rm(p); return ok(); }
        case "prune": for (const p of [...repo.trees.keys()]) if (!alive(p)) repo.trees.delete(p); return ok();
        case "list": return ok([...repo.trees].map(([p, s]) => `worktree ${p}\nHEAD ${s}\ndetached\n`).join("\n"));
        default: return bad("usage", 129);
      }
      case "checkout": case "switch": { const sha = pos[0]; if (top === repo.root) { this.touched = `git ${args.join(" ")} in ${dir}`; return ok(); } if (!repo.local.has(sha)) return bad(`reference is not a tree: ${sha}`); if (this.dirty(top, repo.trees.get(top)) && sha !== repo.trees.get(top) && !force) return bad("Your local changes to the following files would be overwritten by checkout", 1); repo.trees.set(top, sha); this.fill(top, sha); return ok(); }
      case "reset": { if (top === repo.root) { this.touched = `git ${args.join(" ")} in ${dir}`; return ok(); } const sha = pos[0]; if (!repo.local.has(sha)) return bad("unknown revision"); repo.trees.set(top, sha); this.fill(top, sha); return ok(); }
      case "merge-base": return pos[0] === "origin/main" && repo.local.has(pos[1]) ? ok(`${baseOf(pos[1])}\n`) : bad("Not a valid object name");
      case "diff": { const m = /^(.*?)\.\.\.?(.*)$/.exec(pos.find((x) => x.includes("..")) ?? pos.slice(0, 2).join("..")); if (!m || !m[1] || !m[2]) { const one = pos.at(-1)?.replace(/\.+/g, ""); if (one && !repo.local.has(one)) return bad(`bad revision '${one}'`); const now = /\/\/ (.*)\n/.exec(this.disk.text(`${top}/src/app.js`) ?? "")?.[1]; return ok(diffText(one ?? repo.trees.get(top) ?? "main", now)); } for (const s of [m[1], m[2]]) if (!repo.local.has(s)) return bad(`bad revision '${s}'`); return ok(diffText(m[1], m[2])); }
      default: return bad(`'${a[0]}' is not a git command`, 1);
    }
  }
  dirty(p, sha) { return this.disk.text(`${p}/src/app.js`) !== `// ${sha}\n`; }
  rm(p) { const n = this.disk.walk(p, { follow: false }); n.parent.children.delete(n.name); }
}
const baseOf = (sha) => sha.replace(/^h/, "b");
const diffText = (a, b) => (a === b ? "" : `diff --git a/src/app.js b/src/app.js\n--- a/src/app.js\n+++ b/src/app.js\n@@ -1 +1 @@\n-// ${a}\n+// ${b}\n`);
/** a shell: quotes, and expansions of variables that are not set */
const words = (s) => { const out = []; let cur = null, q = null; for (let i = 0; i < s.length; i++) { const c = s[i]; if (q === "'") { if (c === "'") q = null; else cur += c; continue; } if (c === "\\" && (q ? /["$`\\]/.test(s[i + 1] ?? "") : true)) { cur = (cur ?? "") + (s[++i] ?? ""); continue; } if (c === "$" && /[\w({]/.test(s[i + 1] ?? "")) { const m = /^\$(\w+|\{[^}]*\}|\([^)]*\))/.exec(s.slice(i)); cur ??= ""; if (m) i += m[0].length - 1; continue; } if (q === '"') { if (c === '"') q = null; else cur += c; continue; } if (c === '"' || c === "'") { q = c; cur ??= ""; continue; } if (/\s/.test(c)) { if (cur !== null) out.push(cur); cur = null; continue; } cur = (cur ?? "") + c; } if (cur !== null) out.push(cur); return out; };

export const runDebugCode = async (sim, { scripts }) => {
  const K = sim.prop; const disk = new Disk(sim); for (const d of ["/data", "/sdk/dist/templates", "/home/u/none"]) disk.mkdir(d, { recursive: true }); disk.put("/sdk/dist/templates/CLAUDE.md", "# W\n");
  const git = new Git(disk); const HEADS = ["h1a2b3c4d5", "h2a2b3c4d5"]; const all = [...HEADS, ...HEADS.map(baseOf)]; const localCommits = sim.pick("w:local", [all, [], [HEADS[0], baseOf(HEADS[0])]]); const remoteHas = sim.pick("w:remote", [all, all, HEADS, []]);
  git.repo("/home/u/app", remoteHas, localCommits); git.repo("/home/u/other", ["x1"], ["x1"]); git.disk.mkdir("/home/u/app/sub", { recursive: true });
  { const r = git.repos.get("/home/u/app"); r.local.add("mine"); git.run(["worktree", "add", "--detach", "/home/u/my-tree", "mine"], "/home/u/app"); disk.put("/home/u/my-tree/work.txt", "mine"); }
  const DIRS = ["/home/u/app", "/home/u/app", "/home/u/app/sub", "/home/u/other", "/home/u/none"];
  // ---- the service
  const commits = {}; for (const id of ["h0", "h1", "o0", "o1"]) commits[id] = sim.pick("w:commit", [...HEADS, ...HEADS, undefined]); const known = sim.chance("w:baseKnown", 0.6); const baseSha = {}; for (const d of ["d0", "d1"]) baseSha[d] = known ? sim.pick("w:base", [baseOf(commits[`h${d[1]}`] ?? HEADS[0]), HEADS[1]]) : undefined;
  const store = new Map(), replays = new Map(); for (const id of ["h0", "h1", "b0", "o0", "o1"]) { const zip = (k, l) => { store.set(`/${id}/${k}.zip`, makeZip(l)); return { signedUrl: `https://s3.sim/${id}/${k}.zip?sig=1`, filePath: `${k}.json` }; }; replays.set(id, { id, urls: { screenshots: {}, metadata: zip("metadata", [["metadata.json", "{}"]]), timeline: zip("timeline", [["timeline.json", "[]"]]) } }); }
  const world = { store, replays, testRuns: new Map(["d0", "d1"].map((d) => [`t${d}`, { data: { id: `t${d}`, configData: { arguments: { baseCommitSha: baseSha[d] } } } }])), requests: [], gone: new Set(), doc: (k) => { const id = k.split("/")[1]; return { id, version: "v3", projectId: "p", commitSha: commits[id] }; } };
  const base = serve(world);
  const handle = (info, f) => { if (f?.kind === "status") return { status: f.status, body: "err" }; const m = info.path.replace(/^\/api\/+/, "").split("/"); if (info.host === "app.meticulous.ai") { if (m[0] === "replay-diffs") { const n = m[1][1]; return json(200, { id: m[1], headReplay: { id: `h${n}`, commitSha: commits[`h${n}`] }, baseReplay: { id: "b0" }, project: { id: "p", name: "p", organization: { name: "o" } }, testRun: { id: `t${m[1]}`, status: "Success" }, data: { screenshotDiffResults: [] } }); } if (m[0] === "agent") return json(200, {}); } return base(info, f); };
  const p = { on: sim.chance("cfg:net", 0.3), net: 0.02, fs: 0 }; const faultFor = netFaults(sim, p); const gf = sim.pick("cfg:git", [0, 0, 0.15]); const rmf = sim.pick("cfg:rm", [0, 0, 0.1]); const haveGit = !sim.chance("cfg:noGit", 0.05);
  // ---- the machine
  let cwd = DIRS[0], gitBad = false, rmBad = new Set(), answers = [], asked = 0, killed = null;
  const exec = (file, args, o = {}) => {
    const fail = (status, stderr, stdout = "", extra = {}) => { throw Object.assign(new Error(`Command failed: ${file} ${args.join(" ")}\n${stderr}`), { status, stderr, stdout, ...extra }); }; const enc = (s) => (o.encoding && o.encoding !== "buffer" ? s : Buffer.from(s)); const dir = o.cwd ?? cwd;
    if (file === "diff") return enc(""); if (file !== "git" || !haveGit) throw Object.assign(new Error(`spawnSync ${file} ENOENT`), { code: "ENOENT", status: null }); if (!disk.isDir(dir)) throw Object.assign(new Error(`spawnSync git ENOENT`), { code: "ENOENT" });
    sim.log(`git ${args.join(" ").slice(0, 140)} @${dir}`);
    if (gf && args[0] !== "rev-parse" && sim.chance("f:git", gf)) { const k = sim.pick("f:gitk", ["fail", "fail", "killed", "buffer"]); gitBad = true; sim.fault(`git-${k}`); if (k === "fail" || args[0] !== "diff") return fail(128, "fatal: unable to access the repository"); const r = git.run(args, dir); const part = r.out.slice(0, sim.int("f:part", 0, Math.max(0, r.out.length - 2))); sim.probe("partial-diff"); if (k === "killed") return fail(null, "", enc(part), { signal: "SIGKILL" }); throw Object.assign(new Error("spawnSync git ENOBUFS"), { code: "ENOBUFS", stdout: enc(part), status: null }); }
    const r = git.run(args, dir); if (r.code) return fail(r.code, r.err, enc(r.out)); return enc(r.out);
  };
  const childProcess = { execFileSync: (f, args, o) => exec(f, Array.isArray(args) ? args : [], Array.isArray(args) ? o : args), execSync: (cmd, o) => { const w = words(cmd); return exec(w[0], w.slice(1), o); }, spawnSync: (f, args, o) => { try { return { status: 0, stdout: exec(f, args, o), stderr: "", signal: null }; } catch (e) { return { status: e.status ?? null, stdout: e.stdout ?? "", stderr: e.stderr ?? "", error: e.code ? e : undefined, signal: e.signal ?? null }; } }, exec: () => {} };
  const command = (name) => {
    const proc = mkProc(sim, disk, name, { faultFor, handle }, { tty: false, argv: ["node", "meticulous", "debug"], fsLatency: [0, 2], childProcess, rmFault: (x) => { if (!name.startsWith("clean") || !rmf || !x.startsWith(`${WS}/`) || !sim.chance("f:rm", rmf)) return null; rmBad.add(x.slice(WS.length + 1).split("/")[0]); return sim.pick("f:rmk", ["EACCES", "EBUSY"]); } });
    proc.factories.prettier = () => ({ format: async (s) => s, __esModule: true, default: { format: async (s) => s } });
    const prompt = async (qs) => { const out = {}; for (const q of [].concat(qs)) { asked++; const a = answers.shift(); if (!a) throw new Error("simulator: an unexpected question"); out[q.name] = a(q); } return out; };
    proc.factories.inquirer = () => ({ __esModule: true, default: { prompt }, prompt });
    const cmds = {}; const y = { command: (c) => { cmds[c.command.split(" ")[0]] = c; return y; }, demandCommand: () => y, option: () => y, help: () => y, strict: () => y }; proc.load(scripts.cli).debug.debugCommand.builder(y); return { proc, cmds };
  };
  const finish = async (proc, job) => { const gone = new Promise((res) => { (proc.onCrash ??= []).push(() => sim.at(0, () => res(), { name: "reap" })); }); await Promise.race([job.then(() => sim.sleep(5), () => sim.sleep(5)), gone]); for (let i = 0; i < 200 && proc.alive; i++) await sim.sleep(500); };
  const under = (tree, prefix) => [...tree].filter(([k]) => k === prefix || k.startsWith(`${prefix}/`) || prefix === ""); const snap = (d) => disk.tree(d);
  const same = (a, b) => a.size === b.size && [...a].every(([k, v]) => b.has(k) && Buffer.from(v ?? "").equals(Buffer.from(b.get(k) ?? "")));
  const NAMES = [...sim.shuffle("w:names", ["w1", "w 2", "it's", `q"t`, "$HOME-x", "a&b"]).slice(0, sim.pick("w:nnames", [1, 1, 2, 6])), undefined]; const made = new Map(); // name -> {foreign}
  const st = await sim.run(async () => {
    disk.mkdir("/home/u/precious/keep", { recursive: true }); disk.put("/home/u/precious/keep/me.txt", "precious");
    const n = sim.int("w:steps", 2, 9);
    for (let i = 0; i < n && !sim.stopped; i++) {
      cwd = sim.pick("w:cwd", DIRS); gitBad = false; rmBad = new Set(); asked = 0; git.touched = null; const what = sim.pick("w:what", ["debug", "debug", "debug", "clean", "clean", "user"]); const homeBefore = snap("/home/u");
      if (what === "user") { // what users do to workspaces
        const names = disk.isDir(WS) ? disk.list(WS).filter((x) => disk.walk(`${WS}/${x}`, { follow: false }).node.type === "dir") : []; const w = names.length ? sim.pick("u:w", names) : null;
        switch (sim.pick("u:k", ["edit", "rmrf", "file", "link", "link-inside"])) {
          case "edit": if (w && disk.isDir(`${WS}/${w}/project-repo/src`)) { disk.put(`${WS}/${w}/project-repo/src/app.js`, "// edited\n"); sim.probe("user-edit"); } break;
          case "rmrf": if (w) { git.rm(`${WS}/${w}`); sim.probe("user-rmrf"); } break;
          case "file": disk.put(`${WS}/notes.txt`, "notes"); break;
          case "link": disk.mkdir(WS, { recursive: true }); if (!disk.exists(`${WS}/linked`)) { const x = disk.walk(`${WS}/linked`, { follow: false }); x.parent.children.set("linked", { type: "symlink", target: "/home/u/precious", mode: 0o777, ino: disk.ino++, mtimeMs: 0, birthtimeMs: 0 }); sim.probe("user-link"); } break;
          default: if (w) { const x = disk.walk(`${WS}/${w}/mylink`, { follow: false }); x.parent.children.set("mylink", { type: "symlink", target: "/home/u/precious", mode: 0o777, ino: disk.ino++, mtimeMs: 0, birthtimeMs: 0 }); }
        }
        continue;
      }
      if (what === "debug") {
        const name = sim.pick("w:name", NAMES); const kind = sim.pick("w:kind", ["diff", "diff", "one", "two"]); const d = sim.pick("w:d", ["d0", "d1"]); const ids = kind === "two" ? ["o0", "o1"] : [sim.pick("w:o", ["o0", "o1"])]; const head = kind === "diff" ? commits[`h${d[1]}`] : commits[ids[0]]; const before = new Set(disk.isDir(WS) ? disk.list(WS) : []);
        const { proc, cmds } = command(`debug${i}`); const c = kind === "diff" ? cmds["replay-diff"] : cmds.replay; const repo = git.repos.get("/home/u/app"); const dir0 = name && `${WS}/${name}`; const had = dir0 && disk.exists(`${dir0}/project-repo`) ? { tree: repo.trees.get(`${dir0}/project-repo`), dirty: disk.text(`${dir0}/project-repo/src/app.js`) !== `// ${repo.trees.get(`${dir0}/project-repo`)}\n`, of: git.of(`${dir0}/project-repo`)?.repo?.root } : null;
        let ended = null; const job = Promise.resolve(c.handler({ apiToken: "t", workspaceName: name, ...(kind === "diff" ? { replayDiffId: d } : { replayId: ids[0], baseReplayId: ids[1] }) })).then(() => (ended = "ok"), (e) => (ended = e)); await finish(proc, job);
        const good = proc.exitCode === undefined || proc.exitCode === null ? ended === "ok" : proc.exitCode === 0; const lines = proc.consoleLines.join("\n"); if (!good) { sim.check(p.on, `${K}.false-failure`, () => `debug failed though the service answered: ${ended?.stack ?? ended} ${lines.slice(-600)}`); sim.probe("debug-failed"); continue; }
        const dirs = disk.list(WS).filter((x) => !before.has(x) || x === name); const dir = `${WS}/${name ?? dirs.find((x) => !before.has(x))}`; if (!sim.check(disk.isDir(dir), `${K}.workspace`, () => `no workspace ${dir}: ${disk.list(WS)}`)) return;
        const ctx = JSON.parse(disk.text(`${dir}/debug-data/context.json`)); const wt = `${dir}/project-repo`; const claims = ctx.projectRepo !== undefined || /project-repo\//.test(lines.split("Contents:")[1] ?? ""); const at = git.of(wt); const sha = at?.top === wt ? at.repo.trees.get(wt) : undefined;
        sim.check((ctx.commitSha ?? undefined) === head, `${K}.commit`, () => `context.json names the commit ${ctx.commitSha} instead of ${head}`);
        if (claims) { sim.check(at?.repo === repo && sha === head && (disk.text(`${wt}/src/app.js`) === `// ${head}\n` || had?.dirty), `${K}.code`, () => `the workspace ${dir} is said to hold the code at ${head}, it holds ${sha} (${JSON.stringify(disk.text(`${wt}/src/app.js`))})`); sim.probe("code"); if (had) sim.probe("code-again"); }
        const could = haveGit && !gitBad && head !== undefined && cwd.startsWith("/home/u/app") && (repo.local.has(head) || repo.remote.has(head)) && !(had && (had.dirty || had.of !== "/home/u/app")) ; if (could) sim.check(claims, `${K}.no-code`, () => `the workspace ${dir} (made in ${cwd}) has no code though ${head} is available: ${lines.slice(-900)}`);
        if (cwd.startsWith("/home/u/other") && !had) sim.check(!claims, `${K}.code`, () => `code of another repository is taken for the project's`);
        if (had?.dirty && had.tree !== head) sim.check(disk.text(`${wt}/src/app.js`) === "// edited\n", `${K}.edits-lost`, () => `the user's edits in ${wt} are gone`);
        const b = (kind === "diff" ? baseSha[d] : undefined) ?? (head && baseOf(head)); const pr = disk.text(`${dir}/debug-data/pr-diff.txt`); if (pr !== undefined) { sim.check(head && pr === diffText(b, head), `${K}.diff`, () => `pr-diff.txt is ${JSON.stringify(pr)}, the diff of ${b}..${head} is ${JSON.stringify(head && diffText(b, head))}`); sim.probe("pr-diff"); }
        else if (claims && !gitBad && repo.local.has(b) && b !== head) sim.check(false, `${K}.no-diff`, () => `no pr-diff.txt for ${b}..${head}`);
        if (claims) made.set(dir, repo);
      } else {
        const exists = disk.isDir(WS); const isDir = (x) => disk.walk(`${WS}/${x}`, { follow: false }).node?.type === "dir"; const names = exists ? disk.list(WS).filter(isDir) : []; const rest = exists ? disk.list(WS).filter((x) => !isDir(x)) : [];
        const how = sim.pick("c:how", ["all", "all", "ask-all", "ask-no", "cancel", "select"]); const chosen = names.filter(() => sim.chance("c:sel", 0.5)); const pickChoice = (label) => (q) => { const c = q.choices.find((x) => label.test(x.name)); return c.value; };
        const chosenPaths = (q) => q.choices.filter((c) => chosen.some((x) => c.value === `${WS}/${x}` || c.value === x)).map((c) => c.value);
        answers = how === "all" ? [] : how === "cancel" ? [pickChoice(/cancel/i)] : how === "select" ? [pickChoice(/select/i), chosenPaths] : [pickChoice(/all/i), () => how === "ask-all"]; const want = new Set(how === "all" || how === "ask-all" ? names : how === "select" ? chosen : []);
        const intact = new Map(); for (const x of want) { const wt = `${WS}/${x}/project-repo`; const at = git.of(wt); if (at?.top === wt) intact.set(x, at.repo); } const snaps = new Map(names.map((x) => [x, snap(`${WS}/${x}`)])); const mineBefore = new Set(git.repos.get("/home/u/app").trees.keys());
        const { proc, cmds } = command(`clean${i}`); let ended = null; const job = Promise.resolve(cmds.clean.handler({ all: how === "all" })).then(() => (ended = "ok"), (e) => (ended = e)); await finish(proc, job);
        const lines = proc.consoleLines.join("\n"); sim.check(proc.exitCode == null ? ended === "ok" : proc.exitCode === 0, `${K}.false-failure`, () => `clean (${how}) failed: ${ended?.stack ?? ended} ${lines.slice(-500)}`); if (sim.stopped) return;
        const left = new Set(disk.isDir(WS) ? disk.list(WS) : []);
        for (const x of rest) sim.check(left.has(x), `${K}.deleted`, () => `clean deleted ${WS}/${x}, which is not a workspace`);
        for (const x of names) { if (!want.has(x)) sim.check(left.has(x) && same(snaps.get(x), snap(`${WS}/${x}`)), `${K}.deleted`, () => `clean (${how}) ${left.has(x) ? "changed" : "deleted"} ${x}, which was not chosen`); else if (!rmBad.has(x)) sim.check(!left.has(x), `${K}.kept`, () => `clean (${how}) left ${x} behind`); }
        const gone = names.filter((x) => !left.has(x)).length; const said = /Deleted (\d+) workspace/.exec(lines); sim.check(said ? Number(said[1]) === gone : gone === 0, `${K}.count`, () => `clean (${how}) deleted ${gone} workspaces and said ${said?.[0] ?? "nothing of it"}`); if ([...want].some((x) => left.has(x))) { sim.check([...want].every((x) => !left.has(x) || lines.includes(x)), `${K}.silent`, () => "a workspace that could not be deleted is not named"); sim.probe("undeletable"); }
        if (haveGit && !gitBad) for (const [x, r] of intact) if (!left.has(x)) { sim.check(!r.trees.has(`${WS}/${x}/project-repo`), `${K}.registered`, () => `${r.root} still lists the worktree of the deleted workspace ${x} (cleaned in ${cwd})`); sim.probe("unregistered"); }
        for (const t of mineBefore) if (!t.startsWith(WS)) sim.check(git.repos.get("/home/u/app").trees.has(t), `${K}.deleted`, () => `the user's own worktree ${t} is no longer listed`);
        sim.probe(`clean-${how}`); sim.probe("cleaned", gone);
      }
      if (sim.stopped) return;
      sim.check(!git.touched, `${K}.checkout`, () => `the user's own checkout was changed: ${git.touched}`); const homeAfter = snap("/home/u"); sim.check(same(homeBefore, homeAfter), `${K}.outside`, () => `files outside of the workspaces changed: ${[...homeBefore.keys()].filter((k) => !homeAfter.has(k))} ${[...homeAfter.keys()].filter((k) => !homeBefore.has(k))}`);
    }
  }, { maxTime: 6 * 3600e3, maxEvents: 200000 });
  if (!sim.stopped) sim.check(st === "done", `${K}.hang`, () => `never settled (${st})`);
  return { sample: { made: made.size } };
};
