// A model of git as the command line tool sees it: commits, branches, the
// index, the working tree, the remote, the user's git configuration, and a
// child_process through which all of it is asked and can fail.
import { createHash } from "node:crypto";
import util from "node:util";

const GEN = "gen/"; // a tracked directory of very many files, kept as one version
const GEN_N = 22000;
const genName = (i) => `${GEN}module-${String(i).padStart(6, "0")}/generated-by-the-build.ts`;
const lines = (s) => { const a = s.split("\n"); if (a.at(-1) === "") a.pop(); return a; };

/** longest common subsequence of two short lists of lines, as edit operations */
export const editScript = (a, b) => {
  const n = a.length, m = b.length; const t = Array.from({ length: n + 1 }, () => new Uint16Array(m + 1));
  for (let i = n - 1; i >= 0; i--) for (let j = m - 1; j >= 0; j--) t[i][j] = a[i] === b[j] ? t[i + 1][j + 1] + 1 : Math.max(t[i + 1][j], t[i][j + 1]);
  const ops = []; let i = 0, j = 0;
  while (i < n || j < m) { if (i < n && j < m && a[i] === b[j]) { ops.push([" ", i, j]); i++; j++; } else if (i < n && (j >= m || t[i + 1][j] >= t[i][j + 1])) { ops.push(["-", i, j]); i++; } else { ops.push(["+", i, j]); j++; } }
  return ops;
};
const fileDiff = (name, old, now, o) => {
  const A = old === undefined ? [] : lines(old), B = now === undefined ? [] : lines(now); const h = (s) => createHash("sha1").update(s ?? "").digest("hex").slice(0, 7);
  const [pa, pb] = o.noprefix ? ["", ""] : o.mnemonic ? ["c/", o.worktree ? "w/" : "c/"] : ["a/", "b/"];
  let out = `diff --git ${pa}${name} ${pb}${name}\n`; if (old === undefined) out += "new file mode 100644\n"; if (now === undefined) out += "deleted file mode 100644\n";
  out += `index ${old === undefined ? "0000000" : h(old)}..${now === undefined ? "0000000" : h(now)}${old !== undefined && now !== undefined ? " 100644" : ""}\n`;
  const ops = editScript(A.map((l, i) => (i === A.length - 1 && !old.endsWith("\n") ? `${l}\0` : l)), B.map((l, i) => (i === B.length - 1 && !now.endsWith("\n") ? `${l}\0` : l)));
  const changed = ops.map((p, k) => (p[0] === " " ? -1 : k)).filter((k) => k >= 0); if (!changed.length) return out;
  out += `--- ${old === undefined ? "/dev/null" : pa + name}\n+++ ${now === undefined ? "/dev/null" : pb + name}\n`;
  const ctx = o.context; let k = 0;
  while (k < changed.length) {
    let e = k; while (e + 1 < changed.length && changed[e + 1] - changed[e] <= 2 * ctx + 1 && (ctx > 0 || changed[e + 1] === changed[e] + 1)) e++;
    const from = Math.max(0, changed[k] - ctx), to = Math.min(ops.length - 1, changed[e] + ctx); const seg = ops.slice(from, to + 1);
    const oc = seg.filter((p) => p[0] !== "+").length, nc = seg.filter((p) => p[0] !== "-").length;
    const os = oc ? seg.find((p) => p[0] !== "+")[1] + 1 : seg[0][1], ns = nc ? seg.find((p) => p[0] !== "-")[2] + 1 : seg[0][2]; const r = (s, c) => (c === 1 ? `${s}` : `${s},${c}`);
    out += `@@ -${r(os, oc)} +${r(ns, nc)} @@\n`;
    for (const p of seg) { const fromB = p[0] === "+"; const idx = fromB ? p[2] : p[1]; const last = fromB ? idx === B.length - 1 && !now.endsWith("\n") : idx === A.length - 1 && !old.endsWith("\n"); out += `${p[0]}${fromB ? B[idx] : A[idx]}\n${last ? "\\ No newline at end of file\n" : ""}`; }
    k = e + 1;
  }
  return out;
};
const bigCache = new Map();
const genDiff = (v1, v2) => { const key = `${v1}>${v2}`; let s = bigCache.get(key); if (!s) { const p = []; for (let i = 0; i < GEN_N; i++) p.push(`diff --git a/${genName(i)} b/${genName(i)}\nindex 1..2 100644\n--- a/${genName(i)}\n+++ b/${genName(i)}\n@@ -1 +1 @@\n-${v1}\n+${v2}\n`); s = p.join(""); bigCache.clear(); bigCache.set(key, s); } return s; };
/** what `git diff` prints for two trees */
export const treeDiff = (a, b, o = {}) => {
  const opt = { context: 3, ...o }; let out = ""; const names = [...new Set([...a.keys(), ...b.keys()])].sort();
  for (const f of names) { if (a.get(f) === b.get(f) || (opt.under && !f.startsWith(opt.under))) continue; out += f === GEN ? genDiff(a.get(f), b.get(f)) : fileDiff(opt.under ? f.slice(opt.under.length) : f, a.get(f), b.get(f), opt); }
  return out;
};
const same = (a, b) => a.size === b.size && [...a].every(([k, v]) => b.get(k) === v);

export class Git {
  constructor(sim) { this.sim = sim; this.commits = new Map(); this.n = 0; this.branch = "main"; this.head = null; this.branches = new Map(); this.remote = new Map(); this.server = { branches: new Map(), head: "main" }; this.originHead = null; this.index = new Map(); this.work = new Map(); this.untracked = new Set(); this.massUntracked = false; this.cwd = ""; this.config = {}; this.exists = true; this.stashes = []; this.history = []; this.calls = []; }
  commit(tree, parents) { const sha = createHash("sha1").update(`${this.n++}`).digest("hex"); this.commits.set(sha, { tree: new Map(tree), parents }); return sha; }
  get headTree() { return this.commits.get(this.head).tree; }
  dirty() { return !same(this.index, this.headTree) || !same(this.work, this.index); }
  hasUntracked() { return this.untracked.size > 0 || this.massUntracked; }
  mark() { this.history.push({ t: this.sim.now, head: this.head, branch: this.branch, dirty: this.dirty(), untracked: this.hasUntracked(), work: new Map(this.work), remote: new Map(this.remote), originHead: this.originHead }); }
  ancestors(sha) { const out = []; const q = [sha]; const seen = new Set(); while (q.length) { const s = q.shift(); if (seen.has(s)) continue; seen.add(s); out.push(s); q.push(...(this.commits.get(s)?.parents ?? [])); } return out; }
  mergeBase(a, b) { const s = new Set(this.ancestors(a)); return this.ancestors(b).find((x) => s.has(x)) ?? null; }
  resolve(rev) { if (rev === "HEAD") return this.head; if (this.commits.has(rev)) return rev; const r = /^(?:refs\/remotes\/)?(origin\/.+)$/.exec(rev); if (r && this.remote.has(r[1])) return this.remote.get(r[1]); const h = /^(?:refs\/heads\/)?(.+)$/.exec(rev); if (h && this.branches.has(h[1])) return this.branches.get(h[1]); const hit = /^[0-9a-f]{7,}$/.test(rev) ? [...this.commits.keys()].filter((s) => s.startsWith(rev)) : []; return hit.length === 1 ? hit[0] : null; }
  fail(code, stderr) { return { code, out: "", err: stderr }; }
  run(argv, env = {}) {
    this.translated = this.config.locale && (env.LC_ALL ?? env.LC_MESSAGES ?? env.LANG) !== "C"; const a = [...argv]; const conf = { ...this.config };
    while (a[0]?.startsWith("-")) { const f = a.shift(); if (f === "-c") { const [k, v] = (a.shift() ?? "").split("="); const map = { "color.ui": "color", "color.diff": "color", "diff.external": "ext", "diff.noprefix": "noprefix", "diff.mnemonicprefix": "mnemonic", "diff.relative": "relative" }; const n = map[k.toLowerCase()]; if (n) conf[n] = n === "color" ? v === "always" : v === undefined || !["false", "no", "off", "0", ""].includes(v); } else if (f === "-C") a.shift(); else if (f !== "--no-pager" && f !== "--no-optional-locks" && f !== "--literal-pathspecs") return this.fail(129, `unknown option: ${f}`); }
    const cmd = a.shift(); if (!this.exists) return this.fail(128, this.translated ? "Schwerwiegend: Kein Git-Repository (oder irgendeines der Elternverzeichnisse): .git\n" : "fatal: not a git repository (or any of the parent directories): .git\n");
    const flags = a.filter((x) => x.startsWith("-") && x !== "--"); const dash = a.indexOf("--"); const revs = (dash < 0 ? a : a.slice(0, dash)).filter((x) => !x.startsWith("-")); const paths = dash < 0 ? [] : a.slice(dash + 1); const nl = flags.includes("-z") ? "\0" : "\n"; const ok = (out) => ({ code: 0, out, err: "" });
    const within = (f) => !paths.length || paths.some((p) => { if (p === ":/" || p === ":(top)") return true; const q = p.startsWith(":/") ? p.slice(2) : p.startsWith(":(top)") ? p.slice(6) : p === "." || p === "./" ? this.cwd : this.cwd + p.replace(/^\.\//, ""); return f === q || f.startsWith(q === "" || q.endsWith("/") ? q : `${q}/`); });
    const sub = { "rev-parse": () => {
      if (flags.includes("--git-dir")) return ok(".git\n"); if (flags.includes("--show-toplevel")) return ok("/work/repo\n"); if (flags.includes("--show-prefix")) return ok(`${this.cwd}\n`); if (flags.includes("--show-cdup")) return ok(`${"../".repeat(this.cwd.split("/").length - 1)}\n`); if (flags.includes("--is-inside-work-tree")) return ok("true\n"); if (flags.includes("--absolute-git-dir")) return ok("/work/repo/.git\n");
      const rev = revs[0] ?? "HEAD"; if (flags.includes("--abbrev-ref") && rev === "HEAD") return this.head ? ok(`${this.branch ?? "HEAD"}\n`) : this.fail(128, "fatal: ambiguous argument 'HEAD'"); const s = this.resolve(rev.replace(/\^\{commit\}$/, "")); if (!s) return this.fail(128, `fatal: ambiguous argument '${rev}': unknown revision\n`); return ok(`${flags.some((f) => /^--short/.test(f)) ? s.slice(0, 7) : s}\n`); },
      fetch: () => { for (const [b, s] of this.server.branches) this.remote.set(`origin/${b}`, s); this.mark(); return ok(""); },
      "symbolic-ref": () => { const r = revs[0]; if (/refs\/remotes\/origin\/HEAD/.test(r)) return this.originHead ? ok(`${flags.includes("--short") ? this.originHead : `refs/remotes/${this.originHead}`}\n`) : this.fail(128, `fatal: ref ${r} is not a symbolic ref\n`); if (r === "HEAD") return this.branch ? ok(`${flags.includes("--short") ? this.branch : `refs/heads/${this.branch}`}\n`) : this.fail(128, "fatal: ref HEAD is not a symbolic ref\n"); return this.fail(128, "fatal"); },
      branch: () => (flags.includes("--show-current") ? ok(`${this.branch ?? ""}\n`) : this.fail(129, "usage")),
      remote: () => (revs[0] === "show" ? ok(`* remote origin\n  Fetch URL: https://git.sim/x\n  ${this.translated ? "Hauptbranch" : "HEAD branch"}: ${this.server.head ?? (this.translated ? "(unbekannt)" : "(unknown)")}\n  Remote branches:\n${[...this.server.branches.keys()].map((b) => `    ${b} tracked\n`).join("")}`) : this.fail(2, "usage")),
      "merge-base": () => { const [x, y] = revs.map((r) => this.resolve(r)); if (!x || !y) return this.fail(128, `fatal: Not a valid object name ${revs[x ? 1 : 0]}\n`); const b = this.mergeBase(x, y); return b ? ok(`${b}\n`) : this.fail(1, ""); },
      status: () => { const none = flags.some((f) => /^(--untracked-files=no|-uno)$/.test(f)); let out = ""; const H = this.headTree; for (const f of [...new Set([...H.keys(), ...this.index.keys(), ...this.work.keys()])].sort().filter(within)) { const x = H.get(f) === this.index.get(f) ? " " : !H.has(f) ? "A" : !this.index.has(f) ? "D" : "M"; const y = this.index.get(f) === this.work.get(f) ? " " : !this.work.has(f) ? "D" : "M"; if (x === " " && y === " ") continue; if (f === GEN) { for (let i = 0; i < GEN_N; i++) out += `${x}${y} ${genName(i)}${nl}`; } else out += `${x}${y} ${f}${nl}`; } if (!none) out += this.others("").filter(within).map((f) => `?? ${f}${nl}`).join(""); return ok(out); },
      "ls-files": () => { if (!flags.includes("--others") && !flags.includes("-o")) return this.fail(1, "simulator: ls-files"); const top = flags.includes("--full-name"); const list = paths.length ? paths.flatMap((p) => (p === ":/" || p === ":(top)" ? this.others("") : p === "." ? this.others(this.cwd) : [])) : this.others(this.cwd); const ign = flags.includes("--exclude-standard") ? [] : ["dist/app.js"]; const rel = (f) => (top ? f : this.cwd && f.startsWith(this.cwd) ? f.slice(this.cwd.length) : `${"../".repeat(this.cwd.split("/").length - 1)}${f}`); return ok([...new Set([...list, ...ign])].map((f) => `${rel(f)}${nl}`).join("")); },
      diff: () => {
        let ctx = 3; for (const f of flags) { const m = /^(?:--unified=|-U)(\d+)$/.exec(f); if (m) ctx = Number(m[1]); }
        const names = flags.includes("--name-only"); let pair; const range = revs.length === 1 ? /^(.+?)(\.{2,3})(.*)$/.exec(revs[0]) : null;
        const cached = flags.includes("--cached") || flags.includes("--staged"); const T = (r) => { const s = this.resolve(r); return s && this.commits.get(s).tree; };
        if (range) { const x = this.resolve(range[1]), y = this.resolve(range[3] || "HEAD"); if (!x || !y) return this.fail(128, `fatal: bad revision '${revs[0]}'\n`); pair = [this.commits.get(range[2] === "..." ? this.mergeBase(x, y) ?? x : x).tree, this.commits.get(y).tree]; } else if (revs.length >= 2) pair = [T(revs[0]), T(revs[1])]; else if (revs.length === 1) pair = [T(revs[0]), cached ? this.index : this.work]; else pair = cached ? [this.headTree, this.index] : [this.index, this.work];
        if (!pair[0] || !pair[1]) return this.fail(128, `fatal: bad object ${revs.find((r) => !this.resolve(r))}\n`);
        if (paths.length) pair = pair.map((t) => new Map([...t].filter(([f]) => within(f))));
        if (flags.includes("--quiet") || flags.includes("--exit-code")) return { code: same(pair[0], pair[1]) ? 0 : 1, out: "", err: "" };
        if (names) return ok([...new Set([...pair[0].keys(), ...pair[1].keys()])].sort().filter((f) => pair[0].get(f) !== pair[1].get(f)).map((f) => `${f}${nl}`).join(""));
        const under = conf.relative && !flags.includes("--no-relative") && this.cwd ? this.cwd : flags.includes("--relative") ? this.cwd : ""; const plain = flags.some((f) => /^--(src|dst)-prefix=|^--default-prefix$/.test(f));
        let out = treeDiff(pair[0], pair[1], { context: ctx, noprefix: flags.includes("--no-prefix") || (conf.noprefix && !plain), mnemonic: conf.mnemonic && !plain, worktree: revs.length === 1 && !range, under });
        if (conf.ext && !flags.includes("--no-ext-diff")) out = out.replace(/^(diff --git|---|\+\+\+|@@).*\n/gm, "").replace(/^index .*\n/gm, "--- 1/2 --- TypeScript\n");
        if (conf.color && !flags.includes("--no-color") && !flags.includes("--color=never")) out = out.replace(/^(diff|index|---|\+\+\+)(.*)$/gm, "\u001b[1m$1$2\u001b[m").replace(/^(@@ .* @@)/gm, "\u001b[36m$1\u001b[m").replace(/^([-+])(?!\u001b)(.*)$/gm, (_, s, r) => `\u001b[${s === "-" ? 31 : 32}m${s}${r}\u001b[m`);
        return ok(out);
      },
      stash: () => { if (revs[0] !== "create") { this.sim.violate(`${this.sim.prop}/tree-changed`, `git stash ${a.join(" ")} changes the user's working tree`); return ok(""); } if (!this.dirty()) return ok(""); const idx = this.commit(this.index, [this.head]); const s = this.commit(this.work, [this.head, idx]); this.stashes.push(s); return ok(`${s}\n`); },
      show: () => { const s = this.resolve(revs[0]); return s ? ok("2026-01-01T00:00:00+00:00\n") : this.fail(128, "fatal: bad object\n"); },
      log: () => { const s = this.resolve(revs[0] ?? "HEAD"); return s ? ok(`${s}\n`) : this.fail(128, "fatal: bad object\n"); },
      version: () => ok("git version 2.43.0\n"),
    }[cmd];
    if (["commit", "add", "checkout", "reset", "clean", "switch", "restore", "merge", "rebase", "pull", "push", "gc"].includes(cmd)) { this.sim.violate(`${this.sim.prop}/tree-changed`, `ran git ${cmd} ${a.join(" ")} in the user's repository`); return ok(""); }
    return sub ? sub() : this.fail(1, `git: '${cmd}' is not a git command\n`);
  }
  others(under) { const out = [...this.untracked].filter((f) => f.startsWith(under)).sort(); if (this.massUntracked) for (let i = 0; i < GEN_N; i++) out.push(`${under}node_modules/dependency-${i}/dist/very/deep/index.js`); return out; }
}

/** a child_process whose only program is git; `faultFor(args)` decides what goes wrong */
export const gitChildProcess = (sim, git, procOf, faultFor, [lo, hi] = [2, 40]) => {
  const words = (s) => { const out = []; for (const m of s.matchAll(/"((?:[^"\\]|\\.)*)"|'([^']*)'|(\S+)/g)) out.push(m[1] ?? m[2] ?? m[3]); return out; };
  const start = (argv, shown, opts, cb) => {
    const proc = procOf(); const env = opts?.env ?? proc.G.process.env; const file = argv[0]; const args = argv.slice(1).filter((w) => !/^2>/.test(w)); const max = opts?.maxBuffer ?? 1024 * 1024; const call = { t: sim.now, args, fault: null, failed: false, end: null }; git.calls.push(call);
    sim.log(`git ${args.join(" ").slice(0, 120)}`);
    const finish = (err, out, stderr, delay) => proc.at(delay, () => { if (!proc.alive) return; call.end = sim.now; call.failed = !!err; cb?.(err, out, stderr); }, "child exits");
    const fail = (o) => Object.assign(new Error(`Command failed: ${shown}\n${o.stderr ?? ""}`), { killed: false, signal: null, cmd: shown, ...o });
    if (file !== "git") { finish(Object.assign(new Error(`spawn ${file} ENOENT`), { code: "ENOENT", syscall: `spawn ${file}` }), "", "", 1); return; }
    const f = faultFor(args); call.fault = f?.kind ?? null; if (f) sim.fault(`git-${f.kind}`); const lat = sim.latency("lat:git", lo, hi) + (f?.kind === "slow" ? f.delay : 0);
    if (f?.kind === "spawn") { finish(Object.assign(new Error(`spawn git ${f.code}`), { code: f.code, syscall: "spawn git", path: "git" }), "", "", 1); return; }
    if (f?.kind === "killed") { proc.at(lat, () => { const r = git.run(args, env); finish(fail({ killed: false, signal: "SIGKILL", code: null }), r.out.slice(0, r.out.length >> 1), "", 1); }, "git"); return; }
    if (f?.kind === "fail") { proc.at(lat, () => finish(fail({ code: f.code ?? 128, stderr: f.err }), "", f.err, 1), "git"); return; }
    proc.at(lat, () => {
      const r = git.run(args, env); const enc = opts?.encoding === "buffer" || opts?.encoding === null ? (s) => Buffer.from(s) : (s) => s;
      if (r.out.length > max) { call.overflow = true; return finish(Object.assign(new RangeError("stdout maxBuffer length exceeded"), { code: "ERR_CHILD_PROCESS_STDIO_MAXBUFFER", cmd: shown }), enc(r.out.slice(0, max)), "", 1); }
      finish(r.code ? fail({ code: r.code, stderr: r.err }) : null, enc(r.out), enc(r.err), 1);
    }, "git");
  };
  const child = { stdout: null, stderr: null, on() { return child; }, once() { return child; }, unref() {}, kill() {} };
  const exec = (cmd, o, cb) => { start(words(cmd), cmd, typeof o === "function" ? {} : o, typeof o === "function" ? o : cb); return child; };
  const execFile = (file, args, o, cb) => { const list = Array.isArray(args) ? args : []; const rest = Array.isArray(args) ? [o, cb] : [args, o]; const opts = typeof rest[0] === "object" && rest[0] ? rest[0] : {}; const f = rest.find((x) => typeof x === "function"); start([file, ...list], [file, ...list].join(" "), opts, f); return child; };
  const promisified = (fn) => (...a) => new Promise((res, rej) => fn(...a, (e, stdout, stderr) => (e ? rej(Object.assign(e, { stdout, stderr })) : res({ stdout, stderr }))));
  exec[util.promisify.custom] = promisified(exec); execFile[util.promisify.custom] = promisified((f, a, o, cb) => (typeof o === "function" ? execFile(f, a, {}, o) : execFile(f, a, o, cb)));
  return { exec, execFile };
};
