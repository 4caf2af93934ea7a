// Harness for `meticulous onboard`: the real command on a simulated disk that
// holds a possibly hostile repository, with simulated git, npm, skills
// installer and agents, disk faults and crashes.
import fs from "node:fs";
import path from "node:path";
import { bundle, REPO } from "../../sim/bundle.mjs";
import { Disk } from "../../sim/fs.mjs";
import { realPackages } from "../../sim/npm.mjs";
import { mkProc } from "./downloads.mjs";
import { parseToml } from "./toml.mjs";

export const ONBOARD_META = {
  real: ["packages/cli/src/commands/onboard/*.ts", "packages/cli/src/command-utils/sentry.utils.ts", "packages/client/src (API client, token resolution)", "packages/common/src"],
  stubs: ["git, which, npm, the skills installer and the agents: models acting on the simulated disk", "API service: model", "templates: small stand-ins of every listed file", "fs, fetch: simulated", "inquirer, chalk, loglevel, @sentry/node: trivial"],
  assumptions: ["nobody but the installer changes the repository while onboarding runs", "removing the temporary directory does not fail"],
};
export const DIST = "/opt/meticulous/dist/commands/onboard"; const SRC = "packages/cli/src/commands/onboard";
let built; let lists;
const loadLists = () => (lists ??= { agents: JSON.parse(fs.readFileSync(`${REPO}/${SRC}/customer-agents.json`, "utf8")).customerAgentNames, docs: JSON.parse(fs.readFileSync(`${REPO}/${SRC}/customer-docs.json`, "utf8")) });
export const buildOnboardBundle = async () => (built ??= { cli: (await bundle({ ob: `${SRC}/index.ts` }, { real: realPackages(), define: { __dirname: JSON.stringify(DIST) } })).code });

const URL_ = "https://app.meticulous.ai/api/mcp";
const CANON = { ".mcp.json": { type: "http", url: URL_ }, ".cursor/mcp.json": { url: URL_ } };
const W = ".meticulous-onboard";
const SKILL_DIRS = [".claude/skills", ".agents/skills", ".cursor/skills"];
const TOUCHED = [W, ".gitignore", ".claude", ".claude/skills", ".agents", ".agents/skills", ".cursor", ".cursor/skills", ".cursor/mcp.json", ".codex", ".codex/config.toml", ".mcp.json", "skills-lock.json", ...SKILL_DIRS.flatMap((d) => [`${d}/met`, `${d}/met/SKILL.md`, `${d}/other`, `${d}/met/refs/deep`]), ...["", "/.gitignore", "/onboard-context.json", "/.claude", "/.claude/CLAUDE.md", "/.claude/settings.json", "/.claude/onboard-context.json", "/.claude/agents", "/.claude/agents/reviewer.md", "/.claude/docs", "/.claude/docs/ci", "/.claude/docs/ci.ts", "/.claude/docs/how-to", "/.claude/docs/recorder-snippets", "/.claude/docs/recorder-snippets/next.ts"].map((x) => W + x)];
const OURS = (p) => p === ".gitignore" || p === ".mcp.json" || p === "skills-lock.json" || p === ".cursor/mcp.json" || p === ".codex/config.toml" || [W, ...SKILL_DIRS].some((d) => p === d || p.startsWith(`${d}/`)) || [".claude/", ".agents/", ".cursor/", ".codex/", ...SKILL_DIRS.map((d) => d + "/"), W + "/"].includes(p);
const eq = (a, b) => JSON.stringify(sortKeys(a)) === JSON.stringify(sortKeys(b));
const sortKeys = (v) => (Array.isArray(v) ? v.map(sortKeys) : v && typeof v === "object" ? Object.keys(v).sort().map((k) => [k, sortKeys(v[k])]) : v);

// ---- generated configurations
const jsonConfig = (sim, file) => {
  const kind = sim.pick("j:kind", ["none", "none", "ok", "ok", "ok", "invalid", "shape", "servers"]);
  if (kind === "none") return null;
  if (kind === "invalid") return { text: sim.pick("j:inv", ["", "{", '{"mcpServers": {},}', "// mine\n{}", "not json", '{"a":1} {"b":2}']), refuse: true };
  if (kind === "shape") return { text: sim.pick("j:sh", ["[]", "null", '"x"', "3", '[{"mcpServers":{}}]', "true"]), refuse: true };
  if (kind === "servers") return { text: JSON.stringify({ keep: 1, mcpServers: sim.pick("j:sv", [null, [], "x", 7, false]) }), refuse: true };
  const c = CANON[file]; const o = {};
  if (sim.chance("j:top", 0.5)) o.inputs = [{ id: "k", type: "promptString" }];
  if (sim.chance("j:has", 0.8)) {
    o.mcpServers = {}; if (sim.chance("j:o1", 0.6)) o.mcpServers.Other = { command: "npx", args: ["-y", "x"], env: { K: "v" } };
    const m = sim.pick("j:met", ["no", "no", "canon", "canon", "extra", "command", "url", "array", "string", "null", "type", "nested"]);
    const v = { canon: { ...c }, extra: { ...c, env: {} }, command: { command: "evil", args: ["x"], ...c }, url: { ...c, url: "https://evil.sim/mcp" }, array: [c], string: URL_, null: null, type: { ...c, type: "stdio" }, nested: { ...c, url: { v: URL_ } } }[m];
    if (v !== undefined) o.mcpServers.Meticulous = v;
    if (sim.chance("j:o2", 0.3)) o.mcpServers.meticulous = { command: "mine" };
  }
  if (sim.chance("j:top2", 0.3)) o["$schema"] = "https://x";
  return { text: JSON.stringify(o, null, sim.pick("j:ind", [0, 2, 4])) + (sim.chance("j:nl", 0.5) ? "\n" : ""), value: o, refuse: false };
};
const tomlConfig = (sim) => {
  if (sim.chance("t:none", 0.3)) return null;
  const nl = sim.pick("t:nl", ["\n", "\n", "\n", "\r\n"]); const M = () => sim.pick("t:name", ["[mcp_servers.Meticulous]", "[mcp_servers.Meticulous]", "[mcp_servers.Meticulous] # ours", "[ mcp_servers . Meticulous ]", '[mcp_servers."Meticulous"]', "['mcp_servers'.'Meticulous']", '["mcp_servers"."Metic\\u0075lous"]', "\t[mcp_servers.Meticulous]", "[mcp_servers.'Meticulous'.env]", "[mcp_servers.Meticulous.env.deep]"]);
  const root = [], tables = []; const put = (a, text, o = {}) => a.push({ text: text.split("\n").join(nl) + nl, ...o });
  if (sim.chance("t:r1", 0.6)) put(root, 'model = "gpt-5" # best');
  if (sim.chance("t:r2", 0.4)) put(root, sim.pick("t:r2k", ['notify = [\n  "notify-send",\n  "x", # why\n]', 'matrix = [\n  ["a", "b"],\n  ["c"]\n]', "pairs = [ [1, 2],\n[3] ]"]));
  if (sim.chance("t:r3", 0.4)) put(root, sim.pick("t:r3k", ['note = """\nfirst\nsecond = 1\n"""', 'note = """\n[section]\nvalue = 1\n"""', "note = '''\n[mcp_servers.Meticulous]\nurl = \"elsewhere\"\n'''", 'note = """\nmcp_servers = 1\n"""', 'note = """one \\"""\n[mcp_servers.Meticulous]\n"""', 'note = "has # and [x] and \\" in it"']));
  if (sim.chance("t:r4", 0.3)) put(root, "# [mcp_servers.Meticulous]\n# command = \"x\"");
  if (sim.chance("t:r5", 0.15)) put(root, 'mcp_servers.Third.command = "c"');
  if (sim.chance("t:t1", 0.5)) put(tables, '[mcp_servers.Other]\ncommand = "npx"\nargs = [\n  "-y",\n  "other",\n]\n\n[mcp_servers.Other.env]\nKEY = "v"');
  if (sim.chance("t:t2", 0.4)) put(tables, '[profiles.fast]\nmodel = "o3"\nmcp_servers = "not these"');
  if (sim.chance("t:t3", 0.2)) put(tables, '[[hooks]]\nname = "a"\n\n[[hooks]]\nname = "b"');
  if (sim.chance("t:t4", 0.3)) put(tables, '[mcp_servers.meticulous]\ncommand = "mine"');
  if (sim.chance("t:t5", 0.2)) put(tables, '[tools]\ndoc = """\n[mcp_servers.Meticulous]\ncommand = "shown"\n"""\nlast = true');
  const others = tables.length + root.length;
  const kind = sim.pick("t:met", ["no", "canon", "canon", "poison", "poison", "dup", "many", "dotted", "inline", "dottedIn", "closed", "arrayOf"]); let block = false;
  const ins = (a, text, o = {}) => { const x = { text: text.split("\n").join(nl) + nl, meti: true, ...o }; a.splice(sim.int("t:at", 0, a.length), 0, x); };
  const body = () => sim.pick("t:body", [`url = "${URL_}"`, `url = '${URL_}'`, `url = "https://evil.sim"`, `command = "evil"\nargs = [\n  "a",\n  "b"\n]`, `url = "${URL_}"\ncommand = "evil"`, "", `# url = "${URL_}"`, `note = """\nx\n"""\ncommand = "evil"`, `args = [\n  ["evil"]\n]\ncommand = "e"`]);
  if (kind === "canon") ins(tables, `[mcp_servers.Meticulous]\nurl = "${URL_}"\n`, { canon: true });
  if (kind === "poison") ins(tables, `${M()}\n${body()}\n`);
  if (kind === "dup") { ins(tables, `[mcp_servers.Meticulous]\nurl = "${URL_}"\n`); ins(tables, `${M()}\n${body()}\n`); }
  if (kind === "many") for (let k = sim.int("t:many", 2, 4); k > 0; k--) ins(tables, `${M()}\n${body()}\n`);
  if (kind === "arrayOf") ins(tables, `[[mcp_servers.Meticulous]]\n${body()}\n`);
  if (kind === "dotted") { block = true; ins(root, sim.pick("t:dot", ['mcp_servers.Meticulous.command = "evil"', '"mcp_servers" . Meticulous = { command = "evil" }', "mcp_servers.'Meticulous'.args = [\n \"x\"\n]"])); }
  if (kind === "inline") { block = true; ins(tables, `[mcp_servers]\nMeticulous = { command = "evil", args = ["x"] }`); }
  if (kind === "dottedIn") { block = true; ins(tables, `[mcp_servers]\nMeticulous.command = "evil"`); }
  if (kind === "closed") { block = true; ins(root, sim.pick("t:cl", ['mcp_servers = { Other2 = { command = "x" } }', 'mcp_servers = 3', '"mcp_servers" = {}'])); }
  const all = [...root, ...tables]; let text = all.map((p) => p.text).join(sim.chance("t:gap", 0.5) ? nl : "");
  if (sim.chance("t:trim", 0.3)) text = text.replace(/\r?\n$/, "");
  if (block && kind !== "closed") { /* the user's other settings stay valid */ }
  let value; try { value = parseToml(all.filter((p) => !p.meti).map((p) => p.text).join("")); } catch (e) { throw new Error(`harness: ${e.message}`); }
  const metis = all.filter((p) => p.meti); const canonical = metis.length === 1 && metis[0].canon;
  return { text, value, refuse: block, kind, others, canonical };
};

export const seedTemplates = (disk) => {
  const L = loadLists(); const T = `${DIST}/templates`;
  disk.put(`${T}/CLAUDE.md`, "# workflow\n"); disk.put(`${T}/settings.json`, '{"permissions":{}}\n');
  for (const a of L.agents) disk.put(`${T}/agents/${a}.md`, `agent ${a}\n`);
  for (const d of L.docs.docFiles) disk.put(`${T}/docs/${d}`, `export const doc = "doc ${d}";\n`);
  for (const d of L.docs.docDirs) { disk.put(`${T}/docs/${d}/next.ts`, "next\n"); disk.put(`${T}/docs/${d}/deep/vite.ts`, "vite\n"); }
  disk.mkdir(`${T}/docs-imports`, { recursive: true });
};
const expectedWorkspace = () => {
  const L = loadLists(); const out = new Map([[".claude/CLAUDE.md", "# workflow\n"], [".claude/settings.json", '{"permissions":{}}\n'], [".gitignore", "*\n"]]);
  for (const a of L.agents) out.set(`.claude/agents/${a}.md`, `agent ${a}\n`);
  for (const d of L.docs.docFiles) out.set(`.claude/docs/${d}`, `export const doc = "doc ${d}";\n`);
  for (const d of L.docs.docDirs) { out.set(`.claude/docs/${d}/next.ts`, "next\n"); out.set(`.claude/docs/${d}/deep/vite.ts`, "vite\n"); }
  return out;
};

// what each property is about
const CONTAIN = new Set(["outside", "foreign", "ran-repository-code", "unpinned", "scripts", "prefix", "temp-left", "credentials", "app", "link-replaced", "link-accepted"]);

export const runOnboard = async (sim, { scripts }, focus) => {
  const K = (k) => `${CONTAIN.has(k) ? "O01" : k === "hang" ? sim.prop : "O02"}/${k}`; const disk = new Disk(sim); sim.drainTurns = 10;
  const HOME = "/home/u"; const ROOT = `${HOME}/repo`; const link = (p, t) => { disk.mkdir(path.posix.dirname(p), { recursive: true }); const w = disk.walk(p, { follow: false }); w.parent.children.set(w.name, { type: "symlink", target: t, mode: 0o777, ino: disk.ino++, mtimeMs: 0, birthtimeMs: 0 }); };
  seedTemplates(disk); disk.put("/usr/bin/npm", "system"); disk.put("/usr/bin/node", "system"); disk.put("/usr/bin/git", "system"); disk.mkdir("/tmp", { recursive: true }); disk.put("/tmp/meticulous-skills-cli-old/keep", "x");
  disk.put(`${HOME}/.ssh/authorized_keys`, "ssh-rsa mine\n"); disk.put(`${HOME}/.ssh/config`, "Host x\n"); disk.put(`${HOME}/.bashrc`, "export A=1\n"); disk.put(`${HOME}/.claude/skills/own/SKILL.md`, "own\n"); disk.put(`${HOME}/.cursor/mcp.json`, '{"mcpServers":{}}\n'); disk.put(`${HOME}/victim/package.json`, '{"name":"victim","dependencies":{"react":"1"},"scripts":{"dev":"vite"}}'); disk.put(`${HOME}/victim/index.html`, "<p>"); disk.put(`${HOME}/repo2/package.json`, "{}"); disk.mkdir("/data", { recursive: true });
  // ---- the repository
  const mono = sim.chance("w:mono", 0.4); const apps = [];
  disk.mkdir(`${ROOT}/.git`, { recursive: true }); disk.put(`${ROOT}/src/main.ts`, "main\n"); disk.put(`${ROOT}/README.md`, "readme\n");
  if (mono) { disk.put(`${ROOT}/pnpm-workspace.yaml`, "packages: ['apps/*']\n"); disk.put(`${ROOT}/package.json`, '{"name":"root"}'); for (const a of ["web", "admin"]) { disk.put(`${ROOT}/apps/${a}/package.json`, `{"name":"@x/${a}","dependencies":{"react":"1"},"scripts":{"dev":"vite"}}`); disk.put(`${ROOT}/apps/${a}/index.html`, "<p>"); apps.push(`apps/${a}`); } } else { disk.put(`${ROOT}/package.json`, '{"name":"app","dependencies":{"react":"1"}}'); disk.put(`${ROOT}/index.html`, "<p>"); apps.push("."); }
  let evilApp = null; if (mono && sim.chance("w:evilApp", 0.3)) { evilApp = sim.pick("w:evilAppK", ["apps/victim", "projects/victim", "apps/web2"]); if (evilApp.startsWith("projects")) link(`${ROOT}/projects`, HOME); else link(`${ROOT}/${evilApp}`, evilApp === "apps/web2" ? "../../victim" : `${HOME}/victim`); }
  const gi = sim.pick("w:gi", [null, "", "node_modules\n", "dist\nnode_modules", `${W}/\n`, `  ${W}  \n*.log\n`, "a\r\nb\r\n", `# ${W}/\nx\n`, `${W}-old/\n!keep\n`]); if (gi !== null) disk.put(`${ROOT}/.gitignore`, gi);
  const conf = { ".mcp.json": jsonConfig(sim, ".mcp.json"), ".cursor/mcp.json": jsonConfig(sim, ".cursor/mcp.json"), ".codex/config.toml": tomlConfig(sim) };
  if (focus === "contain") for (const f of Object.keys(conf)) if (conf[f]?.refuse && sim.chance("w:mergeable", 0.8)) conf[f] = null;
  for (const [f, c] of Object.entries(conf)) if (c) disk.put(`${ROOT}/${f}`, c.text, 0o644);
  if (sim.chance("w:had", 0.3)) { disk.put(`${ROOT}/.claude/settings.json`, "{}\n"); disk.put(`${ROOT}/.claude/skills/mine/SKILL.md`, "mine\n"); }
  if (sim.chance("w:oldws", 0.2)) { disk.put(`${ROOT}/${W}/onboard-context.json`, "{old"); disk.put(`${ROOT}/${W}/meticulous-side-setup.md`, "from before\n"); }
  // harmless links stay harmless
  if (sim.chance("w:okLink", 0.3)) { link(`${ROOT}/docs`, "../victim"); link(`${ROOT}/.claude/commands`, `${HOME}/.claude`); }
  const links = []; const nLinks = focus === "contain" ? sim.pick("w:links", [0, 0, 1, 1, 2]) : sim.pick("w:links", [0, 0, 0, 0, 1]);
  const putLink = (p, what) => { const full = `${ROOT}/${p}`; try { const w = disk.walk(full, { follow: false }); if (w.node?.type === "dir") return null; } catch { /* parent missing */ } try { link(full, sim.pick("w:lt", [`${HOME}/.ssh`, `${HOME}/.ssh/authorized_keys`, `${HOME}/.bashrc`, `${HOME}/victim`, `${HOME}/nothing-here`, "../victim", "../../u/.ssh/config", `${ROOT}/src`, "src/main.ts", `${HOME}/.claude`, `${ROOT}/README.md`, `${HOME}/repo2`])); } catch { return null; } const l = { p, what }; links.push(l); sim.fault(`symlink-${what}`); return l; };
  // a link below another link would be created through it, outside of the repository
  for (let k = 0; k < nLinks; k++) { const p = sim.pick("w:lp", TOUCHED); if (links.some((l) => p.startsWith(`${l.p}/`) || l.p.startsWith(`${p}/`) || l.p === p)) continue; putLink(p, "in-repository"); }
  for (const f of Object.keys(conf)) if (links.some((l) => f === l.p || f.startsWith(`${l.p}/`))) conf[f] = { linked: true };
  const inTheWay = !links.length && sim.chance("w:file", 0.05) ? sim.pick("w:filep", [".claude", ".agents", ".codex", `${W}`, ".cursor/skills", `${W}/.claude/agents`]) : null; if (inTheWay && !disk.exists(`${ROOT}/${inTheWay}`)) { disk.put(`${ROOT}/${inTheWay}`, "a file\n"); sim.fault("file-in-the-way"); }
  // hostile tooling
  const evil = `evil`; const hostile = sim.chance("w:hostile", focus === "contain" ? 0.6 : 0.2);
  if (hostile) { for (const b of ["npm", "node", "skills", "git", "npx"]) disk.put(`${ROOT}/node_modules/.bin/${b}`, evil); disk.put(`${ROOT}/apps/web/node_modules/.bin/npm`, evil); disk.put(`${ROOT}/git`, evil); disk.put(`${ROOT}/npm`, evil); disk.put(`${ROOT}/.npmrc`, "registry=http://evil.sim\n"); disk.put(`${ROOT}/node_modules/skills/bin/cli.mjs`, evil); disk.put(`${ROOT}/hook.js`, evil); }
  const env = { METICULOUS_DIR: "/data", METICULOUS_IS_CLOUD_REPLAY: "true", HOME, PATH: "/usr/local/bin:/usr/bin:/bin", ...(sim.chance("w:ci", 0.5) ? { CI: "1" } : {}) };
  if (sim.chance("w:npmRun", hostile ? 0.7 : 0.2)) { env.PATH = sim.pick("w:path", [`${ROOT}/node_modules/.bin:${env.PATH}`, `${ROOT}/apps/web/node_modules/.bin/:${ROOT}/node_modules/.bin:${env.PATH}`, `:${env.PATH}`, `${env.PATH}:`, `node_modules/.bin:${env.PATH}`, ` ${ROOT}/node_modules/.bin:${env.PATH}`]); if (sim.chance("w:cfg", 0.7)) env[sim.pick("w:cfgk", ["npm_config_registry", "NPM_CONFIG_REGISTRY", "Npm_Config_Registry"])] = "http://evil.sim"; if (sim.chance("w:uc", 0.3)) env.npm_config_userconfig = `${ROOT}/.npmrc`; if (sim.chance("w:no", 0.4)) env.NODE_OPTIONS = "--require ./hook.js"; if (sim.chance("w:np", 0.4)) env.NODE_PATH = `${ROOT}/node_modules`; }
  const creds = sim.chance("w:creds", 0.5); const remote = sim.pick("w:remote", [null, `https://${creds ? "bot:ghp_TOKEN@" : ""}github.com/acme/app.git`, "git@github.com:acme/app.git", `https://${creds ? "oauth2:ghp_TOKEN@" : ""}gitlab.com/acme/app.git`, `https://${creds ? "ghp_TOKEN@" : ""}bitbucket.org/acme/app`, `ssh://git${creds ? ":ghp_TOKEN" : ""}@host.sim:22/acme/app.git`]);
  if (sim.chance("w:rootLink", 0.15)) link(`${HOME}/via-link`, "repo"); const viaLink = disk.exists(`${HOME}/via-link`);
  // ---- what is compared
  const outside = () => { const t = disk.tree("/", { dirs: true }); const out = new Map(); for (const [k, v] of t) if (!k.startsWith("home/u/repo/") && !k.startsWith("data/") && !/^tmp\/meticulous-skills-cli-(?!old)/.test(k)) out.set(k, v); return out; };
  const inside = () => { const out = new Map(); for (const [k, v] of disk.tree(ROOT, { dirs: true })) if (!OURS(k)) out.set(k, v); return out; };
  const out0 = outside(), in0 = inside(); const diff = (a, b) => { const d = []; for (const [k, v] of b) { if (!a.has(k)) d.push(`+${k}`); else if (v && !a.get(k)?.equals(v)) d.push(`~${k}`); } for (const k of a.keys()) if (!b.has(k)) d.push(`-${k}`); return d; };
  let dirty = false; const evilRuns = []; const world = { n: 0 };
  const contained = (when, dirty) => { const d = diff(out0, outside()); sim.check(!d.length, K("outside"), () => `${when}: changed outside of the repository: ${d.slice(0, 4)}`); const e = diff(in0, inside()).filter((k) => !links.some((l) => k.slice(1) === l.p) && !(dirty && /^\+(\.mcp\.json|\.gitignore|\.cursor\/mcp\.json|\.codex\/config\.toml)\.[^/]*$/.test(k))); sim.check(!e.length, K("foreign"), () => `${when}: changed files of the repository that are not part of onboarding: ${e.slice(0, 4)}`); sim.check(!evilRuns.length, K("ran-repository-code"), () => `${when}: ${evilRuns[0]}`); };
  // ---- one run
  const once = async (n, { calm }) => {
    const r = { n, calm, faults: 0, launched: [], installer: null, planted: null, crashed: false }; world.n = n;
    const pFs = !calm && sim.chance("f:fs?", 0.3) ? sim.pick("f:fsp", [0.005, 0.02, 0.1]) : 0; const crashAt = !calm && sim.chance("f:crash?", 0.25) ? sim.int("f:crash", 0, 140) : -1; let steps = 0;
    const only = sim.pick("f:where", ["any", "config", "config"]);
    const api = sim.pick("w:api", ["ok", "ok", "ok", "500", "404", "refuse"]); const installed = { claude: sim.chance("w:claude", 0.7), codex: sim.chance("w:codex", 0.5) };
    const bin = (name, PATH, cwd) => { for (const e of (PATH ?? "").split(":")) { const d = e === "" ? cwd : path.posix.resolve(cwd, e); const f = disk.lookup(`${d}/${name}`); if (f?.type === "file") return f.data.toString(); } return null; };
    const envEvil = (e) => (e.NODE_OPTIONS?.includes("hook.js") ? "NODE_OPTIONS loads the repository's hook" : e.NODE_PATH?.includes(ROOT) ? "NODE_PATH points into the repository" : null);
    const npmInstall = (args, o) => {
      const e = o.env ?? proc.G.process.env; const cwd = o.cwd ?? (viaLink ? HOME : ROOT); const b = bin("npm", e.PATH, cwd); if (b === evil) evilRuns.push("npm was taken from the repository"); if (b === null) return { error: Object.assign(new Error("spawnSync npm ENOENT"), { code: "ENOENT" }), status: null, stdout: "", stderr: "" };
      const bad = envEvil(e); if (bad) evilRuns.push(`npm: ${bad}`); const realCwd = disk.exists(cwd) ? disk.walk(cwd).real : cwd;
      const reg = Object.keys(e).some((k) => k.toLowerCase() === "npm_config_registry") ? "evil" : Object.keys(e).some((k) => k.toLowerCase() === "npm_config_userconfig" && String(e[k]).includes(ROOT)) ? "evil" : (realCwd === ROOT || realCwd.startsWith(`${ROOT}/`)) && disk.exists(`${ROOT}/.npmrc`) ? "evil" : "trusted";
      const prefix = args[args.indexOf("--prefix") + 1]; const spec = args.find((a) => /^skills(@|$)/.test(a)); if (!/^skills@\d+\.\d+\.\d+$/.test(spec ?? "")) sim.violate(K("unpinned"), `the skills installer is requested as ${spec}`); if (!args.includes("--ignore-scripts")) sim.violate(K("scripts"), "the installer's package scripts were not disabled");
      const at = args.includes("--prefix") ? prefix : realCwd; if (at === ROOT || at.startsWith(`${ROOT}/`)) sim.violate(K("prefix"), `the installer was downloaded into ${at}`);
      const m = sim.pick("w:npm", ["ok", "ok", "ok", "ok", "fail", "missing", "partial"]); r.npm = m; if (m !== "ok") sim.fault(`npm-${m}`);
      if (m === "ok" || m === "partial") disk.put(`${at}/node_modules/skills/bin/cli.mjs`, reg === "evil" ? evil : "trusted"); else disk.put(`${at}/package.json`, "{}");
      return { status: m === "fail" || m === "partial" ? 1 : 0, stdout: "", stderr: m === "fail" ? "npm ERR! network" : "" };
    };
    const runInstaller = (entry, args, o) => {
      r.installer = "ran"; const code = disk.text(entry); if (code === undefined) return { error: new Error("ENOENT"), status: null }; if (code !== "trusted") evilRuns.push(`the skills installer run was ${entry} from ${code}`); const bad = envEvil(o.env ?? proc.G.process.env); if (bad) evilRuns.push(`installer: ${bad}`);
      if (bin("git", (o.env ?? proc.G.process.env).PATH, o.cwd) === evil) evilRuns.push("the installer's git was taken from the repository");
      const cwd = disk.walk(o.cwd).real; const m = sim.pick("w:inst", ["ok", "ok", "ok", "ok", "fail", "partial", "signal"]); r.installer = m; if (m !== "ok") sim.fault(`installer-${m}`);
      try { let k = 0; const stop = m === "ok" ? 99 : sim.int("w:instAt", 0, 6); for (const d of SKILL_DIRS) for (const s of ["met", "other"]) { if (k++ >= stop) break; disk.put(`${cwd}/${d}/${s}/SKILL.md`, `skill ${s}\n`); } if (m === "ok") disk.put(`${cwd}/skills-lock.json`, '{"version":1}\n'); } catch (e) { r.installer = "fail"; return { status: 1 }; }
      if (!calm && focus === "contain" && sim.chance("f:plant", m === "ok" ? 0.3 : 0.6)) {
        // the installer leaves a link: mostly among the skills, where it may write
        const inSkills = sim.chance("f:plantIn", 0.6); const p = inSkills ? `${sim.pick("f:plantD", SKILL_DIRS)}/${sim.pick("f:plantN", ["new", "met/SKILL.md", "met/more", "planted/deep/link", "planted/a/b/c/d", "other"])}` : sim.pick("f:plantAt", TOUCHED); const full = `${ROOT}/${p}`;
        try { let w = null; try { w = disk.walk(full, { follow: false }); } catch { /* its directory is missing */ } if (w?.node) { if (w.node.type !== "dir") disk.unlink(full); else if (inSkills || SKILL_DIRS.includes(p) || p === ".codex") w.parent.children.delete(w.name); } r.planted = putLink(p, "planted-during-install"); } catch { /* not there */ }
        if (r.planted) r.plantedAt = p;
      }
      return { status: m === "ok" ? 0 : m === "signal" ? null : 1 };
    };
    const cp = {
      execSync: (cmd, o = {}) => { if (/^git rev-parse/.test(cmd)) return Buffer.from("true\n"); if (/^git remote get-url/.test(cmd)) { if (!remote) throw new Error("no remote"); return `${remote}\n`; } const w = /^which (\w+)/.exec(cmd); if (w) { if (installed[w[1]]) return Buffer.from(`/usr/bin/${w[1]}`); throw new Error("not found"); } throw new Error(`simulator: execSync ${cmd}`); },
      spawnSync: (file, args, o = {}) => { if (!proc.alive) return {}; sim.log(`${proc.name} spawn ${file} ${args.filter((a) => a.length < 60).join(" ").slice(0, 200)}`); if (file === "npm") return npmInstall(args, o); if (file === "npx" || file === "skills") { evilRuns.push(`${file} was run with the repository's packages in reach`); return { status: 1 }; } if (file === proc.G.process.execPath || file === "node") return runInstaller(args[0], args.slice(1), o); if (file === "claude" || file === "codex") { const st = sim.pick("w:agent", [0, 0, 0, 1, 3, null, "error"]); r.launched.push({ file, args, cwd: o.cwd, st }); return st === "error" ? { error: new Error("spawn failed"), status: null } : { status: st }; } throw new Error(`simulator: spawnSync ${file}`); },
    };
    const proc = mkProc(sim, disk, `onboard${n}`, { apiFault: () => (api === "refuse" ? { kind: "refuse" } : null), handle: (info) => { if (api === "500") return { status: 500, headers: { "content-type": "application/json" }, body: "{}" }; if (/token-info/.test(info.path) && api === "ok") return { status: 200, headers: { "content-type": "application/json" }, body: JSON.stringify({ id: "p1", name: "proj", organization: { id: "o", name: "acme" }, isGitHubIntegrationActive: true }) }; return { status: 404, headers: { "content-type": "application/json" }, body: '{"error":"Not Found","message":"no"}' }; } },
      { cwd: viaLink ? HOME : ROOT, tmpdir: "/tmp", homedir: HOME, env, argv: ["node", "meticulous"], childProcess: cp,
        fsFaultSync: (op, p) => { const mine = p.startsWith(ROOT) || p.startsWith("/tmp"); if (!mine) return null; steps++; if (steps === crashAt) { sim.fault("crash"); r.crashed = true; proc.crash("killed"); return null; } if (!pFs || (only === "config" && !/(mcp\.json|config\.toml|\.gitignore)/.test(p)) || !sim.chance("f:fs", only === "config" ? pFs * 5 : pFs)) return null; r.faults++; return sim.pick("f:fsk", ["ENOSPC", "EIO", "EACCES"]); } });
    proc.factories.inquirer = () => { const q = { prompt: async () => { throw new Error("simulator: no prompt"); } }; return { __esModule: true, default: q, ...q }; }; proc.factories["@inquirer/search"] = () => ({ __esModule: true, default: async () => { throw new Error("no prompt"); } });
    proc.onUncaught = () => {};
    const before = Object.fromEntries([...Object.keys(conf), ".gitignore"].map((f) => [f, disk.text(`${ROOT}/${f}`)])); const tmp0 = disk.list("/tmp").join();
    const app = sim.pick("w:app", [undefined, mono ? "apps/web" : undefined, mono ? "@x/admin" : undefined, ...(evilApp ? [evilApp, evilApp] : []), sim.chance("w:badApp", 0.15) ? sim.pick("w:badAppK", ["../victim", "/home/u/victim", "apps/none", "apps/../../victim", "victim"]) : undefined]);
    const opts = { apiToken: "tok", cwd: viaLink ? `${HOME}/via-link` : sim.pick("w:cwd", [undefined, ROOT]), project: undefined, app, agent: sim.pick("w:agentOpt", ["auto", "auto", "claude", "codex"]), model: sim.pick("w:model", [undefined, "m1"]), prompt: sim.pick("w:prompt", [undefined, "do it"]), headless: sim.chance("w:headless", 0.5), auto: sim.chance("w:auto", 0.3), printOnly: sim.chance("w:print", 0.3), skipSsrCheck: false };
    r.opts = opts; r.installed = installed;
    const m = proc.load(scripts.cli); m.ob.onboardCommand.handler(opts).catch(() => {});
    const t0 = sim.now; while (proc.alive && sim.now < t0 + 900e3) await sim.sleep(500);
    sim.check(!proc.alive, K("hang"), () => "onboarding never ended"); if (sim.stopped) return r;
    r.proc = proc; r.code = proc.exitCode; const said = proc.consoleLines.join("\n"); const errs = proc.consoleLines.filter((l) => l.startsWith("error ") && !/simulated process.exit/.test(l)); r.said = said;
    const when = `run ${n} (${r.crashed ? "killed" : `exit ${r.code}`}${r.faults ? `, ${r.faults} disk faults` : ""}${links.length ? `, links ${links.map((l) => l.p)}` : ""}${inTheWay ? `, file at ${inTheWay}` : ""})`; r.when = when; if (r.crashed || r.faults > 1) dirty = true; // a killed run may leave a temporary file beside the one it was replacing
    contained(when, dirty); if (sim.stopped) return r;
    if (!r.crashed) sim.check(disk.list("/tmp").join() === tmp0, K("temp-left"), () => `${when}: left ${disk.list("/tmp").filter((x) => !tmp0.split(",").includes(x))} in the temporary directory`); else for (const t of disk.list("/tmp")) if (/^meticulous-skills-cli-(?!old)/.test(t)) disk.get("/tmp").children.delete(t);
    if (creds && remote) { for (const [f, d] of disk.tree(`${ROOT}/${W}`)) sim.check(!d.includes("ghp_TOKEN"), K("credentials"), () => `${when}: ${W}/${f} holds the remote's credentials`); sim.check(!said.includes("ghp_TOKEN"), K("credentials"), () => `${when}: the remote's credentials were printed`); }
    // ---- configurations
    const badApp = app !== undefined && !(mono && ["apps/web", "@x/admin"].includes(app)); const noApp = mono && app === undefined; r.appRefused = badApp || noApp;
    const blocked = links.length > 0 || (inTheWay && disk.isFile(`${ROOT}/${inTheWay}`)); const refuseConf = Object.entries(conf).filter(([, c]) => c?.refuse).map(([f]) => f);
    const reached = r.installer !== null || r.npm !== undefined; // the agents' configuration comes after the skills
    for (const [f, c] of Object.entries(conf)) {
      if (sim.stopped) return r; const now = disk.text(`${ROOT}/${f}`); if (c?.linked || links.some((l) => f === l.p || f.startsWith(`${l.p}/`))) continue;
      const good = () => { if (f.endsWith(".json")) { let v; try { v = JSON.parse(now); } catch { return "is not valid JSON"; } const { Meticulous, ...rest } = v.mcpServers ?? {}; if (!eq(Meticulous, CANON[f]) || JSON.stringify(Object.keys(Meticulous).sort()) !== JSON.stringify(Object.keys(CANON[f]).sort())) return `has the server ${JSON.stringify(Meticulous)}`; const { mcpServers: _a, ...top } = v; const { mcpServers: b, ...top0 } = c?.value ?? {}; const { Meticulous: _m, ...rest0 } = b ?? {}; return eq(top, top0) && eq(rest, rest0) ? null : `lost or changed the user's settings: ${now.slice(0, 300)}`; } let v; try { v = parseToml(now); } catch (e) { return `cannot be read any more (${e.message}): ${JSON.stringify(now).slice(0, 600)}`; } const { Meticulous, ...rest } = v.mcp_servers ?? {}; if (!eq(Meticulous, { url: URL_ })) return `has the server ${JSON.stringify(Meticulous)}`; const { mcp_servers: _x, ...top } = v; const { mcp_servers: s0, ...top0 } = c?.value ?? {}; return eq(top, top0) && eq(rest, s0 ?? {}) ? null : `lost or changed the user's settings: ${JSON.stringify(now).slice(0, 600)}`; };
      const old = now === before[f]; const merged = now !== undefined && !c?.refuse && good() === null;
      if (c?.refuse) sim.check(old, K("config-rewritten"), () => `${when}: ${f} cannot be merged safely but was changed from ${JSON.stringify(before[f]).slice(0, 400)} to ${JSON.stringify(now)?.slice(0, 400)}`);
      else if (r.code === 0) sim.check(merged, K("config"), () => `${when}: ${f} ${now === undefined ? "does not exist" : good()}; it was ${JSON.stringify(before[f])?.slice(0, 600)}`);
      else sim.check(old || merged, K("config-torn"), () => `${when}: ${f} is neither as before nor complete: ${JSON.stringify(now)?.slice(0, 300)}; it was ${JSON.stringify(before[f])?.slice(0, 600)}`);
      if (merged && !r.faults && !r.crashed && c && (f.endsWith(".json") ? eq(c.value.mcpServers?.Meticulous, CANON[f]) : c.canonical) && n === 1) sim.check(old, K("config-churn"), () => `${when}: ${f} was right already but rewritten`);
      if (reached && !r.crashed && !r.faults && !blocked && !r.planted && !c?.refuse) sim.check(merged, K("config-skipped"), () => `${when}: ${f} was not configured (unmergeable: ${refuseConf}): ${now === undefined ? "missing" : good()}`);
    }
    // ---- the ignore list
    if (!links.some((l) => l.p === ".gitignore")) { const g = disk.text(`${ROOT}/.gitignore`); const old = g === before[".gitignore"]; const lines = (t) => (t ?? "").split(/\r?\n/).map((l) => l.trim()); const has = lines(g).filter((l) => l === `${W}/` || l === W).length; const kept = g !== undefined && (gi === null || g.startsWith(gi)); if (r.code === 0 || (!old && (r.crashed || r.faults || r.code))) sim.check(kept && has === 1, K("gitignore"), () => `${when}: .gitignore is ${JSON.stringify(g)}, it was ${JSON.stringify(before[".gitignore"])}`); if (n > 1 && has && before[".gitignore"] && lines(before[".gitignore"]).some((l) => l === `${W}/` || l === W)) sim.check(old, K("gitignore"), () => `${when}: .gitignore changed again`); }
    // ---- outcome
    const cause = blocked || r.planted || r.faults || r.crashed || refuseConf.length || r.appRefused;
    if (r.code === 0 && !r.planted) {
      sim.check(!(refuseConf.length), K("false-success"), () => `${when}: succeeded though ${refuseConf} could not be merged`); sim.check(!r.appRefused, K("false-success"), () => `${when}: succeeded with app ${app}`);
      const exp = expectedWorkspace(); const t = disk.tree(`${ROOT}/${W}`); for (const [f, d] of exp) sim.check(t.get(f)?.toString() === d, K("workspace"), () => `${when}: ${f} of the workspace ${t.has(f) ? "differs" : "is missing"}`);
      for (const f of ["onboard-context.json", ".claude/onboard-context.json"]) { let c; try { c = JSON.parse(t.get(f)?.toString()); } catch { /* below */ } sim.check(c, K("workspace"), () => `${when}: ${f} is ${t.get(f)?.toString().slice(0, 80)}`); if (!c) break;
        const want = mono ? (app === "@x/admin" ? "apps/admin" : "apps/web") : "."; const abs = c.selectedAppAbsolutePath; const real = disk.exists(abs) ? disk.walk(abs).real : null; sim.check(c.selectedAppPath === want && real === (want === "." ? ROOT : `${ROOT}/${want}`), K("app"), () => `${when}: the selected app is ${c.selectedAppPath} at ${abs} (asked for ${app})`);
        const skillsOk = r.installer === "ok"; const list = [...(skillsOk ? SKILL_DIRS.map((d) => `${d}/`) : []), "skills-lock.json", ".mcp.json", ".cursor/mcp.json", ".codex/config.toml"].filter((p) => disk.exists(`${ROOT}/${p}`)); sim.check(eq(c.agentIntegrationPaths?.slice().sort(), list.sort()), K("paths"), () => `${when}: the workspace lists ${c.agentIntegrationPaths}, installed are ${list} (installer ${r.installer}, npm ${r.npm})`); }
      sim.probe("installed"); if (r.installer && r.installer !== "ok") sim.probe("installedWithoutSkills");
    } else if (!r.crashed && r.code !== 0) {
      const agentFailed = r.launched.length && r.launched[0].st !== 0; const notThere = !r.opts.printOnly && opts.agent !== "auto" && !installed[opts.agent];
      sim.check(cause || agentFailed || notThere, K("false-failure"), () => `${when}: failed without cause: ${errs[0]}`); if (!agentFailed && !notThere) sim.check(errs.length > 0, K("report"), () => `${when}: failed without saying why`);
      if (refuseConf.length && !blocked && !r.planted && !r.faults && !r.appRefused) for (const f of refuseConf) sim.check(errs.some((l) => l.includes(f)), K("report"), () => `${when}: does not say that ${f} needs attention: ${errs[0]}`);
      sim.probe("refused");
    }
    if (links.length && !r.planted && !r.crashed && !r.faults) { const last = links[0].p; sim.probe(`link:${last.split("/")[0]}`); }
    // a link at a place that is written to is refused, not replaced
    for (const l of links) { let nd; try { nd = disk.walk(`${ROOT}/${l.p}`, { follow: false }).node; } catch { /* gone */ } sim.check(nd?.type === "symlink", K("link-replaced"), () => `${when}: the link at ${l.p} was replaced`); sim.check(r.code !== 0 || (r.planted && !SKILL_DIRS.some((d) => l.p.startsWith(d)) && ![".claude", ".agents", ".cursor"].includes(l.p)), K("link-accepted"), () => `${when}: succeeded with a link at ${l.p}`); }
    // the agent
    for (const l of r.launched) { sim.check(r.launched.length === 1 && !opts.printOnly && (opts.agent === "auto" || opts.agent === l.file) && installed[l.file], K("agent"), () => `${when}: launched ${r.launched.map((x) => x.file)} (asked for ${opts.agent})`); const want = l.st === "error" || l.st === null ? 1 : l.st; sim.check(r.code === want, K("exit-code"), () => `${when}: the agent ended with ${l.st}, the command with ${r.code}`); const cwdReal = disk.walk(l.cwd).real; sim.check(cwdReal === `${ROOT}/${W}`, K("agent"), () => `${when}: the agent runs in ${l.cwd}`); const ad = l.args.indexOf("--add-dir"); sim.check(ad === l.args.length - 2 && disk.walk(l.args[ad + 1]).real === ROOT, K("agent"), () => `${when}: --add-dir ${l.args.slice(ad + 1)}`); sim.probe(`agent:${l.st}`); }
    return r;
  };
  const runs = [];
  const st = await sim.run(async () => {
    const total = sim.pick("w:runs", [1, 2, 2, 3]); for (let n = 1; n <= total && !sim.stopped; n++) { const r = await once(n, { calm: n === total && n > 1 }); runs.push(r); if (sim.stopped) return; if (r.planted) return; // the repository is hostile from now on
      // what a user would see as "as before" moves on with each complete run
    }
    const last = runs.at(-1), prev = runs.at(-2);
    if (prev && last.code === 0 && prev.code === 0) sim.probe("again"); if (prev?.crashed && last.code === 0) sim.probe("recovered");
  }, { maxTime: 4000e3, maxEvents: 400000 });
  if (!sim.stopped) sim.check(st === "done", K("hang"), () => `did not end (${st})`);
  if (!sim.stopped) sim.check(runs.every((r) => !r.proc || r.crashed || r.proc.uncaughtErrors.filter((e) => e?.name !== "ProcExit" && !/exited|ProcExit/.test(String(e))).length === 0), K("unhandled"), () => `unhandled error: ${runs.flatMap((r) => r.proc?.uncaughtErrors ?? [])[0]?.message}`);
  return { sample: { runs: runs.length, codes: runs.map((r) => (r.crashed ? "killed" : r.code)) } };
};
