// Harness for logging in and out and choosing a project on the command line: a
// history of commands on one machine, one or two at a time, against an identity
// provider and a service with two accounts whose defaults another machine may
// change too. The oracle is a small model of who is logged in and what each
// account's default project is, fed with what was asked and answered.
import { bundle } from "../../sim/bundle.mjs";
import { Disk } from "../../sim/fs.mjs";
import { npmModules, realPackages } from "../../sim/npm.mjs";
import { simFetch } from "../../sim/net.mjs";
import { Proc } from "../../sim/proc.mjs";
import { Idp } from "./client.mjs";

const CMD = "packages/cli/src/commands/";
const FILES = { login: ["auth/login", "loginCommand"], logout: ["auth/logout", "logoutCommand"], whoami: ["auth/whoami", "whoamiCommand"], getProject: ["auth/get-project", "getProjectCommand"], setProject: ["auth/set-project", "setProjectCommand"], projects: ["auth/list-projects", "listProjectsCommand"], sessions: ["agent/sessions", "sessionsCommand"] };
export const ACCOUNT_META = {
  real: ["packages/cli/src/commands/auth (login, logout, whoami, get-project, set-project, list-projects)", "packages/cli/src/commands/agent/sessions.command.ts", "packages/cli/src/utils/select-project.ts, handle-auth-failure.ts", "packages/client/src (oauth, legacy project migration, token resolution, api)", "packages/common/src"],
  stubs: ["identity provider and service: two accounts with their projects and stored defaults, with lost, cut, refused and failed answers", "project picker: a user who types part of a name, picks or gives up", "fs: simulated disk with failing reads and deletions", "the browser never answers: browser logins are C05's", "loglevel, @sentry/node: trivial"],
  assumptions: ["synchronous file system calls of one process are not interleaved with those of another", "no logout happens while another command on the machine is refreshing the login: the refreshed login would be kept", "a login with rotating refresh tokens may be lost if a refreshed login cannot be stored"],
};
let built;
export const buildAccount = async () => (built ??= { cli: (await bundle(Object.fromEntries(Object.entries(FILES).map(([k, [f]]) => [k, `${CMD}${f}.command.ts`])), { real: realPackages() })).code });

const DATA = "/data"; const TOKENS = `${DATA}/oauth-tokens.json`; const LEGACY = `${DATA}/selected-project.json`; const CONFIG = `${DATA}/config.json`;
const json = (status, body) => ({ status, headers: { "content-type": "application/json" }, body: JSON.stringify(body) });
const slug = (p) => `${p.organization.name}/${p.name}`;

export const runAccount = async (sim, { scripts }) => {
  const K = sim.prop; const disk = new Disk(sim); disk.mkdir(DATA, { recursive: true });
  const race = sim.chance("w:race", 0.12); // a login as someone else while another command refreshes the old one
  const sessionAccount = new Map(); // device code -> account
  const idp = new Idp(sim, { life: race ? 60 : sim.pick("w:life", [60, 300, 7200]), rotate: sim.chance("w:rot", 0.6), grace: 1, subject: (session) => sessionAccount.get(session) });
  // ---- accounts, projects and stored defaults
  const all = ["Acme/Web", "Acme/Admin", "acme-labs/web", "Beta Org/Web", "Beta Org/mobile", "Zed/ünïcode & more"].map((s, i) => { const [o, n] = s.split("/"); return { id: `p${i}`, name: n, organization: { id: `o-${o}`, name: o } }; });
  const account = (n) => { const projects = sim.shuffle("w:projects", all).slice(0, sim.pick("w:np", [0, 1, 1, 2, 3, 6])); const a = { name: n, email: `${n}@x.io`, projects, stored: projects.length && sim.chance("w:def", 0.4) ? sim.pick("w:defp", projects).id : null, version: 0 }; return a; };
  const accounts = { ann: account("ann"), bob: account("bob") }; const byId = (id) => all.find((p) => p.id === id) ?? null;
  const accountOf = (token) => { const t = idp.access.get(token); return t ? accounts[sessionAccount.get(t.session)] : null; };
  const resolveName = (a, name) => { const hit = a.projects.filter((p) => p.id === name || slug(p) === name); if (hit.length) return hit[0]; const named = a.projects.filter((p) => p.name === name); return named.length === 1 ? named[0] : null; };
  const auto = (a) => (a.stored ? byId(a.stored) : a.projects.length === 1 ? a.projects[0] : null);
  // ---- the machine at the start
  const envToken = sim.chance("w:env", 0.2) ? "prat-env" : null; const configToken = sim.chance("w:cfg", 0.15) ? "prat-cfg" : null; if (configToken) disk.put(CONFIG, JSON.stringify({ apiToken: configToken })); else if (sim.chance("w:cfgbad", 0.05)) disk.put(CONFIG, "{}");
  const first = race ? "ann" : sim.pick("w:first", [null, "ann", "ann", "bob"]); let devNo = 0;
  if (first) { sessionAccount.set("dev-start", accounts[first]?.name); const t = idp.issue("start", "dev-start"); disk.put(TOKENS, JSON.stringify({ accessToken: t.access_token, refreshToken: t.refresh_token, expiresAt: Math.floor((1768471200000 + sim.now) / 1000) + t.expires_in })); }
  const legacyText = sim.pick("w:legacy", [null, null, "good", "good", "good", "torn", "empty"]); const legacyId = legacyText === "good" ? sim.pick("w:legid", [...all.map((p) => p.id), "gone"]) : null;
  if (legacyText) disk.put(LEGACY, legacyText === "good" ? JSON.stringify({ projectId: legacyId, name: "x" }) : legacyText === "torn" ? `{"projectId": "p` : "{}");
  const loggedIn = () => { const n = disk.lookup(TOKENS); if (!n) return null; try { const t = JSON.parse(String(n.data)); return { token: t.accessToken, name: accountOf(t.accessToken)?.name }; } catch { return { torn: true }; } };
  // ---- the service
  const pf = sim.pick("w:pf", [0, 0, 0, 0.1, 0.3]); const cmds = []; const running = new Set();
  const api = (cmd) => (info, f) => {
    if (f?.kind === "status") return json(f.status, { statusCode: f.status, message: "try later" });
    const path = info.path.replace(/^\/api\//, ""); const auth = info.headers.get("authorization"); const body = info.body?.length ? JSON.parse(String(info.body)) : null; const e = { t: sim.now, method: info.method, path, auth, body, query: Object.fromEntries(new URL(info.url).searchParams), account: null, answer: null }; cmd.log.push(e); info.e = e;
    const say = (status, b) => { e.status = status; e.answer = b; return json(status, b); };
    const pinned = auth === "prat-env" || auth === "prat-cfg"; const t = idp.access.get(auth); const a = accountOf(auth); e.account = pinned ? auth : a?.name ?? null;
    if (!pinned && (!a || t.exp <= sim.now)) return say(401, { statusCode: 401, message: "who are you?" });
    const one = (p) => (p ? { projectId: p.id, name: p.name, organization: p.organization } : { projectId: null });
    const put = (ask) => { const p = resolveName(a, ask); if (!p) return null; if (a.stored !== p.id) a.version++; a.stored = p.id; a.by = cmd.id; e.set = p.id; sim.log("w", "default", `${a.name}=${p.id}`); return p; };
    switch (`${info.method} ${path}`) {
      case "GET agent/whoami": return say(200, pinned ? { authenticatedVia: "project-api-token", selectedProject: "Pinned/One" } : { authenticatedVia: "oauth", email: a.email, firstName: a.name, lastName: "X", isAdmin: false, organizations: [], selectedProject: auto(a) ? slug(auto(a)) : null });
      case "GET agent/project": { if (pinned) return say(200, { project: "Pinned/One", projectId: "pin", source: "api-token" }); const p = auto(a); return p ? say(200, { project: slug(p), projectId: p.id, source: a.stored ? "user-default" : "auto-picked" }) : say(400, { statusCode: 400, message: "no default project is set" }); }
      case "GET agent/projects": return pinned ? say(403, { message: "OAuth only" }) : say(200, a.projects);
      case "GET oauth/projects": return pinned ? say(403, { message: "OAuth only" }) : say(200, { projects: a.projects });
      case "GET oauth/default-project": e.stored = a?.stored ?? null; return pinned ? say(403, { message: "OAuth only" }) : say(200, one(e.query.includeAutoPick === "false" ? byId(a.stored) : auto(a)));
      case "PUT agent/project": { if (pinned) return say(403, { message: "OAuth only" }); const p = put(body.project); return p ? say(200, { project: slug(p), projectId: p.id }) : say(400, { statusCode: 400, message: `no project ${body.project} for you` }); }
      case "PUT oauth/default-project": { if (pinned) return say(403, { message: "OAuth only" }); const p = put(body.project); return p ? say(200, one(p)) : say(404, { statusCode: 404, message: "project not found" }); }
      case "GET agent/sessions": return pinned || auto(a) ? say(200, { sessions: [{ id: "s1", createdAt: "2026-01-01", recordedAt: "2026-01-01" }] }) : say(400, { statusCode: 400, message: "no default project is set" });
    }
    return say(404, { statusCode: 404, message: `Cannot ${info.method} /api/${path}`, error: "Not Found" });
  };
  // ---- one command
  const command = async (term, force) => {
    const kind = force?.kind ?? sim.pick("c:kind", ["login", "login", "login", "setProject", "setProject", "logout", "whoami", "getProject", "projects", "sessions"]); const id = cmds.length; const cmd = { id, kind, log: [], t0: sim.now, before: loggedIn(), faults: 0, picks: [], alone: running.size === 0, legacyBefore: disk.exists(LEGACY), tokensBefore: disk.lookup(TOKENS) ? String(disk.lookup(TOKENS).data) : null, dev: null, refreshes: 0, defaults: Object.fromEntries(Object.values(accounts).map((a) => [a.name, a.stored])), others: 0 }; cmds.push(cmd);
    for (const c of running) { c.alone = false; } running.add(cmd);
    const usable = cmd.before && !cmd.before.torn; const tty = (kind === "login" || (usable && !envToken)) && sim.chance("c:tty", 0.6); const args = {};
    if (kind === "login") { if (force || sim.chance("c:dev", 0.9)) args.device = true; if (sim.chance("c:ni", 0.3)) args.nonInteractive = true; if (!args.device) args.nonInteractive = false; if (!args.device && tty) args.device = true; }
    const wanted = (kind === "login" || kind === "setProject") && sim.chance("c:proj", 0.4) ? sim.pick("c:projn", [...all.map(slug), "p1", "p4", "Web", "mobile", "nope", "Acme/web"]) : undefined; const pad = wanted && sim.chance("c:pad", 0.15) ? " " : ""; if (wanted) args.project = pad + wanted + pad;
    if (["whoami", "getProject", "setProject", "projects"].includes(kind)) args.json = sim.chance("c:json", 0.4);
    const fate = force ? "yes" : sim.pick("c:fate", ["yes", "yes", "yes", "yes", "no", "late"]); const who = force ? "bob" : sim.pick("c:who", ["ann", "ann", "bob"]); const code = `dev${++devNo}`; cmd.who = who;
    const diskFault = sim.chance("f:disk", 0.08) ? sim.pick("f:diskk", ["read", "unlink", "full"]) : null;
    const proc = new Proc(sim, `cli${id}`, { modules: npmModules, disk, tty, argv: ["node", "meticulous"], childProcess: { exec: (c, cb) => { proc.at(5, () => cb?.(new Error("no browser"), "", ""), "exec"); return { unref() {}, on() {} }; } },
      env: { METICULOUS_DIR: DATA, METICULOUS_OAUTH_ISSUER_URL: "https://idp.sim/realm", METICULOUS_IS_CLOUD_REPLAY: "true", ...(envToken ? { METICULOUS_API_TOKEN: envToken } : {}) },
      fsFaultSync: (op, p, writing) => { if (diskFault === "unlink" && op === "unlink" && p === TOKENS) { cmd.unlinkFault = true; return "EACCES"; } if (diskFault === "read" && op === "open" && p === LEGACY) { cmd.readFault = true; return sim.pick("f:rd", ["EIO", "EACCES", "EMFILE"]); } if (diskFault === "full" && (kind === "login" || !idp.o.rotate) && writing && p.startsWith(TOKENS)) { cmd.fullFault = true; return "ENOSPC"; } return null; } });
    proc.onUncaught = (e) => sim.violate(`${K}.uncaught`, `${kind}: ${e?.stack ?? e}`);
    const inner = simFetch(proc, idp.fetchOpts(proc, { api: api(cmd),
      onToken: (info, form, r) => { if (form.get("grant_type") === "refresh_token") cmd.refreshes++; else if (r.status === 200) cmd.granted = r.body.access_token; },
      onDevice: (info, form) => { const exp = sim.pick("c:exp", [20, 60]); const at = sim.now + sim.pick("c:when", [0, 3e3, 12e3]); const d = { code, challenge: form.get("code_challenge"), expires: sim.now + exp * 1000, interval: 5, used: false, slow: 0 }; if (fate === "yes") d.approveAt = at; else if (fate === "no") d.denyAt = at; sessionAccount.set(code, who); cmd.dev = d; idp.devices.set(code, d); return { status: 200, body: { device_code: code, user_code: "U", verification_uri: "https://idp.sim/v", expires_in: exp } }; },
      faultFor: (info) => { if (race && kind !== "login" && info.host === "idp.sim" && info.path === "/token") { cmd.faults++; return { kind: "slow", delay: 4000 }; } if (!sim.chance("f:p", pf)) return null; cmd.faults++; if (info.host === "idp.sim") cmd.idpFaults = (cmd.idpFaults ?? 0) + 1; const k = sim.pick("f:k", ["refuse", "lost", "cut", "status", "status", "slow"]); return k === "status" ? { kind: k, status: sim.pick("f:st", [500, 502, 503, 429]) } : k === "slow" ? { kind: k, delay: 4000 } : { kind: k, after: 0 }; } }));
    const flights = [];
    proc.opts.fetch = async (u, i) => { const url = new URL(String(u?.url ?? u)); const fl = { host: url.host, method: i?.method ?? "GET", path: url.pathname.replace(/^\/api\//, ""), ok: false, status: null }; flights.push(fl); if (url.host === "idp.sim") cmd.idp = true; const n0 = cmd.log.length; const r = await inner(u, i); fl.status = r.status; fl.e = cmd.log.slice(n0).filter((e) => e.path === fl.path && e.method === fl.method && !e.taken)[0]; if (fl.e) fl.e.taken = true; for (const m of ["json", "text"]) { const orig = r[m].bind(r); r[m] = async () => { const v = await orig(); fl.ok = true; return v; }; } return r; };
    const giveUp = sim.chance("c:giveup", 0.1); const pickAt = sim.int("c:pick", 0, 5); const typed = sim.pick("c:typed", [null, null, "web", "ACME", "bet", "zzz"]);
    proc.factories["@inquirer/search"] = () => ({ __esModule: true, default: async ({ source }) => {
      const open = (await source(undefined)) ?? []; let list = open; if (typed !== null) list = await source(typed);
      cmd.picks.push({ open: open.map((c) => c.name), list: list.map((c) => c.name), typed }); await new Promise((r) => proc.at(sim.pick("c:think", [10, 5e3, 40e3]), r, "think"));
      const can = list.filter((c) => !c.disabled); if (giveUp || !can.length) { cmd.gaveUp = true; throw Object.assign(new Error("User force closed the prompt"), { name: "ExitPromptError" }); }
      const c = can[pickAt % can.length]; cmd.picked = c.name; return c.value;
    } });
    const mods = proc.load(scripts.cli); const cmdm = mods[kind][FILES[kind][1]]; const full = {}; for (const [k, o] of Object.entries(cmdm.builder ?? {})) { const v = k in args ? args[k] : o.default; if (v !== undefined) full[k] = v; } for (const k of Object.keys(args)) if (!(k in full)) full[k] = args[k];
    proc.at(0, () => { Promise.resolve().then(() => cmdm.handler(full)).catch(() => {}); }, "start");
    const limit = sim.now + 15 * 60e3; while (proc.alive && sim.now < limit && !sim.stopped) await sim.sleep(250);
    running.delete(cmd); if (sim.stopped) return; const what = `${kind} ${JSON.stringify(args)}${tty ? " (terminal)" : ""} as ${cmd.before?.name ?? "nobody"}`;
    if (!sim.check(!proc.alive, `${K}.hang`, () => `${what} never ended`)) return;
    const exit = proc.exitCode; const out = proc.consoleLines.filter((l) => l.startsWith("log ")).map((l) => l.slice(4)); const errs = proc.consoleLines.filter((l) => !l.startsWith("log ")).map((l) => l.replace(/^\w+ /, "")); const after = loggedIn(); cmd.exit = exit; const tell = () => `${what}: exit ${exit}, said ${JSON.stringify(errs).slice(0, 500)}`;
    const calm = cmd.faults === 0 && cmd.alone && cmd.others === 0 && !diskFault; const asked = cmd.log.filter((e) => e.method === "PUT"); const acked = (e) => flights.some((f) => f.e === e && f.ok && e.status === 200); sim.probe(`${kind}:${exit === 0 ? "ok" : "failed"}`);
    sim.check(after === null || !after.torn, `${K}.torn-login`, () => `${what}: the stored login is torn`);
    // ---- who asked: commands act as the login of the machine (or the one just made), else as the token that is set
    const owners = new Set(cmd.alone ? [cmd.before?.name ?? null] : cmds.flatMap((c) => [c.before?.name ?? null, c.granted ? c.who : null]));
    for (const e of cmd.log) {
      if (kind === "login") sim.check(cmd.granted && e.account === who, `${K}.wrong-account`, () => `${what}: ${who} logged in but ${e.path} was asked as ${e.account}`);
      else { const fallback = envToken ?? configToken; const lost = cmd.faults > 0 || !cmd.alone; const okAs = (e.account !== null && owners.has(e.account)) || ((owners.has(null) || lost) && (fallback === null ? e.account === null : e.account === fallback)); sim.check(okAs || (e.status === 401 && lost), `${K}.wrong-account`, () => `${what}: ${e.path} was asked as ${e.account} (${e.auth})`); }
      if (sim.stopped) return;
    }
    // ---- every change of a default is one the user asked for, or carries over the old selection once
    for (const e of asked) {
      if (e.path === "oauth/default-project") { // carrying over the selection of an older version
        const q = cmd.log.find((x) => x.method === "GET" && x.path === "oauth/default-project" && x.query.includeAutoPick === "false" && x.t <= e.t && x.status === 200 && x.stored === null && x.account === e.account);
        sim.check(e.body.project === legacyId && cmd.legacyBefore, `${K}.default-changed`, () => `${what}: set the default to ${e.body.project}`); sim.check(q, `${K}.default-overridden`, () => `${what}: carried ${legacyId} over although a default may be stored`); sim.probe("carriedOver");
      } else {
        const chosen = wanted !== undefined ? wanted : cmd.picked ? cmd.picked.replace(/ \(current\)$/, "") : null; const acc = accounts[e.account];
        sim.check(kind === "login" || kind === "setProject", `${K}.default-changed`, () => `${what}: selected ${e.body.project}`);
        if (wanted !== undefined) sim.check(e.body.project === wanted, `${K}.other-project`, () => `${what}: selected ${JSON.stringify(e.body.project)}`);
        else if (chosen !== null) sim.check(byId(e.body.project) && slug(byId(e.body.project)) === chosen, `${K}.other-project`, () => `${what}: ${chosen} was picked but ${e.body.project} selected`);
        else if (acc) sim.check(acc.projects.length === 1 && e.body.project === acc.projects[0].id, `${K}.default-changed`, () => `${what}: selected ${e.body.project} though nobody chose it`);
        if (kind === "login" && wanted === undefined && cmd.alone && !cmd.others && acc) sim.check(acc.projects.length === 1 || cmd.defaults[acc.name] === null, `${K}.default-overridden`, () => `${what}: ${acc.name} had ${cmd.defaults[acc.name]} stored, ${e.body.project} was selected`);
      }
      if (sim.stopped) return;
    }
    if (asked.filter((e) => acked(e) && e.path === "agent/project").length > 1) sim.violate(`${K}.selected-twice`, tell());
    // ---- what was reported
    const report = errs.map((l) => /^Selected project: (.*)$/.exec(l)?.[1]).filter((x) => x !== undefined); const done = asked.filter((e) => e.path === "agent/project" && acked(e)).at(-1);
    sim.check(report.length === (done && kind !== "projects" ? 1 : 0) && (!done || report[0] === done.answer.project), `${K}.false-report`, () => `${tell()}: the service stored ${done?.answer.project ?? "nothing"}`);
    if (kind === "setProject") { sim.check((exit === 0) === !!done, `${K}.false-report`, () => `${tell()}: the service stored ${done?.answer.project ?? "nothing"}`); if (exit === 0 && args.json) sim.check(JSON.parse(out.join("\n")).projectId === done.answer.projectId, `${K}.output`, () => `${what}: printed ${out}`); }
    for (const p of cmd.picks) { // what the picker offered
      const acc = accounts[kind === "login" ? who : cmd.before?.name]; if (!acc || !cmd.alone) continue; const bare = p.open.map((n) => n.replace(/ \(current\)$/, "")).sort(); sim.check(JSON.stringify(bare) === JSON.stringify(acc.projects.map(slug).sort()), `${K}.picker`, () => `${what}: offered ${JSON.stringify(p.open)} of ${JSON.stringify(acc.projects.map(slug))}`);
      if (p.typed !== null) { const t = p.typed.toLowerCase(); const wantList = acc.projects.map(slug).filter((s) => s.toLowerCase().includes(t)).sort(); const got = p.list.map((n) => n.replace(/ \(current\)$/, "")).sort(); sim.check(JSON.stringify(got) === JSON.stringify(wantList) || (wantList.length === 0 && got.length <= 1), `${K}.picker`, () => `${what}: typing ${p.typed} offered ${JSON.stringify(p.list)}`); }
      if (calm) { const cur = p.open.filter((n) => n.endsWith(" (current)")).map((n) => n.slice(0, -10)); const def = auto({ ...acc, stored: cmd.defaults[acc.name] }); if (!asked.some((e) => e.path === "oauth/default-project")) sim.check(cur.length === (def ? 1 : 0) && (!def || (cur[0] === slug(def) && p.open[0] === `${cur[0]} (current)`)), `${K}.picker`, () => `${what}: the current project is ${def ? slug(def) : "none"}, offered ${JSON.stringify(p.open)}`); } sim.probe("picker");
    }
    // ---- the login on this machine
    if (kind === "logout") {
      if (cmd.alone) { if (exit === 0 && errs.some((l) => /Logged out successfully/.test(l))) sim.check(after === null, `${K}.still-logged-in`, () => `${tell()}: the login of ${after?.name} is still stored`); else sim.check(cmd.unlinkFault, `${K}.false-failure`, tell); }
      const named = (re) => errs.some((l) => re.test(l)); if (exit === 0) { sim.check(!envToken || named(/METICULOUS_API_TOKEN is still set/), `${K}.silent-credential`, () => `${tell()}: METICULOUS_API_TOKEN is still used`); sim.check(!configToken || named(/config\.json/), `${K}.silent-credential`, () => `${tell()}: the token in config.json is still used`); sim.check(envToken || !named(/METICULOUS_API_TOKEN/), `${K}.false-warning`, tell); sim.check(configToken || !named(/config\.json/), `${K}.false-warning`, tell); }
      sim.check(cmd.log.length === 0, `${K}.default-changed`, () => `${what}: asked the service ${cmd.log[0].path}`);
    } else if (kind === "login") {
      if (exit === 0) { sim.check(cmd.granted, `${K}.false-success`, tell); if (cmd.alone) sim.check(after?.name === who, `${K}.login-lost`, () => `${tell()}: ${who} logged in, stored is ${after?.name}`); }
      else if (cmd.alone && !cmd.granted) sim.check(JSON.stringify(after) === JSON.stringify(cmd.before), `${K}.login-lost`, () => `${tell()}: the login failed, and that of ${cmd.before?.name} became ${after?.name}`);
      if (cmd.alone && cmd.granted && cmd.log.length && !cmd.log.some((e) => e.status === 401)) sim.check(after?.name === who, `${K}.login-lost`, () => `${tell()}: ${who} logged in, stored is ${after?.name}`);
      const got = Object.fromEntries(Object.values(accounts).map((a) => [a.name, a.stored])); if (calm && !asked.length) sim.check(JSON.stringify(got) === JSON.stringify(cmd.defaults), `${K}.default-changed`, tell);
      if (calm && fate === "yes" && args.device) { // nothing went wrong: what must have happened
        const a = accounts[who]; const def = cmd.defaults[who]; const interactive = tty && !args.nonInteractive; const p = wanted !== undefined ? resolveName(a, wanted) : a.projects.length === 1 ? a.projects[0] : a.projects.length === 0 ? null : def ? byId(def) : interactive && cmd.picked ? all.find((x) => slug(x) === cmd.picked.replace(/ \(current\)$/, "")) : null;
        sim.check(exit === (p ? 0 : exit === 0 ? 99 : exit), `${K}.outcome`, () => `${tell()}: ${p ? `the project is ${slug(p)}` : "no project can be chosen"}`); if (p) { sim.check(a.stored === p.id, `${K}.default`, () => `${tell()}: the default of ${who} is ${a.stored}, not ${p.id}`); if (!asked.length) sim.check(errs.some((l) => l.includes(slug(p))), `${K}.false-report`, () => `${tell()}: the project in use is ${slug(p)}`); }
        else if (wanted !== undefined) { sim.check(errs.some((l) => l.includes(`no project ${wanted} for you`)), `${K}.reason`, tell); for (const x of a.projects) sim.check(errs.some((l) => l.includes(slug(x))), `${K}.reason`, () => `${tell()}: ${slug(x)} is not offered`); }
        if (!interactive) sim.check(cmd.picks.length === 0, `${K}.prompted`, () => `${what}: asked a user who isn't there`);
      }
    } else {
      if (cmd.alone && cmd.before && !(after?.name === cmd.before.name)) sim.check(after === null && ((cmd.idpFaults ?? 0) > 0 || cmd.log.some((e) => e.status === 401)), `${K}.login-lost`, () => `${tell()}: the login of ${cmd.before.name} became that of ${after?.name ?? "nobody"}`);
      if (calm && usable) { const a = accounts[cmd.before.name]; const now = auto(a); sim.check(!errs.some((l) => /could not|failed/i.test(l)) || exit !== 0, `${K}.outcome`, tell);
        const must = kind === "whoami" || kind === "projects" || now !== null; if (kind !== "setProject") sim.check((exit === 0) === must, `${K}.outcome`, tell);
        if (exit === 0 && kind === "whoami") sim.check(out.join("\n").includes(a.email), `${K}.output`, () => `${what}: printed ${out}`); if (exit === 0 && kind === "getProject") sim.check(args.json ? JSON.parse(out.join("\n")).projectId === now.id : out[0] === slug(now), `${K}.output`, () => `${what}: printed ${out} instead of ${slug(now)}`); if (exit === 0 && kind === "projects") sim.check(args.json ? JSON.parse(out.join("\n")).length === a.projects.length : JSON.stringify(out) === JSON.stringify(a.projects.map(slug)), `${K}.output`, () => `${what}: printed ${out}`);
        if (kind === "setProject") { const p = wanted !== undefined ? resolveName(a, wanted) : a.projects.length === 1 ? a.projects[0] : cmd.picked ? all.find((x) => slug(x) === cmd.picked.replace(/ \(current\)$/, "")) : null; sim.check((exit === 0) === !!p, `${K}.outcome`, () => `${tell()}: ${p ? slug(p) : "nothing to select"}`); if (p) sim.check(a.stored === p.id, `${K}.default`, () => `${tell()}: the default is ${a.stored}`); if (!tty) sim.check(cmd.picks.length === 0, `${K}.prompted`, () => `${what}: asked a user who isn't there`); } }
      if (kind !== "setProject" && calm && !usable && (envToken || configToken)) sim.check((exit === 0) === (kind !== "projects"), `${K}.outcome`, tell);
    }
    // ---- the selection of an older version
    if (legacyText === "good" && cmd.legacyBefore && !disk.exists(LEGACY)) { const seen = cmds.flatMap((c) => c.log).some((e) => e.status === 200 && ((e.path === "oauth/default-project" && e.method === "PUT" && e.body.project === legacyId) || (e.method === "GET" && e.path === "oauth/default-project" && e.query.includeAutoPick === "false" && e.stored !== null))); sim.check(seen, `${K}.selection-lost`, () => `${tell()}: the selection ${legacyId} kept on this machine is gone and was never carried over${cmd.readFault ? " (reading it failed)" : ""}`); sim.probe("selectionGone"); }
    if (legacyText === "good" && calm && usable && cmd.legacyBefore && cmd.before.name && kind !== "login" && kind !== "logout" && kind !== "projects" && cmd.log.length) { const a = accounts[cmd.before.name]; if (cmd.defaults[a.name] !== null || a.projects.some((p) => p.id === legacyId)) sim.check(!disk.exists(LEGACY), `${K}.selection-stuck`, () => `${tell()}: the selection kept on this machine was not carried over`); }
  };
  const terminal = async (i) => { await sim.sleep(sim.pick("t:start", [0, 0, 3e3])); const n = sim.pick("t:n", [1, 2, 3, 4]); for (let k = 0; k < n && !sim.stopped; k++) { await command(i); await sim.sleep(sim.pick("t:gap", [1, 500, 45e3, 320e3, 3 * 3600e3])); } };
  const raced = async (i) => { await sim.sleep(i ? sim.int("r:refresh", 30e3, 70e3) : sim.int("r:login", 25e3, 65e3)); await command(i, { kind: i ? sim.pick("r:kind", ["whoami", "sessions", "getProject", "projects"]) : "login" }); };
  const nTerm = race ? 2 : sim.pick("w:terms", [1, 1, 1, 2]);
  if (sim.chance("w:other", 0.25)) sim.at(sim.pick("w:otherAt", [100, 5e3, 30e3, 400e3]), () => { const a = accounts[sim.pick("w:otherWho", ["ann", "bob"])]; if (!a.projects.length) return; a.stored = sim.pick("w:otherP", a.projects).id; a.version++; for (const c of running) c.others++; sim.probe("otherMachine"); }, { name: "other", daemon: true });
  const st = await sim.run(() => Promise.all(Array.from({ length: nTerm }, (_, i) => (race ? raced(i) : terminal(i)))), { maxTime: 24 * 3600e3, maxEvents: 400e3 });
  if (st !== "violation" && !sim.stopped) sim.check(st === "done", `${K}.hang`, `the commands never ended (${st})`);
  const logins = cmds.filter((c) => c.granted && c.exit === 0), outs = cmds.filter((c) => c.kind === "logout"); const end = loggedIn();
  if (!sim.stopped && cmds.filter((c) => c.granted).length === 1 && logins.length === 1 && !outs.length) sim.check(end === null || end.name === logins[0].who, `${K}.login-lost`, () => `${logins[0].who} logged in, and nobody after, but the stored login is that of ${end.name}`);
  return { sample: { terminals: nTerm, commands: cmds.length } };
};
