// Harness for `meticulous record session` and `record login`: the real commands
// drive a model of puppeteer's browser (pages, documents with their init
// scripts, bindings, cookies, workers, CDP round trips that navigation or
// closing can cut) in which a user browses, clicks "Finish Recording", closes
// windows or interrupts the command, while navigations, flushes, workers, the
// disk and the service may fail.
import { bundle } from "../../sim/bundle.mjs";
import { Disk } from "../../sim/fs.mjs";
import { realPackages } from "../../sim/npm.mjs";
import { mkProc } from "./downloads.mjs";

export const BROWSER_RECORD_META = {
  real: ["packages/record/src (record, record-login-flow, bootstrapPage and its utils; their page functions are serialised and run in the page model)", "packages/cli/src/commands/record/session.command.ts, login.command.ts", "packages/client/src (project, recording command, session notification)", "packages/downloading-helpers/src/scripts/fetch-asset", "packages/common/src"],
  stubs: ["puppeteer-core: model of browser, contexts, pages, documents, exposed functions, init scripts, cookies, CDP round trips", "recorder snippet: model that reads its configuration from the page and starts a session", "API and snippet servers: models with failing and slow answers", "the user: browses, clicks, closes, interrupts", "fs: simulated disk with failing writes"],
  assumptions: ["puppeteer runs init scripts in the order they were added, in every frame, before the page's own scripts", "the recorder offers flushPendingPayloads as soon as its script has run", "page.cookies() returns the cookies of the page's URL", "a CDP call answers within 30 ms unless its page closes, navigates or the promise it awaits is pending"],
};
let built;
export const buildBrowserRecord = async () => (built ??= { cli: (await bundle({ session: "packages/cli/src/commands/record/session.command.ts", login: "packages/cli/src/commands/record/login.command.ts" }, { real: realPackages() })).code });

const json = (status, body) => ({ status, headers: { "content-type": "application/json" }, body: JSON.stringify(body) });
const hostOf = (u) => { try { return new URL(u).host; } catch { return ""; } };
const RECORDABLE = (u) => /^https?:/.test(u) && !/^https:\/\/app\.meticulous\.ai\/docs\/recording-a-(test|login-flow|login-flow-saving)$/.test(u);

class Chrome {
  constructor(sim, proc, world) { Object.assign(this, { sim, proc, world, jar: new Map(), contexts: [], closed: false, docs: [], shown: [], n: 0 }); }
  lat(a = 1, b = 30) { return this.sim.latency("lat:cdp", a, b); }
  op(page, what) { return new Promise((res, rej) => this.proc.at(this.lat(), () => (this.closed || page?.closed ? rej(Object.assign(new Error(`Protocol error (${what}): Target closed`), { name: "TargetCloseError" })) : res()), "cdp")); }
  visible(url) { const h = hostOf(url); return [...this.jar.values()].filter((c) => c.domain === h); }
}
const serial = (f, args) => (typeof f === "string" ? f : `(${f.toString()})(${args.map((a) => (a === undefined ? "undefined" : JSON.stringify(a))).join(", ")})`);
const runIn = (W, src, expr) => new Function("W", `with (W) { ${expr ? `return (${src}\n)` : `${src}\n`} }`)(W);

const makePuppeteer = (sim, proc, world) => {
  const chrome = (world.chrome = new Chrome(sim, proc, world));
  const mkDoc = (page, url, frame = {}) => {
    const d = { page, url, t: sim.now, frame, alive: true, loaded: false, ran: 0, sessionAt: null, gone: null, listeners: [], elements: [], csp: [], errors: [], top: !frame.parent };
    const W = (d.W = { location: { get href() { return url; }, set href(v) { page.go(v).catch(() => {}); }, toString: () => url }, origin: frame.sandboxed || url.startsWith("chrome-error:") ? "null" : url.startsWith("about:") ? frame.parent?.W.origin ?? "null" : url.startsWith("chrome:") ? "chrome://version" : new URL(url).origin, addEventListener: (k, f) => { d.listeners.push([k, f]); }, console: { log() {}, error() {} } });
    W.__simG = W; Object.assign(W, { Math, JSON, Promise, Object, Array, String, Error });
    W.window = W.self = W.globalThis = W; W.parent = frame.parent?.W ?? W; W.top = W.parent;
    W.document = { location: W.location, get readyState() { return d.loaded ? "complete" : "loading"; }, getElementById: (id) => d.elements.find((e) => e.id === id) ?? null, createElement: () => ({ style: {}, contentDocument: { html: "", open() { this.html = ""; }, write(s) { this.html += s; }, close() {} } }), body: { appendChild: (e) => { d.elements.push(e); } } };
    W.__recorder = () => recorder(d);
    for (const [n, f] of page.exposed) bind(d, n, f);
    for (const src of page.inits) try { runIn(W, src); } catch (e) { d.errors.push(e); }
    chrome.docs.push(d); return d;
  };
  const bind = (d, name, f) => { d.W[name] = (...a) => new Promise((res, rej) => { proc.at(chrome.lat(), () => { if (!d.alive || d.page.closed) return; Promise.resolve().then(() => f(...JSON.parse(JSON.stringify(a)))).then(res, rej); }, "binding"); }); };
  const recorder = (d) => {
    d.ran++; const W = d.W; d.cfg = { token: W.METICULOUS_RECORDING_TOKEN, commit: W.METICULOUS_APP_COMMIT_HASH, force: W.METICULOUS_FORCE_RECORDING, source: W.METICULOUS_RECORDING_SOURCE, interval: W.METICULOUS_UPLOAD_INTERVAL_MS, redact: W.METICULOUS_REDACT_PASSWORDS, max: W.METICULOUS_MAX_PAYLOAD_SIZE, src: W.__meticulous?.snippetScriptSrc, cookies: typeof W.__meticulous?.getAllCookies === "function" };
    if (!d.top) return;
    const prev = chrome.docs.filter((x) => x.page === d.page && x.session && hostOf(x.url) === hostOf(d.url)).pop();
    (W.__meticulous ??= {}).flushPendingPayloads = () => new Promise((res, rej) => { const how = sim.pick("f:flush", world.calm ? [5, 300, 3000] : [5, 300, 3000, 20e3, "fail", "hang"]); d.flush = { t: sim.now, done: null, how }; if (typeof how === "string") { world.faults++; sim.fault(`flush:${how}`); } if (how === "hang") return; proc.at(how === "fail" ? 20 : how, () => { if (!d.alive || d.page.closed) return; if (how === "fail") return rej(new Error("upload failed")); d.flush.done = sim.now; res(); }); });
    proc.at(sim.latency("lat:init", 0, 400), () => {
      if (!d.alive || d.page.closed) return;
      d.session = prev && sim.chance("w:sameSession", 0.4) ? prev.session : `s${++chrome.n}`; d.sessionAt = sim.now; (W.__meticulous ??= {}).config = { sessionId: d.session };
      W.__meticulous_onBeginRecording?.({ sessionId: d.session });
      if (d.cfg.cookies) proc.at(sim.latency("lat:gc", 0, 200), () => { if (d.alive && !d.page.closed) { const had = [...chrome.jar.values()].map((c) => ({ ...c })); W.__meticulous.getAllCookies().then((c) => { d.gotCookies = c; d.hadCookies = had; }, (e) => { if (d.alive && !d.page.closed && !chrome.closed) d.cookieError = e; }); } });
    });
  };
  const mkPage = (ctx) => {
    const on = []; const emit = (k, v) => { for (const [kk, f] of [...on]) if (kk === k) f(v); };
    const page = { ctx, closed: false, inits: [], exposed: new Map(), nav: 0, doc: null, csp: false };
    const die = () => { if (page.closed) return; page.closed = true; page.closedAt = sim.now; if (page.doc) { page.doc.alive = false; page.doc.gone = sim.now; } for (const b of [...page.pending]) b(); emit("close"); };
    page.pending = new Set(); page.die = die; page.emit = emit;
    const settle = (p, d, what, ms) => new Promise((res, rej) => { let off = false; const end = (f, v) => { if (off) return; off = true; page.pending.delete(cut); f(v); }; const cut = () => end(rej, page.closed || chrome.closed ? Object.assign(new Error(`Protocol error (${what}): Target closed`), { name: "TargetCloseError" }) : new Error("Execution context was destroyed, most likely because of a navigation.")); page.pending.add(cut); proc.at(ms, () => end(rej, new Error(`${what} timed out. Increase the 'protocolTimeout' setting`))); Promise.resolve(p).then((v) => proc.at(chrome.lat(), () => end(res, v)), (e) => proc.at(chrome.lat(), () => end(rej, new Error(String(e?.message ?? e))))); });
    // a navigation of the main frame
    page.go = (url, opts = {}) => { const my = ++page.nav; return new Promise((res, rej) => {
      const bad = !world.calm && opts.faulty !== false && sim.chance("f:nav", 0.08); const ms = sim.latency("lat:nav", 5, sim.pick("lat:navmax", [50, 50, 900]));
      let over = false; page.pending.add(fail); function fail() { if (page.closed && !over) { over = true; page.pending.delete(fail); rej(Object.assign(new Error("Navigating frame was detached"), { name: "TargetCloseError" })); } }
      proc.at(ms, () => {
        if (over || page.closed || my !== page.nav) { if (!over) { over = true; rej(new Error(`net::ERR_ABORTED at ${url}`)); } return; }
        const old = page.doc; if (old) { old.alive = false; old.gone = sim.now; }
        for (const c of [...page.pending]) if (c !== fail) c();
        page.doc = mkDoc(page, bad ? "chrome-error://chromewebdata/" : url); const d = page.doc; const host = hostOf(d.url); if (host && sim.chance("w:setCookie", 0.5)) { const n = `c${sim.int("w:cn", 0, 3)}`; const c = { name: n, value: `v${(sim.b01Cookie = (sim.b01Cookie ?? 0) + 1)}`, domain: host, path: "/", expires: sim.pick("w:exp", [-1, 1900000000, 1900000000]), size: 4, httpOnly: sim.chance("w:ho", 0.5), secure: true, session: false, ...sim.pick("w:ss", [{}, { sameSite: "Lax" }, { sameSite: "None" }, { sameSite: "Strict" }]) }; chrome.jar.set(`${host} ${n}`, c); }
        const frame = { url: () => d.url, parentFrame: () => null, page: () => page.api, evaluate: async (f, ...a) => { await chrome.op(page, "Runtime.callFunctionOn"); if (!d.alive) throw new Error("Execution context was destroyed, most likely because of a navigation."); return settle(runIn(d.W, serial(f, a), true), d, "Runtime.callFunctionOn", 180e3); } }; page.frame = frame;
        emit("framenavigated", frame);
        for (const k of world.kids(d)) { const c = mkDoc(page, k.url, { parent: d, sandboxed: k.sandboxed }); emit("framenavigated", { url: () => c.url, parentFrame: () => frame, page: () => page.api, evaluate: async () => {} }); (d.kids ??= []).push(c); }
        proc.at(sim.latency("lat:load", 1, sim.pick("lat:loadmax", [4, 60, 60, 1500])), () => { if (!d.alive || page.closed) { if (!over) { over = true; page.pending.delete(fail); rej(page.closed ? new Error("Navigating frame was detached") : new Error(`net::ERR_ABORTED at ${url}`)); } return; } d.loaded = true; d.loadedAt = sim.now; for (const [kk, f] of d.listeners) if (kk === "load") try { f(); } catch (e) { d.errors.push(e); }
          page.pending.delete(fail); if (over) return; over = true; if (bad) { world.faults++; sim.fault("navigation"); rej(new Error(`net::ERR_CONNECTION_REFUSED at ${url}`)); } else res({ ok: () => true }); });
      });
    }); };
    Object.assign(page, {
      api: {
        setDefaultNavigationTimeout() {}, on: (k, f) => { on.push([k, f]); return page.api; }, once: (k, f) => { const e = [k, (v) => { const i = on.indexOf(e); if (i >= 0) on.splice(i, 1); f(v); }, f]; on.push(e); return page.api; }, off: (k, f) => { const i = on.findIndex((e) => e[0] === k && (e[1] === f || e[2] === f)); if (i >= 0) on.splice(i, 1); return page.api; }, mainFrame: () => page.frame, url: () => page.doc?.url ?? "about:blank", isClosed: () => page.closed,
        async evaluateOnNewDocument(f, ...a) { await chrome.op(page, "Page.addScriptToEvaluateOnNewDocument"); page.inits.push(serial(f, a)); },
        async setBypassCSP(v) { await chrome.op(page, "Page.setBypassCSP"); page.csp = v; },
        async exposeFunction(n, f) { await chrome.op(page, "Runtime.addBinding"); if (page.exposed.has(n)) throw new Error(`Failed to add page binding with name ${n}: window['${n}'] already exists!`); page.exposed.set(n, f); if (page.doc) bind(page.doc, n, f); },
        async evaluate(f, ...a) { await chrome.op(page, "Runtime.evaluate"); const d = page.doc; return settle(runIn(d.W, serial(f, a), true), d, "Runtime.evaluate", 180e3); },
        async evaluateHandle(f, ...a) { await page.api.evaluate(f, ...a); return { dispose: () => chrome.op(page, "Runtime.releaseObject") }; },
        async goto(u) { await chrome.op(page, "Page.navigate"); return page.go(u, { faulty: true }); },
        async cookies() { world.cookieCalls = (world.cookieCalls ?? 0) + 1; await chrome.op(page, "Network.getCookies"); const c = chrome.visible(page.doc.url).map((x) => ({ ...x })); if (!world.calm && sim.chance("f:slowCookies", 0.05)) { world.slow = true; sim.fault("slowCookies"); await new Promise((r) => proc.at(sim.pick("f:sc", [900, 2500]), r)); } world.onCookies?.(c); return c; },
        async setCookie(...cs) { await chrome.op(page, "Network.setCookies"); for (const c of cs) { if (!c || typeof c !== "object" || !c.name) throw new Error("Protocol error (Network.setCookies): Invalid parameters"); chrome.jar.set(`${c.domain} ${c.name}`, { ...c }); } (world.restored ??= []).push(...cs.map((c) => ({ ...c }))); },
        async close() { await chrome.op(page, "Target.closeTarget"); die(); },
        target: () => ({ createCDPSession: async () => { await chrome.op(page, "Target.attachToTarget"); return { send: async (m) => { await chrome.op(page, m); if (m === "Network.getCookies") return { cookies: chrome.visible(page.doc.url).map((c) => ({ ...c })) }; if (m !== "Network.getAllCookies") throw new Error(`'${m}' wasn't found`); return { cookies: [...chrome.jar.values()].map((c) => ({ ...c })) }; } }; } }),
      },
    });
    page.doc = mkDoc(page, "about:blank"); page.frame = { evaluate: async () => {} }; ctx.list.push(page); return page;
  };
  const mkCtx = (incognito) => { const c = { incognito, list: [] }; c.api = { pages: async () => { await chrome.op(null, "pages"); return c.list.filter((p) => !p.closed).map((p) => p.api); }, newPage: async () => { await chrome.op(null, "Target.createTarget"); return mkPage(c).api; }, close: async () => { await chrome.op(null, "Target.disposeBrowserContext"); for (const p of c.list) p.die(); } }; chrome.contexts.push(c); return c; };
  const launch = async (o) => {
    world.launches = (world.launches ?? 0) + 1; world.launchOptions = o; await new Promise((r) => proc.at(sim.latency("lat:launch", 50, 2000), r)); const def = mkCtx(false); mkPage(def); def.list[0].startPage = true; chrome.launched = true;
    return { defaultBrowserContext: () => def.api, createBrowserContext: async () => { await chrome.op(null, "ctx"); return mkCtx(true).api; }, pages: async () => { await chrome.op(null, "pages"); return chrome.contexts.flatMap((c) => c.list).filter((p) => !p.closed).map((p) => p.api); }, close: async () => { await chrome.op(null, "Browser.close"); for (const c of chrome.contexts) for (const p of c.list) p.die(); chrome.closed = true; chrome.closedAt = sim.now; } };
  };
  (proc.onCrash ??= []).push(() => { for (const c of chrome.contexts) for (const p of c.list) { if (!p.closed) { p.closed = true; p.closedAt = sim.now; if (p.doc) { p.doc.alive = false; p.doc.gone = sim.now; } } } });
  return { __esModule: true, default: { executablePath: () => "/usr/bin/chrome" }, launch };
};

const SITES = ["https://app.acme.io/", "https://app.acme.io/login", "https://app.acme.io/home?x=1#y", "https://sso.acme.io/auth", "http://localhost:3000/", "http://localhost:3000/a"];
const OTHER = ["about:blank", "https://app.meticulous.ai/docs/recording-a-test", "https://app.meticulous.ai/docs/recording-a-login-flow", "https://app.meticulous.ai/docs/recording-a-login-flow-saving", "chrome://version/", "https://app.meticulous.ai/docs/recording-a-test?from=cli", "https://app.meticulous.ai/docs/other", "https://app.meticulous.ai/projects"];
const CSP = ["https://cognito-identity.us-west-2.amazonaws.com/", "https://user-events-v3.s3-accelerate.amazonaws.com/x", "https://cdn.acme.io/x.js", "inline"];
const BYPASS = "https://app.meticulous.ai/docs/recorder-errors/re-run-with-bypass-csp";
const LINES = ["__recorder();", "var a = 1;\n__recorder();\n//# sourceMappingURL=meticulous.js.map", "__recorder();\n//# sourceMappingURL=x.map\n\n", "(function () { __recorder(); })();\n// end", "__recorder();\n\n\n"];

const setup = (sim, disk, world, kind, scripts) => {
  const project = { id: "p", name: sim.pick("w:pn", ["Web", "Web & more"]), recordingToken: world.noToken ? null : "rt", organization: { id: "o", name: sim.pick("w:on", ["Acme", "Acme/Labs"]) } };
  const handle = (info, f) => {
    if (f?.kind === "status") return json(f.status, { message: "later" });
    if (info.path.endsWith("meticulous.js")) return { status: 200, body: info.method === "HEAD" ? "" : world.snippet, headers: { etag: '"v1"', "content-length": String(world.snippet.length) } };
    if (info.path.endsWith("worker-network-recorder.bundle.js")) return { status: 200, body: info.method === "HEAD" ? "" : "worker();", headers: { etag: '"w1"', "content-length": "9" } };
    const p = info.path.replace(/^\/api\//, ""); const q = new URL(info.url).searchParams.get("projectId"); const who = String(info.headers.get("authorization") ?? "").replace(/^Bearer /, "");
    if (p === "oauth/default-project" && world.oauth) return json(200, world.noDefault ? { projectId: null } : { projectId: "p9", name: project.name, organization: project.organization });
    if (/^(projects\/token-info|sessions\/)/.test(p)) sim.check(q === (world.oauth ? "p9" : null) && who === (world.oauth ? "aaa.bbb.ccc" : "tok"), `${sim.prop}.project`, () => `${info.method} ${p} was sent as ${who} for project ${q}`);
    if (p === "projects/token-info") return world.noProject ? json(404, { message: "no" }) : json(200, project);
    if (p === "sessions/start") { world.cmd = `cmd-${(world.starts = (world.starts ?? 0) + 1)}`; return json(200, { recordingCommandId: world.cmd }); }
    const m = /^sessions\/(.*)\/notify$/.exec(p); if (m && info.method === "POST") { world.notified.push({ id: m[1], body: info.body?.length ? JSON.parse(String(info.body)) : null, t: sim.now }); return json(200, {}); }
    return json(404, { message: "no" });
  };
  const faultFor = () => { if (world.calm || !world.netp || !sim.chance("f:net", world.netp)) return null; world.netFaults++; return sim.pick("f:netk", [{ kind: "status", status: 503 }, { kind: "refuse" }, { kind: "lost" }, { kind: "status", status: 400 }]); };
  disk.put("/usr/bin/chrome", "chrome"); if (world.oauth) disk.put("/data/oauth-tokens.json", JSON.stringify({ accessToken: "aaa.bbb.ccc", refreshToken: "r", expiresAt: 4e9 })); else if (disk.exists("/data/oauth-tokens.json")) disk.unlink("/data/oauth-tokens.json");
  const proc = mkProc(sim, disk, world.name, { handle, faultFor }, { argv: ["node", "meticulous", "record", kind], env: { METICULOUS_DIR: "/data", METICULOUS_API_TOKEN: "tok", PATH: "/bin", PUPPETEER_EXECUTABLE_PATH: "/usr/bin/chrome", METICULOUS_IS_CLOUD_REPLAY: "true" }, childProcess: { exec: (c, o, cb) => { const f = cb ?? o; const sha = /^git rev-parse/.test(c) ? world.head : null; proc.at(sim.latency("lat:git", 1, 200), () => (sha ? f(null, `${sha}\n`, "") : f(new Error("fatal: not a git repository"), "", ""))); return { on() {}, stdout: null, stderr: null }; } }, fsLatency: [0, 4], fsFault: (op, p) => { if (world.calm || !world.fsp || !/cookies/.test(p) || !["write", "open"].includes(op) || !sim.chance("f:fs", world.fsp)) return null; if (!world.ready) return null; world.fsFaults++; return sim.pick("f:fsk", ["ENOSPC", "EIO"]); } });
  proc.factories["@puppeteer/browsers"] = () => ({ __esModule: true, Browser: { CHROME: "chrome" } });
  proc.factories["puppeteer-core"] = (p) => (p.pptr ??= makePuppeteer(sim, p, world));

  world.project = project; return { proc, m: proc.load(scripts.cli) };
};
const newWorld = (sim, name, calm) => ({ oauth: sim.chance("w:oauth", 0.3), noDefault: sim.chance("w:nodef", 0.08), name, calm, notified: [], faults: 0, netFaults: 0, fsFaults: 0, netp: sim.pick("w:netp", [0, 0, 0.15]), fsp: sim.pick("w:fsp", [0, 0, 0.05]), snippet: sim.pick("w:snip", LINES), head: sim.pick("w:head", ["c0ffee", null]), kids: (d) => (d.url.startsWith("http") && sim.chance("w:kid", 0.3) ? [sim.pick("w:kidk", [{ url: "about:blank" }, { url: "about:srcdoc", sandboxed: true }, { url: "about:srcdoc" }, { url: "https://ads.io/x", sandboxed: true }, { url: "https://ads.io/x" }])] : []) });
const start = (proc, handler, opts) => { const st = { rej: null, end: null }; (proc.onCrash ??= []).push(() => { st.end = sim_now(proc); }); proc.at(0, () => { handler(opts).catch((e) => { if (e?.constructor?.name !== "ProcExit") st.rej = e; }); }, "start"); return st; };
const sim_now = (proc) => proc.sim.now;

const checkDocs = (sim, K, world, want) => {
  for (const d of world.chrome.docs) {
    if (d.page.startPage) continue;
    const should = RECORDABLE(d.url) && !d.frame.sandboxed;
    const w = want(d); if (!w) { sim.check(d.ran === 0, `${K}.frames`, () => `the recorder ran on ${d.url}`); continue; }
    sim.check(d.ran === (should ? 1 : 0), `${K}.frames`, () => `the recorder ran ${d.ran} times on ${d.url}${d.frame.sandboxed ? " (sandboxed)" : ""}: ${d.errors[0]?.message ?? ""}`);
    if (!d.ran) continue;
    const got = d.cfg; for (const k of Object.keys(w)) sim.check(got[k] === w[k], `${K}.config`, () => `${d.url} was recorded with ${k} = ${JSON.stringify(got[k])} instead of ${JSON.stringify(w[k])}`);
    sim.check(got.force === true && typeof got.src === "string" && got.src.endsWith("meticulous.js"), `${K}.config`, () => `${JSON.stringify(got)}`);
    sim.check(!d.cookieError, `${K}.cookies`, () => `the recorder could not read the cookies: ${d.cookieError}`);
    // whatever was there when it asked and has not been replaced since is what it gets, for all hosts and with its own expiry
    if (d.gotCookies) { sim.probe("cookiesRead"); for (const h of d.hadCookies) { const c = d.gotCookies.find((x) => x.name === h.name && x.domain === h.domain); const same = c && (c.value !== h.value || (c.httpOnly === h.httpOnly && c.sameSite === h.sameSite?.toLowerCase() && (h.expires < 0 || c.expires === h.expires * 1000))); sim.check(same, `${K}.cookies`, () => `the browser had ${JSON.stringify(h)}, the recorder was given ${JSON.stringify(c)}`); } }
    for (const c of d.gotCookies ?? []) { const ss = c.sameSite; sim.check((ss === undefined || ["lax", "none", "strict"].includes(ss)) && (c.expires === 1900000000e3 || c.expires === null || c.expires < 0), `${K}.cookies`, () => `the recorder was given ${JSON.stringify(c)}`); }
  }
};
const violateCsp = (sim, K, page, world) => { const d = sim.chance("w:cspkid", 0.3) && page.doc.kids?.length ? sim.pick("w:cspk", page.doc.kids) : page.doc; if (page.csp || !RECORDABLE(page.doc.url)) return; const uri = sim.pick("w:cspu", CSP); const n = page.nav; for (const [k, f] of d.listeners) if (k === "securitypolicyviolation") f({ blockedURI: uri }); const went = page.nav !== n; const should = d.top && uri.startsWith("https://") && !uri.includes("cdn.acme"); sim.check(went === should, `${K}.csp`, () => `a violation of ${uri} in ${d.top ? "the page" : "a child frame"} ${went ? "left the page" : "was ignored"}`); if (went) sim.probe("bypassPage"); void world; };
const worker = (sim, proc, page, world) => { const w = { died: false, got: null, t: sim.now, page }; (world.workers ??= []).push(w); if (!world.calm && sim.chance("w:wdie", 0.3)) { w.dies = true; } page.emit("workercreated", { evaluate: (f, ...a) => new Promise((res, rej) => proc.at(sim.latency("lat:w", 1, 30), () => { if (w.dies || page.closed) { w.died = true; sim.fault("worker:gone"); rej(Object.assign(new Error("Protocol error (Runtime.callFunctionOn): Target closed"), { name: "TargetCloseError" })); return; } w.got = a[0]; res(); })) }); };

const checkWorkers = (sim, K, world, end) => { for (const w of world.workers ?? []) if (!w.dies && Math.min(end, w.page.closedAt ?? end) - w.t > 100) { sim.check(w.got === "worker();", `${K}.worker`, () => `a worker started at ${w.t} was not instrumented by ${end}`); sim.probe("worker"); } };
export const runBrowserSession = async (sim, { scripts }) => {
  const K = sim.prop; const disk = new Disk(sim); disk.mkdir("/data", { recursive: true }); sim.drainTurns = 10;
  let history = []; // cookie snapshots of all runs
  let mustHave = -1; const runs = sim.pick("w:runs", [1, 2, 2, 3]); const samples = [];
  for (let r = 0; r < runs; r++) {
    const world = newWorld(sim, `record${r}`, sim.chance("w:calm", 0.5)); if (r === 0 && sim.chance("w:noproj", 0.05)) world[sim.pick("w:np", ["noProject", "noToken"])] = true;
    const { proc, m } = setup(sim, disk, world, "session", scripts);
    const port = sim.pick("w:port", [undefined, undefined, undefined, 9222]); const incognito = sim.chance("w:inc", 0.3); const useInc = incognito && !port; const size = sim.chance("w:size", 0.3);
    const opts = { apiToken: undefined, commitSha: sim.pick("w:sha", ["abc123", "deadbeef", undefined, undefined]), devTools: sim.chance("w:dt", 0.2), bypassCSP: sim.chance("w:csp", 0.3), width: size ? 800 : undefined, height: size ? 600 : undefined, uploadIntervalMs: sim.pick("w:ui", [undefined, 500, 5000, 0]), incognito, trace: false, captureHttpOnlyCookies: sim.chance("w:http", 0.7), appUrl: sim.pick("w:app", [undefined, SITES[0], SITES[4]]), maxPayloadSize: sim.pick("w:mp", [undefined, 1234]), remoteDebuggingPort: port };
    const seen = []; world.onCookies = (c) => { seen.push(c.length); history.push({ t: sim.now, c: JSON.stringify(c), run: r, w: world.fsFaults }); };
    const before = history.length; const st = start(proc, m.session.recordSessionCommand.handler, opts); const t0 = sim.now;
    const how = sim.pick("w:end", ["close", "close", "close", "ctrl-c", "kill"]); let over = null; const life = sim.pick("w:life", [sim.int("w:l1", 0, 3000), sim.int("w:l2", 2000, 30e3)]);
    const pageOf = () => world.chrome?.contexts.flatMap((c) => c.list).filter((p) => !p.startPage && p.exposedOk !== false)[0];
    const ready = () => proc.consoleLines.some((l) => /Browser ready/.test(l));
    const act = () => { if (!proc.alive || over !== null) return; const p = pageOf(); if (p && ready() && !p.closed) { if (world.ready === undefined) { world.ready = sim.now; sim.at(life, end, { name: "user" }); } const k = sim.pick("w:act", ["visit", "visit", "other", "reload", "csp", "worker", "wait"]); if (k === "visit") p.go(sim.pick("w:site", SITES), { faulty: true }).catch(() => {}); else if (k === "other") p.go(sim.pick("w:oth", OTHER)).catch(() => {}); else if (k === "reload") p.go(p.doc.url).catch(() => {}); else if (k === "csp") violateCsp(sim, K, p, world); else if (k === "worker") worker(sim, proc, p, world); } proc.at(sim.pick("w:gap", [100, 700, 1500, 4000]), act); };
    const end = () => { if (!proc.alive || over !== null) return; over = sim.now; sim.log(`user: ${how}`); sim.probe(`end:${how}`); if (how === "close") pageOf()?.die(); else proc.signal(how === "kill" ? "SIGKILL" : "SIGINT"); };
    proc.at(100, act);
    await sim.run(async () => { const lim = sim.now + 900e3; while (proc.alive && sim.now < lim) await sim.sleep(200); await sim.sleep(20); }, { maxTime: sim.now + 1000e3, maxEvents: 60000 * (r + 1) });
    if (sim.stopped) return { sample: {} };
    const tEnd = st.end ?? sim.now; const said = proc.consoleLines; const bad = proc.uncaughtErrors[0] ?? st.rej ?? sim.unhandled[0]?.reason;
    sim.check(!bad, `${K}.crash`, () => `the command crashed: ${bad?.stack?.split("\n").slice(0, 2).join(" ") ?? bad}`);
    sim.check(!proc.alive, `${K}.hang`, () => `still running ${sim.now - (over ?? t0)} ms after ${over === null ? "start" : how}`);
    if (world.noProject || world.noToken || (world.oauth && world.noDefault)) { sim.check(proc.exitCode === 1 && !world.launches, `${K}.exit-code`, () => `exit ${proc.exitCode}, ${world.launches} browsers without a project to record for`); sim.probe("noToken"); continue; }
    if (world.ready === undefined) { sim.check(proc.exitCode === 1 && (world.faults || world.netFaults), `${K}.start`, () => `the browser never got ready although nothing failed (exit ${proc.exitCode}): ${said.slice(-4).join(" | ")}`); sim.probe("startFailed"); continue; }
    sim.check(over !== null, `${K}.ended`, () => `the recording ended by itself ${tEnd - world.ready} ms after it had begun (exit ${proc.exitCode}): ${said.slice(-4).join(" | ")}`);
    // ---- the browser that was opened
    const o = world.launchOptions; const ctx = pageOf().ctx;
    sim.check(o.headless === false && o.devtools === opts.devTools && JSON.stringify(o.defaultViewport) === (size ? '{"width":800,"height":600}' : "null") && o.args.includes("--disable-blink-features=AutomationControlled") && o.args.includes(`--remote-debugging-port=${port}`) === (port !== undefined) && (port === undefined || o.pipe === false) && ctx.incognito === useInc && pageOf().csp === opts.bypassCSP, `${K}.browser`, () => `opened with ${JSON.stringify(o)} incognito ${ctx.incognito} for ${JSON.stringify(opts)}`);
    checkDocs(sim, K, world, (d) => (d.page === pageOf() ? { token: "rt", commit: opts.commitSha ?? world.head ?? "unknown", source: "cli", interval: opts.uploadIntervalMs || 1000, redact: undefined, max: opts.maxPayloadSize, cookies: d.top || opts.captureHttpOnlyCookies ? opts.captureHttpOnlyCookies : false } : null));
    checkWorkers(sim, K, world, over ?? tEnd);
    // ---- sessions are reported once and notified once
    const cut = over ?? tEnd; const shownFor = new Map();
    for (const d of world.chrome.docs) if (d.session && d.page === pageOf()) { const s = shownFor.get(d.session) ?? { longest: 0 }; const from = Math.max(d.sessionAt, world.ready); s.longest = Math.max(s.longest, Math.min(d.gone ?? cut, cut) - from); shownFor.set(d.session, s); }
    const url = (id) => `https://app.meticulous.ai/projects/${encodeURIComponent(world.project.organization.name)}/${encodeURIComponent(world.project.name)}/sessions/${id}`;
    for (const [id, s] of shownFor) {
      const lines = said.filter((l) => l.endsWith(url(id))).length; sim.check(lines <= 1, `${K}.reported`, () => `${id} was reported ${lines} times`);
      if (s.longest > (world.slow ? 6000 : 1500)) sim.check(lines === 1, `${K}.reported`, () => `${id} was recorded for ${s.longest} ms and never reported`);
      const got = world.notified.filter((n) => n.id === id); const warned = said.some((l) => l.includes(`error while notifying session recording ${id}`));
      if (lines && how === "close") { sim.check(got.length > 0 || (warned && world.netFaults), `${K}.notified`, () => `${id} was reported to the user but never to Meticulous (ended by ${how}, ${tEnd - over} ms later)`); if (!world.netFaults) sim.check(got.length === 1, `${K}.notified`, () => `${id} was notified ${got.length} times`); sim.probe("notified"); }
    }
    for (const n of world.notified) sim.check(shownFor.has(n.id) && n.body?.recordingCommandId === world.cmd, `${K}.notified`, () => `notified ${n.id} with ${JSON.stringify(n.body)}`);
    if (how === "close" && over !== null) { sim.check(proc.exitCode === 0 && world.chrome.closed, `${K}.exit-code`, () => `exit ${proc.exitCode} after the window was closed; browser ${world.chrome.closed ? "closed" : "open"}`); }
    // ---- cookies
    const keeps = !useInc;
    if (!keeps) sim.check(history.length === before && !world.restored?.length, `${K}.incognito`, () => "an incognito recording read or saved cookies");
    else {
      const steady = Math.max(0, ...world.chrome.docs.filter((d) => d.page === pageOf() && d.top).map((d) => Math.min(d.gone ?? cut, cut) - Math.max(d.t, world.ready))); // the longest time without a navigation
      if (steady > 1200) { sim.check(world.cookieCalls > 0, `${K}.cookies`, () => `the cookies were not read once in ${cut - world.ready} ms (remote debugging port ${port}, incognito ${incognito})`); sim.probe("saved"); }
      const restored = JSON.stringify(world.restored ?? []); const prior = history.slice(0, before); const ok = prior.map((h, i) => ({ ...h, i })).filter((h) => h.i >= mustHave).map((h) => h.c);
      sim.check(restored === "[]" && mustHave < 0 || ok.includes(restored), `${K}.cookies`, () => `restored ${restored.slice(0, 200)} instead of ${prior.at(mustHave)?.c.slice(0, 200)} (saved ${prior.length} times)`); if (restored !== "[]") sim.probe("restored");
      // the last save that had time to finish before the end, and was not disturbed
      for (let i = history.length - 1; i >= before; i--) if (history[i].t <= cut - 300) { if (!world.fsFaults) mustHave = i; else if (world.fsFaults && mustHave < 0) mustHave = -1; break; }
    }
    samples.push({ how, sessions: shownFor.size });
    sim.unhandled.length = 0;
  }
  return { sample: { runs: samples } };
};

export const runBrowserLogin = async (sim, { scripts }) => {
  const K = sim.prop; const disk = new Disk(sim); disk.mkdir("/data", { recursive: true }); sim.drainTurns = 10;
  const world = newWorld(sim, "login", sim.chance("w:calm", 0.5)); const { proc, m } = setup(sim, disk, world, "login", scripts);
  const opts = { apiToken: undefined, devTools: false, bypassCSP: sim.chance("w:csp", 0.7), width: undefined, height: undefined, uploadIntervalMs: sim.pick("w:ui", [undefined, 500]), trace: false, captureHttpOnlyCookies: sim.chance("w:http", 0.7), appUrl: sim.pick("w:app", [undefined, SITES[1], SITES[3]]) };
  const st = start(proc, m.login.recordLoginCommand.handler, opts);
  const pages = () => world.chrome?.contexts.filter((c) => c.incognito).flatMap((c) => c.list) ?? []; const loginPage = () => pages()[0];
  let clicks = []; let meddled = null; const button = (d) => d?.elements.filter((e) => e.id === "__meticulous__finish_recording_iframe") ?? []; const plan = sim.pick("w:plan", ["finish", "finish", "finish", "finish", "abandon", "meddle", "ctrl-c"]); const tries = sim.int("w:visits", 1, 6); let visits = 0; const t0 = sim.now; let stuck = 0;
  const click = () => { const d = loginPage()?.doc; const b = button(d)[0]; if (!proc.alive || !d?.alive || loginPage().closed || !b || !/onclick="finishRecording\(\)"/.test(b.contentDocument.html)) return false; clicks.push({ t: sim.now, url: d.url, d, ready: !!d.session }); sim.log("user: finish"); Promise.resolve(d.W[/window\["(\w+)"\]/.exec(b.contentDocument.html)?.[1]]?.()).catch(() => {}); return true; };
  const act = () => {
    if (!proc.alive) return; const p = loginPage(); const next = () => proc.at(sim.pick("w:gap", [300, 900, 2500]), act);
    if (p && p.closed) return;
    if (!p || !p.doc.loaded || p.doc.url === "about:blank") return next();
    if (visits < tries) { visits++; const k = sim.pick("w:act", ["visit", "visit", "visit", "csp", "worker", "wait"]); if (k === "visit") p.go(sim.pick("w:site", SITES), { faulty: true }).catch(() => {}); else if (k === "csp") violateCsp(sim, K, p, world); else if (k === "worker") worker(sim, proc, p, world); return next(); }
    if (plan === "abandon") { sim.log("user: closes the window"); meddled = sim.now; p.die(); return; }
    if (plan === "ctrl-c") { meddled = sim.now; proc.signal("SIGINT"); return; }
    if (!p.doc.session && RECORDABLE(p.doc.url) && stuck++ < 20) return next();
    if (!RECORDABLE(p.doc.url) && stuck++ < 3) { p.go(SITES[1]).catch(() => {}); return next(); }
    if (!click()) { if (stuck++ < 60) return next(); meddled = sim.now; p.die(); return; }
    if (sim.chance("w:double", 0.3)) { const n = sim.pick("w:dn", [1, 1, 2]); for (let i = 1; i <= n; i++) proc.at(sim.int("w:dgap", 60, 300) * i, () => { if (click()) sim.probe("doubleClick"); }); }
    const again = (d) => proc.at(3000, () => { const q = loginPage(); if (!proc.alive || q.closed) return; if (q.doc !== d) { stuck = 0; next(); } else again(d); }); again(clicks.at(-1).d); // a click lost to a navigation is repeated on the page it led to
    if (plan === "meddle") proc.at(sim.int("w:med", 1, 2500), () => { const live = pages().filter((x) => !x.closed); if (!live.length || !proc.alive) return; meddled = sim.now; sim.fault("user:closes-page"); sim.pick("w:which", live).die(); });
  };
  proc.at(100, act);
  const watch = () => { if (!proc.alive) return; proc.at(500, watch); const p = loginPage(); if (p && !p.closed && p.doc.loaded && p.doc.alive && p.doc.url !== "about:blank" && sim.now - p.doc.loadedAt > 1000) { const n = button(p.doc).length; sim.check(n === 1, `${K}.button`, () => `${p.doc.url} has ${n} "Finish Recording" buttons ${sim.now - p.doc.loadedAt} ms after it loaded (loaded ${p.doc.loadedAt - p.doc.t} ms after it was opened)`); sim.probe("button"); } };
  proc.at(500, watch);
  await sim.run(async () => { while (proc.alive && sim.now < 1500e3) await sim.sleep(300); await sim.sleep(20); }, { maxTime: 1600e3, maxEvents: 80000 });
  if (sim.stopped) return { sample: {} };
  const said = proc.consoleLines; const bad = proc.uncaughtErrors[0] ?? st.rej ?? sim.unhandled[0]?.reason;
  sim.check(!bad, `${K}.crash`, () => `the command crashed: ${bad?.stack?.split("\n").slice(0, 2).join(" ") ?? bad}`);
  sim.check(!proc.alive, `${K}.hang`, () => `still running after ${sim.now} ms (clicked ${clicks.map((c) => c.t)}, closed ${meddled})`);
  if (clicks.length) sim.check((st.end ?? sim.now) - clicks[0].t < 420e3, `${K}.hang`, () => "slow");
  if (world.oauth && world.noDefault) sim.check(!world.launches, `${K}.start`, () => "a browser was opened without a project to record for");
  if (!world.chrome?.launched) { sim.check(proc.exitCode === 1 && (world.netFaults || (world.oauth && world.noDefault)), `${K}.start`, () => `no browser: exit ${proc.exitCode}`); return { sample: {} }; }
  const all = pages(); const [lp] = all; const dataPage = all.find((p) => p !== lp && p.doc && world.chrome.docs.some((d) => d.page === p && d.cfg)) ?? null;
  checkDocs(sim, K, world, (d) => { const saving = all.length && d.page !== lp && d.url.endsWith("recording-a-login-flow-saving"); if (saving || d.page.inits.length === 0) return null; return { token: "rt", commit: "unknown", source: d.page === lp ? "cli-login-flow" : "cli-login-flow-application-storage", interval: opts.uploadIntervalMs ?? 1000, redact: false, cookies: opts.captureHttpOnlyCookies }; });
  checkWorkers(sim, K, world, st.end ?? sim.now);
  const complete = said.some((l) => /Recording complete!/.test(l)); sim.check(complete === (proc.exitCode === 0), `${K}.exit-code`, () => `exit ${proc.exitCode}, "Recording complete!" ${complete ? "" : "not "}printed`);
  const c0 = clicks[0]; const docs = world.chrome.docs;
  if (proc.exitCode === 0) {
    sim.check(c0, `${K}.login`, () => "completed although the user never finished"); const loginDoc = docs.find((d) => d.page === lp && d.flush?.done); const dataDoc = docs.find((d) => d.page !== lp && d.top && d.cfg?.source === "cli-login-flow-application-storage" && d.flush?.done);
    sim.check(loginDoc && loginDoc.flush.done <= lp.closedAt, `${K}.flush`, () => `reported complete, but the login recording was not flushed before its page closed (${JSON.stringify(docs.filter((d) => d.page === lp).at(-1)?.flush)})`);
    sim.check(dataDoc && dataDoc.flush.done <= dataDoc.page.closedAt, `${K}.flush`, () => `reported complete, but the storage recording was not flushed`);
    if (sim.stopped || !loginDoc || !dataDoc) return { sample: {} };
    sim.check(docs.some((d) => d.page === lp && d.top && (d.gone ?? Infinity) >= c0.t && d.url === dataDoc.url), `${K}.login`, () => `the storage of ${dataDoc.url} was recorded, the login ended on ${c0.url}`);
    sim.check(dataDoc.flush.t >= loginDoc.flush.done, `${K}.login`, () => "the storage was recorded before the login was complete"); sim.check(world.chrome.closed, `${K}.browser`, () => "the browser was left open"); sim.probe("complete");
  } else if (proc.exitCode !== null && proc.exitCode !== undefined) {
    const excused = meddled !== null || world.faults || world.netFaults || (c0 && (!c0.ready || c0.d.gone < lp.closedAt)); sim.check(excused, `${K}.lost`, () => `the login was finished properly (${clicks.length} clicks at ${clicks.map((c) => c.t)}) but the command failed: ${said.slice(-6).join(" | ")}`);
    if (meddled !== null && plan === "abandon") sim.check(said.some((l) => /recording aborted/.test(l)), `${K}.announce`, () => "nothing was said about the aborted recording"); sim.probe("failed");
  }
  return { sample: { plan, exit: proc.exitCode, clicks: clicks.length, calm: world.calm, data: !!dataPage } };
};
