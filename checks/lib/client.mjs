// Harness for packages/client and packages/common: retry helpers, API calls,
// signed uploads, login token refresh, login flows and paginated listings.
import path from "node:path";
import { createHash } from "node:crypto";
import { isDeepStrictEqual } from "node:util";
import { bundle } from "../../sim/bundle.mjs";
import { Proc } from "../../sim/proc.mjs";
import { Disk } from "../../sim/fs.mjs";
import { npmModules, realPackages } from "../../sim/npm.mjs";
import { simFetch } from "../../sim/net.mjs";
import { deliver } from "../../sim/http.mjs";

export const CLIENT_META = {
  real: ["packages/client/src (client, API wrappers, OAuth, uploads)", "packages/common/src (retry helper, fetch wrapper, data dir, logger)", "node WHATWG Request/Response/Headers/URL, streams"],
  stubs: ["undici fetch: model of connect, headers and body phases with its 300 s timeouts", "node http/https client and server: model (streamed request, early answers, resets at any byte, listen/close)", "fs: simulated disk", "identity provider, API server and storage: scenario models", "loglevel, luxon, chalk, proxy-agent: trivial"],
  assumptions: ["synchronous file system calls of one process are not interleaved with those of another", "a process's clock does not jump during a run (a constant offset is simulated)"],
};
let built;
export const buildClientBundle = async () => (built ??= { cl: (await bundle({
  client: "packages/client/src/index.ts", core: "packages/client/src/client.ts", common: "packages/common/src/index.ts",
  retry: "packages/common/src/http-retry.utils.ts", retryUp: "packages/client/src/utils/retry-transient-upload-errors.ts",
}, { real: realPackages() })).code });
const DATA = "/data";
const mkProc = (sim, name, o = {}) => new Proc(sim, name, { modules: npmModules, ...o, env: { METICULOUS_DIR: DATA, METICULOUS_OAUTH_ISSUER_URL: "https://idp.sim/realm", ...(o.env ?? {}) } });
const settled = (p) => p.then((v) => ({ ok: true, v }), (e) => ({ ok: false, e }));
const errText = (e) => (e instanceof Error ? `${e.name}: ${e.message}` : String(e)).slice(0, 160);

// ------------------------------------------------------------------ C01
const nest = (sim, code, message = "fetch failed") => {
  let e = Object.assign(new Error(code), { code });
  for (let i = sim.int("w:nest", 0, 2); i > 0; i--) e = Object.assign(new TypeError(message), { cause: e });
  return e;
};
const httpError = (status, headers = {}) => Object.assign(new Error(`HTTP ${status}: x`), { response: { status, statusText: "x", data: null, headers } });
const TRANSIENT_CODES = ["ECONNRESET", "ETIMEDOUT", "ECONNREFUSED", "ENOTFOUND", "UND_ERR_CONNECT_TIMEOUT", "UND_ERR_HEADERS_TIMEOUT", "UND_ERR_SOCKET"];
const transientApi = (sim) => sim.pick("w:te", [
  () => Object.assign(new Error("aborted"), { name: "AbortError" }), () => new DOMException("This operation was aborted", "AbortError"),
  () => nest(sim, sim.pick("w:code", TRANSIENT_CODES)), () => nest(sim, sim.pick("w:code", TRANSIENT_CODES)),
  () => httpError(429), () => httpError(sim.pick("w:5xx", [500, 502, 503, 504])), () => httpError(503),
])();
const permanentApi = (sim) => sim.pick("w:pe", [
  () => httpError(400), () => httpError(401), () => httpError(403), () => httpError(404), () => httpError(409), () => httpError(422),
  () => new TypeError("x is not a function"), () => new SyntaxError("Unexpected token"), () => nest(sim, "CERT_HAS_EXPIRED"), () => nest(sim, "EACCES"),
])();

export const runRetry = async (sim, { scripts }) => {
  const K = sim.prop;
  const proc = mkProc(sim, "cli", { disk: new Disk(sim), clockOffset: sim.pick("w:skew", [0, -3600e3, 86400e3]) });
  const { retry } = proc.load(scripts.cl);
  const fractions = [];
  const one = async (n) => {
    const opts = {};
    if (sim.chance("w:mr", 0.5)) opts.maxRetries = sim.int("w:maxr", 0, 5);
    if (sim.chance("w:rd", 0.4)) opts.retryDelay = sim.pick("w:rdv", [100, 250, 2000, 20000]);
    if (sim.chance("w:mrd", 0.4)) opts.maxRetryDelay = sim.pick("w:mrdv", [200, 1500, 5000, 60000]);
    const custom = sim.chance("w:custom", 0.2);
    if (custom) opts.shouldRetry = (e) => e.again === true;
    const maxR = opts.maxRetries ?? 3, base = opts.retryDelay ?? 1000, cap = opts.maxRetryDelay ?? 30000;
    const attempts = []; // {start,end,outcome,transient,ra}
    const op = async () => {
      const a = { start: sim.now }; attempts.push(a);
      sim.check(attempts.length <= maxR + 1, `${K}.too-many`, () => `attempt ${attempts.length} with ${maxR} retries allowed`);
      await sim.sleep(sim.latency("lat:op", 0, 3000));
      a.end = sim.now;
      const k = sim.weighted("f:out", [3, 6, 2]);
      if (k === 0) { a.value = { n, i: attempts.length }; return a.value; }
      a.transient = k === 1;
      let e = custom ? Object.assign(new Error("op"), { again: a.transient }) : a.transient ? transientApi(sim) : permanentApi(sim);
      sim.fault(a.transient ? "op:transient" : "op:permanent");
      if (sim.chance("f:ra", 0.3)) {
        const secs = sim.pick("f:ras", [0, 1, 5, 20, 120]);
        const form = sim.int("f:raf", 0, 4);
        const wall = proc.nowMs();
        const v = form === 0 ? String(secs) : form === 1 ? new Date(wall + secs * 1000).toUTCString() : form === 2 ? [String(secs)] : form === 3 ? "soon" : String(-secs - 1);
        if (!e.response) Object.assign(e, { response: { status: custom ? 503 : undefined, headers: {} } });
        e.response.headers = { [sim.pick("f:rah", ["retry-after", "Retry-After"])]: v };
        a.ra = form === 3 ? null : form === 4 ? 0 : form === 1 ? Math.max(0, Date.parse(v) - wall) : secs * 1000;
      }
      a.err = e; throw e;
    };
    const r = await settled(retry.executeWithRetry(op, opts));
    const last = attempts[attempts.length - 1];
    if (sim.stopped) return;
    if (r.ok) sim.check(last.value === r.v && r.v !== undefined, `${K}.result`, () => `returned ${JSON.stringify(r.v)} but the last attempt gave ${last.value ? JSON.stringify(last.value) : `error ${errText(last.err)}`}`);
    else sim.check(last.err === r.e, `${K}.result`, () => `rejected with ${errText(r.e)} but the last attempt ${last.err ? `failed with ${errText(last.err)}` : "succeeded"}`);
    if (last.err && last.transient) sim.check(attempts.length === maxR + 1, `${K}.gave-up`, () => `gave up after ${attempts.length} attempts on a transient failure (${errText(last.err)}) with ${maxR} retries allowed`);
    for (let i = 0; i + 1 < attempts.length; i++) {
      const a = attempts[i], wait = attempts[i + 1].start - a.end;
      if (!sim.check(a.err && a.transient, `${K}.retried-permanent`, () => `retried after ${a.err ? errText(a.err) : "success"}`)) return;
      if (a.ra != null) {
        const lo = Math.min(a.ra, cap), hi = Math.min(a.ra + 1000, cap);
        sim.check(wait >= lo - 1.01 && wait <= hi + 1.01, `${K}.retry-after`, () => `waited ${wait} ms after a Retry-After of ${a.ra} ms (cap ${cap})`);
        sim.probe("retryAfter");
      } else {
        const c = Math.min(base * 2 ** i, cap);
        sim.check(wait >= c / 2 - 1.01 && wait <= c + 1.01, `${K}.backoff`, () => `waited ${wait} ms before attempt ${i + 2}, expected between ${c / 2} and ${c}`);
        fractions.push((wait - c / 2) / (c / 2)); sim.probe("backoff");
      }
    }
    sim.probe(r.ok ? "retryOk" : "retryFailed");
  };
  const st = await sim.run(async () => { await Promise.all(Array.from({ length: sim.int("w:ops", 1, 5) }, (_, n) => one(n))); }, { maxTime: 3600e3 * 4 });
  sim.check(st === "done" || st === "violation", `${K}.hang`, `retry did not settle (${st})`);
  if (!sim.stopped && fractions.length >= 6) sim.check(Math.max(...fractions) - Math.min(...fractions) > 0.01, `${K}.no-jitter`, () => `${fractions.length} waits all used the same share ${fractions[0].toFixed(3)} of the jitter window`);
  if (!sim.stopped) sim.check(proc.activeTimers().length === 0, `${K}.timer-left`, "a timer was left behind by a finished retry");
  return { sample: { fractions: fractions.length } };
};

const UP_TRANSIENT = [429, 500, 502, 503, 504], UP_CODES = ["ECONNRESET", "ETIMEDOUT", "ECONNABORTED", "EAI_AGAIN", "EPIPE"];
export const runUploadRetry = async (sim, { scripts }) => {
  const K = sim.prop;
  const proc = mkProc(sim, "cli", { disk: new Disk(sim) });
  const { client, retryUp } = proc.load(scripts.cl);
  const one = async () => {
    const opts = {}; if (sim.chance("w:ma", 0.5)) opts.maxAttempts = sim.int("w:maxa", 1, 6);
    if (sim.chance("w:bd", 0.5)) opts.baseDelayMs = sim.pick("w:bdv", [10, 1000, 40000]);
    const told = []; if (sim.chance("w:cb", 0.5)) opts.onRetry = (n, e) => told.push([n, e]);
    const max = opts.maxAttempts ?? 5, base = opts.baseDelayMs ?? 200; const attempts = [];
    const op = () => {
      const a = { start: sim.now }; attempts.push(a);
      sim.check(attempts.length <= max, `${K}.too-many`, () => `upload attempt ${attempts.length} of at most ${max}`);
      const k = sim.weighted("f:out", [2, 6, 2]);
      const finish = () => {
        a.end = sim.now; if (k === 0) { a.value = { i: attempts.length }; return a.value; }
        a.transient = k === 1; sim.fault(a.transient ? "upload:transient" : "upload:permanent");
        const byStatus = sim.chance("f:st", 0.5);
        a.err = byStatus ? new client.UploadError(sim.pick("f:us", a.transient ? UP_TRANSIENT : [400, 401, 403, 404, 412]), "x") : sim.pick("f:uc", a.transient ? UP_CODES : ["ENOENT", "EACCES", null]);
        if (!byStatus) a.err = Object.assign(new Error("net"), a.err ? { code: a.err } : {});
        throw a.err;
      };
      if (sim.chance("w:sync", 0.2)) return finish();
      return sim.sleep(sim.latency("lat:op", 0, 2000)).then(finish);
    };
    const r = await settled(retryUp.retryTransientUploadErrors(op, opts));
    if (sim.stopped) return;
    const last = attempts[attempts.length - 1];
    if (r.ok) sim.check(last.value !== undefined && last.value === r.v, `${K}.result`, "resolved with something other than the last attempt's result");
    else sim.check(last.err === r.e, `${K}.result`, () => `rejected with ${errText(r.e)}, not the last attempt's error`);
    if (last.err && last.transient) sim.check(attempts.length === max, `${K}.gave-up`, () => `gave up after ${attempts.length} of ${max} attempts on ${errText(last.err)}`);
    for (let i = 0; i + 1 < attempts.length; i++) {
      const a = attempts[i], wait = attempts[i + 1].start - a.end;
      if (!sim.check(a.err && a.transient, `${K}.retried-permanent`, () => `repeated an upload after ${a.err ? errText(a.err) : "success"}`)) return;
      const lo = Math.min(base * 2 ** i * 0.5, 30e3), hi = Math.min(base * 2 ** i * 1.5, 30e3);
      sim.check(wait >= lo - 1.01 && wait <= hi + 1.01, `${K}.backoff`, () => `waited ${wait} ms before upload attempt ${i + 2}, expected ${lo}..${hi}`);
    }
    sim.probe(r.ok ? "uploadOk" : "uploadFailed");
  };
  const st = await sim.run(async () => { await Promise.all(Array.from({ length: sim.int("w:ops", 1, 4) }, one)); }, { maxTime: 3600e3 });
  sim.check(st === "done" || st === "violation", `${K}.hang`, `upload retry did not settle (${st})`);
  return { sample: {} };
};

// ------------------------------------------------------------------ API calls (C01 over the wire, C02)
const apiFault = (sim, p) => (info) => {
  if (!sim.chance("f:net", p)) return null;
  const k = sim.pick("f:netk", ["refuse", "lost", "stall", "stallAfter", "cut", "stallBody", "slow", "slow", "status", "status", "status", "status"]);
  if (k === "status") return { kind: "status", status: sim.pick("f:st", [500, 502, 503, 503, 504, 429, 429, 400, 401, 403, 404, 409]), ra: sim.chance("f:ra", 0.35) ? sim.pick("f:ras", ["0", "2", "15", "300", "date"]) : null, json: sim.chance("f:ej", 0.6) };
  if (k === "cut" || k === "stallBody") return { kind: k, after: sim.int("f:after", 0, 3) };
  if (k === "slow") return { kind: k, delay: sim.pick("f:slow", [500, 4e3, 30e3, 59e3, 75e3]) };
  if (k === "refuse") return { kind: k, code: sim.pick("f:rc", ["ECONNREFUSED", "ENOTFOUND", "UND_ERR_CONNECT_TIMEOUT", "ETIMEDOUT"]), delay: sim.pick("f:rd", [1, 1000, 10e3]) };
  return { kind: k };
};
export const runApi = async (sim, { scripts }) => {
  const K = sim.prop;
  const pFault = sim.pick("w:pf", [0, 0.2, 0.5, 0.8]);
  const disk = new Disk(sim);
  const apiUrl = sim.pick("w:api", [undefined, "https://api.sim/api", "https://api.sim/api/"]);
  const suffix = sim.chance("w:sfx", 0.5) ? "harness/1" : undefined;
  const proc = mkProc(sim, "cli", { disk, clockOffset: sim.pick("w:skew", [0, -7200e3, 3600e3]), env: apiUrl ? { METICULOUS_API_URL: apiUrl } : {} });
  const calls = new Map(); let open = 0; let nonce = 0;
  const plan = apiFault(sim, pFault);
  proc.opts.fetch = simFetch(proc, { name: "api", latency: [1, 80], chunks: 4, undiciTimeouts: true,
    onOpen: (info) => { open++; const c = calls.get(info.headers.get("x-call")); info.attempt = { t: sim.now, url: info.url, method: info.method, headers: Object.fromEntries(info.headers.entries()) }; c?.attempts.push(info.attempt); if (c) sim.check(c.attempts.length <= 4, `${K}.too-many`, () => `attempt ${c.attempts.length} of call ${c.id}`); },
    onClose: (info) => { open--; info.attempt.closed = sim.now; },
    faultFor: (info) => { const f = plan(info); const c = calls.get(info.headers.get("x-call")); const a = c?.attempts[c.attempts.length - 1]; info.at = info.attempt; if (info.attempt) { info.attempt.fault = f; info.attempt.body = info.body.toString(); } return f; },
    handle: (info, f) => {
      const a = info.attempt; const c = calls.get(info.headers.get("x-call"));
      if (f?.kind === "status") {
        const h = { "content-type": f.json ? "application/json; charset=utf-8" : "text/html", "x-nonce": String(++nonce) };
        if (f.ra) { h["retry-after"] = f.ra === "date" ? new Date(proc.nowMs() + 7000).toUTCString() : f.ra; }
        const body = { message: `failure ${nonce}`, nonce }; a.answer = { status: f.status, data: f.json ? body : `<html>${nonce}</html>`, headers: h, sent: sim.now };
        return { status: f.status, headers: h, body: f.json ? JSON.stringify(body) : a.answer.data };
      }
      const kind = c?.reply ?? "json"; const n = ++nonce;
      const data = kind === "json" ? { nonce: n, list: Array.from({ length: c.len }, (_, i) => `v${i}é`) } : kind === "text" ? `text ${n} ${"x".repeat(c.len * 10)}` : kind === "null" ? null : "";
      a.answer = { status: kind === "created" ? 201 : 200, data: kind === "created" ? "" : data, bad: kind === "badjson", headers: {}, sent: sim.now };
      if (kind === "badjson") return { headers: { "content-type": "application/json" }, body: "{oops" };
      if (kind === "created") return { status: 201, body: "" };
      return { headers: { "content-type": kind === "text" ? "text/plain" : "application/json" }, body: kind === "text" ? data : JSON.stringify(data) };
    } });
  const { core } = proc.load(scripts.cl);
  const logger = { warn() {}, debug() {}, info() {}, error() {} };
  const tokenKind = sim.int("w:tok", 0, 3);
  let tokenNo = 0; let current = tokenKind === 1 ? "prat-fixed" : null;
  const token = tokenKind < 2 ? current : tokenKind === 2 ? async () => { await sim.sleep(sim.int("lat:tok", 0, 20)); return current; } : async () => null;
  const cl = core.buildClient(token, logger, suffix);
  if (tokenKind === 2) { current = "tok-0"; for (let i = 0; i < 4; i++) sim.at(sim.int("w:rot", 0, 200e3), () => { current = `tok-${++tokenNo}`; }, { name: "rotate", daemon: true }); }
  const call = async (i) => {
    await sim.sleep(sim.pick("w:start", [0, 0, 100, 20e3]));
    const id = `c${i}`; const method = sim.pick("w:m", ["get", "post", "put", "delete"]);
    const c = { id, attempts: [], reply: sim.pick("w:rep", ["json", "json", "json", "text", "created", "null", "badjson"]), len: sim.int("w:len", 0, 30), t0: sim.now };
    calls.set(id, c);
    const config = { headers: { "x-call": id } };
    if (sim.chance("w:to", 0.3)) config.timeout = sim.pick("w:tov", [2000, 10e3, 90e3]);
    if (sim.chance("w:par", 0.5)) config.params = { a: "x y&z", n: i, skip: undefined, none: null };
    const data = sim.chance("w:body", 0.7) ? { i, s: "é".repeat(sim.int("w:bl", 0, 20)) } : undefined;
    c.expectBody = (method === "post" || method === "put") && data !== undefined ? JSON.stringify(data) : "";
    const tok0 = current;
    const args = method === "post" || method === "put" ? [`x/${id}?k=1`, data, config] : [`/x/${id}?k=1`, config];
    const tokAt = []; const r = await settled(cl[method](...args));
    c.end = sim.now;
    if (sim.stopped) return;
    const A = c.attempts, last = A[A.length - 1], what = `${method} ${id}`;
    const timeout = config.timeout ?? 60e3;
    if (!sim.check(A.length >= 1, `${K}.no-attempt`, `${what} ended without any request`)) return;
    // every attempt is the same request with credentials
    for (const a of A) {
      const u = new URL(a.url);
      sim.check(u.origin + u.pathname === `${apiUrl ? "https://api.sim/api" : "https://app.meticulous.ai/api"}/x/${id}` && u.searchParams.get("k") === "1", `${K}.url`, () => `${what} was sent to ${a.url}`);
      if (config.params) sim.check(u.searchParams.get("a") === "x y&z" && u.searchParams.get("n") === String(i) && !u.searchParams.has("skip") && !u.searchParams.has("none"), `${K}.url`, () => `${what} lost its parameters: ${a.url}`);
      if (a.body !== undefined) sim.check(a.body === c.expectBody, `${K}.body`, () => `${what} sent body ${a.body}, expected ${c.expectBody}`);
      sim.check(a.method === method.toUpperCase(), `${K}.method`, () => `${what} sent as ${a.method}`);
      const auth = a.headers.authorization ?? null;
      if (tokenKind === 1) sim.check(auth === "prat-fixed", `${K}.credentials`, () => `${what} carried ${auth}`);
      else if (tokenKind === 2) { const lo = Number(tok0.slice(4)), got = auth === null ? -1 : Number(auth.slice(4)); sim.check(got >= lo, `${K}.credentials`, () => `${what} carried ${auth}, older than ${tok0} which was current when the call started`); }
      else sim.check(auth === null, `${K}.credentials`, () => `${what} carried unexpected credentials ${auth}`);
      sim.check((a.headers["user-agent"] ?? "").startsWith("@alwaysmeticulous/client/") && (!suffix || a.headers["user-agent"].endsWith(suffix)), `${K}.agent`, () => `${what} sent user-agent ${a.headers["user-agent"]}`);
    }
    // outcome of each attempt as seen by a client
    const view = (a) => {
      const f = a.fault?.kind; const ans = a.answer;
      if (f === "refuse" || f === "lost" || f === "stall" || f === "stallAfter") return { fail: "net" };
      if (!ans) return { fail: "net" }; // timed out before the server answered
      if (f === "cut") return { fail: "net", maybe: ans };
      if (f === "stallBody") return { fail: "body", maybe: ans };
      return { ans };
    };
    const v = view(last);
    if (r.ok) {
      const ans = v.ans ?? v.maybe;
      sim.check(ans && ans.status < 300 && !ans.bad && r.v.status === ans.status && isDeepStrictEqual(r.v.data, ans.data) && v.fail === undefined, `${K}.result`, () => `${what} returned ${JSON.stringify(r.v).slice(0, 120)}; the last attempt was ${JSON.stringify({ f: last.fault, a: last.answer })}`);
    } else if (v.ans) {
      const ans = v.ans, e = r.e;
      const late = ans.sent - last.t >= timeout - 400; // answer may have lost against the timeout
      if (ans.status >= 300) {
        const named = e?.response?.status === ans.status && isDeepStrictEqual(e.response.data, ans.data) && e.response.headers["x-nonce"] === ans.headers["x-nonce"] && e.message.includes(String(ans.status));
        sim.check(named || (late && e?.name === "AbortError"), `${K}.error-detail`, () => `${what} failed with ${errText(e)} (response ${JSON.stringify(e?.response)}) instead of ${JSON.stringify(ans)}`);
        if (named && (tokenKind === 0 || tokenKind === 3) && (ans.status === 401 || ans.status === 403)) sim.check(/METICULOUS_API_TOKEN/.test(e.message), `${K}.error-detail`, () => `${what}: no hint about missing credentials in "${e.message}"`);
      } else if (!ans.bad) sim.check(late, `${K}.lost-answer`, () => `${what} failed with ${errText(e)} though its last attempt was answered ${ans.status} in time`);
    }
    // retry policy on the wire
    for (let k = 0; k < A.length; k++) {
      const a = A[k], w = view(a); const final = k === A.length - 1;
      const s = w.ans?.status; const transient = w.fail === "net" || (s !== undefined && (s === 429 || s >= 500));
      const slow = w.ans && w.ans.sent - a.t >= timeout - 400;
      if (!final) sim.check(transient || slow, `${K}.retried-permanent`, () => `${what} was repeated after ${JSON.stringify({ f: a.fault, a: a.answer })}`);
      else if (!r.ok && transient && !w.maybe && !slow) sim.check(A.length === 4, `${K}.gave-up`, () => `${what} gave up after ${A.length} attempts on ${JSON.stringify(a.fault)}`);
      if (!final && a.closed !== undefined) {
        const wait = A[k + 1].t - a.closed; const ra = w.ans?.headers?.["retry-after"];
        const hi = ra !== undefined ? Math.min(30e3, (/^\d+$/.test(ra) ? Number(ra) * 1000 : 8000) + 1000) : Math.min(30e3, 1000 * 2 ** k);
        const lo = ra !== undefined ? (/^\d+$/.test(ra) ? Math.min(30e3, Number(ra) * 1000) : 0) : Math.min(30e3, 1000 * 2 ** k) / 2;
        if (!slow) sim.check(wait >= lo - 2 && wait <= hi + 2, `${K}.backoff`, () => `${what} waited ${wait} ms before attempt ${k + 2}, expected ${lo}..${hi}`);
      }
    }
    sim.check(c.end - c.t0 <= 4 * (timeout + 5 * 301e3) + 91e3, `${K}.unbounded`, () => `${what} took ${c.end - c.t0} ms`);
    sim.check(!A.some((a) => a.answer === undefined && a.closed !== undefined && a.closed - a.t > timeout + 10), `${K}.timeout`, () => `${what}: an attempt without answer lasted longer than its timeout of ${timeout} ms`);
    sim.probe(r.ok ? "callOk" : v.ans ? "callHttpError" : "callNetError"); if (A.length > 1) sim.probe("callRetried");
  };
  const n = sim.int("w:calls", 1, 4);
  const st = await sim.run(() => Promise.all(Array.from({ length: n }, (_, i) => call(i))), { maxTime: 4 * 3600e3 });
  sim.check(st === "done" || st === "violation", `${K}.hang`, `an API call never settled (${st})`);
  if (!sim.stopped && K === "C02") {
    sim.check(proc.activeTimers().length === 0, `${K}.timer-left`, () => `${proc.activeTimers().length} timer(s) left behind after all calls ended, the longest ${Math.max(...proc.activeTimers().map((t) => t._d))} ms`);
    sim.check(open === 0, `${K}.request-left`, () => `${open} request(s) still open after all calls ended`);
    sim.check(sim.unhandled.length === 0, `${K}.unhandled`, () => `unhandled rejection: ${errText(sim.unhandled[0].reason)}`);
  }
  return { sample: { calls: n, attempts: [...calls.values()].reduce((a, c) => a + c.attempts.length, 0) } };
};

// ------------------------------------------------------------------ C03 signed uploads
export const storageFault = (sim, p) => (info) => {
  if (!sim.chance("f:put", p)) return null;
  const k = sim.pick("f:putk", ["refuse", "reset", "reset", "lost", "cut", "cut", "status", "status", "early", "slow"]);
  const len = Number(info.headers.get("content-length") ?? 0);
  if (k === "reset") return { kind: k, after: sim.pick("f:rafter", [0, 1, Math.floor(len / 2), len]), code: sim.pick("f:rcode", ["ECONNRESET", "EPIPE"]) };
  if (k === "refuse") return { kind: k, code: sim.pick("f:rcode2", ["ECONNREFUSED", "ETIMEDOUT", "EAI_AGAIN", "ENOTFOUND"]) };
  if (k === "status" || k === "early") return { kind: k, status: sim.pick("f:pst", [500, 503, 503, 429, 403, 400, 307, 301, 304]), after: sim.pick("f:eafter", [0, Math.floor(len / 2)]) };
  if (k === "cut") return { kind: k, after: sim.int("f:cafter", 0, 2) };
  if (k === "slow") return { kind: k, delay: 20e3 };
  return { kind: k };
};
export const runSignedUpload = async (sim, { scripts }) => {
  const K = sim.prop;
  const disk = new Disk(sim); const p = sim.pick("w:pf", [0, 0.3, 0.6, 0.9]);
  const proc = mkProc(sim, "cli", { disk, fsLatency: [0, 5], fsFault: (op, pth) => (pth.startsWith("/up") && sim.chance("f:fs", p ? 0.03 : 0) ? (badDisk.add(pth), "EIO") : null) });
  const store = new Map(); const puts = new Map(); const badDisk = new Set();
  const plan = storageFault(sim, p);
  let open = 0;
  proc.opts.httpNet = { name: "storage", latency: [1, 60], chunks: 3, onOpen: (info) => { open++; (puts.get(info.path) ?? puts.set(info.path, []).get(info.path)).push(info); }, onClose: () => { open--; },
    faultFor: (info) => (info.fault = plan(info)),
    handle: (info) => { if (info.query.get("sig") !== "ok") return { status: 403, body: "SignatureDoesNotMatch" }; info.accepted = true; store.set(info.path, { data: info.body, type: info.headers.get("content-type") }); return { status: 200, body: sim.chance("w:rb", 0.5) ? "" : "<ok/>" }; } };
  const { client } = proc.load(scripts.cl);
  const up = async (i) => {
    const len = sim.pick("w:size", [0, 1, 100, 16384, 65536, 70000, 200000]); const data = Buffer.alloc(len, 97 + i); for (let k = 0; k < len; k += 997) data[k] = (k / 997 + i) & 255;
    const file = `/up/f${i}`; const missing = sim.chance("w:missing", 0.05);
    if (!missing) disk.write(file, data);
    const badSig = sim.chance("w:sig", 0.1); const key = `/bucket/o${i}`;
    const url = `${sim.pick("w:sch", ["https", "http"])}://store.sim${key}?sig=${badSig ? "no" : "ok"}`;
    const retry = sim.chance("w:retry", 0.6); const opt = retry && sim.chance("w:ma", 0.5) ? { maxAttempts: sim.int("w:maxa", 1, 4) } : {};
    let attempts = 0; const outcomes = [];
    const op = async () => { attempts++; try { await client.putFileToSignedUrl({ filePath: file, signedUrl: url, size: len, contentType: "application/zip" }); outcomes.push(null); } catch (e) { outcomes.push(e); throw e; } };
    const r = await settled(retry ? client.retryTransientUploadErrors(op, opt) : op());
    if (sim.stopped) return;
    const list = puts.get(key) ?? [];
    sim.check(attempts <= (retry ? opt.maxAttempts ?? 5 : 1), `${K}.too-many`, () => `${attempts} upload attempts`);
    sim.check(list.length <= attempts, `${K}.too-many`, () => `${list.length} requests for ${attempts} attempts`);
    const s = store.get(key);
    if (r.ok) {
      sim.check(s && s.data.equals(data) && list[list.length - 1].accepted, `${K}.false-success`, () => `upload of ${len} bytes reported success; storage holds ${s ? `${s.data.length} bytes` : "nothing"}, last request ${list[list.length - 1]?.fault?.kind ?? "clean"}`);
      if (s) sim.check(s.type === "application/zip", `${K}.type`, () => `stored with content type ${s.type}`);
      sim.probe("uploaded");
    } else {
      sim.check(r.e instanceof proc.G.Error || r.e instanceof Error, `${K}.error`, () => `rejected with ${String(r.e)}`);
      const lastPut = list[list.length - 1];
      if (lastPut && !lastPut.fault && !missing && !badSig && !badDisk.has(file) && lastPut.accepted) sim.check(false, `${K}.false-failure`, () => `upload failed with ${errText(r.e)} though storage accepted it undisturbed`);
      if (badSig && lastPut && !lastPut.fault && outcomes[outcomes.length - 1] instanceof client.UploadError) { sim.check(r.e.statusCode === 403 && attempts === list.length, `${K}.error`, () => `refused upload failed with ${errText(r.e)}`); }
      sim.probe("uploadFailed");
    }
    const transient = (e) => (e instanceof client.UploadError ? UP_TRANSIENT.includes(e.statusCode) : UP_CODES.includes(e?.code));
    for (let k = 0; k + 1 < outcomes.length; k++) sim.check(outcomes[k] && transient(outcomes[k]), `${K}.retried-permanent`, () => `repeated after ${outcomes[k] ? errText(outcomes[k]) : "success"}`);
    // a transient answer of storage has to be recognisable as such
    for (const q of list) if (q.fault?.kind === "status" && !badSig) sim.probe(`status${q.fault.status}`);
  };
  const n = sim.int("w:n", 1, 3);
  const st = await sim.run(() => Promise.all(Array.from({ length: n }, (_, i) => up(i))), { maxTime: 3600e3 });
  sim.check(st === "done" || st === "violation", `${K}.hang`, () => `an upload never settled (${st}); requests: ${[...puts.values()].flat().map((i) => i.fault?.kind ?? "clean").join(",")}`);
  if (!sim.stopped) { await sim.settle(60e3); sim.check(open === 0, `${K}.request-left`, () => `${open} upload request(s) still open after the uploads ended`);
    sim.check(sim.unhandled.length === 0 && proc.uncaughtErrors.length === 0, `${K}.unhandled`, () => `unhandled error: ${errText(sim.unhandled[0]?.reason ?? proc.uncaughtErrors[0])}`); }
  return { sample: { uploads: n, requests: [...puts.values()].flat().length } };
};

// ------------------------------------------------------------------ identity provider model
const b64u = (b) => Buffer.from(b).toString("base64url");
export class Idp {
  constructor(sim, o = {}) { this.sim = sim; this.o = o; this.access = new Map(); this.refresh = new Map(); this.codes = new Map(); this.devices = new Map(); this.n = 0; this.log = []; }
  jwt(n, expMs, session) { return `${b64u(`{"alg":"none","n":${n}}`)}.${b64u(JSON.stringify({ sub: this.o.subject?.(session) ?? "u", n, exp: Math.floor(expMs / 1000) }))}.sig${n}`; }
  issue(tag, session, withRefresh = true) {
    const life = this.o.life ?? 300; const n = ++this.n; const now = this.sim.now;
    const at = this.jwt(n, 1768471200000 + now + life * 1000, session); const t = { n, at, exp: now + life * 1000, session, tag };
    this.access.set(at, t);
    const out = { access_token: at, expires_in: life, token_type: "Bearer" };
    if (withRefresh) { out.refresh_token = `rt-${n}-${session}`; this.refresh.set(out.refresh_token, { n, session, uses: 0, valid: true, at }); }
    if (n % 2) out.id_token = `id-${n}`;
    return out;
  }
  refreshGrant(rt) {
    const r = this.refresh.get(rt);
    if (!r || !r.valid) return { status: 400, body: { error: "invalid_grant" } };
    r.uses++;
    if (this.o.rotate) { r.valid = (this.o.grace ?? 0) >= r.uses; return { status: 200, body: this.issue("refresh", r.session) }; }
    return { status: 200, body: this.issue("refresh", r.session, false) };
  }
  token(form) {
    const g = form.get("grant_type"); const e = (error, status = 400) => ({ status, body: { error } });
    if (form.get("client_id") !== "meticulous-cli") return e("invalid_client", 401);
    if (g === "refresh_token") return this.refreshGrant(form.get("refresh_token"));
    const s256 = (v) => createHash("sha256").update(v ?? "").digest("base64url");
    if (g === "authorization_code") {
      const c = this.codes.get(form.get("code"));
      if (!c || c.used) return e("invalid_grant");
      if (c.challenge !== s256(form.get("code_verifier")) || c.redirect !== form.get("redirect_uri")) return e("invalid_grant");
      c.used = true; return { status: 200, body: this.issue(`login:${c.attempt}`, `s${c.attempt}`) };
    }
    if (g === "urn:ietf:params:oauth:grant-type:device_code") {
      const d = this.devices.get(form.get("device_code")); const now = this.sim.now;
      if (!d || d.challenge !== s256(form.get("code_verifier"))) return e("invalid_grant");
      if (d.used) return e("invalid_grant");
      if (now >= d.expires) return e("expired_token");
      if (d.slow > 0 && this.sim.chance("w:slowdown", 0.5)) { d.slow--; d.interval += 5; return e("slow_down"); }
      if (d.denyAt !== undefined && now >= d.denyAt) return e("access_denied");
      if (d.approveAt !== undefined && now >= d.approveAt) { d.used = true; return { status: 200, body: this.issue(`device:${d.code}`, d.code) }; }
      return e("authorization_pending");
    }
    return e("unsupported_grant_type");
  }
  fetchOpts(proc, extra = {}) {
    return { name: "idp", latency: [1, 60], chunks: 2, undiciTimeouts: true, ...extra, handle: (info, f) => {
      if (f?.kind === "status") return { status: f.status, body: { error: "server_error" } };
      if (info.host === "idp.sim") {
        if (info.path.endsWith("/.well-known/openid-configuration")) return { status: 200, body: { token_endpoint: "https://idp.sim/token", ...(this.o.noDevice ? {} : { device_authorization_endpoint: "https://idp.sim/device" }) } };
        const form = new URLSearchParams(info.body.toString());
        if (info.path === "/token") { const r = this.token(form); info.result = r; extra.onToken?.(info, form, r); return { status: r.status, headers: { "content-type": "application/json" }, body: JSON.stringify(r.body) }; }
        if (info.path === "/device") { const r = extra.onDevice(info, form); return { status: r.status, headers: { "content-type": "application/json" }, body: JSON.stringify(r.body) }; }
      }
      return extra.api(info, f);
    } };
  }
}
const TOKENS = `${DATA}/oauth-tokens.json`;
const parseTokens = (disk) => { if (!disk.exists(TOKENS)) return null; try { return JSON.parse(disk.read(TOKENS).toString()); } catch { return undefined; } };

// ------------------------------------------------------------------ C04
export const runRefresh = async (sim, { scripts }) => {
  const K = sim.prop;
  const disk = new Disk(sim); disk.mkdir(DATA, { recursive: true });
  const idp = new Idp(sim, { rotate: sim.chance("w:rot", 0.7), grace: sim.pick("w:grace", [0, 0, 1]), life: sim.pick("w:life", [60, 300]) });
  const pf = sim.pick("w:pf", [0, 0, 0.15, 0.4]);
  const offset = sim.pick("w:skew", [0, 0, -3600e3, 3600e3]);
  const starting = new Map(); // call id -> start time
  const failedRt = new Set(); // refresh tokens with which a refresh attempt was refused or disturbed
  const triedRt = new Map(); const sends = [];
  const onApi = (info) => {
    const auth = info.headers.get("authorization"); const c = starting.get(info.headers.get("x-call"));
    if (auth === null) { if (c) c.sentNone = true; return { status: 401, body: { message: "no auth" } }; }
    const t = idp.access.get(auth); if (auth === "env-token" || auth === "file-token") { return { status: 200, body: { as: auth } }; }
    if (!t) return { status: 401, body: { message: "unknown" } };
    return { status: info.t >= t.exp ? 401 : 200, body: { n: t.n } };
  };
  const onOpen = (info) => {
    if (info.host === "idp.sim") return;
    const auth = info.headers.get("authorization"); const c = starting.get(info.headers.get("x-call")); if (!c) return; c.sent.push(auth);
    const t = auth ? idp.access.get(auth) : null;
    if (auth && !t && auth.includes(".")) { sim.check(false, `${K}.unknown-token`, `a token the provider never issued was sent: ${auth.slice(0, 20)}`); return; }
    if (t && c.sent.length === 1) sim.check(t.exp > sim.now + 20e3, `${K}.expired-sent`, () => `call ${c.id} sent login token ${t.n} with ${t.exp - sim.now} ms left (issued for ${idp.o.life} s)`);
  };
  const faultFor = (info) => {
    if (info.host !== "idp.sim") return null;
    let f = null;
    if (sim.chance("f:idp", pf)) { const k = sim.pick("f:idpk", ["refuse", "lost", "cut", "slow", "status", "status", "stallBody"]); f = k === "status" ? { kind: k, status: sim.pick("f:ist", [500, 503, 429]) } : k === "slow" ? { kind: k, delay: sim.pick("f:isl", [2e3, 20e3]) } : { kind: k, after: 0 }; }
    if (info.path === "/token") { const rt = new URLSearchParams(info.body.toString()).get("refresh_token"); triedRt.set(rt, (triedRt.get(rt) ?? 0) + 1); if (f && f.kind !== "slow") failedRt.add(rt); }
    else if (f && f.kind !== "slow") { const cur = parseTokens(disk); if (cur?.refreshToken) failedRt.add(cur.refreshToken); for (const r of idp.refresh.keys()) if (r) failedRtAny = true; }
    return f;
  };
  let failedRtAny = false; // discovery failed: any refresh in progress may have been disturbed
  const onToken = (info, form, r) => { if (r.status !== 200) failedRt.add(form.get("refresh_token")); };
  // initial token file
  const first = sim.weighted("w:first", [3, 6, 1, 1, 1]); // fresh, (nearly) expired, missing, corrupt, no refresh token
  let loggedIn = first <= 1;
  const setFile = (o) => disk.write(TOKENS, Buffer.from(typeof o === "string" ? o : JSON.stringify(o)));
  const mkTokens = (leftMs) => { const t = idp.issue("initial", "s0"); idp.access.get(t.access_token).exp = sim.now + leftMs; return { accessToken: t.access_token, refreshToken: t.refresh_token, expiresAt: Math.floor((1768471200000 + sim.now + leftMs + offset) / 1000) }; };
  if (first === 0) setFile(mkTokens(sim.pick("w:left", [120e3, 45e3])));
  else if (first === 1) setFile(mkTokens(sim.pick("w:left2", [-5000, 0, 10e3, 29e3])));
  else if (first === 3) setFile(sim.pick("w:corrupt", ["", "{", "null", "[]", '"x"', "12", '{"accessToken":"a.b.c"', "\u0000\u0000", "{}", '{"expiresAt":"never"}']));
  else if (first === 4) setFile({ ...mkTokens(-1000), refreshToken: undefined });
  const fallback = sim.weighted("w:fb", [5, 2, 2]); // none, env, config file
  if (fallback === 2) disk.write(`${DATA}/config.json`, Buffer.from('{"apiToken":"file-token"}'));
  const nProc = sim.int("w:procs", 1, 3); const procs = [];
  const mk = (i) => { const proc = mkProc(sim, `cli${i}`, { disk, clockOffset: offset, env: fallback === 1 ? { METICULOUS_API_TOKEN: "env-token" } : {} });
    proc.opts.fetch = simFetch(proc, idp.fetchOpts(proc, { api: onApi, onToken, onOpen, faultFor })); procs.push(proc); return proc; };
  // watch the token file
  let prev = parseTokens(disk);
  const validRt = (t) => !!t?.refreshToken && !!idp.refresh.get(t.refreshToken)?.valid;
  sim.onEvent = () => {
    const cur = parseTokens(disk); if (isDeepStrictEqual(cur, prev)) return;
    const was = prev; prev = cur;
    sim.log(`token file ${was ? idp.refresh.get(was.refreshToken)?.n ?? "?" : was} -> ${cur ? idp.refresh.get(cur.refreshToken)?.n ?? "?" : cur}`);
    if (!was || !validRt(was)) return;
    const gen = (t) => idp.refresh.get(t.refreshToken)?.n ?? 0;
    if (cur === null) sim.check(failedRt.has(was.refreshToken) || failedRtAny, `${K}.erased`, () => `the stored login (pair ${gen(was)}), still valid and never refused, was erased`);
    else if (cur === undefined) sim.check(false, `${K}.corrupted`, "the token file became unreadable");
    else if (cur.refreshToken !== was.refreshToken) sim.check(validRt(cur), `${K}.overwritten`, () => `valid pair ${gen(was)} was overwritten by pair ${gen(cur)}, which is no longer valid`);
  };
  let calls = 0;
  const procMain = async (i) => {
    await sim.sleep(sim.pick("w:pstart", [0, 0, 5, 50, 20e3]));
    const proc = mk(i); const { client, core } = proc.load(scripts.cl);
    const made = await settled(core.createClientWithOAuth({ apiToken: null, enableOAuthLogin: false }));
    if (!proc.alive || !sim.check(made.ok, `${K}.crash`, () => `creating a client failed: ${errText(made.e)}`)) return;
    const rounds = sim.int("w:rounds", 1, 3);
    for (let r = 0; r < rounds; r++) {
      const conc = sim.int("w:conc", 1, 3);
      await Promise.all(Array.from({ length: conc }, async (_, j) => {
        await sim.sleep(sim.pick("w:cd", [0, 0, 3, 40]));
        const c = { id: `${i}.${r}.${j}`, sent: [], t0: sim.now }; starting.set(c.id, c); calls++;
        const direct = sim.chance("w:direct", 0.2);
        const x = await settled(direct ? client.getAuthToken(undefined) : made.v.get(`x/${c.id}`, { headers: { "x-call": c.id } }));
        if (sim.stopped || !proc.alive) return;
        if (direct) {
          if (!sim.check(x.ok, `${K}.crash`, () => `resolving the token failed: ${errText(x.e)}`)) return;
          const t = x.v ? idp.access.get(x.v) : null;
          if (t) sim.check(t.exp > sim.now, `${K}.expired-sent`, () => `token ${t.n} was handed out ${sim.now - t.exp} ms after it expired`);
          return;
        }
        sim.probe(x.ok ? "apiOk" : `api${x.e?.response?.status ?? "Err"}`);
      }));
      if (r + 1 < rounds) await sim.sleep(sim.pick("w:gap", [100, 35e3, 61e3, 290e3, 310e3]));
    }
  };
  if (sim.chance("w:crash", 0.2)) sim.at(sim.int("f:crashAt", 1, 400), () => { const p = procs[0]; if (p?.alive) { sim.fault("crash"); crashed = true; p.crash(); } }, { name: "crash", daemon: true });
  let crashed = false;
  const st = await sim.run(() => Promise.race([Promise.all(Array.from({ length: nProc }, (_, i) => procMain(i))), (async () => { await sim.sleep(7200e3); })()]), { maxTime: 3 * 3600e3 });
  sim.onEvent = null;
  if (!crashed) sim.check((st === "done" && sim.now < 7200e3) || st === "violation", `${K}.hang`, `a call never settled (${st})`);
  if (!sim.stopped) {
    for (const p of procs) sim.check(p.uncaughtErrors.length === 0, `${K}.crash`, () => `uncaught: ${errText(p.uncaughtErrors[0])}`);
    // with an undisturbed provider a login that was never refused must survive
    const cur = parseTokens(disk);
    if (loggedIn && pf === 0 && !crashed && nProc === 1) { sim.check(cur && validRt(cur), `${K}.lost-login`, "the login was lost though the provider never refused it"); sim.probe("loginKept"); }
    if (first === 2 || first === 3 || first === 4) sim.probe("loggedOut");
  }
  return { sample: { procs: nProc, calls, issued: idp.n, tokenFile: first } };
};

// ------------------------------------------------------------------ C05 browser login
export const runBrowserLogin = async (sim, { scripts }) => {
  const K = sim.prop;
  const disk = new Disk(sim); const idp = new Idp(sim, { life: 300 });
  const pf = sim.pick("w:pf", [0, 0, 0.2]); const n = sim.int("w:n", 1, 2);
  let stallUsed = false; const procs = [];
  const exchanged = [];
  const mk = (i) => { const opened = [];
  const proc = mkProc(sim, `cli${i}`, { disk, tty: true,
    listenFault: () => (sim.chance("f:listen", pf ? 0.05 : 0) ? sim.pick("f:lf", ["EACCES", "EADDRINUSE"]) : null),
    childProcess: { exec: (cmd, cb) => { const m = /"(https?:[^"]+)"/.exec(cmd); if (m) opened.push(m[1]); proc.at(sim.int("lat:exec", 1, 30), () => cb(sim.chance("f:exec", 0.3) ? new Error("xdg-open: not found") : null, "", ""), "exec"); return { unref() {}, on() {} }; } } });
  proc.opts.fetch = simFetch(proc, idp.fetchOpts(proc, { api: () => ({ status: 404, body: {} }), onToken: (info, form, r) => exchanged.push({ code: form.get("code"), status: r.status }),
    faultFor: (info) => { if (!sim.chance("f:idp", pf)) return null; const k = sim.pick("f:idpk", ["refuse", "lost", "cut", "status", "stall"]); if (k === "stall") stallUsed = true; return k === "status" ? { kind: k, status: 500 } : { kind: k, after: 0 }; } }));
  proc.opened = opened; procs.push(proc); return proc; };
  const attempts = [];
  const parse = (u) => { const q = new URL(u).searchParams; return { challenge: q.get("code_challenge"), method: q.get("code_challenge_method"), state: q.get("state"), redirect: q.get("redirect_uri") }; };
  let codeNo = 0;
  const authorise = (a, q) => { const code = `code-${++codeNo}-${a.id}`; idp.codes.set(code, { challenge: q.challenge, redirect: q.redirect, attempt: a.id, used: false }); return code; };
  const findUrl = async (a) => { for (let i = 0; i < 200; i++) { const line = [...a.proc.opened, ...a.proc.consoleLines.map((l) => /https?:\S+cli-login\S*/.exec(l)?.[0]).filter(Boolean)][0]; if (line) return line; if (a.done) return null; await sim.sleep(1); } return null; };
  const user = async (a) => {
    const u = await findUrl(a); if (!u) return; const q = a.q = parse(u); const port = Number(new URL(q.redirect).port);
    sim.check(q.method === "S256" && q.challenge && q.state, `${K}.request`, () => `login URL lacks challenge or state: ${u}`);
    a.openedAt = sim.now;
    const hit = async (params, p = "/callback") => { const r = await settled(deliver(sim, port, { url: `${p}?${new URLSearchParams(params)}` })); a.hits = (a.hits ?? 0) + 1; return r; };
    const other = () => { const o = attempts.find((b) => b !== a && b.q); return o ? { code: authorise(o, o.q), state: o.q.state } : { code: authorise({ id: "evil" }, { challenge: "x", redirect: q.redirect }), state: sim.pick("w:es", ["", "evil", q.state + "x", q.state.slice(1)]) }; };
    const steps = sim.int("w:steps", 1, 3);
    for (let s = 0; s < steps; s++) {
      await sim.sleep(sim.pick("w:think", [0, 50, 3e3, 60e3, 119.99e3, 125e3]));
      const k = sim.pick("w:hit", ["good", "good", "good", "state", "error", "nocode", "nostate", "favicon", "never"]);
      if (a.done) return;
      if (k === "good") { a.goodAt ??= sim.now; if (!a.first) a.first = "good"; await hit({ code: authorise(a, q), state: q.state, iss: "x" }); }
      else if (k === "state") { a.first ??= "bad"; await hit(other()); }
      else if (k === "error") { a.first ??= "bad"; await hit({ error: "access_denied", state: q.state }); }
      else if (k === "nocode") { a.first ??= "bad"; await hit({ state: q.state }); }
      else if (k === "nostate") { a.first ??= "bad"; await hit({ code: authorise(a, q) }); }
      else if (k === "favicon") await hit({}, "/favicon.ico");
      else return;
    }
  };
  const login = async (i) => {
    await sim.sleep(sim.pick("w:ls", [0, 0, 10, 5e3]));
    const a = { id: `a${i}`, t0: sim.now, proc: mk(i) }; attempts.push(a); const { client } = a.proc.load(scripts.cl);
    const u = user(a);
    const r = await settled(client.performOAuthLogin({ openBrowserAutomatically: sim.chance("w:auto", 0.6) }));
    a.done = true; a.end = sim.now; a.r = r;
    if (sim.stopped) return;
    sim.check(a.end - a.t0 <= 120e3 + 500 + (stallUsed ? 620e3 : 2e3), `${K}.deadline`, () => `login ended after ${a.end - a.t0} ms`);
    if (r.ok) {
      const t = idp.access.get(r.v.accessToken);
      sim.check(t && t.tag === `login:${a.id}`, `${K}.foreign-token`, () => `login attempt ${a.id} ended with tokens of ${t ? t.tag : "nobody"}`);
      sim.check(a.first === "good", `${K}.accepted-bad`, () => `login succeeded though the first answer was ${a.first}`);
      sim.probe("loginOk");
    } else {
      sim.check(r.e instanceof Error && r.e.message.length > 0, `${K}.error`, "login failed without an error message");
      if (a.first === "good" && pf === 0 && a.goodAt - a.openedAt < 119.9e3) sim.check(false, `${K}.lost-login`, () => `the right answer arrived after ${a.goodAt - a.openedAt} ms but login failed: ${errText(r.e)}`);
      sim.probe("loginFailed");
    }
  };
  const st = await sim.run(() => Promise.all(Array.from({ length: n }, (_, i) => login(i))), { maxTime: 3600e3 });
  sim.check(st === "done" || st === "violation", `${K}.hang`, `a login never ended (${st})`);
  if (!sim.stopped) {
    const ports = [...(sim.listeners ?? new Map()).keys()];
    sim.check(ports.length === 0, `${K}.listener-left`, () => `callback listener still open after all logins ended: ${ports}`);
    for (const p of procs) sim.check(p.activeTimers().length === 0, `${K}.timer-left`, () => `timer of ${p.activeTimers()[0]._d} ms left behind`);
    const okA = attempts.filter((a) => a.r?.ok); const file = parseTokens(disk);
    if (okA.length) sim.check(file && okA.some((a) => a.r.v.accessToken === file.accessToken), `${K}.stored`, "the stored login is not one a login attempt returned");
    else sim.check(file === null, `${K}.stored`, "a failed login left tokens behind");
    await sim.settle(5e3);
    sim.check(sim.unhandled.length === 0 && procs.every((p) => p.uncaughtErrors.length === 0), `${K}.unhandled`, () => `unhandled error: ${errText(sim.unhandled[0]?.reason ?? procs.flatMap((p) => p.uncaughtErrors)[0])}`);
  }
  return { sample: { logins: n, codes: codeNo } };
};

// ------------------------------------------------------------------ C05 device login
export const runDeviceLogin = async (sim, { scripts }) => {
  const K = sim.prop;
  const disk = new Disk(sim); const pf = sim.pick("w:pf", [0, 0, 0.15, 0.35]);
  const idp = new Idp(sim, { life: 300, noDevice: sim.chance("w:nodev", 0.05) }); let stalls = 0;
  const n = sim.int("w:n", 1, 2); const procs = [];
  const attempts = [];
  const login = async (i) => {
    await sim.sleep(sim.pick("w:ls", [0, 0, 700]));
    const a = { id: i, polls: [], t0: sim.now, slow: 0 }; attempts.push(a);
    const proc = mkProc(sim, `cli${i}`, { disk, clockOffset: sim.pick("w:skew", [0, 3600e3, -86400e3]) }); procs.push(proc);
    proc.opts.fetch = simFetch(proc, idp.fetchOpts(proc, { api: () => ({ status: 404, body: {} }),
      onDevice: (info, form) => {
        if (sim.chance("f:dev", 0.06)) return { status: sim.pick("f:devs", [400, 500]), body: { error: sim.pick("f:deve", ["unauthorized_client", "x"]) } };
        const exp = sim.pick("w:exp", [20, 60, 600]); const now = sim.now; const interval = sim.pick("w:int", [undefined, 1, 5, 10]);
        const d = { code: `dev${i}`, challenge: form.get("code_challenge"), expires: now + exp * 1000, interval: interval ?? 5, used: false, slow: 0, slow0: sim.weighted("w:slow", [5, 2, 2]) };
        d.slow = d.slow0; const fate = sim.weighted("w:fate", [6, 2, 1]); const when = now + Math.floor(exp * 1000 * sim.pick("w:when", [0, 0.1, 0.5, 0.9, 1.2]));
        if (fate === 0) d.approveAt = when; else if (fate === 1) d.denyAt = when;
        a.d = d; a.exp = exp; a.interval = interval ?? 5;
        idp.devices.set(`dev${i}`, d);
        const body = { device_code: `dev${i}`, user_code: `USER-${i}`, verification_uri: "https://idp.sim/v", expires_in: exp, ...(interval ? { interval } : {}) };
        if (sim.chance("f:devbad", 0.04)) { delete body[sim.pick("f:devbadf", ["device_code", "expires_in", "user_code"])]; a.bad = true; }
        return { status: 200, body };
      },
      onOpen: (info) => { if (info.path !== "/token") return; const p = { t: sim.now }; info.poll = p; const q = a.polls[a.polls.length - 1]; a.polls.push(p);
        if (q && a.d && !sim.stopped) {
          const gap = p.t - (q.end ?? q.t); const need = Math.min(a.interval * 1000 + a.slow * 5000, Math.max(0, a.deadline - (q.end ?? q.t)));
          sim.check(gap >= need - 2, `${K}.interval`, () => `polled again ${gap} ms after the previous answer, required ${need} ms (interval ${a.interval} s, ${a.slow} slow-downs)`);
        } else if (a.d) sim.check(p.t - a.dAt >= Math.min(a.interval, a.exp) * 1000 - 2, `${K}.interval`, () => `first poll ${p.t - a.dAt} ms after the authorisation, interval ${a.interval} s`);
        sim.check(p.t <= a.deadline + 2, `${K}.poll-after-deadline`, () => `polled ${p.t - a.deadline} ms after the device code expired`);
        sim.check(!(q && q.final), `${K}.poll-after-final`, () => `polled again after the provider said ${q.final}`);
      },
      onClose: (info) => { if (info.poll) { info.poll.end = sim.now; const r = info.poll.fault ? null : info.result; if (r) { if (r.body.error === "slow_down") a.slow++; if (r.status === 200) { info.poll.final = "success"; a.granted = sim.now; } else if (r.body.error === "access_denied" || r.body.error === "expired_token") info.poll.final = r.body.error; } } else if (info.path === "/device") { a.dAt = sim.now; a.deadline = sim.now + (a.exp ?? 0) * 1000; } },
      faultFor: (info) => { if (!sim.chance("f:idp", pf)) return null; const k = sim.pick("f:idpk", ["refuse", "lost", "cut", "status", "status", "slow", "stall"]); if (k === "stall") stalls++; const f = k === "status" ? { kind: k, status: sim.pick("f:ds", [500, 502, 503]) } : { kind: k, after: 0, delay: 4000 }; if (k === "refuse" || k === "lost") f.delay = 20; if (k !== "slow" && info.poll) info.poll.fault = f; a.disturbed = true; return f; } }));
    const { client } = proc.load(scripts.cl);
    const r = await settled(client.performDeviceLogin());
    a.end = sim.now; a.r = r; if (sim.stopped) return;
    if (a.deadline) sim.check(a.end <= a.deadline + 5e3 + (stalls ? 301e3 : 0), `${K}.deadline`, () => `device login ended ${a.end - a.deadline} ms after its deadline`);
    if (r.ok) {
      const t = idp.access.get(r.v.accessToken);
      sim.check(t && t.tag === `device:dev${i}`, `${K}.foreign-token`, () => `device login ${i} ended with tokens of ${t?.tag}`);
      const f = parseTokens(disk); sim.check(f && attempts.some((b) => b.r?.ok && b.r.v.accessToken === f.accessToken), `${K}.stored`, "the login was not stored");
      sim.probe("deviceOk");
    } else {
      sim.check(r.e instanceof Error && r.e.message.length > 0, `${K}.error`, "device login failed without a message");
      const d = a.d;
      if (d?.approveAt !== undefined && !a.disturbed && !a.bad && d.approveAt + (d.slow0 + 1) * (a.interval + 10) * 1000 + 500 < d.expires) sim.check(false, `${K}.lost-login`, () => `the user approved ${d.expires - d.approveAt} ms before expiry but login failed: ${errText(r.e)}`);
      if (a.granted !== undefined) sim.check(false, `${K}.lost-login`, () => `the provider granted tokens but login failed: ${errText(r.e)}`);
      if (a.disturbed && !a.bad && d && !a.polls.some((p) => p.final) && a.polls.length && !/expired|HTTP|failed/i.test(r.e.message)) sim.probe("deviceOther");
      // network trouble while polling must not end the login before its deadline
      const lastP = a.polls[a.polls.length - 1];
      if (lastP?.fault) sim.check(a.end >= a.deadline - 5, `${K}.gave-up`, () => `device login failed (${errText(r.e)}) ${a.deadline - a.end} ms before its deadline because a poll was disturbed by ${lastP.fault.kind}`);
      sim.probe("deviceFailed");
    }
    sim.check(proc.activeTimers().length === 0, `${K}.timer-left`, "a timer was left behind by the device login");
  };
  const st = await sim.run(() => Promise.all(Array.from({ length: n }, (_, i) => login(i))), { maxTime: 4 * 3600e3 });
  sim.check(st === "done" || st === "violation", `${K}.hang`, `a device login never ended (${st})`);
  if (!sim.stopped && !attempts.some((a) => a.r?.ok)) sim.check(!disk.exists(TOKENS), `${K}.stored`, "a failed device login left tokens behind");
  return { sample: { logins: n, polls: attempts.reduce((s, a) => s + a.polls.length, 0) } };
};

// ------------------------------------------------------------------ C06
export const runListing = async (sim, { scripts }) => {
  const K = sim.prop;
  const pf = sim.pick("w:pf", [0, 0.2, 0.5]); const proc = mkProc(sim, "cli", { disk: new Disk(sim) });
  const plan = apiFault(sim, pf); const runs = new Map(); let requests = 0;
  proc.opts.fetch = simFetch(proc, { name: "api", latency: [1, 50], chunks: 2, undiciTimeouts: true, faultFor: plan, onOpen: () => { requests++; },
    handle: (info, f) => {
      if (f?.kind === "status") return { status: f.status, headers: { "content-type": "application/json" }, body: JSON.stringify({ message: "no" }) };
      const m = /test-runs\/([^/]+)\/replay-diffs$/.exec(info.path); const all = runs.get(m?.[1]); if (!all) return { status: 404, body: { message: "no such run" } };
      const limit = Math.min(500, Number(info.query.get("limit") ?? 100)), offset = Number(info.query.get("offset") ?? 0);
      return { status: 200, headers: { "content-type": "application/json" }, body: JSON.stringify(all.slice(offset, offset + limit)) };
    } });
  const { client, core } = proc.load(scripts.cl);
  const cl = core.buildClient("prat-x", { warn() {}, debug() {}, info() {}, error() {} });
  const one = async (i) => {
    const n = sim.pick("w:count", [0, 1, 7, 499, 500, 501, 999, 1000, 1001, 1500, 2300]);
    const all = Array.from({ length: n }, (_, k) => ({ id: `d${i}-${k}`, headReplay: { id: `h${k}` } }));
    const known = !sim.chance("w:unknown", 0.05); if (known) runs.set(`run${i}`, all);
    const r = await settled(client.getTestRunReplayDiffs({ client: cl, testRunId: `run${i}` }));
    if (sim.stopped) return;
    if (r.ok) { sim.check(known && r.v.length === n && r.v.every((d, k) => d.id === all[k].id), `${K}.listing`, () => { const ids = r.v.map((d) => d.id); return `listing of ${n} diffs returned ${ids.length} (${new Set(ids).size} distinct)${ids.length === n ? " in another order" : ""}`; }); sim.probe("listed"); if (n >= 500) sim.probe("multiPage"); }
    else { sim.check(r.e instanceof Error && (pf > 0 || !known), `${K}.error`, () => `listing failed without cause: ${errText(r.e)}`); sim.probe("listFailed"); }
  };
  const k = sim.int("w:n", 1, 3);
  const st = await sim.run(() => Promise.all(Array.from({ length: k }, (_, i) => one(i))), { maxTime: 5 * 3600e3 });
  sim.check(st === "done" || st === "violation", `${K}.hang`, `a listing never ended (${st})`);
  return { sample: { listings: k, requests } };
};
