// In-worker recorder shim (packages/backend-recorder-workerd): one simulated
// isolate runs a generated application, once plain and once wrapped, against
// the same scripted backends, with faults on the recording / replay endpoint.
import { createHash } from "node:crypto";
import { bundle } from "../../sim/bundle.mjs";
import { Proc } from "../../sim/proc.mjs";
import { drainMicrotasks } from "../../sim/core.mjs";
import { netError } from "../../sim/net.mjs";
import { WORKERD_STUBS } from "./workerd-stubs.mjs";

export const buildWorkerd = async () => ({
  shim: (await bundle({ shim: "packages/backend-recorder-workerd/src/index.ts" }, { stubFiles: WORKERD_STUBS })).code,
});
export const WORKERD_META = {
  real: ["backend-recorder-workerd: request wrapper, fetch/binding/KV/postgres patches, capture buffer, body capture, replay lookups, virtual clock, virtual randomness, log tagging"],
  stubs: ["workerd runtime: isolate globals, waitUntil, timers (virtual time)", "application handler (generated)", "origin servers, service bindings, KV namespace, postgres client", "recording sidecar and replay sidecar endpoints", "coverage runner (absent from the pinned tree)"],
};
const CAP = 256 * 1024;
const h = (b) => createHash("sha1").update(typeof b === "string" ? Buffer.from(b) : Buffer.from(b ?? [])).digest("hex").slice(0, 12);
const SECRET = "s3cr3t-VALUE";
const text = (path, size, multi) => {
  let s = `<${path}>`; const unit = multi ? "añ→😀b" : "abcdefghij";
  const parts = [s]; let n = Buffer.byteLength(s); const u = Buffer.byteLength(unit);
  const k = Math.max(0, Math.floor((size - n) / u));
  parts.push(unit.repeat(k));
  return parts.join("");
};

// ------------------------------------------------------------------ generator
const genOp = (sim, path, o, depth) => {
  const kinds = [["fetch", 8], ["kv", o.kv ?? 3], ["binding", 3], ["pg", o.pg ?? 1], ["sleep", 2], ["par", depth < 2 ? 2 : 0], ["log", o.log ?? 1], ["rand", o.rand ?? 0], ["clock", o.rand ?? 0]];
  const kind = kinds[sim.weighted("op", kinds.map((k) => k[1]))][0];
  const op = { kind, path, bg: false };
  switch (kind) {
    case "fetch": case "binding": {
      op.method = sim.pick("m", ["GET", "POST", "PUT", "GET", "DELETE"]);
      op.form = sim.pick("form", ["url", "Request", "URL", "RequestInit"]);
      op.reqBody = op.method === "POST" || op.method === "PUT" ? sim.pick("rb", ["none", "string", "json", "bytes", "params", "stream", "blob"]) : "none";
      op.reqSize = sim.weighted("rs", [6, 2, o.big ? 2 : 0]) === 2 ? CAP + sim.int("rsb", -20, 2000) : sim.int("rss", 0, 400);
      op.lat = 2 * sim.latency("olat", 1, 150);
      op.status = sim.pick("st", [200, 200, 201, 404, 500, 204, 302, 304, 200]);
      op.multi = sim.chance("multi", 0.3);
      const sz = sim.weighted("sz", [5, 2, o.big ? 6 : 1]);
      op.size = sz === 0 ? sim.int("szs", 0, 300) : sz === 1 ? sim.int("szm", 1000, 9000) : CAP + sim.pick("szb", [-11, -10, -1, 0, 1, 10, 5000, -1000]);
      op.nchunks = sim.int("nch", 1, 4);
      op.gap = sim.weighted("gap", [5, 2, 1]) === 2 ? 2 * sim.int("gapl", 500, 4000) : 2 * sim.int("gaps", 0, 40);
      op.end = ["close", "close", "error", "never"][sim.weighted("end", [8, 4, 1, o.never ?? 1])];
      op.fault = [null, "reset", "hang", "early"][sim.weighted("bf", [12, 1, 1, 1])];
      op.bodyStall = op.reqBody === "stream" && (op.fault === "early" || op.fault === "hang") && sim.chance("bst", 0.6);
      op.duplex = op.reqBody === "stream" && op.fault === null && sim.chance("dup", 0.5);
      op.bodyGap = sim.pick("bgap", [4, 4, 40, 400]);
      op.host = sim.chance("host", 0.12) ? sim.pick("hostp", ["http://127.0.0.1:7771", "http://127.0.0.1:9671", "https://meticulous-sidecar.invalid.test"]) : "https://api.test";
      op.imm = sim.chance("imm", 0.5);
      op.ws = kind === "fetch" && sim.chance("ws", 0.04);
      op.read = sim.pick("read", ["text", "bytes", "json", "none", "partial", "iterate", "clone"]);
      op.abortAt = op.fault === "hang" || op.end === "never" || sim.chance("ab", 0.12) ? 2 * sim.int("abAt", 5, op.end === "never" ? 9000 : 300) + 1 : 0;
      if (kind === "binding") op.target = sim.pick("bt", ["SVC", "SVC2", "DO", "ASSETS"]);
      op.pass = o.replay && kind === "fetch" && sim.chance("pass", 0.15);
      op.mock = ["mock", "no-mock", "weird", "badstatus"][sim.weighted("mk", [7, 2, 1, 0.5])];
      op.passVal = op.pass ? "true" : sim.chance("pv", 0.1) ? "false" : null;
      break;
    }
    case "kv":
      op.op = sim.pick("kvop", ["get", "put", "getWithMetadata", "delete", "list", "get"]);
      op.type = sim.pick("kvt", [undefined, "text", "json", "arrayBuffer", "stream"]);
      op.val = sim.pick("kvv", ["string", "json", "bytes", "missing", "big"]);
      op.lat = 2 * sim.latency("kvlat", 0, 40); op.fail = sim.chance("kvf", 0.1);
      op.ns = sim.pick("kvns", ["KV", "KV2"]);
      break;
    case "pg": op.lat = 2 * sim.latency("pglat", 0, 40); op.fail = sim.chance("pgf", 0.15); op.mode = sim.pick("pgm", ["", "values", "raw"]); op.rows = sim.int("pgr", 0, 3); op.twice = sim.chance("pg2", 0.3); break;
    case "sleep": op.ms = 2 * sim.latency("slp", 0, 200); break;
    case "par": op.ops = Array.from({ length: sim.int("npar", 2, 3) }, (_, i) => genOp(sim, `${path}.${i}`, o, depth + 1)); break;
    case "log": op.n = sim.int("ln", 0, 4); break;
    case "rand": op.how = sim.pick("rh", ["math", "uuid", "values", "helper", "nested", "typed"]); op.n = sim.int("rn", 1, 3); if (op.how === "math" && sim.chance("rmany", 0.04)) op.how = "many"; break;
    case "clock": op.how = sim.pick("ch", ["now", "new", "call", "spin", "parse"]); break;
  }
  return op;
};
/** One request whose captured bodies pass the early-report threshold. */
const genFlood = (sim) => {
  const r = genRequest(sim, 0, { big: true, maxOps: 1 });
  r.ops = Array.from({ length: sim.int("nflood", 9, 14) }, (_, k) => {
    const op = genOp(sim, `r0_${k}`, { big: true }, 2);
    if (op.kind !== "fetch" && op.kind !== "binding") return op;
    return { ...op, size: CAP - sim.int("fsz", 0, 3000), status: 200, end: "close", fault: null, bodyStall: false, abortAt: 0, gap: 2, lat: 2 * sim.int("flat", 1, 20), target: op.target === "ASSETS" ? "SVC" : op.target, ws: false };
  });
  return r;
};
export const genRequest = (sim, i, o) => {
  const r = { i, path: `r${i}`, start: sim.int("start", 0, o.spread ?? 120), ops: [], bg: [], streamOps: [] };
  const n = sim.int("nops", 1, o.maxOps ?? 5);
  for (let k = 0; k < n; k++) r.ops.push(genOp(sim, `r${i}_${k}`, o, 0));
  for (let k = 0, m = sim.weighted("nbg", [5, 2, 1]); k < m; k++) r.bg.push(genOp(sim, `r${i}_b${k}`, o, 1));
  r.resp = sim.pick("resp", ["text", "stream", "proxy", "null", "redirect", "streamFetch", "cookies", "throw", "text"]);
  if (r.resp === "streamFetch") r.streamOps.push(genOp(sim, `r${i}_s0`, o, 2));
  r.nav = sim.weighted("nav", [3, 1, 1]); // 0 api, 1 document via sec-fetch-dest, 2 document via accept
  r.session = sim.chance("sess", 0.6) ? `sess-${sim.int("sid", 0, o.sessions ?? 3)}` : null;
  r.method = r.nav ? "GET" : sim.pick("rm", ["GET", "POST"]);
  r.syncThrow = r.resp === "throw" && sim.chance("sync", 0.4);
  r.clientAbort = sim.chance("cab", 0.05);
  r.timing = sim.chance("stm", 0.3);
  return r;
};

// ------------------------------------------------------------------ isolate
/** One isolate, its bindings and its application. */
class Isolate {
  constructor(sim, name, specs, opts) {
    this.sim = sim; this.name = name; this.specs = specs; this.opts = opts; this.t0 = sim.now;
    this.backend = []; this.kvLog = []; this.obs = {}; this.results = {}; this.identity = [];
    this.waits = []; this.opTimes = []; this.late = [];
    this.byPath = new Map();
    const walk = (op) => { this.byPath.set(op.path, op); op.ops?.forEach(walk); };
    for (const r of specs) { r.ops.forEach(walk); r.bg.forEach(walk); r.streamOps.forEach(walk); }
    this.proc = new Proc(sim, name, { fetch: (a, b) => this.netFetch(a, b), clockOffset: opts.clockOffset ?? 0 });
    this.proc.onUncaught = (e) => sim.violate("W01-uncaught", `uncaught exception in the isolate: ${e?.message}`);
    this.proc.onUnhandled = (e) => this.unhandled(e);
    this.makeEnv();
  }
  unhandled(e) { (this.unhandledErrors ??= []).push(e); }
  makeEnv() {
    const iso = this, { proc } = this;
    class Fetcher { constructor(n) { Object.defineProperty(this, "n", { value: n }); } fetch(input, init) { if (!(this instanceof Fetcher)) return Promise.reject(new TypeError("Illegal invocation")); return iso.bindingFetch(this.n, input, init); } }
    class DurableObjectStub extends Fetcher {}
    class Namespace { get(id) { return new DurableObjectStub(`DO:${id}`); } }
    class KvNamespace {
      constructor(n) { Object.defineProperty(this, "n", { value: n }); }
      get(k, t) { return iso.kv(this, "get", [k, t]); } getWithMetadata(k, t) { return iso.kv(this, "getWithMetadata", [k, t]); }
      put(k, v, o) { return iso.kv(this, "put", [k, v, o]); } delete(k) { return iso.kv(this, "delete", [k]); } list(o) { return iso.kv(this, "list", [o]); }
    }
    this.KvNamespace = KvNamespace; this.Fetcher = Fetcher;
    const env = { SVC: new Fetcher("SVC"), SVC2: new Fetcher("SVC2"), DO: new Namespace(), ASSETS: new Fetcher("ASSETS"), KV: new KvNamespace("KV"), KV2: new KvNamespace("KV2"), SOME_VAR: "x", FLAG: true };
    if (this.opts.transport === "url") env.METICULOUS_SIDECAR_URL = "http://127.0.0.1:777/";
    if (this.opts.transport === "binding") env.METICULOUS_SIDECAR = new Fetcher("SIDECAR");
    if (this.opts.noMint) env.METICULOUS_BACKEND_PROVISIONAL_SESSION_IDS = "false";
    this.env = env;
    class Query {
      constructor(strings, args, resolve) { this.strings = strings; this.args = args; this.executed = false; this.isRaw = undefined; this.p = new Promise((res, rej) => { this.resolve = res; this.reject = rej; }); this.p.catch(() => {}); }
      handle() { if (this.executed) return; this.executed = true; iso.pg(this); }
      values() { this.isRaw = "values"; return this; } raw() { this.isRaw = true; return this; }
      then(...a) { this.handle(); return this.p.then(...a); } catch(f) { this.handle(); return this.p.catch(f); } finally(f) { this.handle(); return this.p.finally(f); }
    }
    const sql = (strings, ...args) => new Query([...strings], args);
    sql.unsafe = (t, a = []) => new Query([t], a);
    this.sql = sql;
  }
  // ---- network
  async netFetch(input, init) {
    const req = input instanceof Request && init === undefined ? input : new Request(input, init);
    const url = new URL(req.url);
    if (url.port === "777" && url.hostname === "127.0.0.1") return this.opts.sidecar.fetch(this, "url", req);
    if (this.opts.replaySidecar && url.hostname === "127.0.0.1" && url.port === "967") return this.opts.replaySidecar.fetch(this, req);
    return this.serve("net", req);
  }
  bindingFetch(name, input, init) {
    const req = input instanceof Request && init === undefined ? input : new Request(input, init);
    if (name === "SIDECAR") return this.opts.sidecar.fetch(this, "binding", req);
    return this.serve(name, req);
  }
  async serve(via, req) {
    const { sim, proc } = this;
    if (req.signal?.aborted) throw req.signal.reason;
    const path = new URL(req.url).pathname.slice(1).split("/")[0];
    const op = this.byPath.get(path);
    let body;
    const signal = req.signal;
    const aborted = new Promise((_, rej) => { signal?.addEventListener("abort", () => rej(signal.reason)); });
    aborted.catch(() => {});
    if (op?.fault === "early") { await new Promise((r) => proc.at(op.lat, r, "backend")); this.backend.push({ path, via, t: sim.now - this.t0, line: `${via} early ${req.method} ${req.url}` }); throw netError("ECONNREFUSED"); }
    const bodyP = req.body ? req.arrayBuffer() : Promise.resolve(null);
    if (op?.duplex) { // answers without waiting for the end of the request body
      (this.keep ??= []).push(req, signal);
      bodyP.then((b) => this.backend.push({ path, via, t: sim.now - this.t0, line: `${via} ${req.method} ${req.url} duplex ${h(new Uint8Array(b))}` }), () => {});
      return Promise.race([aborted, new Promise((resolve) => { proc.at(op.lat, () => resolve(this.buildResponse(op, req, signal)), "backend"); })]);
    }
    body = await Promise.race([bodyP, aborted]);
    const hs = [...req.headers].filter(([k]) => k !== "meticulous-passthrough").sort().map((x) => x.join("=")).join("&");
    (this.keep ??= []).push(req, signal); this.backend.push({ path, via, t: sim.now - this.t0, line: `${via} ${req.method} ${req.url} ${hs} ${body ? h(new Uint8Array(body)) : "-"}` });
    sim.log(`${this.name} backend ${via} ${req.method} ${path}`);
    if (!op) return new Response("?", { status: 599 });
    return Promise.race([aborted, new Promise((resolve, reject) => {
      if (op.fault === "hang") return;
      proc.at(op.lat, () => {
        if (op.fault === "reset") { reject(netError("ECONNRESET")); return; }
        resolve(this.buildResponse(op, req, signal));
      }, "backend");
    })]);
  }
  buildResponse(op, req, signal) {
    const { proc } = this;
    const nul = op.status === 204 || op.status === 304;
    const full = Buffer.from(op.read === "json" ? JSON.stringify({ p: op.path, s: text(op.path, op.size, op.multi) }) : text(op.path, op.size, op.multi));
    op.full = full;
    let stream = null;
    if (!nul && full.length) {
      let ctl; let done = false;
      stream = new ReadableStream({ start: (c) => { ctl = c; }, cancel: () => { done = true; } });
      const n = op.nchunks; let i = 0;
      signal?.addEventListener("abort", () => { if (!done) { done = true; try { ctl.error(signal.reason); } catch { /* closed */ } } });
      const step = () => {
        if (done) return;
        if (op.end === "error" && i === n - 1) { done = true; ctl.error(netError("ECONNRESET")); return; }
        if (op.end === "never" && i === n - 1) return;
        const a = Math.floor((full.length * i) / n), b = Math.floor((full.length * (i + 1)) / n);
        if (b > a) ctl.enqueue(new Uint8Array(full.subarray(a, b)));
        i++;
        if (i >= n) { done = true; ctl.close(); return; }
        proc.at(op.gap, step, "body");
      };
      proc.at(op.gap, step, "body");
    }
    const r = new Response(stream, { status: op.status === 302 ? 302 : op.status, headers: [["content-type", op.read === "json" ? "application/json" : "text/plain; charset=utf-8"], ["x-path", op.path], ["set-cookie", `a=${op.path}`], ["set-cookie", "b=2"], ["server-timing", "db;dur=5"], ...(op.status === 302 ? [["location", "/x"]] : [])] });
    Object.defineProperty(r, "url", { value: req.url, configurable: true });
    if (op.imm) for (const m of ["append", "set", "delete"]) Object.defineProperty(r.headers, m, { value: () => { throw new TypeError("immutable"); }, configurable: true });
    if (op.ws) { Object.defineProperty(r, "webSocket", { value: { ws: op.path }, configurable: true }); }
    return r;
  }
  // ---- KV
  kv(self, method, args) {
    const key = method === "list" ? args[0]?.prefix : Array.isArray(args[0]) ? args[0][0] : args[0];
    const op = this.byPath.get(String(key));
    if (!(self instanceof this.KvNamespace)) return Promise.reject(new TypeError("Illegal invocation"));
    this.kvLog.push({ path: op?.path, line: `${self.n} ${method} ${JSON.stringify(args.map((a) => (a instanceof Uint8Array ? `bytes:${h(a)}` : typeof a === "string" && a.length > 200 ? h(a) : a)))}` });
    return this.proc.io("kv", op?.lat ?? 1, () => {
      if (op?.fail) throw Object.assign(new Error(`KV ${method} failed: 500`), { code: 500 });
      const val = op.val === "missing" ? null : op.val === "json" ? JSON.stringify({ v: op.path, token: "t" }) : op.val === "big" ? text(op.path, CAP + 500) : op.val === "bytes" ? "\u0001\u0002bytes" : `value-${op.path}`;
      const conv = (v) => {
        if (v === null) return null;
        if (op.type === "json") { try { return JSON.parse(v); } catch { throw new SyntaxError("KV json"); } }
        if (op.type === "arrayBuffer") { const b = Buffer.from(v); return b.buffer.slice(b.byteOffset, b.byteOffset + b.length); }
        if (op.type === "stream") return new Blob([v]).stream();
        return v;
      };
      if (method === "get") return conv(val);
      if (method === "getWithMetadata") return { value: conv(val), metadata: { m: op.path }, cacheStatus: null };
      if (method === "list") return { keys: [{ name: op.path + "/a" }, { name: op.path + "/b", metadata: { x: 1 } }], list_complete: true, cacheStatus: null };
      return undefined;
    });
  }
  pg(q) {
    const path = /\/\* (\S+) \*\//.exec(q.strings.join(""))?.[1]; const op = this.byPath.get(path);
    this.proc.at(op?.lat ?? 1, () => {
      if (op.fail) { q.reject(Object.assign(new Error(`relation "${path}" does not exist`), { code: "42P01", severity: "ERROR" })); return; }
      const rows = Array.from({ length: op.rows }, (_, i) => (q.isRaw ? [i, path] : { id: i, path }));
      Object.defineProperties(rows, { count: { value: rows.length }, command: { value: "SELECT" }, columns: { value: [{ name: "id", type: 23, parser: () => 1 }] }, statement: { value: { string: "select", types: [], name: "" } } });
      q.resolve(rows);
    }, "pg");
  }
  // ---- the application
  async exec(op, c) {
    const { G } = this.proc; const { sim } = this; const rec = (s) => { this.obs[op.path] = (this.obs[op.path] ?? "") + `|${s}`; };
    const t = () => `@${sim.now - c.t0}`;
    switch (op.kind) {
      case "sleep": await new Promise((r) => G.setTimeout(r, op.ms)); return null;
      case "par": { const rs = await Promise.all(op.ops.map((o) => this.exec(o, c))); return rs.find((x) => x) ?? null; }
      case "log": {
        const m = ["log", "error", "info", "warn", "debug"][op.n];
        if (op.n === 0) G.console.log(`app ${op.path} line1\nline2`); else if (op.n === 1) G.console.error(new Error(`boom ${op.path}`)); else if (op.n === 2) G.console.info({ o: op.path }); else G.console[m](`fmt %s ${op.path}`, "arg\nmore");
        return null;
      }
      case "rand": {
        for (let i = 0; i < op.n; i++) {
          if (op.how === "math") rec(G.Math.random()); else if (op.how === "uuid") rec(G.crypto.randomUUID());
          else if (op.how === "values") rec([...G.crypto.getRandomValues(new Uint8Array(6))].join(",")); else if (op.how === "helper") rec(helper(G));
          else if (op.how === "many") { let a = ""; for (let j = 0; j < 10_400; j++) { const v = G.Math.random(); if (j > 9_950 && j % 25 === 0) a += v.toString(36).slice(2, 8); } rec(`${i}:${a}`); if (i === 0) { rec(G.crypto.randomUUID()); break; } }
          else if (op.how === "typed") {
            const A = [Uint16Array, Int32Array, Uint32Array, BigUint64Array, Int8Array][(op.n + i) % 5]; const buf = new ArrayBuffer(48); const view = new A(buf, 16, 16 / A.BYTES_PER_ELEMENT);
            const back = G.crypto.getRandomValues(view); const all = new Uint8Array(buf);
            if (back !== view || all.subarray(0, 16).some((x) => x) || all.subarray(32).some((x) => x)) sim.violate("W05-view", `getRandomValues of a ${A.name} view wrote outside the view or returned something else`);
            rec([...all.subarray(16, 32)].join(","));
          } else rec(nest1(G));
        }
        return null;
      }
      case "clock": {
        if (op.how === "now") rec(G.Date.now()); else if (op.how === "new") rec(new G.Date().toISOString()); else if (op.how === "call") rec(G.Date()); else if (op.how === "parse") rec(new G.Date("2020-01-01").getTime() + G.Date.UTC(2020, 1, 1) + new G.Date(5).getTime());
        else { const d = G.Date.now() + 50; let n = 0; while (G.Date.now() < d) { if (++n > 60000) { if (c.replay) sim.violate("W05-spin", "busy-wait on the frozen clock did not terminate"); break; } } rec(c.replay ? `spin${n}` : "spin"); }
        return null;
      }
      case "pg": {
        const q = this.sql([`select /* ${op.path} */ * from t where a = `, " and b = ", ""], 1, "x");
        if (op.mode === "values") q.values(); if (op.mode === "raw") q.raw();
        op.done = sim.now;
        try { const rows = await q; if (op.twice) await q; rec(`${t()} ${JSON.stringify(rows)} ${rows.count} ${rows.command}`); } catch (e) { rec(`${t()} ${e.name}:${e.message}:${e.code}`); if (op.twice) await q.catch(() => {}); }
        c.touch(); return null;
      }
      case "kv": {
        const ns = this.env[op.ns];
        const pv = op.val === "json" ? JSON.stringify({ user: 1, password: SECRET }) : op.val === "bytes" ? new Uint8Array([1, 2, 3]) : op.val === "big" ? text(op.path, CAP + 50) : `put-${op.path}`;
        try {
          let v;
          if (op.op === "put") v = await ns.put(op.path, pv, { expirationTtl: 60 });
          else if (op.op === "delete") v = await ns.delete(op.path);
          else if (op.op === "list") v = await ns.list({ prefix: op.path });
          else v = await ns[op.op](op.path, op.type);
          const val = op.op === "getWithMetadata" ? v?.value : v;
          let s;
          if (val instanceof ReadableStream) s = h(Buffer.from(await new Response(val).arrayBuffer())); else if (val instanceof ArrayBuffer) s = h(new Uint8Array(val)); else s = h(JSON.stringify(val) ?? "undef");
          rec(`${t()} ${s} ${op.op === "getWithMetadata" ? JSON.stringify(v.metadata) : ""}`);
        } catch (e) { rec(`${t()} ${e.name}:${e.message}:${e.code}`); }
        c.touch(); return null;
      }
      case "fetch": case "binding": return this.call(op, c, rec, t);
    }
    return null;
  }
  async call(op, c, rec, t) {
    const { G } = this.proc;
    const url = op.kind === "fetch" ? `${op.host}/${op.path}/data?key=${SECRET}Q` : `https://internal.svc/${op.path}?q=1`;
    const headers = { "content-type": "text/x-app", authorization: `Bearer ${SECRET}`, cookie: `sid=${SECRET}`, "x-app": op.path };
    if (op.reqBody === "none") delete headers["content-type"];
    if (op.reqBody === "json") headers["content-type"] = "application/json";
    if (op.passVal) headers["meticulous-passthrough"] = op.passVal;
    const init = { method: op.method, headers };
    let bodyText;
    const bt = text(op.path, op.reqSize, op.multi);
    switch (op.reqBody) {
      case "string": init.body = bodyText = bt; break;
      case "json": init.body = JSON.stringify({ q: bt, client_secret: SECRET, nested: [{ Access_Token: SECRET, ok: 1 }] }); bodyText = JSON.stringify({ q: bt, client_secret: "REDACTED", nested: [{ Access_Token: "REDACTED", ok: 1 }] }); break;
      case "bytes": init.body = new TextEncoder().encode(bt); bodyText = bt; break;
      case "blob": init.body = new Blob([bt]); bodyText = bt; break;
      case "params": init.body = new URLSearchParams({ a: op.path, z: "1 2" }); delete headers["content-type"]; bodyText = init.body.toString(); break;
      case "stream": {
        const enc = new TextEncoder().encode(bt); let i = 0; bodyText = bt;
        init.body = new ReadableStream({ pull: async (ctl) => { if (i >= 2) { ctl.close(); return; } const s = enc.subarray(Math.floor((enc.length * i) / 2), Math.floor((enc.length * (i + 1)) / 2)); i++; if (op.bodyStall && i === 2) return new Promise(() => {}); await new Promise((r) => G.setTimeout(r, op.bodyGap)); if (s.length) ctl.enqueue(s); else if (i < 2) ctl.enqueue(new Uint8Array([])); else ctl.close(); } });
        init.duplex = "half"; break;
      }
    }
    op.expectBody = bodyText; op.rawBody = init.body !== undefined;
    let timer = null;
    if (op.abortAt) { const ac = new AbortController(); init.signal = ac.signal; timer = G.setTimeout(() => { op.abortedAt = this.sim.now; ac.abort(op.status === 200 ? new Error(`app abort ${op.path}`) : undefined); }, op.abortAt); }
    op.called = this.sim.now; (c.called ??= []).push(op.path);
    let res;
    try {
      const target = op.kind === "fetch" ? null : op.target === "DO" ? this.env.DO.get("o1") : this.env[op.target];
      const go = (a, b) => ((this.keep ??= []).push(a, b), target ? (b === undefined ? target.fetch(a) : target.fetch(a, b)) : b === undefined ? G.fetch(a) : G.fetch(a, b));
      if (op.form === "url") res = await go(url, init); else if (op.form === "URL") res = await go(new URL(url), init);
      else if (op.form === "Request") res = await go(new Request(url, init)); else { const { method, ...rest } = init; res = await go(new Request(url, { method, headers: { "x-req": "1" }, ...(rest.body !== undefined ? { body: rest.body, duplex: "half" } : {}), ...(rest.signal ? { signal: rest.signal } : {}) }), { headers }); }
    } catch (e) {
      op.failedAt = this.sim.now; c.touch();
      rec(`${t()} throw ${e?.name}:${c.replay ? String(e?.message).slice(0, 60) : e?.message}:${e?.cause?.code ?? ""}`);
      op.outcome = { error: e }; if (timer) G.clearTimeout(timer); return null;
    }
    c.touch(); op.headersAt = this.sim.now; op.outcome = { status: res.status };
    rec(`${t()} ${res.status} ${res.ok} ${c.replay ? "" : res.url} ${[...res.headers].filter(([k]) => !c.replay || k === "content-type").map((x) => x.join("=")).join("&")} ${res.webSocket ? "ws" : ""}`);
    try {
      switch (op.read) {
        case "text": { const s = await res.text(); op.outcome.body = s; rec(`${t()} text ${h(s)}`); break; }
        case "bytes": { const b = new Uint8Array(await res.arrayBuffer()); op.outcome.body = Buffer.from(b).toString(); rec(`${t()} bytes ${h(b)}`); break; }
        case "json": { const s = await res.json(); rec(`${t()} json ${h(JSON.stringify(s))}`); break; }
        case "clone": { const k = res.clone(); const [a, b] = await Promise.all([res.text(), k.text()]); rec(`${t()} clone ${h(a)} ${a === b}`); break; }
        case "iterate": { if (!res.body) { rec("nobody"); break; } const hh = createHash("sha1"); let n = 0; for await (const ch of res.body) { hh.update(ch); n += ch.length; } rec(`${t()} iter ${n} ${hh.digest("hex").slice(0, 12)}`); break; }
        case "partial": { if (!res.body) { rec("nobody"); break; } const rd = res.body.getReader(); const { done, value } = await rd.read(); rec(`${t()} first ${done} ${value ? h(value.subarray(0, 1)) : ""}`); rd.cancel().catch(() => {}); break; }
        default: break;
      }
    } catch (e) { rec(`${t()} bodyerr ${e?.name}:${e?.cause?.code ?? e?.message}`); op.outcome.bodyError = e; }
    if (timer && op.read !== "none") { G.clearTimeout(timer); timer = null; }
    if (timer) G.clearTimeout(timer);
    c.touch();
    return op.read === "none" ? res : null;
  }
  /** the application's request handler */
  handler() {
    const iso = this;
    const serve = async (request, env, ctx) => {
      const { G } = iso.proc;
      const spec = iso.specs[Number(/\/r(\d+)$/.exec(new URL(request.url).pathname)[1])];
      const c = { t0: iso.started[spec.i], touch: () => { iso.lastActivity[spec.i] = iso.sim.now; }, replay: spec.isReplay };
      c.touch();
      let proxied = null;
      if (request.body) iso.obs[spec.path] = h(await request.text());
      for (const op of spec.ops) { const r = await iso.exec(op, c); if (r) proxied = r; }
      for (const op of spec.bg) ctx.waitUntil(iso.exec(op, c).then(() => undefined));
      c.touch();
      const H = [["content-type", "text/html"], ["x-app", spec.path]];
      if (spec.timing) H.push(["server-timing", "app;dur=12"]);
      switch (spec.resp) {
        case "throw": throw Object.assign(new Error(`handler failed ${spec.path}`), { code: "EAPP" });
        case "proxy": if (proxied && !proxied.bodyUsed) { return proxied; } return new Response(`np ${spec.path}`, { status: 203, headers: H });
        case "null": return new Response(null, { status: 204, headers: H });
        case "redirect": return G.Response.redirect("https://app.test/next", 303);
        case "cookies": return new Response(text(spec.path, 500), { status: 200, headers: [...H, ["set-cookie", "k=1"], ["set-cookie", "j=2; Path=/"]] });
        case "stream": case "streamFetch": {
          const ts = new TransformStream(); const w = ts.writable.getWriter(); const enc = new TextEncoder();
          const produce = (async () => {
            try {
              await w.write(enc.encode(`head ${spec.path}`));
              for (const op of spec.streamOps) await iso.exec(op, c);
              await new Promise((r) => G.setTimeout(r, 10));
              await w.write(enc.encode("tail")); await w.close();
            } catch { /* client went away */ }
            c.touch();
          })();
          ctx.waitUntil(produce);
          return new Response(ts.readable, { status: 200, headers: H });
        }
        default: return new Response(text(spec.path, 300, true), { status: 200, headers: H });
      }
    };
    const fetch = (request, env, ctx) => {
      const spec = iso.specs[Number(/\/r(\d+)$/.exec(new URL(request.url).pathname)[1])];
      if (spec.syncThrow) throw new Error(`sync ${spec.path}`);
      return serve(request, env, ctx);
    };
    return { fetch, other: 42 };
  }
  start(scripts) {
    if (scripts) this.shim = this.proc.load(scripts.shim).shim;
    const app = this.handler();
    if (!this.shim) { this.invoke = async (rq, ctx) => app.fetch(rq, this.env, ctx); }
    else if (this.opts.pages) {
      const f = this.shim.withMeticulousPagesFunction((c) => app.fetch(c.request, c.env, { waitUntil: (p) => c.waitUntil(p) }), this.opts.options);
      this.invoke = async (rq, ctx) => f({ request: rq, env: this.env, waitUntil: (p) => ctx.waitUntil(p), params: {} });
    } else {
      const w = this.shim.withMeticulous(app, this.opts.options);
      this.sim.check(w.other === 42, "W01-handler", "wrapped handler lost its other members");
      this.invoke = async (rq, ctx) => w.fetch(rq, this.env, ctx);
    }
    if (this.shim) this.shim.withMeticulousPostgres(this.sql);
  }
  /** the client side: send the request, read the response */
  async request(spec) {
    const { sim } = this;
    const headers = { "user-agent": "t", cookie: `sid=${SECRET}`, authorization: `Bearer ${SECRET}` };
    if (spec.nav === 1) headers["sec-fetch-dest"] = "document"; if (spec.nav === 2) headers.accept = "text/html,*/*";
    if (spec.session) headers["x-meticulous-session-id"] = spec.session;
    Object.assign(headers, spec.headers ?? {});
    const rq = new Request(`https://app.test/${spec.path}`, { method: spec.method, headers, ...(spec.method === "POST" ? { body: `in-${spec.path}` } : {}) });
    (this.started ??= {})[spec.i] = sim.now; (this.lastActivity ??= {})[spec.i] = sim.now;
    const r = { waits: [], t0: sim.now }; this.results[spec.i] = r;
    const ctx = { waitUntil: (p) => {
      if (this.opts.waitUntilThrows) throw new Error("waitUntil: context is gone");
      const w = { t: sim.now, done: null }; r.waits.push(w); p.then(() => { w.done = sim.now; }, (e) => { w.done = sim.now; w.err = e; });
    } };
    sim.log(`${this.name} -> ${spec.path}`);
    let res;
    try { res = await this.invoke(rq, ctx); } catch (e) { r.at = sim.now - r.t0; r.line = `throw ${e?.name}:${e?.message}:${e?.code ?? ""}`; r.end = r.at; sim.log(`${this.name} <- ${spec.path} ${r.line}`); return; }
    r.at = sim.now - r.t0; r.headers = [...res.headers]; r.status = res.status;
    const hs = [...res.headers].filter(([k]) => k !== "x-meticulous-workerd-shim-version").map(([k, v]) => [k, k === "server-timing" ? v.split(/,\s*/).filter((x) => !x.startsWith("metsession")).join(", ") : v]).filter(([k, v]) => !(k === "server-timing" && v === ""));
    r.line = `${res.status} ${hs.map((x) => x.join("=")).join("&")} ${res.webSocket ? "ws" : ""}`;
    sim.log(`${this.name} <- ${spec.path} ${res.status}`);
    try {
      if (spec.clientAbort && res.body) { res.body.cancel().catch(() => {}); r.line += " cancelled"; }
      else {
        // a proxied never-ending body: the client gives up
        let give; const timer = new Promise((rs) => { give = sim.at(13001, () => rs("giveup"), { name: "client" }); });
        const parts = []; const rd = res.body?.getReader();
        while (rd) { const x = await Promise.race([rd.read(), timer]); if (x === "giveup") { r.line += " never"; rd.cancel().catch(() => {}); break; } if (x.done) break; parts.push(x.value); }
        sim.cancel(give);
        r.line += ` ${h(Buffer.concat(parts))}`;
      }
    } catch (e) { r.line += ` bodyerr ${e?.name}:${e?.cause?.code ?? e?.message}`; }
    r.end = sim.now - r.t0;
  }
}
const helper = (G) => G.Math.random().toString(36) + G.crypto.randomUUID().slice(0, 4);
const nest2 = (G) => helper(G); const nest1 = (G) => nest2(G);

// ------------------------------------------------------------------ endpoints
/** Recording sidecar with faults. */
class RecSidecar {
  constructor(sim, { faults }) { this.sim = sim; this.faults = faults; this.events = []; this.posts = []; this.raw = []; }
  async fetch(iso, via, req) {
    const { sim } = this; const p = iso.proc; const signal = req.signal; (iso.keep ??= []).push(req, signal); // Node holds a request's abort chain only weakly
    const body = await req.text();
    const post = { t: sim.now, via, path: new URL(req.url).pathname }; this.posts.push(post);
    this.raw.push(body);
    const f = this.faults ? ["ok", "refuse", "stall", "lost", "500", "slow", "stallBody", "garbage", "abortish"][sim.weighted("sf", this.faults)] : "ok";
    if (f !== "ok") { sim.fault(`sidecar:${f}`); }
    sim.log(`${iso.name} sidecar ${post.path} ${f}`);
    return new Promise((resolve, reject) => {
      let over = false; const fin = (fn, v) => { if (!over) { over = true; post.end = sim.now; fn(v); } };
      let bctl = null;
      const onAbort = () => { fin(reject, signal.reason); try { bctl?.error(signal.reason); } catch { /* done */ } };
      if (signal?.aborted) return onAbort();
      signal?.addEventListener("abort", onAbort);
      const accept = () => { try { const d = JSON.parse(body); for (const e of d.events) this.events.push({ ...e, _t: sim.now, _replayNote: undefined }); } catch (e) { sim.violate("W02-payload", `report is not JSON: ${e.message}`); } };
      const lat = sim.latency("slat", 1, 300);
      if (f === "refuse") return p.at(lat, () => fin(reject, netError("ECONNREFUSED")), "sc");
      if (f === "stall") return undefined;
      if (f === "slow") return p.at(lat + sim.int("slow", 500, 14000), () => { accept(); fin(resolve, new Response(null, { status: 204 })); }, "sc");
      return p.at(lat, () => {
        if (f !== "500") accept();
        if (f === "lost") return fin(reject, netError("ECONNRESET"));
        if (f === "500") return fin(resolve, new Response("no", { status: sim.pick("s5", [500, 400, 413, 429, 503]) }));
        if (f === "stallBody") return fin(resolve, new Response(new ReadableStream({ start(c) { bctl = c; } }), { status: 200 }));
        if (f === "garbage") return fin(resolve, new Response("<html>", { status: 200 }));
        if (f === "abortish") return fin(reject, undefined);
        return fin(resolve, new Response(null, { status: 204 }));
      }, "sc");
    });
  }
}
/** Replay sidecar with faults; records every handshake and lookup. */
class ReplaySidecar {
  constructor(sim, o) { this.sim = sim; this.o = o; this.handshakes = []; this.lookups = []; this.stray = []; }
  async fetch(iso, req) {
    const { sim } = this; const p = iso.proc; const url = new URL(req.url); const signal = req.signal; (iso.keep ??= []).push(req, signal);
    const body = req.body ? await req.text() : "";
    const entry = { t: sim.now, key: `${url.origin} ${url.searchParams.get("sessionId")}`, outcome: "pending" };
    let respond;
    if (url.pathname === "/v1/replay/session") {
      this.handshakes.push(entry);
      const s = this.o.sessions[url.searchParams.get("sessionId")];
      respond = () => { entry.intent = s ? "found" : "unavailable"; return Response.json(s ? { found: true, ...(s.anchor !== undefined ? { clockAnchorMs: s.anchor } : {}) } : { found: false }); };
    } else if (url.pathname === "/v1/replay/outbound-fetch") {
      let d; try { d = JSON.parse(body); } catch { sim.violate("W04-lookup", "lookup is not JSON"); return new Response("", { status: 400 }); }
      entry.d = d; this.lookups.push(entry);
      const op = iso.byPath.get(new URL(d.url).pathname.slice(1).split("/")[0]);
      entry.op = op;
      const m = op?.mock ?? "no-mock";
      respond = () => { entry.intent = m; return Response.json(m === "mock" ? { outcome: "mock", statusCode: op.mockStatus, body: `MOCK ${op.path} ${d.frontendSessionId}`, headers: { "content-type": "text/mock", "content-length": "3", "content-encoding": "gzip" } } : m === "badstatus" ? { outcome: "mock", statusCode: 99, body: "x", headers: {} } : m === "weird" ? { outcome: "passthrough" } : { outcome: "no-mock" }); };
    } else { this.stray.push(`${req.method} ${url.pathname}`); return new Response("", { status: 404 }); }
    const f = this.o.faults ? ["ok", "refuse", "stall", "lost", "500", "404", "slow", "stallBody", "garbage", "cut"][sim.weighted("rf", this.o.faults)] : "ok";
    if (f !== "ok") sim.fault(`replay:${f}`);
    sim.log(`${iso.name} replaysc ${url.pathname} ${f}`);
    return new Promise((resolve, reject) => {
      let over = false; let bctl = null;
      const fin = (fn, v) => { if (!over) { over = true; fn(v); } };
      const set = (o) => { if (entry.outcome === "pending") { entry.outcome = o; entry.end = sim.now; } };
      const onAbort = () => { set("unreachable"); fin(reject, signal.reason); try { bctl?.error(signal.reason); } catch { /* done */ } };
      signal?.addEventListener("abort", onAbort);
      const lat = sim.latency("rlat", 1, 60) + (f === "slow" ? sim.int("rslow", 1000, 12000) : 0);
      if (f === "refuse") return p.at(lat, () => { set("unreachable"); fin(reject, netError("ECONNREFUSED")); }, "rs");
      if (f === "stall") return undefined;
      return p.at(lat, () => {
        if (over) return;
        if (f === "lost") { set("unreachable"); return fin(reject, netError("ECONNRESET")); }
        if (f === "500") { set("unreachable"); return fin(resolve, new Response("x", { status: 503 })); }
        if (f === "404") { set("unavailable"); return fin(resolve, new Response("x", { status: 404 })); }
        const r = respond();
        if (f === "stallBody") return fin(resolve, new Response(new ReadableStream({ start(c) { bctl = c; c.enqueue(new TextEncoder().encode("{")); } }), { status: 200 }));
        if (f === "garbage") { set("unreachable"); return fin(resolve, new Response("<html>", { status: 200 })); }
        if (f === "cut") { set("unreachable"); return fin(resolve, new Response(new ReadableStream({ start(c) { c.enqueue(new TextEncoder().encode("{")); c.error(netError("ECONNRESET")); } }), { status: 200 })); }
        set(entry.intent); return fin(resolve, r);
      }, "rs");
    });
  }
}

const runAll = async (sim, iso, specs) => {
  const st = await sim.run(async () => {
    await Promise.all(specs.map(async (s) => { await sim.sleep(s.start, { name: "client" }); await iso.request(s); }));
  }, { maxTime: sim.now + 300e3, maxEvents: 60000 });
  return st;
};

// ------------------------------------------------------------------ record mode
/** @param focus "faults" | "clean" | "big" */
export const runRecord = async (sim, { scripts }, focus) => {
  sim.tieChoice = false;
  const n = focus === "big" ? sim.int("nreq", 1, 2) : sim.int("nreq", 1, 5);
  const o = { big: focus === "big", maxOps: focus === "big" ? 12 : 5, never: focus === "faults" ? 2 : 1 };
  const specs = focus === "flood" ? [genFlood(sim)] : Array.from({ length: n }, (_, i) => genRequest(sim, i, o));
  const clean = focus !== "faults";
  const transport = sim.pick("tr", ["url", "binding"]);
  const pages = sim.chance("pages", 0.3);
  const dirty = !clean && sim.chance("wuthrow", 0.05);
  const noMint = sim.chance("nomint", 0.2);
  const explicit = sim.chance("expl", 0.2);
  // plain world
  const A = new Isolate(sim, "plain", specs, { transport: "none", waitUntilThrows: dirty }); A.start(null);
  let st = await runAll(sim, A, specs);
  if (st !== "done") { if (st === "violation") return {}; throw new Error(`plain world did not finish: ${st}`); }
  await sim.settle(60e3);
  for (const op of A.byPath.values()) for (const k of ["full", "expectBody", "called", "failedAt", "headersAt", "outcome", "abortedAt", "done"]) delete op[k];
  // wrapped world
  const sidecar = new RecSidecar(sim, { faults: clean ? null : [4, 2, 2, 1, 2, 2, 1, 1, 0.3] });
  const B = new Isolate(sim, "wrapped", specs, { transport, pages, sidecar, waitUntilThrows: dirty, noMint, options: undefined });
  if (explicit) { B.opts.options = transport === "url" ? { sidecarUrl: "http://127.0.0.1:777" } : { sidecarBinding: B.env.METICULOUS_SIDECAR, mintProvisionalSessionIds: !noMint }; delete B.env.METICULOUS_SIDECAR_URL; if (transport === "binding" && sim.chance("alias", 0.5)) { B.env.MY_SIDECAR = B.env.METICULOUS_SIDECAR; delete B.env.METICULOUS_SIDECAR; } }
  try { B.start(scripts); } catch (e) { sim.violate("W01-init", `wrapping the worker threw: ${e.message}`); return {}; }
  st = await runAll(sim, B, specs);
  if (st === "violation") return {};
  if (st !== "done") { sim.violate("W01-hang", `the wrapped worker did not answer every request the plain one did (${st})`, { missing: specs.filter((s) => B.results[s.i]?.line === undefined).map((s) => ({ ...s, ops: s.ops.map((o) => ({ ...o, full: 0, expectBody: 0 })) })) }); return {}; }
  // W03: background work bounded
  const postMs = transport === "binding" ? 10000 : 2000;
  const settleBound = () => {
    for (const s of specs) {
      const r = B.results[s.i]; const lastApp = Math.max(B.lastActivity[s.i], r.t0 + (r.end ?? 0));
      const posts = sidecar.posts.length;
      r.bound = lastApp + 10000 + (1 + posts) * postMs + 1500;
    }
  };
  await sim.settle(200e3);
  if (sim.stopped) return {};
  settleBound();
  if (!dirty) for (const s of specs) {
    const r = B.results[s.i];
    for (const w of r.waits) {
      if (w.done === null) { sim.violate("W03-unbounded", `background work of request ${s.path} registered at +${w.t - r.t0} ms never finished`, { transport, focus }); return {}; }
      if (w.done > r.bound) { sim.violate("W03-late", `background work of request ${s.path} finished ${w.done - r.t0} ms after the request began, beyond its bound of ${r.bound - r.t0} ms`); return {}; }
      if (w.err) { sim.violate("W01-waituntil", `background work rejected: ${w.err?.message}`); return {}; }
    }
    sim.check(r.at === A.results[s.i].at, "W03-delay", () => `response to ${s.path} came after ${r.at} ms, ${A.results[s.i].at} ms without recording`);
  }
  const left = B.proc.activeTimers().length;
  sim.check(left === 0, "W03-timers", () => `${left} timers still pending after all work ended`);
  for (const p of sidecar.posts) if (p.end !== undefined) sim.check(p.end - p.t <= postMs + 1, "W03-post", () => `a report was waited on for ${p.end - p.t} ms`);
    else sim.violate("W03-post", "a report to the sidecar was never given up");
  // W01: differential
  for (const s of specs) {
    const a = A.results[s.i], b = B.results[s.i];
    if (!sim.check(a.line === b.line, "W01-response", () => `response to ${s.path} differs: plain ${a.line} / recorded ${b.line}`)) return {};
    if (!sim.check(a.end === b.end, "W01-response-time", () => `response body of ${s.path} ended at ${b.end} instead of ${a.end}`)) return {};
  }
  for (const k of new Set([...Object.keys(A.obs), ...Object.keys(B.obs)])) if (!sim.check(norm(A.obs[k]) === norm(B.obs[k]), "W01-observed", () => `operation ${k} looked different to the application: plain ${A.obs[k]} / recorded ${B.obs[k]}`, { op: B.byPath.get(k) && { ...B.byPath.get(k), full: undefined, outcome: undefined } })) return {};
  const la = A.backend.map((x) => x.line).sort(), lb = B.backend.map((x) => x.line).sort();
  for (let i = 0; i < Math.max(la.length, lb.length); i++) if (!sim.check(la[i] === lb[i], "W01-backend", () => `backends saw different calls: plain ${la[i]} / recorded ${lb[i]}`)) return {};
  const ka = A.kvLog.map((x) => x.line).sort(), kb = B.kvLog.map((x) => x.line).sort();
  for (let i = 0; i < Math.max(ka.length, kb.length); i++) if (!sim.check(ka[i] === kb[i], "W01-kv", () => `KV saw different operations: plain ${ka[i]} / recorded ${kb[i]}`)) return {};
  const ua = (A.unhandledErrors ?? []).map(String).sort().join(), ub = (B.unhandledErrors ?? []).map(String).sort().join();
  sim.check(ua === ub, "W01-unhandled", () => `unhandled rejections: plain [${ua}] / recorded [${ub}]`);
  if (sim.stopped) return {};
  // secrets
  const planted = sidecar.raw.join("\n");
  const leak = planted.replaceAll(`${SECRET}Q`, "").indexOf(SECRET);
  sim.check(leak < 0, "W06-secret", () => `a report carried a credential: …${planted.slice(Math.max(0, leak - 80), leak + 20)}…`);
  if (clean && !dirty) checkCaptured(sim, specs, B, sidecar);
  sim.probe("requests", n); sim.probe("ops", B.byPath.size); sim.probe("events", sidecar.events.length); sim.probe(`transport:${transport}`); if (pages) sim.probe("pages");
  return { sample: { requests: n, ops: B.byPath.size, events: sidecar.events.length, transport, focus } };
};
const norm = (s) => s;

const checkCaptured = (sim, specs, B, sidecar) => {
  const by = new Map(); const inbound = new Map();
  for (const e of sidecar.events) {
    if (e.kind === "inbound") { const p = new URL(e.url).pathname.slice(1); inbound.set(p, [...(inbound.get(p) ?? []), e]); continue; }
    const p = e.kind === "kv" ? (e.key ?? JSON.parse(e.args.body)[0]?.prefix) : e.kind === "postgres" ? /\/\* (\S+) \*\//.exec(e.queryText)?.[1] : new URL(e.url).pathname.slice(1).split("/")[0];
    by.set(p, [...(by.get(p) ?? []), e]);
  }
  const reqIds = new Set(), traces = new Set();
  for (const s of specs) {
    const r = B.results[s.i]; const ins = inbound.get(s.path) ?? [];
    if (!sim.check(ins.length === 1, "W02-inbound", () => `request ${s.path} produced ${ins.length} inbound events`)) return;
    const e = ins[0];
    if (!sim.check(!reqIds.has(e.requestId) && !traces.has(e.traceId), "W02-ids", () => `request ${s.path} shares its request or trace id with another request`)) return;
    reqIds.add(e.requestId); traces.add(e.traceId);
    if (r.line.startsWith("throw")) sim.check(typeof e.error === "string" && e.statusCode === undefined, "W02-inbound-outcome", () => `failed request ${s.path} recorded as ${e.statusCode}`);
    else sim.check(e.statusCode === r.status, "W02-inbound-outcome", () => `request ${s.path} recorded with status ${e.statusCode}, served ${r.status}`);
    sim.check(e.method === s.method, "W02-inbound-method", "inbound method differs");
    if (s.session) sim.check(e.frontendSessionId === s.session && !e.sessionIdOrigin, "W02-session", () => `request ${s.path} of ${s.session} recorded under ${e.frontendSessionId}`);
    else if (s.nav && !B.opts.noMint && s.method === "GET") {
      sim.check(!!e.frontendSessionId && e.sessionIdOrigin === "backend", "W02-mint", () => `document navigation ${s.path} has no minted session`);
      if (r.headers && !r.line.includes(" ws ")) sim.check(r.headers.some(([k, v]) => k === "server-timing" && v.includes(`metsession;desc="${e.frontendSessionId}"`)), "W02-mint-publish", () => `minted session ${e.frontendSessionId} was not published on the response of ${s.path}`);
    } else sim.check(!e.frontendSessionId, "W02-session", () => `request ${s.path} without a session recorded under ${e.frontendSessionId}`);
    if (sim.stopped) return;
    const ops = [...B.byPath.values()].filter((op) => op.path.startsWith(`${s.path}_`) && op.kind !== "par");
    for (const op of ops) {
      const got = by.get(op.path) ?? [];
      let want = 0;
      if (op.kind === "fetch" || op.kind === "binding") want = op.called === undefined || op.target === "ASSETS" || op.ws ? 0 : op.headersAt !== undefined || op.failedAt !== undefined ? 1 : 0;
      else if (op.kind === "kv") want = B.kvLog.some((k) => k.path === op.path) ? 1 : 0;
      else if (op.kind === "pg") want = op.done !== undefined ? 1 : 0;
      if (op.ws && op.failedAt !== undefined) want = 1;
      if (!sim.check(got.length === want, "W02-count", () => `operation ${op.path} (${op.kind}) happened ${want} time(s), ${got.length} event(s) recorded`, { op: { ...op, full: undefined, expectBody: undefined, outcome: undefined } })) return;
      for (const g of got) {
        if (!sim.check(g.requestId === e.requestId && g.traceId === e.traceId && g.serverSpanId === e.serverSpanId && g.frontendSessionId === e.frontendSessionId, "W02-attribution", () => `operation ${op.path} was attributed to another request`)) return;
        if (!checkBody(sim, op, g)) return;
      }
    }
    for (const w of r.waits) void w;
  }
  const known = new Set([...B.byPath.keys()]);
  for (const p of by.keys()) sim.check(known.has(p), "W02-stray", () => `event for an operation nobody made: ${p}`);
};
const checkBody = (sim, op, g) => {
  if (op.kind === "kv") {
    sim.check(g.operation === op.op && g.bindingName === op.ns, "W02-kv", () => `KV event says ${g.bindingName}.${g.operation} for ${op.ns}.${op.op}`);
    sim.check((g.error !== undefined) === kvFails(op), "W02-kv-error", () => `KV ${op.op} ${op.path} failed=${kvFails(op)} recorded error=${g.error}`);
    if (!kvFails(op) && op.op === "list") sim.check(g.result && JSON.parse(g.result.body).keys.length === 2, "W02-kv-result", "KV list result not recorded");
    if (!kvFails(op) && op.op === "get" && op.type !== "stream" && op.type !== "arrayBuffer" && op.val === "string" && op.type !== "json") sim.check(g.result?.body === JSON.stringify(`value-${op.path}`), "W02-kv-result", () => `KV get result recorded as ${g.result?.body}`);
    for (const b of [g.result, g.value]) if (b) sim.check(b.body.length <= CAP, "W02-cap", "captured KV value exceeds the cap");
    return !sim.stopped;
  }
  if (op.kind === "pg") {
    sim.check(op.fail ? typeof g.errorJson === "string" && JSON.parse(g.errorJson).code === "42P01" && g.result === undefined : !!g.result && JSON.parse(g.result.body).rows?.length === op.rows || !!g.result && JSON.stringify(JSON.parse(g.result.body)).includes("rows"), "W02-pg", () => `query outcome recorded as ${JSON.stringify(g).slice(0, 300)}`);
    sim.check(g.rowMode === op.mode, "W02-pg-mode", () => `row mode ${g.rowMode} for ${op.mode}`);
    return !sim.stopped;
  }
  sim.check(g.kind === (op.kind === "fetch" ? "outbound" : "binding"), "W02-kind", () => `operation ${op.path} recorded as ${g.kind}`);
  if (op.kind === "binding") sim.check(g.bindingName === (op.target === "DO" ? undefined : op.target), "W02-binding-name", () => `binding ${op.target} recorded as ${g.bindingName}`);
  sim.check(g.method === op.method, "W02-method", () => `${op.path} method ${g.method}`);
  for (const b of [g.requestBody, g.responseBody]) if (b) {
    const bytes = Buffer.byteLength(b.body);
    sim.check(bytes <= CAP + 8, "W02-cap", () => `captured body of ${op.path} has ${bytes} bytes, over the cap`);
  }
  if (op.failedAt !== undefined) { sim.check(g.error !== undefined && g.statusCode === undefined, "W02-failed", () => `failed call ${op.path} recorded as status ${g.statusCode}`); return !sim.stopped; }
  sim.check(g.statusCode === op.status && g.error === undefined, "W02-status", () => `call ${op.path} answered ${op.status}, recorded ${g.statusCode} ${g.error ?? ""}`);
  // response body
  const full = op.full; const nul = op.status === 204 || op.status === 304;
  if (nul || full.length === 0) { sim.check(g.responseBody === undefined || g.responseBody.body === "", "W02-body", "a body was recorded for a bodyless response"); return !sim.stopped; }
  const complete = op.gap * op.nchunks;
  if (complete > 9500 && complete < 10500) return !sim.stopped;
  if (op.abortedAt !== undefined && (op.end === "never" || op.abortedAt < op.headersAt + complete + 1)) return !sim.stopped; // the application broke the body off
  const b = g.responseBody;
  if (op.end === "error") { sim.check(b === undefined || b.truncated || full.length > CAP, "W02-body", () => `body of ${op.path} broke off but was recorded as complete`); return !sim.stopped; }
  if (op.end === "never" || complete >= 10500) { sim.check(b !== undefined && b.truncated, "W02-body-slow", () => `body of ${op.path} was not read to its end in time but is not flagged truncated`); return !sim.stopped; }
  sim.check(b !== undefined, "W02-body", () => `response body of ${op.path} was not recorded`);
  if (!b) return false;
  if (full.length > CAP) sim.check(b.truncated && full.toString().startsWith(b.body.replace(/\uFFFD+$/, "")), "W02-body-cap", () => `body of ${full.length} bytes recorded with truncated=${b.truncated}`);
  else sim.check(!b.truncated && b.body === full.toString(), "W02-body", () => `response body of ${op.path} recorded wrongly (${b.body.length} chars, truncated=${b.truncated}, real ${full.length} bytes)`);
  // request body
  if (op.expectBody !== undefined && op.rawBody && !op.bodyStall && op.abortedAt === undefined) {
    const rb = g.requestBody; const want = op.expectBody; const raw = Buffer.byteLength(want);
    if (raw + 60 <= CAP) { if (raw > 0) sim.check(rb !== undefined && !rb.truncated && rb.body === want, "W02-reqbody", () => `request body of ${op.path} (${op.reqBody}) recorded wrongly: ${rb?.body?.slice(0, 80)} / ${want.slice(0, 80)}`); }
    else if (raw > CAP + 100) sim.check(rb?.truncated === true, "W02-reqbody-cap", () => `an oversized request body of ${op.path} is not flagged truncated`);
  }
  return !sim.stopped;
};
const kvFails = (op) => op.fail || (op.type === "json" && (op.op === "get" || op.op === "getWithMetadata") && op.val !== "json" && op.val !== "missing");

// ------------------------------------------------------------------ replay mode
const LOOP = "http://127.0.0.1:967"; // a prefix of one of the backend origins, on purpose
/** @param focus "faults" | "clean" */
export const runReplay = async (sim, { scripts }, focus) => {
  sim.tieChoice = false;
  const n = sim.int("nreq", 2, 6);
  const o = { replay: true, rand: 4, log: 2, pg: 1, kv: 1, never: 1, sessions: 3, spread: sim.pick("spread", [0, 30, 200, 4000, 30000]) };
  const specs = Array.from({ length: n }, (_, i) => genRequest(sim, i, o));
  const sessions = {};
  for (let i = 0; i < 4; i++) if (sim.chance("known", 0.8)) sessions[`sess-${i}`] = { anchor: sim.chance("anch", 0.8) ? 1750000000000 + i * 86400000 : undefined };
  for (const s of specs) {
    for (const op of [...s.ops, ...s.bg, ...s.streamOps].flatMap(function f(x) { return x.ops ? x.ops.flatMap(f) : [x]; })) if (op.mock) op.mockStatus = sim.pick("ms", [200, 200, 404, 500, 204]);
    const kind = sim.weighted("rk", [6, 2, 1, 1, 1]);
    s.rk = ["replay", "plain", "noId", "badUrl", "noSession"][kind];
    s.session ??= `sess-${sim.int("sid2", 0, 3)}`;
    s.rid = `${s.session}-rep${sim.int("rid", 0, 1)}`; // requests of one replay share its id
    if (kind !== 1) s.headers = { "x-meticulous-backend-replay-sidecar-url": s.rk === "badUrl" ? sim.pick("bad", ["https://127.0.0.1:967", "http://evil.test:967", "http://127.0.0.1:967/path", "nonsense", "http://169.254.169.254"]) : sim.pick("okurl", [LOOP, `${LOOP}/`]), ...(s.rk === "noId" ? {} : { "x-meticulous-replay-id": s.rid }), ...(sim.chance("vt", 0.5) ? { "x-meticulous-virtual-time": String(s.i * 100) } : {}) };
    if (s.rk === "noSession") s.session = null;
    if (s.rk === "plain" && sim.chance("nosess", 0.5)) s.session = null;
  }
  const transport = sim.pick("tr", ["none", "url", "binding"]);
  const mk = (name, faults, list, off) => {
    const sidecar = new RecSidecar(sim, { faults: null }); const replay = new ReplaySidecar(sim, { sessions, faults });
    const iso = new Isolate(sim, name, list, { transport, sidecar, replaySidecar: replay, clockOffset: off, pages: false });
    iso.start(scripts); return { iso, sidecar, replay };
  };
  const { iso, sidecar, replay } = mk("mixed", focus === "faults" ? [6, 1, 1, 1, 1, 1, 1, 0.5, 0.5, 0.5] : null, specs, 0);
  // wrap invoke so the mode of each request is known to the interpreter at handler entry
  const resolveMode = (s) => {
    if (s.rk !== "replay") return false;
    const key = `${LOOP} ${s.session}`; const t = iso.started[s.i];
    const hs = replay.handshakes.filter((x) => x.key === key);
    const before = hs.filter((x) => x.end !== undefined && x.end <= t && x.outcome !== "unreachable");
    if (before.length) return before[before.length - 1].outcome === "found";
    const inflight = hs.find((x) => x.t < t && (x.end === undefined || x.end >= t)) ?? hs.find((x) => x.t >= t && x.t <= t + 1);
    if (!inflight) { sim.violate("W04-handshake", `request ${s.path} is a replay of ${s.session} the replay service has not yet settled, but it was not asked again`); return false; }
    return inflight?.outcome === "found" && inflight.end !== undefined;
  };
  const orig = iso.handler;
  const probeMode = (s) => { s.isReplay = resolveMode(s); };
  iso.onEnter = probeMode;
  for (const s of specs) Object.defineProperty(s, "isReplay", { get() { if (s._m === undefined) s._m = resolveMode(s); return s._m; }, set(v) { s._m = v; }, configurable: true });
  const st = await runAll(sim, iso, specs);
  if (st === "violation") return {};
  if (st !== "done") { sim.violate("W04-hang", `a request did not finish (${st})`, { missing: specs.filter((s) => iso.results[s.i]?.line === undefined).map((s) => s.path) }); return {}; }
  await sim.settle(100e3);
  if (sim.stopped) return {};
  void orig;
  const owner = (p) => specs.find((s) => p.startsWith(`${s.path}_`));
  // W04
  for (const b of iso.backend) {
    const s = owner(b.path); const op = iso.byPath.get(b.path);
    if (s?.isReplay && op.kind === "fetch") sim.check(op.passVal === "true", "W04-leak", () => `replayed request ${s.path} reached the real backend for ${b.path}`);
  }
  for (const l of replay.lookups) {
    const s = owner(l.op?.path ?? "");
    if (!sim.check(s?.isReplay === true, "W04-spurious", () => `request ${s?.path} is not a replay but its call ${l.op?.path} was looked up`)) return {};
    sim.check(l.d.frontendSessionId === s.session && l.d.replayId === s.rid, "W04-identity", () => `lookup for ${l.op.path} names ${l.d.frontendSessionId}/${l.d.replayId}`);
    sim.check((l.d.virtualTimeMs ?? null) === (s.headers["x-meticulous-virtual-time"] !== undefined ? s.i * 100 : null), "W04-vt", () => `lookup virtual time ${l.d.virtualTimeMs}`);
    sim.check(l.op.passVal !== "true", "W04-passthrough", () => `a call marked passthrough was looked up: ${l.op.path}`);
    if (l.op.expectBody && !l.op.bodyStall && l.op.abortedAt === undefined && Buffer.byteLength(l.op.expectBody) + 60 < CAP) sim.check(l.d.requestBody?.body === l.op.expectBody, "W04-body", () => `lookup body of ${l.op.path} is not the captured form`);
    sim.check(!JSON.stringify(l.d).replaceAll(`${SECRET}Q`, "").includes(SECRET), "W06-secret", "a lookup carried a credential");
    if (sim.stopped) return {};
  }
  for (const op of iso.byPath.values()) {
    if (op.kind !== "fetch" || op.called === undefined) continue;
    const s = owner(op.path); const ls = replay.lookups.filter((l) => l.op === op);
    if (!s.isReplay) { if (op.outcome?.body) sim.check(!op.outcome.body.startsWith("MOCK"), "W04-served", () => `ordinary request ${s.path} was answered from a recording`); continue; }
    if (op.passVal === "true") continue;
    sim.check(ls.length <= 1, "W04-lookups", () => `call ${op.path} was looked up ${ls.length} times`);
    const l = ls[0]; const took = (op.headersAt ?? op.failedAt ?? Infinity) - op.called;
    sim.check(took <= 5000 + 10000, "W04-slow", () => `replayed call ${op.path} was unsettled for ${took} ms`);
    const good = l && l.outcome === "mock";
    if (op.headersAt !== undefined) {
      sim.check(good && op.outcome.status === op.mockStatus && (op.outcome.body === undefined || op.mockStatus === 204 || op.outcome.body === `MOCK ${op.path} ${s.session}`), "W04-answer", () => `call ${op.path} got ${op.outcome.status} ${op.outcome.body?.slice(0, 40)} though the replay service said ${l?.outcome}`);
    } else sim.check(!good || l.end === undefined || l.end - l.t > 4999, "W04-mock-lost", () => `call ${op.path} failed though a recording was served for it`);
    if (sim.stopped) return {};
  }
  for (const e of sidecar.events) {
    const p = e.kind === "inbound" ? new URL(e.url).pathname.slice(1) : e.kind === "kv" ? (e.key ?? JSON.parse(e.args.body)[0]?.prefix) : e.kind === "postgres" ? /\/\* (\S+) \*\//.exec(e.queryText)?.[1] : new URL(e.url).pathname.slice(1).split("/")[0];
    const s = specs.find((x) => x.path === p) ?? owner(p);
    sim.check(!s?.isReplay, "W04-recorded", () => `replayed request ${s.path} was recorded (${e.kind} ${p})`);
  }
  sim.check(replay.stray.length === 0, "W04-stray", () => `unexpected traffic to the replay service: ${replay.stray[0]}`);
  // a replay must be one whenever the replay service answered
  for (const s of specs) if (s.rk === "replay" && focus === "clean" && sessions[s.session]) sim.check(s.isReplay, "W04-mode", () => `request ${s.path} should have been a replay`);
  if (sim.stopped) return {};
  // W07: log tags
  checkLogs(sim, iso, specs);
  // W05
  if (focus === "clean") {
    const reps = specs.filter((s) => s.isReplay); const target = reps.length ? reps[sim.int("ref", 0, reps.length - 1)] : null;
    for (const s of specs) if (!s.isReplay) for (const op of iso.byPath.values()) if (op.kind === "clock" && op.path.startsWith(`${s.path}_`) && op.how === "now" && iso.obs[op.path]) {
      const v = Number(iso.obs[op.path].slice(1)); const now = 1768471200000; sim.check(v >= now && v <= now + sim.now, "W05-real-clock", () => `ordinary request ${s.path} saw the clock at ${v}`);
    }
    for (const s of specs) if (!s.isReplay) for (const op of iso.byPath.values()) if (op.kind === "clock" && op.path.startsWith(`${s.path}_`) && (op.how === "new" || op.how === "call") && iso.obs[op.path]) {
      const v = Date.parse(iso.obs[op.path].slice(1)); const now = 1768471200000; sim.check(v >= now - 1000 && v <= now + sim.now, "W05-real-clock", () => `ordinary request ${s.path} saw the date ${iso.obs[op.path].slice(1)}`);
    }
    for (const s of reps) for (const op of iso.byPath.values()) if (op.kind === "clock" && op.path.startsWith(`${s.path}_`) && op.how === "now" && iso.obs[op.path] && ![...iso.byPath.values()].some((x) => x.kind === "clock" && x.how === "spin")) {
      const want = sessions[s.session].anchor ?? Date.UTC(2026, 4, 13); sim.check(Number(iso.obs[op.path].slice(1)) === want, "W05-anchor", () => `replay of ${s.session} saw the clock at ${iso.obs[op.path].slice(1)} instead of ${want}`);
    }
    if (target) {
      // the same request alone, at another real time, in a fresh isolate
      const keep = { ...iso.obs };
      for (const op of iso.byPath.values()) for (const k of ["full", "expectBody", "called", "failedAt", "headersAt", "outcome", "abortedAt", "done"]) delete op[k];
      const alone = mk("alone", null, specs, sim.int("off", -5e8, 5e8));
      await runAll(sim, alone.iso, [{ ...target, start: 0, isReplay: true, path: target.path }]);
      await sim.settle(60e3);
      if (sim.stopped) return {};
      for (const op of alone.iso.byPath.values()) if ((op.kind === "rand" || op.kind === "clock") && op.path.startsWith(`${target.path}_`)) {
        const a = keep[op.path], b = alone.iso.obs[op.path];
        if (!sim.check(a === b, op.kind === "rand" ? "W05-random" : "W05-clock", () => `replay of ${target.session}: ${op.kind}/${op.how} gave ${a} next to other requests and ${b} alone`)) return {};
        sim.probe("w05:compared");
      }
    }
    // randomness of ordinary requests must not repeat
    const seen = new Set();
    for (const op of iso.byPath.values()) { const s = owner(op.path); if (s && !s.isReplay && op.kind === "rand" && op.how !== "values" && iso.obs[op.path]) for (const v of iso.obs[op.path].split("|").filter(Boolean)) { sim.check(!seen.has(v), "W05-real-random", () => `ordinary request drew the same random value twice: ${v}`); seen.add(v); } }
  }
  sim.probe("requests", n); sim.probe("replayed", specs.filter((s) => s.isReplay).length); sim.probe("lookups", replay.lookups.length);
  return { sample: { requests: n, replayed: specs.filter((s) => s.isReplay).length, lookups: replay.lookups.length, focus } };
};
const checkLogs = (sim, iso, specs) => {
  for (const line of iso.proc.consoleLines) {
    const m = /(r\d+)_[\w.]+/.exec(line); if (!m || !/ app | boom|fmt|"o":/.test(line)) continue;
    const s = specs.find((x) => x.path === m[1]); if (!s) continue;
    const tag = `[meticulous-replay-id:${s.rid}]`;
    if (s.isReplay) {
      sim.check(line.includes(tag) && !new RegExp(`meticulous-replay-id:(?!${s.rid}\\])`).test(line), "W07-tag", () => `log line of replay ${s.rid} is tagged wrongly: ${line.slice(0, 200)}`);
      for (const part of line.split("\n").slice(1)) sim.check(!part.trim() || part.startsWith(tag), "W07-continuation", () => `continuation line of a replay log is untagged: ${part}`);
    } else sim.check(!line.includes("meticulous-replay-id"), "W07-foreign", () => `log line of an ordinary request carries a replay tag: ${line.slice(0, 200)}`);
    sim.probe("w07:lines");
  }
};
