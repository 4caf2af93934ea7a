// Simulator versions of npm packages and network builtins the code under test
// imports. Faithful models where a property depends on them (axios, axios-retry,
// proper-lockfile, zlib, fast-zlib, extract-zip); trivial elsewhere.
import { Readable, Transform, finished as streamFinished } from "node:stream";
import realZlib from "node:zlib";
import path from "node:path";
import { EventEmitter } from "node:events";
import { fsModules } from "./fs.mjs";
import { chunkify, netError } from "./net.mjs";
import { httpModule } from "./http.mjs";

// ---------------------------------------------------------------- logging etc.
const loglevel = (proc) => {
  const levels = { TRACE: 0, DEBUG: 1, INFO: 2, WARN: 3, ERROR: 4, SILENT: 5 };
  const names = ["trace", "debug", "info", "warn", "error"];
  const loggers = {};
  const make = (name) => {
    const l = { levels, name, _lvl: 2, methodFactory: (m) => (...a) => proc.G.console[m === "trace" ? "debug" : m](...a), getLevel: () => l._lvl, setLevel: (v) => { l._lvl = typeof v === "string" ? levels[v.toUpperCase()] : v; l.rebuild(); }, setDefaultLevel: (v) => { if (!l._set) { l._lvl = v; l.rebuild(); } }, enableAll: () => l.setLevel(0), disableAll: () => l.setLevel(5), noConflict: () => l,
      rebuild() { names.forEach((n, i) => { l[n] = i >= l._lvl ? l.methodFactory(n, l._lvl, name) : () => {}; }); l.log = l.debug; } };
    l.rebuild(); return l;
  };
  const root = make("root"); root.getLogger = (n) => (loggers[n] ??= make(n)); root.getLoggers = () => loggers;
  root.default = root; return root;
};
const luxon = (proc) => {
  const F = { milliseconds: 1, seconds: 1000, minutes: 60e3, hours: 3600e3, days: 86400e3 };
  const dur = (ms) => ({ as: (u) => ms / F[u.endsWith("s") ? u : u + "s"], toMillis: () => ms, valueOf: () => ms, milliseconds: ms });
  const dt = (ms) => ({ toMillis: () => ms, toISO: () => new Date(ms).toISOString(), toJSDate: () => new Date(ms), valueOf: () => ms, toFormat: () => new Date(ms).toISOString(), diff: (o) => dur(ms - o.valueOf()), minus: (d) => dt(ms - d), plus: (d) => dt(ms + d) });
  return { Duration: { fromObject: (o) => dur(Object.entries(o).reduce((a, [k, v]) => a + v * (F[k] ?? F[k + "s"]), 0)), fromMillis: dur }, DateTime: { utc: () => dt(proc.nowMs()), now: () => dt(proc.nowMs()), fromISO: (s) => dt(Date.parse(s)), fromMillis: dt } };
};
const chalk = () => { const h = { get: (t, k) => (k === "default" ? p : k === "__esModule" ? undefined : k === "level" ? 0 : k === Symbol.toPrimitive ? undefined : p), apply: (t, s, a) => a.map(String).join(" ") }; const p = new Proxy(function () {}, h); return p; };
const cliProgress = () => { class SingleBar { start(t) { this.total = t; } getTotal() { return this.total ?? 0; } update() {} increment() {} stop() {} setTotal(t) { this.total = t; } } return { SingleBar, MultiBar: class { create() { return new SingleBar(); } stop() {} remove() {} }, Presets: { shades_classic: {}, shades_grey: {}, rect: {}, legacy: {} } }; };
const undici = (proc) => {
  class Agent { constructor(o) { this.o = o; } close() {} destroy() {} }
  class ProxyAgent extends Agent {}
  const api = { Agent, ProxyAgent, EnvHttpProxyAgent: Agent, setGlobalDispatcher() {}, getGlobalDispatcher() { return new Agent(); }, Response, Request, Headers, FormData,
    fetch: (input, init) => { if (init && init.dispatcher) { const { dispatcher, ...rest } = init; proc.lastDispatcher = dispatcher; return proc.G.fetch(input, rest); } return proc.G.fetch(input, init); } };
  api.default = api; return api;
};

// ---------------------------------------------------------------- axios
// proc.opts.http = { faultFor(info), handle(info, fault), latency:[lo,hi], chunks, name }
const axiosModule = (proc) => {
  const sim = proc.sim;
  class AxiosError extends Error {
    constructor(message, code, config, request, response) { super(message); this.name = "AxiosError"; this.isAxiosError = true; if (code) this.code = code; this.config = config; this.request = request; if (response) { this.response = response; this.status = response.status; } }
  }
  Object.assign(AxiosError, { ERR_NETWORK: "ERR_NETWORK", ERR_BAD_RESPONSE: "ERR_BAD_RESPONSE", ERR_BAD_REQUEST: "ERR_BAD_REQUEST", ECONNABORTED: "ECONNABORTED", ETIMEDOUT: "ETIMEDOUT", ERR_CANCELED: "ERR_CANCELED" });
  class CanceledError extends AxiosError { constructor(message, config, request) { super(message == null ? "canceled" : message, "ERR_CANCELED", config, request); this.name = "CanceledError"; this.__CANCEL__ = true; } }
  class CancelToken {
    constructor(executor) { this._l = []; this.promise = new Promise((r) => { this._r = r; }); executor((message, config, request) => { if (this.reason) return; this.reason = new CanceledError(message, config, request); this._r(this.reason); const l = this._l; this._l = []; Promise.resolve().then(() => l.forEach((f) => f(this.reason))); }); }
    throwIfRequested() { if (this.reason) throw this.reason; }
    subscribe(f) { if (this.reason) { f(this.reason); return; } this._l.push(f); }
    unsubscribe(f) { this._l = this._l.filter((x) => x !== f); }
    static source() { let cancel; const token = new CancelToken((c) => { cancel = c; }); return { token, cancel }; }
  }
  const send = (config) => new Promise((resolve0, reject0) => {
    const net = proc.opts.http; const name = net.name ?? "http";
    const url = new URL(config.url, config.baseURL);
    for (const [k, v] of Object.entries(config.params ?? {})) if (v != null) url.searchParams.append(k, String(v));
    const method = (config.method ?? "get").toUpperCase();
    const info = { proc, method, url: url.href, host: url.host, path: url.pathname, query: url.searchParams, headers: new Headers(config.headers ?? {}), body: config.data === undefined ? Buffer.alloc(0) : Buffer.isBuffer(config.data) ? config.data : Buffer.from(typeof config.data === "string" ? config.data : JSON.stringify(config.data)), t: sim.now };
    let done = false, timer = null, body = null;
    const onFinished = () => { config.cancelToken?.unsubscribe(abort); config.signal?.removeEventListener("abort", abort); };
    const resolve = (v) => { if (done) return; done = true; if (timer) proc.G.clearTimeout(timer); resolve0(v); };
    const reject = (e) => { if (done) return; done = true; if (timer) proc.G.clearTimeout(timer); onFinished(); reject0(e); };
    const abort = (reason) => {
      const err = !reason || reason.type ? new CanceledError(null, config) : reason;
      if (!done) { reject(err); return; }
      if (body && !body.destroyed) { body.emit("error", err); body.destroy(); }
    };
    if (config.cancelToken?.reason) { reject(config.cancelToken.reason); return; }
    if (config.signal?.aborted) { reject(new CanceledError(null, config)); return; }
    config.cancelToken?.subscribe(abort);
    config.signal?.addEventListener("abort", abort);
    if (config.timeout) timer = proc.G.setTimeout(() => reject(new AxiosError(`timeout of ${config.timeout}ms exceeded`, "ECONNABORTED", config, {})), config.timeout);
    net.onOpen?.(info);
    const f = net.faultFor?.(info) ?? null;
    if (f) { sim.fault(`${name}:${f.kind}`); sim.log(`${proc.name} fault ${f.kind} on ${method} ${info.path}`); }
    const L = net.latency ?? [1, 40];
    const failNet = (code) => reject(new AxiosError(code === "ECONNREFUSED" ? `connect ECONNREFUSED ${info.host}` : `read ${code}`, code, config, {}));
    if (f?.kind === "refuse") { proc.at(f.delay ?? sim.latency(`lat:${name}`, ...L), () => failNet(f.code ?? "ECONNREFUSED"), `${name}:refused`); return; }
    if (f?.kind === "stall") return;
    sim.at(sim.latency(`lat:${name}`, ...L) + (f?.kind === "slow" ? f.delay ?? 5000 : 0), async () => {
      const res = await net.handle(info, f);
      if (!res || f?.kind === "stallAfter") return;
      if (f?.kind === "lost" || f?.kind === "reset") { proc.at(f.delay ?? 1, () => failNet(f.code ?? "ECONNRESET"), `${name}:reset`); return; }
      proc.at((res.delay ?? 0) + sim.latency(`lat:${name}`, ...L), () => {
        if (done) return;
        const status = res.status ?? 200;
        const buf = res.body == null ? Buffer.alloc(0) : Buffer.isBuffer(res.body) ? res.body : Buffer.from(typeof res.body === "string" ? res.body : JSON.stringify(res.body));
        const headers = { "content-length": String(buf.length), ...(res.headers ?? {}) };
        const mk = (data) => ({ data, status, statusText: String(status), headers, config, request: {} });
        const settle = (response) => {
          const validate = config.validateStatus === undefined ? (s) => s >= 200 && s < 300 : config.validateStatus;
          if (!validate || validate(status)) resolve(response);
          else reject(new AxiosError(`Request failed with status code ${status}`, status >= 500 ? "ERR_BAD_RESPONSE" : "ERR_BAD_REQUEST", config, {}, response));
        };
        const parts = method === "HEAD" ? [] : chunkify(sim, `chunks:${name}`, buf, net.chunks ?? 4);
        const stopAt = (f?.kind === "cut" || f?.kind === "stallBody") && method !== "HEAD" ? Math.max(0, Math.min(parts.length, f.after ?? 0)) : -1;
        if (config.responseType === "stream") {
          let over = false;
          body = new Readable({ read() {}, destroy(e, cb) { over = true; cb(e); } });
          // axios attaches stream.finished to the body, so an error there is always observed
          const off = streamFinished(body, () => { off(); onFinished(); });
          const stepFn = (i) => {
            if (over || body.destroyed) return;
            if (i === stopAt) { if (f.kind === "cut") body.destroy(Object.assign(new Error("aborted"), { code: "ECONNRESET" })); return; }
            if (i >= parts.length) { body.push(null); return; }
            body.push(Buffer.from(parts[i]));
            proc.at(sim.latency(`lat:${name}:body`, 0, L[1]) + (f?.kind === "slowBody" ? f.delay ?? 30e3 : 0), () => stepFn(i + 1), `${name}:body`);
          };
          settle(mk(body));
          proc.at(0, () => stepFn(0), `${name}:body`);
          return;
        }
        const total = stopAt >= 0 ? stopAt : parts.length;
        const finish = () => {
          if (done) return;
          if (stopAt >= 0) { if (f.kind === "cut") reject(new AxiosError("aborted", "ECONNRESET", config, {})); return; }
          let data = config.responseType === "arraybuffer" ? buf : buf.toString("utf8");
          if (config.responseType !== "arraybuffer" && config.responseType !== "text") { try { data = JSON.parse(data); } catch { /* text */ } }
          settle(mk(data));
        };
        proc.at(sim.latency(`lat:${name}:body`, 0, L[1]) * Math.max(1, total), finish, `${name}:body`);
      }, `${name}:response`);
    }, { name: `server:${name}` });
  });
  const create = (defaults = {}) => {
    const handlers = [];
    const inst = async (a, b) => {
      let config = { ...defaults, ...(typeof a === "string" ? { ...b, url: a } : a) };
      let p = send(config);
      for (const h of handlers) p = p.then(h.ok, h.bad);
      return p;
    };
    inst.request = (c) => inst(c); inst.defaults = defaults;
    inst.interceptors = { request: { use() {} }, response: { use: (ok, bad) => handlers.push({ ok, bad }) } };
    for (const m of ["get", "head", "delete", "options"]) inst[m] = (url, c) => inst({ ...c, url, method: m });
    for (const m of ["post", "put", "patch"]) inst[m] = (url, data, c) => inst({ ...c, url, data, method: m });
    return inst;
  };
  const axios = create();
  Object.assign(axios, { create, CancelToken, AxiosError, CanceledError, isCancel: (e) => !!e?.__CANCEL__, isAxiosError: (e) => !!e?.isAxiosError });
  axios.default = axios; axios.axios = axios; axios.__esModule = true;
  return axios;
};
const DENY = new Set(["ENOTFOUND", "ENETUNREACH", "UNABLE_TO_GET_ISSUER_CERT", "CERT_HAS_EXPIRED", "ERR_TLS_CERT_ALTNAME_INVALID"]);
const axiosRetryModule = (proc) => {
  const isNetworkError = (e) => !e.response && !!e.code && e.code !== "ERR_CANCELED" && e.code !== "ECONNABORTED" && !DENY.has(e.code);
  const isRetryableError = (e) => e.code !== "ECONNABORTED" && (!e.response || e.response.status === 429 || (e.response.status >= 500 && e.response.status <= 599));
  const idem = ["get", "head", "options", "put", "delete"];
  const isNetworkOrIdempotentRequestError = (e) => isNetworkError(e) || (e.code !== "ERR_CANCELED" && isRetryableError(e) && idem.includes((e.config?.method ?? "get").toLowerCase()));
  const retryAfter = (e) => { const h = e?.response?.headers?.["retry-after"]; if (!h) return 0; const s = Number(h); return Number.isFinite(s) ? s * 1000 : Math.max(0, Date.parse(h) - proc.nowMs()); };
  const fn = (inst, o = {}) => {
    inst.interceptors.response.use((r) => r, async (error) => {
      const config = error.config; if (!config) throw error;
      const st = (config["axios-retry"] = { retries: 3, shouldResetTimeout: false, retryCondition: isNetworkOrIdempotentRequestError, retryDelay: (n, e) => Math.max(0, retryAfter(e)), ...o, ...(config["axios-retry"] ?? {}) });
      st.retryCount = st.retryCount ?? 0; st.lastRequestTime = st.lastRequestTime ?? proc.nowMs();
      if (st.retryCount < st.retries && (await st.retryCondition(error))) {
        st.retryCount++;
        const delay = st.retryDelay(st.retryCount, error);
        if (!st.shouldResetTimeout && config.timeout) { const left = config.timeout - (proc.nowMs() - st.lastRequestTime) - delay; if (left <= 0) throw error; config.timeout = left; }
        await o.onRetry?.(st.retryCount, error, config);
        if (config.signal?.aborted) return inst(config);
        return new Promise((resolve) => proc.G.setTimeout(() => resolve(inst(config)), delay));
      }
      throw error;
    });
    return {};
  };
  fn.default = fn; fn.__esModule = true; fn.isNetworkError = isNetworkError; fn.isNetworkOrIdempotentRequestError = isNetworkOrIdempotentRequestError; fn.isRetryableError = isRetryableError;
  fn.exponentialDelay = (n = 0) => 2 ** n * 100; fn.linearDelay = () => (n) => n * 100;
  return fn;
};

// ---------------------------------------------------------------- proper-lockfile 4.x
// Stale take-over is atomic here (in the library stat+rmdir+mkdir are separate calls).
export const lockfileModule = (proc) => {
  const { promises: fs } = fsModules["fs/promises"] ? { promises: fsModules["fs/promises"](proc) } : {};
  const disk = proc.opts.disk; const locks = {}; const G = proc.G;
  const abs = (p) => (p.startsWith("/") ? p : path.posix.join(proc.opts.cwd ?? "/work", p));
  const lockPathOf = (file, o) => abs(o.lockfilePath ?? `${file}.lock`);
  const elocked = (file) => Object.assign(new Error("Lock file is already being held"), { code: "ELOCKED", file });
  const owners = (disk.lockOwners ??= new Map());
  const acquire = async (file, o) => {
    const lp = lockPathOf(file, o);
    await proc.io("lock:mkdir", proc.sim.latency("lat:fs", ...(proc.opts.fsLatency ?? [0, 3])), () => {
      try { disk.mkdir(lp); } catch (e) {
        if (e.code !== "EEXIST") throw e;
        const n = disk.lookup(lp);
        if (n && n.mtimeMs < proc.nowMs() - o.stale) { if (n.type === "dir" && n.children.size) throw elocked(file); disk.rmdir(lp); disk.mkdir(lp); proc.sim.probe("stale-lock-taken-over"); } else throw elocked(file);
      }
      const prev = owners.get(lp);
      if (prev && prev.held && prev.proc.alive && prev.proc !== undefined) proc.opts.onDoubleLock?.(lp, prev, proc);
      owners.set(lp, { proc, held: true });
    });
    const node = disk.lookup(lp); const mtime = proc.nowMs(); if (node) node.mtimeMs = mtime;
    return mtime;
  };
  const compromise = (file, lock, err) => { lock.released = true; if (lock.timer) G.clearTimeout(lock.timer); if (locks[file] === lock) delete locks[file]; lock.o.onCompromised(err); };
  const update = (file, o) => {
    const lock = locks[file]; if (!lock || lock.timer) return;
    lock.timer = G.setTimeout(() => {
      lock.timer = null;
      fs.stat(lock.lp).then((st) => {
        if (lock.mtime !== st.mtimeMs) return G.setImmediate(() => compromise(file, lock, Object.assign(new Error("Unable to update lock within the stale threshold"), { code: "ECOMPROMISED" })));
        const mtime = proc.nowMs();
        fs.utimes(lock.lp, mtime / 1000, mtime / 1000).then(() => { if (lock.released) return; lock.mtime = mtime; lock.last = proc.nowMs(); lock.delay = null; update(file, o); }, (err) => {
          if (lock.released) return;
          if (err.code === "ENOENT" || lock.last + o.stale < proc.nowMs()) return G.setImmediate(() => compromise(file, lock, Object.assign(err, { code: "ECOMPROMISED" })));
          lock.delay = 1000; update(file, o);
        });
      }, (err) => {
        if (err.code === "ENOENT" || lock.last + o.stale < proc.nowMs()) return G.setImmediate(() => compromise(file, lock, Object.assign(err, { code: "ECOMPROMISED" })));
        lock.delay = 1000; update(file, o);
      });
    }, lock.delay ?? o.update);
    lock.timer.unref?.();
  };
  const lock = async (file, opts = {}) => {
    const o = { stale: 10000, update: null, realpath: true, retries: 0, onCompromised: (e) => { throw e; }, ...opts };
    const r = typeof o.retries === "number" ? { retries: o.retries } : o.retries ?? { retries: 0 };
    const ro = { retries: 10, factor: 2, minTimeout: 1000, maxTimeout: Infinity, randomize: false, maxRetryTime: Infinity, ...r };
    o.stale = Math.max(o.stale || 0, 2000); o.update = Math.max(Math.min(o.update == null ? o.stale / 2 : o.update || 0, o.stale / 2), 1000);
    const real = o.realpath ? await fs.realpath(abs(file)) : abs(file);
    const start = proc.nowMs();
    for (let i = 0; ; i++) {
      let mtime;
      try { mtime = await acquire(real, o); } catch (e) {
        if (proc.nowMs() - start >= ro.maxRetryTime || i >= ro.retries) throw e;
        const t = Math.min(Math.round((ro.randomize ? G.Math.random() + 1 : 1) * Math.max(ro.minTimeout, 1) * ro.factor ** i), ro.maxTimeout);
        await new Promise((res) => G.setTimeout(res, t));
        continue;
      }
      const lk = (locks[real] = { lp: lockPathOf(real, o), mtime, o, last: proc.nowMs(), delay: null, released: false });
      proc.opts.onLock?.(lk.lp, proc);
      update(real, o);
      return async () => {
        if (lk.released) throw Object.assign(new Error("Lock is already released"), { code: "ERELEASED" });
        if (lk.timer) G.clearTimeout(lk.timer);
        lk.released = true; delete locks[real];
        proc.opts.onUnlock?.(lk.lp, proc);
        const ow = owners.get(lk.lp); if (ow?.proc === proc) ow.held = false;
        try { await fs.rmdir(lk.lp); } catch (e) { if (e.code !== "ENOENT") throw e; }
      };
    }
  };
  return { lock, unlock: async () => {}, check: async (f, o) => disk.exists(lockPathOf(f, o ?? {})) };
};

// ---------------------------------------------------------------- zlib
// Synchronous inflate/deflate behind the streaming API: no thread pool.
// node closes the engine after a synchronous chunk: keep the handle
const syncChunk = (i, data, flag) => {
  const h = i._handle; if (!h) throw new Error("zlib binding closed");
  const hc = h.close, ic = i.close; h.close = () => {}; i.close = () => {};
  try { return Buffer.from(i._processChunk(Buffer.isBuffer(data) ? data : Buffer.from(data), flag) ?? ""); }
  finally { h.close = hc; i.close = ic; i._handle = h; i.removeAllListeners("error"); i.on("error", () => {}); }
};
const zstream = (mk, o) => {
  const inst = mk(o); let closed = false;
  const close = () => { if (!closed) { closed = true; inst.close(); } };
  const C = realZlib.constants;
  return Object.assign(new Transform({
    transform(chunk, e, cb) { try { const r = syncChunk(inst, Buffer.from(chunk), C.Z_NO_FLUSH); if (r && r.length) this.push(r); cb(); } catch (err) { cb(err); } },
    flush(cb) { try { const r = syncChunk(inst, Buffer.alloc(0), C.Z_FINISH); if (r && r.length) this.push(r); close(); cb(); } catch (err) { cb(err); } },
    destroy(err, cb) { close(); cb(err); },
  }), { close });
};
const zlibModule = (proc) => {
  const m = { constants: realZlib.constants };
  for (const k of Object.keys(realZlib)) if (k.endsWith("Sync")) m[k] = realZlib[k];
  for (const k of ["Gunzip", "Gzip", "InflateRaw", "DeflateRaw", "Inflate", "Deflate", "Unzip"]) {
    m[k] = realZlib[k]; // minizlib drives the classes synchronously
    m[`create${k}`] = (o) => zstream((x) => realZlib[`create${k}`](x), o);
    const lower = k[0].toLowerCase() + k.slice(1);
    m[lower] = (buf, ...a) => { const cb = a.pop(); proc.at(0, () => { let r; try { r = realZlib[`${lower}Sync`](buf, a[0]); } catch (e) { cb(e); return; } cb(null, r); }, "zlib"); };
  }
  m.default = m; return m;
};
const fastZlib = () => {
  const mk = (name, create) => class {
    constructor(o) { this.i = create(o); this.C = realZlib.constants; this.def = /Deflate|Gzip/.test(name) ? this.C.Z_SYNC_FLUSH : this.C.Z_SYNC_FLUSH; }
    process(data, flag) { return syncChunk(this.i, data, flag ?? this.def); }
    close() { this.i.close(); }
  };
  return { InflateRaw: mk("InflateRaw", realZlib.createInflateRaw), DeflateRaw: mk("DeflateRaw", realZlib.createDeflateRaw), Inflate: mk("Inflate", realZlib.createInflate), Deflate: mk("Deflate", realZlib.createDeflate), Gzip: mk("Gzip", realZlib.createGzip), Gunzip: mk("Gunzip", realZlib.createGunzip), constants: realZlib.constants };
};

// ---------------------------------------------------------------- zip files
// Container format of the simulated archives: magic, JSON central directory at
// the end with its length, so that a truncated archive is unreadable.
export const makeZip = (files) => {
  const bodies = []; const dir = []; let off = 4;
  for (const [name, data] of files) { const b = Buffer.from(data); dir.push({ name, off, len: b.length }); bodies.push(b); off += b.length; }
  const cd = Buffer.from(JSON.stringify(dir)); const tail = Buffer.alloc(8); tail.writeUInt32LE(cd.length, 0); tail.write("EOCD", 4);
  return Buffer.concat([Buffer.from("ZIP0"), ...bodies, cd, tail]);
};
const parseZipDir = (buf) => {
  if (buf.length < 12 || buf.toString("latin1", buf.length - 4) !== "EOCD") throw new Error("End of central directory record signature not found");
  const n = buf.readUInt32LE(buf.length - 8); return JSON.parse(buf.toString("utf8", buf.length - 8 - n, buf.length - 8));
};
const extractZip = (proc) => {
  const fn = async (zipPath, { dir, onEntry }) => {
    if (!path.isAbsolute(dir)) throw new Error("Target directory is expected to be absolute");
    const fs = fsModules["fs/promises"](proc);
    await fs.mkdir(dir, { recursive: true });
    dir = await fs.realpath(dir);
    const h = await fs.open(zipPath, "r");
    try {
      const all = await h.readFile();
      for (const e of parseZipDir(all)) {
        onEntry?.({ fileName: e.name });
        const dest = path.posix.join(dir, e.name);
        await fs.mkdir(path.posix.dirname(dest), { recursive: true });
        const b = Buffer.alloc(e.len);
        const { bytesRead } = await h.read(b, 0, e.len, e.off);
        if (bytesRead !== e.len || e.off + e.len > all.length) throw new Error("unexpected EOF");
        await fs.writeFile(dest, b, { mode: 0o644 });
        if (proc.opts.extractDelay) { const d = proc.opts.extractDelay(zipPath, e.name); if (d) await proc.sim.sleep(d, { proc }); }
      }
    } finally { await h.close(); }
  };
  fn.default = fn; fn.__esModule = true; return fn;
};

export const npmModules = {
  ...fsModules,
  loglevel, luxon, chalk, "cli-progress": cliProgress, undici,
  axios: axiosModule, "axios-retry": axiosRetryModule, "proper-lockfile": lockfileModule,
  zlib: zlibModule, "fast-zlib": fastZlib, "extract-zip": extractZip,
  "proxy-agent": () => ({ ProxyAgent: class { constructor(o) { this.o = o; } } }),
  "@puppeteer/browsers": (proc) => proc.opts.puppeteerBrowsers ?? {},
  child_process: (proc) => proc.opts.childProcess ?? { exec: (c, o, cb) => { const f = cb ?? o; proc.at(1, () => f(new Error("no exec"), "", ""), "exec"); }, execSync: () => { throw new Error("simulator: no execSync"); }, spawn: () => { throw new Error("simulator: no spawn"); } },
  http: (proc) => httpModule(proc, "http"), https: (proc) => httpModule(proc, "https"),
  dockerode: (proc) => proc.opts.dockerode?.(proc) ?? {}, systeminformation: () => ({ mem: async () => ({ active: 1, total: 10 }) }), "@alwaysmeticulous/tunnels-client": (proc) => proc.opts.tunnels?.(proc) ?? {},
  "ci-info": (proc) => proc.opts.ciInfo ?? { isCI: false, name: null },
  "@sentry/node": (proc) => sentry(proc),
};
const sentry = (proc) => { const rec = (k) => (...a) => { (proc.sentry ??= []).push([k, ...a]); }; const span = { end() {}, setStatus() {}, setAttribute() {}, finish() {} }; return { init() {}, captureException: rec("exception"), captureEvent: rec("event"), captureMessage: rec("message"), flush: async () => true, close: async () => true, getActiveSpan: () => undefined, startSpan: (o, f) => f(span), startInactiveSpan: () => span, withActiveSpan: (s, f) => f(s), setTag: rec("tag"), setTags: rec("tag"), setContext: rec("context"), addBreadcrumb: rec("breadcrumb"), getCurrentScope: () => ({ setTag: rec("tag"), setContext: rec("context") }), withScope: (f) => f({ setTag: rec("tag"), setContext: rec("context") }), SPAN_STATUS_OK: 1, SPAN_STATUS_ERROR: 2 }; };
const N = "/usr/lib/node_modules/npm/node_modules";
import fsReal from "node:fs";
const firstExisting = (...c) => c.find((x) => fsReal.existsSync(x));
/** npm packages bundled for real */
export const realPackages = () => {
  const pnpm = `${process.env.VERIF_REPO ?? "/repo"}/node_modules/.pnpm`;
  return {
    tar: `${N}/tar/dist/esm/index.js`, minipass: `${N}/minipass/dist/esm/index.js`, minizlib: `${N}/minizlib/dist/esm/index.js`,
    "@isaacs/fs-minipass": `${N}/@isaacs/fs-minipass/dist/esm/index.js`, chownr: `${N}/chownr/dist/esm/index.js`, yallist: `${N}/yallist/dist/esm/index.js`,
    "p-limit": firstExisting(`${pnpm}/p-limit@3.1.0/node_modules/p-limit/index.js`, "/repo/node_modules/.pnpm/p-limit@3.1.0/node_modules/p-limit/index.js"),
    "yocto-queue": firstExisting(`${pnpm}/yocto-queue@0.1.0/node_modules/yocto-queue/index.js`, "/repo/node_modules/.pnpm/yocto-queue@0.1.0/node_modules/yocto-queue/index.js"),
  };
};
