// Model of node's http/https modules over the simulated network: client
// requests (streamed upload, early answers, resets at any byte) and local
// servers (listen, serve, close).
//
// A scenario supplies proc.opts.httpNet = {
//   name, latency: [lo, hi], chunks,
//   faultFor(info) -> null | {kind, after?, status?, delay?, code?}
//   handle(info)   -> {status, headers, body} | null (never answers); info.body holds the bytes received
//   onOpen(info), onClose(info) }
// Fault kinds: refuse; reset (connection lost after `after` request bytes, before the server has all of them);
//   lost (server handled the request, connection lost before any answer); stall (never answers);
//   early (answers `status` after `after` request bytes, without reading on); status; slow;
//   cut (answer headers arrive, connection lost before the body is complete).
import { Writable, Readable } from "node:stream";
import { EventEmitter } from "node:events";
import { chunkify } from "./net.mjs";

const err = (message, code, extra = {}) => Object.assign(new Error(message), { code, ...extra });

class SimResponse extends Readable {
  constructor(status, headers, req) { super({ read() {} }); this.statusCode = status; this.statusMessage = ""; this.headers = headers; this.rawHeaders = Object.entries(headers).flat(); this.httpVersion = "1.1"; this.complete = false; this.aborted = false; this.req = req; this.socket = req.socket; }
  setTimeout() { return this; }
  _destroy(e, cb) {
    if (!this.readableEnded || !this.complete) { this.aborted = true; this.emit("aborted"); this.req._lose?.(); }
    if (e && !this.listenerCount("error")) e = null;
    process.nextTick(() => cb(e));
  }
}
class SimRequest extends Writable {
  constructor(proc, url, options, cb) {
    super({ highWaterMark: 16 * 1024, autoDestroy: false });
    const sim = proc.sim, net = proc.opts.httpNet;
    this.proc = proc; this.sim = sim; this.net = net; this.aborted = false; this.res = null; this.over = false;
    this.socket = Object.assign(new EventEmitter(), { setTimeout() {}, setKeepAlive() {}, destroyed: false });
    this.headers = {}; for (const [k, v] of Object.entries(options.headers ?? {})) if (v !== undefined) this.headers[k.toLowerCase()] = String(v);
    this.method = (options.method ?? "GET").toUpperCase(); this.path = url.pathname + url.search; this.host = url.hostname;
    if (cb) this.once("response", cb);
    this.got = []; this.gotBytes = 0;
    this.info = { proc, method: this.method, url: url.href, host: url.host, path: url.pathname, query: url.searchParams, headers: new Headers(this.headers), t: sim.now, agent: options.agent };
    net.onOpen?.(this.info);
    this.fault = net.faultFor?.(this.info) ?? null;
    if (this.fault) { sim.fault(`${net.name ?? "http"}:${this.fault.kind}`); sim.log(`${proc.name} fault ${this.fault.kind} on ${this.method} ${url.pathname}`); }
    this.L = () => sim.latency(`lat:${net.name ?? "http"}`, ...(net.latency ?? [1, 40]));
    this.connected = false; this.waiting = [];
    proc.at(this.L(), () => {
      if (this.over) return;
      if (this.fault?.kind === "refuse") { this._fail(err(`connect ${this.fault.code ?? "ECONNREFUSED"}`, this.fault.code ?? "ECONNREFUSED")); return; }
      this.connected = true; this.emit("socket", this.socket);
      if (this.fault?.kind === "early" && (this.fault.after ?? 0) === 0) this._answer({ status: this.fault.status, body: "early answer" });
      const w = this.waiting; this.waiting = []; w.forEach((f) => f());
      this._maybeHandle();
    }, "http:connect");
    if (options.timeout) this.setTimeout(options.timeout);
    options.signal?.addEventListener("abort", () => this.destroy(Object.assign(new Error("The operation was aborted"), { name: "AbortError", code: "ABORT_ERR" })));
  }
  _log(m) { this.sim.log(`${this.proc.name} http ${this.method} ${this.info.path} ${m}`); }
  _close() { if (!this.closedOnce) { this.closedOnce = true; this.net.onClose?.(this.info); process.nextTick(() => this.emit("close")); } }
  _fail(e) { if (this.over) return; this.over = true; this._log(`failed ${e.code ?? e.message}`); if (this.res) { this.res.destroy(e); } else process.nextTick(() => this.emit("error", e)); this._close(); }
  _lose() { if (!this.over) { this.over = true; this._close(); } }
  _write(chunk, enc, cb) {
    const go = () => {
      if (this.over || this.serverDone) { cb(); return; }
      this.proc.at(this.L() >> 2, () => {
        if (this.over) { cb(); return; }
        this.got.push(Buffer.from(chunk)); this.gotBytes += chunk.length;
        const f = this.fault;
        if (f?.kind === "reset" && this.gotBytes >= (f.after ?? 0)) { this._fail(err(f.code === "EPIPE" ? "write EPIPE" : `read ${f.code ?? "ECONNRESET"}`, f.code ?? "ECONNRESET")); cb(); return; }
        if (f?.kind === "early" && !this.serverDone && this.gotBytes >= (f.after ?? 0)) this._answer({ status: f.status, body: "early answer" });
        this._maybeHandle();
        cb();
      }, "http:up");
    };
    if (this.connected) go(); else this.waiting.push(go);
  }
  _final(cb) { this.ended = true; cb(); if (this.connected) this._ended(); else this.waiting.push(() => this._ended()); }
  _ended() {
    if (this.over || this.serverDone) return;
    const f = this.fault;
    if (f?.kind === "reset") { this._fail(err(`read ${f.code ?? "ECONNRESET"}`, f.code ?? "ECONNRESET")); return; }
    this._maybeHandle();
    const cl = this.headers["content-length"];
    if (!this.serverDone && cl !== undefined && this.gotBytes < Number(cl)) // the server waits for the rest, then gives up
      this.proc.sim.at(20e3, () => { if (!this.over && !this.serverDone) this._answer({ status: 400, body: "RequestTimeout" }); }, { name: "server:request-timeout" });
  }
  _maybeHandle() {
    const cl = this.headers["content-length"];
    if (this.serverDone || this.over || !this.connected) return;
    if (cl !== undefined ? this.gotBytes < Number(cl) : !this.ended) return;
    this.serverDone = true;
    const all = Buffer.concat(this.got); this.info.body = cl !== undefined ? all.subarray(0, Number(cl)) : all;
    const f = this.fault;
    if (f?.kind === "stall") return;
    const slow = f?.kind === "slow" ? f.delay ?? 5000 : 0;
    this.sim.at(this.L() + slow, async () => {
      let r; try { r = f?.kind === "status" ? { status: f.status, body: "fault" } : await this.net.handle(this.info, f); } catch (e) { r = { status: 500, body: String(e) }; }
      if (!r) return;
      if (f?.kind === "lost") { this.proc.at(1, () => this._fail(err(f.code ? `read ${f.code}` : "socket hang up", f.code ?? "ECONNRESET")), "http:lost"); return; }
      this._answer(r);
    }, { name: "server:http" });
  }
  _answer(r) {
    this.serverDone = true;
    this.proc.at((r.delay ?? 0) + this.L(), () => {
      if (this.over) return;
      const body = r.body === undefined || r.body === null ? Buffer.alloc(0) : Buffer.isBuffer(r.body) ? r.body : Buffer.from(typeof r.body === "string" ? r.body : JSON.stringify(r.body));
      const headers = { "content-length": String(body.length) }; for (const [k, v] of Object.entries(r.headers ?? {})) headers[k.toLowerCase()] = v;
      const res = this.res = new SimResponse(r.status ?? 200, headers, this);
      this._log(`answered ${res.statusCode}`);
      if (!this.emit("response", res)) res.resume();
      const parts = chunkify(this.sim, "chunks:http", body, this.net.chunks ?? 3);
      const stop = this.fault?.kind === "cut" ? Math.min(parts.length, this.fault.after ?? 0) : -1;
      const step = (i) => {
        if (this.over || res.destroyed) return;
        if (i === stop) { this._fail(err("aborted", "ECONNRESET")); return; }
        if (i >= parts.length) { res.complete = true; res.push(null); this.over = true; this._close(); return; }
        res.push(parts[i]);
        this.proc.at(this.sim.latency("lat:http:body", 0, this.net.latency?.[1] ?? 40), () => step(i + 1), "http:body");
      };
      this.proc.at(0, () => step(0), "http:body");
    }, "http:answer");
  }
  destroy(e) {
    if (this.destroyedOnce) return this; this.destroyedOnce = true; this.aborted = true; this.destroyedByUser = true;
    if (this.over) { if (this.res && !this.res.complete) this.res.destroy(e); return this; }
    this.over = true; this._log("destroyed by client");
    if (this.timer) this.proc.G.clearTimeout(this.timer);
    if (this.res) this.res.destroy(e ?? err("aborted", "ECONNRESET"));
    else process.nextTick(() => this.emit("error", e ?? err("socket hang up", "ECONNRESET")));
    this._close();
    return this;
  }
  abort() { this.destroy(); }
  setTimeout(ms, cb) { if (cb) this.once("timeout", cb); if (this.timer) this.proc.G.clearTimeout(this.timer); if (ms) { this.timer = this.proc.G.setTimeout(() => { if (!this.over) this.emit("timeout"); }, ms); this.once("close", () => this.proc.G.clearTimeout(this.timer)); } return this; }
  setHeader(k, v) { this.headers[k.toLowerCase()] = String(v); } getHeader(k) { return this.headers[k.toLowerCase()]; } removeHeader(k) { delete this.headers[k.toLowerCase()]; }
  flushHeaders() {} setNoDelay() {} setSocketKeepAlive() {}
}

// ------------------------------------------------------------------ servers
class SimServer extends EventEmitter {
  constructor(proc, handler) { super(); this.proc = proc; this.listening = false; this.open = 0; if (handler) this.on("request", handler); (proc.servers ??= new Set()).add(this); }
  listen(...a) {
    const cb = a.find((x) => typeof x === "function"); const o = typeof a[0] === "object" && a[0] ? a[0] : { port: a[0] };
    const sim = this.proc.sim; sim.listeners ??= new Map(); if (cb) this.once("listening", cb);
    const fault = this.proc.opts.listenFault?.(o);
    this.proc.at(sim.int("lat:listen", 0, 3), () => {
      if (fault) { this.emit("error", err(`listen ${fault}`, fault)); return; }
      let port = Number(o.port ?? 0); if (!port) { port = sim.nextPort = (sim.nextPort ?? 40000) + 1; }
      if (sim.listeners.has(port)) { this.emit("error", err("listen EADDRINUSE", "EADDRINUSE")); return; }
      if (this.closed) return;
      this.port = port; this.listening = true; sim.listeners.set(port, this); sim.log(`${this.proc.name} listening on ${port}`);
      (this.proc.onCrash ??= []).push(() => { if (sim.listeners.get(port) === this) sim.listeners.delete(port); this.listening = false; });
      this.emit("listening");
    }, "listen");
    return this;
  }
  address() { return this.listening ? { address: "127.0.0.1", port: this.port, family: "IPv4" } : null; }
  close(cb) {
    if (cb) this.once("close", cb);
    const was = this.listening; this.closed = true; this.listening = false;
    if (was) { this.proc.sim.listeners.delete(this.port); this.proc.sim.log(`${this.proc.name} closed listener ${this.port}`); } else if (cb && !was && this.port === undefined) { process.nextTick(() => cb(err("Server is not running.", "ERR_SERVER_NOT_RUNNING"))); return this; }
    this._maybeClosed(); return this;
  }
  _maybeClosed() { if (this.closed && this.open === 0 && !this.closeEmitted) { this.closeEmitted = true; this.proc.at(0, () => this.emit("close"), "server:close"); } }
  closeAllConnections() {} closeIdleConnections() {} unref() { return this; } ref() { return this; } setTimeout() { return this; }
}
/** Deliver a request to a listener; resolves with {status, headers, body} or rejects with ECONNREFUSED. */
export const deliver = (sim, port, { method = "GET", url, headers = {}, body = "" }) => new Promise((resolve, reject) => {
  sim.at(sim.int("lat:local", 0, 4), () => {
    const srv = sim.listeners?.get(port);
    if (!srv || !srv.proc.alive) { reject(err("connect ECONNREFUSED", "ECONNREFUSED")); return; }
    srv.open++;
    srv.proc.at(0, () => {
      const req = Object.assign(new Readable({ read() {} }), { method, url, headers, httpVersion: "1.1", socket: { remoteAddress: "127.0.0.1" } });
      if (body.length) req.push(Buffer.from(body)); req.push(null);
      const out = []; const h = {};
      const res = Object.assign(new EventEmitter(), { statusCode: 200, headersSent: false, writableEnded: false, req,
        setHeader(k, v) { h[k.toLowerCase()] = v; return res; }, getHeader: (k) => h[k.toLowerCase()],
        writeHead(s, m, hh) { res.statusCode = s; const o = typeof m === "object" ? m : hh; for (const [k, v] of Object.entries(o ?? {})) h[k.toLowerCase()] = v; res.headersSent = true; return res; },
        write(c) { res.headersSent = true; out.push(Buffer.from(c)); return true; },
        end(c, cb) { if (res.writableEnded) return res; if (c !== undefined && typeof c !== "function") out.push(Buffer.from(c)); res.writableEnded = true; res.headersSent = true; srv.open--; srv._maybeClosed(); process.nextTick(() => { res.emit("finish"); res.emit("close"); }); (typeof c === "function" ? c : cb)?.(); resolve({ status: res.statusCode, headers: h, body: Buffer.concat(out).toString() }); return res; } });
      srv.emit("request", req, res);
    }, "local-request");
  }, { name: "local-connect" });
});

export const httpModule = (proc, scheme) => {
  const request = (a, b, c) => {
    let url, options, cb;
    if (typeof a === "string" || a instanceof URL) { url = new URL(a); options = typeof b === "object" && b ? b : {}; cb = typeof b === "function" ? b : c; }
    else { options = a; cb = b; url = new URL(`${options.protocol ?? `${scheme}:`}//${options.hostname ?? options.host ?? "localhost"}${options.port ? `:${options.port}` : ""}${options.path ?? "/"}`); }
    if (url.protocol !== `${scheme}:`) throw err(`Protocol "${url.protocol}" not supported. Expected "${scheme}:"`, "ERR_INVALID_PROTOCOL");
    return new SimRequest(proc, url, options, cb);
  };
  class Agent { constructor(o) { this.options = o; } destroy() {} }
  return { request, get: (...a) => { const r = request(...a); r.end(); return r; }, Agent, globalAgent: new Agent(), createServer: (o, h) => new SimServer(proc, typeof o === "function" ? o : h), STATUS_CODES: {} };
};
