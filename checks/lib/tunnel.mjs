// Harness for the secure tunnel: the parent process that opens it, its cluster
// workers, the tunnel server and the local app. HTTP/1.1 and HTTP/2 run for
// real (node:http, node:http2) over simulated sockets.
import { EventEmitter } from "node:events";
import http from "node:http";
import http2 from "node:http2";
import { REPO, bundle } from "../../sim/bundle.mjs";
import { simFetch } from "../../sim/net.mjs";
import { Disk } from "../../sim/fs.mjs";
import { npmModules, realPackages } from "../../sim/npm.mjs";
import { Proc } from "../../sim/proc.mjs";
import { SimSocket, destroyAllSockets, socketPair } from "../../sim/sockets.mjs";

export const TUNNEL_META = {
  real: ["packages/tunnel-client/src (tunnel, worker entrypoint, http2 cluster, openSocket)", "packages/cli/src/commands/ci/start-tunnel.command.ts", "packages/common/src (logger, proxy-aware fetch)", "node:http, node:http2 (nghttp2, llhttp) of the installed node"],
  stubs: ["sockets, DNS and TLS: simulated byte streams (certificates are a yes/no attribute)", "node:cluster: simulated processes, IPC and signals", "agentkeepalive 4.5: node's Agent with its documented time-outs", "cacheable-lookup: trivial", "tunnel server: model on a real http2 client; local app: model on a real http server"],
  assumptions: ["the 7-byte AUTH OK of the tunnel server arrives in one segment and alone", "a local app that is silent for 8 s is given up (agentkeepalive's time-out)", "the tunnel server's sends never block for long (two node HTTP/2 peers whose socket buffers are full in both directions stop reading each other: a property of node, not of this code)", "trailers and protocol upgrades are not carried (documented by the code's use of node's compat layer)"],
};
let built;
export const buildTunnel = async () => (built ??= {
  parent: (await bundle({ lib: "packages/tunnel-client/src/index.ts", cmd: "packages/cli/src/commands/ci/start-tunnel.command.ts" }, { real: { ...realPackages(), "@alwaysmeticulous/tunnels-client": `${REPO}/packages/tunnel-client/src/index.ts` }, define: { __dirname: '"/sim/dist"' } })).code,
  worker: (await bundle({ w: "packages/tunnel-client/src/lib/tunnel-worker.entrypoint.ts" }, { real: realPackages() })).code,
});

const HOST = "tunnels.sim"; const PORT = 9443; const SUB = `abc123.${HOST}`; const APP = 3000;
const E = (message, code) => Object.assign(new Error(message), { code });
const bytes = (sim, id, n) => { let x = 7; for (const c of id) x = (Math.imul(x, 31) + c.charCodeAt(0)) >>> 0; const b = Buffer.alloc(n); for (let i = 0; i < n; i++) { x = (Math.imul(x, 1664525) + 1013904223) >>> 0; b[i] = x >>> 24; } return b; };
const size = (sim, l) => { const k = sim.pick(`${l}:k`, ["0", "s", "s", "m", "m", "l"]); return k === "0" ? 0 : k === "s" ? sim.int(l, 1, 60) : k === "m" ? sim.int(l, 61, 9000) : sim.int(l, 9001, 150000); };
const pieces = (sim, buf, max, l) => { const n = buf.length ? sim.int(l, 1, Math.min(max, buf.length)) : 0; const out = []; let at = 0; for (let i = 0; i < n; i++) { const to = i === n - 1 ? buf.length : Math.min(buf.length, at + sim.int(`${l}:c`, 1, Math.ceil((buf.length / n) * 1.5))); out.push(buf.subarray(at, to)); at = to; } return out.filter((b) => b.length); };
const DROPPED = ["x-datadog-sampling-priority", "x-datadog-tags", "x-datadog-trace-id", "x-datadog-parent-id", "x-forwarded-host", "x-forwarded-for", "x-forwarded-proto", "x-original-uri", "sentrytrace", "traceparent", "tracestate", "baggage"];

// ------------------------------------------------------------------ the world
class World {
  constructor(sim, cfg) { Object.assign(this, { sim, cfg, endpoints: new Map(), workers: [], conns: [], exchanges: new Map(), arrivals: 0, faultsOn: true, dials: [], garbage: [], parentEvents: [], sessions: [] }); (sim.cleanups ??= []).push(() => this.teardown()); }
  teardown() { this.over = true; for (const s of this.sessions) { try { s.destroy(); } catch { /* teardown */ } } destroyAllSockets(this.sim); for (const a of this.agents ?? []) a.destroy(); }
  /** a party opens a connection */
  dial(proc, { host, port, tls = false, alpn, rejectUnauthorized = true, what }) {
    const { sim, cfg } = this; const label = `${proc.name}>${host}:${port}`; const t = this.endpoints.get(`${host}:${port}`);
    const sock = new SimSocket(sim, proc, label, { tls, port, net: cfg.net }); const rec = { sim, sock, host, port, at: sim.now, proc, what, tls, rejectUnauthorized }; this.dials.push(rec); sock.rec = rec;
    const fault = this.faultsOn ? this.dialFault?.(rec) : null; sim.log(`${label} dials${fault ? ` (${fault})` : ""}`);
    const fail = (ms, code) => proc.at(ms, () => { if (!sock.destroyed) { rec.failed = code; if (t?.onRefused) t.onRefused(rec); sock.destroy(E(`connect ${code} ${host}:${port}`, code)); } }, "dial:fail");
    if (!t) { fail(sim.latency("lat:dns", 0, 20), "ENOTFOUND"); return sock; }
    if (fault) { sim.fault(`dial:${fault}`); rec.fault = fault; fail(fault === "ETIMEDOUT" ? 120e3 : sim.latency("lat:dial", 0, 30), fault); return sock; }
    proc.at(sim.latency("lat:dial", 0, 30), () => {
      if (sock.destroyed) return;
      if (t.down?.()) { rec.failed = "ECONNREFUSED"; t.onRefused?.(rec); sock.destroy(E(`connect ECONNREFUSED ${host}:${port}`, "ECONNREFUSED")); return; }
      if (tls && t.badCert && rejectUnauthorized) { rec.failed = "cert"; t.onRefused?.(rec); sim.fault("bad-certificate"); sock.destroy(E("self-signed certificate", "DEPTH_ZERO_SELF_SIGNED_CERT")); return; }
      if (!!t.tls !== !!tls) { rec.failed = "protocol"; sock.destroy(E("wrong version number", "EPROTO")); return; }
      const end = new SimSocket(sim, null, `${host}:${port}<${proc.name}`, { tls, port, net: host === HOST || host === "proxy.sim" ? { ...cfg.net, window: Infinity } : cfg.net }); end.on("error", () => {}); end.rec = rec; rec.end = end;
      if (tls) { sock.alpnProtocol = end.alpnProtocol = alpn?.[0] ?? false; }
      socketPair(sock, end); end._connected(); t.accept(end, rec); rec.open = true; sock._connected();
    }, "dial");
    return sock;
  }
}

// ------------------------------------------------------------------ modules of the tunnel processes
const netModules = (W) => {
  const parse = (a) => (typeof a[0] === "object" ? a[0] : { port: a[0], host: typeof a[1] === "string" ? a[1] : "localhost" });
  return {
    net: (proc) => { const connect = (...a) => { const o = parse(a); return W.dial(proc, { host: o.host ?? "localhost", port: o.port, what: "net" }); }; return { connect, createConnection: connect, Socket: SimSocket }; },
    tls: (proc) => ({ connect: (...a) => { const o = parse(a); if (o.socket) { const s = o.socket; s.encrypted = true; s.alpnProtocol = o.ALPNProtocols?.[0]; s.peer.alpnProtocol = s.alpnProtocol; const bad = W.endpoints.get(`${o.servername}:${PORT}`)?.badCert; proc.at(W.sim.latency("lat:tls", 0, 20), () => (bad && o.rejectUnauthorized !== false ? s.destroy(E("self-signed certificate", "DEPTH_ZERO_SELF_SIGNED_CERT")) : s.emit("secureConnect")), "tls"); return s; } return W.dial(proc, { host: o.host ?? "localhost", port: o.port, tls: true, alpn: o.ALPNProtocols, rejectUnauthorized: o.rejectUnauthorized !== false, what: "tls" }); } }),
    http: (proc) => httpClient(W, proc, "http"), https: (proc) => httpClient(W, proc, "https"),
    http2: (proc) => ({ ...http2, createServer: (o) => { const s = http2.createServer(o); s.on("request", (q, r) => { r.sendDate = false; }) /* the real clock would end up in the bytes */; s.on("session", (x) => W.sessions.push(x)); return s; }, connect: () => { throw new Error("simulator: no http2 client in the tunnel client"); } }),
    agentkeepalive: (proc) => { const m = agentKeepAlive(W, proc); return Object.assign(m.Agent, { HttpsAgent: m.HttpsAgent, default: m.Agent, __esModule: true }); },
    "cacheable-lookup": () => { class C { install(a) { a.dnsCached = true; } uninstall() {} } return Object.assign(C, { default: C, __esModule: true }); },
    "proxy-agent": () => ({ ProxyAgent: class {} }),
  };
};
const simAgent = (W, proc, scheme, extra) => {
  class A extends http.Agent {
    constructor(o = {}) { super({ keepAlive: extra.keepAlive, ...o, timeout: extra.timeout }); this.protocol = `${scheme}:`; this.defaultPort = scheme === "https" ? 443 : 80; this.o = o; (W.agents ??= []).push(this); }
    createConnection(o) { const s = W.dial(proc, { host: o.host, port: o.port, tls: scheme === "https", rejectUnauthorized: (o.rejectUnauthorized ?? this.o.rejectUnauthorized) !== false, what: "local" }); s.rec.localAddress = o.localAddress; if (extra.timeout) { s.setTimeout(extra.timeout); s.on("timeout", () => { if (Object.values(this.freeSockets).some((l) => l.includes(s))) s.destroy(); else if (!s._httpMessage?.listenerCount("timeout")) { W.sim.fault("local-socket-time-out"); s.destroy(E("Socket timeout", "ERR_SOCKET_TIMEOUT")); } }); } return s; }
    keepSocketAlive(s) { const r = super.keepSocketAlive(s); if (r && extra.free) s.setTimeout(extra.free); return r; }
    reuseSocket(s, req) { super.reuseSocket(s, req); if (extra.timeout) s.setTimeout(extra.timeout); }
  }
  return A;
};
const agentKeepAlive = (W, proc) => { const x = { keepAlive: true, timeout: 8000, free: 4000 }; return { Agent: simAgent(W, proc, "http", x), HttpsAgent: simAgent(W, proc, "https", x) }; };
const httpClient = (W, proc, scheme) => {
  const Plain = simAgent(W, proc, scheme, { keepAlive: false }); let plain;
  const request = (a, b, c) => {
    let o = a, cb = b; if (typeof a === "string" || a instanceof URL) { const u = new URL(a); o = { host: u.hostname, port: u.port, path: u.pathname + u.search, ...(typeof b === "object" ? b : {}) }; cb = typeof b === "function" ? b : c; }
    const agent = o.agent instanceof http.Agent && o.agent.createConnection !== http.Agent.prototype.createConnection ? o.agent : (plain ??= new Plain({ rejectUnauthorized: o.rejectUnauthorized }));
    return http.request({ protocol: `${scheme}:`, defaultPort: agent.defaultPort, ...o, agent }, cb);
  };
  return { ...http, request, get: (...a) => { const r = request(...a); r.end(); return r; }, Agent: Plain };
};
/** node:cluster as the parent sees it, and as a worker sees it */
const clusterModule = (W, scripts) => (proc) => {
  const { sim } = W; const c = new EventEmitter();
  if (proc.clusterWorker) return Object.assign(c, { isWorker: true, isPrimary: false, isMaster: false, worker: proc.clusterWorker });
  return Object.assign(c, { isWorker: false, isPrimary: true, isMaster: true, workers: {}, settings: {}, setupPrimary(o) { this.settings = { ...this.settings, ...o }; W.setup = this.settings; }, setupMaster(o) { this.setupPrimary(o); },
    fork() {
      const n = W.workers.length; const w = new EventEmitter(); const rec = { w, n, at: sim.now, sent: [], proc: null, alive: true, killed: false }; W.workers.push(rec); w.id = n + 1; w.rec = rec;
      const fault = W.faultsOn ? W.forkFault?.(n) : null; let queue = [];
      const up = (name, fn, ms) => proc.at(ms ?? sim.latency("lat:ipc", 0, 5), fn, `cluster:${name}`);
      const over = (code, signal) => { if (!rec.alive) return; rec.alive = false; rec.endedAt = sim.now; rec.code = code; rec.signal = signal; sim.log(`worker ${n} ended ${signal ?? code}`); up("exit", () => { w.emit("exit", code, signal); }, sim.latency("lat:sigchld", 0, 5)); };
      w.process = { pid: 9000 + n, kill: (s) => w.kill(s) };
      w.send = (m) => { rec.sent.push(m); const copy = JSON.parse(JSON.stringify(m)); const give = () => sim.at(sim.latency("lat:ipc", 0, 5), () => { if (rec.proc?.alive) rec.proc.at(0, () => rec.proc.G.process.emit("message", copy), "ipc"); }, { name: "ipc" }); if (rec.proc) give(); else queue.push(give); return true; };
      w.kill = (sig = "SIGTERM") => { rec.killed = true; sim.at(sim.latency("lat:sig", 0, 3), () => { if (!rec.alive) return; if (rec.proc) rec.proc.signal(sig); else { rec.stillborn = true; over(null, sig); } }, { name: "signal" }); };
      w.destroy = w.kill; w.isDead = () => !rec.alive; w.isConnected = () => rec.alive; w.disconnect = () => { sim.at(sim.latency("lat:ipc", 0, 5), () => { if (!rec.alive) return; rec.unplugged = true; if (!rec.proc) return; // like node's: the channel is closed, the worker lives on while anything keeps it
        const idle = () => { if (rec.alive && rec.proc.alive && !rec.proc.activeTimers().length && !W.dials.some((d) => d.proc === rec.proc && !d.sock.destroyed)) rec.proc.exit(0); }; idle(); for (const d of W.dials) if (d.proc === rec.proc) d.sock.once("close", () => sim.at(1, idle, { name: "idle" })); }, { name: "ipc" }); return w; };
      if (fault === "spawn") { sim.fault("worker-spawn-failure"); rec.alive = false; rec.spawnFailed = true; proc.at(0, () => w.emit("error", E("spawn /usr/bin/node EAGAIN", "EAGAIN")), "cluster:error"); return w; }
      sim.at(sim.latency("lat:fork", 20, W.cfg.forkMax), () => {
        if (!rec.alive || !proc.alive) return;
        const p = rec.proc = new Proc(sim, `w${n}`, { modules: { ...npmModules, ...netModules(W), cluster: clusterModule(W, scripts) }, env: { ...proc.opts.env }, cwd: "/work", disk: proc.opts.disk });
        p.clusterWorker = { id: n + 1 }; p.G.process.send = (m) => { rec.said = m; return true; }; p.G.process.connected = true;
        p.onUncaught = (e) => { rec.uncaught = e; p.exitCode = 1; p.crash("uncaught"); };
        const unhandledDies = (r) => { if (r?.name !== "Error" || !/simulated process.exit/.test(r.message)) { rec.uncaught = r; p.exitCode = 1; p.crash("unhandled"); } }; p.onUnhandled = unhandledDies;
        (p.onCrash ??= []).push(() => over(p.signalCode ? null : p.exitCode ?? 1, p.signalCode ?? null));
        p.at(0, () => { p.load(scripts.worker); queue.forEach((f) => f()); queue = []; }, "start");
        if (fault) p.at(fault.after, () => { if (p.alive) { sim.fault("worker-killed"); rec.killedByFault = true; p.signal("SIGKILL"); } }, "oom");
      }, { name: "fork" });
      (proc.onCrash ??= []).push(() => sim.at(sim.latency("lat:ipc", 0, 5), () => { if (!rec.alive || rec.unplugged) return; if (rec.proc) rec.proc.exit(0); else over(0, null); }, { name: "ipc-closed" }));
      return w;
    } });
};

// ------------------------------------------------------------------ tunnel server
const tunnelServer = (W) => {
  const { sim, cfg } = W;
  W.endpoints.set(`${HOST}:${PORT}`, { tls: cfg.useTls, badCert: false, down: () => W.serverDown, accept: (sock, rec) => {
    const conn = { n: W.conns.length, sock, rec, state: "auth", at: sim.now, exchanges: 0 }; rec.conn = conn; W.conns.push(conn); sock.atomic = true;
    const mood = W.faultsOn ? W.authMood?.() ?? "ok" : "ok"; conn.mood = mood; if (mood !== "ok") sim.fault(`auth:${mood}`);
    sock.onGone = () => { if (conn.state !== "gone") { conn.state = "gone"; conn.goneAt = sim.now; } };
    let got = ""; const wanted = `AUTH ${cfg.passphrase}`;
    const onData = (d) => {
      if (W.over) return; got += d.toString("latin1");
      if (cfg.serverBadCert) { sim.check(false, "T02.certificate", () => `the passphrase was sent to a server without a valid certificate`); return; }
      if (cfg.useTls && !sock.peer.encrypted) { sim.check(false, "T02.certificate", () => "the passphrase was sent in plain text"); return; }
      if (conn.state === "auth") {
        if (got.length < wanted.length) { if (!wanted.startsWith(got)) { conn.badAuth = got; sock.destroy(); } return; }
        if (got !== wanted) { conn.badAuth = got; sim.check(false, "T02.handshake", () => `the worker opened with ${JSON.stringify(got)}`); return; }
        if (mood === "drop") { sock.destroy(); return; } if (mood === "reset") { sock.breakNow(); return; }
        if (mood === "refuse") { sock.write("AUTH FAILED"); conn.state = "refused"; return; }
        got = ""; conn.state = "ack"; sock.write("AUTH OK");
      } else if (conn.state === "ack") {
        if (got.length < 11) return;
        sim.check(got === "AUTH OK ACK", "T02.handshake", () => `acknowledged with ${JSON.stringify(got.slice(0, 40))}`);
        sock.removeListener("data", onData); sock.atomic = false; conn.state = "open"; sim.probe("connections");
        const s = conn.session = http2.connect(`http://${HOST}`, { createConnection: () => sock }); W.sessions.push(s);
        s.on("error", () => {}); s.on("close", () => { if (conn.state === "open") conn.state = "gone"; }); s.on("goaway", () => { conn.goaway = true; });
        W.onOpen?.(conn);
      }
    };
    sock.on("data", onData);
  } });
};

/** the company's proxy (HTTPS_PROXY) */
const forwardProxy = (W) => {
  const { sim } = W; const phrase = sim.pick("c:phrase", ["200 Connection established", "200 OK", "200 Connection Established"]);
  W.endpoints.set("proxy.sim:3128", { tls: false, accept: (sock, rec) => {
    sock.atomic = true; let got = ""; const mood = W.faultsOn ? W.proxyMood?.() ?? "ok" : "ok"; rec.proxyMood = mood; if (mood !== "ok") sim.fault(`proxy:${mood}`);
    const onData = (d) => {
      if (W.over) return; got += d.toString("latin1"); if (!got.includes("\r\n\r\n")) return; sock.removeListener("data", onData);
      const [line, target] = got.match(/^CONNECT (\S+) HTTP\/1\.1\r\n/) ?? []; sim.check(line && target === `${HOST}:${PORT}`, "T02.proxy", () => `the proxy was asked for ${JSON.stringify(got.slice(0, 60))}`); if (sim.stopped) return;
      if (mood === "drop") { sock.destroy(); return; } if (mood === "refuse") { sock.write("HTTP/1.1 407 Proxy Authentication Required\r\ncontent-length: 0\r\n\r\n"); return; }
      const answer = `HTTP/1.1 ${phrase}\r\nvia: sim\r\n\r\n`; const cut = sim.chance("c:cutAnswer", 0.4) ? sim.int("c:cutAt", 1, answer.length - 1) : 0;
      const go = () => { if (sock.destroyed) return; W.endpoints.get(target).accept(sock, rec); };
      if (cut) { sock.write(answer.slice(0, cut)); sim.at(sim.int("c:cutGap", 1, 50), () => { if (!sock.destroyed) { sock.write(answer.slice(cut)); go(); } }, { name: "proxy" }); } else { sock.write(answer); go(); }
    };
    sock.on("data", onData);
  } });
};

// ------------------------------------------------------------------ local app
const localApp = (W, host, port, { tls = false, badCert = false } = {}) => {
  const { sim } = W; const key = `${host}:${port}`; const app = { key, host, port, tls, socks: new Set(), downUntil: 0 };
  app.server = http.createServer((req, res) => serveLocal(W, app, req, res));
  app.server.on("clientError", (e, s) => { if (W.over) return; if (!["ECONNRESET", "EPIPE", "HPE_INVALID_EOF_STATE"].includes(e.code)) { W.garbage.push(`${e.code} at ${key}`); } if (!s.destroyed) s.destroy(e); });
  app.server.on("checkContinue", (req, res) => { res.writeContinue(); serveLocal(W, app, req, res); });
  W.endpoints.set(key, { tls, badCert, down: () => sim.now < app.downUntil, accept: (s) => { app.socks.add(s); s.on("close", () => app.socks.delete(s)); app.server.emit("connection", s); } });
  return app;
};
const serveLocal = async (W, app, req, res) => {
  const { sim } = W; if (W.over || sim.stopped) return;
  const id = req.headers["x-sim-id"]; const ex = W.exchanges.get(id); W.arrivals++;
  if (!sim.check(ex, "T01.mixing", () => `a request nobody made reached ${app.key}: ${req.method} ${req.url} ${JSON.stringify(req.headers).slice(0, 200)}`)) return;
  if (!sim.check(!ex.arrived, "T01.repeated", () => `${id} reached the local app twice`)) return;
  ex.arrived = { at: sim.now, app: app.key }; const P = ex.plan; ex.touch(); sim.log(`${app.key} gets ${id} ${req.method} ${req.url}`);
  sim.check(app.key === ex.target.key, "T01.target", () => `${id} reached ${app.key} instead of ${ex.target.key} (original URL ${ex.originalUrl})`);
  sim.check(!W.endpoints.get(app.key).badCert || W.cfg.allowInvalidCert, "T01.certificate", () => `${id} was sent to ${app.key}, whose certificate is not valid`);
  sim.check(req.method === ex.method && req.url === ex.path, "T01.request", () => `${id}: ${req.method} ${req.url} instead of ${ex.method} ${ex.path}`);
  const want = ex.forwarded; for (const [k, v] of Object.entries(want)) sim.check(req.headers[k] === v, "T01.request-headers", () => `${id}: ${k}: ${req.headers[k]} instead of ${v}`);
  for (const k of Object.keys(req.headers)) sim.check(k in want || ["host", "connection", "transfer-encoding", "content-length"].includes(k), "T01.request-headers", () => `${id}: ${k}: ${req.headers[k]} was not sent by the requester`);
  const h = (ex.target.host.includes(":") ? `[${ex.target.host}]` : ex.target.host) + (ex.target.port === (app.tls ? 443 : 80) ? "" : `:${ex.target.port}`); sim.check(req.headers.host === h, "T01.request-headers", () => `${id}: host ${req.headers.host} instead of ${h}`);
  if (sim.stopped) return;
  let got = 0; let ended = false; const endedP = new Promise((r) => { ex.localEnd = r; });
  req.on("data", (d) => { if (W.over || sim.stopped) return; ex.touch(); sim.check(d.equals(ex.body.subarray(got, got + d.length)), "T01.request-body", () => `${id}: wrong bytes at ${got} (+${d.length}, of ${ex.body.length})`); got += d.length; ex.upGot = got; });
  req.on("end", () => { ended = true; if (!W.over) sim.check(got === ex.body.length, "T01.request-body", () => `${id}: the local app sees the end after ${got} of ${ex.body.length} bytes (sent ${ex.upSent})`); endedP && ex.localEnd(); });
  req.on("aborted", () => { ex.localTold ??= sim.now; ex.localEnd(); }); req.on("error", () => { ex.localTold ??= sim.now; });
  const sockGone = () => { if (ex.localDone === undefined) ex.localTold ??= sim.now; }; if (req.socket.destroyed) sockGone(); else req.socket.once("close", sockGone);
  res.on("close", () => { if (!res.writableFinished) { ex.localTold ??= sim.now; sim.log(`${app.key} is told that ${id} is over`); } else ex.localDone ??= sim.now; ex.localClosed = true; ex.localEnd(); }); res.on("finish", () => { ex.localDone = sim.now; ex.touch(); });
  if (P.noRead) { /* the app does not look at the body */ req.pause(); res.on("finish", () => req.resume()); /* node discards it then */ } else if (P.slowRead) { req.pause(); const step = async () => { while (!req.readableEnded && !req.destroyed && !W.over) { await sim.sleep(P.slowRead); req.resume(); await sim.sleep(5); if (!req.readableEnded) req.pause(); } }; step(); } else req.resume();
  const over = () => res.destroyed || res.closed || W.over || sim.stopped || ex.localClosed;
  const pause = async (ms) => { if (ms > 7000) ex.blame("silent for long"); if (ms) await sim.sleep(ms); };
  const die = (why) => { ex.blame(why); (W.cuts ??= []).push({ key: app.key, at: sim.now }); sim.fault(`local:${why}`); sim.log(`${app.key} ${why} on ${id}`); const s = req.socket; if (P.dieRst) s.resetAndDestroy?.(); else s.destroy(); };
  if (P.when === "after-body") await endedP;
  await pause(P.delay); if (over()) return;
  if (P.die === "before") { die("dies-before-answer"); return; }
  if (P.never) { ex.blame("never answers"); return; }
  res.sendDate = false; res.statusCode = P.status;
  for (const [k, v] of Object.entries(P.headers)) res.setHeader(k, v);
  res.setHeader("x-sim-local", id); if (P.framing === "length") res.setHeader("content-length", String(P.body.length)); if (P.framing === "close") res.setHeader("connection", "close");
  if (P.framing === "close") { res.useChunkedEncodingByDefault = false; res.shouldKeepAlive = false; if (!P.noBody) res.removeHeader("transfer-encoding"); }
  if (P.framing === "close" && ex.body.length > 0 && !ended) ex.blame("closes early");
  ex.answering = true; ex.touch();
  if (P.noBody) { res.end(); return; }
  if (P.flush) { res.flushHeaders(); await pause(sim.latency("p:gap", 0, P.gap)); }
  for (let i = 0; i < P.chunks.length; i++) {
    if (over()) return;
    if (P.die === "mid" && i === P.dieAt) { die("dies-mid-answer"); return; }
    ex.touch(); if (!res.write(P.chunks[i])) await new Promise((r) => { res.once("drain", r); res.once("close", r); });
    if (i < P.chunks.length - 1) await pause(sim.latency("p:gap", 0, P.gap));
  }
  if (over()) return;
  if (P.die === "mid") { die("dies-mid-answer"); return; }
  await pause(P.endDelay); if (!over()) res.end();
};

// ------------------------------------------------------------------ exchanges
const REQ_POOL = [["accept", "text/html, */*;q=0.8"], ["accept-encoding", "gzip, br"], ["user-agent", "Mozilla/5.0 (sim)"], ["authorization", "Bearer t0ken=="], ["cookie", "a=1; b=2"], ["if-none-match", 'W/"x"'], ["origin", "https://abc.tunnels.sim"], ["x-custom", "v 1, v 2"], ["range", "bytes=0-10"], ["x-empty", ""], ["accept-language", "fr-CH, fr;q=0.9"], ["x-latin", "caf\u00e9"], ["cache-control", "no-cache"], ["x-requested-with", "XMLHttpRequest"]];
const RES_POOL = [["content-type", "text/html; charset=utf-8"], ["set-cookie", ["a=1; Path=/", "b=2; HttpOnly"]], ["set-cookie", ["one=1"]], ["cache-control", "no-store"], ["etag", '"abc"'], ["location", "/next?x=1"], ["vary", "Accept, Origin"], ["x-empty", ""], ["x-latin", "caf\u00e9"], ["content-disposition", Buffer.from("attachment; filename=\"r\u00e9sum\u00e9 \u{1F600}.pdf\"").toString("latin1")], ["x-latin", "caf\u00e9"], ["access-control-allow-origin", "*"], ["link", "</a.css>; rel=preload"], ["www-authenticate", 'Basic realm="x"'], ["content-encoding", "gzip"], ["date", "Mon, 01 Jan 2024 00:00:00 GMT"]];
const ODD_RES = [["upgrade", "h2,h2c"], ["proxy-connection", "keep-alive"], ["http2-settings", "AAMAAABk"], ["te", "gzip"], ["host", "inner.sim"]];
const subset = (sim, l, pool, p) => pool.filter(() => sim.chance(l, p));
const TO_TUNNEL = /^\w+:\/\/(tunnels\.sim|meticulous-simulation\.localhost)\//;
const startExchange = async (W, conn) => {
  const { sim, cfg } = W; const id = `x${W.exchanges.size}`; conn.exchanges++;
  const method = sim.pick("x:m", ["GET", "GET", "GET", "POST", "POST", "PUT", "PATCH", "DELETE", "HEAD", "OPTIONS"]); const path = sim.pick("x:path", ["/", "/index.html", "/a/b?x=1&y=%20z", "/api//double", "/%F0%9F%98%80", `/long/${"p".repeat(300)}`, "/?q=a'b\"c"]);
  const mayBody = ["POST", "PUT", "PATCH"].includes(method) ? true : ["DELETE", "GET", "OPTIONS"].includes(method) ? sim.chance("x:oddBody", 0.15) : false;
  const body = mayBody ? bytes(sim, `${id}up`, size(sim, "x:up")) : Buffer.alloc(0); const withLength = mayBody ? sim.chance("x:len", 0.7) : false;
  const odd = cfg.odd && sim.chance("x:odd", 0.2); const noBodyStatus = sim.chance("p:nob", 0.08);
  const status = noBodyStatus ? sim.pick("p:nst", [204, 304]) : sim.pick("p:st", [200, 200, 200, 200, 201, 302, 400, 401, 404, 500, 502, 503, ...(odd ? [600, 999, 418] : [])]);
  const resBody = bytes(sim, `${id}down`, size(sim, "p:down")); const slow = sim.chance("p:slow", cfg.slowP);
  const P = { status, when: sim.pick("p:when", ["after-body", "after-body", "at-once"]), delay: slow ? sim.pick("p:dly", [2500, 6000, 9000, 30e3]) : sim.latency("p:dly", 0, 200), gap: sim.chance("p:slowgap", cfg.slowP) ? sim.pick("p:gapk", [2500, 9000]) : sim.pick("p:gapk", [0, 10, 300]), headers: Object.fromEntries([...subset(sim, "p:h", RES_POOL, 0.3), ...(odd ? subset(sim, "p:oddh", ODD_RES, 0.4) : [])]), framing: sim.pick("p:fr", ["length", "chunked", "chunked", "close"]), noBody: method === "HEAD" || noBodyStatus, body: resBody, flush: sim.chance("p:flush", 0.3), endDelay: sim.chance("p:ed", 0.15) ? 500 : 0, slowRead: sim.chance("p:sr", 0.15) ? sim.pick("p:srk", [20, 200]) : 0, noRead: sim.chance("p:nr", 0.06) };
  if (P.flush) { delete P.headers["content-disposition"]; delete P.headers["x-latin"]; } // node writes flushed headers as UTF-8
  P.chunks = pieces(sim, resBody, 5, "p:pc"); if (P.noRead) P.when = "at-once"; if (noBodyStatus) P.framing = "chunked"; if (method === "HEAD" && P.framing === "close") P.framing = "length";
  if (W.faultsOn && sim.chance("f:local", cfg.localFaultP)) { const k = sim.pick("f:lk", ["before", "mid", "mid", "never"]); if (k === "never") P.never = true; else P.die = k; P.dieRst = sim.chance("f:rst", 0.5); P.dieAt = sim.int("f:at", 0, 4); }
  if (P.noBody && P.die === "mid") P.die = "before";
  const orig = cfg.withUrls ? sim.pick("x:orig", [undefined, `https://${HOST}/x`, "https://meticulous-simulation.localhost/y", "https://cdn.sim/lib.js", "http://api.sim:8080/v1", "http://plain.sim/", "http://sim/x", "http://mytunnels.sim/", "http://my-meticulous-simulation.localhost/", "http://[fd00::1]/z", "not a url", "https://unknown.sim/", "https://selfsigned.sim/"]) : undefined;
  const deflt = { host: cfg.localHost, port: APP, key: `${cfg.localHost}:${APP}`, tls: cfg.localHttps, badCert: cfg.localBadCert }; let target = deflt;
  if (orig && cfg.proxyAllUrls && !cfg.rewrite && !TO_TUNNEL.test(orig) && URL.canParse(orig)) { const u = new URL(orig); const hostname = u.hostname.replace(/[[\]]/g, ""); const port = u.port ? Number(u.port) : u.protocol === "https:" ? 443 : 80; target = { host: hostname, port, key: `${hostname}:${port}`, tls: u.protocol === "https:", badCert: /selfsigned/.test(orig), missing: /unknown/.test(orig) }; }
  const sent = Object.fromEntries(subset(sim, "x:h", REQ_POOL, 0.3)); if (mayBody) sent["content-type"] = "application/octet-stream"; if (withLength) sent["content-length"] = String(body.length);
  const extra = Object.fromEntries(subset(sim, "x:d", DROPPED, 0.15).map((k) => [k, "internal"])); if (orig) extra["x-meticulous-original-url"] = orig;
  const ex = { id, conn, method, path, body, plan: P, originalUrl: orig, target, forwarded: { ...sent, "x-sim-id": id }, upSent: 0, upGot: 0, gotBytes: 0, startedAt: sim.now, touched: sim.now, blames: [] };
  ex.blame = (w) => { if (!ex.blames.includes(w)) ex.blames.push(w); }; ex.touch = () => { if (sim.now - ex.touched > 7000 && !ex.settled) ex.blame("silent for long"); ex.touched = sim.now; };
  if (status > 599) ex.blame("not an HTTP/2 status");
  if (target.missing) ex.blame("no such host"); if (target.tls && target.badCert && !cfg.allowInvalidCert) ex.blame("bad certificate");
  W.exchanges.set(id, ex); sim.log(`${id} ${method} ${path.slice(0, 20)} on connection ${conn.n}, up ${body.length}${withLength ? "" : " unframed"}, down ${P.noBody ? "-" : resBody.length} ${P.framing} ${status}${P.die ? ` die-${P.die}` : ""}${P.never ? " never" : ""}`);
  const abort = new AbortController(); const hasBody = mayBody && (body.length > 0 || sim.chance("x:emptyStream", 0.5)); let st;
  try { st = conn.session.request({ ":method": method, ":path": path, ":scheme": "https", ":authority": SUB, ...sent, ...extra, "x-sim-id": id }, { endStream: !hasBody, signal: abort.signal }); } catch (e) { ex.settled = "not-sent"; return ex; }
  ex.stream = st; const done = (how) => { if (ex.settled) return; ex.touch(); ex.settled = how; ex.settledAt = sim.now; sim.log(`${id} settles: ${how}`); if (!W.over && !sim.stopped) judge(W, ex); ex.resolve(); };
  const settled = new Promise((r) => { ex.resolve = r; });
  const take = (d) => { if (ex.res["x-sim-local"] !== id) return; sim.check(!P.noBody && d.equals(resBody.subarray(ex.gotBytes, ex.gotBytes + d.length)), "T01.response-body", () => `${id}: wrong bytes at ${ex.gotBytes} (+${d.length} of ${resBody.length})`); ex.gotBytes += d.length; }; const early = []; // node reports data of a flowing stream before the headers in the same segment
  st.on("error", (e) => { ex.error = e; }); st.on("response", (h) => { ex.res = h; ex.touch(); if (!W.over && !sim.stopped) early.splice(0).forEach(take); });
  st.on("data", (d) => { if (W.over || sim.stopped) return; ex.touch(); if (ex.res) take(d); else early.push(d); });
  st.on("end", () => { ex.ended = true; }); st.on("close", () => done(ex.cancelled ? "cancelled" : st.rstCode === 0 && !ex.error ? "clean" : `reset ${st.rstCode}${ex.error ? ` ${ex.error.code}` : ""}`));
  if (sim.chance("x:slowRead", 0.15)) { st.pause(); const gap = sim.pick("x:srk", [5, 100]); (async () => { while (!ex.settled && !W.over) { await sim.sleep(gap); st.resume(); await sim.sleep(5); if (!st.readableEnded && !ex.settled) st.pause(); } })(); }
  if (hasBody) (async () => { const parts = pieces(sim, body, 5, "x:pc"); const gap = sim.chance("x:slowgap", cfg.slowP) ? sim.pick("x:gapk", [2500, 9000]) : sim.pick("x:gapk", [0, 10, 300]);
    for (const p of parts) { if (st.destroyed || st.closed || ex.settled) return; if (!st.write(p)) await new Promise((r) => { st.once("drain", r); st.once("close", r); }); ex.upSent += p.length; ex.touch(); const g = sim.latency("x:gap", 0, gap); if (g > 7000) ex.blame("silent for long"); if (g) await sim.sleep(g); }
    if (!st.destroyed && !st.closed) { st.end(); ex.upEnded = true; } })();
  if (W.faultsOn && sim.chance("f:cancel", cfg.cancelP)) { const ms = sim.latency("f:cancelT", 0, sim.pick("f:cancelW", [20, 500, 5000])); const code = sim.pick("f:cancelC", [8, 8, 2, 5, 1]); sim.at(ms, () => { if (ex.settled || st.closed || st.destroyed || W.over) return; ex.cancelled = sim.now; sim.fault("requester-cancels"); sim.log(`${id} is cancelled by the requester (${code})`); if (!hasBody || ex.upEnded) st.close(code); else if (code === 2) st.destroy(E("cancelled", "SIM_CANCEL")); else abort.abort(); /* close() would first send END_STREAM */ }, { name: "cancel" }); }
  await settled; return ex;
};
const judge = (W, ex) => {
  const { sim } = W; const { id, plan: P } = ex; const how = ex.settled; const own = ex.res?.["x-sim-local"] === id; const excuse = ex.blames.length > 0 || W.cuts?.some((c) => c.key === ex.target.key && Math.abs(ex.startedAt - c.at) < 500) /* reused a connection that was being closed */ || ex.conn.disturbed || ex.conn.state === "gone";
  sim.probe(`exchange-${how.split(" ")[0]}${own ? "" : ex.res ? "-by-tunnel" : ""}`);
  if (ex.res && ex.res["x-sim-local"] !== undefined) sim.check(own, "T01.mixing", () => `${id} was answered with the response to ${ex.res["x-sim-local"]}`);
  if (own) {
    sim.check(ex.res[":status"] === P.status, "T01.response", () => `${id}: status ${ex.res[":status"]} instead of ${P.status}`);
    const bad = (k) => ["connection", "keep-alive", "transfer-encoding", "upgrade", "proxy-connection", "http2-settings", "te"].includes(k);
    for (const [k, v] of Object.entries(P.headers)) if (!bad(k)) { const g = ex.res[k]; sim.check(JSON.stringify(g) === JSON.stringify(v), "T01.response-headers", () => `${id}: ${k}: ${JSON.stringify(g)} instead of ${JSON.stringify(v)}`); }
    for (const k of Object.keys(ex.res)) sim.check(k in P.headers || ["x-sim-local", ":status", "date", "content-length"].includes(k), "T01.response-headers", () => `${id}: ${k}: ${ex.res[k]} was not sent by the local app`);
  }
  if (how === "cancelled") return;
  if (how === "clean" && own) {
    const closeDelimited = P.framing === "close" && (P.die || ex.blames.length > 0); // an end without framing looks like a complete answer (for node's client also a reset)
    const cutOff = ex.conn.disturbed || ex.conn.state === "gone" || ex.conn.session.destroyed; // node's client reports the streams of a lost connection like ended ones
    if (!closeDelimited && !cutOff) sim.check(P.noBody ? ex.gotBytes === 0 : ex.gotBytes === P.body.length, "T01.truncated", () => `${id}: looks complete after ${ex.gotBytes} of ${P.body.length} bytes (${ex.blames.join(", ") || "nothing went wrong"})`);
    return;
  }
  if (how === "clean" && ex.res) { sim.check(excuse, "T01.lost", () => `${id}: answered ${ex.res[":status"]} by the tunnel although nothing went wrong`); sim.check(ex.res[":status"] === 502, "T01.failure-status", () => `${id}: failure answered with ${ex.res[":status"]}`); return; }
  if (how === "clean") { sim.check(excuse, "T01.lost", () => `${id}: ended without an answer`); return; }
  sim.check(excuse, "T01.lost", () => `${id}: ${how} although nothing went wrong`);
};

// ------------------------------------------------------------------ a run
const setup = async (sim, { scripts }, focus) => {
  sim.drainTurns = 10; const life = focus === "life";
  const cfg = { useTls: sim.chance("c:tls", 0.7), passphrase: "s3cr3t", localHost: sim.pick("c:lh", ["localhost", "localhost", "app.local"]), localHttps: sim.chance("c:https", 0.25), allowInvalidCert: sim.chance("c:inv", 0.4), proxyAllUrls: sim.chance("c:all", 0.4), rewrite: sim.chance("c:rw", 0.2), dns: sim.chance("c:dns", 0.2), withUrls: sim.chance("c:urls", 0.4), odd: sim.chance("c:odd", 0.3), connections: sim.pick("c:n", [1, 1, 2, 3, undefined]), forkMax: sim.pick("c:fork", [30, 200, 2000]), localFaultP: 0, cancelP: 0, slowP: sim.chance("c:slow", 0.25) ? 0.3 : 0.02, net: { latency: [0, sim.pick("c:lat", [1, 10, 60])], segments: sim.pick("c:seg", [0, 1, 3]), window: sim.pick("c:win", [1000, 16384, 65536]) } };
  cfg.localBadCert = cfg.localHttps && sim.chance("c:badcert", 0.4); const faulty = sim.chance("cfg:faults", 0.7);
  if (faulty) { cfg.localFaultP = sim.pick("cfg:lf", [0, 0.1, 0.4]); cfg.cancelP = sim.pick("cfg:cp", [0, 0.15, 0.5]); }
  cfg.proxy = sim.chance("c:proxy", life ? 0.25 : 0.1);
  const W = new World(sim, cfg); W.faultsOn = faulty; tunnelServer(W); if (cfg.proxy) forwardProxy(W);
  const apps = [localApp(W, cfg.localHost, APP, { tls: cfg.localHttps, badCert: cfg.localBadCert }), localApp(W, "cdn.sim", 443, { tls: true }), localApp(W, "api.sim", 8080), localApp(W, "plain.sim", 80), localApp(W, "selfsigned.sim", 443, { tls: true, badCert: true }), ...(cfg.withUrls && cfg.proxyAllUrls ? ["sim", "mytunnels.sim", "my-meticulous-simulation.localhost", "fd00::1"].map((h) => localApp(W, h, 80)) : [])];
  const pDial = faulty && sim.chance("cfg:dial", life ? 0.4 : 0.1) ? 0.4 : 0; const pLocalDial = faulty && !life && sim.chance("cfg:ldial", 0.2) ? 0.3 : 0;
  W.dialFault = (r) => { const local = r.what === "local"; if (!sim.chance("f:dial", local ? pLocalDial : pDial)) return null; const k = sim.pick("f:dialk", local ? ["ECONNREFUSED", "ECONNRESET"] : ["ECONNREFUSED", "ETIMEDOUT", "ENETUNREACH", "ECONNRESET"]); return k; };
  const pAuth = faulty && sim.chance("cfg:auth", life ? 0.3 : 0.05) ? 0.5 : 0; W.authMood = () => (sim.chance("f:auth", pAuth) ? sim.pick("f:authk", ["drop", "reset", "refuse"]) : "ok");
  const pProxy = faulty && sim.chance("cfg:proxyf", life ? 0.3 : 0.05) ? 0.5 : 0; W.proxyMood = () => (sim.chance("f:proxy", pProxy) ? sim.pick("f:proxyk", ["drop", "refuse"]) : "ok");
  if (life && faulty && cfg.useTls && sim.chance("cfg:cert", 0.1)) { W.endpoints.get(`${HOST}:${PORT}`).badCert = true; cfg.serverBadCert = true; sim.fault("tunnel-server-bad-certificate"); }
  const pFork = faulty && sim.chance("cfg:forkf", life ? 0.3 : 0.05) ? 0.3 : 0; W.forkFault = () => (!sim.chance("f:fork", pFork) ? null : sim.chance("f:spawn", 0.4) ? "spawn" : { after: sim.int("f:oom", 0, 2000) });
  // local dial failures are on the exchange that needed the connection; with several under way, on any of them
  const blameAll = (key, why) => { for (const ex of W.exchanges.values()) if (!ex.settled && (!key || ex.target.key === key)) ex.blame(why); };
  for (const a of apps) W.endpoints.get(a.key).onRefused = (rec) => { if (rec.failed !== "cert" || !cfg.allowInvalidCert) blameAll(a.key, rec.failed); };
  // ---- opening
  const offline = faulty && sim.chance("f:offline", life ? 0.4 : 0.1) ? sim.int("f:offFor", 1, 20e3) : 0; const refusal = faulty && life && sim.chance("f:refusal", 0.2) ? sim.pick("f:refk", [401, 403, 404, 500]) : 0; const html = refusal && sim.chance("f:html", 0.3);
  if (offline) sim.fault("tunnel-server-offline"); if (refusal) sim.fault(`open:${refusal}`);
  const noPort = life && faulty && !refusal && sim.chance("f:noPort", 0.05);
  const api = { asks: [], tries: [], net: { name: "api", latency: [1, 60], onOpen: () => { api.tries.push(sim.now); }, faultFor: () => { if (sim.now < offline) { const k = sim.pick("f:offk", ["refuse", "lost", "cut"]); return { kind: k }; } return null; },
    handle: (info) => { api.asks.push({ at: sim.now, status: refusal || 200, auth: info.headers.get?.("authorization") ?? null, path: info.path, query: String(info.query ?? "") });
      if (refusal) return { status: refusal, headers: { "content-type": html ? "text/html" : "application/json" }, body: html ? "<html>denied</html>" : JSON.stringify(refusal === 404 ? { error: "no such subdomain" } : sim.pick("f:refBody", [{ message: "denied" }, null, "denied", { error: { code: 3 } }])) };
      return { status: 200, headers: { "content-type": "application/json" }, body: JSON.stringify({ id: "abc123", multiplexing_port: noPort ? undefined : PORT, url: `${cfg.useTls ? "https" : "http"}://${SUB}`, max_conn_count: sim.pick("w:max", [0, 10]), tunnel_passphrase: cfg.passphrase, basic_auth_user: "u", basic_auth_password: "pw" }) }; } } };
  const token = sim.chance("c:token", 0.8) ? "tok" : null; const subdomain = sim.chance("c:sub", 0.3) ? "mine" : undefined;
  const parent = new Proc(sim, "cli", { modules: { ...npmModules, ...netModules(W), cluster: clusterModule(W, scripts) }, cwd: "/work", env: cfg.proxy ? { HTTPS_PROXY: "http://proxy.sim:3128" } : {}, disk: new Disk(sim) }); parent.opts.fetch = simFetch(parent, { ...api.net, undiciTimeouts: true }); W.parent = parent; if (life) parent.opts.cpus = sim.pick("c:cpus", [4, 2, 20]);
  parent.onUncaught = (e) => { W.parentUncaught = e; parent.exitCode = 1; parent.crash("uncaught"); };
  const opts = { apiToken: token, port: APP, localHost: cfg.localHost, localHttps: cfg.localHttps, allowInvalidCert: cfg.allowInvalidCert, proxyAllUrls: cfg.proxyAllUrls, rewriteHostnameToAppUrl: cfg.rewrite, enableDnsCache: cfg.dns, host: `https://${HOST}`, ...(subdomain ? { subdomain } : {}), ...(cfg.connections ? { http2Connections: cfg.connections } : {}), silenceTunnelWorker: sim.chance("c:sil", 0.2) };
  const sut = parent.load(scripts.parent);
  return { W, cfg, apps, api, parent, sut, opts, token, subdomain, offline, refusal, html, noPort, faulty, blameAll, pDial, pAuth, pFork };
};
const disturb = (W, conn, why) => { if (!conn) return; conn.disturbed = why; W.sim.log(`connection ${conn.n} disturbed: ${why}`); };
const workerOf = (W, conn) => W.workers.find((w) => w.proc === conn.rec.proc);

/** T01: exchanges through an open tunnel */
export const runCarry = async (sim, ctx) => {
  const R = await setup(sim, ctx, "carry"); const { W, cfg, apps, api, parent, sut, opts } = R; let tunnel = null; const errors = [];
  const run = await sim.run(async () => {
    parent.at(0, () => { sut.lib.localtunnel({ logger: loggerOf(parent), ...opts }).then((t) => { tunnel = t; t.on("error", (e) => errors.push(e)); }, (e) => errors.push(e)); }, "start");
    for (let i = 0; i < 200 && !(tunnel && W.workers.every((w) => !w.alive || W.conns.some((c) => c.rec.proc === w.proc && c.state !== "auth" && c.state !== "ack"))) && errors.length === 0; i++) await sim.sleep(200);
    const usable = () => W.conns.filter((c) => c.state === "open" && !c.session.destroyed && !c.session.closed);
    const total = sim.pick("x:n", [1, 2, 4, 8, 16]); const gap = sim.pick("x:start", [0, 20, 300, 3000]); const all = [];
    const chaos = !R.faulty ? [] : Array.from({ length: sim.pick("cfg:chaos", [0, 0, 0, 1, 2]) }, () => ({ at: sim.latency("f:when", 0, sim.pick("f:win", [100, 2000, 9000])), kind: sim.pick("f:kind", ["conn-break", "worker-killed", "app-restart", "idle-close", "server-goaway"]) }));
    for (const c of chaos) sim.at(c.at, () => {
      if (!W.faultsOn || W.over) return; sim.fault(c.kind); const u = usable();
      if (c.kind === "conn-break" && u.length) { const x = sim.pick("f:conn", u); disturb(W, x, c.kind); x.sock.breakNow(); }
      else if (c.kind === "server-goaway" && u.length) { const x = sim.pick("f:conn", u); disturb(W, x, c.kind); x.session.close(); }
      else if (c.kind === "worker-killed") { const l = W.workers.filter((w) => w.proc?.alive); if (l.length) { const w = sim.pick("f:wk", l); w.killedByFault = true; W.conns.filter((x) => x.rec.proc === w.proc).forEach((x) => disturb(W, x, c.kind)); w.proc.signal("SIGKILL"); } }
      else { const a = sim.pick("f:app", apps.filter((x) => x.socks.size).length ? apps.filter((x) => x.socks.size) : apps); R.blameAll(a.key, c.kind); (W.cuts ??= []).push({ key: a.key, at: sim.now }); if (c.kind === "app-restart") { W.endpoints.get(a.key).down = () => sim.now < a.downUntil; a.downUntil = sim.now + sim.int("f:down", 0, 3000); for (const s of [...a.socks]) s.breakNow(); } else { const s = [...a.socks]; if (s.length) sim.pick("f:sock", s).destroy(); } }
    }, { name: "chaos" });
    for (let i = 0; i < total && !sim.stopped; i++) { const u = usable(); if (!u.length) break; all.push(startExchange(W, sim.pick("x:conn", u))); const g = sim.latency("x:gap0", 0, gap); if (g) await sim.sleep(g); }
    const settled = await Promise.race([Promise.all(all).then(() => true), sim.sleep(400e3).then(() => false)]);
    if (!settled && !sim.stopped) { const ex = [...W.exchanges.values()].find((x) => !x.settled); sim.check(false, "T01.hang", () => `${ex.id} never settles (${ex.blames.join(", ") || "nothing went wrong"}, ${ex.arrived ? "reached" : "did not reach"} the local app)`); }
    W.faultsOn = false; await sim.sleep(25e3); // idle sockets close, everybody has been told
    // the tunnel still works for a plain request on every connection that is left
    if (!sim.stopped) { cfg.cancelP = cfg.localFaultP = 0; const before = W.exchanges.size; await Promise.race([Promise.all(usable().map((c) => startExchange(W, c))), sim.sleep(300e3)]); await sim.sleep(15e3); for (const ex of [...W.exchanges.values()].slice(before)) sim.check(ex.settled || sim.stopped, "T01.hang", () => `${ex.id} (after the faults) never settles`); }
  }, { maxTime: 3600e3, maxEvents: 60000 });
  if (!sim.stopped) {
    sim.check(run === "done", "T01.hang", () => `never settled (${run})`);
    sim.check(W.garbage.length === 0, "T01.mixing", () => `the local app received something that is not a request: ${W.garbage[0]}`);
    for (const ex of W.exchanges.values()) {
      if (!ex.arrived || ex.plan.noRead) continue;
      sim.check(ex.localDone !== undefined || ex.localTold !== undefined, "T01.not-told", () => `the local app was never told that ${ex.id} is over (${ex.settled})`);
      if (ex.cancelled && !ex.plan.noRead && !ex.plan.slowRead && ex.localDone === undefined && ex.localTold !== undefined) sim.check(ex.localTold - Math.max(ex.cancelled, ex.arrived.at) < 3000, "T01.told-late", () => `${ex.id} was cancelled at ${ex.cancelled}, the local app was told at ${ex.localTold}`);
    }
    for (const w of W.workers) { sim.check(!w.uncaught, "T01.worker-crash", () => `worker ${w.n} crashed: ${w.uncaught?.stack?.split("\n").slice(0, 4).join(" | ") ?? w.uncaught}`); const c = W.conns.find((x) => x.rec.proc === w.proc); if (w.proc && c && !w.killedByFault && !c.disturbed && c.mood === "ok") sim.check(w.proc.alive && c.state === "open", "T01.worker-crash", () => `worker ${w.n} ended (${w.code ?? w.signal}) although its connection was not disturbed`); }
  }
  W.over = true; sim.probe("exchanges", W.exchanges.size);
  return { sample: { exchanges: W.exchanges.size, connections: W.conns.length, arrivals: W.arrivals } };
};
/** T02: opening, losing and closing a tunnel */
export const runLife = async (sim, ctx) => {
  const R = await setup(sim, ctx, "life"); const { W, cfg, api, parent, sut, opts } = R; const mode = sim.pick("m", ["lib", "lib", "cmd"]);
  let end; let tunnel = null; let refused = null; let openedAt = null; let settledAt = null; let closedAt = null; let died = null; const errors = []; let closes = 0; const K = (k) => `T02.${k}`;
  const expected = cfg.connections ?? Math.min(parent.require("os").cpus().length, 16); const goodAsk = () => api.asks.find((a) => a.status === 200);
  parent.opts.tty = false; (parent.onCrash ??= []).push(() => { died ??= { at: sim.now, code: parent.exitCode, signal: parent.signalCode }; });
  const workersUp = () => W.workers.filter((w) => w.alive); const close = () => { if (closedAt !== null || !parent.alive) return; closedAt = sim.now; sim.log("close()"); parent.at(0, () => tunnel.close(), "close"); };
  const run = await sim.run(async () => {
    parent.at(0, () => {
      if (mode === "lib") sut.lib.localtunnel({ logger: loggerOf(parent), ...opts }).then((t) => { if (!parent.alive) return; tunnel = t; openedAt = settledAt = sim.now; t.on("error", (e) => errors.push({ at: sim.now, e })); t.on("close", () => closes++); }, (e) => { refused = e; settledAt = sim.now; });
      else { const { host, ...rest } = opts; sut.cmd.ciStartTunnelCommand.handler({ ...rest, apiToken: R.token ?? undefined, host, printRequests: sim.chance("c:pr", 0.3), dryRun: false }).catch(() => {}); }
    }, "start");
    // what happens meanwhile
    const chaos = []; const add = (kind, p, lo, hi) => { if (sim.chance(`f:${kind}`, p)) chaos.push({ kind, at: sim.int(`f:${kind}At`, lo, hi) }); };
    end = sim.pick("e", ["close", "close", "close", "crash", "stay"]); const endAt = sim.latency("e:at", 1, sim.pick("e:win", [300, 5000, 150e3]));
    if (W.faultsOn) { for (let i = 0; i < 2; i++) { add("conn-break", 0.25, 1, 20e3); add("server-goaway", 0.15, 1, 20e3); add("worker-killed", 0.2, 1, 20e3); } }
    for (const c of chaos) sim.at(c.at + R.offline, () => {
      if (W.over) return; const u = W.conns.filter((x) => x.state === "open");
      if (c.kind === "worker-killed") { const l = W.workers.filter((w) => w.proc?.alive); if (l.length) { const w = sim.pick("f:wk", l); sim.fault(c.kind); w.killedByFault = true; w.proc.signal("SIGKILL"); } } else if (u.length) { const x = sim.pick("f:conn", u); sim.fault(c.kind); disturb(W, x, c.kind); if (c.kind === "conn-break") x.sock.breakNow(); else x.session.close(); }
    }, { name: "chaos" });
    if (end !== "stay") sim.at(R.offline + endAt, () => {
      if (W.over || !parent.alive) return;
      if (end === "crash") { sim.fault("parent-killed"); parent.signal("SIGKILL"); } else if (mode === "cmd") { sim.fault("interrupted"); R.interrupted = sim.now; closedAt = tunnel === null && !W.workers.length ? null : sim.now; parent.signal("SIGINT"); } else if (tunnel) close(); else R.lateClose = true;
    }, { name: "end" });
    for (let i = 0; i < 100 && parent.alive && settledAt === null && !(mode === "cmd" && W.workers.length); i++) await sim.sleep(500);
    if (R.lateClose && tunnel) close();
    await sim.sleep(cfg.forkMax + 160e3); // the slowest connection attempt has failed by now
    W.faultsOn = false; await sim.sleep(5000);
  }, { maxTime: 3600e3, maxEvents: 60000 });
  if (!sim.stopped) {
    const ok = sim.check.bind(sim); ok(run === "done", K("hang"), () => `never settled (${run})`);
    // ---- opening
    for (let i = 1; i < api.tries.length; i++) ok(api.tries[i] - api.tries[i - 1] >= 1000, K("retry-pace"), () => `asked for a tunnel at ${api.tries[i - 1]} and ${api.tries[i]}`);
    ok(api.asks.filter((a) => a.status === 200).length <= 1 || R.offline > 0, K("tunnels"), () => `${api.asks.length} tunnels were opened`);
    for (const a of api.asks) { ok(a.auth === (R.token ?? null), K("authorization"), () => `authorization ${a.auth}, the token is ${R.token}`); ok(a.path === `/${R.subdomain ?? ""}`, K("subdomain"), () => `asked for ${a.path}`); ok(/\bsupportsHTTP2Multiplexing=true\b/.test(a.query), K("tunnels"), () => `asked for a tunnel with ${a.query}`); }
    if (W.setup && mode === "lib") ok(!!W.setup.silent === opts.silenceTunnelWorker, K("silence"), () => `silenceTunnelWorker ${opts.silenceTunnelWorker}, workers are ${W.setup.silent ? "" : "not "}silent`);
    const definite = R.refusal && (!R.html || R.refusal === 401 || R.refusal === 403); const firstAnswer = api.asks[0]?.at; const parentEndedEarly = died && (R.interrupted ?? Infinity) <= died.at + 1 && !W.workers.length;
    const killed = end === "crash" && died?.signal === "SIGKILL";
    if (firstAnswer !== undefined && definite && !killed && !parentEndedEarly) {
      if (mode === "lib") { ok(refused, K("refusal-hidden"), () => `the server answered ${R.refusal}, opening did not fail`); ok(settledAt - api.asks.at(-1).at < 2000, K("refusal-late"), () => "late"); if (refused) ok(R.refusal === 401 || R.refusal === 403 ? /Authentication failed/.test(refused.message) : R.refusal === 404 ? /no such subdomain/.test(refused.message) : refused.message.length > 0, K("refusal-reason"), () => `${R.refusal}: ${refused.message}`); }
      else ok(died && died.code > 0, K("refusal-hidden"), () => `the server answered ${R.refusal}, the command ${died ? `exited ${died.code}` : "is still running"}`);
      ok(W.workers.length === 0 && !tunnel, K("refusal-ignored"), () => "a refused tunnel was opened");
    }
    if (R.noPort && goodAsk() && !killed && !parentEndedEarly) ok(mode === "lib" ? refused && !tunnel && !W.parentUncaught : died && died.code > 0, K("refusal-hidden"), () => `a tunnel without a port: ${mode === "lib" ? `${tunnel ? "opened" : refused ?? `neither opened nor failed${W.parentUncaught ? ` (crash: ${W.parentUncaught.message})` : ""}`}` : JSON.stringify(died)}`);
    const should = !R.refusal && !R.noPort && goodAsk(); if (should && !killed && !parentEndedEarly && mode === "lib") ok(tunnel, K("not-opened"), () => `the server opened a tunnel, the caller was not told (${refused})`);
    if (!goodAsk() && !R.refusal && !died) ok(false, K("gave-up"), () => `no longer asks (${api.tries.length} attempts, the last at ${api.tries.at(-1)})`);
    if (tunnel) ok(tunnel.url === `${cfg.useTls ? "https" : "http"}://${SUB}` && tunnel.basicAuthUser === "u" && tunnel.basicAuthPassword === "pw", K("url"), () => `${tunnel.url} ${tunnel.basicAuthUser}`);
    if (tunnel || (mode === "cmd" && W.workers.length)) ok(W.workers.length === expected, K("connections"), () => `${W.workers.length} workers instead of ${expected}`);
    if (mode === "cmd" && W.workers.length && !(killed && died.at - W.workers[0].at < 50)) ok(parent.consoleLines.some((l) => l.text?.includes?.(SUB) || String(l).includes(SUB) || JSON.stringify(l).includes(SUB)), K("url"), () => "the command did not print the tunnel's URL");
    // ---- while it is open
    ok(mode === "cmd" || !W.parentUncaught, K("parent-crash"), () => `the process that opened the tunnel crashed: ${W.parentUncaught?.stack?.split("\n").slice(0, 3).join(" | ")}`);
    const named = new Map(); for (const { e, at } of errors) { const n = Number(/Worker (\d+)/.exec(e?.message)?.[1]) - 1; const w = W.workers[n]; ok(w && !named.has(n), K("error-repeated"), () => `${e?.message}: ${w ? "reported twice" : "whose failure is this?"}`); named.set(n, at); if (w) { ok(!w.alive, K("error-unfounded"), () => `${e.message}, but it is alive`); ok(closedAt === null || at <= closedAt, K("error-after-close"), () => `${e.message} was reported after the tunnel had been closed`); } }
    const gone = died?.at ?? Infinity;
    for (const w of W.workers) {
      const dials = W.dials.filter((d) => d.proc === w.proc && w.proc && d.what !== "local"); const d = dials[0]; const conn = d?.conn;
      ok(dials.length <= 1, K("dials"), () => `worker ${w.n} connected ${dials.length} times`); if (d) ok(d.host === (cfg.proxy ? "proxy.sim" : HOST) && (cfg.proxy || (d.port === PORT && d.tls === cfg.useTls)), K("dials"), () => `worker ${w.n} connected to ${d.host}:${d.port}`);
      const over = Math.min(closedAt ?? Infinity, gone); const ended = !w.alive;
      const cause = w.spawnFailed || w.killedByFault || d?.failed || d?.fault || (d?.proxyMood ?? "ok") !== "ok" || (conn && (conn.mood !== "ok" || conn.disturbed)) || cfg.serverBadCert;
      if (over === Infinity) {
        if (ended && mode === "lib") { ok(named.has(w.n), K("failure-hidden"), () => `worker ${w.n} ended (${w.code ?? w.signal ?? "not started"}), nobody was told`); ok(named.get(w.n) - (w.endedAt ?? w.at) < 1000, K("failure-late"), () => `worker ${w.n}`); }
        if (!ended) ok(conn?.state === "open", K("zombie"), () => `worker ${w.n} is alive without a connection (${conn ? conn.state : d ? d.failed ?? "connecting" : "never connected"})`);
        if (ended) ok(cause, K("failure-unfounded"), () => `worker ${w.n} ended (${w.code ?? w.signal}) although nothing went wrong: ${w.uncaught?.stack?.split("\n").slice(0, 3).join(" | ") ?? ""}`);
      } else {
        ok(ended, K("left-behind"), () => `worker ${w.n} is alive after the ${closedAt !== null ? "tunnel was closed" : "parent's end"}`);
        if (ended && w.endedAt) ok(w.endedAt - over <= 2500 + cfg.forkMax || w.endedAt < over, K("left-behind"), () => `worker ${w.n} ended ${w.endedAt - over} ms after the end`);
        if (d) ok(d.at <= over + (died ? 300 : 10), K("dials-after-close"), () => `worker ${w.n} connected ${d.at - over} ms after the end`);
        if (conn) ok(conn.state === "gone" || sim.now - over < 1000, K("left-behind"), () => `connection ${conn.n} is still ${conn.state}`);
        if (ended && w.endedAt < over - 1000 && mode === "lib" && parent.alive) ok(named.has(w.n), K("failure-hidden"), () => `worker ${w.n} ended (${w.code ?? w.signal}), nobody was told`);
      }
    }
    if (mode === "lib" && closedAt !== null && parent.alive) { ok(closes === 1, K("close-event"), () => `${closes} close events`); const t = parent.activeTimers(); ok(t.length === 0, K("left-behind"), () => `${t.length} timers are still active after the end`); }
    if (mode === "cmd") {
      if (R.interrupted !== undefined && W.workers.length && R.interrupted >= W.workers[0].at + 10 && !W.parentUncaught && !(died && died.at < R.interrupted)) ok(died && (died.code === 0 || errorsBefore(W, R.interrupted)) && died.at - R.interrupted < 5000, K("interrupt"), () => `interrupted at ${R.interrupted}: ${JSON.stringify(died)}`);
      const failedWorker = W.workers.find((w) => !w.alive && (w.endedAt ?? w.at) <= gone && (w.endedAt ?? w.at) <= (closedAt ?? Infinity)); if (failedWorker && !killed) ok(died && (died.code !== 0 || Math.abs(died.at - (R.interrupted ?? -1e9)) < 5000), K("failure-hidden"), () => `worker ${failedWorker.n} ended, the command ${died ? `exited ${died.code}` : "is still running"}`);
      if (died && died.code !== undefined && R.interrupted === undefined && !R.refusal && !R.noPort) ok(failedWorker, K("failure-unfounded"), () => `the command exited ${died.code} although nothing went wrong: ${W.parentUncaught?.stack?.split("\n").slice(0, 3).join(" | ") ?? ""}`);
    }
  }
  W.over = true; sim.probe(`mode-${mode}`); if (openedAt !== null) sim.probe("opened"); if (closedAt !== null) sim.probe("closed"); sim.probe("worker-failures", W.workers.filter((w) => w.endedAt && w.endedAt < (closedAt ?? Infinity)).length);
  return { sample: { mode, workers: W.workers.length, attempts: api.tries.length, errors: errors.length } };
};
const errorsBefore = (W, at) => W.workers.some((w) => !w.alive && (w.endedAt ?? w.at) <= at + 10);
const loggerOf = (proc) => { const c = proc.G.console; return { trace() {}, debug() {}, info: c.info, warn: c.warn, error: c.error, log: c.log }; };
