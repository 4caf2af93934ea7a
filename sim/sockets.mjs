// Byte-stream sockets between simulated parties: connect, segmentation,
// back-pressure, half-close, reset, stalls, idle time-outs. The protocol code
// on top of them (node:http, node:http2) runs for real.
import { Duplex } from "node:stream";

const err = (message, code) => Object.assign(new Error(message), { code, errno: -1 });

export class SimSocket extends Duplex {
  constructor(sim, proc, label, opts = {}) {
    super({ allowHalfOpen: false, emitClose: true, autoDestroy: true, readableHighWaterMark: opts.hwm ?? 16384, writableHighWaterMark: opts.hwm ?? 16384 });
    Object.assign(this, { sim, proc, label, peer: null, connecting: true, encrypted: !!opts.tls, alpnProtocol: opts.alpn, authorized: !!opts.tls, remoteAddress: "127.0.0.1", remotePort: opts.port ?? 1, localAddress: "127.0.0.1", localPort: 50000, remoteFamily: "IPv4", timeout: 0 });
    this.out = []; this.inFlight = 0; this.lastAt = 0; this.room = true; this.held = []; this.bytesRead = 0; this.bytesWritten = 0;
    this.on("error", (e) => { if (proc?.alive && !sim.stopped && this.listenerCount("error") === 1) proc.uncaught(e); }); // an error nobody listens for ends a process
    this.net = opts.net ?? {}; (sim.sockets ??= new Set()).add(this);
    if (proc) { (proc.sockets ??= new Set()).add(this); if (!proc.socketHook) { proc.socketHook = true; (proc.onCrash ??= []).push(() => { for (const s of proc.sockets) s._ownerGone(); }); } }
  }
  get readyState() { return this.connecting ? "opening" : this.destroyed ? "closed" : "open"; }
  get pending() { return this.connecting; }
  get dead() { return this.proc && !this.proc.alive; }
  _ev(delay, fn, name) { return this.proc ? this.proc.at(delay, fn, `sock:${name}`) : this.sim.at(delay, fn, { name: `sock:${this.label}:${name}` }); }
  _lat() { const [lo, hi] = this.net.latency ?? [0, 20]; return this.sim.latency("sock:lat", lo, hi); }
  _connected() { if (this.destroyed || this.dead) return; this.connecting = false; this.emit("connect"); this.emit("ready"); if (this.encrypted && !this.lateTls) this.emit("secureConnect"); const h = this.held; this.held = []; h.forEach((f) => f()); }
  // ---- sending
  _write(chunk, enc, cb) {
    if (this.connecting) { this.held.push(() => this._write(chunk, enc, cb)); return; }
    if (this.dead || this.sim.stopped) { cb(); return; }
    this._touch(); const peer = this.peer;
    if (this.broken || !peer) { cb(err("write EPIPE", "EPIPE")); return; }
    this.bytesWritten += chunk.length; const net = this.net;
    const n = chunk.length > 1 && net.segments && !this.atomic ? this.sim.int("sock:seg", 1, Math.min(net.segments, chunk.length)) : 1; let at = 0;
    for (let i = 0; i < n; i++) { // segment borders are chosen as ratios: the choice does not depend on the byte count
      const to = i === n - 1 ? chunk.length : Math.max(at, Math.floor((chunk.length * (i * 16 + this.sim.int("sock:cut", 1, 15))) / (n * 16))); const part = Buffer.from(chunk.subarray(at, to)); at = to;
      if (part.length) this._send({ data: part });
    }
    // accepted once the window has room again
    if (this.inFlight < (net.window ?? 65536)) cb(); else this.waiting = cb;
  }
  _send(item) { if (this.cut) return; const t = Math.max(this.lastAt, this.sim.now + this._lat() + (this.stall ?? 0)); this.lastAt = t; const peer = this.peer; this.inFlight += item.data?.length ?? 0; this.out.push(item); const target = peer; (target.proc ? target.proc.at.bind(target.proc) : (d, f, n) => this.sim.at(d, f, { name: `${target.label}:${n}` }))(t - this.sim.now, () => target._arrive(this), "sock:seg"); }
  _arrive(from) { // one item of `from` has reached this side; it waits until the reader has room
    this.ready = (this.ready ?? 0) + 1; this._pump(from);
  }
  _pump(from) {
    while (this.ready > 0 && from?.out.length && !this.destroyed) {
      const item = from.out[0];
      if (item.data && !this.room) return;
      from.out.shift(); this.ready--;
      if (item.rst) { this._reset(); return; }
      if (item.fin) { this.gotFin = true; this._touch(); this.push(null); continue; }
      from.inFlight -= item.data.length; this.bytesRead += item.data.length; this._touch();
      this.room = this.push(item.data);
      if (from.waiting && from.inFlight < (from.net.window ?? 65536)) { const w = from.waiting; from.waiting = null; from._ev(from._lat() >> 2, () => w(), "acked"); }
    }
    if (this.destroyed && from.out.length) { const data = from.out.some((x) => x.data); from.out.length = 0; if (data) this._refuse(from); }
  }
  /** data for a socket that is closed: the kernel answers with a reset */
  _refuse(from) { if (from.refused || from.destroyed || from.dead) return; from.refused = true; from._ev(this._lat(), () => from._reset(), "refused"); }
  _read() { this.room = true; if (this.ready > 0 && !this.reading) { this.reading = true; this._ev(0, () => { this.reading = false; this._pump(this.peer); }, "read"); } }
  _final(cb) { if (this.connecting) { this.held.push(() => this._final(cb)); return; } if (!this.dead && !this.broken && this.peer) this._send({ fin: true }); this.sentFin = true; cb(); }
  _reset(code = "ECONNRESET") { this.broken = true; if (!this.destroyed) this.destroy(err(`read ${code}`, code)); }
  _destroy(e, cb) {
    this.sim.log(`${this.label} socket closed${e ? ` (${e.code ?? e.message})` : ""}`); this._clearTimer(); this.connecting = false;
    const p = this.peer; const unread = this.readableLength > 0 || (p && p.out.some((x) => x.data));
    if (p && !this.broken && !this.dead) { if (e || unread) { if (p.ready === undefined || this.sim.chance("sock:rstOvertakes", 0.5)) this._cutOut(); this._send({ rst: true }); } else if (!this.sentFin) this._send({ fin: true }); }
    if (p) p._peerGone(); if (this.waiting) { const w = this.waiting; this.waiting = null; process.nextTick(w); }
    this.onGone?.(); cb(e);
  }
  _cutOut() { this.out.length = 0; if (this.peer) this.peer.ready = 0; }
  _peerGone() { if (this.waiting) { const w = this.waiting; this.waiting = null; this._ev(1, () => w(), "acked"); } }
  /** the process that owned this end is gone: the kernel closes the connection */
  _ownerGone() { if (this.gone) return; if (this.destroyed) { this.gone = true; const p = this.peer; if (p && !p.destroyed) this.sim.at(this._lat() + 40, () => { if (!p.destroyed) { p.broken = true; if (p.waiting) p._reset(); } }, { name: "sock:gone" }); return; } this.gone = true; this._clearTimer(); const p = this.peer; this.onGone?.(); if (!p || p.destroyed) return; if (this.sim.chance("sock:crashRst", 0.5)) this.sim.at(this._lat(), () => p._reset(), { name: "sock:rst" }); else { const t = Math.max(this.lastAt, this.sim.now + this._lat()); this.out.push({ fin: true }); this.sim.at(t - this.sim.now, () => p._arrive(this), { name: "sock:fin" }); this.sim.at(t - this.sim.now + 20, () => { if (!p.destroyed) { p.broken = true; if (p.waiting) p._reset(); } }, { name: "sock:gone" }); } }
  /** fault: the connection breaks now, for both sides */
  breakNow(code = "ECONNRESET") { for (const s of [this, this.peer]) if (s && !s.destroyed && !s.dead) { s._cutOut(); s.ready = 0; s.cut = true; } for (const s of [this, this.peer]) if (s && !s.destroyed && !s.dead) s._ev(this.sim.int("sock:brk", 0, 5), () => s._reset(code), "break"); }
  // ---- net.Socket surface
  setNoDelay() { return this; } setKeepAlive() { return this; } ref() { this.refd = true; return this; } unref() { this.refd = false; return this; }
  address() { return { address: "127.0.0.1", port: this.localPort, family: "IPv4" }; }
  destroySoon() { if (this.writable) this.end(); if (this.writableFinished) this.destroy(); else this.once("finish", this.destroy); }
  resetAndDestroy() { this._cutOut(); return this.destroy(err("reset", "ECONNRESET")); }
  getPeerCertificate() { return {}; }
  setTimeout(ms, cb) { this.timeout = ms; if (cb) { if (ms) this.once("timeout", cb); else this.removeListener("timeout", cb); } this._clearTimer(); this._touch(); return this; }
  _clearTimer() { if (this.idle) { this.sim.cancel(this.idle); this.idle = null; } }
  _touch() { if (this.idle) this._clearTimer(); if (this.timeout > 0 && !this.destroyed && !this.dead) { const fire = () => { this.idle = null; if (!this.destroyed) { this.sim.log(`${this.label} idle time-out`); this.emit("timeout"); } }; this.idle = this.proc ? this.proc.at(this.timeout, fire, "sock:idle", { daemon: true }) : this.sim.at(this.timeout, fire, { name: "sock:idle", daemon: true }); } }
}

/** two connected ends, not yet reported as connected */
export const socketPair = (a, b) => { a.peer = b; b.peer = a; return [a, b]; };
export const destroyAllSockets = (sim) => { for (const s of sim.sockets ?? []) { s.removeAllListeners("timeout"); try { s.destroy(); } catch { /* teardown */ } } };
