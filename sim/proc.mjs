// A simulated process: its own global object, virtual clock, module registry
// and module state (a fresh evaluation of the bundle). Crashing it drops every
// pending event it owns.
import { EPOCH, ProcExit } from "./core.mjs";
import { EventEmitter } from "node:events";
import nodeCrypto from "node:crypto";
import { createRequire } from "node:module";
import vm from "node:vm";
import { webcrypto } from "node:crypto";
const realRequire = createRequire(import.meta.url);
const os_signals = realRequire("os").constants.signals;
const RealDate = Date;
const RealMath = Math;

const PURE_BUILTINS = new Set([
  "path", "util", "events", "async_hooks", "stream", "stream/promises", "url", "querystring",
  "assert", "string_decoder", "buffer", "stream/web", "util/types", "constants", "path/posix",
]);

export class Proc {
  constructor(sim, name, opts = {}) {
    this.sim = sim;
    this.name = name;
    this.alive = true;
    this.clockOffset = opts.clockOffset ?? 0;
    this.startedAt = sim.now;
    this.opts = opts;
    this.modules = new Map();
    this.factories = { ...(opts.modules ?? {}) };
    this.pid = opts.pid ?? 1000 + sim.procs.length;
    this.consoleLines = [];
    this.timers = new Set();
    this.exitCode = undefined;
    this.uncaughtErrors = [];
    sim.procs.push(this);
    this.G = makeGlobals(this);
  }
  nowMs() { return EPOCH + RealMath.floor(this.sim.now) + this.clockOffset; }
  /** schedule an event owned by this process */
  at(delay, fn, name, opts = {}) {
    return this.sim.at(delay, fn, { ...opts, name: `${this.name}:${name ?? ""}`, proc: this });
  }
  /** an I/O style completion: promise settled by a later event of this process */
  io(name, latency, effect) {
    return new Promise((resolve, reject) => {
      this.at(latency, () => {
        try { resolve(effect()); } catch (e) { reject(e); }
      }, name);
    });
  }
  crash(reason = "crash") {
    if (!this.alive) return;
    this.alive = false;
    this.sim.log(`${this.name} ${reason}`);
    for (const h of this.onCrash ?? []) h();
  }
  exit(code) {
    if (this.exitCode === undefined) this.exitCode = code ?? 0;
    this.sim.log(`${this.name} exit ${this.exitCode}`);
    this.crash("exited");
  }
  /** a signal arriving from outside: handlers run, otherwise the process dies without running exit hooks */
  signal(sig) {
    if (!this.alive) return;
    this.sim.log(`${this.name} receives ${sig}`);
    const p = this.G.process;
    if (sig !== "SIGKILL" && p.listenerCount(sig) > 0) { try { p.emit(sig, sig, os_signals[sig]); } catch (e) { if (!(e instanceof ProcExit)) this.uncaught(e); } } else { this.signalCode = sig; this.crash(`killed by ${sig}`); }
  }
  uncaught(err) {
    this.sim.log(`${this.name} UNCAUGHT ${err?.stack?.split("\n").slice(0, 3).join(" / ") ?? err}`);
    this.uncaughtErrors.push(err);
    if (this.onUncaught) this.onUncaught(err);
    else this.crash("uncaught");
  }
  /** timers still pending (referenced ones keep a real process alive) */
  activeTimers({ refOnly = true } = {}) {
    return [...this.timers].filter((t) => !refOnly || t._ref);
  }
  require(id) {
    const key = id.startsWith("node:") ? id.slice(5) : id;
    if (this.modules.has(key)) return this.modules.get(key);
    let m;
    if (this.factories[key]) m = this.factories[key](this);
    else if (BUILTIN_FACTORIES[key]) m = BUILTIN_FACTORIES[key](this);
    else if (PURE_BUILTINS.has(key)) m = realRequire(`node:${key}`);
    else throw new Error(`simulator: no seam for module "${id}"`);
    this.modules.set(key, m);
    return m;
  }
  /** evaluate a bundle in this process; returns its exports */
  load(script) {
    const fn = script.fn();
    const module = { exports: {} };
    fn((id) => this.require(id), module, module.exports, this.G);
    return module.exports;
  }
}

export class Script {
  constructor(code, filename) {
    const v = new vm.Script(
      `(function(require,module,exports,__simG){${code}\n})`, { filename });
    this.compiled = v.runInThisContext();
  }
  fn() { return this.compiled; }
}

const BUILTIN_FACTORIES = {
  os: (proc) => ({
    tmpdir: () => proc.opts.tmpdir ?? "/tmp", homedir: () => proc.opts.homedir ?? "/home/sim",
    platform: () => proc.opts.platform ?? "linux", arch: () => "x64", hostname: () => "simhost",
    cpus: () => Array.from({ length: proc.opts.cpus ?? 4 }, () => ({ model: "sim", speed: 1, times: { user: 1000, nice: 0, sys: 100, idle: 9000, irq: 0 } })), EOL: "\n", type: () => "Linux", release: () => "6.0", totalmem: () => 8e9,
    freemem: () => 4e9, userInfo: () => ({ username: "sim" }), networkInterfaces: () => ({}), constants: realRequire("os").constants,
    endianness: () => "LE", loadavg: () => [0, 0, 0],
  }),
  crypto: (proc) => ({
    ...nodeCrypto,
    randomBytes: (n) => { const b = Buffer.alloc(n); fillRandom(proc, b); return b; },
    randomUUID: () => uuid(proc),
    randomInt: (a, b) => (b === undefined ? proc.sim.int("rand", 0, a - 1) : proc.sim.int("rand", a, b - 1)),
    webcrypto: proc.G.crypto,
    getRandomValues: (a) => proc.G.crypto.getRandomValues(a),
  }),
  timers: (proc) => timersOf(proc),
  "timers/promises": (proc) => ({
    setTimeout: (ms, value, o) => new Promise((res, rej) => {
      const t = proc.G.setTimeout(() => res(value), ms);
      o?.signal?.addEventListener("abort", () => { proc.G.clearTimeout(t); rej(o.signal.reason); });
    }),
    setImmediate: (value) => new Promise((res) => proc.G.setImmediate(() => res(value))),
    setInterval: async function* (ms, value) { for (;;) { await new Promise((r) => proc.G.setTimeout(r, ms)); yield value; } },
  }),
  process: (proc) => proc.G.process,
  perf_hooks: (proc) => ({ performance: proc.G.performance }),
};
const timersOf = (proc) => ({
  setTimeout: proc.G.setTimeout, clearTimeout: proc.G.clearTimeout, setInterval: proc.G.setInterval,
  clearInterval: proc.G.clearInterval, setImmediate: proc.G.setImmediate, clearImmediate: proc.G.clearImmediate,
});

const randLabel = (proc) => `rand:${proc.randLabel ?? "p"}`;
export const fillRandom = (proc, view) => {
  const u8 = new Uint8Array(view.buffer, view.byteOffset, view.byteLength);
  // Entropy is a distinct-per-call counter mix: unique, deterministic, and not
  // recorded byte by byte (uniqueness must survive minimisation).
  const sim = proc.sim;
  sim.randCounter = (sim.randCounter ?? 0) + 1;
  const h = nodeCrypto.createHash("sha256").update(`${sim.seed}|${proc.randSalt ?? ""}|${sim.randCounter}`).digest();
  for (let i = 0; i < u8.length; i++) {
    if (i > 0 && i % 32 === 0) nodeCrypto.createHash("sha256").update(h).digest().copy(h);
    u8[i] = h[i % 32];
  }
  return view;
};
export const uuid = (proc) => {
  const b = Buffer.alloc(16); fillRandom(proc, b);
  b[6] = (b[6] & 0x0f) | 0x40; b[8] = (b[8] & 0x3f) | 0x80;
  const h = b.toString("hex");
  return `${h.slice(0, 8)}-${h.slice(8, 12)}-${h.slice(12, 16)}-${h.slice(16, 20)}-${h.slice(20)}`;
};
const randomFloat = (proc) => {
  const b = Buffer.alloc(8); fillRandom(proc, b);
  return b.readUInt32LE(0) / 4294967296;
};

const makeSubtle = () => ({
  digest: async (alg, data) => {
    const name = (typeof alg === "string" ? alg : alg.name).replace("-", "").toLowerCase();
    const buf = nodeCrypto.createHash(name).update(toBuf(data)).digest();
    return buf.buffer.slice(buf.byteOffset, buf.byteOffset + buf.length);
  },
  importKey: async (format, key, alg, ext, usages) => ({ __key: Buffer.from(toBuf(key)), algorithm: alg, type: "secret", usages }),
  sign: async (alg, key, data) => {
    const h = key.algorithm.hash?.name ?? key.algorithm.hash ?? "SHA-256";
    const buf = nodeCrypto.createHmac(h.replace("-", "").toLowerCase(), key.__key).update(toBuf(data)).digest();
    return buf.buffer.slice(buf.byteOffset, buf.byteOffset + buf.length);
  },
});
const toBuf = (d) => (d instanceof ArrayBuffer ? Buffer.from(d) : ArrayBuffer.isView(d) ? Buffer.from(d.buffer, d.byteOffset, d.byteLength) : Buffer.from(d));

const MAX_TIMEOUT = 2147483647;
const makeGlobals = (proc) => {
  const sim = proc.sim;
  const G = Object.create(globalThis);
  const own = (o) => { for (const k of Object.keys(o)) Object.defineProperty(G, k, { value: o[k], writable: true, configurable: true, enumerable: true }); };
  class SimTimeout {
    constructor(cb, ms, args, repeat) {
      let d = Number(ms); if (!(d >= 1)) d = 1; if (d > MAX_TIMEOUT) d = 1;
      this._d = Math.trunc(d); this._cb = cb; this._args = args; this._repeat = repeat; this._ref = true; this._dead = false;
      this.id = (proc.nextTimerId = (proc.nextTimerId ?? 0) + 1);
      this._born = sim.now;
      proc.timers.add(this);
      this._arm();
    }
    _arm() {
      // timers never fire early; under load they may fire a little late
      const late = proc.opts.timerJitter ? sim.latency("timerjit", 0, proc.opts.timerJitter) : 0;
      this._due = sim.now + this._d;
      this._ev = proc.at(this._d + late, () => this._fire(), "timer", { daemon: !this._ref, ...(late ? {} : { }) });
      this._ev.cls = late ? undefined : `${proc.name}:timer`;
    }
    _fire() {
      if (this._dead) return;
      if (this._repeat) this._arm(); else { this._dead = true; proc.timers.delete(this); }
      this._cb(...this._args);
    }
    refresh() { if (!this._dead) { sim.cancel(this._ev); this._arm(); } return this; }
    close() { clear(this); return this; }
    _setRef(v) { if (this._ref !== v) { this._ref = v; if (!this._dead && !this._ev.fired && !this._ev.cancelled) { this._ev.daemon = !v; sim.live += v ? 1 : -1; } } }
    ref() { this._setRef(true); return this; }
    unref() { this._setRef(false); return this; }
    hasRef() { return this._ref; }
    [Symbol.toPrimitive]() { return this.id; }
    [Symbol.dispose]() { clear(this); }
  }
  const byId = new Map();
  const clear = (t) => {
    if (t === undefined || t === null) return;
    if (typeof t === "number" || typeof t === "string") t = byId.get(Number(t));
    if (!t || t._dead || !(t instanceof SimTimeout)) return;
    t._dead = true; proc.timers.delete(t); sim.cancel(t._ev); byId.delete(t.id);
  };
  const mk = (cb, ms, args, rep) => {
    if (typeof cb !== "function") throw new TypeError('The "callback" argument must be of type function.');
    const t = new SimTimeout(cb, ms, args, rep); byId.set(t.id, t);
    return proc.opts.browserTimers ? t.id : t;
  };
  const setTimeout = (cb, ms, ...args) => mk(cb, ms, args, false);
  const setInterval = (cb, ms, ...args) => mk(cb, ms, args, true);
  const setImmediate = (cb, ...args) => {
    const im = { _ev: null, unref() { return im; }, ref() { return im; }, hasRef: () => true };
    im._ev = proc.at(0, () => cb(...args), "immediate"); im._ev.cls = `${proc.name}:immediate`;
    return im;
  };
  const clearImmediate = (im) => { if (im?._ev) sim.cancel(im._ev); };
  Object.defineProperty(setTimeout, Symbol.for("nodejs.util.promisify.custom"), { value: (ms, v) => new Promise((r) => setTimeout(() => r(v), ms)) });

  const SimDate = function Date(...a) {
    if (!new.target) return new RealDate(proc.nowMs()).toString();
    const d = a.length === 0 ? new RealDate(proc.nowMs()) : new RealDate(...a);
    if (new.target !== SimDate) Object.setPrototypeOf(d, new.target.prototype);
    return d;
  };
  SimDate.prototype = RealDate.prototype;
  Object.defineProperties(SimDate, {
    now: { value: () => proc.nowMs(), writable: true, configurable: true },
    parse: { value: RealDate.parse, writable: true, configurable: true }, UTC: { value: RealDate.UTC, writable: true, configurable: true },
    length: { value: 7 },
  });
  const SimMath = Object.create(RealMath);
  for (const k of Object.getOwnPropertyNames(RealMath)) Object.defineProperty(SimMath, k, Object.getOwnPropertyDescriptor(RealMath, k));
  SimMath.random = () => randomFloat(proc);
  const perf = {
    now: () => sim.now - proc.startedAt + 10, timeOrigin: EPOCH + proc.startedAt + proc.clockOffset,
    mark() {}, measure() {}, getEntriesByType: () => [], getEntriesByName: () => [], toJSON() { return {}; },
  };
  const crypto = {
    getRandomValues: (v) => fillRandom(proc, v), randomUUID: () => uuid(proc), subtle: makeSubtle(),
  };
  const lines = proc.consoleLines;
  const logAt = (lvl) => (...args) => {
    const s = args.map((a) => (typeof a === "string" ? a : a instanceof Error ? (a.message ?? String(a)) : safeJson(a))).join(" ");
    if (lines.length < 500) lines.push(`${lvl} ${s}`);
    sim.log(`${proc.name} console.${lvl} ${s.slice(0, 200)}`);
  };
  const console = { log: logAt("log"), info: logAt("info"), warn: logAt("warn"), error: logAt("error"), debug: logAt("debug"), trace: logAt("trace"), dir: logAt("dir"), table: logAt("table"), group() {}, groupEnd() {}, time() {}, timeEnd() {} };

  const pe = new EventEmitter(); pe.setMaxListeners(0);
  const mkStream = (n) => { const e = new EventEmitter(); Object.assign(e, { write: (s, enc, cb) => { logAt(n)(String(s)); const f = typeof enc === "function" ? enc : cb; if (f) f(); return true; }, isTTY: !!proc.opts.tty, columns: 80, fd: n === "stdout" ? 1 : 2, end() {}, cork() {}, uncork() {} }); return e; };
  const process_ = Object.assign(pe, {
    env: { ...(proc.opts.env ?? {}) }, argv: proc.opts.argv ?? ["node", "sim"], execArgv: [], execPath: "/usr/bin/node",
    platform: proc.opts.platform ?? "linux", arch: "x64", pid: proc.pid, ppid: 1, version: "v22.0.0", versions: { node: "22.0.0" },
    cwd: () => proc.opts.cwd ?? "/work", chdir: (d) => { proc.opts.cwd = d; }, exitCode: undefined,
    exit: (c) => { const code = c ?? process_.exitCode ?? 0; if (proc.alive && !proc.exiting) { proc.exiting = true; try { process_.emit("exit", code); } catch (e) { proc.uncaughtErrors.push(e); } } proc.exit(code); throw new ProcExit(code); },
    abort: () => { proc.exit(134); throw new ProcExit(134); },
    nextTick: (fn, ...a) => process.nextTick(fn, ...a), uptime: () => (sim.now - proc.startedAt) / 1000,
    hrtime: Object.assign((p) => { const t = sim.now * 1e6; const s = Math.floor(t / 1e9), n = Math.floor(t % 1e9); return p ? [s - p[0] - (n < p[1] ? 1 : 0), (n - p[1] + 1e9) % 1e9] : [s, n]; }, { bigint: () => BigInt(Math.floor(sim.now * 1e6)) }),
    memoryUsage: Object.assign(() => ({ rss: 1e8, heapTotal: 5e7, heapUsed: 4e7, external: 0, arrayBuffers: 0 }), { rss: () => 1e8 }),
    stdout: mkStream("stdout"), stderr: mkStream("stderr"), stdin: Object.assign(new EventEmitter(), { isTTY: !!proc.opts.tty, fd: 0, setRawMode() {}, resume() {}, pause() {}, unref() {}, setEncoding() {} }),
    kill: (pid, sig) => { if (proc.opts.kill) return proc.opts.kill(pid, sig, proc); throw Object.assign(new Error("kill ESRCH"), { code: "ESRCH" }); },
    umask: () => 0o22, getuid: () => 1000, geteuid: () => 1000, title: "node", emitWarning() {}, features: {}, release: { name: "node" }, config: {}, binding() { throw new Error("no"); },
  });
  const SimAbortSignal = new Proxy(AbortSignal, {
    get(t, k) {
      if (k === "timeout") return (ms) => {
        const c = new AbortController();
        const tm = setTimeout(() => c.abort(new DOMException("The operation was aborted due to timeout", "TimeoutError")), ms);
        tm.unref?.();
        return c.signal;
      };
      return Reflect.get(t, k, t);
    },
  });
  own({ setTimeout, clearTimeout: clear, setInterval, clearInterval: clear, setImmediate, clearImmediate,
    Date: SimDate, Math: SimMath, performance: perf, crypto, console, process: process_, AbortSignal: SimAbortSignal,
    fetch: (...a) => { if (!proc.opts.fetch) throw new TypeError("fetch failed: no simulated network"); return proc.opts.fetch(...a); },
    queueMicrotask: (f) => queueMicrotask(f), navigator: proc.opts.navigator, localStorage: undefined, WebSocket: undefined, EventSource: undefined,
    ...(proc.opts.globals ?? {}) });
  own({ globalThis: G, global: G, self: proc.opts.browser ? G : undefined, window: proc.opts.browser ? G : undefined });
  if (!proc.opts.browser) { Object.defineProperty(G, "document", { value: undefined, writable: true, configurable: true }); }
  return G;
};
const safeJson = (a) => { try { return JSON.stringify(a) ?? String(a); } catch { return String(a); } };
export const GLOBAL_NAMES = [
  "setTimeout", "clearTimeout", "setInterval", "clearInterval", "setImmediate", "clearImmediate", "Date", "Math",
  "performance", "crypto", "console", "process", "AbortSignal", "fetch", "globalThis", "global", "window", "document",
  "navigator", "localStorage", "WebSocket", "self", "Response", "Request", "Headers", "XMLHttpRequest",
];
