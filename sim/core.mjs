// Discrete-event simulator: virtual time, seeded scheduling, fault choice
// streams, event log digest, simulated processes.
import { createHash } from "node:crypto";
import { AsyncResource, AsyncLocalStorage } from "node:async_hooks";
import { Choices } from "./rng.mjs";

const realSetImmediate = setImmediate;
export const drainMicrotasks = () => new Promise((r) => realSetImmediate(r));

export class Violation extends Error {
  constructor(kind, message, details) {
    super(message);
    this.name = "Violation";
    this.kind = kind;
    this.details = details;
  }
}

// 2026-01-15T10:00:00Z-ish base, so dates look plausible.
export const EPOCH = 1768471200000;

export class Sim {
  constructor({ seed, replay, verbose }) {
    this.seed = seed;
    this.choices = new Choices(seed, replay);
    this.now = 0;
    this.seq = 0;
    this.heap = [];
    this.live = 0; // non-daemon events queued
    this.events = 0;
    this.hash = createHash("sha1");
    this.trace = [];
    this.verbose = !!verbose;
    this.faults = {};
    this.probes = {};
    this.ifaces = new Set();
    this.violations = [];
    this.procs = [];
    this.current = null; // proc whose event is running
    this.unhandled = [];
    this.stopped = false;
    this.tieChoice = true;
    this.orderHash = 0;
    this.maxTrace = 4000;
    this.drainTurns = 0;
  }
  // ---- choices
  choose(label, n) { return this.choices.draw(label, n); }
  int(label, lo, hi) { return hi <= lo ? lo : lo + this.choices.draw(label, hi - lo + 1); }
  chance(label, p) {
    return this.choices.draw(label, 2, (u) => (u / 4294967296 < p ? 1 : 0)) === 1;
  }
  pick(label, arr) { return arr[this.choices.draw(label, arr.length)]; }
  /** weighted index; weights[0] should be the benign alternative */
  weighted(label, weights) {
    const total = weights.reduce((a, b) => a + b, 0);
    return this.choices.draw(label, weights.length, (u) => {
      let x = (u / 4294967296) * total;
      for (let i = 0; i < weights.length; i++) { x -= weights[i]; if (x < 0) return i; }
      return weights.length - 1;
    });
  }
  /** A latency in ms: mostly short, sometimes long. 0 -> lo. */
  latency(label, lo, hi) {
    const span = Math.max(0, Math.floor(hi - lo));
    if (span === 0) return lo;
    return lo + this.choices.draw(label, span + 1, (u) => {
      const x = u / 4294967296;
      return Math.min(span, Math.floor(span * x * x * x * 1.0001));
    });
  }
  shuffle(label, arr) {
    const a = arr.slice();
    for (let i = a.length - 1; i > 0; i--) {
      const j = i - this.choices.draw(label, i + 1);
      [a[i], a[j]] = [a[j], a[i]];
    }
    return a;
  }
  // ---- log
  log(line) {
    if (this.sealed) return; // the run is over: what its teardown does is not part of it
    const s = `${this.now}|${line}`;
    this.hash.update(s + "\n");
    if (this.verbose || this.trace.length < this.maxTrace) this.trace.push(s);
  }
  digest() { return this.hash.copy().digest("hex"); }
  fault(kind) { this.faults[kind] = (this.faults[kind] ?? 0) + 1; }
  probe(name, n = 1) { this.probes[name] = (this.probes[name] ?? 0) + n; }
  violate(kind, message, details) {
    this.log(`VIOLATION ${kind}: ${message}`);
    this.violations.push({ kind, message, details });
    this.stopped = true;
  }
  check(cond, kind, message, details) {
    if (!cond) this.violate(kind, typeof message === "function" ? message() : message, details);
    return cond;
  }
  // ---- events
  at(delay, fn, opts = {}) {
    const ev = {
      t: this.now + Math.max(0, delay), seq: ++this.seq, fn: AsyncResource.bind(fn),
      name: opts.name ?? "", proc: opts.proc ?? null, daemon: !!opts.daemon, cancelled: false,
      pri: opts.pri ?? 0,
    };
    if (!ev.daemon) this.live++;
    this.push(ev);
    return ev;
  }
  cancel(ev) {
    if (!ev || ev.cancelled || ev.fired) return;
    ev.cancelled = true;
    if (!ev.daemon) this.live--;
  }
  push(ev) {
    const h = this.heap; h.push(ev);
    let i = h.length - 1;
    while (i > 0) {
      const p = (i - 1) >> 1;
      if (less(h[i], h[p])) { [h[i], h[p]] = [h[p], h[i]]; i = p; } else break;
    }
  }
  pop() {
    const h = this.heap; if (h.length === 0) return null;
    const top = h[0], last = h.pop();
    if (h.length) {
      h[0] = last; let i = 0;
      for (;;) {
        const l = 2 * i + 1, r = l + 1; let m = i;
        if (l < h.length && less(h[l], h[m])) m = l;
        if (r < h.length && less(h[r], h[m])) m = r;
        if (m === i) break;
        [h[i], h[m]] = [h[m], h[i]]; i = m;
      }
    }
    return top;
  }
  /** Next event: earliest time; among ties a seeded pick. */
  next() {
    let e;
    do { e = this.pop(); } while (e && e.cancelled);
    if (!e) return null;
    if (!this.tieChoice) return e;
    const ties = [e];
    while (this.heap.length && this.heap[0].t === e.t && ties.length < 8) {
      const x = this.pop();
      if (!x.cancelled) ties.push(x);
    }
    if (ties.length === 1) return e;
    // timers of one process created in order fire in order: keep FIFO within
    // a (proc, "timer") class, choose only between the heads of each class.
    const heads = []; const seen = new Set();
    for (const x of ties) {
      const key = x.cls ?? `#${x.seq}`;
      if (!seen.has(key)) { seen.add(key); heads.push(x); }
    }
    const k = heads.length > 1 ? this.choose("tie", heads.length) : 0;
    const chosen = heads[k];
    for (const x of ties) if (x !== chosen) this.push(x);
    return chosen;
  }
  sleep(ms, opts) { return new Promise((r) => this.at(ms, r, opts)); }
  /**
   * Run `main` (harness coroutine) with the event loop until it settles, the
   * queue drains, or a bound is hit.
   * Returns 'done' | 'stuck' | 'time' | 'events' | 'violation'.
   */
  async run(main, { maxTime = 24 * 3600e3, maxEvents = 200000, after = "none" } = {}) {
    let settled = false, failure = null;
    const p = (async () => main())();
    p.then(() => { settled = true; }, (e) => { settled = true; failure = e; });
    await drainMicrotasks();
    let status = "done";
    while (!settled) {
      if (this.stopped) { status = "violation"; break; }
      if (this.live <= 0) {
        // only daemon events (background timers of a process) remain: they may still unblock main
        if (this.heap.length === 0) { status = "stuck"; break; }
      }
      const e = this.next();
      if (!e) { status = "stuck"; break; }
      if (e.t > maxTime) { status = "time"; this.push(e); break; }
      if (this.events >= maxEvents) { status = "events"; this.push(e); break; }
      await this.fire(e);
    }
    if (failure) {
      if (failure instanceof Violation) this.violate(failure.kind, failure.message, failure.details);
      else if (!this.stopped) throw failure;
    }
    if (this.stopped) status = "violation";
    return status;
  }
  async fire(e) {
    this.events++;
    e.fired = true;
    if (!e.daemon) this.live--;
    if (e.t > this.now) this.now = e.t;
    if (e.proc && !e.proc.alive) return;
    this.hash.update(`e${e.name}@${this.now}\n`);
    this.orderHash = (Math.imul(this.orderHash, 31) + hashName(e.name)) | 0;
    this.current = e.proc;
    try {
      e.fn();
    } catch (err) {
      if (err instanceof ProcExit) { /* simulated process.exit inside a callback */ }
      else if (err instanceof Violation) this.violate(err.kind, err.message, err.details);
      else if (e.proc) e.proc.uncaught(err);
      else throw err;
    }
    await drainMicrotasks();
    for (let i = this.drainTurns; i > 0; i--) await drainMicrotasks(); // real node:http/http2 code moves in loop turns
    if (this.onEvent && !this.stopped) this.onEvent();
    this.current = null;
  }
  /** Continue running events for at most `ms` of virtual time (or until idle). */
  async settle(ms, maxEvents = 100000) {
    const limit = this.now + ms; let n = 0;
    await drainMicrotasks();
    for (;;) {
      if (this.stopped) return "violation";
      const e = this.next();
      if (!e) return "idle";
      if (e.t > limit) { this.push(e); this.now = limit; return "time"; }
      if (++n > maxEvents) { this.push(e); return "events"; }
      await this.fire(e);
    }
  }
  noteUnhandled(reason) {
    const proc = this.current;
    this.log(`UNHANDLED ${proc?.name ?? "?"}: ${reason?.message ?? reason}`);
    this.unhandled.push({ proc, reason, t: this.now });
    if (proc?.onUnhandled) proc.onUnhandled(reason);
  }
}
const less = (a, b) => a.t < b.t || (a.t === b.t && (a.pri < b.pri || (a.pri === b.pri && a.seq < b.seq)));
const nameHashes = new Map();
const hashName = (s) => {
  let h = nameHashes.get(s);
  if (h === undefined) { h = 7; for (let i = 0; i < s.length; i++) h = (Math.imul(h, 31) + s.charCodeAt(i)) | 0; nameHashes.set(s, h); }
  return h;
};
export class ProcExit extends Error {
  constructor(code) { super(`simulated process.exit(${code})`); this.code = code; }
}
export { AsyncLocalStorage };
