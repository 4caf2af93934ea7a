// A model of a Cloudflare Durable Object namespace: input gates, output gates,
// write coalescing, alarms (at-least-once with back-off), eviction and crash.
export class DurableHost {
  /** make(ctx, env, proc) -> instance ; the harness creates a Proc per incarnation */
  constructor(sim, { name, makeInstance, latency = [0, 3], faultFor = () => null }) {
    this.sim = sim; this.name = name; this.makeInstance = makeInstance; this.latency = latency; this.faultFor = faultFor;
    this.durable = new Map(); // survives crashes
    this.durableAlarm = null; // {t, tries}
    this.inst = null; this.epoch = 0; this.inFlight = 0;
    this.alarmEvent = null; this.alarmRunning = false;
    this.stats = { restarts: 0, alarms: 0 };
  }
  // ---------------------------------------------------------------- instance
  ensure() {
    if (this.inst) return this.inst;
    const inst = {
      epoch: ++this.epoch, cache: new Map([...this.durable].map(([k, v]) => [k, structuredClone(v)])),
      alarm: this.durableAlarm ? this.durableAlarm.t : null,
      pendingWrites: [], gate: 0, waiting: [], blocked: 0, inFlight: new Set(), flushScheduled: false, alive: true,
      group: null,
    };
    this.inst = inst;
    this.stats.restarts++;
    const created = this.makeInstance(this, this.makeCtx(inst));
    inst.proc = created.proc; inst.obj = created.obj;
    inst.proc.deliverGate = (fn) => this.deliver(inst, fn);
    return inst;
  }
  crash(reason) {
    const inst = this.inst; if (!inst) return;
    this.sim.log(`${this.name} ${reason} (lost ${inst.pendingWrites.length} unconfirmed writes)`);
    // a prefix of the unconfirmed writes may have reached disk
    const k = inst.pendingWrites.length ? this.sim.int("do:prefix", 0, inst.pendingWrites.length) : 0;
    for (let i = 0; i < k; i++) this.applyDurable(inst.pendingWrites[i]);
    inst.alive = false;
    this.inst = null;
    inst.proc.crash(reason);
    for (const cb of [...inst.inFlight]) cb(new Error("Durable Object reset because its code was updated or it crashed"));
    inst.inFlight.clear();
    if (this.alarmRunning) { this.alarmRunning = false; this.retryAlarm(); }
    this.armAlarm();
  }
  // ---------------------------------------------------------------- storage
  makeCtx(inst) {
    const sim = this.sim, host = this;
    // Input gate: while a storage operation is outstanding, nothing else is delivered.
    const op = (label, effect) => new Promise((resolve, reject) => {
      if (!inst.alive) return;
      const f = host.faultFor(label, inst);
      inst.gate++;
      inst.proc.at(sim.latency(`do:lat`, host.latency[0], host.latency[1]), () => {
        try {
          if (f) { sim.fault(`durable-storage:${label}`); throw new Error(`internal storage error (${label})`); }
          resolve(effect());
        } catch (e) { reject(e); }
        // the continuation runs in microtasks before the gate is re-examined
        sim.at(0, () => { inst.gate--; host.pump(inst); }, { name: "gate", pri: -1 });
      }, `do:${label}`);
    });
    const write = (w) => {
      // coalescing: writes issued without an intervening event are one atomic group
      if (inst.group && inst.group.at === sim.events) inst.group.writes.push(w);
      else { inst.group = { at: sim.events, writes: [w] }; inst.pendingWrites.push(inst.group); }
      host.scheduleFlush(inst);
    };
    const applyCache = (w) => {
      if (w.put) for (const [k, v] of w.put) inst.cache.set(k, v);
      if (w.del) for (const k of w.del) inst.cache.delete(k);
      if (w.all) inst.cache.clear();
      if (w.alarm !== undefined) inst.alarm = w.alarm;
    };
    const checkValue = (k, v) => {
      const size = Buffer.byteLength(JSON.stringify(v) ?? "");
      if (size > 2 * 1024 * 1024) throw new Error(`Values cannot be larger than 2097152 bytes (key ${k})`);
    };
    const mutate = (label, mk, ret) => {
      // effect is visible to this instance immediately (cache), durability is confirmed later
      let w; try { w = mk(); } catch (e) { return Promise.reject(e); }
      const f = host.faultFor(label, inst);
      if (f) { sim.fault(`durable-storage:${label}`); return op(`${label}!`, () => { throw new Error(`internal storage error (${label})`); }); }
      const r = ret ? ret() : undefined;
      applyCache(w); write(w);
      return op(label, () => r);
    };
    const list = (options = {}) => {
      let keys = [...inst.cache.keys()].sort();
      if (options.prefix) keys = keys.filter((k) => k.startsWith(options.prefix));
      if (options.start) keys = keys.filter((k) => k >= options.start);
      if (options.startAfter) keys = keys.filter((k) => k > options.startAfter);
      if (options.end) keys = keys.filter((k) => k < options.end);
      if (options.reverse) keys.reverse();
      if (options.limit !== undefined) keys = keys.slice(0, options.limit);
      return new Map(keys.map((k) => [k, structuredClone(inst.cache.get(k))]));
    };
    const storage = {
      get: (k) => op("get", () => (Array.isArray(k) ? new Map(k.filter((x) => inst.cache.has(x)).map((x) => [x, structuredClone(inst.cache.get(x))])) : structuredClone(inst.cache.get(k)))),
      put: (k, v) => mutate("put", () => {
        const entries = typeof k === "object" ? Object.entries(k) : [[k, v]];
        if (entries.length > 128) throw new Error("Maximum number of pairs is 128.");
        return { put: entries.map(([kk, vv]) => { checkValue(kk, vv); return [kk, structuredClone(vv)]; }) };
      }),
      delete: (k) => mutate("delete", () => {
        const keys = Array.isArray(k) ? k : [k];
        if (keys.length > 128) throw new Error("Maximum number of keys is 128.");
        return { del: keys };
      }, () => (Array.isArray(k) ? k.filter((x) => inst.cache.has(x)).length : inst.cache.has(k))),
      deleteAll: () => mutate("deleteAll", () => ({ all: true })),
      list: (o) => op("list", () => list(o)),
      getAlarm: () => op("getAlarm", () => inst.alarm),
      setAlarm: (t) => mutate("setAlarm", () => ({ alarm: typeof t === "number" ? t : t.getTime() })),
      deleteAlarm: () => mutate("deleteAlarm", () => ({ alarm: null })),
      transaction: async (fn) => fn(storage),
      sync: () => new Promise((r) => host.whenDurable(inst, r)),
    };
    return {
      storage, id: { toString: () => host.name, name: host.name },
      waitUntil() {},
      blockConcurrencyWhile: async (fn) => {
        inst.blocked++;
        try { return await fn(); } finally { inst.blocked--; sim.at(0, () => host.pump(inst), { name: "gate", pri: -1 }); }
      },
    };
  }
  applyDurable(group) {
    for (const w of group.writes) {
      if (w.put) for (const [k, v] of w.put) this.durable.set(k, structuredClone(v));
      if (w.del) for (const k of w.del) this.durable.delete(k);
      if (w.all) this.durable.clear();
      if (w.alarm !== undefined) { this.durableAlarm = w.alarm === null ? null : { t: w.alarm, tries: 0 }; }
    }
  }
  scheduleFlush(inst) {
    if (inst.flushScheduled) return;
    inst.flushScheduled = true;
    inst.proc.at(this.sim.latency("do:flush", 1, 12), () => {
      inst.flushScheduled = false;
      const n = inst.pendingWrites.length;
      for (const g of inst.pendingWrites.splice(0, n)) this.applyDurable(g);
      inst.group = null;
      this.armAlarm();
      const ws = inst.durableWaiters ?? []; inst.durableWaiters = [];
      for (const w of ws) w();
    }, "do:flush");
  }
  /** output gate */
  whenDurable(inst, fn) {
    if (inst.pendingWrites.length === 0) { fn(); return; }
    (inst.durableWaiters ??= []).push(() => this.whenDurable(inst, fn));
  }
  // ---------------------------------------------------------------- gates
  deliver(inst, fn, { incoming = false } = {}) {
    inst.waiting.push({ fn, incoming });
    this.pump(inst);
  }
  pump(inst) {
    if (!inst.alive || inst.pumping) return;
    inst.pumping = true;
    // one delivery per scheduler event so that its continuation can close the gate again
    this.sim.at(0, () => {
      inst.pumping = false;
      if (!inst.alive || inst.gate > 0) return;
      const i = inst.waiting.findIndex((w) => !(w.incoming && inst.blocked > 0));
      if (i < 0) return;
      const [w] = inst.waiting.splice(i, 1);
      w.fn();
      if (inst.waiting.length) this.sim.at(0, () => this.pump(inst), { name: "gate", pri: -1 });
    }, { name: "gate", pri: -1, proc: inst.proc });
  }
  // ---------------------------------------------------------------- requests
  /** request from outside; resolves with a Response or rejects when the object crashes */
  fetch(request, callerProc) {
    const sim = this.sim;
    return new Promise((resolve, reject) => {
      sim.at(sim.latency("do:net", 0, 8), () => {
        const inst = this.ensure();
        let over = false;
        const settle = (err, res) => {
          if (over) return; over = true; inst.inFlight.delete(settle);
          const go = () => { if (callerProc && !callerProc.alive) return; err ? reject(err) : resolve(res); };
          sim.at(sim.latency("do:net", 0, 8), go, { name: "do:reply", proc: callerProc ?? null });
        };
        inst.inFlight.add(settle);
        this.deliver(inst, () => {
          Promise.resolve().then(() => inst.obj.fetch(request)).then(
            (res) => { if (inst.alive) this.whenDurable(inst, () => settle(null, res)); },
            (e) => { if (inst.alive) this.whenDurable(inst, () => settle(e)); });
        }, { incoming: true });
      }, { name: "do:request" });
    });
  }
  // ---------------------------------------------------------------- alarms
  armAlarm() {
    if (this.alarmEvent) { this.sim.cancel(this.alarmEvent); this.alarmEvent = null; }
    if (!this.durableAlarm || this.alarmRunning) return;
    const delay = Math.max(0, this.durableAlarm.t - this.nowMs()) + this.sim.latency("do:alarmlate", 0, 60);
    this.alarmEvent = this.sim.at(delay, () => { this.alarmEvent = null; this.fireAlarm(); }, { name: `${this.name}:alarm` });
  }
  nowMs() { return this.epochBase + Math.floor(this.sim.now); }
  fireAlarm() {
    if (!this.durableAlarm || this.alarmRunning) return;
    const inst = this.ensure();
    this.alarmRunning = true; this.stats.alarms++;
    this.runningAlarm = { ...this.durableAlarm };
    this.deliver(inst, () => {
      // the alarm is consumed when its handler starts
      if (this.durableAlarm && this.durableAlarm.t === this.runningAlarm.t) this.durableAlarm = null;
      if (inst.alarm === this.runningAlarm.t) inst.alarm = null;
      Promise.resolve().then(() => inst.obj.alarm({ retryCount: this.runningAlarm.tries, isRetry: this.runningAlarm.tries > 0 })).then(
        () => { if (inst.alive) { this.alarmRunning = false; this.armAlarm(); } },
        (e) => { if (inst.alive) { this.sim.log(`${this.name} alarm threw ${e?.message}`); this.sim.probe("alarm-threw"); this.alarmRunning = false; this.retryAlarm(inst); this.armAlarm(); } });
    }, { incoming: true });
  }
  retryAlarm(inst) {
    const a = this.runningAlarm; if (!a) return;
    // at-least-once: retried with exponential back-off, up to 6 times, unless re-armed meanwhile
    if (this.durableAlarm) return;
    if (inst && inst.alarm !== null && inst.alarm !== undefined) return;
    if (a.tries >= 6) { this.sim.probe("alarm-given-up"); return; }
    this.durableAlarm = { t: this.nowMs() + 2000 * 2 ** a.tries, tries: a.tries + 1 };
    if (inst) inst.alarm = this.durableAlarm.t;
  }
}
