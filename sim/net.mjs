// Simulated fetch. A scenario supplies:
//   faultFor(req)  -> null | {kind:'refuse'|'lost'|'reset'|'stall'|'cut'|'slow'|..., delay}
//   handle(req)    -> {status, headers, body} (sync or async), called when the request arrives at the server
// Fault kinds:
//   refuse : connection error before the server sees the request
//   lost   : the server processes the request, the response is lost (connection error)
//   stall  : the server never answers (request never processed)
//   stallAfter : processed, but no answer ever arrives
//   cut    : response headers arrive, the body breaks off after some chunks
//   stallBody : response headers arrive, the body never completes
//   slow   : extra delay
const netError = (code) => {
  const cause = Object.assign(new Error(code === "ECONNREFUSED" ? "connect ECONNREFUSED" : `read ${code}`), { code, errno: -104, syscall: "read" });
  return Object.assign(new TypeError("fetch failed"), { cause });
};
export const chunkify = (sim, label, buf, maxChunks = 4) => {
  if (buf.length === 0) return [];
  const n = Math.min(buf.length, 1 + sim.int(label, 0, maxChunks - 1));
  const cuts = new Set();
  for (let i = 1; i < n; i++) cuts.add(Math.max(1, Math.floor((buf.length * i) / n)));
  const pts = [0, ...[...cuts].sort((a, b) => a - b), buf.length];
  const out = [];
  for (let i = 0; i + 1 < pts.length; i++) if (pts[i + 1] > pts[i]) out.push(buf.subarray(pts[i], pts[i + 1]));
  return out;
};
const NULL_BODY = new Set([101, 204, 205, 304]);

// undiciTimeouts: give up 300 s after sending without headers, or 300 s without body data, as Node's fetch does
export const simFetch = (proc, { faultFor = () => null, handle, name = "net", latency = [1, 40], chunks = 3, onOpen, onClose, undiciTimeouts = false }) => {
  const sim = proc.sim;
  return async function fetch(input, init = {}) {
    const req = input instanceof Request && (init === undefined || Object.keys(init).length === 0) ? input : new Request(input, init.body !== undefined && init.body !== null && typeof init.body === "object" && Symbol.asyncIterator in init.body && !(init.body instanceof ReadableStream) ? { ...init, duplex: "half" } : init);
    const signal = init?.signal ?? (input instanceof Request ? input.signal : undefined);
    if (signal?.aborted) throw signal.reason;
    const url = new URL(req.url);
    const info = { proc, method: req.method, url: req.url, host: url.host, path: url.pathname, query: url.searchParams, headers: req.headers, redirect: req.redirect, body: null, t: sim.now };
    onOpen?.(info);
    return new Promise((resolve, reject) => {
      let over = false, idle = null;
      const arm = (code) => { if (!undiciTimeouts) return; sim.cancel(idle); idle = over ? null : proc.at(300e3, () => { const e = netError(code); if (bodyCtl && !bodyCtl.done) { bodyCtl.done = true; try { bodyCtl.c.error(Object.assign(new TypeError("terminated"), { cause: e.cause })); } catch { /* closed */ } } fail(e); }, `${name}:${code}`); };
      const close = () => { if (!over) { over = true; sim.cancel(idle); signal?.removeEventListener?.("abort", onAbort); onClose?.(info); } };
      let bodyCtl = null;
      const onAbort = () => {
        sim.log(`${proc.name} fetch aborted ${info.method} ${info.path}`);
        if (bodyCtl && !bodyCtl.done) { bodyCtl.done = true; try { bodyCtl.c.error(signal.reason); } catch { /* closed */ } }
        close(); reject(signal.reason);
      };
      // undici's finalizer keeps the signal, and with it this closure, alive
      if (signal) { signal.addEventListener("abort", onAbort); (sim.cleanups ??= new Set()).add(() => signal.removeEventListener("abort", onAbort)); }
      const fail = (e) => { if (over) return; close(); reject(e); };
      (async () => {
        let body;
        try { body = req.body ? Buffer.from(await req.arrayBuffer()) : Buffer.alloc(0); } catch (e) { fail(e); return; }
        if (over) return;
        info.body = body;
        arm("UND_ERR_HEADERS_TIMEOUT");
        const f = faultFor(info);
        if (f) { sim.fault(`${name}:${f.kind}`); sim.log(`${proc.name} fault ${f.kind} on ${info.method} ${info.path}`); }
        const up = sim.latency(`lat:${name}`, latency[0], latency[1]) + (f?.kind === "slow" ? f.delay ?? 5000 : 0);
        if (f?.kind === "refuse") { proc.at(f.delay ?? up, () => fail(netError(f.code ?? "ECONNREFUSED")), `${name}:refused`); return; }
        if (f?.kind === "stall") return;
        proc.sim.at(up, async () => {
          // the server runs even if the client has gone (it may not know yet)
          let res;
          try { res = await handle(info, f); } catch (e) { res = { error: e }; }
          if (res === undefined || res === null) return; // never answers
          if (f?.kind === "stallAfter") return;
          if (f?.kind === "lost" || f?.kind === "reset") { proc.at(f.delay ?? 1, () => fail(netError(f.code ?? "ECONNRESET")), `${name}:reset`); return; }
          const down = (res.delay ?? 0) + sim.latency(`lat:${name}`, latency[0], latency[1]);
          proc.at(down, () => {
            if (over) return;
            if (res.error) { fail(res.error); return; }
            const status = res.status ?? 200;
            const buf = res.body === undefined || res.body === null ? Buffer.alloc(0) : Buffer.isBuffer(res.body) || res.body instanceof Uint8Array ? Buffer.from(res.body) : Buffer.from(typeof res.body === "string" ? res.body : JSON.stringify(res.body));
            const headers = new Headers(res.headers ?? {});
            if (typeof res.body === "object" && res.body !== null && !(res.body instanceof Uint8Array) && !headers.has("content-type")) headers.set("content-type", "application/json");
            if (NULL_BODY.has(status)) { close(); const r0 = new Response(null, { status, headers }); Object.defineProperty(r0, "url", { value: req.url }); resolve(r0); return; }
            const parts = chunkify(sim, `chunks:${name}`, buf, chunks);
            const stopAt = f?.kind === "cut" || f?.kind === "stallBody" ? Math.max(0, Math.min(parts.length - 1, f.after ?? 0)) : -1;
            const ctl = { done: false, c: null };
            const stream = new ReadableStream({
              start(c) { ctl.c = c; },
              cancel() { ctl.done = true; sim.log(`${proc.name} body cancelled ${info.path}`); close(); },
            });
            bodyCtl = ctl;
            arm("UND_ERR_BODY_TIMEOUT");
            const r = new Response(stream, { status, headers });
            Object.defineProperty(r, "url", { value: req.url });
            const step = (i) => {
              if (ctl.done) return;
              if (i === stopAt) {
                if (f.kind === "stallBody") return;
                ctl.done = true; ctl.c.error(netError("ECONNRESET")); close(); return;
              }
              if (i >= parts.length) { ctl.done = true; ctl.c.close(); close(); return; }
              ctl.c.enqueue(new Uint8Array(parts[i])); arm("UND_ERR_BODY_TIMEOUT");
              proc.at(i + 1 >= parts.length && stopAt < 0 ? 0 : sim.latency(`lat:${name}:body`, 0, latency[1]), () => step(i + 1), `${name}:body`);
            };
            resolve(r);
            if (parts.length === 0 && stopAt < 0) { ctl.done = true; ctl.c.close(); close(); } else proc.at(0, () => step(0), `${name}:body`);
          }, `${name}:response`);
        }, { name: `server:${name}` });
      })();
    });
  };
};
export { netError };
