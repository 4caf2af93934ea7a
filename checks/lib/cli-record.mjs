// Harness for `meticulous record backend`: the CLI process, the operating
// system it spawns processes on, and the recording (sidecar) process.
import { EventEmitter } from "node:events";
import { bundle } from "../../sim/bundle.mjs";
import { Disk } from "../../sim/fs.mjs";
import { realPackages } from "../../sim/npm.mjs";
import { mkProc } from "./downloads.mjs";

export const RECORD_META = {
  real: ["packages/cli/src/commands/record/backend*.ts", "packages/cli/src/command-utils/sentry.utils.ts", "packages/downloading-helpers/src (fetchAsset)", "packages/client/src", "packages/common/src"],
  stubs: ["operating system processes, signals, ports: simulated", "recording process and dev command: scenario models", "fetch, axios: simulated network", "readline, chalk, loglevel, @sentry/node, yargs: trivial"],
  assumptions: ["POSIX signal semantics; a process cannot survive SIGKILL", "the terminal is not closed (SIGHUP) while recording"],
};
let built;
export const buildRecordBundle = async () => (built ??= { cli: (await bundle({ rec: "packages/cli/src/commands/record/backend.command.ts" }, { real: realPackages() })).code });

class Os {
  constructor(sim) { this.sim = sim; this.procs = new Map(); this.ports = new Map(); this.nextPid = 4000; this.spawned = []; this.seq = 40000; }
  /** kind: "sidecar" | "dev"; model(osProc) drives it */
  spawn(owner, file, args, opts, model, fail) {
    const sim = this.sim; const child = new EventEmitter(); child.setMaxListeners(0);
    Object.assign(child, { pid: undefined, exitCode: null, signalCode: null, killed: false, spawnfile: file, spawnargs: [file, ...args], stdout: null, stderr: null, stdin: null, unref() {}, ref() {}, connected: false });
    const emit = (name, ...a) => owner.at(0, () => child.emit(name, ...a), `child:${name}`);
    if (fail?.sync) { sim.fault(`spawn:${fail.code}`); throw Object.assign(new Error(`spawn ${fail.code}`), { code: fail.code, errno: -fail.errno, syscall: "spawn" }); }
    if (opts.stdio !== "inherit" && !["EMFILE", "ENFILE"].includes(fail?.code)) { child.stdout = new EventEmitter(); child.stderr = new EventEmitter(); }
    if (fail) {
      sim.fault(`spawn:${fail.code}`);
      child.kill = () => false;
      // as in node: exitCode is the negative errno, "error" but no "exit" is emitted
      owner.at(0, () => { child.exitCode = -fail.errno; child.emit("error", Object.assign(new Error(`spawn ${file} ${fail.code}`), { code: fail.code, errno: -fail.errno, syscall: `spawn ${file}`, path: file })); child.emit("close", child.exitCode, null); }, "child:error");
      return child;
    }
    const pid = this.nextPid++; child.pid = pid;
    const p = { pid, file, args, opts, env: { ...opts.env }, child, alive: true, bornAt: sim.now, diedAt: null, signals: [], ports: new Set(), onSignal: {}, onDeath: [], detached: !!opts.detached, parent: owner };
    p.die = (code, signal = null) => {
      if (!p.alive) return;
      p.alive = false; p.diedAt = sim.now; p.code = code; p.signal = signal; sim.log(`os: ${p.name} (pid ${pid}) ends ${signal ?? code}`);
      for (const port of p.ports) this.ports.delete(port);
      for (const f of p.onDeath) f();
      // the parent learns of it when its event loop handles SIGCHLD
      owner.at(sim.latency("lat:sigchld", 0, 4), () => { child.exitCode = signal ? null : code; child.signalCode = signal; child.emit("exit", child.exitCode, signal); owner.at(0, () => child.emit("close", child.exitCode, signal), "child:close"); }, "child:exit");
    };
    p.recv = (sig, from) => {
      if (!p.alive) return; p.signals.push({ sig, t: sim.now, from }); sim.log(`os: ${p.name} (pid ${pid}) receives ${sig} from ${from}`);
      if (sig === "SIGKILL") { p.die(null, "SIGKILL"); return; }
      if (p.onSignal[sig]) p.onSignal[sig](); else p.die(null, sig);
    };
    p.after = (ms, fn) => sim.at(ms, () => { if (p.alive) fn(); }, { name: `os:${p.name}` });
    p.out = (line) => { if (owner.alive && child.stdout) owner.at(1, () => child.stdout.emit("data", line + "\n"), "child:out"); };
    p.err = (line) => { if (owner.alive && child.stderr) owner.at(1, () => child.stderr.emit("data", line + "\n"), "child:err"); };
    child.kill = (sig = "SIGTERM") => { if (child.exitCode !== null || child.signalCode !== null) return false; if (!p.alive) return true; child.killed = true; sim.at(0, () => p.recv(sig, "cli"), { name: "os:signal" }); return true; };
    this.procs.set(pid, p); this.spawned.push(p); model(p);
    owner.at(0, () => child.emit("spawn"), "child:spawn");
    return child;
  }
  listen(port, owner) { if (port === 0) { do port = this.seq++; while (this.ports.has(port)); } if (this.ports.has(port)) return null; this.ports.set(port, owner); return port; }
}

const netModule = (proc, os, sim) => ({
  createServer: () => {
    const s = new EventEmitter(); let port = null;
    s.listen = (want, host, cb) => { if (typeof host === "function") cb = host; proc.at(sim.latency("lat:listen", 0, 2), () => { const got = os.listen(want, { kind: "probe" }); if (got === null) { s.emit("error", Object.assign(new Error(`listen EADDRINUSE: address already in use 127.0.0.1:${want}`), { code: "EADDRINUSE" })); return; } port = got; cb?.(); s.emit("listening"); }, "listen"); return s; };
    s.address = () => (port === null ? null : { port, address: "127.0.0.1", family: "IPv4" });
    s.close = (cb) => { os.ports.delete(port); port = null; proc.at(0, () => cb?.(), "close"); return s; };
    return s;
  },
});
const readlineModule = () => ({ createInterface: ({ input }) => { const e = new EventEmitter(); let buf = ""; input.on("data", (d) => { buf += d; let i; while ((i = buf.indexOf("\n")) >= 0) { e.emit("line", buf.slice(0, i)); buf = buf.slice(i + 1); } }); e.close = () => {}; return e; } });

const refused = () => Object.assign(new TypeError("fetch failed"), { cause: Object.assign(new Error("connect ECONNREFUSED"), { code: "ECONNREFUSED" }) });
const reset = () => Object.assign(new TypeError("fetch failed"), { cause: Object.assign(new Error("other side closed"), { code: "UND_ERR_SOCKET" }) });
/** loopback HTTP to processes of the simulated operating system */
const loopback = (proc, os, sim) => (url, init) => new Promise((resolve, reject) => {
  const u = new URL(url); const signal = init?.signal; let over = false;
  const end = (f) => { if (!over) { over = true; signal?.removeEventListener("abort", onAbort); f(); } };
  const onAbort = () => end(() => reject(signal.reason)); if (signal?.aborted) { reject(signal.reason); return; } signal?.addEventListener("abort", onAbort);
  sim.at(sim.latency("lat:lo", 0, 2), () => {
    const o = os.ports.get(Number(u.port));
    if (!o || o.kind === "probe") { proc.at(0, () => end(() => reject(refused())), "lo:refused"); return; }
    const back = (status, body = "{}") => proc.at(sim.latency("lat:lo", 0, 5), () => end(() => resolve(new Response(body, { status }))), "lo:answer");
    const broken = () => proc.at(sim.latency("lat:lo", 0, 2), () => end(() => reject(reset())), "lo:reset");
    o.request({ path: u.pathname, method: init?.method ?? "GET", back, broken });
  }, { name: "lo" });
});

const FATAL = { EAGAIN: 11, ENOENT: 2, EMFILE: 24, ENOMEM: 12 };
export const runRecord = async (sim, { scripts }) => {
  const K = sim.prop; const disk = new Disk(sim); const os = new Os(sim);
  const wrapped = sim.chance("w:wrapped", 0.85);
  const calm = sim.chance("w:calm", 0.35);
  const apiTok = sim.chance("w:api", 0.3); const netp = calm ? 0 : sim.pick("w:netp", [0, 0, 0.1, 0.6]);
  const port = sim.pick("w:port", [9670, 9670, 0, 8123]); if (sim.chance("w:busy", 0.2) && port) os.listen(port, { kind: "foreign", request: (r) => (sim.chance("w:foreignOk", 0.5) ? r.back(sim.pick("w:fst", [200, 404])) : r.broken()) });
  const inject = sim.chance("w:inject", 0.8); const devArgv = sim.pick("w:dev", [["npx", "wrangler", "dev", "--port", "8787"], ["npx", "wrangler", "pages", "dev", "."], ["npm", "run", "dev"], ["wrangler", "dev", "--", "x"]]);
  const S = { sidecars: [], dev: null, captured: 0, stored: 0, spawnFails: 0, healthySeen: [] };
  // ---- the recording process
  const sidecarModel = (p) => {
    const n = S.sidecars.push(p); p.name = `sidecar${n}`; p.buffer = 0; p.flushes = []; p.healthy = false; p.lost = 0; p.port = Number(p.env.METICULOUS_SIDECAR_PORT);
    const w = calm ? { start: sim.pick("w:start", [60, 300, 900]), die: null, health: "ok", flush: sim.pick("w:flush", [5, 400, 3000]), term: sim.pick("w:term", [3, 200, 2000]) }
      : { start: sim.pick("w:start", [60, 300, 300, 900, 4000, 14000, 15500, Infinity]), die: sim.pick("w:die", [null, null, "startup", "afterHealth", "afterHealth", "later", "later", "duringFlush"]), health: sim.pick("w:health", ["ok", "ok", "ok", "ok", "503", "stall", "flaky"]), flush: sim.pick("w:flush", [5, 400, 3000, 9900, 12000, "500", "hang"]), term: sim.pick("w:term", [3, 200, 2000, 4900, 6000, "ignore", "default"]) };
    p.w = w; const dieNow = () => { const k = sim.pick("w:dk", ["0", "1", "SIGSEGV", "SIGKILL"]); if (!p.alive) return; sim.fault("sidecar:death"); p.spontaneous = true; p.err("fatal: it broke"); p.lost += p.buffer; k.startsWith("SIG") ? p.die(null, k) : p.die(Number(k)); };
    const pend = new Set(); p.onDeath.push(() => { for (const b of pend) b(); });
    const hold = (ms, r, f) => { let off = false; const b = () => { if (!off) r.broken(); }; pend.add(b); if (ms === "hang") return; p.after(ms, () => { off = true; pend.delete(b); f(); }); };
    p.request = (r) => {
      if (r.path === "/v1/health") {
        const st = w.health === "503" ? 503 : w.health === "flaky" ? sim.pick("w:hst", [200, 500, 200]) : 200;
        if (w.health === "stall" && sim.chance("w:hstall", 0.8)) { hold("hang", r); return; }
        hold(sim.latency("lat:health", 0, 20), r, () => { r.back(st); if (st === 200) { p.healthy = true; if (w.die === "afterHealth" && !p.dying) { p.dying = true; p.after(sim.pick("w:ahd", [0, 1, 2, 3, 5, 50]), dieNow); } else if (w.die === "later" && !p.dying) { p.dying = true; p.after(sim.int("w:later", 1, 60e3), dieNow); } } });
      } else if (r.path === "/v1/flush" && r.method === "POST") {
        const e = { t: sim.now, done: null }; p.flushes.push(e); const amount = p.buffer;
        if (w.die === "duringFlush") { p.after(sim.int("w:df", 0, 300), dieNow); hold("hang", r); return; }
        if (w.flush === "hang") { sim.fault("flush:hang"); hold("hang", r); return; }
        hold(w.flush === "500" ? 5 : w.flush, r, () => { e.done = sim.now; if (w.flush === "500") { r.back(500); return; } p.buffer -= amount; S.stored += amount; r.back(200); });
      } else if (r.path === "/capture") { p.buffer++; r.back(202); } else r.back(404);
    };
    p.onSignal.SIGINT = w.term === "default" ? undefined : () => p.onSignal.SIGTERM();
    p.onSignal.SIGTERM = w.term === "default" ? undefined : () => { if (w.term === "ignore" || p.ending) return; p.ending = true; p.after(w.term, () => { S.stored += p.buffer; p.buffer = 0; p.die(0); }); };
    for (const k of ["SIGINT", "SIGTERM"]) if (!p.onSignal[k]) delete p.onSignal[k];
    if (w.die === "startup") p.after(sim.int("w:ds", 0, w.start === Infinity ? 5000 : w.start), dieNow);
    if (w.start !== Infinity) p.after(w.start, () => { if (os.listen(p.port, p) === null) { p.err(`listen EADDRINUSE 127.0.0.1:${p.port}`); p.die(1); return; } p.ports.add(p.port); p.listening = sim.now; p.out(`listening on ${p.port}`); });
  };
  // ---- the dev command
  const devPlan = { fail: sim.chance("w:devFail", calm ? 0 : 0.06) ? "ENOENT" : null, end: sim.pick("w:dend", ["short", "mid", "mid", "never"]), code: sim.pick("w:dcode", [0, 0, 1, 3, 130, "SIGSEGV"]), onSig: sim.pick("w:dsig", [[5, 0], [5, 130], [3000, 0], [9000, 2], "ignore", "default"]) };
  const devModel = (p) => {
    S.dev = p; p.name = "dev"; const fin = (c) => (typeof c === "string" ? p.die(null, c) : p.die(c));
    if (devPlan.end !== "never") p.after(devPlan.end === "short" ? sim.int("w:dt", 0, 3000) : sim.int("w:dt", 3000, 60e3), () => fin(devPlan.code));
    const h = () => { if (devPlan.onSig === "ignore" || p.ending) return; p.ending = true; p.after(devPlan.onSig[0], () => fin(devPlan.onSig[1])); };
    if (devPlan.onSig !== "default") { p.onSignal.SIGINT = h; p.onSignal.SIGTERM = h; }
    // the dev server sends captures to the URL it was given, until it ends
    const url = p.env.METICULOUS_SIDECAR_URL; const tick = () => { if (!p.alive) return; const o = url && os.ports.get(Number(new URL(url).port)); if (o?.request) { S.captured++; o.request({ path: "/capture", method: "POST", back() {}, broken() {} }); } p.after(sim.pick("w:tick", [500, 2000]), tick); };
    if (url) p.after(sim.int("w:ft", 1, 500), tick);
  };
  const disturbedNet = { n: 0 };
  const faultFor = () => { if (!netp || !sim.chance("f:net", netp)) return null; disturbedNet.n++; return sim.pick("f:netk", [{ kind: "status", status: 503 }, { kind: "refuse" }, { kind: "stall" }, { kind: "cut", after: 0 }, { kind: "status", status: 404 }]); };
  const noProject = sim.chance("w:noproj", 0.1);
  const handle = (info, f) => {
    if (f?.kind === "status") return { status: f.status, body: "no" };
    if (info.path.endsWith("sidecar.bundle.js")) return { status: 200, body: info.method === "HEAD" ? "" : "bundle();", headers: { etag: '"v1"', "content-length": "9" } };
    if (/projects\/token-info|projects/.test(info.path)) return { status: 200, headers: { "content-type": "application/json" }, body: JSON.stringify(noProject ? null : { id: "p", name: "proj", recordingToken: sim.pick("w:rt", ["rt", "rt", null]), organization: { name: "org" } }) };
    return { status: 404, body: "no" };
  };
  const argv = ["node", "meticulous", "record", "backend", ...(wrapped ? ["--", ...devArgv] : [])];
  const proc = mkProc(sim, disk, "cli", { handle, faultFor }, { argv, env: { METICULOUS_DIR: "/data", PATH: "/bin", METICULOUS_IS_CLOUD_REPLAY: "true" },
    childProcess: { spawn: (file, args, opts) => {
      const isSide = file === "/usr/bin/node";
      if (isSide) { const fail = !calm && sim.chance("f:spawn", 0.08) ? sim.pick("f:spawnk", ["EAGAIN", "ENOENT", "EMFILE", "ENOMEM"]) : null; if (fail) S.spawnFails++; if (!fail) { sim.check(opts.env.METICULOUS_RECORDING_TOKEN === (apiTok ? "rt" : "tok") && args[0]?.endsWith(".mjs") | args[0]?.endsWith(".cjs") | args[0]?.endsWith(".js"), `${K}.sidecar-setup`, () => `spawned ${args} with token ${opts.env.METICULOUS_RECORDING_TOKEN}`); }
        return os.spawn(proc, file, args, opts, sidecarModel, fail && { code: fail, errno: FATAL[fail], sync: fail === "ENOMEM" }); }
      S.devSpawns = (S.devSpawns ?? 0) + 1; S.devAt = sim.now; S.devArgv = [file, ...args]; S.devEnv = opts.env;
      return os.spawn(proc, file, args, opts, devModel, devPlan.fail && { code: devPlan.fail, errno: 2 });
    } } });
  Object.assign(proc.factories, { net: () => netModule(proc, os, sim), readline: readlineModule });
  const api = proc.opts.fetch; const lo = loopback(proc, os, sim); proc.opts.fetch = (u, i) => (String(u?.url ?? u).startsWith("http://127.0.0.1:") ? lo(String(u?.url ?? u), i) : api(u, i));
  // ---- the user
  const signals = []; const nSig = sim.pick("w:nsig", calm ? [0, 1, 1] : [0, 1, 1, 2, 3]);
  let tSig = sim.pick("w:sigAt", [sim.int("w:sa", 0, 1500), sim.int("w:sb", 0, 20e3), sim.int("w:sc", 5e3, 70e3), "onExit"]);
  const press = (kind) => { if (!proc.alive) return; signals.push({ kind, t: sim.now, devAlive: !!S.dev?.alive, devSpawned: !!S.devSpawns }); sim.log(`user: ${kind}`); sim.probe(`sig:${kind}`); const tty = kind === "ctrl-c"; if (tty) for (const p of os.spawned) if (!p.detached) p.recv("SIGINT", "tty"); proc.signal(tty ? "SIGINT" : "SIGTERM"); };
  const kind = sim.pick("w:sk", ["ctrl-c", "ctrl-c", "kill"]);
  if (typeof tSig === "number") for (let i = 0; i < nSig; i++) { sim.at(tSig, () => press(kind), { name: "user" }); tSig += sim.pick("w:sgap", [30, 800, 6000, 11000]); }
  // whatever happens, the session ends: after 80 s the user presses Ctrl-C, and if the dev command ignores it, it is killed by the forwarded signal
  sim.at(80e3, () => press("ctrl-c"), { name: "user" });
  const m = proc.load(scripts.cli); const started = sim.now; let rej = null;
  const opts = { recordingToken: apiTok ? undefined : "tok", apiToken: apiTok ? "api" : undefined, port, exportMode: sim.pick("w:em", ["s3", "local"]), localOutputDir: undefined, injectSidecarVar: inject, devCommand: wrapped ? devArgv : [] };
  proc.at(0, () => { m.rec.recordBackendCommand.handler(opts).catch((e) => { if (e?.constructor?.name !== "ProcExit") rej = e; }); }, "start");
  const logHas = (re) => proc.consoleLines.filter((l) => re.test(l));
  // invariant: a recording that has died for good is announced
  const announced = () => logHas(/recording has stopped/).length;
  let cliEnd = null; (proc.onCrash ??= []).push(() => { cliEnd = sim.now; });
  const supervised = []; const watch = () => { if (!proc.alive) return; sim.at(1000, watch, { name: "watch" }); const live = os.spawned.some((p) => p.name.startsWith("sidecar") && p.alive); if (live || !S.devSpawns && wrapped || !S.sidecars.length) { supervised.length = 0; return; } supervised.push(sim.now); const wired = wrapped ? S.devEnv?.METICULOUS_SIDECAR_URL : logHas(/sidecar running at/).length; if (wired && supervised.length > 3 && S.dev?.alive !== false) sim.check(announced() > 0, `${K}.silent-death`, () => `no recording process has been running for ${sim.now - supervised[0]} ms and nothing was said`); };
  sim.at(1000, watch, { name: "watch" });
  const st = await sim.run(async () => { while (proc.alive && sim.now < 900e3) await sim.sleep(500); }, { maxTime: 1000e3, maxEvents: 60000 });
  if (sim.stopped) return { sample: {} };
  await sim.settle(20e3);
  if (sim.stopped) return { sample: {} };
  const D = S.dev; const uncaught = proc.uncaughtErrors[0] ?? rej;
  sim.check(!uncaught && sim.unhandled.length === 0, `${K}.crash`, () => `the command crashed: ${uncaught?.stack?.split("\n").slice(0, 2).join(" ") ?? sim.unhandled[0]?.reason}`);
  const net = netp ? 4 * 70e3 * 3 + 60e3 : 2e3;
  const devFailed = devPlan.fail && S.devSpawns; const firstSig = signals[0];
  sim.check(!proc.alive, `${K}.hang`, () => `the command is still running after ${sim.now} ms`);
  // nothing is left behind
  for (const p of os.spawned) sim.check(!p.alive, `${K}.orphan`, () => `${p.name} (pid ${p.pid}) is still running although the command ended at ${cliEnd} (${proc.exitCode ?? proc.signalCode}); user ${signals.map((s) => `${s.kind}@${s.t}`)}`);
  for (const p of os.spawned) if (!p.alive && cliEnd !== null) sim.check(p.diedAt <= cliEnd + 10e3, `${K}.orphan`, () => `${p.name} outlived the command by ${p.diedAt - cliEnd} ms`);
  sim.check(S.sidecars.length + S.spawnFails <= 2, `${K}.restarts`, () => `the recording process was started ${S.sidecars.length + S.spawnFails} times`);
  sim.check(announced() <= 1, `${K}.announce`, () => `announced ${announced()} times`);
  const interrupted = firstSig && (!S.devSpawns || firstSig.t <= S.devAt) && wrapped;
  if (wrapped) {
    sim.check((S.devSpawns ?? 0) <= 1, `${K}.dev`, () => `dev command started ${S.devSpawns} times`);
    if (!S.devSpawns) sim.check(interrupted, `${K}.dev`, () => `the dev command was never started (exit ${proc.exitCode})`);
    else {
      sim.check(S.devAt - started <= net + 16.5e3 + 1e3, `${K}.blocked`, () => `the dev command was started after ${S.devAt - started} ms`);
      const url = S.devEnv.METICULOUS_SIDECAR_URL; const first = S.sidecars[0];
      if (url) {
        sim.check(first && url === `http://127.0.0.1:${first.port}`, `${K}.wiring`, () => `dev command was given ${url}, sidecar port ${first?.port}`);
        const want = !inject || devArgv[0] === "npm" ? devArgv : devArgv[2] === "pages" ? [...devArgv, "--binding", `METICULOUS_SIDECAR_URL=${url}`] : [...devArgv, "--var", `METICULOUS_SIDECAR_URL:${url}`];
        sim.check(JSON.stringify(S.devArgv) === JSON.stringify(want), `${K}.wiring`, () => `ran ${S.devArgv.join(" ")}`);
        if (S.sidecars[1]) sim.check(S.sidecars[1].port === first.port, `${K}.wiring`, () => `restarted on port ${S.sidecars[1].port} instead of ${first.port}`);
      } else { sim.check(JSON.stringify(S.devArgv) === JSON.stringify(devArgv), `${K}.wiring`, () => `ran ${S.devArgv.join(" ")} without recording`); sim.check(!calm || noProject || apiTok, `${K}.not-recorded`, () => "recording did not start although nothing failed"); sim.check(logHas(/running your dev command without it/).length === 1, `${K}.announce`, () => "the user was not told that nothing is recorded"); sim.probe("unrecorded"); }
      if (D) {
        // the dev command is only ever signalled because the user asked
        const bySelf = D.signals.filter((x) => x.from === "cli");
        sim.check(bySelf.every((x) => signals.some((s) => s.t <= x.t)), `${K}.dev-killed`, () => `dev command received ${bySelf[0].sig} without being asked`);
        const kill = bySelf.find((x) => x.sig === "SIGKILL"); if (kill) { sim.probe("devKilled"); sim.check(kill.t - signals.find((s) => s.devSpawned).t >= 9.9e3, `${K}.dev-killed`, () => `SIGKILL ${kill.t - signals[0].t} ms after the interrupt`); }
        const late = signals.find((s) => s.devSpawned && s.devAlive); if (late) sim.check(D.diedAt <= late.t + 10.1e3, `${K}.hang`, () => `dev command lived ${D.diedAt - late.t} ms after the interrupt`);
        sim.check(D.diedAt !== null && D.diedAt <= cliEnd, `${K}.dev`, () => `the command ended at ${cliEnd} before the dev command (${D.diedAt})`);
        sim.check(cliEnd - D.diedAt <= 10e3 + 5e3 + 2e3 + 1.5e3, `${K}.slow-end`, () => `the command ended ${cliEnd - D.diedAt} ms after the dev command`);
        const want = D.signal ? 1 : D.code; sim.check(proc.exitCode === want, `${K}.exit-code`, () => `dev command ended with ${D.signal ?? D.code}, the command with ${proc.exitCode ?? proc.signalCode}`);
        // recordings are flushed once the dev command has ended, and only then is the recorder stopped
        for (const p of S.sidecars) {
          const asked = p.signals.filter((x) => x.from === "cli"); const t0 = D.diedAt; const term = asked.find((x) => x.sig === "SIGTERM"), killed = asked.find((x) => x.sig === "SIGKILL");
          const failedStart = !p.healthy || p !== S.sidecars[0] && announced();
          if (term && url) { sim.check(term.t >= t0, `${K}.early-stop`, () => `${p.name} was stopped ${t0 - term.t} ms before the dev command ended`); const fl = p.flushes.find((x) => x.t >= t0);
            if (p.listening && p.listening < t0 - 50) sim.check(fl && (fl.done !== null && fl.done <= term.t || term.t - fl.t >= 9.9e3 || p.w.flush === "hang"), `${K}.flush`, () => `${p.name} was stopped at ${term.t} without a finished flush (dev ended ${t0}, flush ${JSON.stringify(fl)})`); if (fl && p.w.flush === "hang") sim.check(term.t - fl.t >= 9.9e3, `${K}.flush`, () => `flush given up after ${term.t - fl.t} ms`); }
          if (killed && term && p.healthy) sim.check(killed.t - term.t >= 4.9e3, `${K}.early-kill`, () => `${p.name} killed ${killed.t - term.t} ms after SIGTERM`);
          if (killed && !term) sim.check(failedStart, `${K}.early-kill`, () => `${p.name} was killed without being asked to stop`);
          if (killed && term) sim.probe("sidecarKilled");
        }
        const p0 = S.sidecars[0]; if (url && S.sidecars.length === 1 && !p0.spontaneous && p0.code === 0 && !p0.signal && calm) { sim.check(p0.buffer === 0 && p0.lost === 0 && S.stored === S.captured, `${K}.lost`, () => `${S.captured} captured, ${S.stored} stored`); sim.probe("allStored"); }
        if (url && S.sidecars.length > 1) sim.probe(announced() ? "restartedThenStopped" : "restarted");
      }
      if (devFailed) { sim.check(proc.exitCode === 1, `${K}.exit-code`, () => `dev command could not be started, exit ${proc.exitCode}`); sim.check(logHas(/Could not start dev command/).length === 1, `${K}.announce`, () => "not told"); sim.check(cliEnd - S.devAt < 19e3, `${K}.slow-end`, () => "slow"); sim.probe("devFailed"); }
    }
    if (interrupted && !S.devSpawns) { sim.check(cliEnd - firstSig.t <= 20e3, `${K}.hang`, () => `ended ${cliEnd - firstSig.t} ms after the interrupt during start-up`); sim.check(proc.exitCode !== 0, `${K}.exit-code`, () => "an interrupted start-up reported success"); sim.probe("interruptedStart"); }
  } else {
    sim.check(!S.devSpawns, `${K}.dev`, () => "something was spawned in sidecar-only mode");
    const up = logHas(/sidecar running at/).length > 0; const s = firstSig;
    if (!up) { sim.check(proc.exitCode !== 0, `${K}.exit-code`, () => `exit ${proc.exitCode} although recording never started`); sim.check(!calm || noProject || apiTok || (port && os.ports.get(port)) || s, `${K}.not-recorded`, () => "recording did not start although nothing failed"); sim.probe("onlyFailed"); }
    else { sim.check(s && (s.t <= cliEnd), `${K}.dev`, () => `ended at ${cliEnd} without being asked`); sim.check(proc.exitCode === 0, `${K}.exit-code`, () => `exit ${proc.exitCode}`); const after = signals.filter((x) => x.t <= cliEnd); sim.check(cliEnd - after[0].t <= 18.5e3, `${K}.slow-end`, () => `ended ${cliEnd - after[0].t} ms after the interrupt`);
      if (port) sim.check(S.sidecars[0].port === port, `${K}.wiring`, () => `listening on ${S.sidecars[0].port}, asked for ${port}`); sim.probe("only"); }
  }
  return { sample: { wrapped, calm, exit: proc.exitCode ?? proc.signalCode, sidecars: S.sidecars.length, signals: signals.length, announced: announced() } };
};
