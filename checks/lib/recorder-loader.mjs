// Harness for packages/recorder-loader: a simulated page (document, script elements fetched with
// latency and failures, page timers) loading the recorder and the network interception.
import { bundle } from "../../sim/bundle.mjs";
import { Proc } from "../../sim/proc.mjs";

export const LOADER_META = {
  real: ["packages/recorder-loader/src (recorder loading, network interception)"],
  stubs: ["page: window, document.head and script elements with simulated fetch and execution", "recorder and network-recorder snippets: models exposing window.__meticulous"],
  assumptions: ["a script element fires exactly one of load and error, or neither"],
};
let built;
export const buildLoaderBundle = async () => (built ??= { rl: (await bundle({ rl: "packages/recorder-loader/src/index.ts" }, {})).code });

const CDN = "https://snippet.meticulous.ai";
const TICK = 60; // timers of a busy page fire up to this much late

class Page {
  constructor(sim, { jitter = 0 } = {}) {
    this.sim = sim; this.scripts = []; this.recorder = { inits: [], stops: [] }; this.early = { loaded: [], disposed: [] };
    const page = this;
    this.noHead = sim.chance("f:nohead", 0.03);
    const document = { createElement: (tag) => ({ tag }), get head() { return page.noHead ? null : { appendChild: (el) => page.append(el) }; } };
    this.proc = new Proc(sim, "page", { browser: true, browserTimers: true, timerJitter: jitter, globals: { document } });
    this.proc.onUncaught = () => {};
    this.W = this.proc.G;
  }
  append(el) {
    const { sim } = this; this.scripts.push(el); el.at = sim.now;
    const early = /network-recorder/.test(el.src);
    const out = el.plan = sim.pick("f:script", ["ok", "ok", "ok", "ok", "error", "never", "throws", "initThrows", "partial"]);
    const delay = el.delay = sim.pick("f:lat", ["fast", "fast", "near", "slow"]) === "fast" ? sim.latency("f:fast", 1, 400) : sim.chance("f:near", 0.5) ? sim.int("f:nearv", 1500, 2500) : sim.latency("f:slow", 2000, 30000);
    if (out !== "ok") sim.fault(`script:${out}`); else if (delay > 1500) sim.fault("script:slow");
    if (out === "never") return el;
    this.proc.at(delay, () => {
      if (out === "error") { el.end = sim.now; sim.log(`${el.src} error`); el.onerror?.(); return; }
      el.ran = sim.now; el.config = Object.fromEntries(Object.keys(this.W).filter((k) => k.startsWith("METICULOUS_")).map((k) => [k, this.W[k]]));
      sim.log(`${el.src} executed ${out}`);
      if (out !== "throws") {
        const m = (this.W.__meticulous ??= {});
        if (early) {
          if (out !== "partial") {
            this.early.loaded.push(sim.now);
            m.earlyNetworkRecorder = { dispose: () => { const n = this.early.disposed.length; this.early.disposed.push(sim.now); sim.log("early recorder disposed"); const ms = sim.pick("f:disp", [0, 5, 200]); return new Promise((res, rej) => { const bad = n === 0 && sim.chance("f:dispBad", 0.05); if (bad) sim.fault("dispose:fails"); this.proc.at(ms, () => { if (bad) rej(new Error("dispose failed")); else { this.early.done ??= sim.now; res(); } }, "dispose"); }); } };
          }
        } else {
          m.initialiseRecorder = out === "partial" ? undefined : () => { this.recorder.inits.push(sim.now); sim.log("recorder started"); if (out === "initThrows") throw new Error("init failed"); };
          m.stopRecording = () => { this.recorder.stops.push(sim.now); };
        }
      }
      // the load event follows the execution of the script in a later task
      this.proc.at(sim.chance("f:lag", 0.2) ? sim.latency("f:lagv", 1, 300) : 0, () => { el.end = sim.now; el.onload?.(); }, "load");
    }, "script");
    return el;
  }
}
const settle = (sim, p) => { const r = { at: null }; r.p = p.then((v) => { r.at = sim.now; r.ok = true; r.v = v; }, (e) => { r.at = sim.now; r.ok = false; r.e = e; }); return r; };

export const runLoad = async (sim, { scripts }) => {
  const K = sim.prop; const jitter = sim.pick("w:jit", [0, 0, TICK]);
  const page = new Page(sim, { jitter }); const { rl } = page.proc.load(scripts.rl); const W = page.W;
  if (sim.chance("w:test", 0.05)) W.Meticulous = { isRunningAsTest: true };
  const version = sim.pick("w:ver", [undefined, undefined, "2.3.4", null]); const o = { recordingToken: "tok" };
  if (version !== undefined) o.version = version;
  const mm = sim.pick("w:max", [undefined, undefined, 500, 2000, 5000, 0]); if (mm !== undefined) o.maxMsToBlockFor = mm;
  const want = { METICULOUS_RECORDING_TOKEN: "tok" };
  const opt = (k, g, vals) => { const v = sim.pick("w:o", [undefined, undefined, ...vals]); if (v !== undefined) { o[k] = v; want[g] = v; } };
  opt("uploadIntervalMs", "METICULOUS_UPLOAD_INTERVAL_MS", [0, 1000]); opt("commitHash", "METICULOUS_APP_COMMIT_HASH", ["abc"]);
  opt("snapshotLinkedStylesheets", "METICULOUS_SNAPSHOT_LINKED_STYLESHEETS", [true, false]); opt("forceRecording", "METICULOUS_FORCE_RECORDING", [true, false]);
  opt("isProduction", "METICULOUS_IS_PRODUCTION_ENVIRONMENT", [true, false]); opt("disableErrorReporting", "METICULOUS_DISABLE_ERROR_REPORTING", [true, false]);
  opt("disableTrackerId", "METICULOUS_DISABLE_TRACKER_ID", [true, false]); opt("maxPayloadSize", "METICULOUS_MAX_PAYLOAD_SIZE", [0, 5e6]);
  const mw = sim.pick("w:mw", [undefined, [], [{}]]); if (mw) { o.middleware = mw; if (mw.length) want.METICULOUS_RECORDER_MIDDLEWARE_V1 = mw; }
  const base = sim.pick("w:base", [undefined, undefined, "https://cdn.example.com/", "not a url"]); if (base) o.snippetsBaseUrl = base;
  const integrity = sim.chance("w:int", 0.2); if (integrity) o.integrity = "sha-x";
  if (sim.chance("w:nonce", 0.2)) o.nonce = "n1";
  const unsafe = sim.chance("w:unsafe", 0.15);
  const limit = (mm ?? 2000) > 0 ? mm ?? 2000 : Infinity;
  let threw = null, p;
  const start = sim.now;
  try { p = unsafe ? rl.loadAndStartRecorder(o) : rl.tryLoadAndStartRecorder(o); } catch (e) { threw = e; p = Promise.resolve(null); }
  const r = settle(sim, p);
  // the page asks to stop at some point after it got its recorder
  let stop = null; const stopDelay = sim.chance("w:stop", 0.6) ? sim.int("w:stopAt", 0, 4000) : null;
  p.then((rec) => { if (rec && stopDelay !== null) page.proc.at(stopDelay, () => { stop = { asked: sim.now }; try { const q = rec.stopRecording(); q.then(() => { stop.done = true; }, (e) => { stop.err = e; }); } catch (e) { stop.err = e; } }, "stop"); }, () => {});
  await sim.settle(60e3);
  sim.check(!threw, `${K}.throws`, () => `threw synchronously: ${threw}`);
  if (!unsafe) sim.check(r.ok !== false, `${K}.throws`, () => `rejected: ${r.e}`);
  const el = page.scripts[0]; const isTest = W.Meticulous?.isRunningAsTest;
  sim.check(page.scripts.length <= 1, `${K}.once`, () => `${page.scripts.length} scripts were added`);
  // settles within the blocking time, or when the script ends if that comes first
  const due = Math.min(el?.end !== undefined ? el.end - start : el ? Infinity : 0, limit);
  if (due !== Infinity) sim.check(r.at !== null && r.at - start <= due + (due === limit ? jitter : 0) + 2, `${K}.blocks`, () => `settled after ${r.at === null ? "never" : r.at - start} ms, due after ${due} (limit ${limit})`);
  const shouldLoad = !(isTest && !unsafe) && !page.noHead && base !== "not a url" && !(integrity && !version);
  sim.check(!!el === shouldLoad, `${K}.once`, () => `script ${el ? "" : "not "}added (test ${!!isTest})`);
  const inits = page.recorder.inits;
  sim.check(inits.length <= 1, `${K}.once`, () => `the recorder was started ${inits.length} times`);
  if (el) {
    const root = base ?? CDN; const wantSrc = version != null ? `${root.replace(/\/$/, "")}/record/v/${version}/meticulous-manual-init.js` : `${root.replace(/\/$/, "")}/v1/meticulous-manual-init.js`;
    sim.check(el.src === wantSrc, `${K}.script`, () => `loaded ${el.src}, wanted ${wantSrc}`);
    sim.check((el.integrity ?? null) === (integrity ? "sha-x" : null) && (!integrity || el.crossOrigin === "anonymous") && (el.nonce ?? null) === (o.nonce ?? null), `${K}.script`, () => `integrity ${el.integrity} nonce ${el.nonce}`);
    if (el.ran !== undefined) sim.check(JSON.stringify(Object.entries(el.config).sort()) === JSON.stringify(Object.entries(want).sort()), `${K}.config`, () => `script saw ${JSON.stringify(el.config)}, wanted ${JSON.stringify(want)}`);
    const loaded = el.end !== undefined && el.plan !== "error" ? el.end : Infinity; const givenUp = start + limit;
    // late: the time-out may run up to `jitter` late; in between either outcome is right
    if (inits.length) sim.check(inits[0] <= givenUp + jitter + 1 && r.at >= inits[0], `${K}.late`, () => `the recorder was started at ${inits[0] - start} ms although loading was given up at ${r.at - start} ms`);
    if (loaded < givenUp - 1 && ["ok", "initThrows"].includes(el.plan)) sim.check(inits.length === 1, `${K}.started`, () => `script loaded after ${loaded - start} ms but the recorder was not started`);
    sim.probe(inits.length ? "started" : loaded !== Infinity && loaded > givenUp ? "late" : "notStarted");
    if (unsafe && ["error", "partial", "throws", "initThrows"].includes(el.plan) && el.end < givenUp - 1) sim.check(r.ok === false, `${K}.failure`, () => `loadAndStartRecorder resolved although the load failed (${el.plan})`);
  }
  if (stop) {
    const run = inits.length && el.plan === "ok";
    sim.check(!stop.err && stop.done, `${K}.stop`, () => `stopRecording failed: ${stop.err}`);
    sim.check(page.recorder.stops.length === (run ? 1 : 0), `${K}.stop`, () => `stop reached the recorder ${page.recorder.stops.length} times, started ${inits.length}`);
  } else sim.check(page.recorder.stops.length === 0, `${K}.stop`, () => "stopped without being asked");
  sim.check(sim.unhandled.length === 0 && page.proc.uncaughtErrors.length === 0, `${K}.unhandled`, () => `error escaped into the page: ${sim.unhandled[0] ?? page.proc.uncaughtErrors[0]}`);
  return { sample: { limit, plan: el?.plan ?? "none", unsafe } };
};

export const runIntercept = async (sim, { scripts }) => {
  const K = sim.prop; const jitter = sim.pick("w:jit", [0, 0, TICK]);
  const page = new Page(sim, { jitter }); const { rl } = page.proc.load(scripts.rl);
  const o = {}; const version = sim.pick("w:ver", [undefined, undefined, "2.3.4"]); if (version) o.version = version;
  const mm = sim.pick("w:max", [undefined, undefined, 500, 2000, 0]); if (mm !== undefined) o.maxMsToBlockFor = mm;
  const limit = (mm ?? 2000) > 0 ? mm ?? 2000 : Infinity; const start = sim.now;
  const r = settle(sim, Object.keys(o).length === 0 && sim.chance("w:noargs", 0.5) ? rl.tryInstallMeticulousIntercepts() : rl.tryInstallMeticulousIntercepts(o));
  const asks = []; let session = null; let given = false;
  const plan = sim.pick("w:plan", ["none", "stop", "stop", "stop", "stop2", "stopStart", "start", "exported"]);
  const stopAt = sim.pick("w:stopK", ["now", "soon", "late"]) === "now" ? 0 : sim.int("w:stopAt", 1, sim.pick("w:stopMax", [200, 4000, 30000]));
  const ask = (f) => { const a = { at: sim.now, loaded: page.early.loaded.length > 0 }; asks.push(a); try { f().then(() => { a.done = sim.now; }, (e) => { a.err = e; }); } catch (e) { a.err = e; } };
  const go = async () => {
    await r.p; if (!r.ok) return; given = true;
    if (stopAt) await sim.sleep(stopAt);
    if (plan === "stop" || plan === "stop2") ask(() => r.v.stopIntercepting());
    if (plan === "exported") ask(() => rl.stopIntercepting());
    if (plan === "stop2") { await sim.sleep(sim.int("w:gap", 0, 500)); ask(() => r.v.stopIntercepting()); }
    if (plan === "start" || plan === "stopStart") session = settle(sim, r.v.startRecordingSession({ recordingToken: "tok" }));
    if (plan === "stopStart") ask(() => r.v.stopIntercepting());
  };
  void go();
  await sim.settle(120e3);
  sim.check(r.ok !== false, `${K}.throws`, () => `rejected: ${r.e}`);
  const el = page.scripts.find((s) => /network-recorder/.test(s.src));
  const due = Math.min(el?.end !== undefined ? el.end - start : el ? Infinity : 0, limit);
  if (due !== Infinity) sim.check(r.at !== null && r.at - start <= due + (due === limit ? jitter : 0) + 2, `${K}.blocks`, () => `settled after ${r.at === null ? "never" : r.at - start} ms, due after ${due} (limit ${limit})`);
  if (el) sim.check(el.src === `${CDN}/record/${version ? `v/${version}` : "v1"}/network-recorder.bundle.js`, `${K}.script`, () => `loaded ${el.src}`);
  if (session) sim.check(session.ok === true, `${K}.throws`, () => `startRecordingSession ${session.ok === false ? `rejected: ${session.e}` : "never settled"}`);
  const asked = asks.length > 0 && (plan !== "exported" || asks[0].loaded);
  if (page.early.loaded.length && asked) {
    const at = Math.max(page.early.loaded[0], asks[0].at, el.end ?? 0);
    sim.check(page.early.disposed.length > 0 && page.early.disposed[0] <= at + jitter + 2, `${K}.undone`, () => `interception ${page.early.disposed.length ? `undone ${page.early.disposed[0] - at} ms late` : "never undone"}: asked at ${asks[0].at - start} ms, script ran at ${page.early.loaded[0] - start} ms`);
    sim.probe(asks[0].at < page.early.loaded[0] ? "undoneLate" : "undone");
  }
  if (!asks.length) sim.check(page.early.disposed.length === 0, `${K}.undone`, () => "interception undone without being asked");
  for (const a of asks) sim.check(a.done !== undefined || /dispose failed/.test(a.err), `${K}.stop`, () => `stopIntercepting ${a.err ? `failed: ${a.err}` : "never settled"}`);
  if (plan !== "exported") sim.check(!page.early.disposed.some((t) => t > page.early.done), `${K}.stop`, () => `disposed ${page.early.disposed.length} times`);
  const escaped = [...sim.unhandled, ...page.proc.uncaughtErrors].filter((e) => !/dispose failed/.test(String(e?.reason ?? e)));
  sim.check(escaped.length === 0, `${K}.unhandled`, () => `error escaped into the page: ${escaped[0]}`);
  return { sample: { plan, script: el?.plan ?? "none", limit } };
};
