// Worker thread: executes seeds of one check.
import { parentPort, workerData, isMainThread } from "node:worker_threads";
import { ProcExit, Sim } from "./core.mjs";
import { Script } from "./proc.mjs";

let activeSim = null; let draining = false;
process.on("unhandledRejection", (reason) => { if (reason instanceof ProcExit) return; activeSim?.noteUnhandled(reason); });
process.on("uncaughtException", (err) => {
  if (err instanceof ProcExit) return; // a simulated process.exit inside a callback of real node code
  if (!activeSim && draining) return;
  if (activeSim) { activeSim.log(`UNCAUGHT ${err?.stack ?? err}`); activeSim.asyncUncaught = err; activeSim.current?.uncaught?.(err); }
  else throw err;
});
process.on("warning", () => {});
process.removeAllListeners("warning");

export const loadCheck = async (id) => (await import(new URL(`../checks/${id}.mjs`, import.meta.url))).default;
export const compile = (codes) => Object.fromEntries(Object.entries(codes).map(([k, c]) => [k, new Script(c, `sut-${k}.js`)]));

export const scenarioFor = (check, seed) => {
  const list = check.scenarios; const total = list.reduce((a, s) => a + (s.weight ?? 1), 0);
  let x = seed % total;
  for (const s of list) { x -= s.weight ?? 1; if (x < 0) return s; }
  return list[0];
};

export const runOne = async (check, scripts, { seed, replay, scenario, verbose }) => {
  const sim = new Sim({ seed, replay, verbose });
  sim.prop = check.id;
  const rawViolate = sim.violate.bind(sim);
  // Only violations of the property under check count in this run.
  sim.violate = (kind, message, details) => {
    if (!kind.startsWith(check.id) && !process.env.VERIF_ANY) { sim.log(`(other property) ${kind}: ${message}`); sim.probe(`other:${kind}`); return; }
    rawViolate(kind, message, details);
  };
  const sc = scenario ? check.scenarios.find((s) => s.name === scenario) : scenarioFor(check, seed);
  activeSim = sim;
  let harnessError = null, extra = null;
  try {
    extra = await sc.run(sim, { scripts, check });
  } catch (e) {
    if (e?.name === "Violation") rawViolate(e.kind, e.message, e.details);
    else harnessError = e;
  }
  activeSim = null; sim.sealed = true;
  draining = true; for (const f of sim.cleanups ?? []) f();
  sim.cleanups = null;
  for (let i = sim.drainTurns; i > 0; i--) await new Promise((r) => setImmediate(r)); // what is left of this run must not reach the next one
  draining = false;
  return { sim, scenario: sc.name, harnessError, extra };
};

const summarise = (r, seed) => ({
  seed, scenario: r.scenario, digest: r.sim.digest(), events: r.sim.events, simMs: r.sim.now,
  faults: r.sim.faults, probes: r.sim.probes, order: r.sim.orderHash >>> 0,
});

if (!isMainThread && workerData?.simWorker) {
  const { id, codes, progress, index } = workerData;
  const prog = new Float64Array(progress); // [seed, startedAtMs] per worker
  const check = await loadCheck(id);
  const scripts = compile(codes);
  parentPort.on("message", async (msg) => {
    if (msg.type === "batch") {
      const out = { runs: 0, events: 0, simMs: 0, faults: {}, probes: {}, orders: [], digests: [], samples: [], perScenario: {}, nondeterministic: [], doubled: 0 };
      let failure = null, error = null;
      for (const seed of msg.seeds) {
        if (Date.now() > msg.deadline) { out.cut = true; break; }
        prog[index * 2] = seed; prog[index * 2 + 1] = Date.now();
        const r = await runOne(check, scripts, { seed });
        const s = summarise(r, seed);
        out.runs++; out.events += s.events; out.simMs += s.simMs;
        for (const k in s.faults) out.faults[k] = (out.faults[k] ?? 0) + s.faults[k];
        for (const k in s.probes) out.probes[k] = (out.probes[k] ?? 0) + s.probes[k];
        out.orders.push(s.order); out.digests.push(s.digest);
        out.perScenario[s.scenario] = (out.perScenario[s.scenario] ?? 0) + 1;
        if (r.extra?.sample && out.samples.length < 1) out.samples.push({ seed, scenario: s.scenario, ...r.extra.sample });
        if (r.harnessError) { error = { seed, stack: r.harnessError.stack ?? String(r.harnessError), scenario: r.scenario }; break; }
        const real = [];
        for (const v of r.sim.violations) {
          if (msg.known.some((kf) => new RegExp(kf.match).test(`${v.kind} ${v.message}`))) { (out.known ??= {})[`${v.kind} ${v.message}`] = (out.known[`${v.kind} ${v.message}`] ?? 0) + 1; }
          else real.push(v);
        }
        if (real.length) { failure = { seed, scenario: r.scenario, violation: real[0], choices: r.sim.choices.recorded(), digest: s.digest }; break; }
        if (msg.double && seed % msg.double === 0) {
          out.doubled++;
          const r2 = await runOne(check, scripts, { seed });
          if (r2.sim.digest() !== s.digest) out.nondeterministic.push(seed);
        }
      }
      prog[index * 2 + 1] = 0;
      parentPort.postMessage({ type: "result", out, failure, error });
    } else if (msg.type === "replay") {
      prog[index * 2] = msg.seed; prog[index * 2 + 1] = Date.now();
      const r = await runOne(check, scripts, { seed: msg.seed, replay: msg.choices, scenario: msg.scenario, verbose: msg.verbose });
      prog[index * 2 + 1] = 0;
      parentPort.postMessage({ type: "replayed", violations: r.sim.violations, digest: r.sim.digest(), trace: msg.verbose ? r.sim.trace : r.sim.trace.slice(-150), choices: r.sim.choices.recorded(), faults: r.sim.faults, error: r.harnessError ? String(r.harnessError.stack ?? r.harnessError) : null });
    }
  });
  parentPort.postMessage({ type: "ready" });
}
