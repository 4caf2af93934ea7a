#!/usr/bin/env node
// node sim/run.mjs <ID> [--tier quick|thorough] [--replay FILE] [--runs N] [--seed S] [--verbose]
import { Worker } from "node:worker_threads";
import fs from "node:fs";
import os from "node:os";
import path from "node:path";
import { fileURLToPath } from "node:url";
import { loadCheck } from "./worker.mjs";

const ROOT = path.resolve(path.dirname(fileURLToPath(import.meta.url)), "..");
const argv = process.argv.slice(2);
const id = argv[0];
const opt = (n, d) => { const i = argv.indexOf(`--${n}`); return i >= 0 ? argv[i + 1] : d; };
const flag = (n) => argv.includes(`--${n}`);
const tier = opt("tier", process.env.VERIF_TIER === "thorough" ? "thorough" : "quick");
const verifSeed = Number(opt("seed", process.env.VERIF_SEED ?? "1")) || 1;
const t0 = Date.now();
const HANG_MS = 60000;

process.env.TZ = "UTC";
const check = await loadCheck(id);
let codes;
try {
  codes = await check.build();
} catch (e) {
  console.error(`ERROR: cannot bundle the code under test: ${e.message ?? e}`);
  process.exit(2);
}
const known = readKnown();
function readKnown() {
  const f = path.join(ROOT, "known-findings.txt");
  if (!fs.existsSync(f)) return [];
  return fs.readFileSync(f, "utf8").split("\n").filter((l) => l.trim().startsWith("{")).map((l) => JSON.parse(l)).filter((k) => k.property === id && k.status === "known");
}

const nWorkers = Number(opt("workers", Math.max(1, Math.min(8, os.cpus().length))));
const progress = new SharedArrayBuffer(16 * 64);
const prog = new Float64Array(progress);
const spawn = (index) => new Promise((resolve, reject) => {
  const w = new Worker(new URL("./worker.mjs", import.meta.url), { workerData: { simWorker: true, id, codes, progress, index }, stdout: false, resourceLimits: { maxOldGenerationSizeMb: 3000, stackSizeMb: 8 } });
  w.once("message", () => resolve(w)); w.once("error", reject);
});
const ask = (w, msg, timeoutMs) => new Promise((resolve) => {
  const done = (m) => { clearTimeout(t); w.off("message", done); w.off("error", err); resolve(m); };
  const err = (e) => { clearTimeout(t); w.off("message", done); resolve({ type: "crashed", error: e }); };
  const t = timeoutMs ? setTimeout(() => { w.off("message", done); w.off("error", err); resolve({ type: "hung" }); }, timeoutMs) : null;
  w.on("message", done); w.once("error", err); w.postMessage(msg);
});

// ---------------------------------------------------------------- replay mode
if (opt("replay")) {
  const file = JSON.parse(fs.readFileSync(opt("replay"), "utf8"));
  const w = await spawn(0);
  const r = await ask(w, { type: "replay", seed: file.seed, choices: file.choices ?? undefined, scenario: file.scenario, verbose: true }, 300000);
  if (r.type === "hung") {
    console.log(`VIOLATION property=${id} replay=${opt("replay")}`);
    console.log("  livelock: the run does not terminate");
    process.exit(1);
  }
  if (flag("verbose")) for (const l of r.trace) console.log(l);
  if (r.error) { console.error(r.error); process.exit(2); }
  console.log(`digest ${r.digest}${file.digest ? (file.digest === r.digest ? " (as recorded)" : ` (recorded ${file.digest})`) : ""}`);
  console.log(`faults ${JSON.stringify(r.faults)}`);
  for (const v of r.violations) console.log(`  ${v.kind}: ${v.message}${v.details ? " " + JSON.stringify(v.details).slice(0, 2000) : ""}`);
  if (r.violations.length) { console.log(`VIOLATION property=${id} replay=${opt("replay")}`); process.exit(1); }
  console.log("no violation"); process.exit(0);
}
if (opt("one")) {
  const w = await spawn(0);
  const r = await ask(w, { type: "replay", seed: Number(opt("one")), scenario: opt("scenario"), verbose: true }, 300000);
  if (r.type !== "replayed") { console.error(r.type, r.error); process.exit(2); }
  for (const l of r.trace) console.log(l);
  if (r.error) console.error(r.error);
  console.log(JSON.stringify({ faults: r.faults, violations: r.violations, digest: r.digest }, null, 1).slice(0, 5000));
  process.exit(r.violations.length ? 1 : 0);
}

// ---------------------------------------------------------------- search mode
const totalRuns = Number(opt("runs", tier === "thorough" ? check.thoroughRuns ?? (check.quickRuns ?? 2000) * 20 : check.quickRuns ?? 2000));
const wallCap = (tier === "thorough" ? check.thoroughWallS ?? 780 : check.quickWallS ?? 60) * 1000;
const deadline = t0 + wallCap;
// every property explores its own seeds, also where two share a scenario
const base = verifSeed * 100_000_000 + (parseInt(id.slice(1), 10) + id.charCodeAt(0) * 100) % 97 * 1_000_000;
const BATCH = check.batch ?? 25;
const agg = { runs: 0, events: 0, simMs: 0, faults: {}, probes: {}, perScenario: {}, samples: [], nondeterministic: [], doubled: 0, known: {}, cut: false };
const digests = new Set(), orders = new Set();
let failures = [], errors = [], nextIndex = 0;
const doubleEvery = check.doubleEvery ?? 37;

const workerLoop = async (index) => {
  let w = await spawn(index);
  while (nextIndex < totalRuns && failures.length === 0 && errors.length === 0 && Date.now() < deadline) {
    const seeds = []; for (let i = 0; i < BATCH && nextIndex < totalRuns; i++) seeds.push(base + nextIndex++);
    const p = ask(w, { type: "batch", seeds, deadline, known, double: doubleEvery });
    let hung = null;
    const wd = setInterval(() => { const s = prog[index * 2 + 1]; if (s && Date.now() - s > HANG_MS) hung?.(); }, 1000);
    const r = await Promise.race([p, new Promise((res) => { hung = () => res({ type: "hung" }); })]);
    clearInterval(wd);
    if (r.type === "hung" || r.type === "crashed") {
      const seed = prog[index * 2];
      if (r.type === "crashed" && r.error?.code !== "ERR_WORKER_OUT_OF_MEMORY") { errors.push({ seed, stack: String(r.error?.stack ?? r.error) }); await w.terminate(); return; }
      failures.push({ seed, hang: true, violation: { kind: `${id}/livelock`, message: r.type === "hung" ? `the execution does not terminate: the code under test spins without yielding (seed ${seed})` : `the execution exhausts memory (seed ${seed})` } });
      await w.terminate(); return;
    }
    const o = r.out;
    agg.runs += o.runs; agg.events += o.events; agg.simMs += o.simMs; agg.doubled += o.doubled; agg.nondeterministic.push(...o.nondeterministic); if (o.cut) agg.cut = true;
    for (const k in o.faults) agg.faults[k] = (agg.faults[k] ?? 0) + o.faults[k];
    for (const k in o.probes) agg.probes[k] = (agg.probes[k] ?? 0) + o.probes[k];
    for (const k in o.perScenario) agg.perScenario[k] = (agg.perScenario[k] ?? 0) + o.perScenario[k];
    for (const k in o.known ?? {}) agg.known[k] = (agg.known[k] ?? 0) + o.known[k];
    o.digests.forEach((d) => digests.add(d)); o.orders.forEach((d) => orders.add(d));
    if (agg.samples.length < 4) agg.samples.push(...o.samples);
    if (r.failure) failures.push(r.failure);
    if (r.error) errors.push(r.error);
  }
  await w.terminate();
};
await Promise.all(Array.from({ length: nWorkers }, (_, i) => workerLoop(i)));

let exitCode = 0, violationOut = [];
if (failures.length) {
  failures.sort((a, b) => a.seed - b.seed);
  let f = failures.find((x) => !x.hang) ?? failures[0];
  let w = await spawn(0);
  const minimised = f.hang ? { choices: undefined, trace: [], steps: 0 } : await minimise(w, f);
  const dir = path.join(ROOT, "replays"); fs.mkdirSync(dir, { recursive: true });
  const file = path.join(dir, `${id}-${f.seed}.json`);
  const doc = { property: id, scenario: f.scenario, seed: f.seed, violation: minimised.violation ?? f.violation, choices: minimised.choices, digest: minimised.digest, minimisation: { executions: minimised.steps, nonZeroChoices: minimised.nonZero, originalNonZeroChoices: minimised.originalNonZero }, faults: minimised.faults, trace: minimised.trace };
  fs.writeFileSync(file, JSON.stringify(doc, null, 1));
  await w.terminate();
  // the replay must fail the same way in a fresh thread
  if (!f.hang) {
    w = await spawn(0);
    const rr = await ask(w, { type: "replay", seed: f.seed, choices: minimised.choices, scenario: f.scenario }, HANG_MS);
    doc.replayVerified = rr.type === "replayed" && rr.violations.some((v) => v.kind === doc.violation.kind) && rr.digest === minimised.digest;
    fs.writeFileSync(file, JSON.stringify(doc, null, 1));
    await w.terminate();
  }
  console.log(`VIOLATION property=${id} replay=${file}`);
  console.log(`  ${doc.violation.kind}: ${doc.violation.message}`);
  console.log(`  seed ${f.seed}, scenario ${f.scenario}, replay verified: ${doc.replayVerified}; re-run with: node sim/run.mjs ${id} --replay ${file} --verbose`);
  violationOut.push({ kind: doc.violation.kind, message: doc.violation.message, seed: f.seed, replay: file });
  exitCode = 1;
} else if (errors.length) {
  console.error(`ERROR in the harness (seed ${errors[0].seed}, scenario ${errors[0].scenario}): ${errors[0].stack}`);
  exitCode = 2;
}
for (const k of known) {
  console.log(`KNOWN-FINDING: property=${id} ${k.what}`);
}
const wall = (Date.now() - t0) / 1000;
const evidence = {
  property: id, tier, seed: verifSeed, level: check.level ?? "exploration",
  coverage: {
    evaluations: agg.runs, distinct_nontrivial: digests.size,
    rule: check.rule ?? "one evaluation = one simulated execution decided by one seed; distinct = distinct event-log digests",
    simulated_runs: agg.runs, runs_per_hour: Math.round((agg.runs / wall) * 3600), seeds_per_hour: Math.round((agg.runs / wall) * 3600),
    simulated_time_s: Math.round(agg.simMs / 1000), events_executed: agg.events,
    distinct_interleavings: orders.size, interleaving_measure: "distinct hashes of the ordered sequence of (process, event kind) executed",
    distinct_event_logs: digests.size,
    faults_injected: agg.faults, probes: agg.probes, runs_per_scenario: agg.perScenario,
    determinism: { seeds_run_twice: agg.doubled, digest_mismatches: agg.nondeterministic.length },
    components_real: check.real ?? [], components_stubbed: check.stubs ?? [],
    known_finding_hits: agg.known, wall_cap_reached: agg.cut,
    samples: agg.samples.slice(0, 4),
  },
  assumptions: check.assumptions ?? [],
  wall_s: Math.round(wall * 10) / 10,
  violations: violationOut,
};
fs.mkdirSync(path.join(ROOT, "evidence"), { recursive: true });
fs.writeFileSync(path.join(ROOT, "evidence", `${id}.json`), JSON.stringify(evidence, null, 1) + "\n");
if (agg.nondeterministic.length) console.log(`note: ${agg.nondeterministic.length} seeds were not reproducible: ${agg.nondeterministic.slice(0, 5)}`);
if (exitCode === 0) console.log(`OK property=${id} runs=${agg.runs} distinct=${digests.size} sim_time=${Math.round(agg.simMs / 1000)}s wall=${wall.toFixed(1)}s`);
if (flag("stats")) console.log(JSON.stringify({ faults: agg.faults, probes: agg.probes, scen: agg.perScenario, orders: orders.size }, null, 1));
process.exit(exitCode);

async function minimise(w, f) {
  const limit = Date.now() + 25000; let steps = 0;
  const count = (c) => Object.values(c).reduce((a, l) => a + l.filter((x) => x).length, 0);
  const attempt = async (choices) => {
    steps++;
    const r = await ask(w, { type: "replay", seed: f.seed, choices, scenario: f.scenario }, 30000);
    if (r.type !== "replayed") { if (r.type === "hung") { await w.terminate(); w = await spawn(0); } return null; }
    const v = r.violations.find((x) => x.kind === f.violation.kind);
    return v && !r.error ? { ...r, violation: v } : null;
  };
  let best = await attempt(f.choices);
  let cur = f.choices;
  if (!best) return { choices: f.choices, violation: f.violation, digest: f.digest, steps, trace: [], nonZero: count(cur), originalNonZero: count(cur), faults: {} };
  const original = count(cur);
  const accept = (r, c) => { best = r; cur = r.choices ?? c; };
  // 1. whole streams
  for (const label of Object.keys(cur).sort((a, b) => (cur[b]?.length ?? 0) - (cur[a]?.length ?? 0))) {
    if (Date.now() > limit) break;
    if (!cur[label]) continue;
    const c = { ...cur }; delete c[label];
    const r = await attempt(c); if (r) accept(r, c);
  }
  // 2. zero chunks, then 3. shrink single values
  for (const label of Object.keys(cur)) {
    if (!cur[label]) continue;
    for (let size = cur[label].length; size >= 1 && Date.now() < limit; size = Math.floor(size / 2)) {
      for (let i = 0; i < (cur[label]?.length ?? 0) && Date.now() < limit; i += size) {
        const l = cur[label]; if (!l.slice(i, i + size).some((x) => x)) continue;
        const c = { ...cur, [label]: l.map((x, j) => (j >= i && j < i + size ? 0 : x)) };
        const r = await attempt(c); if (r) accept(r, c);
      }
    }
    for (let i = 0; i < (cur[label]?.length ?? 0) && Date.now() < limit; i++) {
      while (cur[label] && cur[label][i] > 1 && Date.now() < limit) {
        const v = cur[label][i];
        const c = { ...cur, [label]: cur[label].map((x, j) => (j === i ? v >> 1 : x)) };
        const r = await attempt(c); if (!r) break; accept(r, c);
      }
    }
  }
  return { choices: cur, digest: best.digest, violation: best.violation, trace: best.trace, steps, nonZero: count(cur), originalNonZero: original, faults: best.faults };
}
