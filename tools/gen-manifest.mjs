// Regenerates /verif/MANIFEST.json from properties.jsonl, the modules in checks/ and the table below.
import fs from "node:fs";
import { pathToFileURL } from "node:url";
const props = fs.readFileSync("/verif/properties.jsonl", "utf8").trim().split("\n").map((l) => JSON.parse(l));
const NA = {
  N: "pure, synchronous functions with no time, scheduling, I/O or multi-party behaviour: a simulator has nothing to schedule or to inject, and judging them by generated inputs would be another technique",
};
const checks = [], na = [];
for (const p of props) {
  const f = `/verif/checks/${p.id}.mjs`;
  if (fs.existsSync(f)) {
    const c = (await import(pathToFileURL(f))).default;
    checks.push({
      property: p.id,
      quick_cmd: `node sim/run.mjs ${p.id} --tier quick`,
      thorough_cmd: `node sim/run.mjs ${p.id} --tier thorough`,
      evidence_file: `evidence/${p.id}.json`,
      technique: "deterministic simulation with fault injection: seeded search over schedules and fault sequences",
      level: c.level ?? "exploration",
      level_note: c.levelNote ?? `Samples ${c.quickRuns} (quick) to ${c.thoroughRuns} (thorough) seeded executions of the real code under the simulator; not exhaustive. Trusts the simulated environment: ${(c.stubs ?? []).join("; ")}.`,
    });
  } else na.push({ property: p.id, reason: c_reason(p) });
}
function c_reason(p) { return NA[p.id] ?? NA[p.id[0]] ?? "no harness yet in this revision"; }
fs.writeFileSync("/verif/MANIFEST.json", JSON.stringify({
  version: 1, setup_cmd: "true",
  hooks: { guard: "none", enable: "no hooks in /repo: the checks bundle its sources and replace module and global seams at bundle time", source_commits: [] },
  checks, not_applicable: na,
}, null, 1) + "\n");
console.log(`${checks.length} checks, ${na.length} not applicable`);
