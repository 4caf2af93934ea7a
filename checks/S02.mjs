import { buildSidecar, runSidecar, SIDECAR_META } from "./lib/sidecar.mjs";
export default {
  id: "S02", ...SIDECAR_META, build: buildSidecar, quickRuns: 1500, thoroughRuns: 60000,
  scenarios: [
    { name: "faults", weight: 6, run: (s, c) => runSidecar(s, c, "faults") },
    { name: "clean", weight: 3, run: (s, c) => runSidecar(s, c, "clean") },
    { name: "big", weight: 1, run: (s, c) => runSidecar(s, c, "big") },
    { name: "long", weight: 2, run: (s, c) => runSidecar(s, c, "long") },
  ],
  rule: "one evaluation = one seeded simulated deployment (1-3 shards, 1-4 clients, flushes, crashes, storage faults); distinct = distinct event-log digests",
};
