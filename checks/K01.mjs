// K01: waiting for a test run ends with its latest settled result.
import { buildCustomBundle, CUSTOM_META, runWait } from "./lib/custom-checks.mjs";
export default {
  id: "K01", ...CUSTOM_META, build: buildCustomBundle, quickRuns: 5000, thoroughRuns: 400000,
  scenarios: [{ name: "wait", weight: 1, run: (s, c) => runWait(s, c) }],
  rule: "one evaluation = one seeded wait for a test run against a service whose head, merged and base runs evolve in time; distinct = distinct event-log digests",
};
