// G01: fetching many DOM diffs isolates failures and keeps order.
import { buildDebug, DEBUG_META, runDomDiffs } from "./lib/debug-workspace.mjs";
export default {
  id: "G01", ...DEBUG_META, build: buildDebug, quickRuns: 12000, thoroughRuns: 300000,
  scenarios: [{ name: "dom-diffs", weight: 1, run: (s, c) => runDomDiffs(s, c) }],
  rule: "one evaluation = one seeded fetch of the DOM diffs of up to three replay diffs; distinct = distinct event-log digests",
};
