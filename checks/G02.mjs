// G02: a debug workspace contains every file of its inputs, faithfully.
import { buildDebug, DEBUG_META, runDebugData } from "./lib/debug-workspace.mjs";
export default {
  id: "G02", ...DEBUG_META, build: buildDebug, quickRuns: 3000, thoroughRuns: 200000,
  scenarios: [{ name: "debug-data", weight: 1, run: (s, c) => runDebugData(s, c) }],
  rule: "one evaluation = one seeded sequence of workspace builds with failures and crashes between them; distinct = distinct event-log digests",
};
