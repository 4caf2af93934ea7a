// I01: command-line waits end with the true outcome.
import { buildWaitsBundle, WAITS_META, runCommand } from "./lib/cli-waits.mjs";
export default {
  id: "I01", ...WAITS_META, build: buildWaitsBundle, quickRuns: 6000, thoroughRuns: 400000,
  scenarios: [{ name: "command", weight: 1, run: (s, c) => runCommand(s, c) }],
  rule: "one evaluation = one seeded run of a waiting command against runs, base runs and reports that evolve in time; distinct = distinct event-log digests",
};
