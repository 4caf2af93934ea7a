// K02: snapshots given to a custom check are complete and matched.
import { buildCustomBundle, CUSTOM_META, runSnapshots } from "./lib/custom-checks.mjs";
export default {
  id: "K02", ...CUSTOM_META, build: buildCustomBundle, quickRuns: 4000, thoroughRuns: 200000,
  scenarios: [{ name: "snapshots", weight: 1, run: (s, c) => runSnapshots(s, c) }],
  rule: "one evaluation = one seeded fetch of the snapshots of a test run and its base under network, archive and disk faults; distinct = distinct event-log digests",
};
