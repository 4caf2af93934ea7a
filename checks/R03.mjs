// R03: waiting for a base run is bounded, and falls back exactly once.
import { buildLauncherBundle, LAUNCHER_META, runWaitForBase } from "./lib/launcher.mjs";
export default {
  id: "R03", ...LAUNCHER_META, build: buildLauncherBundle, quickRuns: 6000, thoroughRuns: 250000,
  scenarios: [
    { name: "waitForBase", weight: 1, run: (s, c) => runWaitForBase(s, c) },
  ],
  rule: "one evaluation = one seeded execution of one upload that waits for its base run, its whole request history replayed against the specified schedule; distinct = distinct event-log digests",
};
