// R02: a build upload is completed only when whole, and causes at most one run.
import { buildLauncherBundle, LAUNCHER_META, runBuilds } from "./lib/launcher.mjs";
export default {
  id: "R02", ...LAUNCHER_META, build: buildLauncherBundle, quickRuns: 5000, thoroughRuns: 200000,
  scenarios: [
    { name: "builds", weight: 1, run: (s, c) => runBuilds(s, c) },
  ],
  rule: "one evaluation = one seeded execution of one upload / trigger entry point against the simulated service, storage, registry and disk; distinct = distinct event-log digests",
};
