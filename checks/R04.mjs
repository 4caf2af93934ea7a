// R04: a remote test run ends with its real outcome and releases its tunnel.
import { buildLauncherBundle, LAUNCHER_META, runRemote } from "./lib/launcher.mjs";
export default {
  id: "R04", ...LAUNCHER_META, build: buildLauncherBundle, quickRuns: 5000, thoroughRuns: 250000,
  scenarios: [
    { name: "remoteRun", weight: 1, run: (s, c) => runRemote(s, c) },
  ],
  rule: "one evaluation = one seeded execution of one remote test run from opening its tunnel to its end; distinct = distinct event-log digests",
};
