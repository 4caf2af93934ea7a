// R01: multipart uploads reassemble to exactly the source archive.
import { buildLauncherBundle, LAUNCHER_META, runMultipart } from "./lib/launcher.mjs";
export default {
  id: "R01", ...LAUNCHER_META, build: buildLauncherBundle, quickRuns: 2500, thoroughRuns: 100000,
  scenarios: [
    { name: "multipart", weight: 1, run: (s, c) => runMultipart(s, c) },
  ],
  rule: "one evaluation = one seeded execution of one or two concurrent multipart uploads; distinct = distinct event-log digests",
};
