// R06: login credentials given to a launch reach only the service.
import { OPTIONS_META, buildOptionsBundle, runSecrets } from "./lib/launch-options.mjs";
export default {
  id: "R06", ...OPTIONS_META, build: buildOptionsBundle, quickRuns: 4000, thoroughRuns: 250000,
  scenarios: [
    { name: "secrets", weight: 1, run: (s, c) => runSecrets(s, c) },
  ],
  rule: "one evaluation = one seeded execution of one or two launches (library calls or commands) with marked credentials under rejections and random faults; errors, output, Sentry reports, requests and storage are searched for the marks; distinct = distinct event-log digests",
};
