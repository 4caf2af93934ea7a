// L01: loading the recorder never blocks or breaks the page.
import { buildLoaderBundle, LOADER_META, runLoad, runIntercept } from "./lib/recorder-loader.mjs";
export default {
  id: "L01", ...LOADER_META, build: buildLoaderBundle, quickRuns: 30000, thoroughRuns: 1500000,
  scenarios: [
    { name: "recorder", weight: 1, run: (s, c) => runLoad(s, c) },
    { name: "intercepts", weight: 1, run: (s, c) => runIntercept(s, c) },
  ],
  rule: "one evaluation = one seeded page load with the recorder or its network interception; distinct = distinct event-log digests",
};
