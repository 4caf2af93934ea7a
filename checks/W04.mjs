import { buildWorkerd, runReplay, WORKERD_META } from "./lib/workerd.mjs";
export default {
  id: "W04", ...WORKERD_META, build: buildWorkerd, quickRuns: 1500, thoroughRuns: 60000,
  scenarios: [
    { name: "faults", weight: 3, run: (s, c) => runReplay(s, c, "faults") },
    { name: "clean", weight: 2, run: (s, c) => runReplay(s, c, "clean") },
  ],
  rule: "one evaluation = one isolate serving a mix of 2-6 replayed and ordinary requests against a replay service with faults; distinct = distinct event-log digests",
};
