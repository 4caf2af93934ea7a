import { buildWorkerd, runRecord, WORKERD_META } from "./lib/workerd.mjs";
export default {
  id: "W03", ...WORKERD_META, build: buildWorkerd, quickRuns: 1500, thoroughRuns: 60000,
  scenarios: [
    { name: "faults", weight: 4, run: (s, c) => runRecord(s, c, "faults") },
    { name: "clean", weight: 2, run: (s, c) => runRecord(s, c, "clean") },
    { name: "big", weight: 1, run: (s, c) => runRecord(s, c, "big") },
    { name: "flood", weight: 1, run: (s, c) => runRecord(s, c, "flood") },
  ],
  rule: "one evaluation = one generated application (1-5 concurrent requests) run plain and recorded in simulated isolates; distinct = distinct event-log digests",
};
