// I02: recording a backend supervises its processes and leaves none behind.
import { buildRecordBundle, RECORD_META, runRecord } from "./lib/cli-record.mjs";
export default {
  id: "I02", ...RECORD_META, build: buildRecordBundle, quickRuns: 4000, thoroughRuns: 400000,
  scenarios: [{ name: "record", weight: 1, run: (s, c) => runRecord(s, c) }],
  rule: "one evaluation = one seeded run of `record backend`: a simulated CLI process, recording process and dev command with deaths, hangs, spawn failures, network faults and user interrupts; distinct = distinct event-log digests",
};
