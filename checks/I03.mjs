// I03: source uploads are complete and clean up after themselves.
import { buildSourceBundle, SOURCE_META, runUploadSource } from "./lib/cli-source.mjs";
export default {
  id: "I03", ...SOURCE_META, build: buildSourceBundle, quickRuns: 5000, thoroughRuns: 300000,
  scenarios: [{ name: "upload-source", weight: 1, run: (s, c) => runUploadSource(s, c) }],
  rule: "one evaluation = one seeded run of one or two upload commands with faults of disk, API and storage; distinct = distinct event-log digests",
};
