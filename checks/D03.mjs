// D03: cached documents are never served torn, and their locks are exclusive.
import { buildDownloads, runDocs, DOWNLOADS_META } from "./lib/downloads.mjs";
export default {
  id: "D03", ...DOWNLOADS_META, build: buildDownloads, quickRuns: 4000, thoroughRuns: 200000,
  scenarios: [{ name: "documents", weight: 1, run: (s, c) => runDocs(s, c) }],
  rule: "one evaluation = one seeded execution of concurrent processes asking for cached documents under network faults, disk errors and process crashes; distinct = distinct event-log digests",
};
