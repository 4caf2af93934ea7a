// D01: replay archives and test run data are complete when reported complete.
import { buildDownloads, runArchive, DOWNLOADS_META } from "./lib/downloads.mjs";
export default {
  id: "D01", ...DOWNLOADS_META, build: buildDownloads, quickRuns: 5000, thoroughRuns: 60000,
  scenarios: [
    { name: "replay", weight: 3, run: (s, c) => runArchive(s, c, "replay") },
    { name: "test-run", weight: 1, run: (s, c) => runArchive(s, c, "test-run") },
  ],
  rule: "one evaluation = one seeded history of fetches by 1-3 processes sharing a cache directory, with crashes, network and disk faults; contents are judged at the moment the successful call gives up its directory lock; distinct = distinct event-log digests",
};
