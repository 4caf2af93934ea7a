// D02: a single download is exact or an error, in bounded time, without leftovers.
import { buildDownloads, runDownload, DOWNLOADS_META } from "./lib/downloads.mjs";
export default {
  id: "D02", ...DOWNLOADS_META, build: buildDownloads, quickRuns: 12000, thoroughRuns: 200000,
  scenarios: ["file", "zip", "tar", "targz", "inflate"].map((fn) => ({ name: fn, weight: 1, run: (s, c) => runDownload(s, c, fn) })),
  rule: "one evaluation = one seeded execution of one download call under network faults at chosen chunk boundaries, disk errors and truncated objects; distinct = distinct event-log digests",
};
