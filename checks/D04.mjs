// D04: cached replay assets match a version the server really served.
import { buildDownloads, runAssets, DOWNLOADS_META } from "./lib/downloads.mjs";
export default {
  id: "D04", ...DOWNLOADS_META, build: buildDownloads, quickRuns: 4000, thoroughRuns: 200000,
  scenarios: [{ name: "assets", weight: 1, run: (s, c) => runAssets(s, c) }],
  rule: "one evaluation = one seeded execution of concurrent processes bringing assets up to date while the server changes versions under network faults, disk errors and process crashes; distinct = distinct event-log digests",
};
