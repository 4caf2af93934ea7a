// C06: paginated listings are exact.
import { buildClientBundle, CLIENT_META, runListing } from "./lib/client.mjs";
export default {
  id: "C06", ...CLIENT_META, build: buildClientBundle, quickRuns: 3000, thoroughRuns: 120000,
  scenarios: [
    { name: "listing", weight: 1, run: (s, c) => runListing(s, c) },
  ],
  rule: "one evaluation = one seeded execution of concurrent listings under request faults; distinct = distinct event-log digests",
};
