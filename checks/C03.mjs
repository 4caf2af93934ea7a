// C03: signed uploads succeed only with exactly the bytes accepted.
import { buildClientBundle, CLIENT_META, runSignedUpload } from "./lib/client.mjs";
export default {
  id: "C03", ...CLIENT_META, build: buildClientBundle, quickRuns: 6000, thoroughRuns: 250000,
  scenarios: [
    { name: "upload", weight: 1, run: (s, c) => runSignedUpload(s, c) },
  ],
  rule: "one evaluation = one seeded execution of concurrent uploads under connection, storage and disk faults; distinct = distinct event-log digests",
};
