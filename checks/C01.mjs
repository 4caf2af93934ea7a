// C01: retries are bounded, jittered and only for transient failures.
import { buildClientBundle, CLIENT_META, runRetry, runUploadRetry, runApi } from "./lib/client.mjs";
export default {
  id: "C01", ...CLIENT_META, build: buildClientBundle, quickRuns: 9000, thoroughRuns: 400000,
  scenarios: [
    { name: "retry", weight: 3, run: (s, c) => runRetry(s, c) },
    { name: "upload-retry", weight: 2, run: (s, c) => runUploadRetry(s, c) },
    { name: "api", weight: 3, run: (s, c) => runApi(s, c) },
  ],
  rule: "one evaluation = one seeded execution of concurrent retried operations or API calls under injected failures; distinct = distinct event-log digests",
};
