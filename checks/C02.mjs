// C02: every API call settles truthfully and leaves nothing behind.
import { buildClientBundle, CLIENT_META, runApi } from "./lib/client.mjs";
export default {
  id: "C02", ...CLIENT_META, build: buildClientBundle, quickRuns: 8000, thoroughRuns: 300000,
  scenarios: [
    { name: "api", weight: 1, run: (s, c) => runApi(s, c) },
  ],
  rule: "one evaluation = one seeded execution of concurrent API calls under connection, timeout, body and status faults; distinct = distinct event-log digests",
};
