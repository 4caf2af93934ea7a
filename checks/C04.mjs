// C04: login tokens are refreshed safely.
import { buildClientBundle, CLIENT_META, runRefresh } from "./lib/client.mjs";
export default {
  id: "C04", ...CLIENT_META, build: buildClientBundle, quickRuns: 8000, thoroughRuns: 300000,
  scenarios: [
    { name: "refresh", weight: 1, run: (s, c) => runRefresh(s, c) },
  ],
  rule: "one evaluation = one seeded execution of up to three processes sharing one login while its tokens expire and rotate; distinct = distinct event-log digests",
};
