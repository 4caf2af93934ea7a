// C05: login flows end truthfully.
import { buildClientBundle, CLIENT_META, runBrowserLogin, runDeviceLogin } from "./lib/client.mjs";
export default {
  id: "C05", ...CLIENT_META, build: buildClientBundle, quickRuns: 9000, thoroughRuns: 300000,
  scenarios: [
    { name: "browser", weight: 1, run: (s, c) => runBrowserLogin(s, c) },
    { name: "device", weight: 1, run: (s, c) => runDeviceLogin(s, c) },
  ],
  rule: "one evaluation = one seeded execution of concurrent browser or device logins with honest, foreign, late and missing answers; distinct = distinct event-log digests",
};
