// B01: `record session` and `record login` record what they should, report it and end properly.
import { BROWSER_RECORD_META, buildBrowserRecord, runBrowserLogin, runBrowserSession } from "./lib/browser-record.mjs";
export default {
  id: "B01", ...BROWSER_RECORD_META, build: buildBrowserRecord, quickRuns: 6000, thoroughRuns: 120000,
  scenarios: [{ name: "session", weight: 1, run: (s, c) => runBrowserSession(s, c) }, { name: "login", weight: 1, run: (s, c) => runBrowserLogin(s, c) }],
  rule: "one evaluation = one seeded history of recording commands with their browsers; distinct = distinct event-log digests",
};
