// I04: installing a browser never runs a half-installed one.
import { BROWSER_META, buildBrowser, runEnsureBrowser } from "./lib/browser-install.mjs";
export default {
  id: "I04", ...BROWSER_META, build: buildBrowser, quickRuns: 6000, thoroughRuns: 400000,
  scenarios: [{ name: "ensure", weight: 1, run: (s, c) => runEnsureBrowser(s, c) }],
  rule: "one evaluation = one seeded sequence of processes resolving the browser; distinct = distinct event-log digests",
};
