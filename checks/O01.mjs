// O01: onboarding writes only inside the repository and runs none of its code.
import { ONBOARD_META, buildOnboardBundle, runOnboard } from "./lib/onboard.mjs";
export default {
  id: "O01", ...ONBOARD_META, build: buildOnboardBundle, quickRuns: 5000, thoroughRuns: 300000,
  scenarios: [{ name: "contain", weight: 1, run: (s, c) => runOnboard(s, c, "contain") }],
  rule: "one evaluation = one seeded sequence of onboarding runs in one (possibly hostile) repository; distinct = distinct event-log digests",
};
