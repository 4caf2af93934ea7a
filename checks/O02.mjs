// O02: onboarding configures the agents exactly once and keeps the user's settings.
import { ONBOARD_META, buildOnboardBundle, runOnboard } from "./lib/onboard.mjs";
export default {
  id: "O02", ...ONBOARD_META, build: buildOnboardBundle, quickRuns: 5000, thoroughRuns: 300000,
  scenarios: [{ name: "configure", weight: 1, run: (s, c) => runOnboard(s, c, "configure") }],
  rule: "one evaluation = one seeded sequence of onboarding runs in one repository; distinct = distinct event-log digests",
};
