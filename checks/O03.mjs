// O03: onboarding uses the project and app the user meant and tells the agent the truth.
import { ONBOARD_PROJECT_META, buildOnboardProject, runOnboardProject } from "./lib/onboard-project.mjs";
export default {
  id: "O03", ...ONBOARD_PROJECT_META, build: buildOnboardProject, quickRuns: 9000, thoroughRuns: 300000,
  scenarios: [{ name: "decide", weight: 1, run: (s, c) => runOnboardProject(s, c) }],
  rule: "one evaluation = one seeded onboarding of a generated repository; distinct = distinct event-log digests",
};
