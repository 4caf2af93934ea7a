// V02: the edited lines a lookup of relevant sessions is asked for are the edited lines.
import { GIT_META, buildGitBundle, runGitCommand } from "./lib/cli-git.mjs";
export default {
  id: "V02", ...GIT_META, build: buildGitBundle, quickRuns: 6000, thoroughRuns: 400000,
  scenarios: [{ name: "edited", weight: 1, run: (s, c) => runGitCommand(s, c, "relevant") }],
  rule: "one evaluation = one seeded lookup of relevant sessions from a repository, a git that fails and a user who keeps working; distinct = distinct event-log digests",
};
