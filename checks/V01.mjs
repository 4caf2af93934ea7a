// V01: a build's commit, base and diff describe the tree that was there.
import { GIT_META, buildGitBundle, runGitCommand } from "./lib/cli-git.mjs";
export default {
  id: "V01", ...GIT_META, build: buildGitBundle, quickRuns: 6000, thoroughRuns: 400000,
  scenarios: [{ name: "describe", weight: 1, run: (s, c) => runGitCommand(s, c) }],
  rule: "one evaluation = one seeded run of a command that describes the working tree, against a repository, a git that fails and a user who keeps working; distinct = distinct event-log digests",
};
