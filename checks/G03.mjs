// G03: a debug workspace that is ready holds no recorded credential.
import { buildWorkspace, DEBUG_META, runWorkspace } from "./lib/debug-workspace.mjs";
export default {
  id: "G03", ...DEBUG_META,
  real: ["packages/debug-workspace/src (the whole pipeline: context, downloads, redaction, logs, derived files, context.json)", "packages/downloading-helpers/src", "packages/client/src", "packages/common/src", "npm p-limit 3.1.0"],
  stubs: [...DEBUG_META.stubs, "diff: a program that removes every old line and adds every new one", "prettier: identity", "git: absent"],
  build: buildWorkspace, quickRuns: 3000, thoroughRuns: 200000,
  scenarios: [{ name: "workspace", weight: 1, run: (s, c) => runWorkspace(s, c) }],
  rule: "one evaluation = one seeded sequence of workspace builds over recordings with credentials, with failures and crashes between them; distinct = distinct event-log digests",
};
