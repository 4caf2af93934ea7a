// G04: the code in a debug workspace is the commit's, and cleaning up deletes workspaces only.
import { buildDebugCode, CODE_META, runDebugCode } from "./lib/debug-code.mjs";
export default {
  id: "G04", ...CODE_META, build: buildDebugCode, quickRuns: 4000, thoroughRuns: 200000,
  scenarios: [{ name: "code", weight: 1, run: (s, c) => runDebugCode(s, c) }],
  rule: "one evaluation = one seeded sequence of debug and clean commands and of things users do to workspaces, from different directories; distinct = distinct event-log digests",
};
