// D05: downloaded sessions and replays are complete and listed truthfully.
import { buildSessions, runSessions, SESSIONS_META } from "./lib/sessions.mjs";
export default {
  id: "D05", ...SESSIONS_META, build: buildSessions, quickRuns: 5000, thoroughRuns: 80000,
  scenarios: [{ name: "sessions", weight: 1, run: (s, c) => runSessions(s, c) }],
  rule: "one evaluation = one seeded history of download and relevant-sessions commands into shared directories, with network and disk faults, sessions that are gone, and interrupted commands; distinct = distinct event-log digests",
};
