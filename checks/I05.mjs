// I05: agent commands ask for exactly what was given and print exactly the answer.
import { AGENT_META, buildAgentBundle, runAgent } from "./lib/cli-agent.mjs";
export default {
  id: "I05", ...AGENT_META, build: buildAgentBundle, quickRuns: 8000, thoroughRuns: 400000,
  scenarios: [{ name: "command", weight: 1, run: (s, c) => runAgent(s, c) }],
  rule: "one evaluation = one seeded run of one command with drawn arguments against a service with drawn answers and failures; distinct = distinct event-log digests",
};
