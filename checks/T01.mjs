// T01: the tunnel carries each exchange faithfully and in isolation.
import { TUNNEL_META, buildTunnel, runCarry } from "./lib/tunnel.mjs";
export default {
  id: "T01", ...TUNNEL_META, build: buildTunnel, quickRuns: 6000, thoroughRuns: 150000,
  scenarios: [{ name: "carry", weight: 1, run: (s, c) => runCarry(s, c) }],
  rule: "one evaluation = one seeded run of a tunnel with several exchanges; distinct = distinct event-log digests",
};
