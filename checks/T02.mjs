// T02: opening retries, failures are reported once, closing ends everything.
import { TUNNEL_META, buildTunnel, runLife } from "./lib/tunnel.mjs";
export default {
  id: "T02", ...TUNNEL_META, build: buildTunnel, quickRuns: 25000, thoroughRuns: 200000,
  scenarios: [{ name: "life", weight: 1, run: (s, c) => runLife(s, c) }],
  rule: "one evaluation = one seeded life of a tunnel (opening, failures, closing); distinct = distinct event-log digests",
};
