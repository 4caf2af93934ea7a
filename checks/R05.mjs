// R05: a build or run is created with exactly the options it was asked for.
import { OPTIONS_META, buildOptionsBundle, runOrders } from "./lib/launch-options.mjs";
export default {
  id: "R05", ...OPTIONS_META, build: buildOptionsBundle, quickRuns: 4000, thoroughRuns: 250000,
  scenarios: [
    { name: "orders", weight: 1, run: (s, c) => runOrders(s, c) },
  ],
  rule: "one evaluation = one seeded execution of one or two concurrent orders (library calls or commands) with random options under random faults, every request compared with its order; distinct = distinct event-log digests",
};
