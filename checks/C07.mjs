// C07: the login and the project in use are the ones the user chose.
import { ACCOUNT_META, buildAccount, runAccount } from "./lib/account.mjs";
export default {
  id: "C07", ...ACCOUNT_META, build: buildAccount, quickRuns: 6000, thoroughRuns: 300000,
  scenarios: [{ name: "history", weight: 1, run: (s, c) => runAccount(s, c) }],
  rule: "one evaluation = one seeded history of login, logout, project and query commands in one or two terminals; distinct = distinct event-log digests",
};
