// Harness for the agent and auth commands that ask the service something and
// print its answer. The real handlers run, with arguments as the command line
// gives them, against a service whose answers are drawn by the seed and which
// fails, loses answers and refuses; the oracle compares what was asked with the
// arguments, and what was printed with the answers that were delivered.
import { isDeepStrictEqual } from "node:util";
import { bundle } from "../../sim/bundle.mjs";
import { Disk } from "../../sim/fs.mjs";
import { realPackages } from "../../sim/npm.mjs";
import { simFetch } from "../../sim/net.mjs";
import { mkProc } from "./downloads.mjs";

const CMD = "packages/cli/src/commands/";
const FILES = {
  sessions: ["agent/sessions", "sessionsCommand"], comments: ["agent/diff-comments", "diffCommentsCommand"], comment: ["agent/create-diff-comment", "createDiffCommentCommand"], reply: ["agent/reply-to-diff-comment", "replyToDiffCommentCommand"],
  ignore: ["agent/ignore-diff", "ignoreDiffCommand"], reject: ["agent/reject-diff", "rejectDiffCommand"], feedback: ["agent/submit-feedback", "submitFeedbackCommand"], dom: ["agent/screenshot-dom-diff", "domDiffCommand"], timeline: ["agent/timeline", "timelineDiffCommand"],
  urls: ["agent/screenshot-image", "imageUrlsCommand"], images: ["agent/screenshot-image-files", "imageFilesCommand"], covDiff: ["agent/js-coverage-diff", "jsCoverageDiffCommand"], cov: ["agent/js-coverage", "jsCoverageCommand"], diffs: ["agent/test-run-diffs", "testRunDiffsCommand"],
  forCommit: ["agent/test-run-for-commit", "testRunForCommitCommand"], whoami: ["auth/whoami", "whoamiCommand"], getProject: ["auth/get-project", "getProjectCommand"], setProject: ["auth/set-project", "setProjectCommand"], projects: ["auth/list-projects", "listProjectsCommand"],
};
export const AGENT_META = {
  real: ["packages/cli/src/commands/agent (sessions, diff comments and reviews, feedback, DOM and timeline diffs, screenshot images, JS coverage, test run diffs, test run lookup)", "packages/cli/src/commands/auth/{whoami,get-project,set-project,list-projects}.command.ts", "packages/cli/src/utils, command-utils", "packages/client/src (api, client, errors, oauth)", "packages/downloading-helpers/src/file-downloads", "packages/common/src"],
  stubs: ["API service and image storage: simulated network with lost, cut, stalled, refused and failed answers", "argument parsing: defaults and coercions of the command's own builder are applied as yargs would", "axios, cli-progress, loglevel, @sentry/node, inquirer: trivial", "fs: simulated disk"],
  assumptions: ["ids are made of letters, digits, dashes and underscores", "every request of one command carries one token", "a retried write may be applied twice by a service that lost its own answer; the command's part is one request at a time and none after an answer"],
};
let built;
export const buildAgentBundle = async () => (built ??= { cli: (await bundle(Object.fromEntries(Object.entries(FILES).map(([k, [f]]) => [k, `${CMD}${f}.command.ts`])), { real: realPackages() })).code });

const json = (status, body) => ({ status, headers: { "content-type": "application/json" }, body: JSON.stringify(body) });
const DAY = 86400e3;
const SHOTS = ["after-event-5", "end-state", "screenshot-after-event-12", "story--primary (dark)", "a/b/c", "100%", "what?", "frag#1", "ünï cödé", "../up", "x&y=z", "a b+c"];
const WORDS = ["login", "checkout page", "ça", "50% off", "a=b&c", "line one\nline two", "tab\there", "\"quoted\"", "# head", "x".repeat(300), "<b>"];
const squash = (s) => String(s).replace(/\\+[tnr]|\s+/g, "").replace(/\\"/g, '"');
const STATUS_OK = ["Success", "Failure"];

/** Draws a command with its arguments: what it must ask, and what it must print */
const draw = (sim, kind) => {
  const id = (p) => `${p}-${sim.pick("a:id", ["k3_Ab", "0", "ZZZ9", "a-b_c"])}`; const shot = sim.pick("a:shot", SHOTS); const word = () => sim.pick("a:word", WORDS); const flag = (n, p = 0.4) => sim.chance(`a:${n}`, p); const n = sim.pick("a:n", [0, 1, 2, 3, 7, 12]);
  const many = (f, k = n) => { const r = []; for (let i = 0; i < k; i++) r.push(f(i)); return r; };
  const project = flag("project") ? sim.pick("a:proj", ["org/proj", "My Org/My App & more", "p1"]) : undefined; const asJson = flag("json", 0.5);
  const P = project === undefined ? {} : { project }; const rd = id("rd"); const sh = (tail) => `agent/replay-diffs/${rd}/screenshots/${encodeURIComponent(shot)}/${tail}`;
  const ranges = () => many((i) => { const a = 1 + i * 10 + sim.int("a:r", 0, 3); return [a, a + sim.int("a:rl", 0, 4)]; }, sim.int("a:rn", 0, 3)); const rs = (v) => (v ?? []).map(([a, b]) => (a === b ? `${a}` : `${a}-${b}`)).join(";");
  const get = (path, query, answer, o) => ({ method: "GET", path, query: query ?? {}, body: undefined, answer, ...o });
  const table = (header, rows) => ({ header, rows }); const on = (...pairs) => Object.fromEntries(pairs.filter(([, v]) => v).map(([k]) => [k, "true"]));
  const hint = (empty) => (empty && project === undefined ? [get("agent/project", {}, sim.pick("a:cur", [{ project: "o/p", projectId: "p", source: "user-default" }, { project: "o/q", projectId: "q", source: "auto-picked" }, { project: "o/r", projectId: "r", source: "api-token" }]), { optional: true, hint: true })] : []);
  const given = (o) => Object.fromEntries(Object.entries(o).filter(([, v]) => v !== undefined && v !== false));
  switch (kind) {
    case "sessions": {
      const date = (x) => (flag(x, 0.2) ? sim.pick("a:date", ["2026-07-01", "2026-07-01T10:00:00+02:00"]) : undefined); const a = { project, createdSince: date("cs"), createdUntil: date("cu"), recordedSince: date("rs"), recordedUntil: date("ru"), recordedBy: flag("by", 0.3) ? sim.pick("a:who", ["a+b@x.io", "u1"]) : undefined, excludeSyntheticSessions: flag("ex"), visitedUrlFilter: flag("vf", 0.3) ? "*/check out?a=1&b=*" : undefined, includeDurationSeconds: flag("i1"), includeNumberUserEvents: flag("i2"), includeNumberUrlsVisited: flag("i3"), includeStartUrl: flag("i4"), includeAbandonedReason: flag("i5"), limit: sim.pick("a:limit", [undefined, undefined, n || 1, 1, 1000, 12]), offset: sim.pick("a:off", [undefined, undefined, 0, 5, 1e6]) };
      const bad = sim.chance("a:bad", 0.06); if (bad) { if (flag("badl", 0.5)) a.limit = sim.pick("a:badl", [0, 1001, 1.5, -1, NaN]); else a.offset = sim.pick("a:bado", [-1, 0.5, NaN]); }
      const items = many((i) => ({ id: `s${i}`, createdAt: "2026-07-01T00:00:00Z", recordedAt: `2026-06-0${1 + (i % 9)}`, ...(i % 3 ? { recordedBy: "a@x.io" } : {}), ...(a.excludeSyntheticSessions ? {} : { status: "original" }), ...(a.includeDurationSeconds && i % 2 ? { durationSeconds: i * 1.5 } : {}), ...(a.includeNumberUserEvents ? { numberUserEvents: i } : {}), ...(a.includeNumberUrlsVisited ? { numberUrlsVisited: i + 1 } : {}), ...(a.includeStartUrl ? { startUrl: "https://x/?a=b" } : {}), ...(a.includeAbandonedReason && i % 2 ? { abandonedReason: "too-large" } : {}) }), Math.min(n, a.limit >= 1 ? a.limit : 100));
      const cols = ["id", "createdAt", "recordedAt", "recordedBy", ...(a.excludeSyntheticSessions ? [] : ["status"]), ...[["durationSeconds", a.includeDurationSeconds], ["numberUserEvents", a.includeNumberUserEvents], ["numberUrlsVisited", a.includeNumberUrlsVisited], ["startUrl", a.includeStartUrl], ["abandonedReason", a.includeAbandonedReason]].filter(([, v]) => v).map(([k]) => k)];
      return { args: given(a), bad, asks: [get("agent/sessions", Object.fromEntries(Object.entries(given(a)).map(([k, v]) => [k, String(v)])), { sessions: items }), ...hint(items.length === 0)], json: items, table: items.length ? table(cols, items.map((s) => cols.map((c) => s[c] ?? ""))) : { lines: [] }, says: items.length ? [new RegExp(`^${items.length} session`), ...(items.length >= (a.limit ?? 100) ? [/more may be available/] : [])] : [/No recorded sessions/], unsays: items.length < (a.limit ?? 100) ? [/more may be available/] : [] };
    }
    case "comments": {
      const res = flag("res"); const one = (p) => ({ id: p, ...(flag("auth", 0.7) ? { author: "Ann" } : {}), isAgentAuthored: flag("ag"), text: word() }); const items = many((i) => ({ ...one(`c${i}`), x: sim.pick("a:x", [0, 0.5, 1, 0.123456789]), y: 0.25, ...(res ? { isResolved: flag("isres") } : {}), replies: many((j) => one(`c${i}r${j}`), sim.int("a:replies", 0, 3)) }));
      const row = (c, t, parent) => [c.id, parent, c.author ?? "", c.isAgentAuthored, JSON.stringify(c.text), t.x.toFixed(5), t.y.toFixed(5), ...(res ? [t.isResolved ?? false] : [])];
      return { args: given({ replayDiffId: rd, screenshotName: shot, includeResolved: res }), asks: [get(sh("comments"), on(["includeResolved", res]), items)], json: items, table: table(["id", "replyToCommentId", "author", "isAgentAuthored", "text", "x", "y", ...(res ? ["isResolved"] : [])], items.flatMap((c) => [row(c, c, ""), ...c.replies.map((r) => row(r, c, c.id))])) };
    }
    case "comment": case "ignore": case "reject": {
      const text = word(), x = sim.pick("a:x", [0, 0.5, 1, 0.333]), y = sim.pick("a:y", [0, 1, 0.75]); const key = kind === "comment" ? "text" : "reason"; const answer = { commentId: id("cm") };
      return { args: { replayDiffId: rd, screenshotName: shot, [key]: text, x, y }, asks: [{ method: "POST", path: sh({ comment: "comments", ignore: "ignore", reject: "reject" }[kind]), query: {}, body: { [key]: text, x, y }, answer }], json: answer, table: { lines: [answer.commentId] } };
    }
    case "reply": { const c = id("cm"), text = word(), answer = { commentId: id("rp") }; return { args: { commentId: c, text }, asks: [{ method: "POST", path: `agent/diff-comments/${c}/replies`, query: {}, body: { text }, answer }], json: answer, table: { lines: [answer.commentId] } }; }
    case "feedback": {
      const b = given({ message: word(), outcome: flag("oc") ? sim.pick("a:oc", ["helped", "neutral", "hindered"]) : undefined, testRunId: flag("tr") ? id("run") : undefined, skill: flag("sk") ? word() : undefined, agentName: flag("an") ? "claude-code" : undefined, agentModel: flag("am") ? "m-5" : undefined }); const answer = { feedbackId: id("fb") };
      return { args: { ...b, ...P }, asks: [{ method: "POST", path: "agent/feedback", query: P, body: b, answer }], json: answer, table: { lines: [answer.feedbackId] }, says: [/Feedback submitted/], quietOnFailure: /Feedback submitted/ };
    }
    case "dom": {
      const context = sim.pick("a:ctx", [undefined, "0", "3", "full"]); const diffs = many((i) => ({ index: i * 2, content: `@@ -1 +1 @@\n-${word()}\n+b` })); const lines = diffs.flatMap((d) => [`[diff ${d.index}]`, d.content]);
      return { args: given({ replayDiffId: rd, screenshotName: shot, context }), asks: [get(sh("dom-diff"), given({ context }), { diffs })], json: diffs, table: { lines }, says: diffs.length ? [] : [/No differences found/] };
    }
    case "timeline": {
      const entries = many((i) => ({ status: sim.pick("a:st", ["identical", "removed", "added", "changed"]), timeMs: i * 10.5, eventKind: sim.pick("a:ek", ["click", "jsReplay", "navigation"]), description: word() }));
      return { args: { replayDiffId: rd }, asks: [get(`agent/replay-diffs/${rd}/timeline-diff`, {}, { entries })], json: entries.map((e) => ({ diff: e.status, timeMs: e.timeMs, event: e.eventKind, description: e.description })), table: table(["diff", "timeMs", "event", "description"], entries.map((e) => [{ identical: " ", removed: "-", added: "+", changed: "!" }[e.status], e.timeMs, e.eventKind, e.description])) };
    }
    case "urls": case "images": {
      const u = { outcome: sim.pick("a:oc", ["diff", "no-diff", "missing-base", "flake"]) }; for (const k of ["before", "after", "diffImage"]) if (flag(k, 0.7)) u[k] = `https://images.sim/${k}?sig=${rd}`;
      const lines = [`outcome:\t${u.outcome}`, ...["before", "after", "diffImage"].filter((k) => u[k]).map((k) => `${k}:\t${u[k]}`)];
      return { args: { replayDiffId: rd, screenshotName: shot }, asks: [get(sh("image-urls"), {}, u)], json: u, table: { lines }, images: kind === "images" ? u : undefined };
    }
    case "covDiff": {
      const glob = sim.pick("a:glob", [undefined, "src/**/*.{ts,tsx}"]); const withShot = flag("ws", 0.5); const diff = many((i) => ({ filePath: `src/f ${i}.ts`, status: sim.pick("a:cs", ["added", "removed", "modified"]), baseRanges: ranges(), headRanges: ranges() }));
      return { args: given({ replayDiffId: rd, screenshotName: withShot ? shot : undefined, globFilter: glob }), asks: [get(withShot ? sh("js-coverage-diff") : `agent/replay-diffs/${rd}/js-coverage-diff`, given({ globFilter: glob }), { base: [], head: [], diff })], json: diff.map((d) => ({ repoFilePath: d.filePath, status: d.status, baseRanges: d.baseRanges, headRanges: d.headRanges })), table: table(["repoFilePath", "status", "baseRanges", "headRanges"], diff.map((d) => [d.filePath, d.status, rs(d.baseRanges), rs(d.headRanges)])), says: [new RegExp(`^${diff.length} file\\(s\\).*\\(${["added", "removed", "modified"].map((k) => `${diff.filter((d) => d.status === k).length} ${k}`).join(", ")}\\)`)] };
    }
    case "cov": {
      const how = sim.pick("a:how", ["run", "runs", "latest", "replay", "replay", "commit"]); const all = flag("all"), glob = sim.pick("a:glob", [undefined, "src/**"]), pr = how !== "latest" && how !== "replay" && flag("pr", 0.3); const c = { includeExecutedRanges: flag("c1"), includeExecutableRanges: flag("c2"), includeUncoveredRanges: flag("c3"), includeCoveragePercentage: flag("c4") };
      const common = given({ includeAllFiles: all, globFilter: glob }); const q0 = Object.fromEntries(Object.entries(common).map(([k, v]) => [k, String(v)])); const run = (rid) => get(`test-runs/${rid}`, {}, { id: rid, status: sim.pick("a:rs", STATUS_OK), configData: {}, resultData: {} });
      if (how === "replay") {
        const rp = id("rp"), withShot = flag("ws", 0.5), by = sim.pick("a:by", [null, null, "run", "commit"]); const files = many((i) => [`src/f ${i}.ts`, ranges()]); const run1 = id("run");
        return { args: given({ replayId: rp, screenshotName: withShot ? shot : undefined, ...common, ...(by === "run" ? { testRunId: run1 } : {}), ...(by === "commit" ? { commitSha: "abc", ...P } : {}), includeExecutedRanges: flag("c1") }), asks: [...(by === "commit" ? [get("agent/test-runs", { commitSha: "abc", ...P }, { testRunId: run1, status: "Success", commitSha: "abc" })] : []), get(withShot ? `agent/replays/${rp}/screenshots/${encodeURIComponent(shot)}/js-coverage` : `agent/replays/${rp}/js-coverage`, { ...q0, ...(by ? { testRunId: run1 } : {}) }, { files })], json: files.map(([repoFilePath, executedRanges]) => ({ repoFilePath, executedRanges })), table: table(["repoFilePath", "executedRanges"], files.map(([f, r]) => [f, rs(r)])), says: [new RegExp(`^${files.length} file`)] };
      }
      const none = !Object.values(c).some(Boolean); const cols = [["executedRanges", c.includeExecutedRanges || none], ["executableRanges", c.includeExecutableRanges], ["uncoveredRanges", c.includeUncoveredRanges], ["coveragePercentage", c.includeCoveragePercentage]].filter(([, v]) => v).map(([k]) => k);
      const files = many((i) => ({ repoFilePath: `src/f ${i}.ts`, ...Object.fromEntries(cols.map((k) => [k, k === "coveragePercentage" ? sim.pick("a:pct", [0, 12.345, 100, null]) : ranges()])) })); const cell = (f, k) => (k === "coveragePercentage" ? (f[k] == null ? "n/a" : f[k].toFixed(1)) : rs(f[k]));
      const q = { clientVersion: "2", ...q0, ...on(["includeExecutedRanges", c.includeExecutedRanges || none], ["includeExecutableRanges", c.includeExecutableRanges], ["includeUncoveredRanges", c.includeUncoveredRanges], ["includeCoveragePercentage", c.includeCoveragePercentage], ["prDiffOnly", pr]) };
      const out = { json: files.map((f) => ({ repoFilePath: f.repoFilePath, ...Object.fromEntries(cols.map((k) => [k, f[k]])) })), table: table(["repoFilePath", ...cols], files.map((f) => [f.repoFilePath, ...cols.map((k) => cell(f, k))])) };
      if (how === "latest") { const rid = files.length && flag("lr", 0.9) ? id("run") : null; return { args: given({ latestForProject: true, ...P, ...common, ...c }), asks: [get("agent/projects/js-coverage", { ...q, ...P }, { testRunId: rid, files, ...(rid ? { commitSha: "abc" } : {}) }), ...hint(rid === null)], ...out, says: [rid ? new RegExp(`${rid}`) : /No successful test run/] }; }
      const r1 = id("run"); const extras = how === "run" || sim.chance("a:noextra", 0.3) ? [] : many((i) => `x${i}`, sim.int("a:extras", 1, 3)); const sep = sim.pick("a:sep", [",", ", ", ",,"]);
      const args = how === "run" ? { testRunId: r1 } : how === "runs" ? { testRunIds: [r1, ...extras].join(sep) } : { commitSha: "abc", ...P, ...(extras.length ? { headPlusTestRunIds: extras.join(sep) } : {}) };
      return { args: given({ ...args, ...common, ...c, prDiffOnly: pr }), asks: [...(how === "commit" ? [get("agent/test-runs", { commitSha: "abc", ...P }, { testRunId: r1, status: "Success", commitSha: "abc" }), { ...run(r1), optional: true }] : [run(r1)]), ...extras.map((x) => run(x)), get(`agent/test-runs/${r1}/js-coverage`, { ...q, ...(extras.length ? { unionTestRunIds: extras.join(",") } : {}) }, { files })], ...out, says: [new RegExp(`^${files.length} file`)] };
    }
    case "diffs": {
      const r1 = id("run"); const o = { includeReplayIds: flag("d1"), includeMismatchFraction: flag("d2"), includeDomDiffIds: flag("d3"), includeAllDiffs: flag("d4"), orderByReplayDiffs: flag("d5", 0.2), includeReviews: flag("d6"), includeReviewDecisions: flag("d6b", 0.15), onlyUnreviewed: flag("d7", 0.2), onlyRejected: flag("d8", 0.15), onlyWithComments: flag("d9", 0.15) }; const rev = o.includeReviews || o.includeReviewDecisions;
      const back = sim.pick("a:back", ["new", "new", "flat", "grouped"]); const selPart = flag("selpart", 0.15); const by = sim.pick("a:group", [(i) => i >> 1, (i) => i % 2, (i) => (i * 5) % 3]);
      const rows = many((i) => ({ replayDiffId: `d${by(i)}`, screenshotName: `shot ${i}`, ...(o.includeMismatchFraction && (i % 4 || back === "new") ? { mismatchFraction: sim.pick("a:mf", [0, 0.5, 0.123456]) } : {}), ...(o.includeDomDiffIds && i % 3 ? { domDiffIds: `${i},${i + 1}` } : {}), ...(rev ? { decision: sim.pick("a:dec", ["approved", "rejected", "unreviewed"]), openComments: i % 3 } : {}), ...(o.includeReplayIds ? { baseReplayId: `b${by(i)}`, headReplayId: `h${by(i)}` } : {}) }));
      const sel = rows.map((_, i) => flag("sel", 0.4) && !(selPart && i === 0)); const hasSel = rows.map((_, i) => !(selPart && i === 0)); let answer, shown = rows, capped = false;
      if (back === "new") answer = { status: "complete", data: rows, selectionApplied: flag("sa", 0.4), ...(rows.length ? { numMatchingDiffs: rows.length + 3 } : {}) };
      else {
        const withSel = rows.map((r, i) => ({ ...r, ...(hasSel[i] ? { isSelected: sel[i] } : {}) }));
        if (back === "flat") answer = { status: "complete", data: withSel };
        else { const groups = new Map(); withSel.forEach((r, i) => { const { replayDiffId, baseReplayId, headReplayId, ...s } = r; if (!groups.has(replayDiffId)) groups.set(replayDiffId, { replayDiffId, ...(baseReplayId ? { baseReplayId, headReplayId } : {}), screenshots: [] }); groups.get(replayDiffId).screenshots.push({ ...s, index: i * 3 }); }); answer = { status: "complete", data: sim.shuffle("a:groups", [...groups.values()]) }; }
        // an older service marks the representative diffs and leaves the choice to its client
        if (!o.includeAllDiffs && !o.onlyRejected && !o.onlyWithComments && rows.length > 5 && hasSel.every(Boolean) && sel.some(Boolean)) { shown = rows.filter((_, i) => sel[i]); capped = shown.length < rows.length; }
      }
      const cols = ["replayDiffId", "screenshotName", ...(o.includeMismatchFraction ? ["mismatchFraction"] : []), ...(o.includeDomDiffIds ? ["domDiffIds"] : []), ...(rev ? ["decision", "openComments"] : []), ...(o.includeReplayIds ? ["baseReplayId", "headReplayId"] : [])];
      const { includeReviews: _a, includeReviewDecisions: _b, ...rest } = o; const total = back === "new" ? (answer.selectionApplied ? answer.numMatchingDiffs : null) : capped ? rows.length : null; const byCommit = flag("byc", 0.3); const dead = flag("dead", 0.05) ? sim.pick("a:why", ["test-run-not-ready", "computation-error"]) : null;
      return { fails: !!dead, args: given({ ...o, ...(byCommit ? { commitSha: "abc", ...P } : { testRunId: r1 }) }), asks: [...(byCommit ? [get("agent/test-runs", { commitSha: "abc", ...P }, { testRunId: r1, status: "Failure", commitSha: "abc" })] : []), get(`test-runs/${r1}`, {}, { id: r1, status: sim.pick("a:rs", STATUS_OK), configData: {}, resultData: {} }, { optional: byCommit }), get(`agent/test-runs/${r1}/diffs-summary`, { clientVersion: "4", ...on(...Object.entries(rest), ["includeReviews", rev]) }, dead ? { status: "failed", reason: dead } : answer, { early: many(() => ({ status: sim.pick("a:early", ["pending", "processing"]) }), sim.pick("a:earlyN", [0, 0, 0, 1, 3])) })], json: shown, table: table(cols, shown.map((r) => cols.map((k) => (k === "mismatchFraction" ? (r[k] == null ? "" : r[k].toFixed(5)) : k === "openComments" ? r[k] ?? 0 : r[k] ?? "")))), says: [shown.length === 0 ? /does not have any diffs/ : total !== null ? new RegExp(`${shown.length} representative.*out of ${total} total`) : new RegExp(`^${shown.length} screenshot`)] };
    }
    case "forCommit": {
      const found = flag("found", 0.8); const answer = found ? { testRunId: id("run"), status: sim.pick("a:rs", [...STATUS_OK, "Aborted", "Partial"]), commitSha: "abc" } : { testRunId: null, status: null };
      return { args: { commitSha: "abc", ...P }, asks: [get("agent/test-runs", { commitSha: "abc", ...P }, answer), ...hint(!found)], json: answer, table: { lines: found ? [answer.testRunId] : [] }, says: found ? [] : [/No test run found/] };
    }
    case "whoami": {
      const via = sim.pick("a:via", ["oauth", "oauth", "project-api-token", "test-run-token"]); const a = { authenticatedVia: via, ...(via === "oauth" ? { email: "a@x.io", firstName: "Ann", lastName: "Lee", isAdmin: false, organizations: many((i) => ({ name: `org ${i}`, role: sim.pick("a:role", ["admin", null]) }), sim.int("a:orgs", 0, 2)) } : {}), selectedProject: flag("selp", 0.6) ? "o/p" : null };
      return { auth: true, jwt: via === "oauth", args: {}, asks: [get("agent/whoami", {}, a)], json: (v) => Object.entries(a).every(([k, x]) => isDeepStrictEqual(v[k], x)), table: { has: [a.email, a.selectedProject, ...(a.organizations ?? []).map((o) => o.name)].filter(Boolean) } };
    }
    case "getProject": { const a = { project: "My Org/My App", projectId: "p1", source: "user-default" }; return { auth: true, jwt: flag("jwt", 0.5), args: {}, asks: [get("agent/project", {}, a)], json: a, table: { lines: [a.project] } }; }
    case "projects": { const a = many((i) => ({ id: `p${i}`, name: `App ${i}`, organization: { name: "Org" } })); return { auth: true, jwt: true, stored: true, args: {}, asks: [get("agent/projects", {}, a)], json: a, table: { lines: a.map((p) => `Org/${p.name}`) }, says: a.length ? [] : [/No projects are accessible/] }; }
    case "setProject": {
      const named = flag("named", 0.7); const pad = named && flag("pad", 0.2) ? "  " : ""; const want = sim.pick("a:want", ["org/proj", "p1", "My App"]); const list = named ? [] : many((i) => ({ id: `p${i}`, name: `App ${i}`, organization: { name: "Org" } }), sim.int("a:np", 0, 3)); const only = list.length === 1; const answer = { project: "org/proj", projectId: "p1" }; const jwt = flag("jwt", 0.85);
      const put = { method: "PUT", path: "agent/project", query: {}, body: { project: named ? want : "p0" }, answer }; const listing = get("oauth/projects", {}, { projects: list }, { optional: named });
      return { auth: true, jwt, args: named ? { project: pad + want + pad } : {}, fails: !jwt || (!named && !only), asks: !jwt ? [] : named ? [put, listing] : only ? [listing, put] : [listing], json: answer, table: { lines: [] }, says: jwt && (named || only) ? [/Selected project: org\/proj/] : [], quietOnFailure: /Selected project/, named };
    }
  }
};

const KINDS = Object.keys(FILES);
export const runAgent = async (sim, { scripts }) => {
  const K = sim.prop; const kind = sim.pick("a:cmd", [...KINDS, "images", "images", "cov", "diffs", "sessions"]); const w = draw(sim, kind); const asJson = sim.chance("a:asjson", 0.5); const what = `${kind}${asJson ? " --json" : ""}`;
  const clockOffset = sim.pick("a:skew", [0, -3600e3, 86400e3]); const disk = new Disk(sim); disk.mkdir("/tmp", { recursive: true }); disk.mkdir("/data", { recursive: true });
  // ---- service, with its failures
  const pf = sim.pick("a:pf", [0, 0, 0.1, 0.3, 0.7]); let burst = 0, disturbed = 0; const refuse = w.asks.length && sim.chance("a:refuse", 0.1) ? { at: sim.pick("a:refat", w.asks), status: sim.pick("a:refst", [400, 401, 403, 404, 422]), message: `declined because ${sim.pick("a:why", ["it is closed", "not yours", "100% wrong"])}` } : null;
  const faultFor = (info) => { if (!pf) return null; if (burst <= 0) { if (!sim.chance("f:p", pf)) return null; burst = sim.pick("f:burst", [1, 1, 2, 3, 4, 12]); } burst--; disturbed++; const k = sim.pick("f:k", ["status", "status", "lost", "refuse", "stall", "cut", "slow"]); return k === "status" ? { kind: k, status: sim.pick("f:st", [500, 502, 503, 504, 429]) } : k === "slow" ? { kind: k, delay: sim.pick("f:sd", [500, 5e3, 30e3]) } : { kind: k, after: sim.int("f:after", 0, 2) }; };
  const matches = (a, e) => a.method === e.method && a.path === e.path && (/^test-runs\//.test(a.path) || isDeepStrictEqual(a.query, e.query)) && isDeepStrictEqual(a.body, e.body);
  const parse = (info) => ({ method: info.method, path: info.path.replace(/^\/api\//, ""), query: Object.fromEntries(new URL(info.url).searchParams), body: info.body?.length ? JSON.parse(String(info.body)) : undefined });
  const handle = (info, f) => { if (f?.kind === "status") return json(f.status, { statusCode: f.status, message: "try later", error: "x" }); const e = parse(info); const a = w.asks.find((x) => matches(x, e)); if (!a) return json(404, { statusCode: 404, message: "not here", error: "Not Found" }); if (refuse?.at === a) return json(refuse.status, { statusCode: refuse.status, message: refuse.message, error: "Refused" }); if (a.early?.length) { sim.probe("early"); return json(200, a.early.shift()); } return json(200, a.answer); };
  const blobs = new Map(); const gone = w.images && sim.chance("a:gone", 0.1) ? sim.pick("a:goneAt", ["before", "after", "diffImage"]) : null; for (const k of ["before", "after", "diffImage"]) blobs.set(k, Buffer.from(`${k}:${"0123456789".repeat(sim.int("a:blob", 1, 40))}`));
  const image = (info, f) => { if (f?.kind === "status") return { status: f.status, body: "try later" }; const k = info.path.replace(/^\//, ""); if (!blobs.has(k) || !info.url.includes("sig=")) return { status: 404, body: "no" }; if (gone === k) return { status: 403, body: "expired" }; const b = blobs.get(k); return { status: 200, headers: { "content-length": String(b.length), etag: `"${k}"` }, body: b }; };
  // ---- images left by earlier commands
  const DIR = "/data/agent-images"; const kept = new Map(); const stale = [];
  if (w.images && sim.chance("a:left", 0.7)) { for (let i = 0, n = sim.int("a:nleft", 1, 5); i < n; i++) { const age = sim.pick("a:age", [0, 3600e3, DAY - 1200e3, DAY + 60e3, 40 * DAY]); const where = sim.pick("a:where", ["", "", "", "sub/"]); const p = `${DIR}/${where}${1000 + i}_old_${i}.png`; disk.put(p, `old ${i}`); const wall = disk.get(p).mtimeMs; disk.get(p).mtimeMs = wall + clockOffset - age; (age > DAY && !where ? stale : kept.set(p, `old ${i}`)) && (age > DAY && !where) && stale.push(p); } }
  const outside = ["/data/config-copy.json", "/data/agent-images-2/x.png"]; for (const p of outside) { disk.put(p, "other"); disk.get(p).mtimeMs -= 40 * DAY; kept.set(p, "other"); }
  // ---- the command
  const b64 = (o) => Buffer.from(JSON.stringify(o)).toString("base64url"); const jwt = `${b64({ alg: "x" })}.${b64({ exp: 4e9, sub: "u" })}.sig`; const token = w.auth ? (w.jwt ? jwt : "prat-token") : sim.pick("a:tok", ["t0k", jwt]);
  const fsOn = { p: w.images ? sim.pick("a:fs", [0, 0, 0, 0.05]) : 0 }; let fsHit = 0;
  const proc = mkProc(sim, disk, "cli", { handle: image, faultFor }, { clockOffset, tty: false, argv: ["node", "meticulous"], fsLatency: [0, 3], fsFault: (op, p) => { if (!fsOn.p || !p.startsWith(DIR) || ["unlink", "stat", "readdir"].includes(op) || !sim.chance("f:fs", fsOn.p)) return null; fsHit++; return sim.pick("f:fsk", ["EIO", "ENOSPC", "EACCES"]); }, env: { METICULOUS_DIR: "/data", METICULOUS_IS_CLOUD_REPLAY: "true", CI: "true", ...(w.auth && !w.stored ? { METICULOUS_API_TOKEN: token } : {}) } });
  if (w.stored) disk.put("/data/oauth-tokens.json", JSON.stringify({ accessToken: token, refreshToken: "r", expiresAt: 4e9 }));
  proc.onUncaught = (e) => sim.violate(`${K}.uncaught`, `${what}: ${e?.stack ?? e}`);
  const log = []; const inner = simFetch(proc, { name: "api", latency: [1, 60], chunks: 2, undiciTimeouts: true, faultFor, handle });
  proc.opts.fetch = async (u, i) => {
    const url = new URL(String(u?.url ?? u)); const e = { at: sim.now, end: null, status: null, host: url.host, ...parse({ method: i?.method ?? "GET", path: url.pathname, url: String(url), body: i?.body }), auth: new Headers(i?.headers).get("authorization") }; log.push(e);
    const ended = (x) => { e.end = sim.now; if (x) e.err = x; };
    try { const r = await inner(u, i); e.status = r.status; for (const m of ["json", "text"]) { const orig = r[m].bind(r); r[m] = async () => { try { const v = await orig(); e.done = true; ended(); return v; } catch (x) { ended(x); throw x; } }; } return r; } catch (x) { ended(x); throw x; }
  };
  proc.factories["@inquirer/search"] = () => ({ __esModule: true, default: async () => { throw new Error("simulator: no prompt"); } });
  const m = proc.load(scripts.cli); const cmd = m[kind][FILES[kind][1]]; const args = { json: asJson }; let refused = false;
  try { for (const [k, o] of Object.entries(cmd.builder)) { const v = k in w.args ? (o.coerce ? o.coerce(w.args[k]) : w.args[k]) : o.default; if (v !== undefined && k !== "json") args[k] = v; } } catch { refused = true; }
  for (const k of Object.keys(w.args)) if (!(k in cmd.builder)) sim.violate(`${K}.option`, `${what} takes no --${k}`);
  if (w.bad || refused) { sim.check(refused === !!w.bad, `${K}.refused`, () => `${what}: ${refused ? "refused" : "accepted"} ${JSON.stringify(w.args)}`); sim.probe("badArgument"); return { sample: { kind } }; }
  if (!w.auth) args.apiToken = token;
  proc.at(0, () => { Promise.resolve().then(() => cmd.handler(args)).catch(() => {}); }, "start");
  const st = await sim.run(async () => { while (proc.alive) await sim.sleep(500); }, { maxTime: 2 * 3600e3, maxEvents: 200e3 });
  const sample = { kind }; if (st === "violation" || sim.stopped) return { sample };
  if (!sim.check(!proc.alive, `${K}.hang`, () => `${what} never ended (${st})`)) return { sample };
  // ---- what was asked
  const ok = (e) => e.done && !e.err && e.status < 300; const exit = proc.exitCode; const out = proc.consoleLines.filter((l) => l.startsWith("log ")).map((l) => l.slice(4)); const say = proc.consoleLines.filter((l) => !l.startsWith("log ")); const errs = say.map((l) => l.replace(/^\w+ /, ""));
  for (const e of log) {
    const a = w.asks.find((x) => matches(x, e)); if (!sim.check(a && e.host === "app.meticulous.ai", `${K}.unasked`, () => `${what} ${JSON.stringify(w.args)}: sent ${e.method} ${e.host} ${e.path} ${JSON.stringify(e.query)} ${JSON.stringify(e.body)}`)) return { sample };
    e.ask = a; sim.check(e.auth === token, `${K}.token`, () => `${what}: ${e.path} was sent with the authorization ${e.auth}`);
  }
  const last = (a) => log.filter((e) => e.ask === a).at(-1); const tries = (a) => log.filter((e) => e.ask === a);
  for (const a of w.asks) if (a.method !== "GET") { const t = tries(a); t.forEach((e, i) => { if (!i) return; const p = t[i - 1]; sim.check(p.end !== null && !ok(p) && p.end <= e.at, `${K}.repeated-write`, () => `${what}: ${a.method} ${a.path} was sent again ${ok(p) ? "although it had been answered" : "while the first was under way"}`); }); }
  if (sim.stopped) return { sample };
  const failedAsk = w.asks.find((a) => !a.hint && last(a) && !ok(last(a))); const open = w.asks.find((a) => !a.optional && !last(a));
  // ---- how it ended
  const shouldFail = !!w.fails || !!failedAsk;
  const quiet = () => { if (kind === "images" && !asJson && out.length === 1 && out[0] === `outcome:\t${w.images.outcome}`) return true; return out.length === 0; };
  if (shouldFail) {
    sim.check(exit !== 0, `${K}.false-success`, () => `${what}: ended with ${exit} although ${failedAsk ? `${failedAsk.path} failed (${last(failedAsk).status} ${last(failedAsk).err?.message ?? ""})` : "it cannot be done"}`);
    sim.check(quiet(), `${K}.output-of-failure`, () => `${what}: failed but printed ${JSON.stringify(out).slice(0, 300)}`);
    if (w.quietOnFailure) sim.check(!errs.some((l) => w.quietOnFailure.test(l)), `${K}.false-report`, () => `${what}: failed and reported ${JSON.stringify(errs)}`);
    sim.check(errs.some((l) => l.trim()), `${K}.silent`, () => `${what}: failed without a word`);
    if (failedAsk && refuse?.at === failedAsk && last(failedAsk).status === refuse.status && last(failedAsk).done) { sim.check(errs.some((l) => l.includes(refuse.message)), `${K}.reason`, () => `${what}: the service refused ${failedAsk.path} (${refuse.status}: ${refuse.message}), reported ${JSON.stringify(errs)}`); sim.probe(`refused:${kind}`); }
    else if (failedAsk && (last(failedAsk).err || last(failedAsk).status >= 429)) { sim.check(!errs.some((l) => /not found|not accessible|No test run found|does not exist/i.test(l)), `${K}.false-report`, () => `${what}: ${failedAsk.path} could not be answered (${last(failedAsk).status ?? last(failedAsk).err?.message}), reported ${JSON.stringify(errs)}`); sim.probe(`unanswered:${kind}`); }
    return { sample };
  }
  if (w.images && exit !== 0) { // an image could not be had
    sim.check(disturbed > 0 || fsHit > 0 || (gone && w.images[gone]), `${K}.false-failure`, () => `${what}: failed undisturbed: ${JSON.stringify(errs).slice(0, 400)}`); sim.check(quiet(), `${K}.output-of-failure`, () => `${what}: failed but printed ${JSON.stringify(out)}`);
    for (const [p, d] of kept) sim.check(String(disk.lookup(p)?.data ?? "") === d, `${K}.deleted`, () => `${what}: ${p} is gone or changed`); sim.probe("imageFailed"); return { sample };
  }
  if (!sim.check(exit === 0, `${K}.false-failure`, () => `${what} ${JSON.stringify(w.args)}: ended with ${exit} although every request was answered${open ? ` (never asked ${open.path})` : ""}: ${JSON.stringify(errs).slice(0, 400)}`)) return { sample };
  if (!sim.check(!open, `${K}.not-asked`, () => `${what} ${JSON.stringify(w.args)}: ended well without asking ${open.method} ${open.path} ${JSON.stringify(open.query)} ${JSON.stringify(open.body)}`)) return { sample };
  sim.probe(`ok:${kind}`); if (asJson) sim.probe("json");
  // ---- what was printed
  let got; if (asJson) { try { got = JSON.parse(out.join("\n")); } catch (e) { sim.violate(`${K}.json`, `${what}: printed ${JSON.stringify(out).slice(0, 400)}, which is not one JSON document`); return { sample }; } }
  if (w.images) {
    const files = asJson ? Object.entries(got) : out.map((l) => { const i = l.indexOf(":\t"); return [l.slice(0, i), l.slice(i + 2)]; }); const want = Object.keys(w.images);
    if (!sim.check(isDeepStrictEqual(files.map(([k]) => k), want) && files[0][1] === w.images.outcome, `${K}.output`, () => `${what}: printed ${JSON.stringify(out)}, the service has ${JSON.stringify(w.images)}`)) return { sample };
    for (const [k, p] of files.slice(1)) { sim.check(p.startsWith(`${DIR}/`) && !p.slice(DIR.length + 1).split("/").includes("..") && !kept.has(p), `${K}.outside`, () => `${what}: ${k} was put at ${p}`); sim.check(disk.lookup(p)?.data && Buffer.from(disk.lookup(p)?.data).equals(blobs.get(k)), `${K}.image`, () => `${what}: ${p} is not the ${k} image: ${disk.lookup(p)?.data ? `${disk.lookup(p)?.data.length} of ${blobs.get(k).length} bytes` : "missing"}`); }
    for (const [p, d] of kept) sim.check(String(disk.lookup(p)?.data ?? "") === d, `${K}.deleted`, () => `${what}: ${p} is gone or changed`);
    if (!fsHit) for (const p of stale) sim.check(!disk.lookup(p)?.data, `${K}.left-behind`, () => `${what}: ${p}, more than a day old, is still there`); if (stale.length) sim.probe("cleaned");
    return { sample };
  }
  if (asJson) { sim.check(typeof w.json === "function" ? w.json(got) : isDeepStrictEqual(got, JSON.parse(JSON.stringify(w.json))), `${K}.output`, () => `${what} ${JSON.stringify(w.args)}: printed ${JSON.stringify(got).slice(0, 500)}, the answer was ${JSON.stringify(w.asks.at(-1).answer).slice(0, 500)}`); }
  else if (w.table.has) { for (const x of w.table.has) sim.check(out.some((l) => l.includes(x)), `${K}.output`, () => `${what}: ${x} is not in ${JSON.stringify(out)}`); }
  else if (w.table.lines) sim.check(isDeepStrictEqual(out, w.table.lines.map(String)), `${K}.output`, () => `${what}: printed ${JSON.stringify(out).slice(0, 400)} instead of ${JSON.stringify(w.table.lines).slice(0, 400)}`);
  else {
    const lines = out.join("\n").split("\n"); const { header, rows } = w.table; if (!sim.check(lines[0] === header.join("\t"), `${K}.columns`, () => `${what} ${JSON.stringify(w.args)}: the columns are ${JSON.stringify(lines[0])} instead of ${JSON.stringify(header)}`)) return { sample };
    if (!sim.check(lines.length === rows.length + 1, `${K}.rows`, () => `${what}: ${lines.length - 1} rows for ${rows.length} items: ${JSON.stringify(lines).slice(0, 400)}`)) return { sample };
    rows.forEach((r, i) => { const c = lines[i + 1].split("\t"); sim.check(c.length === header.length && r.every((v, j) => (/[\t\n\r]/.test(String(v)) ? squash(c[j]) === squash(v) : c[j] === String(v))), `${K}.rows`, () => `${what} ${JSON.stringify(w.args)}: row ${i} is ${JSON.stringify(lines[i + 1]).slice(0, 300)} instead of ${JSON.stringify(r).slice(0, 300)}`); });
  }
  for (const re of w.says ?? []) sim.check(errs.some((l) => re.test(l)), `${K}.notice`, () => `${what} ${JSON.stringify(w.args)}: said ${JSON.stringify(errs)}, not ${re}`);
  for (const re of w.unsays ?? []) sim.check(!errs.some((l) => re.test(l)), `${K}.notice`, () => `${what} ${JSON.stringify(w.args)}: said ${JSON.stringify(errs)}`);
  const h = w.asks.find((a) => a.hint); if (h && last(h) && ok(last(h))) { sim.check(errs.some((l) => l.includes(h.answer.project)), `${K}.notice`, () => `${what}: the project searched, ${h.answer.project}, is not named in ${JSON.stringify(errs)}`); sim.probe("hint"); }
  return { sample };
};
