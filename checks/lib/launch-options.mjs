// R05 (and R06): what the launcher and the commands above it send is what they
// were asked for. Orders with random options, each under its own token, are
// placed through the library or the CLI; every request the service sees is
// compared with the order it was sent for.
import { isDeepStrictEqual } from "node:util";
import { bundle } from "../../sim/bundle.mjs";
import { Proc } from "../../sim/proc.mjs";
import { npmModules, realPackages } from "../../sim/npm.mjs";
import { LAUNCHER_META, archiveStream, buildLauncherBundle, checkTree, dockerModule, errText, makeTar, makeTree, noise, settled, world } from "./launcher.mjs";

const CMD = "packages/cli/src/commands/";
export const OPTIONS_META = {
  ...LAUNCHER_META,
  real: [...LAUNCHER_META.real, "packages/cli/src/commands/ci/{upload-assets,upload-container,upload-asset-chunk,run-with-uploaded-asset-chunks,agent-test,run}.command.ts", "packages/cli/src/commands/agent/{upload-build,trigger-test-run}.command.ts", "packages/cli/src/command-utils, utils"],
  stubs: [...LAUNCHER_META.stubs, "yargs: an option is its given value coerced, else its declared default", "ora, cli-progress, ci-info: trivial"],
};
let built;
export const buildOptionsBundle = async () => (built ??= { rl: (await buildLauncherBundle()).rl, cli: (await bundle({
  assets: CMD + "ci/upload-assets.command.ts", container: CMD + "ci/upload-container.command.ts", chunk: CMD + "ci/upload-asset-chunk.command.ts", chunks: CMD + "ci/run-with-uploaded-asset-chunks.command.ts", sessions: CMD + "ci/agent-test.command.ts", remote: CMD + "ci/run.command.ts",
  build: CMD + "agent/upload-build.command.ts", trigger: CMD + "agent/trigger-test-run.command.ts", common: "packages/common/src/index.ts",
}, { real: realPackages() })).code });

const PD = "project-deployments/", AG = "agentic-session-generation/";
const pathBase = (p) => p.replace(/\/\.$/, "").replace(/\/+$/, "");
const hex = (sim, n, c) => c.repeat(36) + String(1000 * n + sim.int("w:hex", 0, 999)).padStart(4, "0");
const REWRITES = [[{ source: "/(.*)", destination: "/index.html" }], [{ source: "/a/:x*", destination: "/b.html" }, { source: "**", destination: "/ü.html" }]];
const ENVS = [["A=1"], ["A=1", "B=b=c"], ["URL=https://x/?a=b&c=d", "X_1= sp ace ", "Ü=ü"]];
const parseEnv = (l) => l?.map((s) => ({ name: s.slice(0, s.indexOf("=")), value: s.slice(s.indexOf("=") + 1) }));
const maybe = (sim, p, f) => (sim.chance("w:opt", p) ? f() : undefined);

/** a random order: what is asked for, independent of how it is asked */
export const makeOrder = (sim, disk, n, { via, flow, image }) => {
  const dir = `/work/o${n}`; disk.mkdir(dir, { recursive: true });
  const jwt = via === "cli" ? sim.chance("w:jwt", 0.4) : sim.chance("w:jwt", 0.2); const w = { n, via, flow, dir, token: jwt ? `ey${n}.pay${n}.sig${n}` : `token-${n}`, files: null, zip: null, tar: null, extra: {} };
  w.commit = hex(sim, n, "c"); w.projectKnown = true;
  if (via === "cli") { if (jwt && !["trigger", "remote"].includes(flow)) { w.defaultProject = sim.chance("w:nodef", 0.06) ? null : `proj-${n}`; w.project = w.defaultProject ?? undefined; } if (flow === "trigger") w.project = maybe(sim, 0.4, () => sim.pick("w:prj", [`org ${n}/p & q`, `proj-${n}`])); }
  else if (flow !== "remote") w.project = maybe(sim, 0.5, () => `proj-${n}`);
  const source = () => { w.source = sim.pick("w:src", ["dir", "zip"]); if (w.source === "dir") w.files = makeTree(sim, disk, `${dir}/app`); else { w.zip = noise(sim, sim.pick("w:zlen", [1, 900, 30000])); disk.put(`${dir}/app.zip`, w.zip); } };
  const diff = () => maybe(sim, 0.5, () => `diff --git a/ü${n} b/ü${n}\n${"+x\n".repeat(sim.pick("w:dl", [0, 1, 2000]))}`);
  const container = () => { w.image = image; w.port = maybe(sim, 0.5, () => sim.int("w:port", 1, 65535)); w.envRaw = maybe(sim, 0.5, () => sim.pick("w:env", ENVS)); w.env = parseEnv(w.envRaw); w.health = maybe(sim, 0.5, () => `/health${n}?a=b`); };
  const companion = (kinds) => { const k = sim.pick("w:comp", kinds); if (k === "none") return; w.companion = { kind: k, regex: `^/static${n}/.*\\.js$` }; if (k === "folder") w.files = makeTree(sim, disk, `${dir}/comp`); if (k === "zip") { w.zip = noise(sim, sim.pick("w:zlen", [1, 900, 30000])); disk.put(`${dir}/comp.zip`, w.zip); } if (k === "image") { w.tar = new Map([["index.html", noise(sim, 700)], [`a/${n}.js`, noise(sim, 40)]]); w.companion.path = sim.pick("w:pii", [`/app/dist${n}`, `/app/dist${n}/`, `/app/dist${n}/.`]); } };
  const base = (p) => { w.base = maybe(sim, p, () => hex(sim, n, "b")); };
  switch (flow) {
    case "assets": base(0.6); w.diff = via === "cli" && !w.base ? undefined : diff(); source(); w.rewrites = maybe(sim, 0.6, () => sim.pick("w:rw", REWRITES)); w.wait = sim.chance("w:wait", 0.4); w.entry = via === "cli" ? "cli" : sim.pick("w:entry", ["uploadAssets", "trigger", "trigger", ...(w.source === "dir" ? ["tar"] : [])]); w.create = w.entry === "cli" || w.entry === "trigger" ? undefined : maybe(sim, 0.3, () => sim.chance("w:cd", 0.5)); break;
    case "container": base(0.6); w.diff = via === "cli" && !w.base ? undefined : diff(); container(); companion(["none", "none", "folder", "zip", "image"]); w.wait = sim.chance("w:wait", 0.4); w.entry = via === "cli" ? "cli" : sim.pick("w:entry", ["upload", "trigger"]); break;
    case "build": if (sim.chance("w:img", 0.4)) { container(); w.source = "image"; } else { source(); w.rewrites = maybe(sim, 0.6, () => sim.pick("w:rw", REWRITES)); } break;
    case "trigger": w.base = hex(sim, n, "b"); w.diff = via === "cli" ? diff() ?? "diff --git a b" : diff(); w.by = sim.pick("w:by", ["id", "commit"]); w.sessionIds = maybe(sim, 0.5, () => [`2026-01-0${n + 1}T00:00:00_a`, `s-${n}_p`, `x${n}`].slice(0, sim.int("w:ns", 1, 3))); if (via === "lib" && sim.chance("w:none", 0.1)) w.sessionIds = []; if (w.sessionIds?.length) w.max = sim.pick("w:max", [undefined, undefined, null, 1, 77 + n, 3600]); break;
    case "chunks": base(0.6); w.diff = via === "cli" && !w.base ? undefined : diff(); w.rewrites = maybe(sim, 0.6, () => sim.pick("w:rw", REWRITES)); w.wait = sim.chance("w:wait", 0.4); w.manifest = [{ name: `app${n}`, versionId: `v ${n}` }, sim.chance("w:look", 0.4) ? { name: "vendor", versionLookup: "latest-in-history" } : { name: "vendor", versionId: `${n}@1` }].slice(0, sim.int("w:ml", 1, 2)); w.filter = maybe(sim, 0.4, () => ({ type: "session-start-url-matches-any-regex", regexes: [`^/p${n}/`, "ü|\\d+"] })); w.create = via === "lib" ? maybe(sim, 0.25, () => sim.chance("w:cd", 0.4)) : undefined; break;
    case "chunk": w.name = `chunk ${n}`; w.version = `v${n}/ü`; w.files = makeTree(sim, disk, `${dir}/app`); w.prefix = maybe(sim, 0.4, () => sim.pick("w:pre", ["static/assets", "pre"])); w.force = sim.chance("w:force", 0.4); w.hasCommit = via === "cli" || sim.chance("w:cc", 0.5); w.source = "chunk"; break;
    case "sessions": {
      w.source = sim.pick("w:ss", ["image", "dir", "given"]); if (w.source === "image") { container(); w.mocks = maybe(sim, 0.5, () => sim.chance("w:mock", 0.6)); } if (w.source === "dir") w.files = makeTree(sim, disk, `${dir}/app`);
      w.text = maybe(sim, 0.5, () => sim.pick("w:txt", [`log in as ü${n}\n`, "   \n", `x${n}`.repeat(900)])); if (w.text !== undefined) disk.put(`${dir}/i.md`, Buffer.from(w.text));
      if (w.source !== "image") { w.origins = maybe(sim, 0.4, () => [`https://auth${n}.example`, "https://api.example"].slice(0, sim.int("w:on", 1, 2))); w.appPort = maybe(sim, 0.4, () => sim.int("w:ap", 1, 65535)); if (sim.chance("w:be", 0.5)) w.backend = { url: `https://staging${n}.example/x?y=z`, loginOptions: Object.fromEntries([["username", `user${n}`], ["password", `p"w\\${n}=ü`], ["totpSecret", `TOTP${n}`], ["skipEmailClientId2", `id-${n}`]].filter(() => sim.chance("w:lo", 0.7))), proxyPaths: sim.pick("w:pp", [["/api"], [`/api${n}`, "/gql"]]) }; }
      break;
    }
    case "remote": { companion(["none", "none", "folder", "zip"]); const url = sim.pick("w:url", [["http", "localhost", 3000 + n, `:${3000 + n}/`], ["http", "127.0.0.1", 80, "/x"], ["https", "app.local", 443, ""], ["https", `h${n}.local`, 8443, ":8443/a?b"]]); w.url = { https: url[0] === "https", host: url[1], port: url[2], text: `${url[0]}://${url[1]}${url[3]}` }; w.tunnelHost = maybe(sim, 0.4, () => `https://tun${n}.example`); for (const k of ["allowInvalidCert", "proxyAllUrls", "rewriteHostnameToAppUrl", "enableDnsCache", "silenceTunnelWorker", "postComment"]) w[k] = maybe(sim, 0.5, () => sim.chance("w:b", 0.7)); w.http2 = maybe(sim, 0.4, () => sim.int("w:h2", 1, 9)); w.ci = sim.chance("w:ci", 0.5) ? `Git Ci ${n}` : null;
      if (via === "lib") { w.environment = `env-${n}`; w.lockable = sim.chance("w:lk", 0.5); w.pr = maybe(sim, 0.4, () => `pr-${n}`); w.debug = maybe(sim, 0.4, () => ({ ref: `refs/${n}`, nested: { a: [n] } })); } else { w.environment = w.ci ? `cli-ci-${w.ci}` : "cli-local"; w.lockable = !!w.ci; w.enableDnsCache = true; w.script = maybe(sim, 0.3, () => `./trigger ${n}.sh`); w.inPr = sim.chance("w:inpr", 0.7); w.baseRun = sim.chance("w:hasbase", 0.4) ? 0 : sim.pick("w:baseRunAt", [15e3, 90e3, 9e9]); w.nested = w.script !== undefined && sim.chance("w:nested", 0.15); w.ran = []; } break; }
  }
  // a fixed decoration of the service's answers to this order
  w.extra = { message: maybe(sim, 0.3, () => `message ${n}`), overlaps: maybe(sim, 0.5, () => Array.from({ length: sim.int("w:ov", 0, 2) }, (_, i) => ({ path: `p${n}${i}`, upperChunk: { name: "u", versionId: `${n}` }, lowerChunk: { name: "l", versionId: "1" } }))), truncated: maybe(sim, 0.5, () => sim.chance("w:ot", 0.7)), preview: maybe(sim, 0.5, () => [{ path: `preview${n}`, upperChunk: { name: "u", versionId: "1" }, lowerChunk: { name: "l", versionId: "1" } }]), wf: sim.pick("w:wf", [`wf-${n}`, `wf-${n}`, null, undefined]) };
  return w;
};

// ------------------------------------------------------------------ asking
const clean = (o) => Object.fromEntries(Object.entries(o).filter(([, v]) => v !== undefined));
/** the library call that places the order */
export const libCall = (sim, L, w, svc, proc) => {
  const id = { apiToken: w.token, ...clean({ projectId: w.project }) }; const git = clean({ commitSha: w.commit, baseSha: w.base, gitDiffOutput: w.diff }); const cont = clean({ localImageTag: w.image, containerPort: w.port, containerEnv: w.env, containerHealthCheckEndpoint: w.health });
  const comp = w.companion ? { companionAssets: { regex: w.companion.regex, ...(w.companion.kind === "folder" ? { folder: `${w.dir}/comp` } : w.companion.kind === "zip" ? { zip: `${w.dir}/comp.zip` } : { pathInImage: w.companion.path }) } } : {};
  switch (w.flow) {
    case "assets": { const o = { ...id, ...git, waitForBase: w.wait, ...clean({ rewrites: w.rewrites, createDeployment: w.create }) }; if (w.entry === "trigger") return () => L.ua.uploadAssetsAndTriggerTestRun({ ...o, ...(w.source === "dir" ? { appDirectory: `${w.dir}/app` } : { appZip: `${w.dir}/app.zip` }) }); if (w.entry === "tar") { const buf = makeTar(w.files = new Map([[`t${w.n}`, noise(sim, 900)]])); return () => L.assets.uploadAssetsFromTarStream({ ...o, tarStream: archiveStream(sim, svc, buf, -1)(proc) }); } return () => w.source === "dir" ? L.rl.uploadAssets({ ...o, appDirectory: `${w.dir}/app` }) : L.rl.uploadAssetsFromZip({ ...o, zipPath: `${w.dir}/app.zip` }); }
    case "container": { const o = { ...id, ...git, waitForBase: w.wait, ...cont, ...comp }; return () => (w.entry === "trigger" ? L.uc.uploadContainerAndTriggerTestRun(o) : L.cont.uploadContainer(o)); }
    case "build": return () => L.build.uploadBuild({ ...id, commitSha: w.commit, ...(w.source === "image" ? cont : clean({ rewrites: w.rewrites, ...(w.source === "dir" ? { appDirectory: `${w.dir}/app` } : { appZip: `${w.dir}/app.zip` }) })) });
    case "trigger": return () => L.trig.triggerTestRun({ apiToken: w.token, baseSha: w.base, ...(w.by === "id" ? { deploymentId: w.dep } : { commitSha: w.commit }), ...clean({ gitDiffOutput: w.diff, sessionIds: w.sessionIds, maxDurationSeconds: w.max, project: w.project }) });
    case "chunks": return () => L.chunks.runWithUploadedAssetChunks({ client: L.client.createClient({ apiToken: w.token }), ...git, waitForBase: w.wait, rewrites: w.rewrites ?? [], assetReferencesManifest: w.manifest, ...clean({ createDeployment: w.create, sessionFilter: w.filter, projectId: w.project }) });
    case "chunk": return () => L.chunk.uploadAssetChunk({ ...id, chunkName: w.name, chunkVersionId: w.version, chunkAssetsDirectory: `${w.dir}/app`, force: w.force, ...clean({ chunkAssetsDirectoryPrefix: w.prefix, commitSha: w.hasCommit ? w.commit : undefined }) });
    case "sessions": return () => L.gen.generateSessions({ ...id, commitSha: w.commit, ...clean({ ...(w.source === "image" ? { ...cont, enableLocalMocks: w.mocks } : w.source === "dir" ? { assetsDirectory: `${w.dir}/app` } : { assetsUploadId: w.given }), instructionsFile: w.text === undefined ? undefined : `${w.dir}/i.md`, backend: w.backend, trustedOrigins: w.origins, appPort: w.appPort }) });
    case "remote": return () => L.exec.executeRemoteTestRun({ apiToken: w.token, appUrl: w.url.text, commitSha: w.commit, environment: w.environment, isLockable: w.lockable, ...comp, ...clean({ secureTunnelHost: w.tunnelHost, allowInvalidCert: w.allowInvalidCert, proxyAllUrls: w.proxyAllUrls, rewriteHostnameToAppUrl: w.rewriteHostnameToAppUrl, enableDnsCache: w.enableDnsCache, silenceTunnelWorker: w.silenceTunnelWorker, http2Connections: w.http2, postComment: w.postComment, pullRequestHostingProviderId: w.pr, debugContext: w.debug }) });
  }
};
/** the command line that places the order */
export const cliArgs = (sim, disk, w) => {
  const git = clean({ commitSha: w.commit, baseSha: w.base, gitDiffOutput: w.diff }); const cont = clean({ localImageTag: w.image, containerPort: w.port, containerEnv: w.envRaw, containerHealthCheckEndpoint: w.health }); const rw = w.rewrites ? { rewrites: JSON.stringify(w.rewrites) } : {};
  const comp = w.companion ? { companionAssetsRegex: w.companion.regex, ...(w.companion.kind === "folder" ? { companionAssetsFolder: `${w.dir}/comp` } : w.companion.kind === "zip" ? { companionAssetsZip: `${w.dir}/comp.zip` } : { companionAssetsPathInImage: w.companion.path }) } : {};
  const wait = w.base && w.diff && sim.chance("w:wfc", 0.3) ? { waitForTestRunToComplete: true } : {}; if (["assets", "container", "chunks"].includes(w.flow)) { if (wait.waitForTestRunToComplete) w.waits = true; if (!w.wait) wait.waitForBase = false; else if (sim.chance("w:wfbx", 0.3)) wait.waitForBase = true; if (w.waits) w.wait = true; }
  const src = w.source === "dir" ? { appDirectory: `${w.dir}/app` } : w.source === "zip" ? { appZip: `${w.dir}/app.zip` } : {};
  const a = { apiToken: w.token, ...git, ...comp };
  switch (w.flow) {
    case "assets": Object.assign(a, src, rw, wait); break;
    case "container": Object.assign(a, cont, wait); break;
    case "build": delete a.baseSha; delete a.gitDiffOutput; Object.assign(a, w.source === "image" ? cont : { ...src, ...rw }, { json: sim.chance("w:json", 0.5) }); break;
    case "trigger": if (w.by === "id") { delete a.commitSha; a.deploymentId = w.dep; } Object.assign(a, clean({ sessionIds: w.sessionIds?.join(sim.pick("w:sep", [",", ", ", " ,"])), maxDurationSeconds: w.max === undefined ? undefined : w.max === null ? sim.pick("w:none", ["none", " NONE "]) : String(w.max), project: w.project }), { json: sim.chance("w:json", 0.5) }, sim.chance("w:dw", 0.5) ? { dontWaitForTestRunToComplete: true } : {}); break;
    case "chunks": disk.put(`${w.dir}/m.json`, Buffer.from(JSON.stringify(w.manifest))); a.assetReferencesManifest = `${w.dir}/m.json`; if (w.filter) { disk.put(`${w.dir}/f.json`, Buffer.from(JSON.stringify({ [w.filter.type]: w.filter.regexes }))); a.sessionFilter = `${w.dir}/f.json`; } Object.assign(a, rw, wait); break;
    case "chunk": delete a.baseSha; delete a.gitDiffOutput; Object.assign(a, { chunkName: w.name, chunkVersionId: w.version, chunkAssetsDirectory: `${w.dir}/app` }, clean({ chunkAssetsDirectoryPrefix: w.prefix, force: w.force || undefined })); break;
    case "sessions": delete a.baseSha; delete a.gitDiffOutput; Object.assign(a, w.source === "image" ? { ...cont, ...clean({ enableLocalMocks: w.mocks }) } : w.source === "dir" ? { assetsDir: `${w.dir}/app` } : { assetsUploadId: w.given }, clean({ instructionsFile: w.text === undefined ? undefined : `${w.dir}/i.md`, trustedOrigins: w.origins, appPort: w.appPort, backendUrl: w.backend?.url, backendProxyPaths: w.backend && !isDeepStrictEqual(w.backend.proxyPaths, ["/api"]) ? w.backend.proxyPaths : undefined })); break;
    case "remote": delete a.baseSha; delete a.gitDiffOutput; Object.assign(a, { appUrl: w.url.text, hadPreparedForTests: false }, clean({ secureTunnelHost: w.tunnelHost, allowInvalidCert: w.allowInvalidCert, proxyAllUrls: w.proxyAllUrls, rewriteHostnameToAppUrl: w.rewriteHostnameToAppUrl, silenceTunnelWorker: w.silenceTunnelWorker, http2Connections: w.http2, postComment: w.postComment, triggerScript: w.script, redactPassword: maybe(sim, 0.5, () => true) })); break;
  }
  return a;
};
const COMMAND = { assets: "ciUploadAssetsCommand", container: "ciUploadContainerCommand", chunk: "ciUploadAssetChunkCommand", chunks: "ciRunWithUploadedAssetChunksCommand", sessions: "ciAgentTestCommand", remote: "ciRunCommand", build: "uploadBuildCommand", trigger: "triggerTestRunCommand" };
/** runs a command the way yargs would; resolves to { ok, exit } */
export const runCommandLine = async (sim, proc, scripts, flow, given, debug) => {
  const m = proc.load(scripts.cli); if (debug) m.common.setLogLevel("debug"); const cmd = m[flow][COMMAND[flow]]; const args = {};
  try { for (const [k, o] of Object.entries(cmd.builder)) { const v = k in given ? (o.coerce ? o.coerce(given[k]) : given[k]) : o.default; if (v !== undefined) args[k] = v; } } catch (e) { return { ok: false, e, refused: true }; }
  if (flow === "build" || flow === "trigger") args.json = given.json ?? false;
  let over = null; proc.at(0, () => { Promise.resolve().then(() => cmd.handler(args)).then(() => { over ??= { ok: true }; }, (e) => { over ??= { ok: false, e }; }); }, "start");
  while (proc.alive && !sim.stopped) await sim.sleep(700);
  return { ok: proc.exitCode === 0, exit: proc.exitCode };
};
export const stagingEnv = (w) => Object.fromEntries(Object.entries(w.backend?.loginOptions ?? {}).map(([k, v]) => [`METICULOUS_STAGING_${k.replace(/([A-Z0-9])/g, "_$1").toUpperCase()}`, v]));

// ------------------------------------------------------------------ judging
const KNOWN = ["commitSha", "baseSha", "hasGitDiff", "rewrites", "createDeployment", "archiveType", "mustHaveBase", "containerPort", "containerEnv", "containerHealthCheckEndpoint", "companionAssetsInfo", "assetReferencesManifest", "sessionFilter", "sourceDeploymentId", "deploymentId", "sessionIds", "maxDurationSeconds", "chunkName", "chunkVersionId", "force", "instructionsId", "appTarget", "headSha", "environment", "isLockable", "postComment", "pullRequestHostingProviderId", "debugContext", "tunnelUrl", "basicAuthUser", "basicAuthPassword", "enableLocalMocks", "trustedOrigins", "appPort", "backend", "type", "url", "loginOptions", "proxyPaths"];
const plain = (v) => (v === undefined || v === null || v === false ? undefined : v);
const MUST = Symbol("mustHaveBase"), ANY = Symbol("any");
const compare = (got, want, ctx) => {
  for (const k of new Set([...KNOWN, ...Object.keys(want)])) {
    const g = got?.[k], x = want[k]; if (x === ANY) continue;
    if (x === MUST) { if (!!g !== !!ctx.wait && !(ctx.wait && ctx.noBaseSeen)) return `${k} is ${JSON.stringify(g)}`; continue; }
    if (x && typeof x === "object" && x.own) { const u = ctx.uploads.get(g); if (!u || u.owner !== ctx.owner) return `${k} ${JSON.stringify(g)} is not an upload of this order`; continue; }
    if (x && typeof x === "object" && x.fields) { if (!g || typeof g !== "object") return `${k} is ${JSON.stringify(g)}`; const d = compare(g, x.fields, ctx); if (d) return `${k}.${d}`; continue; }
    const same = k === "maxDurationSeconds" ? g === x : Array.isArray(x) && x.length === 0 && k !== "sessionIds" && k !== "rewrites" ? plain(g) === undefined || isDeepStrictEqual(g, x) : isDeepStrictEqual(plain(g), plain(x));
    if (!same) return `${k} is ${JSON.stringify(g)}, asked for ${JSON.stringify(x)}`;
  }
  return null;
};
const OWN = { own: true };
/** what the request must carry, or null if the order does not call for it */
const expected = (w, e) => {
  const comp = w.companion; const up = comp ? { kind: comp.kind === "zip" ? "zip" : "multi" } : { kind: w.source === "zip" ? "zip" : w.source === "dir" || w.entry === "tar" ? "multi" : null };
  const git = { commitSha: w.commit, baseSha: w.base, hasGitDiff: !!w.diff }; const cont = { containerPort: w.port, containerEnv: w.env, containerHealthCheckEndpoint: w.health };
  const compInfo = comp ? { fields: { deploymentUploadId: OWN, regex: comp.regex, archiveType: comp.kind === "zip" ? "zip" : "tar.d" } } : undefined; const P = { projectId: w.project }, A = { project: w.project }, N = {};
  const uploads = ["assets", "build", "sessions"].includes(w.flow) || comp; const diffFlow = ["assets", "container", "chunks"].includes(w.flow);
  switch (e.path) {
    case PD + "request-multipart-asset-upload": return uploads && up.kind === "multi" ? [P, { archiveType: "tar.d" }] : null;
    case PD + "request-upload-part": return uploads && up.kind === "multi" ? [P, { archiveType: "tar.d", uploadId: OWN }] : null;
    case PD + "request-asset-upload": return uploads && up.kind === "zip" ? [P, { size: w.zip.length }] : null;
    case PD + "request-git-diff-upload": return diffFlow && w.diff && w.create !== false | w.flow === "assets" ? [P, { uploadId: OWN, size: Buffer.byteLength(w.diff) }] : null;
    case PD + "complete-asset-upload-and-maybe-trigger-run": case PD + "trigger-run":
      if (comp) return [P, { uploadId: OWN, commitSha: w.commit, rewrites: [], createDeployment: false, archiveType: comp.kind === "zip" ? "zip" : "tar.d" }];
      return w.flow === "assets" ? [P, { uploadId: OWN, ...git, mustHaveBase: MUST, rewrites: w.rewrites ?? [], createDeployment: w.create ?? true, archiveType: w.source === "zip" ? "zip" : "tar.d" }] : null;
    case PD + "complete-container-upload": return w.flow === "container" ? [P, { uploadId: OWN, ...git, ...cont, mustHaveBase: MUST, companionAssetsInfo: compInfo }] : null;
    case "registry/auth": return w.image ? [P, {}] : null;
    case "agent/upload-build/asset": return w.flow === "build" && w.source !== "image" ? [A, { uploadId: OWN, commitSha: w.commit, rewrites: w.rewrites ?? [], archiveType: w.source === "zip" ? "zip" : "tar.d" }] : w.flow === "sessions" && w.source === "dir" ? [A, { uploadId: OWN, commitSha: w.commit, rewrites: [], archiveType: "tar.d" }] : null;
    case "agent/upload-build/container": return w.flow === "build" && w.source === "image" ? [A, { uploadId: OWN, commitSha: w.commit, ...cont }] : null;
    case "agent/upload-build/git-diff": return w.flow === "trigger" && w.diff ? [A, { ...(w.by === "id" ? { deploymentId: w.dep } : { commitSha: w.commit }), baseSha: w.base, size: Buffer.byteLength(w.diff) }] : null;
    case "agent/trigger-test-run": return w.flow === "trigger" ? [A, { ...(w.by === "id" || w.diff ? { deploymentId: w.dep } : { commitSha: w.commit }), baseSha: w.base, sessionIds: w.sessionIds, maxDurationSeconds: w.max }] : null;
    case PD + "create-run-with-uploaded-asset-chunks": return w.flow === "chunks" ? [P, { commitSha: w.commit, createDeployment: w.create ?? true, assetReferencesManifest: w.manifest, rewrites: w.rewrites ?? [] }] : null;
    case PD + "trigger-run-with-uploaded-asset-chunks": return w.flow === "chunks" && w.create !== false ? [P, { sourceDeploymentId: OWN, ...git, mustHaveBase: MUST, sessionFilter: w.filter }] : null;
    case PD + "request-asset-chunk-upload": return w.flow === "chunk" ? [P, { chunkName: w.name, chunkVersionId: w.version, commitSha: w.hasCommit ? w.commit : undefined, force: w.force }] : null;
    case PD + "complete-asset-chunk-upload": return w.flow === "chunk" ? [P, { chunkName: w.name, chunkVersionId: w.version, commitSha: w.hasCommit ? w.commit : undefined }] : null;
    case AG + "request-instructions-upload": return w.flow === "sessions" && w.text?.trim() ? [P, { size: Buffer.byteLength(w.text) }] : null;
    case AG + "launch": return w.flow === "sessions" ? [P, { commitSha: w.commit, instructionsId: w.text?.trim() ? OWN : undefined, appTarget: { fields: w.source === "image" ? { type: "container", uploadId: OWN, enableLocalMocks: w.mocks, ...cont } : { type: "assets", assetsUploadId: OWN, trustedOrigins: w.origins, appPort: w.appPort, backend: w.backend ? { fields: { url: w.backend.url, loginOptions: w.backend.loginOptions, proxyPaths: w.backend.proxyPaths } } : undefined } } }] : null;
    case "test-runs/trigger-secure-tunnel-test-run-v2": return w.flow === "remote" ? [N, { headSha: w.commit, environment: w.environment, isLockable: w.lockable, postComment: w.postComment, pullRequestHostingProviderId: w.pr, debugContext: w.debug, companionAssetsInfo: compInfo, tunnelUrl: `https://tunnel.sim/${w.n}`, basicAuthUser: `user-${w.n}`, basicAuthPassword: `tunnelpw-${w.n}` }] : null;
    default: return e.method === "GET" ? [{ projectId: ANY, project: ANY }, null] : null;
  }
};
export const judgeRequest = (sim, K, svc, w, e) => {
  const x = expected(w, e); if (!sim.check(x, `${K}.unasked`, () => `${w.via} ${w.flow}: sent ${e.method} ${e.path} ${JSON.stringify(e.body)?.slice(0, 300)}, which nobody asked for`)) return;
  for (const k of ["projectId", "project"]) { const g = e.query.get(k) ?? undefined; if (x[0][k] !== ANY) sim.check(g === x[0][k], `${K}.project`, () => `${w.via} ${w.flow}: ${e.path} for ${k} ${g}, asked for ${x[0][k]}`); }
  if (x[1] && !sim.stopped) { const d = compare(e.body, x[1], { wait: w.wait, noBaseSeen: w.noBaseSeen, uploads: svc.uploads, owner: w.token }); sim.check(!d, `${K}.option`, () => `${w.via} ${w.flow}${w.entry ? ` (${w.entry})` : ""}: ${e.path}: ${d}`); }
};
const TYPES = { zip: "application/zip", diff: "text/plain", text: "text/markdown", tarball: "application/octet-stream", index: "application/json" };

/** a world in which orders are placed */
export const optionsWorld = (sim, o, K) => {
  const orders = []; const of = (token) => orders.find((w) => w.token === token); let svc;
  o.diffOf = (u) => of(u.owner)?.diff;
  o.other = (info, path, b) => {
    const w = of(info.entry.who);
    if (path === "oauth/default-project") return { body: { projectId: w?.defaultProject ?? null } };
    if (path === "github-cloud-replay/base-test-run") return { body: { baseTestRun: sim.now >= Math.min(w.baseRun ?? 0, (w.ran?.length ? w.ranAt + 20e3 : Infinity)) ? { id: "b1" } : null, baseCommitSha: `base-of-${w.n}`, commitIsInPullRequest: !!w.inPr } };
    if (path === "oauth/projects") return { body: [] };
    if (path === "test-runs/trigger-secure-tunnel-test-run-v2") { w.run = { id: `remote-${w.n}`, url: "u", status: "Running", configData: {}, project: { id: "p", name: "n", organization: { name: "o" } } }; return { body: { testRun: w.run, deploymentId: `dep-${w.n}` } }; }
    const m = /^test-runs\/([^/]+)$/.exec(path); if (m && info.method === "GET") { const r = svc.runs.find((x) => x.id === m[1]) ?? orders.find((x) => x.run?.id === m[1])?.run; return r ? { body: { ...r, status: "Success", configData: {}, resultData: { results: [] } } } : { status: 404, body: { message: "no run" } }; }
    if (path === "deployment-locks/is-locked") return { body: "false", headers: { "content-type": "text/html" } };
    return null;
  };
  o.decorate = (e, r) => {
    const w = of(e.who); if (!w || r.status >= 400) return r; const x = w.extra;
    if (e.path === AG + "launch") return { ...r, body: clean({ workflowRunId: x.wf, message: x.message }) };
    if (e.path === PD + "create-run-with-uploaded-asset-chunks") return { ...r, body: { ...r.body, ...clean({ overlaps: x.preview, overlapsTruncated: x.truncated }) } };
    if (r.body?.baseNotFound) { w.noBaseSeen = true; return r; }
    if (r.body?.testRun) return { ...r, body: { ...r.body, ...clean({ message: x.message, ...(e.path.endsWith("trigger-run-with-uploaded-asset-chunks") ? { overlaps: x.overlaps, overlapsTruncated: x.truncated } : {}) }) } };
    return r;
  };
  const W = world(sim, o); svc = W.svc; svc.K = K; W.proc.onUncaught = () => {};
  const dk = { images: [], archiveOf: (image) => { const w = orders.find((x) => x.image === image); return archiveStream(sim, svc, makeTar(w.tar), -1); } };
  const dockerode = dockerModule(sim, svc, dk);
  const tunnels = (pr) => ({ localtunnel: (opts) => new Promise((res) => { pr.at(sim.latency("lat:tunnel", 5, 900), () => {
    const w = of(opts.apiToken); if (!sim.check(w?.flow === "remote", `${K}.tunnel`, () => `a tunnel for token ${opts.apiToken}`)) return;
    const want = { localHost: w.url.host, port: w.url.port, localHttps: w.url.https, host: w.tunnelHost, allowInvalidCert: w.allowInvalidCert, proxyAllUrls: w.proxyAllUrls, rewriteHostnameToAppUrl: w.rewriteHostnameToAppUrl, enableDnsCache: w.enableDnsCache, http2Connections: w.http2, silenceTunnelWorker: w.silenceTunnelWorker };
    for (const [k, v] of Object.entries(want)) sim.check(isDeepStrictEqual(plain(opts[k]), plain(v)), `${K}.tunnel`, () => `${w.via} remote (${w.url.text}): the tunnel's ${k} is ${JSON.stringify(opts[k])}, asked for ${JSON.stringify(v)}`);
    res({ url: `https://tunnel.sim/${w.n}`, basicAuthUser: `user-${w.n}`, basicAuthPassword: `tunnelpw-${w.n}`, close: () => {} });
  }, "tunnel"); }) });
  const newProc = (w) => {
    const proc = new Proc(sim, `cli${w.n}`, { modules: npmModules, disk: W.disk, cwd: "/work", tmpdir: "/tmp", fsLatency: [0, 4], env: { METICULOUS_DIR: "/data", ...stagingEnv(w), ...(w.nested ? { METICULOUS_DISABLE_RECURSIVE_TRIGGER: "true" } : {}), ...(sim.chance("w:blank", 0.3) ? { METICULOUS_STAGING_EMPTY: "" } : {}) }, childProcess: { execSync: (cmd, opts) => { if (!w.script || !cmd.includes("trigger")) throw new Error(`no ${cmd}`); sim.check(opts?.env?.METICULOUS_DISABLE_RECURSIVE_TRIGGER === "true", `${K}.script`, () => "the trigger script may trigger again"); w.ran.push(cmd); w.ranAt = sim.now; sim.log(`${proc.name} ran ${cmd}`); if (sim.chance("f:script", 0.2)) { sim.fault("script"); throw new Error("exit 1"); } return ""; }, exec: (c, x, cb) => { const f = cb ?? x; proc.at(1, () => f(new Error("no exec"), "", ""), "exec"); } }, ciInfo: { isCI: !!w.ci, name: w.ci ?? null }, dockerode, tunnels });
    proc.factories.ora = () => { const f = () => ({ start() { return this; }, stop() { return this; }, succeed() { return this; }, fail() { return this; }, text: "" }); return Object.assign(f, { default: f, __esModule: true }); };
    proc.onUncaught = () => {}; svc.attach(proc, { pApi: W.pf / 2, pStore: W.pf }); return proc;
  };
  W.proc.opts.dockerode = dockerode; W.proc.opts.tunnels = tunnels;
  return { ...W, svc, orders, of, dk, newProc };
};

const FLOWS = ["assets", "assets", "container", "container", "build", "trigger", "trigger", "chunks", "chunks", "chunk", "sessions", "sessions", "remote"];
/** ways to make an order contradictory: [flow, what to do to the arguments, how] */
const SPOILS = {
  lib: {
    build: [["both", (a) => ({ ...a, appDirectory: "/work/o0/app", localImageTag: "img0" })], ["neither", (a) => { const { appDirectory, appZip, localImageTag, ...r } = a; return r; }], ["missing", (a) => { const { appZip, localImageTag, ...r } = a; return { ...r, appDirectory: "/work/none" }; }]],
    trigger: [["both", (a) => ({ ...a, deploymentId: "d", commitSha: "c" })], ["neither", (a) => { const { deploymentId, commitSha, ...r } = a; return r; }]],
    sessions: [["two targets", (a) => ({ ...a, localImageTag: "img0", assetsUploadId: "u" })], ["no target", (a) => { const { localImageTag, assetsDirectory, assetsUploadId, ...r } = a; return r; }], ["backend with an image", (a) => { const { assetsDirectory, assetsUploadId, ...r } = a; return { ...r, localImageTag: "img0", backend: { url: "https://x" } }; }], ["origins with an image", (a) => { const { assetsDirectory, assetsUploadId, backend, ...r } = a; return { ...r, localImageTag: "img0", trustedOrigins: ["https://x"] }; }], ["appPort with an image", (a) => { const { assetsDirectory, assetsUploadId, backend, trustedOrigins, ...r } = a; return { ...r, localImageTag: "img0", appPort: 1 }; }]],
    remote: [["bad url", (a) => ({ ...a, appUrl: "not a url" })], ["no port", (a) => ({ ...a, appUrl: "gopher://x/" })]],
  },
  cli: {
    assets: [["both", (a) => ({ ...a, localImageTag: "img0", appDirectory: "/work/o0/app" })].slice(0, 0), ["neither", (a) => { const { appDirectory, appZip, ...r } = a; return r; }], ["rewrites not json", (a) => ({ ...a, rewrites: "[{" })], ["rewrites not a list", (a) => ({ ...a, rewrites: '{"source":"a","destination":"b"}' })], ["rewrite without destination", (a) => ({ ...a, rewrites: '[{"source":"a"}]' })], ["diff without base", (a) => { const { baseSha, waitForTestRunToComplete, ...r } = a; return { ...r, gitDiffOutput: "d" }; }], ["repository and commit", (a) => ({ ...a, repoDirectory: "/work/repo" })], ["waiting without a branch", (a) => { const { baseSha, gitDiffOutput, ...r } = a; return { ...r, waitForTestRunToComplete: true }; }]],
    container: [["two companions", (a) => ({ ...a, companionAssetsFolder: "/work/o0/comp", companionAssetsZip: "/work/o0/comp.zip", companionAssetsRegex: "x" })], ["companion without regex", (a) => { const { companionAssetsRegex, ...r } = a; return { companionAssetsFolder: "/work/o0/comp", ...r }; }], ["regex without companion", (a) => { const { companionAssetsFolder, companionAssetsZip, companionAssetsPathInImage, ...r } = a; return { ...r, companionAssetsRegex: "x" }; }], ["environment without value", (a) => ({ ...a, containerEnv: ["A=1", "B="] })], ["environment without name", (a) => ({ ...a, containerEnv: ["=1"] })], ["environment without =", (a) => ({ ...a, containerEnv: ["A"] })]],
    build: [["both", (a) => ({ ...a, appDirectory: "/work/o0/app", localImageTag: "img0" })], ["neither", (a) => { const { appDirectory, appZip, localImageTag, ...r } = a; return r; }], ["rewrites not json", (a) => ({ ...a, rewrites: "nope" })], ["environment without value", (a) => ({ ...a, containerEnv: ["B="] })]],
    trigger: [["both", (a) => ({ ...a, deploymentId: "d", commitSha: "c" })], ["duplicate sessions", (a) => ({ ...a, sessionIds: "a,b, a" })], ["no sessions", (a) => ({ ...a, sessionIds: sep(a) })], ["limit without sessions", (a) => { const { sessionIds, ...r } = a; return { ...r, maxDurationSeconds: "30" }; }], ["limit 0", (a) => ({ ...a, sessionIds: "a", maxDurationSeconds: "0" })], ["limit 1.5", (a) => ({ ...a, sessionIds: "a", maxDurationSeconds: "1.5" })], ["limit words", (a) => ({ ...a, sessionIds: "a", maxDurationSeconds: "ten" })], ["diff without base", (a) => { const { baseSha, ...r } = a; return r; }]],
    chunks: [["diff without base", (a) => { const { baseSha, waitForTestRunToComplete, ...r } = a; return { ...r, gitDiffOutput: "d" }; }], ["no manifest", (a) => ({ ...a, assetReferencesManifest: "/work/none.json" })], ["rewrites not json", (a) => ({ ...a, rewrites: "nope" })], ["no filter", (a) => ({ ...a, sessionFilter: "/work/none.json" })]],
    sessions: [["two targets", (a) => ({ ...a, localImageTag: "img0", assetsUploadId: "u" })], ["no target", (a) => { const { localImageTag, assetsDir, assetsUploadId, ...r } = a; return r; }], ["mocks with a backend", (a) => ({ ...a, enableLocalMocks: true, backendUrl: "https://x" })], ["origins with an image", (a) => { const { assetsDir, assetsUploadId, ...r } = a; return { ...r, localImageTag: "img0", trustedOrigins: ["https://x"] }; }], ["appPort with an image", (a) => { const { assetsDir, assetsUploadId, ...r } = a; return { ...r, localImageTag: "img0", appPort: 1 }; }], ["backend with an image", (a) => { const { assetsDir, assetsUploadId, trustedOrigins, appPort, enableLocalMocks, ...r } = a; return { ...r, localImageTag: "img0", backendUrl: "https://x" }; }]],
    remote: [["two companions", (a) => ({ ...a, companionAssetsFolder: "/work/o0/comp", companionAssetsZip: "/work/o0/comp.zip", companionAssetsRegex: "x" })], ["regex without companion", (a) => { const { companionAssetsFolder, companionAssetsZip, ...r } = a; return { ...r, companionAssetsRegex: "x" }; }], ["companion without regex", (a) => { const { companionAssetsRegex, companionAssetsFolder, ...r } = a; return { ...r, companionAssetsZip: "/work/o0/comp.zip" }; }], ["bad url", (a) => ({ ...a, appUrl: "nope" })]],
  },
};
const sep = () => " , ";
SPOILS.cli.assets = SPOILS.cli.assets.filter((x) => typeof x[1] === "function");

export const runOrders = async (sim, { scripts }) => {
  const K = sim.prop; const o = { pfs: [0, 0, 0.05, 0.2], noRun: sim.chance("w:norun", 0.06), baseAt: sim.chance("w:late", 0.4) ? sim.pick("w:baseAt", [20e3, 120e3, 700e3, 9e9]) : 0 };
  const W = optionsWorld(sim, o, K); const { disk, svc, proc, orders, dk, newProc } = W; const via = sim.pick("w:via", ["lib", "cli"]); const count = sim.pick("w:count", [1, 1, 2]); const L = via === "lib" ? proc.load(scripts.rl) : null;
  const calls = [];
  for (let n = 0; n < count; n++) {
    const image = `img${n}:t`; dk.images.push(image); const w = makeOrder(sim, disk, n, { via, flow: sim.pick("w:flow", FLOWS), image }); orders.push(w);
    svc.who = w.token; if (w.flow === "trigger") { const u = svc.mk("zip", { commit: w.commit }); w.dep = u.id; } if (w.source === "given") { const u = svc.mk("zip"); u.completedAs = { t: 0 }; w.given = u.id; }
    const spoils = SPOILS[via][w.flow]; const spoil = spoils && sim.chance("w:spoil", 0.12) ? sim.pick("w:spoilK", spoils) : null; const dry = via === "cli" && !spoil && ["assets", "container", "build", "trigger", "sessions", "remote"].includes(w.flow) && sim.chance("w:dry", 0.08);
    if (spoil) w.refused = spoil[0]; if (dry) w.nothing = "a dry run"; if (w.via === "cli" && w.defaultProject === null && !dry) w.refused ??= "no default project";
    if (via === "cli" && w.base && !w.diff && !spoil && ["assets", "container", "chunks"].includes(w.flow) && sim.chance("w:same", 0.1)) { w.base = w.commit; w.nothing = "base is head"; delete w.refused; }
    if (via === "lib") { if (spoil) { const f = libCall(sim, Object.fromEntries(Object.entries(L).map(([k, v]) => [k, new Proxy(v, { get: (t, p) => (typeof t[p] === "function" && p !== "createClient" ? (a) => t[p](spoil[1](a)) : t[p]) })])), w, svc, proc); calls.push({ w, go: () => settled(Promise.resolve().then(f)) }); } else { const f = libCall(sim, L, w, svc, proc); calls.push({ w, go: () => settled(Promise.resolve().then(f)) }); } }
    else { let a = cliArgs(sim, disk, w); if (spoil) a = spoil[1](a); if (dry) a.dryRun = true; w.args = a; const p = newProc(w); w.proc = p; calls.push({ w, go: () => runCommandLine(sim, p, scripts, w.flow, a) }); }
    sim.log(`order ${n}: ${via} ${w.flow} ${w.refused ?? w.nothing ?? ""}`);
  }
  const st = await sim.run(() => Promise.all(calls.map(async (c, i) => { if (i) await sim.sleep(sim.pick("w:gap", [0, 1, 40, 400])); c.r = await c.go(); c.w.doneAt = sim.now; })), { maxTime: 8 * 3600e3, maxEvents: 500e3 });
  const sample = { via, flows: orders.map((w) => w.flow) };
  if (st === "violation" || sim.stopped) return { sample };
  if (!sim.check(st === "done", `${K}.hang`, () => `an order never ended (${st}): ${orders.map((w) => `${w.flow}${w.doneAt === undefined ? " open" : ""}`)}`)) return { sample };
  for (const e of svc.log) { const w = W.of(e.who); if (!sim.check(w, `${K}.token`, () => `${e.path} sent under token ${e.who}, the orders' are ${orders.map((x) => x.token)}`)) return { sample }; if (w.refused || w.nothing) sim.check(e.method === "GET", `${K}.${w.refused ? "refused" : "dry"}`, () => `${w.via} ${w.flow}: sent ${e.path} although ${w.refused ? `the order is contradictory (${w.refused})` : w.nothing}`); else judgeRequest(sim, K, svc, w, e); if (sim.stopped) return { sample }; }
  for (const p of dk.pushLog ?? []) { const w = W.of(p.u?.owner); sim.check(w && p.source === w.image && isDeepStrictEqual(p.auth, { username: `robot-${p.u.id}`, password: `secret-${p.u.id}`, serveraddress: svc.registry }), `${K}.image`, () => `pushed ${p.source} as ${p.u?.id} with ${JSON.stringify(p.auth)}; the order's image is ${w?.image}`); }
  for (const a of dk.archives ?? []) { const w = orders.find((x) => x.image === a.image); sim.check(w?.companion?.path && pathBase(a.path) === pathBase(w.companion.path), `${K}.image`, () => `read ${a.path} of ${a.image}, asked for ${w?.companion?.path}`); }
  for (const u of svc.uploads.values()) {
    const w = W.of(u.owner); if (!w || sim.stopped) continue; for (const [k, t] of Object.entries(TYPES)) if (u[k] !== undefined) sim.check((u[`${k}Type`] ?? undefined) === t, `${K}.type`, () => `${w.flow}: the ${k} of ${u.id} was stored as ${u[`${k}Type`]}`);
    if (u.diff) sim.check(u.diff.toString() === w.diff, `${K}.content`, () => `${w.flow}: another diff was stored for ${u.id}`); if (u.text) sim.check(u.text.toString() === w.text, `${K}.content`, () => `other instructions were stored: ${u.text}`);
    if (u.completedAs && u.kind === "zip" && w.zip) sim.check(u.zip?.equals(w.zip), `${K}.content`, () => `${w.flow}: another zip was stored`);
    if (u.completedAs && u.kind === "multi" && u.whole) checkTree(sim, K, u, w.tar ?? w.files, w.flow);
    if (u.completedAs && u.kind === "chunk" && u.whole) checkTree(sim, K, u, new Map([...w.files].map(([n, d]) => [w.prefix ? `${w.prefix}/${n}` : n, d])), "chunk");
  }
  for (const { w, r } of calls) {
    if (sim.stopped) break; const mine = [...svc.uploads.values()].filter((u) => u.owner === w.token); const run = mine.find((u) => u.run)?.run ?? w.run; const out = w.proc?.consoleLines ?? [];
    const what = `${via} ${w.flow}${w.entry ? ` (${w.entry})` : ""}`;
    if (w.refused) { sim.check(!r.ok, `${K}.refused`, () => `${what}: succeeded although the order is contradictory (${w.refused})`); sim.probe(`refused:${w.refused}`); continue; }
    if (w.script !== undefined && (w.nothing || w.nested)) sim.check(w.ran.length === 0, `${K}.script`, () => `${what}: ran ${w.ran} although ${w.nothing ?? "this is itself a triggered run"}`);
    if (w.nothing) { sim.check(r.ok, `${K}.dry`, () => `${what}: failed (exit ${r.exit}) although there was nothing to do: ${w.nothing}; ${out.slice(-3)}`); sim.probe(`nothing:${w.nothing}`); continue; }
    const needsBase = w.flow === "chunks" && w.create !== false && w.manifest.some((x) => x.versionLookup) && o.baseAt > 250e3 && w.wait; // its wait for a base ends after five minutes
    const noRun = o.noRun && !["build", "chunk", "sessions", "remote"].includes(w.flow) || needsBase;
    if (!r.ok) { sim.check(svc.disturbed > 0 || noRun, `${K}.false-failure`, () => `${what}: failed undisturbed (exit ${r.exit}): ${errText(r.e)} ${out.slice(-4)}`); sim.probe(`failed:${via}:${w.flow}`); continue; }
    sim.probe(`ok:${via}:${w.flow}`);
    // what was asked for happened
    const wantRun = !noRun && w.create !== false && ["assets", "container", "trigger", "chunks", "remote"].includes(w.flow); sim.check(!!run === wantRun || needsBase, `${K}.result`, () => `${what}: ended well with ${run ? `run ${run.id}` : "no run"}`);
    if (w.companion && w.flow !== "remote") sim.check(mine.some((u) => u.kind === "image" && u.companion), `${K}.option`, () => `${what}: the companion assets were not attached`);
    if (via === "lib") {
      const v = r.v;
      if (["assets", "container", "trigger", "chunks", "remote"].includes(w.flow)) sim.check((v.testRun?.id ?? null) === (run?.id ?? null), `${K}.result`, () => `${what}: returned run ${v.testRun?.id}, its run is ${run?.id}`);
      if (w.flow === "trigger") sim.check(v.headCommitSha === w.commit, `${K}.result`, () => `${what}: head commit ${v.headCommitSha}`);
      if (w.flow === "build") sim.check(mine.some((u) => u.id === v.deploymentId), `${K}.result`, () => `${what}: returned deployment ${v.deploymentId}`);
      if ((w.flow === "assets" || w.flow === "container") && w.entry !== "trigger" && run) sim.check(v.message === w.extra.message, `${K}.result`, () => `${what}: message ${v.message}, the service said ${w.extra.message}`);
      if (w.flow === "chunks" && (run || w.create === false)) { const ov = w.create === false ? w.extra.preview : w.extra.overlaps; const some = ov?.length > 0; sim.check(isDeepStrictEqual(v.overlaps ?? [], ov ?? []) && !!v.overlapsTruncated === !!(some && w.extra.truncated), `${K}.result`, () => `${what}: overlaps ${JSON.stringify(v.overlaps)} ${v.overlapsTruncated}, the service said ${JSON.stringify(ov)} ${w.extra.truncated}`); }
      if (w.flow === "sessions") sim.check(v.workflowRunId === (w.extra.wf ?? null) && v.message === w.extra.message && mine.some((u) => u.id === v.uploadId), `${K}.result`, () => `${what}: returned ${JSON.stringify(v)}, the service said ${JSON.stringify(w.extra)}`);
    } else {
      const std = out.filter((l) => l.startsWith("log ")).map((l) => l.slice(4)).join("\n");
      if (w.flow === "build") { const dep = mine.find((u) => u.commit); let got; try { got = w.args.json ? JSON.parse(std).deploymentId : std.trim().split("\n").at(-1); } catch { got = std; } sim.check(got === dep?.id, `${K}.result`, () => `${what}: printed ${got}, the deployment is ${dep?.id}`); if (w.args.json) sim.check(JSON.parse(std).commitSha === w.commit, `${K}.result`, () => `${what}: printed ${std}`); }
      if (w.flow === "trigger" && run) { let got; try { got = w.args.json ? JSON.parse(std).testRunId : std.trim().split("\n").at(-1); } catch { got = std; } sim.check(got === run.id, `${K}.result`, () => `${what}: printed ${got}, the run is ${run.id}`); }
    }
    if (w.flow === "remote" && via === "cli") { const may = w.script !== undefined && !w.nested && w.inPr; sim.check(w.ran.length <= (may && w.baseRun > 0 ? 1 : 0) && w.ran.every((c) => c === `${w.script} base-of-${w.n}`), `${K}.script`, () => `${what}: ran ${JSON.stringify(w.ran)}, the script is ${w.script}`); if (may && w.baseRun > 8e6) { sim.check(w.ran.length === 1, `${K}.script`, () => `${what}: the base was never triggered`); sim.probe("triggered"); } }
    if (w.flow === "remote") sim.probe(w.companion ? "remote:companion" : "remote");
  }
  return { sample };
};

// ------------------------------------------------------------------ R06
/** every text reachable from a value through its own properties */
const textsIn = (root) => {
  const seen = new Set(), todo = [[root, "error"]], out = [];
  while (todo.length && seen.size < 6000) {
    const [v, at] = todo.pop(); if (typeof v === "string") { out.push([at, v]); continue; } if (v === null || typeof v !== "object" || seen.has(v)) continue; seen.add(v);
    if (Buffer.isBuffer(v) || v instanceof Uint8Array) { out.push([at, Buffer.from(v).toString()]); continue; }
    if (v instanceof Headers || v instanceof Map || v instanceof URLSearchParams) { for (const [k, x] of v) todo.push([x, `${at}.${k}`]); continue; }
    if (v instanceof Set) { for (const x of v) todo.push([x, `${at}[]`]); continue; }
    if (v.sim || v.constructor?.name === "Proc" || v.constructor?.name === "AbortSignal" || v instanceof Response) continue;
    for (const k of Object.getOwnPropertyNames(v)) { out.push([`${at} key`, k]); let x; try { x = v[k]; } catch { continue; } todo.push([x, `${at}.${k}`]); }
  }
  return out;
};
const SPICES = ["", "", '"', "\\", "\n", "\u2028ü", "&x=1", "'$&", " ", "\u0001", "</a>", "%41"];
/** login options whose values carry marks that occur nowhere else */
const makeSecrets = (sim, n) => {
  const marks = []; const part = () => { const m = `Mk${n}${marks.length}Z${sim.int("w:mark", 100000, 999999)}q`; marks.push(m); return m; }; const opts = {};
  for (const k of ["username", "password", "totpSecret", "skipEmailClientId2"]) if (sim.chance("w:lo", 0.7)) opts[k] = part() + sim.pick("w:spice", SPICES) + (sim.chance("w:two", 0.3) ? part() : "");
  const ks = Object.keys(opts); if (ks.length > 1 && sim.chance("w:within", 0.4)) { const [a, b] = sim.shuffle("w:wi", ks); opts[a] = opts[b] + sim.pick("w:spice", SPICES) + part(); } // one within another
  return { opts, marks };
};
export const runSecrets = async (sim, { scripts }) => {
  const K = sim.prop; const via = sim.pick("w:via", ["lib", "cli"]); const count = sim.pick("w:count", [1, 1, 2]); const pReject = sim.pick("w:reject", [0, 0.3, 0.8, 1]); const o = { pfs: [0, 0.05, 0.3] };
  const W = optionsWorld(sim, o, K); const { disk, svc, proc, orders, dk, newProc } = W; const calls = []; const debug = sim.chance("w:debug", 0.6); const stored = [];
  const shape = sim.pick("w:rejectBody", [{ body: { message: "not today" } }, { body: { error: { message: "no", code: "E" } } }, { body: "<html>no</html>", headers: { "content-type": "text/html" } }]);
  o.onStore = (info) => stored.push({ method: info.method, path: info.path, all: [...info.headers].flat().join(" ") + [...info.query].flat().join(" ") });
  const decorate = o.decorate; o.decorate = (e, r) => { if (e.method === "GET" || !(e.path === AG + "launch" || sim.chance("w:early", 0.1)) || !sim.chance("f:reject", pReject)) return decorate(e, r); svc.disturbed++; sim.fault("rejected"); e.rejected = true; return { status: sim.pick("f:rejectStatus", [400, 401, 403, 404, 409, 422, 426, 500, 503]), ...shape }; };
  const L = via === "lib" ? proc.load(scripts.rl) : null; if (L && debug) L.common?.setLogLevel?.("debug");
  for (let n = 0; n < count; n++) {
    const image = `img${n}:t`; dk.images.push(image); const flow = sim.pick("w:flow", via === "cli" ? ["sessions", "sessions", "remote"] : ["sessions"]); const w = makeOrder(sim, disk, n, { via, flow, image }); orders.push(w); svc.who = w.token; w.marks = [];
    if (flow === "sessions") { for (let i = 0; w.source === "image" && i < 9; i++) { w.source = "given"; for (const k of ["image", "port", "envRaw", "env", "health", "mocks"]) delete w[k]; } if (w.source === "given") { const u = svc.mk("zip"); u.completedAs = { t: 0 }; w.given = u.id; } const s = makeSecrets(sim, n); w.marks = s.marks; w.backend = { url: `https://staging${n}.example/`, loginOptions: s.opts, proxyPaths: ["/api"] }; }
    // the marks are what must not be seen
    const dry = via === "cli" && flow === "sessions" && sim.chance("w:dry", 0.1); if (dry) w.nothing = "a dry run"; if (via === "cli" && w.defaultProject === null) w.refused = "no default project";
    if (via === "lib") { const f = libCall(sim, L, w, svc, proc); calls.push({ w, go: () => settled(Promise.resolve().then(f)) }); }
    else { const a = cliArgs(sim, disk, w); if (dry) a.dryRun = true; if (flow === "remote") { a.redactPassword = true; a.keepTunnelOpenSec = sim.pick("w:keep", [0, 0, 30]); } const p = newProc(w); w.proc = p; calls.push({ w, go: () => runCommandLine(sim, p, scripts, flow, a, debug) }); }
  }
  const st = await sim.run(() => Promise.all(calls.map(async (c, i) => { if (i) await sim.sleep(sim.pick("w:gap", [0, 1, 40, 400])); c.r = await c.go(); c.w.doneAt = sim.now; })), { maxTime: 8 * 3600e3, maxEvents: 500e3 });
  const sample = { via, flows: orders.map((w) => w.flow) }; if (st === "violation" || sim.stopped) return { sample };
  if (!sim.check(st === "done", `${K}.hang`, () => `an order never ended (${st})`)) return { sample };
  const procs = new Map([[proc.name, proc], ...orders.filter((w) => w.proc).map((w) => [w.proc.name, w.proc])]);
  for (const { w, r } of calls) {
    const tell = (where, text) => { for (const m of w.marks) sim.check(!text.includes(m), `${K}.login`, () => { const i = text.indexOf(m); return `${via} ${w.flow}: a login credential is in ${where}: …${text.slice(Math.max(0, i - 40), i + m.length + 10)}…`; }); };
    if (!r.ok && r.e) { for (const [at, t] of textsIn(r.e)) tell(at, t); if (w.marks.length) sim.probe(svc.log.some((e) => e.who === w.token && e.path === AG + "launch") ? `failed at launch:${r.e?.response?.status ?? "no answer"}` : "failed before"); } else if (r.ok) { if (r.v) for (const [at, t] of textsIn(r.v)) tell(`result (${at})`, t); sim.probe(`ok:${w.flow}`); } else if (w.marks.length) sim.probe("command failed");
    for (const [name, p] of procs) {
      for (const l of p.consoleLines) { tell("the output", l); if (w.token.length > 6) sim.check(!l.includes(w.token), `${K}.token`, () => `${via} ${w.flow}: the API token is in the output: ${l.slice(0, 300)}`); if (w.flow === "remote") sim.check(!l.includes(`tunnelpw-${w.n}`), `${K}.tunnel`, () => `the tunnel's password is in the output although it is to be redacted: ${l.slice(0, 300)}`); }
      for (const rec of p.sentry ?? []) for (const [at, t] of textsIn(rec)) tell(`a report to Sentry (${at})`, t);
      if (sim.stopped) return { sample };
    }
    for (const e of svc.log) { if (e.path === AG + "launch" && e.who === w.token) { if (w.marks.length) { const lo = e.body?.appTarget?.backend?.loginOptions; sim.check(isDeepStrictEqual(lo ?? {}, w.backend.loginOptions), `${K}.login-lost`, () => `${via}: launched with ${JSON.stringify(lo)}, the options are ${JSON.stringify(w.backend.loginOptions)}`); } tell("the address of the launch", `${e.path}?${e.query}`); tell("another part of the launch", JSON.stringify({ ...e.body, appTarget: { ...e.body?.appTarget, backend: { ...e.body?.appTarget?.backend, loginOptions: undefined } } })); continue; } tell(`${e.method} ${e.path}`, `${e.path}?${decodeURIComponent(String(e.query).replace(/%(?![0-9A-F]{2})/gi, "%25"))} ${JSON.stringify(e.body)}`); }
    for (const s of stored) { tell(`${s.method} ${s.path} to storage`, s.all); sim.check(!s.all.includes(w.token), `${K}.token`, () => `the API token went to storage with ${s.method} ${s.path}`); }
    for (const u of svc.uploads.values()) for (const k of Object.keys(TYPES)) if (Buffer.isBuffer(u[k])) tell(`the stored ${k}`, u[k].toString("latin1"));
    if (sim.stopped) return { sample };
  }
  return { sample };
};
