// Simulated deployment of the Worker-hosted recording sidecar: stateless worker
// isolates, Durable Object shards (with gates, crash, alarms), object storage,
// credential service, and clients reporting batches and flushing.
import nodeCrypto from "node:crypto";
import { Proc } from "../../sim/proc.mjs";
import { EPOCH } from "../../sim/core.mjs";
import { simFetch } from "../../sim/net.mjs";
import { DurableHost } from "../../sim/durable.mjs";
import { bundle } from "../../sim/bundle.mjs";
import { WORKERD_STUBS } from "./workerd-stubs.mjs";

export const buildSidecar = async () => ({
  sidecar: (await bundle({ sidecar: "packages/backend-recorder-sidecar-worker/src/index.ts", storage: "packages/backend-recorder-sidecar-worker/src/s3/storage.ts" }, { stubFiles: WORKERD_STUBS })).code,
});
export const SIDECAR_META = {
  real: ["backend-recorder-sidecar-worker: fetch handler, recorder-session-object, session-store, S3 storage, Cognito credentials, SigV4", "backend-recorder-workerd: span building and serialisation"],
  stubs: ["Cloudflare runtime: Durable Object storage, gates, alarms, eviction (sim/durable.mjs)", "object storage and credential service (in-memory servers)", "WebCrypto (synchronous node:crypto)", "service binding / network"],
};

const sha = (d) => nodeCrypto.createHash("sha256").update(d).digest("hex");
const hmac = (k, d) => nodeCrypto.createHmac("sha256", k).update(d).digest();
/** independent SigV4 verification, as the storage service would do it */
export const verifySigV4 = (req, secret) => {
  const auth = req.headers.get("authorization") ?? "";
  const m = /^AWS4-HMAC-SHA256 Credential=([^/]+)\/(\d{8})\/([^/]+)\/([^/]+)\/aws4_request, ?SignedHeaders=([^,]+), ?Signature=([0-9a-f]{64})$/.exec(auth);
  if (!m) return { ok: false, reason: "malformed authorization" };
  const [, key, date, region, service, signed, sig] = m;
  const u = new URL(req.url);
  const enc = (s) => encodeURIComponent(s).replace(/[!'()*]/g, (c) => "%" + c.charCodeAt(0).toString(16).toUpperCase());
  const path = u.pathname.split("/").map((s) => enc(decodeURIComponent(s))).join("/");
  const q = [...u.searchParams].map(([k, v]) => `${enc(k)}=${enc(v)}`).sort().join("&");
  const hs = signed.split(";").map((h) => `${h}:${(h === "host" ? u.host : req.headers.get(h) ?? "").trim()}\n`).join("");
  const payload = req.headers.get("x-amz-content-sha256") ?? "";
  if (payload !== sha(req.body)) return { ok: false, reason: "payload hash mismatch", key };
  const canon = [req.method, path, q, hs, signed, payload].join("\n");
  const amzDate = req.headers.get("x-amz-date") ?? "";
  const sts = ["AWS4-HMAC-SHA256", amzDate, `${date}/${region}/${service}/aws4_request`, sha(canon)].join("\n");
  let k = hmac(`AWS4${secret}`, date); for (const p of [region, service, "aws4_request"]) k = hmac(k, p);
  return { ok: hmac(k, sts).toString("hex") === sig, key, amzDate, reason: "signature mismatch" };
};

/** the optional storage overrides of a deployment, and what they must mean on the wire */
export const STORAGE_DEFAULTS = { region: "us-west-2", bucket: "user-events-v3", identityPoolId: "us-west-2:6a0e6f85-53d0-41d7-b268-dede2251cc9d" };
export const makeStorageConfig = (sim) => {
  const c = {};
  if (!sim.chance("cfg:custom", 0.4)) return c;
  if (sim.chance("cfg:endpoint", 0.5)) c.endpointUrl = sim.pick("cfg:endpointUrl", ["http://minio.local:9000/", "http://minio.local:9000", "https://s3.local/base", "https://s3.local/base//"]);
  if (sim.chance("cfg:bucket", 0.5)) c.bucket = "own-bucket";
  if (sim.chance("cfg:region", 0.5)) c.region = "eu-central-1";
  if (sim.chance("cfg:pool", 0.5)) c.identityPoolId = "eu-central-1:11111111-2222";
  return c;
};
/** checks where a request goes; returns the object key of an upload */
export const storageKey = (sim, cfg, info, P = "S05") => {
  const region = cfg.region ?? STORAGE_DEFAULTS.region, bucket = cfg.bucket ?? STORAGE_DEFAULTS.bucket;
  const base = cfg.endpointUrl ? `${cfg.endpointUrl.replace(/\/+$/, "")}/${bucket}/` : `https://${bucket}.s3.${region}.amazonaws.com/`;
  if (!info.url.startsWith(base)) { sim.violate(`${P}/target`, `an upload went to ${info.url}, not below the configured ${base}`); return decodeURIComponent(new URL(info.url).pathname.slice(1)); }
  const scope = /Credential=[^/]+\/\d{8}\/([^/]+)\/([^/]+)\//.exec(info.headers.get("authorization") ?? "");
  if (scope && (scope[1] !== region || scope[2] !== "s3")) sim.violate(`${P}/scope`, `an upload to region ${region} is signed for ${scope[1]}/${scope[2]}`);
  return decodeURIComponent(new URL(info.url).pathname.slice(new URL(base).pathname.length));
};
export const checkCredentialCall = (sim, cfg, info, P = "S05") => {
  const region = cfg.region ?? STORAGE_DEFAULTS.region;
  if (info.host !== `cognito-identity.${region}.amazonaws.com`) sim.violate(`${P}/target`, `a credential request went to ${info.host}, configured region ${region}`);
  if (info.headers.get("x-amz-target")?.endsWith("GetId")) {
    let b; try { b = JSON.parse(info.body.toString()); } catch { b = {}; }
    const pool = cfg.identityPoolId ?? STORAGE_DEFAULTS.identityPoolId;
    if (b.IdentityPoolId !== pool) sim.violate(`${P}/pool`, `credentials were requested from identity pool ${b.IdentityPoolId}, configured ${pool}`);
  }
};
const bodyText = (sim, id, size, ch) => `evt-${id}-` + (ch ?? "x").repeat(Math.floor(size / Buffer.byteLength(ch ?? "x")));

/** a credential answer with something missing (or null: no credentials at all) */
export const partialCredentials = (sim) => {
  if (!sim.chance("f:cogpart", 0.7)) return null;
  const c = { AccessKeyId: "half", SecretKey: "half", SessionToken: "half" };
  delete c[sim.pick("f:cogmiss", ["AccessKeyId", "SecretKey", "SessionToken"])];
  return c;
};
/** wire input no span can be built from: skipped, without holding up anything behind it */
const malformedEvent = (sim, ctx, requestId) => {
  const u = makeEvent(sim, ctx, requestId); u.noSpan = true; u.malformed = true; sim.probe("malformed-event");
  const k = sim.weighted("wl:badevent", [1, 1, 3]);
  if (k === 0) u.event = sim.pick("wl:badvalue", [null, "x", 7, [], {}]);
  else if (k === 1) u.event = { kind: "kv", bindingName: `evt-${u.id}-`, requestId, args: null, value: null, result: null };
  else u.event = { kind: sim.pick("wl:badkind", ["inbound", "outbound", "binding"]), requestId, method: "GET", url: sim.pick("wl:badurl", [`https://app.example/evt-${u.id}-/p`, null]), bindingName: `evt-${u.id}-`, startTimeMs: 1, endTimeMs: 1 };
  return u;
};
/** one capture event; returns {event, id, marker} */
const makeEvent = (sim, ctx, requestId) => {
  const id = ++ctx.nextEvent; const marker = `evt-${id}-`;
  const kind = ["inbound", "outbound", "binding", "kv", "postgres"][sim.weighted("ev:kind", [4, 4, 1, 2, 1])];
  const t = EPOCH + Math.floor(sim.now);
  const base = { kind, requestId, startTimeMs: t, endTimeMs: t + sim.int("ev:dur", 0, 50) };
  if (!sim.chance("ev:legacy", 0.1)) { base.traceId = nodeCrypto.createHash("md5").update(requestId).digest("hex"); base.serverSpanId = base.traceId.slice(0, 16); }
  if (!sim.chance("ev:nofs", 0.2)) base.frontendSessionId = `fs-${requestId}`;
  const big = ctx.plan.bigEvents && sim.chance("ev:big", 0.7) ? sim.int("ev:bigsize", 100_000, 500_000) : 0;
  const ch = ctx.plan.wide && sim.chance("ev:uni", 0.9) ? "\u20ac" : "x";
  if (kind === "kv") { Object.assign(base, { bindingName: "KV", operation: "get", key: `${marker}k`, result: { body: JSON.stringify(bodyText(sim, id, big, ch)), truncated: false } }); }
  else if (kind === "postgres") { Object.assign(base, { queryText: `select '${marker}'`, params: "[]", rowMode: "", result: { body: "[]", truncated: false } }); }
  else {
    Object.assign(base, { method: "GET", url: `https://app.example/${marker}/p?q=1`, requestHeaders: { "content-type": ["text/plain"] }, statusCode: sim.pick("ev:status", [200, 404, 500]) });
    if (kind !== "inbound") base.responseBody = { body: bodyText(sim, id, big, ch), truncated: false };
    if (kind === "binding") base.bindingName = "SVC";
  }
  return { id, marker, event: base };
};
const checkSpan = (span, rec) => {
  const e = rec.event; const problems = [];
  if (e.traceId && span.traceId !== e.traceId) problems.push(`trace ${span.traceId} != ${e.traceId}`);
  if (span.startTimeMs !== e.startTimeMs || span.endTimeMs !== e.endTimeMs) problems.push(`times ${span.startTimeMs}-${span.endTimeMs} != ${e.startTimeMs}-${e.endTimeMs}`);
  if ((span.frontendSessionId ?? undefined) !== e.frontendSessionId) problems.push(`session ${span.frontendSessionId} != ${e.frontendSessionId}`);
  if (e.kind === "inbound" && e.serverSpanId && span.spanId !== e.serverSpanId) problems.push("server span id");
  if (e.kind !== "inbound" && e.serverSpanId && span.parentSpanId !== e.serverSpanId) problems.push("parent span id");
  const attrs = Object.values(span.attributes ?? {});
  if (e.statusCode !== undefined && !attrs.includes(e.statusCode)) problems.push("status code");
  const body = e.responseBody?.body ?? e.result?.body;
  if (body !== undefined && !attrs.includes(body)) problems.push("captured body");
  const text = e.url ?? e.key ?? e.queryText;
  if (!attrs.includes(text)) problems.push("url/key/query");
  return problems;
};

export const runSidecar = async (sim, { scripts, check }, mode) => {
  const P = check.id;
  // ------------------------------------------------------------ plan (swarm)
  const faulty = mode !== "clean" && mode !== "big";
  const plan = {
    shards: sim.pick("cfg:shards", [1, 1, 2, 3]),
    token: sim.pick("cfg:token", ["tok_0123456789abcdef", "tok_ABCDEFGHIJKLMNOP", "short"]),
    clients: sim.int("cfg:clients", 1, 4),
    horizon: sim.pick("cfg:horizon", mode === "long" ? [15 * 60e3, 25 * 60e3, 12 * 60e3] : [20e3, 40e3, 60e3]),
    burst: mode !== "long" && sim.chance("cfg:burst", 0.15),
    bigEvents: sim.chance("cfg:big", mode === "big" ? 1 : 0.01),
    wide: sim.chance("cfg:wide", 0.5),
    flushes: sim.chance("cfg:flush", 0.6) ? sim.int("cfg:nflush", 1, 6) : 0,
    crashes: faulty && sim.chance("cfg:crash", 0.6) ? sim.int("cfg:ncrash", 1, 5) : 0,
    s3p: faulty && sim.chance("cfg:s3p", 0.5) ? sim.pick("cfg:s3prob", [0.1, 0.3, 0.6]) : 0,
    outages: faulty && sim.chance("cfg:outage", 0.4) ? sim.int("cfg:noutage", 1, 2) : 0,
    cognitoP: faulty && sim.chance("cfg:cog", 0.3) ? 0.3 : 0,
    storageP: faulty && sim.chance("cfg:dostore", 0.15) ? 0.03 : 0,
    credTtl: sim.pick("cfg:ttl", [3600e3, 3600e3, 12 * 60e3, 7 * 60e3]),
    stall: faulty && sim.chance("cfg:stall", 0.3),
    revoke: faulty && sim.chance("cfg:revoke", 0.2),
    retries: faulty && sim.chance("cfg:resend", 0.3),
  };
  plan.steady = mode === "clean" && sim.chance("cfg:steady", 0.25);
  if (plan.steady) { plan.horizon = sim.pick("cfg:steadyFor", [90e3, 150e3, 240e3]); plan.burst = false; }
  plan.storage = makeStorageConfig(sim);
  plan.project = sim.pick("cfg:project", ["proj", "My App \u20ac", null]);
  const ctx = { plan, nextEvent: 0 };
  let faultsOn = true; let crashesLeft = plan.crashes;
  const outages = Array.from({ length: plan.outages }, () => { const a = sim.int("cfg:outAt", 0, plan.horizon); return [a, a + sim.int("cfg:outLen", 1e3, mode === "long" ? 120e3 : 40e3)]; });
  const inOutage = () => outages.some(([a, b]) => sim.now >= a && sim.now < b);

  // ------------------------------------------------------------ storage model
  const s3 = new Map(); // key -> {ids:Set, spans, t, shard, history}
  const puts = []; // every chunk attempt received or attempted
  const sessions = new Map();
  const creds = new Map(); let credSeq = 0;
  const recs = new Map(); // event id -> rec
  const abandonments = []; // {t, shard, definite}: moments at which giving up is legitimate
  const markerAttempts = []; // {t, shard}
  let tick = 0;
  const trackers = new Map(); // shard -> {consec, lastPut}
  const trackerOf = (n) => { let t = trackers.get(n); if (!t) trackers.set(n, t = { consec: 0, lastPut: null }); return t; };
  // called with what the recording instance itself saw of each storage write
  const writeOutcome = (shard, leaf, ok) => {
    const tr = trackerOf(shard);
    if (ok) { if (leaf !== null && leaf !== "metadata.json" && leaf !== "abandoned.json" && !plan.crashes && !plan.storageP) tr.consec = 0; return; }
    if (leaf === "abandoned.json") { markerAttempts.push({ n: ++tick, t: sim.now, shard }); return; }
    if (leaf === null) markerAttempts.push({ n: ++tick, t: sim.now, shard });
    if (leaf !== "metadata.json") tr.consec++;
    // a failed credential fetch may belong to the metadata write of a session nobody has seen yet
    if (leaf === "metadata.json" || leaf === null && metadataMayBeDue(shard) || tr.consec >= 3) abandonments.push({ n: ++tick, t: sim.now, shard });
  };
  const metadataMayBeDue = (shard) => {
    let last = null; for (const se of sessions.values()) if (se.shard === shard) last = se;
    return !last || dupOk.has(shard) || !last.metadata || last.abandoned || last.chunks >= 30 || EPOCH + sim.now - last.start >= 599e3 || abandonments.some((a) => a.shard === shard && a.t > last.first);
  };
  const chunkAttempts = new Map(); // shard -> [{t, ids}]
  const dupOk = new Set(); // shards where duplicates are legitimate
  let shuttingDown = false;

  const idsOf = (spans) => spans.map((s) => { const m = /evt-(\d+)-/.exec(JSON.stringify(s).slice(0, 20000)) ?? /evt-(\d+)-/.exec(JSON.stringify(s)); return m ? Number(m[1]) : null; });

  const handleS3 = (info, shardHost, fault) => {
    const key = storageKey(sim, plan.storage, info);
    const auth = /Credential=([^/]+)\//.exec(info.headers.get("authorization") ?? "")?.[1];
    const cred = creds.get(auth);
    const nowMs = EPOCH + Math.floor(sim.now);
    if (!cred) { sim.violate("S05/unknown-credential", `upload signed with unknown access key ${auth}`); return { status: 403, body: "InvalidAccessKeyId" }; }
    const v = verifySigV4(info, cred.secret);
    if (!v.ok) { sim.violate("S05/bad-signature", `upload of ${key} rejected by an independent signature verification: ${v.reason}`); return { status: 403, body: "SignatureDoesNotMatch" }; }
    if (info.headers.get("x-amz-security-token") !== cred.token) { sim.violate("S05/bad-token", `upload of ${key} carries the wrong session token`); return { status: 403, body: "InvalidToken" }; }
    if (cred.revoked) { sim.probe("revoked-credential-used"); cred.rejections = (cred.rejections ?? 0) + 1; return { status: 403, body: "ExpiredToken" }; }
    if (fault?.kind === "status") return { status: fault.status, body: "injected" };
    let data; try { data = JSON.parse(info.body.toString()); } catch { sim.violate("S02/not-json", `object ${key} is not JSON`); return { status: 200 }; }
    const prefix = plan.token.slice(0, 12);
    if (!key.startsWith(`${prefix}/BE_`)) sim.violate("S02/prefix", `object ${key} is not under the prefix of its recording token (${prefix}/)`);
    const [, session, leaf] = key.split("/");
    let se = sessions.get(session);
    if (!se) { se = { chunks: 0, first: sim.now, shard: shardHost.name, order: sessions.size, start: Date.parse(session.slice(3).replace(/_[^_]*$/, "")) }; sessions.set(session, se); }
    if (se.shard !== shardHost.name) sim.violate("S02/shared-session", `session ${session} is written by two shards`);
    if (leaf === "metadata.json") {
      se.metadata = true;
      if (data.projectID !== plan.token) sim.violate("S02/metadata", `metadata of ${session} names project ${data.projectID}`);
      if (data.meticulousProjectName !== (plan.project ?? "unknown_service")) sim.violate("S02/metadata", `metadata of ${session} carries the project name ${data.meticulousProjectName}`);
      if (data.config?.sessionId !== session) sim.violate("S02/metadata", `metadata of ${session} describes session ${data.config?.sessionId}`);
    } else if (leaf === "abandoned.json") { se.abandoned = true; sim.probe("abandoned-marker-stored"); }
    else {
      const n = Number(leaf);
      if (!Number.isInteger(n) || n < 1) sim.violate("S02/chunk-name", `unexpected object ${key}`);
      if (!se.metadata) sim.violate("S02/metadata-first", `chunk ${key} stored before the session's metadata`);
      if (n > 1 && !s3.has(`${prefix}/${session}/${n - 1}`)) sim.violate("S02/gap", `chunk ${key} stored although chunk ${n - 1} does not exist`);
      if (n > 30) sim.violate("S02/max-chunks", `session ${session} has ${n} chunks`);
      if (se.abandoned && !dupOk.has(shardHost.name)) sim.violate("S02/after-abandon", `chunk ${key} stored in a session already marked abandoned`);
      if (nowMs - se.start > 600e3 + (faulty ? 400e3 : 30e3)) sim.violate("S02/max-age", `chunk ${key} stored ${Math.round((nowMs - se.start) / 1000)}s after its session started`);
      if (data.backendRecorderToken !== plan.token) sim.violate("S02/token", `chunk ${key} carries token ${data.backendRecorderToken}`);
      const ids = idsOf(data.spans ?? []);
      if (ids.includes(null)) sim.violate("S01/foreign-span", `chunk ${key} has a span that matches no reported event`);
      for (let i = 0; i < ids.length; i++) {
        const rec = recs.get(ids[i]);
        if (!rec) { sim.violate("S01/foreign-span", `chunk ${key} has unknown event ${ids[i]}`); continue; }
        if (rec.malformed) continue;
        const bad = checkSpan(data.spans[i], rec);
        if (bad.length) sim.violate("S01/changed-event", `event ${ids[i]} was stored changed: ${bad.join(", ")}`);
        if (rec.shard !== undefined && rec.shard !== shardHost.name) sim.violate("S04/shard", `event ${ids[i]} stored by ${shardHost.name}, accepted by ${rec.shard}`);
      }
      const prev = s3.get(key);
      if (prev) {
        sim.probe("chunk-overwritten");
        const now = new Set(ids); const lost = [...prev.ids].filter((x) => !now.has(x));
        if (lost.length) sim.violate("S02/overwrite", `chunk ${key} was overwritten and lost events ${lost.slice(0, 5)}`);
        if (!dupOk.has(shardHost.name) && !prev.lostResponse) sim.violate("S02/overwrite", `chunk ${key} was uploaded twice without a failure in between`);
      }
      se.chunks = Math.max(se.chunks, n);
      s3.set(key, { ids: new Set(ids), list: ids, t: sim.now, shard: shardHost.name, n, session, order: se.order, lostResponse: fault?.kind === "lost" });
      if (fault?.kind === "lost") dupOk.add(shardHost.name);
      for (const i of ids) { const r = recs.get(i); if (r) { r.storedAt ??= sim.now; r.storeCount = (r.storeCount ?? 0) + (prev?.ids.has(i) ? 0 : 1); } }
      sim.probe("chunks-stored");
    }
    return { status: 200, headers: { etag: '"x"' } };
  };
  const cogInFlight = new Map();
  const handleCognito = (info, shardHost, fault) => {
    const target = info.headers.get("x-amz-target");
    checkCredentialCall(sim, plan.storage, info);
    if (fault?.kind === "status") return { status: fault.status, body: { message: "injected" } };
    if (fault?.kind === "garbage") return { status: 200, headers: { "x-sim-garbage": "1" }, body: fault.partial ? { Credentials: fault.partial } : {} };
    if (target?.endsWith("GetId")) return { status: 200, body: { IdentityId: `id-${++credSeq}` } };
    const n = ++credSeq; const key = `AK${n}`;
    const exp = EPOCH + Math.floor(sim.now) + plan.credTtl;
    creds.set(key, { secret: `sk${n}`, token: `st${n}`, expiresAtMs: exp, shard: shardHost.name });
    return { status: 200, body: { IdentityId: "x", Credentials: { AccessKeyId: key, SecretKey: `sk${n}`, SessionToken: `st${n}`, Expiration: exp / 1000 } } };
  };

  // ------------------------------------------------------------ shards
  const env = { METICULOUS_RECORDING_TOKEN: plan.token, ...(plan.project === null ? {} : { METICULOUS_PROJECT_NAME: plan.project }), ...(plan.storage.endpointUrl ? { METICULOUS_S3_ENDPOINT_URL: plan.storage.endpointUrl } : {}), ...(plan.storage.bucket ? { METICULOUS_S3_BUCKET: plan.storage.bucket } : {}), ...(plan.storage.region ? { METICULOUS_S3_REGION: plan.storage.region } : {}), ...(plan.storage.identityPoolId ? { METICULOUS_COGNITO_IDENTITY_POOL_ID: plan.storage.identityPoolId } : {}), METICULOUS_LOG_LEVEL: "debug", METICULOUS_SIDECAR_SHARDS: String(plan.shards) };
  const hosts = new Map();
  const hostFor = (name) => {
    let h = hosts.get(name);
    if (h) return h;
    h = new DurableHost(sim, {
      name, latency: [0, 3],
      faultFor: (label) => { if (!(faultsOn && plan.storageP && sim.chance("f:dostore", plan.storageP))) return null; dupOk.add(name); return { kind: "error" }; },
      makeInstance: (host, dctx) => {
        const proc = new Proc(sim, `${name}#${host.epoch}`, { pid: 1 });
        const inst = host.inst;
        const raw = simFetch(proc, {
          name: "s3", latency: [2, 120],
          faultFor: (info) => {
            const cog = info.host.startsWith("cognito");
            if (info.method === "PUT") {
              const key = decodeURIComponent(info.path.slice(1)); const leaf = key.split("/").pop();
              const session = key.split("/").at(-2); const tr = trackerOf(name);
              if (leaf === "abandoned.json") {
                markerAttempts.push({ n: ++tick, t: sim.now, shard: name });
                if (tr.lastPut && tr.lastPut.leaf !== "abandoned.json" && tr.lastPut.session !== session && (sessions.has(session) || (!plan.cognitoP && !plan.revoke))) sim.violate("S01/wrong-marker", `the abandonment marker was written for session ${session} although the failing uploads belong to ${tr.lastPut.session}`);
              }
              tr.lastPut = { session, leaf };
              if (leaf !== "metadata.json" && leaf !== "abandoned.json") {
                const ids = idsOf(JSON.parse(info.body.toString()).spans ?? []);
                if (!chunkAttempts.has(name)) chunkAttempts.set(name, []);
                chunkAttempts.get(name).push({ t: sim.now, ids: new Set(ids) });
              }
              const auth = /Credential=([^/]+)\//.exec(info.headers.get("authorization") ?? "")?.[1]; const cred = creds.get(auth);
              if (cred) {
                if (EPOCH + sim.now >= cred.expiresAtMs) sim.violate("S05/expired", `upload of ${key} signed with credentials that expired ${Math.round((EPOCH + sim.now - cred.expiresAtMs) / 1000)}s ago`);
                if (cred.rejectedTo?.has(proc.name)) sim.violate("S05/reused-rejected", `upload of ${key} reuses credentials ${auth} that storage already rejected for this instance`);
              }
              // crash inside the upload
              if (crashesLeft > 0 && faultsOn && sim.chance("crash:put", 0.2)) { crashesLeft--; sim.at(sim.latency("crash:delay", 0, 150), () => { if (inst.alive) { sim.fault("crash:during-upload"); dupOk.add(name); host.crash("crash"); } }, { name: "crash" }); }
            }
            if (!faultsOn) return null;
            if (cog) {
              if (plan.cognitoP && sim.chance("f:cog", plan.cognitoP)) {
                const k = sim.weighted("f:cogkind", [2, 2, 1, 1]);
                return k === 0 ? { kind: "status", status: 500 } : k === 1 ? { kind: "refuse" } : k === 2 ? { kind: "garbage", partial: partialCredentials(sim) } : { kind: "lost" };
              }
              return null;
            }
            if (inOutage() || (plan.s3p && sim.chance("f:s3", plan.s3p))) {
              const k = sim.weighted("f:s3kind", [3, 2, 2, plan.stall ? 2 : 0]);
              return k === 0 ? { kind: "status", status: sim.pick("f:s3status", [503, 500]) } : k === 1 ? { kind: "refuse" } : k === 2 ? { kind: "lost" }
                : sim.chance("f:stallkind", 0.5) ? { kind: "stall" } : { kind: "refuse", delay: sim.int("f:stall", 5e3, 60e3), code: "ETIMEDOUT" };
            }
            if (plan.revoke && sim.chance("f:revoke", 0.1)) {
              const auth = /Credential=([^/]+)\//.exec(info.headers.get("authorization") ?? "")?.[1];
              const c = creds.get(auth); if (c && !c.revoked) { c.revoked = true; sim.fault("credential-revoked"); }
            }
            return null;
          },
          handle: (info, fault) => {
            if (info.host.startsWith("cognito")) return handleCognito(info, host, fault);
            const r = handleS3(info, host, fault);
            if (r.status === 403) { const auth = /Credential=([^/]+)\//.exec(info.headers.get("authorization") ?? "")?.[1]; const c = creds.get(auth); r.onDelivered = () => { if (c) (c.rejectedTo ??= new Set()).add(proc.name); }; }
            return r;
          },
        });
        // output gate before sending, input gate before delivering the answer
        proc.opts.fetch = (input, init) => {
          const isCog = String(input?.url ?? input).includes("cognito");
          const targetGetId = isCog && String(init?.headers?.["x-amz-target"] ?? "").endsWith("GetId");
          if (targetGetId) {
            const n = (cogInFlight.get(proc.name) ?? 0) + 1; cogInFlight.set(proc.name, n);
            if (n > 1) sim.violate("S05/not-shared", `${proc.name} has ${n} credential fetches in flight at once`);
          }
          const put = !isCog && (init?.method ?? input?.method) === "PUT";
          const leaf = put ? decodeURIComponent(new URL(String(input?.url ?? input)).pathname).split("/").pop() : null;
          const outcome = (ok) => { if (inst.alive) writeOutcome(name, leaf, ok); };
          const dec = () => { if (targetGetId) cogInFlight.set(proc.name, cogInFlight.get(proc.name) - 1); };
          return new Promise((res, rej) => {
            host.whenDurable(host.inst ?? inst, () => {
              raw(input, init).then(
                (r) => { dec(); outcome(r.ok && !(isCog && r.headers.get("x-sim-garbage"))); if (r.status === 403) markRejected(init, proc); if (inst.alive) host.deliver(inst, () => res(r)); },
                (e) => { dec(); outcome(false); if (inst.alive) host.deliver(inst, () => rej(e)); });
            });
          });
        };
        const mod = proc.load(scripts.sidecar);
        const obj = new mod.sidecar.MeticulousRecorderSession(dctx, env);
        return { proc, obj };
      },
    });
    h.epochBase = EPOCH;
    hosts.set(name, h);
    return h;
  };
  const markRejected = (init, proc) => {
    const h = init?.headers; const a = h?.authorization ?? h?.Authorization ?? (h?.get ? h.get("authorization") : "");
    const auth = /Credential=([^/]+)\//.exec(a ?? "")?.[1]; const c = creds.get(auth);
    if (c) (c.rejectedTo ??= new Set()).add(proc.name);
  };
  const shardLog = []; // {shard, ids, ...}
  env.METICULOUS_SESSION = {
    idFromName: (n) => ({ n }),
    get: (id) => ({
      fetch: async (request, init) => {
        const req = request instanceof Request ? request : new Request(request, init);
        const host = hostFor(id.n);
        if (req.method === "POST") for (const m of (await req.clone().text()).matchAll(/evt-(\d+)-/g)) { const r = recs.get(Number(m[1])); if (r) r.shardGuess = id.n; }
        return host.fetch(req, null);
      },
    }),
  };
  const workerProc = new Proc(sim, "worker", {});
  const worker = workerProc.load(scripts.sidecar).sidecar.default;
  const callWith = async (e, req) => {
    await sim.sleep(sim.latency("lat:client", 0, 20));
    let res;
    try { res = await worker.fetch(req, e); } catch (e) { res = new Response(String(e?.message ?? e), { status: 500 }); sim.log(`worker threw ${e?.message}`); }
    await sim.sleep(sim.latency("lat:client", 0, 20));
    return res;
  };
  const callWorker = Object.assign((req) => callWith(env, req), { with: callWith });
  const { SIDECAR_EVENTS_PATH: EP, VERSION } = { SIDECAR_EVENTS_PATH: "/v1/events", VERSION: "2" };
  const post = (body, headers = {}) => callWorker(new Request(`https://sidecar.invalid${EP}`, { method: "POST", headers: Object.entries({ "content-type": "application/json", "content-length": String(Buffer.byteLength(body)), "x-meticulous-sidecar-protocol-version": VERSION, ...headers }).filter(([, v]) => v !== undefined), body }));

  // ------------------------------------------------------------ workload
  let accepted = 0, refused = 0, flushOk = 0, flushFail = 0;
  // `r` may be missing only if it was pending (or arrived during the back-off) when its session
  // was given up, and the marker saying so was at least attempted.
  const excused = (r, at) => abandonments.some((a) => {
    if (r.shardGuess !== undefined && a.shard !== r.shardGuess) return false;
    if (r.ackAt > a.t + 5 * 60e3 + 1e3 || a.t > at) return false;
    if (!markerAttempts.some((m) => m.shard === a.shard && m.n > a.n && m.t < a.t + 130e3) && at === Infinity) return false;
    const att = (chunkAttempts.get(a.shard) ?? []).filter((c) => c.t <= a.t);
    const withIt = att.filter((c) => c.ids.has(r.id));
    return withIt.length === 0 || att[att.length - 1].ids.has(r.id);
  });
  const idsIn = new WeakMap();
  const durableIds = () => {
    const ids = new Set();
    for (const h of hosts.values()) for (const v of h.durable.values()) {
      if (!Array.isArray(v)) continue;
      let found = idsIn.get(v);
      if (!found) idsIn.set(v, found = v.map((ev) => /evt-(\d+)-/.exec([ev?.url, ev?.key, ev?.queryText].join(" "))?.[1]).filter(Boolean).map(Number));
      for (const i of found) ids.add(i);
    }
    return ids;
  };
  const sendBatch = async (events, requestId) => {
    const body = JSON.stringify({ events: events.map((e) => e.event) });
    const sentAt = sim.now;
    for (const e of events) { recs.set(e.id, e); e.sends = (e.sends ?? 0) + 1; e.requestId = requestId; e.sentAt ??= sentAt; }
    const before = hosts.size;
    const res = await post(body);
    if (res.status === 204) { accepted++; for (const e of events) { e.ackAt ??= sim.now; e.ackSeq ??= sim.events; }
      // success means durable: in an object's storage or uploaded already (or given up, with the marker)
      const missing = events.find((e) => !e.noSpan && e.storedAt === undefined && !durableIds().has(e.id) && !excused(e, sim.now));
      if (missing) sim.violate("S04/not-durable", `a batch was answered with success although event ${missing.id} is neither in durable storage nor uploaded`); }
    else {
      refused++; sim.probe("batch-refused");
      sim.check(res.status >= 400, "S04/status", `a batch was answered with status ${res.status}`);
      if (!plan.crashes && !plan.storageP && !faulty) sim.violate("S04/refused", `a valid batch was refused (${res.status}) without any fault`);
    }
    return res.status;
  };
  const client = async (ci) => {
    const n = plan.burst ? sim.int("wl:nburst", 66, 180) : plan.steady ? 400 : sim.int("wl:n", 1, mode === "long" ? 40 : mode === "big" ? 3 : 10);
    let lastReq = null;
    for (let i = 0; i < n && !sim.stopped; i++) {
      await sim.sleep(plan.burst ? sim.int("wl:gapb", 0, 40) : plan.steady ? sim.int("wl:gaps", 300, 4500) : sim.latency("wl:gap", 0, Math.floor((2 * plan.horizon) / n)));
      if (sim.now > plan.horizon) break;
      const requestId = lastReq && sim.chance("wl:same", 0.3) ? lastReq : `r${ci}-${i}`; lastReq = requestId;
      const events = Array.from({ length: plan.burst ? 1 : sim.int("wl:size", 1, plan.bigEvents ? 12 : 4) }, () => makeEvent(sim, ctx, requestId));
      if (sim.chance("wl:unknown", 0.05)) { const u = makeEvent(sim, ctx, requestId); u.event.kind = "future-kind"; u.noSpan = true; events.push(u); }
      if (sim.chance("wl:malformed", 0.05)) events.push(malformedEvent(sim, ctx, requestId));
      const st = await sendBatch(events, requestId);
      if (st !== 204 && plan.retries && sim.chance("wl:resend", 0.5)) { for (const e of events) { e.resent = true; } await sendBatch(events, requestId); }
    }
  };
  const onlySpanless = (list) => list.every((r) => r.noSpan);
  const flusher = async () => {
    for (let i = 0; i < plan.flushes && !sim.stopped; i++) {
      await sim.sleep(sim.int("wl:flushgap", 0, Math.floor((2 * plan.horizon) / (plan.flushes + 1))));
      const calledAt = sim.events;
      const due = [...recs.values()].filter((r) => r.ackAt !== undefined && r.ackSeq <= calledAt);
      const res = await callWorker(new Request("https://sidecar.invalid/v1/flush", { method: "POST" }));
      if (res.status === 204) {
        flushOk++;
        for (const r of due) {
          if (r.noSpan || r.storedAt !== undefined || excused(r, sim.now)) continue;
          sim.violate("S03/not-stored", `flush answered success but event ${r.id}, accepted ${Math.round(sim.now - r.ackAt)}ms earlier, is not in storage`, { event: r.id });
          break;
        }
      } else {
        flushFail++;
        sim.check(res.status >= 400, "S03/status", `flush answered ${res.status}`);
        if (!faulty) sim.violate("S03/failed", `flush failed (${res.status}) without any fault`);
      }
    }
  };
  const badRequests = async () => {
    if (!sim.chance("wl:bad", 0.5)) return;
    const k = sim.int("wl:badn", 1, 5);
    for (let i = 0; i < k && !sim.stopped; i++) {
      await sim.sleep(sim.latency("wl:badgap", 0, plan.horizon / 4));
      await badRequest(sim, { callWorker, post, env, EP, VERSION, worker, makeEvent: () => makeEvent(sim, ctx, "bad"), hosts, plan });
    }
  };
  const crasher = async () => {
    for (let i = 0; i < plan.crashes && !sim.stopped; i++) {
      await sim.sleep(sim.latency("wl:crashgap", 0, Math.floor((2 * plan.horizon) / (plan.crashes + 1))));
      if (!faultsOn || crashesLeft <= 0) return;
      const alive = [...hosts.values()].filter((h) => h.inst);
      if (alive.length) { crashesLeft--; const h = sim.pick("crash:which", alive); sim.fault("crash:random"); dupOk.add(h.name); h.crash("crash"); }
    }
  };
  const evictor = async () => {
    // idle eviction: only when nothing is in flight (always legal, even without faults)
    for (let i = 0; i < 3 && !sim.stopped; i++) {
      await sim.sleep(sim.int("wl:evgap", 1000, plan.horizon));
      for (const h of hosts.values()) {
        const inst = h.inst;
        if (inst && inst.inFlight.size === 0 && !h.alarmRunning && inst.pendingWrites.length === 0 && inst.gate === 0 && inst.waiting.length === 0 && sim.chance("evict", 0.5)) { sim.fault("eviction:idle"); h.inst = null; inst.alive = false; inst.proc.crash("evicted"); }
      }
    }
  };
  const status = await sim.run(async () => {
    await Promise.all([...Array.from({ length: plan.clients }, (_, i) => client(i)), flusher(), badRequests(), crasher(), evictor()]);
  }, { maxTime: plan.horizon * 4 + 600e3, maxEvents: 60000 });
  if (sim.stopped) return { sample: { plan } };
  if (status !== "done") { sim.probe(`workload-${status}`); if (!faulty) sim.violate("S01/stuck", `the workload did not finish (${status})`); }
  // ------------------------------------------------------------ faults stop
  faultsOn = false; outages.length = 0;
  await sim.settle(12 * 60e3, 60000);
  if (sim.stopped) return { sample: { plan } };
  // ------------------------------------------------------------ history checks
  for (const r of recs.values()) {
    if (r.noSpan) continue;
    if (r.ackAt !== undefined) {
      if (r.storedAt === undefined && !excused(r, Infinity)) {
        const withIt = [...chunkAttempts.values()].flat().filter((c) => c.ids.has(r.id)).length;
        sim.violate("S01/lost", `event ${r.id} was accepted but is not in storage ${Math.round((sim.now - r.ackAt) / 1000)}s later, and no abandonment explains it (${withIt} upload attempts contained it)`, { event: r.id, withIt });
        break;
      }
      if ((r.storeCount ?? 0) > r.sends && !dupOk.size) { sim.violate("S01/duplicate", `event ${r.id} was stored ${r.storeCount} times for ${r.sends} send(s) although no instance crashed and no response was lost`); break; }
    } else if ((r.storeCount ?? 0) > r.sends && !dupOk.size) { sim.violate("S01/duplicate", `refused event ${r.id} was stored ${r.storeCount} times for ${r.sends} send(s)`); break; }
  }
  if (!faulty) {
    // with nothing failing, accepted data is stored soon, whether or not more keeps coming
    for (const r of recs.values()) if (!r.noSpan && r.ackAt !== undefined && r.storedAt > r.ackAt + 60e3) { sim.violate("S01/late", `event ${r.id} was stored ${Math.round((r.storedAt - r.ackAt) / 1000)}s after it was accepted although nothing failed`); break; }
    // acceptance order within one request id = storage order
    const pos = new Map(); const keys = [...s3.entries()].sort((a, b) => a[1].order - b[1].order || a[1].n - b[1].n);
    let i = 0; for (const [, o] of keys) for (const id of o.list) pos.set(id, i++);
    const byReq = new Map();
    for (const r of recs.values()) if (r.ackAt !== undefined && !r.noSpan && pos.has(r.id)) { if (!byReq.has(r.requestId)) byReq.set(r.requestId, []); byReq.get(r.requestId).push(r); }
    for (const list of byReq.values()) {
      for (let a = 0; a + 1 < list.length; a++) {
        if (pos.get(list[a].id) > pos.get(list[a + 1].id)) { sim.violate("S04/order", `events ${list[a].id} and ${list[a + 1].id} of one request are stored out of acceptance order`); break; }
      }
      const shardsOf = new Set(list.map((r) => [...s3.values()].find((o) => o.ids.has(r.id))?.shard));
      if (shardsOf.size > 1) sim.violate("S04/shard", `events of one request id were stored by ${shardsOf.size} shards`);
    }
  }
  for (const [s, se] of sessions) {
    if (se.chunks > 0 && !se.metadata) sim.violate("S02/metadata-missing", `session ${s} has chunks but no metadata`);
  }
  for (const u of sim.unhandled) sim.violate(`${P === "S01" ? "S01" : P}/unhandled`, `unhandled rejection: ${u.reason?.message ?? u.reason}`);
  sim.probe("accepted-batches", accepted); sim.probe("flush-ok", flushOk); sim.probe("flush-failed", flushFail);
  if (abandonments.length) sim.probe("runs-with-abandonment");
  if (sessions.size > 1) sim.probe("runs-with-several-sessions");
  return { sample: { plan, accepted, refused, objects: s3.size, sessions: sessions.size, restarts: [...hosts.values()].reduce((a, h) => a + h.stats.restarts, 0) } };
};

const badRequest = async (sim, { callWorker, post, env, EP, VERSION, makeEvent, hosts, plan }) => {

  const kind = sim.pick("bad:kind", ["version", "json", "noevents", "empty", "big", "notoken", "nobinding", "path", "method", "health", "edge"]);
  const one = JSON.stringify({ events: [{ kind: "future-kind", requestId: "bad" }] });
  const expectStatus = (res, want) => sim.check(res.status === want, "S04/refusal", `a ${kind} request was answered ${res.status}, expected ${want}`);
  sim.probe(`bad-${kind}`);

  const stored = () => [...hosts.values()].reduce((a, h) => a + [...(h.inst?.cache ?? h.durable).values()].filter((v) => JSON.stringify(v)?.includes("bad-marker")).length, 0);
  const badBody = JSON.stringify({ events: [{ kind: "inbound", requestId: "bad-marker", method: "GET", url: "http://x/bad-marker", requestHeaders: {}, startTimeMs: 1, endTimeMs: 2 }] });
  switch (kind) {
    case "version": expectStatus(await post(badBody, { "x-meticulous-sidecar-protocol-version": sim.pick("bad:v", ["1", "3", "", "2.0", "22", "2, 3", undefined]) }), 400); break;
    case "json": expectStatus(await post(sim.pick("bad:j", ["{", "", badBody.slice(0, -1), badBody + "x"])), 400); break;
    case "noevents": expectStatus(await post(sim.pick("bad:n", ["{}", '{"events":null}', '{"events":{"0":1}}', '{"events":"bad-marker"}', "[]", '"x"', "1", "null", badBody.slice(10, -1)])), 400); break;
    case "empty": expectStatus(await post('{"events":[]}'), 204); break;
    case "big": expectStatus(await post(badBody, { "content-length": String(8 * 1024 * 1024 + 1 + sim.int("bad:len", 0, 1000)) }), 413); break;
    case "path": expectStatus(await callWorker(new Request("https://sidecar.invalid/v1/other", { method: "POST", body: badBody })), 404); break;
    case "method": expectStatus(await callWorker(new Request(`https://sidecar.invalid${EP}`, { method: "GET" })), 404); break;
    case "health": { const r = await callWorker(new Request("https://sidecar.invalid/v1/health")); expectStatus(r, 200); const j = await r.json(); sim.check(j.ok === true && j.configured === true, "S04/health", `health answered ${JSON.stringify(j)} on a configured worker`); break; }
    case "notoken": case "nobinding": {
      const saved = { ...env };
      if (kind === "notoken") { if (sim.chance("bad:emptytok", 0.5)) env.METICULOUS_RECORDING_TOKEN = ""; else delete env.METICULOUS_RECORDING_TOKEN; } else delete env.METICULOUS_SESSION;
      // evaluated synchronously by a separate environment object
      const e2 = { ...env }; Object.assign(env, saved);
      const r = await callWorker.with(e2, new Request(`https://sidecar.invalid${EP}`, { method: "POST", headers: { "x-meticulous-sidecar-protocol-version": VERSION }, body: badBody }));
      expectStatus(r, 500);
      if (kind === "notoken") { const h = await callWorker.with(e2, new Request("https://sidecar.invalid/v1/health")); const j = await h.json(); sim.check(j.configured === false, "S04/health", "health claims an unconfigured worker is configured"); }
      break;
    }
    case "edge": {
      // a large declared length that is still allowed, with nothing in it to record
      expectStatus(await post('{"events":[]}', { "content-length": String(8 * 1024 * 1024 - sim.pick("bad:edge", [1, 1000, 3_000_000])) }), 204); break;
    }
    default: break;
  }
  sim.check(stored() === 0, "S04/stored-refused", `a refused ${kind} request left data in durable storage`);
};

