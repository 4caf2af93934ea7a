// Harness for packages/remote-replay-launcher: multipart uploads, builds and
// their triggers, waiting for a base, and remote test runs over a tunnel.
import { PassThrough } from "node:stream";
import zlib from "node:zlib";
import { createHash } from "node:crypto";
import { EventEmitter } from "node:events";
import { isDeepStrictEqual } from "node:util";
import { bundle } from "../../sim/bundle.mjs";
import { Proc } from "../../sim/proc.mjs";
import { Disk } from "../../sim/fs.mjs";
import { npmModules, realPackages } from "../../sim/npm.mjs";
import { simFetch } from "../../sim/net.mjs";
import { storageFault } from "./client.mjs";

export const LAUNCHER_META = {
  real: ["packages/remote-replay-launcher/src", "packages/client/src (API calls, retries, signed uploads)", "packages/common/src", "npm tar 7.5.11, p-limit 3.1.0, node zlib and streams"],
  stubs: ["undici fetch: model of connect, headers and body phases with its 300 s timeouts", "node http/https client: model (streamed request, early answers, resets at any byte)", "fs: simulated disk", "API server, storage, image registry: scenario models", "dockerode: model of the daemon calls used", "tunnels-client: recording stand-in", "fast-zlib: node zlib used synchronously", "systeminformation, @sentry/node, loglevel, chalk: trivial"],
  assumptions: ["the service treats repeated completion of one upload as the same completion (documented in the code)", "storage answers a part with the digest of what it stored"],
};
let built;
export const buildLauncherBundle = async () => (built ??= { rl: (await bundle({
  rl: "packages/remote-replay-launcher/src/index.ts", assets: "packages/remote-replay-launcher/src/asset-upload-utils.ts", cont: "packages/remote-replay-launcher/src/upload-container.ts",
  chunk: "packages/remote-replay-launcher/src/upload-asset-chunk.ts", chunks: "packages/remote-replay-launcher/src/run-with-uploaded-asset-chunks.ts", client: "packages/client/src/index.ts",
  build: "packages/remote-replay-launcher/src/upload-build.ts", trig: "packages/remote-replay-launcher/src/trigger-test-run.ts", gen: "packages/remote-replay-launcher/src/generate-sessions.ts",
  ua: "packages/remote-replay-launcher/src/upload-assets-and-trigger-test-run.ts", uc: "packages/remote-replay-launcher/src/upload-container-and-trigger-test-run.ts", exec: "packages/remote-replay-launcher/src/execute-remote-test-run.ts",
}, { real: realPackages() })).code });
export const settled = (p) => Promise.resolve(p).then((v) => ({ ok: true, v }), (e) => ({ ok: false, e }));
export const errText = (e) => (e instanceof Error || e?.message ? `${e.name}: ${e.message}${e.code ? ` (${e.code})` : ""}` : String(e)).slice(0, 200);
const md5 = (b) => `"${createHash("md5").update(b).digest("hex")}"`;

// ------------------------------------------------------------------ tar
const str = (b, o, n) => { const e = b.indexOf(0, o); return b.toString("utf8", o, e >= 0 && e < o + n ? e : o + n); };
export const parseTar = (buf) => {
  const out = new Map(); let o = 0; let pax = null; let ended = false;
  while (o + 512 <= buf.length) {
    const h = buf.subarray(o, o + 512); o += 512;
    if (h.every((x) => x === 0)) { ended = true; break; }
    const sum = parseInt(str(h, 148, 8), 8); let s = 0; for (let i = 0; i < 512; i++) s += i >= 148 && i < 156 ? 32 : h[i];
    if (s !== sum) throw new Error("bad tar header checksum");
    const size = parseInt(str(h, 124, 12), 8); const type = String.fromCharCode(h[156]);
    const data = buf.subarray(o, o + size); if (data.length !== size) throw new Error("tar entry truncated");
    o += Math.ceil(size / 512) * 512;
    if (type === "x") { pax = Object.fromEntries(data.toString().split("\n").filter(Boolean).map((l) => { const kv = l.slice(l.indexOf(" ") + 1); return [kv.slice(0, kv.indexOf("=")), kv.slice(kv.indexOf("=") + 1)]; })); continue; }
    const prefix = h.toString("latin1", 257, 262) === "ustar" ? str(h, 345, 155) : "";
    const pax0 = pax; const name = pax?.path ?? (prefix ? `${prefix}/${str(h, 0, 100)}` : str(h, 0, 100)); pax = null;
    out.set(name, { type: type === "5" ? "dir" : type === "0" || type === "\0" ? "file" : `type ${type}`, data: Buffer.from(data), link: pax0?.linkpath ?? str(h, 157, 100), mode: parseInt(str(h, 100, 8), 8) });
  }
  if (!ended) throw new Error("tar has no end marker");
  return out;
};
export const norm = (p) => p.replace(/^\.\//, "").replace(/\/$/, "");
export const makeTar = (files) => {
  const parts = [];
  for (const [name, data] of files) {
    const h = Buffer.alloc(512); h.write(name, 0); h.write("000644 \0", 100); h.write("0000000\0", 108); h.write("0000000\0", 116); h.write(`${data.length.toString(8).padStart(11, "0")} `, 124); h.write("00000000000 ", 136); h.write("        ", 148); h[156] = 48; h.write("ustar\0" + "00", 257);
    let s = 0; for (const x of h) s += x; h.write(`${s.toString(8).padStart(6, "0")}\0 `, 148);
    parts.push(h, data, Buffer.alloc((512 - (data.length % 512)) % 512));
  }
  parts.push(Buffer.alloc(1024)); return Buffer.concat(parts);
};
export const noise = (sim, len) => { const b = Buffer.alloc(len); let x = sim.int("w:noise", 1, 2 ** 30); for (let i = 0; i < len; i++) { x = (Math.imul(x, 1103515245) + 12345) & 0x7fffffff; b[i] = x >> 16; } return b; };
/** a random directory tree on the disk; returns Map(relative path -> Buffer) */
export const makeTree = (sim, disk, root) => {
  const files = new Map(); const n = sim.pick("w:files", [0, 1, 2, 4, 8]);
  disk.mkdir(root, { recursive: true });
  for (let i = 0; i < n; i++) {
    const dir = sim.pick("w:dir", ["", "", "assets/", "a/b/c/", `${"long-".repeat(20)}/${"x".repeat(90)}/`]);
    const name = `${dir}${sim.pick("w:fn", ["f", "ü", "with space ", "index.html."])}${i}`;
    const len = sim.pick("w:flen", [0, 1, 511, 512, 513, 3000, 20000, 60000]); const data = sim.chance("w:rand", 0.7) ? noise(sim, len) : Buffer.alloc(len, 65 + i);
    files.set(name, data); disk.put(`${root}/${name}`, data);
  }
  return files;
};

// ------------------------------------------------------------------ the service
export const apiFaults = (sim, p) => () => {
  if (!sim.chance("f:api", p)) return null;
  const k = sim.pick("f:apik", ["refuse", "lost", "status", "status", "status", "stall", "cut", "slow"]);
  if (k === "status") return { kind: k, status: sim.pick("f:apist", [500, 502, 503, 504, 504, 429, 400, 403, 422]) };
  if (k === "slow") return { kind: k, delay: sim.pick("f:slow", [5e3, 40e3, 70e3]) };
  if (k === "cut") return { kind: k, after: 0 };
  return { kind: k };
};
export class Service {
  constructor(sim, o = {}) {
    this.sim = sim; this.o = o; this.uploads = new Map(); this.n = 0; this.log = []; this.runs = []; this.K = sim.prop; this.registry = sim.pick("w:registry", ["reg.sim", "reg.sim:8443"]); this.disturbed = 0; this.open = 0; this.inflight = new Map(); this.maxInflight = 0;
    this.baseAt = o.baseAt ?? 0; this.badFiles = new Set();
  }
  attach(proc, { pApi = 0, pStore = 0 } = {}) {
    const plan = this.o.apiPlan ?? apiFaults(this.sim, pApi); const store = storageFault(this.sim, pStore);
    proc.opts.fetch = simFetch(proc, { name: "api", latency: [1, 60], chunks: 2, undiciTimeouts: true, onOpen: () => { this.open++; }, onClose: () => { this.open--; },
      faultFor: (info) => { const f = plan(info); if (f) this.disturbed++; const e = { t: this.sim.now, who: info.headers?.authorization ?? info.headers?.get?.("authorization"), path: info.path.replace(/^\/api\//, ""), method: info.method, body: info.body?.length ? JSON.parse(info.body.toString()) : null, query: info.query, fault: f }; info.entry = e; this.log.push(e); return f; },
      handle: (info, f) => { this.who = info.entry.who; const r = this.api(info, f); info.entry.answeredAt = this.sim.now; info.entry.status = r.status ?? 200; info.entry.answer = r.body; return { headers: { "content-type": "application/json" }, ...r, body: typeof r.body === "string" ? r.body : JSON.stringify(r.body ?? null) }; } });
    proc.opts.httpNet = { name: "storage", latency: [1, 60], chunks: 3,
      onOpen: (info) => { this.open++; const k = info.path.split("/")[2]; const c = (this.inflight.get(k) ?? 0) + 1; this.inflight.set(k, c); this.maxInflight = Math.max(this.maxInflight, c); },
      onClose: (info) => { this.open--; const k = info.path.split("/")[2]; this.inflight.set(k, this.inflight.get(k) - 1); },
      faultFor: (info) => { const f = store(info); if (f) this.disturbed++; return f; },
      handle: (info) => { this.o.onStore?.(info); return this.put(info); } };
  }
  id(p) { return `${p}${++this.n}`; }
  put(info) {
    const [, , uid, what, no] = info.path.split("/"); const u = this.uploads.get(uid);
    if (!u) return { status: 404, body: "NoSuchUpload" };
    const size = info.query.get("size"); if (size !== null && Number(size) !== info.body.length) return { status: 403, body: "SignatureDoesNotMatch" };
    if (what === "part") { u.parts.set(Number(no), { data: info.body, etag: md5(info.body) }); return { status: 200, headers: { ETag: md5(info.body) }, body: "" }; }
    u[what] = info.body; u[`${what}Type`] = info.headers.get("content-type"); return { status: 200, headers: { ETag: md5(info.body) }, body: "" };
  }
  wantDiff(u) { return this.o.diffOf ? this.o.diffOf(u) : this.o.diff; }
  mk(kind, extra) { const u = { id: this.id("up"), kind, owner: this.who, parts: new Map(), ...extra }; this.uploads.set(u.id, u); return u; }
  url(u, rest) { return `${this.sim.pick("w:sch", ["https", "http"])}://store.sim/b/${u.id}/${rest}`; }
  run(u, withBase, extra) {
    if (!u.run) { u.run = { id: this.id("run"), status: "Running", url: "https://x/y", project: { id: "p", name: "proj ect", organization: { name: "o/rg" } }, ...extra }; u.runWithBase = withBase; this.runs.push(u.run); }
    return u.run;
  }
  /** the answer to a request that completes / triggers upload u */
  trigger(u, b, canRun = true) {
    if (u.run) return { body: { testRun: u.run } };
    if (!canRun) return { body: {} };
    const hasBase = this.sim.now >= this.baseAt;
    if (b.mustHaveBase && !hasBase) { const extra = this.o.extra?.(); return { body: { baseNotFound: true, message: "no base yet", ...(extra === undefined ? {} : { extraBasePollTimeoutMs: extra }) } }; }
    if (this.o.noRun) return { body: { message: "no run for you" } };
    return { body: { testRun: this.run(u, hasBase) } };
  }
  complete(u, b, kind) {
    const K = this.K, sim = this.sim; if (u.completedAs) { sim.check(isDeepStrictEqual(u.completedAs.info, b.multipartUploadInfo), `${K}.parts`, () => `completion of ${u.id} was repeated with other parts`); return; }
    u.completedAs = { info: b.multipartUploadInfo, t: sim.now };
    if (kind === "multi") {
      const info = b.multipartUploadInfo;
      if (!sim.check(info && info.awsUploadId === u.aws, `${K}.parts`, () => `completed ${u.id} with multipart info ${JSON.stringify(info)}`)) return;
      const want = [...u.parts.keys()].sort((x, y) => x - y); const tags = want.map((n) => u.parts.get(n).etag);
      sim.check(want.every((n, i) => n === i + 1) && isDeepStrictEqual(info.eTags, tags), `${K}.parts`, () => `completed ${u.id} naming ${info.eTags.length} parts [${info.eTags}]; storage holds parts ${want} [${tags}]`);
      u.whole = Buffer.concat(want.map((n) => u.parts.get(n).data));
      want.slice(0, -1).forEach((n) => sim.check(u.parts.get(n).data.length >= u.chunk, `${K}.part-size`, () => `part ${n} of ${want.length} has ${u.parts.get(n).data.length} bytes, minimum ${u.chunk}`));
      u.onComplete?.(u);
    } else if (kind === "zip") { u.whole = u.zip; sim.check(!!u.zip, `${K}.incomplete`, () => `completed ${u.id} before its archive was stored`); u.onComplete?.(u); }
    if (b.hasGitDiff) sim.check(u.diff && this.wantDiff(u) && u.diff.toString() === this.wantDiff(u), `${K}.diff`, () => `completed ${u.id} claiming a diff; storage holds ${u.diff ? `${u.diff.length} bytes` : "none"}`);
  }
  api(info, f) { const r0 = this.answer(info, f); const r = f?.kind === "status" ? r0 : this.o.decorate?.(info.entry, r0) ?? r0; return f?.kind === "statusAfter" ? { status: f.status, body: { message: "gateway gave up waiting" } } : r; }
  answer(info, f) {
    const b = info.entry.body, p = info.entry.path, sim = this.sim, K = this.K;
    if (f?.kind === "status") return { status: f.status, body: { message: `failure ${f.status}` } };
    const ups = (id) => this.uploads.get(id);
    switch (p) {
      case "project-deployments/request-multipart-asset-upload": {
        const chunk = sim.pick("w:chunk", [700, 4000, 20000, 100000]); const u = this.mk("multi", { aws: this.id("aws"), chunk });
        this.onUpload?.(u, b);
        return { body: { uploadId: u.id, awsUploadId: u.aws, uploadChunkSize: chunk, uploadPartUrls: Array.from({ length: sim.pick("w:pre", [0, 1, 3, 20]) }, (_, i) => `${this.url(u, `part/${i + 1}`)}?size=${chunk}`) } };
      }
      case "project-deployments/request-upload-part": { const u = ups(b.uploadId); if (!u || u.aws !== b.awsUploadId) return { status: 404, body: { message: "no such upload" } }; return { body: { uploadPartUrl: `${this.url(u, `part/${b.partNumber}`)}?size=${b.size}` } }; }
      case "project-deployments/request-asset-upload": { const u = this.mk("zip", { size: b.size }); this.onUpload?.(u, b); return { body: { uploadId: u.id, uploadUrl: `${this.url(u, "zip")}?size=${b.size}` } }; }
      case "project-deployments/request-git-diff-upload": { const u = ups(b.uploadId); if (!u) return { status: 404, body: { message: "no such upload" } }; return { body: { uploadUrl: `${this.url(u, "diff")}?size=${b.size}` } }; }
      case "agent/upload-build/git-diff": { const u = ups(b.deploymentId) ?? [...this.uploads.values()].reverse().find((x) => x.commit === b.commitSha); if (!u) return { status: 404, body: { message: "no deployment" } }; u.diffBase = b.baseSha; return { body: { deploymentId: u.id, uploadUrl: `${this.url(u, "diff")}?size=${b.size}` } }; }
      case "agentic-session-generation/request-instructions-upload": { const u = this.mk("instr"); return { body: { instructionsId: u.id, uploadUrl: `${this.url(u, "text")}?size=${b.size}` } }; }
      case "project-deployments/complete-asset-upload-and-maybe-trigger-run": case "project-deployments/trigger-run": case "agent/upload-build/asset": {
        const u = ups(b.uploadId); if (!sim.check(!!u, `${K}.unknown`, () => `completion of unknown upload ${b.uploadId}`)) return { status: 404, body: {} };
        sim.check(b.archiveType === (u.kind === "zip" ? "zip" : "tar.d"), `${K}.archive-type`, () => `${u.kind} upload completed as ${b.archiveType}`);
        u.commit = b.commitSha; this.complete(u, b, u.kind);
        if (p.startsWith("agent/")) return { body: { deploymentId: u.id } };
        return this.trigger(u, b, b.createDeployment !== false);
      }
      case "registry/auth": { const u = this.mk("image", {}); return { body: { uploadId: u.id, imageReference: `${this.registry}/p/${u.id}:v1`, registryUrl: this.registry, robotAccountName: `robot-${u.id}`, robotAccountSecret: `secret-${u.id}`, projectName: "p", expiresAt: "" } }; }
      case "project-deployments/complete-container-upload": case "agent/upload-build/container": {
        const u = ups(b.uploadId); if (!sim.check(u?.kind === "image", `${K}.unknown`, () => `completion of unknown image ${b.uploadId}`)) return { status: 404, body: {} };
        sim.check(u.published, `${K}.incomplete`, () => `container ${u.id} completed before the registry confirmed its manifest`);
        if (b.companionAssetsInfo) { const c = ups(b.companionAssetsInfo.deploymentUploadId); sim.check(c?.completedAs && b.companionAssetsInfo.archiveType === (c.kind === "zip" ? "zip" : "tar.d"), `${K}.incomplete`, () => `companion assets ${JSON.stringify(b.companionAssetsInfo)} were not completed`); }
        if (b.hasGitDiff) sim.check(u.diff?.toString() === this.wantDiff(u), `${K}.diff`, () => `container ${u.id} completed claiming a diff that is not stored`);
        u.commit = b.commitSha; u.companion = b.companionAssetsInfo; u.completedAs ??= { t: sim.now };
        return p.startsWith("agent/") ? { body: { deploymentId: u.id } } : this.trigger(u, b);
      }
      case "project-deployments/create-run-with-uploaded-asset-chunks": { if (b.createDeployment === false) return { body: { overlaps: [] } }; const u = this.mk("chunks", { manifest: b.assetReferencesManifest }); return { body: { sourceDeploymentId: u.id } }; }
      case "project-deployments/trigger-run-with-uploaded-asset-chunks": {
        const u = ups(b.sourceDeploymentId); if (!sim.check(u?.kind === "chunks", `${K}.unknown`, () => `trigger of unknown deployment ${b.sourceDeploymentId}`)) return { status: 404, body: {} };
        if (b.hasGitDiff) sim.check(u.diff?.toString() === this.wantDiff(u), `${K}.diff`, () => `deployment ${u.id} triggered claiming a diff that is not stored`);
        return this.trigger(u, b);
      }
      case "project-deployments/request-asset-chunk-upload": {
        if (this.o.chunkKnown) return { body: { alreadyUploaded: true } };
        const u = this.mk("chunk", { name: b.chunkName, ver: b.chunkVersionId, size: b.tarballSize }); this.lastChunk = u;
        return { body: { alreadyUploaded: false, previousStatus: sim.pick("w:prev", [null, "deleted", "failed_uploading", "pending_upload", "uploaded"]), tarballUploadUrl: `${this.url(u, "tarball")}?size=${b.tarballSize}`, filesIndexUploadUrl: this.url(u, "index") } };
      }
      case "project-deployments/complete-asset-chunk-upload": { const cs = [...this.uploads.values()].reverse().filter((x) => x.kind === "chunk" && x.owner === this.who); const u = this.lastChunk = cs.find((x) => x.tarball && x.index) ?? cs[0]; if (!sim.check(u && u.name === b.chunkName && u.ver === b.chunkVersionId && u.tarball && u.index, `${K}.incomplete`, () => `chunk ${b.chunkName} completed; tarball ${u?.tarball ? "stored" : "missing"}, index ${u?.index ? "stored" : "missing"}`)) return { status: 400, body: {} }; u.completedAs = { t: sim.now }; u.whole = u.tarball; u.onComplete?.(u); this.onChunk?.(u); return { body: { message: "ok" } }; }
      case "agent/trigger-test-run": { const u = ups(b.deploymentId) ?? [...this.uploads.values()].reverse().find((x) => x.commit === b.commitSha); if (!u) return { status: 404, body: { message: "no deployment" } }; if (this.wantDiff(u)) sim.check(u.diff?.toString() === this.wantDiff(u) && u.diffBase === b.baseSha, `${K}.diff`, () => `run of ${u.id} triggered before its diff was stored`); return { body: this.o.noRun ? {} : { testRun: this.run(u, true), commitSha: u.commit } }; }
      case "agentic-session-generation/launch": { this.launched = b; this.onLaunch?.(b); return { body: { workflowRunId: "wf1" } }; }
      default: return this.o.other?.(info, p, b) ?? { status: 404, body: { message: `no route ${p}` } };
    }
  }
}
/** dockerode */
export const dockerModule = (sim, svc, o) => (proc) => {
  const L = (op, f) => new Promise((res, rej) => { sim.log(`docker ${op}`); proc.at(sim.latency("lat:docker", 1, 50), () => { try { res(f()); } catch (e) { rej(e); } }, "docker"); });
  class Docker {
    ping() { return L("ping", () => { if (o.down) throw new Error("connect ENOENT /var/run/docker.sock"); return "OK"; }); }
    getImage(tag) {
      return {
        inspect: () => L("inspect", () => { if (tag !== o.image && !o.images?.includes(tag)) throw new Error("no such image"); return { Id: "sha256:1" }; }),
        tag: ({ repo, tag: t }) => L("tag", () => { if (o.tagFails) throw new Error("tag failed"); (o.tagged ??= new Map()).set(`${repo}:${t}`, tag); }),
        push: (opts, cb) => {
          o.pushes = (o.pushes ?? 0) + 1; const u = [...svc.uploads.values()].find((x) => `${svc.registry}/p/${x.id}:v1` === tag);
          sim.check(u && o.tagged?.has(tag), `${svc.K}.untagged`, () => `pushed ${tag}, tagged ${[...(o.tagged?.keys() ?? [])]}`); (o.pushLog ??= []).push({ u, source: o.tagged?.get(tag), auth: opts?.authconfig });
          const outcome = o.p && sim.chance("f:push", o.p) ? sim.pick("f:pushk", ["call", "streamError", "daemonError", "daemonDetail", "noDigest", "empty"]) : "ok";
          if (outcome !== "ok") { sim.fault(`docker:${outcome}`); svc.disturbed++; (o.outcomes ??= []).push(outcome); } else (o.outcomes ??= []).push("ok");
          if (outcome === "call") { proc.at(5, () => cb(new Error("push refused")), "docker"); return; }
          const s = new PassThrough({ objectMode: true }); proc.at(5, () => {
            cb(null, s);
            const ev = [{ status: "Preparing", id: "l1" }, { status: "Pushing", id: "l1", progress: "[=>]" }];
            if (outcome === "daemonError") ev.push({ error: "unauthorized" }); if (outcome === "daemonDetail") ev.push({ errorDetail: { message: "blob unknown" } });
            if (outcome === "ok") ev.push(sim.chance("w:aux", 0.5) ? { aux: { Digest: `sha256:${"a".repeat(64)}` } } : { status: `v1: digest: sha256:${"b".repeat(64)} size: 528` });
            const feed = outcome === "empty" ? [] : ev;
            feed.forEach((e, i) => proc.at(10 * (i + 1), () => { if (e.aux || /digest:/.test(e.status ?? "")) u.published = true; s.write(e); }, "docker:ev"));
            proc.at(10 * (feed.length + 2), () => { if (outcome === "streamError") s.destroy(new Error("read ECONNRESET")); else s.end(); }, "docker:end");
          }, "docker");
        },
      };
    }
    get modem() { return { followProgress: (s, done, onProgress) => { const out = []; let over = false; const fin = (e) => { if (!over) { over = true; done(e, out); } }; s.on("data", (e) => { out.push(e); onProgress?.(e); }); s.on("error", (e) => fin(e)); s.on("end", () => fin(null)); } }; }
    createContainer({ Image }) {
      return L("create", () => { if (Image !== o.image && !o.images?.includes(Image)) throw new Error("no such image"); const c = { removed: 0 }; (o.containers ??= []).push(c); return {
        getArchive: ({ path: pth }) => L("archive", () => { sim.check(pth.endsWith("/."), `${svc.K}.path`, () => `archive of ${pth}`); if (o.noPath) throw new Error("no such path"); (o.archives ??= []).push({ image: Image, path: pth }); return (o.archiveOf?.(Image, pth) ?? o.archive)(proc); }),
        remove: () => L("remove", () => { c.removed++; }),
      }; });
    }
  }
  Docker.default = Docker; Docker.__esModule = false; return Docker;
};
/** a stream of the archive bytes in random pieces; may break off */
export const archiveStream = (sim, svc, buf, breakAt) => (proc) => {
  const s = new PassThrough(); let o = 0; s.once("error", () => {}); // as docker-utils listens to it for its cleanup
  if (breakAt >= 0) svc.disturbed++;
  const step = () => {
    if (s.destroyed) return;
    if (breakAt >= 0 && o >= breakAt) { sim.fault("docker:archive-reset"); s.destroy(Object.assign(new Error("aborted"), { code: "ECONNRESET" })); return; }
    if (o >= buf.length) { s.end(); return; }
    const n = Math.min(buf.length - o, sim.pick("w:piece", [100, 512, 5000, 65536])); s.write(Buffer.from(buf.subarray(o, breakAt >= 0 ? Math.min(o + n, Math.max(breakAt, o)) : o + n))); o += n;
    proc.at(sim.latency("lat:archive", 0, 20), step, "archive");
  };
  proc.at(sim.latency("lat:archive", 0, 20), step, "archive"); return s;
};
export const checkTree = (sim, K, u, files, what) => {
  let tar; try { tar = parseTar(zlib.inflateRawSync(u.whole, { finishFlush: zlib.constants.Z_FINISH })); } catch (e) { sim.check(false, `${K}.archive`, () => `${what} ${u.id} (${u.whole.length} bytes in ${u.parts.size} parts) is not a valid archive: ${e.message}`); return; }
  const got = new Map([...tar].filter(([, e]) => e.type !== "dir").map(([n, e]) => [norm(n), e]));
  for (const [n, d] of files) sim.check(got.get(n)?.data.equals(d), `${K}.archive`, () => `${what}: ${n} ${got.has(n) ? "differs" : "is missing"} in the uploaded archive`);
  sim.check(got.size === files.size, `${K}.archive`, () => `${what}: uploaded archive has ${got.size} files, expected ${files.size}`);
  sim.probe("archiveChecked");
};
export const world = (sim, o = {}) => {
  const disk = new Disk(sim); const svc = new Service(sim, o);
  const pf = sim.pick("w:pf", o.pfs ?? [0, 0, 0.05, 0.15, 0.4]); const pFs = pf && sim.chance("w:fsf", 0.3) ? 0.02 : 0;
  const proc = new Proc(sim, "cli", { modules: npmModules, disk, cwd: "/work", tmpdir: "/tmp", env: { METICULOUS_DIR: "/data" }, fsLatency: [0, 4],
    fsFault: (op, pth) => { if (!pFs || ["close", "unlink", "rmdir", "readdir", "lstat", "rm"].includes(op)) return null; if (!/^\/(work|tmp)\//.test(pth) || !sim.chance("f:fs", pFs)) return null; svc.disturbed++; return sim.pick("f:fsk", ["EIO", "ENOSPC", "EMFILE"]); } });
  disk.mkdir("/tmp", { recursive: true }); disk.mkdir("/work", { recursive: true }); disk.mkdir("/data", { recursive: true });
  svc.attach(proc, { pApi: pf / 2, pStore: pf });
  return { disk, svc, proc, pf };
};
export const finish = async (sim, svc, proc, { open = true } = {}) => {
  const K = sim.prop; if (sim.stopped) return;
  await sim.settle(40 * 60e3);
  if (open) sim.check(svc.open === 0, `${K}.request-left`, () => `${svc.open} request(s) still open long after the end`);
  sim.check(sim.unhandled.length === 0 && proc.uncaughtErrors.length === 0, `${K}.unhandled`, () => `unhandled error: ${errText(sim.unhandled[0]?.reason ?? proc.uncaughtErrors[0])}`);
};

// ------------------------------------------------------------------ R01
export const runMultipart = async (sim, { scripts }) => {
  const K = sim.prop; const { disk, svc, proc } = world(sim);
  proc.onUncaught = () => {};
  const L = proc.load(scripts.rl); const client = L.client.createClient({ apiToken: "tok" });
  const one = async (i) => {
    const fromStream = sim.chance("w:stream", 0.4); let files, call; const before = svc.disturbed;
    const seen = []; 
    const hook = svc.onUpload; 
    if (fromStream) {
      files = new Map(Array.from({ length: sim.int("w:sf", 0, 4) }, (_, k) => [`s${k}`, noise(sim, sim.pick("w:slen", [0, 10, 3000, 70000]))]));
      const buf = makeTar(files); const brk = sim.chance("f:brk", svc.o.calm ? 0 : 0.12) ? sim.int("f:brkat", 0, buf.length) : -1;
      call = () => L.assets.uploadAssetBytesFromTarStream({ client, tarStream: archiveStream(sim, svc, buf, brk)(proc), ...(sim.chance("w:pid", 0.3) ? { projectId: "p1" } : {}) });
    } else { files = makeTree(sim, disk, `/work/app${i}`); call = () => L.assets.uploadAssetBytesFromDirectory({ client, folderPath: `/work/app${i}` }); }
    const r = await settled(call()); if (sim.stopped) return;
    if (r.ok) {
      const u = svc.uploads.get(r.v.uploadId);
      if (!sim.check(!!u, `${K}.unknown`, () => `upload id ${r.v.uploadId}`)) return;
      svc.complete(u, { multipartUploadInfo: r.v.multipartUploadInfo }, "multi"); if (sim.stopped) return;
      checkTree(sim, K, u, files, fromStream ? "stream" : "folder"); sim.probe(u.parts.size > 1 ? "multi" : "single");
    } else {
      sim.check(svc.disturbed > 0, `${K}.false-failure`, () => `failed undisturbed: ${errText(r.e)}`);
      sim.check(r.e && r.e.message !== undefined, `${K}.error`, () => `rejected with ${String(r.e)}`); sim.probe("failed");
    }
  };
  const n = sim.int("w:n", 1, 2);
  const st = await sim.run(() => Promise.all(Array.from({ length: n }, (_, i) => one(i))), { maxTime: 4 * 3600e3, maxEvents: 400e3 });
  sim.check(st === "done" || st === "violation", `${K}.hang`, () => `an upload never settled (${st})`);
  sim.check(svc.maxInflight <= 4, `${K}.concurrency`, () => `${svc.maxInflight} parts of one upload in flight`);
  await finish(sim, svc, proc);
  return { sample: { uploads: svc.uploads.size, disturbed: svc.disturbed } };
};

// ------------------------------------------------------------------ R02
export const TRIGGER = ["project-deployments/complete-asset-upload-and-maybe-trigger-run", "project-deployments/trigger-run", "project-deployments/complete-container-upload", "project-deployments/trigger-run-with-uploaded-asset-chunks", "agent/trigger-test-run", "agent/upload-build/asset", "agent/upload-build/container", "agentic-session-generation/launch", "project-deployments/complete-asset-chunk-upload"];
export const final4xx = (e) => e.fault?.kind === "status" && e.fault.status >= 400 && e.fault.status < 500 && e.fault.status !== 429;
export const runBuilds = async (sim, { scripts }) => {
  const K = sim.prop; const flow = sim.pick("w:flow", ["assets", "assets", "zip", "zip", "tar", "container", "container", "build", "build", "trigger", "chunks", "chunk", "chunk", "chunk", "assetsAndTrigger", "containerAndTrigger", "sessions"]);
  const diffFlow = ["assets", "zip", "tar", "container", "trigger", "chunks", "assetsAndTrigger", "containerAndTrigger"].includes(flow);
  const diff = diffFlow && sim.chance("w:diff", 0.5) ? `diff --git ü ${sim.int("w:dn", 0, 99)}`.repeat(sim.pick("w:dl", [1, 50, 4000])) : undefined;
  const o = { diff, noRun: sim.chance("w:norun", 0.1), chunkKnown: sim.chance("w:known", 0.1) };
  const gateway = sim.chance("w:gw", 0.2) ? sim.pick("w:gwn", [1, 3, 5, 8, 11]) : 0; let gwLeft = gateway;
  const retried = ["assets", "zip", "tar", "assetsAndTrigger"].includes(flow);
  if (gateway) { o.pfs = [0]; o.apiPlan = (info) => { const p = info.path.replace(/^\/api\//, ""); if (!TRIGGER.includes(p) || gwLeft <= 0 || (flow.startsWith("container") && p !== "project-deployments/complete-container-upload")) return null; gwLeft--; return { kind: sim.pick("f:gwk", ["status", "status", "statusAfter"]) === "status" ? "status" : "statusAfter", status: sim.pick("f:gws", [502, 503, 504]) }; }; }
  const { disk, svc, proc, pf } = world(sim, o); const before = () => svc.disturbed > 0;
  const dk = { image: "app:1", p: pf ? pf / 2 : 0, down: pf > 0 && sim.chance("f:down", 0.05), tagFails: pf > 0 && sim.chance("f:tag", 0.05), noPath: pf > 0 && sim.chance("f:nopath", 0.05) };
  proc.opts.dockerode = dockerModule(sim, svc, dk);
  proc.onUncaught = () => {};
  const L = proc.load(scripts.rl);
  const pid = sim.chance("w:pid", 0.3) ? { projectId: "p1" } : {}; const base = sim.chance("w:base", 0.5) ? { baseSha: "b".repeat(40) } : {};
  const common = { apiToken: "tok", commitSha: "c".repeat(40), ...base, ...(diff ? { gitDiffOutput: diff } : {}), ...pid, waitForBase: sim.chance("w:wait", 0.3), ...(sim.chance("w:rw", 0.5) ? { rewrites: [{ source: "/(.*)", destination: "/index.html" }] } : {}) };
  const asset = sim.pick("w:asset", ["dir", "zip"]); let files = null, zip = null, tarFiles = null, expectRuns = 1, mustFail = null; let call; let verify = () => {}; let flowEnd = null;
  const needTree = () => { files = makeTree(sim, disk, "/work/app"); }; const needZip = () => { zip = noise(sim, sim.pick("w:zlen", [1, 1000, 70000])); disk.put("/work/app.zip", zip); };
  const mainUpload = (id) => { const u = svc.uploads.get(id); return sim.check(u?.completedAs, `${K}.incomplete`, () => `${flow} resolved with upload ${id} that was not completed`) ? u : null; };
  const content = (u, what) => { if (!u || sim.stopped) return; if (u.kind === "multi") checkTree(sim, K, u, tarFiles ?? files, what); else if (u.kind === "zip") sim.check(u.whole?.equals(zip), `${K}.archive`, () => `${what}: stored ${u.whole?.length} bytes of ${zip.length}`); };
  switch (flow) {
    case "assets": needTree(); call = () => L.rl.uploadAssets({ ...common, appDirectory: "/work/app", warnIfNoIndexHtml: sim.chance("w:warn", 0.5) }); verify = (v) => content(mainUpload(v.uploadId), flow); break;
    case "assetsAndTrigger": if (asset === "dir") needTree(); else needZip(); call = () => L.rl.uploadAssetsAndTriggerTestRun({ ...common, ...(asset === "dir" ? { appDirectory: "/work/app" } : { appZip: "/work/app.zip" }) }); if (o.noRun) mustFail = "no run for you"; verify = () => content([...svc.uploads.values()].find((u) => u.run), flow); break;
    case "zip": { needZip(); const del = sim.chance("w:del", 0.5); call = () => L.rl.uploadAssetsFromZip({ ...common, zipPath: "/work/app.zip", deleteAfterUpload: del }); verify = (v) => content(mainUpload(v.uploadId), flow); mustFail = null; flowEnd = () => sim.check(!!disk.lookup("/work/app.zip") === !del, `${K}.temp-left`, () => `zip ${del ? "was not deleted" : "was deleted"} after the upload`); break; }
    case "tar": { tarFiles = new Map(Array.from({ length: sim.int("w:sf", 0, 4) }, (_, k) => [`s${k}`, noise(sim, sim.pick("w:slen", [0, 10, 3000, 70000]))])); const buf = makeTar(tarFiles); const brk = pf && sim.chance("f:brk", 0.1) ? sim.int("f:brkat", 0, buf.length) : -1; call = () => L.assets.uploadAssetsFromTarStream({ ...common, tarStream: archiveStream(sim, svc, buf, brk)(proc) }); verify = (v) => content(mainUpload(v.uploadId), flow); break; }
    case "container": case "containerAndTrigger": {
      const comp = sim.pick("w:comp", ["none", "none", "folder", "zip", "image"]); let companion;
      if (comp === "folder") { needTree(); companion = { folder: "/work/app", regex: "x" }; } if (comp === "zip") { needZip(); companion = { zip: "/work/app.zip", regex: "x" }; }
      if (comp === "image") { tarFiles = new Map([["index.html", noise(sim, 3000)], ["a/b.js", noise(sim, 100)]]); const buf = makeTar(tarFiles); const brk = pf && sim.chance("f:brk", 0.1) ? sim.int("f:brkat", 0, buf.length) : -1; dk.archive = archiveStream(sim, svc, buf, brk); companion = { pathInImage: sim.pick("w:pii", ["/app/dist", "/app/dist/", "/app/."]), regex: "x" }; }
      const args = { ...common, localImageTag: "app:1", containerPort: 80, ...(companion ? { companionAssets: companion } : {}) }; delete args.rewrites;
      call = () => flow === "container" ? L.rl.uploadContainer(args) : L.rl.uploadContainerAndTriggerTestRun(args); if (o.noRun && flow !== "container") mustFail = "no run for you";
      verify = () => { const u = [...svc.uploads.values()].find((x) => x.kind === "image" && x.completedAs); if (!sim.check(u, `${K}.incomplete`, () => "container upload resolved without being completed")) return; sim.check(!!u.companion === !!companion, `${K}.companion`, () => `companion assets ${companion ? "lost" : "invented"}`); if (companion) { sim.check(u.companion.regex === "x", `${K}.companion`, () => JSON.stringify(u.companion)); content(svc.uploads.get(u.companion.deploymentUploadId), "companion"); } };
      break;
    }
    case "build": {
      expectRuns = 0; const kind = sim.pick("w:bk", ["dir", "zip", "image"]); const args = { apiToken: "tok", commitSha: common.commitSha, ...pid };
      if (kind === "dir") { needTree(); args.appDirectory = "/work/app"; } else if (kind === "zip") { needZip(); args.appZip = "/work/app.zip"; } else args.localImageTag = "app:1";
      call = () => L.build.uploadBuild(args); verify = (v) => { const u = mainUpload(v.deploymentId); if (u && u.kind !== "image") content(u, flow); }; break;
    }
    case "trigger": {
      const u = svc.mk("zip", { commit: common.commitSha }); const by = sim.chance("w:by", 0.5) ? { deploymentId: u.id } : { commitSha: common.commitSha }; if (o.noRun) mustFail = "no test run";
      if (!by.deploymentId && diff && sim.chance("w:newer", 0.5)) proc.at(sim.int("w:newerAt", 1, 200), () => svc.mk("zip", { commit: common.commitSha }), "newer deployment");
      call = () => L.trig.triggerTestRun({ apiToken: "tok", baseSha: "b".repeat(40), ...by, ...(diff ? { gitDiffOutput: diff } : {}) }); break;
    }
    case "chunks": {
      const dry = sim.chance("w:dry", 0.15); if (dry) expectRuns = 0;
      const client = L.client.createClient({ apiToken: "tok" }); call = () => L.chunks.runWithUploadedAssetChunks({ client, ...common, rewrites: [], assetReferencesManifest: [{ name: "c", versionId: "1" }], ...(dry ? { createDeployment: false } : {}) }); break;
    }
    case "chunk": {
      expectRuns = 0; needTree(); if (pf && sim.chance("f:full", 0.15)) { sim.fault("disk-full"); svc.disturbed++; disk.capacity = disk.used + sim.int("f:room", 0, 30000); }
      const prefix = sim.pick("w:prefix", [undefined, undefined, "pre", "a/b"]); const force = sim.chance("w:force", 0.3);
      call = () => L.chunk.uploadAssetChunk({ apiToken: "tok", chunkName: "ch", chunkVersionId: "v1", chunkAssetsDirectory: "/work/app", ...(prefix ? { chunkAssetsDirectoryPrefix: prefix } : {}), ...(force ? { force } : {}), ...pid });
      svc.onChunk = (u) => {
        const want = new Map([...files].map(([n, d]) => [prefix ? `${prefix}/${n}` : n, d])); checkTree(sim, K, u, want, "chunk"); if (sim.stopped) return;
        const index = JSON.parse(u.index.toString()); sim.check(Array.isArray(index) && index.length === want.size && index.every((p) => want.has(norm(p))) && new Set(index.map(norm)).size === index.length, `${K}.index`, () => `files index [${index}] for files [${[...want.keys()]}]`);
        const inTar = new Set(parseTar(zlib.inflateRawSync(u.whole)).keys()); sim.check(index.every((p) => inTar.has(p)), `${K}.index`, () => `files index names ${index.find((p) => !inTar.has(p))}, which the archive does not contain under that name`);
      };
      verify = () => { if (!o.chunkKnown) sim.check(svc.lastChunk?.completedAs, `${K}.incomplete`, () => "chunk upload resolved without being completed"); };
      break;
    }
    case "sessions": {
      expectRuns = 0; const kind = sim.pick("w:sk", ["dir", "image", "given"]); const text = sim.pick("w:instr", [null, "", "  \n", "do ü this"]); if (text !== null) disk.put("/work/i.md", Buffer.from(text));
      const args = { apiToken: "tok", commitSha: common.commitSha, ...(text !== null ? { instructionsFile: "/work/i.md" } : {}), ...pid }; if (kind === "dir") { needTree(); args.assetsDirectory = "/work/app"; } else if (kind === "image") args.localImageTag = "app:1"; else { const u = svc.mk("zip"); u.completedAs = { t: 0 }; args.assetsUploadId = u.id; }
      svc.onLaunch = (b) => {
        const u = svc.uploads.get(b.appTarget?.uploadId ?? b.appTarget?.assetsUploadId); sim.check(u && (u.kind === "image" ? u.published : u.completedAs), `${K}.incomplete`, () => `launched for ${JSON.stringify(b.appTarget)} before it was complete`); if (kind === "dir") content(u, flow);
        const want = text?.trim() ? text : null; const i = b.instructionsId ? svc.uploads.get(b.instructionsId) : null; sim.check(want === null ? !b.instructionsId : i?.text?.toString() === want, `${K}.instructions`, () => `instructions "${want}": launched with ${b.instructionsId}, stored ${i?.text}`);
      };
      call = () => L.gen.generateSessions(args); verify = () => sim.check(svc.launched, `${K}.incomplete`, () => "generateSessions resolved without launching"); break;
    }
  }
  let r; const st = await sim.run(async () => { r = await settled(call()); }, { maxTime: 6 * 3600e3, maxEvents: 400e3 });
  if (st === "violation") return { sample: { flow } };
  if (!sim.check(st === "done", `${K}.hang`, () => `${flow} never settled (${st})`)) return { sample: { flow } };
  const triggers = svc.log.filter((e) => TRIGGER.includes(e.path)); const disturbed = svc.disturbed > 0 || dk.down || dk.tagFails || dk.noPath;
  // at most one run, of a complete upload, described as asked
  sim.check(svc.runs.length <= 1, `${K}.runs`, () => `${flow} caused ${svc.runs.length} test runs`);
  for (const e of triggers) {
    if (e.path === "agentic-session-generation/launch" || e.path === "project-deployments/complete-asset-chunk-upload") continue;
    const companion = e.body.createDeployment === false; const b = e.body;
    if (flow !== "trigger") sim.check(b.commitSha === common.commitSha, `${K}.args`, () => `${e.path} for commit ${b.commitSha}`);
    if (!companion && flow !== "build" && flow !== "sessions") { sim.check((b.baseSha ?? null) === (flow === "trigger" ? "b".repeat(40) : base.baseSha ?? null), `${K}.args`, () => `${e.path}: base ${b.baseSha}, asked for ${base.baseSha}`); if (flow !== "trigger") { sim.check(!!b.hasGitDiff === !!diff, `${K}.diff`, () => `${e.path}: hasGitDiff ${b.hasGitDiff}, the caller ${diff ? "gave" : "gave no"} diff`); sim.check(b.mustHaveBase === !!common.waitForBase, `${K}.args`, () => `mustHaveBase ${b.mustHaveBase}`); } }
  }
  // a definitive answer is final
  triggers.forEach((e, i) => {
    const def = final4xx(e) || (!e.fault && e.status === 200 && e.answeredAt !== undefined && !e.answer?.baseNotFound); if (!def) return;
    const again = triggers.slice(i + 1).find((x) => x.path === e.path && (x.body.uploadId ?? x.body.sourceDeploymentId) === (e.body.uploadId ?? e.body.sourceDeploymentId));
    sim.check(!again, `${K}.repeated`, () => `${e.path} was definitively answered (${e.status}) at ${e.answeredAt} and sent again at ${again.t}`);
    if (final4xx(e)) sim.check(!r.ok, `${K}.swallowed`, () => `${flow} resolved although ${e.path} was refused with ${e.fault.status}`);
  });
  if (r.ok) {
    sim.check(!mustFail, `${K}.no-run-hidden`, () => `${flow} resolved although no run was created`);
    const run = svc.runs[0]; const runs = o.noRun ? 0 : expectRuns; if (!sim.stopped) sim.check(svc.runs.length === runs, `${K}.runs`, () => `${flow} resolved with ${svc.runs.length} runs on the server, expected ${runs}`);
    const asked = "testRun" in (r.v ?? {}); if (asked && !sim.stopped) { sim.check((r.v.testRun?.id ?? null) === (run?.id ?? null), `${K}.result`, () => `${flow} returned run ${r.v.testRun?.id}, server has ${run?.id}`); if (o.noRun && r.v.message !== undefined) sim.check(r.v.message === "no run for you", `${K}.result`, () => `message ${r.v.message}`); }
    if (!sim.stopped) verify(r.v); sim.probe(`ok:${flow}`);
  } else {
    const gatewayOnly = gateway > 0; const enough = retried ? gateway <= 11 : gateway <= 3;
    sim.check(disturbed || (mustFail && r.e?.message?.includes(mustFail)), `${K}.false-failure`, () => `${flow} failed undisturbed: ${errText(r.e)}`);
    if (gatewayOnly) sim.check(!enough || (mustFail && r.e?.message?.includes(mustFail)), `${K}.gateway`, () => `${flow} gave up after ${gateway} gateway failures of the completion: ${errText(r.e)}`);
    sim.check(r.e && typeof r.e.message === "string" && r.e.message.length > 0, `${K}.error`, () => `rejected with ${String(r.e)}`); sim.probe(`failed:${flow}`);
  }
  if (gateway) sim.probe("gateway");
  await finish(sim, svc, proc); if (sim.stopped) return { sample: { flow } };
  const left = disk.list("/tmp"); sim.check(left.length === 0, `${K}.temp-left`, () => `left in the temp directory: ${left}`);
  if (flowEnd) flowEnd();
  if (r.ok) sim.check((dk.containers ?? []).every((c) => c.removed >= 1), `${K}.container-left`, () => "the container created to read the image was not removed");
  return { sample: { flow, gateway, runs: svc.runs.length } };
};

// ------------------------------------------------------------------ R03
const WINDOW = 5 * 60e3, EVERY = 10e3, SLACK = 2e3;
export const runWaitForBase = async (sim, { scripts }) => {
  const K = sim.prop; const flow = sim.pick("w:flow", ["assets", "zip", "tar", "container", "chunks", "chunksLookup"]);
  const p = sim.pick("w:pf", [0, 0, 0.01, 0.05]); const extras = sim.pick("w:extras", [[undefined], [undefined], [0], [60e3], [600e3], [undefined, 60e3], [0, 90e3, 120e3]]);
  const baseK = sim.pick("w:baseK", ["never", "at", "at", "at", "ready"]);
  const o = { pfs: [0], baseAt: baseK === "never" ? Infinity : baseK === "ready" ? 0 : sim.int("w:baseAt", 0, sim.pick("w:baseMax", [20e3, 200e3, 320e3, 1000e3])), extra: () => sim.pick("w:extra", extras), noRun: sim.chance("w:norun", 0.05) };
  o.apiPlan = (info) => { const path = info.path.replace(/^\/api\//, ""); if (!TRIGGER.includes(path) || !p || !sim.chance("f:p", p * (svc?.burst ?? 1))) { if (svc) svc.burst = 1; return null; } svc.burst = sim.pick("f:burst", [1, 20, 100]); const k = sim.pick("f:k", ["status", "status", "statusAfter", "lost", "refuse", "stall", "cut", "slow"]); return k.startsWith("status") ? { kind: k, status: sim.pick("f:st", [500, 502, 503, 504, 429, 400, 403]) } : k === "slow" ? { kind: k, delay: sim.pick("f:sd", [5e3, 30e3]) } : { kind: k, after: 0 }; };
  let svc; const w = world(sim, o); svc = w.svc; const { disk, proc } = w; proc.onUncaught = () => {};
  proc.opts.dockerode = dockerModule(sim, svc, { image: "app:1" });
  const L = proc.load(scripts.rl); const common = { apiToken: "tok", commitSha: "c".repeat(40), baseSha: "b".repeat(40), waitForBase: true };
  let call;
  if (flow === "assets") { disk.put("/work/app/i", Buffer.from("x")); call = () => L.rl.uploadAssets({ ...common, appDirectory: "/work/app" }); }
  else if (flow === "zip") { disk.put("/work/a.zip", Buffer.from("zz")); call = () => L.rl.uploadAssetsFromZip({ ...common, zipPath: "/work/a.zip" }); }
  else if (flow === "tar") { call = () => L.assets.uploadAssetsFromTarStream({ ...common, tarStream: archiveStream(sim, svc, makeTar(new Map([["i", Buffer.from("x")]])), -1)(proc) }); }
  else if (flow === "container") call = () => L.rl.uploadContainer({ ...common, localImageTag: "app:1" });
  else { const client = L.client.createClient({ apiToken: "tok" }); call = () => L.chunks.runWithUploadedAssetChunks({ client, ...common, rewrites: [], assetReferencesManifest: [{ name: "a", versionId: "1" }, flow === "chunks" ? { name: "b", versionId: "2" } : { name: "b", versionLookup: "latest-in-history" }] }); }
  let r, doneAt; const st = await sim.run(async () => { r = await settled(call()); doneAt = sim.now; }, { maxTime: 6 * 3600e3, maxEvents: 400e3 });
  if (st === "violation") return { sample: { flow } };
  if (!sim.check(st === "done", `${K}.hang`, () => `${flow} never settled (${st})`)) return { sample: { flow } };
  // replay the request history against the specified behaviour
  const log = svc.log.filter((e) => TRIGGER.includes(e.path)); const clean = (e) => !e.fault || (e.fault.kind === "slow");
  let start = null, expect = { kind: "first" }, prev = null; let failedPoll = null; const sec = (ms) => `${Math.round(ms / 100) / 10}s`;
  for (const e of log) {
    if (sim.stopped) break;
    const must = e.body.mustHaveBase; const retry = prev && !(clean(prev) && prev.status === 200);
    if (!retry) {
      if (expect.kind === "end") { sim.check(false, `${K}.after-end`, () => `${e.path} sent again at ${sec(e.t)} after a definitive answer`); break; }
      if (expect.kind === "first") sim.check(must === true, `${K}.first`, () => "the first request did not ask for a base");
      if (expect.kind === "poll-or-fallback") {
        if (must) { sim.check(e.t >= expect.at + EVERY - 100, `${K}.rate`, () => `polled ${sec(e.t - expect.at)} after the previous answer`); sim.check(e.t <= expect.at + EVERY + SLACK, `${K}.slow-poll`, () => `next poll only ${sec(e.t - expect.at)} after the previous answer`); sim.check(expect.elapsed <= expect.max + SLACK, `${K}.late-poll`, () => `polled again after ${sec(expect.elapsed)} of at most ${sec(expect.max)}`); sim.probe("poll"); }
        else { sim.check(flow !== "chunksLookup", `${K}.fallback-lookup`, () => "triggered without a base although the manifest needs one"); sim.check(expect.elapsed > expect.max - SLACK, `${K}.early-fallback`, () => `gave up on the base after ${sec(expect.elapsed)}, the window is ${sec(expect.max)}`); sim.check(e.t <= expect.at + SLACK, `${K}.late-fallback`, () => `fell back ${sec(e.t - expect.at)} after the window was over`); sim.probe("fallback"); }
      }
    } else {
      const definitive = final4xx(prev); if (definitive) { sim.check(false, `${K}.after-failure`, () => `${e.path} (mustHaveBase ${must}) sent after a request was refused with ${prev.fault.status}`); break; }
      sim.check(must === prev.body.mustHaveBase, `${K}.after-failure`, () => `a failed request with mustHaveBase ${prev.body.mustHaveBase} was followed by one with ${must}`);
    }
    if (clean(e) && e.status === 200 && e.answeredAt !== undefined) {
      if (e.answer.baseNotFound && must) { if (start === null) start = e.answeredAt; expect = { kind: "poll-or-fallback", at: e.answeredAt, elapsed: e.answeredAt - start, max: WINDOW + (e.answer.extraBasePollTimeoutMs ?? 0) }; }
      else expect = { kind: "end", answer: e.answer };
    }
    prev = e;
  }
  if (sim.stopped) return { sample: { flow } };
  const last = log[log.length - 1]; sim.check(!!last, `${K}.no-request`, () => `${flow}: nothing was triggered`);
  sim.check(svc.runs.length <= 1, `${K}.runs`, () => `${svc.runs.length} runs`);
  if (r.ok) {
    const timedOut = flow === "chunksLookup" && expect.kind === "poll-or-fallback";
    if (timedOut) { sim.check(expect.elapsed > expect.max - SLACK && r.v.testRun === null && r.v.message, `${K}.early-end`, () => `ended after ${sec(expect.elapsed)} of ${sec(expect.max)} with ${JSON.stringify(r.v)}`); sim.probe("lookupTimeout"); }
    else if (sim.check(expect.kind === "end" && clean(last), `${K}.result`, () => `resolved after ${expect.kind}`)) { sim.check((r.v.testRun?.id ?? null) === (expect.answer.testRun?.id ?? null), `${K}.result`, () => `returned run ${r.v.testRun?.id}, the service answered ${expect.answer.testRun?.id}`); if (o.noRun && !expect.answer.testRun) sim.check(r.v.message === expect.answer.message, `${K}.result`, () => `message ${r.v.message}`); sim.probe(start === null ? "atOnce" : "waited"); }
  } else {
    sim.check(svc.disturbed > 0, `${K}.false-failure`, () => `failed undisturbed: ${errText(r.e)}`);
    sim.check(!last || !clean(last) || last.status !== 200, `${K}.false-failure`, () => `failed (${errText(r.e)}) although the last request was answered`); sim.probe("failed");
  }
  await finish(sim, svc, proc, { open: false });
  sim.check(svc.log.every((e) => e.t <= doneAt), `${K}.after-end`, () => "requests after the end");
  return { sample: { flow, polls: log.length } };
};

// ------------------------------------------------------------------ R04
const OVER = ["Success", "Failure", "Aborted", "Skipped", "Partial", "ExecutionError"];
export const runRemote = async (sim, { scripts }) => {
  const K = sim.prop; const p = sim.pick("w:pf", [0, 0, 0.02, 0.1]); let svc;
  const o = { pfs: [0] };
  // the run's life on the server: [time, status]
  const life = []; let t = sim.int("w:start", 0, 3000); const steps = ["PreProcessing", "Scheduled", "Running", "PostProcessing"].filter(() => sim.chance("w:step", 0.6)); if (!steps.length) steps.push("Running");
  for (const s of steps) { life.push([t, s]); t += sim.int("w:dur", 100, sim.pick("w:durMax", [3e3, 30e3, 400e3])); }
  for (let i = sim.pick("w:retries", [0, 0, 0, 1, 2]); i > 0; i--) { life.push([t, "ExecutionError"]); t += sim.int("w:err", 100, sim.pick("w:errMax", [8e3, 120e3, 285e3, 400e3])); life.push([t, "Running"]); t += sim.int("w:dur", 100, 60e3); }
  const finalStatus = sim.pick("w:final", OVER); life.push([t, finalStatus]); const finalAt = t;
  const statusAt = (x) => { let s = life[0][1]; for (const [a, b] of life) if (x >= a) s = b; return s; };
  const lockedUntil = sim.pick("w:lock", [0, 0, 1, 1]) ? finalAt + sim.int("w:lockFor", 0, sim.pick("w:lockMax", [4e3, 60e3, 600e3])) : 0;
  const openUntil = sim.chance("w:keep", 0.3) ? sim.int("w:keepAt", 0, finalAt + 120e3) : null;
  const run = { id: "run1", url: "u", project: { id: "p", name: "n", organization: { name: "o" } } };
  const noRun = sim.chance("w:norun", 0.05);
  o.other = (info, path, b) => {
    if (path === "test-runs/trigger-secure-tunnel-test-run-v2") { svc.triggered = (svc.triggered ?? 0) + 1; sim.check(tunnel.open && b.tunnelUrl === tunnel.url && b.basicAuthUser === "u" && b.basicAuthPassword === "pw" && b.headSha === "c".repeat(40), `${K}.trigger`, () => `triggered with ${JSON.stringify(b)}; tunnel ${tunnel.open ? "open" : "closed"}`); svc.companion = b.companionAssetsInfo; return { body: noRun ? { message: "no run for you" } : { testRun: { ...run, status: life[0][1] }, deploymentId: "dep1" } }; }
    if (path === "test-runs/run1") return { body: { ...run, status: statusAt(sim.now), at: sim.now } };
    if (path === "deployment-locks/is-locked") { sim.check(info.query.get("deploymentId") === "dep1", `${K}.lock`, () => `lock of ${info.query.get("deploymentId")}`); return { body: String(sim.now < lockedUntil), headers: { "content-type": "text/html" } }; }
    return null;
  };
  o.apiPlan = () => { if (!p || !sim.chance("f:p", p)) return null; const k = sim.pick("f:k", ["status", "status", "lost", "refuse", "stall", "cut", "slow", "slow"]); return k === "status" ? { kind: k, status: sim.pick("f:st", [500, 502, 503, 429, 400, 404]) } : k === "slow" ? { kind: k, delay: sim.pick("f:sd", [3e3, 12e3, 40e3]) } : { kind: k, after: 0 }; };
  const w = world(sim, o); svc = w.svc; const { disk, proc } = w; proc.onUncaught = () => {};
  const tunnel = { opens: 0, closes: 0, open: false, url: "https://t.sim" }; const tf = p && sim.chance("f:tun", 0.08) ? sim.pick("f:tunk", ["fail", "nourl"]) : "ok";
  if (tf !== "ok") sim.fault(`tunnel:${tf}`);
  proc.opts.tunnels = (pr) => ({ localtunnel: (opts) => new Promise((res, rej) => { pr.at(sim.latency("lat:tunnel", 5, 2000), () => {
    if (tf === "fail") { svc.disturbed++; rej(new Error("tunnel refused")); return; }
    sim.check(opts.port === 3000 && opts.localHost === "localhost", `${K}.trigger`, () => `tunnel to ${opts.localHost}:${opts.port}`);
    tunnel.opens++; tunnel.open = true; if (tf === "nourl") svc.disturbed++;
    res({ url: tf === "nourl" ? undefined : tunnel.url, basicAuthUser: "u", basicAuthPassword: "pw", close: () => { tunnel.closes++; tunnel.open = false; tunnel.closedAt ??= sim.now; sim.log("tunnel closed"); } });
  }, "tunnel"); }) });
  const L = proc.load(scripts.rl); const companion = sim.chance("w:comp", 0.15); if (companion) disk.put("/work/c/i", Buffer.from("x"));
  const calls = { created: 0, run: 0, progress: [], locked: 0 };
  let keepDone = openUntil === null; const keep = openUntil === null ? {} : { keepTunnelOpenPromise: new Promise((res) => proc.at(openUntil, () => { keepDone = true; res(); }, "user")) };
  let r, doneAt; const st = await sim.run(async () => {
    r = await settled(L.rl.executeRemoteTestRun({ apiToken: "tok", appUrl: "http://localhost:3000/", commitSha: "c".repeat(40), environment: "ci", isLockable: true, onTunnelCreated: () => { calls.created++; }, onTestRunCreated: () => { calls.run++; }, onProgressUpdate: (x) => { calls.progress.push(x); }, onTunnelStillLocked: () => { calls.locked++; }, ...keep, ...(companion ? { companionAssets: { folder: "/work/c", regex: "x" } } : {}) })); doneAt = sim.now;
    sim.log(r.ok ? `resolved ${r.v.testRun?.status}` : `rejected ${errText(r.e)}`);
    if (r.ok) { sim.check(keepDone, `${K}.early-close`, () => "ended before the caller released the tunnel"); sim.check(tunnel.closes === 1, `${K}.tunnel`, () => `resolved with the tunnel closed ${tunnel.closes} times`); }
  }, { maxTime: 24 * 3600e3, maxEvents: 400e3 });
  if (st === "violation") return { sample: {} };
  if (!sim.check(st === "done", `${K}.hang`, () => `never settled (${st}); final status at ${finalAt}`)) return { sample: {} };
  const polls = svc.log.filter((e) => e.path === "test-runs/run1"), locks = svc.log.filter((e) => e.path === "deployment-locks/is-locked"); const good = (e) => e.status === 200 && (!e.fault || e.fault.kind === "slow");
  const over = (s) => OVER.includes(s);
  if (r.ok) {
    const got = r.v.testRun; const seen = polls.filter((e) => good(e) && e.answer.status === got.status && e.answer.at === got.at);
    sim.check(seen.length > 0 && over(got.status), `${K}.result`, () => `returned ${got.status}, which no poll reported`);
    if (got.status !== "ExecutionError") sim.check(got.status === finalStatus && got.at >= finalAt, `${K}.result`, () => `returned ${got.status}; the service's final status is ${finalStatus}`);
    else { // it may only give up on a retry after the documented 5 minutes
let since = null; for (const e of polls.filter(good).sort((x, y) => x.answer.at - y.answer.at)) { if (e.answer.at > got.at) break; if (e.answer.status !== "ExecutionError") since = null; else since ??= e.answer.at; }
      sim.check(since !== null && got.at - since >= 300e3 - 300, `${K}.retry-missed`, () => `gave up on a retry ${since === null ? "of a run that was not failing" : `${(got.at - since) / 1e3}s after the execution error`}`); sim.probe("executionError");
    }
    const unlocked = locks.find((e) => good(e) && e.answer === "false" && e.answeredAt >= got.at);
    sim.check(unlocked && tunnel.closedAt >= unlocked.answeredAt, `${K}.early-close`, () => `the tunnel was closed ${unlocked ? "before" : "without"} the service reporting it unlocked`);
    sim.check(svc.triggered >= 1 && !noRun, `${K}.result`, () => "resolved without a run"); if (companion) sim.check(svc.uploads.get(svc.companion?.deploymentUploadId)?.completedAs, `${K}.companion`, () => `companion ${JSON.stringify(svc.companion)}`);
    if (svc.disturbed === 0) {
      // an execution error lasting 5 minutes ends it; otherwise the final status does
      let end = finalStatus === "ExecutionError" ? finalAt + 300e3 : finalAt; for (const [i, [a, st1]] of life.entries()) if (st1 === "ExecutionError" && i < life.length - 1 && life[i + 1][0] - a > 290e3) { end = Math.max(end, a + 310e3); }
      sim.check(doneAt <= Math.max(end, svc.log[0].t, lockedUntil, openUntil ?? 0) + 20e3, `${K}.late`, () => `ended at ${doneAt}; final status at ${finalAt}, unlocked at ${lockedUntil}, released at ${openUntil}`);
      sim.check(polls.length <= Math.ceil(doneAt / 5e3) + 1, `${K}.rate`, () => `${polls.length} polls in ${doneAt} ms`); sim.probe("undisturbed");
    }
    sim.probe(`ok:${got.status}`);
  } else {
    sim.check(svc.disturbed > 0 || (noRun && /no run for you/.test(r.e?.message)), `${K}.false-failure`, () => `failed undisturbed: ${errText(r.e)}`); sim.probe("failed");
  }
  const fatal = polls.find((e) => final4xx(e)); if (fatal && r.ok) sim.check(fatal.t >= r.v.testRun.at, `${K}.swallowed`, () => `a poll was refused with ${fatal.fault.status} but the execution went on`);
  if (fatal && !r.ok) sim.check(doneAt <= fatal.t + 70e3 * 4, `${K}.late-failure`, () => `a poll was refused at ${fatal.t}, reported at ${doneAt}`);
  if (sim.stopped) return { sample: {} };
  await sim.settle(15 * 60e3);
  const late = svc.log.filter((e) => e.t > doneAt + 260e3); sim.check(late.length === 0, `${K}.still-polling`, () => `${late.length} requests long after the end, e.g. ${late[0].path} ${(late[0].t - doneAt) / 1e3}s later`);
  sim.check(tunnel.closes === tunnel.opens, `${K}.tunnel`, () => `the tunnel was opened ${tunnel.opens} and closed ${tunnel.closes} times (${r.ok ? "resolved" : `rejected: ${errText(r.e)}`})`);
  sim.check(sim.unhandled.length === 0 && proc.uncaughtErrors.length === 0, `${K}.unhandled`, () => `unhandled error: ${errText(sim.unhandled[0]?.reason ?? proc.uncaughtErrors[0])}`);
  sim.check(calls.created <= 1 && calls.run <= 1 && (!r.ok || (calls.created === 1 && calls.run === 1)), `${K}.callbacks`, () => JSON.stringify(calls));
  return { sample: { finalStatus, polls: polls.length } };
};
