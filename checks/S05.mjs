// S05: upload credentials. One scenario drives the whole recording worker, the
// other drives its storage back end directly with concurrent uploads.
import { Proc } from "../sim/proc.mjs";
import { EPOCH } from "../sim/core.mjs";
import { simFetch } from "../sim/net.mjs";
import { buildSidecar, runSidecar, SIDECAR_META, verifySigV4, makeStorageConfig, storageKey, checkCredentialCall, partialCredentials } from "./lib/sidecar.mjs";

const direct = async (sim, { scripts }) => {
  const plan = {
    ttl: sim.pick("cfg:ttl", [3600e3, 12 * 60e3, 7 * 60e3, 5.6 * 60e3]),
    noExpiry: sim.chance("cfg:noexp", 0.1),
    skew: sim.pick("cfg:skew", [0, 0, 150e3, -150e3]),
    cogP: sim.chance("cfg:cog", 0.5) ? sim.pick("cfg:cogp", [0.2, 0.6]) : 0,
    s3P: sim.chance("cfg:s3", 0.4) ? 0.25 : 0,
    revokeP: sim.chance("cfg:rev", 0.4) ? 0.2 : 0,
    writers: sim.int("cfg:writers", 1, 6), rounds: sim.int("cfg:rounds", 1, 8),
    gap: sim.pick("cfg:gap", [50, 2000, 60e3, 600e3]),
    stallP: sim.chance("cfg:stall", 0.3) ? 0.1 : 0,
  };
  plan.storage = makeStorageConfig(sim);
  let rejectedAtEvent = -1;
  const creds = new Map(); let seq = 0, faultsOn = true, inFlight = 0, fetches = 0;
  const writes = new Map();
  const proc = new Proc(sim, "app", { clockOffset: plan.skew });
  const real = () => EPOCH + Math.floor(sim.now);
  proc.opts.fetch = simFetch(proc, {
    name: "aws", latency: [2, 400],
    onOpen: (i) => { if (i.headers.get("x-amz-target")?.endsWith("GetId")) {
      // a credential that works and is good for a long time is used again, not fetched anew by every upload
      for (const [k, c] of creds) if (!plan.noExpiry && c.usedAt !== undefined && !c.revoked && rejectedAtEvent < c.issued && c.exp - EPOCH - i.t - plan.skew > 10 * 60e3) { sim.violate("S05/not-reused", `credentials were fetched again although ${k} works for another ${Math.round((c.exp - EPOCH - i.t) / 60e3)} minutes`); break; } fetches++; inFlight++; sim.check(inFlight <= 1, "S05/not-shared", `${inFlight} credential fetches in flight at once`); } },
    onClose: (i) => { if (i.headers.get("x-amz-target")?.endsWith("GetId")) inFlight--; },
    faultFor: (i) => {
      if (!faultsOn) return null;
      if (i.headers.get("x-amz-target")) {
        if (plan.stallP && sim.chance("f:stall", plan.stallP)) return { kind: "stall" };
        if (!plan.cogP || !sim.chance("f:cog", plan.cogP)) return null;
        return [{ kind: "status", status: 500 }, { kind: "refuse" }, { kind: "garbage" }, { kind: "lost" }, { kind: "cut" }, { kind: "slow", delay: 20e3 }][sim.int("f:cogk", 0, 5)];
      }
      if (plan.s3P && sim.chance("f:s3", plan.s3P)) return [{ kind: "status", status: 503 }, { kind: "refuse" }, { kind: "lost" }, { kind: "slow", delay: 15e3 }][sim.int("f:s3k", 0, 3)];
      return null;
    },
    handle: (i, fault) => {
      const target = i.headers.get("x-amz-target");
      if (target) {
        if (fault?.kind === "status") return { status: 500, body: "{}" };
        checkCredentialCall(sim, plan.storage, i);
        if (fault?.kind === "garbage") { const p = partialCredentials(sim); return { status: 200, body: p ? { Credentials: p } : {} }; }
        if (target.endsWith("GetId")) return { status: 200, body: { IdentityId: `id${++seq}` } };
        const n = ++seq, exp = real() + plan.ttl;
        creds.set(`AK${n}`, { secret: `sk${n}`, token: `st${n}`, exp, issued: sim.events });
        return { status: 200, body: { Credentials: { AccessKeyId: `AK${n}`, SecretKey: `sk${n}`, SessionToken: `st${n}`, ...(plan.noExpiry ? {} : { Expiration: exp / 1000 }) } } };
      }
      const key = storageKey(sim, plan.storage, i).split("/").pop(); const w = writes.get(key);
      const ak = /Credential=([^/]+)\//.exec(i.headers.get("authorization") ?? "")?.[1]; const c = creds.get(ak);
      if (!c) { sim.violate("S05/unknown-credential", `upload signed with an unknown access key ${ak}`); return { status: 403 }; }
      c.usedAt ??= sim.events;
      if (c.rejectedAt !== undefined && w.start > c.rejectedAt) sim.violate("S05/reused-rejected", `an upload started after storage rejected ${ak} was signed with it again`);
      const v = verifySigV4({ ...i, body: i.body }, c.secret);
      if (!v.ok) { sim.violate("S05/bad-signature", `upload rejected by an independent signature verification: ${v.reason}`); return { status: 403 }; }
      if (i.headers.get("x-amz-security-token") !== c.token) { sim.violate("S05/bad-token", "wrong session token"); return { status: 403 }; }
      const sentAt = w.sentAt ?? i.t;
      if (!plan.noExpiry && EPOCH + i.t >= c.exp) sim.violate("S05/expired", `an upload was signed with credentials that had expired ${Math.round((EPOCH + i.t - c.exp) / 1000)}s before it was sent`);
      if (faultsOn && plan.revokeP && sim.chance("f:rev", plan.revokeP)) { if (!c.revoked) sim.fault("credential-revoked"); c.revoked = true; }
      if (c.revoked) { if (fault?.kind !== "lost") w.rejected = c; return { status: 403, body: "InvalidToken" }; }
      if (fault?.kind === "status") return { status: fault.status };
      w.stored = i.body.toString();
      return { status: 200 };
    },
  });
  const { S3StorageBackend } = proc.load(scripts.sidecar).storage;
  const be = new S3StorageBackend(plan.storage);
  let n = 0, ok = 0, bad = 0;
  const write = async () => {
    const key = `k${++n}`; const data = { n, text: "x".repeat(sim.int("wl:len", 0, 40)), uni: "é€" };
    const w = { start: sim.events, key }; writes.set(key, w);
    try { await be.write(`some tok/BE_x:${key}/${key}`, data); ok++; if (w.stored !== JSON.stringify(data)) sim.violate("S05/stored", `upload ${key} reported success but storage holds ${w.stored}`); return true; } catch (e) { bad++; if (w.rejected) { rejectedAtEvent = sim.events; w.rejected.rejectedAt ??= sim.events; } return false; }
  };
  const st = await sim.run(async () => {
    for (let r = 0; r < plan.rounds && !sim.stopped; r++) {
      await Promise.all(Array.from({ length: plan.writers }, async () => { await sim.sleep(sim.latency("wl:stagger", 0, 1000)); await write(); }));
      await sim.sleep(sim.int("wl:gap", 0, plan.gap));
    }
    faultsOn = false;
    await sim.sleep(sim.int("wl:gap", 0, plan.gap));
    // credentials revoked earlier may be discovered by at most one more upload
    const first = await write();
    const second = first || (await write());
    sim.check(second, "S05/stuck", "uploads keep failing although the credential and storage services recovered");
  }, { maxTime: 48 * 3600e3 });
  if (!sim.stopped && st !== "done") sim.violate("S05/hang", `an upload never settled (${st})`);
  if (ok && fetches > 1) sim.probe("credentials-refreshed");
  sim.probe("uploads-ok", ok); sim.probe("uploads-failed", bad);
  return { sample: { plan, ok, bad, fetches } };
};
export default {
  id: "S05", ...SIDECAR_META, build: buildSidecar, quickRuns: 2000, thoroughRuns: 150000,
  scenarios: [
    { name: "direct", weight: 5, run: direct },
    { name: "faults", weight: 1, run: (s, c) => runSidecar(s, c, "faults") },
    { name: "long", weight: 1, run: (s, c) => runSidecar(s, c, "long") },
  ],
  rule: "one evaluation = one seeded execution of concurrent uploads under credential and storage faults and clock jumps; distinct = distinct event-log digests",
};
