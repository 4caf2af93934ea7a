// Harness for resolving (and installing) the browser: ensureBrowser of the
// common package over a model of @puppeteer/browsers 2.10 on the simulated disk.
import { bundle } from "../../sim/bundle.mjs";
import { Disk } from "../../sim/fs.mjs";
import { makeZip, npmModules, realPackages } from "../../sim/npm.mjs";
import { Proc } from "../../sim/proc.mjs";

export const BROWSER_META = {
  real: ["packages/common/src/browser-installer.ts"],
  stubs: ["@puppeteer/browsers 2.10: model (download next to the install, unpack into it, trust a folder that has the executable)", "download server: model", "fs: simulated disk", "chalk: trivial"],
  assumptions: ["an install that the installer reports as complete is complete", "nothing else leaves a folder with an executable but without the rest in the cache directory", "a process crash keeps every file system call that had completed"],
};
let built;
export const buildBrowser = async () => (built ??= { b: (await bundle({ b: "packages/common/src/browser-installer.ts" }, { real: realPackages(), supported: { "dynamic-import": false } })).code });

const HOME = "/home/sim"; const PLATFORM = "linux"; const EXE = "chrome-linux64/chrome";
const BUILDS = ["126.0.1", "127.0.2", "128.0.3"];
const wait = (proc, ms, name) => new Promise((r) => proc.at(ms, r, name));
const cut = (p) => p.split("/").slice(0, -1).join("/");

/** the documented behaviour of @puppeteer/browsers' install and getInstalledBrowsers */
const installerModel = (proc, W) => {
  const fs = proc.require("fs"), fsp = proc.require("fs/promises");
  const dirOf = (root, b) => `${root}/chrome/${PLATFORM}-${b}`;
  class InstalledBrowser { constructor(root, browser, buildId, platform) { Object.assign(this, { browser, buildId, platform }); this.root = root; } get path() { return `${this.root}/${this.browser}/${this.platform}-${this.buildId}`; } get executablePath() { return `${this.path}/${EXE}`; } }
  return {
    Browser: { CHROME: "chrome", FIREFOX: "firefox", CHROMIUM: "chromium", CHROMEDRIVER: "chromedriver", CHROMEHEADLESSSHELL: "chrome-headless-shell" },
    detectBrowserPlatform: () => W.platform,
    resolveBuildId: async () => { W.resolves++; const f = W.netFault(); await wait(proc, W.sim.latency("n:res", 5, 200), "resolve"); if (f) { W.hit("resolve"); throw new Error(`simulated: ${f.kind} while resolving`); } return BUILDS[2]; },
    getInstalledBrowsers: async ({ cacheDir }) => {
      if (!fs.existsSync(cacheDir)) return [];
      return fs.readdirSync(cacheDir).filter((t) => ["chrome", "firefox"].includes(t)).flatMap((t) => fs.readdirSync(`${cacheDir}/${t}`).map((n) => { const p = n.split("-"); return p.length === 2 ? new InstalledBrowser(cacheDir, t, p[1], p[0]) : null; }).filter(Boolean));
    },
    install: async (o) => {
      const a = { n: W.attempts.length, at: W.sim.now, proc: proc.name }; W.attempts.push(a);
      const out = dirOf(o.cacheDir, o.buildId), archive = `${o.cacheDir}/chrome/${o.buildId}-chrome-linux64.zip`; const done = new InstalledBrowser(o.cacheDir, o.browser, o.buildId, o.platform);
      try {
        if (!fs.existsSync(`${o.cacheDir}/chrome`)) await fsp.mkdir(`${o.cacheDir}/chrome`, { recursive: true });
        try {
          if (fs.existsSync(out)) { if (!fs.existsSync(done.executablePath)) throw new Error(`The browser folder (${out}) exists but the executable (${done.executablePath}) is missing`); return done; }
          W.downloads++; const f = W.netFault(); const body = W.archives.get(o.buildId); if (!body) throw new Error("Download failed: server returned code 404");
          if (f?.kind === "refuse") { await wait(proc, 20, "refused"); W.hit("refuse"); throw new Error("connect ECONNREFUSED"); }
          if (f?.kind === "stall") { W.hit("stall"); await new Promise(() => {}); }
          if (f?.kind === "slow" && f.delay >= 290e3) W.hit("slow");
          const h = await fsp.open(archive, "w"); let torn = false;
          try { for (let i = 0; i < 4; i++) { const part = body.subarray(Math.floor((body.length * i) / 4), Math.floor((body.length * (i + 1)) / 4)); await wait(proc, W.sim.latency("n:dl", 1, 500) + (f?.kind === "slow" && i === 1 ? f.delay : 0), "download"); if (f?.kind === "cut" && i === f.after) { torn = true; break; } if (f?.kind === "stallBody" && i === f.after) { W.hit("stallBody"); await new Promise(() => {}); } await h.write(part); } } finally { await h.close(); }
          if (torn) { W.hit("cut"); throw new Error("aborted"); }
          await proc.require("extract-zip")(archive, { dir: out });
          return done;
        } finally { if (fs.existsSync(archive)) await fsp.unlink(archive); }
      } catch (e) { a.error = e; throw e; }
    },
  };
};

export const runEnsureBrowser = async (sim, { scripts }) => {
  const K = sim.prop; const disk = new Disk(sim); disk.mkdir(`${HOME}`, { recursive: true });
  const files = new Map(), archives = new Map();
  for (const b of BUILDS) { const names = ["ABOUT", "chrome", "icudtl.dat", "locales/en-US.pak", "resources.pak"]; const order = sim.shuffle("w:ord", names); const list = order.map((n) => [`chrome-linux64/${n}`, Buffer.from(`${b}/${n}/`.padEnd(sim.int("w:size", 20, 3000), "x"))]); files.set(b, new Map(list)); archives.set(b, makeZip(list)); }
  const W = { sim, archives, attempts: [], downloads: 0, resolves: 0, platform: sim.chance("w:noPlatform", 0.03) ? undefined : PLATFORM, on: sim.chance("cfg:faults", 0.75) };
  const pNet = sim.pick("cfg:net", [0.1, 0.4, 0.8]), pFs = sim.chance("cfg:fs", 0.3) ? sim.pick("cfg:pfs", [0.01, 0.1]) : 0;
  W.netFault = () => { if (!W.on || !sim.chance("f:net", pNet)) return null; const k = sim.pick("f:netk", ["refuse", "cut", "stall", "stallBody", "slow"]); sim.fault(`download:${k}`); return k === "slow" ? { kind: k, delay: sim.pick("f:slow", [60e3, 290e3, 299.9e3, 301e3, 400e3, 900e3]) } : { kind: k, after: sim.int("f:after", 0, 3) }; };
  const slowUnpack = W.on && sim.chance("cfg:slowUnpack", 0.25) ? sim.pick("cfg:unpack", [10e3, 70e3, 150e3]) : 0; if (slowUnpack) sim.fault("slow-unpack");
  const revision = sim.pick("w:rev", [BUILDS[0], BUILDS[0], BUILDS[0], undefined]); const override = sim.pick("w:over", [undefined, undefined, undefined, ` ${BUILDS[1]} `, "  "]);
  const expected = override?.trim() || revision;
  const cacheEnv = sim.pick("w:cacheEnv", [undefined, undefined, "/cache/p", "relative/p", "/cache/../p"]); const cacheDir = cacheEnv === "/cache/p" ? cacheEnv : `${HOME}/.cache/puppeteer`;
  const explicit = sim.pick("w:explicit", [null, null, null, null, null, null, null, null, null, "/opt/chrome/chrome", "/opt/missing/chrome", "  "]); if (explicit === "/opt/chrome/chrome") disk.put(explicit, "exe");
  const place = (b, keep) => { disk.mkdir(`${cacheDir}/chrome/${PLATFORM}-${b}`, { recursive: true }); for (const [n, d] of files.get(b)) if (keep(n)) disk.put(`${cacheDir}/chrome/${PLATFORM}-${b}/${n}`, d); };
  const seeded = sim.pick("w:cache", ["none", "none", "none", "complete", "other", "no-exe", "empty", "archive", "firefox"]); const seedBuild = seeded === "other" ? BUILDS[expected === BUILDS[0] ? 1 : 0] : expected ?? BUILDS[0];
  if (seeded === "complete" || seeded === "other") place(seedBuild, () => true); if (seeded === "no-exe") place(seedBuild, (n) => n === "chrome-linux64/ABOUT"); if (seeded === "empty") place(seedBuild, () => false);
  if (seeded === "archive") disk.put(`${cacheDir}/chrome/${seedBuild}-chrome-linux64.zip`, archives.get(seedBuild).subarray(0, 40)); if (seeded === "firefox") disk.put(`${cacheDir}/firefox/${PLATFORM}-${seedBuild}/firefox/firefox`, "ff");
  const complete = (b, root = cacheDir) => [...files.get(b)].every(([n, d]) => { try { return disk.read(`${root}/chrome/${PLATFORM}-${b}/${n}`).equals(d); } catch { return false; } });
  const hadComplete = () => BUILDS.filter((b) => complete(b));
  let nth = 0; const inUse = []; let ok = 0, bad = 0, dead = 0;
  const spawn = () => {
    const st = { faults: 0, resolveHit: 0, calls: 0 };
    const proc = new Proc(sim, `p${nth++}`, { modules: npmModules, disk, homedir: HOME, cwd: "/work", fsLatency: [0, sim.pick("w:fsl", [1, 5, 30])], env: { ...(cacheEnv ? { PUPPETEER_CACHE_DIR: cacheEnv } : {}), ...(override !== undefined ? { METICULOUS_CHROME_BUILD_ID: override } : {}), ...(explicit !== null ? { PUPPETEER_EXECUTABLE_PATH: explicit } : {}), ...(sim.chance("w:cloud", 0.3) ? { METICULOUS_IS_CLOUD_REPLAY: "true" } : {}) },
      fsFault: (op) => { if (!W.on || !pFs || !["open", "write", "mkdir", "mkdtemp", "rename"].includes(op) || !sim.chance("f:fs", pFs)) return null; st.faults++; return sim.pick("f:fsk", ["EIO", "ENOSPC", "EMFILE"]); },
      fsFaultSync: (op) => { if (!W.on || !pFs || !["rename", "mkdir"].includes(op) || !sim.chance("f:fsS", pFs / 4)) return null; st.faults++; st.sync = true; return sim.pick("f:fsk", ["EIO", "ENOSPC"]); },
      extractDelay: () => (slowUnpack && W.on ? sim.int("f:unpackT", 0, slowUnpack) : 0) });
    const mine = Object.create(W); mine.hit = (k) => { if (k === "resolve") st.resolveHit++; else st.faults++; };
    proc.factories["@puppeteer/browsers"] = (p) => (st.model ??= installerModel(p, mine));
    for (const v of ["cjs", "esm"]) proc.factories[`puppeteer-core/lib/${v}/puppeteer/revisions.js`] = () => { if (!revision) throw new Error("Cannot find module"); return { PUPPETEER_REVISIONS: { chrome: revision } }; };
    proc.onUncaught = () => {}; proc.sut = proc.load(scripts.b).b; return { proc, st };
  };
  const one = async ({ proc, st }) => {
    const before = W.attempts.length; const f0 = st.faults, r0 = st.resolveHit; const pre = hadComplete(); const t0 = sim.now; if (st.calls++) st.shared = true; let r;
    const gone = new Promise((res) => { (proc.onCrash ??= []).push(() => sim.at(0, () => res("dead"), { name: "reap" })); });
    const how = await Promise.race([proc.sut.ensureBrowser().then((v) => (r = { ok: true, v }), (e) => (r = { ok: false, e })), gone, sim.sleep(3 * 300e3 + 200e3).then(() => "late")]);
    st.calls--; if (how === "dead" || !proc.alive || sim.stopped) { dead++; return; }
    sim.check(how !== "late", `${K}.hang`, () => `${proc.name}: no answer after ${Math.round((sim.now - t0) / 1000)} s`); if (sim.stopped) return;
    const tries = W.attempts.slice(before).filter((a) => a.proc === proc.name).length; sim.log(`${proc.name} ${r.ok ? `uses ${r.v}` : `fails: ${r.e?.message?.split("\n")[0]}`} after ${tries} attempt(s)`);
    const alone = st.calls === 0 && !st.shared; // no other call of this process is under way
    if (alone) sim.check(tries <= 3, `${K}.attempts`, () => `${proc.name}: ${tries} attempts`);
    if (r.ok) {
      ok++; if (explicit?.trim()) { sim.check(r.v === explicit, `${K}.explicit`, () => `${r.v} instead of the configured ${explicit}`); sim.check(explicit === "/opt/chrome/chrome", `${K}.missing`, () => `${r.v} does not exist`); return; }
      const m = new RegExp(`^${cacheDir}/chrome/${PLATFORM}-([^/]+)/${EXE}$`).exec(r.v); sim.check(m, `${K}.place`, () => `${r.v} is not in the cache directory ${cacheDir}`); if (!m) return;
      if (expected) sim.check(m[1] === expected, `${K}.version`, () => `version ${m[1]} instead of ${expected}`);
      sim.check(complete(m[1]), `${K}.half-installed`, () => `${proc.name} is told to run ${r.v}, which is not completely installed`);
      inUse.push({ path: r.v, build: m[1], who: proc.name, at: sim.now });
      if (expected ? pre.includes(expected) : pre.length && seeded !== "no-exe" && seeded !== "empty") sim.check(tries === 0 || !alone, `${K}.needless`, () => `${proc.name} installed although ${pre} was there`);
    } else {
      bad++; const msg = String(r.e?.message ?? r.e);
      if (explicit?.trim()) { sim.check(explicit === "/opt/missing/chrome" && msg.includes(explicit), `${K}.false-failure`, () => msg); return; }
      if (!W.platform) { sim.check(/Unsupported platform/.test(msg) && tries === 0, `${K}.false-failure`, () => msg); return; }
      sim.check(!expected || !pre.includes(expected), `${K}.false-failure`, () => `failed although ${expected} was installed: ${msg}`);
      if (st.resolveHit > r0 || (st.sync && tries === 0)) return;
      const slow = slowUnpack > 60e3 ? 3 : 0; // an unpack may take longer than an attempt may
      sim.check(st.faults - f0 + slow >= 3, `${K}.false-failure`, () => `failed after ${tries} attempt(s) and ${st.faults - f0} disturbance(s): ${msg.split("\n")[0]}`);
      if (alone && !st.sync && pFs === 0) sim.check(tries === 3, `${K}.attempts`, () => `gave up after ${tries} attempt(s)`);
      sim.check(/timed out/.test(msg) || W.attempts.some((a) => a.proc === proc.name && a.error && msg.includes(a.error.message)) || pFs > 0, `${K}.reason`, () => `the reason is missing: ${msg.split("\n")[0]}`);
    }
    await Promise.resolve(); if (st.calls === 0) sim.check(proc.activeTimers().length === 0, `${K}.timer-left`, () => `${proc.name}: a timer of ${proc.activeTimers()[0]._d} ms keeps the process alive after the answer`);
  };
  const undisturbed = !W.on; let crashes = 0;
  const st = await sim.run(async () => {
    const phases = sim.int("w:phases", 1, 3);
    for (let ph = 0; ph <= phases && !sim.stopped; ph++) {
      if (ph === phases) W.on = false; // the environment has recovered
      const n = sim.pick("w:conc", [1, 1, 2, 3]); const gap = sim.pick("w:gap", [0, 0, 50, 2e3, 310e3]);
      await Promise.all(Array.from({ length: n }, async () => {
        await sim.sleep(sim.latency("w:start", 0, gap)); const p = spawn();
        const ev = W.on && sim.chance("f:crash", 0.3) ? sim.at(sim.latency("f:crashT", 0, sim.pick("cfg:cw", [300, 3000, 400e3])), () => { if (p.proc.alive) { sim.fault("process-crash"); crashes++; p.proc.crash("crash"); } }, { name: "crash", daemon: true }) : null;
        await Promise.all(Array.from({ length: sim.pick("w:calls", [1, 1, 1, 2]) }, () => one(p)));
        sim.cancel(ev); if (p.proc.alive && sim.chance("w:quit", 0.5)) p.proc.crash("done");
      }));
      if (sim.chance("w:late", 0.3)) await sim.sleep(600e3);
    }
    if (!sim.stopped && undisturbed && crashes === 0 && !explicit?.trim() && W.platform) sim.check(ok > 0 && bad === 0, `${K}.false-failure`, "failed without a disturbance");
  }, { maxTime: 6 * 3600e3, maxEvents: 200000 });
  if (!sim.stopped) {
    await sim.settle(1800e3, 50000);
    sim.check(st === "done", `${K}.hang`, () => `never settled (${st})`);
    for (const u of inUse) sim.check(complete(u.build), `${K}.damaged`, () => `${u.path}, in use by ${u.who}, was damaged later`);
    if (undisturbed && crashes === 0) for (const n of disk.exists(cacheDir) ? disk.list(cacheDir) : []) sim.check(["chrome", "firefox"].includes(n), `${K}.left`, () => `${n} was left in the cache directory`);
    sim.check(sim.unhandled.length === 0 && sim.procs.every((p) => p.uncaughtErrors.length === 0), `${K}.unhandled`, () => `unhandled ${sim.unhandled[0]?.reason?.message ?? sim.procs.find((p) => p.uncaughtErrors.length)?.uncaughtErrors[0]?.message}`);
  }
  sim.probe("ok", ok); sim.probe("failed", bad); sim.probe("crashed", dead); sim.probe(`cache-${seeded}`);
  return { sample: { ok, bad, dead, attempts: W.attempts.length, downloads: W.downloads } };
};
