// Simulated disk and node:fs. The disk outlives processes (a process crash
// loses only operations that had not taken effect); every asynchronous
// operation is one or more scheduler events with seeded latency, so a crash or
// another process can fall between them. Writes of a whole file are several
// steps (open/truncate, one or more partial writes, close).
//
// proc.opts.disk       Disk
// proc.opts.fsLatency  [lo, hi] ms per step
// proc.opts.fsFault    (op, path, info) => null | errno code | {code, partial}
import realFs from "node:fs";
import path from "node:path";
import { Readable } from "node:stream";
import { EPOCH, ProcExit } from "./core.mjs";

const ERR = {
  ENOENT: [-2, "no such file or directory"], EEXIST: [-17, "file already exists"], ENOTDIR: [-20, "not a directory"],
  EISDIR: [-21, "illegal operation on a directory"], ENOTEMPTY: [-39, "directory not empty"], EBADF: [-9, "bad file descriptor"],
  EACCES: [-13, "permission denied"], EPERM: [-1, "operation not permitted"], ENOSPC: [-28, "no space left on device"],
  EIO: [-5, "i/o error"], EINVAL: [-22, "invalid argument"], ELOOP: [-40, "too many symbolic links encountered"],
  EMFILE: [-24, "too many open files"], EBUSY: [-16, "resource busy or locked"], EXDEV: [-18, "cross-device link not permitted"],
  EROFS: [-30, "read-only file system"],
};
export const fsError = (code, syscall, p, dest) => {
  const [errno, text] = ERR[code] ?? [-1, code];
  return Object.assign(new Error(`${code}: ${text}, ${syscall}${p !== undefined ? ` '${p}'` : ""}${dest ? ` -> '${dest}'` : ""}`),
    { code, errno, syscall, ...(p !== undefined ? { path: p } : {}), ...(dest ? { dest } : {}) });
};
const C = realFs.constants;

export class Disk {
  constructor(sim) { this.sim = sim; this.ino = 1; this.root = this.mkdirNode(); this.capacity = Infinity; this.used = 0; this.log = null; this.onWrite = null; this.opens = 0; }
  mkdirNode(mode = 0o755) { return { type: "dir", children: new Map(), mode, ino: this.ino++, mtimeMs: this.t(), birthtimeMs: this.t() }; }
  fileNode(mode = 0o644) { return { type: "file", data: Buffer.alloc(0), mode, ino: this.ino++, mtimeMs: this.t(), birthtimeMs: this.t() }; }
  t() { return EPOCH + Math.floor(this.sim.now); }
  parts(p) { return path.posix.normalize(p).split("/").filter((x) => x && x !== "."); }
  /** resolve to {parent, name, node}; follows symlinks (the last one only if follow) */
  walk(p, { follow = true, syscall = "open", depth = 0 } = {}) {
    if (depth > 20) throw fsError("ELOOP", syscall, p);
    const parts = this.parts(p);
    let node = this.root, parent = null, name = "", cur = "";
    for (let i = 0; i < parts.length; i++) {
      if (node.type !== "dir") throw fsError("ENOTDIR", syscall, p);
      parent = node; name = parts[i];
      const next = node.children.get(name);
      const last = i === parts.length - 1;
      if (next?.type === "symlink" && (!last || follow)) {
        const target = path.posix.resolve("/" + cur, next.target);
        return this.walk(path.posix.join(target, ...parts.slice(i + 1)), { follow, syscall, depth: depth + 1 });
      }
      if (!next) { if (last) return { parent, name, node: null, real: `${cur}/${name}` }; throw fsError("ENOENT", syscall, p); }
      node = next; cur += `/${name}`;
    }
    return { parent, name, node, real: cur || "/" };
  }
  get(p, syscall = "stat", follow = true) { const w = this.walk(p, { syscall, follow }); if (!w.node) throw fsError("ENOENT", syscall, p); return w.node; }
  lookup(p) { try { return this.walk(p).node ?? undefined; } catch { return undefined; } }
  exists(p) { return !!this.lookup(p); }
  isFile(p) { return this.lookup(p)?.type === "file"; }
  isDir(p) { return this.lookup(p)?.type === "dir"; }
  read(p) { const n = this.get(p, "open"); if (n.type === "dir") throw fsError("EISDIR", "read"); return n.data; }
  /** harness use: place a file, creating its directories */
  write(p, data) { this.mkdir(path.posix.dirname(p), { recursive: true }); const w = this.walk(p); if (!w.node) w.parent.children.set(w.name, w.node = this.fileNode()); w.node.data = Buffer.from(data); w.node.mtimeMs = this.t(); }
  text(p) { const n = this.lookup(p); return n?.type === "file" ? n.data.toString("utf8") : undefined; }
  mkdir(p, { recursive = false, mode } = {}) {
    const parts = this.parts(p);
    if (!recursive) {
      const w = this.walk(p, { syscall: "mkdir" });
      if (w.node || !w.parent) throw fsError("EEXIST", "mkdir", p);
      w.parent.children.set(w.name, this.mkdirNode(mode)); w.parent.mtimeMs = this.t(); return undefined;
    }
    let cur = "", first;
    for (const part of parts) {
      cur += `/${part}`;
      const w = this.walk(cur, { syscall: "mkdir" });
      if (!w.node) { w.parent.children.set(w.name, this.mkdirNode(mode)); first ??= cur; }
      else if (w.node.type !== "dir") throw fsError(cur === "/" + parts.join("/") ? "EEXIST" : "ENOTDIR", "mkdir", p);
    }
    return first;
  }
  rmdir(p) {
    const w = this.walk(p, { syscall: "rmdir", follow: false });
    if (!w.node) throw fsError("ENOENT", "rmdir", p);
    if (w.node.type !== "dir") throw fsError("ENOTDIR", "rmdir", p);
    if (w.node.children.size) throw fsError("ENOTEMPTY", "rmdir", p);
    w.parent.children.delete(w.name);
  }
  unlink(p) {
    const w = this.walk(p, { syscall: "unlink", follow: false });
    if (!w.node) throw fsError("ENOENT", "unlink", p);
    if (w.node.type === "dir") throw fsError("EISDIR", "unlink", p);
    w.parent.children.delete(w.name); if (w.node.data) this.used -= w.node.data.length;
  }
  rename(a, b) {
    const wa = this.walk(a, { syscall: "rename", follow: false });
    if (!wa.node) throw fsError("ENOENT", "rename", a, b);
    const wb = this.walk(b, { syscall: "rename", follow: false });
    if (wb.node === wa.node) return;
    if (wb.node) {
      if (wb.node.type === "dir") {
        if (wa.node.type !== "dir") throw fsError("EISDIR", "rename", a, b);
        if (wb.node.children.size) throw fsError("ENOTEMPTY", "rename", a, b);
      } else if (wa.node.type === "dir") throw fsError("ENOTDIR", "rename", a, b);
    }
    wa.parent.children.delete(wa.name); wb.parent.children.set(wb.name, wa.node);
  }
  stat(p, follow = true, syscall = "stat") { return mkStats(this.get(p, syscall, follow)); }
  /** open flags → node */
  openNode(p, flags, mode) {
    const f = typeof flags === "string" ? FLAGS[flags] : flags ?? 0;
    if (f === undefined) throw Object.assign(new TypeError(`Unknown file open flag: ${flags}`), { code: "ERR_INVALID_ARG_VALUE" });
    const w = this.walk(p, { syscall: "open" });
    let node = w.node;
    if (!node) {
      if (!(f & C.O_CREAT)) throw fsError("ENOENT", "open", p);
      node = this.fileNode(typeof mode === "number" ? mode : mode !== undefined ? parseInt(mode, 8) : 0o666 & ~0o22); w.parent.children.set(w.name, node); w.parent.mtimeMs = this.t();
    } else {
      if ((f & C.O_CREAT) && (f & C.O_EXCL)) throw fsError("EEXIST", "open", p);
      if (node.type === "dir" && (f & (C.O_WRONLY | C.O_RDWR))) throw fsError("EISDIR", "open", p);
      if (f & C.O_TRUNC) { this.used -= node.data.length; node.data = Buffer.alloc(0); node.mtimeMs = this.t(); this.onWrite?.(p, node); }
    }
    return { node, flags: f, append: !!(f & C.O_APPEND), writable: !!(f & (C.O_WRONLY | C.O_RDWR)), readable: !(f & C.O_WRONLY) };
  }
  writeNode(node, buf, pos) {
    const end = pos + buf.length; const grow = Math.max(0, end - node.data.length);
    if (this.used + grow > this.capacity) throw fsError("ENOSPC", "write");
    if (end > node.data.length) { const n = Buffer.alloc(end); node.data.copy(n); node.data = n; this.used += grow; } else node.data = Buffer.from(node.data);
    buf.copy(node.data, pos); node.mtimeMs = this.t(); return buf.length;
  }
  put(p, data, mode) { this.mkdir(path.posix.dirname(p), { recursive: true }); const { node } = this.openNode(p, "w", mode); node.data = Buffer.from(data); this.used += node.data.length; return node; }
  list(p) { const n = this.get(p, "scandir"); if (n.type !== "dir") throw fsError("ENOTDIR", "scandir", p); return [...n.children.keys()].sort(); }
  /** all files below p: Map(relative path -> Buffer) */
  tree(p, { dirs = false } = {}) {
    const out = new Map(); const n = this.lookup(p); if (!n) return out;
    const rec = (node, rel) => {
      if (node.type === "dir") { if (dirs && rel) out.set(rel + "/", null); for (const [k, v] of [...node.children].sort()) rec(v, rel ? `${rel}/${k}` : k); } else out.set(rel, node.type === "symlink" ? Buffer.from("->" + node.target) : node.data);
    };
    rec(n, ""); return out;
  }
}
const FLAGS = {
  r: C.O_RDONLY, "r+": C.O_RDWR, rs: C.O_RDONLY, "rs+": C.O_RDWR, w: C.O_WRONLY | C.O_CREAT | C.O_TRUNC, wx: C.O_WRONLY | C.O_CREAT | C.O_TRUNC | C.O_EXCL,
  "w+": C.O_RDWR | C.O_CREAT | C.O_TRUNC, "wx+": C.O_RDWR | C.O_CREAT | C.O_TRUNC | C.O_EXCL, a: C.O_WRONLY | C.O_CREAT | C.O_APPEND, ax: C.O_WRONLY | C.O_CREAT | C.O_APPEND | C.O_EXCL, "a+": C.O_RDWR | C.O_CREAT | C.O_APPEND,
};
const mkStats = (node) => {
  const size = node.type === "file" ? node.data.length : node.type === "symlink" ? node.target.length : 4096;
  const typeBits = { file: C.S_IFREG, dir: C.S_IFDIR, symlink: C.S_IFLNK }[node.type];
  return {
    dev: 1, ino: node.ino, mode: typeBits | node.mode, nlink: 1, uid: 1000, gid: 1000, size, blksize: 4096, blocks: Math.ceil(size / 512), rdev: 0,
    mtimeMs: node.mtimeMs, atimeMs: node.mtimeMs, ctimeMs: node.mtimeMs, birthtimeMs: node.birthtimeMs, mtime: new Date(node.mtimeMs), atime: new Date(node.mtimeMs), ctime: new Date(node.mtimeMs), birthtime: new Date(node.birthtimeMs),
    isFile: () => node.type === "file", isDirectory: () => node.type === "dir", isSymbolicLink: () => node.type === "symlink", isFIFO: () => false, isSocket: () => false, isBlockDevice: () => false, isCharacterDevice: () => false,
  };
};
const mkDirent = (node, name, parentPath) => ({ name, parentPath, path: parentPath, isFile: () => node.type === "file", isDirectory: () => node.type === "dir", isSymbolicLink: () => node.type === "symlink", isFIFO: () => false, isSocket: () => false, isBlockDevice: () => false, isCharacterDevice: () => false });

const toPath = (proc, p) => {
  if (p instanceof URL || (p && typeof p === "object" && p.href)) p = decodeURIComponent(new URL(p.href).pathname);
  if (Buffer.isBuffer(p)) p = p.toString();
  if (typeof p !== "string") throw Object.assign(new TypeError(`The "path" argument must be of type string or an instance of Buffer or URL. Received ${p}`), { code: "ERR_INVALID_ARG_TYPE" });
  return p.startsWith("/") ? p : path.posix.join(proc.opts.cwd ?? "/work", p);
};
const enc = (o) => (typeof o === "string" ? o : o?.encoding ?? null);
const toBuf = (d, o) => (typeof d === "string" ? Buffer.from(d, enc(o) ?? "utf8") : ArrayBuffer.isView(d) ? Buffer.from(d.buffer, d.byteOffset, d.byteLength) : Buffer.from(String(d)));
const abortErr = (signal) => { const e = new Error("The operation was aborted", { cause: signal.reason }); e.name = "AbortError"; e.code = "ABORT_ERR"; return e; };

export const fsOf = (proc) => {
  if (proc._fs) return proc._fs;
  const disk = proc.opts.disk; const sim = proc.sim;
  if (!disk) throw new Error("simulator: process has no disk");
  const fds = new Map(); let nextFd = 20;
  proc._fds = fds;
  const P = (p) => toPath(proc, p);
  const lat = () => { const [lo, hi] = proc.opts.fsLatency ?? [0, 3]; return sim.latency("lat:fs", lo, hi); };
  const faultOf = (op, p, info) => {
    const f = proc.opts.fsFault?.(op, p, info ?? {});
    if (!f) return null;
    const r = typeof f === "string" ? { code: f } : f;
    sim.fault(`fs:${r.code ?? "delay"}:${op}`);
    sim.log(`${proc.name} fs fault ${r.code ?? `delay ${r.delay}`} on ${op} ${p}`);
    return r;
  };
  /** one asynchronous step */
  const step = (op, p, effect, info) => {
    const f = faultOf(op, p, info);
    return proc.io(`fs:${op}`, lat() + (f?.delay ?? 0), () => {
      if (f?.code) { if (f.partial) { try { f.partial(); } catch { /* ignore */ } } throw fsError(f.code, op, p); }
      return effect();
    });
  };
  const fdOf = (fd, syscall) => { const e = fds.get(typeof fd === "object" ? fd.fd : fd); if (!e) throw fsError("EBADF", syscall); return e; };
  const open1 = (p, flags, mode) => { const o = disk.openNode(p, flags ?? "r", mode); const fd = nextFd++; fds.set(fd, { ...o, pos: 0, path: p, fd }); return fd; };
  const close1 = (fd) => { fdOf(fd, "close"); fds.delete(fd); };
  const write1 = (fd, buf, position) => {
    const e = fdOf(fd, "write"); if (!e.writable) throw fsError("EBADF", "write");
    const pos = e.append ? e.node.data.length : typeof position === "number" ? position : e.pos;
    const n = disk.writeNode(e.node, buf, pos); if (typeof position !== "number") e.pos = pos + n;
    disk.onWrite?.(e.path, e.node, proc); return n;
  };
  const read1 = (fd, buf, off, len, position) => {
    const e = fdOf(fd, "read"); if (e.node.type === "dir") throw fsError("EISDIR", "read");
    const pos = typeof position === "number" && position >= 0 ? position : typeof position === "bigint" && position >= 0n ? Number(position) : e.pos;
    const n = Math.max(0, Math.min(len, e.node.data.length - pos));
    e.node.data.copy(Buffer.from(buf.buffer, buf.byteOffset, buf.byteLength), off, pos, pos + n);
    if (!(typeof position === "number" && position >= 0)) e.pos = pos + n;
    return n;
  };
  // ---- promise API
  const writeAll = async (p, data, o, flag, signal) => {
    const buf = toBuf(data, o);
    if (signal?.aborted) throw abortErr(signal);
    const fd = await step("open", p, () => open1(p, flag, o?.mode), { write: true });
    try {
      const n = buf.length > 1 ? 1 + sim.int("fs:writes", 0, 2) : buf.length;
      let off = 0;
      for (let i = 0; i < n; i++) {
        if (signal?.aborted) throw abortErr(signal);
        const to = i === n - 1 ? buf.length : Math.floor((buf.length * (i + 1)) / n);
        const part = buf.subarray(off, to);
        await step("write", p, () => write1(fd, part, null), { partial: part });
        off = to;
      }
    } finally { await proc.io("fs:close", 0, () => close1(fd)); }
  };
  const rmRec = async (p) => {
    const node = disk.walk(p, { follow: false, syscall: "rm" }).node;
    if (!node) return;
    if (node.type === "dir") {
      // like node's rimraf: only an ENOTEMPTY of rmdir makes it look at the children
      let empty = true; await step("rmdir", p, () => { try { disk.rmdir(p); } catch (e) { if (e.code === "ENOTEMPTY") empty = false; else if (e.code !== "ENOENT") throw e; } });
      if (empty) return;
      const names = await step("readdir", p, () => (disk.lookup(p)?.type === "dir" ? disk.list(p) : []));
      for (const k of names) { try { await rmRec(path.posix.join(p, k)); } catch (e) { if (e.code !== "ENOENT") throw e; } }
      await step("rmdir", p, () => { try { disk.rmdir(p); } catch (e) { if (e.code !== "ENOENT") throw e; } });
    } else await step("unlink", p, () => { try { disk.unlink(p); } catch (e) { if (e.code !== "ENOENT") throw e; } });
  };
  const readdirSync1 = (p, o) => {
    const names = disk.list(p);
    if (o?.recursive) {
      const out = [];
      const rec = (dir, rel) => { for (const k of disk.list(dir)) { const full = path.posix.join(dir, k); const n = disk.get(full, "scandir", false); out.push(o.withFileTypes ? mkDirent(n, k, dir) : path.posix.join(rel, k)); if (n.type === "dir") rec(full, path.posix.join(rel, k)); } };
      rec(p, ""); return out;
    }
    return o?.withFileTypes ? names.map((k) => mkDirent(disk.get(path.posix.join(p, k), "scandir", false), k, p)) : names;
  };
  const mkdtemp1 = (prefix) => { for (;;) { const p = prefix + Array.from({ length: 6 }, () => "abcdefghijklmnopqrstuvwxyz0123456789"[sim.int("fs:mkdtemp", 0, 35)]).join(""); if (!disk.exists(p)) { disk.mkdir(p, { mode: 0o700 }); return p; } } };
  const copy1 = (a, b, mode) => { const src = disk.get(a, "copyfile"); if (src.type === "dir") throw fsError("EISDIR", "copyfile", a, b); if ((mode & C.COPYFILE_EXCL) && disk.exists(b)) throw fsError("EEXIST", "copyfile", a, b); const d = Buffer.from(src.data); const { node } = disk.openNode(b, "w", src.mode); disk.writeNode(node, d, 0); disk.onWrite?.(b, node, proc); };
  const promises = {
    constants: C,
    async readFile(p, o) {
      if (o?.signal?.aborted) throw abortErr(o.signal);
      if (p && typeof p === "object" && p.fd !== undefined) return p.readFile(o);
      const q = P(p);
      const fd = await step("open", q, () => open1(q, o?.flag ?? "r"));
      try {
        // the content is read in one or two steps: another writer may interleave
        const e = fdOf(fd, "read"); const two = e.node.type === "file" && e.node.data.length > 1 && sim.chance("fs:read2", 0.3);
        let head = Buffer.alloc(0);
        if (two) head = await step("read", q, () => { const n = e.node.data; return Buffer.from(n.subarray(0, Math.floor(n.length / 2))); });
        const rest = await step("read", q, () => { if (e.node.type === "dir") throw fsError("EISDIR", "read"); return Buffer.from(e.node.data.subarray(head.length)); });
        if (o?.signal?.aborted) throw abortErr(o.signal);
        const d = Buffer.concat([head, rest]); const en = enc(o); return en ? d.toString(en) : d;
      } finally { await proc.io("fs:close", 0, () => close1(fd)); }
    },
    async writeFile(p, data, o) {
      if (p && typeof p === "object" && p.fd !== undefined) return p.writeFile(data, o);
      if (data && typeof data === "object" && !ArrayBuffer.isView(data) && (data[Symbol.asyncIterator] || data[Symbol.iterator])) { const parts = []; for await (const c of data) parts.push(toBuf(c)); data = Buffer.concat(parts); }
      return writeAll(P(p), data, typeof o === "string" ? { encoding: o } : o, o?.flag ?? "w", o?.signal);
    },
    async appendFile(p, data, o) { return writeAll(P(p), data, typeof o === "string" ? { encoding: o } : o, "a"); },
    async mkdir(p, o) { const q = P(p); const oo = typeof o === "number" ? { mode: o } : o ?? {}; return step("mkdir", q, () => disk.mkdir(q, oo)); },
    async rmdir(p, o) { const q = P(p); if (o?.recursive) return rmRec(q); return step("rmdir", q, () => disk.rmdir(q)); },
    async rm(p, o = {}) {
      const q = P(p);
      const w = await step("lstat", q, () => { try { return disk.walk(q, { follow: false, syscall: "rm" }).node; } catch (e) { if (o.force && (e.code === "ENOENT" || e.code === "ENOTDIR")) return null; throw e; } });
      if (!w) { if (o.force) return undefined; throw fsError("ENOENT", "rm", q); }
      if (w.type === "dir") { if (!o.recursive) throw Object.assign(new Error(`Path is a directory: rm returned EISDIR (is a directory) ${q}`), { code: "ERR_FS_EISDIR", errno: 21, syscall: "rm", path: q }); return rmRec(q); }
      return step("unlink", q, () => { try { disk.unlink(q); } catch (e) { if (!(o.force && e.code === "ENOENT")) throw e; } });
    },
    async unlink(p) { const q = P(p); return step("unlink", q, () => disk.unlink(q)); },
    async rename(a, b) { const x = P(a), y = P(b); return step("rename", x, () => disk.rename(x, y), { dest: y }); },
    async access(p, mode) { const q = P(p); return step("access", q, () => { disk.get(q, "access"); }); },
    async stat(p) { const q = P(p); return step("stat", q, () => disk.stat(q)); },
    async lstat(p) { const q = P(p); return step("lstat", q, () => disk.stat(q, false, "lstat")); },
    async readdir(p, o) { const q = P(p); return step("readdir", q, () => readdirSync1(q, o)); },
    async realpath(p) { const q = P(p); return step("realpath", q, () => { const w = disk.walk(q, { syscall: "realpath" }); if (!w.node) throw fsError("ENOENT", "realpath", q); return w.real; }); },
    async readlink(p) { const q = P(p); return step("readlink", q, () => { const n = disk.get(q, "readlink", false); if (n.type !== "symlink") throw fsError("EINVAL", "readlink", q); return n.target; }); },
    async symlink(t, p) { const q = P(p); return step("symlink", q, () => { const w = disk.walk(q, { follow: false }); if (w.node) throw fsError("EEXIST", "symlink", q); w.parent.children.set(w.name, { type: "symlink", target: String(t), mode: 0o777, ino: disk.ino++, mtimeMs: disk.t(), birthtimeMs: disk.t() }); }); },
    async chmod(p, m) { const q = P(p); return step("chmod", q, () => { disk.get(q, "chmod").mode = typeof m === "string" ? parseInt(m, 8) : m; }); },
    async utimes(p, a, m) { const q = P(p); return step("utimes", q, () => { disk.get(q, "utime").mtimeMs = toMs(m); }); },
    async copyFile(a, b, m = 0) { const x = P(a), y = P(b); return step("copyfile", x, () => copy1(x, y, m), { dest: y }); },
    async cp(a, b, o = {}) {
      const x = P(a), y = P(b); const n = disk.get(x, "cp");
      if (n.type !== "dir") return step("copyfile", x, () => copy1(x, y, 0), { dest: y });
      if (!o.recursive) throw Object.assign(new Error("Recursive option not enabled, cannot copy a directory"), { code: "ERR_FS_EISDIR" });
      await step("mkdir", y, () => disk.mkdir(y, { recursive: true }));
      for (const k of disk.list(x)) { const from = path.posix.join(x, k), to = path.posix.join(y, k); if (o.filter && !(await o.filter(from, to))) continue; await promises.cp(from, to, o); }
    },
    async mkdtemp(prefix) { const q = P(prefix); return step("mkdtemp", q, () => mkdtemp1(q)); },
    async truncate(p, len = 0) { const q = P(p); return step("truncate", q, () => { const n = disk.get(q, "open"); n.data = Buffer.from(n.data.subarray(0, len)); }); },
    async open(p, flags, mode) {
      const q = P(p); const fd = await step("open", q, () => open1(q, flags ?? "r", mode));
      const h = {
        fd,
        async close() { return step("close", q, () => { if (fds.has(fd)) close1(fd); }); },
        async stat() { return step("fstat", q, () => mkStats(fdOf(fd, "fstat").node)); },
        async read(buf, off = 0, len, pos = null) { if (!ArrayBuffer.isView(buf)) { ({ buffer: buf = Buffer.alloc(16384), offset: off = 0, length: len, position: pos = null } = buf ?? {}); } const l = len ?? buf.byteLength - off; return step("read", q, () => ({ bytesRead: read1(fd, buf, off, l, pos), buffer: buf })); },
        async write(buf, off, len, pos) { const b = typeof buf === "string" ? Buffer.from(buf) : toBuf(buf).subarray(off ?? 0, (off ?? 0) + (len ?? buf.length - (off ?? 0))); return step("write", q, () => ({ bytesWritten: write1(fd, b, typeof buf === "string" ? off : pos), buffer: buf })); },
        async readFile(o) { return step("read", q, () => { const d = Buffer.from(fdOf(fd, "read").node.data); const en = enc(o); return en ? d.toString(en) : d; }); },
        async writeFile(d, o) { return step("write", q, () => { const e = fdOf(fd, "write"); write1(fd, toBuf(d, o), e.pos); }); },
        async appendFile(d, o) { return step("write", q, () => { const e = fdOf(fd, "write"); write1(fd, toBuf(d, o), e.node.data.length); }); },
        async sync() { return step("fsync", q, () => {}); }, async datasync() { return step("fsync", q, () => {}); },
        async chmod(m) { return step("chmod", q, () => { fdOf(fd).node.mode = m; }); }, async truncate(len = 0) { return step("truncate", q, () => { const n = fdOf(fd).node; n.data = Buffer.from(n.data.subarray(0, len)); }); },
        createWriteStream: (o) => fs.createWriteStream(q, { ...o, fd }), createReadStream: (o) => fs.createReadStream(q, { ...o, fd }),
        [Symbol.asyncDispose]() { return h.close(); },
      };
      return h;
    },
  };
  // ---- callback API
  const cbify = (name) => (...args) => {
    const cb = args.pop(); if (typeof cb !== "function") throw Object.assign(new TypeError('The "cb" argument must be of type function'), { code: "ERR_INVALID_ARG_TYPE" });
    let pr; try { pr = promises[name](...args); } catch (e) { pr = Promise.reject(e); }
    pr.then((v) => proc.G.process.nextTick(() => cb(null, v)), (e) => proc.G.process.nextTick(() => cb(e)));
  };
  const cb1 = (pr, cb, ...extra) => pr.then((v) => process.nextTick(() => cb(null, v, ...extra)), (e) => process.nextTick(() => cb(e)));
  const callbacks = {};
  for (const k of ["readFile", "writeFile", "appendFile", "mkdir", "rmdir", "rm", "unlink", "rename", "access", "stat", "lstat", "readdir", "realpath", "readlink", "symlink", "chmod", "utimes", "copyFile", "cp", "mkdtemp", "truncate"]) callbacks[k] = cbify(k);
  callbacks.lchown = callbacks.chown = (p, u, g, cb) => cb1(step("chown", P(p), () => {}), cb);
  callbacks.fchown = (fd, u, g, cb) => cb1(step("chown", "", () => {}), cb);
  callbacks.fchmod = (fd, m, cb) => cb1(step("chmod", "", () => { fdOf(fd, "fchmod").node.mode = m; }), cb);
  callbacks.futimes = (fd, a, m, cb) => cb1(step("utimes", "", () => { fdOf(fd, "futimes").node.mtimeMs = toMs(m); }), cb);
  callbacks.fstat = (fd, o, cb) => { const f = cb ?? o; cb1(step("fstat", "", () => mkStats(fdOf(fd, "fstat").node)), f); };
  callbacks.fsync = (fd, cb) => cb1(step("fsync", "", () => {}), cb);
  callbacks.link = (a, b, cb) => { const x = P(a), y = P(b); cb1(step("link", x, () => { const w = disk.walk(y, { follow: false }); if (w.node) throw fsError("EEXIST", "link", x, y); w.parent.children.set(w.name, disk.get(x, "link")); }), cb); };
  callbacks.ftruncate = (fd, len, cb) => { const f = typeof len === "function" ? len : cb; cb1(step("truncate", "", () => { const n = fdOf(fd).node; n.data = Buffer.from(n.data.subarray(0, typeof len === "number" ? len : 0)); }), f); };
  callbacks.open = (p, ...a) => { const cb = a.pop(); const q = P(p); const fl = a[0] ?? "r"; cb1(step("open", q, () => open1(q, fl, a[1]), { write: fl !== "r" && fl !== 0 }), cb); };
  callbacks.close = (fd, cb) => { cb1(step("close", fds.get(fd)?.path ?? "", () => close1(fd)), cb ?? (() => {})); };
  callbacks.write = (fd, buf, ...a) => {
    const cb = a.pop(); const q = fds.get(fd)?.path ?? "";
    let b, pos;
    if (typeof buf === "string") { b = Buffer.from(buf, a[1] ?? "utf8"); pos = a[0]; } else { const off = a[0] ?? 0; const len = a[1] ?? buf.length - off; b = toBuf(buf).subarray(off, off + len); pos = a[2]; }
    cb1(step("write", q, () => write1(fd, b, pos), { partial: b }), cb, buf);
  };
  callbacks.writev = (fd, bufs, ...a) => { const cb = a.pop(); const q = fds.get(fd)?.path ?? ""; const b = Buffer.concat(bufs.map((x) => toBuf(x))); cb1(step("write", q, () => write1(fd, b, a[0]), { partial: b }), cb, bufs); };
  callbacks.read = (fd, buf, ...a) => { const cb = a.pop(); const q = fds.get(fd)?.path ?? ""; let off = a[0], len = a[1], pos = a[2]; if (off && typeof off === "object") ({ offset: off = 0, length: len = buf.byteLength, position: pos = null } = off); cb1(step("read", q, () => read1(fd, buf, off ?? 0, len ?? buf.byteLength, pos)), cb, buf); };
  callbacks.exists = (p, cb) => { const q = P(p); step("access", q, () => disk.exists(q)).then((v) => cb(v)); };
  // ---- sync API
  const tornCopy = (a, b) => { try { const d = disk.get(a).data; const { node } = disk.openNode(b, "w", 0o644); disk.writeNode(node, d.subarray(0, sim.int("fs:torn", 0, d.length)), 0); } catch { /* nothing written */ } };
  // fsFaultSync may also crash the process: its later calls have no effect
  const syncStep = (op, p, effect, partial) => { if (!proc.alive) throw new ProcExit(0); const f = proc.opts.fsFaultSync?.(op, p, !!partial); if (!proc.alive) { partial?.(); throw new ProcExit(0); } if (f) partial?.(); if (f) { sim.fault(`fs:${f}:${op}`); throw fsError(f, op, p); } return effect(); };
  const sync = {
    existsSync: (p) => { try { return disk.exists(P(p)); } catch { return false; } },
    readFileSync: (p, o) => { if (typeof p === "number") { const d = Buffer.from(fdOf(p, "read").node.data); return enc(o) ? d.toString(enc(o)) : d; } const q = P(p); return syncStep("open", q, () => { const d = Buffer.from(disk.read(q)); return enc(o) ? d.toString(enc(o)) : d; }); },
    writeFileSync: (p, data, o) => { if (typeof p === "number") { write1(p, toBuf(data, o), null); return; } const q = P(p); syncStep("open", q, () => { const fd = open1(q, o?.flag ?? "w", o?.mode); try { write1(fd, toBuf(data, o), null); } finally { close1(fd); } }, () => { if (o?.flag && o.flag !== "w") return; try { const fd = open1(q, "w", o?.mode); const b = toBuf(data, o); try { write1(fd, b.subarray(0, sim.int("fs:torn", 0, b.length)), null); } finally { close1(fd); } } catch { /* nothing written */ } }); },
    appendFileSync: (p, data, o) => { const q = P(p); syncStep("open", q, () => { const fd = open1(q, "a", o?.mode); try { write1(fd, toBuf(data, o), null); } finally { close1(fd); } }); },
    mkdirSync: (p, o) => { const q = P(p); return syncStep("mkdir", q, () => disk.mkdir(q, typeof o === "number" ? { mode: o } : o ?? {})); },
    rmdirSync: (p) => { const q = P(p); syncStep("rmdir", q, () => disk.rmdir(q)); },
    rmSync: (p, o = {}) => { if (!proc.alive) throw new ProcExit(0); const q = P(p); const rec = (x) => { const n = disk.walk(x, { follow: false, syscall: "rm" }).node; const bad = n && proc.opts.rmFault?.(x); if (bad) { sim.fault(`fs-${bad}`); throw fsError(bad, "rm", x); } if (!n) { if (o.force) return; throw fsError("ENOENT", "rm", x); } if (n.type === "dir") { if (!o.recursive) throw Object.assign(new Error(`Path is a directory: rm returned EISDIR (is a directory) ${x}`), { code: "ERR_FS_EISDIR" }); for (const k of disk.list(x)) rec(path.posix.join(x, k)); disk.rmdir(x); } else disk.unlink(x); }; try { rec(q); } catch (e) { if (!(o.force && e.code === "ENOENT")) throw e; } },
    unlinkSync: (p) => { const q = P(p); syncStep("unlink", q, () => disk.unlink(q)); },
    renameSync: (a, b) => { const x = P(a), y = P(b); syncStep("rename", x, () => disk.rename(x, y)); },
    statSync: (p, o) => { const q = P(p); try { return disk.stat(q); } catch (e) { if (o?.throwIfNoEntry === false && e.code === "ENOENT") return undefined; throw e; } },
    lstatSync: (p, o) => { const q = P(p); try { return disk.stat(q, false, "lstat"); } catch (e) { if (o?.throwIfNoEntry === false && e.code === "ENOENT") return undefined; throw e; } },
    readdirSync: (p, o) => readdirSync1(P(p), o),
    realpathSync: Object.assign((p) => { const q = P(p); const w = disk.walk(q, { syscall: "realpath" }); if (!w.node) throw fsError("ENOENT", "realpath", q); return w.real; }, {}),
    readlinkSync: (p) => { const n = disk.get(P(p), "readlink", false); if (n.type !== "symlink") throw fsError("EINVAL", "readlink", p); return n.target; },
    symlinkSync: (t, p) => { const w = disk.walk(P(p), { follow: false }); w.parent.children.set(w.name, { type: "symlink", target: String(t), mode: 0o777, ino: disk.ino++, mtimeMs: disk.t(), birthtimeMs: disk.t() }); },
    chmodSync: (p, m) => { disk.get(P(p), "chmod").mode = typeof m === "string" ? parseInt(m, 8) : m; },
    accessSync: (p) => { disk.get(P(p), "access"); },
    copyFileSync: (a, b, m = 0) => syncStep("copyfile", P(a), () => copy1(P(a), P(b), m), () => tornCopy(P(a), P(b))),
    cpSync: (a, b, o = {}) => {
      const rec = (x, y) => {
        if (o.filter && !o.filter(x, y)) return;
        const n = disk.get(x, "cp");
        if (n.type !== "dir") { if (disk.exists(y) && o.force === false) { if (o.errorOnExist) throw fsError("EEXIST", "cp", y); return; } disk.mkdir(path.posix.dirname(y), { recursive: true }); syncStep("copyfile", x, () => copy1(x, y, 0), () => tornCopy(x, y)); return; }
        if (!o.recursive) throw Object.assign(new Error(`Recursive option not enabled, cannot copy a directory: ${x}`), { code: "ERR_FS_EISDIR" });
        syncStep("mkdir", y, () => disk.mkdir(y, { recursive: true })); for (const k of disk.list(x)) rec(path.posix.join(x, k), path.posix.join(y, k));
      };
      rec(P(a), P(b));
    },
    mkdtempSync: (prefix) => mkdtemp1(P(prefix)),
    utimesSync: (p, a, m) => { disk.get(P(p), "utime").mtimeMs = toMs(m); },
    openSync: (p, flags, mode) => { const q = P(p); return syncStep("open", q, () => open1(q, flags, mode)); },
    closeSync: (fd) => close1(fd),
    writeSync: (fd, buf, off, len, pos) => (typeof buf === "string" ? write1(fd, Buffer.from(buf), off) : write1(fd, toBuf(buf).subarray(off ?? 0, (off ?? 0) + (len ?? buf.length - (off ?? 0))), pos)),
    readSync: (fd, buf, off = 0, len = buf.byteLength, pos = null) => read1(fd, buf, off, len, pos),
    fstatSync: (fd) => mkStats(fdOf(fd, "fstat").node), fsyncSync() {}, lchownSync() {}, chownSync() {}, fchownSync() {}, futimesSync() {}, fchmodSync() {}, ftruncateSync: (fd, len = 0) => { const n = fdOf(fd).node; n.data = Buffer.from(n.data.subarray(0, len)); },
  };
  const streamFs = { open: callbacks.open, read: callbacks.read, write: callbacks.write, writev: callbacks.writev, close: callbacks.close };
  const opt = (o) => (typeof o === "string" ? { encoding: o } : o ?? {});
  const { writev, ...noV } = streamFs;
  const fs = {
    ...callbacks, ...sync, promises, constants: C, F_OK: C.F_OK, R_OK: C.R_OK, W_OK: C.W_OK, X_OK: C.X_OK,
    createWriteStream: (p, o) => realFs.createWriteStream(P(p), { ...opt(o), fs: streamFs }),
    createReadStream: (p, o) => realFs.createReadStream(P(p), { ...opt(o), fs: { open: callbacks.open, read: callbacks.read, close: callbacks.close } }),
    ReadStream: realFs.ReadStream, WriteStream: realFs.WriteStream, Stats: realFs.Stats, Dirent: realFs.Dirent,
    watch: () => { throw new Error("simulator: no fs.watch"); },
  };
  fs.realpath.native = fs.realpath; fs.default = fs;
  proc._fs = { fs, promises };
  return proc._fs;
};
const toMs = (v) => (v instanceof Date ? v.getTime() : typeof v === "number" ? v * 1000 : Number(v) * 1000);
export const fsModules = {
  fs: (proc) => fsOf(proc).fs,
  "fs/promises": (proc) => fsOf(proc).promises,
};
