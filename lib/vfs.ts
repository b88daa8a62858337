/**
 * A modelled file system behind node:fs for every path below ROOT. Calls are
 * decomposed into the primitive steps a crash or another process can fall
 * between (a write arrives in two halves); everything else goes to the real fs.
 */
import { createRequire, syncBuiltinESMExports } from "node:module";
export const ROOT = "/vfs-model";
export interface Inode { id: number; data: Buffer; /** what is on the disk for certain */ synced: Buffer | null; mode: number }
export type Prim =
  | { op: "stat" | "unlink" | "readdir" | "rmdir"; path: string }
  | { op: "mkdir"; path: string }
  | { op: "open"; path: string; flags: string; mode: number }
  | { op: "write"; fd: number; data: string }
  | { op: "read" | "fsync" | "close" | "fstat"; fd: number }
  | { op: "truncate"; fd: number; len: number }
  | { op: "chmod"; path: string; mode: number } | { op: "fchmod"; fd: number; mode: number }
  | { op: "rename" | "link"; path: string; to: string };
export const errno = (code: string, op: string, path?: string): Error => Object.assign(new Error(`${code}: ${op}${path != null ? ` '${path}'` : ""}`), { code, syscall: op, path });
/** the state of the disk, and a journal of how it came about */
export class Vfs {
  dirs = new Set<string>(["/", ROOT]);
  files = new Map<string, Inode>();
  fds = new Map<number, { ino: Inode; path: string; pos: number; append: boolean }>();
  private nextFd = 1_000_000;
  private nextIno = 1;
  count = 0;
  /** called before each step; may throw the step's failure, or return "short" for a write that ends half-way */
  before: ((p: Prim, n: number) => void | "short") | null = null;
  after: ((p: Prim, n: number) => void) | null = null;
  /** directory-level history, in order: what a power loss may cut off */
  meta: Array<() => void> = [];
  log: string[] = [];
  parent(p: string): string { return p.slice(0, p.lastIndexOf("/")) || "/"; }
  private name(p: Prim): string { return "path" in p ? p.path : this.fds.get((p as { fd: number }).fd)?.path ?? "?"; }
  /** what the step touches: used to tell which steps commute */
  footprint(p: Prim): { keys: string[]; write: boolean } {
    const path = this.name(p);
    const ino = "fd" in p ? this.fds.get(p.fd)?.ino.id : this.files.get(path)?.id;
    const keys = [path, ...(ino != null ? [`#${ino}`] : [])];
    if (p.op === "rename" || p.op === "link") { keys.push(p.to); const t = this.files.get(p.to); if (t != null) keys.push(`#${t.id}`); }
    if (p.op === "open" && !/[wax]/.test(p.flags)) return { keys, write: false };
    // creating or removing a name changes what readdir/rmdir of the folder sees
    if (p.op === "open" || p.op === "unlink" || p.op === "rename" || p.op === "link") keys.push(`${this.parent(path)}/*`);
    if (p.op === "readdir" || p.op === "rmdir") keys.push(`${path}/*`);
    return { keys, write: !["stat", "fstat", "read", "readdir", "close", "fsync"].includes(p.op) };
  }
  do(p: Prim): unknown {
    const n = this.count++;
    this.log.push(`${p.op} ${this.name(p).replace(/^.*\//, "")}`);
    const mark = this.before?.(p, n);
    const r = this.exec(p, mark === "short");
    this.after?.(p, n);
    return r;
  }
  private exec(p: Prim, short: boolean): unknown {
    const f = (fd: number): { ino: Inode; path: string; pos: number; append: boolean } => { const x = this.fds.get(fd); if (x == null) throw errno("EBADF", p.op); return x; };
    switch (p.op) {
      case "stat": {
        if (this.dirs.has(p.path)) return { dir: true, size: 0, mode: 0o755 };
        const i = this.files.get(p.path);
        if (i == null) throw errno("ENOENT", "stat", p.path);
        return { dir: false, size: i.data.length, mode: i.mode };
      }
      case "fstat": { const x = f(p.fd); return { dir: false, size: x.ino.data.length, mode: x.ino.mode }; }
      case "mkdir": {
        if (this.dirs.has(p.path)) throw errno("EEXIST", "mkdir", p.path);
        if (this.files.has(p.path)) throw errno("EEXIST", "mkdir", p.path);
        if (!this.dirs.has(this.parent(p.path))) throw errno("ENOENT", "mkdir", p.path);
        this.dirs.add(p.path);
        return undefined;
      }
      case "readdir": {
        if (!this.dirs.has(p.path)) throw errno("ENOENT", "scandir", p.path);
        return [...new Set([...this.files.keys(), ...this.dirs].filter((k) => k !== p.path && this.parent(k) === p.path).map((k) => k.slice(p.path.length + 1)))].sort();
      }
      case "rmdir": {
        if (!this.dirs.has(p.path)) throw errno("ENOENT", "rmdir", p.path);
        if ([...this.files.keys(), ...this.dirs].some((k) => k.startsWith(p.path + "/"))) throw errno("ENOTEMPTY", "rmdir", p.path);
        this.dirs.delete(p.path);
        return undefined;
      }
      case "unlink": {
        if (this.dirs.has(p.path)) throw errno("EISDIR", "unlink", p.path);
        if (!this.files.delete(p.path)) throw errno("ENOENT", "unlink", p.path);
        this.meta.push(() => { this.files.delete(p.path); });
        return undefined;
      }
      case "open": {
        let i = this.files.get(p.path);
        if (this.dirs.has(p.path)) { if (/[wa+]/.test(p.flags)) throw errno("EISDIR", "open", p.path); i = { id: -1, data: Buffer.alloc(0), synced: null, mode: 0o755 }; }
        if (i != null && p.flags.includes("x")) throw errno("EEXIST", "open", p.path);
        if (i == null) {
          if (p.flags.startsWith("r")) throw errno("ENOENT", "open", p.path);
          if (!this.dirs.has(this.parent(p.path))) throw errno("ENOENT", "open", p.path);
          const made: Inode = i = { id: this.nextIno++, data: Buffer.alloc(0), synced: null, mode: p.mode & ~0o022 };
          this.files.set(p.path, made);
          this.meta.push(() => { this.files.set(p.path, made); });
        } else if (p.flags.startsWith("w")) { i.data = Buffer.alloc(0); i.synced = null; }
        const fd = this.nextFd++;
        this.fds.set(fd, { ino: i, path: p.path, pos: 0, append: p.flags.startsWith("a") });
        return fd;
      }
      case "write": {
        const x = f(p.fd), whole = Buffer.from(p.data, "base64"), buf = short ? whole.subarray(0, whole.length >> 1) : whole;
        const at = x.append ? x.ino.data.length : x.pos;
        const out = Buffer.alloc(Math.max(x.ino.data.length, at + buf.length));
        x.ino.data.copy(out); buf.copy(out, at);
        x.ino.data = out; x.pos = at + buf.length; x.ino.synced = null;
        if (short) throw errno("ENOSPC", "write", x.path);
        return buf.length;
      }
      case "truncate": { const x = f(p.fd); x.ino.data = x.ino.data.subarray(0, p.len); x.ino.synced = null; return undefined; }
      case "read": { const x = f(p.fd); const r = x.ino.data.subarray(x.pos); x.pos = x.ino.data.length; return r.toString("base64"); }
      case "fsync": { const x = f(p.fd); x.ino.synced = x.ino.data; return undefined; }
      case "close": { f(p.fd); this.fds.delete(p.fd); return undefined; }
      case "chmod": { const i = this.files.get(p.path); if (i == null) { if (this.dirs.has(p.path)) return undefined; throw errno("ENOENT", "chmod", p.path); } i.mode = p.mode; return undefined; }
      case "fchmod": { f(p.fd).ino.mode = p.mode; return undefined; }
      case "link": case "rename": {
        const i = this.files.get(p.path);
        if (i == null) throw errno("ENOENT", p.op, p.path);
        if (!this.dirs.has(this.parent(p.to)) || this.dirs.has(p.to)) throw errno(this.dirs.has(p.to) ? "EISDIR" : "ENOENT", p.op, p.to);
        if (p.op === "link" && this.files.has(p.to)) throw errno("EEXIST", "link", p.to);
        const apply = (): void => { this.files.set(p.to, i); if (p.op === "rename") this.files.delete(p.path); };
        apply();
        this.meta.push(apply);
        return undefined;
      }
    }
  }
  /** the same disk, as another machine would find it */
  fork(): Vfs {
    const v = new Vfs();
    v.dirs = new Set(this.dirs);
    const twins = new Map<Inode, Inode>();
    for (const [k, i] of this.files) { if (!twins.has(i)) twins.set(i, { ...i }); v.files.set(k, twins.get(i)!); }
    v.nextIno = this.nextIno;
    return v;
  }
  /**
   * every disk a power failure now may leave: any prefix of the directory
   * history survived, and unsynced contents are whole, half or empty.
   */
  *powerLoss(base: Map<string, Inode>): Generator<Vfs> {
    const keep = this.files;
    for (let n = 0; n <= this.meta.length; n++) for (const cut of [0, 0.5, 1]) {
      this.files = new Map(base);
      for (const m of this.meta.slice(0, n)) m();
      const v = this.fork();
      for (const i of v.files.values()) if (i.synced == null) i.data = i.data.subarray(0, Math.floor(i.data.length * cut));
      this.files = keep;
      yield v;
    }
  }
  text(): string { return [...this.files].map(([k, i]) => `${k.slice(ROOT.length)}=${i.data.length}${i.mode & 0o111 ? "x" : ""}`).sort().join(" ").replace(/tmp[^= ]*/g, "tmp"); }
}
type Do = (p: Prim) => unknown;
/** route node:fs for ROOT to `step` */
export function installVfs(step: Do): void {
  const req = createRequire(import.meta.url);
  const fs = req("node:fs") as Record<string, (...a: unknown[]) => unknown> & { promises: Record<string, (...a: unknown[]) => unknown> };
  const real = { ...fs };
  const mine = (p: unknown): boolean => { const s = p instanceof URL ? p.pathname : String(p); return s === ROOT || s.startsWith(ROOT + "/"); };
  const norm = (p: unknown): string => { const s = p instanceof URL ? p.pathname : String(p); return s.length > 1 ? s.replace(/\/+$/, "") : s; };
  const modeOf = (o: unknown, d: number): number => (typeof o === "number" ? o : (o as { mode?: number } | null)?.mode ?? d);
  const flagOf = (o: unknown, d: string): string => { const f = (o as { flag?: string; flags?: string } | null)?.flag ?? (o as { flags?: string } | null)?.flags; return f ?? d; };
  const C = fs.constants as unknown as Record<string, number>;
  const flagText = (f: unknown): string => {
    if (typeof f === "string") return f;
    const n = Number(f ?? 0);
    return ((n & 3) === 0 ? "r" : n & C.O_APPEND ? "a" : n & C.O_TRUNC ? "w" : n & C.O_CREAT ? "a" : "r+") + (n & C.O_EXCL ? "x" : "");
  };
  const bytes = (d: unknown, enc?: unknown): Buffer => (typeof d === "string" ? Buffer.from(d, typeof enc === "string" ? (enc as BufferEncoding) : "utf8") : Buffer.from((d as Uint8Array).buffer, (d as Uint8Array).byteOffset, (d as Uint8Array).byteLength));
  const stats = (s: { dir: boolean; size: number; mode: number }): unknown => ({ ...s, isFile: () => !s.dir, isDirectory: () => s.dir, isSymbolicLink: () => false, mtimeMs: 0 });
  const put = (fd: number, b: Buffer): void => { if (b.length === 0) return; const h = b.length >> 1; if (h > 0) step({ op: "write", fd, data: b.subarray(0, h).toString("base64") }); step({ op: "write", fd, data: b.subarray(h).toString("base64") }); };
  const isFd = (x: unknown): x is number => typeof x === "number" && x >= 1_000_000;
  const S: Record<string, (...a: never[]) => unknown> = {
    existsSync: (p: string) => { try { step({ op: "stat", path: norm(p) }); return true; } catch { return false; } },
    accessSync: (p: string) => { step({ op: "stat", path: norm(p) }); },
    statSync: (p: string, o?: { throwIfNoEntry?: boolean }) => { try { return stats(step({ op: "stat", path: norm(p) }) as never); } catch (e) { if (o?.throwIfNoEntry === false) return undefined; throw e; } },
    mkdirSync: (p: string, o?: { recursive?: boolean }) => {
      const path = norm(p);
      if (o?.recursive !== true) return step({ op: "mkdir", path });
      const parts = path.split("/").slice(1);
      for (let i = 1; i <= parts.length; i++) {
        const at = "/" + parts.slice(0, i).join("/");
        if (at.length <= ROOT.length) continue;
        try { step({ op: "mkdir", path: at }); } catch (e) {
          if ((e as { code: string }).code !== "EEXIST") throw e;
          if (!(step({ op: "stat", path: at }) as { dir: boolean }).dir) throw errno(i === parts.length ? "EEXIST" : "ENOTDIR", "mkdir", path);
        }
      }
      return undefined;
    },
    openSync: (p: string, flags: unknown = "r", mode?: number) => step({ op: "open", path: norm(p), flags: flagText(flags), mode: mode ?? 0o666 }),
    writeSync: (fd: number, d: unknown, a?: unknown, len?: number) => {
      const whole = typeof d === "string" ? bytes(d) : bytes(d).subarray(typeof a === "number" ? a : 0, typeof len === "number" ? (typeof a === "number" ? a : 0) + len : undefined);
      put(fd, whole);
      return whole.length;
    },
    writeFileSync: (p: string | number, d: unknown, o?: unknown) => {
      const b = bytes(d, typeof o === "string" ? o : (o as { encoding?: string } | null)?.encoding);
      if (isFd(p)) { put(p, b); return; }
      const fd = step({ op: "open", path: norm(p), flags: flagOf(o, "w"), mode: modeOf(o, 0o666) }) as number;
      try { put(fd, b); if ((o as { flush?: boolean } | null)?.flush === true) step({ op: "fsync", fd }); } finally { step({ op: "close", fd }); }
    },
    appendFileSync: (p: string, d: unknown) => { const fd = step({ op: "open", path: norm(p), flags: "a", mode: 0o666 }) as number; try { put(fd, bytes(d)); } finally { step({ op: "close", fd }); } },
    readFileSync: (p: string | number, o?: unknown) => {
      const fd = isFd(p) ? p : (step({ op: "open", path: norm(p), flags: "r", mode: 0 }) as number);
      const b = Buffer.from(step({ op: "read", fd }) as string, "base64");
      if (!isFd(p)) step({ op: "close", fd });
      const enc = typeof o === "string" ? o : (o as { encoding?: string } | null)?.encoding;
      return enc != null ? b.toString(enc as BufferEncoding) : b;
    },
    fsyncSync: (fd: number) => step({ op: "fsync", fd }), fdatasyncSync: (fd: number) => step({ op: "fsync", fd }), closeSync: (fd: number) => step({ op: "close", fd }),
    ftruncateSync: (fd: number, len = 0) => step({ op: "truncate", fd, len }),
    fstatSync: (fd: number) => stats(step({ op: "fstat", fd }) as never),
    chmodSync: (p: string, m: number) => step({ op: "chmod", path: norm(p), mode: m }), fchmodSync: (fd: number, m: number) => step({ op: "fchmod", fd, mode: m }),
    renameSync: (a: string, b: string) => step({ op: "rename", path: norm(a), to: norm(b) }), linkSync: (a: string, b: string) => step({ op: "link", path: norm(a), to: norm(b) }),
    copyFileSync: (a: string, b: string) => { const d = S.readFileSync(a as never) as Buffer; S.writeFileSync(b as never, d as never); },
    unlinkSync: (p: string) => step({ op: "unlink", path: norm(p) }), rmdirSync: (p: string) => step({ op: "rmdir", path: norm(p) }),
    readdirSync: (p: string) => step({ op: "readdir", path: norm(p) }),
    rmSync: (p: string, o?: { force?: boolean; recursive?: boolean }) => {
      const path = norm(p);
      let s: { dir: boolean };
      try { s = step({ op: "stat", path }) as { dir: boolean }; } catch (e) { if (o?.force === true && (e as { code: string }).code === "ENOENT") return; throw e; }
      try {
        if (!s.dir) step({ op: "unlink", path });
        else { if (o?.recursive !== true) throw errno("ERR_FS_EISDIR", "rm", path); for (const n of step({ op: "readdir", path }) as string[]) S.rmSync(`${path}/${n}` as never, o as never); step({ op: "rmdir", path }); }
      } catch (e) { if (o?.force !== true || (e as { code: string }).code !== "ENOENT") throw e; }
    },
    mkdtempSync: (p: string) => { const path = `${norm(p)}${Math.random().toString(36).slice(2, 8)}`; step({ op: "mkdir", path }); return path; },
    utimesSync: () => undefined,
  };
  for (const [n, fn] of Object.entries(S)) {
    const orig = real[n] as (...a: unknown[]) => unknown;
    fs[n] = (...a: unknown[]) => (mine(a[0]) || isFd(a[0]) ? (fn as (...a: unknown[]) => unknown)(...a) : orig.apply(fs, a));
  }
  const P = fs.promises, realP = { ...P };
  const handle = (fd: number): unknown => ({ fd, writeFile: async (d: unknown) => S.writeFileSync(fd as never, d as never), write: async (d: unknown) => ({ bytesWritten: S.writeSync(fd as never, d as never) }), sync: async () => S.fsyncSync(fd as never), datasync: async () => S.fsyncSync(fd as never), chmod: async (m: number) => S.fchmodSync(fd as never, m as never), close: async () => S.closeSync(fd as never), readFile: async (o: unknown) => S.readFileSync(fd as never, o as never), stat: async () => S.fstatSync(fd as never) });
  for (const n of ["access", "stat", "lstat", "mkdir", "writeFile", "appendFile", "readFile", "chmod", "rename", "link", "copyFile", "unlink", "rmdir", "readdir", "rm", "mkdtemp"]) {
    const fn = S[`${n === "lstat" ? "stat" : n}Sync`] as (...a: unknown[]) => unknown;
    P[n] = async (...a: unknown[]) => (mine(a[0]) ? fn(...a) : realP[n].apply(P, a));
  }
  P.open = async (...a: unknown[]) => (mine(a[0]) ? handle((S.openSync as (...a: unknown[]) => number)(...a)) : realP.open.apply(P, a));
  syncBuiltinESMExports();
}
