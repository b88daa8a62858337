/** O04: a downloaded helper is only ever installed whole and verified. */
import { Worker } from "node:worker_threads";
import { createRequire, syncBuiltinESMExports } from "node:module";
import { createServer } from "node:http";
import { mkdtempSync, rmSync, readdirSync, readFileSync, statSync } from "node:fs";
import { tmpdir } from "node:os";
import path from "node:path";
import { fileURLToPath } from "node:url";
import { defineCheck, type Ctx } from "../lib/check.ts";
import { imp, REPO } from "../lib/repo.ts";
import { Unhandled } from "../lib/fakeffmpeg.ts";
import { installVfs, Vfs, ROOT, errno, type Prim, type Inode } from "../lib/vfs.ts";
import { ASSET, SIDE, FINE, fakeFetch, published, sha, type Net } from "../lib/o04net.ts";

const cp = createRequire(import.meta.url)("node:child_process") as Record<string, unknown>;
const realSpawn = cp.spawn as typeof import("node:child_process").spawn;
let vfs = new Vfs();
let net: Net = FINE;
let spawnSync: (file: string, args: string[]) => unknown = () => ({ status: 1 });
installVfs((p) => vfs.do(p));
cp.spawnSync = (f: string, a: string[]) => spawnSync(f, a);
syncBuiltinESMExports();
globalThis.fetch = fakeFetch(() => net);
const G = await imp("render/helper-acquire.ts"), U = await imp("render/icu-helper-acquire.ts");
const unhandled = new Unhandled();
const DIR = `${ROOT}/c/d`;

interface Target { n: string; run: () => Promise<unknown>; raw: () => Promise<unknown>; sync: () => string | undefined; reset: () => void; /** file → the bytes it must hold */ files: Map<string, Buffer>; exe: string; platform: string; names: string[] }
function target(n: string, platform: string): Target {
  const o = { platform, arch: "x64", version: "1", cacheDir: DIR };
  if (n === "glyph") {
    const asset = G.assetNameFor(platform, "x64") as string, exe = `${DIR}/${asset}`;
    return { n: `glyph ${platform}`, run: () => G.acquireGlyphHelper(o), raw: () => G.downloadAndInstall(`https://h/${asset}`, `https://h/${asset}.sha256`, exe), sync: () => G.acquireGlyphHelperSync(o), reset: () => G.__resetAcquireState(), files: new Map([[exe, published(asset)]]), exe, platform, names: [asset] };
  }
  const t = U.resolveIcuCompanionTarget(o) as { executableAsset: string; dataAsset: string; executablePath: string; dataPath: string; runtimeAssets: Array<{ asset: string; path: string }> };
  const files = new Map([[t.executablePath, published(t.executableAsset)], [t.dataPath, published(t.dataAsset)], ...t.runtimeAssets.map((r): [string, Buffer] => [r.path, published(r.asset)])]);
  return { n: `icu ${platform}`, run: () => U.acquireIcuCompanion(o), raw: () => U.downloadIcuCompanion(t), sync: () => U.acquireIcuCompanionSync(o), reset: () => U.__resetIcuAcquireState(), files, exe: t.executablePath, platform, names: [t.executableAsset, t.dataAsset, ...t.runtimeAssets.map((r) => r.asset)] };
}
/** what is wrong with this disk, as any process would find it */
function torn(v: Vfs, t: Target): string | null {
  for (const [f, want] of t.files) {
    const i = v.files.get(f);
    if (i == null) continue;
    if (!i.data.equals(want)) return `${path.basename(f)} is there with ${i.data.length} of ${want.length} bytes${i.data.length >= want.length ? ", other ones" : ""}`;
    if (f === t.exe && (i.mode & 0o111) === 0) return `${path.basename(f)} is there but not executable`;
  }
  if (v.files.has(t.exe)) for (const f of t.files.keys()) if (!v.files.has(f)) return `${path.basename(t.exe)} is there without ${path.basename(f)}`;
  return null;
}
const whole = (v: Vfs, t: Target): boolean => torn(v, t) == null && v.files.has(t.exe);
const litter = (v: Vfs, t: Target): string[] => [...v.files.keys()].filter((f) => !t.files.has(f));
const STARTS: Array<[string, (v: Vfs, t: Target) => void]> = [
  ["empty", () => {}],
  ["folder", (v) => { v.dirs.add(`${ROOT}/c`); v.dirs.add(DIR); }],
  ["leftovers of a dead process", (v, t) => { v.dirs.add(`${ROOT}/c`); v.dirs.add(DIR); for (const f of t.files.keys()) v.files.set(`${f}.tmp-${process.pid}`, { id: 900 + v.files.size, data: Buffer.from("half"), synced: null, mode: 0o600 }); }],
  ["data only", (v, t) => { v.dirs.add(`${ROOT}/c`); v.dirs.add(DIR); for (const [f, d] of t.files) if (f !== t.exe) v.files.set(f, { id: 950 + v.files.size, data: d, synced: d, mode: 0o644 }); }],
];
async function attempt(v: Vfs, f: () => Promise<unknown>): Promise<string> {
  vfs = v;
  const r = await f().then((x) => String(x), (e: unknown) => `rejects: ${String((e as Error).message ?? e)}`);
  vfs = new Vfs();
  return r;
}
const good = (r: string): boolean => r === "true" || r.startsWith(ROOT);

async function single(ctx: Ctx, t: Target, mine: () => boolean): Promise<void> {
  for (const [sn, start] of STARTS) for (const raw of [false, true]) {
    const name = `${t.n}${raw ? " direct" : ""} | ${sn}`;
    const call = raw ? t.raw : t.run;
    const fresh = (): Vfs => { const v = new Vfs(); start(v, t); return v; };
    const bad = (key: string, what: string, replay: unknown): void => ctx.fail(`${name} | ${key}`, `${name} | ${key}: ${what}`, { name, key, replay });
    const recover = async (v: Vfs, key: string): Promise<void> => {
      const r = await attempt(v, call);
      ctx.step(v.count);
      if (!good(r) || !whole(v, t)) bad(key, `the next install ends with ${r}, ${torn(v, t) ?? "helper absent"}`, { log: v.log });
    };
    // ---- no fault: every crash point, every disk a power loss leaves ----
    const v0 = fresh();
    const base: Map<string, Inode> = new Map(v0.files);
    const crashes: Array<[string, Vfs]> = [];
    v0.before = (p, n) => { ctx.state(`${name}|${v0.text()}|${p.op}`); ctx.step(); crashes.push([`crash before step ${n} ${p.op}`, v0.fork()]); };
    v0.after = (p, n) => { for (const d of v0.powerLoss(base)) crashes.push([`power lost after step ${n} ${p.op}`, d]); };
    const had = new Set(v0.files.keys());
    const r0 = await attempt(v0, call);
    ctx.trace();
    if (!good(r0) || !whole(v0, t)) bad("no fault", `ends with ${r0}, ${torn(v0, t) ?? "helper absent"}`, { log: v0.log });
    for (const f of litter(v0, t)) if (!had.has(f)) bad("no fault", `leaves ${path.basename(f)}`, { log: v0.log });
    if (sn === "empty" && !raw) {
      const again = await attempt(v0, call);
      if (!good(again)) bad("no fault", `a second call ends with ${again}`, {});
    }
    const seen = new Set<string>();
    for (const [k, d] of crashes) {
      const w = torn(d, t);
      if (w != null) bad(k, w, { log: v0.log });
      const id = [...d.files].map(([f, i]) => `${f.replace(/tmp.*/, "tmp")} ${i.data.toString("hex")} ${i.mode}`).sort().join("|") + [...d.dirs].join();
      if (seen.has(id) || !mine()) continue;
      seen.add(id);
      ctx.trace();
      // a restart, itself cut off at every step, and the one after that
      const probe = d.fork();
      const cuts: Vfs[] = [];
      probe.before = () => { cuts.push(probe.fork()); };
      vfs = probe;
      await recover(probe, `${k}, restart`);
      for (const x of cuts) { const w2 = torn(x, t); if (w2 != null) bad(`${k}, second crash`, w2, { log: probe.log }); if (ctx.thorough) await recover(x, `${k}, second crash, restart`); }
    }
    // ---- one or two failing steps, or everything failing from one on ----
    const steps = v0.log.length;
    const codes = ["ENOSPC", "EACCES", "EPERM", "EEXIST"];
    const plans: Array<{ n: string; hit: (i: number, p: Prim) => string | null }> = [];
    for (let i = 0; i < steps; i++) {
      for (const c of codes) plans.push({ n: `step ${i} fails ${c}`, hit: (k) => (k === i ? c : null) });
      plans.push({ n: `step ${i} writes half`, hit: (k, p) => (k === i && p.op === "write" ? "short" : null) });
      plans.push({ n: `all fail from step ${i}`, hit: (k) => (k >= i ? "EROFS" : null) });
      for (let j = i + 1; j < steps + 3; j++) if (ctx.thorough || !raw) plans.push({ n: `steps ${i} and ${j} fail`, hit: (k) => (k === i ? "ENOSPC" : k === j ? "EIO" : null) });
    }
    for (const plan of plans) {
      if (!mine()) continue;
      const v = fresh();
      const before = new Set(v.files.keys());
      let cleanupHit = false, closeHit = false, hits = 0;
      v.before = (p, n) => {
        const c = plan.hit(n, p);
        if (c == null) return;
        hits++;
        if (p.op === "close") closeHit = true;
        if (hits > 1) cleanupHit = true;
        if (c === "short") return "short";
        throw errno(c, p.op, "path" in p ? p.path : undefined);
      };
      v.after = () => { const w = torn(v, t); if (w != null) bad(plan.n, w, { log: v.log }); };
      const r = await attempt(v, call);
      ctx.trace(); ctx.step(v.count);
      ctx.outcome(`${t.n} ${good(r)} ${v.text()}`);
      const w = torn(v, t);
      if (w != null) bad(plan.n, w, { log: v.log });
      else if (good(r) && !whole(v, t)) bad(plan.n, `reports ${r} but the helper is absent`, { log: v.log });
      if (!raw && !good(r) && r !== "null") bad(plan.n, `ends with ${r}`, { log: v.log });
      if (raw && !good(r) && r !== "false" && !r.startsWith("rejects")) bad(plan.n, `ends with ${r}`, { log: v.log });
      if (!good(r) && !cleanupHit) for (const f of litter(v, t)) if (!before.has(f)) bad(plan.n, `fails and leaves ${path.basename(f).replace(/tmp.*/, "tmp…")} (${v.files.get(f)!.data.length} bytes)`, { log: v.log });
      if (v.fds.size > 0 && !closeHit) bad(plan.n, "leaves a file open", { log: v.log });
      v.before = null; v.after = null;
      await recover(v, `${plan.n}, restart`);
    }
  }
  // ---- the network ----
  for (const raw of [false, true]) for (const which of t.names) for (const a of ASSET) for (const s of SIDE) for (const [assetLag, sideLag] of [[0, 0], [3, 0], [0, 3]]) {
    if (!mine()) continue;
    net = { asset: a, side: s, which, assetLag, sideLag };
    const key = `${t.n}${raw ? " direct" : ""} | ${which}: body ${a}, checksum ${s} (${assetLag}/${sideLag})`;
    const v = new Vfs();
    const r = await attempt(v, raw ? t.raw : t.run);
    net = FINE;
    await new Promise((q) => setImmediate(q));
    ctx.trace(); ctx.step(v.count + 2); ctx.state(key);
    const bad = (what: string): void => ctx.fail(key, `${key}: ${what}`, { a, s, which, assetLag, sideLag });
    const genuine = ["upper", "bare", "ok"].includes(s) && a === "ok" || (a === "ok" && s === "of the bad body");
    if (genuine && (!good(r) || !whole(v, t))) bad(`ends with ${r}`);
    // a body whose own checksum is what is published is the published body
    const vouched = !["404", "500", "reject", "cut"].includes(a) && (s === "of the bad body" || (s === "of empty" && a === "empty"));
    if (!genuine && !vouched) {
      if (good(r)) bad(`is accepted`);
      if (v.files.size > 0 && (t.names.length === 1 || !whole(v, t)) && (litter(v, t).length > 0 || torn(v, t) != null || v.files.has(t.exe))) bad(`leaves ${v.text()}`);
      if (!raw && r !== "null") bad(`ends with ${r}`);
    }
    const un = unhandled.take();
    if (un.length > 0) bad(`ends the process: ${un[0]}`);
  }
}

// ---- two installers at once, every interleaving up to commuting steps ----
class Proc {
  ctl = new SharedArrayBuffer(16); buf = new SharedArrayBuffer(8192);
  c = new Int32Array(this.ctl); b = Buffer.from(this.buf);
  w: Worker;
  pending: Prim | null = null;
  result: string | null = null;
  dead = false;
  constructor() { this.c[0] = 1; this.w = new Worker(fileURLToPath(new URL("../lib/o04worker.ts", import.meta.url)), { workerData: { ctl: this.ctl, buf: this.buf }, execArgv: process.execArgv.filter((a) => !a.startsWith("--max-old")) }); this.w.on("error", (e) => { throw e; }); }
  /** wait until it asks for a step or finishes */
  async settle(): Promise<void> {
    for (let i = 0; Atomics.load(this.c, 0) === 1; i++) { if (i > 12_000) throw new Error("installer thread stuck"); await new Promise((r) => setTimeout(r, 5)); }
    const text = this.b.toString("utf8", 0, this.c[1]);
    if (this.c[2] === 1) this.pending = JSON.parse(text) as Prim; else { this.pending = null; this.result = text; }
  }
  settleSync(): void {
    while (Atomics.load(this.c, 0) === 1) if (Atomics.wait(this.c, 0, 1, 60_000) === "timed-out") throw new Error("installer thread stuck");
    const text = this.b.toString("utf8", 0, this.c[1]);
    if (this.c[2] === 1) this.pending = JSON.parse(text) as Prim; else { this.pending = null; this.result = text; }
  }
  reply(text: string): void { this.c[1] = this.b.write(text); this.pending = null; this.result = null; Atomics.store(this.c, 0, 1); Atomics.notify(this.c, 0); }
}
const limit = Infinity;
interface Foot { keys: string[]; write: boolean }
const dependent = (a: Foot, b: Foot): boolean => (a.write || b.write) && a.keys.some((k) => b.keys.includes(k));
async function race(ctx: Ctx, t: Target, mine: () => boolean): Promise<void> {
  const P = [new Proc(), new Proc()];
  for (const p of P) await p.settle();
  const kind = t.n.split(" ")[0];
  try {
    for (const samePid of [true, false]) for (const mayKill of [false, true]) {
      if (!mine()) continue;
      const name = `${t.n} twice, ${samePid ? "one process id" : "two process ids"}${mayKill ? ", one killed" : ""}`;
      // depth-first over choice sequences; sleep sets prune orders of commuting steps
      interface Node { choice: number; opts: Map<number, Foot>; sleep: Map<number, Foot> }
      const stack: Node[] = [];
      const serve = (p: Proc, v: Vfs): void => { let out: string; try { out = JSON.stringify({ v: v.do(p.pending!) }); } catch (e) { out = JSON.stringify({ e: (e as { code?: string }).code ?? "EIO" }); } p.reply(out); };
      for (let runs = 0, more = true; more; runs++) {
        const v = new Vfs(), trail: string[] = [];
        for (const [i, p] of P.entries()) { p.dead = false; p.reply(JSON.stringify({ what: kind, pid: samePid ? 77 : 77 + i, platform: t.platform })); }
        let pruned = false, killed = false, sleep = new Map<number, Foot>();
        for (let depth = 0; ; depth++) {
          for (const p of P) if (p.pending == null && p.result == null) p.settleSync();
          // choices: 0 and 1 step that installer; 2 kills installer 0 for good
          const opts = new Map<number, Foot>();
          for (const [i, p] of P.entries()) if (p.pending != null && !p.dead) { const f = v.footprint(p.pending); opts.set(i, { keys: [...f.keys, `proc${i}`], write: f.write }); }
          if (mayKill && !killed && opts.has(0)) opts.set(2, { keys: ["proc0"], write: true });
          if (opts.size === 0) break;
          if (depth === stack.length) {
            const awake = [...opts.keys()].filter((i) => !sleep.has(i));
            if (awake.length === 0) { pruned = true; break; }
            stack.push({ choice: awake[0], opts, sleep });
          }
          const node = stack[depth], ch = node.choice, foot = node.opts.get(ch)!;
          sleep = new Map([...node.sleep].filter(([i, f]) => i !== ch && !dependent(f, foot)));
          ctx.state(`${name}|${v.text()}|${P.map((p) => p.pending?.op ?? p.result).join()}${killed}`);
          ctx.step();
          if (ch === 2) { killed = true; P[0].dead = true; trail.push("kill 0"); continue; }
          if (P[ch].pending == null) throw new Error(`schedule does not replay: ${name} ${trail.join(" ")} then ${ch}, which says ${P[ch].result}; stack ${stack.map((x) => x.choice).join("")}`);
          trail.push(`${ch}:${P[ch].pending!.op}`);
          serve(P[ch], v);
          const w = torn(v, t);
          if (w != null) ctx.fail(`${name} | ${w}`, `${name}: ${w} after ${trail.join(" ")}`, { trail });
        }
        if (pruned) ctx.count("pruned_schedules"); else {
          ctx.trace();
          for (const [i, p] of P.entries()) if (!p.dead && (!good(p.result ?? "") || !whole(v, t))) ctx.fail(`${name} | installer ${i}`, `${name}: installer ${i} ends with ${p.result}, ${torn(v, t) ?? (whole(v, t) ? "installed" : "absent")}: ${trail.join(" ")}`, { trail });
          if (!killed && litter(v, t).length > 0) ctx.fail(`${name} | litter`, `${name}: leaves ${v.text()}: ${trail.join(" ")}`, { trail });
        }
        // let whatever is pending run to its end on a disk nobody looks at
        for (const p of P) while (p.result == null) { if (p.pending == null) p.settleSync(); else serve(p, v); }
        more = false;
        while (stack.length > 0) {
          const top = stack[stack.length - 1];
          top.sleep.set(top.choice, top.opts.get(top.choice)!);
          const next = [...top.opts.keys()].find((i) => !top.sleep.has(i));
          if (next != null) { top.choice = next; more = true; break; }
          stack.pop();
        }
        if (more && runs > limit) { ctx.note("race_limit", `${name}: stopped after ${runs}`); break; }
      }
    }
  } finally { for (const p of P) void p.w.terminate(); }
}

// ---- the blocking form: at most one attempt per process, never an exception ----
type Env = "nothing" | "another process installs" | "the files vanish" | "one file vanishes" | "the last file vanishes";
type End = "installs" | "exit 1" | "exit 0 without a file" | "killed by the timeout" | "killed after installing" | "cannot start";
const ENVS: Env[] = ["nothing", "another process installs", "the files vanish", "one file vanishes", "the last file vanishes"], ENDS: End[] = ["installs", "exit 1", "exit 0 without a file", "killed by the timeout", "killed after installing", "cannot start"];
function blocking(ctx: Ctx, t: Target, mine: () => boolean): void {
  const install = (v: Vfs): void => { v.dirs.add(`${ROOT}/c`); v.dirs.add(DIR); for (const [f, d] of t.files) v.files.set(f, { id: 1, data: d, synced: d, mode: 0o755 }); };
  const env = (v: Vfs, e: Env): void => { if (e === "another process installs") install(v); else if (e === "the files vanish") v.files.clear(); else if (e === "one file vanishes") v.files.delete([...t.files.keys()][Math.min(1, t.files.size - 1)]); else if (e === "the last file vanishes") v.files.delete([...t.files.keys()].at(-1)!); };
  for (const end1 of ENDS) for (const end2 of ENDS) for (const e0 of ENVS) for (const e1 of ENVS) for (const e2 of ENVS) {
    if (!mine()) continue;
    const key = `${t.n} sync | ${e0}, ${end1}, ${e1}, ${end2}, ${e2}`;
    const bad = (what: string): void => ctx.fail(key, `${key}: ${what}`, { e0, end1, e1, end2, e2 });
    t.reset();
    const v = new Vfs();
    let tries = 0, failures = 0, warnings = 0;
    const ends = [end1, end2];
    spawnSync = (file, args) => {
      const end = ends[Math.min(tries++, 1)];
      if (file !== process.execPath || !args.some((a) => /helper-acquire\.[tj]s$/.test(a))) bad(`starts ${file} ${args.join(" ")}`);
      const told = args.join(" ");
      if (!told.includes(DIR) || !t.names.every((n) => told.includes(n))) bad(`the worker is not told what to install: ${told}`);
      if (end === "installs" || end === "killed after installing") install(v);
      if (end !== "installs") failures++;
      switch (end) {
        case "installs": case "exit 0 without a file": return { status: 0, signal: null };
        case "exit 1": return { status: 1, signal: null };
        case "cannot start": return { status: null, signal: null, error: errno("ENOENT", "spawnSync node") };
        default: return { status: null, signal: "SIGTERM", error: errno("ETIMEDOUT", "spawnSync node") };
      }
    };
    const write = process.stderr.write;
    process.stderr.write = ((s: string) => { if (/WARNING/.test(s)) warnings++; return true; }) as never;
    try {
      for (const [i, e] of [e0, e1, e2].entries()) {
        env(v, e);
        vfs = v;
        const triesBefore = tries;
        let r: string | undefined;
        try { r = t.sync(); } catch (x) { bad(`call ${i} throws ${String(x)}`); break; }
        ctx.step(); ctx.state(`${t.n} ${i} ${r != null} ${whole(v, t)} ${tries} ${failures}`);
        if (r != null && (r !== t.exe || !whole(v, t))) bad(`call ${i} returns ${r}, which is not installed`);
        if (r == null && whole(v, t) && tries === triesBefore) bad(`call ${i} finds no helper although it is installed`);
        if (r == null && tries > triesBefore && ends[Math.min(tries - 1, 1)] === "installs") bad(`call ${i} installs it and does not use it`);
      }
    } finally { process.stderr.write = write; vfs = new Vfs(); }
    if (failures > 1) bad(`tries ${tries} times after a failure`);
    if (warnings > 1) bad(`warns ${warnings} times`);
    if (failures > 0 && warnings === 0) bad("degrades without a warning");
    ctx.trace();
  }
  spawnSync = () => ({ status: 1 });
}

// ---- the worker process for real: a real server, killed at each stage of the transfer ----
async function children(ctx: Ctx): Promise<void> {
  const dir = mkdtempSync(path.join(tmpdir(), "o04-"));
  const big = Buffer.alloc(3_000_000, "helper ");
  type Stage = "none" | "request" | "headers" | "half" | "checksum" | "end";
  let stage: Stage = "none", mode = "ok", strike = (): void => {};
  const server = createServer((q, res) => {
    const side = q.url!.endsWith(".sha256");
    if (stage === "request") strike();
    if (side) { if (stage === "checksum") strike(); setTimeout(() => res.end(mode === "wrong" ? `${sha(Buffer.from("x"))}  a` : `${sha(big)}  a\n`), 20); return; }
    if (mode === "404") { res.writeHead(404).end("no"); return; }
    res.writeHead(200, { "content-length": big.length });
    res.flushHeaders();
    if (stage === "headers") strike();
    res.write(big.subarray(0, big.length >> 1), () => {
      if (stage === "half") strike();
      if (mode === "cut") { res.destroy(); return; }
      res.end(big.subarray(big.length >> 1), () => { if (stage === "end") strike(); });
    });
  });
  await new Promise<void>((r) => server.listen(0, "127.0.0.1", r));
  const base = `http://127.0.0.1:${(server.address() as { port: number }).port}/a`;
  try {
    let k = 0;
    for (const [m, s] of [["ok", "none"], ["wrong", "none"], ["404", "none"], ["cut", "none"], ["ok", "request"], ["ok", "headers"], ["ok", "half"], ["ok", "checksum"], ["ok", "end"]] as Array<[string, Stage]>) {
      const sub = path.join(dir, String(k++)), dest = path.join(sub, "deep", "helper");
      mode = m; stage = s;
      const runChild = (): Promise<number | null> => new Promise((resolve) => {
        const ch = realSpawn(process.execPath, [...process.execArgv.filter((a) => !a.startsWith("--max-old")), path.join(REPO, "src/render/helper-acquire.ts"), dest, base, `${base}.sha256`], { stdio: "ignore" });
        strike = () => { ch.kill("SIGKILL"); };
        ch.on("exit", (code) => resolve(code));
      });
      const look = (): string | null => { try { const b = readFileSync(dest); if (!b.equals(big)) return `holds ${b.length} of ${big.length} bytes`; return (statSync(dest).mode & 0o111) !== 0 ? null : "is not executable"; } catch { return "absent"; } };
      const key = `child | server ${m}, killed at ${s}`;
      const code = await runChild(), there = look();
      ctx.trace(); ctx.step(); ctx.state(key);
      const fail = (what: string): void => ctx.fail(key, `${key}: ${what}`, { m, s });
      if (there != null && there !== "absent") fail(`the helper ${there}`);
      if (m === "ok" && s === "none" && (code !== 0 || there != null)) fail(`ends with ${code}, helper ${there}`);
      if (m !== "ok" && (code === 0 || there == null)) fail(`ends with ${code}, helper ${there ?? "installed"}`);
      let left: string[] = [];
      try { left = readdirSync(path.dirname(dest)).filter((f) => f !== "helper"); } catch { /* no folder */ }
      if (s === "none" && left.length > 0) fail(`leaves ${left[0]}`);
      mode = "ok"; stage = "none";
      const again = await runChild();
      if (again !== 0 || look() != null) fail(`the next attempt ends with ${again}, helper ${look()}`);
    }
  } finally { server.closeAllConnections(); server.close(); rmSync(dir, { recursive: true, force: true }); }
}

export default defineCheck({
  spec: {
    id: "O04",
    bounds: "glyph helper and ICU companion (2 and 4 files) from 4 initial caches: a crash before and a power loss after every step and again during the restart, every failing step with 4 errors, half-written writes, pairs of failing steps and all-failing suffixes; 10 bodies × 13 checksums × 3 arrival orders per asset; every interleaving of two installers (one or two process ids, one killed at any step) up to commuting steps; blocking-call histories of length 3; a real worker process killed at 5 stages of a real transfer",
    assumptions: ["the file system is modelled (lib/vfs.ts): renames are atomic, directory operations reach the disk in order, unsynced contents may be cut off by a power loss", "the release server is modelled, except in the real worker runs"],
  },
  shards: 8,
  async run(ctx, sh) {
    let k = 0;
    const mine = (): boolean => k++ % sh.n === sh.i;
    const T = [target("glyph", "linux"), target("icu", "linux"), target("icu", "win32")];
    try {
      if (mine()) await children(ctx);
      for (const t of [...T, target("glyph", "win32")]) { blocking(ctx, t, mine); await single(ctx, t, mine); }
      for (const t of ctx.thorough ? T : T.slice(0, 2)) await race(ctx, t, mine);
    } finally { unhandled.stop(); }
  },
});
