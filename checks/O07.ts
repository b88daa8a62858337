/** O07: the glyph helper channel only ever changes how fast an answer comes. */
import { EventEmitter } from "node:events";
import { createRequire, syncBuiltinESMExports } from "node:module";
import { defineCheck, type Ctx } from "../lib/check.ts";
import { imp } from "../lib/repo.ts";
import { turn } from "../lib/fakechrome.ts";
import { Unhandled } from "../lib/fakeffmpeg.ts";

process.env.DOMOTION_HELPER_PATH = "/bin/true";
delete process.env.DOMOTION_DISABLE_HELPER;
delete process.env.DOMOTION_HELPER_NO_SERVE;
const req = createRequire(import.meta.url);
const cp = req("node:child_process") as Record<string, unknown>;
const fs = req("node:fs") as Record<string, (...a: never[]) => unknown>;
const real = { readSync: fs.readSync, writeSync: fs.writeSync, openSync: fs.openSync, closeSync: fs.closeSync, kill: process.kill, now: Date.now };

// ---- the helper: every answer is a function of its question ----
const NAME = "ヒラギノ😀é";
function answer(text: string): string {
  const q = JSON.parse(text) as { queries: Array<Record<string, unknown>>; fonts: Array<{ ref: string; fontPath?: string }> };
  const results = q.queries.map((x) => {
    const font = q.fonts.find((f) => f.ref === x.fontRef)?.fontPath ?? "";
    const seed = [...JSON.stringify(x) + font].reduce((a, c) => (a * 31 + c.codePointAt(0)!) % 9973, 7);
    switch (x.type) {
      case "meta": return { type: "meta", unitsPerEm: 1000, ascent: 800 + (font.length % 7), descent: -200, postscriptName: `${NAME}-${font}` };
      case "glyphs": return { type: "glyphs", glyphs: (x.glyphs as Array<{ cp?: number; id?: number }>).map((g) => ({ id: g.id ?? g.cp! % 60000 + 1, advance: 500 + ((g.cp ?? g.id ?? 0) * 7) % 90, bbox: { x: 0, y: 0, w: 10, h: 10 }, d: `M 0 0 L ${(g.cp ?? g.id ?? 0) % 97} ${font.length} Z` })) };
      case "shape": return { type: "shape", note: NAME, glyphs: [...(x.text as string)].map((c, i) => ({ id: c.codePointAt(0)! % 60000 + 1, cluster: i, ax: 400 + seed % 50, ay: 0, dx: i, dy: 0, d: `M 1 ${seed} L 2 2 Z` })) };
      case "family": return { type: "family", found: true, postscriptName: `${NAME}-${x.name as string}`, familyName: `${x.name as string}・${NAME}`, path: `/フォント/${x.name as string}.ttf` };
      case "familyMatch": return { type: "familyMatch", found: true, postscriptName: `${NAME}-${x.family as string}`, path: `/フォント/${x.family as string}`, index: 0, family: `${x.family as string}${NAME}`, weight: 400, width: 5, italic: false };
      case "fcfallback": return { type: "fcfallback", fonts: (x.cps as number[]).map((c) => ({ cp: c, found: true, path: `/フォント/${c}.ttf`, index: 0, family: NAME })) };
      case "fallback": return { type: "fallback", fonts: (x.cps as number[]).map((c) => ({ cp: c, found: true, postscriptName: `${NAME}${c}`, familyName: NAME, path: `/フォント/${c}` })) };
      default: return { type: x.type, error: "unknown query type" };
    }
  });
  return JSON.stringify({ results });
}

// ---- what may go wrong, once, at one round trip ----
interface Fault {
  n: string;
  /** response byte offsets at which one read ends */
  cuts?: number[];
  /** bytes accepted per write */
  writes?: number;
  again?: number;
  /** dies: having read this share of the question / having written these bytes of the answer */
  dieAsking?: number; dieAnswering?: number;
  eio?: boolean; garbage?: string; hang?: "write" | "read";
  spawn?: "throws" | "no fds" | "negative fds" | "error event"; dieIdle?: boolean;
}
class Child extends EventEmitter {
  alive = true; reaped = false; killed = false;
  pid: number;
  stdin: { fd?: number; unref(): void } | null; stdout: { fd?: number; unref(): void } | null;
  asked = Buffer.alloc(0); out: Buffer = Buffer.alloc(0); sent = 0; written = 0; agains = 0;
  constructor(public inFd: number, public outFd: number, pipe: boolean, fds: "ok" | "none" | "negative") {
    super();
    this.pid = 50_000 + inFd;
    const s = (fd: number): { fd?: number; unref(): void } => ({ ...(fds === "none" ? {} : { fd: fds === "negative" ? -1 : fd }), unref() {} });
    this.stdin = pipe ? null : s(inFd); this.stdout = pipe ? null : s(outFd);
  }
  die(code: number | null, signal: string | null): void {
    if (!this.alive) return;
    this.alive = false;
    void turn(1).then(() => { this.reaped = true; this.emit("exit", code, signal); void turn(1).then(() => this.emit("close", code, signal)); });
  }
  kill(): boolean { this.killed = true; if (!this.alive) return false; this.die(null, "SIGTERM"); return true; }
  ref(): void {} unref(): void {}
}
let children: Child[] = [], trips = 0, faultAt = -1, fault: Fault = { n: "none" }, clock = 0, oneShots = 0, misuse = "", pipeTries = 0, pipeDelay = 0;
const pipes = new Map<number, number>();
const cur = (): Fault | null => (trips === faultAt ? fault : null);
const E = (c: string): Error => Object.assign(new Error(c), { code: c });
cp.spawn = (_bin: string, args: string[]) => {
  const f = cur();
  const pipe = args[0] === "--serve-pipe";
  if (f?.spawn === "throws") { trips++; throw E("EAGAIN"); }
  const base = 2_000_000 + children.length * 2;
  const c = new Child(base, pipe ? base : base + 1, pipe, f?.spawn === "no fds" ? "none" : f?.spawn === "negative fds" ? "negative" : "ok");
  children.push(c);
  pipeTries = 0;
  if (f?.spawn != null) { trips++; if (f.spawn === "error event") { c.alive = false; (c as { pid?: number }).pid = undefined; void turn(1).then(() => { c.reaped = true; c.emit("error", E("ENOENT")); }); } }
  return c;
};
cp.spawnSync = (_bin: string, _args: string[], o: { input: string }) => { oneShots++; return { status: 0, stdout: answer(o.input), stderr: "" }; };
const childOf = (fd: number): Child | null => children.find((c) => c.inFd === fd || c.outFd === fd) ?? null;
fs.writeSync = ((fd: number, b: Buffer | string, off?: number, len?: number) => {
  if (fd < 2_000_000) return (real.writeSync as (...a: unknown[]) => unknown)(fd, b, off, len);
  const c = childOf(fd), f = cur();
  clock += 1;
  if (c == null) throw E("EBADF");
  if (c.reaped) { misuse = "writes to the descriptor of a process that is gone"; throw E("EBADF"); }
  if (f?.hang === "write") { clock += 4000; throw E("EAGAIN"); }
  if (!c.alive) throw E("EPIPE");
  if (f?.again != null && c.agains < f.again) { c.agains++; throw E("EAGAIN"); }
  const all = Buffer.from(b as never), chunk = all.subarray(off ?? 0, (off ?? 0) + (len ?? all.length));
  const take = Math.min(chunk.length, f?.writes ?? chunk.length);
  c.asked = Buffer.concat([c.asked, chunk.subarray(0, take)]);
  if (f?.dieAsking != null && (f.dieAsking < 1 || c.asked.includes(10))) { trips++; c.die(1, null); return take; }
  const nl = c.asked.indexOf(10);
  if (nl >= 0) { c.out = Buffer.concat([c.out, Buffer.from(f?.garbage ?? answer(c.asked.subarray(0, nl).toString("utf8")) + "\n")]); c.asked = c.asked.subarray(nl + 1); c.sent = 0; c.agains = 0; }
  return take;
}) as never;
fs.readSync = ((fd: number, b: Buffer, ...rest: unknown[]) => {
  if (fd < 2_000_000) return (real.readSync as (...a: unknown[]) => unknown)(fd, b, ...rest);
  const c = childOf(fd), f = cur();
  clock += 1;
  if (c == null) throw E("EBADF");
  if (c.reaped) { misuse = "reads from the descriptor of a process that is gone"; throw E("EBADF"); }
  if (f?.hang === "read" && c.alive) { clock += 4000; throw E("EAGAIN"); }
  if (f?.again != null && c.agains < f.again && c.alive) { c.agains++; throw E("EAGAIN"); }
  if (f?.dieAnswering != null && c.alive) { c.out = c.out.subarray(0, Math.max(0, f.dieAnswering - c.sent)); if (c.out.length === 0) { trips++; c.die(1, null); if (f.eio) throw E("EIO"); return 0; } }
  if (!c.alive) { if (f?.eio) throw E("EIO"); return 0; }
  if (c.out.length === 0) { misuse = "reads without having asked"; throw E("EIO"); }
  const o = rest[0] as number | { offset?: number; length?: number } | undefined;
  const at = typeof o === "number" ? o : o?.offset ?? 0, room = typeof o === "number" ? (rest[1] as number) : o?.length ?? b.length - at;
  const next = f?.cuts?.find((x) => x > c.sent) ?? Infinity;
  const n = Math.min(room, c.out.length, next - c.sent);
  c.out.copy(b, at, 0, n);
  const last = c.out[n - 1];
  c.out = c.out.subarray(n); c.sent += n;
  if (last === 10) { trips++; if (f?.dieIdle) c.die(1, null); }
  return n;
}) as never;
fs.openSync = ((p: string, ...a: unknown[]) => {
  if (!String(p).startsWith("\\\\.\\pipe\\")) return (real.openSync as (...x: unknown[]) => unknown)(p, ...a);
  clock += 5;
  const c = children[children.length - 1];
  if (!c.alive || pipeTries++ < pipeDelay) throw E("ENOENT");
  pipes.set(c.inFd, (pipes.get(c.inFd) ?? 0) + 1);
  return c.inFd;
}) as never;
function closePipe(fd: number): void { const n = pipes.get(fd) ?? 0; if (n === 0) misuse = "closes a descriptor that is not its own"; pipes.set(fd, n - 1); }
fs.closeSync = ((fd: number) => (fd >= 2_000_000 ? void closePipe(fd) : (real.closeSync as (f: number) => unknown)(fd))) as never;
process.kill = ((pid: number, sig?: string | number) => { if (pid < 2_000_000) return real.kill.call(process, pid, sig); const c = children.find((x) => x.pid === pid); if (c?.alive !== true) throw E("ESRCH"); return true; }) as never;
syncBuiltinESMExports();
const H = await imp("render/glyph-helper.ts");
const P = await imp("render/host-platform.ts");
const unhandled = new Unhandled();

// ---- what is asked ----
type Q = "family" | "fallback" | "match" | "layout" | "glyph";
const QS: Q[] = ["family", "fallback", "match", "layout", "glyph"];
function ask(q: Q, k: number, platform: string): unknown {
  switch (q) {
    case "family": return H.resolveInstalledFont(`名${k}`);
    case "fallback": return platform === "linux" ? [...(H.resolveFcFallbackFonts([0x4e00 + k, 0x1f600 + k], "ja") as Map<number, unknown>)] : [...(H.resolveSystemFallbackFonts([0x4e00 + k, 0x1f600 + k], "Base") as Map<number, unknown>)];
    case "match": return platform === "linux" ? H.resolveLinuxFamilyMatch(`族${k}`, 400, false, 100) : H.resolveFamilyStyleMatch(`族${k}`, 400, false, 100);
    case "layout": { const f = H.createGlyphHelperFont({ fontPath: `/字${k}` }); return f == null ? null : f.layout(`añ😀${k}`); }
    case "glyph": { const f = H.createGlyphHelperFont({ fontPath: `/字体${k}` }); return f == null ? null : [f.unitsPerEm, f.ascent, f.getGlyph(40 + k), f.glyphForCodePoint(0x3042 + k)]; }
  }
}
const attempt = (f: () => unknown): string => { try { return JSON.stringify(f()); } catch (e) { return `throws ${String(e)}`; } };
const fresh = (): void => { H.clearGlyphHelperCache(); children = []; pipes.clear(); trips = 0; faultAt = -1; oneShots = 0; misuse = ""; pipeTries = 0; pipeDelay = 0; clock = 0; };
const expectedMemo = new Map<string, string>();
function expected(q: Q, k: number, platform: string): string {
  const key = `${q}${k}${platform}`;
  if (!expectedMemo.has(key)) {
    const sv = [children, trips, faultAt] as const;
    fresh();
    process.env.DOMOTION_HELPER_NO_SERVE = "1";
    expectedMemo.set(key, P.withHostPlatform(platform, () => attempt(() => ask(q, k, platform))));
    delete process.env.DOMOTION_HELPER_NO_SERVE;
    [children, trips, faultAt] = sv;
  }
  return expectedMemo.get(key)!;
}

async function history(ctx: Ctx, platform: string, qs: Q[], at: number, f: Fault, turns: number, delay: number): Promise<number> {
  const want = qs.map((q, k) => expected(q, k, platform));
  fresh();
  faultAt = at; fault = f; pipeDelay = delay;
  const key = `${platform} | ${qs.join(",")} | ${f.n} at trip ${at} | ${turns} turns${delay > 0 ? ` | pipe after ${delay}` : ""}`;
  const bad = (what: string): void => ctx.fail(key, `${key}: ${what}`, { platform, qs, at, fault: f, turns, delay });
  for (const [k, q] of qs.entries()) {
    const got = P.withHostPlatform(platform, () => attempt(() => ask(q, k, platform)));
    ctx.state(`${platform}|${f.n}|${at}|${k}|${children.map((c) => `${c.alive}${c.reaped}`).join()}|${oneShots}`);
    ctx.step();
    if (got !== want[k]) bad(`question ${k} (${q}) gets ${got.slice(0, 160)} instead of ${want[k].slice(0, 160)}`);
    await turn(turns);
  }
  await turn(3);
  if (misuse !== "") bad(misuse);
  const alive = children.filter((c) => c.alive).length;
  if (alive > 1) bad(`${alive} helper processes are running`);
  const total = trips;
  // a process that is given up must not stay
  H.clearGlyphHelperCache();
  await turn(3);
  const left = children.filter((c) => c.alive).length;
  const open = [...pipes.values()].filter((n) => n > 0).length;
  if (open > 0) bad(`${open} pipe descriptors stay open`);
  if (left > 0) bad(`${left} helper process left after the channel was cleared`);
  const un = unhandled.take();
  if (un.length > 0) bad(`ends the process: ${un[0]}`);
  ctx.trace();
  return total;
}

export default defineCheck({
  spec: {
    id: "O07",
    bounds: "histories of up to 3 questions of 5 kinds on the Unix and the Windows carrier; at every round trip: every read boundary (thorough: every pair) of the answer, 5 write sizes, retries, death at every byte of the answer and 3 points of the question, read errors, noise, hangs, failing starts, death while idle; with and without event-loop turns between questions",
    assumptions: ["the helper process and its descriptors are modelled; asking it once in a fresh process is the oracle, and itself does not fail"],
  },
  shards: 8,
  async run(ctx, sh) {
    let k = 0;
    const mine = (): boolean => k++ % sh.n === sh.i;
    Date.now = () => 1_700_000_000_000 + clock;
    try {
      const lists: Q[][] = [];
      for (const a of QS) { lists.push([a]); for (const b of QS) { lists.push([a, b, "family"]); if (ctx.thorough) for (const c of QS) lists.push([a, b, c]); } }
      for (const platform of ["linux", "win32", "darwin"]) for (const qs of lists) {
        const total = await history(ctx, platform, qs, -1, { n: "none" }, 0, 0);
        if (platform === "win32") for (const d of [1, 3]) if (mine()) await history(ctx, platform, qs, 0, { n: "none" }, 1, d);
        for (let at = 0; at < total; at++) for (const turns of [0, 4]) {
          const faults: Fault[] = [
            ...[1, 2, 3, 7, 50].map((writes): Fault => ({ n: `writes of ${writes}`, writes })), { n: "tries again twice", again: 2 }, { n: "writes of 1 and tries again", writes: 5, again: 1 },
            { n: "dies asking 0", dieAsking: 0 }, { n: "dies asking, part read", dieAsking: 0.5, writes: 9 }, { n: "dies asking 1", dieAsking: 1 },
            { n: "read error", dieAnswering: 4, eio: true }, { n: "noise", garbage: "Segmentation fault\n" }, { n: "half an answer as a line", garbage: '{"results":[{"ty\n' }, { n: "empty line", garbage: "\n" },
            { n: "hangs writing", hang: "write" }, { n: "hangs reading", hang: "read" },
            { n: "dies idle", dieIdle: true },
            ...(at === 0 ? (["throws", "no fds", "negative fds", "error event"] as const).map((spawn): Fault => ({ n: `start ${spawn}`, spawn })) : []),
          ];
          // the length of the answer at this trip bounds the byte-level faults
          const long = qs.length === 1 || (qs.length === 3 && qs[0] === qs[1] && (ctx.thorough || qs[0] === "family" || qs[0] === "glyph"));
          if (long) {
            const len = 420;
            for (let b = 0; b < len; b += ctx.thorough ? 1 : qs.length === 1 ? 1 : 5) {
              faults.push({ n: `dies after ${b} bytes of the answer`, dieAnswering: b });
              faults.push({ n: `read ends at ${b}`, cuts: [b] }, { n: `read ends at ${b} and ${b + 1}`, cuts: [b, b + 1] }, { n: `reads of one byte from ${b}`, cuts: Array.from({ length: 12 }, (_, i) => b + i) });
              if (ctx.thorough && qs.length === 1) for (let c = b + 2; c < b + 40; c++) faults.push({ n: `read ends at ${b} and ${c}`, cuts: [b, c] });
            }
          }
          for (const f of faults) if (mine()) await history(ctx, platform, qs, at, f, turns, 0);
        }
      }
    } finally { Date.now = real.now; process.kill = real.kill; unhandled.stop(); }
  },
});
