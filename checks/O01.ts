/** O01: video export renders every frame once, in order, or fails cleanly. */
import { mkdtempSync, mkdirSync, writeFileSync, rmSync, existsSync, readFileSync, readdirSync } from "node:fs";
import { tmpdir } from "node:os";
import path from "node:path";
import { defineCheck, product, type Ctx } from "../lib/check.ts";
import { imp } from "../lib/repo.ts";
import { Chrome, turn, type AnimSpec, type Shot } from "../lib/fakechrome.ts";
import { installFarm, Unhandled, type Death } from "../lib/fakeffmpeg.ts";

const { runSvgToVideo, resolveDurationMs } = await imp("cli/svg-to-video-core.ts");
const { startScrubberServer } = await imp("scrubber/server.ts");

interface Conf { name: string; anims: AnimSpec[]; smil?: boolean; fps: number; durationSec?: number; scale?: number; width?: number; height?: number; background?: string; format?: string; keep?: boolean; /** derived period, ms */ period: number; quiet?: boolean }
const inf = (d: number, o: Partial<AnimSpec> = {}): AnimSpec => ({ duration: d, iterations: Infinity, endTime: Infinity, ...o });
const fin = (d: number, n: number, delay = 0): AnimSpec => ({ duration: d, iterations: n, endTime: delay + d * n });
const CONFS: Conf[] = [
  { name: "one frame", anims: [inf(100)], fps: 10, period: 100 },
  { name: "two frames", anims: [inf(200), inf(200, { late: true })], fps: 10, period: 200 },
  { name: "four frames", anims: [inf(400)], fps: 10, period: 400, keep: true },
  { name: "lcm", anims: [inf(200), inf(300)], fps: 10, period: 600 },
  { name: "finite longer", anims: [inf(200), fin(100, 3, 200)], fps: 10, period: 500 },
  { name: "finite shorter", anims: [inf(600), fin(100, 1)], fps: 5, period: 600 },
  { name: "duration given", anims: [inf(9000)], durationSec: 0.25, fps: 12, period: 250 },
  { name: "smil with duration", anims: [], smil: true, durationSec: 0.3, fps: 10, period: 300 },
  { name: "smil and css", anims: [inf(300)], smil: true, fps: 10, period: 300 },
  { name: "stubborn", anims: [inf(200), inf(200, { stubborn: true })], fps: 10, period: 200 },
  { name: "odd rate", anims: [inf(1000)], fps: 7, period: 1000, keep: true },
  { name: "rounded up", anims: [inf(250)], fps: 10, period: 250 },
  { name: "tiny", anims: [inf(10)], fps: 10, period: 10 },
  { name: "scaled", anims: [inf(200)], fps: 10, period: 200, scale: 2 },
  { name: "boxed", anims: [inf(200)], fps: 10, period: 200, width: 40 },
  { name: "alpha", anims: [inf(200)], fps: 10, period: 200, background: "transparent", format: "vp9" },
  { name: "no alpha here", anims: [inf(200)], fps: 10, period: 200, background: "transparent", format: "h264" },
  { name: "gif", anims: [inf(200)], fps: 10, period: 200, format: "gif", background: "transparent" },
  { name: "chatty", anims: [inf(300)], fps: 10, period: 300, quiet: false },
];
/** turns each kind of call takes */
const LAGS: Array<{ n: string; op: (op: string, k: number) => number; write: number; exit: number }> = [
  { n: "even", op: () => 1, write: 1, exit: 1 },
  { n: "eager", op: () => 0, write: 0, exit: 0 },
  { n: "slow encoder", op: () => 1, write: 7, exit: 5 },
  { n: "slow browser", op: () => 6, write: 1, exit: 1 },
];
const ERRORS: Array<{ n: string; make: (c: Chrome) => unknown }> = [
  { n: "error", make: () => new Error("boom") },
  { n: "crash", make: (c) => { for (const b of c.browsers) b.crash(); return new Error("Target page, context or browser has been closed"); } },
  { n: "string", make: () => "boom" },
];
type FsFault = null | "frames dir is a file" | "frame 0 is a directory" | "frame 1 is a directory" | "no output dir" | "no input" | "not an svg" | "no ffmpeg" | "no size" | "no animations";
interface Scn { conf: Conf; lag: number; fault: { op: number; err: number } | null; death: Death | null; fs: FsFault; closeFails: boolean }
const scratch = mkdtempSync(path.join(tmpdir(), "o01-"));
process.env.TMPDIR = scratch;
const farm = installFarm();
const unhandled = new Unhandled();
let serial = 0;

const settle = async (p: Promise<unknown>): Promise<{ ok?: unknown; err?: unknown; hang?: boolean }> => {
  let out: { ok?: unknown; err?: unknown } | null = null, n = 0;
  p.then((v) => { n++; out = { ok: v ?? true }; }, (e: unknown) => { n++; out = { err: e ?? "(nothing)" }; });
  for (const t0 = Date.now(); Date.now() - t0 < 8000 && out == null;) await turn(1);
  return out ?? { hang: true };
};

async function exportOnce(ctx: Ctx, s: Scn): Promise<{ ops: string[]; frames: number }> {
  const dir = path.join(scratch, `x${serial++}`);
  mkdirSync(dir);
  const L = LAGS[s.lag], c = s.conf;
  const chrome = new Chrome({
    anims: () => (s.fs === "no animations" ? [] : c.anims), smil: () => s.fs !== "no animations" && c.smil === true, lag: L.op,
    onOp: (op, n) => { const q = farm.procs[0]; ctx.state(`${c.name}|${n} ${op}|${q == null ? "-" : `${q.got.length}${q.running}${q.broken}${q.ended}${q.stdin.writableLength}`}`); if (s.fault != null && n === s.fault.op) throw ERRORS[s.fault.err].make(chrome); if (s.closeFails && op === "close") throw new Error("close failed"); },
  });
  farm.reset({ death: s.fs === "no output dir" ? { at: 0, code: 1, skew: 2 } : s.death, writeLag: L.write, exitLag: L.exit, missing: s.fs === "no ffmpeg" });
  const input = path.join(dir, "in.svg"), frames = path.join(dir, "frames"), output = s.fs === "no output dir" ? path.join(dir, "no", "such", "out.mp4") : path.join(dir, "out.mp4");
  if (s.fs !== "no input") writeFileSync(input, s.fs === "not an svg" ? "hello" : s.fs === "no size" ? "<svg xmlns='x'><rect/></svg>" : '<svg xmlns="http://www.w3.org/2000/svg" viewBox="0 0 60 30" width="60" height="30"><rect/></svg>');
  const keep = c.keep === true || (s.fs != null && s.fs.startsWith("frame"));
  if (s.fs === "frames dir is a file") writeFileSync(frames, "x");
  for (const k of [0, 1]) if (s.fs === `frame ${k} is a directory`) mkdirSync(path.join(frames, `frame_00000${k}.png`), { recursive: true });
  unhandled.take();
  const key = `export ${c.name}|${L.n}|${s.fault != null ? `${s.fault.op}:${ERRORS[s.fault.err].n}` : "-"}|${s.death != null ? `death ${s.death.at} ${s.death.code ?? s.death.signal} ${s.death.skew}` : "-"}|${s.fs ?? "-"}${s.closeFails ? "|close" : ""}`;
  const r = await settle(runSvgToVideo({
    input, output, fps: c.fps, durationSec: c.durationSec, format: c.format ?? "h264", scale: c.scale ?? 1, width: c.width, height: c.height, background: c.background ?? "#fff", burnCaptions: false,
    keepFrames: keep ? frames : undefined, ffmpegPath: "ffmpeg", quiet: c.quiet !== false, log: () => {}, launchBrowser: chrome.launch,
  }));
  await turn(12 + 2 * L.exit + 2 * L.write);
  ctx.trace(); ctx.step(chrome.ops.length);
  ctx.state(`${chrome.ops.join(" ")}|${farm.procs.map((p) => p.got.length).join()}|${r.err != null}`);
  ctx.outcome(String(r.err instanceof Error ? r.err.message.slice(0, 40) : r.err ?? r.ok));
  const bad = (what: string): void => ctx.fail(key, `${key}: ${what}; outcome ${r.hang ? "never settles" : r.err != null ? `rejects ${String(r.err)}` : "resolves"}; calls ${chrome.ops.join(" ")}`, { ...s, conf: c.name });
  const un = unhandled.take();
  const n = Math.max(1, Math.round((c.period / 1000) * c.fps));
  const reached = s.fault != null && s.fault.op < chrome.ops.length;
  const fatal = (reached && chrome.ops[s.fault!.op] !== "close") || (s.fs != null) || (s.death != null && !(s.death.code === 0 && (s.death.at === "end" || s.death.at === n)) && (typeof s.death.at === "string" || s.death.at <= n));
  const soft = s.closeFails || (reached && chrome.ops[s.fault!.op] === "close") || (s.death?.code === 0 && s.death.at === n);
  if (un.length > 0) bad(`ends the process: ${un[0]}`);
  else if (r.hang) bad("hangs");
  else if (farm.alive > 0) bad("encoder process left running");
  else if (chrome.alive > 0) bad("browser left running");
  else if (fatal && r.err == null) bad("a failed step is reported as success");
  else if (!fatal && !soft && r.err != null) bad("fails although every step succeeded");
  else if (fatal && !soft && !(r.err instanceof Error) && ERRORS[s.fault?.err ?? 0].n !== "string") bad("rejects with something that is no error");
  else if (r.err == null) {
    const p = farm.procs;
    if (p.length !== 1) bad(`${p.length} encoders started`);
    else {
      const shots = Buffer.concat(p[0].got).toString("utf8").trimEnd().split("\n").map((l) => JSON.parse(l) as Shot);
      const want = Array.from({ length: n }, (_, i) => ((i + 0.5) * 1000) / c.fps);
      const wrong = shots.findIndex((q, i) => i >= n || q.times.some((t, j) => c.anims[j].stubborn !== true && (t == null || Math.abs(t - want[i]) > 1e-6)) || (c.smil === true && Math.abs((q.smil ?? NaN) * 1000 - want[i]) > 1e-6));
      const alpha = c.background === "transparent" && c.format !== "h264";
      if (shots.length !== n) bad(`${shots.length} frames for ${c.period} ms at ${c.fps}`);
      else if (wrong >= 0) bad(`frame ${wrong} shows ${JSON.stringify(shots[wrong].times)} smil ${shots[wrong].smil} instead of ${want[wrong]}`);
      else if (!p[0].ended) bad("encoder input never ended");
      else if (p[0].args[p[0].args.indexOf("-framerate") + 1] !== String(c.fps)) bad(`encoder told rate ${p[0].args.join(" ")}`);
      else if (p[0].args[p[0].args.length - 1] !== output) bad(`encoder writes ${p[0].args[p[0].args.length - 1]}`);
      else if (shots.some((q) => q.omit !== alpha)) bad("alpha capture does not match the format");
      else if (shots.some((q) => JSON.stringify(q.viewport) !== JSON.stringify(c.width === 40 ? { width: 40, height: 20 } : { width: 60, height: 30 }) || q.scale !== (c.scale ?? 1))) bad("frames have the wrong size");
      else if (c.keep === true) {
        const files = readdirSync(frames).sort();
        if (files.join() !== Array.from({ length: n }, (_, i) => `frame_${String(i).padStart(6, "0")}.png`).join() || files.some((f, i) => !readFileSync(path.join(frames, f)).equals(Buffer.concat(p[0].got.slice(i, i + 1))))) bad(`kept frames are ${files.join()}`);
      }
    }
  }
  rmSync(dir, { recursive: true, force: true });
  return { ops: chrome.ops, frames: n };
}
const deathsFor = (n: number, thorough: boolean): Death[] => {
  const out: Death[] = [{ at: "spawn", code: -2, skew: 0 }, { at: "throw", code: null, skew: 0 }];
  for (const at of [...Array.from({ length: n + 1 }, (_, i) => i), "end" as const]) for (const [code, signal] of [[1, undefined], [0, undefined], [null, "SIGKILL"]] as Array<[number | null, string | undefined]>) for (const skew of at === "end" ? [0] : thorough ? [-9, -4, -1, 0, 1, 3, 8, 20] : [-4, 0, 3, 12]) out.push({ at, code, signal, skew });
  return out;
};

// ---- the preview server's range export: a temporary directory and a shared browser ----
interface Srv { lag: number; fault: { op: number; err: number } | null; death: Death | null; noFile: boolean; /** a first export warmed the page up */ twice?: boolean; from: number; to: number; crop: boolean }
async function rangeOnce(ctx: Ctx, s: Srv): Promise<string[]> {
  const L = LAGS[s.lag];
  const chrome = new Chrome({ anims: () => [inf(1000), inf(1000, { late: true })], lag: L.op, onOp: (op, n) => { const q = farm.procs[0]; ctx.state(`range ${s.from}|${n} ${op}|${q == null ? "-" : `${q.got.length}${q.running}${q.broken}${q.ended}${q.stdin.writableLength}`}`); if (s.fault != null && n === s.fault.op) throw ERRORS[s.fault.err].make(chrome); } });
  let bytes = Buffer.alloc(0);
  farm.reset({ death: s.death, writeLag: L.write, exitLag: L.exit, output: (p) => { if (s.noFile) return; bytes = Buffer.concat([Buffer.from("MP4:"), ...p.got]); if (existsSync(path.dirname(p.args[p.args.length - 1]))) writeFileSync(p.args[p.args.length - 1], bytes); } });
  unhandled.take();
  const key = `range ${s.from}-${s.to}${s.crop ? " crop" : ""}|${L.n}|${s.fault != null ? `${s.fault.op}:${ERRORS[s.fault.err].n}` : "-"}|${s.death != null ? `death ${s.death.at} ${s.death.code ?? s.death.signal} ${s.death.skew}` : "-"}${s.noFile ? "|no file" : ""}${s.twice ? "|twice" : ""}`;
  const srv = await startScrubberServer({ launchBrowser: chrome.launch });
  const post = (): Promise<Response> => fetch(`${srv.url}export-range-video`, { method: "POST", body: JSON.stringify({ svg: '<svg viewBox="0 0 60 30"/>', startMs: s.from, endMs: s.to, width: 60, height: 30, ...(s.crop ? { crop: { x: 10, y: 4, w: 21, h: 11 } } : {}) }) });
  if (s.twice === true) await (await post()).arrayBuffer();
  const ask = post().then(async (q) => ({ status: q.status, body: Buffer.from(await q.arrayBuffer()) }));
  const timer = new Promise<null>((r) => setTimeout(() => r(null), 4000).unref());
  const r = await Promise.race([ask.catch((e: unknown) => ({ status: -1, body: Buffer.from(String(e)) })), timer]);
  const n = Math.max(1, Math.round(((Math.max(s.from, s.to) - Math.min(s.from, s.to)) / 1000) * 30));
  const ops = [...chrome.ops];
  await turn(10);
  const left = readdirSync(scratch).filter((f) => f.startsWith("scrubber-"));
  const afterAnswer = farm.alive;
  const closed = await Promise.race([srv.close().then(() => true, () => true), new Promise<boolean>((q) => setTimeout(() => q(false), 4000).unref())]);
  await turn(12 + 2 * L.exit);
  ctx.trace(); ctx.step(ops.length);
  ctx.state(`${ops.join(" ")}|${farm.procs.map((p) => p.got.length).join()}|${r?.status}`);
  const bad = (what: string): void => ctx.fail(key, `${key}: ${what}; answer ${r?.status} ${r?.body.toString("utf8", 0, 120)}; calls ${ops.join(" ")}`, s);
  const reached = s.fault != null && s.fault.op < ops.length;
  const soft = s.death?.code === 0 && s.death.at === n;
  const fatal = reached || s.noFile || (s.death != null && !(s.death.code === 0 && s.death.at === "end") && (typeof s.death.at === "string" || s.death.at <= n));
  const un = unhandled.take();
  if (un.length > 0) bad(`ends the process: ${un[0]}`);
  else if (r == null) bad("no answer");
  else if (!closed) bad("close hangs");
  else if (afterAnswer > 0) bad("encoder process left running");
  else if (left.length > 0) { bad(`temporary ${left[0]} left behind`); for (const f of left) rmSync(path.join(scratch, f), { recursive: true, force: true }); }
  else if (chrome.alive > 0) bad("browser left running");
  else if (fatal && !soft && r.status !== 500) bad("a failed step is not reported");
  else if (!fatal && (r.status !== 200 || !r.body.equals(bytes))) bad("the answer is not the encoded file");
  else if (r.status === 200) {
    const shots = bytes.toString("utf8").slice(4).trimEnd().split("\n").map((l) => JSON.parse(l) as Shot);
    const t0 = Math.min(s.from, s.to);
    const wrong = shots.findIndex((q, i) => q.times.some((t) => t == null || Math.abs(t - (t0 + (i * 1000) / 30)) > 1e-6));
    if (shots.length !== n) bad(`${shots.length} frames instead of ${n}`);
    else if (wrong >= 0) bad(`frame ${wrong} shows ${shots[wrong].times}`);
    else if (s.crop && shots.some((q) => JSON.stringify(q.clip) !== JSON.stringify({ x: 10, y: 4, width: 20, height: 10 }))) bad(`cropped to ${JSON.stringify(shots[0].clip)}`);
  }
  return ops;
}

/** every multiset of a few timings against the definition of one full cycle */
function durations(ctx: Ctx, turnOf: () => boolean): void {
  const opts: AnimSpec[] = [inf(100), inf(150), inf(250), inf(0), inf(333.4), fin(100, 1), fin(400, 2, 50), fin(0, 0), { duration: 100, iterations: 3, endTime: Infinity }, inf(600000)];
  const gcd = (a: number, b: number): number => (b === 0 ? a : gcd(b, a % b));
  const rec = (from: number, list: AnimSpec[]): void => {
    if (turnOf()) {
      const periods = list.filter((a) => a.iterations === Infinity && a.duration > 0).map((a) => Math.round(a.duration));
      const end = Math.max(0, ...list.filter((a) => a.iterations !== Infinity && Number.isFinite(a.endTime)).map((a) => a.endTime));
      const want = Math.max(end, periods.length > 0 ? periods.reduce((x, y) => (x * y) / gcd(x, y)) : 0);
      let got: number | string;
      try { got = resolveDurationMs(list) as number; } catch { got = "error"; }
      ctx.trace(); ctx.step();
      const ok = want > 0 && want <= 600_000 ? got === want : got === "error";
      if (!ok) ctx.fail(`duration ${JSON.stringify(list)}`, `${JSON.stringify(list)} plays for ${want} ms but ${got} is exported`, list);
    }
    if (list.length < 4) for (let i = from; i < opts.length; i++) rec(i, [...list, opts[i]]);
  };
  rec(0, []);
}

export default defineCheck({
  spec: {
    id: "O01",
    bounds: `${CONFS.length} exports × ${LAGS.length} schedules; for 4 of them every call fails in ${ERRORS.length} ways, the encoder dies after every write count with 3 exit kinds × 4 (thorough 8) orders of the broken pipe and the exit, ${9} file-system and input faults, browser close failing on top, pairs of a failing call and a dying encoder; the same for the preview server's range export; every multiset of up to 4 of 10 animation timings`,
    assumptions: ["Chromium and ffmpeg are modelled (lib/fakechrome.ts, lib/fakeffmpeg.ts); stdin of the encoder keeps the semantics of Node streams", "an encoder whose input is closed terminates by itself"],
  },
  shards: 8,
  async run(ctx, sh) {
    let k = 0;
    const mine = (): boolean => k++ % sh.n === sh.i;
    try {
      durations(ctx, mine);
      for (const [conf, lag] of product(CONFS, LAGS.map((_, i) => i))) if (mine()) await exportOnce(ctx, { conf, lag, fault: null, death: null, fs: null, closeFails: false });
      const bases = ctx.thorough ? CONFS : CONFS.slice(0, 4);
      const fss: FsFault[] = ["frames dir is a file", "frame 0 is a directory", "frame 1 is a directory", "no output dir", "no input", "not an svg", "no ffmpeg", "no size", "no animations"];
      for (const conf of bases) {
        // the fault-free call sequence, to know where faults can go
        const base = await exportOnce(ctx, { conf, lag: 0, fault: null, death: null, fs: null, closeFails: false });
        for (let lag = 0; lag < LAGS.length; lag++) {
          for (let op = 0; op < base.ops.length; op++) for (let err = 0; err < ERRORS.length; err++) for (const closeFails of [false, true]) if (mine()) await exportOnce(ctx, { conf, lag, fault: { op, err }, death: null, fs: null, closeFails });
          const deaths = deathsFor(base.frames, ctx.thorough);
          for (const death of deaths) for (const closeFails of [false, true]) if (mine()) await exportOnce(ctx, { conf, lag, fault: null, death, fs: null, closeFails });
          if (lag < (ctx.thorough ? 4 : 2)) for (const death of deaths) for (let op = 6; op < base.ops.length; op++) if (mine()) await exportOnce(ctx, { conf, lag, fault: { op, err: 0 }, death, fs: null, closeFails: false });
          for (const fs of fss) {
            if (fs === "frame 1 is a directory" && base.frames < 2) continue;
            if (fs === "no animations" && conf.durationSec != null) continue;
            if (mine()) await exportOnce(ctx, { conf, lag, fault: null, death: null, fs, closeFails: false });
          }
        }
      }
      const ranges: Array<[number, number, boolean]> = ctx.thorough ? [[0, 40, false], [100, 200, false], [150, 50, true], [0, 67, true]] : [[0, 40, false], [150, 50, true]];
      for (const [from, to, crop] of ranges) {
        const ops = await rangeOnce(ctx, { lag: 0, fault: null, death: null, noFile: false, from, to, crop });
        const n = Math.max(1, Math.round((Math.abs(to - from) / 1000) * 30));
        for (let lag = 0; lag < LAGS.length; lag++) {
          if (mine()) await rangeOnce(ctx, { lag, fault: null, death: null, noFile: false, from, to, crop });
          if (mine()) await rangeOnce(ctx, { lag, fault: null, death: null, noFile: false, twice: true, from, to, crop });
          if (mine()) await rangeOnce(ctx, { lag, fault: null, death: null, noFile: true, from, to, crop });
          for (let op = 0; op < ops.length; op++) for (let err = 0; err < ERRORS.length; err++) if (mine()) await rangeOnce(ctx, { lag, fault: { op, err }, death: null, noFile: false, from, to, crop });
          for (const death of deathsFor(n, ctx.thorough)) if (mine()) await rangeOnce(ctx, { lag, fault: null, death, noFile: false, from, to, crop });
        }
      }
    } finally {
      unhandled.stop();
      rmSync(scratch, { recursive: true, force: true });
    }
  },
});
