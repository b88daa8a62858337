/** T02: the terminal animation shows, at every instant, the emulated screen of that instant. */
import "../lib/fake-capture.ts";
import { defineCheck, words, hashStr, type Ctx } from "../lib/check.ts";
import { imp } from "../lib/repo.ts";
import { SvgDoc } from "../lib/player.ts";
import { makeBrowser, rowKey, colourKey, resetKeys, PAD, LINE, CW } from "../lib/termpage.ts";

const st = globalThis.setTimeout;
globalThis.setTimeout = ((f: (...a: unknown[]) => void, ms?: number, ...a: unknown[]) => (ms == null || ms <= 0 ? setImmediate(f, ...a) : st(f, ms, ...a))) as never;
const { TerminalEmulator } = await imp("terminal/emulator.ts");
const { castToAnimatedSvg } = await imp("terminal/index.ts");
const { THEMES } = await imp("terminal/theme.ts");

let COLS = 6, ROWS = 3;
const E = "\x1b[";
interface Ev { d: string; gap: number; rz?: [number, number] }
interface Screen { rows: string[]; cols: number; cx: number; cy: number; vis: boolean; plain: string[] }
interface RefFrame { s: Screen; start: number; dur: number }

/** what the recording shows when: documented settle rule (docs/67), independent of the composer */
async function reference(evs: Ev[]): Promise<{ frames: RefFrame[]; total: number }> {
  const emu = new TerminalEmulator(COLS, ROWS, THEMES.catppuccin);
  const frames: Array<{ s: Screen; sig: string; dur: number }> = [];
  const shot = (): { s: Screen; sig: string } => {
    const g = emu.snapshot().map((r: any[]) => r.map((c) => ({ c: c.char, fg: c.fg, bg: c.bg, b: c.bold, i: c.italic, d: c.dim, u: c.underline })));
    const cur = emu.cursor();
    const plain = g.map((r: any[]) => { let e = r.length; while (e > 0 && r[e - 1].c === " " && r[e - 1].fg == null && r[e - 1].bg == null) e--; return r.slice(0, e).map((c) => c.c).join(""); });
    const s: Screen = { rows: g.map(rowKey), cols: g[0].length, cx: cur.x, cy: cur.y, vis: cur.visible, plain };
    return { s, sig: s.rows.join("\n").replace(/\n+$/, "") };
  };
  try {
    const outs = evs.filter((e) => e.rz == null).length;
    let seen = 0, pendingRz = false;
    for (let i = 0; i < evs.length; i++) {
      const e = evs[i];
      if (e.rz != null) { emu.resize(e.rz[0], e.rz[1]); pendingRz = true; continue; }
      await emu.write(e.d); seen++; pendingRz = false;
      const last = seen === outs;
      let gap = e.gap;
      for (let j = i + 1; j < evs.length && evs[j].rz != null; j++) gap += evs[j].gap;
      if (!last && gap < 0.09) continue;
      const hold = Math.min(4000, Math.max(400, last ? 1500 : Math.round(gap * 1000)));
      const { s, sig } = shot();
      const p = frames[frames.length - 1];
      if (p != null && p.sig === sig) p.dur = Math.min(4000, p.dur + hold); else frames.push({ s, sig, dur: hold });
    }
    if (pendingRz) {
      const { s, sig } = shot();
      const p = frames[frames.length - 1];
      if (p == null || p.sig !== sig || p.s.rows.length !== s.rows.length || p.s.cols !== s.cols) frames.push({ s, sig, dur: 1500 });
    }
  } finally { emu.dispose(); }
  while (frames.length > 1 && frames[0].sig === "") frames.shift();
  let t = 0;
  const out = frames.map((f) => { const r = { s: f.s, start: t, dur: f.dur }; t += f.dur; return r; });
  return { frames: out, total: t };
}
const castOf = (evs: Ev[]): string => {
  let t = 0;
  const lines = [JSON.stringify({ version: 2, width: COLS, height: ROWS })];
  for (const e of evs) { lines.push(JSON.stringify(e.rz != null ? [t, "r", `${e.rz[0]}x${e.rz[1]}`] : [t, "o", e.d])); t = +(t + e.gap).toFixed(6); }
  return lines.join("\n") + "\n";
};
/** rows painted at t: row index -> key (fractional rows while sliding) */
function painted(doc: SvgDoc, t: number): { rows: Array<{ y: number; key: string }>; caret: { x: number; y: number } | null } {
  const rows: Array<{ y: number; key: string }> = [];
  let caret: { x: number; y: number } | null = null;
  for (const l of doc.leaves(t, (n) => n.tag === "rect")) {
    if (!l.visible || l.opacity <= 0.01) continue;
    const a = l.node.attrs;
    const x = Number(a.get("x") ?? 0), y = Number(a.get("y") ?? 0);
    const px = l.m[0] * x + l.m[2] * y + l.m[4], py = l.m[1] * x + l.m[3] * y + l.m[5];
    const key = colourKey(a.get("fill") ?? "");
    if (key != null) rows.push({ y: (py - PAD) / LINE, key });
    else if (a.has("fill-opacity")) caret = { x: px, y: py };
  }
  return { rows, caret };
}
const fmt = (r: Array<{ y: number; key: string }>): string => r.map((q) => `${+q.y.toFixed(2)}:${q.key}`).sort().join(" ¦ ");

async function judge(ctx: Ctx, evs: Ev[], mode: "incremental" | "full"): Promise<void> {
  const name = evs.map((e) => (e.rz != null ? `r${e.rz.join("x")}@${e.gap}` : `${JSON.stringify(e.d)}@${e.gap}`)).join("+");
  const short = name.length > 200 ? `${name.slice(0, 60)}#${hashStr(name)}` : name;
  const bad = (k: string, msg: string): void => ctx.fail(`${mode}:${k}:${short}`, `${mode} ${short}: ${msg.length > 900 ? `${msg.slice(0, 900)}…` : msg}`, { mode, events: evs, cast: castOf(evs) });
  const { frames, total } = await reference(evs);
  resetKeys();
  const { browser, open } = makeBrowser();
  const r = await castToAnimatedSvg(castOf(evs), browser, { mode, theme: "catppuccin" });
  ctx.trace();
  if (open() !== 0) bad("context", "a browser context stays open");
  if (r.totalDurationMs !== total) bad("duration", `plays ${r.totalDurationMs} ms, want ${total} ms`);
  const maxC = Math.max(COLS, ...evs.map((e) => e.rz?.[0] ?? 0)), maxR = Math.max(ROWS, ...evs.map((e) => e.rz?.[1] ?? 0));
  if (r.width !== 2 * PAD + CW * maxC || r.height !== Math.ceil(2 * PAD + LINE * maxR)) bad("size", `canvas ${r.width}x${r.height}`);
  const doc = new SvgDoc(r.svg);
  const eps = mode === "full" ? 0.012 * total / 100 + 6 : 0.0001 * total + 1.5;
  frames.forEach((f, k) => {
    const end = f.start + f.dur;
    const slideFrom = mode === "incremental" ? end - 130 : end;
    const ts = [f.start + eps, f.start + 0.3 * f.dur, (f.start + slideFrom) / 2, slideFrom - eps - 1];
    const want = fmt(f.s.rows.map((key, y) => ({ y, key })).filter((q) => q.key !== ""));
    for (const t of ts) {
      if (t >= end - eps || t < f.start + eps) continue;
      ctx.step();
      const p = painted(doc, t);
      const got = fmt(p.rows);
      ctx.state(`${mode}|${got}|${p.caret != null}`); ctx.outcome(want);
      if (got !== want) { bad(`screen`, `at ${t.toFixed(1)} ms (frame ${k} of ${frames.length}) shows ${got || "(blank)"}\nwant ${want || "(blank)"}`); return; }
      if (p.caret != null) {
        if (mode === "full") bad("caret", "full mode paints a caret");
        if (!f.s.vis) bad("caret", `at ${t.toFixed(1)} ms the caret shows although the program hid it`);
        const wx = PAD + f.s.cx * CW, wy = PAD + f.s.cy * LINE;
        if (Math.abs(p.caret.x - wx) > 0.6 || Math.abs(p.caret.y - wy) > 0.6) bad("caretpos", `at ${t.toFixed(1)} ms the caret is at (${p.caret.x.toFixed(1)},${p.caret.y.toFixed(1)}), the cursor is at (${wx},${wy.toFixed(1)})`);
      }
      ctx.count(p.caret != null ? "caret_instants" : "no_caret_instants");
    }
    // while the next screen slides in: the old lines, each between its row and its next row
    if (mode === "incremental" && k + 1 < frames.length) {
      for (const t of [end - 100, end - 40, end - eps - 0.5]) {
        if (t <= f.start + eps) continue;
        ctx.step();
        const got = painted(doc, t).rows.map((q) => q.key).sort().join("¦");
        const w = f.s.rows.filter((q) => q !== "").sort().join("¦");
        if (got !== w) { bad("slide", `at ${t.toFixed(1)} ms, before screen ${k + 1}, shows lines ${got}\nwant ${w}`); return; }
      }
    }
  });
  // typing at a prompt shows the caret on that line while it blinks on
  if (mode === "incremental") {
    const at = (q: number): string => frames[q].s.plain[frames[q].s.cy] ?? "";
    const prompts: string[] = [];
    for (let q = 0; q + 1 < frames.length; q++) { const c = at(q), n = frames[q + 1].s.plain[frames[q].s.cy] ?? ""; if (c !== "" && n.length > c.length && n.startsWith(c)) prompts.push(c); }
    let sig = prompts[0] ?? "";
    for (const p of prompts) while (!p.startsWith(sig)) sig = sig.slice(0, -1);
    frames.forEach((f, q) => {
      const c = at(q), prev = q > 0 ? frames[q - 1].s.plain[f.s.cy] ?? "" : "";
      const input = c !== "" && ((sig !== "" && c.startsWith(sig)) || (q > 0 && prev !== "" && c.length > prev.length && c.startsWith(prev)));
      // an instant at which the blink is on
      const lo = f.start + eps, hi = f.start + f.dur - 131 - eps;
      let t = lo;
      while (t % 1060 > 520) t += 5;
      if (t > hi) return;
      const seen = painted(doc, t).caret != null;
      if (seen !== (input && f.s.vis)) bad("caretshown", `frame ${q} at ${t.toFixed(0)} ms: caret ${seen ? "shown" : "not shown"} on ${input ? "an input" : "an output"} line ${JSON.stringify(c)}, cursor ${f.s.vis ? "visible" : "hidden"}`);
    });
  }
}
const OPS = ["a\r\n", "b\r\n", "x", `\r${E}Kc`, `${E}2J${E}H`, `${E}31mz${E}0m\r\n`, `${E}?25l`, `${E}H`, "\r\n", `${E}?25h`, "a\r\na\r\n", `${E}L`, `${E}44m \r\n${E}0m`];
async function explore(ctx: Ctx, shard: { i: number; n: number }): Promise<void> {
  let k = 0;
  const go = async (evs: Ev[], mode: "incremental" | "full"): Promise<void> => { if (k++ % shard.n === shard.i) await judge(ctx, evs, mode); };
  const P: Ev = { d: "$ ", gap: 0.5 };
  const depth = ctx.thorough ? 4 : 3;
  // histories at one pace
  for (const w of words(OPS, 1, depth)) await go([P, ...w.map((d) => ({ d, gap: 0.5 }))], "incremental");
  for (const w of words(OPS, 1, ctx.thorough ? 3 : 2)) await go([P, ...w.map((d) => ({ d, gap: 0.5 }))], "full");
  // every pace, without a prompt
  const paced = OPS.slice(0, 7).flatMap((d) => [0.02, 0.6, 0.3, 9].map((gap) => ({ d, gap })));
  for (const w of words(paced, 1, ctx.thorough ? 3 : 2)) { await go(w, "incremental"); if (w.length < 3) await go(w, "full"); }
  // deep scrolling histories over two line kinds
  for (const w of words(["a\r\n", "b\r\n", "x"], 4, ctx.thorough ? 8 : 6)) await go(w.map((d) => ({ d, gap: 0.5 })), "incremental");
  // every ordered pair of cell styles side by side, as glyphs and as blanks
  const styles: string[] = [];
  for (const fg of ["", "31", "38;2;1;2;3"]) for (const bg of ["", "44", "48;5;200"]) for (let m = 0; m < 32; m++) styles.push(["0", fg, bg, ...["1", "3", "2", "4", "7"].filter((_, q) => (m >> q & 1) === 1)].filter((q) => q !== "").join(";"));
  const per = 24;
  for (const [l, r] of ctx.thorough ? ["ab", "a ", " b", "  "] : ["ab", "a "]) for (let from = 0; from < styles.length; from += per) {
    const rows = styles.slice(from, from + per);
    const d = rows.map((a) => styles.map((b) => `${E}${a}m${l}${E}${b}m${r}`).join("")).join(`${E}0m\r\n`);
    COLS = 2 * styles.length; ROWS = per;
    await go([{ d, gap: 0.5 }], "full");
    if (ctx.thorough) await go([{ d, gap: 0.5 }], "incremental");
    COLS = 6; ROWS = 3;
  }
  // resizes
  const rz: Ev[] = [[4, 2], [6, 5], [9, 3]].map((q) => ({ d: "", gap: 0.5, rz: q as [number, number] }));
  const some: Ev[] = ["a\r\n", "bcdef", "\r\n", `${E}2J${E}H`].map((d) => ({ d, gap: 0.5 }));
  for (const w of words([...rz, ...some], 2, ctx.thorough ? 4 : 3)) {
    if (!w.some((e) => e.rz != null) || !w.some((e) => e.rz == null)) continue;
    if (w[0].rz != null) continue;
    await go([P, ...w], "incremental");
    if (w.length < 4) await go([P, ...w], "full");
  }
}
export default defineCheck({
  spec: {
    id: "T02",
    bounds: "6x3 screen; all histories of up to 3 (thorough 4) of 13 operations after a prompt, all paces (4 gaps) for up to 2 (3) operations, two-line scrolling histories to depth 6 (8), resizes among up to 3 (4) events; all ordered pairs of 288 cell styles side by side; both storage modes; every screen at 4 instants and the slide before the next at 3",
    assumptions: ["the browser's layout and capture are replaced by a fixed line grid (lib/termpage.ts)", "screens come from the emulator that T01 checks against lib/vt.ts", "frames follow the documented settle rule; screens that differ only in the cursor are one screen"],
  },
  shards: 8,
  run: explore,
});
