/** S03: the composed scroll animation shows the page at the scroll position of each instant. */
import "../lib/fake-capture.ts";
import { defineCheck, words, product, type Ctx } from "../lib/check.ts";
import { imp } from "../lib/repo.ts";
import { el, colour, type El } from "../lib/tree.ts";
import { walk } from "../lib/xml.ts";
import { SvgDoc, inv, apply, inClips, easing as cssEasing, color, parseAnimation } from "../lib/player.ts";
const { composeScrollSvg } = await imp("scroll/composer.ts");
const { parseScrollPattern } = await imp("scroll/pattern.ts");
const { executeScrollPattern } = await imp("scroll/executor.ts");

const W = 120, VH = 200, BAND = 40, PW = 1500, PH = 4200, COL = 30;
interface Kind { bg: boolean; fixed?: "all" | "two" | "child"; sticky?: { at: number; top: number; until: number; h: number }; glass?: boolean; cols?: boolean }
const isCol = (c: string, s: string): boolean => { const a = color(c), b = color(s); return a != null && b != null && a.every((v, i) => Math.abs(v - b[i]) < 0.01); };
/** the page as captured at a scroll position */
const stickyY = (s: NonNullable<Kind["sticky"]>, p: number): number => Math.max(s.at - p, Math.min(s.top, s.until - s.h - p));
function capture(k: Kind, px: number, py: number): El[] {
  const kids: El[] = [];
  if (k.sticky) kids.push(el({ x: 0, y: stickyY(k.sticky, py), w: W, h: k.sticky.h, bg: "rgb(1, 2, 3)", styles: { position: "sticky", top: `${k.sticky.top}px` } }));
  if (k.cols) { for (let i = 0; i < PW / COL; i++) for (let j = 0; j < 5; j++) if (i * COL - px < 2 * W && i * COL - px > -W - COL && j * BAND * 8 - py < 2 * VH && j * BAND * 8 - py > -VH - BAND * 8) kids.push(el({ x: i * COL - px, y: j * BAND * 8 - py, w: COL, h: BAND * 8, bg: colour(i * 5 + j) })); }
  else for (let i = Math.max(0, Math.floor((py - 60) / BAND)); i < Math.min(PH, py + VH + 60) / BAND; i++) kids.push(el({ x: -px, y: i * BAND - py, w: W, h: BAND, bg: k.glass && i % 3 === 1 ? "rgba(10, 20, 30, 0.5)" : colour(i), ...(k.glass && i % 3 === 2 ? { styles: { backgroundColor: "rgba(0, 0, 0, 0)" } } : {}) } as never));
  if (k.fixed) {
    const hd = el({ x: 0, y: 0, w: W, h: 17, bg: "rgb(250, 1, 2)", styles: { position: "fixed" }, children: k.fixed === "child" ? [el({ x: 10, y: 3, w: 20, h: 9, bg: "rgb(3, 250, 9)" })] : [] });
    kids.push(hd);
    if (k.fixed === "two") kids.push(el({ x: 0, y: 170, w: W, h: 30, bg: "rgb(2, 251, 2)", styles: { position: "fixed" } }));
  }
  return [el({ x: -px, y: -py, w: k.cols ? PW : W, h: PH, ...(k.bg ? { bg: "rgb(9, 9, 9)" } : {}), styles: { rootBgComputed: k.bg || k.glass ? "rgb(9, 9, 9)" : "rgba(0, 0, 0, 0)" }, children: kids, tag: "body" } as never)];
}
/** the colours painted at a viewport point, topmost first, down to the first opaque one */
function want(k: Kind, px: number, py: number, x: number, y: number): string[] | null {
  if (k.fixed === "two" && Math.abs(y - 170) < 1.6) return null;
  if (k.fixed === "two" && y > 170) return ["rgb(2, 251, 2)"];
  if (k.fixed) {
    if (Math.abs(y - 17) < 1.6) return null;
    if (k.fixed === "child" && x > 8 && x < 32 && y < 14) return x > 12 && x < 28 && y > 4.5 && y < 10.5 ? ["rgb(3, 250, 9)"] : null;
    if (y < 17) return ["rgb(250, 1, 2)"];
  }
  if (k.sticky) {
    const y0 = stickyY(k.sticky, py);
    if (Math.abs(y - y0) < 1.6 || Math.abs(y - y0 - k.sticky.h) < 1.6) return null;
    if (y > y0 && y < y0 + k.sticky.h) return ["rgb(1, 2, 3)"];
  }
  if (k.cols) {
    const gx = (x + px) / COL, gy = (y + py) / (BAND * 8);
    if (Math.abs(gx - Math.round(gx)) * COL < 1.6 || Math.abs(gy - Math.round(gy)) * BAND * 8 < 1.6) return null;
    return gy < 5 && gx < PW / COL ? [colour(Math.floor(gx) * 5 + Math.floor(gy))] : null;
  }
  const g = (y + py) / BAND;
  if (Math.abs(g - Math.round(g)) * BAND < 1.6) return null;
  const i = Math.floor(g);
  if (k.glass && i % 3 === 1) return ["rgba(10, 20, 30, 0.5)", "rgb(9, 9, 9)"];
  if (k.glass && i % 3 === 2) return ["rgb(9, 9, 9)"];
  return [colour(i)];
}
interface Seg { scrollX: number; scrollY: number; segmentStartMs: number; segmentEndMs: number; tree: El[]; diffFromPrev: null; easing?: unknown }
function painted(doc: SvgDoc, t: number, pts: Array<[number, number]>): string[][] {
  const leaves = doc.leaves(t, (n) => (n.tag === "rect" || n.tag === "path")).filter((l) => l.visible && l.opacity > 0 && l.fill !== "none" && l.fill !== "transparent");
  return pts.map(([x, y]) => {
    const out: string[] = [];
    for (let i = leaves.length - 1; i >= 0; i--) {
      const l = leaves[i];
      const m = inv(l.m);
      if (m == null) continue;
      const [lx, ly] = apply(m, x, y);
      if (!doc.covers(l, x, y) || !inClips(l.clips, x, y)) { void lx; void ly; continue; }
      const c = color(l.fill);
      if (c == null || c[3] === 0) continue;
      const a = (c[3] ?? 1) * l.opacity;
      out.push(a < 1 ? `rgba(${c[0]}, ${c[1]}, ${c[2]}, ${a})` : `rgb(${c[0]}, ${c[1]}, ${c[2]})`);
      if (a >= 1) break;
    }
    return out;
  });
}
const same = (a: string[], b: string[]): boolean => a.length === b.length && a.every((c, i) => isCol(c, b[i]));
/** scroll position at t: each record's motion runs in its own window and holds in between */
function posAt(segs: Seg[], t: number): { x: number; y: number; ease: boolean; n: number } {
  let p = { x: segs[0].scrollX, y: segs[0].scrollY };
  for (let i = 0; i < segs.length; i++) {
    const s = segs[i];
    if (t >= s.segmentEndMs) { p = { x: s.scrollX, y: s.scrollY }; continue; }
    if (t <= s.segmentStartMs) return { ...p, ease: false, n: i };
    const lin = (t - s.segmentStartMs) / (s.segmentEndMs - s.segmentStartMs);
    const e = s.easing as any;
    const f = e == null ? null : cssEasing(e.kind === "named" ? e.name : e.kind === "steps" ? `steps(${e.count}${e.position ? `, ${e.position}` : ""})` : `cubic-bezier(${e.values.join(",")})`);
    const u = f == null ? lin : f(lin);
    return { x: p.x + (s.scrollX - p.x) * u, y: p.y + (s.scrollY - p.y) * u, ease: f != null, n: i };
  }
  return { ...p, ease: false, n: segs.length };
}
function verify(ctx: Ctx, name: string, segs: Seg[], k: Kind, axis: "x" | "y" | undefined, chunkSize: number | undefined, replay: unknown): void {
  const bad = (key: string, m: string): void => ctx.fail(`${key}:${name}`, `${name}: ${m}`, replay);
  let svg: string;
  try { svg = composeScrollSvg(segs as never, { viewportW: W, viewportH: VH, ...(axis ? { axis } : {}), ...(chunkSize ? { chunkSize } : {}) }); } catch (e) { bad("throws", String(e)); return; }
  ctx.trace();
  const doc = new SvgDoc(svg);
  if (doc.css.errors.length > 0) bad("css", doc.css.errors.join("; "));
  const total = Math.max(1, segs.at(-1)!.segmentEndMs);
  const times = new Set<number>();
  const eps = Math.max(0.2, total * 3e-5);
  let last = 0;
  for (const s of segs) {
    if (s.segmentStartMs - last > 3 * eps) for (const f of [0.02, 0.5, 0.98]) times.add(last + (s.segmentStartMs - last) * f);
    const d = s.segmentEndMs - s.segmentStartMs;
    if (d > 3 * eps) for (const f of [0.13, 0.5, 0.81]) times.add(s.segmentStartMs + d * f);
    if (s.segmentEndMs > eps) times.add(s.segmentEndMs - eps);
    last = s.segmentEndMs;
  }
  times.add(Math.min(eps / 4, total / 3));
  const pts: Array<[number, number]> = [];
  for (let y = 3; y < VH; y += 14) pts.push([k.cols ? (y * 37) % W : 20, y]);
  for (const t of [...times].sort((a, b) => a - b)) {
    const p = posAt(segs, t);
    ctx.step();
    ctx.state(`${Math.round(p.x)},${Math.round(p.y)},${p.n},${JSON.stringify(k)}`);
    // a stepped motion jumps: stay clear of the jump
    const b = posAt(segs, t - eps * 2), a = posAt(segs, t + eps * 2);
    if (Math.abs(a.y - b.y) > 3 || Math.abs(a.x - b.x) > 3) continue;
    const got = painted(doc, t, pts);
    for (let q = 0; q < pts.length; q++) {
      const w = want(k, p.x, p.y, ...pts[q]);
      if (w == null) continue;
      if (!same(got[q], w)) { bad("content", `at ${t.toFixed(1)} of ${total} ms (scrolled to ${p.x.toFixed(1)},${p.y.toFixed(1)}) the point ${pts[q]} shows ${got[q].join(" over ") || "nothing"}, want ${w.join(" over ")}`); return; }
    }
  }
  // a looping animation: the next round is the first again
  const t1 = Math.min(eps / 4, total / 3) + total;
  const again = painted(doc, t1, pts), first = painted(doc, t1 - total, pts);
  if (JSON.stringify(again) !== JSON.stringify(first)) bad("loop", "the second round differs");
}
interface Move { dx?: number; dy?: number; ms: number; gap?: number; e?: unknown; n: string }
const named = (n: string): unknown => ({ kind: "named", name: n });
const MOVES: Move[] = [
  { dy: 200, ms: 1000, n: "+200" }, { dy: 120, ms: 500, n: "+120" }, { dy: -200, ms: 1000, n: "-200" }, { dy: -80.5, ms: 300, n: "-80" }, { dy: 200, ms: 800, gap: 700, n: "wait,+200" }, { dy: -150, ms: 400, gap: 1500, n: "wait,-150" },
  { dy: 200, ms: 1000, e: named("ease-in-out"), n: "+200ease" }, { dy: -200, ms: 1000, e: { kind: "steps", count: 2 }, n: "-200steps" }, { dy: 200, ms: 900, e: named("step-start"), n: "+200stepstart" }, { dy: 0, ms: 600, n: "hold" }, { dy: 190, ms: 0, n: "+190now" }, { dy: 60, ms: 700, e: { kind: "cubic-bezier", values: [0.2, 0.9, 0.4, 1] }, n: "+60cb" },
];
const HMOVES: Move[] = [{ dx: 120, ms: 700, n: "→120" }, { dx: 70.5, ms: 300, gap: 400, n: "wait,→70" }, { dx: -100, ms: 500, e: named("ease-out"), n: "←100ease" }, { dx: 0, ms: 300, n: "hold" }, { dx: 120, ms: 0, n: "→120now" }];
const XY: Move[] = [{ dx: 120, ms: 700, n: "→120" }, { dx: -110, ms: 300, n: "←110" }, { dy: 200, ms: 900, n: "+200" }, { dy: -160, ms: 400, gap: 300, n: "wait,-160" }];
function build(ms: readonly Move[], x0: number, y0: number, k: Kind): Seg[] | null {
  let x = x0, y = y0, t = 0;
  const out: Seg[] = [{ scrollX: x, scrollY: y, segmentStartMs: 0, segmentEndMs: 0, tree: capture(k, x, y), diffFromPrev: null }];
  for (const m of ms) {
    x = Math.max(0, x + (m.dx ?? 0)); y = Math.max(0, y + (m.dy ?? 0));
    t += m.gap ?? 0;
    out.push({ scrollX: x, scrollY: y, segmentStartMs: t, segmentEndMs: t + m.ms, tree: capture(k, x, y), diffFromPrev: null, ...(m.e != null ? { easing: m.e } : {}) });
    t += m.ms;
  }
  return out;
}
/** pattern → executor (on a page of bands) → composer, as the command line does */
async function whole(ctx: Ctx, text: string, k: Kind): Promise<void> {
  let x = 0, y = 0, now = 0;
  const maxX = k.cols ? 900 : 0, maxY = k.cols ? 900 : 3300;
  const page = {
    async evaluate(fn: (a: unknown) => unknown, arg: unknown) {
      const g = globalThis as Record<string, unknown>;
      const de = { scrollWidth: maxX + W, clientWidth: W, scrollHeight: maxY + VH, clientHeight: VH };
      Object.assign(g, { document: { documentElement: de, scrollingElement: de }, window: { get scrollX() { return x; }, get scrollY() { return y; }, scrollTo(a: number, b: number) { x = Math.max(0, Math.min(maxX, a)); y = Math.max(0, Math.min(maxY, b)); } }, HTMLElement: class {} });
      try { return fn(arg); } finally { delete g.document; delete g.window; delete g.HTMLElement; }
    },
    async waitForTimeout(ms: number) { now += ms; },
    async __capture() { return capture(k, x, y); },
  };
  const real = Date.now;
  let segs: Seg[];
  try { Date.now = () => now; segs = await executeScrollPattern(page as never, parseScrollPattern(text), { viewportW: W, viewportH: VH, maxTimeoutMs: 1e9 }); } finally { Date.now = real; }
  const name = `${text} ${JSON.stringify(k)}`;
  // the authored total: scrolls and every pause, the last one included
  const pauses = [...text.matchAll(/(?<![/\d.])(\d+)ms/g)].reduce((a, m) => a + Number(m[1]), 0);
  const timed = [...text.matchAll(/\/(\d+)ms/g)].reduce((a, m) => a + Number(m[1]), 0);
  if (!/until/.test(text)) {
    const svg = composeScrollSvg(segs as never, { viewportW: W, viewportH: VH });
    const doc = new SvgDoc(svg);
    let dur: number | null = null;
    for (const n of walk(doc.root)) { const a = doc.decls(n).get("animation"); if (a != null && dur == null) dur = parseAnimation(a)?.[0].dur ?? null; }
    if (dur != null && Math.abs(dur - (pauses + timed)) > 2) ctx.fail(`total:${name}`, `${name}: the animation lasts ${dur} ms, the pattern ${pauses + timed} ms`, { text, k });
  }
  verify(ctx, `pattern ${name}`, segs, k, undefined, undefined, { text, k });
}
async function explore(ctx: Ctx, shard: { i: number; n: number }): Promise<void> {
  let k = 0;
  const mine = (): boolean => k++ % shard.n === shard.i;
  const run = (ms: readonly Move[], x0: number, y0: number, kind: Kind, axis?: "x" | "y", chunk?: number): void => {
    if (!mine()) return;
    const segs = build(ms, x0, y0, kind);
    if (segs == null) return;
    verify(ctx, `${x0},${y0} ${ms.map((m) => m.n).join(" ")} ${JSON.stringify(kind)}${axis ? ` axis ${axis}` : ""}${chunk ? ` chunk ${chunk}` : ""}`, segs, kind, axis, chunk, { moves: ms, x0, y0, kind, axis });
  };
  const D = ctx.thorough ? 4 : 3;
  for (const w of words(MOVES, 0, D)) for (const y0 of [0, 300]) run(w, 0, y0, { bg: true });
  for (const w of words(MOVES, 1, D - 1)) for (const kind of [{ bg: false }, { bg: false, glass: true }, { bg: true, glass: true }, { bg: true, fixed: "all" }, { bg: true, fixed: "two" }, { bg: false, fixed: "child" }] as Kind[]) run(w, 0, 100, kind);
  for (const w of words(HMOVES, 1, D)) for (const ax of ["x", undefined] as const) for (const x0 of [0, 150]) run(w, x0, 0, { bg: true, cols: true }, ax);
  for (const w of words(XY, 1, D + 1)) run(w, 0, 0, { bg: true, cols: true });
  // long runs: down and back, with every grouping of layers
  const UP = MOVES[2], DN = MOVES[0];
  for (const [a, b, c, cs] of product([1, 2, 3, 5, 8, 12], [0, 1, 2, 4, 7, 12], [0, 1, 3, 6], ctx.thorough ? [1, 2, 3, 7, 99] : [1, 2])) if (b <= a) {
    const ms = [...new Array(a).fill(DN), ...new Array(b).fill(UP), ...new Array(c).fill(DN)];
    run(ms, 0, 0, { bg: true }, undefined, cs);
    run(ms, 0, 0, { bg: true }, "y", cs);
    run(ms.map((m: Move) => ({ ...m, gap: 333, ms: 777 })), 0, 40, { bg: true, fixed: "all" }, undefined, cs);
  }
  // sticky parts pinned all along
  const ST = [DN, UP, { ...DN, gap: 500 }, { dy: 200, ms: 1000, e: named("ease-in"), n: "+200ein" }, { dy: 0, ms: 400, n: "hold" }] as Move[];
  for (const w of words(ST, 1, ctx.thorough ? 6 : 4)) for (const [at, top, until] of product([0, 20, 60], [0, 20, 60], [3000]).filter(([a, b]) => a <= b)) run(w, 0, 0, { bg: true, sticky: { at, top, until, h: 24 } });
  // whole pipeline
  const P = ["100px/500ms", "450px/1000ms", "800ms", "-130px/300ms", "bottom/2000ms", "top/1500ms[ease-in]", "down:100px/400ms[steps(2)]"];
  for (const w of words(P, 1, ctx.thorough ? 4 : 3)) if (mine()) await whole(ctx, w.join(","), { bg: true });
  for (const w of words(["right:150px/400ms", "right/900ms", "left:70px/300ms", "500ms", "180px/300ms", "-90px/200ms"], 1, 3)) if (mine()) await whole(ctx, w.join(","), { bg: true, cols: true });
  for (const t of ["(170px/300ms, 200ms until bottom), (up:370px/500ms until top)", "150px/200ms until 3 times, top/500ms, 300ms", "(right:130px/200ms until right), left:right/100ms"]) if (mine()) await whole(ctx, t, { bg: true });
}
export default defineCheck({
  spec: {
    id: "S03", level: "model_checking",
    bounds: "every word to 3 (thorough 4) of 12 moves (down, up, waits, holds, instant, eased, stepped) from two positions; to 2 (3) on transparent, translucent and fixed-part pages; every horizontal and mixed word; down/up/down runs to 30 segments; pinned sticky parts over words to 4 (6); every pattern of up to 3 (4) of 7 actions through the executor; five instants per record, every band of the page",
    assumptions: ["the page is static; steps between captures are at most one viewport, as the executor guarantees", "sticky parts are pinned in every capture: one that is captured both pinned and flowing is shown by a documented approximation (docs/35)", "content is opaque, or translucent on an opaque page background"],
  },
  shards: 8,
  run: explore,
});
