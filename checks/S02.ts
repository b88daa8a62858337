/** S02: executing a scroll pattern visits exactly the positions, times and holds it denotes (docs/37), and always ends. */
import "../lib/fake-capture.ts";
import { defineCheck, type Ctx } from "../lib/check.ts";
import { imp } from "../lib/repo.ts";
import { el, colour } from "../lib/tree.ts";
import { refParse } from "../lib/scrollref.ts";
const { parseScrollPattern } = await imp("scroll/pattern.ts");
const { executeScrollPattern, ScrollExecutionError } = await imp("scroll/executor.ts");

const VW = 400, VH = 600;
interface PageSpec { maxX: number; maxY: number; x0: number; y0: number; inner?: boolean; grow?: { at: number; by: number }; lazyMs?: number; prescroll?: boolean }
const pageName = (p: PageSpec): string => `${p.maxX}x${p.maxY}@${p.x0},${p.y0}${p.inner ? " inner" : ""}${p.grow ? ` grow${p.grow.at}+${p.grow.by}` : ""}${p.lazyMs != null ? ` lazy${p.lazyMs}` : ""}${p.prescroll ? " prescroll" : ""}`;
/** content coordinates of the named elements (in the scrolled box) */
const ITEMS: Record<string, { x: number; y: number }> = { ".a": { x: 260, y: 1500 }, ".top": { x: 0, y: 40 } };
class Elem { constructor(private f: () => { left: number; top: number; width: number; height: number }) {}
  getBoundingClientRect(): unknown { const r = this.f(); return { ...r, x: r.left, y: r.top, right: r.left + r.width, bottom: r.top + r.height }; } }
/** the page: one scrolled box (the window, or an element inside it), extents that may grow, content that may change late */
class Fake {
  x: number; y: number; maxX: number; maxY: number; now = 0; calls = 0; version = 0; winX = 0; winY = 0;
  grown = false;
  log: Array<{ x: number; y: number; version: number; now: number }> = [];
  moves: Array<{ x: number; y: number }> = [];
  constructor(public s: PageSpec) { this.x = s.x0; this.y = s.y0; this.maxX = s.maxX; this.maxY = s.maxY; if (s.inner) { this.winX = 30; this.winY = 70; } }
  to(x: number, y: number): void {
    this.x = Math.max(0, Math.min(this.maxX, x)); this.y = Math.max(0, Math.min(this.maxY, y));
    this.moves.push({ x: this.x, y: this.y });
    if (this.s.grow != null && !this.grown && this.y >= this.s.grow.at) { this.grown = true; this.maxY += this.s.grow.by; }
  }
  globals(): { document: unknown; window: unknown; HTMLElement: unknown } {
    const me = this, inner = this.s.inner === true;
    const boxLeft = 100, boxTop = 50, bl = 3, bt = 5;
    class Scroller extends Elem {
      get scrollLeft(): number { return me.x; } set scrollLeft(v: number) { me.to(v, me.y); }
      get scrollTop(): number { return me.y; } set scrollTop(v: number) { me.to(me.x, v); }
      get scrollWidth(): number { return me.maxX + VW; } get scrollHeight(): number { return me.maxY + VH; }
      clientWidth = VW; clientHeight = VH; clientLeft = inner ? bl : 0; clientTop = inner ? bt : 0;
      scrollTo(x: number, y: number): void { me.to(x, y); }
    }
    const box = new Scroller(() => (inner ? { left: boxLeft - me.winX, top: boxTop - me.winY, width: VW + 2 * bl, height: VH + 2 * bt } : { left: -me.x, top: -me.y, width: VW, height: VH }));
    const item = (p: { x: number; y: number }): Elem => new Elem(() => (inner
      ? { left: boxLeft - me.winX + bl + p.x - me.x, top: boxTop - me.winY + bt + p.y - me.y, width: 100, height: 20 }
      : { left: p.x - me.x, top: p.y - me.y, width: 100, height: 20 }));
    const docEl = inner ? { scrollWidth: 2000, clientWidth: 1000, scrollHeight: 3000, clientHeight: 1000, scrollLeft: this.winX, scrollTop: this.winY } : box;
    const document = { documentElement: docEl, scrollingElement: docEl, body: docEl, querySelector: (s: string) => (s === "#box" ? (inner ? box : null) : ITEMS[s] ? item(ITEMS[s]) : null) };
    const window = { get scrollX() { return inner ? me.winX : me.x; }, get scrollY() { return inner ? me.winY : me.y; }, get pageXOffset() { return inner ? me.winX : me.x; }, get pageYOffset() { return inner ? me.winY : me.y; }, innerWidth: VW, innerHeight: VH,
      scrollTo(x: number | { left?: number; top?: number }, y?: number) { const [a, b] = typeof x === "object" ? [x.left ?? 0, x.top ?? 0] : [x, y!]; if (inner) { me.winX = a; me.winY = b; } else me.to(a, b); } };
    return { document, window, HTMLElement: Scroller };
  }
  async evaluate(fn: (a: unknown) => unknown, arg: unknown): Promise<unknown> {
    if (++this.calls > 100_000) throw new Error("DOES-NOT-END");
    const g = globalThis as Record<string, unknown>, n = this.globals();
    const old = Object.keys(n).map((k) => [k, g[k]] as const);
    Object.assign(g, n);
    try { return fn(arg); } finally { for (const [k, v] of old) if (v === undefined) delete g[k]; else g[k] = v; }
  }
  async waitForTimeout(ms: number): Promise<void> { this.now += ms; if (this.s.lazyMs != null && this.now >= this.s.lazyMs) this.version = 1; }
  async __capture(): Promise<unknown> {
    this.log.push({ x: this.x, y: this.y, version: this.version, now: this.now });
    return [el({ x: -this.x, y: -this.y, w: this.maxX + VW, h: this.maxY + VH, bg: colour(0), children: [el({ x: 10 - this.x, y: 20 - this.y, w: 50, h: 50, bg: colour(1) }), ...(this.version ? [el({ x: 70 - this.x, y: 20 - this.y, w: 9, h: 9, bg: colour(2) })] : [])] } as never)];
  }
}
// ---- the meaning ----
interface Rec { x: number; y: number; dur: number; easing?: string; gap: number }
interface Meaning { recs: Rec[]; exact: boolean; end?: { axis: "x" | "y"; pos: number } }
type Act = any;
const axisOf = (a: Act): "x" | "y" => {
  if (a.direction) return a.direction === "up" || a.direction === "down" ? "y" : "x";
  const t = a.target;
  if (t.kind === "absolute") {
    if (t.anchor.kind === "named" && /^(left|right)$/.test(t.anchor.name)) return "x";
    if (t.anchor.kind === "named" && /^(top|bottom)$/.test(t.anchor.name)) return "y";
    return t.axisSuffix ?? "y";
  }
  return "y";
};
class Model {
  x: number; y: number; maxX: number; maxY: number; grown = false;
  recs: Rec[] = []; exact = true; gap = 0; ops = 0;
  constructor(public s: PageSpec, public speed: number) { this.x = s.prescroll ? (s.inner ? s.x0 : 0) : s.x0; this.y = s.prescroll ? 0 : s.y0; this.maxX = s.maxX; this.maxY = s.maxY; if (s.prescroll && s.grow != null && s.maxY >= s.grow.at) { this.grown = true; this.maxY += s.grow.by; } }
  max(a: "x" | "y"): number { return a === "x" ? this.maxX : this.maxY; }
  len(l: { value: number; unit: string }, a: "x" | "y"): number { return l.unit === "px" ? l.value : (l.value / 100) * this.max(a); }
  abs(t: any, a: "x" | "y"): number {
    let p: number;
    if (t.anchor.kind === "selector") { const it = ITEMS[t.anchor.cssSelector]; if (it == null) throw new Error("NO-ELEMENT"); p = (t.axisSuffix ?? a) === "x" ? it.x : it.y; }
    else p = /^(top|left|start)$/.test(t.anchor.name) ? 0 : this.max(a);
    for (const o of t.offsets) p += (o.op === "+" ? 1 : -1) * this.len(o.length, a);
    return p;
  }
  /** caps: limits of the enclosing until loops on an axis */
  scroll(a: Act, caps: Array<{ axis: string; target: number; dir: number }>): void {
    if (++this.ops > 4000) { this.exact = false; return; }
    const ax = axisOf(a), cur = this[ax];
    const sign = a.direction ? (/down|right/.test(a.direction) ? 1 : -1) : 0;
    let dest: number;
    if (a.target.kind === "delta") dest = cur + (sign || 1) * a.target.signedLength.sign * this.len(a.target.signedLength, ax);
    else { dest = this.abs(a.target, ax); if (sign !== 0 && (dest - cur) * sign < 0) dest = cur; }
    dest = Math.max(0, Math.min(this.max(ax), dest));
    for (const c of caps) if (c.axis === ax) dest = c.dir > 0 ? Math.min(dest, Math.max(c.target, cur)) : c.dir < 0 ? Math.max(dest, Math.min(c.target, cur)) : dest;
    const dist = Math.abs(dest - cur);
    const D = a.durationMs ?? (dist / (a.speedPxPerSec ?? this.speed)) * 1000;
    const view = ax === "x" ? VW : VH;
    const n = Math.max(1, Math.ceil(dist / view));
    for (let k = 1; k <= n; k++) {
      const to = k === n ? dest : cur + Math.sign(dest - cur) * k * view;
      const from = this[ax];
      this[ax] = to;
      this.recs.push({ x: this.x, y: this.y, dur: dist === 0 ? D : (D * Math.abs(to - from)) / dist, easing: a.easing && JSON.stringify(a.easing), gap: this.gap });
      this.gap = 0;
      if (this.s.grow != null && !this.grown && this.y >= this.s.grow.at) { this.grown = true; this.maxY += this.s.grow.by; }
    }
  }
  /** monotone direction of a body along an axis: ±1, 0 = it never moves on it, null = mixed or depends on the page */
  dir(seg: any, ax: string): number | null {
    let d = 0;
    const acts = seg.kind === "flat" ? seg.actions : null;
    if (acts == null) { for (const s of seg.pattern.segments) { const x = this.dir(s, ax); if (x == null || (x !== 0 && d !== 0 && x !== d)) return null; d = x || d; } return d; }
    for (const a of acts) {
      if (a.kind === "pause" || axisOf(a) !== ax) continue;
      let x: number;
      if (a.target.kind === "delta") x = a.target.signedLength.value === 0 || (a.target.signedLength.unit === "%" && this.max(ax as "x") === 0) ? 0 : (a.direction && /up|left/.test(a.direction) ? -1 : 1) * a.target.signedLength.sign;
      else return null;
      if (x !== 0 && d !== 0 && x !== d) return null;
      d = x || d;
    }
    return d;
  }
  seg(seg: any, caps: Array<{ axis: string; target: number; dir: number }>): void {
    const body = (c: typeof caps): void => { if (seg.kind === "bracketed") for (const s of seg.pattern.segments) this.seg(s, c); else for (const a of seg.actions) { if (!this.exact) return; if (a.kind === "pause") { if (++this.ops > 4000) { this.exact = false; return; } this.gap += a.durationMs; this.recs.push({ x: this.x, y: this.y, dur: a.durationMs, gap: -1 }); } else this.scroll(a, c); } };
    const u = seg.until;
    if (u == null) { body(caps); return; }
    if (u.kind === "count") { for (let i = 0; i < u.count && this.exact; i++) body(caps); return; }
    const t = u.target, ax: "x" | "y" = t.axisSuffix ?? (t.anchor.kind === "named" && /^(left|right)$/.test(t.anchor.name) ? "x" : "y");
    for (let i = 0; ; i++) {
      const target = this.abs(t, ax), cur = this[ax];
      const d = this.dir(seg, ax);
      if (Math.abs(cur - target) < 0.5) return;
      if (d === 1 || d === -1) { if ((target - cur) * d < 0) return; } // already passed
      else { this.exact = false; return; } // mixed bodies: only the general rules
      if (target < 0 || target > this.max(ax)) { this.exact = false; return; } // out of reach: only the general rules
      if (caps.some((c) => c.axis === ax)) { this.exact = false; return; } // nested limits on one axis: general rules
      body([...caps, { axis: ax, target, dir: d }]);
      if (!this.exact || i > 2000) { this.exact = false; return; }
      if (this[ax] === cur) { this.exact = false; return; }
    }
  }
}
const canonE = (e: any): string => (e == null ? "" : JSON.stringify(Object.fromEntries(Object.keys(e).filter((k) => e[k] !== undefined).sort().map((k) => [k, e[k]]))));

async function one(ctx: Ctx, text: string, page: PageSpec, opts: { speed?: number; maxTimeoutMs?: number } = {}): Promise<void> {
  const name = `${text} on ${pageName(page)}${opts.speed ? ` ${opts.speed}pxps` : ""}${opts.maxTimeoutMs ? ` timeout ${opts.maxTimeoutMs}` : ""}`;
  const bad = (k: string, m: string, x: unknown = null): void => ctx.fail(`${k}:${name}`, `${name}: ${m}`, { text, page, opts, x });
  const f = new Fake(page);
  const realNow = Date.now;
  let got: any[] | null = null, err: any = null;
  const hold = globalThis.setTimeout;
  try {
    Date.now = () => f.now;
    got = await executeScrollPattern(f as never, parseScrollPattern(text), { viewportW: VW, viewportH: VH, prescroll: page.prescroll === true, ...(page.inner ? { selector: "#box" } : {}), ...(opts.speed ? { defaultSpeed: opts.speed } : {}), ...(opts.maxTimeoutMs ? { maxTimeoutMs: opts.maxTimeoutMs } : {}) });
  } catch (e) { err = e; } finally { Date.now = realNow; void hold; }
  ctx.trace(); ctx.step(f.moves.length + 1);
  const m = new Model(page, opts.speed ?? 1500);
  const init = { x: m.x, y: m.y };
  let noElement = false;
  try { for (const s of (refParse(text) as any).segments) { if (!m.exact) break; m.seg(s, []); } } catch (e) { if (String(e).includes("NO-ELEMENT")) noElement = true; else throw e; }
  const limit = opts.maxTimeoutMs ?? 60_000;
  if (err != null) {
    if (!(err instanceof ScrollExecutionError)) { bad(String(err).includes("DOES-NOT-END") ? "ends" : "error", String(err)); return; }
    if (/exceeded/.test(err.message)) { if (f.now <= limit) bad("timeout", `gives up after ${f.now} ms: ${err.message}`); ctx.state(`T${text}`); return; }
    if (!noElement) bad("error", String(err));
    return;
  }
  if (noElement) { bad("noelement", "an absent element is not reported"); return; }
  // general rules: bounds, contiguous times, never past the time limit
  const mx = f.maxX, my = f.maxY;
  let t = 0;
  for (const [i, r] of got!.entries()) {
    if (r.scrollX < 0 || r.scrollX > mx || r.scrollY < 0 || r.scrollY > my) { bad("bounds", `record ${i} at ${r.scrollX},${r.scrollY}`); return; }
    if (!(r.segmentStartMs >= t - 1e-6) || !(r.segmentEndMs >= r.segmentStartMs)) { bad("time", `record ${i} spans ${r.segmentStartMs}–${r.segmentEndMs} after ${t}`); return; }
    t = r.segmentEndMs;
    // the last record may be the hold of a closing pause: nothing new was looked at
    const hold = i > 0 && i === got!.length - 1 && r.diffFromPrev == null && r.tree === got![i - 1].tree;
    if ((r.diffFromPrev == null) !== (i === 0) && !hold) bad("diff", `record ${i}: diff ${String(r.diffFromPrev)}`);
  }
  if (got![0].scrollX !== init.x || got![0].scrollY !== init.y || got![0].segmentEndMs !== 0) { bad("initial", `starts at ${got![0].scrollX},${got![0].scrollY}, want ${init.x},${init.y}`); return; }
  if (page.prescroll && m.s.maxY > 0 && !page.inner && !f.moves.some((q) => q.y === m.s.maxY)) bad("prescroll", "the page is not scrolled through first");
  ctx.state(`${got!.map((r) => `${r.scrollX},${r.scrollY},${r.segmentEndMs}`).join(" ")}`);
  if (!m.exact) { ctx.count("general_rules_only"); return; }
  ctx.count("exact");
  // exact: every record in order; pauses are recorded only when the content changed
  let gi = 1, gap = 0, ci = 1, ver = f.log[0].version;
  for (const w of m.recs) {
    const cap = f.log[ci++];
    if (w.gap === -1) { // a pause: its capture is kept only when something changed
      if (cap == null) { bad("pause", "no look at the page after a pause"); return; }
      if (cap.version === ver) { gap += w.dur; continue; }
    }
    const r = got![gi++];
    if (r == null) { bad("short", `${got!.length} records, want at least ${gi}: missing ${JSON.stringify(w)}`, got!.map((q) => [q.scrollX, q.scrollY, q.segmentStartMs, q.segmentEndMs])); return; }
    if (Math.abs(r.scrollX - w.x) > 1e-6 || Math.abs(r.scrollY - w.y) > 1e-6) { bad("position", `record ${gi - 1} at ${r.scrollX},${r.scrollY}, want ${w.x},${w.y}`, m.recs); return; }
    const start = got![gi - 2].segmentEndMs + gap;
    if (Math.abs(r.segmentStartMs - start) > 1e-6) { bad("start", `record ${gi - 1} starts at ${r.segmentStartMs}, want ${start}`, m.recs); return; }
    if (Math.abs(r.segmentEndMs - r.segmentStartMs - w.dur) > 1.01) { bad("duration", `record ${gi - 1} lasts ${r.segmentEndMs - r.segmentStartMs}, want ${w.dur}`, m.recs); return; }
    if (canonE(r.easing) !== (w.easing == null ? "" : canonE(JSON.parse(w.easing)))) { bad("easing", `record ${gi - 1}: ${canonE(r.easing)} want ${w.easing}`); return; }
    const red = r.tree[0].children[0];
    if (red.x !== 10 - w.x || red.y !== 20 - w.y) bad("tree", `record ${gi - 1} holds the page at ${10 - red.x},${20 - red.y}`);
    ver = cap?.version ?? ver;
    gap = 0;
  }
  // a closing pause that changed nothing still lasts
  if (gap > 0) {
    const end = got![gi - 1].segmentEndMs + gap, l = got!.at(-1), p = got![gi - 1];
    if (Math.abs(l.segmentEndMs - end) > 1e-6 || l.scrollX !== p.scrollX || l.scrollY !== p.scrollY) { bad("closing", `the closing pause ends at ${l.segmentEndMs}, want ${end}`); return; }
    if (gi === got!.length - 1) gi++;
  }
  if (gi !== got!.length) { bad("long", `${got!.length} records, want ${gi}`, got!.map((q) => [q.scrollX, q.scrollY, q.segmentStartMs, q.segmentEndMs])); return; }
  // whole-action durations are the authored ones
  const acts = (refParse(text) as any).segments;
  if (acts.length === 1 && acts[0].kind === "flat" && acts[0].until == null && acts[0].actions.length === 1 && acts[0].actions[0].durationMs != null && acts[0].actions[0].kind === "scroll") {
    const D = acts[0].actions[0].durationMs;
    if (Math.abs(got!.at(-1).segmentEndMs - D) > 1e-6) bad("total", `a ${D} ms scroll is recorded over ${got!.at(-1).segmentEndMs} ms`);
  }
}
const ACTS = ["700px", "-300px", "50%", "up:250.5px", "down:bottom", "top", "up:top + 200px", "bottom - 10%/3s[ease-in]", "right:420px", "left:-130px", "end.x", "left", "selector(\".a\")", "right:selector(\".a\").x - 5px", "selector(\".top\") + 1px/1s", "700px/1s", "1700px/1000ms[steps(3)]", "700px@350pxps", "2s", "pause:300ms", "0px", "down:top", "down:-100px", "right:selector(\".a\")"];
const UNTILS = ["", " until 3 times", " until bottom", " until bottom - 1000px", " until top", " until top + 200px", " until right", " until start.x + 120px", " until selector(\".a\")", " until selector(\".a\").x", " until bottom + 50px", " until top - 1px"];
const PAGES: PageSpec[] = [
  { maxX: 0, maxY: 4000, x0: 0, y0: 0 }, { maxX: 900, maxY: 2500, x0: 450, y0: 1234 }, { maxX: 900, maxY: 2500, x0: 900, y0: 2500 }, { maxX: 30, maxY: 250, x0: 0, y0: 100 }, { maxX: 0, maxY: 0, x0: 0, y0: 0 },
  { maxX: 900, maxY: 2600, x0: 10, y0: 20, inner: true }, { maxX: 0, maxY: 1900, x0: 0, y0: 0, grow: { at: 1500, by: 800 } }, { maxX: 500, maxY: 1700, x0: 100, y0: 900, lazyMs: 700 }, { maxX: 500, maxY: 3333, x0: 100, y0: 900, prescroll: true, lazyMs: 3000 }, { maxX: 500, maxY: 2000, x0: 100, y0: 900, prescroll: true, inner: true },
];
async function explore(ctx: Ctx, shard: { i: number; n: number }): Promise<void> {
  let k = 0;
  const mine = (): boolean => k++ % shard.n === shard.i;
  const bodies = [...ACTS, ...ACTS.flatMap((a) => ACTS.map((b) => `${a}, ${b}`))];
  for (const b of bodies) for (const u of UNTILS) for (const p of PAGES) if (mine()) await one(ctx, b + u, p);
  // two and nested segments
  const S = ["700px", "-300px", "right:420px", "2s", "700px, 300ms", "up:250.5px", "50%"];
  const U = ["", " until 2 times", " until bottom - 1000px", " until top + 200px", " until right"];
  const segs = S.flatMap((s) => U.map((u) => s + u));
  const ps = ctx.thorough ? PAGES : [PAGES[1], PAGES[5], PAGES[7]];
  for (const a of segs) for (const b of segs) for (const p of ps) {
    if (mine()) await one(ctx, `(${a}), ${b}`, p);
    for (const u of U) if (mine()) await one(ctx, `(${a}, ${b})${u}`, p);
  }
  if (ctx.thorough) for (const a of segs) for (const b of segs) for (const c of segs) if (mine()) await one(ctx, `(${a}), (${b}), ${c}`, PAGES[k % PAGES.length]);
  if (ctx.thorough) for (const a of ACTS) for (const b of ACTS) for (const c of ACTS) for (const u of ["", " until 2 times"]) if (mine()) await one(ctx, `${a}, ${b}, ${c}${u}`, PAGES[k % PAGES.length]);
  // every whole duration over every number of chunks; every speed
  for (let d = 1; d <= (ctx.thorough ? 3000 : 400); d++) for (const px of [300, 1100, 1700, 2400.5, 3999]) if (mine()) await one(ctx, `${px}px/${d}ms`, PAGES[0]);
  for (const sp of [1, 37, 300, 1499.5, 10000]) for (const b of ["700px", "down:bottom", "3999px", "700px until bottom - 1000px", "700px@100pxps", "50% until bottom"]) for (const p of PAGES) if (mine()) await one(ctx, b, p, { speed: sp, maxTimeoutMs: 600_000 });
  // absent elements; time limits
  for (const t of ["selector(\".zz\")", "700px until selector(\".zz\")", "700px, selector(\".zz\").x + 1px"]) if (mine()) await one(ctx, t, PAGES[0]);
  for (const t of ["2s until 100 times", "2s until 29 times", "2s until 31 times", "1px until bottom", "100px/0ms, -100px/0ms until 5000 times", "1s until bottom", "0px until bottom", "((1px until 1000 times) until 1000 times) until 1000 times", "0ms until 3000 times"]) for (const ms of [1000, 60_000]) for (const p of [PAGES[0], PAGES[4]]) if (mine()) await one(ctx, t, p, { maxTimeoutMs: ms });
}
export default defineCheck({
  spec: {
    id: "S02", level: "model_checking",
    bounds: "every body of one or two of 24 actions under each of 12 until clauses on 10 pages (window and inner scrollers, growing and late-changing content, starting mid-page, unscrollable); every pair and nesting of 35 segments under 5 outer loops on 3 (thorough 10) pages, thorough all triples; durations of 1–400 (3000) ms over five distances; five default speeds; time limits",
    assumptions: ["the page is a DOM with one scrolled box; waits advance a virtual clock", "an until loop whose body moves both ways on its axis, or whose target is out of reach or doubly limited, is held only to the general rules: bounds, contiguous times, termination"],
  },
  shards: 8,
  run: explore,
});
