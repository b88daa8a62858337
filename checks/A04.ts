import { defineCheck, words, type Ctx } from "../lib/check.ts";
import { imp } from "../lib/repo.ts";
import { SvgDoc, apply, inv, mul, type Leaf, type M } from "../lib/player.ts";

const { generateAnimatedSvg } = await imp("animation/animator.ts");
const { cursorGlyphSvg } = await imp("animation/cursor-glyphs.ts");
const { buildCursorOverlay } = await imp("cli/animate.ts");

console.warn = () => {}; // unresolvable selectors are part of the space
const W = 400, H = 300;
interface FrameSpec { duration: number; transition: { type: string; duration: number } }
interface Scene { name: string; frames: FrameSpec[]; starts: number[]; total: number }
const scene = (name: string, ...fs: Array<[number, number]>): Scene => {
  const frames = fs.map(([duration, tr]) => ({ duration, transition: tr === 0 ? { type: "cut", duration: 0 } : { type: "crossfade", duration: tr } }));
  const starts: number[] = []; let t = 0;
  for (const f of frames) { starts.push(t); t += f.duration + f.transition.duration; }
  return { name, frames, starts, total: t };
};
type Ev = Record<string, any> & { type: string; t: number };

/* what the page under the pointer looks like: three vertical bands, laid out differently in every frame */
const BANDS = [["default", "pointer", "text"], ["text", "default", "pointer"], ["pointer", "grab", "default"]];
const zone = (x: number, frame: number): string => BANDS[Math.min(frame, 2)][x < 100 ? 0 : x < 200 ? 1 : 2];
/* #a is an element that moves between frames; #gone is in no frame, #late only from the second on */
const BOX = (sel: string, frame: number): { x: number; y: number; w: number; h: number } | null => sel === "#a" ? { x: 140 + 60 * frame, y: 80, w: 40, h: 20 } : sel === "#late" && frame > 0 ? { x: 10, y: 200, w: 20, h: 20 } : null;

/* ---- reference: what docs/13 says the script means ---- */
interface Seg { t: number; x0: number; y0: number; x1: number; y1: number; dur: number; visible: boolean; cursor?: string }
interface Click { t: number; x: number; y: number; button: string; dur: number; radius: number }
class Script {
  segs: Seg[] = [{ t: -1e9, x0: 0, y0: 0, x1: 0, y1: 0, dur: 0, visible: false }];
  clicks: Click[] = [];
  constructor(events: Ev[], public sc: Scene, style: Record<string, any> = {}) {
    for (const ev of [...events].sort((a, b) => a.t - b.t)) {
      const c = this.at(ev.t);
      if (ev.type === "show") this.segs.push({ t: ev.t, x0: ev.x, y0: ev.y, x1: ev.x, y1: ev.y, dur: 0, visible: true, cursor: ev.cursor });
      else if (ev.type === "hide") this.segs.push({ t: ev.t, x0: c.x, y0: c.y, x1: c.x, y1: c.y, dur: 0, visible: false });
      else if (ev.type === "click") this.clicks.push({ t: ev.t, x: c.x, y: c.y, button: ev.button ?? "primary", dur: ev.style?.pulseDurationMs ?? style.pulseDurationMs ?? 500, radius: ev.style?.pulseRadius ?? style.pulseRadius ?? 32 });
      else {
        let to: { x: number; y: number } | null = null;
        if (ev.to != null) to = ev.to;
        else if (ev.by != null) to = { x: c.x + ev.by.dx, y: c.y + ev.by.dy };
        else { const b = BOX(ev.selector, this.frame(ev.t)); if (b != null) to = { x: b.x + b.w / 2 + (ev.offset?.dx ?? 0), y: b.y + b.h / 2 + (ev.offset?.dy ?? 0) }; }
        if (to == null) continue;
        const dur = ev.duration ?? 0;
        this.segs.push({ t: ev.t, x0: dur > 0 ? c.x : to.x, y0: dur > 0 ? c.y : to.y, x1: to.x, y1: to.y, dur, visible: true, cursor: ev.cursor });
      }
    }
  }
  frame(t: number): number { let i = 0; this.sc.starts.forEach((s, k) => { if (t >= s) i = k; }); return i; }
  seg(t: number): Seg { let s = this.segs[0]; for (const q of this.segs) if (q.t <= t) s = q; return s; }
  at(t: number): { x: number; y: number; visible: boolean; cursor?: string } {
    const s = this.seg(t), f = s.dur > 0 ? Math.min(1, (t - s.t) / s.dur) : 1;
    return { x: s.x0 + (s.x1 - s.x0) * f, y: s.y0 + (s.y1 - s.y0) * f, visible: s.visible, cursor: s.cursor };
  }
  /** instants between which position, visibility, glyph rule are smooth */
  knots(): number[] {
    const k = new Set<number>([0, this.sc.total, ...this.sc.starts]);
    for (const s of this.segs) { k.add(s.t); k.add(s.t + s.dur); if (s.x1 !== s.x0) for (const b of [100, 200]) { const f = (b - s.x0) / (s.x1 - s.x0); if (f > 0 && f < 1) k.add(s.t + f * s.dur); } }
    for (const c of this.clicks) { k.add(c.t); k.add(c.t + c.dur); }
    return [...k].filter((t) => t >= 0 && t <= this.sc.total).sort((a, b) => a - b);
  }
  glyph(t: number): string | null {
    const s = this.at(t);
    if (!s.visible) return null;
    const g = s.cursor ?? zone(s.x, this.frame(t));
    return g === "none" ? null : g;
  }
}

/* ---- how each glyph draws itself when its hotspot is at the origin ---- */
const SHAPES = new Set(["path", "line", "circle", "rect", "polyline", "polygon", "ellipse"]);
const isHalf = (l: Leaf): boolean => l.node.tag === "path" && l.fill.replace(/\s/g, "") === "rgba(0,0,0,0.2)";
const isRing = (l: Leaf): boolean => l.node.tag === "circle";
/** does the half disc (a path of one arc) cover the point? */
function inHalf(l: Leaf, x: number, y: number): boolean {
  const m = /^\s*M\s*([-\d.]+)[\s,]+([-\d.]+)\s*A\s*([-\d.]+)[\s,]+([-\d.]+)[\s,]+[-\d.]+[\s,]+([01])[\s,]+([01])[\s,]+([-\d.]+)[\s,]+([-\d.]+)\s*Z/.exec(l.node.attrs.get("d") ?? "");
  if (m == null) return false;
  const [ax, ay, r, , , sweep, bx, by] = m.slice(1).map(Number), i = inv(l.m)!, [px, py] = apply(i, x, y);
  const cx = (ax + bx) / 2, cy = (ay + by) / 2;
  if (Math.hypot(px - cx, py - cy) > r) return false;
  return ((bx - ax) * (py - ay) - (by - ay) * (px - ax)) * (sweep === 1 ? 1 : -1) < 0;
}
const sig = (l: Leaf): string => `${l.node.tag}:${[...l.node.attrs].filter(([k]) => ["d", "points", "x1", "y1", "x2", "y2", "x", "y", "width", "height", "cx", "cy", "r"].includes(k)).map(([k, v]) => `${k}=${v}`).sort().join(",")}`;
const KINDS = ["default", "pointer", "text", "grab", "crosshair", "e-resize"];
const STD = new Map<string, { sig: string; m: M }>();
function std(scale: number): typeof STD {
  const out: typeof STD = new Map();
  for (const k of KINDS) {
    const ls = new SvgDoc(`<svg xmlns="http://www.w3.org/2000/svg" width="99" height="99">${cursorGlyphSvg(k, 0, 0, 22 * scale, "rgb(0, 0, 0)")}</svg>`).leaves(0, (n) => SHAPES.has(n.tag));
    out.set(ls.map(sig).join("|"), { sig: k, m: ls[0].m });
  }
  return out;
}
const STDS = new Map<number, typeof STD>();

interface Played { kind: string | null; x: number; y: number; n: number }
function pointer(ls: Leaf[], scale: number, bad: (w: string) => void): Played | null {
  const vis = ls.filter((l) => l.visible && l.opacity > 0.01 && !isRing(l) && !isHalf(l));
  if (vis.length === 0) return null;
  if (vis.some((l) => Math.abs(l.opacity - 1) > 0.01)) bad("pointer half transparent");
  let t = STDS.get(scale);
  if (t == null) STDS.set(scale, (t = std(scale)));
  const s = vis.map(sig).join("|"), k = t.get(s);
  if (k != null) {
    const r = mul(vis[0].m, inv(k.m)!);
    if (Math.abs(r[0] - 1) + Math.abs(r[1]) + Math.abs(r[2]) + Math.abs(r[3] - 1) > 1e-6) bad("pointer scaled or turned");
    return { kind: k.sig, x: r[4], y: r[5], n: 1 };
  }
  if (vis.length === 1 && /^M\s*0[ ,]0/.test(vis[0].node.attrs.get("d") ?? "")) { const [x, y] = apply(vis[0].m, 0, 0); return { kind: "arrow", x, y, n: 1 }; }
  return { kind: "?", x: NaN, y: NaN, n: vis.length };
}

export function judge(ctx: Ctx, fam: string, key: string, sc: Scene, overlay: { events: Ev[]; style?: Record<string, any> }, ref: Script, auto: boolean): void {
  ctx.trace();
  let failed = false;
  const bad = (why: string): void => { failed = true; ctx.fail(`${fam}:${why.split(":")[0]} ${sc.name} ${key}`, `${fam} ${sc.name}${auto ? " auto" : ""} ${key}: ${why}`, { fam, scene: sc.name, auto, overlay }); };
  let svg: string;
  try {
    svg = generateAnimatedSvg({ width: W, height: H, frames: sc.frames.map((f) => ({ svgContent: `<g/>`, ...f })), cursorOverlay: overlay, resolveSelector: (s: string, f: number) => BOX(s, f), ...(auto ? { resolveCursorAt: (x: number, _y: number, f: number) => zone(x, f) } : {}) });
  } catch (e) { return bad(`throws: ${(e as Error).message}`); }
  const P = sc.total, el = 0.25 + P * 3e-5, scale = overlay.style?.cursorScale ?? 1;
  const d = new SvgDoc(svg);
  const lv = (t: number): Leaf[] => d.leaves(t, (n) => SHAPES.has(n.tag)).filter((l) => l.fill !== "__" && (isRing(l) || isHalf(l) || inOverlay(l)));
  const ks = ref.knots(), times: number[] = [];
  for (let i = 0; i + 1 < ks.length; i++) { const a = ks[i] + el, b = ks[i + 1] - el; if (b > a) times.push(a, a + (b - a) * 0.2, (a + b) / 2, a + (b - a) * 0.7, b); }
  // a glyph window shorter than the documented sampling step may be missed
  const step = Math.max(8, Math.min(40, P / 400));
  for (let i = 0; i < times.length && !failed; i++) {
    const t = times[i], want = ref.at(t);
    ctx.step();
    const ls = lv(t), got = pointer(ls, scale, bad);
    if (failed) return;
    const slow = ref.seg(t), v = slow.dur > 0 && t < slow.t + slow.dur ? (Math.abs(slow.x1 - slow.x0) + Math.abs(slow.y1 - slow.y0)) / slow.dur : 0;
    const near = got != null && Math.abs(got.x - want.x) <= 0.02 + v * el && Math.abs(got.y - want.y) <= 0.02 + v * el;
    if (!auto) {
      if ((got != null) !== want.visible) return bad(`visibility: at ${t.toFixed(1)} ms the pointer is ${got != null ? "shown" : "not shown"}`);
      if (got != null && !near) return bad(`position: at ${t.toFixed(1)} ms it is at ${got.x.toFixed(1)},${got.y.toFixed(1)}, the script has it at ${want.x.toFixed(1)},${want.y.toFixed(1)}`);
      if (got != null && got.kind !== "arrow") return bad(`glyph: ${got.kind} without a hit test`);
    } else {
      if (got != null && want.visible && !near) return bad(`position: at ${t.toFixed(1)} ms it is at ${got.x.toFixed(1)},${got.y.toFixed(1)}, the script has it at ${want.x.toFixed(1)},${want.y.toFixed(1)}`);
      const g = ref.glyph(t);
      if ((got?.kind ?? null) !== g && runLength(ref, ks, t, g) >= step * 2) return bad(`glyph: at ${t.toFixed(1)} ms the pointer is ${got?.kind ?? "not shown"}, it is over ${g ?? "nothing / hidden"}`);
    }
    // rings: exactly the clicks whose pulse is under way
    const vis = ls.filter((l) => l.visible && l.opacity > 0.02 && (isRing(l) || isHalf(l)));
    const due = ref.clicks.filter((c) => t > c.t && t < Math.min(P, c.t + c.dur));
    if (vis.some(isHalf) && !due.some((c) => c.button === "secondary")) return bad(`pulse: at ${t.toFixed(1)} ms the half disc of a secondary click shows, none is under way`);
    for (const l of vis) {
      const at = isRing(l) ? apply(l.m, Number(l.node.attrs.get("cx")), Number(l.node.attrs.get("cy"))) : null;
      if (at != null && !due.some((c) => Math.abs(c.x - at[0]) < 0.02 && Math.abs(c.y - at[1]) < 0.02)) return bad(`pulse: at ${t.toFixed(1)} ms a ring is drawn at ${at.map((x) => x.toFixed(1))}, no click there is under way`);
    }
    for (const c of due) {
      const f = (t - c.t) / (Math.min(P, c.t + c.dur) - c.t);
      if (f < 0.1 || f > 0.9) continue;
      const mine = vis.filter((l) => isRing(l) && near2(apply(l.m, Number(l.node.attrs.get("cx")), Number(l.node.attrs.get("cy"))), c));
      if (mine.length === 0) return bad(`pulse: at ${t.toFixed(1)} ms no ring at ${c.x.toFixed(1)},${c.y.toFixed(1)}, clicked at ${c.t.toFixed(1)} ms`);
      const same = ref.clicks.filter((q) => t > q.t - el && t < q.t + q.dur + el && Math.hypot(q.x - c.x, q.y - c.y) < 90);
      if (same.length > 1) continue;
      const r = Math.max(...mine.map((l) => Math.abs(l.m[0]) * Number(l.node.attrs.get("r"))));
      if (r > c.radius + 0.5 || r < 1) return bad(`pulse: the ring is ${r.toFixed(1)} px wide, authored ${c.radius}`);
      if (f > 0.65 && r < c.radius * 0.5) return bad(`pulse: the ring has only grown to ${r.toFixed(1)} px at ${(f * 100).toFixed(0)} % of its time, authored ${c.radius}`);
      const half = vis.filter((l) => isHalf(l) && inHalf(l, c.x + 3, c.y + 1));
      if ((half.length > 0) !== (c.button === "secondary")) return bad(`pulse: ${c.button} click ${half.length > 0 ? "with" : "without"} the half disc of a secondary click`);
      if (vis.some((l) => isHalf(l) && inHalf(l, c.x - 3, c.y + 1))) return bad(`pulse: half disc on the left`);
    }
  }
  // the next lap is the same
  if (times.length > 0 && !failed) {
    const t = times[Math.floor(times.length / 2)], a = pointer(lv(t), scale, bad), b = pointer(lv(t + P), scale, bad);
    if ((a == null) !== (b == null) || (a != null && (Math.abs(a.x - b!.x) > 0.05 || a.kind !== b!.kind))) bad(`loop: differs in the second lap at ${t.toFixed(1)} ms`);
  }
  ctx.outcome(`${ref.segs.length}:${ref.clicks.length}`);
}
const near2 = (p: number[], c: { x: number; y: number }): boolean => Math.abs(c.x - p[0]) < 0.02 && Math.abs(c.y - p[1]) < 0.02;
/** everything painted in these scenes is the overlay's, but for the backdrop the document draws */
function inOverlay(l: Leaf): boolean { for (let n: any = l.node; n != null; n = n.parent) if (/cursor/.test(n.attrs?.get("class") ?? "")) return true; return false; }
function runLength(ref: Script, ks: number[], t: number, g: string | null): number {
  let i = 0; while (i + 1 < ks.length && ks[i + 1] <= t) i++;
  let a = i, b = i;
  const gl = (k: number): string | null => ref.glyph((ks[k] + ks[k + 1]) / 2);
  // (the instant of a new event or frame itself belongs to neither side)
  const cut = (k: number): boolean => ref.segs.some((s) => s.t === ks[k]) || ref.sc.starts.includes(ks[k]);
  while (a > 0 && gl(a - 1) === g && !cut(a)) a--;
  while (b + 2 < ks.length && gl(b + 1) === g && !cut(b + 1)) b++;
  return ks[b + 1] - ks[a];
}

/* ---- the space ---- */
const OPS: Array<[string, (t: number) => Ev]> = [
  ["show", (t) => ({ type: "show", t, x: 40, y: 50 })],
  ["show2", (t) => ({ type: "show", t, x: 250, y: 120 })],
  ["jump", (t) => ({ type: "move", t, to: { x: 150, y: 40 } })],
  ["slide", (t) => ({ type: "move", t, duration: 240, to: { x: 310, y: 200 } })],
  ["slideBack", (t) => ({ type: "move", t, duration: 130, to: { x: 20, y: 220 } })],
  ["by", (t) => ({ type: "move", t, duration: 160, by: { dx: -70, dy: 30 } })],
  ["nudge", (t) => ({ type: "move", t, by: { dx: 60, dy: 0 } })],
  ["sel", (t) => ({ type: "move", t, duration: 200, selector: "#a", offset: { dx: 5, dy: -5 } })],
  ["late", (t) => ({ type: "move", t, duration: 90, selector: "#late" })],
  ["click", (t) => ({ type: "click", t })],
  ["right", (t) => ({ type: "click", t, button: "secondary", style: { pulseDurationMs: 420, pulseRadius: 20 } })],
  ["hide", (t) => ({ type: "hide", t })],
  ["force", (t) => ({ type: "move", t, duration: 180, to: { x: 200, y: 100 }, cursor: "crosshair" })],
  ["none", (t) => ({ type: "show", t, x: 60, y: 60, cursor: "none" })],
];
const DTS = [0, 60, 170, 400];
const SCENES = [scene("one", [1100, 0]), scene("three", [400, 0], [300, 200], [700, 100]), scene("long", [500, 0], [30000, 300], [400, 0])];

function runHistory(ctx: Ctx, sc: Scene, word: Array<[number, number]>, auto: boolean, style?: Record<string, any>, reorder = false): void {
  let t = 0;
  const events = word.map(([op, dt]) => { t += DTS[dt]; return OPS[op][1](t); });
  const key = word.map(([op, dt]) => `${DTS[dt]}+${OPS[op][0]}`).join(",") + (reorder ? " listed backwards" : "") + (style != null ? ` ${JSON.stringify(style)}` : "");
  const list = reorder ? [...events].reverse() : events;
  ctx.state(`${sc.name} ${auto} ${key}`);
  judge(ctx, "script", key, sc, { events: list, style }, new Script(list, sc, style), auto);
}

/* ---- the CLI's builder ---- */
function runAuto(ctx: Ctx, durs: number[], cont: boolean[], targets: number[], name: string): void {
  const sc = scene(name, ...durs.map((d, i): [number, number] => [d, i % 2 === 0 ? 200 : 0]));
  const fr = sc.frames.map((f, i) => ({ ...f, ...(i === 0 || !cont[i] ? { input: "a.html" } : { continue: true }) }));
  const tg = targets.map((f, k) => ({ frame: f, cx: 30 + 90 * k, cy: 40 + 50 * (k % 3) })).sort((a, b) => a.frame - b.frame);
  const key = `${durs}/${cont.map(Number).join("")}/${targets}`;
  ctx.state(`auto ${key}`);
  const ov = buildCursorOverlay(true, [], undefined, tg, new Map(), sc.starts, fr);
  if (ov == null) { if (tg.length > 0) ctx.fail(`auto:lost ${key}`, `no overlay for ${key}`, { durs, cont, targets }); return; }
  const bad = (w: string): void => ctx.fail(`auto:${w.split(":")[0]} ${key}`, `auto ${key}: ${w}`, { durs, cont, targets, events: ov.events });
  const clicks = ov.events.filter((e: Ev) => e.type === "click").sort((a: Ev, b: Ev) => a.t - b.t);
  if (clicks.length !== tg.length) return bad(`clicks: ${clicks.length} clicks for ${tg.length} interactions`);
  const ref = new Script(ov.events, sc);
  // interactions come in the order of their stages; within one, in the order performed
  const stage = tg.map((x) => (x.frame === 0 || !cont[x.frame] ? x.frame : x.frame - 1));
  const order = tg.map((_, i) => i).sort((a, b) => stage[a] - stage[b]);
  order.forEach((i, k) => {
    const c = ref.clicks[k], x = tg[i], s = stage[i];
    if (c.t < sc.starts[s] - 0.01 || c.t > sc.starts[s] + durs[s] + 0.01) bad(`stage: click ${k} at ${c.t} ms is outside the hold of frame ${s}`);
    if (Math.abs(c.x - x.cx) > 0.01 || Math.abs(c.y - x.cy) > 0.01) bad(`target: when click ${k} happens (${c.t.toFixed(1)} ms) the pointer is at ${c.x.toFixed(1)},${c.y.toFixed(1)}, the target is ${x.cx},${x.cy}`);
  });
  judge(ctx, "auto", key, sc, ov, ref, false);
}
const EXPL: Array<[string, (f: number, at: number) => Record<string, any>]> = [
  ["move", (frame, at) => ({ type: "move", frame, at, to: { x: 90, y: 70 } })],
  ["moveOff", (frame, at) => ({ type: "move", frame, at, duration: 100, to: { x: 200, y: 30 }, offset: { dx: 7, dy: 9 } })],
  ["selClick", (frame, at) => ({ type: "moveClick", frame, at, duration: 150, selector: "#b", offset: { dx: -4, dy: 2 } })],
  ["moveClick", (frame, at) => ({ type: "moveClick", frame, at, to: { x: 20, y: 20 }, button: "secondary" })],
  ["click", (frame, at) => ({ type: "click", frame, at })],
  ["hide", (frame, at) => ({ type: "hide", frame, at })],
  ["lost", (frame, at) => ({ type: "moveClick", frame, at, selector: "#none" })],
];
function runExplicit(ctx: Ctx, sc: Scene, word: Array<[number, number, number]>): void {
  const input = word.map(([op, f, at]) => EXPL[op][1](f, at));
  const key = word.map(([op, f, at]) => `${EXPL[op][0]}@${f}:${at}`).join(",");
  ctx.state(`explicit ${sc.name} ${key}`);
  const boxes = new Map(sc.frames.map((_, i) => [`${i}:#b`, { cx: 100 + 50 * i, cy: 150 }]));
  const style = { pulseRadius: 24, pulseDurationMs: 300, scale: 2 };
  const ov = buildCursorOverlay(false, input, style, [], boxes, sc.starts, []);
  const want: Ev[] = [];
  for (const e of input) {
    const t = sc.starts[e.frame] + e.at;
    if (e.type === "hide" || e.type === "click") { want.push({ type: e.type, t }); continue; }
    const b = e.to ?? (e.selector === "#b" ? { x: boxes.get(`${e.frame}:#b`)!.cx, y: 150 } : null);
    if (b == null) continue;
    const to = { x: b.x + (e.offset?.dx ?? 0), y: b.y + (e.offset?.dy ?? 0) }, duration = e.duration ?? 400;
    want.push({ type: "move", t, duration, to });
    if (e.type === "moveClick") want.push({ type: "click", t: t + duration, button: e.button });
  }
  if (ov == null) { if (want.length > 0) ctx.fail(`explicit:lost ${key}`, `no overlay for ${key}`, { input }); return; }
  judge(ctx, "explicit", key, sc, ov, new Script(want, sc, { pulseRadius: 24, pulseDurationMs: 300 }), false);
}

export default defineCheck({
  shards: 8,
  spec: {
    id: "A04",
    bounds: "every script of up to 2 events (thorough 3) over 14 kinds of event and 4 gaps in 3 scenes, with and without the hit test (3 events at 2 gaps in quick); scripts listed backwards, with a global style; every assignment of 1-3 interactions to the frames of 1-3-frame recordings with short and long holds, continued or reloaded; every explicit script of 2 (thorough 3) authored events over 7 kinds and 2 frames",
    assumptions: ["an event that comes while a move is under way starts from where the pointer is then", "a glyph window shorter than twice the sampling step (8-40 ms) is not judged"],
  },
  run(ctx, sh) {
    let job = 0;
    const mine = (): boolean => job++ % sh.n === sh.i;
    // glyph hot spots: the arrow's and the hand's tip near the top (left), the beams' in the middle
    if (sh.i === 0) for (const k of KINDS) {
      const ls = new SvgDoc(`<svg xmlns="http://www.w3.org/2000/svg" width="99" height="99">${cursorGlyphSvg(k, 0, 0, 24)}</svg>`).leaves(0, (n) => SHAPES.has(n.tag));
      ctx.trace();
      const box = [1e9, 1e9, -1e9, -1e9], d = new SvgDoc("<svg xmlns='http://www.w3.org/2000/svg'/>");
      for (const l of ls) { const b = l.node.tag === "line" ? null : d.bbox(l.node); if (b == null) continue; for (const [x, y] of [[b[0], b[1]], [b[0] + b[2], b[1] + b[3]], [b[0], b[1] + b[3]], [b[0] + b[2], b[1]]]) { const q = apply(l.m, x, y); box[0] = Math.min(box[0], q[0]); box[1] = Math.min(box[1], q[1]); box[2] = Math.max(box[2], q[0]); box[3] = Math.max(box[3], q[1]); } }
      if (box[0] > 1e8) continue;
      const cx = (box[0] + box[2]) / 2, cy = (box[1] + box[3]) / 2;
      if (k === "default" && (Math.abs(box[0]) > 4 || Math.abs(box[1]) > 4)) ctx.fail(`hotspot ${k}`, `the arrow's tip is off its point: box ${box.map((x) => x.toFixed(1))}`, { k });
      if (k === "pointer" && (Math.abs(box[1]) > 4 || box[0] > 0 || box[2] < 0)) ctx.fail(`hotspot ${k}`, `the hand's tip is off its point: box ${box.map((x) => x.toFixed(1))}`, { k });
      if (!["default", "pointer"].includes(k) && (Math.abs(cx) > 3 || Math.abs(cy) > 3)) ctx.fail(`hotspot ${k}`, `${k} is not centred on its point: box ${box.map((x) => x.toFixed(1))}`, { k });
    }
    const evs: Array<[number, number]> = OPS.flatMap((_, o) => DTS.map((_d, k): [number, number] => [o, k]));
    const few: Array<[number, number]> = OPS.flatMap((_, o) => [[o, 1], [o, 2]] as Array<[number, number]>);
    for (const sc of SCENES) for (const auto of [false, true]) {
      for (const w of words(evs, 1, 2)) { if (mine()) runHistory(ctx, sc, w, auto); }
      for (const w of words(evs, 2, 2)) if (sc === SCENES[1] && mine()) runHistory(ctx, sc, w, auto, { cursorScale: 1.5, pulseRadius: 48, pulseDurationMs: 260 }, true);
      const three = ctx.thorough && sc === SCENES[1] ? evs : few;
      if (ctx.thorough || sc === SCENES[1]) for (const w of words(three, 3, 3)) if (mine()) runHistory(ctx, sc, w, auto);
    }
    for (const n of [1, 2, 3]) for (const durs of words([100, 700, 2500], n, n)) for (const cont of words([true, false], n, n)) {
      if (cont[0]) continue;
      const fs = durs.map((_, i) => i);
      for (const tg of words(fs, 1, ctx.thorough ? 4 : 3)) if (tg.every((x, i) => i === 0 || x >= tg[i - 1]) && mine()) runAuto(ctx, durs, cont, tg, `cli${n}`);
    }
    const ex: Array<[number, number, number]> = EXPL.flatMap((_, o) => [[o, 0, 50], [o, 0, 350], [o, 1, 0], [o, 1, 500]] as Array<[number, number, number]>);
    for (const w of words(ex, 1, ctx.thorough ? 3 : 2)) if (mine()) runExplicit(ctx, SCENES[1], w);
  },
});
