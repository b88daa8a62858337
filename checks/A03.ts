import { defineCheck, type Ctx } from "../lib/check.ts";
import { imp } from "../lib/repo.ts";
import { SvgDoc, apply, inClips, type Leaf } from "../lib/player.ts";
import { tol } from "../lib/frames.ts";

const { generateAnimatedSvg } = await imp("animation/animator.ts");

/* A scene of three transparent frames; the overlays under test sit on frame `pos`.
   Overlay k is laid out at x = 2000*k, so that every shape tells whose it is. */
type Ov = Record<string, any> & { kind: string };
interface Scene { durs: number[]; tr: { type: string; duration: number }; at: Array<{ pos: number; ov: Ov }> }
const STEP = 2000, W = 8000, H = 1200;

const SCALES: Record<string, number[]> = { short: [900, 1000, 1100], before: [100000, 1000, 700], after: [600, 1000, 90000] };
const TRS = { cut: { type: "cut", duration: 0 }, fade: { type: "crossfade", duration: 200 }, push: { type: "push-left", duration: 350 } };

const place = (ov: Ov, k: number): Ov => ({ ...ov, x: (ov.x ?? 20) + STEP * k });
function render(s: Scene): string {
  return generateAnimatedSvg({
    width: W, height: H,
    frames: s.durs.map((d, i) => ({ svgContent: `<path d="M0 0h1v1z"/>`, duration: d, transition: s.tr, overlays: s.at.map((a, k) => ({ a, k })).filter(({ a }) => a.pos === i).map(({ a, k }) => place(a.ov, k)) })),
  } as never) as string;
}

/** where an overlay's window lies, from docs/104 and the field docs */
interface Win { start: number; end: number; frameEnd: number; last: boolean; trMs: number; P: number }
const DELAY: Record<string, number> = { typing: 300, tap: 50, svg: 0, blink: 0, shine: 200, interact: 200 };
function windowOf(s: Scene, pos: number, ov: Ov): Win {
  let t = 0, P = 0;
  s.durs.forEach((d, i) => { if (i < pos) t += d + s.tr.duration; P += d + s.tr.duration; });
  const D = s.durs[pos];
  const end = ov.endAt == null ? D : Math.min(D, Math.max(1, ov.endAt));
  return { start: t + (ov.delay ?? DELAY[ov.kind]), end: t + end, frameEnd: t + D, last: pos === s.durs.length - 1, trMs: s.tr.duration, P };
}

interface Shape { leaf: Leaf; x: number; y: number }
class View {
  doc: SvgDoc; P: number; el: number; times: number[]; private cache = new Map<number, Leaf[]>();
  constructor(svg: string, P: number) {
    this.doc = new SvgDoc(svg); this.P = P; this.el = tol(P);
    const s = new Set<number>();
    for (const k of this.doc.css.keyframes.values()) for (const f of k) s.add(Math.round(f.at * P * 1000) / 1000);
    for (let q = 0; q <= 24; q++) s.add((P * q) / 24);
    const a = [...s].filter((x) => x >= 0 && x <= P).sort((x, y) => x - y), all = new Set<number>();
    a.forEach((x, i) => { all.add(Math.min(P - 0.01, x)); all.add(Math.min(P - 0.01, x + 0.3)); all.add(Math.max(0, x - 0.3)); if (i + 1 < a.length) all.add((x + a[i + 1]) / 2); });
    this.times = [...all].sort((x, y) => x - y);
  }
  leaves(t: number): Leaf[] {
    let l = this.cache.get(t);
    if (l == null) { this.cache.set(t, (l = this.doc.leaves(t, (n) => n.tag === "rect" || n.tag === "circle" || n.tag === "use"))); if (this.cache.size > 4000) this.cache.clear(); }
    return l;
  }
  /** the shapes of overlay k that can be seen at t (some sample point is inside every clip) */
  shapes(k: number, t: number): Shape[] {
    const out: Shape[] = [];
    for (const leaf of this.leaves(t)) {
      const n = leaf.node;
      const nx = n.tag === "use" ? Number(n.attrs.get("x") ?? 0) : Number(n.attrs.get("cx") ?? n.attrs.get("x") ?? 0);
      const ny = n.tag === "use" ? Number(n.attrs.get("y") ?? 0) : Number(n.attrs.get("cy") ?? n.attrs.get("y") ?? 0);
      const [x, y] = apply(leaf.m, nx, ny);
      if (Math.round((x - 150) / STEP) !== k) continue;
      out.push({ leaf, x, y });
    }
    return out;
  }
  pts(l: Leaf, t: number): Array<[number, number]> {
    if (l.node.tag === "use") { const [x, y] = apply(l.m, Number(l.node.attrs.get("x") ?? 0), Number(l.node.attrs.get("y") ?? 0)); return [[x + 2.5, y - 2]]; }
    const b = this.doc.bbox(l.node, t);
    if (b == null || b[2] <= 0.02 || b[3] <= 0.02) return [];
    const out: Array<[number, number]> = [];
    for (const fx of [0.01, 0.25, 0.5, 0.75, 0.99]) for (const fy of [0.01, 0.25, 0.5, 0.75, 0.99]) out.push(apply(l.m, b[0] + b[2] * fx, b[1] + b[3] * fy));
    return out;
  }
  shown(s: Shape, t: number): boolean {
    return s.leaf.visible && s.leaf.opacity > 0.004 && this.pts(s.leaf, t).some(([x, y]) => inClips(s.leaf.clips, x, y));
  }
  op(s: Shape): number { return s.leaf.visible ? s.leaf.opacity : 0; }
}

type Bad = (k: string, m: string) => void;
/** one overlay, judged over every region of the scene's timeline */
function judge(v: View, k: number, ov: Ov, w: Win, ctx: Ctx, bad: Bad): void {
  const el = v.el, empty = w.start >= w.end;
  const within = (from: number, to: number, what: string): void => {
    for (const t of v.times) {
      if (t >= from - el && t <= to + el) continue;
      ctx.step();
      const s = v.shapes(k, t).find((x) => v.shown(x, t));
      if (s != null) { bad(`${ov.kind}:outside`, `${what} is painted at ${t.toFixed(1)} ms (opacity ${v.op(s).toFixed(2)}), its window is [${from}, ${to}]`); return; }
    }
  };
  const inside = (from: number, to: number, n: number): number[] => { const o: number[] = []; for (let q = 1; q < n; q++) o.push(from + ((to - from) * q) / n); return o; };
  switch (ov.kind) {
    case "blink": {
      within(w.start, empty ? w.start - 2 * el : w.end, "a blink");
      if (empty) break;
      const half = (ov.periodMs ?? 1000) / 2;
      for (let a = w.start, on = true; a < w.end; a += half, on = !on) {
        const b = Math.min(a + half, w.end);
        if (b - a < 3 * el) continue;
        for (const t of [a + el, (a + b) / 2, b - el]) {
          const got = v.shapes(k, t).some((x) => v.shown(x, t) && v.op(x) > 0.99);
          if (got !== on) { bad("blink:phase", `the blink is ${got ? "on" : "off"} at ${t.toFixed(1)} ms (${(t - w.start).toFixed(1)} ms into it)`); return; }
        }
      }
      break;
    }
    case "tap": {
      const from = w.start, to = Math.min(ov.endAt == null ? Infinity : w.end, w.start + 500, v.P);
      within(from, to <= from ? from - 2 * el : to, "a ripple");
      if (to - from < 4 * el + 4) break;
      // the ring grows and fades; the dot shows at the start
      let lastR = 0, lastO = 1;
      for (const t of inside(from, to, 12)) {
        const ss = v.shapes(k, t).filter((x) => x.leaf.node.tag === "circle" && v.op(x) > 0);
        const r = Math.max(0, ...ss.map((x) => v.doc.bbox(x.leaf.node, t)![2] / 2)), big = ss.find((x) => v.doc.bbox(x.leaf.node, t)![2] / 2 === r);
        const o = big == null ? 0 : v.op(big);
        if (t > from + el + 1 && t < to - el - 1) {
          if (ss.length === 0) { bad("tap:missing", `no ripple at ${t.toFixed(1)} ms, it runs [${from}, ${to}]`); return; }
          if (r > 7.01 && lastR > 7.01 && (r < lastR - 0.01 || o > lastO + 0.01)) { bad("tap:shape", `the ripple shrinks or brightens at ${t.toFixed(1)} ms`); return; }
          for (const x of ss) if (Math.abs(x.x - (place(ov, k).x)) > 0.01 || Math.abs(x.y - ov.y) > 0.01) { bad("tap:place", `the ripple is at ${x.x},${x.y}`); return; }
        }
        lastR = r; lastO = o;
      }
      break;
    }
    case "svg": {
      const appear = Math.min(w.start, w.end - 1);   // documented: the delay is kept inside the window
      within(appear, w.end, "an svg overlay");
      const px = place(ov, k).x, py = ov.y;
      const off = (d: string): [number, number] => d === "top" ? [0, -ov.height] : d === "bottom" ? [0, ov.height] : d === "left" ? [-ov.width, 0] : [ov.width, 0];
      const en = ov.enter, ex = ov.exit;
      const e0 = appear + (en?.delay ?? 0), e1 = e0 + (en?.duration ?? 0), x1 = w.end - (ex?.delay ?? 0), x0 = x1 - (ex?.duration ?? 0);
      const fits = (en == null || e1 <= w.end) && (ex == null || x0 >= appear) && (en == null || ex == null || e1 <= x0);
      if (w.end - appear < 3 * el || !fits) break;
      let lastE = Infinity, lastX = -1;
      for (const t of new Set([...inside(appear, w.end, 16), appear + el, w.end - el, e0 + el, e1 - el, e1 + el, x0 - el, x0 + el, x1 - el, ...(en ? inside(e0, e1, 5) : []), ...(ex ? inside(x0, x1, 5) : [])].sort((a, b) => a - b))) {
        if (t < appear + el - 0.001 || t > w.end - el + 0.001) continue;
        const all = v.shapes(k, t).filter((x) => x.leaf.node.tag === "rect");
        if (all.length !== 1 || v.op(all[0]) < 0.99) { bad("svg:hidden", `the svg overlay has opacity ${all[0] == null ? "-" : v.op(all[0]).toFixed(2)} at ${t.toFixed(1)} ms inside its window [${appear}, ${w.end}]`); return; }
        const dx = all[0].x - px, dy = all[0].y - py;
        const out = (d: string): number => { const o = off(d); return o[0] !== 0 ? dx / o[0] : dy / o[1]; };
        const rest = Math.abs(dx) < 0.02 * ov.width && Math.abs(dy) < 0.02 * ov.height;
        if (en != null && t <= x0 - el) {
          const q = out(en.from);
          if (t < e0 - el && Math.abs(q - 1) > 0.02) { bad("svg:enter", `${(e0 - t).toFixed(1)} ms before its entrance the overlay is ${dx},${dy} away`); return; }
          if (t > e1 + el && !rest) { bad("svg:enter", `${(t - e1).toFixed(1)} ms after its entrance the overlay is still ${dx},${dy} away`); return; }
          if (q > lastE + 0.001) { bad("svg:enter", `the overlay moves back out while entering`); return; }
          if (Math.abs(dx * off(en.from)[1] - dy * off(en.from)[0]) > 0.01) { bad("svg:enter", `enters from the wrong side: ${dx},${dy}`); return; }
          if (t > e0 + el && t < e1 - el && en.easing === "linear") { const want = 1 - (t - e0) / (e1 - e0); if (Math.abs(q - want) > 2 * el / (e1 - e0) + 0.02) { bad("svg:enter", `at ${t.toFixed(1)} ms the overlay has ${q.toFixed(3)} of its way left, it should be ${want.toFixed(3)}`); return; } }
          lastE = q;
        }
        if (ex != null && t >= e1 + el) {
          const q = out(ex.from);
          if (t < x0 - el && !rest) { bad("svg:exit", `${(x0 - t).toFixed(1)} ms before its exit the overlay is ${dx},${dy} away`); return; }
          if (t > x1 + el && Math.abs(q - 1) > 0.02) { bad("svg:exit", `${(t - x1).toFixed(1)} ms after its exit the overlay is at ${dx},${dy}`); return; }
          if (q < lastX - 0.001) { bad("svg:exit", `the overlay moves back in while leaving`); return; }
          lastX = q;
        }
        if (en == null && ex == null && !rest) { bad("svg:place", `the overlay is ${dx},${dy} away from its place`); return; }
      }
      break;
    }
    case "shine": {
      const to = ov.repeat == null ? Math.min(w.end, w.start + (ov.duration ?? 900)) : w.end;
      const px = place(ov, k).x, box: Array<[number, number]> = [];
      for (const fx of [0.5 / ov.width, 0.25, 0.5, 0.75, 1 - 0.5 / ov.width]) for (const fy of [0.5 / ov.height, 0.5, 1 - 0.5 / ov.height]) box.push([px + ov.width * fx, ov.y + ov.height * fy]);
      const lit = (t: number): number[] => { const o: number[] = []; for (const leaf of v.leaves(t)) { if (!leaf.visible || leaf.opacity < 0.004 || !leaf.fill.includes("url(")) continue; box.forEach(([x, y], i) => { if (v.doc.covers(leaf, x, y, t)) o.push(i); }); } return o; };
      for (const t of v.times) {
        if (!empty && t >= w.start - el && t <= to + el) continue;
        ctx.step();
        if (lit(t).length > 0) { bad("shine:outside", `the glint lies on the box at ${t.toFixed(1)} ms, its window is [${w.start}, ${to}]`); return; }
      }
      if (empty || to - w.start < 6 * el || (ov.repeat != null && to - w.start < (ov.repeatPeriodMs ?? 1400))) break;
      const seen = new Set<number>();
      const span = ov.repeat == null ? to - w.start : ov.repeatPeriodMs ?? 1400;
      for (const t of inside(w.start, w.start + span, 120)) for (const i of lit(t)) seen.add(i);
      if (seen.size < box.length) bad("shine:sweep", `the glint passes over ${seen.size} of ${box.length} points of its box`);
      break;
    }
    case "interact": {
      const treat = ov.treatment ?? "hover", dur = ov.duration ?? 240, rel = ov.releaseMs ?? 180;
      const peak = Math.min(w.start + dur, w.end);
      const repeat = ov.repeat != null, period = ov.repeatPeriodMs ?? 1600;
      const hold = ov.holdMs ?? (repeat ? 140 : treat === "press" ? 120 : Infinity);
      const holdEnd = repeat ? peak + hold : Math.max(peak, Math.min(peak + hold, w.end - rel));
      const relEnd = repeat ? w.end : Math.min(holdEnd + rel, w.end);
      within(w.start, empty ? w.start - 2 * el : relEnd, "the treatment");
      if (empty) break;
      const cx = place(ov, k).x + ov.width / 2, cy = ov.y + ov.height / 2;
      const sample = (t: number): { o: number; sc: number } => {
        const ss = v.shapes(k, t).filter((x) => x.leaf.node.tag === "rect");
        const o = Math.max(0, ...ss.map((x) => v.op(x)));
        const s0 = ss[0];
        if (s0 != null) { const m = s0.leaf.m, [qx, qy] = apply(m, cx, cy); if (Math.hypot(qx - cx, qy - cy) > 0.01) bad("interact:centre", `the pop is not about the centre: ${qx - cx},${qy - cy}`); }
        return { o, sc: s0 == null ? 1 : s0.leaf.m[0] };
      };
      const want = ov.scale ?? (treat === "hover" ? 1.03 : treat === "press" ? 0.96 : 1);
      const laps = repeat ? (ov.repeat === "infinite" ? 99 : ov.repeat) : 1;
      for (let lap = 0; lap < Math.min(laps, 3); lap++) {
        const z = lap * period, a = w.start + z, p = peak + z, h = Math.min(holdEnd + z, w.end), r = repeat ? Math.min(h + rel, w.end) : relEnd;
        if (p + 2 * el < h) for (const t of [p + el, (p + h) / 2, h - el]) { if (t >= w.end - el) break; const g = sample(t); if (g.o < 0.97 || Math.abs(g.sc - want) > 0.01) { bad("interact:peak", `at ${t.toFixed(1)} ms, held at its peak, opacity ${g.o.toFixed(2)} scale ${g.sc.toFixed(3)} (wanted 1, ${want})`); return; } }
        let last = -1;
        for (const t of inside(a + el, p - el, 6)) { if (p - a < 3 * el || t >= w.end - el) break; const g = sample(t); if (g.o < last - 0.001) { bad("interact:rise", `fades while it should rise at ${t.toFixed(1)} ms`); return; } last = g.o; }
        last = 2;
        for (const t of inside(h + el, r - el, 6)) { if (r - h < 3 * el || t >= w.end - el) break; const g = sample(t); if (g.o > last + 0.001) { bad("interact:release", `rises while it should be released at ${t.toFixed(1)} ms`); return; } last = g.o; }
        if (r - h > 6 * el && r < w.end + 1) { const t = h + 0.95 * (r - h); if (t < w.end - el / 2) { const g = sample(t); if (g.o > 0.4) { bad("interact:release", `opacity ${g.o.toFixed(2)} at ${t.toFixed(1)} ms, the release ends at ${r.toFixed(1)}`); return; } } }
        if (p - a > 6 * el) { const t = a + 0.05 * (p - a); if (t < w.end - el) { const g = sample(t); if (g.o > 0.4 + el / (p - a)) { bad("interact:rise", `opacity ${g.o.toFixed(2)} already at ${t.toFixed(1)} ms, the rise starts at ${a.toFixed(1)}`); return; } } }
        if (repeat && r + 3 * el < a + period && r + el < w.end) { const t = Math.min((r + a + period) / 2, w.end - el); const g = sample(t); if (t > r + el && g.o > 0.01) { bad("interact:idle", `not at rest between pulses at ${t.toFixed(1)} ms (opacity ${g.o.toFixed(2)})`); return; } }
      }
      break;
    }
    case "typing": judgeTyping(v, k, ov, w, ctx, bad, within, empty); break;
  }
}

function judgeTyping(v: View, k: number, ov: Ov, w: Win, ctx: Ctx, bad: Bad, within: (a: number, b: number, s: string) => void, empty: boolean): void {
  const el = v.el;
  const early = w.end < w.frameEnd;
  const exit = early ? "cut" : w.last ? (ov.holdToFrameEnd === true ? "cut" : "loop") : w.trMs > 0 ? "fade" : "cut";
  const gap = exit === "loop" ? 150 : 0;
  const flat = [...String(ov.text)].filter((c) => c !== "\n"), drawn = flat.filter((c) => c !== " ");
  const paste = ov.mode === "paste";
  // a rate of 1 slips on every letter or digit but the last character, never twice in a row (field docs)
  const certain: any[] = [];
  if (ov.mistakes === 1) flat.forEach((c, i) => { if (i < flat.length - 1 && /[A-Za-z0-9]/.test(c) && certain[certain.length - 1]?.at !== i - 1) certain.push({ at: i }); });
  const mist: any[] = paste || ov.mistakes == null ? [] : Array.isArray(ov.mistakes) ? ov.mistakes.filter((m: any) => m.at < flat.length) : certain;
  const think = ov.mistakeThinkMs ?? 400, speed = ov.speed ?? 60;
  const natural = w.start + Math.max(1, flat.length) * speed + mist.length * (2 * speed + think);
  const limit = Math.max(w.start + 1, w.end - gap), full = Math.min(natural, limit);
  const holdEnd = Math.max(Math.min(limit, v.P), Math.min(full, v.P));
  const gone = exit === "fade" ? Math.min(v.P, w.end + w.trMs) : w.end;
  within(w.start, empty ? w.start - 2 * el : gone, "typed text");
  if (empty || drawn.length === 0) return;
  const glyphs = (t: number): Shape[] => v.shapes(k, t).filter((x) => x.leaf.node.tag === "use");
  const id = (s: Shape): string => `${s.leaf.node.attrs.get("href")}@${s.x.toFixed(2)},${s.y.toFixed(2)}`;
  if (holdEnd - full <= 3 * el) {
    // squeezed into its window: the characters still come in order, and all but the last are there
    if (mist.length > 0 || ov.mistakes != null || holdEnd - w.start < 60) return;
    let most = 0;
    for (const t of v.times) {
      if (t < w.start - el || t > holdEnd - 0.2) continue;
      ctx.step();
      const all = glyphs(t).sort((p, q) => p.y - q.y || p.x - q.x).map((x) => v.shown(x, t));
      if (all.length !== drawn.length) { bad("typing:text", `${all.length} characters for the ${drawn.length} of the text`); return; }
      const n = all.filter(Boolean).length;
      if (all.slice(0, n).includes(false)) { bad("typing:order", `at ${t.toFixed(1)} ms a character is shown but not the one before it`); return; }
      if (n < most) { bad("typing:flicker", `a character vanishes again at ${t.toFixed(1)} ms`); return; }
      most = n;
    }
    if (most < drawn.length - 1 - Math.ceil((2 * el) / ((full - w.start) / flat.length))) bad("typing:incomplete", `only ${most} of ${drawn.length} characters were typed by ${holdEnd.toFixed(1)} ms`);
    return;
  }
  // what stands there once typing is complete
  const tt = (full + holdEnd) / 2;
  {
    if (holdEnd - w.start < 60 + 3 * el) return;
    const all = glyphs(tt), shown = all.filter((x) => v.shown(x, tt)).sort((a, b) => a.y - b.y || a.x - b.x);
    if (shown.length !== drawn.length) { bad("typing:incomplete", `${shown.length} of ${drawn.length} characters stand at ${tt.toFixed(1)} ms, typing was due to be complete at ${full.toFixed(1)} ms`); return; }
    const face = new Map<string, string>(), back = new Map<string, string>();
    for (let i = 0; i < drawn.length; i++) {
      const h = shown[i].leaf.node.attrs.get("href")!;
      if ((face.get(drawn[i]) ?? h) !== h || (back.get(h) ?? drawn[i]) !== drawn[i]) { bad("typing:text", `character ${i} of the typed text is drawn as another one`); return; }
      face.set(drawn[i], h); back.set(h, drawn[i]);
    }
    // when each of them appears, at every instant of the timeline
    const finals = shown.map(id), at = finals.map(() => -1);
    const times = [...v.times, ...Array.from({ length: 200 }, (_, q) => w.start + ((holdEnd - w.start) * q) / 200)].sort((a, b) => a - b).filter((x) => x >= w.start - el && x <= holdEnd - 0.2);
    const wrongSeen = new Map<string, { from: number; to: number; s: Shape }>();
    const ix = new Map(finals.map((f, i) => [f, i]));
    for (const t of times) {
      ctx.step();
      const now = glyphs(t).filter((x) => v.shown(x, t));
      const set = new Set(now.map(id));
      let hole = false;
      for (let i = 0; i < finals.length; i++) {
        if (set.has(finals[i])) { if (hole) { bad("typing:order", `at ${t.toFixed(1)} ms character ${i} is shown but not the one before it`); return; } if (at[i] < 0) at[i] = t; }
        else { if (at[i] >= 0) { bad("typing:flicker", `character ${i} vanishes again at ${t.toFixed(1)} ms`); return; } hole = true; }
      }
      const counted = new Map<string, number>();
      for (const x of now) { const d = id(x); if (ix.has(d)) { counted.set(d, (counted.get(d) ?? 0) + 1); if (counted.get(d)! > 1) { bad("typing:twice", `a character is painted twice at ${t.toFixed(1)} ms`); return; } continue; } const e = wrongSeen.get(d); if (e == null) wrongSeen.set(d, { from: t, to: t, s: x }); else e.to = t; }
      if (t > w.start + 30 + el && t < holdEnd - el && now.some((x) => v.op(x) < 0.98)) { bad("typing:faded", `the typed text has opacity ${Math.min(...now.map((x) => v.op(x))).toFixed(2)} at ${t.toFixed(1)} ms, before it may leave`); return; }
    }
    const typed = full - w.start, step = typed / Math.max(1, flat.length);
    if (at.some((x) => x < 0)) { bad("typing:incomplete", `a character never appears before ${holdEnd.toFixed(1)} ms`); return; }
    const last = at[at.length - 1];
    if (paste) { if (last > w.start + 2 * el + 5) bad("typing:paste", `pasted text is complete only ${(last - w.start).toFixed(1)} ms after the paste`); }
    else {
      const grid = (holdEnd - w.start) / 200 + el;
      if (Math.abs(last - full) > grid + 0.00012 * v.P * (flat.length + 2) + (String(ov.text).length - flat.length + 2) * step * (ov.wrapWidth != null ? 1 : 0)) bad("typing:end", `typing is complete at ${last.toFixed(1)} ms, due at ${full.toFixed(1)} ms`);
      if (ov.jitter == null && mist.length === 0 && ov.mistakes == null && ov.wrapWidth == null) {
        let di = 0;
        for (let i = 0; i < flat.length; i++) { if (flat[i] === " ") continue; const due = w.start + (i + 1) * step; if (Math.abs(at[di] - due) > grid + 0.00012 * v.P * (i + 3)) { bad("typing:pace", `character ${i} appears at ${at[di].toFixed(1)} ms, due at ${due.toFixed(1)} ms`); break; } di++; }
      }
    }
    // mistakes: one wrong character each, gone before the right one stands in its place
    if (wrongSeen.size !== mist.length && step > 4 * el) { bad("typing:mistakes", `${wrongSeen.size} wrong characters were shown, ${mist.length} were asked for`); return; }
    for (const e of wrongSeen.values()) {
      const i = shown.findIndex((x) => Math.abs(x.x - e.s.x) < 0.6 && Math.abs(x.y - e.s.y) < 0.6);
      if (i >= 0 && e.to >= at[i] + el) { bad("typing:mistake-over", `a wrong character still shows at ${e.to.toFixed(1)} ms, over the right one`); return; }
      if (i > 0 && e.from < at[i - 1] - el) { bad("typing:mistake-early", `a wrong character shows at ${e.from.toFixed(1)} ms, before its turn`); return; }
    }
    // the caret rides the edge of what is typed, then blinks
    if (ov.caret != null && ov.caret !== false) {
      const cw = typeof ov.caret === "object" && ov.caret.width != null ? ov.caret.width : 2;
      const carets = (t: number): Shape[] => v.shapes(k, t).filter((x) => x.leaf.node.tag === "rect" && x.leaf.fill === "#ca4e70");
      const edge = (ov.x ?? 20) + STEP * k;
      for (const t of times) {
        if (t < w.start + 30 + el || t > full - el) continue;
        const c = carets(t);
        if (c.length !== 1 || v.op(c[0]) < 0.99 || !v.shown(c[0], t)) { bad("typing:caret", `no caret at ${t.toFixed(1)} ms while typing`); return; }
        const now = glyphs(t).filter((x) => v.shown(x, t)), row = now.length === 0 ? null : now.reduce((a, b) => (b.y > a.y + 0.5 || (Math.abs(b.y - a.y) <= 0.5 && b.x > a.x) ? b : a));
        const near = at.some((x) => Math.abs(x - t) < el + 0.00012 * v.P * (flat.length + 2)) || [...wrongSeen.values()].some((e) => Math.abs(e.from - t) < 2 * el + step || Math.abs(e.to - t) < 2 * el + step);
        if (near) continue;
        const left = row == null ? edge : row.x;
        if (c[0].x < left - 0.6 || c[0].x > left + 80) { bad("typing:caret-place", `the caret is at ${(c[0].x - edge).toFixed(1)} at ${t.toFixed(1)} ms, the last character starts at ${(left - edge).toFixed(1)}`); return; }
        const nextOnRow = row == null ? null : shown.find((x) => Math.abs(x.y - row.y) < 0.5 && x.x > row.x + 0.1);
        if (nextOnRow != null && c[0].x > nextOnRow.x + 0.6) { bad("typing:caret-place", `the caret is at ${(c[0].x - edge).toFixed(1)} at ${t.toFixed(1)} ms, past the next character`); return; }
        void cw;
      }
      const half = (typeof ov.caret === "object" && ov.caret.blinkMs != null ? ov.caret.blinkMs : 530) / 2;
      for (let a = full, on = true, q = 0; a < holdEnd && q < 40; a += half, on = !on, q++) {
        const b = Math.min(a + half, holdEnd);
        if (b - a < 3 * el) continue;
        const t = (a + b) / 2, got = carets(t).some((x) => v.op(x) > 0.99);
        if (t > w.start + 30 + el && got !== on) { bad("typing:blink", `the parked caret is ${got ? "on" : "off"} at ${t.toFixed(1)} ms`); return; }
      }
    }
    const mask = v.shapes(k, tt).filter((x) => x.leaf.node.tag === "rect" && x.leaf.fill === "#123456");
    if ((ov.mask?.color ?? ov.bgColor) === "#123456") {
      if (mask.length !== 1 || v.op(mask[0]) < 0.99) { bad("typing:mask", `the field mask is not there at ${tt.toFixed(1)} ms`); return; }
      for (const x of shown) { const b = v.doc.bbox(mask[0].leaf.node, tt)!; const p = apply(mask[0].leaf.m, b[0], b[1]); if (x.x < p[0] || x.x > p[0] + b[2] || x.y > p[1] + b[3] || x.y < p[1]) { bad("typing:mask", `a typed character lies outside the mask`); return; } }
    }
  }
}

/* ---- the space ---- */
const K: Record<string, Ov[]> = {
  blink: [{}, { periodMs: 100 }, { periodMs: 333 }, { radius: 3, fillOpacity: 0.5 }].map((o) => ({ kind: "blink", y: 30, width: 10, height: 12, ...o })),
  tap: [{ kind: "tap", x: 60, y: 70 }],
  svg: [{}, { enter: { from: "left", duration: 120, easing: "linear" } }, { exit: { from: "top", duration: 90 } }, { enter: { from: "bottom", duration: 100, delay: 40 }, exit: { from: "right", duration: 80, delay: 30 } }, { enter: { from: "top", duration: 700 }, exit: { from: "top", duration: 700 } }]
    .map((o, i) => ({ kind: "svg", innerSvg: `<rect x="0" y="0" width="40" height="30"/>`, y: 200, width: 40, height: 30, animId: `q${i}`, ...o })),
  shine: [{}, { duration: 120 }, { y: 900 }, { y: 700, width: 60, height: 300, skewDeg: 35 }, { y: 500, skewDeg: -30, bandWidth: 30, duration: 300 }, { repeat: "infinite", repeatPeriodMs: 300 }, { repeat: 2, repeatPeriodMs: 200, y: 400 }]
    .map((o) => ({ kind: "shine", y: 0, width: 200, height: 80, ...o })),
  interact: [{}, { treatment: "press" }, { treatment: "focus", holdMs: 100, scale: 1.2 }, { duration: 0 }, { releaseMs: 0 }, { duration: 0, releaseMs: 0, holdMs: 200 }, { holdMs: 0 }, { holdMs: 5000, ring: "#fff" }, { repeat: "infinite", repeatPeriodMs: 400, duration: 60, holdMs: 80, releaseMs: 60 }, { repeat: 2, repeatPeriodMs: 300, duration: 50, holdMs: 50, releaseMs: 50 }]
    .map((o) => ({ kind: "interact", y: 300, width: 90, height: 40, ...o })),
  typing: [{ text: "ab cd" }, { text: "a", speed: 10, caret: { color: "#ca4e70" } }, { text: "hello there", speed: 25, caret: { color: "#ca4e70", blinkMs: 120 } }, { text: "abc def ghi", wrapWidth: 40, speed: 20, caret: { color: "#ca4e70" } }, { text: "pasted", mode: "paste", caret: { color: "#ca4e70", blinkMs: 100 } }, { text: "x\ny", speed: 400 },
    { text: "word", speed: 20, holdToFrameEnd: true, mask: { color: "#123456" } }, { text: "jitter me", jitter: 0.8, speed: 30 }, { text: "oops no", speed: 30, mistakes: [{ at: 2, wrong: "Q" }], mistakeThinkMs: 60, caret: { color: "#ca4e70" } }, { text: "oops no", speed: 30, mistakes: [{ at: 0 }, { at: 5 }], mistakeThinkMs: 40 }, { text: "typos all", speed: 30, mistakes: 1, mistakeThinkMs: 20 }, { text: "mm AV", kern: true, speed: 40, bgColor: "#123456", wrapWidth: 60 }]
    .map((o) => ({ kind: "typing", y: 60, ...o })),
};
const DELAYS = [undefined, 0, 250, 990, 1300], ENDS = [undefined, 0.5, 230, 400, 999, 4000];

interface Job { s: Scene; key: string; fam: string }
function* space(thorough: boolean): Generator<Job> {
  for (const kind of Object.keys(K)) for (let ci = 0; ci < K[kind].length; ci++) {
    for (const [scale, durs] of Object.entries(SCALES)) for (const [tn, tr] of Object.entries(TRS)) for (const pos of [0, 1, 2]) {
      const full = thorough || (scale === "short" && tn !== "push");
      for (const delay of full ? (thorough ? [...DELAYS, 1, 50, 500, 700, 940] : DELAYS) : [undefined, 250]) for (const endAt of full ? (thorough ? [...ENDS, 50, 301, 330, 500, 700, 950] : ENDS) : [undefined, 400]) {
        const ov = { ...K[kind][ci], ...(delay == null ? {} : { delay }), ...(endAt == null ? {} : { endAt }) };
        yield { s: { durs, tr, at: [{ pos, ov }] }, fam: `${kind}${ci}:${tn}:${scale}:${pos}`, key: `${JSON.stringify(ov)} on frame ${pos} of ${durs.join("/")} ${tn}` };
      }
    }
  }
  // many frames: two of a kind early, one late, whatever their numbers spell
  for (const kind of Object.keys(K)) for (const [p, q] of [[1, 11], [1, 10], [2, 12], [0, 10]]) {
    const durs = Array.from({ length: 13 }, () => 400), ov = { ...K[kind][0], delay: 60 };
    yield { s: { durs, tr: TRS.cut, at: [{ pos: p, ov }, { pos: p, ov: { ...ov, delay: 120 } }, { pos: q, ov: { ...ov, endAt: 300 } }] }, fam: `many:${kind}:${p}:${q}`, key: `two ${kind}s on frame ${p}, one on ${q}` };
  }
  // pairs: two overlays of any kinds, in one frame or in two
  const all = Object.values(K).flatMap((l) => thorough ? l : l.slice(0, 4));
  for (let i = 0; i < all.length; i++) for (let j = 0; j < all.length; j++) {
    for (const [p, q] of thorough ? [[1, 1], [1, 2], [0, 2], [2, 2], [0, 0]] : [[1, 1], [1, 2]]) {
      const a = { ...all[i], delay: 100 }, b = { ...all[j], endAt: 700 };
      yield { s: { durs: SCALES.short, tr: TRS.fade, at: [{ pos: p, ov: a }, { pos: q, ov: b }] }, fam: `pair:${a.kind}:${b.kind}:${p}${q}`, key: `${JSON.stringify(a)} on ${p} with ${JSON.stringify(b)} on ${q}` };
    }
  }
}

export default defineCheck({
  shards: 8,
  spec: {
    id: "A03",
    bounds: "39 configurations of the six overlay kinds (slides, repeats, treatments, typing modes, wrapping, jitter, typing mistakes, carets, masks, zero-length ramps) x 5 (thorough 10) delays x 6 (12) window ends from sub-millisecond to past the frame x the first, middle and last frame x cut, dissolve and slide transitions x scenes of 3 s, 90 s and 100 s; all ordered pairs of 19 (thorough: 39) configurations in one frame and in two; two of a kind early and one late in 13 frames; every keyframe region of every emitted document is visited",
    assumptions: ["the independent player lib/player.ts implements CSS animation semantics of the subset the composer emits", "instants within 0.012 % of the period + 6 ms of an authored boundary may belong to either side", "a tap without endAt runs its 500 ms wherever its frame ends (documented in docs/104)"],
  },
  run(ctx, sh) {
    let n = 0;
    for (const j of space(ctx.thorough)) {
      if (n++ % sh.n !== sh.i) continue;
      let svg: string;
      const bad0 = (k: string, m: string): void => ctx.fail(`${j.fam}:${k}`, `${j.key}: ${m}`, { scene: j.s });
      try { svg = render(j.s); } catch (e) { bad0("throws", String(e)); continue; }
      const wins = j.s.at.map((a) => windowOf(j.s, a.pos, a.ov));
      const v = new View(svg, wins[0].P);
      ctx.trace();
      for (const e of v.doc.css.errors) bad0("css", e);
      for (const d of v.doc.dupIds) bad0("dup-id", `id ${d} twice`);
      j.s.at.forEach((a, k) => judge(v, k, a.ov, wins[k], ctx, (x, m) => bad0(x, m)));
      ctx.state(svg);
    }
  },
});
