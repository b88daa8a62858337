/** R02: culling never removes anything that would be visible. */
import { defineCheck, product, type Ctx } from "../lib/check.ts";
import { imp } from "../lib/repo.ts";
import { el, type El } from "../lib/tree.ts";
import { SvgDoc, apply, inClips, type Leaf } from "../lib/player.ts";
const { elementTreeToSvgInner } = await imp("render/element-tree-to-svg.ts");
const { cullElementsOutsideViewBox } = await imp("tree-ops/viewbox-culling.ts");
const { annotateAnimatedProperties } = await imp("tree-ops/annotate-animated-properties.ts");
const { generateAnimatedSvg } = await imp("animation/animator.ts");

const W = 100, H = 100;
interface Anim { animId: string; property: string; from: string; to: string; duration: number; delay?: number; easing?: string; repeat?: number | "infinite"; alternate?: boolean; transformOrigin?: string; transformBox?: string; fuse?: unknown[] }
/** area of leaf's box polygon inside the viewport is clearly positive (and some sample of it survives the clips) */
function shows(doc: SvgDoc, l: Leaf): boolean {
  const b = doc.bbox(l.node);
  if (b == null) return false;
  const stroke = l.node.attrs.get("stroke");
  const g = stroke != null && stroke !== "none" ? (parseFloat(l.node.attrs.get("stroke-width") ?? "1") || 0) / 2 : 0;
  const [x, y, w, h] = [b[0] - g, b[1] - g, b[2] + 2 * g, b[3] + 2 * g];
  if (w <= 0 || h <= 0) return false;
  let poly = ([[x, y], [x + w, y], [x + w, y + h], [x, y + h]] as Array<[number, number]>).map(([px, py]) => apply(l.m, px, py));
  for (const [axis, sign, lim] of [[0, 1, 0], [0, -1, W], [1, 1, 0], [1, -1, H]] as const) {
    const inside = (p: [number, number]): number => sign * (p[axis] - lim);
    const out: Array<[number, number]> = [];
    for (let i = 0; i < poly.length; i++) {
      const a = poly[i], c = poly[(i + 1) % poly.length], da = inside(a), dc = inside(c);
      if (da >= 0) out.push(a);
      if ((da > 0 && dc < 0) || (da < 0 && dc > 0)) { const q = da / (da - dc); out.push([a[0] + (c[0] - a[0]) * q, a[1] + (c[1] - a[1]) * q]); }
    }
    poly = out;
    if (poly.length === 0) return false;
  }
  let area = 0;
  for (let i = 0; i < poly.length; i++) { const a = poly[i], c = poly[(i + 1) % poly.length]; area += a[0] * c[1] - c[0] * a[1]; }
  if (Math.abs(area) / 2 < 0.02) return false;
  if (l.clips.length === 0) return true;
  const cx = poly.reduce((s, p) => s + p[0], 0) / poly.length, cy = poly.reduce((s, p) => s + p[1], 0) / poly.length;
  // anchors pulled towards the centroid: enough to see a clip let something through
  return [[cx, cy] as [number, number], ...poly.map((p): [number, number] => [cx + (p[0] - cx) * 0.98, cy + (p[1] - cy) * 0.98])].some(([px, py]) => inClips(l.clips, px, py));
}
const SHAPES = new Set(["rect", "path", "circle", "ellipse", "line", "polygon", "polyline", "image", "text", "use"]);
const flat = (e: El, out: El[] = []): El[] => { out.push(e); for (const c of e.children) flat(c, out); return out; };

/** `make` builds a fresh tree; its elements are compared between the culled and the unculled document */
function run(ctx: Ctx, name: string, make: () => El, anims: Anim[], frame: { before: number; dur: number; after: number }): void {
  const total = frame.before + frame.dur + frame.after;
  const render = (cull: boolean): { svg: string; touched: boolean } => {
    const tree = [make()];
    annotateAnimatedProperties(tree, anims);
    const css = cull ? cullElementsOutsideViewBox(tree, W, H, anims.length > 0 ? anims : undefined, frame.before, total).css : "";
    const all = flat(tree[0]);
    const touched = all.some((e) => e.displayNone === true || (e.cullClass != null && e.cullClass !== ""));
    if (cull && !touched) return { svg: "", touched };
    const svgContent = elementTreeToSvgInner(tree, W, H, "f0-", false, 1, false);
    const blank = (d: number): unknown[] => (d > 0 ? [{ svgContent: `<rect width="${W}" height="${H}" fill="#010203"/>`, duration: d, transition: { type: "cut", duration: 0 } }] : []);
    const svg = generateAnimatedSvg({ width: W, height: H, frames: [...blank(frame.before), { svgContent, duration: frame.dur, transition: { type: "cut", duration: 0 }, ...(anims.length > 0 ? { animations: anims } : {}), ...(css !== "" ? { cullCss: css } : {}) }, ...blank(frame.after)] });
    return { svg, touched };
  };
  let a: { svg: string; touched: boolean }, b: { svg: string };
  try { a = render(true); } catch (e) { ctx.fail(`throws:${name}`, `${name}: ${String(e)}`, { name }); return; }
  ctx.trace();
  ctx.count(a.touched ? "culled something" : "culled nothing");
  ctx.state(`${name.split("|")[0]}:${a.touched}`);
  if (!a.touched) return;
  b = render(false);
  const dc = new SvgDoc(a.svg), du = new SvgDoc(b.svg);
  const id = (l: Leaf): string => [l.node.tag, l.node.attrs.get("fill") ?? l.fill, l.node.attrs.get("stroke") ?? "", l.node.attrs.get("d") ?? "", ["x", "y", "width", "height", "cx", "cy", "r"].map((k) => l.node.attrs.get(k) ?? "").join(",")].join("|");
  // every partition point of the motions, approached from both sides, plus an even grid
  const times = new Set<number>();
  const loops = anims.some((q) => q.repeat != null) ? 3 : 1;
  const span = loops * total;
  for (let i = 0; i < 24 * loops; i++) times.add(((i + 0.5) * span) / (24 * loops));
  for (const q of anims) for (let k = 0; k < (q.repeat != null ? 4 : 1); k++) for (const d of [0, 1]) for (const e of [-2, 2]) { const t = frame.before + (q.delay ?? 0) + (k + d) * q.duration + e; if (t > 0 && t < span) times.add(t); }
  for (const t of times) {
    ctx.step();
    let lu: Leaf[];
    try { lu = du.leaves(t, (n) => SHAPES.has(n.tag)); } catch { ctx.count("unplayable"); return; }
    const need = lu.filter((l) => l.visible && l.opacity > 0.02 && l.fill !== "#010203" && shows(du, l));
    if (need.length === 0) continue;
    const have = new Map<string, number>();
    for (const l of dc.leaves(t, (n) => SHAPES.has(n.tag))) if (l.visible && shows(dc, l)) have.set(id(l), (have.get(id(l)) ?? 0) + 1);
    const miss = need.find((l) => { const n = have.get(id(l)) ?? 0; have.set(id(l), n - 1); return n <= 0; });
    if (miss != null) { ctx.fail(name, `${name}: at ${t.toFixed(1)} ms of ${total} a visible ${miss.node.tag} ${id(miss).slice(0, 80)} is culled`, { name, t }); return; }
  }
}

// ---- static placements ----
const XS = [-160, -51, -50, -49.5, -10, 0, 40, 99.5, 100, 101, 160];
interface Deco { n: string; o: () => Record<string, unknown> }
const DECOS: Deco[] = [
  { n: "fill", o: () => ({ bg: "rgb(200, 10, 10)" }) },
  { n: "border", o: () => ({ styles: Object.fromEntries(["Top", "Right", "Bottom", "Left"].flatMap((s) => [[`border${s}Width`, "4px"], [`border${s}Style`, "solid"], [`border${s}Color`, "rgb(10, 200, 10)"]])) }) },
  { n: "outline", o: () => ({ bg: "rgb(200, 10, 10)", styles: { outlineWidth: "6px", outlineStyle: "solid", outlineColor: "rgb(1, 100, 200)", outlineOffset: "5px" } }) },
  { n: "shadow", o: () => ({ bg: "rgb(200, 10, 10)", styles: { boxShadow: "rgb(3, 50, 90) 60px 60px 0px 0px" } }) },
  { n: "shadow-", o: () => ({ bg: "rgb(200, 10, 10)", styles: { boxShadow: "rgb(3, 50, 90) -60px -60px 0px 4px" } }) },
  { n: "spread", o: () => ({ bg: "rgb(200, 10, 10)", styles: { boxShadow: "rgb(3, 50, 90) 0px 0px 0px 9px" } }) },
  { n: "gradient", o: () => ({ styles: { backgroundImage: "linear-gradient(rgb(255, 0, 0), rgb(0, 0, 255))" } }) },
  { n: "image", o: () => ({ tag: "img", imageSrc: "data:image/png;base64,iVBORw0KGgoAAAANSUhEUgAAAAEAAAABCAYAAAAfFcSJAAAADUlEQVR42mNk+M9QDwADhgGAWjR9awAAAABJRU5ErkJggg==" }) },
  { n: "rotated", o: () => ({ bg: "rgb(200, 10, 10)", styles: { transform: "matrix(0.707107, 0.707107, -0.707107, 0.707107, 0, 0)", transformOrigin: "25px 25px" } }) },
  { n: "scaled", o: () => ({ bg: "rgb(200, 10, 10)", styles: { transform: "matrix(2, 0, 0, 2, 0, 0)", transformOrigin: "0px 0px" } }) },
  { n: "shifted", o: () => ({ bg: "rgb(200, 10, 10)", styles: { transform: "matrix(1, 0, 0, 1, 60, -60)", transformOrigin: "25px 25px" } }) },
  { n: "round", o: () => ({ bg: "rgb(200, 10, 10)", styles: { borderTopLeftRadius: "25px", borderTopRightRadius: "25px", borderBottomLeftRadius: "25px", borderBottomRightRadius: "25px", borderRadius: "25px" } }) },
  { n: "faded", o: () => ({ bg: "rgb(200, 10, 10)", styles: { opacity: "0.5" } }) },
  { n: "empty", o: () => ({}) },
];
const HID = { overflow: "hidden", overflowX: "hidden", overflowY: "hidden" };
const NESTS: Array<{ n: string; wrap: (k: El, x: number, y: number) => El }> = [
  { n: "alone", wrap: (k) => k },
  { n: "in-off", wrap: (k) => el({ x: -500, y: 0, w: 50, h: 50, bg: "rgb(9, 9, 9)", children: [k], uid: "p" }) },
  { n: "in-off-clip", wrap: (k) => el({ x: -500, y: 0, w: 50, h: 50, bg: "rgb(9, 9, 9)", styles: HID, children: [k], uid: "p" }) },
  { n: "in-off-z", wrap: (k) => el({ x: -500, y: 0, w: 50, h: 50, styles: { position: "relative", zIndex: "1", opacity: "0.9" }, children: [k], uid: "p" }) },
  { n: "in-off-clip-abs", wrap: (k) => { k.styles.position = "absolute"; return el({ x: -500, y: 0, w: 50, h: 50, styles: HID, children: [k], uid: "p" }); } },
  { n: "in-shifted", wrap: (k) => el({ x: 0, y: 0, w: 50, h: 50, styles: { transform: "matrix(1, 0, 0, 1, 120, 0)", transformOrigin: "25px 25px" }, children: [k], uid: "p" }) },
  { n: "in-turned", wrap: (k) => el({ x: 0, y: 0, w: 100, h: 100, styles: { transform: "matrix(0, 1, -1, 0, 0, 0)", transformOrigin: "50px 50px" }, children: [k], uid: "p" }) },
  { n: "two-deep", wrap: (k) => el({ x: 300, y: 0, w: 10, h: 10, children: [el({ x: -300, y: -300, w: 5, h: 5, bg: "rgb(4, 4, 4)", children: [k], uid: "q" })], uid: "p" }) },
];
function statics(ctx: Ctx, turn: () => boolean): void {
  const Y = ctx.thorough ? XS : [-51, -49.5, 0, 99.5, 101];
  for (const d of DECOS) for (const nest of NESTS) for (const x of XS) for (const y of Y) {
    if (!turn()) continue;
    run(ctx, `static ${d.n} ${nest.n}|${x},${y}`, () => el({ x: -1000, y: -1000, w: 0, h: 0, tag: "body", children: [nest.wrap(el({ x, y, w: 50, h: 50, uid: "k", ...d.o() } as never), x, y)] }), [], { before: 0, dur: 1000, after: 0 });
  }
}

// ---- motions ----
const BOXES: Array<[string, number, number, number, number]> = [["in", 30, 30, 20, 20], ["left", -60, 40, 20, 20], ["right", 150, 40, 20, 20], ["above", 40, -70, 20, 20], ["far", 190, 190, 30, 30], ["corner", -30, -30, 20, 20]];
type Motion = Pick<Anim, "property" | "from" | "to"> & { fuse?: unknown[] };
const MOTIONS: Motion[] = [
  { property: "translateX", from: "-120px", to: "120px" }, { property: "translateX", from: "0px", to: "100px" }, { property: "translateX", from: "-90px", to: "0px" },
  { property: "translateY", from: "100px", to: "-100px" }, { property: "translateY", from: "0px", to: "0px" },
  { property: "scale", from: "0", to: "1" }, { property: "scale", from: "1", to: "3" }, { property: "scale", from: "0.3", to: "0.5" }, { property: "scale", from: "-1", to: "1" },
  { property: "transform", from: "rotate(0deg)", to: "rotate(90deg)" }, { property: "transform", from: "rotate(0deg)", to: "rotate(360deg)" }, { property: "transform", from: "rotate(-0.5turn)", to: "rotate(3.14rad)" },
  { property: "transform", from: "translate(120px, 0px) rotate(0deg)", to: "translate(0px, 0px) rotate(180deg)" }, { property: "transform", from: "rotate(0deg) translate(100px, 0px)", to: "rotate(180deg) translate(100px, 0px)" },
  { property: "transform", from: "none", to: "translate(-120px, 20px)" }, { property: "transform", from: "scale(1, 2) translateY(10px)", to: "scale(3, 1) translateY(-60px)" },
  { property: "transform", from: "translate(-120px)", to: "translate(90px)" }, { property: "transform", from: "matrix(1, 0, 0, 1, -120, 0)", to: "matrix(1, 0, 0, 1, 90, 0)" },
  { property: "opacity", from: "0", to: "1" },
  { property: "opacity", from: "0", to: "1", fuse: [{ property: "translateX", from: "-120px", to: "90px" }] },
  { property: "translateX", from: "-120px", to: "90px", fuse: [{ property: "scale", from: "0.5", to: "2" }] },
  { property: "scale", from: "0.5", to: "2", fuse: [{ property: "translateX", from: "-120px", to: "90px" }] },
  { property: "translateX", from: "-120px", to: "90px", fuse: [{ property: "translateY", from: "-100px", to: "60px", duration: 150, delay: 250 }] },
  { property: "opacity", from: "0", to: "1", fuse: [{ property: "translateX", from: "-120px", to: "90px", easing: "ease-in" }] },
];
type Timing = Pick<Anim, "duration" | "delay" | "easing" | "repeat" | "alternate">;
const TIMINGS: Timing[] = [
  { duration: 300 }, { duration: 300, delay: 200 }, { duration: 600, easing: "ease-out" }, { duration: 400, delay: 100, easing: "cubic-bezier(0.5, -1.5, 0.5, 2.5)" },
  { duration: 400, delay: 50, easing: "steps(3)" }, { duration: 400, delay: 50, easing: "steps(3, start)" }, { duration: 400, easing: "step-start" }, { duration: 400, easing: "steps(4, jump-both)" }, { duration: 400, easing: "steps(4, jump-none)" },
  { duration: 150, repeat: 2 }, { duration: 150, delay: 100, repeat: 3, alternate: true }, { duration: 130, repeat: "infinite" }, { duration: 170, delay: 90, repeat: "infinite", alternate: true }, { duration: 400, delay: -100, repeat: "infinite" },
  { duration: 400, delay: -130, repeat: 2 }, { duration: 900, delay: 100, repeat: "infinite" }, { duration: 600, repeat: 2, easing: "ease-in" }, { duration: 100, delay: 0, repeat: 4, alternate: true },
];
const ORIGINS: Array<[string | undefined, string | undefined]> = [[undefined, undefined], ["center", undefined], ["0 0", undefined], ["100% 50%", "fill-box"], ["bottom", "stroke-box"], ["50% 50%", "view-box"], ["10px 20px", "view-box"], ["left 5px", undefined], ["10px", undefined], ["bottom right", undefined], ["top", undefined]];
const FRAMES = [{ before: 0, dur: 600, after: 0 }, { before: 300, dur: 600, after: 200 }, { before: 500, dur: 700, after: 0 }];
function motions(ctx: Ctx, turn: () => boolean): void {
  const two = (m: Motion): boolean => /scale|rotate/.test(m.property + m.from + JSON.stringify(m.fuse ?? ""));
  MOTIONS.forEach((m, mi) => TIMINGS.forEach((tm, ti) => {
    for (const [bn, x, y, w, h] of BOXES) for (const [o, bx] of two(m) ? ORIGINS : ORIGINS.slice(0, 1)) FRAMES.forEach((f, fi) => {
      if (!ctx.thorough && fi !== (mi + ti) % 3 && o !== undefined) return;
      if (!turn()) return;
      const anims: Anim[] = [{ animId: "a", ...m, ...tm, ...(o != null ? { transformOrigin: o } : {}), ...(bx != null ? { transformBox: bx } : {}) }];
      const key = `motion ${m.property} ${m.from}>${m.to}${m.fuse != null ? `+${JSON.stringify(m.fuse)}` : ""}|${JSON.stringify(tm)} ${bn} ${o ?? "-"}/${bx ?? "-"} frame${fi}`;
      run(ctx, key, () => el({ x: -1000, y: -1000, w: 0, h: 0, tag: "body", children: [el({ x, y, w, h, bg: "rgb(200, 10, 10)", animId: "a", uid: "k" })] }), anims, f);
    });
  }));
  // a moving group with parts at several places, and a motion inside a motion
  const G: Array<[string, (k: El[]) => El]> = [
    ["group", (k) => el({ x: 20, y: 20, w: 30, h: 30, bg: "rgb(5, 150, 5)", animId: "a", children: k })],
    ["bare-group", (k) => el({ x: 20, y: 20, w: 30, h: 30, animId: "a", children: k })],
    ["off-group", (k) => el({ x: -80, y: 20, w: 30, h: 30, bg: "rgb(5, 150, 5)", animId: "a", children: k })],
    ["clip-group", (k) => el({ x: 20, y: 20, w: 30, h: 30, bg: "rgb(5, 150, 5)", animId: "a", styles: HID, children: k })],
    ["plain-in", (k) => el({ x: -500, y: 0, w: 5, h: 5, children: [el({ x: 20, y: 20, w: 30, h: 30, bg: "rgb(5, 150, 5)", animId: "a", children: k })] })],
  ];
  const inner = ctx.thorough ? MOTIONS : MOTIONS.filter((_, i) => [0, 2, 5, 9, 12, 18, 20].includes(i));
  const tms = ctx.thorough ? TIMINGS : TIMINGS.filter((_, i) => [1, 3, 10, 12].includes(i));
  for (const [gn, g] of G) for (const m of inner) for (const tm of tms) for (const [o, bx] of two(m) ? ORIGINS.slice(0, 4) : ORIGINS.slice(0, 1)) for (const [bn, x, y, w, h] of BOXES) {
    if (turn()) run(ctx, `${gn} ${m.property} ${m.from}>${m.to}|${JSON.stringify(tm)} ${bn} ${o ?? "-"}`, () => el({ x: -1000, y: -1000, w: 0, h: 0, tag: "body", children: [g([el({ x, y, w, h, bg: "rgb(200, 10, 10)" }), el({ x: x + 45, y: y - 35, w: 6, h: 6, bg: "rgb(10, 10, 200)" })])] }), [{ animId: "a", ...m, ...tm, ...(o != null ? { transformOrigin: o } : {}), ...(bx != null ? { transformBox: bx } : {}) }], FRAMES[1]);
    for (const m2 of inner.slice(0, 5)) for (const tm2 of tms.slice(0, 3)) {
      if (!turn()) continue;
      run(ctx, `${gn}2 ${m.property} ${m.from}>${m.to} / ${m2.property} ${m2.from}>${m2.to}|${JSON.stringify(tm)} ${JSON.stringify(tm2)} ${bn} ${o ?? "-"}`, () => el({ x: -1000, y: -1000, w: 0, h: 0, tag: "body", children: [g([el({ x, y, w, h, bg: "rgb(200, 10, 10)", animId: "b" })])] }),
        [{ animId: "a", ...m, ...tm, ...(o != null ? { transformOrigin: o } : {}), ...(bx != null ? { transformBox: bx } : {}) }, { animId: "b", ...m2, ...tm2 }], FRAMES[1]);
    }
  }
}
void product;
export default defineCheck({
  spec: {
    id: "R02", level: "model_checking",
    bounds: `${DECOS.length} decorations × ${NESTS.length} nestings × ${XS.length}×5 (thorough ${XS.length}×${XS.length}) placements; ${MOTIONS.length} motions × ${TIMINGS.length} timings × ${BOXES.length} placements × up to ${ORIGINS.length} origins × 3 frame positions; 5 groups × motions × timings × second motions; 24 instants per scene loop (3 loops when a motion repeats) plus both sides of every motion boundary`,
    assumptions: ["lib/player.ts implements the CSS animation subset", "blurred and filtered decorations are not drawn by the player"],
  },
  shards: 8,
  run(ctx, sh) {
    let n = 0;
    const turn = (): boolean => n++ % sh.n === sh.i;
    statics(ctx, turn);
    motions(ctx, turn);
  },
});
