/** Shared space of frame sequences (A01, A02): transitions, reference schedule, sampling. */
import { imp } from "./repo.ts";
import { SvgDoc, type Leaf, easing } from "./player.ts";

export const W = 120, H = 80;
export type Dir = "left" | "right" | "up" | "down";
export interface TDef {
  name: string;
  tr: Record<string, unknown> | undefined;
  /** how the NEXT frame comes in */
  inn: { kind: "fade" | "slide" | "reveal" | "zoom" | "cut" | "any"; v?: [number, number]; shape?: "linear" | "iris" | "clock"; angle?: number; ccw?: boolean; start?: number; ease?: string; cx?: number; cy?: number };
  /** how THIS frame goes out */
  out: { kind: "fade" | "slide" | "hold" | "cut" | "any"; v?: [number, number] };
  /** every viewport point stays covered */
  covers: boolean;
}
const slide = (name: string, v: [number, number], extra: Record<string, unknown> = {}, covers = true): TDef => ({ name, tr: { type: name.split(":")[0], ...extra }, inn: { kind: "slide", v }, out: { kind: "slide", v }, covers });
const rev = (name: string, inn: Partial<TDef["inn"]>, extra: Record<string, unknown> = {}): TDef => ({ name, tr: { type: name.split(":")[0], ...extra }, inn: { kind: "reveal", ...inn } as TDef["inn"], out: { kind: "hold" }, covers: true });
export const T: TDef[] = [
  { name: "absent", tr: undefined, inn: { kind: "fade" }, out: { kind: "fade" }, covers: true },
  { name: "crossfade", tr: { type: "crossfade" }, inn: { kind: "fade" }, out: { kind: "fade" }, covers: true },
  { name: "cut", tr: { type: "cut" }, inn: { kind: "cut" }, out: { kind: "cut" }, covers: true },
  slide("push-left", [-1, 0]), slide("push-right", [1, 0]), slide("push-up", [0, -1]), slide("push-down", [0, 1]), slide("scroll", [0, -1]),
  { name: "magic-move", tr: { type: "magic-move" }, inn: { kind: "fade" }, out: { kind: "fade" }, covers: true },
  { name: "magic:b", tr: { type: "magic-move" }, inn: { kind: "cut" }, out: { kind: "cut" }, covers: true },
  rev("wipe", { shape: "linear", angle: 0 }),
  rev("wipe:30", { shape: "linear", angle: 30 }, { wipeAngle: 30 }),
  rev("wipe:90", { shape: "linear", angle: 90 }, { wipeAngle: 90 }),
  rev("wipe:215e", { shape: "linear", angle: 215, ease: "ease-in" }, { wipeAngle: 215, easing: "ease-in" }),
  rev("wipe:e", { shape: "linear", angle: 0, ease: "cubic-bezier(0.7,0,0.9,0.4)" }, { easing: "cubic-bezier(0.7,0,0.9,0.4)" }),
  rev("iris", { shape: "iris" }),
  rev("wipe-radial", { shape: "iris", ease: "ease-out" }, { easing: "ease-out" }),
  rev("wipe-clock", { shape: "clock" }),
  rev("wipe-clock:ccw", { shape: "clock", ccw: true, start: 135 }, { wipeStartAngle: 135, wipeCounterclockwise: true }),
  { name: "zoom-in", tr: { type: "zoom-in" }, inn: { kind: "zoom" }, out: { kind: "fade" }, covers: false },
  { name: "zoom-out", tr: { type: "zoom-out" }, inn: { kind: "zoom" }, out: { kind: "fade" }, covers: true },
  { name: "shine", tr: { type: "shine" }, inn: { kind: "fade" }, out: { kind: "fade" }, covers: true },
  { name: "shine:p", tr: { type: "shine", shine: { angle: 30, bandWidth: 0.4, color: "#fff", opacity: 0.5 } }, inn: { kind: "fade" }, out: { kind: "fade" }, covers: true },
  slide("push:left", [-1, 0], { push: { direction: "left", distance: 1 } }),
  slide("push:down", [0, 1], { push: { direction: "down", distance: 1 } }),
  slide("push:a30", [Math.cos(Math.PI / 6) * 1.5, Math.sin(Math.PI / 6) * 1.5], { push: { angle: 30, distance: 1.5 } }, false),
  rev("reveal:lin", { shape: "linear", angle: 300 }, { reveal: { shape: "linear", angle: 300 } }),
  rev("reveal:rad", { shape: "iris", cx: 0.25, cy: 0.5 }, { reveal: { shape: "radial", origin: { x: 0.25, y: 0.5 }, radius: 1 } }),
  rev("reveal:clk", { shape: "clock", cx: 0.3, cy: 0.6, start: 90, ccw: true }, { reveal: { shape: "clock", origin: { x: 0.3, y: 0.6 }, startAngle: 90, direction: "counterclockwise" } }),
  { name: "zoom:p", tr: { type: "zoom", zoom: { fromScale: 1.5, origin: { x: 0, y: 1 } } }, inn: { kind: "zoom" }, out: { kind: "fade" }, covers: true },
  { name: "custom:a", tr: { type: "custom", custom: { zOrder: "incoming-on-top", incoming: { opacity: 0, translate: { x: 0.5, y: 0 } }, outgoing: { opacity: 0.2, scale: { to: 0.5, origin: { x: 0.5, y: 0.5 } } }, reducedMotion: "crossfade", loop: "hold-last" } }, inn: { kind: "any" }, out: { kind: "any" }, covers: false },
  { name: "custom:b", tr: { type: "custom", custom: { zOrder: "incoming-on-top", incoming: { clip: { shape: "linear", angle: 45 } }, outgoing: { translate: { x: -1, y: 0 } }, reducedMotion: "cut", loop: "hold-last" } }, inn: { kind: "any" }, out: { kind: "any" }, covers: false },
];
/** parametrised variants: `family@numbers` */
const made = new Map<string, TDef>(T.map((t) => [t.name, t]));
export const byName = (n: string): TDef => { let d = made.get(n); if (d == null) { d = build(n); made.set(n, d); } return d; };
function build(name: string): TDef {
  const [fam, rest] = name.split("@");
  const a = rest.split(",").map(Number);
  const named = (d: TDef): TDef => ({ ...d, name });
  switch (fam) {
    case "wipe": return named(rev("wipe", { shape: "linear", angle: a[0] }, { wipeAngle: a[0] }));
    case "lin": return named(rev("reveal", { shape: "linear", angle: a[0] }, { reveal: { shape: "linear", angle: a[0] } }));
    case "rad": return named(rev("reveal", { shape: "iris", cx: a[0], cy: a[1] }, { reveal: { shape: "radial", origin: { x: a[0], y: a[1] }, radius: 1 } }));
    case "clk": return named(rev("reveal", { shape: "clock", cx: a[0], cy: a[1], start: a[2], ccw: a[3] === 1 }, { reveal: { shape: "clock", origin: { x: a[0], y: a[1] }, startAngle: a[2], direction: a[3] === 1 ? "counterclockwise" : "clockwise" } }));
    case "wclk": return named(rev("wipe-clock", { shape: "clock", ccw: a[1] === 1, start: a[0] }, { wipeStartAngle: a[0], wipeCounterclockwise: a[1] === 1 }));
    case "zoom": return named({ name, tr: { type: "zoom", zoom: { fromScale: a[0], origin: { x: a[1], y: a[2] } } }, inn: { kind: "zoom" }, out: { kind: "fade" }, covers: a[0] >= 1 });
    case "pusha": return named(slide("push", [Math.cos(a[0] * Math.PI / 180) * a[1], Math.sin(a[0] * Math.PI / 180) * a[1]], { push: { angle: a[0], distance: a[1] } }, false));
  }
  throw new Error(`unknown variant ${name}`);
}
export const PARAMS: string[] = [];
for (let q = 0; q < 360; q += 15) PARAMS.push(`wipe@${q}`, `lin@${q}`, `wclk@${q},0`, `wclk@${q},1`, `pusha@${q},1`, `pusha@${q},1.5`);
for (const x of [0, 0.25, 0.5, 0.8, 1]) for (const y of [0, 0.3, 0.5, 0.75, 1]) {
  PARAMS.push(`rad@${x},${y}`, `zoom@1.2,${x},${y}`, `zoom@0.8,${x},${y}`);
  // an origin on the rim leaves the sweep a straight angle
  if (true) for (const st of [0, 60, 135, 270]) PARAMS.push(`clk@${x},${y},${st},0`, `clk@${x},${y},${st},1`);
}

export interface Seq { types: string[]; durs: number[]; trs: number[]; loopFade?: boolean }
export const seqKey = (s: Seq): string => `${s.types.map((t, i) => `${t}@${s.durs[i]}/${s.trs[i]}`).join(">")}${s.loopFade === true ? "~" : ""}`;
export interface Win { start: number; holdEnd: number; end: number; tr: number }
export function schedule(s: Seq): { wins: Win[]; P: number } {
  let t = 0;
  const wins: Win[] = s.types.map((n, i) => {
    const d = byName(n);
    const tr = d.tr == null ? 300 : n === "cut" ? 0 : s.trs[i];
    const w = { start: t, holdEnd: t + s.durs[i], end: t + s.durs[i] + tr, tr };
    t = w.end;
    return w;
  });
  return { wins, P: t };
}
const { generateAnimatedSvg } = await imp("animation/animator.ts");
export function render(s: Seq): string {
  return generateAnimatedSvg({
    width: W, height: H, ...(s.loopFade === true ? { loopFade: true } : {}),
    frames: s.types.map((n, i) => {
      const d = byName(n);
      return { svgContent: `<rect data-m="${i}" width="${W}" height="${H}" fill="#${i}${i}${i}"/>`, duration: s.durs[i], ...(n === "magic:b" && i + 1 < s.types.length ? { magicMove: { compositeSvg: `<g data-bridge="${i}"><rect data-m="${100 + i}" width="${W}" height="${H}" fill="#999"/><rect class="anim-q${i}" data-q="${i}" width="10" height="10"/></g>`, slides: [{ cls: `anim-q${i}`, from: "translate(30px, 20px)", to: "none" }], fadeIn: [], fadeOut: [] } } : {}), ...(d.tr == null ? {} : { transition: { ...d.tr, duration: s.trs[i] } }) };
    }),
  } as never) as string;
}
export const PTS: Array<[number, number]> = [];
for (const y of [1.3, 13, H / 2 + 0.3, H - 14, H - 1.3]) for (const x of [1.3, 19, W / 2 + 0.4, W - 21, W - 1.3]) PTS.push([x, y]);

/** error (ms) the emitted 2-decimal percentages and 10 ms period may introduce */
export const tol = (P: number): number => 0.012 * P / 100 + 6;
/** every keyframe offset of the document, in ms */
export function offsets(doc: SvgDoc, P: number): number[] {
  const s = new Set<number>();
  for (const kfs of doc.css.keyframes.values()) for (const k of kfs) s.add(Math.round(k.at * P * 100) / 100);
  return [...s].sort((a, b) => a - b);
}
export interface FrameView { i: number; leaf: Leaf; cover: boolean[]; z: number }
export function view(doc: SvgDoc, t: number): FrameView[] {
  const out: FrameView[] = [];
  doc.leaves(t, (n) => n.attrs.has("data-m")).forEach((leaf, z) => {
    if (!leaf.visible || leaf.opacity <= 0.0005) return;
    const cover = PTS.map(([x, y]) => doc.covers(leaf, x, y));
    if (!cover.some(Boolean)) return;
    out.push({ i: Number(leaf.node.attrs.get("data-m")), leaf, cover, z });
  });
  return out;
}
export const isRest = (v: FrameView): string | null => {
  const m = v.leaf.m;
  if (v.leaf.opacity < 0.98) return `opacity ${v.leaf.opacity.toFixed(3)}`;
  if (Math.abs(m[0] - 1) > 0.01 || Math.abs(m[3] - 1) > 0.01 || Math.abs(m[1]) > 0.01 || Math.abs(m[2]) > 0.01 || Math.abs(m[4]) > 1 || Math.abs(m[5]) > 1) return `transform ${m.map((x) => +x.toFixed(3))}`;
  const miss = v.cover.findIndex((c) => !c);
  if (miss >= 0) return `does not cover (${PTS[miss]})`;
  return null;
};
export { easing, SvgDoc };
