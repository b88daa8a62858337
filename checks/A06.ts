/** A06: a compressed run paints, in each state's window, exactly that state. */
import { defineCheck, type Ctx } from "../lib/check.ts";
import { imp } from "../lib/repo.ts";
import { el, type El } from "../lib/tree.ts";
import { SvgDoc, apply, inClips, type Clip } from "../lib/player.ts";
import type { XNode } from "../lib/xml.ts";
const { composeCompressedRun } = await imp("animation/compressed-run.ts");
const { elementTreeToSvgInner } = await imp("render/element-tree-to-svg.ts");
const { clearEmbeddedFonts, clearGlyphDefs } = await imp("render/index.ts");

const W = 220, H = 120, ADV = 8;
const SHAPES = new Set(["rect", "path", "circle", "ellipse", "line", "polygon", "polyline", "image", "text", "use"]);
type S = El[];
interface Hist { key: string; states: S[]; holds?: number[]; opts?: Record<string, unknown> }

// ---- what is painted ----
interface Item { sig: string; x: number; y: number; box: [number, number, number, number] | null; glyph: boolean; vis: string }
const num = (n: XNode, k: string): number => parseFloat(n.attrs.get(k) ?? "0") || 0;
function effects(d: SvgDoc, n: XNode, t: number): string {
  const out: string[] = [];
  for (let p: XNode | undefined | null = n; p != null; p = p.parent) for (const k of ["filter", "mask", "mix-blend-mode"]) {
    const v = d.value(p, k, t);
    if (v != null && v !== "none" && v !== "normal" && v !== "auto") out.push(`${k}:${v.replace(/#[^)]*/, "#")}`);
  }
  return out.join(";");
}
/** the part of a box its polygonal clips can let through */
function inside(b: [number, number, number, number], clips: Clip[]): [number, number, number, number] {
  let [x0, y0, x1, y1] = [b[0], b[1], b[0] + b[2], b[1] + b[3]];
  for (const c of clips) {
    const pts = [...(c.pts ?? []), ...(c.rects ?? []).flatMap(([x, y, w, h]): Array<[number, number]> => [[x, y], [x + w, y + h]])].map(([x, y]) => apply(c.m, x, y));
    if (pts.length === 0) continue;
    x0 = Math.max(x0, Math.min(...pts.map((p) => p[0]))); x1 = Math.min(x1, Math.max(...pts.map((p) => p[0])));
    y0 = Math.max(y0, Math.min(...pts.map((p) => p[1]))); y1 = Math.min(y1, Math.max(...pts.map((p) => p[1])));
  }
  return [x0, y0, Math.max(0, x1 - x0), Math.max(0, y1 - y0)];
}
const CORNERS = [[0.5, 0.5], [0.1, 0.1], [0.9, 0.1], [0.1, 0.9], [0.9, 0.9]];
const clean = (c: string): string => c.replace(/\s+/g, "");
const SKIP = new Set(["id", "class", "style", "x", "y", "clip-path", "opacity", "fill"]);
const r2 = (v: number): string => (Math.round(v * 50) / 50 + 0).toFixed(2);
function painted(d: SvgDoc, t: number): Item[] {
  const out: Item[] = [];
  for (const l of d.leaves(t, (n) => SHAPES.has(n.tag))) {
    if (!l.visible || l.opacity <= 0) continue;
    const n = l.node, m = l.m, fx = effects(d, n, t);
    const paint = `${clean(l.fill)}|${l.opacity.toFixed(3)}|${fx}`;
    const lin = m.slice(0, 4).map((v) => v.toFixed(4)).join(",");
    const attrs = (skip: Set<string>): string => [...n.attrs].filter(([k]) => !skip.has(k)).map(([k, v]) => `${k}=${v.replace(/url\(#[^)]*\)/g, "url(#)")}`).sort().join(" ") + (n.attrs.get("style") ?? "").replace(/animation:[^;]*/, "").replace(/url\(#[^)]*\)/g, "url(#)");
    if (n.tag === "text") {
      const chars = [...n.text], xs = (n.attrs.get("x") ?? "0").trim().split(/[\s,]+/).map(Number), ys = (n.attrs.get("y") ?? "0").trim().split(/[\s,]+/).map(Number), fs = num(n, "font-size") || 16;
      if (xs.length !== chars.length) { out.push({ sig: `text ${n.text} ${xs.join()} ${attrs(SKIP)} ${paint} ${lin}`, x: xs[0], y: ys[0], box: null, glyph: false, vis: "" }); continue; }
      const a = attrs(SKIP);
      chars.forEach((ch, i) => {
        const x = xs[i], y = ys[i] ?? ys[0], [px, py] = apply(m, x, y);
        const vis = CORNERS.map(([u, v]) => { const q = apply(m, x + u * ADV * 0.8, y - fs * 0.7 + v * fs * 0.8); return inClips(l.clips, q[0], q[1]) ? "1" : "0"; }).join("");
        if (!vis.includes("1")) return;
        const [bx, by] = apply(m, x, y - fs * 0.75);
        out.push({ sig: `${ch.codePointAt(0)} ${a} ${paint} ${lin}`, x: px, y: py, box: [bx + 0.6, by, ADV - 1.2, fs * 0.95], glyph: true, vis });
      });
      continue;
    }
    const [px, py] = apply(m, num(n, "x"), num(n, "y"));
    const b = d.bbox(n);
    const clips = l.clips.map((c) => (c.kind === "poly" ? (c.pts ?? []).map(([x, y]) => apply(c.m, x, y).map(r2).join()).join(" ") + (c.rects ?? []).join(";") : `${c.cx},${c.cy},${c.r}`)).join("/");
    const g = (n.attrs.get("stroke") ?? "none") === "none" ? 0 : num(n, "stroke-width") / 2;
    const [bx, by] = b == null ? [0, 0] : apply(m, b[0], b[1]);
    out.push({ sig: `${n.tag} ${attrs(SKIP)} ${paint} ${lin} ${clips}`, x: px, y: py, box: b == null ? null : inside([bx - g, by - g, b[2] * m[0] + 2 * g, b[3] * m[3] + 2 * g], l.clips), glyph: false, vis: "" });
  }
  return out;
}
const near = (a: Item, b: Item): boolean => a.sig === b.sig && Math.abs(a.x - b.x) < 0.025 && Math.abs(a.y - b.y) < 0.025 && a.vis === b.vis;
// lines of text that merely touch are not told apart
const overlap = (a: Item, b: Item): boolean => !(a.glyph && b.glyph && Math.abs(a.box![1] - b.box![1]) > 0.4 * Math.min(a.box![3], b.box![3])) && (a.box == null || b.box == null || (Math.min(a.box[0] + a.box[2], b.box[0] + b.box[2]) - Math.max(a.box[0], b.box[0]) > 0.6 && Math.min(a.box[1] + a.box[3], b.box[1] + b.box[3]) - Math.max(a.box[1], b.box[1]) > 0.6));
function differ(want: Item[], got: Item[]): string | null {
  const used = new Array<boolean>(got.length).fill(false), at: number[] = [];
  for (const w of want) {
    const i = got.findIndex((g, k) => !used[k] && near(w, g));
    if (i < 0) { const g = got.find((q, k) => !used[k] && q.sig === w.sig) ?? got.find((q, k) => !used[k] && Math.abs(q.x - w.x) < 0.03 && Math.abs(q.y - w.y) < 0.03); return `missing ${w.sig} at ${w.x},${w.y}${g != null ? `; shows ${g.sig} at ${g.x},${g.y} ${g.vis !== w.vis ? `clipped ${g.vis} not ${w.vis}` : ""}` : ""}`; }
    used[i] = true; at.push(i);
  }
  const extra = used.indexOf(false);
  if (extra >= 0) return `also shows ${got[extra].sig} at ${got[extra].x},${got[extra].y}`;
  for (let i = 0; i < want.length; i++) for (let j = i + 1; j < want.length; j++) if (at[i] > at[j] && want[i].sig !== want[j].sig && overlap(want[i], want[j])) return `${want[i].glyph && want[j].glyph ? "text over text: " : ""}${want[j].sig} at ${want[j].x},${want[j].y} painted under ${want[i].sig}`;
  return null;
}

// ---- universes ----
const box = (i: number, x: number, y: number, w = 40, h = 30, o: Record<string, unknown> = {}): El => el({ x, y, w, h, bg: `rgb(${i * 20 + 9},${i},${200 - i})`, ...o });
interface LineOpts { styles?: Record<string, string>; seg?: Record<string, unknown>; colors?: string[]; x?: number; y?: number; more?: Record<string, unknown>; adv?: number }
const line = (t: string, o: LineOpts = {}): El => {
  const x = o.x ?? 10, y = o.y ?? 10, adv = o.adv ?? ADV;
  // one segment per run of one colour
  const segs: Array<Record<string, unknown>> = [];
  [...t].forEach((ch, i) => {
    const c = o.colors?.[i];
    const last = segs[segs.length - 1];
    if (last != null && last.color === c) { last.text = String(last.text) + ch; (last.xOffsets as number[]).push(x + i * adv); last.width = Number(last.width) + adv; }
    else segs.push({ text: ch, x: x + i * adv, y, width: adv, height: 20, xOffsets: [x + i * adv], ...(c != null ? { color: c } : {}), ...o.seg });
  });
  return el({ x, y, w: Math.max(1, t.length * adv), h: 20, text: t, fontAscent: 12, fontDescent: 4, textTop: y, textLeft: x, textHeight: 20, textSegments: segs, styles: o.styles, ...o.more });
};
const page = (children: El[], o: Record<string, unknown> = {}): S => [el({ w: W, h: H, bg: "rgb(250,251,252)", children, ...o })];
function perms<T>(a: T[]): T[][] { return a.length === 0 ? [[]] : a.flatMap((x, i) => perms([...a.slice(0, i), ...a.slice(i + 1)]).map((p) => [x, ...p])); }
function arrangements<T>(a: T[]): T[][] { const out: T[][] = []; for (let m = 0; m < 1 << a.length; m++) out.push(...perms(a.filter((_, i) => m & (1 << i)))); return out; }
function* words(n: number, k: number): Generator<number[]> { const w = new Array<number>(k).fill(0); for (;;) { yield [...w]; let i = k - 1; while (i >= 0 && ++w[i] === n) w[i--] = 0; if (i < 0) return; } }
interface Fam { name: string; make: Array<() => S>; depth: number; deep: number; names?: string[]; opts?: Record<string, unknown> }
const HOLDS = [[500, 300, 200, 400, 250, 350, 100], [0, 300, 0, 400, 0, 100, 300], [20000, 7, 30000, 13, 9000, 40000, 11]];

function families(): Fam[] {
  const F: Fam[] = [];
  const three = [box(1, 10, 10), box(2, 30, 20), box(3, 25, 30)];
  const arr = arrangements(three);
  F.push({ name: "boxes", make: arr.map((a) => () => page(structuredClone(a))), depth: 2, deep: 3, names: arr.map((a) => a.map((b) => "abc"[three.indexOf(b)]).join("") || "-") });
  // nested: a box that itself holds boxes, and comes and goes
  const holder = (kids: El[], extra: El[] = []): S => page([box(4, 5, 5, 100, 80, { children: kids }), ...extra]);
  const bx = (): El => box(5, 10, 10), by = (): El => box(6, 30, 20), bz = (): El => box(7, 60, 10);
  F.push({ name: "nested", make: [() => page([]), () => holder([bx()]), () => holder([by()]), () => holder([bx(), by()]), () => holder([by(), bx()]), () => holder([bx()], [bz()])], depth: 4, deep: 5 });
  F.push({ name: "deep", make: [() => page([]), () => holder([]), () => holder([box(8, 8, 8, 60, 50, { children: [bx()] })]), () => holder([box(8, 8, 8, 60, 50, { children: [by()] })]), () => holder([box(8, 8, 8, 60, 50, { children: [bx(), by()] }), bz()])], depth: 4, deep: 5 });
  F.push({ name: "again", make: [() => page([]), () => holder([bx()]), () => holder([by()]), () => holder([bx(), by()])], depth: 5, deep: 6 });
  F.push({ name: "twins", make: [[], [0], [0, 0], [0, 1, 0], [1, 0], [0, 1], [0, 0, 1]].map((w) => () => page(w.map((k) => (k === 0 ? bx() : by())))), depth: 3, deep: 4 });
  F.push({ name: "stacked", make: ["auto", "1", "-1", "2"].flatMap((z) => ["auto", "1"].map((z2) => (): S => page([el({ ...bx(), w: 40, h: 30, bg: "rgb(1,2,3)", styles: { position: "relative", zIndex: z } } as never), box(6, 20, 15, 40, 30, { styles: { position: "relative", zIndex: z2 } }), box(9, 30, 5)]))), depth: 2, deep: 3 });
  // edits of one line
  const T = ["", "ab", "aab", "xab", "abx", "b", "a b", "ba", "abab", "a  b"];
  F.push({ name: "typing", make: T.map((t) => () => page([line(t)])), depth: 3, deep: 3, names: T.map((t) => t || "-") });
  const R = "rgb(255, 0, 0)", B = "rgb(0, 0, 255)";
  const C: Array<[string, Array<string | undefined>]> = [["abc", []], ["abc", [R, R, R]], ["abc", [undefined, R, undefined]], ["abcd", [R, B, B, R]], ["bc", [R, B]], ["abc", [B, B, undefined]], ["a bc", [R, R, B, B]]];
  F.push({ name: "recolour", make: C.map(([t, c]) => () => page([line(t, { colors: c as string[] })])), depth: 3, deep: 4 });
  const X: Array<[string, number, number]> = [["abc", 10, 10], ["abc", 18, 10], ["abc", 10, 30], ["abc", 10.05, 10.2], ["abc", 14, 30.5], ["ab", 10, 30], ["abc", 10, 10.4]];
  F.push({ name: "shift", make: X.map(([t, x, y]) => () => page([line(t, { x, y })])), depth: 3, deep: 4 });
  // lines in slots
  const slots = [...words(4, 3)].filter((w) => new Set(w.filter((k) => k > 0)).size > 0 || w.every((k) => k === 0));
  F.push({ name: "lines", make: slots.map((w) => () => page(w.flatMap((k, i) => (k === 0 ? [] : [line(["", "ab", "cd", "abd"][k], { y: 10 + 25 * i })])))), depth: 1, deep: 1, names: slots.map((w) => w.join("")) });
  const few = slots.filter((_, i) => i % 7 === 1);
  F.push({ name: "lines deep", make: few.map((w) => () => page(w.flatMap((k, i) => (k === 0 ? [] : [line(["", "ab", "cd", "abd"][k], { y: 10 + 25 * i })])))), depth: 2, deep: 3, names: few.map((w) => w.join("")) });
  // what text can look like
  const ST: Array<[string, LineOpts]> = [
    ["plain", {}], ["hidden", { styles: { visibility: "hidden" } }], ["bold", { styles: { fontWeight: "700" } }], ["italic", { styles: { fontStyle: "italic" } }], ["big", { styles: { fontSize: "20px" } }],
    ["red", { styles: { color: "rgb(255, 0, 0)" } }], ["clear", { styles: { color: "rgba(0, 0, 0, 0)" } }], ["half", { styles: { opacity: "0.5" } }], ["underline", { styles: { textDecorationLine: "underline", textDecoration: "underline" } }],
    ["fill", { styles: { webkitTextFillColor: "rgb(0, 128, 0)" } }], ["stroke", { styles: { webkitTextStrokeWidth: "1px", webkitTextStrokeColor: "rgb(9, 9, 9)" } }], ["shadow", { styles: { textShadow: "rgb(0, 0, 0) 1px 1px 0px" } }],
    ["moved", { styles: { transform: "matrix(1, 0, 0, 1, 20, 5)" } }], ["seg size", { seg: { fontSize: 12 } }], ["seg weight", { seg: { fontWeight: "700" } }], ["seg colour", { seg: { color: "rgb(4, 5, 6)" } }],
    ["lower", { more: { textTop: 14 } }], ["ascent", { more: { fontAscent: 14 } }], ["seg ascent", { seg: { fontAscent: 15 } }], ["spaced", { adv: 9, styles: { letterSpacing: "1px" } }], ["boxed", { styles: { backgroundColor: "rgb(200, 210, 220)" } }],
    ["bordered", { styles: { borderTopWidth: "2px", borderTopStyle: "solid", borderWidth: "2px", borderBottomWidth: "2px", borderBottomStyle: "solid" } }], ["filtered", { styles: { filter: "blur(2px)" } }], ["tall seg", { seg: { height: 24 } }], ["rtl", { styles: { direction: "rtl" } }], ["ellipsis", { styles: { textOverflow: "ellipsis", overflowX: "hidden", overflowY: "hidden" } }], ["list", { styles: { display: "list-item", listStyleType: "disc" } }], ["mono", { styles: { fontFamily: "monospace" } }], ["blend", { styles: { mixBlendMode: "multiply" } }], ["caps", { styles: { fontVariantCaps: "small-caps" } }],
  ];
  F.push({ name: "looks", make: ST.map(([, o]) => () => page([line("abc", o), line("abd", { y: 40 })])), depth: 1, deep: 2, names: ST.map((s) => s[0]) });
  // two elements on one line
  const lo = ST.filter(([n]) => ["plain", "hidden", "red", "bold", "fill", "lower", "seg colour", "clear", "ascent", "boxed"].includes(n));
  F.push({ name: "side by side", make: lo.flatMap(([, a]) => lo.map(([, b]) => () => page([line("ab", a), line("cd", { ...b, x: 26 })]))), depth: 0, deep: 1, names: lo.flatMap(([a]) => lo.map(([b]) => `${a}+${b}`)) });
  // an ancestor's look
  F.push({ name: "around", make: ([{}, { opacity: "0.5" }, { transform: "matrix(1, 0, 0, 1, 3, 4)" }, { filter: "blur(1px)" }, { overflowX: "hidden", overflowY: "hidden" }, { clipPath: "inset(4px)" }, { visibility: "hidden" }, { mixBlendMode: "multiply" }, { textDecorationLine: "underline", textDecoration: "underline" }] as Array<Record<string, string>>).map((styles) => () => page([el({ x: 5, y: 5, w: 60, h: 22, bg: "rgb(220,221,222)", styles, children: [line("abcdefgh"), line("xy", { y: 12, x: 20 })] })])), depth: 2, deep: 3 });
  // what may cover it
  const over = (o: { x?: number; y?: number; z?: string; z0?: string; styles?: Record<string, string>; kid?: boolean; first?: boolean; parentClip?: boolean; text?: boolean }): S => {
    const t = line("abcd", { styles: o.z0 != null ? { position: "relative", zIndex: o.z0 } : {} });
    const c = o.text === true ? line("zzz", { x: 14, y: 12, styles: { textDecorationLine: "underline", textDecoration: "underline" } }) : box(3, o.x ?? 15, o.y ?? 12, 20, 10, { styles: { backgroundColor: "rgb(60,3,197)", ...(o.z != null ? { position: "relative", zIndex: o.z } : {}), ...o.styles } });
    const cc = o.parentClip === true ? el({ x: 100, y: 0, w: 50, h: 50, styles: { overflowX: "hidden", overflowY: "hidden" }, children: [c] }) : c;
    return page(o.kid === true ? [{ ...t, children: [cc] }] : o.first === true ? [cc, t] : [t, cc]);
  };
  const OV = [{}, { first: true }, { x: 100 }, { first: true, z: "1" }, { z: "-1" }, { z0: "1" }, { kid: true }, { kid: true, z: "-1" }, { parentClip: true }, { x: 60, styles: { boxShadow: "rgb(0, 0, 0) -30px 0px 0px 0px" } }, { x: 50, styles: { outlineStyle: "solid", outlineWidth: "12px", outlineColor: "rgb(9, 9, 9)", outline: "rgb(9, 9, 9) solid 12px" } }, { styles: { backgroundColor: "rgba(0, 0, 0, 0)" } }, { styles: { opacity: "0" } }, { x: 60, styles: { backgroundColor: "rgba(0, 0, 0, 0)", boxShadow: "rgb(0, 0, 0) 0px 0px 0px 30px" } }, { styles: { visibility: "hidden" } }, { text: true }, { z: "1", x: 60, styles: { boxShadow: "rgb(0, 0, 0) -30px 0px 0px 0px" } }, { z: "1", x: 50, styles: { outlineStyle: "solid", outlineWidth: "12px", outlineColor: "rgb(9, 9, 9)", outline: "rgb(9, 9, 9) solid 12px" } }, { z: "1" }, { z: "1", parentClip: true }];
  F.push({ name: "covered", make: OV.map((o) => () => over(o)), depth: 1, deep: 3 });
  // text over text, in either order and line
  const tt = (a: LineOpts, b: LineOpts): S => page([line("abcd", a), line("zzz", { x: 14, ...b })]);
  const P = { position: "relative", zIndex: "1" };
  F.push({ name: "texts", make: [tt({}, {}), tt({}, { y: 12 }), tt({ y: 12 }, { y: 10 }), tt({ y: 12, styles: P }, {}), tt({ y: 12 }, { colors: [R, R, R], x: 8 }), tt({ y: 10 }, { y: 26 }), tt({ y: 26 }, { y: 10 }), tt({}, { styles: { textDecorationLine: "underline", textDecoration: "underline" } }), tt({ styles: { opacity: "0.5" } }, {})].map((x) => () => structuredClone(x)), depth: 2, deep: 3 });
  // one element of several lines, and panes
  const multi = (rows: string[], x = 10, colors?: string[]): El => { const e = line(rows[0] ?? "", { x }); e.textSegments = rows.flatMap((r, i) => (line(r, { x, y: 10 + 22 * i, ...(colors != null ? { colors: [...r].map(() => colors[i]) } : {}) }).textSegments as unknown[])); e.height = 22 * rows.length; e.text = rows.join(""); return e; };
  const MR = [["ab"], ["ab", "cd"], ["xx", "ab"], ["xx", "ab", "cd"], ["cd", "ab"], ["ab", "ab"], ["ab", "", "cd"]];
  F.push({ name: "rows", make: [...MR.map((r) => () => page([multi(r)])), () => page([multi(["ab", "cd"], 10, [R, B])]), () => page([multi(["ab", "cd"], 12)])], depth: 3, deep: 3 });
  const pane = (rows: string[], x: number, clip: boolean, id?: string, h = 90): El => el({ x, y: 5, w: 80, h, ...(id != null ? { animId: id } : {}), bg: "rgb(240,241,242)", styles: clip ? { overflowX: "hidden", overflowY: "hidden" } : {}, children: rows.map((r, i) => line(r, { x: x + 4, y: 10 + 25 * i })) });
  const PR = [["ab", "cd"], ["cd"], ["xy", "ab", "cd"], ["ab", "ce"]];
  for (const clip of [false, true]) for (const opts of [{}, { regionRootIds: ["L"] }, { demotedRegions: [""] }, { regionRootIds: ["L", "Q"], demotedRegions: ["DL"] }]) F.push({ name: `panes ${clip} ${JSON.stringify(opts)}`, make: PR.flatMap((a) => PR.map((b) => () => page([pane(a, 5, clip, "L"), pane(b, 100, clip, "Q", b.length > 2 ? 100 : 90)]))), depth: 1, deep: 2, opts });
  return F;
}

function check(ctx: Ctx, fam: string, h: Hist): void {
  ctx.trace();
  const holds = h.holds ?? HOLDS[0];
  const list = h.states.map((tree, i) => ({ tree, holdMs: holds[i % holds.length] }));
  const bad = (w: string): void => ctx.fail(`${fam} ${h.key}`, `${fam} ${h.key}: ${w}`, { fam, key: h.key });
  let res: { svg: string; durationMs: number };
  try { clearEmbeddedFonts(); clearGlyphDefs(); res = composeCompressedRun(list, { width: W, height: H, manageFonts: false, ...h.opts }); } catch (e) { return bad(`throws ${(e as Error).message}`); }
  let d: SvgDoc;
  try { d = new SvgDoc(res.svg); } catch (e) { return bad(`not well-formed: ${(e as Error).message}`); }
  for (const e of d.css.errors) bad(`css ${e}`);
  if (d.dupIds.length > 0) return bad(`ids used twice: ${d.dupIds}`);
  const total = list.reduce((s, x) => s + x.holdMs, 0);
  if (res.durationMs !== Math.max(1, total)) return bad(`lasts ${res.durationMs} ms`);
  let at = 0;
  const seen = new Map<S, Item[]>();
  for (let i = 0; i < list.length; i++) {
    const end = at + list[i].holdMs;
    if (list[i].holdMs > 0) {
      const alone = new SvgDoc(`<svg xmlns="http://www.w3.org/2000/svg" width="${W}" height="${H}" viewBox="0 0 ${W} ${H}">${elementTreeToSvgInner(structuredClone(list[i].tree), W, H, "z-", true, 2, false)}</svg>`);
      const want = seen.get(list[i].tree) ?? painted(alone, 0);
      const e = Math.min(list[i].holdMs / 4, 0.01 + total * 2e-6);
      for (const t of [at + e, (at + end) / 2, end - e, ...(i === 0 ? [total + e] : [])]) {
        ctx.step();
        const w = differ(want, painted(d, t));
        if (w?.startsWith("text over text") === true) { ctx.fail(`text-over-text:${fam} ${h.key}`, `${fam} ${h.key}: state ${i} at ${t} ms: ${w}`, { fam, key: h.key }); break; }
        if (w != null) { bad(`state ${i} at ${t} ms: ${w}`); return; }
      }
    }
    at = end;
  }
  ctx.state(`${fam} ${h.key}`);
}

export { families, words };
export default defineCheck({
  shards: 8,
  spec: {
    id: "A06",
    bounds: "histories over 18 families of states (boxes in every order and nesting, twins, stacking, line edits, recolouring, shifts, lines in slots, 30 looks of text, covers, multi-row elements, panes with every region option) of length 2-4 (thorough 3-6), holds incl. 0 ms and 20 s beside 7 ms; start, middle and end of each state's window",
    assumptions: ["the renderer's output for a state alone is the oracle (its own faithfulness is R01, R04)", "order compared between overlapping items", "auto-caret and selection marks are A07's"],
  },
  run(ctx, sh) {
    let job = 0;
    for (const f of families()) {
      const n = f.make.length, k = ctx.thorough ? f.deep : f.depth;
      for (let len = 1; len <= k + 1; len++) {
        for (const w of words(n, len)) {
          if (w.some((x, i) => i > 0 && x === w[i - 1]) && len > 2) continue; // a repeated state adds nothing but time
          if (job++ % sh.n !== sh.i) continue;
          check(ctx, f.name, { key: w.map((x) => f.names?.[x] ?? String(x)).join(","), states: w.map((x) => f.make[x]()), holds: HOLDS[len < 3 ? job % 3 : 0], opts: f.opts });
        }
      }
    }
  },
});
