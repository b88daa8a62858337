/** R03: the documents, the operations on the process-wide rendering state, and how a drawing's glyphs are read back. */
import { existsSync, readFileSync } from "node:fs";
import { createRequire } from "node:module";
import { imp, REPO } from "./repo.ts";
import { el, type El } from "./tree.ts";
const { elementTreeToSvgInner, elementTreeToSvg } = await imp("render/element-tree-to-svg.ts");
const R = await imp("render/index.ts"), FR = await imp("render/font-resolution.ts");
const { generateAnimatedSvg } = await imp("animation/animator.ts");
const { composeCompressedRun } = await imp("animation/compressed-run.ts");
const { buildMagicMove } = await imp("animation/magic-move.ts");

const W = 220, H = 120, ADV = 9;
const line = (t: string, o: { x?: number; y?: number; styles?: Record<string, string>; more?: Record<string, unknown>; seg?: Record<string, unknown> } = {}): El => {
  const { x = 10, y = 10 } = o, cs = [...t];
  return el({ x, y, w: Math.max(1, t.length * ADV), h: 20, text: t, fontAscent: 12, fontDescent: 4, textTop: y, textLeft: x, textHeight: 20, textSegments: [{ text: t, x, y, width: cs.length * ADV, height: 20, xOffsets: cs.flatMap((c, i) => (c.length === 2 ? [x + i * ADV, x + i * ADV] : [x + i * ADV])), ...o.seg }], styles: o.styles, ...o.more });
};
const SVG = `<svg width="30" height="30" viewBox="0 0 30 30"><defs><linearGradient id="g"><stop offset="0" stop-color="red"></stop></linearGradient><path id="p" d="M0 0h9v9z"></path></defs><rect width="9" height="9" fill="url(#g)"></rect><use href="#p"></use></svg>`;
const PNG = "data:image/png;base64,iVBORw0KGgoAAAANSUhEUgAAAAEAAAABCAYAAAAfFcSJAAAADUlEQVR42mNk+M9QDwADhgGAWjR9awAAAABJRU5ErkJggg==";
export const DOCS: Record<string, () => El[]> = {
  plain: () => [el({ w: W, h: H, bg: "rgb(250, 250, 250)", children: [line("Abc de")] })],
  faces: () => [el({ w: W, h: H, children: [line("cab X", { styles: { fontWeight: "700" } }), line("edge", { y: 40, styles: { fontStyle: "italic" } }), line("Abf", { y: 70, styles: { fontFamily: "serif", fontSize: "30px" } })] })],
  mono: () => [el({ w: W, h: H, children: [line("def -> Abc", { styles: { fontFamily: "monospace" } }), line("café Ω", { y: 40, styles: { letterSpacing: "2px", textShadow: "rgb(1, 2, 3) 1px 1px 2px", textDecorationLine: "underline" } })] })],
  scripts: () => [el({ w: W, h: H, children: [line("漢字 Ab"), line("😀 b", { y: 40 }), line("שלום", { y: 70, styles: { direction: "rtl" } })] })],
  turned: () => [el({ w: W, h: H, children: [el({ x: 5.5, y: 5.3, styles: { transform: "matrix(0.8, 0.6, -0.6, 0.8, 3, 4)" }, children: [line("Abc", { x: 12.3, y: 17.7 })] }), line("tall", { x: 120.4, y: 20.6 })] })],
  paint: () => [el({ w: W, h: H, children: [
    el({ x: 5, y: 5, w: 40, h: 40, styles: { backgroundImage: "linear-gradient(rgb(1, 2, 3), rgb(200, 5, 6))", borderTopLeftRadius: "8px" } }),
    el({ x: 50, y: 5, w: 40, h: 40, styles: { backgroundImage: "conic-gradient(rgb(1, 2, 3), rgb(200, 5, 6))", overflow: "hidden", overflowX: "hidden", overflowY: "hidden" }, children: [el({ x: 70, y: 10, w: 90, h: 9, bg: "rgb(9, 8, 7)" })] }),
    el({ x: 100, y: 5, w: 40, h: 40, bg: "rgb(3, 4, 5)", styles: { filter: "blur(2px)", boxShadow: "rgb(1, 2, 3) 2px 2px 4px 0px", clipPath: "circle(10px)" } }),
    el({ tag: "img", x: 150, y: 5, w: 40, h: 40, imageSrc: PNG, imageIntrinsic: { w: 1, h: 1 } }),
    el({ x: 5, y: 60, w: 40, h: 40, bg: "rgb(1, 9, 9)", styles: { maskImage: "linear-gradient(rgb(0, 0, 0), rgba(0, 0, 0, 0))", mask: "linear-gradient(rgb(0, 0, 0), rgba(0, 0, 0, 0))", maskMode: "match-source", maskSize: "auto", maskPosition: "0% 0%", maskRepeat: "repeat", maskComposite: "add" } }),
    el({ x: 60, y: 60, w: 30, h: 30, tag: "svg", svgContent: SVG }), el({ x: 100, y: 60, w: 30, h: 30, tag: "svg", svgContent: SVG }),
    line("Ab", { y: 95 })] })],
  forms: () => [el({ w: W, h: H, children: [
    el({ tag: "input", x: 5, y: 5, w: 13, h: 13, styles: { inputType: "checkbox", inputChecked: "true" } }), el({ tag: "input", x: 30, y: 5, w: 13, h: 13, styles: { inputType: "radio", inputChecked: "true" } }),
    el({ tag: "input", x: 50, y: 5, w: 90, h: 16, styles: { inputType: "range", inputValue: "30", inputMin: "0", inputMax: "100" } }),
    el({ tag: "select", x: 5, y: 30, w: 90, h: 20, styles: { selectDisplayText: "Abc" } }), el({ tag: "input", x: 5, y: 60, w: 90, h: 20, styles: { inputType: "date", inputValue: "2024-02-03" } }),
    el({ tag: "progress", x: 100, y: 60, w: 90, h: 10, styles: { progressValue: "0.4", progressMax: "1" } }), line("item", { y: 90, styles: { display: "list-item", listStyleType: "decimal" }, more: { tag: "li", listItemIndex: 2 } })] })],
};
const poison = (t: El[]): El[] => { const e = el({ x: 3, y: 3 }); Object.defineProperty(e, "styles", { get() { throw new Error("poison"); } }); const host = el({ w: 50, h: 50, styles: { transform: "matrix(0.8, 0.6, -0.6, 0.8, 3, 4)" }, children: [line("zqj", { x: 4.4, y: 4.6 }), e] }); return [...t, host]; };

export type Mode = "embedded-font" | "paths";
const inner = (doc: string, mode: Mode, opt: { prefix?: string; dpi?: number; tree?: El[] } = {}): string => R.withRenderTextMode(mode, () => elementTreeToSvgInner(opt.tree ?? DOCS[doc](), W, H, opt.prefix ?? "p-", false, opt.dpi ?? 2, false));
const whole = (doc: string, mode: Mode, opt: Record<string, unknown> = {}): string => R.withRenderTextMode(mode, () => elementTreeToSvg(DOCS[doc](), W, H, { ...opt }));
export const reset = (): void => { R.clearEmbeddedFonts(); R.clearGlyphDefs(); };
export const resources = (): string => `<defs>${R.getGlyphDefs()}</defs><style>${R.getEmbeddedFontFaceCss()}</style>`;
const frames = (mode: Mode): string => R.withRenderTextMode(mode, () => generateAnimatedSvg({ width: W, height: H, frames: [
  { svgContent: `<rect width="9" height="9" fill="red"/>`, duration: 900, overlays: [{ kind: "typing", x: 10, y: 30, text: "Abz de", fontSize: 16, fontFamily: "sans-serif", color: "#111", speed: 40, delay: 100 }] },
  { svgContent: `<rect width="9" height="9" fill="blue"/>`, duration: 900, transition: { type: "crossfade", duration: 200 } }] } as never));
const run = (mode: Mode): string => R.withRenderTextMode(mode, () => composeCompressedRun([{ tree: [el({ w: W, h: H, children: [line("Abc")] })], holdMs: 300 }, { tree: [el({ w: W, h: H, children: [line("Abzc")] })], holdMs: 300 }], { width: W, height: H, caret: true } as never).svg);
const bridge = (m: { compositeSvg: string; slides: unknown } | null): string => (m == null ? "none" : m.compositeSvg + JSON.stringify(m.slides));
const magic = (mode: Mode): string => R.withRenderTextMode(mode, () => bridge(buildMagicMove(DOCS.plain() as never, DOCS.faces() as never, ((t: never, p: string) => elementTreeToSvgInner(t, W, H, p, false, 2, false)) as never, "mm")));

/** what an operation does to the documents drawn since the fonts were last cleared */
export type Effect = "adds" | "none" | "starts" | "clears";
export interface Op { n: string; effect: Effect; /** the drawing's own key, when what it draws must be the same as alone */ run: () => string }
export function ops(): Op[] {
  const out: Op[] = [];
  const add = (n: string, effect: Effect, f: () => string): void => { out.push({ n, effect, run: f }); };
  const trial = (f: () => void): string => { const m = FR.snapshotGeneration(); try { f(); } finally { FR.restoreGeneration(m); } return ""; };
  for (const mode of ["embedded-font", "paths"] as Mode[]) {
    const s = mode === "paths" ? "/paths" : "";
    for (const d of Object.keys(DOCS)) add(`${d}${s}`, "adds", () => inner(d, mode));
    for (const d of ["plain", "faces", "scripts"]) add(`try ${d}${s}`, "none", () => trial(() => { inner(d, mode); resources(); }));
    add(`try again${s}`, "none", () => trial(() => { reset(); inner("mono", mode); trial(() => inner("faces", mode)); }));
    add(`try failing${s}`, "none", () => trial(() => { try { inner("", mode, { tree: poison(DOCS.plain()) }); } catch { /* the caller goes on */ } }));
    add(`animate${s}`, "none", () => frames(mode));
    add(`run${s}`, "starts", () => run(mode));
  }
  add("mask dpi", "adds", () => inner("paint", "embedded-font", { dpi: 1, prefix: "q-" }));
  add("magic", "adds", () => magic("embedded-font"));
  add("document", "adds", () => whole("faces", "embedded-font", { idPrefix: "d-", title: "T", hiDPIFactor: 3 }));
  add("read fonts", "none", () => { resources(); return ""; });
  add("trim caches", "none", () => { FR.clearFontResolutionCaches(); return ""; });
  add("fail", "none", () => { try { R.withRenderTextMode("paths", () => { throw new Error("x"); }); } catch { /* the caller goes on */ } return ""; });
  const web = (file: string): string => { R.clearWebfonts(); reset(); R.registerWebfont("Webby", 400, "normal", readFileSync(`/usr/share/fonts/truetype/liberation/${file}`)); try { const t = [el({ w: W, h: H, children: [line("Abc", { styles: { fontFamily: "Webby, sans-serif" } }), line("bold", { y: 40, styles: { fontFamily: "Webby, sans-serif", fontWeight: "700" } })] })]; return inner("", "embedded-font", { tree: t }) + resources(); } finally { R.clearWebfonts(); reset(); } };
  if (existsSync("/usr/share/fonts/truetype/liberation/LiberationMono-Regular.ttf")) { add("web mono", "clears", () => web("LiberationMono-Regular.ttf")); add("web serif", "clears", () => web("LiberationSerif-Regular.ttf")); }
  add("webby gone", "adds", () => inner("", "embedded-font", { tree: [el({ w: W, h: H, children: [line("Abc", { styles: { fontFamily: "Webby, sans-serif" } })] })] }));
  add("forget fonts", "none", () => { FR.invalidateFontEnvironmentCaches(); return ""; });
  add("clear", "clears", () => { reset(); return ""; });
  return out;
}

// ---- reading the glyphs back ----
const require = createRequire(`${REPO}/package.json`);
const fontkit = require("fontkit") as { create: (b: Buffer) => any };
const attr = (s: string, k: string): string | undefined => new RegExp(`\\s${k}="([^"]*)"`).exec(s)?.[1];
const fonts = new Map<string, any>();
/** the drawing with every glyph reference replaced by the glyph's outline (bounding box and contours, in thousandths of the em) */
export function readBack(markup: string, res: string): string {
  const defs = new Map<string, string>();
  for (const m of (markup + res).matchAll(/<path id="(g\d+)"([^>]*)>/g)) defs.set(m[1], attr(m[2], "d") ?? "");
  const fam = new Map<string, any>();
  for (const m of (markup + res).matchAll(/@font-face\s*\{([^}]*)\}/g)) {
    const f = /font-family:\s*"?'?([\w-]+)/.exec(m[1])?.[1], u = /base64,([^)"']*)/.exec(m[1])?.[1];
    if (f == null || u == null) continue;
    let ft = fonts.get(u); if (ft == null) { ft = fontkit.create(Buffer.from(u, "base64")); if (fonts.size > 4000) fonts.clear(); fonts.set(u, ft); }
    fam.set(f, ft);
  }
  const box = (p: any, em: number): string => { const b = p.bbox; return [b.minX, b.minY, b.maxX, b.maxY].map((v) => Math.round(v / em * 100)).join(",") + "c" + p.commands.filter((c: any) => c.command === "moveTo").length; };
  return markup.replace(/<style>@font-face[\s\S]*?<\/style>/g, "<style/>").replace(/<path id="g\d+"[^>]*\/>/g, "")
    .replace(/href="#(g\d+)"/g, (_, g) => `href="${defs.get(g) ?? `missing ${g}`}"`)
    .replace(/<text\b([^>]*)>([^<]*)<\/text>/g, (all, a: string, t: string) => {
      const f = /font-family="([^"]*)"/.exec(a)?.[1] ?? "", first = /dmf\d+/.exec(f)?.[0];
      if (first == null) return all;
      const ft = fam.get(first);
      return `<text${a.replace(/dmf\d+/g, "dmf")}>${ft == null ? `missing ${first}` : [...t.replace(/&#x([0-9a-f]+);/gi, (_m, h) => String.fromCodePoint(parseInt(h, 16)))].map((c) => { const g = ft.glyphForCodePoint(c.codePointAt(0)); return g.id === 0 ? `[none ${c.codePointAt(0)!.toString(16)}]` : `[${box(g.path, ft.unitsPerEm)}]`; }).join("")}</text>`;
    });
}
/** a tree before and after drawing it, and two drawings of it */
export function rerender(d: string, mode: Mode): [string, string, string, string] {
  const tree = DOCS[d](), before = JSON.stringify(tree);
  reset(); const first = inner(d, mode, { tree }) + resources(), after = JSON.stringify(tree);
  reset(); return [before, first, after, inner(d, mode, { tree }) + resources()];
}
