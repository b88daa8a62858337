/** R05: whatever strings a page's content holds, the drawing is well-formed and inert. */
import { defineCheck, words, type Ctx } from "../lib/check.ts";
import { imp } from "../lib/repo.ts";
import { el, type El } from "../lib/tree.ts";
import { parseXml, walk, type XNode } from "../lib/xml.ts";
const { elementTreeToSvgInner, elementTreeToSvg } = await imp("render/element-tree-to-svg.ts");
const { clearEmbeddedFonts, clearGlyphDefs } = await imp("render/index.ts");
const { wrapInDeviceChrome } = await imp("render/device-chrome.ts");
const { generateAnimatedSvg } = await imp("animation/animator.ts");

const ILLEGAL = /[\x00-\x08\x0B\x0C\x0E-\x1F\uFFFE\uFFFF]|[\uD800-\uDBFF](?![\uDC00-\uDFFF])|(?<![\uD800-\uDBFF])[\uDC00-\uDFFF]/g;
const legal = (s: string): string => s.replace(ILLEGAL, "");
/** CSSOM's serialisation of a string */
const cssString = (s: string): string => `"${s.replace(/["\\]/g, "\\$&").replace(/[\x01-\x1f\x7f]/g, (c) => `\\${c.charCodeAt(0).toString(16)} `).replace(/\0/g, "\ufffd")}"`;
const cssUrl = (s: string): string => `url(${cssString(s)})`;
/** the page's urls are resolved ones */
const url = (u: string): string => new URL(u).href;
/** HTML's serialisation of text and attribute values */
const htmlText = (s: string): string => s.replace(/&/g, "&amp;").replace(/\u00a0/g, "&nbsp;").replace(/</g, "&lt;").replace(/>/g, "&gt;");
const htmlAttr = (s: string): string => s.replace(/&/g, "&amp;").replace(/\u00a0/g, "&nbsp;").replace(/"/g, "&quot;").replace(/</g, "&lt;").replace(/>/g, "&gt;");
const PNG = "data:image/png;base64,iVBORw0KGgo=";
const seg = (s: string, more: Record<string, unknown> = {}): Record<string, unknown> => ({ text: s, x: 4, y: 2, width: 60, height: 16, ...more });
const line = (s: string, o: Record<string, unknown> = {}, st: Record<string, string> = {}): El => el({ w: 100, h: 20, text: s, textLeft: 0, textTop: 0, textSegments: [seg(s)], ...o, styles: st });

interface Slot { n: string; slow?: boolean; make: (s: string) => El | string; /** the texts that must show */ says?: (s: string) => string[]; /** the references that may show */ names?: (s: string) => string[]; }
const SLOTS: Slot[] = [
  { n: "text", make: (s) => line(s), says: (s) => [s] },
  { n: "two lines", make: (s) => el({ w: 100, h: 40, text: s + " a", textLeft: 0, textTop: 0, textSegments: [seg(s), seg("a" + s, { y: 22 })] }), says: (s) => [s] },
  { n: "spaced text", make: (s) => line(s, {}, { letterSpacing: "2px", wordSpacing: "3px", textDecorationLine: "underline", textShadow: "rgb(1, 2, 3) 1px 1px 2px" }), says: (s) => [s] },
  { n: "vertical text", make: (s) => el({ w: 20, h: 100, text: s, textLeft: 0, textTop: 0, styles: { writingMode: "vertical-rl" }, textSegments: [seg(s, { verticalWritingMode: "vertical-rl", width: 16, height: 60, xOffsets: [0] })] }) },
  { n: "transformed text", make: (s) => line(s, {}, { textTransform: "uppercase", fontVariantCaps: "small-caps" }) },
  { n: "source text", make: (s) => el({ w: 100, h: 20, text: "a", textLeft: 0, textTop: 0, textSegments: [seg("a", { sourceText: s })] }) },
  { n: "rtl text", make: (s) => line(s, {}, { direction: "rtl", textAlign: "right" }) },
  { n: "emphasis", make: (s) => line("a", {}, { textEmphasisStyle: cssString(s) }) },
  { n: "ellipsis", make: (s) => line("a long line", { textOverflowClipped: true, scrollWidth: 300, clientWidth: 100 }, { textOverflow: cssString(s), overflow: "hidden", overflowX: "hidden", overflowY: "hidden", whiteSpace: "nowrap" }) },
  { n: "font", make: (s) => line("abc", {}, { fontFamily: `${cssString(s)}, serif` }) },
  { n: "lang", make: (s) => line("abc", {}, { lang: s }) },
  { n: "date", make: (s) => el({ tag: "input", w: 100, h: 20, styles: { inputType: "date", inputValue: s } }) },
  { n: "time", make: (s) => el({ tag: "input", w: 100, h: 20, styles: { inputType: "time", inputValue: s } }) },
  { n: "week", make: (s) => el({ tag: "input", w: 100, h: 20, styles: { inputType: "week", inputValue: s } }) },
  { n: "colour input", make: (s) => el({ tag: "input", w: 100, h: 20, styles: { inputType: "color", inputValue: s } }) },
  { n: "range", make: (s) => el({ tag: "input", w: 100, h: 20, styles: { inputType: "range", inputValue: s, inputMin: s, inputMax: s } }) },
  { n: "number", make: (s) => line(s, { tag: "input" }, { inputType: "number", inputValue: s }), says: (s) => [s] },
  { n: "file", slow: true, make: (s) => el({ tag: "input", w: 200, h: 20, styles: { inputType: "file", inputFileName: s } }) },
  { n: "file button", slow: true, make: (s) => el({ tag: "input", w: 200, h: 20, styles: { inputType: "file",
    fileSelectorButton: { x: 0, y: 0, width: 60, height: 20, text: s, textWidth: 40, fontSize: 12, fontFamily: cssString(s), fontWeight: "400", fontStyle: "normal", fontAscent: 9, fontDescent: 3, color: "rgb(0, 0, 0)", boxShadow: "none", borderRadius: "0px", writingMode: "horizontal-tb", textOrientation: "mixed", direction: "ltr" },
    fileSelectorStatus: { x: 64, y: 0, width: 60, height: 20, text: s, textSegments: [seg(s, { x: 64 })], fontSize: 12, fontFamily: "serif", fontWeight: "400", fontStyle: "normal", fontAscent: 9, fontDescent: 3, color: "rgb(0, 0, 0)", writingMode: "horizontal-tb", textOrientation: "mixed", direction: "ltr" } } as never }) },
  { n: "select", make: (s) => el({ tag: "select", w: 100, h: 20, styles: { selectDisplayText: s } }), says: (s) => [s] },
  { n: "select font", make: (s) => el({ tag: "select", w: 100, h: 20, styles: { selectDisplayText: "a", fontFamily: cssString(s) } }) },
  { n: "listbox", make: (s) => el({ tag: "select", w: 100, h: 60, styles: { selectListboxOptions: [{ text: s, selected: true, disabled: false }, { text: "a", selected: false, disabled: true, fontFamily: cssString(s) }] } as never }), says: (s) => [s] },
  { n: "marker", make: (s) => line("abc", { tag: "li", listItemIndex: 1, markerContent: cssString(s), markerFontFamily: cssString(s) }, { display: "list-item", listStyleType: "decimal" }) },
  { n: "inner marker", make: (s) => line("abc", { tag: "li", listItemIndex: 1 }, { display: "list-item", listStyleType: cssString(s), listStylePosition: "inside" }) },
  { n: "outer marker", make: (s) => line("abc", { tag: "li", listItemIndex: 1 }, { display: "list-item", listStyleType: cssString(s), listStylePosition: "outside" }) },
  { n: "marker image", make: (s) => line("abc", { tag: "li", listItemIndex: 1, listMarkerIntrinsic: { w: 5, h: 5 } }, { display: "list-item", listStyleType: "disc", listStyleImage: cssUrl(url(`http://h/${s}`)) }), names: (s) => [url(`http://h/${s}`)] },
  { n: "img", make: (s) => el({ tag: "img", imageSrc: url(`http://h/${s}`), imageAlt: s }), names: (s) => [url(`http://h/${s}`)] },
  { n: "img data", make: (s) => el({ tag: "img", imageSrc: url(`data:image/svg+xml,${s}`), imageAlt: s }), names: (s) => [url(`data:image/svg+xml,${s}`)] },
  { n: "img rotated", make: (s) => el({ tag: "img", imageSrc: url(`http://h/${s}`), imageIntrinsic: { w: 5, h: 9 }, styles: { objectFit: "cover", objectPosition: "0% 0%", borderRadius: "5px" } }), names: (s) => [url(`http://h/${s}`)] },
  { n: "broken img", make: (s) => el({ tag: "img", imageBroken: true, imageSrc: "", imageAlt: s }) },
  { n: "broken img name", make: (s) => el({ tag: "img", brokenImageFallback: { schemaVersion: 1, authority: "chromium-ua-shadow-v1", disposition: "inline", captureStatus: "exact", paintOwnership: "none", loadState: "failed", source: { complete: true, naturalWidth: 0, naturalHeight: 0, currentSrc: s, src: { present: true, value: s }, alt: { present: true, value: s }, title: { present: true, value: s }, resolvedText: s }, hostBox: null, accessibility: { ignored: false, role: "img", name: s, description: s } } }), says: (s) => (s === "" ? [] : [s]) },
  { n: "background", make: (s) => el({ styles: { backgroundImage: cssUrl(url(`http://h/${s}`)) } }), names: (s) => [url(`http://h/${s}`)] },
  { n: "tiled background", make: (s) => el({ styles: { backgroundImage: `${cssUrl(url(`http://h/${s}`))}, linear-gradient(rgb(1, 2, 3), rgb(4, 5, 6))`, backgroundSize: "10px 10px, auto", backgroundPosition: "0px 0px, 0px 0px", backgroundRepeat: "repeat, repeat" } }), names: (s) => [url(`http://h/${s}`)] },
  { n: "background data", make: (s) => el({ styles: { backgroundImage: cssUrl(url(`data:image/svg+xml,${s}`)) } }), names: (s) => [url(`data:image/svg+xml,${s}`)] },
  { n: "border image", make: (s) => el({ styles: { borderImageSource: cssUrl(url(`http://h/${s}`)), borderImageSlice: "10", borderImageWidth: "5px", borderImageOutset: "0", borderImageRepeat: "stretch", borderTopWidth: "5px", borderLeftWidth: "5px", borderRightWidth: "5px", borderBottomWidth: "5px", borderTopStyle: "solid", borderLeftStyle: "solid", borderRightStyle: "solid", borderBottomStyle: "solid", borderImageIntrinsicWidth: 30, borderImageIntrinsicHeight: 30 } as never }), names: (s) => [url(`http://h/${s}`)] },
  { n: "mask", make: (s) => el({ bg: "rgb(1, 2, 3)", styles: { maskImage: cssUrl(url(`http://h/${s}`)), mask: cssUrl(url(`http://h/${s}`)), maskMode: "match-source", maskSize: "auto", maskPosition: "0% 0%", maskRepeat: "repeat", maskComposite: "add" } }), names: (s) => [url(`http://h/${s}`)] },
  { n: "mask ref", make: (s) => el({ bg: "rgb(1, 2, 3)", styles: { maskImage: cssUrl(`#${s}`), mask: cssUrl(`#${s}`), maskMode: "match-source", maskSize: "auto", maskPosition: "0% 0%", maskRepeat: "repeat", maskComposite: "add" }, maskDefs: [{ id: s, outerHTML: `<mask id="${htmlAttr(s)}"><title>${htmlText(s)}</title><rect width="5" height="5" fill="white" aria-label="${htmlAttr(s)}"></rect></mask>` }] }) },
  { n: "clip ref", make: (s) => el({ bg: "rgb(1, 2, 3)", styles: { clipPath: `url("#m")` }, clipPathDefs: [{ id: "m", outerHTML: `<clipPath id="m"><title>${htmlText(s)}</title><rect width="5" height="5" class="${htmlAttr(s)}"></rect></clipPath>`, clipPathUnits: "userSpaceOnUse" }] }) },
  { n: "filter ref", make: (s) => el({ bg: "rgb(1, 2, 3)", styles: { filter: `url("#f")` }, filterDefs: [{ id: "f", outerHTML: `<filter id="f"><title>${htmlText(s)}</title><feFlood result="${htmlAttr(s)}"></feFlood></filter>` }] }) },
  { n: "filter", make: (s) => el({ bg: "rgb(1, 2, 3)", styles: { filter: `${cssUrl(`#${s}`)} blur(1px)` } }), names: (s) => [`#${s}`] },
  { n: "backdrop", make: (s) => el({ bg: "rgb(1, 2, 3)", styles: { backdropFilter: cssUrl(`#${s}`) } }), names: (s) => [`#${s}`] },
  { n: "svg text", make: (s) => el({ tag: "svg", svgContent: `<svg><title>${htmlText(s)}</title><text>${htmlText(s)}</text></svg>` }), says: (s) => [s] },
  { n: "svg attribute", make: (s) => el({ tag: "svg", svgContent: `<svg aria-label="${htmlAttr(s)}" width="5" height="5"><text aria-label="${htmlAttr(s)}">a</text></svg>` }), says: (s) => [s] },
  { n: "svg raw attribute", make: (s) => el({ tag: "svg", svgContent: `<svg aria-label="${htmlAttr(s).replace(/&gt;/g, ">")}" width="5" height="5"><style>.a{fill:red}</style><text class="a">a</text></svg>` }), says: (s) => [s] },
  { n: "svg link", make: (s) => el({ tag: "svg", svgContent: `<svg><defs><path id="p" d="M0 0"></path></defs><use xlink:href="#p" data-note="${htmlAttr(s)}"></use><text id="${htmlAttr(s)}">${htmlText(`id="p" url(#p) ${s}`)}</text></svg>` }), says: (s) => [`id="p" url(#p) ${s}`] },
  { n: "pseudo image", make: (s) => el({ pseudoImages: [{ url: url(`http://h/${s}`), x: 0, y: 0, width: 5, height: 5 }] }), names: (s) => [url(`http://h/${s}`)] },
  { n: "pseudo box", make: (s) => el({ pseudoBoxes: [{ pseudo: "::before", x: 0, y: 0, width: 5, height: 5, backgroundImage: cssUrl(url(`http://h/${s}`)) }] }), names: (s) => [url(`http://h/${s}`)] },
  { n: "replaced icon", make: (s) => el({ tag: "a", imageReplacement: { titleText: s }, replacedSnapshot: { dataUri: PNG, x: 0, y: 0, width: 5, height: 5 } }), says: (s) => [s] },
  { n: "ids", make: (s) => el({ bg: "rgb(1, 2, 3)", animId: s, magicKey: s, selector: s, id: s, children: [line("a", { animId: s })] } as never) },
  { n: "title", make: (s) => `animated:${s}`, says: (s) => (s === "" ? [] : [s]) },
  { n: "static title", make: (s) => `static:${s}`, says: (s) => (s === "" ? [] : [s]) },
  { n: "browser", make: (s) => `browser:${s}`, says: (s) => (s.trim() === "" ? [] : [s]) },
  { n: "window", make: (s) => `window:${s}`, says: (s) => (s.trim() === "" ? [] : [s]) },
];
const frameOf = (t: El): string => elementTreeToSvgInner([t], 200, 100, "z-", false, 2, false);
type How = "inner" | "still" | "animated";
function render(slot: Slot, s: string, how: How): string {
  clearEmbeddedFonts(); clearGlyphDefs();
  const v = slot.make(s);
  if (typeof v !== "string") {
    if (how === "inner") return `<svg xmlns="http://www.w3.org/2000/svg">${frameOf(v)}</svg>`;
    if (how === "still") return elementTreeToSvg([v], 200, 100, {});
    return generateAnimatedSvg({ width: 200, height: 100, frames: [{ svgContent: frameOf(v), duration: 500, transition: { type: "cut", duration: 0 } }, { svgContent: frameOf(el({ bg: "rgb(9, 9, 9)" })), duration: 500 }] } as never);
  }
  const text = v.slice(v.indexOf(":") + 1);
  if (v.startsWith("static:")) return elementTreeToSvg([el({ bg: "rgb(1, 2, 3)" })], 200, 100, { title: text, desc: text });
  if (v.startsWith("animated:")) return generateAnimatedSvg({ width: 200, height: 100, title: text, desc: text, frames: [{ svgContent: "<rect/>", duration: 500 }] } as never);
  const inner = elementTreeToSvg([el({ bg: "rgb(1, 2, 3)" })], 200, 100, {});
  return wrapInDeviceChrome(inner, v.slice(0, v.indexOf(":")) as never, 200, 100, { label: text }).svg ?? "";
}
/** what a document is made of: elements with their attributes, and declarations */
function parts(root: XNode): Set<string> {
  const out = new Set<string>();
  for (const n of walk(root)) {
    out.add(`<${n.tag}>`);
    for (const [a, v] of n.attrs) {
      out.add(`${n.tag}.${a}`);
      if (a === "style") for (const d of declarations(v)) out.add(`${n.tag}{${d}}`);
    }
    if (n.tag === "style") for (const m of n.text.split("{").slice(0, -1)) { const p = m.slice(Math.max(m.lastIndexOf("}"), m.lastIndexOf(";")) + 1); out.add(`style:${p.trim().replace(/[\d.]+/g, "0")}`); }
  }
  return out;
}
/** property names of a style attribute, strings and functions respected */
function declarations(css: string): string[] {
  const out: string[] = [];
  let depth = 0, start = 0;
  for (let i = 0; i <= css.length; i++) {
    const c = css[i];
    if (c === "\\") i++;
    else if (c === '"' || c === "'") { for (i++; i < css.length && css[i] !== c; i++) if (css[i] === "\\") i++; }
    else if (c === "(") depth++;
    else if (c === ")") depth--;
    else if (c === undefined || (c === ";" && depth <= 0)) { const d = css.slice(start, i); if (d.trim() !== "") out.push(d.slice(0, Math.max(0, d.indexOf(":"))).trim()); start = i + 1; }
  }
  return out;
}
const ALPHABET = ["a", "<", ">", "&", '"', "'", "\\", "/", ";", ":", "{", "}", "(", ")", "#", "]", "-", " ", "\n", "\u000b", "\ufffe", "\ud800", "\udc00", "\u00a0", "%", ",", "0", "!"];
const LONG = ["<script>alert(1)</script>", "</title><script>1</script>", "\"/><script>1</script>", "\" onload=\"x", "' onload='x", "]]>", "<![CDATA[", "<!--", "-->", "&#0;", "&#x1;", "&lt;", "&nbsp;", "&amp;amp;", "a&b;c", "url(#a)", "url(javascript:1)", "\");}@import \"x\";", "\"};*{fill:red}", "red;fill:url(http://e/)", "</style><script>1</script>", "\\22 onload=", "\\\"", "${x}", "$&$`$'$1", "$$", "\ud83d\ude00", "\ud83d", "\ude00\ud83d", "e\u0301", "\u202e abc", "\u2028", "\u2029", "\u0085", "\u0000", "\ufeff", "\r\n", "\t", "javascript:alert(1)", "data:text/html,<script>1</script>", "{{a}}", "id=\"z-ct0\"", "a>b", "width=5 height=5", "xlink:href", "é中𝒳", "%3Cscript%3E", "on", "style=\"x:y\"", "class=\"f-0\"", "{animation:x 1s}", "/* */", "/*", "//h/x"];
const BENIGN = ["a", "", "aa", "a a", "ab", "0", "é", "中", "-", "a ", " ", "1-2", ":", "a\na", ",", ".", "(", "😀", "\t", "\u000b", "\ufffe", "\ud800", "\u0085", "\u202e abc", "\u00a0", "e\u0301", "\r\n", "\u2028", "\ufeff", "\ud83d"];
function check(ctx: Ctx, slot: Slot, s: string, how: How, base: Map<string, Set<string>>): void {
  const key = `${slot.n}${how === "inner" ? "" : ` (${how})`}:${JSON.stringify(s)}`;
  ctx.state(key);
  let svg: string;
  try { svg = render(slot, s, how); } catch (e) { ctx.fail(`throws:${key}`, `${key} throws ${String(e)}`, { key }); return; }
  ctx.trace();
  ctx.step(s.length + 1);
  let root: XNode;
  try { root = parseXml(svg); } catch (e) { ctx.fail(`malformed:${key}`, `${slot.n} with ${JSON.stringify(s)}: not well-formed XML: ${(e as Error).message}`, { key, svg: svg.slice(0, 4000) }); return; }
  const allowed = base.get(slot.n + how)!;
  const extra = [...parts(root)].filter((p) => !allowed.has(p) && !p.endsWith(".xmlns:xlink"));
  if (extra.length > 0) ctx.fail(`grows:${key}`, `${slot.n} with ${JSON.stringify(s)}: gains ${extra.slice(0, 4).join(" ")}`, { key, svg: svg.slice(0, 4000) });
  const shown: string[] = [], refs = new Set<string>(), named = (slot.names?.(s) ?? []).map(legal);
  for (const n of walk(root)) {
    if (/^(script|foreignObject|iframe|object|embed|set|handler)$/i.test(n.tag)) ctx.fail(`active:${key}`, `${slot.n} with ${JSON.stringify(s)}: <${n.tag}>`, { key });
    if (n.text !== "" && n.tag !== "style") shown.push(n.text);
    for (const [a, v] of n.attrs) {
      if (/^on/i.test(a)) ctx.fail(`active:${key}`, `${slot.n} with ${JSON.stringify(s)}: ${a}="${v}"`, { key });
      if (a === "aria-label" || a === "data-note") shown.push(v);
      if (a === "href" || a === "xlink:href") refs.add(v);
      if ((a === "href" || a === "xlink:href") && !v.startsWith("#") && !v.startsWith(PNG) && !v.startsWith("data:font") && !named.includes(v)) ctx.fail(`ref:${key}`, `${slot.n} with ${JSON.stringify(s)}: refers to ${JSON.stringify(v)}`, { key, svg: svg.slice(0, 4000) });
    }
  }
  for (const want of named) if (!want.startsWith("#") && !refs.has(want)) ctx.fail(`unnamed:${key}`, `${slot.n} with ${JSON.stringify(s)}: no reference to ${JSON.stringify(want)} but ${JSON.stringify([...refs])}`, { key, svg: svg.slice(0, 4000) });
  for (const want of (slot.says?.(s) ?? []).map(legal)) if (!want.includes("\u202e")) if (want.trim() !== "" && !shown.includes(want) && !shown.some((x) => x.replace(/\s+/g, " ").trim() === want.replace(/\s+/g, " ").trim())) ctx.fail(`lost:${key}`, `${slot.n} with ${JSON.stringify(s)}: shows ${JSON.stringify(shown)}`, { key, svg: svg.slice(0, 4000) });
}
const SHARDS = 8;
const HOWS: How[] = ["inner", "still", "animated"];
export default defineCheck({
  spec: {
    id: "R05", level: "model_checking",
    bounds: `every string of length 0 to 2 (thorough 3) over ${ALPHABET.length} XML-, CSS- and url-significant characters and ${LONG.length} longer ones, in ${SLOTS.length} string-valued slots of a capture, in still documents (single characters and the longer strings in animated ones as well)`,
    assumptions: ["CSS values come in CSSOM serialisation and inline <svg> markup in HTML serialisation, as Chromium hands them over"],
  },
  shards: SHARDS,
  run(ctx, sh) {
    const base = new Map<string, Set<string>>();
    const mine = SLOTS.filter((_s, k) => k % SHARDS === sh.i);
    for (const slot of mine) for (const how of HOWS) {
      const set = new Set<string>();
      for (const s of how === "inner" ? BENIGN : ["a", "", "a a", "\n", "\u000b", "\ufffe", "\ud800"]) try { for (const p of parts(parseXml(render(slot, s, how)))) set.add(p); } catch { /* the check itself reports it */ }
      for (const p of base.get(slot.n + "inner") ?? []) set.add(p);
      base.set(slot.n + how, set);
    }
    for (const slot of mine) {
      for (const s of slot.slow ? LONG.slice(0, 8) : LONG) for (const how of HOWS) check(ctx, slot, s, how, base);
      for (const w of words(ALPHABET, 0, slot.slow ? 1 : ctx.thorough ? 3 : 2)) check(ctx, slot, w.join(""), w.length === 1 && !slot.slow ? "animated" : "inner", base);
    }
  },
});
