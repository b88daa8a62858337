/**
 * A stand-in for the browser under the terminal composers: it "lays out" the
 * terminal HTML (rows of styled runs) into a captured tree with one box per
 * non-blank row, whose colour encodes the row's styled text.
 */
import { el, colour, type El } from "./tree.ts";
export interface RunCell { c: string; fg: string | null; bg: string | null; b: boolean; i: boolean; d: boolean; u: boolean }
export const PAD = 16, LINE = 14 * 1.4, CW = 8;
const un = (s: string): string => s.replace(/&nbsp;/g, " ").replace(/&lt;/g, "<").replace(/&gt;/g, ">").replace(/&quot;/g, '"').replace(/&#39;|&apos;/g, "'").replace(/&amp;/g, "&");
/** canonical text of a styled row: the visible cells, trailing invisible blanks dropped */
export function rowKey(cells: RunCell[]): string {
  const k = cells.filter((c) => c.c !== "").map((c) => (c.c === " " || c.c === "\u00a0") && c.bg == null && !c.u ? "_" : `${c.c}|${c.c === " " ? "" : c.fg ?? ""}|${c.bg ?? ""}|${c.c === " " ? "" : `${c.b ? "b" : ""}${c.i ? "i" : ""}${c.d ? "d" : ""}`}${c.u ? "u" : ""}`);
  while (k.length > 0 && k[k.length - 1] === "_") k.pop();
  return k.join(";");
}
export function parseRow(html: string): RunCell[] {
  const out: RunCell[] = [];
  for (const m of html.matchAll(/<span([^>]*)>([\s\S]*?)<\/span>|([^<]+)/g)) {
    const style = new Map<string, string>();
    const st = m[1] != null ? /style="([^"]*)"/.exec(m[1])?.[1] ?? "" : "";
    for (const d of st.split(";")) { const k = d.indexOf(":"); if (k > 0) style.set(d.slice(0, k).trim(), d.slice(k + 1).trim()); }
    for (const c of un(m[1] != null ? m[2] : m[3])) out.push({ c, fg: style.get("color") ?? null, bg: style.get("background") ?? style.get("background-color") ?? null, b: Number(style.get("font-weight") === "bold" ? 700 : style.get("font-weight") ?? 400) >= 600, i: style.get("font-style") === "italic", d: Number(style.get("opacity") ?? 1) < 1, u: (style.get("text-decoration") ?? "").includes("underline") });
  }
  return out;
}
const keys: string[] = [];
const index = new Map<string, number>();
export function keyColour(key: string): string { let n = index.get(key); if (n == null) { n = keys.length; keys.push(key); index.set(key, n); } return `rgb(${n & 255}, ${(n >> 8) & 255}, ${7})`; }
export function colourKey(fill: string): string | null { const m = /^rgb\((\d+),\s*(\d+),\s*7\)$/.exec(fill); return m == null ? null : keys[Number(m[1]) + 256 * Number(m[2])] ?? null; }
export function resetKeys(): void { keys.length = 0; index.clear(); }
export function makeBrowser(): { browser: any; open: () => number } {
  let open = 0;
  const page: any = {
    html: "", setDefaultTimeout() {},
    async setContent(h: string) { page.html = h; },
    rows(): Array<{ attrs: string; inner: string }> { return [...page.html.matchAll(/<div((?:\s[^>]*)?\sclass="r"[^>]*)>([\s\S]*?)<\/div>/g)].map((m: string[]) => ({ attrs: m[1], inner: m[2] })); },
    async evaluate(f: unknown) {
      if (!String(f).includes("getBoundingClientRect")) return undefined;
      const rs = page.rows();
      return { w: 2 * PAD + CW * Math.max(0, ...rs.map((r: { inner: string }) => parseRow(r.inner).length)), h: Math.ceil(2 * PAD + LINE * rs.length) };
    },
    __capture(): El[] {
      const kids: El[] = [];
      page.rows().forEach((r: { attrs: string; inner: string }, k: number) => {
        const key = rowKey(parseRow(r.inner));
        const top = /top:\s*([\d.]+)px/.exec(r.attrs)?.[1];
        const anim = /data-domotion-anim="([^"]*)"/.exec(r.attrs)?.[1];
        if (key === "") return;
        kids.push(el({ x: PAD, y: top != null ? Number(top) : PAD + k * LINE, w: 8, h: LINE, bg: keyColour(key), ...(anim != null ? { animId: anim } : {}) }));
      });
      return [el({ w: 400, h: 400, children: kids })];
    },
  };
  return { open: () => open, browser: { async newContext() { open++; return { async newPage() { return page; }, async close() { open--; } }; } } };
}
void colour;
