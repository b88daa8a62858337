/**
 * An independent player for the SVG + CSS-animation subset Domotion emits.
 *
 * It parses the document strictly (lib/xml.ts), builds ONE document-wide CSS
 * cascade (as a browser does: every `<style>` of every nested `<svg>` applies to
 * the whole document, the last @keyframes of a name wins), and evaluates the
 * document at an arbitrary time `t` (ms): computed opacity / visibility /
 * display / transform / clip-path of every element, and from those the list of
 * painted leaves covering a point. It shares no code with the repository.
 */
import { parseXml, walk, type XNode } from "./xml.ts";

// ── matrices ────────────────────────────────────────────────────────────────
export type M = [number, number, number, number, number, number];
export const ID: M = [1, 0, 0, 1, 0, 0];
export function mul(a: M, b: M): M {
  return [a[0] * b[0] + a[2] * b[1], a[1] * b[0] + a[3] * b[1], a[0] * b[2] + a[2] * b[3], a[1] * b[2] + a[3] * b[3], a[0] * b[4] + a[2] * b[5] + a[4], a[1] * b[4] + a[3] * b[5] + a[5]];
}
export function inv(m: M): M | null {
  const d = m[0] * m[3] - m[1] * m[2];
  if (Math.abs(d) < 1e-12) return null;
  return [m[3] / d, -m[1] / d, -m[2] / d, m[0] / d, (m[2] * m[5] - m[3] * m[4]) / d, (m[1] * m[4] - m[0] * m[5]) / d];
}
export function apply(m: M, x: number, y: number): [number, number] {
  return [m[0] * x + m[2] * y + m[4], m[1] * x + m[3] * y + m[5]];
}

// ── CSS parsing ─────────────────────────────────────────────────────────────
export interface Decl { prop: string; value: string; important: boolean }
interface Simple { kind: "tag" | "class" | "id" | "attr" | "pseudo" | "any"; name: string; value?: string; op?: string }
interface Compound { simples: Simple[]; comb: " " | ">" | "" }
export interface Rule { sel: Compound[]; spec: number; order: number; decls: Decl[]; selText: string }
export interface KF { at: number; decls: Map<string, string>; tf: string | null; order: number }
export interface Css { rules: Rule[]; keyframes: Map<string, KF[]>; keyframeDefs: Map<string, number>; fontFaces: Decl[][]; errors: string[]; reducedRules: Rule[]; reducedKeyframes: Map<string, KF[]> }

export function splitTop(s: string, sep: string): string[] {
  const out: string[] = [];
  let depth = 0, cur = "", q = "";
  for (let i = 0; i < s.length; i++) {
    const c = s[i];
    if (q !== "") { cur += c; if (c === "\\") { cur += s[++i] ?? ""; } else if (c === q) q = ""; continue; }
    if (c === '"' || c === "'") { q = c; cur += c; continue; }
    if (c === "(") depth++;
    else if (c === ")") depth--;
    if (depth === 0 && (sep === " " ? /\s/.test(c) : c === sep)) {
      if (sep !== " " || cur !== "") out.push(cur);
      cur = "";
    } else cur += c;
  }
  if (sep !== " " || cur !== "") out.push(cur);
  return out.map((x) => x.trim());
}

export function parseDecls(body: string): Decl[] {
  const out: Decl[] = [];
  for (const part of splitTop(body, ";")) {
    if (part === "") continue;
    const k = part.indexOf(":");
    if (k <= 0) continue;
    let prop = part.slice(0, k).trim();
    if (!prop.startsWith("--")) prop = prop.toLowerCase();
    let value = part.slice(k + 1).trim();
    let important = false;
    const im = /!\s*important$/i.exec(value);
    if (im) { important = true; value = value.slice(0, im.index).trim(); }
    if (value === "" && !prop.startsWith("--")) continue;
    out.push({ prop, value, important });
  }
  return out;
}

function parseSelector(sel: string): Compound[] | null {
  const out: Compound[] = [];
  let i = 0;
  let comb: " " | ">" | "" = "";
  let cur: Simple[] = [];
  const push = (): void => { if (cur.length > 0) { out.push({ simples: cur, comb }); cur = []; } };
  const ident = (): string => {
    let r = "";
    while (i < sel.length) {
      const c = sel[i];
      if (c === "\\") { r += sel[i + 1] ?? ""; i += 2; continue; }
      if (/[-A-Za-z0-9_]/.test(c) || c.charCodeAt(0) > 127) { r += c; i++; continue; }
      break;
    }
    return r;
  };
  while (i < sel.length) {
    const c = sel[i];
    if (/\s/.test(c) || c === ">") {
      push();
      let nc: " " | ">" = " ";
      while (i < sel.length && (/\s/.test(sel[i]) || sel[i] === ">")) { if (sel[i] === ">") nc = ">"; i++; }
      comb = out.length > 0 ? nc : "";
      continue;
    }
    if (c === "*") { cur.push({ kind: "any", name: "*" }); i++; continue; }
    if (c === ".") { i++; const n = ident(); if (n === "" || /^[0-9]/.test(n)) return null; cur.push({ kind: "class", name: n }); continue; }
    if (c === "#") { i++; const n = ident(); if (n === "") return null; cur.push({ kind: "id", name: n }); continue; }
    if (c === ":") { i++; if (sel[i] === ":") return null; const n = ident(); if (sel[i] === "(") return null; cur.push({ kind: "pseudo", name: n }); continue; }
    if (c === "[") {
      const j = sel.indexOf("]", i);
      if (j < 0) return null;
      const m = /^\s*([-\w:]+)\s*(?:([~^$*|]?=)\s*(?:"([^"]*)"|'([^']*)'|([^\s"']+)))?\s*$/.exec(sel.slice(i + 1, j));
      if (!m) return null;
      cur.push({ kind: "attr", name: m[1], op: m[2], value: m[3] ?? m[4] ?? m[5] });
      i = j + 1;
      continue;
    }
    const n = ident();
    if (n === "") return null;
    cur.push({ kind: "tag", name: n });
  }
  push();
  return out.length > 0 ? out : null;
}
function specificity(sel: Compound[]): number {
  let a = 0, b = 0, c = 0;
  for (const co of sel) for (const s of co.simples) {
    if (s.kind === "id") a++;
    else if (s.kind === "class" || s.kind === "attr" || s.kind === "pseudo") b++;
    else if (s.kind === "tag") c++;
  }
  return a * 10000 + b * 100 + c;
}

function topBlocks(css: string): Array<{ prelude: string; body: string | null }> {
  const out: Array<{ prelude: string; body: string | null }> = [];
  let i = 0, prelude = "";
  while (i < css.length) {
    const c = css[i];
    if (c === '"' || c === "'") {
      let j = i + 1;
      while (j < css.length && css[j] !== c) { if (css[j] === "\\") j++; j++; }
      prelude += css.slice(i, j + 1); i = j + 1; continue;
    }
    if (c === ";") { out.push({ prelude: prelude.trim(), body: null }); prelude = ""; i++; continue; }
    if (c === "}") { prelude = ""; i++; out.push({ prelude: "", body: "}" }); continue; }
    if (c === "{") {
      let depth = 1, j = i + 1;
      while (j < css.length && depth > 0) {
        const d = css[j];
        if (d === '"' || d === "'") { let k = j + 1; while (k < css.length && css[k] !== d) { if (css[k] === "\\") k++; k++; } j = k + 1; continue; }
        if (d === "{") depth++;
        else if (d === "}") depth--;
        j++;
      }
      out.push({ prelude: prelude.trim(), body: css.slice(i + 1, depth === 0 ? j - 1 : j) });
      if (depth !== 0) out.push({ prelude: "", body: "unclosed" });
      prelude = "";
      i = j;
      continue;
    }
    prelude += c;
    i++;
  }
  if (prelude.trim() !== "") out.push({ prelude: prelude.trim(), body: null });
  return out;
}

export function newCss(): Css {
  return { rules: [], keyframes: new Map(), keyframeDefs: new Map(), fontFaces: [], errors: [], reducedRules: [], reducedKeyframes: new Map() };
}
function parseKeyframes(body: string): KF[] {
  const out: KF[] = [];
  let order = 0;
  for (const b of topBlocks(body)) {
    if (b.body == null || b.prelude === "") continue;
    const decls = new Map<string, string>();
    let tf: string | null = null;
    for (const d of parseDecls(b.body)) {
      if (d.important) continue;
      if (d.prop === "animation-timing-function") tf = d.value;
      else decls.set(d.prop, d.value);
    }
    const ats: number[] = [];
    let ok = true;
    for (const s of b.prelude.split(",")) {
      const t = s.trim();
      const at = t === "from" ? 0 : t === "to" ? 1 : /^[-+]?(\d+\.?\d*|\.\d+)(e[-+]?\d+)?%$/i.test(t) ? parseFloat(t) / 100 : NaN;
      if (!Number.isFinite(at)) { ok = false; break; }
      if (at < 0 || at > 1) continue; // keyframe selectors outside [0,100] are ignored
      ats.push(at);
    }
    if (!ok) continue;
    for (const at of ats) out.push({ at, decls, tf, order: order++ });
  }
  out.sort((x, y) => x.at - y.at || x.order - y.order);
  return out;
}
export function addCss(css: Css, text: string, reduced = false): void {
  const src = text.replace(/\/\*[\s\S]*?\*\//g, "");
  for (const b of topBlocks(src)) {
    if (b.body === "}" && b.prelude === "") { css.errors.push("stray '}'"); continue; }
    if (b.body === "unclosed" && b.prelude === "") { css.errors.push("unclosed block"); continue; }
    if (b.prelude.startsWith("@")) {
      const m = /^@(-webkit-)?([a-z-]+)\s*([\s\S]*)$/i.exec(b.prelude)!;
      const at = m[2].toLowerCase();
      if (at === "keyframes") {
        const name = m[3].trim().replace(/^["']|["']$/g, "");
        (reduced ? css.reducedKeyframes : css.keyframes).set(name, parseKeyframes(b.body ?? ""));
        css.keyframeDefs.set(name, (css.keyframeDefs.get(name) ?? 0) + 1);
      } else if (at === "font-face") css.fontFaces.push(parseDecls(b.body ?? ""));
      else if (at === "media") {
        if (/prefers-reduced-motion\s*:\s*reduce/.test(m[3])) addCss(css, b.body ?? "", true);
        else if (/prefers-color-scheme|prefers-reduced-motion|print/.test(m[3])) { /* not the default environment */ }
        else addCss(css, b.body ?? "", reduced);
      } else if (at === "supports" || at === "layer") addCss(css, b.body ?? "", reduced);
      continue;
    }
    if (b.body == null) { if (b.prelude !== "") css.errors.push(`dangling "${b.prelude.slice(0, 40)}"`); continue; }
    const decls = parseDecls(b.body);
    for (const st of splitTop(b.prelude, ",")) {
      const sel = parseSelector(st);
      if (sel == null) { if (!/:/.test(st)) css.errors.push(`bad selector "${st}"`); continue; }
      (reduced ? css.reducedRules : css.rules).push({ sel, spec: specificity(sel), order: css.rules.length + css.reducedRules.length, decls, selText: st });
    }
  }
}

// ── timing functions ────────────────────────────────────────────────────────
export function cubic(x1: number, y1: number, x2: number, y2: number): (t: number) => number {
  const f = (a: number, b: number, u: number): number => 3 * (1 - u) * (1 - u) * u * a + 3 * (1 - u) * u * u * b + u * u * u;
  return (t) => {
    if (t <= 0) return 0;
    if (t >= 1) return 1;
    let lo = 0, hi = 1;
    for (let i = 0; i < 50; i++) { const m = (lo + hi) / 2; if (f(x1, x2, m) < t) lo = m; else hi = m; }
    return f(y1, y2, (lo + hi) / 2);
  };
}
const EASE: Record<string, (t: number) => number> = {
  linear: (t) => t,
  ease: cubic(0.25, 0.1, 0.25, 1),
  "ease-in": cubic(0.42, 0, 1, 1),
  "ease-out": cubic(0, 0, 0.58, 1),
  "ease-in-out": cubic(0.42, 0, 0.58, 1),
};
const easeCache = new Map<string, ((t: number) => number) | null>();
export function easing(s: string): ((t: number) => number) | null {
  const k = s.trim().toLowerCase();
  let f = easeCache.get(k);
  if (f === undefined) { f = easing0(k); easeCache.set(k, f); }
  return f;
}
function easing0(k: string): ((t: number) => number) | null {
  if (EASE[k]) return EASE[k];
  if (k === "step-end") return (t) => (t >= 1 ? 1 : 0);
  if (k === "step-start") return (t) => (t < 0 ? 0 : 1);
  let m = /^steps\(\s*(\d+)\s*(?:,\s*([a-z-]+)\s*)?\)$/.exec(k);
  if (m) {
    const n = Number(m[1]);
    const pos = m[2] ?? "end";
    return (t) => {
      if (pos === "start" || pos === "jump-start") return Math.min(1, (Math.floor(t * n) + 1) / n);
      if (pos === "jump-none") return n <= 1 ? t : Math.min(1, Math.floor(t * n) / (n - 1));
      if (pos === "jump-both") return Math.min(1, (Math.floor(t * n) + 1) / (n + 1));
      return Math.min(1, Math.floor(t * n) / n);
    };
  }
  m = /^cubic-bezier\(([^)]*)\)$/.exec(k);
  if (m) {
    const p = m[1].split(",").map(Number);
    if (p.length !== 4 || p.some((x) => !Number.isFinite(x)) || p[0] < 0 || p[0] > 1 || p[2] < 0 || p[2] > 1) return null;
    return cubic(p[0], p[1], p[2], p[3]);
  }
  m = /^linear\((.*)\)$/.exec(k);
  if (m) {
    const pts = m[1].split(",").map((x) => x.trim().split(/\s+/));
    const stops: Array<{ v: number; at: number | null }> = [];
    for (const p of pts) {
      const v = Number(p[0]);
      if (!Number.isFinite(v)) return null;
      if (p.length === 1) stops.push({ v, at: null });
      for (const a of p.slice(1)) stops.push({ v, at: parseFloat(a) / 100 });
    }
    if (stops.length === 0) return null;
    if (stops[0].at == null) stops[0].at = 0;
    if (stops[stops.length - 1].at == null) stops[stops.length - 1].at = 1;
    let mx = 0;
    for (const s of stops) if (s.at != null) { s.at = Math.max(mx, s.at); mx = s.at; }
    for (let i = 0; i < stops.length; i++) if (stops[i].at == null) {
      let j = i; while (stops[j].at == null) j++;
      const a = stops[i - 1].at!, b = stops[j].at!;
      for (let q = i; q < j; q++) stops[q].at = a + ((b - a) * (q - i + 1)) / (j - i + 1);
    }
    return (t) => {
      if (stops.length === 1) return stops[0].v;
      let i = 0;
      while (i < stops.length - 2 && stops[i + 1].at! <= t) i++;
      const a = stops[i], b = stops[i + 1];
      if (b.at === a.at) return b.v;
      return a.v + ((b.v - a.v) * (t - a.at!)) / (b.at! - a.at!);
    };
  }
  return null;
}

// ── animation shorthand ─────────────────────────────────────────────────────
export interface Anim { name: string; dur: number; delay: number; tf: string; iter: number; fill: string; dir: string; playState: string }
const TIME = /^([-+]?(?:\d+\.?\d*|\.\d+)(?:e[-+]?\d+)?)(ms|s)$/i;
export function timeMs(s: string): number | null {
  const m = TIME.exec(s.trim());
  return m ? Number(m[1]) * (m[2].toLowerCase() === "s" ? 1000 : 1) : null;
}
/** returns null when the declaration is invalid (the browser then ignores it) */
export function parseAnimation(v: string): Anim[] | null {
  const out: Anim[] = [];
  for (const seg of splitTop(v, ",")) {
    const a: Anim = { name: "none", dur: 0, delay: 0, tf: "ease", iter: 1, fill: "none", dir: "normal", playState: "running" };
    let nt = 0, hasTf = false, hasIter = false, hasDir = false, hasFill = false, hasPlay = false, hasName = false;
    for (const tok of splitTop(seg, " ")) {
      const t = timeMs(tok);
      if (t != null) { if (nt === 0) { if (t < 0) return null; a.dur = t; } else if (nt === 1) a.delay = t; else return null; nt++; continue; }
      const l = tok.toLowerCase();
      if (!hasTf && easing(l) != null) { a.tf = l; hasTf = true; continue; }
      if (/^(cubic-bezier|steps|linear)\(/.test(l)) return null;
      if (!hasIter && (l === "infinite" || /^[-+]?(\d+\.?\d*|\.\d+)$/.test(l))) { a.iter = l === "infinite" ? Infinity : Number(l); if (a.iter < 0) return null; hasIter = true; continue; }
      if (!hasDir && /^(normal|reverse|alternate|alternate-reverse)$/.test(l)) { a.dir = l; hasDir = true; continue; }
      if (!hasFill && /^(none|forwards|backwards|both)$/.test(l)) { a.fill = l; hasFill = true; continue; }
      if (!hasPlay && /^(running|paused)$/.test(l)) { a.playState = l; hasPlay = true; continue; }
      if (!hasName && /^-?[A-Za-z_][-\w]*$|^--/.test(tok)) { a.name = tok; hasName = true; continue; }
      return null;
    }
    out.push(a);
  }
  return out;
}

/** directed progress of one animation at absolute time t (ms); null = no effect */
export function animProgress(a: Anim, t: number): number | null {
  const local = t - a.delay;
  const active = a.dur * a.iter;
  let overall: number;
  if (local < 0) {
    if (a.fill !== "backwards" && a.fill !== "both") return null;
    overall = 0;
  } else if (local >= active) {
    if (a.fill !== "forwards" && a.fill !== "both") return null;
    overall = a.iter;
    if (a.dur > 0 && !Number.isFinite(a.iter)) overall = local / a.dur;
  } else overall = a.dur === 0 ? a.iter : local / a.dur;
  let it = Math.floor(overall);
  let p = overall - it;
  if (local >= active && p === 0 && a.iter > 0) { p = 1; it = Math.max(0, it - 1); }
  const rev = a.dir === "reverse" ? true : a.dir === "alternate" ? it % 2 === 1 : a.dir === "alternate-reverse" ? it % 2 === 0 : false;
  return rev ? 1 - p : p;
}

// ── value interpolation ─────────────────────────────────────────────────────
const NUM = /[-+]?(?:\d+\.?\d*|\.\d+)(?:e[-+]?\d+)?/gi;
function lerpNumeric(a: string, b: string, p: number): string | null {
  const na = a.match(NUM) ?? [], nb = b.match(NUM) ?? [];
  // a bare 0 and a 0px/0% are compatible
  const norm = (s: string): string => s.replace(NUM, "\u0001").replace(/\u0001(px|%|deg)/g, "\u0001").replace(/\s+/g, " ").replace(/\s*,\s*/g, ",").trim();
  if (na.length !== nb.length || norm(a) !== norm(b)) return null;
  const withUnits = /px|%|deg/.test(a) || !/px|%|deg/.test(b) ? a : b;
  let k = 0;
  return withUnits.replace(NUM, () => { const x = Number(na[k]), y = Number(nb[k]); k++; return String(+(x + (y - x) * p).toPrecision(12)); });
}
export interface TfFn { name: string; args: string[] }
export function parseTransform(s: string): TfFn[] | null {
  const v = s.trim();
  if (v === "" || v === "none") return [];
  const out: TfFn[] = [];
  const re = /([a-zA-Z0-9]+)\s*\(([^()]*)\)\s*,?\s*/y;
  re.lastIndex = 0;
  let i = 0;
  while (i < v.length) {
    re.lastIndex = i;
    const m = re.exec(v);
    if (!m) return null;
    out.push({ name: m[1].toLowerCase(), args: m[2].trim() === "" ? [] : m[2].trim().split(/\s*,\s*|\s+/) });
    i = re.lastIndex;
  }
  return out;
}
function len(s: string | undefined, ref: number): number {
  if (s == null) return 0;
  const v = parseFloat(s);
  if (!Number.isFinite(v)) throw new Error(`bad length ${s}`);
  if (s.endsWith("%")) return (v / 100) * ref;
  if (/[a-z]$/i.test(s) && !/px$/i.test(s) && !/e$/i.test(s)) throw new Error(`unsupported unit ${s}`);
  return v;
}
function ang(s: string | undefined): number {
  if (s == null) return 0;
  const v = parseFloat(s);
  if (/turn$/.test(s)) return v * 2 * Math.PI;
  if (/grad$/.test(s)) return (v * Math.PI) / 200;
  if (/rad$/.test(s)) return v;
  return (v * Math.PI) / 180;
}
export function fnMatrix(f: TfFn, w: number, h: number): M {
  const a = f.args;
  switch (f.name) {
    case "translate": return [1, 0, 0, 1, len(a[0], w), len(a[1], h)];
    case "translate3d": return [1, 0, 0, 1, len(a[0], w), len(a[1], h)];
    case "translatex": return [1, 0, 0, 1, len(a[0], w), 0];
    case "translatey": return [1, 0, 0, 1, 0, len(a[0], h)];
    case "translatez": return ID;
    case "scale": { const x = parseFloat(a[0]); const y = a[1] != null ? parseFloat(a[1]) : x; return [x, 0, 0, y, 0, 0]; }
    case "scale3d": return [parseFloat(a[0]), 0, 0, parseFloat(a[1]), 0, 0];
    case "scalex": return [parseFloat(a[0]), 0, 0, 1, 0, 0];
    case "scaley": return [1, 0, 0, parseFloat(a[0]), 0, 0];
    case "rotate": case "rotatez": {
      const r = ang(a[0]); const c = Math.cos(r), s = Math.sin(r);
      const m: M = [c, s, -s, c, 0, 0];
      if (a.length === 3) { const x = len(a[1], w), y = len(a[2], h); return mul(mul([1, 0, 0, 1, x, y], m), [1, 0, 0, 1, -x, -y]); }
      return m;
    }
    case "skewx": return [1, 0, Math.tan(ang(a[0])), 1, 0, 0];
    case "skewy": return [1, Math.tan(ang(a[0])), 0, 1, 0, 0];
    case "matrix": return a.map(Number) as unknown as M;
    default: throw new Error(`unsupported transform function ${f.name}`);
  }
}
export function tfMatrix(fs: TfFn[], w: number, h: number): M {
  return fs.reduce<M>((m, f) => mul(m, fnMatrix(f, w, h)), ID);
}
const CANON: Record<string, string> = { translatex: "translate", translatey: "translate", translate3d: "translate", translate: "translate", scale: "scale", scalex: "scale", scaley: "scale", rotate: "rotate", rotatez: "rotate" };
function toCanon(f: TfFn): TfFn {
  switch (f.name) {
    case "translatex": return { name: "translate", args: [f.args[0], "0px"] };
    case "translatey": return { name: "translate", args: ["0px", f.args[0]] };
    case "translate3d": return { name: "translate", args: [f.args[0], f.args[1]] };
    case "translate": return { name: "translate", args: [f.args[0], f.args[1] ?? "0px"] };
    case "scale": return { name: "scale", args: [f.args[0], f.args[1] ?? f.args[0]] };
    case "scalex": return { name: "scale", args: [f.args[0], "1"] };
    case "scaley": return { name: "scale", args: ["1", f.args[0]] };
    case "rotatez": return { name: "rotate", args: f.args };
    default: return f;
  }
}
function identity(f: TfFn): TfFn {
  if (f.name === "translate") return { name: "translate", args: ["0px", "0px"] };
  if (f.name === "scale") return { name: "scale", args: ["1", "1"] };
  return { name: "rotate", args: ["0deg"] };
}
export function lerpTransform(a: string, b: string, p: number, w: number, h: number): string {
  const fa0 = parseTransform(a), fb0 = parseTransform(b);
  if (fa0 == null || fb0 == null) throw new Error(`bad transform ${fa0 == null ? a : b}`);
  let fa = fa0.map(toCanon), fb = fb0.map(toCanon);
  const n = Math.max(fa.length, fb.length);
  const prefixOk = fa.slice(0, Math.min(fa.length, fb.length)).every((f, i) => f.name === fb[i].name && CANON[f.name] != null);
  if (prefixOk) {
    while (fa.length < n) fa = [...fa, identity(fb[fa.length])];
    while (fb.length < n) fb = [...fb, identity(fa[fb.length])];
    return fa.map((f, i) => {
      const args = f.args.map((x, k) => {
        const y = fb[i].args[k];
        if (f.name === "translate") {
          const pct = x.endsWith("%") && y.endsWith("%");
          if (pct) return `${parseFloat(x) + (parseFloat(y) - parseFloat(x)) * p}%`;
          const ref = k === 0 ? w : h;
          return `${len(x, ref) + (len(y, ref) - len(x, ref)) * p}px`;
        }
        if (f.name === "rotate") return `${ang(x) + (ang(y) - ang(x)) * p}rad`;
        return String(parseFloat(x) + (parseFloat(y) - parseFloat(x)) * p);
      });
      return `${f.name}(${args.join(", ")})`;
    }).join(" ") || "none";
  }
  // matrix interpolation (2D, via decomposition): only translate/scale matrices are supported exactly
  const ma = tfMatrix(fa, w, h), mb = tfMatrix(fb, w, h);
  if (ma[1] === 0 && ma[2] === 0 && mb[1] === 0 && mb[2] === 0) return `matrix(${ma.map((x, i) => x + (mb[i] - x) * p).join(",")})`;
  throw new Error(`unsupported transform interpolation ${a} -> ${b}`);
}

const DISCRETE = new Set(["display", "animation-timing-function"]);
export function interpolate(prop: string, a: string, b: string, p: number, w: number, h: number): string {
  if (a === b) return a;
  if (p === 0) return a;
  if (p === 1) return b;
  if (prop === "visibility") {
    // visible/hidden: discrete step where any 0<p<1 maps to visible
    if (a === "visible" || b === "visible") return p <= 0 ? a : p >= 1 ? b : "visible";
    return p < 0.5 ? a : b;
  }
  if (DISCRETE.has(prop)) return p < 0.5 ? a : b;
  if (prop === "transform") return lerpTransform(a, b, p, w, h);
  const r = lerpNumeric(a, b, p);
  if (r != null) return r;
  if (prop === "fill" || prop === "stroke" || prop === "color") {
    const ca = color(a), cb = color(b);
    if (ca && cb) return `rgba(${ca.map((x, i) => x + (cb[i] - x) * p).join(",")})`;
  }
  return p < 0.5 ? a : b;
}
export function color(s: string): number[] | null {
  const v = s.trim().toLowerCase();
  let m = /^#([0-9a-f]{3,8})$/.exec(v);
  if (m) {
    const h = m[1];
    const e = h.length <= 4 ? [...h].map((c) => c + c) : h.match(/../g)!;
    const n = e.map((x) => parseInt(x, 16));
    return [n[0], n[1], n[2], n.length > 3 ? n[3] / 255 : 1];
  }
  m = /^rgba?\(([^)]*)\)$/.exec(v);
  if (m) {
    const n = m[1].split(/[\s,/]+/).filter((x) => x !== "").map((x) => (x.endsWith("%") ? parseFloat(x) / 100 : parseFloat(x)));
    return [n[0], n[1], n[2], n[3] ?? 1];
  }
  const N: Record<string, number[]> = { black: [0, 0, 0, 1], white: [255, 255, 255, 1], red: [255, 0, 0, 1], lime: [0, 255, 0, 1], blue: [0, 0, 255, 1], transparent: [0, 0, 0, 0], none: [0, 0, 0, 0], green: [0, 128, 0, 1] };
  return N[v] ?? null;
}

// ── document ────────────────────────────────────────────────────────────────
function matches(n: XNode, sel: Compound[], k = sel.length - 1): boolean {
  if (!matchSimple(n, sel[k].simples)) return false;
  if (k === 0) return true;
  const comb = sel[k].comb;
  if (comb === ">") return n.parent != null && matches(n.parent, sel, k - 1);
  for (let p = n.parent; p != null; p = p.parent) if (matches(p, sel, k - 1)) return true;
  return false;
}
function matchSimple(n: XNode, ss: Simple[]): boolean {
  for (const s of ss) {
    switch (s.kind) {
      case "any": break;
      case "tag": if (n.tag !== s.name) return false; break;
      case "class": if (!classes(n).includes(s.name)) return false; break;
      case "id": if (n.attrs.get("id") !== s.name) return false; break;
      case "attr": {
        const v = n.attrs.get(s.name);
        if (v == null) return false;
        if (s.op === "=" && v !== s.value) return false;
        if (s.op === "^=" && !v.startsWith(s.value!)) return false;
        if (s.op === "~=" && !v.split(/\s+/).includes(s.value!)) return false;
        break;
      }
      case "pseudo": if (s.name === "root") { if (n.parent != null) return false; } else return false; break;
    }
  }
  return true;
}
const classCache = new WeakMap<XNode, string[]>();
export function classes(n: XNode): string[] {
  let c = classCache.get(n);
  if (c == null) { c = (n.attrs.get("class") ?? "").split(/\s+/).filter((x) => x !== ""); classCache.set(n, c); }
  return c;
}

const PRESENTATION = new Set(["opacity", "visibility", "display", "fill", "stroke", "clip-path", "transform", "fill-opacity", "stroke-opacity", "color", "stroke-dashoffset", "stroke-dasharray", "mask", "filter", "mix-blend-mode", "font-family", "font-size", "font-weight"]);
const INHERITED = new Set(["visibility", "fill", "color", "stroke", "font-family", "font-size", "font-weight", "fill-opacity"]);

export interface Leaf {
  node: XNode;
  m: M;
  opacity: number;
  visible: boolean;
  clips: Clip[];
  fill: string;
}
export interface Clip { kind: "poly" | "circle"; m: M; pts?: Array<[number, number]>; cx?: number; cy?: number; r?: number; rects?: Array<[number, number, number, number]> }

export class SvgDoc {
  root: XNode;
  css = newCss();
  ids = new Map<string, XNode>();
  dupIds: string[] = [];
  private cascade = new WeakMap<XNode, Map<string, string>>();
  private anims = new WeakMap<XNode, Anim[]>();
  /** animations referenced but without @keyframes */
  reduced: boolean;
  constructor(src: string, opts: { reducedMotion?: boolean } = {}) {
    this.reduced = opts.reducedMotion === true;
    this.root = parseXml(src);
    for (const n of walk(this.root)) {
      const id = n.attrs.get("id");
      if (id != null) { if (this.ids.has(id)) this.dupIds.push(id); else this.ids.set(id, n); }
      if (n.tag === "style") addCss(this.css, n.text);
    }
    // index rules by rightmost class for speed
    for (const r of this.allRules()) {
      const last = r.sel[r.sel.length - 1].simples;
      const key = last.find((s) => s.kind === "class")?.name;
      const idk = last.find((s) => s.kind === "id")?.name;
      const bucket = idk != null ? `#${idk}` : key != null ? `.${key}` : "*";
      let b = this.ruleIndex.get(bucket);
      if (b == null) this.ruleIndex.set(bucket, (b = []));
      b.push(r);
    }
  }
  private ruleIndex = new Map<string, Rule[]>();
  private allRules(): Rule[] {
    return this.reduced ? [...this.css.rules, ...this.css.reducedRules] : this.css.rules;
  }
  keyframes(name: string): KF[] | undefined {
    return (this.reduced ? this.css.reducedKeyframes.get(name) : undefined) ?? this.css.keyframes.get(name);
  }
  /** cascaded (non-animated) declarations of an element */
  decls(n: XNode): Map<string, string> {
    let m = this.cascade.get(n);
    if (m != null) return m;
    m = new Map();
    for (const [k, v] of n.attrs) if (PRESENTATION.has(k)) m.set(k, v);
    const cands: Array<{ r: Rule }> = [];
    const take = (b: Rule[] | undefined): void => { if (b) for (const r of b) if (matches(n, r.sel)) cands.push({ r }); };
    take(this.ruleIndex.get("*"));
    for (const c of classes(n)) take(this.ruleIndex.get(`.${c}`));
    const id = n.attrs.get("id");
    if (id != null) take(this.ruleIndex.get(`#${id}`));
    cands.sort((a, b) => a.r.spec - b.r.spec || a.r.order - b.r.order);
    const set = (d: Decl): void => {
      const out = m!;
      const v = this.resolveVar(n, d.value, d.prop, out);
      if (v == null) return;
      if (d.prop === "animation") {
        const a = parseAnimation(v);
        if (a == null) return;
        for (const k of ["animation-delay", "animation-duration", "animation-timing-function", "animation-fill-mode", "animation-iteration-count", "animation-direction", "animation-name", "animation-play-state"]) out.delete(k);
      }
      out.set(d.prop, v);
    };
    for (const imp of [false, true]) {
      for (const c of cands) for (const d of c.r.decls) if (d.important === imp) set(d);
      const st = n.attrs.get("style");
      if (st != null) for (const d of parseDecls(st)) if (d.important === imp) set(d);
    }
    this.cascade.set(n, m);
    return m;
  }
  private customProp(n: XNode | null, name: string, own?: Map<string, string>): string | null {
    if (own?.has(name)) return own.get(name)!;
    for (let p = n; p != null; p = p.parent) {
      let best: { v: string; spec: number; order: number } | null = null;
      const st = p.attrs.get("style");
      if (st != null) for (const d of parseDecls(st)) if (d.prop === name) return d.value;
      for (const r of this.allRules()) {
        const d = r.decls.find((x) => x.prop === name);
        if (d == null || !matches(p, r.sel)) continue;
        if (best == null || r.spec > best.spec || (r.spec === best.spec && r.order > best.order)) best = { v: d.value, spec: r.spec, order: r.order };
      }
      if (best != null) return best.v;
    }
    return null;
  }
  private resolveVar(n: XNode, v: string, prop: string, own: Map<string, string>): string | null {
    if (prop.startsWith("--")) return v;
    let out = v;
    for (let k = 0; k < 10; k++) {
      const m = /var\(\s*(--[-\w]+)\s*(?:,([^()]*))?\)/.exec(out);
      if (!m) return out;
      const r = this.customProp(n, m[1], own) ?? (m[2] != null ? m[2].trim() : null);
      if (r == null) return null;
      out = out.slice(0, m.index) + r + out.slice(m.index + m[0].length);
    }
    return out;
  }
  animations(n: XNode): Anim[] {
    let a = this.anims.get(n);
    if (a != null) return a;
    const d = this.decls(n);
    const v = d.get("animation");
    a = v != null ? parseAnimation(v) ?? [] : [];
    if (v == null && d.has("animation-name")) {
      a = splitTop(d.get("animation-name")!, ",").map((name) => ({ name, dur: 0, delay: 0, tf: "ease", iter: 1, fill: "none", dir: "normal", playState: "running" }));
    }
    a = a.map((x) => ({ ...x }));
    const list = (prop: string, f: (x: Anim, v: string) => void): void => {
      const v2 = d.get(prop);
      if (v2 == null) return;
      const vs = splitTop(v2, ",");
      a!.forEach((x, i) => f(x, vs[i % vs.length]));
    };
    list("animation-duration", (x, s) => { const t = timeMs(s); if (t != null) x.dur = t; });
    list("animation-delay", (x, s) => { const t = timeMs(s); if (t != null) x.delay = t; });
    list("animation-timing-function", (x, s) => { if (easing(s) != null) x.tf = s; });
    list("animation-fill-mode", (x, s) => { x.fill = s; });
    list("animation-direction", (x, s) => { x.dir = s; });
    list("animation-iteration-count", (x, s) => { x.iter = s === "infinite" ? Infinity : Number(s); });
    a = a.filter((x) => x.name !== "none");
    this.anims.set(n, a);
    return a;
  }
  /** animated value of prop on element at t, or the cascaded one */
  value(n: XNode, prop: string, t: number): string | undefined {
    const base = this.decls(n).get(prop);
    let v = base;
    for (const a of this.animations(n)) {
      const kfs = this.keyframes(a.name);
      if (kfs == null) continue;
      const p = animProgress(a, t);
      if (p == null) continue;
      const r = this.sample(kfs, prop, p, a.tf, base, n);
      if (r != null) v = r;
    }
    return v;
  }
  private propKf = new WeakMap<KF[], Map<string, Array<{ at: number; v: string; tf: string | null }>>>();
  private propFrames(kfs: KF[], prop: string): Array<{ at: number; v: string; tf: string | null }> {
    let m = this.propKf.get(kfs);
    if (m == null) this.propKf.set(kfs, (m = new Map()));
    let f = m.get(prop);
    if (f == null) {
      f = [];
      const byAt = new Map<number, { v: string | null; tf: string | null }>();
      for (const k of kfs) {
        const e = byAt.get(k.at) ?? { v: null, tf: null };
        if (k.decls.has(prop)) e.v = k.decls.get(prop)!;
        if (k.tf != null) e.tf = k.tf;
        byAt.set(k.at, e);
      }
      for (const [at, e] of byAt) if (e.v != null) f.push({ at, v: e.v, tf: e.tf });
      f.sort((x, y) => x.at - y.at);
      m.set(prop, f);
    }
    return f;
  }
  private sample(kfs: KF[], prop: string, p: number, tf: string, base: string | undefined, n: XNode): string | null {
    const f0 = this.propFrames(kfs, prop);
    if (f0.length === 0) return null;
    const dflt = base ?? n.attrs.get(prop) ?? (prop === "opacity" ? "1" : prop === "visibility" ? "visible" : prop === "display" ? "inline" : prop === "transform" ? "none" : "none");
    let f = f0;
    if (f[0].at > 0) f = [{ at: 0, v: dflt, tf: kfs[0].at === 0 ? kfs[0].tf : null }, ...f];
    if (f[f.length - 1].at < 1) f = [...f, { at: 1, v: dflt, tf: null }];
    let i = 0;
    while (i < f.length - 2 && f[i + 1].at <= p) i++;
    const a = f[i], b = f[i + 1];
    if (b == null) return a.v;
    const q = b.at > a.at ? (p - a.at) / (b.at - a.at) : 1;
    const e = easing(a.tf ?? tf) ?? easing("ease")!;
    const [w, h] = this.viewportOf(n);
    return interpolate(prop, a.v, b.v, p >= 1 && b.at === 1 ? e(1) : e(q), w, h);
  }
  viewportOf(n: XNode): [number, number] {
    for (let p: XNode | null = n.tag === "svg" ? n.parent ?? n : n; p != null; p = p.parent) if (p.tag === "svg") {
      const vb = p.attrs.get("viewBox");
      if (vb != null) { const q = vb.trim().split(/[\s,]+/).map(Number); return [q[2], q[3]]; }
      return [parseFloat(p.attrs.get("width") ?? "0"), parseFloat(p.attrs.get("height") ?? "0")];
    }
    return [0, 0];
  }
  // geometry ---------------------------------------------------------------
  bbox(n: XNode, t?: number): [number, number, number, number] | null {
    const nums = (k: string): number => parseFloat((t != null ? this.value(n, k, t) : undefined) ?? n.attrs.get(k) ?? "0") || 0;
    switch (n.tag) {
      case "rect": case "image": return [nums("x"), nums("y"), nums("width"), nums("height")];
      case "circle": return [nums("cx") - nums("r"), nums("cy") - nums("r"), 2 * nums("r"), 2 * nums("r")];
      case "ellipse": return [nums("cx") - nums("rx"), nums("cy") - nums("ry"), 2 * nums("rx"), 2 * nums("ry")];
      case "line": { const x1 = nums("x1"), x2 = nums("x2"), y1 = nums("y1"), y2 = nums("y2"); return [Math.min(x1, x2), Math.min(y1, y2), Math.abs(x2 - x1), Math.abs(y2 - y1)]; }
      case "polygon": case "polyline": {
        const p = (n.attrs.get("points") ?? "").trim().split(/[\s,]+/).map(Number);
        return boxOf(p);
      }
      case "path": return boxOf(pathPoints(n.attrs.get("d") ?? ""));
      case "use": {
        const href = n.attrs.get("href") ?? n.attrs.get("xlink:href");
        const t = href?.startsWith("#") ? this.ids.get(href.slice(1)) : undefined;
        const b = t != null ? this.bboxT(t) : null;
        return b == null ? null : [b[0] + nums("x"), b[1] + nums("y"), b[2], b[3]];
      }
      case "g": case "svg": case "symbol": case "a": {
        let acc: [number, number, number, number] | null = null;
        for (const c of n.children) {
          const b = this.bboxT(c);
          if (b == null) continue;
          acc = acc == null ? b : union(acc, b);
        }
        return acc;
      }
      default: return null;
    }
  }
  private bboxT(n: XNode): [number, number, number, number] | null {
    if (["defs", "style", "clipPath", "mask", "title", "desc", "linearGradient", "radialGradient", "pattern", "filter"].includes(n.tag)) return null;
    if (this.decls(n).get("display") === "none") return null;
    const b = this.bbox(n);
    if (b == null) return null;
    const tf = this.decls(n).get("transform");
    if (tf == null || tf === "none") return b;
    const fs = parseTransform(tf);
    if (fs == null) return b;
    const [w, h] = this.viewportOf(n);
    const m = tfMatrix(fs, w, h);
    return boxOf([b[0], b[1], b[0] + b[2], b[1], b[0], b[1] + b[3], b[0] + b[2], b[1] + b[3]].reduce<number[]>((acc, _v, i, arr) => { if (i % 2 === 0) acc.push(...apply(m, arr[i], arr[i + 1])); return acc; }, []));
  }
  localMatrix(n: XNode, t: number): M {
    const v = this.value(n, "transform", t);
    if (v == null || v === "none" || v === "") return ID;
    const fs = parseTransform(v);
    if (fs == null) throw new Error(`bad transform "${v}"`);
    const d = this.decls(n);
    let [w, h] = this.viewportOf(n);
    let ox = 0, oy = 0;
    const box = this.value(n, "transform-box", t) ?? d.get("transform-box") ?? "view-box";
    const org = d.get("transform-origin");
    let bx = 0, by = 0;
    if (box === "fill-box" || box === "stroke-box") {
      const b = this.bbox(n);
      if (b != null) { [bx, by, w, h] = b; } else { w = 0; h = 0; }
    }
    const isCssOuter = n.parent == null;
    if (org != null) {
      const parts = org.trim().split(/\s+/);
      const one = (s: string | undefined, axis: "x" | "y", ref: number): number => {
        if (s == null) return ref / 2;
        if (s === "center") return ref / 2;
        if (s === "left" || s === "top") return 0;
        if (s === "right" || s === "bottom") return ref;
        return len(s, ref);
      };
      let px = parts[0], py = parts[1];
      if (px === "top" || px === "bottom") { const q = px; px = py ?? "center"; py = q; }
      ox = bx + one(px, "x", w);
      oy = by + one(py, "y", h);
    } else if (isCssOuter) { ox = w / 2; oy = h / 2; }
    const m = tfMatrix(fs, w, h);
    return ox === 0 && oy === 0 ? m : mul(mul([1, 0, 0, 1, ox, oy], m), [1, 0, 0, 1, -ox, -oy]);
  }
  private parseClip(v: string, m: M, n: XNode, t: number): Clip | null {
    const s = v.trim().replace(/\s+(?:view-box|fill-box|border-box)$/, "");
    if (s === "none" || s === "") return null;
    const [w, h] = this.viewportOf(n);
    let mm = /^url\(\s*["']?#([^"')]+)["']?\s*\)$/.exec(s);
    if (mm) {
      const c = this.ids.get(mm[1]);
      if (c == null) return null;
      const rects: Array<[number, number, number, number]> = [];
      for (const k of c.children) {
        const b = k.tag === "path" ? boxOf(pathPoints(k.attrs.get("d") ?? "")) : this.bbox(k, t);
        if (b != null) {
          const lm = this.localMatrix(k, t);
          if (lm[1] === 0 && lm[2] === 0) rects.push([b[0] * lm[0] + lm[4], b[1] * lm[3] + lm[5], b[2] * lm[0], b[3] * lm[3]]);
          else rects.push(b);
        }
      }
      return { kind: "poly", m, rects };
    }
    mm = /^inset\(\s*([^)]*)\)$/.exec(s);
    if (mm) {
      const p = mm[1].split(/\s+round\s+/)[0].trim().split(/\s+/);
      const T = len(p[0], h), R = len(p[1] ?? p[0], w), B = len(p[2] ?? p[0], h), L = len(p[3] ?? p[1] ?? p[0], w);
      return { kind: "poly", m, pts: [[L, T], [w - R, T], [w - R, h - B], [L, h - B]] };
    }
    mm = /^polygon\(\s*(?:(?:nonzero|evenodd)\s*,)?([^)]*)\)$/.exec(s);
    if (mm) return { kind: "poly", m, pts: mm[1].split(",").map((q) => { const z = q.trim().split(/\s+/); return [len(z[0], w), len(z[1], h)] as [number, number]; }) };
    mm = /^circle\(\s*([^)\s]+)\s*(?:at\s+([^)]+))?\)$/.exec(s);
    if (mm) {
      const rr = mm[1].endsWith("%") ? (parseFloat(mm[1]) / 100) * Math.sqrt((w * w + h * h) / 2) : len(mm[1], w);
      const c = (mm[2] ?? "50% 50%").trim().split(/\s+/);
      return { kind: "circle", m, r: rr, cx: c[0] === "center" ? w / 2 : len(c[0], w), cy: c[1] == null || c[1] === "center" ? h / 2 : len(c[1], h) };
    }
    throw new Error(`unsupported clip-path ${s}`);
  }
  /** every leaf that could paint at time t, bottom → top */
  leaves(t: number, accept: (n: XNode) => boolean): Leaf[] {
    const out: Leaf[] = [];
    const rec = (n: XNode, m: M, op: number, vis: string, clips: Clip[], fill: string): void => {
      if (["defs", "style", "clipPath", "mask", "title", "desc", "linearGradient", "radialGradient", "pattern", "filter", "symbol", "script", "metadata"].includes(n.tag)) return;
      if (this.value(n, "display", t) === "none") return;
      const v = this.value(n, "visibility", t);
      const vis2 = v == null || v === "inherit" ? vis : v;
      const o = this.value(n, "opacity", t);
      const op2 = op * (o == null ? 1 : Math.max(0, Math.min(1, parseFloat(o))));
      const f = this.value(n, "fill", t);
      const fill2 = f == null || f === "inherit" ? fill : f;
      let m2 = mul(m, this.localMatrix(n, t));
      let c2 = clips;
      const cp = this.value(n, "clip-path", t);
      if (cp != null) { const c = this.parseClip(cp, m2, n, t); if (c != null) c2 = [...c2, c]; }
      if (n.tag === "svg" && n.parent != null) {
        const x = parseFloat(n.attrs.get("x") ?? "0") || 0, y = parseFloat(n.attrs.get("y") ?? "0") || 0;
        const vb = n.attrs.get("viewBox")?.trim().split(/[\s,]+/).map(Number);
        const [pw, ph] = this.viewportOf(n);
        const dim = (k: string, ref: number): number => { const q = n.attrs.get(k); return q == null ? ref : len(q, ref); };
        const w = dim("width", pw), h = dim("height", ph);
        const ov = this.value(n, "overflow", t) ?? n.attrs.get("overflow");
        if (ov !== "visible") c2 = [...c2, { kind: "poly", m: m2, pts: [[x, y], [x + w, y], [x + w, y + h], [x, y + h]] }];
        m2 = mul(m2, [1, 0, 0, 1, x, y]);
        if (vb != null && vb[2] > 0 && vb[3] > 0) {
          const par = n.attrs.get("preserveAspectRatio") ?? "xMidYMid meet";
          let sx = w / vb[2], sy = h / vb[3];
          let tx = 0, ty = 0;
          if (!par.startsWith("none")) {
            const s = par.includes("slice") ? Math.max(sx, sy) : Math.min(sx, sy);
            sx = sy = s;
            const al = par.split(/\s+/)[0];
            tx = al.startsWith("xMid") ? (w - vb[2] * s) / 2 : al.startsWith("xMax") ? w - vb[2] * s : 0;
            ty = al.includes("YMid") ? (h - vb[3] * s) / 2 : al.includes("YMax") ? h - vb[3] * s : 0;
          }
          m2 = mul(m2, [sx, 0, 0, sy, tx - vb[0] * sx, ty - vb[1] * sy]);
        }
      }
      if (n.tag === "use") {
        const href = n.attrs.get("href") ?? n.attrs.get("xlink:href");
        if (accept(n)) out.push({ node: n, m: m2, opacity: op2, visible: vis2 !== "hidden" && vis2 !== "collapse", clips: c2, fill: fill2 });
        else {
          const tgt = href?.startsWith("#") ? this.ids.get(href.slice(1)) : undefined;
          const mu = mul(m2, [1, 0, 0, 1, parseFloat(n.attrs.get("x") ?? "0") || 0, parseFloat(n.attrs.get("y") ?? "0") || 0]);
          if (tgt != null) { if (tgt.tag === "symbol") for (const c of tgt.children) rec(c, mu, op2, vis2, c2, fill2); else rec(tgt, mu, op2, vis2, c2, fill2); }
        }
        return;
      }
      if (accept(n)) out.push({ node: n, m: m2, opacity: op2, visible: vis2 !== "hidden" && vis2 !== "collapse", clips: c2, fill: fill2 });
      for (const c of n.children) rec(c, m2, op2, vis2, c2, fill2);
    };
    rec(this.root, ID, 1, "visible", [], "black");
    return out;
  }
  /** does leaf cover root-space point (x, y)? (bbox geometry + clips) */
  covers(l: Leaf, x: number, y: number, t?: number): boolean {
    const im = inv(l.m);
    if (im == null) return false;
    const [lx, ly] = apply(im, x, y);
    if (l.node.tag === "polygon" || l.node.tag === "path") {
      const pts = l.node.tag === "polygon" ? (l.node.attrs.get("points") ?? "").trim().split(/[\s,]+/).map(Number) : pathPoints(l.node.attrs.get("d") ?? "");
      const arr: Array<[number, number]> = [];
      for (let i = 0; i + 1 < pts.length; i += 2) arr.push([pts[i], pts[i + 1]]);
      if (!inPoly(arr, lx, ly)) return false;
    } else {
      const b = this.bbox(l.node, t);
      if (b == null) return false;
      if (lx < b[0] || ly < b[1] || lx >= b[0] + b[2] || ly >= b[1] + b[3]) return false;
    }
    return inClips(l.clips, x, y);
  }
}
export function inClips(clips: Clip[], x: number, y: number): boolean {
  for (const c of clips) {
    const im = inv(c.m);
    if (im == null) return false;
    const [cx, cy] = apply(im, x, y);
    if (c.kind === "circle") { if ((cx - c.cx!) ** 2 + (cy - c.cy!) ** 2 > c.r! * c.r!) return false; continue; }
    if (c.rects != null) { if (!c.rects.some((r) => cx >= r[0] && cy >= r[1] && cx <= r[0] + r[2] && cy <= r[1] + r[3])) return false; continue; }
    if (!inPoly(c.pts!, cx, cy)) return false;
  }
  return true;
}
export function inPoly(p: Array<[number, number]>, x: number, y: number): boolean {
  let wn = 0;
  for (let i = 0; i < p.length; i++) {
    const [x1, y1] = p[i], [x2, y2] = p[(i + 1) % p.length];
    if (y1 <= y) { if (y2 > y && (x2 - x1) * (y - y1) - (x - x1) * (y2 - y1) > 0) wn++; }
    else if (y2 <= y && (x2 - x1) * (y - y1) - (x - x1) * (y2 - y1) < 0) wn--;
  }
  return wn !== 0;
}
function union(a: [number, number, number, number], b: [number, number, number, number]): [number, number, number, number] {
  const x = Math.min(a[0], b[0]), y = Math.min(a[1], b[1]);
  return [x, y, Math.max(a[0] + a[2], b[0] + b[2]) - x, Math.max(a[1] + a[3], b[1] + b[3]) - y];
}
function boxOf(p: number[]): [number, number, number, number] | null {
  if (p.length < 2) return null;
  let x0 = Infinity, y0 = Infinity, x1 = -Infinity, y1 = -Infinity;
  for (let i = 0; i + 1 < p.length; i += 2) { x0 = Math.min(x0, p[i]); x1 = Math.max(x1, p[i]); y0 = Math.min(y0, p[i + 1]); y1 = Math.max(y1, p[i + 1]); }
  return [x0, y0, x1 - x0, y1 - y0];
}
/** on-curve points of a path (control points ignored): enough for boxes */
export function pathPoints(d: string): number[] {
  const out: number[] = [];
  const toks = d.match(/[a-zA-Z]|[-+]?(?:\d+\.?\d*|\.\d+)(?:e[-+]?\d+)?/g) ?? [];
  let i = 0, cmd = "", x = 0, y = 0, sx = 0, sy = 0;
  const n = (): number => Number(toks[i++]);
  while (i < toks.length) {
    if (/[a-zA-Z]/.test(toks[i])) cmd = toks[i++];
    const rel = cmd === cmd.toLowerCase();
    const bx = rel ? x : 0, by = rel ? y : 0;
    switch (cmd.toUpperCase()) {
      case "M": x = bx + n(); y = by + n(); sx = x; sy = y; cmd = rel ? "l" : "L"; break;
      case "L": case "T": x = bx + n(); y = by + n(); break;
      case "H": x = bx + n(); break;
      case "V": y = by + n(); break;
      case "C": i += 4; x = bx + n(); y = by + n(); break;
      case "S": case "Q": i += 2; x = bx + n(); y = by + n(); break;
      case "A": i += 5; x = bx + n(); y = by + n(); break;
      case "Z": x = sx; y = sy; break;
      default: return out;
    }
    out.push(x, y);
  }
  return out;
}
