/** Comparing values of animated properties, however they are spelt. */
import { SvgDoc, parseTransform, tfMatrix, color } from "./player.ts";
import { walk, type XNode } from "./xml.ts";

const NUM = /-?(?:\d+\.?\d*|\.\d+)(?:e[-+]?\d+)?/gi;
/** a value as a shape and its numbers, however it is spelt */
const forms = new Map<string, [string, number[]]>();
export function form(p: string, v: string): [string, number[]] {
  const k = `${p}|${v}`;
  let f = forms.get(k);
  if (f == null) {
    if (forms.size > 200_000) forms.clear();
    if (p === "transform") { const t = v === "none" || v === "" ? [] : parseTransform(v); f = t == null ? [v, []] : ["matrix", tfMatrix(t, 100, 100)]; }
    else { const c = p === "fill" || p === "stroke" || p === "color" ? color(v) : null; f = c != null ? ["colour", c] : [v.replace(NUM, "#").replace(/\s*([(),])\s*/g, "$1").replace(/\s+/g, " "), (v.match(NUM) ?? []).map(Number)]; }
    forms.set(k, f);
  }
  return f;
}
export const animated = (doc: SvgDoc): Array<{ i: number; n: XNode; props: string[] }> => {
  const out: Array<{ i: number; n: XNode; props: string[] }> = [];
  let i = 0;
  for (const n of walk(doc.root)) {
    const props = new Set<string>();
    for (const a of doc.animations(n)) for (const k of doc.keyframes(a.name) ?? []) for (const p of k.decls.keys()) props.add(p);
    if (props.size > 0) out.push({ i, n, props: [...props] });
    i++;
  }
  return out;
};

/** spread of the q-th number of a property over its keyframes: the scale of its curve */
const ranges = new WeakMap<XNode, Map<string, number>>();
export function range(doc: SvgDoc, n: XNode, p: string, q: number): number {
  let m = ranges.get(n);
  if (m == null) ranges.set(n, (m = new Map()));
  const k = `${p}|${q}`;
  if (!m.has(k)) {
    const vs: number[] = [];
    for (const a of doc.animations(n)) for (const f of doc.keyframes(a.name) ?? []) { const v = f.decls.get(p); if (v != null) { const x = form(p, v)[1][q]; if (x != null) vs.push(x); } }
    m.set(k, vs.length === 0 ? 0 : Math.max(...vs) - Math.min(...vs));
  }
  return m.get(k)!;
}

/** is `got` one of `want`, or between them? */
export function agrees(p: string, got: string, want: string[], spread: (q: number) => number): boolean {
  if (want.includes(got)) return true;
  const [gs, g] = form(p, got), same = want.map((w) => form(p, w)).filter((w) => w[0] === gs).map((w) => w[1]);
  return same.length > 0 && g.every((x, q) => {
    const vs = same.map((w) => w[q]), lo = Math.min(...vs), hi = Math.max(...vs);
    const slack = (p === "fill" ? 0.51 : 0) + 0.001 * Math.max(1, Math.abs(hi)) + 0.003 * spread(q);
    return x >= lo - slack && x <= hi + slack;
  });
}
