/** R04: every box is clipped by exactly the clipping boxes of its containing-block chain. */
import { defineCheck, words, type Ctx } from "../lib/check.ts";
import { imp } from "../lib/repo.ts";
import { el, colour, type El } from "../lib/tree.ts";
import { SvgDoc, color, inClips } from "../lib/player.ts";
const { elementTreeToSvgInner } = await imp("render/element-tree-to-svg.ts");
const { paintOrderHitSequence } = await imp("render/paint-order.ts");

interface Kind { n: string; s: Record<string, string>; clip?: boolean; only?: "x" | "y"; edge?: number; abs?: boolean; fixed?: boolean; cb?: boolean; fcb?: boolean; extra?: Record<string, unknown> }
const HID = { overflow: "hidden", overflowX: "hidden", overflowY: "hidden" };
const KINDS: Kind[] = [
  { n: "block", s: {} },
  { n: "clip", s: HID, clip: true },
  { n: "rel", s: { position: "relative" }, cb: true },
  { n: "abs", s: { position: "absolute" }, abs: true, cb: true },
  { n: "relclip", s: { position: "relative", ...HID }, clip: true, cb: true },
  { n: "fixed", s: { position: "fixed" }, fixed: true, cb: true },
  { n: "float", s: { float: "left", cssFloat: "left" } },
  { n: "rel1", s: { position: "relative", zIndex: "1" }, cb: true },
  { n: "z1clip", s: { position: "relative", zIndex: "1", ...HID }, clip: true, cb: true },
  { n: "moved", s: {}, cb: true, fcb: true, extra: { transformCreatesSc: true } },
  { n: "abs-1", s: { position: "absolute", zIndex: "-1" }, abs: true, cb: true },
  { n: "faded", s: { opacity: "0.99" } },
  { n: "fadedclip", s: { opacity: "0.99", ...HID }, clip: true },
  { n: "movedclip", s: HID, clip: true, cb: true, fcb: true, extra: { transformCreatesSc: true } },
  { n: "absclip", s: { position: "absolute", ...HID }, clip: true, abs: true, cb: true },
  { n: "iblock", s: { display: "inline-block" } },
  { n: "flex", s: { display: "flex" } },
  { n: "floatclip", s: { float: "left", cssFloat: "left", ...HID }, clip: true },
  { n: "iblockclip", s: { display: "inline-block", ...HID }, clip: true },
  { n: "xclip", s: { overflow: "clip visible", overflowX: "clip", overflowY: "visible" }, clip: true, only: "x" },
  { n: "yclip", s: { overflow: "visible clip", overflowX: "visible", overflowY: "clip" }, clip: true, only: "y" },
  { n: "thick", s: { ...HID, borderTopWidth: "6px", borderRightWidth: "6px", borderBottomWidth: "6px", borderLeftWidth: "6px" }, clip: true, edge: 6 },
  { n: "paint", s: { contain: "paint" }, clip: true, cb: true, fcb: true },
  { n: "sticky", s: { position: "sticky" }, cb: true },
];
// the body hands its overflow to the viewport
const BODY: Kind = { n: "body", s: HID };
/** boxes that hold fixed boxes, each with its own clip */
const HOLDERS: Kind[] = ([["filter", { filter: "blur(0.1px)" }], ["backdrop", { backdropFilter: "blur(1px)" }], ["will", { willChange: "filter" }], ["willt", { willChange: "opacity, translate" }],
  ["perspective", { perspective: "10px" }], ["p3d", { transformStyle: "preserve-3d" }], ["layout", { contain: "layout" }], ["strict", { contain: "strict" }], ["content", { contain: "inline-size content" }]] as Array<[string, Record<string, string>]>)
  .map(([n, s]) => ({ n: `${n}!`, s: { ...s, ...HID }, clip: true, cb: true, fcb: true }));
interface N { k: Kind; kids: N[]; id: number; parent: N | null; x: number; y: number }
const S = 40;
/** does c's overflow region hold the point */
const within = (c: N, x: number, y: number): boolean => {
  const e = c.k.edge ?? 0;
  return (c.k.only === "y" || (x > c.x + e && x < c.x + S - e)) && (c.k.only === "x" || (y > c.y + e && y < c.y + S - e));
};
/** the boxes that clip n: overflow clips along its containing-block chain */
function clippers(n: N): N[] {
  const out: N[] = [];
  let cur = n;
  while (cur.parent != null) {
    let p: N | null = cur.parent;
    if (cur.k.fixed) { while (p != null && !p.k.fcb) p = p.parent; } else if (cur.k.abs) { while (p != null && !p.k.cb) p = p.parent; }
    if (p == null) break;
    if (p.k.clip) out.push(p);
    cur = p;
  }
  return out;
}
/** the clips of the stacking contexts n paints inside, whether or not CSS lets n escape them */
function groupClips(n: N): N[] {
  const out: N[] = [];
  for (let a = n.parent; a != null; a = a.parent) if (SC.has(a.k.n) || a.k.n.endsWith("!")) out.push(...clippers(a), ...(a.k.clip ? [a] : []));
  return out;
}
const SC = new Set(["fixed", "rel1", "z1clip", "moved", "abs-1", "faded", "fadedclip", "movedclip", "sticky", "paint"]);
function run(ctx: Ctx, root: N, all: N[]): void {
  const toEl = (n: N): El => { const e = el({ x: n.x, y: n.y, w: S, h: S, bg: colour(n.id), styles: { ...n.k.s }, children: n.kids.map(toEl), tag: n.id === 0 ? "body" : "div", uid: n.id } as never); if (n.k.extra != null) Object.assign(e.styles, n.k.extra); return e; };
  const tree = toEl(root);
  const show = (n: N): string => `${n.k.n}${n.kids.length > 0 ? `(${n.kids.map(show).join(" ")})` : ""}`;
  const name = root.kids.map(show).join(" ");
  let svg: string;
  try { svg = elementTreeToSvgInner([tree], 200, 200, "", false, 1, false); } catch (e) { ctx.fail(`throws:${name}`, `${name}: ${String(e)}`, { name }); return; }
  ctx.trace();
  const doc = new SvgDoc(`<svg xmlns="http://www.w3.org/2000/svg" viewBox="0 0 200 200">${svg}</svg>`);
  const leaves = doc.leaves(0, (n) => n.tag === "rect" || n.tag === "path").filter((l) => l.visible && l.fill !== "none");
  const by = new Map<string, number>();
  for (const n of all) by.set(JSON.stringify(color(colour(n.id))), n.id);
  const hits = new Map<number, Array<{ x: number; y: number; w: number; h: number }>>();
  for (const h of paintOrderHitSequence([tree]) as Array<{ el: El; clips: Array<{ x: number; y: number; w: number; h: number }> }>) hits.set(h.el.uid as number, h.clips);
  const sets: string[] = [];
  for (const n of all) {
    const cl = clippers(n);
    sets.push(cl.map((c) => c.id).join(","));
    const mine = leaves.filter((l) => by.get(JSON.stringify(color(l.fill))) === n.id);
    for (let i = 0; i < 5; i++) for (let j = 0; j < 5; j++) {
      const x = n.x + 4 + i * 8, y = n.y + 4 + j * 8;
      const want = cl.every((c) => within(c, x, y));
      ctx.step();
      const key = (got: boolean, pre: string): string => {
        // a box that paints inside a stacking context it is not contained by keeps that group's clips
        const group = want && !got && groupClips(n).some((c) => !cl.includes(c) && !within(c, x, y));
        return `${pre}${group ? "group" : want ? "overclipped" : "unclipped"}:${name}`;
      };
      const got = mine.some((l) => doc.covers(l, x, y) && inClips(l.clips, x, y));
      if (got !== want) { ctx.fail(key(got, ""), `${name}: box ${n.id} is ${got ? "shown" : "hidden"} at ${x},${y}; it is clipped by boxes [${cl.map((c) => c.id).join(",")}]`, { name }); continue; }
      const hc = hits.get(n.id);
      const hit = hc != null && hc.every((c) => x >= c.x && x < c.x + c.w && y >= c.y && y < c.y + c.h);
      if (hit !== want) { ctx.fail(key(hit, "hit"), `${name}: box ${n.id} is ${hit ? "hit" : "missed"} at ${x},${y}; it is clipped by boxes [${cl.map((c) => c.id).join(",")}]`, { name }); continue; }
    }
  }
  ctx.state(sets.join("|"));
}
function forests(n: number): number[][] {
  const out: number[][] = [];
  const rec = (p: number[], open: number[]): void => { if (p.length === n) { out.push(p); return; } for (let i = 0; i < open.length; i++) rec([...p, open[i]], [...open.slice(0, i + 1), p.length + 1]); };
  rec([], [0]);
  return out;
}
function explore(ctx: Ctx, shard: { i: number; n: number }): void {
  let c = 0;
  const go = (n: number, alphabet: Kind[]): void => {
    const fs = forests(n);
    for (const ks of words(alphabet, n, n)) {
      if (c++ % shard.n !== shard.i) continue;
      for (const f of fs) {
        const ns: N[] = [{ k: BODY, kids: [], id: 0, parent: null, x: 0, y: 0 }];
        let ok = true;
        f.forEach((p, i) => {
          // each box sticks out of its parent, differently from its siblings
          const q = ns[p], m: N = { k: ks[i], kids: [], id: i + 1, parent: q, x: q.x + 13, y: q.y + (q.kids.length % 2 === 0 ? 9 : -11) };
          if (q.k.n === "flex" && (ks[i].s.float != null || ks[i].n.startsWith("iblock"))) ok = false;
          q.kids.push(m); ns.push(m);
        });
        if (ok && ks.some((k) => k.clip)) run(ctx, ns[0], ns);
      }
    }
  };
  for (let n = 1; n <= 3; n++) go(n, ctx.thorough || n < 3 ? KINDS : [...KINDS.slice(0, 13), ...KINDS.slice(19, 23)]);
  for (const h of HOLDERS) go(3, [h, ...KINDS.filter((k) => ["block", "clip", "rel", "abs", "fixed", "fadedclip"].includes(k.n))]);
  go(4, KINDS.slice(0, ctx.thorough ? 10 : 6));
  if (ctx.thorough) go(5, KINDS.slice(0, 5));
}
export default defineCheck({
  spec: {
    id: "R04", level: "model_checking",
    bounds: "every ordered tree of up to 3 boxes over 17 (thorough 24) kinds of clipping and positioned boxes, 9 kinds of fixed containing blocks among 6 kinds at 3 boxes, 4 boxes over 6 (10), 5 over 5 (thorough); 25 points per box",
    assumptions: ["square corners"],
  },
  shards: 8,
  run: explore,
});
