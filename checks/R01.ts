/** R01: paint order follows CSS stacking for every tree. */
import { defineCheck, words, type Ctx } from "../lib/check.ts";
import { imp } from "../lib/repo.ts";
import { el, colour, type El } from "../lib/tree.ts";
import { walk, parseXml } from "../lib/xml.ts";
const { elementTreeToSvgInner } = await imp("render/element-tree-to-svg.ts");
const { hitTestTopmost, paintOrderHitSequence } = await imp("render/paint-order.ts");

/** one style combination: what CSS says about it */
interface Kind { n: string; s: Record<string, string>; pos?: boolean; z?: number; sc?: boolean; float?: boolean; inline?: boolean; flex?: boolean; extra?: Record<string, unknown> }
const K = (n: string, s: Record<string, string>, o: Partial<Kind> = {}): Kind => ({ n, s, ...o });
export const KINDS: Kind[] = [
  K("block", {}),
  K("rel", { position: "relative" }, { pos: true }),
  K("abs1", { position: "absolute", zIndex: "1" }, { pos: true, z: 1, sc: true }),
  K("rel-1", { position: "relative", zIndex: "-1" }, { pos: true, z: -1, sc: true }),
  K("float", { float: "left", cssFloat: "left" }, { float: true }),
  K("iblock", { display: "inline-block" }, { inline: true }),
  K("flex", { display: "flex" }, { flex: true }),
  K("faded", { opacity: "0.99" }, { sc: true }),
  K("relclip", { position: "relative", overflow: "hidden", overflowX: "hidden", overflowY: "hidden" }, { pos: true }),
  K("clip", { overflow: "hidden", overflowX: "hidden", overflowY: "hidden" }),
  K("clip2", { overflow: "hidden", overflowX: "hidden", overflowY: "hidden", zIndex: "2" }, { z: 2 }),
  K("faded2", { opacity: "0.99", zIndex: "2" }, { z: 2, sc: true }),
  K("faded-1", { opacity: "0.99", zIndex: "-1" }, { z: -1, sc: true }),
  K("z0", { position: "relative", zIndex: "0" }, { pos: true, z: 0, sc: true }),
  // a z-index on an unpositioned box counts only for flex and grid items
  K("static2", { zIndex: "2" }, { z: 2 }),
  K("static-1", { zIndex: "-1" }, { z: -1 }),
  K("abs", { position: "absolute" }, { pos: true }),
  K("abs2", { position: "absolute", zIndex: "2" }, { pos: true, z: 2, sc: true }),
  K("abs-2", { position: "absolute", zIndex: "-2" }, { pos: true, z: -2, sc: true }),
  K("grid", { display: "grid" }, { flex: true }),
  K("iflex", { display: "inline-flex" }, { flex: true, inline: true }),
  K("isolated", { isolation: "isolate" }, { sc: true }),
  K("relfirst", { position: "relative", order: "-1" }, { pos: true }),
  K("moved", { }, { sc: true, extra: { transformCreatesSc: true } }),
  K("blend", { mixBlendMode: "multiply" }, { sc: true }),
  K("will", { willChange: "transform" }, { sc: true }),
  K("willscroll", { willChange: "scroll-position" }),
  K("paint", { contain: "paint" }, { sc: true }),
  K("size", { contain: "size" }),
  K("layout", { contain: "layout" }, { sc: true }),
  K("strict", { contain: "strict" }, { sc: true }),
  K("content", { contain: "content" }, { sc: true }),
  K("filter", { filter: "blur(0.1px)" }, { sc: true }),
  K("backdrop", { backdropFilter: "blur(1px)" }, { sc: true }),
  K("masked", { maskImage: "linear-gradient(#000, #000)" }, { sc: true }),
  K("cut", { clipPath: "inset(0px)" }, { sc: true }),
  K("perspective", { perspective: "100px" }, { sc: true }),
  K("p3d", { transformStyle: "preserve-3d" }, { sc: true }),
  K("willmany", { willChange: "scroll-position, opacity" }, { sc: true }),
  K("sticky", { position: "sticky" }, { pos: true, sc: true }),
  K("fixed", { position: "fixed" }, { pos: true, sc: true }),
  K("fixed-1", { position: "fixed", zIndex: "-1" }, { pos: true, z: -1, sc: true }),
  K("first", { order: "-1" }),
  K("floatrel", { float: "right", cssFloat: "right", position: "relative" }, { pos: true }),
  K("floatfaded", { float: "left", cssFloat: "left", opacity: "0.5" }, { sc: true }),
];
interface N { k: Kind; kids: N[]; id: number; parent: N | null }

// ---- reference: CSS 2.1 Appendix E, CSS Flexbox 5.4, CSS Position/Transforms stacking contexts ----
const item = (n: N): boolean => n.parent != null && n.parent.k.flex === true && !oof(n);
const oof = (n: N): boolean => n.k.s.position === "absolute" || n.k.s.position === "fixed";
const isSC = (n: N): boolean => n.k.sc === true || (item(n) && n.k.z != null);
/** painted in the positioned layer */
const layered = (n: N): boolean => n.k.pos === true || isSC(n);
const zOf = (n: N): number => (n.k.pos === true || item(n) ? n.k.z ?? 0 : 0);
const isFloat = (n: N): boolean => n.k.float === true && !layered(n) && !item(n);
const atomic = (n: N): boolean => !layered(n) && !isFloat(n) && (n.k.inline === true || item(n));
/** children in order-modified document order */
function kids(n: N): N[] {
  if (n.k.flex !== true) return n.kids;
  return n.kids.map((c, i) => [c, oof(c) ? 0 : Number(c.k.s.order ?? 0), i] as const).sort((a, b) => a[1] - b[1] || a[2] - b[2]).map((x) => x[0]);
}
const clips = (n: N): boolean => n.k.s.overflow === "hidden" || ["paint", "strict", "content"].includes(n.k.n);
const isCb = (n: N): boolean => n.k.pos === true || isFcb(n);
const isFcb = (n: N): boolean => ["moved", "will", "paint", "layout", "strict", "content", "filter", "backdrop", "perspective", "p3d"].includes(n.k.n);
/** is the group the stacking context n paints in clipped by something n's overflow rules let it escape? */
function pulled(n: N): boolean {
  if (n.k.s.position !== "fixed") return false;
  for (let a = n.parent; a != null; a = a.parent) {
    if (isFcb(a) || a.k.s.position === "fixed") return false;
    if (!isSC(a)) continue;
    if (clips(a)) return true;
    for (let c = a; c.parent != null;) {
      let q: N | null = c.parent;
      if (c.k.s.position === "fixed") while (q != null && !isFcb(q)) q = q.parent;
      else if (c.k.s.position === "absolute") while (q != null && !isCb(q)) q = q.parent;
      if (q == null || q.parent == null) break;
      if (clips(q)) return true;
      c = q;
    }
  }
  return false;
}
let pull: N[] = [];
/** Appendix E for a stacking context (real) or a box painted "as if" it made one */
function paint(n: N, out: N[], real: boolean): void {
  out.push(n);
  const neg: N[] = [], zero: N[] = [], posv: N[] = [];
  if (real) {
    // every layered descendant whose nearest stacking context is n
    const gather = (m: N): void => { for (const c of kids(m)) { if (pull.includes(c)) continue; if (layered(c)) { const z = isSC(c) ? zOf(c) : 0; (z < 0 ? neg : z > 0 ? posv : zero).push(c); } if (!isSC(c)) gather(c); } };
    gather(n);
    if (n.id < 0) for (const c of pull) (zOf(c) < 0 ? neg : zOf(c) > 0 ? posv : zero).push(c);
    const byZ = (l: N[]): N[] => l.map((c, i) => [c, i] as const).sort((a, b) => zOf(a[0]) - zOf(b[0]) || a[1] - b[1]).map((x) => x[0]);
    for (const c of byZ(neg)) paint(c, out, true);
    flow(n, out);
    for (const c of zero) paint(c, out, isSC(c));
    for (const c of byZ(posv)) paint(c, out, true);
  } else flow(n, out);
}
/** steps 4 (blocks), 5 (floats), 7 (inline level) of one (pseudo) stacking context */
function flow(n: N, out: N[]): void {
  const blocks = (m: N): void => { for (const c of kids(m)) if (!layered(c) && !isFloat(c) && !atomic(c)) { out.push(c); blocks(c); } };
  const floats = (m: N): void => { for (const c of kids(m)) { if (layered(c)) continue; if (isFloat(c)) paint(c, out, false); else if (!atomic(c)) floats(c); } };
  const inl = (m: N): void => { for (const c of kids(m)) { if (layered(c) || isFloat(c)) continue; if (atomic(c)) paint(c, out, false); else inl(c); } };
  blocks(n); floats(n); inl(n);
}

function toEl(n: N): El {
  return el({ x: 0, y: 0, w: 50, h: 50, bg: colour(n.id), styles: { ...n.k.s }, children: n.kids.map(toEl), ...(n.k.extra != null ? {} : {}), tag: n.id === 0 ? "body" : "div", uid: n.id } as never);
}
function fixup(e: El, n: N): void { if (n.k.extra != null) Object.assign(e.styles, n.k.extra); n.kids.forEach((c, i) => fixup(e.children[i], c)); }
const canon = (c: string): string => c.replace(/\s+/g, "").toLowerCase();
const hex = (c: string): string => { const m = /^rgb\((\d+),(\d+),(\d+)\)$/.exec(canon(c)); return m ? "#" + m.slice(1).map((v) => Number(v).toString(16).padStart(2, "0")).join("") : canon(c); };
function run(ctx: Ctx, root: N, count: number): void {
  // the canvas is the root stacking context; the captured body is an ordinary block in it
  const orderOf = (): N[] => { const o: N[] = []; paint({ k: K("canvas", {}), kids: [root], id: -1, parent: null }, o, true); return o.slice(1); };
  pull = [];
  const order = orderOf();
  const leaving: N[] = [];
  const seek = (n: N): void => { if (pulled(n)) leaving.push(n); else n.kids.forEach(seek); };
  seek(root);
  const tree = toEl(root);
  fixup(tree, root);
  const show = (n: N): string => `${n.k.n}${n.kids.length > 0 ? `(${n.kids.map(show).join(" ")})` : ""}`;
  const name = root.kids.map(show).join(" ");
  let svg: string;
  try { svg = elementTreeToSvgInner([tree], 100, 100, "", false, 1, false); } catch (e) { ctx.fail(`throws:${name}`, `${name}: ${String(e)}`, { name }); return; }
  ctx.trace();
  ctx.step(count);
  const byColour = new Map<string, number>();
  for (let i = 0; i <= count; i++) byColour.set(hex(colour(i)), i);
  const got: number[] = [];
  const doc = parseXml(`<svg xmlns="http://www.w3.org/2000/svg" xmlns:xlink="http://www.w3.org/1999/xlink">${svg}</svg>`);
  for (const n of walk(doc)) {
    const f = n.attrs.get("fill");
    if (f == null) continue;
    const i = byColour.get(hex(f));
    if (i != null) got.push(i);
  }
  const want = order.map((n) => n.id);
  ctx.state(want.join(","));
  let pre = "";
  if (got.join(",") !== want.join(",") && leaving.length > 0) {
    // known: a fixed box whose stacking context is clipped paints at the document root
    pull = leaving;
    const alt = orderOf().map((n) => n.id);
    pull = [];
    if (got.join(",") === alt.join(",")) { pre = "leaves-"; }
  }
  if (got.join(",") !== want.join(",")) ctx.fail(`${pre}order:${name}`, `${name}: paints ${got.join(" ")}, CSS order ${want.join(" ")} (0 is the root, then document order)`, { name });
  // hit testing: the topmost of what is painted at a point all boxes cover
  const hit = hitTestTopmost([tree], 10, 10) as El | null;
  const floats = (n: N): boolean => isFloat(n) || n.kids.some(floats);
  const top = pre !== "" ? got.at(-1) : want.at(-1);
  if (!floats(root) && (hit == null || hit.uid !== top)) ctx.fail(`hit:${name}`, `${name}: hit testing finds ${String(hit?.uid)}, ${top} is painted topmost`, { name });
  const seq = paintOrderHitSequence([tree]).map((h: { el: El }) => h.el.uid as number);
  if ([...seq].sort((a, b) => a - b).join(",") !== [...want].sort((a, b) => a - b).join(",")) ctx.fail(`hitall:${name}`, `${name}: hit testing knows ${seq.join(" ")}`, { name });
}
/** every ordered forest of n nodes, as parent indices (0 = root) */
function forests(n: number): number[][] {
  const out: number[][] = [];
  const rec = (p: number[], open: number[]): void => {
    if (p.length === n) { out.push(p); return; }
    for (let i = 0; i < open.length; i++) rec([...p, open[i]], [...open.slice(0, i + 1), p.length + 1]);
  };
  rec([], [0]);
  return out;
}
function build(shape: number[], ks: readonly Kind[], root: Kind): N | null {
  const ns: N[] = [{ k: root, kids: [], id: 0, parent: null }];
  for (let i = 0; i < shape.length; i++) {
    const p = ns[shape[i]];
    const n: N = { k: ks[i], kids: [], id: i + 1, parent: p };
    // CSS blockifies flex items; a float makes no float there; both are the browser's job before capture
    if (p.k.flex === true && (ks[i].inline === true || ks[i].float === true || ks[i].s.float != null)) return null;
    if (ks[i].s.order != null && p.k.flex !== true) return null;
    p.kids.push(n);
    ns.push(n);
  }
  return ns[0];
}
function explore(ctx: Ctx, shard: { i: number; n: number }): void {
  let c = 0;
  const ROOT = K("block", {});
  const all = (n: number, alphabet: Kind[]): void => {
    const fs = forests(n);
    for (const ks of words(alphabet, n, n)) {
      if (c++ % shard.n !== shard.i) continue;
      for (const f of fs) { const r = build(f, ks, ROOT); if (r != null) run(ctx, r, n); }
    }
  };
  for (let n = 1; n <= (ctx.thorough ? 3 : 2); n++) all(n, KINDS);
  all(3, KINDS.slice(0, ctx.thorough ? 46 : 24));
  // fixed boxes in clipped stacking contexts
  all(3, KINDS.filter((k) => ["clip", "clip2", "flex", "z0", "rel-1", "fixed", "fixed-1", "moved"].includes(k.n)));
  // order-modified items, direct and deeper
  all(4, KINDS.filter((k) => ["block", "rel", "flex", "faded", "relfirst", "z0"].includes(k.n)));
  all(4, KINDS.slice(0, ctx.thorough ? 16 : 9));
  all(5, KINDS.slice(0, ctx.thorough ? 8 : 4));
}
export default defineCheck({
  spec: {
    id: "R01", level: "model_checking",
    bounds: "every ordered tree of up to 2 boxes over 46 style combinations (thorough: 3), 3 boxes over 24, 4 boxes over 9 (16), 5 boxes over 4 (8)",
    assumptions: ["boxes coincide, so order alone decides; box geometry is the capture's"],
  },
  shards: 8,
  run: explore,
});
