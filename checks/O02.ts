/** O02: a trimmed document plays exactly the selected window of the original. */
import { defineCheck, type Ctx } from "../lib/check.ts";
import { imp } from "../lib/repo.ts";
import { SvgDoc } from "../lib/player.ts";
import { animated, agrees, range } from "../lib/anim.ts";
import { walk } from "../lib/xml.ts";
import { T, PARAMS, render, schedule, seqKey } from "../lib/frames.ts";

const { trimAnimatedSvg } = await imp("scrubber/trim.ts");
const { generateAnimatedSvg } = await imp("animation/animator.ts");

function compare(ctx: Ctx, key: string, svg: string, P: number, windows: Array<[number, number]>, loops: boolean, stops: number[]): void {
  const orig = new SvgDoc(svg);
  const targets = animated(orig);
  const nodes0 = [...walk(orig.root)];
  for (const [t0, t1] of windows) {
    const wkey = `${key} | window ${t0}..${t1} of ${P}`;
    let failed = false;
    const bad = (what: string): void => { failed = true; ctx.fail(key.replace(/ \|.*/, ""), `${wkey}: ${what}`, { svg, t0, t1, P }); };
    const cut = (trimAnimatedSvg(svg, t0, t1, P) as { svg: string }).svg;
    ctx.trace();
    let doc: SvgDoc;
    try { doc = new SvgDoc(cut); } catch (e) { bad(`not well-formed: ${(e as Error).message}`); continue; }
    for (const e of doc.css.errors) bad(`css ${e}`);
    const nodes = [...walk(doc.root)];
    if (nodes.length !== nodes0.length) { bad("the structure changed"); continue; }
    for (let i = 0; i < nodes.length && !failed; i++) {
      const a = nodes0[i], b = nodes[i];
      if (a.tag !== b.tag) { bad(`<${a.tag}> became <${b.tag}>`); break; }
      if (a.tag !== "style" && a.text !== b.text) bad(`text "${a.text.slice(0, 60)}" became "${b.text.slice(0, 60)}"`);
      for (const [k, v] of a.attrs) if (k !== "style" && b.attrs.get(k) !== v) bad(`${k}="${v.slice(0, 60)}" became ${b.attrs.get(k)?.slice(0, 60)}`);
      for (const k of b.attrs.keys()) if (!a.attrs.has(k)) bad(`attribute ${k} appeared`);
    }
    const win = t1 - t0;
    // where anything turns, on both sides; and between
    const at = new Set<number>([0, win / 2, win * 0.13, win * 0.87, win - 1]);
    for (const s of stops) for (const d of [-2, 0, 2]) { const k = s - t0 + d; if (k >= 0 && k < win) at.add(k); }
    const sorted = [...at].sort((x, y) => x - y);
    for (let j = 0; j + 1 < sorted.length && sorted.length < 40; j++) at.add((sorted[j] + sorted[j + 1]) / 2);
    // percentages carry 6 digits of the window, lengths 0.1 ms
    const eps = 0.15 + win * 2e-6 + P * 2e-6;
    for (const lap of loops && t1 <= P ? [0, 1] : [0]) for (const k of at) {
      if (failed) break;
      for (const { i, n, props } of targets) for (const p of props) {
        ctx.step();
        const got = doc.value(nodes[i], p, k + lap * win) ?? "";
        const want = [0, -1, 1, -0.5, 0.5, -0.2, 0.2, -0.05, 0.05].map((d) => orig.value(n, p, Math.max(0, t0 + k + d * eps)) ?? "");
        // at the seam of a lap the last instant of the window stands for its end
        if (lap > 0 && k < eps) want.push(orig.value(n, p, t1 - eps) ?? "");
        if (lap > 0 && k < eps) want.push(orig.value(n, p, t1 - 1e-6) ?? "");
        for (const a of orig.animations(n)) for (const f of orig.keyframes(a.name) ?? []) if (Math.abs(f.at * P - t0 - k) <= eps && f.decls.has(p)) want.push(f.decls.get(p)!);
        if (k > win - eps) want.push(orig.value(n, p, t0) ?? "");
        const ok = agrees(p, got, want, (q) => range(orig, n, p, q));
        if (!ok) { bad(`${lap > 0 ? "second pass, " : ""}at +${k.toFixed(2)} ms <${n.tag}> ${p} is ${got}, the original shows ${want.slice(0, 3).join(" / ")}`); break; }
      }
    }
    ctx.state(wkey);
  }
}
// ---- grammar: keyframes × easings × ways to declare them ----
const VALUES: Record<string, string[]> = {
  opacity: ["0", "1", "0.25", "1", "0.5", "0"],
  transform: ["translate(0px, 0px) scale(1)", "translate(40px, -10px) scale(0.5)", "translate(-7.5px, 30px) scale(2)", "translate(0px, 0px) scale(1)", "translate(100px, 5px) scale(1)", "translate(3px, 3px) scale(1)"],
  visibility: ["visible", "hidden", "visible", "hidden", "visible", "hidden"],
  fill: ["#000", "#ff8000", "#0000ff", "#fff", "#123456", "#000"],
  "clip-path": ["inset(0% 100% 0% 0%)", "inset(0% 0% 0% 0%)", "inset(50% 0% 0% 20%)", "inset(0% 0% 0% 0%)", "inset(1% 2% 3% 4%)", "inset(0% 100% 0% 0%)"],
};
const EASE = ["", "linear", "step-end", "step-start", "ease-in-out", "cubic-bezier(0.7,0,0.9,0.4)", "cubic-bezier(0.34,1.56,0.64,1)", "steps(3)", "steps(2,start)", "linear(0, 0.8, 1.1, 1)"];
const LISTS = [[0, 100], [0, 50, 100], [0, 20, 20.05, 80, 100], [0, 30, 60, 100], [0, 49.95, 50, 100]];
let k3 = 0;
interface G { key: string; svg: string; P: number; loops: boolean; stops: number[] }
function doc(css: string, body: string): string { return `<svg xmlns="http://www.w3.org/2000/svg" width="100" height="100"><style>${css}</style>${body}</svg>`; }
function* grammar(thorough: boolean): Generator<G> {
  const P = 4000;
  const kf = (name: string, props: string[], list: number[], tfAt: number, tf: string, shift = 0): string => `@keyframes ${name} { ${list.map((o, i) => `${o}% { ${props.map((p) => `${p}: ${VALUES[p][(i + shift) % 6]}`).join("; ")}${i === tfAt && tf !== "" ? `; animation-timing-function: ${tf}` : ""} }`).join(" ")} }`;
  const propSets = [["opacity"], ["transform"], ["visibility"], ["fill"], ["clip-path"], ["opacity", "transform"]];
  for (const props of propSets) for (const list of LISTS) {
    const stops = list.map((x) => (x * P) / 100);
    for (const e of EASE) {
      // a visibility under an easing that passes 1 turns inside a chord
      if (props[0] === "visibility" && /1\.56|1\.1/.test(e)) continue;
      for (const at of thorough || props[0] === "opacity" || props[0] === "transform" ? [-1, 0, list.length - 2] : [-1]) for (const tf of at < 0 ? [""] : thorough ? EASE.slice(1) : ["step-end", "ease-in"]) {
        yield { key: `rule ${props.join("+")} [${list}] ${e}${at < 0 ? "" : ` stop ${at} ${tf}`}`, svg: doc(`${kf("ka", props, list, at, tf)} .a { animation: ka 4s ${e} infinite; }`, '<rect class="a" width="9" height="9"/>'), P, loops: true, stops };
      }
      if (props.length > 1 || props[0] === "opacity") {
        yield { key: `attribute ${props.join("+")} [${list}] ${e}`, svg: doc(kf("ka", props, list, -1, ""), `<g style="animation:ka 4s ${e} infinite"><rect width="9" height="9"/><path d="M 0,0 L 5,5 Z; }"/><text>x; y } z</text></g>`), P, loops: true, stops };
        yield { key: `two in one rule ${props.join("+")} [${list}] ${e}`, svg: doc(`${kf("ka", props, list, -1, "")} ${kf("kb", ["visibility"], [0, 25, 75, 100], -1, "")} .a { animation: ka 4s ${e} infinite, kb 4s step-end infinite }`, '<rect class="a" width="9" height="9"/>'), P, loops: true, stops: [...stops, 1000, 3000] };
      }
    }
  }
  // what is not as long as the period keeps its own schedule
  for (const e of ["linear", "ease", "step-end"]) for (const d of [0, 700, 1500, 3900]) for (const fill of ["", "both", "forwards", "backwards"]) for (const it of ["", "2", "infinite"]) for (const dir of ["", "alternate"]) {
    const len = 600, stops = [0, 1, 2, 3, 4].flatMap((k) => [d + k * len, d + k * len + len / 2]);
    yield { key: `scheduled +${d} ${e} ${fill} ${it} ${dir}`, svg: doc(`${kf("ka", ["opacity", "transform"], [0, 50, 100], -1, "")} .a { opacity: 0.9; animation: ka ${len}ms ${e} ${d}ms ${it} ${dir} ${fill}; }`, '<rect class="a" width="9" height="9"/>'), P, loops: false, stops };
    yield { key: `scheduled beside a period +${d} ${e} ${fill} ${it} ${dir}`, svg: doc(`${kf("ka", ["opacity"], [0, 50, 100], -1, "")} ${kf("kb", ["fill"], [0, 30, 100], -1, "")} .a { animation: kb 4s infinite linear, ka ${len}ms ${e} ${d}ms ${it} ${dir} ${fill}; } .b { animation: kb 4s infinite linear }`, '<rect class="a" width="9" height="9"/><rect class="b" width="9" height="9"/>'), P, loops: false, stops };
    if (dir === "") yield { key: `delay on its own +${d} ${e} ${fill} ${it}`, svg: doc(`${kf("ka", ["opacity"], [0, 50, 100], -1, "")} .a { animation: ka ${len}ms ${e} ${it} ${fill};animation-delay:${d}ms }`, '<rect class="a" width="9" height="9"/>'), P, loops: false, stops };
  }
  for (const dir of ["alternate", "reverse"]) yield { key: `period ${dir}`, svg: doc(`${kf("ka", ["opacity"], [0, 30, 100], -1, "")} .a { animation: ka 4s linear infinite ${dir} }`, '<rect class="a" width="9" height="9"/>'), P, loops: false, stops: [0, 1200, 2800, 4000] };
  // one set of keyframes, two users
  for (const second of ["ka 4s step-end infinite", "ka 1s linear infinite", "ka 4s linear 500ms infinite", "ka 4s linear 1 both"]) yield { key: `shared with ${second}`, svg: doc(`${kf("ka", ["opacity"], [0, 30, 100], -1, "")} .a { animation: ka 4s linear infinite } .b { animation: ${second} }`, '<rect class="a" width="9" height="9"/><rect class="b" width="9" height="9"/>'), P, loops: false, stops: [0, 500, 1200, 4000] };
  // words in the text, labels and comments
  for (const w of ["animation: ka 4s infinite; x", "style=\"animation: ka 4s infinite\"", "@keyframes ka { 0% { opacity: 0 } 100% { opacity: 1 } }", ".a { animation: ka 4s infinite }", "a > b"]) {
    const q = w.replace(/"/g, "&quot;").replace(/>/g, "&gt;");
    yield { key: `words ${w}`, svg: doc(`${kf("ka", ["opacity"], [0, 30, 100], -1, "")} .a { animation: ka 4s linear infinite }`, `<!-- ${w} --><rect class="a" width="9" height="9" aria-label="${q}"/><text>${w.replace(/>/g, "&gt;")}</text><g aria-label="a > b" style="animation:ka 4s linear infinite"><rect width="1" height="1"/></g>`), P, loops: true, stops: [0, 1200, 4000] };
  }
  // spellings: names, units, word order, stop selectors, attributes
  for (const name of ["ka", "a-b", "_k", "linear-1", "x4s"]) for (const [len, dur] of [[4000, "4s"], [4000, "4000ms"], [4000, "4.0s"], [500, ".5s"], [500, "500ms"]] as Array<[number, string]>) for (const order of ["N D T infinite", "D T infinite N", "infinite N D T", "T N infinite D"]) for (const e of ["linear", "cubic-bezier(0.7, 0, 0.9, 0.4)", "steps(3, jump-both)"]) {
    const body = ["from { opacity: 0 } 30% { opacity: 1 } to { opacity: 0.5 }", "0%,60%{opacity:0}30%, to{opacity:1}", "to { opacity: 0.2 } 25.5% { opacity: 1; } from { opacity: 0 }"];
    for (const b of thorough ? body : [body[k3++ % 3]]) yield { key: `spelt ${name} ${dur} ${order} ${e} ${b}`, svg: doc(`@keyframes ${name} { ${b} }\n.a{\n  animation : ${order.replace("N", name).replace("D", dur).replace("T", e)} ;\n}`, '<rect class="a" width="9" height="9"/>'), P, loops: len === P, stops: len === P ? [0, 1020, 1200, 2400, 4000] : [0, 500, 1000] };
  }
  // delays in every unit, and names nobody defines among the animations
  for (const d of ["12.5ms", "1.2505s", ".7s", "-250ms", "-0.5s", "+300ms"]) for (const e of ["linear", "step-end"]) for (const it of ["", "infinite"]) {
    const ms = parseFloat(d) * (d.endsWith("ms") ? 1 : 1000), stops = [0, 1, 2, 3].map((k) => Math.max(0, ms + 300 * k));
    yield { key: `delay ${d} ${e} ${it}`, svg: doc(`${kf("ka", ["opacity", "transform"], [0, 50, 100], -1, "")} .a { opacity: 0.9; animation: ka 600ms ${e} ${d} ${it}; }`, '<rect class="a" width="9" height="9"/>'), P, loops: false, stops };
    yield { key: `delay on its own ${d} ${e} ${it}`, svg: doc(`${kf("ka", ["opacity"], [0, 50, 100], -1, "")} .a { animation: ka 600ms ${e} ${it};animation-delay:${d} }`, '<rect class="a" width="9" height="9"/>'), P, loops: false, stops };
  }
  for (const list of ["gone 1s linear infinite, K", "K, gone 1s", "none, K", "gone 4s infinite linear, K, gone2 2s"]) for (const e of ["linear", "ease-in"]) for (const attribute of [false, true]) {
    const a = list.replace("K", `ka 4s ${e} infinite`);
    yield { key: `among others ${list} ${e}${attribute ? " attribute" : ""}`, svg: doc(`${kf("ka", ["opacity"], [0, 30, 100], -1, "")} .a { ${attribute ? "" : `animation: ${a}`} }`, `<rect class="a" width="9" height="9"${attribute ? ` style="animation:${a}"` : ""}/>`), P, loops: true, stops: [0, 1200, 4000] };
  }
  // properties that some stops leave out
  for (const css of ["0% { opacity: 0 } 40% { fill: #000000; opacity: 1 } 100% { opacity: 0 }", "30% { opacity: 0.2 } 100% { opacity: 1 }", "0% { opacity: 1 } 60% { opacity: 0 }"]) yield { key: `sparse ${css}`, svg: doc(`@keyframes ka { ${css} } .a { opacity: 0.7; fill: #ffffff; animation: ka 4s linear infinite }`, '<rect class="a" width="9" height="9"/>'), P, loops: false, stops: [0, 1200, 1600, 2400, 4000] };
}

function windowsFor(stops: number[], P: number, dense: boolean, edgesPer = 8): Array<[number, number]> {
  const inside = [...new Set(stops.filter((s) => s > 0 && s < P))].sort((a, b) => a - b);
  const edges = [0, ...inside, P];
  const pts = new Set<number>([0, P, 137, P - 91]);
  const step = dense ? 1 : Math.max(1, Math.ceil(inside.length / edgesPer));
  inside.forEach((s, i) => { if (i % step === 0) { pts.add(s); pts.add(Math.max(0, s - 3)); pts.add(Math.min(P, s + 3)); } });
  edges.slice(0, -1).forEach((s, i) => { if (i % step === 0) pts.add(Math.round((s + (edges[i + 1] - s) * 0.4) * 10) / 10); });
  const list = [...pts].sort((a, b) => a - b), out: Array<[number, number]> = [];
  list.forEach((a, i) => { const rest = list.slice(i + 1).filter((b) => b - a >= 40); for (const b of dense ? rest : [rest[0], rest[2], rest[rest.length - 1]]) if (b != null) out.push([a, b]); });
  out.push([P - 500, P + 700], [137, 2 * P]);
  return out;
}

function* composed(thorough: boolean): Generator<G> {
  const names = T.map((t) => t.name);
  const seqs = [];
  for (const a of names) for (const b of names) if (thorough || b === "crossfade" || b === "cut" || a === "crossfade") seqs.push({ types: [a, b, "crossfade"], durs: [700, 500, 600], trs: [400, 250, 300] });
  for (const p of PARAMS) if (thorough) seqs.push({ types: [p, "cut"], durs: [600, 500], trs: [400, 250] });
  for (const s of seqs) { const svg = render(s); yield { key: `composed ${seqKey(s)}`, svg, P: schedule(s).P, loops: true, stops: [] }; }
  const box = (id: string): string => `<rect class="${id}" width="120" height="80" fill="#ccc"/><rect class="anim-${id}" x="5" y="5" width="20" height="10"/>`;
  const A = (extra: Record<string, unknown>): Record<string, unknown> => ({ animName: "m0", animClass: "anim-m", property: "opacity", from: "0", to: "1", duration: 300, delay: 200, easing: "ease-in", ...extra });
  const extras: Array<[string, Record<string, unknown>]> = [
    ["typing", { overlays: [{ kind: "typing", text: "hi there", x: 5, y: 20, fontSize: 12, color: "#000", speed: 40, delay: 100 }] }],
    ["typing, two lines", { overlays: [{ kind: "typing", text: "one\ntwo", x: 5, y: 20, fontSize: 12, color: "#000", speed: 40, delay: 100, cursor: true }] }],
    ["tap", { overlays: [{ kind: "tap", x: 20, y: 30, delay: 200 }] }],
    ["blink", { overlays: [{ kind: "blink", x: 5, y: 5, width: 2, height: 10, color: "#000", delay: 100 }] }],
    ["shine", { overlays: [{ kind: "shine", x: 5, y: 5, width: 40, height: 20, delay: 100 }] }],
    ["fade-in once", { animations: [A({})] }],
    ["bounce", { animations: [A({ property: "translateX", from: "0px", to: "30px", iterations: 3, direction: "alternate" })] }],
    ["endless", { animations: [A({ property: "scale", from: "1", to: "1.2", iterations: "infinite", delay: 50 })] }],
  ];
  for (const [name, extra] of extras) for (const [before, after] of [[500, 600], [0, 900], [900, 0]]) {
    const plain = (m: string, d: number): Record<string, unknown> => ({ svgContent: box(m), duration: d, transition: { type: "crossfade", duration: 200 } });
    const frames = [...(before > 0 ? [plain("p", before)] : []), { svgContent: box("m"), duration: 800, transition: { type: "push-left", duration: 300 }, ...extra }, ...(after > 0 ? [plain("q", after)] : [])];
    const svg = generateAnimatedSvg({ width: 120, height: 80, frames } as never) as string;
    yield { key: `overlay ${name} ${before}/${after}`, svg, P: frames.reduce((t, f) => t + (f.duration as number) + ((f.transition as { duration: number }).duration), 0), loops: false, stops: [] };
  }
}

export default defineCheck({
  shards: 8,
  spec: {
    id: "O02",
    bounds: "keyframe lists of 5 shapes x 6 property sets x 10 easings x easing overrides on single stops x rule/attribute/list declarations; scheduled animations with every delay, fill, count and direction listed; composed documents of A01's transitions and of every overlay kind; windows starting and ending on, 3 ms beside and between all stops, across the period, first and second pass",
    assumptions: ["lib/player.ts evaluates CSS animations as a browser does", "an eased segment cut by the window is re-emitted as chords: tolerance 0.1 % of the value plus 0.3 % of the track's range", "SMIL animations are outside this property"],
  },
  run(ctx, sh) {
    let k = 0;
    for (const g of grammar(ctx.thorough)) { if (k++ % sh.n !== sh.i) continue; compare(ctx, g.key, g.svg, g.P, windowsFor(g.stops, g.P, ctx.thorough || g.stops.length <= 2), g.loops, g.stops); }
    for (const g of composed(ctx.thorough)) {
      if (k++ % sh.n !== sh.i) continue;
      const d = new SvgDoc(g.svg), offs = new Set<number>();
      const period = Math.max(g.P, ...[...d.css.rules].flatMap((r) => r.decls.filter((x) => x.prop === "animation").flatMap((x) => (/infinite/.test(x.value) ? [...x.value.matchAll(/([\d.]+)s\b/g)].map((m) => Number(m[1]) * 1000) : []))));
      for (const kfs of d.css.keyframes.values()) for (const f of kfs) offs.add(Math.round(f.at * period * 10) / 10);
      const stops = [...offs].sort((a, b) => a - b).filter((x, i, l) => i === 0 || x - l[i - 1] > 1);
      compare(ctx, g.key, g.svg, period, windowsFor(stops, period, false, ctx.thorough ? 8 : 3), g.loops, stops);
    }
  },
});
