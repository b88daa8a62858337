/** A05: an embedded animation plays as it would alone, on the host clock. */
import { defineCheck, type Ctx } from "../lib/check.ts";
import { imp } from "../lib/repo.ts";
import { SvgDoc, easing, classes, type KF } from "../lib/player.ts";
import { animated, agrees, range } from "../lib/anim.ts";
import { walk, type XNode } from "../lib/xml.ts";
import { render, schedule, seqKey, type Seq } from "../lib/frames.ts";

const { composeAnimatedLayers } = await imp("animation/composite.ts");
const { namespaceEmbeddedAnimatedSvg } = await imp("animation/embed-namespace.ts");
const { generateAnimatedSvg } = await imp("animation/animator.ts");
const W = console.warn; console.warn = (...a: unknown[]): void => { if (!/Firefox/.test(String(a[0]))) W(...a); };

// ---- documents to embed ----
interface D { name: string; svg: string; P: number }
function hand(names: { kf: string[]; cls: string[]; ids: string[] }, P: number, extra = "", css = ""): string {
  const [k0, k1, k2] = names.kf, [c0, c1, c2] = names.cls, [i0, i1, i2] = names.ids, s = P / 1000;
  return `<?xml version="1.0"?>\n<svg xmlns="http://www.w3.org/2000/svg" xmlns:xlink="http://www.w3.org/1999/xlink" width="60" height="40" viewBox="0 0 60 40"><style>:root { --scene-dur: ${s}s; }
@keyframes ${k0} { 0% { opacity: 0; } 25% { opacity: 1; } 49.999% { opacity: 0.5; } 50% { opacity: 1; } 100% { opacity: 0.25; } }
@keyframes ${k1}{from{transform:translateX(0px) rotate(0deg)}60%,80%{transform:translateX(30px) rotate(90deg)}to{transform:translateX(5px) rotate(0deg)}}
@keyframes ${k2} { 0% { visibility: hidden; } 40% { visibility: visible; animation-timing-function: linear; } 100% { visibility: visible; } }
.${c0} { animation: ${k0} ${s}s linear infinite; fill: #f00; }
.${c1}.${c2} { animation: ${k1} ${s}s cubic-bezier(0.3, 0, 0.7, 1) infinite, ${k2} ${s}s step-end infinite; }
.${c2} > .${c1}, g.${c2} .${c0} { stroke: #00f; animation: ${k0} var(--scene-dur) linear infinite }
#${i0} { opacity: 0.75 } g#${i1} > rect { fill: #0f0 }
.${c1}-x { opacity: 0.5 } ${css}
</style><defs><linearGradient id="${i0}"><stop offset="0" stop-color="#f00"/></linearGradient><clipPath id='${i1}'><rect width="30" height="20"/></clipPath><g id="${i2}"><rect class="${c0}" width="5" height="5"/></g></defs>
<rect class="${c0}" width="20" height="10" fill="url(#${i0})"/><g class="${c1} ${c2}" clip-path="url('#${i1}')"><rect class="${c1}" width="3" height="3" style='fill: url("#${i0}"); stroke:#111'/><path class="${c0} ${c1}-x" d="M.5 1.5 L22.${c0.length} 3z"/></g>
<use href="#${i2}" x="3"/><use xlink:href='#${i2}' y="4"/><g style="animation:${k0} ${s}s linear infinite;opacity:0.9"><rect width="1" height="1" aria-labelledby="${i0} ${i2}"/></g>
<text aria-label="the .${c0} of ${k0} and #${i0} url(#${i0})" font-family="dmf0">${k0} .${c0} #${i0} url(#${i0}) ${k1}-${k2} id="${i0}" class="${c0}" animation: ${k0} 1s; --scene-dur font-family="dmf0" ${i1}</text>${extra}</svg>`;
}
const FREE = `<rect class="zz" width="2" height="2" style="animation: zfree 370ms linear infinite"/><rect width="2" height="2" class="mixed"/><rect width="2" height="2" class="once"/><rect width="2" height="2" class="alt"/><rect width="2" height="2" class="near"/>`;
const freeCss = (s: number): string => `@keyframes zfree { 0% { opacity: 0 } 100% { opacity: 1 } } @keyframes zmove { 0% { transform: translate(0px, 0px) } 100% { transform: translate(9px, 3px) } } .mixed { animation: zmove ${s}s linear infinite, zfree 370ms step-end infinite } .once { animation: zfree 500ms ease 300ms 2 both } .alt { animation: zfree ${s}s linear infinite alternate } .near { animation: zmove ${s * 0.95}s linear infinite }`;
// two embedded fonts: the same and other payloads, and the same payload under other descriptors
const fontCss = (i: number): string => [0, 1].map((k) => `@font-face { font-family: "dmf${k}"; font-style: normal; font-weight: ${i % 3 === 2 ? 700 : 400}; src: url("data:font/ttf;base64,${["AAAA", "BBBB", "CCCC"][(k + (i >> 1)) % 3]}"); }`).join("\n");
const FONTS = `<text font-family="dmf1">one</text><text style='font-family: "dmf1"; fill:#123'>two</text><text x="1" font-family="dmf0" font-size="9">dmf1 font-family="dmf1"</text>`;
const NAMES = [
  { kf: ["fv-0", "fd-0", "f0-x-0"], cls: ["f", "f-0", "anim-a"], ids: ["viewport-clip", "f0-bg0", "g1"] },
  { kf: ["a0", "clipa", "a1"], cls: ["layer", "clipper", "l"], ids: ["clip", "rclip", "c"] },
  { kf: ["rotate", "opacity", "linear-1"], cls: ["rect", "fill", "g"], ids: ["rect", "fill", "a-b"] },
  { kf: ["a", "a-b", "b"], cls: ["a", "a-b", "b"], ids: ["a", "a-b", "b"] },
  { kf: ["c0_a0", "c1_a0", "c0_c0_a0"], cls: ["c0_layer", "c1_layer", "c0_clipper"], ids: ["c0_clip", "c1_clip", "c0_rclip"] },
  { kf: ["-k", "_k", "k"], cls: ["_x", "-x", "x"], ids: ["_i", "-i", "i.j".replace(".", "_")] },
];
const A = (extra: Record<string, unknown>): Record<string, unknown> => ({ animName: "m0", animClass: "anim-m", animId: "m0", property: "opacity", from: "0", to: "1", duration: 300, delay: 100, easing: "ease-in", ...extra });
const box = (id: string): string => `<defs><clipPath id="cp"><rect width="9" height="9"/></clipPath></defs><rect id="r" class="${id}" width="120" height="80" fill="#ccc" clip-path="url(#cp)"/><rect class="anim-m0" x="5" y="5" width="20" height="10"/>`;
function docs(thorough: boolean): D[] {
  const out: D[] = [];
  NAMES.forEach((n, i) => out.push({ name: `hand ${i} ${n.kf[0]}`, svg: hand(n, 1600, FONTS, fontCss(i)), P: 1600 }));
  out.push({ name: "hand free-running", svg: hand(NAMES[0], 1600, FREE, freeCss(1.6)), P: 1600 });
  for (const types of thorough ? [["crossfade", "cut", "push-left"], ["wipe", "iris", "zoom-in"], ["magic-move", "custom:a", "scroll"], ["shine", "custom:b", "cut"], ["wipe-clock", "zoom-out", "absent"]] : [["crossfade", "cut", "push-left"], ["wipe", "custom:a", "zoom-in"]]) {
    const s: Seq = { types, durs: [300, 200, 250], trs: [150, 100, 120] };
    out.push({ name: `frames ${seqKey(s)}`, svg: render(s), P: schedule(s).P });
  }
  const frames = (extra: Record<string, unknown>): Array<Record<string, unknown>> => [{ svgContent: box("p"), duration: 400, transition: { type: "crossfade", duration: 100 } }, { svgContent: box("q"), duration: 500, transition: { type: "cut", duration: 0 }, ...extra }];
  const E: Array<[string, Record<string, unknown>]> = [
    ["typing", { overlays: [{ kind: "typing", text: "fv-0 .f", x: 5, y: 20, fontSize: 12, color: "#000", speed: 20, delay: 50 }] }],
    ["tap blink shine", { overlays: [{ kind: "tap", x: 20, y: 30, delay: 100 }, { kind: "blink", x: 5, y: 5, width: 2, height: 10, color: "#000", delay: 100 }, { kind: "shine", x: 5, y: 5, width: 40, height: 20, delay: 100 }] }],
    ["one-shot", { animations: [A({}), A({ property: "translateX", from: "0px", to: "30px", animId: "m1" })] }],
    ["repeating", { animations: [A({ repeat: "infinite", alternate: true })] }],
  ];
  for (const [name, extra] of E) out.push({ name: `generated ${name}`, svg: generateAnimatedSvg({ width: 120, height: 80, frames: frames(extra) } as never) as string, P: 1000 });
  // a composite of two, itself embedded
  const inner = composeAnimatedLayers([{ svg: out[0].svg, periodMs: 1600, start: 200 }, { svg: out[1].svg, periodMs: 1600, clip: true, animations: [{ property: "opacity", from: 0, to: 1, start: 300, duration: 400 }, { property: "clipScaleX", from: 0.5, to: 1, start: 300, duration: 400 }] }], { width: 80, height: 60 }) as { svg: string; durationMs: number };
  out.push({ name: "composite", svg: inner.svg, P: inner.durationMs });
  return out;
}

// ---- comparison ----
type Local = (t: number) => number | null;
const REF = /url\(\s*(['"]?)#([^'")]+)\1\s*\)/g;
interface Pair { a: XNode; e: XNode }
function pairs(ctx: { bad: (w: string) => void }, ar: XNode, er: XNode): Pair[] | null {
  const as = [...walk(ar)].slice(1), es = [...walk(er)].slice(1);
  if (as.length !== es.length) { ctx.bad(`${as.length} elements became ${es.length}`); return null; }
  return as.map((a, i) => ({ a, e: es[i] }));
}
const face = (d: SvgDoc, fam: string): string => {
  for (const f of d.css.fontFaces) if ((f.find((x) => x.prop === "font-family")?.value ?? "").replace(/["']/g, "") === fam.replace(/["']/g, "").split(",")[0].trim()) return f.filter((x) => x.prop !== "font-family").map((x) => `${x.prop}:${x.value}`).join(";");
  return "";
};
const free = (a: { dur: number; iter: number; dir: string; delay: number }, P: number): boolean => !(Math.abs(a.dur - P) <= Math.max(20, P * 0.01) && a.iter === Infinity && a.dir === "normal" && a.delay === 0);

/** everything in `pr` shows in `ed` at host time what it shows in `ad` at local time */
function same(ctx: Ctx, bad: (w: string) => void, ad: SvgDoc, ed: SvgDoc, pr: Pair[], P: number, local: (t: number) => number, times: number[], eps: number, keepFonts: boolean): void {
  const toE = new Map(pr.map((p) => [p.a, p.e]));
  let failed = false;
  const fail = (w: string): void => { failed = true; bad(w); };
  const target = (d: SvgDoc, id: string): XNode | undefined => d.ids.get(id);
  const refsAgree = (what: string, av: string, ev: string): void => {
    const ra = [...av.matchAll(REF)], re = [...ev.matchAll(REF)];
    if (av.replace(REF, "@") !== ev.replace(REF, "@")) return fail(`${what}: "${av.slice(0, 80)}" became "${ev.slice(0, 80)}"`);
    ra.forEach((m, i) => { const t = target(ad, m[2]); if (t != null && toE.get(t) !== target(ed, re[i][2])) fail(`${what}: reference ${m[0]} became ${re[i][0]}, which is another element`); });
  };
  const kfs = (k: KF[] | undefined): number => k?.length ?? -1;
  for (const { a, e } of pr) {
    if (failed) return;
    if (a.tag !== e.tag) return fail(`<${a.tag}> became <${e.tag}>`);
    if (a.tag !== "style" && a.text !== e.text) return fail(`text "${a.text.slice(0, 80)}" became "${e.text.slice(0, 80)}"`);
    for (const k of new Set([...a.attrs.keys(), ...e.attrs.keys()])) {
      const av = a.attrs.get(k), ev = e.attrs.get(k);
      if (k === "style" || k === "class") { if ((av == null) !== (ev == null)) fail(`${k} of <${a.tag}>`); continue; }
      if (av == null || ev == null) { fail(`attribute ${k} of <${a.tag}>: ${av} became ${ev}`); continue; }
      if (k === "id") { if (target(ed, ev) !== e) fail(`id ${av} became ${ev}, which another element has too`); continue; }
      if (k === "href" || k === "xlink:href") { if (av.startsWith("#")) { const t = target(ad, av.slice(1)); if (t != null && toE.get(t) !== target(ed, ev.slice(1))) fail(`${k} ${av} became ${ev}`); } else if (av !== ev) fail(`${k} changed`); continue; }
      if (k === "aria-labelledby" || k === "aria-describedby") { av.split(/\s+/).forEach((id, i) => { const t = target(ad, id); if (t != null && toE.get(t) !== target(ed, ev.split(/\s+/)[i])) fail(`${k} ${av} became ${ev}`); }); continue; }
      if (k === "font-family") { if (face(ad, av) !== face(ed, ev) || (keepFonts && av !== ev)) fail(`font-family ${av} became ${ev}`); continue; }
      if (k === "aria-label" ? av !== ev : (refsAgree(`${k} of <${a.tag}>`, av, ev), false)) fail(`${k} "${av.slice(0, 60)}" became "${ev.slice(0, 60)}"`);
    }
    if (classes(a).length !== classes(e).length) fail(`class ${a.attrs.get("class")} became ${e.attrs.get("class")}`);
    // what the style sheets say about it
    const da = ad.decls(a), de = ed.decls(e);
    for (const p of new Set([...da.keys(), ...de.keys()])) {
      if (p.startsWith("animation") || p.startsWith("--")) continue;
      if (p === "font-family") { if (face(ad, da.get(p) ?? "") !== face(ed, de.get(p) ?? "")) fail(`font-family of <${a.tag}>`); continue; }
      refsAgree(`${p} of <${a.tag} class="${a.attrs.get("class")}">`, da.get(p) ?? "", de.get(p) ?? "");
    }
    const aa = ad.animations(a), ea = ed.animations(e);
    if (aa.length !== ea.length) { fail(`<${a.tag}> has ${ea.length} animations instead of ${aa.length}`); continue; }
    aa.forEach((x, i) => { if ((kfs(ad.keyframes(x.name)) < 0) !== (kfs(ed.keyframes(ea[i].name)) < 0)) fail(`animation ${x.name} became ${ea[i].name}`); });
  }
  if (failed) return;
  // what it shows
  for (const { n, props } of animated(ad)) {
    const e = toE.get(n);
    if (e == null) continue;
    for (const p of props) {
      // which of its animations decides: on the document's clock, or its own
      const on = ad.animations(n).filter((x) => (ad.keyframes(x.name) ?? []).some((k) => k.decls.has(p)));
      const own = on.length > 0 && on.every((x) => free(x, P));
      if (!own && on.some((x) => free(x, P))) continue; // both at once: not this property's question
      for (const t of times) {
        ctx.step();
        const at = own ? t : local(t), got = ed.value(e, p, t) ?? "";
        const want = [0, -1, 1, -0.5, 0.5, -0.2, 0.2, -0.05, 0.05].map((d) => ad.value(n, p, own ? Math.max(0, at + d * eps) : Math.min(P - 1e-7, Math.max(0, at + d * eps))) ?? "");
        if (!own) for (const x of on) for (const k of ad.keyframes(x.name)!) if (k.decls.has(p) && Math.abs(k.at * P - at) <= eps) want.push(k.decls.get(p)!);
        if (!own && (at < eps || at > P - eps)) for (const d of [0, eps, -1e-7, -eps]) want.push(ad.value(n, p, (P + d) % P) ?? "");
        if (!agrees(p, got, want, (q) => range(ad, n, p, q))) { fail(`at ${t.toFixed(2)} ms <${n.tag} class="${n.attrs.get("class") ?? ""}"> ${p} is ${got}; alone at ${at.toFixed(2)} ms it shows ${want.slice(0, 3).join(" / ")}`); return; }
      }
    }
  }
}
function stopsOf(d: SvgDoc): number[] {
  const s = new Set<number>([0, 1]);
  for (const k of d.css.keyframes.values()) for (const f of k) s.add(f.at);
  return [...s].sort((a, b) => a - b);
}
/** instants on, beside and between everything that turns */
function instants(d: SvgDoc, P: number, start: number, scale: number, master: number, laps: number): number[] {
  const base = stopsOf(d).map((f) => start + f * P * scale), at = new Set<number>();
  const thin = Math.max(1, Math.ceil(base.length / 14));
  base.forEach((b, i) => { if (i % thin === 0 || i === base.length - 1) { for (const x of [-2, 0, 2]) at.add(b + x); if (i + 1 < base.length) at.add((b + base[i + 1]) / 2); } });
  for (const x of [0, start / 2, start * 0.9, (start + P * scale + master) / 2, master - 1]) at.add(x);
  const one = [...at].filter((t) => t >= 0 && t < master);
  return laps > 1 ? [...one, ...one.filter((_, i) => i % 3 === 0).map((t) => t + master)] : one;
}

interface Place { start: number; mode: "hold" | "stretch" | "loop"; duration?: number; durationMs?: number }
function localOf(pl: Place, P: number, master: number): (t: number) => number {
  if (pl.mode === "loop") return (t) => (t < pl.start ? 0 : (t - pl.start) % P);
  const win = pl.mode === "stretch" ? pl.duration ?? P : P;
  return (t) => Math.min(P, Math.max(0, ((t % master) - pl.start) * (P / win)));
}

export default defineCheck({
  shards: 8,
  spec: {
    id: "A05",
    bounds: "documents: hand-written with six families of clashing names in every construct that names something, generated scenes of frames, overlays and frame animations, a composite; embedded as one to three layers with starts 0/137/one period, hold, stretch x0.25/x0.5/x3, loop, master lengths from shorter than the window to 200 times the period, and as frames of a host scene; every stop, 2 ms beside it and between, second host period",
    assumptions: ["lib/player.ts evaluates CSS animations as a browser does", "animations that do not run on the document's own period keep their own clock (documented)", "layer animations: one transform, both box scalings with one window (documented)"],
  },
  run(ctx, sh) {
    const all = docs(ctx.thorough);
    let job = 0;
    const mine = (): boolean => job++ % sh.n === sh.i;
    const report = (key: string, svg: unknown) => (w: string): void => ctx.fail(key.replace(/ \|.*/, ""), `${key}: ${w}`, svg);

    // --- renaming by itself, and beside a host with the same names ---
    for (const d of all) for (const token of ["e1_", "tf0_", "x"]) for (const fonts of [true, false]) {
      if (!mine()) continue;
      const key = `rename ${d.name} ${token}${fonts ? "" : " shared fonts"}`, bad = report(key, { svg: d.svg, token });
      const src = d.svg.includes("@font-face") ? d.svg : d.svg.replace("</style>", '@font-face { font-family: "dmf0"; src: url(data:font/ttf;base64,AAAA) }</style>');
      let ad: SvgDoc, ed: SvgDoc;
      const host = src.replace(/^<\?xml[^>]*\?>\s*/, "");
      const ns = (namespaceEmbeddedAnimatedSvg(src, token, { namespaceFonts: fonts }) as string).replace(/^<\?xml[^>]*\?>\s*/, "");
      ctx.trace();
      try { ad = new SvgDoc(src); ed = new SvgDoc(host.replace(/<\/svg>\s*$/, `${ns}</svg>`)); } catch (e) { bad(`not well-formed: ${(e as Error).message}`); continue; }
      if (ed.dupIds.length > 0) { bad(`ids used twice: ${ed.dupIds}`); continue; }
      const inner = ed.root.children[ed.root.children.length - 1];
      const pr = pairs({ bad }, ad.root, inner);
      if (pr == null) continue;
      const ts = instants(ad, d.P, 0, 1, d.P, 2);
      same(ctx, bad, ad, ed, pr, d.P, (t) => t % d.P, ts, 0.05, !fonts);
      // the host is none the wiser
      const hp = [...walk(ad.root)].slice(1), he = [...walk(ed.root)].slice(1, 1 + hp.length);
      same(ctx, (w) => bad(`host: ${w}`), ad, ed, hp.map((a, i) => ({ a, e: he[i] })), d.P, (t) => t % d.P, ts, 0.05, true);
      ctx.state(key);
    }

    // --- layers ---
    const L = (d: D, pl: Place, i: number, box2: { x: number; y: number; width?: number; height?: number; clip?: boolean }): Record<string, unknown> => ({ svg: d.svg, periodMs: d.P, start: pl.start, mode: pl.mode, ...(pl.duration != null ? { duration: pl.duration } : {}), ...box2, label: `l${i}` });
    const layers = (key: string, list: Array<{ d: D; pl: Place }>, durationMs?: number): void => {
      const bad = report(key, { layers: list.map((x) => ({ name: x.d.name, ...x.pl })), durationMs });
      ctx.trace();
      const out = composeAnimatedLayers(list.map((x, i) => L(x.d, x.pl, i, { x: 10 * i, y: 5 * i, ...(i === 1 ? { width: 30, height: 20, clip: true } : {}) })), { width: 200, height: 120, ...(durationMs != null ? { durationMs } : {}) }) as { svg: string; durationMs: number };
      let ed: SvgDoc;
      try { ed = new SvgDoc(out.svg); } catch (e) { return bad(`not well-formed: ${(e as Error).message}`); }
      for (const e of ed.css.errors) bad(`css ${e}`);
      if (ed.dupIds.length > 0) return bad(`ids used twice: ${ed.dupIds}`);
      const nested = ed.root.children.filter((n) => n.tag === "g");
      if (nested.length !== list.length) return bad(`${nested.length} layers instead of ${list.length}`);
      list.forEach((x, i) => {
        const ad = new SvgDoc(x.d.svg);
        let n = nested[i];
        while (n.tag !== "svg") { if (n.children.length !== 1) return bad(`layer ${i} wrapper`); n = n.children[0]; }
        const pr = pairs({ bad }, ad.root, n);
        if (pr == null) return;
        const scale = x.pl.mode === "stretch" ? (x.pl.duration ?? x.d.P) / x.d.P : 1;
        const eps = (0.06 + out.durationMs * 2e-6) / Math.min(1, scale);
        same(ctx, (w) => bad(`layer ${i} ${x.d.name}: ${w}`), ad, ed, pr, x.d.P, localOf(x.pl, x.d.P, out.durationMs), instants(ad, x.d.P, x.pl.start, scale, out.durationMs, x.pl.mode === "loop" ? 1 : 2), eps, false);
      });
      ctx.state(key);
    };
    const places = (P: number): Place[] => [0, 137, P].flatMap((start): Place[] => [{ start, mode: "hold" }, { start, mode: "loop" }, { start, mode: "stretch", duration: P / 4 }, { start, mode: "stretch", duration: P / 2 }, { start, mode: "stretch", duration: P * 3 }, { start, mode: "stretch" }]);
    for (const d of all) for (const pl of places(d.P)) {
      const end = pl.start + (pl.mode === "stretch" ? pl.duration ?? d.P : d.P);
      for (const master of [undefined, Math.round(end * 0.6), end + 333, d.P * 10, d.P * 200]) {
        if (!mine()) continue;
        layers(`one layer ${d.name} ${pl.mode}${pl.duration != null ? ` ${pl.duration}` : ""} from ${pl.start}${master != null ? ` in ${master}` : ""}`, [{ d, pl }], master);
      }
    }
    for (const d of all) for (const e of all) {
      const combos: Array<[Place, Place]> = [[{ start: 0, mode: "hold" }, { start: 250, mode: "hold" }], [{ start: 400, mode: "loop" }, { start: 0, mode: "stretch", duration: 700 }]];
      for (const [p, q] of combos) { if (!mine()) continue; layers(`two layers ${d.name} ${p.mode}, ${e.name} ${q.mode}`, [{ d, pl: p }, { d: e, pl: q }]); }
    }
    for (const d of all.slice(0, ctx.thorough ? 99 : 6)) { if (!mine()) continue; layers(`three of ${d.name}`, [{ d, pl: { start: 0, mode: "hold" } }, { d, pl: { start: 200, mode: "hold" } }, { d, pl: { start: 500, mode: "loop" } }]); }

    // --- frames of a host scene ---
    const inFrames = (key: string, list: Array<D | null>, durs: number[], tr: number): void => {
      const bad = report(key, { frames: list.map((x) => x?.name ?? null), durs, tr });
      ctx.trace();
      const svg = generateAnimatedSvg({ width: 120, height: 80, frames: list.map((d, i) => ({
        svgContent: d == null ? box(`h${i}`) : (namespaceEmbeddedAnimatedSvg(d.svg, `tf${i}_`) as string).replace(/^<\?xml[^>]*\?>\s*/, ""), duration: durs[i],
        transition: { type: tr > 0 ? "crossfade" : "cut", duration: tr }, ...(d != null ? { embeddedAnimationPeriodMs: d.P } : {}) })) } as never) as string;
      let ed: SvgDoc;
      try { ed = new SvgDoc(svg); } catch (e) { return bad(`not well-formed: ${(e as Error).message}`); }
      if (ed.dupIds.length > 0) return bad(`ids used twice: ${ed.dupIds}`);
      const master = durs.reduce((s, x) => s + x + tr, 0);
      let at = 0;
      list.forEach((d, i) => {
        if (d != null) {
          const ad = new SvgDoc(d.svg), g = [...walk(ed.root)].find((n) => classes(n).includes(`f-${i}`));
          const n = g == null ? undefined : [...walk(g)].find((x) => x.tag === "svg");
          if (n == null) bad(`frame ${i} is missing`);
          else {
            const pr = pairs({ bad }, ad.root, n);
            if (pr != null) {
              const shown = durs[i] + 2 * tr, start = at;
              const ts = instants(ad, d.P, start, 1, master, 2).filter((t) => { const x = (t % master) - start; return x >= -tr && x < shown; });
              same(ctx, (w) => bad(`frame ${i} ${d.name}: ${w}`), ad, ed, pr, d.P, localOf({ start, mode: "hold" }, d.P, master), ts, 0.06 + master * 2e-6, false);
            }
          }
        }
        at += durs[i] + tr;
      });
      ctx.state(key);
    };
    for (const d of all) for (const tr of [0, 120]) for (const [name, durs] of [["whole", [500, d.P, 400]], ["longer", [500, d.P + 333, 400]], ["shorter", [500, d.P * 0.6, 400]]] as Array<[string, number[]]>) for (const at of [0, 1, 2]) {
      if (!mine()) continue;
      const list: Array<D | null> = [null, null, null];
      list[at] = d;
      const ds = [500, 300, 400]; ds[at] = durs[1];
      inFrames(`frame ${at} ${d.name} ${name} ${tr}`, list, ds, tr);
    }
    for (const d of all) for (const e of all.slice(0, ctx.thorough ? 99 : 4)) { if (!mine()) continue; inFrames(`frames ${d.name}, ${e.name}`, [d, null, e, d], [d.P, 200, e.P, d.P], 100); }

    // --- what a layer does as a whole ---
    const still: D = { name: "still", svg: '<svg xmlns="http://www.w3.org/2000/svg" width="60" height="40"><rect id="clip" class="layer" width="60" height="40"/></svg>', P: 0 };
    const props: Array<[string, string | number, string | number, (v: number) => string, string]> = [
      ["opacity", 0.2, 1, (p) => String(0.2 + 0.8 * p), "opacity"], ["translateX", 0, 40, (p) => `translateX(${40 * p}px)`, "transform"], ["translateY", "-10px", "20px", (p) => `translateY(${-10 + 30 * p}px)`, "transform"],
      ["scale", 1, 0.5, (p) => `scale(${1 - 0.5 * p})`, "transform"], ["transform", "translate(0px,0px) scale(1)", "translate(9px,4px) scale(2)", (p) => `translate(${9 * p}px,${4 * p}px) scale(${1 + p})`, "transform"],
      ["clipScaleX", 1, 0.6, (p) => `scale(${1 - 0.4 * p},1)`, "clip"], ["clipScaleY", 0.3, 1, (p) => `scale(1,${0.3 + 0.7 * p})`, "clip"],
    ];
    for (const [prop, from, to, at, where] of props) for (const ease of [undefined, "linear", "cubic-bezier(0.3, 0, 0.2, 1)", "steps(4, end)", "step-end"]) for (const [start, duration, master] of [[undefined, undefined, 1000], [0, 400, 1000], [250, 400, 1000], [600, 400, 1000], [250, undefined, 1000], [300, 100, 60000], [0, 1000, 1000], [250, 400, undefined], [700, 600, 1000], [500, 1, 90000]] as Array<[number | undefined, number | undefined, number | undefined]>) for (const clip of [false, true]) {
      if (!mine()) continue;
      const key = `layer ${prop} ${ease ?? "default"} ${start ?? "-"}+${duration ?? "-"} in ${master ?? "-"}${clip ? " clipped" : ""}`, bad = report(key, { prop, from, to, start, duration, master, clip });
      ctx.trace();
      const anim = { property: prop, from, to, ...(start != null ? { start } : {}), ...(duration != null ? { duration } : {}), ...(ease != null ? { easing: ease } : {}) };
      const second = where === "transform" ? [{ property: "opacity", from: 1, to: 0.5, start: 100, duration: 50 }] : [];
      const out = composeAnimatedLayers([{ svg: still.svg, x: 5, y: 7 }, { svg: still.svg, x: 20, y: 30, clip, clipRadius: 4, animations: [anim, ...second] }], { width: 200, height: 120, ...(master != null ? { durationMs: master } : {}) }) as { svg: string; durationMs: number };
      let d: SvgDoc;
      try { d = new SvgDoc(out.svg); } catch (e) { bad(`not well-formed: ${(e as Error).message}`); continue; }
      if (d.dupIds.length > 0) { bad(`ids used twice: ${d.dupIds}`); continue; }
      const g = d.root.children.filter((n) => n.tag === "g")[1];
      let n: XNode | undefined = g, p: string = where;
      if (where === "clip") { const m = /url\(#([^)]+)\)/.exec(d.decls(g).get("clip-path") ?? g.attrs.get("clip-path") ?? ""); n = m == null ? undefined : d.ids.get(m[1])?.children[0]; p = "transform"; }
      if (n == null) { bad("nothing to scale"); continue; }
      const M = out.durationMs, s = start ?? 0, len = duration ?? M - s, e = easing(ease ?? "ease")!;
      const prog = (t: number): number => { const q = (t - s) / len; return q < 0 ? 0 : q >= 1 ? 1 : e(q); };
      const eps = 0.06 + M * 2e-6, ts = new Set<number>([0, M - 1]);
      for (const q of [0, 0.25, 0.5, 0.75, 1]) for (const x of [-2, 0, 2, len * 0.1]) ts.add(s + q * len + x);
      for (const t0 of ts) for (const t of [t0, t0 + M]) {
        if (t0 < 0 || t0 >= M) continue;
        ctx.step();
        const want = [0, -1, 1].map((k) => at(prog(t0 + k * eps)));
        if (t0 < eps) want.push(at(prog(M - 1e-6)));
        const got = d.value(n, p, t) ?? "";
        if (!agrees(p, got, want, (q) => 40 * (q >= 0 ? 1 : 1))) { bad(`at ${t.toFixed(2)} ms ${p} is ${got}, should be ${want[0]}`); break; }
      }
      // pivots on the edge it was given, or its own corner
      const org = (d.decls(n).get("transform-origin") ?? "").split(/\s+/).map(parseFloat);
      if (where === "clip" && (Math.abs(org[0] - 20) > 0.01 || Math.abs(org[1] - 30) > 0.01)) bad(`box scales about ${org}`);
      ctx.state(key);
    }
    // box scalings keep the edge they are given where it is
    const edge: Record<string, number> = { left: 0, top: 0, center: 0.5, right: 1, bottom: 1, "25%": 0.25, "-10%": -0.1, "100%": 1 };
    for (const ox of [undefined, "left", "center", "right", "25%", "100%", "12px", "-3.5px"]) for (const oy of [undefined, "top", "center", "bottom", "25%", "-10%", "9px"]) for (const [x, y] of [[20, 30], [0, 0], [-15.5, 7]]) for (const size of [undefined, { width: 90, height: 31 }]) {
      if (!mine()) continue;
      const key = `pivot ${ox ?? "-"} ${oy ?? "-"} at ${x},${y}${size ? " sized" : ""}`, bad = report(key, { ox, oy, x, y, size });
      ctx.trace();
      const out = composeAnimatedLayers([{ svg: still.svg }, { svg: still.svg, x, y, ...size, animations: [{ property: "clipScaleX", from: 1, to: 0.5, start: 100, duration: 300, ...(ox ? { transformOrigin: ox } : {}) }, { property: "clipScaleY", from: 1, to: 0.25, start: 100, duration: 300, ...(oy ? { transformOrigin: oy } : {}) }] }], { width: 200, height: 120, durationMs: 1000 }) as { svg: string };
      const d = new SvgDoc(out.svg), g = d.root.children.filter((n) => n.tag === "g")[1];
      const m = /url\(#([^)]+)\)/.exec(d.decls(g).get("clip-path") ?? g.attrs.get("clip-path") ?? ""), n = m == null ? undefined : d.ids.get(m[1])?.children[0];
      if (n == null) { bad("nothing to scale"); continue; }
      const w = size?.width ?? 60, h = size?.height ?? 40, at = (o: string | undefined, len: number): number => (o == null ? 0 : o in edge ? edge[o] * len : parseFloat(o));
      const org = (d.decls(n).get("transform-origin") ?? "").split(/\s+/).map(parseFloat), want = [x + at(ox, w), y + at(oy, h)];
      if (Math.abs(org[0] - want[0]) > 0.01 || Math.abs(org[1] - want[1]) > 0.01 || d.decls(n).get("transform-box") === "fill-box") bad(`box scales about ${org} instead of ${want}`);
      ctx.state(key);
    }
  },
});
