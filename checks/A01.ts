import { defineCheck } from "../lib/check.ts";
import { T, PARAMS, schedule, render, seqKey, offsets, tol, view, isRest, SvgDoc, type Seq } from "../lib/frames.ts";

function* space(thorough: boolean): Generator<Seq> {
  const names = T.map((t) => t.name);
  for (const a of names) yield { types: [a], durs: [700], trs: [400] };
  for (const a of names) for (const b of names) {
    yield { types: [a, b, "crossfade"], durs: [1000, 500, 900], trs: [400, 250, 300] };
    yield { types: [a, b], durs: [37, 1200], trs: [150, 600] };
    if (thorough) {
      yield { types: ["cut", a, b], durs: [20000, 800, 30000], trs: [0, 300, 500] };
      yield { types: [a, b, "cut"], durs: [1000, 50, 900], trs: [90, 0, 300] };
    }
  }
  for (const p of PARAMS) {
    for (const b of thorough ? names : ["crossfade", "push-up", "cut"]) yield { types: [p, b, "crossfade"], durs: [600, 500, 900], trs: [400, 250, 300] };
    yield { types: ["zoom-in", p, "wipe"], durs: [600, 500, 900], trs: [400, 250, 300] };
  }
  for (const a of names) {
    yield { types: [a, a], durs: [600, 600], trs: [300, 300], loopFade: true };
    yield { types: [a, "cut", a, "cut"], durs: [333, 334, 335, 336], trs: [77, 0, 78, 0] };
    yield { types: [a, a], durs: [500, 500], trs: [0, 0] };
  }
  if (thorough) for (const a of names) for (const b of names) for (const c of names) yield { types: [a, b, c, "absent"], durs: [400, 350, 300, 600], trs: [200, 333, 250, 300] };
}

export default defineCheck({
  shards: 8,
  spec: {
    id: "A01",
    bounds: "all single frames, all ordered pairs and (thorough) all ordered triples of 31 transition variants and every parametrised variant (angles in steps of 15°, origin grids, both directions) next to each, x fixed duration patterns incl. 0-ms, 20-s and loopFade; every keyframe region of the emitted document is visited (offsets, both sides, midpoints)",
    assumptions: ["the independent player lib/player.ts implements CSS animation semantics of the subset the composer emits", "boundaries carry a tolerance of 0.012 % of the period + 6 ms (the emitted percentages have 2 decimals, the period 10-ms resolution)"],
  },
  run(ctx, sh) {
    let n = 0;
    for (const s of space(ctx.thorough)) {
      if (n++ % sh.n !== sh.i) continue;
      const key = seqKey(s);
      const { wins, P } = schedule(s);
      const svg = render(s);
      const doc = new SvgDoc(svg);
      ctx.trace();
      const bad = (k: string, msg: string): void => ctx.fail(`${s.types.join(">")}:${k}`, `${key}: ${msg}`, { seq: s });
      // the period every track runs on
      for (const e of doc.css.errors) bad("css", e);
      const el = tol(P);
      const durs = new Set<number>();
      for (const r of doc.css.rules) for (const d of r.decls) if (d.prop === "animation") for (const m of d.value.matchAll(/([\d.]+)s\b/g)) durs.add(Number(m[1]) * 1000);
      for (const d of durs) if (Math.abs(d - P) > 5.01) bad("period", `a track runs ${d} ms, the schedule says ${P}`);
      // regions
      const offs = offsets(doc, P);
      const ts = new Set<number>();
      for (let k = 0; k < offs.length; k++) {
        ts.add(offs[k]);
        ts.add(Math.min(P, offs[k] + 0.3)); ts.add(Math.max(0, offs[k] - 0.3));
        if (k + 1 < offs.length) { ts.add((offs[k] + offs[k + 1]) / 2); }
      }
      for (const w of wins) { ts.add(w.start + el + 0.1); ts.add(w.holdEnd - el - 0.1); ts.add((w.start + w.holdEnd) / 2); }
      for (let lap = 0; lap < 2; lap++) for (const t0 of [...ts].sort((a, b) => a - b)) {
        if (lap === 1 && !(t0 < wins[0].holdEnd || t0 > P - 700)) continue;
        const t = lap * P + t0;
        ctx.step();
        const i = wins.findIndex((w, j) => t0 > w.start + el && t0 < (j === wins.length - 1 && s.loopFade !== true && s.types[j] !== "x" ? P : w.holdEnd) - el);
        if (i < 0) continue;
        const vs = view(doc, t);
        const z = vs.map((v) => `${v.i}${isRest(v) == null ? "r" : "m"}`).join("");
        ctx.state(`${key}|${i}|${t0.toFixed(2)}|${z}`);
        ctx.outcome(z);
        const me = vs.filter((v) => v.i === i);
        if (me.length !== 1) { bad(`gone${i}`, `t=${t} frame ${i} is held but is painted ${me.length} times (others: ${z})`); continue; }
        const r = isRest(me[0]);
        if (r != null) bad(`rest${i}`, `t=${t} frame ${i} is held but not at rest: ${r}`);
        const other = vs.find((v) => v.i !== i);
        if (other != null) bad(`other${i}`, `t=${t} frame ${i} is held but frame ${other.i} also paints (opacity ${other.leaf.opacity.toFixed(3)})`);
      }
      ctx.sample({ seq: key, period: P, regions: ts.size });
    }
  },
});
