import { defineCheck } from "../lib/check.ts";
import { T, PARAMS, W, H, PTS, byName, schedule, render, seqKey, offsets, tol, view, SvgDoc, easing, type Seq, type TDef, type FrameView } from "../lib/frames.ts";

function* space(thorough: boolean): Generator<Seq> {
  const names = T.map((t) => t.name);
  for (const a of names) for (const b of names) {
    yield { types: [a, b, "crossfade"], durs: [1000, 500, 900], trs: [400, 250, 300] };
    yield { types: ["push-left", a, b, "cut"], durs: [300, 800, 600, 500], trs: [240, 1000, 320, 0] };
    if (thorough) {
      yield { types: ["wipe", a, b], durs: [20000, 800, 30000], trs: [500, 900, 500] };
      yield { types: ["zoom-in", a, b], durs: [400, 60, 500], trs: [100, 200, 500] };
    }
  }
  for (const p of PARAMS) for (const b of thorough ? names : ["crossfade", "push-up", "cut"]) yield { types: [p, b, "crossfade"], durs: [600, 500, 900], trs: [400, 250, 300] };
  if (thorough) for (const a of names) for (const b of names) for (const c of names) yield { types: [a, b, c, "absent"], durs: [400, 350, 300, 600], trs: [200, 333, 250, 300] };
}
/** ideal progress of the revealed set for reveal transitions: does (x,y) lie in the shape at progress f? margin>0 shrinks/grows */
function inShape(d: TDef["inn"], f: number, x: number, y: number): boolean {
  if (d.shape === "linear") {
    const a = (d.angle ?? 0) * Math.PI / 180, dx = Math.cos(a), dy = Math.sin(a);
    const vs = [[0, 0], [W, 0], [W, H], [0, H]].map(([px, py]) => px * dx + py * dy);
    const lo = Math.min(...vs), hi = Math.max(...vs);
    return x * dx + y * dy <= lo + f * (hi - lo);
  }
  const cx = (d.cx ?? 0.5) * W, cy = (d.cy ?? 0.5) * H;
  if (d.shape === "iris") {
    const r = Math.max(Math.hypot(cx, cy), Math.hypot(W - cx, cy), Math.hypot(cx, H - cy), Math.hypot(W - cx, H - cy));
    return Math.hypot(x - cx, y - cy) <= f * r;
  }
  let ang = Math.atan2(x - cx, -(y - cy)) * 180 / Math.PI - (d.start ?? 0);
  if (d.ccw === true) ang = -ang;
  ang = ((ang % 360) + 360) % 360;
  return ang <= f * 360;
}
const off = (v: FrameView | undefined): [number, number] => (v == null ? [NaN, NaN] : [v.leaf.m[4], v.leaf.m[5]]);

export default defineCheck({
  shards: 8,
  spec: {
    id: "A02",
    bounds: "every boundary of all ordered pairs and (thorough) triples of 31 transition variants and every parametrised variant (angles in steps of 15°, origin grids, both directions) before each, x fixed durations; 11 equally spaced instants plus every emitted keyframe offset inside each transition window, 25 viewport points each",
    assumptions: ["lib/player.ts implements the CSS animation subset", "boundary tolerance 0.012 % of the period + 6 ms; a slide-in frame whose own exit is a fade may enter by a fade instead (documented in docs/88)", "fades must only be monotone with exact end states (their easing is the engine default)"],
  },
  run(ctx, sh) {
    let n = 0;
    for (const s of space(ctx.thorough)) {
      if (n++ % sh.n !== sh.i) continue;
      const key = seqKey(s);
      const { wins, P } = schedule(s);
      const doc = new SvgDoc(render(s));
      ctx.trace();
      const el = tol(P);
      const offs = offsets(doc, P);
      for (let i = 0; i + 1 < wins.length; i++) {
        const o = byName(s.types[i]);
        // a last frame has nothing to bridge to: magic-move there fades like an unbridged one
        const nx = byName(i + 2 === s.types.length && s.types[i + 1] === "magic:b" ? "magic-move" : s.types[i + 1]);
        const { holdEnd, end, tr } = wins[i];
        const pair = `${i > 0 ? `${s.types[i - 1]}>` : ""}[${o.name}]>${nx.name}`;
        const bad = (k: string, msg: string): void => ctx.fail(`${o.name}>${nx.name}:${k}`, `${key} boundary ${i} ${pair}: ${msg}`, { seq: s, boundary: i });
        if (tr === 0) {
          // a cut: exactly one frame at any instant, handed over within the tolerance
          for (const t of [end - el, end - 1, end - 0.2, end, end + 0.2, end + 1, end + el]) {
            if (t < wins[i].start || t > wins[i + 1].holdEnd) continue;
            ctx.step();
            const vs = view(doc, t);
            const full = vs.filter((v) => v.leaf.opacity > 0.98 && v.cover.every(Boolean));
            ctx.state(`${key}|${i}|cut${(t - end).toFixed(1)}|${vs.map((v) => v.i)}`);
            if (full.length < 1) bad("cuthole", `t=${t} no frame is fully painted around the cut at ${end}`);
            if (t < end - el + 0.01 && vs.some((v) => v.i !== i)) bad("cutearly", `t=${t} frame ${i + 1} is painted before the cut at ${end}`);
          }
          continue;
        }
        if (tr < 4 * el) continue;
        const inSlides = o.inn.kind === "slide" && !(nx.out.kind === "fade" && ![o.name, nx.name].some((p) => p.includes("@") || ["push:left", "push:down", "push:a30", "shine:p", "zoom:p"].includes(p)));
        const ts = new Set<number>();
        for (let k = 0; k <= 10; k++) ts.add(holdEnd + el + ((tr - 2 * el) * k) / 10);
        for (const x of offs) if (x > holdEnd + el && x < end - el) ts.add(x);
        let qf = -1, k0 = 0;
        let pin: FrameView | undefined, pout: FrameView | undefined, pcov = -1, first = true;
        for (const t of [...ts].sort((a, b) => a - b)) {
          ctx.step();
          const u = (t - holdEnd) / tr;
          const vs = view(doc, t);
          ctx.state(`${key}|${i}|${t.toFixed(2)}|${vs.map((v) => `${v.i}${v.cover.filter(Boolean).length}`).join(",")}`);
          if (o.name === "magic:b") {
            // the bridge alone covers the window, its moved element going prev -> next
            const br = vs.filter((v) => v.i === 100 + i);
            const other = vs.find((v) => v.i !== 100 + i && v.i !== i + 1 && v.i !== i);
            if (br.length !== 1 || br[0].leaf.opacity < 0.98 || !br[0].cover.every(Boolean)) bad("bridge", `t=${t} u=${u.toFixed(2)} the bridge is not fully painted`);
            else for (const v of vs) if (v.z > br[0].z) bad("overbridge", `t=${t} u=${u.toFixed(2)} frame ${v.i} paints over the bridge`);
            if (other != null) bad("stray", `t=${t} layer ${other.i} paints during the bridge`);
            const q = doc.leaves(t, (nd) => nd.attrs.get("data-q") === String(i))[0];
            const f = 1 - q.m[4] / 30;
            if (f < qf - 1e-6) bad("bridgeback", `t=${t} the moved element goes back`);
            if (k0 === 0 && f > 0.2) bad("bridgestart", `t=${t} the moved element starts ${(f * 100).toFixed(0)} % on its way`);
            if (u > 1 - (1.01 * el) / tr && f < 0.8) bad("bridgeend", `t=${t} the moved element ends ${(f * 100).toFixed(0)} % on its way`);
            qf = f; k0++;
            continue;
          }
          const stray = vs.find((v) => v.i !== i && v.i !== i + 1);
          if (stray != null) bad("stray", `t=${t} frame ${stray.i} paints during the ${i}->${i + 1} transition`);
          const a = vs.find((v) => v.i === i), b = vs.find((v) => v.i === i + 1);
          if (vs.filter((v) => v.i === i).length > 1 || vs.filter((v) => v.i === i + 1).length > 1) bad("twice", `t=${t} a frame is painted twice`);
          if (a != null && b != null && a.z > b.z) bad("order", `t=${t} the incoming frame is under the outgoing one`);
          ctx.outcome(`${a == null ? "-" : "a"}${b == null ? "-" : "b"}${o.inn.kind}${o.out.kind}`);
          // no hole
          if (o.covers && !(o.inn.kind === "slide" && !inSlides)) {
            PTS.forEach((p, k) => {
              let tr0 = 1;
              for (const v of vs) if (v.cover[k]) tr0 *= 1 - v.leaf.opacity;
              const floor = o.inn.kind === "zoom" ? 0.45 : 0.7;
              if (1 - tr0 < floor) bad("hole", `t=${t.toFixed(1)} (u=${u.toFixed(2)}) point (${p}) is only ${((1 - tr0) * 100).toFixed(0)} % covered`);
            });
          }
          // end states
          if (first) {
            first = false;
            if (a == null || a.leaf.opacity < 0.85 || a.cover.filter(Boolean).length < 20) bad("start", `t=${t} at the start of the transition the outgoing frame is ${a == null ? "gone" : `opacity ${a.leaf.opacity.toFixed(2)} covering ${a.cover.filter(Boolean).length}/25`}`);
            if (b != null && b.leaf.opacity > 0.15 && b.cover.filter(Boolean).length > 5 && o.inn.kind !== "any") bad("early", `t=${t} at the start of the transition the incoming frame already paints (opacity ${b.leaf.opacity.toFixed(2)}, ${b.cover.filter(Boolean).length}/25 points)`);
          }
          if (u > 1 - (1.01 * el) / tr) {
            if (b == null || b.leaf.opacity < 0.85 || b.cover.filter(Boolean).length < 19) bad("end", `t=${t} at the end of the transition the incoming frame is ${b == null ? "missing" : `opacity ${b.leaf.opacity.toFixed(2)} covering ${b.cover.filter(Boolean).length}/25`}`);
            if (a != null && o.out.kind === "fade" && a.leaf.opacity > 0.15) bad("late", `t=${t} the outgoing frame is still at opacity ${a.leaf.opacity.toFixed(2)}`);
          }
          // per half
          const mid = u > 0.2 && u < 0.8;
          if (o.out.kind === "hold" && (a == null || a.leaf.opacity < 0.99 || Math.hypot(...off(a)) > 0.6)) bad("outhold", `t=${t} a revealed-over frame must hold beneath`);
          if (o.out.kind === "fade" && mid && (a == null || a.leaf.opacity > 0.97 || a.leaf.opacity < 0.005)) bad("outfade", `t=${t} u=${u.toFixed(2)} the outgoing frame does not fade (${a?.leaf.opacity})`);
          if (o.out.kind === "fade" && pout != null && a != null && a.leaf.opacity > pout.leaf.opacity + 1e-6) bad("outmono", `t=${t} the outgoing frame's opacity rises`);
          if (o.inn.kind === "fade" && mid && (b == null || b.leaf.opacity > 0.995 || b.leaf.opacity < 0.02)) bad("infade", `t=${t} u=${u.toFixed(2)} the incoming frame does not fade in (${b?.leaf.opacity})`);
          if ((o.inn.kind === "fade" || o.inn.kind === "zoom") && pin != null && b != null && b.leaf.opacity < pin.leaf.opacity - 1e-6) bad("inmono", `t=${t} the incoming frame's opacity falls`);
          if (o.inn.kind === "zoom" && mid && (b == null || Math.abs(b.leaf.m[0] - 1) < 0.002)) bad("inzoom", `t=${t} u=${u.toFixed(2)} the incoming frame does not scale`);
          if (o.out.kind === "slide" && mid) {
            if (a == null) { if (o.covers || u < 0.4) bad("outslide", `t=${t} u=${u.toFixed(2)} the outgoing frame is gone`); }
            else {
              const [x, y] = off(a), [vx, vy] = o.out.v!;
              if (x * vx * W + y * vy * H <= 0.5 || Math.abs(x * vy * H - y * vx * W) > 0.02 * W * H) bad("outdir", `t=${t} u=${u.toFixed(2)} the outgoing frame slides by (${x.toFixed(1)},${y.toFixed(1)}), not along (${vx},${vy})`);
            }
          }
          if (inSlides && mid && b != null) {
            const [x, y] = off(b), [vx, vy] = o.inn.v!;
            if (x * vx * W + y * vy * H >= -0.02 || Math.abs(x * vy * H - y * vx * W) > 0.02 * W * H) bad("indir", `t=${t} u=${u.toFixed(2)} the incoming frame is at (${x.toFixed(1)},${y.toFixed(1)}), not entering against (${vx},${vy})`);
            if (b.leaf.opacity < 0.99) bad("inopaque", `t=${t} the sliding incoming frame has opacity ${b.leaf.opacity}`);
            if (a != null) {
              // the two frames move as one: incoming trails by one push vector
              const [ax, ay] = off(a);
              const gap = Math.hypot(x - ax + vx * W, y - ay + vy * H);
              if (gap > 0.06 * Math.hypot(vx * W, vy * H)) bad("abut", `t=${t} u=${u.toFixed(2)} incoming and outgoing frames are ${gap.toFixed(1)} px off abutting`);
            }
          }
          if (o.inn.kind === "reveal") {
            const f = (o.inn.ease != null ? easing(o.inn.ease)! : (q: number): number => q)(u);
            const cov = b == null ? 0 : b.cover.filter(Boolean).length;
            if (cov < pcov) bad("revmono", `t=${t} the revealed area shrinks`);
            pcov = cov;
            const slack = 0.06 + (2 * el) / tr;
            PTS.forEach(([x, y], k) => {
              const c = b != null && b.cover[k];
              if (!c && inShape(o.inn, f - slack, x, y) && !(o.inn.shape === "clock" && nearRay(o.inn, x, y))) bad("revlate", `t=${t} u=${u.toFixed(3)} (${x},${y}) should be revealed`);
              if (c && !inShape(o.inn, Math.min(1, f + slack), x, y) && !(o.inn.shape === "clock" && nearRay(o.inn, x, y))) bad("revearly", `t=${t} u=${u.toFixed(3)} (${x},${y}) is revealed too early`);
            });
            if (b != null && b.leaf.opacity < 0.98 && cov > 0 && u > 0.05) bad("revopaque", `t=${t} the revealed frame has opacity ${b.leaf.opacity}`);
          }
          pin = b; pout = a;
        }
      }
      ctx.sample({ seq: key, period: P });
    }
  },
});
function nearRay(d: TDef["inn"], x: number, y: number): boolean {
  const cx = (d.cx ?? 0.5) * W, cy = (d.cy ?? 0.5) * H;
  let ang = Math.atan2(x - cx, -(y - cy)) * 180 / Math.PI - (d.start ?? 0);
  ang = ((ang % 360) + 360) % 360;
  return ang < 3 || ang > 357 || Math.hypot(x - cx, y - cy) < 3;
}
