/** R03: a drawing depends on its input only, whatever the process drew, tried, cleared or forgot before. */
import { existsSync, mkdirSync, readFileSync, renameSync, rmSync, writeFileSync } from "node:fs";
import { tmpdir } from "node:os";
import { join } from "node:path";
import { Worker } from "node:worker_threads";
import { fileURLToPath } from "node:url";
import { defineCheck, type Ctx } from "../lib/check.ts";
import { DOCS, ops, readBack, reset, resources, rerender, type Op } from "../lib/r03docs.ts";

interface Alone { out: string; res: string; back: string }
function cold(n: string): Promise<Alone> {
  return new Promise((ok, no) => {
    const w = new Worker(fileURLToPath(new URL("../lib/r03worker.ts", import.meta.url)), { workerData: { n }, stderr: true, execArgv: process.execArgv.filter((a) => !a.startsWith("--max-old")) });
    w.once("message", (m: Alone) => { ok(m); void w.terminate(); }); w.once("error", no); w.once("exit", () => no(new Error(`no answer for ${n}`)));
  });
}
const CORE = new Set(["plain", "faces", "scripts", "turned", "paint", "try faces", "try again", "animate", "plain/paths", "faces/paths", "try faces/paths", "run", "mask dpi", "document", "forget fonts", "clear", "web mono"]);
/** where two texts first differ */
function diff(a: string, b: string): string { let i = 0; while (i < a.length && a[i] === b[i]) i++; return `…${a.slice(Math.max(0, i - 60), i + 80)}… instead of …${b.slice(Math.max(0, i - 60), i + 80)}…`; }

export default defineCheck({
  spec: {
    id: "R03", level: "model_checking",
    bounds: "histories of up to 2 operations (thorough 3) out of all, up to 3 out of a core of 17: drawings of nine pages in both text modes, trials rolled back (plain, nested, failing), animations, compressed runs, bridges, whole documents, web fonts that come and go, reading the fonts, trimming and forgetting caches, clearing; every operation also alone in a fresh thread",
    assumptions: ["drawings that share one set of embedded fonts (no clearing in between) may name fonts and code points differently; they are compared by the outlines the names lead to", "the macOS per-document ideograph memory is documented to carry history within one document"],
  },
  shards: 8,
  async run(ctx: Ctx, sh) {
    console.warn = (): void => {}; process.stderr.write = (() => true) as never;
    const OPS = ops(), byName = new Map(OPS.map((o) => [o.n, o]));
    // ---- each operation alone, in a process that has done nothing else ----
    const alone = new Map<string, Alone>();
    const dir = join(tmpdir(), `r03-${process.ppid}`); mkdirSync(dir, { recursive: true }); // the shards share the work
    const file = (x: string): string => join(dir, `${x}.json`);
    const put = (x: string, v: unknown): void => { writeFileSync(file(`${x}.tmp`), JSON.stringify(v)); renameSync(file(`${x}.tmp`), file(x)); };
    const there = async (x: string): Promise<void> => { for (let k = 0; !existsSync(file(x)); k++) { if (k > 12_000) throw new Error(`no ${x}`); await new Promise((r) => setTimeout(r, 50)); } };
    for (let j = sh.i; j < OPS.length; j += sh.n) put(`op${j}`, await cold(OPS[j].n));
    for (let j = 0; j < OPS.length; j++) { await there(`op${j}`); alone.set(OPS[j].n, JSON.parse(readFileSync(file(`op${j}`), "utf8"))); }
    put(`read${sh.i}`, 1);
    if (sh.i === 0) { for (let j = 0; j < sh.n; j++) await there(`read${j}`); rmSync(dir, { recursive: true, force: true }); ctx.count("operations alone", OPS.length); }

    // ---- the drawings made since the fonts were last cleared decide the bytes ----
    interface Made { outs: string[]; res: string }
    const canon = new Map<string, Made>();
    const canonical = (seq: string[]): Made => {
      const k = seq.join("|");
      let m = canon.get(k);
      if (m == null) { reset(); const outs = seq.map((n) => byName.get(n)!.run()); m = { outs, res: resources() }; if (canon.size > 20_000) canon.clear(); canon.set(k, m); }
      return m;
    };
    const history = (h: Op[]): void => {
      const key = h.map((o) => o.n).join(" > ");
      // the bytes must be the same, so the reference is drawn in between only when it is not known yet
      const segments: Array<{ seq: string[]; outs: string[]; res: string }> = [];
      let seg: { seq: string[]; outs: string[]; res: string } = { seq: [], outs: [], res: "" };
      const close = (): void => { if (seg.seq.length > 0) { seg.res = resources(); segments.push(seg); } seg = { seq: [], outs: [], res: "" }; };
      reset();
      for (const o of h) {
        if (o.effect === "clears" || o.effect === "starts") close();
        const out = o.run(); ctx.step();
        if (o.effect === "adds" || o.effect === "starts") { seg.seq.push(o.n); seg.outs.push(out); }
        else if (out !== "") {
          const b = readBack(out, resources());
          if (b !== alone.get(o.n)!.back) ctx.fail(`other:${key}`, `after ${key}: ${o.n} shows ${diff(b, alone.get(o.n)!.back)}`);
        }
      }
      close();
      for (const s of segments) {
        const one = s.seq.length === 1 ? alone.get(s.seq[0])! : null;
        const want: Made = one != null ? { outs: [one.out], res: one.res } : canonical(s.seq);
        s.seq.forEach((n, i) => {
          if (s.outs[i] !== want.outs[i]) ctx.fail(`bytes:${key}`, `${key}: ${n} gives ${diff(s.outs[i], want.outs[i])}`);
          const b = readBack(s.outs[i], s.res), a = alone.get(n)!.back;
          if (b !== a) ctx.fail(`picture:${key}`, `${key}: ${n} shows ${diff(b, a)}`);
        });
        if (s.res !== want.res) ctx.fail(`fonts:${key}`, `${key}: fonts and glyphs for ${s.seq.join(", ")}: ${diff(s.res, want.res)}`);
        ctx.outcome(one != null ? "alone" : "shared");
      }
      ctx.state(key);
    };
    const core = OPS.filter((o) => CORE.has(o.n));
    let i = 0;
    const each = (set: Op[], len: number, only: (h: Op[]) => boolean): void => {
      const rec = (h: Op[]): void => {
        if (h.length === len) { if (only(h) && i++ % sh.n === sh.i) { history(h); ctx.trace(); } return; }
        for (const o of set) rec([...h, o]);
      };
      rec([]);
    };
    each(OPS, 1, () => true); each(OPS, 2, () => true);
    if (ctx.thorough) each(OPS, 3, () => true); else each(core, 3, () => true);
    if (sh.i !== 0) return;
    // ---- drawing leaves its input as it was, and draws it again the same ----
    for (const d of Object.keys(DOCS)) for (const mode of ["embedded-font", "paths"] as const) {
      const [before, first, after, again] = rerender(d, mode); ctx.step();
      if (before !== after) ctx.fail(`input:${d}/${mode}`, `drawing changes the captured tree: ${diff(after, before)}`);
      if (first !== again) ctx.fail(`again:${d}/${mode}`, `a second drawing of the same tree: ${diff(again, first)}`);
    }
  },
});
