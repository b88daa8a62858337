/** S01: the scroll pattern language accepts exactly its grammar (docs/37), with the authored values. */
import { defineCheck, words, product, type Ctx } from "../lib/check.ts";
import { imp } from "../lib/repo.ts";
import { refParse, Bad } from "../lib/scrollref.ts";
const { parseScrollPattern, ScrollPatternError } = await imp("scroll/pattern.ts");

const canon = (x: any): any => (Array.isArray(x) ? x.map(canon) : x != null && typeof x === "object" ? Object.fromEntries(Object.keys(x).filter((k) => x[k] !== undefined).sort().map((k) => [k, Object.is(x[k], -0) ? 0 : canon(x[k])])) : x);
const show = (x: unknown): string => JSON.stringify(canon(x));

/** returns whether the text can be extended to a sentence */
function one(ctx: Ctx, text: string): boolean {
  let want: string | null = null, viable = true;
  try { want = show(refParse(text)); } catch (e) { if (!(e instanceof Bad)) throw e; viable = e.eof; }
  let got: string | null = null, err: unknown;
  try { got = show(parseScrollPattern(text)); } catch (e) { err = e; }
  ctx.trace();
  if (want != null) ctx.state(want);
  if (err != null && !(err instanceof ScrollPatternError)) ctx.fail(`error:${text}`, `${JSON.stringify(text)} throws ${String(err)}, not a ScrollPatternError`, { text });
  else if (err instanceof ScrollPatternError && !((err as any).position >= 0 && (err as any).position <= text.length)) ctx.fail(`errorpos:${text}`, `${JSON.stringify(text)}: error at ${(err as any).position}`, { text });
  if (want !== got) ctx.fail(`${want == null ? "accepts" : got == null ? "rejects" : "means"}:${text}`, `${JSON.stringify(text)} → ${got ?? String(err)}\ngrammar: ${want ?? "not a sentence"}`, { text, want, got });
  return viable;
}
const TOK = ["(", ")", ",", "until", "times", "2", "1.5", "0", "100px", "33.5%", "2s", "300ms", "800pxps", "0pxps", "down", "left", "top", ":", "pause", "selector", "\".a, b\"", "/", "@", "[", "]", "+", "-", ".", "x", "y", "ease-in-out", "steps", "jump-none", "end", "cubic-bezier", "foo"];
const CH = ["1", "0", ".", "p", "x", "s", "m", "%", "-", "+", ",", "(", ")", "/", "@", ":", "t", "o", "\"", " ", "_", "é"];
/** fragments for the character level: every way of gluing them, with and without spaces */
const FRAG = ["top", "down", "up", ":", "-", "+", "100px", "1.px", "1.", "007px", "1.25%", "1e3px", "1px2", "px", ".5px", "1..5px", "2s", "2S", "1m", "1ms", "/", "@", "9pxps", "9px", "[ease]", "[steps(3)]", "[steps(+3)]", "[steps(3px)]", "[steps(1,jump-none)]", "[steps(2,jump-none)]", "[cubic-bezier(0,-1,+1,2.5)]", "[cubic-bezier(0,1px,1,2)]", "[cubic-bezier(0,1,1)]", "[linear]", "[]", "until", "2 times", "0 times", "1.5 times", "2 time", ",", "(", ")", ".x", ".z", "selector(\"a[b=\"c\"]\")", "selector(\".x > y, #z\")", "selector( \"p\" )", "selector('p')", "selector(p)", "selector(\"p\"", "selector", "\"p\"", "pause:", "pause", "end", "start", "\t\n", ";", "#"];
const BIG = ["(", ")", ",", "100px", "2s", "up:top - 5%@9pxps", "720px/1s[ease-in]", "selector(\"x\").x", "until bottom", "until 2 times"];
function explore(ctx: Ctx, shard: { i: number; n: number }): void {
  let k = 0;
  const mine = (): boolean => k++ % shard.n === shard.i;
  // every extension of every viable prefix, in both spacings
  const depth = ctx.thorough ? 7 : 6;
  const go = (pre: string[], d: number, alpha: readonly string[] = TOK, max = depth): void => {
    for (const t of alpha) {
      const w = [...pre, t];
      ctx.step();
      const ok = one(ctx, w.join(" "));
      one(ctx, w.join(""));
      if (ok && d < max) go(w, d + 1, alpha, max);
    }
  };
  for (const a of TOK) for (const b of TOK) if (mine()) {
    one(ctx, a);
    const ok = one(ctx, `${a} ${b}`);
    one(ctx, a + b);
    // two-token prefixes: descend where the first token alone is a viable prefix
    let v1 = true; try { refParse(a); } catch (e) { v1 = (e as Bad).eof; }
    if (v1 && ok) go([a, b], 3);
  }
  // every token string, viable or not
  for (const w of words(TOK, 3, ctx.thorough ? 4 : 3)) if (mine()) { ctx.step(); one(ctx, w.join(" ")); }
  for (const w of words(CH, 0, ctx.thorough ? 5 : 4)) if (mine()) { ctx.step(); one(ctx, w.join("")); one(ctx, `9px ${w.join("")}`); }
  for (const w of words(FRAG, 1, ctx.thorough ? 4 : 3)) if (mine()) { ctx.step(); one(ctx, w.join("")); if (w.length < 4) one(ctx, `top + 5% ${w.join(" ")}`); }
  // programs out of whole actions and clauses
  for (const a of BIG) for (const b of BIG) if (mine()) { ctx.step(); one(ctx, a); if (one(ctx, `${a} ${b}`)) go([a, b], 3, BIG, ctx.thorough ? 9 : 7); }
  // every action: prefix × target × timing × easing, alone, repeated, grouped
  for (const [p, t, d, e, u] of product(["", "up:", "right :"], ["100px", "-2.5%", "top", "end.x", "left - 1px + 2%", "selector(\".a[b=\"c\"]\").y + 3px"], ["", "/2s", "/15.5ms", "@9pxps", "@0pxps", "/2s@9pxps", "@9pxps/2s"], ["", "[linear]", "[ease]", "[ease-in]", "[ease-out]", "[ease-in-out]", "[step-start]", "[step-end]", "[steps(1)]", "[steps(2,jump-none)]", "[steps(3, jump-start)]", "[steps(3, jump-end)]", "[steps(3, jump-both)]", "[steps(3,start)]", "[steps(3,end)]", "[cubic-bezier(.1,0,1,1)]", "[cubic-bezier(0.1,-0.5,+1,1.25)]"], ["", " until 3 times", " until right.x - 1px", " until selector(\"q\")"])) if (mine()) {
    ctx.step();
    const s = p + t + d + e;
    for (const x of [s, `2s, ${s}`, `${s}, pause:1s`, `(${s}), (${s})`, `${s}, (${s}`]) one(ctx, x + u);
    one(ctx, `${s}${u}, (${s}, 1s)${u}, ${s}`);
  }
  // nesting and repetition
  if (shard.i === 0) {
    for (const n of [1, 2, 3, 10, 50, 200]) for (const u of ["", " until 3 times", " until bottom - 5%"]) {
      ctx.step();
      one(ctx, "(".repeat(n) + "1px,2s" + `)${u}`.repeat(n));
      one(ctx, "(".repeat(n) + "1px" + ")".repeat(n - 1));
      one(ctx, "(".repeat(n) + "1px" + ")".repeat(n + 1));
      one(ctx, new Array(n).fill(`up:7.5px${u}`).join(","));
      one(ctx, new Array(n).fill(`(up:7.5px,1s)${u}`).join(", "));
      one(ctx, `top${" + 1px - 2%".repeat(n)}${u}`);
    }
  }
}
export default defineCheck({
  spec: {
    id: "S01", level: "model_checking",
    bounds: "every one-token extension of every viable prefix up to 6 (thorough 7) of 36 tokens, in both spacings; every token string to 3 (4); every character string to 4 (5) of 22 characters alone and after an action; every word to 3 (4) of 58 glued fragments; every continuation to 7 (9) of 10 whole actions and clauses; every action of 3 prefixes × 6 targets × 7 timings × 17 easings × 4 until clauses in 6 programs; nesting to 200",
    assumptions: ["the reference is docs/37's EBNF with identifiers of letters, digits, - and _ read as long as possible and blanks allowed between tokens"],
  },
  shards: 8,
  run: explore,
});
