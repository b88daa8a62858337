/** Reference reading of the scroll pattern language: the EBNF of docs/37 as a predictive parser over a maximal-munch lexer. */
type Tok = { k: string; s: string; n?: number; u?: string };
export class Bad extends Error { constructor(public eof: boolean) { super("bad"); } }
const NUM = /^\d+(\.\d+)?/;
export function refLex(src: string): Tok[] {
  const out: Tok[] = [];
  let r = src;
  for (;;) {
    r = r.replace(/^[ \t\r\n]+/, "");
    if (r === "") return out;
    let m: RegExpExecArray | null;
    if ((m = /^[A-Za-z_][A-Za-z0-9_-]*/.exec(r))) out.push({ k: "id", s: m[0] });
    else if ((m = NUM.exec(r))) {
      const u = /^(%|[A-Za-z]*)/.exec(r.slice(m[0].length))![0];
      const after = r[m[0].length];
      if (u === "" && after === ".") throw new Bad(r.length === m[0].length + 1); // "1." is no number
      if (!["", "px", "%", "s", "ms", "pxps"].includes(u)) throw new Bad(r.length === m[0].length + u.length);
      out.push({ k: u === "" ? "num" : u === "px" || u === "%" ? "len" : u === "pxps" ? "spd" : "dur", s: m[0] + u, n: parseFloat(m[0]), u });
      m = [m[0] + u] as never;
    } else if (r[0] === '"') {
      const p2 = out.slice(-2);
      if (p2.length < 2 || p2[0].s !== "selector" || p2[1].s !== "(") throw new Bad(false);
      const e = /"[ \t\r\n]*\)/.exec(r.slice(1));
      if (e == null) throw new Bad(true);
      out.push({ k: "str", s: r.slice(1, 1 + e.index) });
      m = [r.slice(0, e.index + 2)] as never;
    } else if ("(),:/@[]+-.".includes(r[0])) { out.push({ k: r[0], s: r[0] }); m = [r[0]] as never; }
    else throw new Bad(false);
    r = r.slice(m![0].length);
  }
}
/** parses to a flat, printable program; throws Bad */
export function refParse(src: string): unknown {
  const t = refLex(src);
  let i = 0;
  const at = (k: string, s?: string): boolean => i < t.length && t[i].k === k && (s == null || t[i].s === s);
  const need = (k: string, ok: (x: Tok) => boolean = () => true): Tok => { if (i >= t.length) throw new Bad(true); if (t[i].k !== k || !ok(t[i])) throw new Bad(false); return t[i++]; };
  const ms = (x: Tok): number => (x.u === "s" ? x.n! * 1000 : x.n!);
  const len = (x: Tok): unknown => ({ value: x.n, unit: x.u });
  const anchored = (): any => {
    if (i >= t.length) throw new Bad(true);
    let anchor: unknown;
    if (at("id", "selector")) { i++; need("("); anchor = { kind: "selector", cssSelector: need("str").s }; need(")"); }
    else anchor = { kind: "named", name: need("id", (x) => ["top", "bottom", "left", "right", "start", "end"].includes(x.s)).s };
    const o: any = { kind: "absolute", anchor, offsets: [] };
    if (at(".")) { i++; o.axisSuffix = need("id", (x) => x.s === "x" || x.s === "y").s; }
    while (at("+") || at("-")) { const op = t[i++].k; o.offsets.push({ op, length: len(need("len")) }); }
    return o;
  };
  const snum = (): number => { let s = 1; if (at("+")) i++; else if (at("-")) { i++; s = -1; } return s * need("num").n!; };
  const action = (): unknown => {
    if (i >= t.length) throw new Bad(true);
    if (at("id", "pause")) { i++; need(":"); return { kind: "pause", durationMs: ms(need("dur")) }; }
    if (at("dur")) return { kind: "pause", durationMs: ms(t[i++]) };
    const a: any = { kind: "scroll" };
    if (t[i].k === "id" && ["up", "down", "left", "right"].includes(t[i].s) && (t[i + 1]?.k === ":")) { a.direction = t[i].s; i += 2; }
    else if (at("id", "up") || at("id", "down")) throw new Bad(i + 1 >= t.length);
    if (at("-")) { i++; const l = need("len"); a.target = { kind: "delta", signedLength: { sign: -1, value: l.n, unit: l.u } }; }
    else if (at("len")) { const l = t[i++]; a.target = { kind: "delta", signedLength: { sign: 1, value: l.n, unit: l.u } }; }
    else a.target = anchored();
    if (at("/")) { i++; a.durationMs = ms(need("dur")); }
    else if (at("@")) { i++; a.speedPxPerSec = need("spd", (x) => x.n! > 0).n; }
    if (at("[")) {
      i++;
      const e = need("id", (x) => ["linear", "ease", "ease-in", "ease-out", "ease-in-out", "step-start", "step-end", "cubic-bezier", "steps"].includes(x.s)).s;
      if (e === "cubic-bezier") { const v: number[] = []; need("("); for (let q = 0; q < 4; q++) { if (q > 0) need(","); v.push(snum()); } need(")"); a.easing = { kind: e, values: v }; }
      else if (e === "steps") {
        need("(");
        const c = need("num", (x) => Number.isInteger(x.n) && x.n! > 0).n!;
        a.easing = { kind: e, count: c };
        if (at(",")) { i++; a.easing.position = need("id", (x) => ["jump-start", "jump-end", "jump-both", "start", "end"].includes(x.s) || (x.s === "jump-none" && c >= 2)).s; }
        need(")");
      } else a.easing = { kind: "named", name: e };
      need("]");
    }
    return a;
  };
  const until = (): unknown => {
    if (!at("id", "until")) return undefined;
    i++;
    if (at("num")) { const n = need("num", (x) => Number.isInteger(x.n) && x.n! > 0).n; need("id", (x) => x.s === "times"); return { kind: "count", count: n }; }
    return { kind: "position", target: anchored() };
  };
  const pattern = (): unknown => {
    const segments: unknown[] = [];
    for (;;) {
      if (at("(")) { i++; const p = pattern(); need(")"); segments.push({ kind: "bracketed", pattern: p, until: until() }); }
      else {
        const actions = [action()];
        while (at(",") && !(t[i + 1]?.k === "(")) { i++; actions.push(action()); }
        segments.push({ kind: "flat", actions, until: until() });
      }
      if (!at(",")) return { segments };
      i++;
    }
  };
  const p = pattern();
  if (i < t.length) throw new Bad(false);
  return p;
}
