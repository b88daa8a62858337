/** T03: a live session survives recording, writing, (torn) storage and re-reading. */
import { EventEmitter } from "node:events";
import { defineCheck, words, type Ctx } from "../lib/check.ts";
import { imp } from "../lib/repo.ts";
const { recordPtySession, buildCastText } = await imp("terminal/pty.ts");
const { parseCast } = await imp("terminal/cast.ts");

type Act = { k: "out"; d: string } | { k: "tick"; ms: number } | { k: "size"; c: number; r: number } | { k: "in"; d: string };
const ACTS: Act[] = [
  { k: "out", d: "a" }, { k: "out", d: "\"\\\n" }, { k: "out", d: "\r\n\x1b[31m" }, { k: "out", d: "\u2028😀\ud83d" }, { k: "out", d: "\ude00\u0000\x7f" }, { k: "out", d: "" }, { k: "out", d: "[1,\"o\",\"x\"]\n" },
  { k: "tick", ms: 1 }, { k: "tick", ms: 1500 }, { k: "size", c: 100, r: 30 }, { k: "size", c: 5, r: 2 }, { k: "in", d: "ls\n" }, { k: "in", d: "é" },
];
const str = (x: unknown): string => JSON.stringify(x);
class Stdin extends EventEmitter {
  isTTY = true; raw = false; resumed = false;
  get isRaw(): boolean { return this.raw; }
  setRawMode(m: boolean): void { this.raw = m; }
  resume(): void { this.resumed = true; }
  pause(): void { this.resumed = false; }
}
async function session(ctx: Ctx, acts: Act[], withInput: boolean, resizeThrows: boolean): Promise<void> {
  const name = `${acts.map((a) => ("d" in a ? `${a.k}${str(a.d)}` : a.k === "tick" ? `t${a.ms}` : `${a.c}x${a.r}`)).join(" ")}${withInput ? "" : " no-stdin"}${resizeThrows ? " resize-throws" : ""}`;
  const bad = (k: string, msg: string): void => ctx.fail(`session:${k}:${name}`, `${name}: ${msg}`, { acts, withInput, resizeThrows });
  let now = 5_000;
  const realNow = Date.now;
  let onData: (d: string) => void = () => {}, onExit: (e: { exitCode: number }) => void = () => {};
  const written: string[] = [], sizes: string[] = [];
  let echoed = "", spawned: any = null;
  const pty = { spawn(file: string, args: string[], o: any) { spawned = { file, args, cols: o.cols, rows: o.rows }; return {
    onData: (f: never) => { onData = f; }, onExit: (f: never) => { onExit = f; }, write: (d: string) => written.push(d), resize: (c: number, r: number) => { if (resizeThrows) throw new Error("gone"); sizes.push(`${c}x${r}`); }, kill() {},
  }; } };
  const stdin = new Stdin();
  const so = process.stdout as { columns?: number; rows?: number };
  const [oc, or] = [so.columns, so.rows];
  const wantEv: Array<{ time: number; data: string }> = [], wantRz: Array<{ time: number; cols: number; rows: number }> = [], wantIn: string[] = [];
  let text: string, res: any;
  const listenersBefore = process.stdout.listenerCount("resize");
  Date.now = () => now;
  try {
    const p = recordPtySession(["prog", "x y", "z"], { cols: 80, rows: 24, echo: { write: (d: string) => { echoed += d; return true; } }, input: withInput ? stdin : null }, pty);
    await null;
    for (const a of acts) {
      ctx.step();
      if (a.k === "tick") now += a.ms;
      else if (a.k === "out") { onData(a.d); wantEv.push({ time: (now - 5000) / 1000, data: a.d }); }
      else if (a.k === "in") { if (withInput) { stdin.emit("data", Buffer.from(a.d)); wantIn.push(a.d); } }
      else if (a.k === "size") { so.columns = a.c; so.rows = a.r; process.stdout.emit("resize"); if (withInput && !resizeThrows) wantRz.push({ time: (now - 5000) / 1000, cols: a.c, rows: a.r }); }
    }
    onExit({ exitCode: 7 });
    res = await p;
    text = res.cast;
  } finally {
    Date.now = realNow;
    if (oc == null) delete so.columns; else so.columns = oc;
    if (or == null) delete so.rows; else so.rows = or;
  }
  ctx.trace();
  if (spawned.file !== "prog" || str(spawned.args) !== '["x y","z"]' || spawned.cols !== 80 || spawned.rows !== 24) bad("spawn", `spawned ${str(spawned)}`);
  if (res.exitCode !== 7 || res.cols !== 80 || res.rows !== 24) bad("result", `exit ${res.exitCode} ${res.cols}x${res.rows}`);
  if (echoed !== wantEv.map((e) => e.data).join("")) bad("echo", `echoed ${str(echoed)}`);
  if (str(written) !== str(wantIn)) bad("input", `the child got ${str(written)}, want ${str(wantIn)}`);
  if (withInput && (stdin.raw || stdin.listenerCount("data") > 0 || stdin.resumed)) bad("stdin", "stdin is not restored");
  if (process.stdout.listenerCount("resize") !== listenersBefore) { bad("listener", "a resize listener stays behind"); process.stdout.removeAllListeners("resize"); }
  if (withInput && str(sizes) !== str(wantRz.map((r) => `${r.cols}x${r.rows}`))) bad("winsize", `the child was resized ${str(sizes)}`);
  const c = parseCast(text);
  ctx.state(text);
  if (c.header.version !== 2 || c.header.width !== 80 || c.header.height !== 24) bad("header", str(c.header));
  if (str(c.events) !== str(wantEv)) bad("events", `read back ${str(c.events)}\nwant ${str(wantEv)}`);
  if (str(c.resizes) !== str(wantRz)) bad("resizes", `read back ${str(c.resizes)}\nwant ${str(wantRz)}`);
  const dur = Math.max(0, ...wantEv.map((e) => e.time), ...wantRz.map((e) => e.time));
  if (c.duration !== dur) bad("duration", `${c.duration}, want ${dur}`);
  if (!ctx.thorough && acts.length > 2) return;
  // torn writes: every prefix of the file
  const lines = text.split("\n");
  for (let cut = 0; cut <= text.length; cut++) {
    ctx.step();
    const t = text.slice(0, cut);
    let got: any, err: unknown;
    try { got = parseCast(t); } catch (e) { err = e; }
    if (cut < lines[0].length) { if (err == null) bad("tornheader", `a torn header ${str(t)} is accepted`); continue; }
    if (err != null) { bad("torn", `cut at ${cut}: ${String(err)}`); continue; }
    let pos = lines[0].length, n = 0;
    for (const l of lines.slice(1)) { if (l === "") break; pos += 1 + l.length; if (pos <= cut) n++; }
    if (got.events.length + got.resizes.length !== n) { bad("torn", `cut at ${cut} of ${text.length}: ${got.events.length + got.resizes.length} events survive, ${n} were complete`); continue; }
    if (str(got.events) !== str(wantEv.slice(0, got.events.length)) || str(got.resizes) !== str(wantRz.slice(0, got.resizes.length))) bad("torn", `cut at ${cut}: events are not a prefix`);
  }
}
/** foreign recordings: any sequence of lines */
const LINES: Array<{ s: string; ev?: [number, string]; rz?: [number, number, number]; stop?: true }> = [
  { s: '[0.5, "o", "x"]', ev: [0.5, "x"] }, { s: '[2,"o","\\u001b[1m\\ud83d\\ude00"]', ev: [2, "\x1b[1m😀"] }, { s: '[1, "o", "y", 3]', ev: [1, "y"] }, { s: "" }, { s: "  \t" }, { s: '[1,"i","k"]' }, { s: '[1,"m","mark"]' }, { s: '[3,"r","80x25"]', rz: [3, 80, 25] }, { s: '[3,"r"," 7 x 9 "]', rz: [3, 7, 9] }, { s: '[3,"r","80*25"]' }, { s: '[3,"r","-1x4"]' },
  { s: '[1,"o"]' }, { s: '{"a":1}' }, { s: "null" }, { s: '["1","o","x"]' }, { s: '[1,"o",5]' }, { s: '[1,2,"x"]' }, { s: '[1,"o","tr', stop: true }, { s: '[4,"o","z"]\r', ev: [4, "z"] },
];
const HEADERS: Array<{ s: string; ok: boolean; title?: string }> = [
  { s: '{"version":2,"width":80,"height":24}', ok: true }, { s: '\n \n{"version": 2, "width": 80, "height": 24, "title":"T\\"", "env":{}}', ok: true, title: 'T"' }, { s: '{"version":1,"width":80,"height":24}', ok: false }, { s: '{"version":3,"width":80,"height":24}', ok: false }, { s: '{"width":80,"height":24}', ok: false },
  { s: '{"version":2,"width":"80","height":24}', ok: false }, { s: '{"version":2,"height":24}', ok: false }, { s: '{"version":2,"width":80}', ok: false }, { s: "not json", ok: false }, { s: "", ok: false }, { s: "[]", ok: false }, { s: "null", ok: false }, { s: "7", ok: false },
];
async function explore(ctx: Ctx, shard: { i: number; n: number }): Promise<void> {
  let k = 0;
  const mine = (): boolean => k++ % shard.n === shard.i;
  for (const w of words(ACTS, 0, ctx.thorough ? 5 : 4)) if (mine()) { await session(ctx, w, true, false); if (w.length < 3) { await session(ctx, w, false, false); await session(ctx, w, true, true); } }
  for (const h of HEADERS) for (const w of words(LINES, 0, h.ok ? (ctx.thorough ? 4 : 3) : 1)) {
    if (h.title != null && w.length > 2) continue;
    if (!mine()) continue;
    const text = [h.s, ...w.map((l) => l.s)].join("\n");
    ctx.step();
    const bad = (m: string): void => ctx.fail(`foreign:${str(text)}`, `${str(text)}: ${m}`, { text });
    let got: any, err: any;
    try { got = parseCast(text); } catch (e) { err = e; }
    if (h.s === "" && w.some((l) => l.s.trim() !== "")) continue; // then that line is the header
    if (!h.ok) { if (!(err instanceof Error) || !err.message.startsWith("cast:")) bad(`not refused with an explanation (${err == null ? "accepted" : String(err)})`); continue; }
    if (err != null) { bad(String(err)); continue; }
    const ev: unknown[] = [], rz: unknown[] = [];
    let last = [0, 0];
    for (const l of w) { if (l.stop) break; if (l.ev) { ev.push({ time: l.ev[0], data: l.ev[1] }); last = [l.ev[0], last[1]]; } if (l.rz) { rz.push({ time: l.rz[0], cols: l.rz[1], rows: l.rz[2] }); last = [last[0], l.rz[0]]; } }
    if (str(got.events) !== str(ev) || str(got.resizes) !== str(rz)) bad(`events ${str(got.events)} resizes ${str(got.resizes)}, want ${str(ev)} ${str(rz)}`);
    if (got.header.width !== 80 || got.header.height !== 24 || got.header.title !== h.title) bad(`header ${str(got.header)}`);
    if (got.duration !== Math.max(...last)) bad(`duration ${got.duration}`);
    ctx.state(`${str(got)}`);
  }
  if (shard.i === 0) {
    // the header records the command as typed
    const t = buildCastText(3, 4, ["a", '"b"'], [[0, "o", "x"]]);
    const h = JSON.parse(t.split("\n")[0]);
    if (h.command !== 'a "b"' || h.width !== 3 || h.height !== 4 || h.version !== 2) ctx.fail("header", t, { t });
  }
}
export default defineCheck({
  spec: {
    id: "T03", level: "model_checking",
    bounds: "all sessions of up to 4 (thorough 5) of 13 events (output with quotes, escapes, split surrogates, NUL, embedded event text; clock ticks; window resizes; typed input), with and without stdin, with a dead pty; every prefix of the written file (sessions of up to 2, thorough 5 events); all recordings of up to 3 (4) of 19 line kinds under 13 headers",
    assumptions: ["node-pty is replaced by a driver that emits the chosen events", "the clock is virtual"],
  },
  shards: 8,
  run: explore,
});
