/** T01: the screen is a function of the bytes, not of their chunking; and it is the screen a VT would show. */
import { defineCheck, words, type Ctx } from "../lib/check.ts";
import { imp } from "../lib/repo.ts";
import { Vt, type Cell } from "../lib/vt.ts";

// xterm schedules its parser with setTimeout(0); the order is kept, only the wait is dropped
const st = globalThis.setTimeout;
globalThis.setTimeout = ((f: (...a: unknown[]) => void, ms?: number, ...a: unknown[]) => (ms == null || ms <= 0 ? setImmediate(f, ...a) : st(f, ms, ...a))) as never;
const { TerminalEmulator, gridSignature } = await imp("terminal/emulator.ts");
const { buildFrames } = await imp("terminal/render.ts");
const { THEMES } = await imp("terminal/theme.ts");

export const COLS = 4, ROWS = 3;
const E = "\x1b[";
export const TOKENS = ["A", "bc", "xyzw", "漢", "😀", "é", " ", "\r", "\n", "\b", `${E}H`, `${E}2;3H`, `${E}A`, `${E}2B`, `${E}C`, `${E}D`, `${E}2J`, `${E}J`, `${E}1K`, `${E}K`, `${E}2K`, `${E}L`, `${E}M`, `${E}1;2r`,
  `${E}1m`, `${E}3m`, `${E}2m`, `${E}4m`, `${E}7m`, `${E}31m`, `${E}97m`, `${E}44m`, `${E}38;5;208m`, `${E}48;5;244m`, `${E}38;2;1;2;255m`, `${E}48;2;0;0;0m`, `${E}0m`, `${E}39;49m`, `${E}22m`,
  `${E}?25l`, `${E}?25h`, `${E}?25;1l`, `${E}?1;25h`, `${E}?1049h`, `${E}?1049l`, `${E}!p`, "\x1bc", "\x1b]0;t\x07"];
/** tokens that carry an escape or several code units: the ones worth splitting */
const cellKey = (c: Cell): string => `${c.c}|${c.fg}|${c.bg}|${c.b ? 1 : 0}${c.i ? 1 : 0}${c.d ? 1 : 0}${c.u ? 1 : 0}`;
const gridKey = (g: Cell[][]): string => g.map((r) => r.map(cellKey).join(",")).join("/");
const emuGrid = (emu: any): Cell[][] => emu.snapshot().map((r: any[]) => r.map((c) => ({ c: c.char, fg: c.fg, bg: c.bg, b: c.bold, i: c.italic, d: c.dim, u: c.underline })));
const obs = (emu: any): string => { const c = emu.cursor(); return `${gridKey(emuGrid(emu))}@${c.x},${c.y},${c.visible}`; };
async function run(chunks: string[], theme = THEMES.catppuccin): Promise<string> {
  const emu = new TerminalEmulator(COLS, ROWS, theme);
  try { for (const c of chunks) await emu.write(c); return obs(emu); } finally { emu.dispose(); }
}
const show = (s: string): string => JSON.stringify(s);

async function explore(ctx: Ctx, shard: { i: number; n: number }): Promise<void> {
  let k = 0;
  const mine = (): boolean => k++ % shard.n === shard.i;
  const depth = ctx.thorough ? 3 : 2;
  // (1) emulator vs reference model, every token word; also incrementally, token by token
  for (const theme of ctx.thorough ? [THEMES.catppuccin, THEMES.dark] : [THEMES.catppuccin]) {
    for (const w of words(TOKENS, 1, depth)) {
      for (const pre of ["", "abcdef\r\n"]) {
        if (!mine()) continue;
        const vt = new Vt(COLS, ROWS, theme);
        const emu = new TerminalEmulator(COLS, ROWS, theme);
        try {
          for (const t of [...(pre === "" ? [] : ["abcdef", "\r", "\n"]), ...w]) {
            vt.feed(t); await emu.write(t); ctx.step();
          }
          const got = obs(emu), want = `${gridKey(vt.snapshot())}@${vt.x},${vt.y},${vt.visible}`;
          ctx.state(got); ctx.trace();
          if (got !== want) ctx.fail(`model:${w.map(show).join("+")}`, `after ${show(pre + w.join(""))} the screen is\n  ${got}\nwant\n  ${want}`, { bytes: pre + w.join("") });
          const probe = emu.snapshot();
          if ((gridSignature(probe) === "") !== vt.snapshot().every((r) => r.every((c) => cellKey(c) === " |null|null|0000"))) ctx.fail("signature:blank", `after ${show(pre + w.join(""))} the blank-screen signature is wrong`, { bytes: pre + w.join("") });
        } finally { emu.dispose(); }
      }
    }
  }
  // (2) every way to split the bytes of a word in two (and, up to one token, in three) pieces
  for (const w of words(TOKENS, 1, depth)) {
    if (w.length === 3 && !w.some((t) => t.length > 1)) continue;
    if (!mine()) continue;
    const s = `q${w.join("")}z`;
    const whole = await run([s]);
    ctx.outcome(whole);
    for (let i = 1; i < s.length; i++) {
      ctx.step(); ctx.trace();
      const got = await run([s.slice(0, i), s.slice(i)]);
      if (got !== whole) ctx.fail(`split:${show(s)}`, `${show(s.slice(0, i))} + ${show(s.slice(i))} shows\n  ${got}\nunsplit it shows\n  ${whole}`, { chunks: [s.slice(0, i), s.slice(i)] });
      if (w.length === 1 || (ctx.thorough && w.length === 2)) {
        for (let j = i + 1; j < s.length; j++) {
          ctx.step(); ctx.trace();
          const g3 = await run([s.slice(0, i), s.slice(i, j), s.slice(j)]);
          if (g3 !== whole) ctx.fail(`split:${show(s)}`, `${[s.slice(0, i), s.slice(i, j), s.slice(j)].map(show).join(" + ")} shows\n  ${g3}\nunsplit\n  ${whole}`, { chunks: [s.slice(0, i), s.slice(i, j), s.slice(j)] });
        }
      }
    }
  }
  // (3) frames of a recording do not depend on how an instant's bytes were cut into events
  const FT = ["A", "漢", "\r\n", `${E}31mB`, `${E}?25l`, `${E}?25h`, `${E}2J${E}H`];
  for (const w of words(FT, 1, ctx.thorough ? 3 : 2)) {
    if (!mine()) continue;
    const data = `$${w.join("")}.`;
    const frames = async (ev: Array<{ time: number; data: string }>): Promise<string> => {
      const emu = new TerminalEmulator(COLS, ROWS, THEMES.catppuccin);
      try { return JSON.stringify(await buildFrames(emu, [{ time: 0, data: "> " }, ...ev, { time: 2, data: "end" }], {})); } finally { emu.dispose(); }
    };
    const whole = await frames([{ time: 1, data }]);
    for (let i = 1; i < data.length; i++) {
      ctx.step(); ctx.trace();
      const got = await frames([{ time: 1, data: data.slice(0, i) }, { time: 1, data: data.slice(i) }]);
      if (got !== whole) ctx.fail(`frames:${show(data)}`, `split at ${i}: ${got.slice(0, 600)}\nunsplit: ${whole.slice(0, 600)}`, { data, at: i });
    }
  }
}
export default defineCheck({
  spec: {
    id: "T01",
    bounds: "4x3 screen; all words of up to 2 (thorough 3) of 48 tokens (text incl. wide and astral, C0, cursor, erase, insert/delete line, scroll region, SGR 16/256/24-bit, DECTCEM alone and combined, alternate screen, soft and hard reset, OSC), from a blank and a part-filled screen, against the reference model; every 2-way split of each word, every 3-way split of one-token (thorough: two-token) words; recordings with every 2-way split of an instant's data",
    assumptions: ["lib/vt.ts models the VT semantics of the tokens", "timers of zero delay run in order"],
  },
  shards: 8,
  run: explore,
});
