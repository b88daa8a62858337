/** Independent reference model of the terminal semantics used by T01/T02. */
export interface Cell { c: string; fg: string | null; bg: string | null; b: boolean; i: boolean; d: boolean; u: boolean }
interface Pen { fg: string | null; bg: string | null; b: boolean; i: boolean; d: boolean; u: boolean; inv: boolean }
interface RawCell extends Pen { c: string }
export interface Theme { bg: string; fg: string; ansi: string[] }
const pen0 = (): Pen => ({ fg: null, bg: null, b: false, i: false, d: false, u: false, inv: false });
const cube = (n: number): string => {
  const h = (v: number): string => v.toString(16).padStart(2, "0");
  if (n >= 232) { const g = 8 + (n - 232) * 10; return `#${h(g)}${h(g)}${h(g)}`; }
  const k = n - 16, lv = (v: number): number => (v === 0 ? 0 : 55 + 40 * v);
  return `#${h(lv(Math.floor(k / 36)))}${h(lv(Math.floor(k / 6) % 6))}${h(lv(k % 6))}`;
};
const WIDE = new Set(["漢", "字"]);
export class Vt {
  x = 0; y = 0; visible = true;
  private pen = pen0();
  private grid: RawCell[][];
  private alt: RawCell[][] | null = null;
  private saved = { x: 0, y: 0, pen: pen0() };
  private margins: [number, number] = [0, 0];
  private top = 0; private bot: number;
  constructor(public cols: number, public rows: number, private theme: Theme) { this.grid = this.blankGrid(pen0()); this.bot = rows - 1; }
  private blank(p: Pen): RawCell { return { ...pen0(), bg: p.bg, c: " " }; }
  private blankRow(p: Pen): RawCell[] { return Array.from({ length: this.cols }, () => this.blank(p)); }
  private blankGrid(p: Pen): RawCell[][] { return Array.from({ length: this.rows }, () => this.blankRow(p)); }
  private scrollUp(): void { this.grid.splice(this.top, 1); this.grid.splice(this.bot, 0, this.blankRow(this.pen)); }
  private lf(): void {
    if (this.y === this.bot) this.scrollUp(); else if (this.y < this.rows - 1) this.y++;
    if (this.x >= this.cols) this.x = this.cols - 1;
  }
  private print(c: string): void {
    const w = WIDE.has(c) ? 2 : 1;
    if (this.x + w - 1 >= this.cols) {
      // a wide glyph that does not fit leaves the last cell blank
      if (this.x < this.cols) { if (this.grid[this.y][this.x].c === "" && this.x > 0) this.grid[this.y][this.x - 1] = { ...this.grid[this.y][this.x - 1], c: " " }; this.grid[this.y][this.x] = { ...this.pen, c: " " }; }
      this.x = 0;
      if (this.y === this.bot) this.scrollUp(); else if (this.y < this.rows - 1) this.y++;
    }
    const row = this.grid[this.y];
    // overwriting half of a wide glyph blanks the other half
    if (row[this.x].c === "" && this.x > 0) row[this.x - 1] = { ...row[this.x - 1], c: " " };
    row[this.x] = { ...this.pen, c };
    this.x++;
    if (w === 2) { row[this.x] = { ...this.pen, c: "" }; this.x++; }
    if (this.x < this.cols && row[this.x].c === "") row[this.x] = { ...row[this.x], c: " " };
  }
  private clampX(): void { this.x = Math.min(this.cols - 1, this.x); }
  feed(tok: string): void {
    const m = /^\x1b\[([?!]?)([\d;]*)([A-Za-z])$/.exec(tok);
    if (m != null) {
      const ps = m[2] === "" ? [] : m[2].split(";").map(Number);
      const n = Math.max(1, ps[0] ?? 1);
      if (m[1] === "?") {
        for (const p of ps) {
          if (p === 25) this.visible = m[3] === "h";
          if (p === 1049) {
            if (m[3] === "h" && this.alt == null) { this.saved = { x: Math.min(this.x, this.cols - 1), y: this.y, pen: { ...this.pen } }; this.alt = this.grid; this.margins = [this.top, this.bot]; this.top = 0; this.bot = this.rows - 1; this.grid = this.blankGrid(this.pen); }
            else if (m[3] === "l") {
              if (this.alt != null) { this.grid = this.alt; [this.top, this.bot] = this.margins; }
              this.alt = null;
              this.x = this.saved.x; this.y = this.saved.y; this.pen = { ...this.saved.pen };
            }
          }
        }
        return;
      }
      if (m[1] === "!") { this.visible = true; this.pen = pen0(); this.top = 0; this.bot = this.rows - 1; return; }
      switch (m[3]) {
        case "A": this.clampX(); this.y = Math.max(this.y >= this.top ? this.top : 0, this.y - n); break;
        case "B": this.clampX(); this.y = Math.min(this.y <= this.bot ? this.bot : this.rows - 1, this.y + n); break;
        case "C": this.clampX(); this.x = Math.min(this.cols - 1, this.x + n); break;
        case "D": this.clampX(); this.x = Math.max(0, this.x - n); break;
        case "G": this.x = Math.min(this.cols, n) - 1; break;
        case "H": this.y = Math.min(this.rows, n) - 1; this.x = Math.min(this.cols, Math.max(1, ps[1] ?? 1)) - 1; break;
        case "J": this.erase(ps[0] ?? 0); break;
        case "K": {
          const k = ps[0] ?? 0;
          const [a, b] = k === 0 ? [this.x, this.cols] : k === 1 ? [0, Math.min(this.x + 1, this.cols)] : [0, this.cols];
          this.eraseRange(this.y, a, b);
          break;
        }
        case "L": this.clampX(); if (this.y >= this.top && this.y <= this.bot) { for (let q = 0; q < n; q++) { this.grid.splice(this.bot, 1); this.grid.splice(this.y, 0, this.blankRow(this.pen)); } this.x = 0; } break;
        case "M": this.clampX(); if (this.y >= this.top && this.y <= this.bot) { for (let q = 0; q < n; q++) { this.grid.splice(this.y, 1); this.grid.splice(this.bot, 0, this.blankRow(this.pen)); } this.x = 0; } break;
        case "r": { const t = ps[0] ?? 1, b = ps[1] ?? this.rows; if (b > t) { this.top = t - 1; this.bot = Math.min(b, this.rows) - 1; this.x = 0; this.y = 0; } break; }
        case "m": this.sgr(ps.length === 0 ? [0] : ps); break;
        default: throw new Error(`vt: ${JSON.stringify(tok)}`);
      }
      return;
    }
    if (tok === "\x1bc") { this.visible = true; this.pen = pen0(); this.alt = null; this.saved = { x: 0, y: 0, pen: pen0() }; this.top = 0; this.bot = this.rows - 1; this.grid = this.blankGrid(this.pen); this.x = 0; this.y = 0; return; }
    if (tok === "\r") { this.x = 0; return; }
    if (tok === "\n") { this.lf(); return; }
    if (tok === "\b") { this.clampX(); if (this.x > 0) this.x--; return; }
    if (tok.startsWith("\x1b]")) return;
    for (const c of tok) this.print(c);
  }
  private eraseRange(y: number, a: number, b: number): void {
    const row = this.grid[y];
    if (a > 0 && a < this.cols && row[a].c === "") row[a - 1] = this.blank(this.pen);
    for (let x = a; x < b; x++) row[x] = this.blank(this.pen);
    if (b < this.cols && row[b].c === "") row[b] = this.blank(this.pen);
  }
  private erase(k: number): void {
    if (k === 0) { this.eraseRange(this.y, this.x, this.cols); for (let y = this.y + 1; y < this.rows; y++) this.grid[y] = this.blankRow(this.pen); }
    else if (k === 1) { this.eraseRange(this.y, 0, Math.min(this.x + 1, this.cols)); for (let y = 0; y < this.y; y++) this.grid[y] = this.blankRow(this.pen); }
    else if (k === 2) for (let y = 0; y < this.rows; y++) this.grid[y] = this.blankRow(this.pen);
  }
  private sgr(ps: number[]): void {
    for (let k = 0; k < ps.length; k++) {
      const p = ps[k], P = this.pen;
      if (p === 0) this.pen = pen0();
      else if (p === 1) P.b = true; else if (p === 2) P.d = true; else if (p === 3) P.i = true; else if (p === 4) P.u = true; else if (p === 7) P.inv = true;
      else if (p === 22) { P.b = false; P.d = false; } else if (p === 23) P.i = false; else if (p === 24) P.u = false; else if (p === 27) P.inv = false;
      else if (p >= 30 && p < 38) P.fg = this.theme.ansi[p - 30]; else if (p >= 90 && p < 98) P.fg = this.theme.ansi[p - 82]; else if (p === 39) P.fg = null;
      else if (p >= 40 && p < 48) P.bg = this.theme.ansi[p - 40]; else if (p >= 100 && p < 108) P.bg = this.theme.ansi[p - 92]; else if (p === 49) P.bg = null;
      else if (p === 38 || p === 48) {
        let col: string;
        if (ps[k + 1] === 5) { const n = ps[k + 2]; col = n < 16 ? this.theme.ansi[n] : cube(n); k += 2; }
        else { col = `#${[2, 3, 4].map((q) => ps[k + q].toString(16).padStart(2, "0")).join("")}`; k += 4; }
        if (p === 38) P.fg = col; else P.bg = col;
      }
    }
  }
  snapshot(): Cell[][] {
    return this.grid.map((row) => row.map((q) => ({ c: q.c, fg: q.inv ? q.bg ?? this.theme.bg : q.fg, bg: q.inv ? q.fg ?? this.theme.fg : q.bg, b: q.b, i: q.i, d: q.d, u: q.u })));
  }
}
