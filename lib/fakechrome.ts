/** A modelled Chromium behind Playwright's API: pages hold a document with animations that can be seeked, every call can fail, lag or be observed. */
import { EventEmitter } from "node:events";
export const turn = (n = 1): Promise<void> => (n <= 0 ? Promise.resolve() : new Promise((r) => setImmediate(() => r(turn(n - 1)))));
export interface AnimSpec { duration: number; iterations: number; endTime: number; keyframes?: Array<{ offset: number; opacity?: number }>; late?: boolean; stubborn?: boolean }
export interface World {
  /** what setContent's markup contains */
  anims: (html: string) => AnimSpec[];
  smil: (html: string) => boolean;
  /** called before every operation; throw (or reject) to fail it */
  onOp: (op: string, n: number, page: FakePage | null) => void | Promise<void>;
  /** turns of the event loop an operation takes */
  lag: (op: string, n: number) => number;
}
export class Chrome {
  ops: string[] = [];
  browsers: FakeBrowser[] = [];
  world: World;
  constructor(w: Partial<World>) { this.world = { anims: () => [], smil: () => false, onOp: () => {}, lag: () => 1, ...w }; }
  async op(name: string, page: FakePage | null): Promise<void> {
    const n = this.ops.length;
    this.ops.push(name);
    await turn(this.world.lag(name, n));
    await this.world.onOp(name, n, page);
  }
  launch = async (): Promise<FakeBrowser> => {
    await this.op("launch", null);
    const b = new FakeBrowser(this);
    this.browsers.push(b);
    return b;
  };
  get alive(): number { return this.browsers.filter((b) => b.process).length; }
}
const GONE = "Target page, context or browser has been closed";
export class FakeBrowser extends EventEmitter {
  /** the browser process exists */
  process = true;
  connected = true;
  closes = 0;
  contexts: FakeContext[] = [];
  constructor(public chrome: Chrome) { super(); }
  isConnected(): boolean { return this.connected; }
  async newContext(options: Record<string, unknown> = {}): Promise<FakeContext> {
    await this.chrome.op("newContext", null);
    if (!this.connected) throw new Error(`browser.newContext: ${GONE}`);
    const c = new FakeContext(this, options);
    this.contexts.push(c);
    return c;
  }
  async newPage(options: Record<string, unknown> = {}): Promise<FakePage> { return (await this.newContext(options)).newPage(); }
  /** the process dies by itself */
  crash(): void { this.process = false; this.connected = false; for (const c of this.contexts) c.kill(); this.emit("disconnected", this); }
  async close(): Promise<void> {
    this.closes++;
    try { await this.chrome.op("close", null); } finally { this.process = false; this.connected = false; for (const c of this.contexts) c.kill(); }
  }
}
export class FakeContext extends EventEmitter {
  pages: FakePage[] = [];
  closed = false;
  constructor(public browserObj: FakeBrowser, public options: Record<string, unknown>) { super(); }
  browser(): FakeBrowser { return this.browserObj; }
  kill(): void { this.closed = true; for (const p of this.pages) p.dead = GONE; }
  async newPage(): Promise<FakePage> {
    await this.browserObj.chrome.op("newPage", null);
    if (this.closed) throw new Error(`browserContext.newPage: ${GONE}`);
    const p = new FakePage(this);
    this.pages.push(p);
    return p;
  }
  async close(): Promise<void> { await this.browserObj.chrome.op("contextClose", null); this.kill(); }
}
interface FakeAnim { spec: AnimSpec; playState: string; currentTime: number; effect: unknown; pause(): void }
interface Doc { html: string; anims: FakeAnim[]; joined: boolean; smil: { paused: boolean; t: number } | null; dom: unknown; painted: unknown }
export interface Shot { html: string; times: Array<number | null>; smil: number | null; viewport: unknown; scale: unknown; omit: boolean; clip: unknown }
export class FakePage extends EventEmitter {
  dead: string | null = null;
  doc: Doc;
  viewport: unknown;
  /** survives setContent */
  win: Record<string, unknown> = {};
  constructor(public ctx: FakeContext) { super(); this.viewport = ctx.options.viewport ?? { width: 1280, height: 720 }; this.doc = this.load("<html></html>"); }
  context(): FakeContext { return this.ctx; }
  isClosed(): boolean { return this.dead != null; }
  private async op(name: string): Promise<void> {
    await this.ctx.browserObj.chrome.op(name, this);
    if (this.dead != null) throw new Error(`page.${name}: ${this.dead}`);
  }
  private load(html: string): Doc {
    const w = this.ctx.browserObj.chrome.world;
    const anims = w.anims(html).map((spec): FakeAnim => {
      const a: FakeAnim = {
        spec, playState: "running", currentTime: 0,
        effect: { getComputedTiming: () => ({ duration: spec.duration, iterations: spec.iterations, endTime: spec.endTime }), getKeyframes: () => spec.keyframes ?? [] },
        pause() { if (spec.stubborn) throw new Error("cannot pause"); a.playState = "paused"; },
      };
      return a;
    });
    const smil = w.smil(html) ? { paused: false, t: 0 } : null;
    const doc: Doc = { html, anims, joined: false, smil, dom: null, painted: null };
    const svg = smil == null ? {} : { pauseAnimations: () => { smil.paused = true; }, setCurrentTime: (t: number) => { smil.t = t; }, querySelector: () => ({}) };
    doc.dom = {
      documentElement: {},
      getAnimations: () => anims.filter((a) => doc.joined || a.spec.late !== true),
      querySelectorAll: (q: string) => (q === "svg" ? [svg] : []),
    };
    return doc;
  }
  private frame(doc: Doc): void {
    doc.joined = true;
    doc.painted = { times: doc.anims.map((a) => (a.playState === "paused" ? a.currentTime : null)), smil: doc.smil == null ? null : doc.smil.paused ? doc.smil.t : NaN };
  }
  async setViewportSize(v: unknown): Promise<void> { await this.op("setViewportSize"); this.viewport = v; }
  async setContent(html: string): Promise<void> { await this.op("setContent"); this.doc = this.load(html); }
  async goto(): Promise<null> { await this.op("goto"); return null; }
  async addStyleTag(): Promise<void> { await this.op("addStyleTag"); }
  async evaluate(fn: unknown, arg?: unknown): Promise<unknown> {
    await this.op("evaluate");
    const doc = this.doc;
    const raf = (cb: (t: number) => void): number => { setImmediate(() => { cb(0); this.frame(doc); }); return 1; };
    // the function runs in the page: it sees the page's globals only
    const f = new Function("document", "requestAnimationFrame", "window", "__name", `return (${String(fn)});`)(doc.dom, raf, Object.assign(this.win, { document: doc.dom, requestAnimationFrame: raf }), (x: unknown) => x) as (a: unknown) => unknown;
    const r = await f(arg);
    if (this.dead != null) throw new Error(`page.evaluate: ${this.dead}`);
    return r === undefined ? undefined : JSON.parse(JSON.stringify(r, (_, v) => (v === Infinity ? "__inf" : v)), (_, v) => (v === "__inf" ? Infinity : v));
  }
  async waitForTimeout(): Promise<void> { await this.op("waitForTimeout"); }
  async waitForFunction(): Promise<void> { await this.op("waitForFunction"); }
  async screenshot(o: Record<string, unknown> = {}): Promise<Buffer> {
    await this.op("screenshot");
    // a screenshot forces a frame of its own
    this.frame(this.doc);
    const p = this.doc.painted as { times: Array<number | null>; smil: number | null };
    const shot: Shot = { html: this.doc.html, times: p.times, smil: p.smil, viewport: this.viewport, scale: this.ctx.options.deviceScaleFactor ?? 1, omit: o.omitBackground === true, clip: o.clip ?? null };
    return Buffer.from(`${JSON.stringify(shot)}\n`, "utf8");
  }
  async close(): Promise<void> { await this.op("pageClose"); this.dead = GONE; }
}
