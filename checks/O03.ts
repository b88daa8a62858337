/** O03: local servers answer every request on its own and clean up. */
import http from "node:http";
import { mkdtempSync, mkdirSync, writeFileSync, rmSync, existsSync, readFileSync, readdirSync } from "node:fs";
import { tmpdir } from "node:os";
import path from "node:path";
import diagnostics from "node:diagnostics_channel";
import { defineCheck, type Ctx } from "../lib/check.ts";
import { imp } from "../lib/repo.ts";
import { Chrome, turn, type AnimSpec, type Shot } from "../lib/fakechrome.ts";
import { installFarm, Unhandled } from "../lib/fakeffmpeg.ts";
const { startScrubberServer } = await imp("scrubber/server.ts");
const { startReviewServer } = await imp("review/server.ts");

const scratch = mkdtempSync(path.join(tmpdir(), "o03-"));
process.env.TMPDIR = scratch;
const farm = installFarm();
const unhandled = new Unhandled();
// a clock that stands still: everything of one scenario happens in the same millisecond
const NOW = 1_700_000_000_000;
const realNow = Date.now;

// ---- a client whose every socket is its own ----
interface Answer { status: number; type: string; body: Buffer }
interface Call { sent: Promise<void>; done: Promise<Answer | null>; abort: () => Promise<void> }
const started = new Map<string, () => void>();
const gone = new Map<string, { is: boolean; fire: () => void }>();
diagnostics.subscribe("http.server.request.start", (m) => {
  const { request } = m as { request: http.IncomingMessage };
  const id = String(request.headers["x-id"] ?? "");
  started.get(id)?.();
  const g = gone.get(id);
  if (g != null) request.socket.once("close", () => { g.is = true; g.fire(); });
});
let serial = 0;
function call(base: string, method: string, url: string, body: string | null): Call {
  const id = `c${serial++}`, u = new URL(base);
  let fireSent!: () => void, fireGone!: () => void;
  const arrived = new Promise<void>((r) => { fireSent = r; });
  const closed = new Promise<void>((r) => { fireGone = r; });
  started.set(id, fireSent); gone.set(id, { is: false, fire: fireGone });
  const req = http.request({ host: u.hostname, port: u.port, method, path: url, agent: new http.Agent({ keepAlive: true }), headers: { "x-id": id, ...(body != null ? { "content-type": "application/json", "content-length": Buffer.byteLength(body) } : {}) } });
  let aborted = false;
  const done = new Promise<Answer | null>((resolve) => {
    req.on("response", (res) => {
      const chunks: Buffer[] = [];
      res.on("data", (c: Buffer) => chunks.push(c));
      res.on("end", () => { const sock = req.socket; setImmediate(() => sock?.resetAndDestroy()); resolve({ status: res.statusCode ?? 0, type: String(res.headers["content-type"] ?? ""), body: Buffer.concat(chunks) }); });
      res.on("error", () => resolve(null));
    });
    req.on("error", () => resolve(aborted ? null : { status: -1, type: "", body: Buffer.alloc(0) }));
  });
  req.end(body ?? undefined);
  // the handler has read the body and joined the queue a few turns after the request started
  return { sent: arrived.then(() => turn(12)), done, abort: async () => { aborted = true; const sock = req.socket; if (sock != null) sock.resetAndDestroy(); else req.destroy(); await Promise.race([closed, turn(400)]); await turn(6); } };
}

// ---- what can be asked ----
const PERIOD: Record<string, number> = { A: 400, B: 700 };
const svgOf = (k: string): string => `<svg id="${k}" viewBox="0 0 ${k === "A" ? "60 30" : "44 80"}"><style>@keyframes x{0%{opacity:0}100%{opacity:1}}#q{animation:x ${PERIOD[k] / 1000}s infinite}</style><rect id="q"/></svg>`;
interface Ask { n: string; method: string; url: string; body: string | null; /** null = as answered; else what is wrong */ judge: (a: Answer) => string | null; chromium: boolean }
const json = (a: Answer): Record<string, unknown> => { try { return JSON.parse(a.body.toString("utf8")) as Record<string, unknown>; } catch { return {}; } };
const shotAsk = (k: string, t: number, w: number, h: number, crop?: { x: number; y: number; w: number; h: number }): Ask => ({
  n: `frame ${k}@${t}${crop != null ? " crop" : ""}`, method: "POST", url: "/export-frame", chromium: true, body: JSON.stringify({ svg: svgOf(k), timeMs: t, width: w, height: h, crop }),
  judge: (a) => {
    if (a.status !== 200 || a.type !== "image/png") return `status ${a.status} ${a.type}`;
    const s = JSON.parse(a.body.toString("utf8")) as Shot;
    if (!s.html.includes(`<svg id="${k}"`)) return "shows another document";
    if (s.times.length !== 2 || s.times.some((x) => x !== t)) return `shows ${s.times} instead of ${t}`;
    if (JSON.stringify(s.viewport) !== JSON.stringify({ width: w, height: h })) return `viewport ${JSON.stringify(s.viewport)}`;
    return JSON.stringify(s.clip) === JSON.stringify(crop == null ? null : { x: crop.x, y: crop.y, width: crop.w, height: crop.h }) ? null : `clip ${JSON.stringify(s.clip)}`;
  },
});
const timingAsk = (k: string): Ask => ({ n: `timing ${k}`, method: "POST", url: "/timing", chromium: true, body: JSON.stringify({ svg: svgOf(k) }), judge: (a) => (a.status === 200 && json(a).durationMs === PERIOD[k] && json(a).width === (k === "A" ? 60 : 44) ? null : `status ${a.status} ${a.body}`) });
const videoAsk: Ask = { n: "video B", method: "POST", url: "/export-range-video", chromium: true, body: JSON.stringify({ svg: svgOf("B"), startMs: 100, endMs: 150, width: 44, height: 80 }), judge: (a) => {
  if (a.status !== 200) return `status ${a.status} ${a.body}`;
  const l = a.body.toString("utf8").slice(4).trimEnd().split("\n").map((x) => JSON.parse(x) as Shot);
  return l.length === 2 && l.every((s, i) => s.html.includes('<svg id="B"') && s.times.every((t) => Math.abs((t ?? -1) - (100 + (i * 1000) / 30)) < 1e-6)) ? null : "wrong frames";
} };
let review = 0;
const ticketAsk = (attach: boolean): Ask => {
  const title = `t${review++}`;
  return { n: `ticket${attach ? "+frame" : ""}`, method: "POST", url: "/ticket", chromium: attach, body: JSON.stringify({ title, note: `note ${title}`, svgName: "same name.svg", frameTimeMs: 50, rangeStartMs: 0, rangeEndMs: 100, regions: [{ x: 1, y: 2, w: 3, h: 4 }], attachFrame: attach, svg: attach ? svgOf("A") : undefined }), judge: (a) => {
    if (a.status !== 200) return `status ${a.status}`;
    const j = json(a);
    if (typeof j.path !== "string" || !existsSync(j.path)) return "no ticket file";
    if (path.dirname(j.path) !== ticketDir) return "written elsewhere";
    const t = JSON.parse(readFileSync(j.path, "utf8")) as Record<string, unknown>;
    if (t.title !== title || t.note !== `note ${title}`) return `its ticket file holds ${String(t.title)}`;
    if (attach && j.framePng != null) { const s = JSON.parse(readFileSync(String(j.framePng), "utf8")) as Shot; if (s.times.some((x) => x !== 50)) return "wrong frame attached"; }
    return null;
  } };
};
const PURE: Ask[] = [
  { n: "trim", method: "POST", url: "/trim", chromium: false, body: JSON.stringify({ svg: svgOf("A"), startMs: 100, endMs: 200, periodMs: 400 }), judge: (a) => (a.status === 200 && String(json(a).svg).includes('<svg id="A"') ? null : `status ${a.status}`) },
  { n: "not json", method: "POST", url: "/timing", chromium: false, body: "{", judge: (a) => (a.status === 400 ? null : `status ${a.status}`) },
  { n: "bad field", method: "POST", url: "/export-frame", chromium: false, body: JSON.stringify({ svg: svgOf("A"), timeMs: -1, width: 1e9, height: 0 }), judge: (a) => (a.status === 400 && /timeMs/.test(a.body.toString()) ? null : `status ${a.status}`) },
  { n: "empty range", method: "POST", url: "/export-range-video", chromium: false, body: JSON.stringify({ svg: svgOf("A"), startMs: 5, endMs: 5, width: 10, height: 10 }), judge: (a) => (a.status === 400 ? null : `status ${a.status}`) },
  { n: "shell", method: "GET", url: "/?x=1", chromium: false, body: null, judge: (a) => (a.status === 200 && a.type.startsWith("text/html") ? null : `status ${a.status}`) },
  { n: "client", method: "GET", url: "/client.js", chromium: false, body: null, judge: (a) => (a.status === 200 && /javascript/.test(a.type) && a.body.length > 1000 ? null : `status ${a.status}`) },
  { n: "unknown", method: "GET", url: "/client.js/../../package.json", chromium: false, body: null, judge: (a) => (a.status === 404 ? null : `status ${a.status}`) },
];
let ticketDir = scratch;

type Ev = "none" | "second" | "abort" | "abort+second" | "boom" | "timeout" | "target crashed" | "context closed" | "browser crash" | "close" | "abort+close" | "second+browser crash" | "second+abort+close" | "second+context closed";
const EVENTS: Ev[] = ["none", "second", "abort", "abort+second", "boom", "timeout", "target crashed", "context closed", "browser crash", "close", "abort+close", "second+browser crash", "second+abort+close", "second+context closed"];

async function scenario(ctx: Ctx, first: Ask, second: Ask, ev: Ev, at: number, lag: number, warm: boolean): Promise<number> {
  const anims = (html: string): AnimSpec[] => { const k = /<svg id="([AB])"/.exec(html)?.[1]; return k == null ? [] : [{ duration: PERIOD[k], iterations: Infinity, endTime: Infinity }, { duration: PERIOD[k], iterations: Infinity, endTime: Infinity, late: k === "B" }]; };
  const parts = new Set(ev.split("+"));
  let base = 0, r1: Call | null = null, r2: Call | null = null, closing: Promise<void> | null = null, aborted = false, fired = false, struck = "";
  let settled = Promise.resolve(), settle = (): void => {};
  const key = `${first.n} / ${second.n} | ${ev} at ${at} | lag ${lag}${warm ? " warm" : ""}`;
  const chrome = new Chrome({ anims, lag: () => lag, onOp: async (op, n, page) => {
    ctx.state(`${first.n}|${second.n}|${ev}|${n - base} ${op}|${chrome.alive}${fired}`);
    if (fired || n - base !== at || r1 == null) return;
    fired = true; struck = op;
    settled = new Promise((r) => { settle = r; });
    if (parts.has("second")) { r2 = send(second); await r2.sent; }
    if (parts.has("abort")) { aborted = true; await r1.abort(); }
    if (parts.has("close")) { closing = srv.close(); await turn(10); }
    settle();
    if (parts.has("boom")) throw new Error("boom");
    if (parts.has("timeout")) throw new Error(`${op}: Timeout 30000ms exceeded.`);
    if (parts.has("target crashed")) { if (page != null) page.dead = "Target crashed"; throw new Error(`page.${op}: Target crashed`); }
    if (parts.has("context closed")) { if (page != null) page.ctx.kill(); throw new Error(`page.${op}: Target page, context or browser has been closed`); }
    if (parts.has("browser crash")) { for (const b of chrome.browsers) b.crash(); throw new Error(`${op}: Target page, context or browser has been closed`); }
  } });
  farm.reset({ output: (p) => { const f = p.args[p.args.length - 1]; if (existsSync(path.dirname(f))) writeFileSync(f, Buffer.concat([Buffer.from("MP4:"), ...p.got])); } });
  ticketDir = path.join(scratch, `d${serial++}`);
  mkdirSync(ticketDir);
  unhandled.take();
  const srv = await startScrubberServer({ launchBrowser: chrome.launch, review: true, ticketDir, log: () => {} }) as { url: string; close: () => Promise<void> };
  const send = (a: Ask): Call => call(srv.url, a.method, a.url, a.body);
  let failed = false;
  const bad = (what: string): void => { if (!failed) ctx.fail(key, `${key}: ${what} (struck ${struck}); calls ${chrome.ops.join(" ")}`, { first: first.n, second: second.n, ev, at, lag, warm }); failed = true; };
  const wait = async (c: Call, what: string): Promise<Answer | null> => {
    const r = await Promise.race([c.done, new Promise<"late">((q) => setTimeout(() => q("late"), 5000).unref())]);
    if (r === "late") { bad(`${what} is never answered`); return null; }
    return r;
  };
  if (warm) { const a = await wait(send(timingAsk("B")), "warm-up"); if (a != null && timingAsk("B").judge(a) != null) bad("warm-up fails"); }
  base = chrome.ops.length;
  r1 = send(first);
  const a1 = await wait(r1, "the first request");
  await turn(4);
  await settled;
  const used = chrome.ops.length - base;
  if (r2 == null && closing == null) r2 = send(second);
  const a2 = r2 == null ? null : await wait(r2, "the second request");
  const hurts = fired && [...parts].some((p) => !["second", "abort", "close", "none"].includes(p));
  if (!aborted) {
    if (a1 == null) bad("the first request is cut off");
    else {
      const j = first.judge(a1);
      // a request whose own step failed says so; a ticket survives without its picture
      if (hurts ? j != null && a1.status !== 500 : j != null) bad(`the first request is answered wrongly: ${j}`);
    }
  }
  if (r2 != null) { if (a2 == null) bad("the second request is cut off"); else { const j = second.judge(a2); if (j != null) bad(`the second request is answered wrongly: ${j}`); } }
  if (closing == null) {
    for (const [n, q] of [["third", shotAsk("A", 123, 60, 30)], ["fourth", timingAsk("B")]] as Array<[string, Ask]>) {
      const a = await wait(send(q), `the ${n} request`);
      const j = a == null ? "cut off" : q.judge(a);
      if (j != null) bad(`the ${n} request is answered wrongly: ${j}`);
    }
    if (!aborted && a1?.status === 200) { const j = first.judge(a1); if (j != null) bad(`the first answer no longer holds: ${j}`); }
    closing = srv.close();
  }
  const shut = await Promise.race([(closing as Promise<void>).then(() => true, () => true), new Promise<boolean>((q) => setTimeout(() => q(false), 7000).unref())]);
  if (!shut) bad("close hangs");
  if (chrome.alive > 0) bad("close leaves a browser running");
  // nothing may start up again afterwards either
  await turn(40 + 12 * lag);
  if (chrome.alive > 0) bad("a browser is started after close");
  if (farm.alive > 0) bad("an encoder is left running");
  const temp = readdirSync(scratch).filter((f) => f.startsWith("scrubber-"));
  if (temp.length > 0) { bad(`${temp[0]} left behind`); for (const f of temp) rmSync(path.join(scratch, f), { recursive: true, force: true }); }
  const un = unhandled.take();
  if (un.length > 0) bad(`ends the process: ${un[0]}`);
  ctx.trace(); ctx.step(chrome.ops.length + 4);
  rmSync(ticketDir, { recursive: true, force: true });
  started.clear(); gone.clear();
  return used;
}

/** how HTML ends a script element that starts with `s` */
function scriptText(s: string): string | null {
  let mode = 0;
  for (let i = 0; i < s.length; i++) {
    const r = s.slice(i, i + 9).toLowerCase();
    if (mode === 0) { if (r.startsWith("<!--")) mode = 1; else if (/^<\/script[\s/>]/.test(r)) return s.slice(0, i); } else if (r.startsWith("-->")) mode = 0;
    else if (mode === 1) { if (/^<script[\s/>]/.test(r)) mode = 2; else if (/^<\/script[\s/>]/.test(r)) return s.slice(0, i); } else if (/^<\/script[\s/>]/.test(r)) mode = 1;
  }
  return null;
}
const NASTY = ["plain", "</script>", "<script>alert(1)</script>", "<!--", "<!--<script>", "]]>", "\u2028\u2029", "\\u003c", "\"'`", "&lt;/script&gt;", "</SCRIPT >", "</style><b onclick=x>", "a\0b", "😀\ud800"];
async function shells(ctx: Ctx, mine: () => boolean): Promise<void> {
  for (const a of NASTY) for (const b of NASTY) {
    if (!mine()) continue;
    ctx.trace(); ctx.step();
    const want = { svg: `<svg>${a}</svg>`, name: b, path: `/x/${a}`, review: false };
    const s = await startScrubberServer({ launchBrowser: () => Promise.reject(new Error("no")), initialSvg: want.svg, initialName: b, initialPath: want.path }) as { url: string; close: () => Promise<void> };
    const html = (await call(s.url, "GET", "/", null).done)!.body.toString("utf8");
    await s.close();
    const at = html.indexOf("window.__SCRUBBER_BOOTSTRAP__");
    const text = scriptText(html.slice(at));
    let got: unknown = "(no script)";
    try { const w: Record<string, unknown> = {}; new Function("window", text ?? "")(w); got = w.__SCRUBBER_BOOTSTRAP__; } catch (e) { got = String(e); }
    const norm = (x: unknown): string => JSON.stringify(x);
    if (norm(got) !== norm(want) || (html.match(/<script[\s>]/gi) ?? []).length !== 2 || /<b onclick/.test(html.slice(0, at) + html.slice(at + (text?.length ?? 0)))) ctx.fail(`shell ${NASTY.indexOf(a)} ${NASTY.indexOf(b)}`, `an initial document containing ${JSON.stringify(a)} named ${JSON.stringify(b)} reaches the page as ${norm(got).slice(0, 120)}`, { a, b });
  }
  const dir = path.join(scratch, `rev${process.pid}`);
  mkdirSync(dir, { recursive: true });
  const f = (n: string, c: string): string => { const p = path.join(dir, n); writeFileSync(p, c); return p; };
  for (const a of NASTY) {
    if (!mine()) continue;
    ctx.trace(); ctx.step();
    const paths = { expectedPng: f("e.png", "E"), actualPng: f("a.png", "A"), actualSvg: f("a.svg", "<svg/>"), diffPng: f("d.png", "D") };
    writeFileSync(path.join(dir, "secret.txt"), "SECRET");
    const s = await startReviewServer({ ...paths, label: a }) as { url: string; close: () => Promise<void> };
    const bad = (what: string): void => ctx.fail(`review ${NASTY.indexOf(a)} ${what.slice(0, 30)}`, `review server labelled ${JSON.stringify(a)}: ${what}`, { a });
    // a file that vanishes after start does not matter
    rmSync(paths.actualPng);
    for (const [u, want] of [["/expected.png", "E"], ["/actual.png", "A"], ["/actual.svg", "<svg/>"], ["/diff.png?1", "D"], ["/secret.txt", null], ["/../secret.txt", null], ["/%2e%2e/secret.txt", null], ["//etc/passwd", null], ["/constructor", null], ["/__proto__", null], ["/toString", null]] as Array<[string, string | null]>) {
      const q = await call(s.url, "GET", u, null).done;
      if (q == null) bad(`${u} is not answered`);
      else if (want == null ? q.status !== 404 : q.status !== 200 || q.body.toString() !== want) bad(`${u} answers ${q.status} ${q.body.toString().slice(0, 40)}`);
    }
    const html = (await call(s.url, "GET", "/", null).done)!.body.toString("utf8");
    await s.close();
    const at = html.indexOf("window.__SVG_REVIEW__");
    const text = scriptText(html.slice(at));
    let got: unknown = "(no script)";
    try { const w: Record<string, { label: string }> = {}; new Function("window", text ?? "")(w); got = w.__SVG_REVIEW__?.label; } catch (e) { got = String(e); }
    if (got !== a) bad(`its label reaches the page as ${JSON.stringify(got).slice(0, 80)}`);
    if (html.includes("<b onclick") && !html.slice(at, at + (text?.length ?? 0)).includes("<b onclick")) bad("its label becomes markup");
  }
  rmSync(dir, { recursive: true, force: true });
}

export default defineCheck({
  spec: {
    id: "O03",
    bounds: `first request of 8 kinds, ${EVENTS.length} events (a second request, a client abort, 5 kinds of browser failure, close, combinations) at every browser call of the first request, second requests of 5 (thorough 15) kinds, 2 (thorough 3) schedules, cold and warm browser; two further requests and a close end every history; ${NASTY.length}² initial documents for the shell pages; the review server's routes`,
    assumptions: ["Chromium and ffmpeg are modelled (lib/fakechrome.ts, lib/fakeffmpeg.ts); the HTTP connections are real", "all of a history happens within one millisecond of the clock"],
  },
  shards: 8,
  async run(ctx, sh) {
    let k = 0;
    const mine = (): boolean => k++ % sh.n === sh.i;
    Date.now = () => NOW;
    try {
      const firsts: Array<() => Ask> = [() => timingAsk("A"), () => shotAsk("A", 250, 60, 30), () => shotAsk("B", 0, 44, 80, { x: 3, y: 4, w: 10, h: 20 }), () => videoAsk, () => ticketAsk(true), () => ticketAsk(false), () => PURE[0], () => PURE[1]];
      const seconds: Array<() => Ask> = [() => shotAsk("B", 60, 44, 80), () => timingAsk("B"), () => ticketAsk(true), () => ticketAsk(false), () => videoAsk, () => shotAsk("A", 250, 60, 30), () => shotAsk("A", 10, 30, 15, { x: 0, y: 0, w: 5, h: 5 }), () => timingAsk("A"), ...PURE.map((p) => () => p)];
      const use = ctx.thorough ? seconds : seconds.slice(0, 5);
      for (const lag of ctx.thorough ? [0, 1, 4] : [0, 2]) for (const warm of [false, true]) for (const f of firsts) {
        const ops = await scenario(ctx, f(), PURE[4], "none", -1, lag, warm);
        const evs = EVENTS.slice(1);
        for (const s of use) {
          if (mine()) await scenario(ctx, f(), s(), "none", -1, lag, warm);
          for (const ev of evs) for (let at = 0; at < ops; at++) if (mine()) await scenario(ctx, f(), s(), ev, at, lag, warm);
        }
        if (!ctx.thorough) for (const p of PURE) if (mine()) await scenario(ctx, f(), p, "second", 0, lag, warm);
      }
      Date.now = realNow;
      await shells(ctx, mine);
    } finally {
      Date.now = realNow;
      unhandled.stop();
      rmSync(scratch, { recursive: true, force: true });
    }
  },
});
