/** One installer in a thread of its own; every file-system step waits for the scheduler. */
import { workerData } from "node:worker_threads";
import { imp, REPO } from "./repo.ts";
import { installVfs, ROOT, errno } from "./vfs.ts";
import { fakeFetch, FINE } from "./o04net.ts";
const { register } = (await import(`${REPO}/node_modules/tsx/dist/esm/api/index.mjs`)) as { register: () => void };
register();
const { ctl, buf } = workerData as { ctl: SharedArrayBuffer; buf: SharedArrayBuffer };
const c = new Int32Array(ctl), b = Buffer.from(buf);
/** c[0]: whose turn (0 scheduler, 1 worker); c[1]: length; c[2]: kind */
function exchange(kind: number, text: string): string {
  c[1] = b.write(text); c[2] = kind;
  Atomics.store(c, 0, 0); Atomics.notify(c, 0);
  while (Atomics.load(c, 0) === 0) Atomics.wait(c, 0, 0); // a late notify of the last exchange may wake us too early
  return b.toString("utf8", 0, c[1]);
}
installVfs((p) => { const r = JSON.parse(exchange(1, JSON.stringify(p))) as { v?: unknown; e?: string }; if (r.e != null) throw errno(r.e, p.op); return r.v; });
globalThis.fetch = fakeFetch(() => FINE);
const g = await imp("render/helper-acquire.ts"), u = await imp("render/icu-helper-acquire.ts");
let answer = "ready";
for (;;) {
  const job = JSON.parse(exchange(2, answer)) as { what: string; pid: number; platform: string; direct: boolean };
  Object.defineProperty(process, "pid", { value: job.pid, configurable: true });
  const o = { platform: job.platform, arch: "x64", version: "1", cacheDir: `${ROOT}/c/d` };
  try { answer = String(await (job.what === "glyph" ? g.acquireGlyphHelper(o) : u.acquireIcuCompanion(o))); } catch (e) { answer = `threw ${String(e)}`; }
}
