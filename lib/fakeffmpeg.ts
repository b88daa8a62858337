/** A modelled encoder process behind node:child_process, with real stream semantics on its stdin. */
import { EventEmitter } from "node:events";
import { Writable, PassThrough } from "node:stream";
import { createRequire, syncBuiltinESMExports } from "node:module";
import { turn } from "./fakechrome.ts";
export interface Death { /** dies once this many writes were consumed; "end": at end of input; "spawn": never starts */ at: number | "end" | "spawn" | "throw"; code: number | null; signal?: string; /** turns between the pipe breaking and the process being reaped (negative: reaped first) */ skew: number }
export class FakeProc extends EventEmitter {
  running = true;
  exitCode: number | null = null;
  signalCode: string | null = null;
  killed = false;
  pid = 4242;
  got: Buffer[] = [];
  ended = false;
  broken = false;
  dying = false;
  stdin: Writable;
  stdout = null;
  stderr: PassThrough;
  constructor(public farm: Farm, public args: string[]) {
    super();
    const death = farm.death;
    this.stderr = new PassThrough();
    const epipe = (c: string): Error => Object.assign(new Error(`write ${c}`), { code: c, errno: -32, syscall: "write" });
    this.stdin = new Writable({
      highWaterMark: 16384,
      write: (chunk: Buffer, _enc, cb) => {
        void turn(farm.writeLag).then(() => {
          if (this.broken) { cb(epipe("EPIPE")); return; }
          this.got.push(Buffer.from(chunk));
          if (death != null && death.at === this.got.length) this.die(death, cb, epipe);
          else cb();
        });
      },
      final: (cb) => { void turn(farm.writeLag).then(() => { this.ended = true; cb(); if (this.running && !this.broken) { if (death != null && death.at === "end" && death.code !== 0) this.exit(death.code, death.signal ?? null); else this.finish(); } }); },
      destroy: (err, cb) => { this.broken = true; cb(err); if (this.running && !this.ended && !this.dying) { this.ended = true; void turn(1).then(() => { if (this.running) this.finish(); }); } },
    });
    if (death?.at === "spawn") {
      this.running = false; this.broken = true;
      process.nextTick(() => { this.stdin.destroy(); this.emit("error", Object.assign(new Error("spawn ffmpeg ENOENT"), { code: "ENOENT", syscall: "spawn ffmpeg" })); setImmediate(() => this.emit("close", -2, null)); });
    } else if (death?.at === 0) this.die(death, null, epipe);
  }
  /** end of input: flush and leave */
  private finish(): void { this.farm.output(this); this.exit(0, null); }
  private exit(code: number | null, signal: string | null): void {
    if (!this.running) return;
    this.running = false; this.broken = true;
    if (code !== 0) this.stderr.write("encoder says no\n");
    void turn(this.farm.exitLag).then(() => {
      this.exitCode = code; this.signalCode = signal;
      this.emit("exit", code, signal);
      this.stderr.end();
      void turn(1).then(() => { this.emit("close", code, signal); });
    });
  }
  private die(d: Death, cb: ((e?: Error) => void) | null, epipe: (c: string) => Error): void {
    this.dying = true;
    // the last chunk may or may not be acknowledged before the pipe breaks
    if (d.skew >= 0) { this.broken = true; cb?.(); void turn(d.skew).then(() => this.exit(d.code, d.signal ?? null)); }
    else { this.exit(d.code, d.signal ?? null); void turn(-d.skew).then(() => cb?.(epipe("EPIPE"))); }
  }
  kill(sig = "SIGTERM"): boolean { if (!this.running) return false; this.killed = true; this.exit(null, sig); return true; }
  ref(): void {} unref(): void {}
}
export class Farm {
  procs: FakeProc[] = [];
  death: Death | null = null;
  writeLag = 1;
  exitLag = 1;
  missing = false;
  output: (p: FakeProc) => void = () => {};
  reset(o: Partial<Farm>): void { this.procs = []; this.death = null; this.writeLag = 1; this.exitLag = 1; this.missing = false; this.output = () => {}; Object.assign(this, o); }
  spawn = (_cmd: string, args: string[]): FakeProc => {
    if (this.death?.at === "throw") throw Object.assign(new Error("spawn E2BIG"), { code: "E2BIG" });
    const p = new FakeProc(this, args);
    this.procs.push(p);
    return p;
  };
  spawnSync = (): { status: number | null; error?: Error } => (this.missing ? { status: null, error: new Error("ENOENT") } : { status: 0 });
  get alive(): number { return this.procs.filter((p) => p.running).length; }
}
/** replace node:child_process' spawn for every module of this process */
export function installFarm(): Farm {
  const farm = new Farm();
  const cp = createRequire(import.meta.url)("node:child_process") as Record<string, unknown>;
  cp.spawn = farm.spawn;
  cp.spawnSync = farm.spawnSync;
  syncBuiltinESMExports();
  return farm;
}
/** collects what would otherwise end the process */
export class Unhandled {
  seen: string[] = [];
  private a = (e: unknown): void => { this.seen.push(`uncaught: ${String(e instanceof Error ? e.message : e)}`); };
  private b = (e: unknown): void => { this.seen.push(`unhandled rejection: ${String(e instanceof Error ? e.message : e)}`); };
  constructor() { process.on("uncaughtException", this.a); process.on("unhandledRejection", this.b); }
  take(): string[] { const s = this.seen; this.seen = []; return s; }
  stop(): void { process.off("uncaughtException", this.a); process.off("unhandledRejection", this.b); }
}
