import { fork } from "node:child_process";
import { mkdtempSync, writeFileSync, readFileSync, rmSync } from "node:fs";
import { tmpdir } from "node:os";
import path from "node:path";
import { Ctx, VERIF, type Check, type ShardResult } from "../lib/check.ts";

const id = process.argv[2];
const check = ((await import(path.join(VERIF, "checks", `${id}.ts`))) as { default: Check }).default;
/** an exception out of the code under test is an observation, not a failure to decide */
async function guarded(c: Ctx, shard: { i: number; n: number }): Promise<void> {
  try { await check.run(c, shard); } catch (e) {
    const stack = String((e as Error)?.stack ?? e);
    c.fail("exception", `the exploration ended with an exception: ${stack}`, { stack });
  }
}
const n = check.shards ?? 1;
const shardArg = process.argv.find((a) => a.startsWith("--shard="));
if (shardArg != null) {
  const [i, total, out] = shardArg.slice(8).split(":");
  const ctx = new Ctx(check.spec);
  await guarded(ctx, { i: Number(i), n: Number(total) });
  writeFileSync(out, JSON.stringify(ctx.dump()));
  process.exit(0);
}
const ctx = new Ctx(check.spec);
if (n <= 1) {
  await guarded(ctx, { i: 0, n: 1 });
} else {
  const dir = mkdtempSync(path.join(tmpdir(), "verif-shards-"));
  try {
    const only = process.argv.find((a) => a.startsWith("--only="));
    const ids = only != null ? [Number(only.slice(7))] : [...Array(n).keys()];
    await Promise.all(ids.map((i) => new Promise<void>((res, rej) => {
      const out = path.join(dir, `${i}.json`);
      const c = fork(process.argv[1], [id, `--shard=${i}:${n}:${out}`, ...process.argv.slice(3)], { execArgv: process.execArgv, stdio: ["ignore", "inherit", "inherit", "ipc"] });
      c.on("exit", (code, sig) => {
        if (code !== 0) { rej(new Error(`shard ${i} ended with code ${code} signal ${sig}`)); return; }
        ctx.merge(JSON.parse(readFileSync(out, "utf8")) as ShardResult);
        res();
      });
    })));
  } finally {
    rmSync(dir, { recursive: true, force: true });
  }
}
process.exit(ctx.finish());
