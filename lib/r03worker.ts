/** One operation in a process state nothing has been drawn in. */
import { parentPort, workerData } from "node:worker_threads";
import { REPO } from "./repo.ts";
const { register } = (await import(`${REPO}/node_modules/tsx/dist/esm/api/index.mjs`)) as { register: () => void };
register();
const { ops, resources, readBack } = await import("./r03docs.ts");
const op = ops().find((o) => o.n === (workerData as { n: string }).n)!;
const out = op.run(), res = resources();
parentPort!.postMessage({ out, res, back: readBack(out, res) });
