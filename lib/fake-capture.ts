/**
 * Stands in for the browser capture: captureElementTree(page) returns page.__capture().
 * Everything else of src/capture is the real module. Import this BEFORE any /repo module.
 */
import { registerHooks } from "node:module";
import { pathToFileURL, fileURLToPath } from "node:url";
import path from "node:path";
import { REPO } from "./check.ts";
const real = pathToFileURL(path.join(REPO, "src/capture/index.ts")).href;
const stub = pathToFileURL(path.join(path.dirname(fileURLToPath(import.meta.url)), "fake-capture-stub.ts")).href;
registerHooks({
  resolve(spec, ctx, next) {
    const r = next(spec, ctx);
    if (r.url.split("?")[0] === real && ctx.parentURL?.split("?")[0] !== stub) return { ...r, url: stub, format: "module" };
    return r;
  },
});
