import path from "node:path";
import { pathToFileURL } from "node:url";
export const REPO = process.env.VERIF_REPO ?? "/repo";
/** import a module of the code under test (its TypeScript source) */
export async function imp(rel: string): Promise<any> {
  return import(pathToFileURL(path.join(REPO, "src", rel)).href);
}
