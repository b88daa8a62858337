export * from "/repo/src/capture/index.ts";
type P = { __capture(): unknown };
export async function captureElementTree(page: P, selector?: string, viewport?: unknown): Promise<unknown> { return (page as { __capture(s?: string, v?: unknown): unknown }).__capture(selector, viewport); }
export async function captureElementTreeWithWarnings(page: P, selector?: string, viewport?: unknown): Promise<unknown> { return { tree: await captureElementTree(page, selector, viewport), warnings: [] }; }
export async function captureElementTreeSelfContained(page: P, selector?: string, viewport?: unknown): Promise<unknown> { return captureElementTree(page, selector, viewport); }
