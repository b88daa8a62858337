/** The release server, as a stand-in for fetch. */
import { createHash } from "node:crypto";
export const sha = (b: Buffer): string => createHash("sha256").update(b).digest("hex");
/** what is published under each asset name */
export const published = (asset: string): Buffer => Buffer.from(`published bytes of ${asset} ${"x".repeat(40)}`);
export const ASSET = ["ok", "404", "500", "reject", "cut", "short", "flip", "empty", "extra", "html"] as const;
export const SIDE = ["ok", "upper", "bare", "404", "reject", "other", "empty", "blank", "html", "cut", "prefix", "of empty", "of the bad body"] as const;
export interface Net { asset: (typeof ASSET)[number]; side: (typeof SIDE)[number]; /** which asset it concerns; others are fine */ which: string | null; assetLag: number; sideLag: number }
export const FINE: Net = { asset: "ok", side: "ok", which: null, assetLag: 0, sideLag: 0 };
const stream = (b: Buffer, breaks: boolean): ReadableStream => new ReadableStream({ start(c) { if (b.length > 0) c.enqueue(new Uint8Array(b.subarray(0, breaks ? b.length >> 1 : b.length))); if (breaks) c.error(new TypeError("terminated")); else c.close(); } });
const bad = (net: Net, body: Buffer): Buffer => {
  switch (net.asset) {
    case "short": return body.subarray(0, body.length >> 1);
    case "flip": { const b = Buffer.from(body); b[7] ^= 1; return b; }
    case "empty": return Buffer.alloc(0);
    case "extra": return Buffer.concat([body, Buffer.from("\n")]);
    case "html": return Buffer.from("<!doctype html><p>sign in");
    default: return body;
  }
};
export function fakeFetch(net: () => Net): typeof fetch {
  return (async (input: string | URL | Request) => {
    const url = String(input instanceof Request ? input.url : input), n = net();
    const isSide = url.endsWith(".sha256"), asset = (isSide ? url.slice(0, -7) : url).replace(/^.*\//, "");
    const hit = n.which == null || n.which === asset;
    const a = hit ? n.asset : "ok", s = hit ? n.side : "ok";
    for (let i = 0; i < (isSide ? n.sideLag : n.assetLag); i++) await new Promise((r) => setImmediate(r));
    const body = published(asset);
    if (!isSide) {
      if (a === "reject") throw new TypeError("fetch failed");
      if (a === "404" || a === "500") return new Response("Not Found", { status: Number(a) });
      return new Response(stream(bad({ ...n, asset: a }, body), a === "cut"), { status: 200 });
    }
    const h = sha(body), line = `${h}  ${asset}\n`;
    switch (s) {
      case "reject": throw new TypeError("fetch failed");
      case "404": return new Response("Not Found", { status: 404 });
      case "upper": return new Response(`${h.toUpperCase()}  ${asset}\n`);
      case "bare": return new Response(`\n ${h}`);
      case "other": return new Response(`${sha(Buffer.from("other"))}  ${asset}\n`);
      case "empty": return new Response("");
      case "blank": return new Response(" \n\n");
      case "html": return new Response("<!doctype html>");
      case "cut": return new Response(stream(Buffer.from(line), true));
      case "prefix": return new Response(`${h.slice(0, 20)}  ${asset}\n`);
      case "of empty": return new Response(`${sha(Buffer.alloc(0))}  ${asset}\n`);
      case "of the bad body": return new Response(`${sha(bad({ ...n, asset: a }, body))}  ${asset}\n`);
      default: return new Response(line);
    }
  }) as typeof fetch;
}
