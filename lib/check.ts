/** Check harness: counts, violations, known findings, evidence. */
import { mkdirSync, readFileSync, writeFileSync, existsSync } from "node:fs";
import { createHash } from "node:crypto";
import path from "node:path";
import { fileURLToPath } from "node:url";

export const VERIF = path.resolve(path.dirname(fileURLToPath(import.meta.url)), "..");
export const REPO = process.env.VERIF_REPO ?? "/repo";

export type Level = "model_checking" | "fault_enumeration" | "exploration";
export interface CheckSpec {
  id: string;
  level?: Level;
  /** stated bounds, written to the evidence */
  bounds: string;
  assumptions: string[];
  /** evidence rule for exploration/fault_enumeration */
  rule?: string;
}
function h53(s: string): number {
  let a = 0xdeadbeef, b = 0x41c6ce57;
  for (let i = 0; i < s.length; i++) { const c = s.charCodeAt(i); a = Math.imul(a ^ c, 2654435761); b = Math.imul(b ^ c, 1597334677); }
  a = Math.imul(a ^ (a >>> 16), 2246822507) ^ Math.imul(b ^ (b >>> 13), 3266489909);
  b = Math.imul(b ^ (b >>> 16), 2246822507) ^ Math.imul(a ^ (a >>> 13), 3266489909);
  return 4294967296 * (2097151 & b) + (a >>> 0);
}
export function hashStr(s: string): string { return createHash("sha1").update(s).digest("hex").slice(0, 12); }

export class Ctx {
  readonly tier: "quick" | "thorough";
  readonly t0 = Date.now();
  private states = new Set<number>();
  transitions = 0;
  traces = 0;
  evaluations = 0;
  private outcomes = new Set<number>();
  private nontrivial = new Set<number>();
  samples: unknown[] = [];
  violations: Array<{ key: string; msg: string; replay: unknown; n: number }> = [];
  private byKey = new Map<string, { key: string; msg: string; replay: unknown; n: number }>();
  extra: Record<string, unknown> = {};
  readonly known: Array<{ re: RegExp; text: string; hits: number }> = [];
  constructor(public spec: CheckSpec) {
    this.tier = process.env.VERIF_TIER === "thorough" || process.argv.includes("--thorough") ? "thorough" : "quick";
    const f = path.join(VERIF, "known-findings.txt");
    if (existsSync(f)) {
      for (const line of readFileSync(f, "utf8").split("\n")) {
        const m = /^known: property=(\S+) key=(\S+) (.*)$/.exec(line);
        if (m && m[1] === spec.id) this.known.push({ re: new RegExp(`^${m[2]}$`), text: m[3], hits: 0 });
      }
    }
  }
  get thorough(): boolean { return this.tier === "thorough"; }
  /** record a state of the explored space (canonical key) */
  state(key: string): boolean { const h = h53(key); if (this.states.has(h)) return false; this.states.add(h); return true; }
  step(n = 1): void { this.transitions += n; }
  trace(n = 1): void { this.traces += n; }
  evaluate(n = 1): void { this.evaluations += n; }
  outcome(key: string): void { this.outcomes.add(h53(key)); }
  nonTrivial(key: string): void { this.nontrivial.add(h53(key)); }
  sample(x: unknown): void { if (this.samples.length < 6) this.samples.push(x); }
  note(k: string, v: unknown): void { this.extra[k] = v; }
  count(k: string, n = 1): void { this.extra[k] = ((this.extra[k] as number | undefined) ?? 0) + n; }
  /** `key` identifies the failing input (stable); msg is for humans; replay is written to a file */
  fail(key: string, msg: string, replay: unknown): void {
    const k = key.replace(/\s+/g, "_");
    let v = this.byKey.get(k);
    if (v == null) { v = { key: k, msg, replay, n: 0 }; this.byKey.set(k, v); this.violations.push(v); }
    v.n++;
  }
  get failed(): boolean { return this.violations.length > 0; }
  get stateCount(): number { return this.states.size; }
  merge(o: ShardResult): void {
    for (const h of o.states) this.states.add(h);
    for (const h of o.outcomes) this.outcomes.add(h);
    for (const h of o.nontrivial) this.nontrivial.add(h);
    this.transitions += o.transitions; this.traces += o.traces; this.evaluations += o.evaluations;
    for (const s of o.samples) this.sample(s);
    for (const v of o.violations) { for (let i = 0; i < v.n; i++) this.fail(v.key, v.msg, v.replay); }
    for (const [k, v] of Object.entries(o.extra)) {
      if (typeof v === "number") this.count(k, v); else this.extra[k] = v;
    }
  }
  dump(): ShardResult {
    return { states: [...this.states], outcomes: [...this.outcomes], nontrivial: [...this.nontrivial], transitions: this.transitions, traces: this.traces, evaluations: this.evaluations, samples: this.samples, violations: this.violations.slice(0, 400), extra: this.extra };
  }
  finish(): number {
    const { spec } = this;
    let real = 0;
    const printedKnown = new Set<string>();
    const dir = path.join(VERIF, "evidence", "replays");
    mkdirSync(dir, { recursive: true });
    for (const v of this.violations) {
      const kf = this.known.find((k) => k.re.test(v.key));
      if (kf != null) {
        kf.hits++;
        if (!printedKnown.has(kf.text)) { printedKnown.add(kf.text); console.log(`KNOWN-FINDING: property=${spec.id} ${kf.text}`); }
        continue;
      }
      real++;
      if (process.env.VERIF_ALLKEYS != null) console.log(`ALLKEY ${v.key} (${v.n}x) ${v.msg.slice(0, 220)}`);
      if (real <= 5) {
        const file = path.join(dir, `${spec.id}-${hashStr(v.key)}.json`);
        writeFileSync(file, JSON.stringify({ property: spec.id, key: v.key, message: v.msg, occurrences: v.n, replay: v.replay }, null, 2));
        console.log(`VIOLATION property=${spec.id} replay=${file}`);
        console.log(`  key=${v.key} (${v.n}x)\n  ${v.msg.slice(0, 1500)}`);
      }
    }
    const wall = (Date.now() - this.t0) / 1000;
    const level = spec.level ?? "model_checking";
    const coverage: Record<string, unknown> = level === "model_checking"
      ? { states: this.states.size, transitions: this.transitions, traces_validated_against_impl: this.traces, samples: this.samples, exhaustive: true }
      : { evaluations: this.evaluations, distinct_nontrivial: this.nontrivial.size, rule: spec.rule ?? "", samples: this.samples, states: this.states.size, exhaustive: true };
    coverage.bounds = spec.bounds;
    coverage.distinct_outcomes = this.outcomes.size;
    Object.assign(coverage, this.extra);
    mkdirSync(path.join(VERIF, "evidence"), { recursive: true });
    writeFileSync(path.join(VERIF, "evidence", `${spec.id}.json`), JSON.stringify({
      property: spec.id, tier: this.tier, seed: Number(process.env.VERIF_SEED ?? 1), level, coverage, assumptions: spec.assumptions, wall_s: wall, violations: real,
    }, null, 2));
    console.log(`${spec.id} ${this.tier}: states=${this.states.size} transitions=${this.transitions} traces=${this.traces} evaluations=${this.evaluations} outcomes=${this.outcomes.size} violations=${real} known=${printedKnown.size} wall=${wall.toFixed(1)}s`);
    return real > 0 ? 1 : 0;
  }
}
export interface ShardResult {
  states: number[]; outcomes: number[]; nontrivial: number[]; transitions: number; traces: number; evaluations: number;
  samples: unknown[]; violations: Array<{ key: string; msg: string; replay: unknown; n: number }>; extra: Record<string, unknown>;
}
export interface Check { spec: CheckSpec; run: (ctx: Ctx, shard: { i: number; n: number }) => Promise<void> | void; shards?: number }
export function defineCheck(c: Check): Check { return c; }

/** cartesian product helper */
export function* product<T extends readonly unknown[][]>(...lists: T): Generator<{ [K in keyof T]: T[K] extends ReadonlyArray<infer U> ? U : never }> {
  const idx = lists.map(() => 0);
  if (lists.some((l) => l.length === 0)) return;
  for (;;) {
    yield idx.map((i, k) => lists[k][i]) as never;
    let k = lists.length - 1;
    while (k >= 0 && ++idx[k] >= lists[k].length) idx[k--] = 0;
    if (k < 0) return;
  }
}
/** all words over `alphabet` of length lo..hi, shortest first */
export function* words<T>(alphabet: readonly T[], lo: number, hi: number): Generator<T[]> {
  for (let n = lo; n <= hi; n++) {
    if (n === 0) { yield []; continue; }
    const idx = new Array<number>(n).fill(0);
    for (;;) {
      yield idx.map((i) => alphabet[i]);
      let k = n - 1;
      while (k >= 0 && ++idx[k] >= alphabet.length) idx[k--] = 0;
      if (k < 0) break;
    }
  }
}
