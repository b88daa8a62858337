/**
 * A small *strict* XML parser: it accepts exactly the well-formed documents our
 * properties speak about and throws on anything a browser's XML parser would
 * reject (unbalanced tags, duplicate attributes, raw `&` / `<`, control
 * characters, bad comments, ...).
 */
export interface XNode {
  tag: string;
  attrs: Map<string, string>;
  children: XNode[];
  /** concatenated direct text (incl. CDATA) */
  text: string;
  parent: XNode | null;
  /** document order index */
  idx: number;
}
export class XmlError extends Error {}

const NAMED: Record<string, string> = { amp: "&", lt: "<", gt: ">", quot: '"', apos: "'" };
function badChar(cp: number): boolean {
  return !(cp === 9 || cp === 10 || cp === 13 || (cp >= 0x20 && cp <= 0xd7ff) || (cp >= 0xe000 && cp <= 0xfffd) || (cp >= 0x10000 && cp <= 0x10ffff));
}
function checkChars(s: string, where: number): void {
  for (let i = 0; i < s.length; i++) {
    const c = s.charCodeAt(i);
    if (c >= 0x20 && c < 0xd800) continue;
    const cp = s.codePointAt(i)!;
    if (badChar(cp)) throw new XmlError(`illegal character U+${cp.toString(16)} near offset ${where + i}`);
    if (cp > 0xffff) i++;
  }
}
export function decodeEntities(s: string, where = 0): string {
  if (s.indexOf("&") < 0) return s;
  return s.replace(/&([^;&\s<]*)(;?)/g, (full, body: string, semi: string) => {
    if (semi === "") throw new XmlError(`unterminated entity "${full.slice(0, 20)}" near offset ${where}`);
    if (body in NAMED) return NAMED[body];
    let m = /^#x([0-9a-fA-F]+)$/.exec(body);
    let cp = -1;
    if (m) cp = parseInt(m[1], 16);
    else if ((m = /^#([0-9]+)$/.exec(body))) cp = parseInt(m[1], 10);
    if (cp < 0) throw new XmlError(`undefined entity &${body}; near offset ${where}`);
    if (badChar(cp)) throw new XmlError(`illegal char reference &${body};`);
    return String.fromCodePoint(cp);
  });
}

const NAME = /[A-Za-z_:][-A-Za-z0-9_:.]*/y;

export function parseXml(src: string): XNode {
  checkChars(src, 0);
  let i = 0;
  let idx = 0;
  let root: XNode | null = null;
  const stack: XNode[] = [];
  const fail = (msg: string): never => {
    throw new XmlError(`${msg} at offset ${i}: …${src.slice(Math.max(0, i - 40), i + 40).replace(/\n/g, "\\n")}…`);
  };
  const addText = (t: string, raw: boolean): void => {
    if (stack.length === 0) {
      if (t.trim() !== "" && t !== "\ufeff") fail("text outside the root element");
      return;
    }
    stack[stack.length - 1].text += raw ? t : decodeEntities(t, i);
  };
  while (i < src.length) {
    if (src[i] !== "<") {
      let j = src.indexOf("<", i);
      if (j < 0) j = src.length;
      const t = src.slice(i, j);
      if (t.includes("]]>")) fail("']]>' in text");
      addText(t, false);
      i = j;
      continue;
    }
    if (src.startsWith("<!--", i)) {
      const j = src.indexOf("--", i + 4);
      if (j < 0) fail("unterminated comment");
      if (src[j + 2] !== ">") { i = j; fail("'--' inside a comment"); }
      i = j + 3;
      continue;
    }
    if (src.startsWith("<![CDATA[", i)) {
      const j = src.indexOf("]]>", i);
      if (j < 0) fail("unterminated CDATA");
      addText(src.slice(i + 9, j), true);
      i = j + 3;
      continue;
    }
    if (src.startsWith("<?", i)) {
      const j = src.indexOf("?>", i);
      if (j < 0) fail("unterminated PI");
      if (/^<\?xml\s/i.test(src.slice(i, i + 6)) && i !== 0) fail("XML declaration not at the start");
      i = j + 2;
      continue;
    }
    if (src.startsWith("<!", i)) {
      if (root != null) fail("declaration inside the document");
      const j = src.indexOf(">", i);
      if (j < 0) fail("unterminated declaration");
      i = j + 1;
      continue;
    }
    if (src[i + 1] === "/") {
      NAME.lastIndex = i + 2;
      const m = NAME.exec(src);
      if (!m) fail("bad end tag");
      let j = i + 2 + m![0].length;
      while (/\s/.test(src[j] ?? "")) j++;
      if (src[j] !== ">") fail("bad end tag");
      const top = stack.pop();
      if (top == null || top.tag !== m![0]) fail(`end tag </${m![0]}> does not match <${top?.tag ?? "nothing"}>`);
      i = j + 1;
      continue;
    }
    NAME.lastIndex = i + 1;
    const m = NAME.exec(src);
    if (!m) fail("raw '<'");
    const node: XNode = { tag: m![0], attrs: new Map(), children: [], text: "", parent: stack[stack.length - 1] ?? null, idx: idx++ };
    let j = i + 1 + m![0].length;
    for (;;) {
      const before = j;
      while (j < src.length && /\s/.test(src[j])) j++;
      if (src[j] === ">" || src.startsWith("/>", j)) break;
      if (j === before) { i = j; fail("missing whitespace before attribute"); }
      NAME.lastIndex = j;
      const a = NAME.exec(src);
      if (!a) { i = j; fail("bad attribute name"); }
      j += a![0].length;
      while (/\s/.test(src[j] ?? "")) j++;
      if (src[j] !== "=") { i = j; fail(`attribute ${a![0]} without value`); }
      j++;
      while (/\s/.test(src[j] ?? "")) j++;
      const q = src[j];
      if (q !== '"' && q !== "'") { i = j; fail(`unquoted attribute ${a![0]}`); }
      const k = src.indexOf(q, j + 1);
      if (k < 0) { i = j; fail("unterminated attribute"); }
      const rawV = src.slice(j + 1, k);
      if (rawV.includes("<")) { i = j; fail(`'<' in attribute ${a![0]}`); }
      if (node.attrs.has(a![0])) { i = j; fail(`duplicate attribute ${a![0]}`); }
      node.attrs.set(a![0], decodeEntities(rawV, j));
      j = k + 1;
    }
    for (const name of [node.tag, ...node.attrs.keys()]) {
      const c = name.indexOf(":");
      if (c < 0) continue;
      const prefix = name.slice(0, c);
      if (prefix === "xml" || prefix === "xmlns") continue;
      let up: XNode | null = node;
      while (up != null && !up.attrs.has(`xmlns:${prefix}`)) up = up.parent;
      if (up == null) fail(`namespace prefix ${prefix} of ${name} is not declared`);
    }
    if (node.parent != null) node.parent.children.push(node);
    else {
      if (root != null) { fail("more than one root element"); }
      root = node;
    }
    if (src[j] === "/") { i = j + 2; } else { stack.push(node); i = j + 1; }
  }
  if (stack.length > 0) fail(`unclosed <${stack[stack.length - 1].tag}>`);
  if (root == null) throw new XmlError("no root element");
  return root;
}

export function* walk(n: XNode): Generator<XNode> {
  yield n;
  for (const c of n.children) yield* walk(c);
}
