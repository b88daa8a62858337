/** Minimal captured-element trees. */
export interface El { tag: string; text: string; x: number; y: number; width: number; height: number; children: El[]; styles: Record<string, string>; [k: string]: unknown }
const BASE: Record<string, string> = {
  backgroundColor: "rgba(0, 0, 0, 0)", borderColor: "rgb(0, 0, 0)", borderWidth: "0", borderRadius: "0",
  borderTopLeftRadius: "0", borderTopRightRadius: "0", borderBottomRightRadius: "0", borderBottomLeftRadius: "0",
  borderTopWidth: "0", borderRightWidth: "0", borderBottomWidth: "0", borderLeftWidth: "0",
  borderTopColor: "rgb(0, 0, 0)", borderRightColor: "rgb(0, 0, 0)", borderBottomColor: "rgb(0, 0, 0)", borderLeftColor: "rgb(0, 0, 0)",
  borderTopStyle: "none", borderRightStyle: "none", borderBottomStyle: "none", borderLeftStyle: "none",
  color: "rgb(0, 0, 0)", fontSize: "16px", fontFamily: "sans-serif", fontWeight: "400", fontStyle: "normal", lineHeight: "20px",
  letterSpacing: "normal", textAlign: "left", textTransform: "none", textDecoration: "none", textDecorationLine: "none",
  textDecorationStyle: "solid", textDecorationColor: "rgb(0, 0, 0)", textDecorationThickness: "auto", textUnderlineOffset: "auto",
  whiteSpace: "normal", wordSpacing: "0", verticalAlign: "baseline", direction: "ltr", writingMode: "horizontal-tb",
  opacity: "1", overflow: "visible", overflowX: "visible", overflowY: "visible", display: "block", position: "static", top: "auto", left: "auto", right: "auto", bottom: "auto",
  zIndex: "auto", transform: "none", transformOrigin: "50% 50%", boxShadow: "none", textShadow: "none", filter: "none", backdropFilter: "none", mixBlendMode: "normal", clipPath: "none",
  backgroundImage: "none", backgroundSize: "auto", backgroundPosition: "0% 0%", backgroundRepeat: "repeat", backgroundClip: "border-box", backgroundOrigin: "padding-box",
  visibility: "visible", float: "none", cssFloat: "none", isolation: "auto", willChange: "auto", contain: "none", outline: "none", outlineWidth: "0px", outlineStyle: "none", outlineColor: "rgb(0, 0, 0)",
};
export function el(o: { x?: number; y?: number; w?: number; h?: number; bg?: string; styles?: Record<string, string>; children?: El[]; [k: string]: unknown }): El {
  const { x = 0, y = 0, w = 100, h = 100, bg, styles, children, ...rest } = o;
  return { tag: "div", text: "", x, y, width: w, height: h, children: children ?? [], ...rest, styles: { ...BASE, ...(bg != null ? { backgroundColor: bg } : {}), ...styles } } as El;
}
/** n-th distinct opaque colour */
export function colour(n: number): string { const k = n * 37 + 11; return `rgb(${(k * 7) % 251}, ${(k * 13 + n) % 253}, ${n % 256})`; }
