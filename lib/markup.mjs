// Markup templates: where program text builds SVG / HTML / CSS, and the lexical
// position of every value spliced into it.
import { ts, K, isFn, skip, walk } from "./program.mjs";

const TAG = /<\/?[A-Za-z][\w:-]*|<!--|<!\[CDATA|<\?xml/;
const ATTR = /(^|[\s"'])[A-Za-z_:][\w:.-]*\s*=\s*["']/;
export const looksMarkup = (s) => TAG.test(s) || ATTR.test(s);

/** lexical machine over concatenated literal text; returns the state name */
export class Lex {
  constructor(state = "?") { this.s = state; this.tag = ""; this.raw = null; this.buf = ""; this.attr = ""; }
  feed(text) {
    for (let i = 0; i < text.length; i++) {
      const c = text[i], rest = text.slice(i);
      switch (this.s) {
        case "?": // fragment of unknown position
          if (c === "<") { i = this.#open(text, i); break; }
          if (c === ">") { this.s = "text"; break; }
          if ((c === '"' || c === "'") && /=\s*$/.test(text.slice(0, i))) { this.attr = /([\w:.-]+)\s*=\s*$/.exec(text.slice(0, i))?.[1] ?? ""; this.s = c === '"' ? "dq" : "sq"; this.base = "?"; }
          break;
        case "text":
          if (c === "<") i = this.#open(text, i); break;
        case "tag":
          if (c === '"' || c === "'") { this.attr = /([\w:.-]+)\s*=\s*$/.exec(text.slice(0, i))?.[1] ?? ""; this.s = c === '"' ? "dq" : "sq"; this.base = "tag"; }
          else if (c === ">") { const self = text[i - 1] === "/"; this.s = !self && /^(style|script)$/.test(this.tag) ? this.tag : "text"; }
          break;
        case "dq": if (c === '"') this.s = this.base; break;
        case "sq": if (c === "'") this.s = this.base; break;
        case "style": case "script": if (/^<\/(style|script)/.test(rest)) { this.s = "tag"; this.tag = "/"; } break;
        case "comment": if (rest.startsWith("-->")) { this.s = "text"; i += 2; } break;
        case "cdata": if (rest.startsWith("]]>")) { this.s = "text"; i += 2; } break;
        case "pi": if (rest.startsWith("?>")) { this.s = "text"; i += 1; } break;
      }
    }
    return this;
  }
  #open(text, i) {
    const rest = text.slice(i);
    if (rest.startsWith("<!--")) { this.s = "comment"; return i + 3; }
    if (rest.startsWith("<![CDATA[")) { this.s = "cdata"; return i + 8; }
    if (rest.startsWith("<?")) { this.s = "pi"; return i + 1; }
    const m = /^<\/?([A-Za-z][\w:-]*)/.exec(rest);
    if (m) { this.s = "tag"; this.tag = rest[1] === "/" ? "/" : m[1].toLowerCase(); return i + m[0].length - 1; }
    if (rest === "<" || rest === "</") { this.s = "tag"; this.tag = "?"; return i + rest.length - 1; }
    return i;
  }
}

/** flatten a template / `+` chain into literal and dynamic parts */
export function parts(e, out = []) {
  e = skip(e);
  if (ts.isTemplateExpression(e)) { out.push({ lit: e.head.text }); for (const s of e.templateSpans) { out.push({ hole: s.expression }); out.push({ lit: s.literal.text }); } return out; }
  if (ts.isStringLiteralLike(e)) { out.push({ lit: e.text }); return out; }
  if (ts.isBinaryExpression(e) && e.operatorToken.kind === K.PlusToken) { parts(e.left, out); parts(e.right, out); return out; }
  out.push({ hole: e }); return out;
}
/** the outermost template / concatenation containing n */
export const isChain = (n) => ts.isTemplateExpression(n) || (ts.isBinaryExpression(n) && n.operatorToken.kind === K.PlusToken);

export function markupTemplates(P) {
  const out = [];
  for (const f of P.files) {
    if (/\/review\/client|\/scrubber\/client|generated/.test(f.fileName)) continue;
    walk(f, (n) => {
      if (ts.isTypeNode(n) || ts.isImportDeclaration(n)) return false;
      if (!isChain(n)) return;
      let p = n.parent; while (ts.isParenthesizedExpression(p) || ts.isAsExpression(p)) p = p.parent;
      if (ts.isBinaryExpression(n) && ts.isBinaryExpression(p) && p.operatorToken.kind === K.PlusToken) return; // inner part of a chain
      if (ts.isTaggedTemplateExpression(n.parent)) return;
      const ps = parts(n); const lits = ps.filter((x) => x.lit !== undefined).map((x) => x.lit).join("\u0001");
      if (!looksMarkup(lits)) return;
      const holes = []; const lx = new Lex();
      for (const x of ps) { if (x.lit !== undefined) lx.feed(x.lit); else { holes.push({ expr: x.hole, state: lx.s, tag: lx.tag, attr: lx.attr }); if (lx.s === "tag" && lx.tag === "?") lx.tag = "??"; } }
      // leading holes of a fragment take the position the first markup character implies
      out.push({ node: n, holes, lits });
    });
  }
  return out;
}
