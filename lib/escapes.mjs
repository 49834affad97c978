// Which characters an expression's text can no longer contain, computed from the
// regular-expression replacements and encoders it passes through.
import { ts, K, isFn, skip } from "./program.mjs";

export const PROBES = ["&", "<", ">", '"', "'", "-", "\x01", "\x0B", "\x0C", "\x1F", "\uFFFE", "\uFFFF", "\uD800", "\uDC00"];
export const ILLEGAL = ["\x01", "\x0B", "\x0C", "\x1F", "\uFFFE", "\uFFFF", "\uD800", "\uDC00"];
export const ALL = new Set(PROBES);

export class Escapes {
  constructor(P, F) { this.P = P; this.F = F; this.memo = new Map(); }
  #regex(e, depth = 0) {
    e = skip(e); if (depth > 3) return null;
    if (ts.isRegularExpressionLiteral(e)) { const m = /^\/([\s\S]*)\/([a-z]*)$/.exec(e.text); try { return m[2].includes("g") ? new RegExp(m[1], m[2]) : null; } catch { return null; } }
    if (ts.isNewExpression(e) && ts.isIdentifier(e.expression) && e.expression.text === "RegExp" && e.arguments?.length === 2) { const [a, b] = e.arguments.map(skip); if (ts.isStringLiteralLike(a) && ts.isStringLiteralLike(b) && b.text.includes("g")) try { return new RegExp(a.text, b.text); } catch { return null; } }
    if (ts.isIdentifier(e)) for (const d of this.P.declsOf(e)) if (ts.isVariableDeclaration(d) && d.initializer && (d.parent.flags & ts.NodeFlags.Const)) return this.#regex(d.initializer, depth + 1);
    return null;
  }
  /** characters one replace() call takes out of circulation */
  step(call) {
    const cal = skip(call.expression); if (!ts.isPropertyAccessExpression(cal)) return null;
    const m = cal.name.text, [pat, rep] = call.arguments; if (!/^replace(All)?$/.test(m) || !pat || !rep) return null;
    const out = new Set(); const lit = skip(pat);
    let test;
    if (ts.isStringLiteralLike(lit)) { if (m === "replace") return out; test = (c) => c === lit.text; }
    else { const re = this.#regex(pat); if (!re) return out; test = (c) => { re.lastIndex = 0; const r = re.exec(c); return !!r && r[0] === c; }; }
    for (const c of PROBES) if (test(c) && !this.#reintroduces(rep, c)) out.add(c);
    return out;
  }
  #reintroduces(rep, c) { // replacement text that still carries the character raw
    const r = skip(rep);
    if (ts.isStringLiteralLike(r)) { if (r.text.includes("$")) return true; return c === "&" ? /&(?!(amp|lt|gt|quot|apos|#\d+|#x[0-9a-fA-F]+);)/.test(r.text) : r.text.includes(c); }
    const fns = this.P.fnsOfExpr(r);
    for (const f of fns) for (const x of this.F.returnsOf(f)) {
      const s = skip(x);
      if (ts.isStringLiteralLike(s)) { if (this.#reintroduces(s, c)) return true; continue; }
      const tbl = ts.isElementAccessExpression(s) ? skip(s.expression) : null; // table lookup by the matched character
      const obj = tbl && (ts.isObjectLiteralExpression(tbl) ? tbl : ts.isIdentifier(tbl) ? this.P.declsOf(tbl).map((d) => d.initializer && skip(d.initializer)).find((i) => i && ts.isObjectLiteralExpression(i)) : null);
      if (obj) { const p = obj.properties.find((q) => q.name && (q.name.text === c)); if (!p || this.#reintroduces(p.initializer, c)) return true; continue; }
      if (ts.isConditionalExpression(s) || ts.isTemplateExpression(s)) { const leaves = []; const go = (y) => { y = skip(y); if (ts.isConditionalExpression(y)) { go(y.whenTrue); go(y.whenFalse); } else leaves.push(y); }; go(s); if (leaves.every((y) => ts.isStringLiteralLike(y) && !this.#reintroduces(y, c) || ts.isTemplateExpression(y) && !y.head.text.includes(c === "&" ? "\0" : c) && y.templateSpans.every((z) => !(this.P.type(z.expression).flags & ts.TypeFlags.StringLike) || /toString\(16\)|charCodeAt|codePointAt/.test(z.expression.getText())))) continue; return true; }
      return true;
    }
    return !fns.length;
  }
  /** {chars, inner}: characters removed by the outermost chain of e, and the expression the chain starts from */
  of(e) {
    e = skip(e);
    if (this.memo.has(e)) return this.memo.get(e);
    const none = { chars: new Set(), inner: null }; this.memo.set(e, none);
    const r = this.#of(e) ?? none; this.memo.set(e, r); return r;
  }
  #of(e) {
    if (!ts.isCallExpression(e)) return null;
    const s = this.step(e);
    if (s) { const cal = skip(e.expression); const rest = this.of(cal.expression); const chars = new Set([...rest.chars, ...s]); return { chars, inner: rest.inner ?? cal.expression, order: true }; }
    const x = this.P.externalName(e.expression) ?? "";
    if (/^lib:(encodeURIComponent|encodeURI)$/.test(x)) return { chars: new Set([...ALL].filter((c) => !(c === "'" || c === "-" || (c === "&" && /URI$/.test(x)))) ), inner: e.arguments[0] };
    if (/^lib:escape$/.test(x)) return { chars: new Set(ALL), inner: e.arguments[0] };
    const fns = this.F.targets(e.expression);
    if (fns.length && fns.every((f) => f.parameters.length >= 1)) {
      let chars = null, idx = null;
      for (const f of fns) { const k = this.fn(f); if (!k) return null; idx ??= k.index; if (k.index !== idx) return null; chars = chars ? new Set([...chars].filter((c) => k.chars.has(c))) : k.chars; }
      return e.arguments[idx] ? { chars, inner: e.arguments[idx] } : null;
    }
    return null;
  }
  /** a function that returns its argument with characters removed */
  fn(f) {
    if (this.memo.has(f)) return this.memo.get(f);
    this.memo.set(f, null);
    const rets = this.F.returnsOf(f); let chars = null, index = null;
    for (const x of rets) {
      let cur = this.#chase(x, f, 0); if (!cur) return null;
      if (cur === "const") continue;
      if (index !== null && cur.index !== index) return null; index = cur.index;
      chars = chars ? new Set([...chars].filter((c) => cur.chars.has(c))) : cur.chars;
    }
    const r = index === null || !chars?.size ? null : { chars, index }; this.memo.set(f, r); return r;
  }
  #chase(x, f, d) { // expression -> parameter it transforms
    x = skip(x); if (d > 8) return null;
    if (ts.isStringLiteralLike(x)) return "const";
    if (ts.isIdentifier(x)) {
      const ds = this.P.declsOf(x); const p = ds.find((q) => ts.isParameter(q) && q.parent === f);
      if (p) { const ws = (this.F.writes.get(p) ?? []).filter((w) => w.expr && w.expr !== p.initializer); let chars = new Set(); for (const w of ws) { const o = this.of(w.expr); for (const c of o.chars) chars.add(c); } return { index: f.parameters.indexOf(p), chars }; }
      const v = ds.find(ts.isVariableDeclaration);
      if (v && v.initializer && this.P.enclosingFn(v) === f) {
        const ws = (this.F.writes.get(v) ?? []).filter((w) => w.expr); const first = this.#chase(v.initializer, f, d + 1); if (!first || first === "const") return null;
        const chars = new Set(first.chars); for (const w of ws) if (skip(w.expr) !== skip(v.initializer)) for (const c of this.of(w.expr).chars) chars.add(c);
        return { index: first.index, chars };
      }
      return null;
    }
    if (ts.isCallExpression(x)) {
      const o = this.of(x);
      if (o.inner) { const i = this.#chase(o.inner, f, d + 1); return i && i !== "const" ? { index: i.index, chars: new Set([...i.chars, ...o.chars]) } : i; }
      const cal = skip(x.expression);
      if (ts.isPropertyAccessExpression(cal) && /^(trim|trimEnd|trimStart|slice|substring|toLowerCase|toUpperCase|toString|normalize|padStart|padEnd)$/.test(cal.name.text)) return this.#chase(cal.expression, f, d + 1);
    }
    if (ts.isConditionalExpression(x)) { const a = this.#chase(x.whenTrue, f, d + 1), b = this.#chase(x.whenFalse, f, d + 1); if (!a || !b) return null; if (a === "const") return b; if (b === "const") return a; return a.index === b.index ? { index: a.index, chars: new Set([...a.chars].filter((c) => b.chars.has(c))) } : null; }
    return null;
  }
}
