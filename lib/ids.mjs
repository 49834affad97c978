// Identifiers of generated documents: where they are defined and referenced in
// markup templates, and the shape of every identifier value (literal text,
// counters and the place they were drawn from, loop indices, document prefix).
import { ts, K, isFn, skip, walk } from "./program.mjs";
import { parts, isChain } from "./markup.mjs";

const isNum = (P, x) => !!(P.type(x).flags & ts.TypeFlags.NumberLike);
const LOOPS = new Set([K.ForStatement, K.ForOfStatement, K.ForInStatement, K.WhileStatement, K.DoStatement]);
export const EACH = /^(map|forEach|flatMap|filter|reduce|some|every|find|findIndex|from)$/;

/** id definitions and references in markup templates: {kind, hole, before, after, chain} */
export function idSites(P, accept) {
  const out = [];
  for (const f of P.files) {
    if (!accept(f)) continue;
    walk(f, (x) => {
      if (ts.isTypeNode(x) || ts.isImportDeclaration(x)) return false;
      const lone = ts.isStringLiteralLike(x);
      if (!lone && !isChain(x)) return;
      let p = x.parent; while ((ts.isParenthesizedExpression(p) || ts.isAsExpression(p) || ts.isSatisfiesExpression(p))) p = p.parent;
      if (ts.isBinaryExpression(p) && p.operatorToken.kind === K.PlusToken && isChain(p) && !isNum(P, p)) return;
      const ps = lone ? [{ lit: x.text }] : parts(x);
      let flat = ""; const at = [];
      for (const q of ps) { if (q.lit !== undefined) flat += q.lit; else { at.push({ i: flat.length, hole: q.hole }); flat += "\u0001"; } }
      const add = (kind, m, g) => {
        const s = m.index + m[0].indexOf(m[g], m[0].length - m[g].length - (kind === "def" ? 0 : 2) < 0 ? 0 : 0); // start of the value
        const e = s + m[g].length; const toks = []; let cur = "";
        for (let i = s; i < e; i++) { if (flat[i] === "\u0001") { if (cur) toks.push({ lit: cur }); cur = ""; toks.push({ hole: at.find((a) => a.i === i).hole }); } else cur += flat[i]; }
        if (cur) toks.push({ lit: cur });
        out.push({ kind, chain: x, toks, pos: s, tag: tagBefore(flat, m.index) });
      };
      for (const m of flat.matchAll(/(?<=[\s])id=(["'])([^"']+)\1/g)) add("def", m, 2);
      if (/^id=(["'])[^"']+\1/.test(flat)) { const m = /^id=(["'])([^"']+)\1/.exec(flat); add("def", m, 2); }
      for (const m of flat.matchAll(/url\(\s*["']?#([^)"']+)["']?\s*\)/g)) add("ref", m, 1);
      for (const m of flat.matchAll(/\bhref=["']#([^"']+)["']/g)) add("ref", m, 1);
      for (const m of flat.matchAll(/@keyframes\s+([^\s{]+)/g)) add("kfdef", m, 1);
    });
  }
  return out;
}
const tagBefore = (s, i) => { const k = s.lastIndexOf("<", i); return k < 0 ? "" : /^<([\w:-]*)/.exec(s.slice(k))?.[1] ?? ""; };

// call stack of the descent (array) carrying the custody chain of the ascent (.ch)
const mkSt = (arr, ch) => { arr.ch = ch; return arr; };
const up = (st, node) => mkSt([], [...(st.ch ?? []), node]); // continue at `node`, a place the value was handed over
const down = (st, call) => mkSt([...st, call], st.ch ?? []);
// the value comes from one operand of the expression handed over
const narrow = (st, x, to) => { const ch = st.ch ?? []; return ch.length && skip(ch.at(-1)) === x ? mkSt([...st], [...ch.slice(0, -1), to]) : st; };
const alt = (x, which, opts) => opts.map((o) => [{ alt: x, which }, ...o]);
const pop = (st) => mkSt(st.slice(0, -1), st.ch ?? []);

export class IdShapes {
  /** isRoot(param): stop there — the caller chooses it (document prefix) */
  constructor(P, F, isRoot) { this.P = P; this.F = F; this.isRoot = isRoot; this.incs = new Map(); this.#index(); }
  #index() { // counters: variables/properties incremented somewhere
    const add = (e, n) => { for (const d of this.P.declsOf(skip(e))) { let a = this.incs.get(d); if (!a) this.incs.set(d, a = []); a.push(n); } };
    for (const f of this.P.files) walk(f, (n) => {
      if ((ts.isPostfixUnaryExpression(n) || ts.isPrefixUnaryExpression(n)) && n.operator === K.PlusPlusToken) add(n.operand, n);
      if (ts.isBinaryExpression(n) && n.operatorToken.kind === K.PlusEqualsToken && isNum(this.P, n.left)) add(n.left, n);
    });
  }
  /** is d the induction variable of a loop statement? */
  isInduction(d) { const p = d.parent?.parent; return ts.isVariableDeclaration(d) && ((ts.isForStatement(p) && p.initializer === d.parent) || ts.isForOfStatement(p) || ts.isForInStatement(p)); }
  isIndexParam(d) { // second parameter of an each-callback
    return ts.isParameter(d) && isFn(d.parent) && ts.isCallExpression(d.parent.parent) && ts.isPropertyAccessExpression(d.parent.parent.expression) && EACH.test(d.parent.parent.expression.name.text);
  }
  /** numeric token for expression x */
  num(x, st, seen = []) {
    x = skip(x); const { P, F } = this;
    if (ts.isNumericLiteral(x)) return [{ lit: x.text }];
    if ((ts.isPostfixUnaryExpression(x) || ts.isPrefixUnaryExpression(x)) && x.operator === K.PlusPlusToken) return [{ fresh: P.declsOf(skip(x.operand))[0], site: x, alloc: st.at(-1) ?? x, outer: st[0] ?? x, ch: st.ch ?? [] }];
    if (ts.isBinaryExpression(x) && x.operatorToken.kind === K.PlusToken) {
      const l = this.num(x.left, st, seen), r = this.num(x.right, st, seen);
      const f = [...l, ...r].find((t) => t.fresh) ?? [...l, ...r].find((t) => t.read) ?? [...l, ...r].find((t) => t.idx || t.base);
      return f ? [{ ...f, sum: [l, r] }] : [{ other: x }];
    }
    if (ts.isIdentifier(x) || ts.isPropertyAccessExpression(x)) {
      const out = [];
      for (const d of P.declsOf(x)) {
        if (seen.includes(d)) continue;
        if (this.isInduction(d) || this.isIndexParam(d)) { out.push({ idx: d, ref: x, ch: st.ch ?? [] }); continue; }
        if (this.incs.has(d)) { out.push({ read: d, site: x, alloc: st.at(-1) ?? x, outer: st[0] ?? x, ch: st.ch ?? [] }); continue; }
        if (ts.isVariableDeclaration(d) && d.initializer && ts.isIdentifier(d.name)) { out.push(...this.num(d.initializer, st, [...seen, d])); continue; }
        if (ts.isParameter(d) && isFn(d.parent)) { const r = this.#param(d, st, seen, (e, s, sn) => this.num(e, s, sn)); if (r) { out.push(...r); continue; } out.push({ base: d, ch: st.ch ?? [] }); continue; }
        if (ts.isPropertyAssignment(d) || ts.isPropertySignature(d) || ts.isShorthandPropertyAssignment(d) || ts.isBindingElement(d)) { const r = this.#numVia(d, st, [...seen, d]); if (r.length && r.every((t) => !t.other)) { out.push(...r.map((t) => ({ ...t, via: x }))); continue; } }
        if ((ts.isPropertyAssignment(d) || ts.isPropertySignature(d)) && P.files.includes(d.getSourceFile())) { out.push({ fieldNum: d, ref: x, ch: st.ch ?? [] }); continue; }
        out.push({ other: x, decl: d });
      }
      return out.length ? out.slice(0, 8) : [{ other: x }];
    }
    if (ts.isConditionalExpression(x)) return [...this.num(x.whenTrue, narrow(st, x, x.whenTrue), seen), ...this.num(x.whenFalse, narrow(st, x, x.whenFalse), seen)];
    if (ts.isCallExpression(x)) { const r = []; for (const f of F.targets(x.expression)) for (const q of F.returnsOf(f)) r.push(...this.num(q, down(st, x), seen)); if (r.length) return r.slice(0, 8); }
    return [{ other: x }];
  }
  #numVia(d, st, seen) { // number kept in a field or destructured
    const { F } = this; const r = [];
    for (const a of [d, ...(F.propLinks.get(d) ?? [])]) for (const w of F.writes.get(a) ?? []) {
      if (w.elem) continue; if (w.expr) { if (isNum(this.P, w.expr)) r.push(...this.num(w.expr, ts.isBindingElement(d) ? st : up(st, w.expr), seen)); }
      else if (w.decl && !seen.includes(w.decl)) r.push(...this.#numVia(w.decl, st, [...seen, w.decl]));
    }
    return r.slice(0, 8);
  }
  #param(d, st, seen, go, str = false) {
    const { P, F } = this; const fn = d.parent, i = fn.parameters.indexOf(d); const top = st.at(-1);
    if (top && F.targets(top.expression).includes(fn)) { const a = top.arguments?.[i]; if (a) return go(a, pop(st), [...seen, d]); return d.initializer ? go(d.initializer, st, seen) : null; }
    if (this.isRoot(d)) return null;
    if (i === 0 && ts.isCallExpression(fn.parent) && ts.isPropertyAccessExpression(fn.parent.expression) && EACH.test(fn.parent.expression.name.text)) { const q = this.#elem(fn.parent.expression.expression, st, 1, [...seen, d]); if (str && q.length) return q; }
    const cs = F.invocations(fn); const r = [];
    for (const c of cs) if (c.arguments?.some((a, k) => k <= i && ts.isSpreadElement(a))) r.push(str ? [{ prefix: d }] : { base: d });
    else if (c.arguments?.[i]) r.push(...go(c.arguments[i], up(st, c.arguments[i]), [...seen, d])); else if (d.initializer) r.push(...go(d.initializer, up(st, c), [...seen, d]));
    return r.length ? r : null;
  }
  shapes(e) { return this.#out(this.#go(e, up([], e), 0, [])); }
  #out(a) { return this.#dedupe(a).map((s) => { const h = s.filter((t) => !t.alt); h.alts = s.filter((t) => t.alt); return h; }); }
  tokShapes(toks) {
    let acc = [[]];
    for (const q of toks) { const opts = q.lit !== undefined ? [[{ lit: q.lit }]] : this.#go(q.hole, up([], q.hole), 0, []); const nx = []; for (const a of acc) for (const o of opts) nx.push([...a, ...o]); acc = nx.slice(0, 200); }
    return this.#out(acc);
  }
  key(s) { return s.map((t) => t.alt ? "" : t.lit !== undefined ? t.lit : t.fresh ? `‹${this.#id(t.fresh)}@${this.#id(t.alloc)}›` : t.read ? `‹${this.#id(t.read)}@${this.#id(t.alloc)}›` : t.idx ? `‹i${this.#id(t.idx)}›` : t.prefix ? "‹P›" : t.nul ? "‹null›" : `‹${t.base ? this.#id(t.base) : t.fieldNum ? this.#id(t.fieldNum) : t.decl ? this.#id(t.decl) : this.#id(t.other)}›`).join(""); }
  show(s) { return s.map((t) => t.alt ? "" : t.lit !== undefined ? t.lit : t.fresh ? `‹${this.P.text(t.site, 30)}›` : t.read ? `‹${this.P.text(t.site, 30)}…›` : t.idx ? `‹${t.idx.name.getText()}›` : t.prefix ? "‹prefix›" : t.nul ? "‹null›" : `‹?${this.P.text(t.base?.name ?? t.fieldNum?.name ?? t.other, 40)}›`).join(""); }
  #id(n) { return n ? `${this.P.rel(n)}:${n.pos}` : "?"; }
  #dedupe(a) { const m = new Map(); for (const s of a) m.set(this.key(s) + "@" + s.filter((t) => t.fresh || t.read).map((t) => t.ch.map((n) => this.#id(n)).join(">")).join(), s); const r = [...m.values()]; const nn = r.filter((s) => !s.some((t) => t.nul)); return nn.length ? nn : r; }
  #go(x, st, d, seen) {
    const { P, F } = this; x = skip(x);
    if (d > 40) return [[{ other: x }]];
    if (ts.isStringLiteralLike(x)) return [x.text === "" ? [] : [{ lit: x.text }]];
    if (x.kind === K.NullKeyword || (ts.isIdentifier(x) && x.text === "undefined")) return [[{ nul: true }]];
    if (isNum(P, x)) return this.num(x, st, seen).map((t) => [t]);
    if (isChain(x)) {
      const ps = parts(x); let acc = [[]];
      for (const q of ps) { const opts = q.lit !== undefined ? [q.lit === "" ? [] : [{ lit: q.lit }]] : this.#go(q.hole, st, d + 1, seen); const nx = []; for (const a of acc) for (const o of opts) nx.push([...a, ...o]); acc = nx.slice(0, 200); }
      return acc;
    }
    if (ts.isConditionalExpression(x)) return this.#dedupe([...alt(x, true, this.#go(x.whenTrue, narrow(st, x, x.whenTrue), d + 1, seen)), ...alt(x, false, this.#go(x.whenFalse, narrow(st, x, x.whenFalse), d + 1, seen))]);
    if (ts.isBinaryExpression(x) && x.operatorToken.kind === K.QuestionQuestionToken && ts.isStringLiteralLike(skip(x.right))) { const l = this.#go(x.left, st, d + 1, seen); if (l.some((s) => s.some((t) => t.fresh || t.read))) return l.filter((s) => !s.some((t) => t.nul)); }
    if (ts.isBinaryExpression(x) && x.operatorToken.kind === K.QuestionQuestionToken) { // an object that supplies the left field never falls back to the right one
      const nm = this.#fieldName(x.left); const r = this.#go(x.right, st, d + 1, seen);
      if (nm) return this.#dedupe([...this.#go(x.left, st, d + 1, seen), ...r.filter((s) => !s.some((t) => (t.ch ?? []).some((n) => this.#suppliedBeside(n, nm))))]).filter((s, _i, a) => a.length === 1 || !s.some((t) => t.nul));
    }
    if (ts.isBinaryExpression(x) && [K.QuestionQuestionToken, K.BarBarToken].includes(x.operatorToken.kind)) return this.#dedupe([...this.#go(x.left, st, d + 1, seen), ...this.#go(x.right, st, d + 1, seen)]).filter((s, _i, a) => a.length === 1 || !s.some((t) => t.nul));
    const ref = (decls) => {
      const r = [];
      for (const dd of decls) {
        if (seen.includes(dd)) { continue; }
        const sn = [...seen, dd];
        if (ts.isParameter(dd) && isFn(dd.parent)) {
          const q = this.#param(dd, st, seen, (e, s, sn2) => this.#go(e, s, d + 1, sn2), true);
          r.push(...(q ?? [[this.isRoot(dd) ? { prefix: dd } : { other: x, decl: dd }]])); continue;
        }
        const only = ts.isIdentifier(x) && ts.isVariableDeclaration(dd) && !(dd.parent.flags & ts.NodeFlags.Const) ? this.#reaching(dd, x) : null;
        if (only) { r.push(...this.#go(only, st, d + 1, seen)); continue; }
        const ws = []; for (const a of [dd, ...(F.propLinks.get(dd) ?? [])]) for (const w of F.writes.get(a) ?? []) ws.push(w);
        let any = false;
        for (const w of ws) {
          if (w.expr) { any = true; if (w.elem) r.push(...this.#elem(w.expr, ts.isVariableDeclaration(dd) ? st : up(st, w.expr), d + 1, sn)); else r.push(...this.#go(w.expr, ts.isVariableDeclaration(dd) || ts.isBindingElement(dd) ? st : up(st, w.expr), d + 1, sn)); }
          else if (w.decl) { any = true; r.push(...this.#declGo(w.decl, st, d + 1, sn, x)); }
        }
        if (!any) r.push([{ other: x, decl: dd }]);
      }
      return this.#dedupe(r);
    };
    if (ts.isIdentifier(x) || ts.isPropertyAccessExpression(x)) { const r = ref(P.declsOf(x)); return r.length ? r.slice(0, 120) : [[{ other: x }]]; }
    if (ts.isElementAccessExpression(x)) { const r = this.#elem(x.expression, st, d + 1, seen); return r.length ? r : [[{ other: x }]]; }
    if (ts.isCallExpression(x)) {
      if (ts.isPropertyAccessExpression(x.expression)) {
        const nm = x.expression.name.text;
        if (nm === "get" && /^(Readonly)?(Weak)?Map$/.test(P.type(x.expression.expression).symbol?.name ?? "")) { const r = this.#mapVals(x.expression.expression, st, d + 1, seen); if (r.length) return r; }
      }
      const fs = F.targets(x.expression); const r = [];
      for (const f of fs) { if (st.filter((s) => s === x).length) continue; for (const q of F.returnsOf(f)) r.push(...this.#go(q, down(st, x), d + 1, seen)); }
      if (r.length) return this.#dedupe(r).slice(0, 120);
    }
    return [[{ other: x }]];
  }
  #fieldName(e) {
    e = skip(e); if (ts.isPropertyAccessExpression(e)) return e.name.text;
    if (!ts.isIdentifier(e)) return null; const d = this.P.declsOf(e)[0];
    return d && ts.isBindingElement(d) && ts.isObjectBindingPattern(d.parent) ? (d.propertyName ?? d.name).getText() : null;
  }
  #suppliedBeside(n, nm) {
    const p = n.parent; const o = p && (ts.isPropertyAssignment(p) || ts.isShorthandPropertyAssignment(p)) ? p.parent : null; if (!o || !ts.isObjectLiteralExpression(o)) return false;
    return o.properties.some((q) => q !== p && q.name?.getText() === nm && (ts.isPropertyAssignment(q) ? !(((t) => t.isUnion() ? t.types : [t])(this.P.type(q.initializer)).some((u) => u.flags & (ts.TypeFlags.Null | ts.TypeFlags.Undefined | ts.TypeFlags.Any))) : false));
  }
  /** the one value variable d can have at `use`, when a preceding statement settles it */
  #reaching(d, use) {
    const sets = (s) => { let hit = null, n = 0; walk(s, (q) => { if (ts.isBinaryExpression(q) && q.operatorToken.kind >= K.FirstAssignment && q.operatorToken.kind <= K.LastAssignment && ts.isIdentifier(skip(q.left)) && this.P.declsOf(skip(q.left)).includes(d)) { hit = q; n++; } }); return { hit, n }; };
    let p = use; const stmt = (q) => q.parent && (ts.isBlock(q.parent) || ts.isSourceFile(q.parent) || ts.isCaseOrDefaultClause(q.parent));
    while (p.parent && !isFn(p)) {
      if (LOOPS.has(p.kind) && sets(p).n && d.pos < p.pos) return null;
      if (stmt(p)) {
        const list = p.parent.statements; let i = list.indexOf(p);
        while (--i >= 0) {
          const s = list[i]; const a = sets(s);
          if (a.n === 1 && ts.isExpressionStatement(s) && skip(s.expression) === a.hit && a.hit.operatorToken.kind === K.EqualsToken) return a.hit.right;
          if (a.n === 1 && ts.isIfStatement(s) && !s.elseStatement && this.#given(s.expression) && ts.isBlock(s.thenStatement) && s.thenStatement.statements.some((q) => ts.isExpressionStatement(q) && skip(q.expression) === a.hit)) return a.hit.right;
          if (a.n) return null;
          if (ts.isVariableStatement(s) && s.declarationList.declarations.includes(d)) return d.initializer ?? null;
        }
      }
      p = p.parent;
    }
    return null;
  }
  /** `p != null` for a parameter every caller supplies */
  #given(e) {
    e = skip(e); if (!ts.isBinaryExpression(e) || !/^!==?$/.test(e.operatorToken.getText())) return false; const r = skip(e.right), l = skip(e.left);
    if (!(r.kind === K.NullKeyword || (ts.isIdentifier(r) && r.text === "undefined")) || !ts.isIdentifier(l)) return false;
    return this.P.declsOf(l).every((d) => ts.isParameter(d) && this.#supplied(d, new Set()));
  }
  #supplied(d, seen) {
    if (seen.has(d)) return true; seen.add(d); const fn = d.parent, i = fn.parameters.indexOf(d); const cs = this.F.invocations(fn); if (!cs.length) return false;
    return cs.every((k) => { const a = k.arguments?.[i]; if (!a) return false; const x = skip(a); const t = this.P.type(x); if (!(t.isUnion() ? t.types : [t]).some((u) => u.flags & (ts.TypeFlags.Null | ts.TypeFlags.Undefined))) return true; return ts.isIdentifier(x) && this.P.declsOf(x).every((q) => ts.isParameter(q) && isFn(q.parent) && this.#supplied(q, seen)); });
  }
  #declGo(dd, st, d, seen, x) {
    if (seen.includes(dd) || d > 40) return [];
    const { F } = this; const r = [];
    for (const a of [dd, ...(F.propLinks.get(dd) ?? [])]) for (const w of F.writes.get(a) ?? []) { if (w.expr) r.push(...(w.elem ? this.#elem(w.expr, up(st, w.expr), d + 1, [...seen, dd]) : this.#go(w.expr, up(st, w.expr), d + 1, [...seen, dd]))); else if (w.decl) r.push(...this.#declGo(w.decl, st, d + 1, [...seen, dd], x)); }
    return r.length ? r : [[{ other: x, decl: dd }]];
  }
  #mapVals(m, st, d, seen) { // values set into a map variable or field
    const { P, F } = this; const ds = this.#canon(m);
    const r = [];
    for (const f of P.files) { for (const c of this.#setCalls(f)) { const cd = this.#canon(c.expression.expression); if ([...cd].some((q) => ds.has(q))) if (c.arguments[1] && !seen.includes(c)) r.push(...this.#go(c.arguments[1], up(st, c.arguments[1]), d + 1, [...seen, c])); } }
    return this.#dedupe(r);
  }
  #canon(e) { // declarations that denote the same container
    const { P, F } = this; this._canon ??= new Map(); e = skip(e);
    const out = new Set(); const st = [...P.declsOf(e)];
    while (st.length) { const q = st.pop(); if (out.has(q) || out.size > 60) continue; out.add(q); for (const l of F.propLinks.get(q) ?? []) st.push(l); for (const w of F.writes.get(q) ?? []) { if (w.elem) continue; if (w.decl) st.push(w.decl); if (w.expr) { const x = skip(w.expr); if (ts.isIdentifier(x) || ts.isPropertyAccessExpression(x)) st.push(...P.declsOf(x)); } } }
    return out;
  }
  #setCalls(f) { this._set ??= new Map(); let a = this._set.get(f); if (!a) { a = []; walk(f, (n) => { if (ts.isCallExpression(n) && ts.isPropertyAccessExpression(n.expression) && n.expression.name.text === "set") a.push(n); }); this._set.set(f, a); } return a; }
  #elem(arr, st, d, seen) { // element of an array expression
    const { P, F } = this; arr = skip(arr); if (d > 40) return [];
    if (ts.isArrayLiteralExpression(arr)) return arr.elements.flatMap((e) => this.#go(e, st, d + 1, seen));
    if (ts.isCallExpression(arr) && ts.isPropertyAccessExpression(arr.expression) && /^(map|from)$/.test(arr.expression.name.text)) { const cb = arr.arguments.find((a) => isFn(skip(a))); if (cb) return F.returnsOf(skip(cb)).flatMap((q) => this.#go(q, up(st, q), d + 1, seen)); }
    if (ts.isIdentifier(arr) || ts.isPropertyAccessExpression(arr)) {
      const r = []; for (const dd of P.declsOf(arr)) { if (seen.includes(dd)) continue; for (const w of F.writes.get(dd) ?? []) if (w.expr) r.push(...(w.container || w.push || w.elem ? this.#go(w.expr, st, d + 1, [...seen, dd]) : this.#elem(w.expr, st, d + 1, [...seen, dd]))); }
      return r;
    }
    return [];
  }
}
export const loopsAround = (n, stop) => { const out = []; let p = n; while (p.parent && p !== stop) { const q = p.parent; if (LOOPS.has(q.kind) && (q.statement === p || q.condition === p || q.incrementor === p)) out.push(q); if (isFn(p) && ts.isCallExpression(q) && q.arguments.includes(p) && ts.isPropertyAccessExpression(q.expression) && EACH.test(q.expression.name.text)) out.push(p); p = q; } return out; };
