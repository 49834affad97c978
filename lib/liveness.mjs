// Forward "does this option have any effect" analysis. A declared option is
// effective when some read of it reaches a use other than being copied into
// another option, tested for presence, or rejected by validation.
import { ts, K, isFn, skip, walk } from "./program.mjs";

const isLhs = (n) => ts.isBinaryExpression(n.parent) && n.parent.left === n && n.parent.operatorToken.kind === K.EqualsToken;
const alwaysThrows = (s) => ts.isThrowStatement(s) || (ts.isBlock(s) && s.statements.length > 0 && ts.isThrowStatement(s.statements[s.statements.length - 1]));
const WHOLE = /JSON\.stringify$|evaluate(Handle)?$|waitForFunction$|structuredClone$|addInitScript$/;

export class Liveness {
  constructor(P, F) {
    this.P = P; this.F = F; this.reads = new Map(); this.refs = new Map(); this.memo = new Map(); this.escaped = new Set();
    this.#index(); this.#links(); this.#escapes();
  }
  #add(m, d, n) { let a = m.get(d); if (!a) m.set(d, a = []); a.push(n); }
  #index() {
    const { P, F } = this;
    for (const f of P.files) walk(f, (n) => {
      if (ts.isImportDeclaration(n) || ts.isTypeNode(n)) return false;
      if (ts.isPropertyAccessExpression(n) && !isLhs(n)) for (const d of P.sym(n.name)?.declarations ?? []) this.#add(this.reads, d, n);
      else if (ts.isElementAccessExpression(n) && !isLhs(n)) {
        const k = n.argumentExpression;
        const names = ts.isStringLiteralLike(k) ? [k.text] : (() => { const t = P.type(k); return (t.isUnion?.() ? t.types : [t]).filter((u) => u.isStringLiteral?.()).map((u) => u.value); })();
        for (const nm of names) for (const d of F.propDecls(P.checker.getNonNullableType(P.type(n.expression)), nm)) this.#add(this.reads, d, n);
      }
      if (ts.isBindingElement(n) && ts.isObjectBindingPattern(n.parent) && !n.dotDotDotToken) {
        const nm = (n.propertyName ?? n.name).text;
        for (const d of nm ? F.propDecls(P.type(n.parent), nm) : []) this.#add(this.reads, d, n);
      }
      if (ts.isIdentifier(n)) {
        const p = n.parent;
        if (!(ts.isPropertyAccessExpression(p) && p.name === n) && !(p.name === n && !ts.isShorthandPropertyAssignment(p)) && !isLhs(n))
          for (const d of P.declsOf(n)) if (ts.isVariableDeclaration(d) || ts.isParameter(d) || ts.isBindingElement(d)) this.#add(this.refs, d, n);
      }
    });
  }
  #link(to, from) { const c = this.P.checker; const t = to && (to.flags & ts.TypeFlags.TypeParameter) ? c.getBaseConstraintOfType(to) : to; if (t && from) this.F.linkTypes(t, from); }
  #links() {
    const { P } = this; const c = P.checker;
    const out = (t, k) => { const s = t?.getProperty?.(k); return s ? c.getTypeOfSymbol(s) : null; };
    for (const f of P.files) walk(f, (n) => {
      if (ts.isObjectLiteralExpression(n)) {
        const ct = c.getContextualType(n);
        if (ct) for (const p of n.properties) if (ts.isPropertyAssignment(p) || ts.isShorthandPropertyAssignment(p)) {
          const nm = p.name.text; if (!nm) continue;
          const vt = ts.isPropertyAssignment(p) ? c.getTypeAtLocation(p.initializer) : (() => { const s = c.getShorthandAssignmentValueSymbol(p); return s ? c.getTypeOfSymbolAtLocation(s, p) : null; })();
          for (const u of ct.isUnionOrIntersection?.() ? ct.types : [ct]) { const ps = u.getProperty?.(nm); if (ps && vt) this.#link(c.getTypeOfSymbol(ps), vt); }
        }
      } else if (ts.isAsExpression(n)) this.#link(c.getTypeFromTypeNode(n.type), c.getTypeAtLocation(n.expression));
      else if (ts.isArrowFunction(n) && n.type && !ts.isBlock(n.body)) this.#link(c.getTypeFromTypeNode(n.type), c.getTypeAtLocation(n.body));
      else if (ts.isVariableDeclaration(n) && n.type && n.initializer) { // schema annotated with its output type
        const to = out(c.getTypeFromTypeNode(n.type), "_output"), from = out(c.getTypeAtLocation(n.initializer), "_output");
        if (to && from) this.#link(to, from);
      } else if (ts.isCallExpression(n)) {
        if (ts.isPropertyAccessExpression(n.expression) && n.expression.name.text === "pipe" && n.arguments[0]) { const to = out(P.type(n.arguments[0]), "_input") ?? out(P.type(n.arguments[0]), "_output"), from = out(P.type(n.expression.expression), "_output"); if (to && from) this.#link(to, from); }
        // generic parameters: link the argument to the constraint it is read through
        for (const fn of P.callees(n)) fn.parameters.forEach((prm, i) => {
          const a = n.arguments[i]; if (!a || !prm.type || !fn.typeParameters?.length) return;
          const pt = c.getTypeFromTypeNode(prm.type), at = c.getTypeAtLocation(a);
          const go = (t, s, d) => { if (d > 3) return; if (t.flags & ts.TypeFlags.TypeParameter) { this.#link(t, s); return; }
            for (const u of t.isUnion?.() ? t.types : [t]) { if (u.flags & ts.TypeFlags.TypeParameter) this.#link(u, s); else if (u.objectFlags & ts.ObjectFlags.Reference) for (const v of s.isUnion?.() ? s.types : [s]) if (v.objectFlags & ts.ObjectFlags.Reference) { const ua = c.getTypeArguments(u), va = c.getTypeArguments(v); ua.forEach((x, k) => va[k] && go(x, va[k], d + 1)); } } };
          go(pt, at, 0);
        });
      }
    });
  }
  #escapeType(t, depth = 0) {
    const { P } = this; const c = P.checker; if (!t || depth > 4) return;
    for (const u of t.isUnionOrIntersection?.() ? t.types : [t]) {
      if (u.objectFlags & ts.ObjectFlags.Reference) for (const a of c.getTypeArguments(u)) this.#escapeType(a, depth + 1);
      for (const p of u.getProperties?.() ?? []) for (const d of p.declarations ?? []) if (P.files.includes(d.getSourceFile()) && !this.escaped.has(d)) { this.escaped.add(d); this.#escapeType(c.getTypeOfSymbol(p), depth + 1); }
    }
  }
  #escapes() {
    const { P, F } = this;
    for (const call of P.calls) {
      if (!ts.isCallExpression(call)) continue;
      if (!WHOLE.test(P.externalName(call.expression) ?? "")) continue;
      if (F.targets(call.expression).length) continue;
      for (const a of call.arguments) if (!isFn(skip(a))) this.#escapeType(P.type(a));
    }
  }
  /** the object literal is (part of) an argument of code outside the program */
  #externalArg(o) {
    let x = o;
    for (;;) {
      const p = x.parent;
      if (ts.isParenthesizedExpression(p) || ts.isAsExpression(p) || ts.isArrayLiteralExpression(p) || ts.isSpreadAssignment(p) || ts.isSatisfiesExpression(p) || ts.isConditionalExpression(p) || ts.isObjectLiteralExpression(p)) { x = p; continue; }
      if (ts.isPropertyAssignment(p)) { x = p.parent; continue; }
      return (ts.isCallExpression(p) || ts.isNewExpression(p)) && p.expression !== x && !this.F.targets(p.expression).length;
    }
  }
  effective(d) { return this.#decl(d, new Set()); }
  #decl(d, seen) {
    if (this.escaped.has(d)) return true;
    if (this.memo.has(d)) return this.memo.get(d);
    if (seen.has(d)) return false; seen.add(d);
    let r = (this.reads.get(d) ?? []).some((n) => this.#use(n, seen, d));
    if (!r) for (const [to] of this.F._revLinks(d)) if (this.#decl(to, seen)) { r = true; break; }
    if (r) this.memo.set(d, r); return r;
  }
  #var(d, seen) {
    if (this.memo.has(d)) return this.memo.get(d); if (seen.has(d)) return false; seen.add(d);
    if (!ts.isIdentifier(d.name)) return true;
    const r = (this.refs.get(d) ?? []).some((n) => this.#use(n, seen, d)); if (r) this.memo.set(d, r); return r;
  }
  #presence(x, d) { // `x != null` / `x` as a whole condition whose branch reads x again
    let q = x; const p = x.parent; let test = false;
    if (ts.isBinaryExpression(p) && [K.EqualsEqualsToken, K.ExclamationEqualsToken, K.EqualsEqualsEqualsToken, K.ExclamationEqualsEqualsToken].includes(p.operatorToken.kind)) { const o = skip(p.left === x ? p.right : p.left); if (o.kind === K.NullKeyword || (ts.isIdentifier(o) && o.text === "undefined")) { test = true; q = p; } }
    if (ts.isTypeOfExpression(p)) { test = true; q = p.parent; }
    while (q.parent && ((ts.isParenthesizedExpression(q.parent) || ts.isAsExpression(q.parent) || ts.isSatisfiesExpression(q.parent)) || (ts.isBinaryExpression(q.parent) && [K.AmpersandAmpersandToken, K.BarBarToken].includes(q.parent.operatorToken.kind)) || ts.isPrefixUnaryExpression(q.parent))) {
      if (!test && ts.isBinaryExpression(q.parent)) return false;
      q = q.parent;
    }
    if (!test) return false;
    const g = q.parent; let body = null;
    if (ts.isIfStatement(g) && g.expression === q) body = [g.thenStatement, g.elseStatement];
    else if (ts.isConditionalExpression(g) && g.condition === q) body = [g.whenTrue, g.whenFalse];
    else return false;
    let again = false;
    const all = new Set([...(this.reads.get(d) ?? []), ...(this.refs.get(d) ?? [])]);
    for (const b of body) if (b) walk(b, (y) => { if (all.has(y)) again = true; });
    return again; // the branch decides; the test alone is no effect
  }
  #use(n, seen, d) {
    const { P } = this;
    if (ts.isBindingElement(n)) return ts.isIdentifier(n.name) ? this.#var(n, seen) : true;
    let x = n;
    for (;;) {
      const p = x.parent;
      if (ts.isParenthesizedExpression(p) || ts.isAsExpression(p) || ts.isNonNullExpression(p) || ts.isSatisfiesExpression(p) || ts.isAwaitExpression(p)) { x = p; continue; }
      if (ts.isBinaryExpression(p) && [K.QuestionQuestionToken, K.BarBarToken].includes(p.operatorToken.kind) && !ts.isIfStatement(p.parent)) { x = p; continue; }
      if (ts.isConditionalExpression(p) && p.condition !== x) { x = p; continue; }
      if (ts.isExpressionStatement(p) || ts.isVoidExpression(p)) return false;
      if (ts.isVariableDeclaration(p) && p.initializer === x) return ts.isIdentifier(p.name) ? this.#var(p, seen) : true;
      if ((ts.isPropertyAssignment(p) && p.initializer === x) || ts.isShorthandPropertyAssignment(p)) return this.#prop(p, seen);
      if (ts.isBinaryExpression(p) && p.operatorToken.kind === K.EqualsToken && p.right === x) {
        const l = skip(p.left);
        if (ts.isPropertyAccessExpression(l) || ts.isIdentifier(l)) { const ds = P.declsOf(l); if (ds.length) return ds.some((z) => ts.isVariableDeclaration(z) || ts.isParameter(z) || ts.isBindingElement(z) ? this.#var(z, seen) : P.files.includes(z.getSourceFile()) ? this.#decl(z, seen) : true); }
        return true;
      }
      if ((ts.isCallExpression(p) || ts.isNewExpression(p)) && p.expression !== x) {
        const fns = P.callees(p); if (!fns.length) return true;
        const i = p.arguments.indexOf(x);
        return fns.some((f) => { const prm = f.parameters[i]; if (!prm || prm.dotDotDotToken) return true; return ts.isIdentifier(prm.name) ? this.#var(prm, seen) : true; });
      }
      if (this.#presence(x, d)) return false;
      // the condition of a check that can only throw, and that compares with nothing but constants
      let q = x; while (q.parent && (ts.isBinaryExpression(q.parent) || ts.isPrefixUnaryExpression(q.parent) || (ts.isParenthesizedExpression(q.parent) || ts.isAsExpression(q.parent) || ts.isSatisfiesExpression(q.parent)) || ts.isTypeOfExpression(q.parent) || (ts.isPropertyAccessExpression(q.parent) && q.parent.expression === q))) q = q.parent;
      if (q.parent && ts.isIfStatement(q.parent) && q.parent.expression === q && alwaysThrows(q.parent.thenStatement) && !q.parent.elseStatement) { let call = false; walk(q, (y) => { if (ts.isCallExpression(y)) call = true; }); if (!call) return false; }
      let t = x; while (t && !ts.isStatement(t)) t = t.parent; if (t && ts.isThrowStatement(t)) return false;
      for (let z = x; z; z = z.parent) if (isFn(z) && ts.isCallExpression(z.parent) && /^zod:/.test(P.externalName(z.parent.expression) ?? "")) return false;
      return true;
    }
  }
  #prop(p, seen) {
    const { P, F } = this; const o = p.parent; if (this.#externalArg(o)) return true;
    const nm = p.name?.text; const ct = P.checker.getContextualType(o);
    const tds = ct && nm ? F.propDecls(ct, nm) : [];
    if (tds.some((d) => !P.files.includes(d.getSourceFile()))) return true;
    if (this.#decl(p, seen) || tds.some((d) => this.#decl(d, seen))) return true;
    return !tds.length && !(ts.isVariableDeclaration(o.parent) && o.parent.type);
  }
}
