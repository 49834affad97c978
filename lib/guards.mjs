// Which facts hold at a program point: every path from the function's entry to
// the point crosses a branch edge (or a completed assertion call) that implies
// the fact. Conditions are decomposed logically and through helper predicates,
// so a check stays recognised when it is negated, named or extracted.
import { ts, K, isFn, skip } from "./program.mjs";

const isFalse = (e) => e.kind === K.FalseKeyword || e.kind === K.NullKeyword || (ts.isIdentifier(e) && e.text === "undefined");
const isTrue = (e) => e.kind === K.TrueKeyword || ts.isObjectLiteralExpression(e) || ts.isArrayLiteralExpression(e);

export class Guards {
  constructor(P, F, T) { this.P = P; this.F = F; this.T = T; }
  /** does `e` evaluating to a value of truthiness `value` imply the fact? atom(e, value, subst) decides leaves */
  implies(e, value, atom, depth = 0, subst = null) {
    e = skip(e);
    if (atom(e, value, subst)) return true;
    if (ts.isPrefixUnaryExpression(e) && e.operator === K.ExclamationToken) return this.implies(e.operand, !value, atom, depth, subst);
    if (ts.isAwaitExpression(e)) return this.implies(e.expression, value, atom, depth, subst);
    if (ts.isBinaryExpression(e)) {
      const op = e.operatorToken.kind;
      if (op === K.AmpersandAmpersandToken) return value ? this.implies(e.left, true, atom, depth, subst) || this.implies(e.right, true, atom, depth, subst) : this.implies(e.left, false, atom, depth, subst) && this.implies(e.right, false, atom, depth, subst);
      if (op === K.BarBarToken) return value ? this.implies(e.left, true, atom, depth, subst) && this.implies(e.right, true, atom, depth, subst) : this.implies(e.left, false, atom, depth, subst) || this.implies(e.right, false, atom, depth, subst);
      if ([K.EqualsEqualsEqualsToken, K.ExclamationEqualsEqualsToken, K.EqualsEqualsToken, K.ExclamationEqualsToken].includes(op)) {
        const eq = op === K.EqualsEqualsEqualsToken || op === K.EqualsEqualsToken;
        for (const [a, b] of [[e.left, e.right], [e.right, e.left]]) { const l = skip(b); if (l.kind === K.TrueKeyword || l.kind === K.FalseKeyword) { const want = (l.kind === K.TrueKeyword) === eq; return this.implies(a, value ? want : !want, atom, depth, subst); } }
      }
      return false;
    }
    if (ts.isConditionalExpression(e)) {
      const t = skip(e.whenTrue), f = skip(e.whenFalse);
      const tPossible = value ? !isFalse(t) : !isTrue(t), fPossible = value ? !isFalse(f) : !isTrue(f);
      const c = (v) => this.implies(e.condition, v, atom, depth, subst);
      return (!tPossible || c(true) || this.implies(t, value, atom, depth, subst)) && (!fPossible || c(false) || this.implies(f, value, atom, depth, subst));
    }
    if (depth > 3) return false;
    if (ts.isIdentifier(e)) { // named condition
      const d = this.P.declsOf(e)[0];
      if (d && ts.isVariableDeclaration(d) && d.initializer && (d.parent.flags & ts.NodeFlags.Const)) return this.implies(d.initializer, value, atom, depth + 1, subst);
      return false;
    }
    if (ts.isCallExpression(e)) { // extracted predicate
      const fns = this.P.callees(e); if (!fns.length) return false;
      return fns.every((f) => {
        const s = new Map(subst ?? []);
        f.parameters.forEach((p, i) => { if (e.arguments[i]) s.set(p, e.arguments[i]); });
        const rs = this.F.returnsOf(f); if (!rs.length) return false;
        return rs.every((r) => {
          const x = skip(r);
          if (value ? isFalse(x) : isTrue(x)) return true;
          return this.implies(x, value, atom, depth + 1, s) || this.holdsAt(f, r, atom, depth + 1, s);
        });
      });
    }
    return false;
  }
  /** the fact holds whenever control reaches `node` inside `fn` */
  holdsAt(fn, node, atom, depth = 0, subst = null) {
    if (!fn?.body) return false;
    const cfg = this.T.cfg(fn);
    const inside = (n) => n.ast && n.kind !== "exit" && n.kind !== "throw-exit" && n.ast.pos >= node.pos && n.ast.end <= node.end && n.ast.getSourceFile() === node.getSourceFile() && n.ast !== fn;
    let targets = cfg.nodes.filter((n) => n.ast === node);
    if (!targets.length) targets = cfg.nodes.filter(inside);
    if (!targets.length) { // climb to the statement that evaluates it
      let p = node.parent; while (p && p !== fn) { const t = cfg.nodes.filter((n) => n.ast === p); if (t.length) { targets = t; break; } p = p.parent; }
    }
    if (!targets.length) return false;
    const tset = new Set(targets); const seen = new Set(); const st = [cfg.entry];
    const memo = new Map();
    const edgeImplies = (s) => {
      if (!s.cond) return false;
      const v = "nonnull" in s ? (s.nonnull ? "nonnull" : "null") : s.value; const k = s; if (memo.has(k)) return memo.get(k);
      const r = typeof v === "boolean" ? this.implies(s.cond, v, atom, depth, subst) : atom(skip(s.cond), v, subst);
      memo.set(k, r); return r;
    };
    seen.add(cfg.entry);
    while (st.length) {
      const n = st.pop();
      if (tset.has(n)) return false; // reached without crossing the check
      if (n.kind === "switch" && n.ast && atom(n.ast, "switch", subst)) continue;
      if (n.kind === "call" && n.ast && (this.P.type(n.ast).flags & ts.TypeFlags.Never)) { if (n.exc && !seen.has(n.exc) && this.T.excTaken(n)) { seen.add(n.exc); st.push(n.exc); } continue; } // does not return
      // completed assertion call: `assertX(v)` returning normally implies the fact
      let asserted = false;
      if ((n.kind === "call") && n.ast && ts.isCallExpression(n.ast) && depth < 3) {
        asserted = atom(n.ast, "returned", subst) || this.P.callees(n.ast).some((f) => f !== fn && this.#assertFn(f, atom, depth, subst, n.ast));
      }
      if (!asserted) for (const s of n.succ) if (!seen.has(s.to) && !edgeImplies(s)) { seen.add(s.to); st.push(s.to); }
      if (n.exc && !seen.has(n.exc) && this.T.excTaken(n)) { seen.add(n.exc); st.push(n.exc); }
    }
    return true;
  }
  #assertFn(f, atom, depth, subst, call) {
    if (!f.body || !ts.isBlock(f.body)) return false;
    const cfg = this.T.cfg(f); if (!cfg.nodes.some((n) => n.kind === "throw")) return false;
    const s = new Map(subst ?? []); f.parameters.forEach((p, i) => { if (call.arguments[i]) s.set(p, call.arguments[i]); });
    const seen = new Set([cfg.entry]), st = [cfg.entry];
    while (st.length) {
      const n = st.pop(); if (n === cfg.exit) return false;
      for (const e of n.succ) { if (seen.has(e.to)) continue; if (e.cond && "value" in e && this.implies(e.cond, e.value, atom, depth + 1, s)) continue; seen.add(e.to); st.push(e.to); }
      if (n.exc && !seen.has(n.exc) && this.T.excTaken(n)) { seen.add(n.exc); st.push(n.exc); }
    }
    return true;
  }
  /** resolve an identifier through a helper's parameter substitution to the caller's expression */
  resolve(e, subst) {
    e = skip(e);
    for (let i = 0; i < 4; i++) {
      if (!ts.isIdentifier(e)) return e;
      const d = this.P.declsOf(e)[0];
      if (d && subst?.has(d)) { e = skip(subst.get(d)); continue; }
      return e;
    }
    return e;
  }
}
