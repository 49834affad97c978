// Path exploration of a CFG that keeps the outcome of conditions: a condition
// (or null test) decided once on a path is decided the same way again as long as
// the variables it reads are not assigned in between.
import { ts, K, isFn, skip, walk } from "./program.mjs";

const isNullLit = (x) => { x = skip(x); return x.kind === K.NullKeyword || (ts.isIdentifier(x) && x.text === "undefined"); };
const isEmpty = (x) => { x = skip(x); return ts.isStringLiteralLike(x) && x.text === ""; };
const EQ = new Set([K.EqualsEqualsToken, K.EqualsEqualsEqualsToken]), NE = new Set([K.ExclamationEqualsToken, K.ExclamationEqualsEqualsToken]);

const leaves = (s) => { const l = ts.isBlock(s) ? s.statements.at(-1) : s; return !!l && (ts.isContinueStatement(l) || ts.isReturnStatement(l) || ts.isThrowStatement(l) || ts.isBreakStatement(l)); };
// the nearest statements before each event, in its block
const focus2 = (focus, fn) => focus.flatMap((f) => { let p = f; while (p.parent && p !== fn && !(ts.isBlock(p.parent) || ts.isCaseOrDefaultClause(p.parent))) p = p.parent; const l = p.parent?.statements; if (!l) return []; const i = l.indexOf(p); return l.slice(Math.max(0, i - 3), i); });

export class FactPaths {
  constructor(P, T, fn, focus = [], wide = false) {
    this.wide = wide;
    this.P = P; this.T = T; this.fn = fn; this.cfg = T.cfg(fn); this.focus = focus;
    this.kills = new Map(); // variable declaration -> atom keys
    this.pend = []; this.atoms = this.#choose(); this.#pending();
  }
  /** {k, v} : taking edge s means atom k has value v */
  atomOf(cond, value) {
    let c = skip(cond), v = value;
    while (ts.isPrefixUnaryExpression(c) && c.operator === K.ExclamationToken) { c = skip(c.operand); v = !v; }
    if (ts.isBinaryExpression(c)) {
      const o = c.operatorToken.kind;
      if (EQ.has(o) || NE.has(o)) {
        const [l, r] = [skip(c.left), skip(c.right)];
        if (isNullLit(r) || isNullLit(l)) return { k: "N:" + this.text(isNullLit(r) ? l : r), v: NE.has(o) ? !v : v };
        if (isEmpty(r) || isEmpty(l)) return { k: "E:" + this.text(isEmpty(r) ? l : r), v: NE.has(o) ? !v : v };
        return { k: this.text(l) + "==" + this.text(r), v: NE.has(o) ? !v : v };
      }
    }
    return { k: this.text(c), v };
  }
  text(e) { return skip(e).getText().replace(/\s+/g, " "); }
  #pure(c) { let ok = true; walk(c, (q) => { if (isFn(q) || ts.isAwaitExpression(q) || ts.isPostfixUnaryExpression(q) || ts.isNewExpression(q)) ok = false; if (ts.isCallExpression(q) && !(ts.isPropertyAccessExpression(q.expression) && /^(test|startsWith|endsWith|includes|some|every|has|trim|toLowerCase)$/.test(q.expression.name.text))) ok = false; }); return ok; }
  #choose() {
    const count = new Map(), sample = new Map();
    const add = (cond) => { const a = this.atomOf(cond, true); if (!this.#pure(cond)) return; count.set(a.k, (count.get(a.k) ?? 0) + 1); sample.set(a.k, cond); };
    for (const n of this.cfg.nodes) for (const s of n.succ) if (s.cond && s.value === true) add(s.cond);
    // conditions around the events, and conditional initialisers
    const near = new Set();
    for (const f of this.focus) { walk(f, (q) => { if (isFn(q)) return false; if (ts.isConditionalExpression(q)) near.add(this.atomOf(q.condition, true).k); }); let p = f; while (p.parent && p !== this.fn) { const q = p.parent; if ((ts.isIfStatement(q) && p !== q.expression) || (ts.isConditionalExpression(q) && p !== q.condition)) walk(ts.isIfStatement(q) ? q.expression : q.condition, (x) => { if (ts.isExpression(x)) near.add(this.atomOf(x, true).k); }); p = q; } }
    for (const f of focus2(this.focus, this.fn)) if (ts.isIfStatement(f) && leaves(f.thenStatement)) walk(f.expression, (x) => { if (isFn(x)) return false; if (ts.isExpression(x)) near.add(this.atomOf(x, true).k); });
    // guards that leave early, and null tests of what the conditions around the events read
    let keys = [...count.keys()].filter((k) => near.has(k));
    if (this.wide) keys = [...count.keys()].filter((k) => count.get(k) >= 2 || /^[NE]:/.test(k) || near.has(k));
    keys.sort((a, b) => (near.has(b) - near.has(a)) || (count.get(b) - count.get(a)));
    keys = keys.slice(0, this.wide ? 14 : 8);
    for (const k of keys) walk(sample.get(k), (q) => { if (ts.isIdentifier(q) && !(ts.isPropertyAccessExpression(q.parent) && q.parent.name === q)) for (const d of this.P.declsOf(q)) { let a = this.kills.get(d); if (!a) this.kills.set(d, a = new Set()); a.add(k); } });
    return keys;
  }
  #null(e, st) { // is the value null: "1", "0" or "?"
    e = skip(e); if (isNullLit(e)) return "1";
    if (ts.isConditionalExpression(e)) { const a = this.atomOf(e.condition, true); const i = this.atoms.indexOf(a.k); if (i >= 0 && st[i] !== "?") return this.#null((st[i] === "1") === a.v ? e.whenTrue : e.whenFalse, st); const t = this.#null(e.whenTrue, st), f = this.#null(e.whenFalse, st); return t === f ? t : "?"; }
    if (ts.isIdentifier(e) || ts.isPropertyAccessExpression(e)) { const i = this.atoms.indexOf("N:" + this.text(e)); if (i >= 0) return st[i]; }
    const t = this.P.type(e); if (!(t.flags & (ts.TypeFlags.Any | ts.TypeFlags.Unknown)) && !(t.isUnion() ? t.types : [t]).some((u) => u.flags & (ts.TypeFlags.Null | ts.TypeFlags.Undefined))) return "0";
    return "?";
  }
  #pending() { // `const x = c ? call(…) : null` (or ""): remember on the path whether a non-empty operand was evaluated
    const leaves = (e) => { e = skip(e); return ts.isConditionalExpression(e) ? [...leaves(e.whenTrue), ...leaves(e.whenFalse)] : [e]; };
    const q0 = "?".repeat(this.atoms.length), base = this.atoms.slice();
    for (const n of this.cfg.nodes) {
      if (n.kind !== "decl" || !ts.isVariableDeclaration(n.ast) || !ts.isIdentifier(n.ast.name) || !n.ast.initializer) continue;
      const ls = leaves(n.ast.initializer); if (ls.length < 2) continue;
      for (const [tag, is] of [["N:", isNullLit], ["E:", isEmpty]]) {
        const own = tag + n.ast.name.text; if (!base.includes(own)) continue;
        const none = ls.filter(is), live = ls.filter((l) => !is(l)); if (!none.length || !live.length) continue;
        if (tag === "N:" && live.some((l) => this.#null(l, q0) !== "0")) continue;
        if (!live.every((l) => this.cfg.nodes.some((m) => m.ast && m.ast.pos >= l.pos && m.ast.end <= l.end))) continue;
        this.pend.push({ decl: n.ast, live, own: this.atoms.indexOf(own), k: this.atoms.length }); this.atoms.push("D:" + tag + n.ast.pos);
      }
    }
  }
  step(st, n) {
    if (n.ast && this.pend.length) {
      const a = [...st]; let hit = false;
      for (const q of this.pend) {
        if (n.ast === q.decl && n.kind === "decl") { a[q.own] = a[q.k] === "0" ? "0" : "1"; a[q.k] = "?"; hit = true; }
        else if (q.live.some((l) => n.ast.pos >= l.pos && n.ast.end <= l.end)) a[q.k] = "0";
      }
      st = a.join(""); if (hit) return st;
    }
    let d = null, val = null;
    if (n.kind === "decl" && ts.isVariableDeclaration(n.ast)) { d = ts.isIdentifier(n.ast.name) ? n.ast : null; val = n.ast.initializer; }
    else if (n.kind === "assign") { const l = skip(n.ast.left); if (ts.isIdentifier(l)) { d = this.P.declsOf(l)[0]; val = n.ast.operatorToken.kind === K.EqualsToken ? n.ast.right : null; } }
    if (!d) return st;
    const ks = this.kills.get(d); if (!ks) return st;
    const a = [...st];
    const nv = val ? this.#null(val, st) : "?";
    const own = d.name && ts.isIdentifier(d.name) ? "N:" + d.name.text : null;
    this.atoms.forEach((k, i) => { if (ks.has(k)) a[i] = k === own ? nv : "?"; });
    return a.join("");
  }
  edge(st, s) { // null when contradicted
    if (!s.cond) return st;
    const at = "nonnull" in s ? { k: "N:" + this.text(s.cond), v: !s.nonnull } : this.atomOf(s.cond, s.value);
    const i = this.atoms.indexOf(at.k); if (i < 0) return st;
    const v = at.v ? "1" : "0";
    if (st[i] !== "?" && st[i] !== v) return null;
    return st[i] === v ? st : st.slice(0, i) + v + st.slice(i + 1);
  }
  /** visit(node, aux) → aux' | undefined(prune); exceptional edges are followed only when opt.exc */
  explore(start, aux0, visit, onExit, opt = {}) {
    const { cfg, T } = this; const seen = new Set(); const work = [];
    const push = (n, st, aux) => { const k = n.id + "/" + st + "/" + aux; if (!seen.has(k)) { seen.add(k); work.push([n, st, aux]); } };
    for (const s of start ?? [cfg.entry]) push(s, "?".repeat(this.atoms.length), aux0);
    let steps = 0;
    while (work.length) {
      if (++steps > (opt.limit ?? 300000)) return { truncated: true };
      const [n, st, aux] = work.pop();
      if (n === cfg.exit || n === cfg.throwExit) { onExit?.(n === cfg.exit ? "normal" : "throw", aux); continue; }
      const a = visit(n, aux); if (a === undefined) continue;
      const st2 = this.step(st, n);
      if (n.exc && opt.exc && T.excTaken(n)) push(n.exc, st, a);
      for (const s of n.succ) { const st3 = this.edge(st2, s); if (st3 !== null) push(s.to, st3, a); }
    }
    return { steps };
  }
}
