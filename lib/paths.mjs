// Feasible-path exploration of a CFG: local flag/handle variables that start
// out null/undefined/false are tracked along the path, so that `if (x != null)`
// and `if (done)` in cleanup code are decided instead of guessed.
import { ts, K, isFn, skip, walk } from "./program.mjs";

const isNullLit = (x) => { x = skip(x); return x.kind === K.NullKeyword || (ts.isIdentifier(x) && x.text === "undefined") || ts.isVoidExpression(x); };

export class Feasible {
  constructor(P, T, fn) {
    this.P = P; this.T = T; this.fn = fn; this.cfg = T.cfg(fn);
    this.vars = [];
    const conds = new Set();
    for (const n of this.cfg.nodes) for (const s of n.succ) if (s.cond) walk(s.cond, (q) => { if (ts.isIdentifier(q)) for (const d of P.declsOf(q)) conds.add(d); });
    if (fn.body) walk(fn.body, (q) => {
      if (ts.isVariableDeclaration(q) && ts.isIdentifier(q.name) && conds.has(q) && P.enclosingFn(q) === fn && (q.parent.flags & ts.NodeFlags.Let)) {
        const i = q.initializer && skip(q.initializer);
        if (!i || isNullLit(i) || i.kind === K.FalseKeyword || i.kind === K.TrueKeyword) this.vars.push(q);
      }
    });
    this.vars = this.vars.slice(0, 12);
    // a variable also written from nested closures cannot be tracked
    this.vars = this.vars.filter((v) => { let bad = false; walk(fn.body, (q) => { if (ts.isBinaryExpression(q) && q.operatorToken.kind >= K.FirstAssignment && q.operatorToken.kind <= K.LastAssignment) { const l = skip(q.left); if (ts.isIdentifier(l) && P.declsOf(l).includes(v) && P.enclosingFn(q) !== fn) bad = true; } }); return !bad; });
  }
  init() { return this.vars.map(() => "?").join(""); }
  #val(e) { // N = nullish, F = false, T = truthy/non-null, ? unknown
    if (!e) return "N"; e = skip(e);
    if (isNullLit(e)) return "N"; if (e.kind === K.FalseKeyword) return "F"; if (e.kind === K.TrueKeyword) return "T";
    const t = this.P.type(e); const at = this.P.checker.getAwaitedType?.(t) ?? t;
    const parts = at.isUnion?.() ? at.types : [at];
    if (parts.every((u) => u.flags & ts.TypeFlags.Object)) return "T";
    // `let result: unknown` assigned from a completed evaluation: value present but its type is unknown
    return "?";
  }
  step(state, n) {
    let d = null, v = null;
    if (n.kind === "decl" && ts.isVariableDeclaration(n.ast)) { d = n.ast; v = () => this.#val(n.ast.initializer); }
    if (n.kind === "assign") { const l = skip(n.ast.left); if (ts.isIdentifier(l)) { d = this.P.declsOf(l)[0]; v = () => n.ast.operatorToken.kind === K.EqualsToken ? this.#val(n.ast.right) : "?"; } }
    const i = d ? this.vars.indexOf(d) : -1;
    if (i < 0) return state;
    return state.slice(0, i) + v() + state.slice(i + 1);
  }
  /** false if the edge contradicts the tracked state */
  edgeOk(state, s) {
    if (!s.cond) return true;
    const idx = (x) => { x = skip(x); return ts.isIdentifier(x) ? this.vars.indexOf(this.P.declsOf(x)[0]) : -1; };
    if ("nonnull" in s) { const i = idx(s.cond); if (i < 0) return true; const v = state[i]; return v === "N" ? !s.nonnull : v === "T" || v === "F" ? s.nonnull : true; }
    const c = skip(s.cond);
    let i = idx(c);
    if (i >= 0) { const v = state[i]; return v === "N" || v === "F" ? !s.value : v === "T" ? s.value : true; }
    if (ts.isBinaryExpression(c)) {
      const op = c.operatorToken.kind, eq = op === K.EqualsEqualsToken || op === K.EqualsEqualsEqualsToken, ne = op === K.ExclamationEqualsToken || op === K.ExclamationEqualsEqualsToken;
      if ((eq || ne) && (isNullLit(c.right) || isNullLit(c.left))) {
        i = idx(isNullLit(c.right) ? c.left : c.right); if (i < 0) return true;
        const v = state[i]; if (v === "?") return true; const isNull = v === "N"; return (eq ? isNull : !isNull) === s.value;
      }
    }
    return true;
  }
  /** refine state knowing the edge was taken */
  refine(state, s) {
    if (!s.cond) return state;
    const idx = (x) => { x = skip(x); return ts.isIdentifier(x) ? this.vars.indexOf(this.P.declsOf(x)[0]) : -1; };
    const set = (i, v) => state[i] === "?" ? state.slice(0, i) + v + state.slice(i + 1) : state;
    if ("nonnull" in s) { const i = idx(s.cond); return i < 0 ? state : set(i, s.nonnull ? "T" : "N"); }
    const c = skip(s.cond); const i = idx(c); if (i >= 0) return s.value ? set(i, "T") : state;
    return state;
  }
  /**
   * Explore from entry. visit(node, aux) -> aux' | undefined(prune). Exits are
   * reported through onExit(kind, aux, trail). aux must be a short string.
   */
  explore(aux0, visit, onExit, opt = {}) {
    const { cfg, T } = this; const seen = new Map(); const st = [];
    const push = (n, state, aux, prev) => { const k = n.id + "/" + state + "/" + aux; if (seen.has(k)) return; const rec = { n, state, aux, prev }; seen.set(k, rec); st.push(rec); };
    push(cfg.entry, this.init(), aux0, null);
    let steps = 0;
    while (st.length) {
      if (++steps > (opt.limit ?? 400000)) return { truncated: true };
      const r = st.pop();
      if (r.n === cfg.exit || r.n === cfg.throwExit) { onExit(r.n === cfg.exit ? "normal exit" : "exception", r.aux, r); continue; }
      const a = visit(r.n, r.aux, r);
      if (a === undefined) continue;
      // exceptional edge: the node's own effect has not happened (unless visit says so through auxExc)
      if (T.excTaken(r.n)) push(r.n.exc, r.state, opt.auxExc ? opt.auxExc(r.n, r.aux, a) : a, r);
      const s2 = this.step(r.state, r.n);
      for (const s of r.n.succ) { if (!this.edgeOk(s2, s)) continue; if (opt.edge && !opt.edge(s, a)) continue; push(s.to, this.refine(s2, s), a, r); }
    }
    return { steps };
  }
}
