// Backward dependence slices inside one function, with access paths on its
// inputs, and whole-program summaries of what a callee reads of its arguments.
import { ts, K, isFn, skip, walk } from "./program.mjs";

const ASSIGN = (k) => k >= K.FirstAssignment && k <= K.LastAssignment;
const MUT = /^(set|add|delete|clear|push|unshift|pop|shift|splice|sort|fill|reverse|copyWithin|append|write\w*)$/;

export class Depend {
  constructor(P) { this.P = P; this._sum = new Map(); this._writesIn = new Map(); this._cells = null; this._reads = new Map(); }

  // ── module-level mutable cells ───────────────────────────────────────────
  /** Map(decl → {writes:[{fn,node,kind}], reads:[node]}) for every module-level variable some function writes. */
  get cells() {
    if (this._cells) return this._cells;
    const P = this.P, all = new Map();
    for (const f of P.files) for (const st of f.statements) if (ts.isVariableStatement(st)) for (const d of st.declarationList.declarations) if (ts.isIdentifier(d.name)) all.set(d, { decl: d, let: !!(st.declarationList.flags & ts.NodeFlags.Let), writes: [], refs: [] });
    const rootOf = (e) => { e = skip(e); while (ts.isPropertyAccessExpression(e) || ts.isElementAccessExpression(e)) e = skip(e.expression); return e; };
    for (const g of P.files) walk(g, (n) => {
      const note = (e, kind) => { const r = rootOf(e); if (!ts.isIdentifier(r)) return; const fn = P.enclosingFn(n); if (!fn) return; for (const d of P.declsOf(r)) all.get(d)?.writes.push({ fn, node: n, kind, direct: r === skip(e), id: r }); };
      if (ts.isBinaryExpression(n) && ASSIGN(n.operatorToken.kind)) {
        if (ts.isArrayLiteralExpression(n.left)) for (const x of n.left.elements) note(x, "=");
        else if (ts.isObjectLiteralExpression(n.left)) for (const p of n.left.properties) note(ts.isPropertyAssignment(p) ? p.initializer : p.name, "=");
        else note(n.left, "=");
      } else if ((ts.isPrefixUnaryExpression(n) || ts.isPostfixUnaryExpression(n)) && [K.PlusPlusToken, K.MinusMinusToken].includes(n.operator)) note(n.operand, "++");
      else if (ts.isCallExpression(n) && ts.isPropertyAccessExpression(skip(n.expression)) && MUT.test(skip(n.expression).name.text)) note(skip(n.expression).expression, skip(n.expression).name.text);
      else if (ts.isDeleteExpression(n)) note(n.expression, "delete");
      else if (ts.isIdentifier(n) && !(n.parent && ts.isPropertyAccessExpression(n.parent) && n.parent.name === n)) {
        const ds = P.declsOf(n); for (const d of ds) { const c = all.get(d); if (c && d.name !== n) c.refs.push(n); }
      }
    });
    // an alias that hands the container to another variable keeps its writes
    for (const [d, c] of [...all]) if (!c.writes.length) all.delete(d);
    return this._cells = all;
  }
  /** cells read (other than as a write target) anywhere in fn's own body or closures */
  cellReads(fn) {
    if (!this._cellReads) {
      this._cellReads = new Map();
      for (const [d, c] of this.cells) for (const r of c.refs) {
        let p = r.parent; while (p && (ts.isParenthesizedExpression(p) || ts.isAsExpression(p) || ts.isSatisfiesExpression(p))) p = p.parent;
        if (p && ts.isBinaryExpression(p) && p.operatorToken.kind === K.EqualsToken && skip(p.left) === r) continue;
        if (p && (ts.isPostfixUnaryExpression(p) || ts.isPrefixUnaryExpression(p)) && ts.isExpressionStatement(p.parent)) continue;
        if (p && ts.isPropertyAccessExpression(p) && ts.isCallExpression(p.parent) && /^(set|add|clear|delete|push)$/.test(p.name.text) && ts.isExpressionStatement(p.parent.parent)) continue;
        for (let f = this.P.enclosingFn(r); f; f = this.P.enclosingFn(f)) { let s = this._cellReads.get(f); if (!s) this._cellReads.set(f, s = new Set()); s.add(d); }
      }
    }
    return this._cellReads.get(fn) ?? new Set();
  }

  // ── access paths ─────────────────────────────────────────────────────────
  /** resolve an expression to {root: Declaration, path: "a.b"} when it is a plain access chain */
  chain(e) {
    e = skip(e); const parts = [];
    for (;;) {
      if (ts.isPropertyAccessExpression(e)) { parts.unshift(e.name.text); e = skip(e.expression); }
      else if (ts.isElementAccessExpression(e)) { const a = skip(e.argumentExpression); if (ts.isStringLiteralLike(a)) parts.unshift(a.text); else parts.length = 0; e = skip(e.expression); if (!ts.isStringLiteralLike(a)) parts.cut = true; }
      else if (ts.isNonNullExpression(e)) e = skip(e.expression);
      else break;
    }
    if (!ts.isIdentifier(e)) return null;
    const d = this.P.declsOf(e)[0]; if (!d) return null;
    return { root: d, path: parts.join("."), id: e };
  }
  /** "" is the whole value; covers(a,b): knowing a determines b */
  static covers(a, b) { return a === "" || a === b || b.startsWith(a + "."); }

  /** a reference that only observes part of a value: compared with a constant, or its key names */
  lossy(e) {
    let p = e.parent; while (p && (ts.isParenthesizedExpression(p) || ts.isNonNullExpression(p) || ts.isAsExpression(p))) { e = p; p = p.parent; }
    if (!p) return null;
    const konst = (x) => { x = skip(x); return ts.isLiteralExpression(x) || x.kind === K.NullKeyword || x.kind === K.TrueKeyword || x.kind === K.FalseKeyword || ts.isIdentifier(x) && x.text === "undefined" || ts.isPrefixUnaryExpression(x) && ts.isLiteralExpression(x.operand); };
    const CMP = [K.EqualsEqualsToken, K.EqualsEqualsEqualsToken, K.ExclamationEqualsToken, K.ExclamationEqualsEqualsToken, K.LessThanToken, K.LessThanEqualsToken, K.GreaterThanToken, K.GreaterThanEqualsToken];
    if (ts.isBinaryExpression(p) && CMP.includes(p.operatorToken.kind) && (p.left === e ? konst(p.right) : konst(p.left))) return "#test";
    if (ts.isPrefixUnaryExpression(p) && p.operator === K.ExclamationToken) return "#test";
    if (ts.isConditionalExpression(p) && p.condition === e) return "#test";
    if (ts.isIfStatement(p) && p.expression === e) return "#test";
    if (ts.isCallExpression(p) && p.arguments.length === 1 && p.arguments[0] === e && ts.isPropertyAccessExpression(skip(p.expression)) && /^Object\.keys$/.test(skip(p.expression).getText())) return "#keys";
    return null;
  }
  /** how a binding element reaches its parameter: {param, path} */
  bindingPath(d) {
    const parts = []; let n = d;
    while (n && ts.isBindingElement(n)) {
      if (n.dotDotDotToken) parts.length = 0;
      else if (ts.isObjectBindingPattern(n.parent)) { const k = n.propertyName ?? n.name; if (ts.isIdentifier(k) || ts.isStringLiteral(k)) parts.unshift(k.text); else parts.length = 0; } else parts.length = 0;
      n = n.parent.parent;
    }
    return { base: n, path: parts.join(".") };
  }

  /** access paths of declaration `d` (a parameter or local) read anywhere in `scope` */
  usePaths(d, scope, depth = 0, seen = new Set()) {
    const out = new Set();
    if (seen.has(d) || depth > 6) { out.add(""); return out; }
    seen = new Set(seen); seen.add(d);
    if (!ts.isIdentifier(d.name)) { // destructured
      walk(d.name, (b) => { if (ts.isBindingElement(b) && ts.isIdentifier(b.name)) { const { path } = this.bindingPath(b); const used = this.usePaths(b, scope, depth, seen); for (const u of used) out.add([path, u].filter(Boolean).join(".")); } });
      return out;
    }
    const text = d.name.text;
    walk(scope, (n) => {
      if (!ts.isIdentifier(n) || n.text !== text || n === d.name) return;
      if (n.parent && ts.isPropertyAccessExpression(n.parent) && n.parent.name === n) return;
      if (ts.isPropertyAssignment(n.parent) && n.parent.name === n) return;
      if (ts.isTypeNode(n.parent) || ts.isTypeQueryNode?.(n.parent)) return;
      if (!this.P.declsOf(n).includes(d)) return;
      for (const p of this.pathsAt(n, scope, depth, seen)) out.add(p);
    });
    return out;
  }
  /** the access path(s) of the root identifier `n` as used at this reference */
  pathsAt(n, scope, depth, seen) {
    let e = n, path = [];
    for (;;) {
      const p = e.parent;
      if (ts.isParenthesizedExpression(p) || ts.isNonNullExpression(p) || ts.isAsExpression(p) || ts.isSatisfiesExpression(p)) { e = p; continue; }
      if (ts.isPropertyAccessExpression(p) && p.expression === e) { const g = p.parent; if (ts.isCallExpression(g) && g.expression === p && !this.P.callees(g).length) return [path.join(".")]; path.push(p.name.text); e = p; continue; }
      if (ts.isElementAccessExpression(p) && p.expression === e && ts.isStringLiteralLike(skip(p.argumentExpression))) { path.push(skip(p.argumentExpression).text); e = p; continue; }
      break;
    }
    const lo = this.lossy(e); if (lo) return [[...path, lo].join(".")];
    const p = e.parent, base = path.join(".");
    const join = (s) => [...s].map((x) => [base, x].filter(Boolean).join("."));
    if ((ts.isCallExpression(p) || ts.isNewExpression(p)) && p.arguments?.includes(e)) {
      const i = p.arguments.indexOf(e), fns = this.P.callees(p);
      if (fns.length && !p.arguments.some((a) => ts.isSpreadElement(a))) { const r = new Set(); for (const f of fns) for (const x of this.summary(f, i, depth + 1)) r.add(x); return join(r); }
      return [base];
    }
    if (ts.isVariableDeclaration(p) && p.initializer && skip(p.initializer) === skip(e) && !(ts.isForOfStatement(p.parent.parent))) return join(this.usePaths(p, scope, depth, seen));
    if (ts.isBinaryExpression(p) && ASSIGN(p.operatorToken.kind) && p.left === e && path.length && p.operatorToken.kind === K.EqualsToken) return []; // written, not read
    return [base];
  }
  /** paths of fn's i-th parameter its body (and what it calls) reads */
  summary(fn, i, depth = 0) {
    const prm = fn.parameters[i] ?? (fn.parameters.length && fn.parameters[fn.parameters.length - 1].dotDotDotToken ? fn.parameters[fn.parameters.length - 1] : null);
    if (!prm) return new Set();
    if (prm.dotDotDotToken) return new Set([""]);
    let m = this._sum.get(fn); if (!m) this._sum.set(fn, m = new Map());
    if (m.has(i)) return m.get(i);
    m.set(i, new Set()); // recursion: least fixed point from empty
    const r = depth > 5 ? new Set([""]) : this.usePaths(prm, fn, depth);
    m.set(i, r); return r;
  }

  // ── slices ───────────────────────────────────────────────────────────────
  /** writes to local variables inside fn: decl → [{expr?, node}] */
  writesIn(fn) {
    if (this._writesIn.has(fn)) return this._writesIn.get(fn);
    const W = new Map(), P = this.P; const add = (d, w) => { let a = W.get(d); if (!a) W.set(d, a = []); a.push(w); };
    const rootDecl = (e) => { e = skip(e); const idx = []; while (ts.isPropertyAccessExpression(e) || ts.isElementAccessExpression(e)) { if (ts.isElementAccessExpression(e)) idx.push(e.argumentExpression); e = skip(e.expression); } return ts.isIdentifier(e) ? { d: P.declsOf(e)[0], idx } : null; };
    walk(fn, (n) => {
      if (ts.isVariableDeclaration(n)) {
        const loop = ts.isForOfStatement(n.parent.parent) || ts.isForInStatement(n.parent.parent) ? n.parent.parent : null;
        const src = n.initializer ?? loop?.expression; if (!src) return;
        if (ts.isIdentifier(n.name)) add(n, { exprs: [src], node: n }); else walk(n.name, (b) => { if (ts.isBindingElement(b) && ts.isIdentifier(b.name)) add(b, { exprs: b.initializer ? [src, b.initializer] : [src], node: n, bind: this.bindingPath(b), src }); });
      } else if (ts.isBinaryExpression(n) && ASSIGN(n.operatorToken.kind)) {
        const go = (l) => { l = skip(l); if (ts.isArrayLiteralExpression(l)) { for (const x of l.elements) go(x); return; } if (ts.isObjectLiteralExpression(l)) { for (const p of l.properties) go(ts.isPropertyAssignment(p) ? p.initializer : p.name); return; } const r = rootDecl(l); if (r?.d) add(r.d, { exprs: [n.right, ...r.idx], node: n }); };
        go(n.left);
      } else if ((ts.isPrefixUnaryExpression(n) || ts.isPostfixUnaryExpression(n)) && [K.PlusPlusToken, K.MinusMinusToken].includes(n.operator)) { const r = rootDecl(n.operand); if (r?.d) add(r.d, { exprs: r.idx, node: n }); }
      else if (ts.isCallExpression(n)) {
        const c = skip(n.expression);
        if (ts.isPropertyAccessExpression(c) && (MUT.test(c.name.text) || ts.isExpressionStatement(n.parent))) { const r = rootDecl(c.expression); if (r?.d && (ts.isVariableDeclaration(r.d) || ts.isBindingElement(r.d))) add(r.d, { exprs: [...n.arguments, ...r.idx], node: n }); }
        if (ts.isExpressionStatement(n.parent) || ts.isAwaitExpression(n.parent) && ts.isExpressionStatement(n.parent.parent)) // out-parameters
          for (const a of n.arguments) { const s = skip(a); if (ts.isIdentifier(s) && (P.type(s).flags & ts.TypeFlags.Object)) { const d = P.declsOf(s)[0]; if (d && ts.isVariableDeclaration(d) && P.enclosingFn(d)) add(d, { exprs: n.arguments.filter((x) => x !== a), node: n }); } }
      }
    });
    this._writesIn.set(fn, W); return W;
  }
  /** conditions that decide whether node runs, up to fn */
  conditions(node, fn) {
    const out = []; let c = node, p = node.parent;
    while (p && c !== fn) {
      if (ts.isIfStatement(p) && c !== p.expression) out.push(p.expression);
      else if (ts.isConditionalExpression(p) && c !== p.condition) out.push(p.condition);
      else if ((ts.isWhileStatement(p) || ts.isDoStatement(p)) && c === p.statement) out.push(p.expression);
      else if (ts.isForStatement(p) && c === p.statement && p.condition) out.push(p.condition);
      else if ((ts.isForOfStatement(p) || ts.isForInStatement(p)) && c === p.statement) out.push(p.expression);
      else if (ts.isCaseClause(p)) out.push(p.expression, p.parent.parent.expression);
      else if (ts.isDefaultClause(p)) out.push(p.parent.parent.expression);
      else if (ts.isBinaryExpression(p) && [K.AmpersandAmpersandToken, K.BarBarToken, K.QuestionQuestionToken].includes(p.operatorToken.kind) && c === p.right) out.push(p.left);
      if (p === fn) break;
      c = p; p = p.parent;
    }
    return out;
  }
  /**
   * Inputs an expression in fn depends on.
   * Returns {inputs: Map(decl → Set(path)), fns: Set(callee), cells: Set(decl), unknown}
   * inputs: parameters of fn, and variables captured from outside fn.
   */
  slice(exprs, fn, opts = {}) {
    const P = this.P, inputs = new Map(), fns = new Set(), cells = new Set(), nodes = [];
    const W = this.writesIn(fn), cellDecls = this.cells, done = new Set(), seenVar = new Set(), condDone = new Set();
    const inside = (d) => { for (let p = d; p; p = p.parent) if (p === fn) return true; return false; };
    const put = (d, path) => { let s = inputs.get(d); if (!s) inputs.set(d, s = new Set()); s.add(path); };
    const condOf = (n) => { if (opts.noConditions) return; for (const c of this.conditions(n, fn)) if (!condDone.has(c) && !opts.skipCond?.has(c)) { condDone.add(c); visit(c); } };
    const useVar = (d, path) => {
      if (opts.asInput?.has(d)) { put(d, path); return; }
      if (ts.isBindingElement(d) && opts.asInput) { const { base, path: bp } = this.bindingPath(d); if (opts.asInput.has(base)) { put(base, [bp, path].filter(Boolean).join(".")); return; } }
      if (!inside(d)) { // captured or module-level
        if (cellDecls.has(d)) cells.add(d);
        else if (P.enclosingFn(d)) put(d, path);
        return;
      }
      if (ts.isParameter(d) && d.parent === fn) { put(d, path); local(d); return; }
      if (ts.isBindingElement(d)) {
        const { base, path: bp } = this.bindingPath(d);
        if (base && ts.isParameter(base) && base.parent === fn) { put(base, [bp, path].filter(Boolean).join(".")); local(d); return; }
      }
      local(d, path);
    };
    const local = (d, path) => {
      const key = d; if (seenVar.has(key) && !path) return;
      const first = !seenVar.has(key); seenVar.add(key);
      for (const w of W.get(d) ?? []) {
        if (opts.skipWrite?.(w, d)) continue;
        // a plain alias keeps the access path
        if (w.node === d && w.exprs.length === 1 && path) { const ch = this.chain(w.exprs[0]); if (ch && inputRoot(ch)) { useVar(ch.root, [ch.path, path].filter(Boolean).join(".")); continue; } }
        if (w.bind && ts.isVariableDeclaration(w.bind.base) ) { const ch = this.chain(w.src); if (ch && inputRoot(ch)) { useVar(ch.root, [ch.path, w.bind.path, path].filter(Boolean).join(".")); for (const x of w.exprs.slice(1)) visit(x); condOf(w.node); continue; } }
        if (!first) continue;
        for (const x of w.exprs) visit(x);
        condOf(w.node);
      }
      if (first && ts.isParameter(d) && d.parent !== fn) { // parameter of a nested callback: depends on what calls it
        const g = d.parent; const call = g.parent && ts.isCallExpression(g.parent) ? g.parent : null;
        if (call) { const c = skip(call.expression); if (ts.isPropertyAccessExpression(c)) visit(c.expression); for (const a of call.arguments) if (a !== g) visit(a); }
      }
      if (first && ts.isBindingElement(d)) { const { base } = this.bindingPath(d); if (base && ts.isParameter(base) && base.parent !== fn) local(base); }
    };
    const inputRoot = (ch) => !ts.isFunctionLike(ch.root) && (ts.isParameter(ch.root) || ts.isVariableDeclaration(ch.root) || ts.isBindingElement(ch.root));
    const visit = (e) => {
      if (!e || done.has(e)) return; done.add(e);
      e = skip(e); nodes.push(e);
      if (opts.stop?.(e)) return;
      if (ts.isTypeNode(e)) return;
      const ch = ts.isIdentifier(e) || ts.isPropertyAccessExpression(e) || ts.isElementAccessExpression(e) ? this.chain(e) : null;
      if (ch) {
        for (const d of P.declsOf(e)) if (isFn(d) && d.body) fns.add(d);
        const lo = inputRoot(ch) ? this.lossy(e) : null;
        if (inputRoot(ch)) useVar(ch.root, lo ? [ch.path, lo].filter(Boolean).join(".") : ch.path); else if (isFn(ch.root) && ch.root.body) fns.add(ch.root);
        let x = e; while (ts.isPropertyAccessExpression(x) || ts.isElementAccessExpression(x)) { if (ts.isElementAccessExpression(x)) visit(x.argumentExpression); x = skip(x.expression); }
        return;
      }
      if (ts.isCallExpression(e) || ts.isNewExpression(e)) {
        const cs = P.callees(e); for (const f of cs) fns.add(f);
        const c = skip(e.expression);
        if (!cs.length) { if (ts.isPropertyAccessExpression(c)) visit(c.expression); else visit(c); }
        else if (ts.isPropertyAccessExpression(c)) visit(c.expression);
        (e.arguments ?? []).forEach((a, i) => {
          if (cs.length && !ts.isSpreadElement(a)) {
            const ach = this.chain(a);
            const used = new Set(); for (const f of cs) for (const u of this.summary(f, i)) used.add(u);
            if (!used.size) return; // ignored by the callee
            if (ach && inputRoot(ach) && ![...used].includes("")) { for (const u of used) useVar(ach.root, [ach.path, u].filter(Boolean).join(".")); return; }
          }
          visit(ts.isSpreadElement(a) ? a.expression : a);
        });
        return;
      }
      if (isFn(e)) { // closure: everything it mentions
        walk(e, (n) => { if (ts.isTypeNode(n)) return false; if (n !== e && (ts.isIdentifier(n) || ts.isPropertyAccessExpression(n)) && !(ts.isPropertyAccessExpression(n.parent) && (n.parent.name === n || n.parent.expression === n && this.chain(n.parent)))) { if (!(ts.isPropertyAssignment(n.parent) && n.parent.name === n)) visit(n); } if (ts.isCallExpression(n)) { for (const f of P.callees(n)) fns.add(f); } });
        return;
      }
      ts.forEachChild(e, (x) => { if (ts.isExpression(x) || ts.isTemplateSpan(x) || ts.isSpreadElement(x) || ts.isObjectLiteralElementLike(x)) part(x); });
    };
    const part = (x) => {
      if (ts.isTemplateSpan(x)) visit(x.expression);
      else if (ts.isPropertyAssignment(x)) { if (ts.isComputedPropertyName(x.name)) visit(x.name.expression); visit(x.initializer); }
      else if (ts.isShorthandPropertyAssignment(x)) { const d = P.declsOf(x.name)[0]; if (d) { if (isFn(d)) fns.add(d); else useVar(d, ""); } }
      else if (ts.isSpreadAssignment(x) || ts.isSpreadElement(x)) visit(x.expression);
      else if (ts.isMethodDeclaration(x) || ts.isAccessor(x)) visit(x);
      else visit(x);
    };
    for (const e of exprs) visit(e);
    for (const n of opts.alsoConditionsOf ?? []) condOf(n);
    return { inputs, fns, cells, nodes };
  }
  /** cells a set of functions may read, through everything they call */
  cellsReadBy(fns, cut) {
    const out = new Set(), seen = new Set(), st = [...fns];
    while (st.length) { const f = st.pop(); if (seen.has(f) || cut?.(f)) continue; seen.add(f); for (const d of this.cellReads(f)) out.add(d); for (const g of this.P.callGraph.get(f) ?? []) st.push(g); }
    return out;
  }
}
