// Demand-driven, interprocedural, field-based backward value flow over the
// resolved program. A state is (expression | declaration, call-string).
import { ts, K, isFn, skip, walk } from "./program.mjs";

const MUTATORS = new Set(["push", "unshift", "add", "set", "append", "fill", "splice", "concat"]);
const ASSIGN_OPS = new Set([K.EqualsToken, K.PlusEqualsToken, K.QuestionQuestionEqualsToken, K.BarBarEqualsToken, K.AmpersandAmpersandEqualsToken]);

const bare = (e) => { while (ts.isParenthesizedExpression(e)) e = e.expression; return e; };
export class Flow {
  constructor(P) {
    this.P = P; this.writes = new Map(); this.propLinks = new Map(); this.callsByDecl = new Map(); this.argUses = new Map();
    this.#index();
  }
  addWrite(decl, w) { let a = this.writes.get(decl); if (!a) this.writes.set(decl, a = []); a.push(w); }
  link(to, from) { if (to === from) return; let s = this.propLinks.get(to); if (!s) this.propLinks.set(to, s = new Set()); s.add(from); }

  #bind(pattern, srcExpr, elementOf) { // destructuring: each leaf gets a write
    for (const el of pattern.elements) {
      if (ts.isOmittedExpression(el)) continue;
      if (el.initializer) this.addWrite(el, { expr: el.initializer });
      if (ts.isObjectBindingPattern(pattern)) {
        const nameNode = el.propertyName ?? el.name;
        let decls = [];
        if (el.dotDotDotToken) decls = [];
        else {
          const t = this.P.checker.getTypeAtLocation(pattern);
          const nm = ts.isIdentifier(nameNode) || ts.isStringLiteral(nameNode) ? nameNode.text : null;
          const ps = nm ? t.getProperty(nm) : null;
          decls = ps?.declarations ?? [];
        }
        if (decls.length) for (const d of decls) this.addWrite(el, { decl: d, obj: srcExpr });
        else if (srcExpr) this.addWrite(el, { expr: srcExpr });
      } else if (srcExpr) this.addWrite(el, { expr: srcExpr, elem: true });
      else this.addWrite(el, { decl: pattern.parent });
      if (ts.isObjectBindingPattern(el.name) || ts.isArrayBindingPattern(el.name)) this.#bindNested(el.name, el);
    }
  }
  #bindNested(pattern, parentEl) {
    for (const el of pattern.elements) {
      if (ts.isOmittedExpression(el)) continue;
      if (el.initializer) this.addWrite(el, { expr: el.initializer });
      let done = false;
      if (ts.isObjectBindingPattern(pattern) && !el.dotDotDotToken) {
        const nm = (el.propertyName ?? el.name).text;
        const ps = nm ? this.P.checker.getTypeAtLocation(pattern).getProperty(nm) : null;
        for (const d of ps?.declarations ?? []) { this.addWrite(el, { decl: d }); done = true; }
      }
      if (!done) this.addWrite(el, { decl: parentEl });
      if (!ts.isIdentifier(el.name)) this.#bindNested(el.name, el);
    }
  }
  #lhsWrite(lhs, w) {
    lhs = skip(lhs);
    if (ts.isIdentifier(lhs) || ts.isPropertyAccessExpression(lhs)) for (const d of this.P.declsOf(lhs)) this.addWrite(d, w);
    else if (ts.isElementAccessExpression(lhs)) {
      const ds = this.P.sym(lhs)?.declarations;
      if (ds?.length) for (const d of ds) this.addWrite(d, w);
      this.#lhsWrite(lhs.expression, { ...w, elem: true, container: true });
    } else if (ts.isArrayLiteralExpression(lhs)) for (const e of lhs.elements) this.#lhsWrite(ts.isSpreadElement(e) ? e.expression : e, w);
    else if (ts.isObjectLiteralExpression(lhs)) for (const p of lhs.properties) {
      if (ts.isPropertyAssignment(p)) this.#lhsWrite(p.initializer, w); else if (ts.isShorthandPropertyAssignment(p)) for (const d of this.P.declsOf(p.name)) this.addWrite(d, w);
    }
  }
  #index() {
    const P = this.P, c = P.checker;
    this.typePairs = new Set();
    for (const f of P.files) walk(f, (n) => {
      if (ts.isVariableDeclaration(n)) {
        const forOf = n.parent?.parent && (ts.isForOfStatement(n.parent.parent) || ts.isForInStatement(n.parent.parent)) ? n.parent.parent : null;
        const src = n.initializer ?? (forOf ? forOf.expression : null);
        if (src && forOf && ts.isForInStatement(forOf)) { /* keys */ this.addWrite(n, { expr: src, keys: true }); }
        else if (src) {
          if (ts.isIdentifier(n.name)) this.addWrite(n, { expr: src, elem: !!forOf });
          else { this.addWrite(n, { expr: src, elem: !!forOf }); this.#bind(n.name, src, !!forOf); }
          if (n.initializer && n.type) this.linkTypes(c.getTypeFromTypeNode(n.type), c.getTypeAtLocation(n.initializer));
        }
      } else if ((ts.isAsExpression(n) && !ts.isConstTypeReference(n.type)) || ts.isSatisfiesExpression(n)) this.linkTypes(c.getTypeFromTypeNode(n.type), c.getTypeAtLocation(skip(n.expression)));
      else if (ts.isParameter(n)) {
        if (n.initializer) this.addWrite(n, { expr: n.initializer });
        if (!ts.isIdentifier(n.name)) this.#bindNested(n.name, n);
      } else if (ts.isPropertyDeclaration(n) && n.initializer) this.addWrite(n, { expr: n.initializer });
      else if (ts.isBinaryExpression(n) && ASSIGN_OPS.has(n.operatorToken.kind)) {
        this.#lhsWrite(n.left, { expr: n.right, op: n.operatorToken.kind });
        if (n.operatorToken.kind === K.EqualsToken) this.linkTypes(c.getTypeAtLocation(n.left), c.getTypeAtLocation(n.right));
      } else if (ts.isObjectLiteralExpression(n)) {
        const ctxT = c.getContextualType(n);
        for (const p of n.properties) {
          if (ts.isSpreadAssignment(p)) { if (ctxT) this.linkTypes(ctxT, c.getTypeAtLocation(p.expression)); continue; }
          const own = p;
          if (ts.isPropertyAssignment(p)) this.addWrite(own, { expr: p.initializer });
          else if (ts.isShorthandPropertyAssignment(p)) this.addWrite(own, { expr: p.name });
          const nm = p.name && (ts.isIdentifier(p.name) || ts.isStringLiteral(p.name)) ? p.name.text : null;
          if (ctxT && nm) for (const d of this.propDecls(ctxT, nm)) this.link(d, own);
          const v = ts.isShorthandPropertyAssignment(p) ? p.name : ts.isPropertyAssignment(p) ? p.initializer : null; // a value built elsewhere, with members of its own
          if (ctxT && nm && v && !ts.isObjectLiteralExpression(bare(v))) for (const u of ctxT.isUnionOrIntersection?.() ? ctxT.types : [ctxT]) { const q = u.getProperty?.(nm); if (q) this.linkTypes(c.getTypeOfSymbolAtLocation(q, n), c.getTypeAtLocation(v)); }
        }
      } else if (ts.isCallExpression(n) || ts.isNewExpression(n)) {
        const callee = n.expression;
        if (ts.isPropertyAccessExpression(callee) && MUTATORS.has(callee.name.text) && !P.callees(n).length)
          for (const a of n.arguments ?? []) this.#lhsWrite(callee.expression, { expr: ts.isSpreadElement(a) ? a.expression : a, elem: true, container: true, via: callee.name.text, call: n, mapKey: callee.name.text === "set" && n.arguments.length === 2 && a === n.arguments[0] });
        for (const d of P.declsOf(callee)) { let a = this.callsByDecl.get(d); if (!a) this.callsByDecl.set(d, a = []); a.push(n); }
        const sig = c.getResolvedSignature(n);
        if (sig?.declaration && P.files.includes(sig.declaration.getSourceFile()))
          (n.arguments ?? []).forEach((a, i) => {
            const ps = sig.parameters[Math.min(i, sig.parameters.length - 1)];
            if (ps && !ts.isObjectLiteralExpression(bare(a))) this.linkTypes(c.getTypeOfSymbolAtLocation(ps, n), c.getTypeAtLocation(a));
          });
      } else if (ts.isReturnStatement(n) && n.expression && !ts.isObjectLiteralExpression(bare(n.expression))) {
        const fn = P.enclosingFn(n);
        if (fn?.type) this.linkTypes(c.getTypeFromTypeNode(fn.type), c.getTypeAtLocation(n.expression));
      }
    });
    for (const n of P.files) void n;
    // where does a function/identifier flow as an argument
    for (const call of P.calls) {
      const args = call.arguments ?? [];
      args.forEach((a, i) => {
        for (const f of P.fnsOfExpr(a)) { let u = this.argUses.get(f); if (!u) this.argUses.set(f, u = []); u.push({ call, index: i }); }
      });
    }
  }
  propDecls(t, name) {
    const out = [];
    const parts = t.isUnionOrIntersection?.() ? t.types : [t];
    for (const u of parts) { const p = u.getProperty?.(name); for (const d of p?.declarations ?? []) out.push(d); }
    return out;
  }
  linkTypes(to, from, depth = 0) {
    if (!to || !from || to === from || depth > 3) return;
    if (!(to.flags & (ts.TypeFlags.Object | ts.TypeFlags.UnionOrIntersection)) || !(from.flags & (ts.TypeFlags.Object | ts.TypeFlags.UnionOrIntersection))) return;
    const key = to.id + ":" + from.id; if (this.typePairs.has(key)) return; this.typePairs.add(key);
    const c = this.P.checker;
    if (to.isUnion?.()) { for (const t of to.types) this.linkTypes(t, from, depth); return; }
    if (from.isUnion?.()) { for (const t of from.types) this.linkTypes(to, t, depth); return; }
    const ta = c.getTypeArguments && (to.objectFlags & ts.ObjectFlags.Reference) ? c.getTypeArguments(to) : [];
    const fa = c.getTypeArguments && (from.objectFlags & ts.ObjectFlags.Reference) ? c.getTypeArguments(from) : [];
    if (ta.length && fa.length && to.symbol === from.symbol) { ta.forEach((t, i) => fa[i] && this.linkTypes(t, fa[i], depth + 1)); return; }
    for (const p of to.getProperties()) {
      const d = p.declarations?.[0]; if (!d || !this.P.files.includes(d.getSourceFile())) continue;
      const q = from.getProperty(p.name); if (!q?.declarations) continue;
      for (const dq of q.declarations) if (dq !== d) {
        this.link(d, dq);
      }
      if (q.declarations[0] !== d) this.linkTypes(c.getTypeOfSymbol(p), c.getTypeOfSymbol(q), depth + 1);
    }
  }
  returnsOf(fn) {
    if (!this._ret) this._ret = new Map();
    if (this._ret.has(fn)) return this._ret.get(fn);
    const out = [];
    if (fn.body) {
      if (!ts.isBlock(fn.body)) out.push(fn.body);
      else { const go = (n) => { if (isFn(n) && n !== fn) return; if (ts.isReturnStatement(n) && n.expression) out.push(n.expression); if (ts.isYieldExpression(n) && n.expression) out.push(n.expression); ts.forEachChild(n, go); }; go(fn.body); }
    }
    this._ret.set(fn, out); return out;
  }
  /** Functions a callee expression may denote, following values stored in params, properties, variables. */
  targets(calleeExpr, depth = 0) {
    const direct = this.P.fnsOfExpr(calleeExpr);
    if (direct.length || depth > 3) return direct;
    const out = new Set();
    const e = skip(calleeExpr);
    if (!(ts.isIdentifier(e) || ts.isPropertyAccessExpression(e) || ts.isElementAccessExpression(e))) return [];
    for (const d of this.P.declsOf(e)) for (const f of this.fnValuesOfDecl(d)) out.add(f);
    return [...out];
  }
  fnValuesOfDecl(d, seen = new Set()) {
    if (seen.has(d)) return []; seen.add(d);
    const out = new Set();
    if (isFn(d)) { if (d.body) out.add(d); }
    for (const w of this.writes.get(d) ?? []) {
      if (w.expr) {
        for (const f of this.P.fnsOfExpr(w.expr)) out.add(f);
        const s = skip(w.expr);
        if (ts.isIdentifier(s) || ts.isPropertyAccessExpression(s)) for (const dd of this.P.declsOf(s)) for (const f of this.fnValuesOfDecl(dd, seen)) out.add(f);
      } else if (w.decl) for (const f of this.fnValuesOfDecl(w.decl, seen)) out.add(f);
    }
    for (const l of this.propLinks.get(d) ?? []) { if (isFn(l) && l.body) out.add(l); for (const f of this.fnValuesOfDecl(l, seen)) out.add(f); }
    if (ts.isParameter(d)) {
      const fn = d.parent; const i = fn.parameters.indexOf(d);
      for (const call of this.P.callers.get(fn) ?? []) { const a = call.arguments?.[i]; if (a) { for (const f of this.P.fnsOfExpr(a)) out.add(f);
        const s = skip(a); if (ts.isIdentifier(s) || ts.isPropertyAccessExpression(s)) for (const dd of this.P.declsOf(s)) for (const f of this.fnValuesOfDecl(dd, seen)) out.add(f); } }
    }
    return [...out];
  }
  /** Call sites that may invoke fn: direct, via a param it was passed to, via a property it was stored in. */
  invocations(fn) {
    if (!this._inv) this._inv = new Map();
    if (this._inv.has(fn)) return this._inv.get(fn);
    const out = new Set(this.P.callers.get(fn) ?? []);
    const seen = new Set();
    const viaDecl = (d) => {
      if (seen.has(d)) return; seen.add(d);
      for (const c of this.callsByDecl.get(d) ?? []) out.add(c);
      for (const [to, froms] of this._revLinks(d)) void froms, viaDecl(to);
    };
    const flowsTo = (f) => {
      let p = f.parent;
      while (p && (ts.isParenthesizedExpression(p) || ts.isAsExpression(p) || ts.isSatisfiesExpression(p) || ts.isConditionalExpression(p))) p = p.parent;
      if (p && (ts.isPropertyAssignment(p) || ts.isVariableDeclaration(p) || ts.isPropertyDeclaration(p))) viaDecl(p);
      if (ts.isMethodDeclaration(f)) viaDecl(f);
      if (p && ts.isBinaryExpression(p) && p.operatorToken.kind === K.EqualsToken) for (const d of this.P.declsOf(p.left)) viaDecl(d);
    };
    flowsTo(fn);
    for (const u of this.argUses.get(fn) ?? []) for (const g of this.P.callees(u.call)) {
      const prm = g.parameters[u.index]; if (prm) { viaDecl(prm); }
    }
    // references to a named function used as a property value
    for (const [d, ws] of this.#fnRefWrites(fn)) void ws, viaDecl(d);
    const r = [...out]; this._inv.set(fn, r); return r;
  }
  #fnRefWrites(fn) {
    if (!this._fnRef) {
      this._fnRef = new Map();
      for (const [d, ws] of this.writes) for (const w of ws) if (w.expr) {
        const s = skip(w.expr);
        if (ts.isIdentifier(s) || ts.isPropertyAccessExpression(s)) for (const f of this.P.fnsOfExpr(s)) { if (!this._fnRef.has(f)) this._fnRef.set(f, []); this._fnRef.get(f).push([d, ws]); }
      }
    }
    return this._fnRef.get(fn) ?? [];
  }
  _revLinks(d) {
    if (!this._rev) { this._rev = new Map(); for (const [to, fs] of this.propLinks) for (const f of fs) { if (!this._rev.has(f)) this._rev.set(f, []); this._rev.get(f).push([to, f]); } }
    return this._rev.get(d) ?? [];
  }

  /**
   * Backward trace. policy.expr(e, ctx) / policy.decl(d, ctx) return
   *   {source: label}  -> record a source, stop on this path
   *   "clean"          -> stop
   *   [exprs]          -> follow only these
   *   undefined        -> default propagation
   */
  trace(start, policy, opt = {}) {
    const maxDepth = opt.depth ?? 4, limit = opt.limit ?? 60000;
    const found = []; const seen = new Set(); let steps = 0, truncated = false;
    const idOf = (n) => { if (!this._ids) { this._ids = new Map(); } let i = this._ids.get(n); if (i === undefined) this._ids.set(n, i = this._ids.size); return i; };
    const root = { node: start, kind: ts.isExpression?.(start) || true ? "e" : "e", stack: null, prev: null };
    const work = [root];
    const push = (node, kind, stack, prev, extra) => {
      const k = kind + idOf(node) + "|" + (stack ? stack.id : "") + (extra?.keys ? "k" : "") + (extra?.restIdx !== undefined ? "r" + extra.restIdx : "");
      if (seen.has(k)) return; seen.add(k);
      work.push({ node, kind, stack, prev, ...extra });
    };
    const mk = (stack, call) => {
      const depth = (stack?.depth ?? 0) + 1;
      if (depth > maxDepth) return stack ? { ...stack, lossy: true } : null;
      return { call, up: stack, depth, id: (stack ? stack.id + "," : "") + idOf(call) };
    };
    const has = (stack, call) => { for (let s = stack; s; s = s.up) if (s.call === call) return true; return false; };
    while (work.length) {
      if (++steps > limit) { truncated = true; break; }
      const st = work.pop();
      const n = st.node;
      if (st.kind === "d") { this.#stepDecl(n, st, push, policy, found); continue; }
      const e = skip(n);
      const v = policy.expr?.(e, st);
      if (v === "clean") continue;
      if (v?.source) { found.push({ label: v.source, node: e, path: st }); continue; }
      if (Array.isArray(v)) { for (const x of v) push(x, "e", st.stack, st); continue; }
      if (ts.isStringLiteralLike(e) || ts.isNumericLiteral(e) || e.kind === K.TrueKeyword || e.kind === K.FalseKeyword || e.kind === K.NullKeyword || ts.isRegularExpressionLiteral(e) || isFn(e)) continue;
      if (ts.isTemplateExpression(e)) { for (const s of e.templateSpans) push(s.expression, "e", st.stack, st); continue; }
      if (ts.isBinaryExpression(e)) {
        const op = e.operatorToken.kind;
        if (op === K.PlusToken || op === K.QuestionQuestionToken || op === K.BarBarToken) { push(e.left, "e", st.stack, st); push(e.right, "e", st.stack, st); }
        else if (op === K.AmpersandAmpersandToken || op === K.CommaToken || op === K.EqualsToken) push(e.right, "e", st.stack, st);
        else if (ASSIGN_OPS.has(op)) { push(e.left, "e", st.stack, st); push(e.right, "e", st.stack, st); }
        continue;
      }
      if (ts.isConditionalExpression(e)) { push(e.whenTrue, "e", st.stack, st); push(e.whenFalse, "e", st.stack, st); continue; }
      if (ts.isAwaitExpression(e) || ts.isSpreadElement(e)) { push(e.expression, "e", st.stack, st, ts.isSpreadElement(e) && st.restIdx !== undefined ? { restIdx: st.restIdx } : undefined); continue; }
      if (ts.isArrayLiteralExpression(e)) { for (const x of e.elements) push(x, "e", st.stack, st); continue; }
      if (ts.isObjectLiteralExpression(e)) {
        for (const p of e.properties) {
          if (ts.isPropertyAssignment(p)) push(p.initializer, "e", st.stack, st);
          else if (ts.isShorthandPropertyAssignment(p)) push(p.name, "e", st.stack, st);
          else if (ts.isSpreadAssignment(p)) push(p.expression, "e", st.stack, st);
        }
        continue;
      }
      if (ts.isIdentifier(e)) { for (const d of this.P.declsOf(e)) push(d, "d", st.stack, st, { use: e, ...(st.restIdx !== undefined && ts.isParameter(d) && d.dotDotDotToken ? { restIdx: st.restIdx } : {}) }); continue; }
      if (ts.isPropertyAccessExpression(e) || ts.isElementAccessExpression(e)) {
        const ds = this.P.declsOf(ts.isPropertyAccessExpression(e) ? e.name : e);
        const inRepo = ds.filter((d) => this.P.files.includes(d.getSourceFile()));
        if (inRepo.length) for (const d of inRepo) push(d, "d", st.stack, st, { use: e });
        else push(e.expression, "e", st.stack, st);
        continue;
      }
      if (ts.isNewExpression(e) && ts.isIdentifier(e.expression) && e.expression.text === "Promise" && e.arguments?.[0]) { // the value is what the executor resolves with
        for (const f of this.P.fnsOfExpr(e.arguments[0])) if (f.parameters[0]) for (const k of this.callsByDecl.get(f.parameters[0]) ?? []) if (k.arguments?.[0]) push(k.arguments[0], "e", st.stack, st);
        continue;
      }
      if (ts.isCallExpression(e) || ts.isNewExpression(e)) {
        const fns = this.targets(e.expression);
        if (fns.length) {
          for (const f of fns) { if (has(st.stack, e)) continue; for (const r of this.returnsOf(f)) push(r, "e", mk(st.stack, e), st); }
          continue;
        }
        const cal = e.expression, args = e.arguments ?? [];
        if (ts.isPropertyAccessExpression(cal)) {
          const m = cal.name.text;
          const cb = args.flatMap((a) => this.P.fnsOfExpr(a));
          if (["map", "flatMap", "reduce", "then", "replace", "replaceAll", "reduceRight", "from"].includes(m) && cb.length) {
            for (const f of cb) for (const r of this.returnsOf(f)) push(r, "e", st.stack, st);
            if (m !== "map" && m !== "flatMap" && m !== "then" && m !== "from") push(cal.expression, "e", st.stack, st);
            if (m === "reduce") for (const a of args.slice(1)) push(a, "e", st.stack, st);
            continue;
          }
          push(cal.expression, "e", st.stack, st);
          if (["filter", "find", "sort", "toSorted", "some", "every", "slice", "at", "get", "trim", "toLowerCase", "toUpperCase", "split", "substring", "charAt", "values", "keys", "entries", "exec", "match", "pop", "shift"].includes(m)) {
            if (["exec", "match"].includes(m)) for (const a of args) push(a, "e", st.stack, st);
            continue;
          }
        }
        for (const a of args) if (!isFn(skip(a))) push(a, "e", st.stack, st);
        continue;
      }
      if (ts.isTaggedTemplateExpression(e)) { if (ts.isTemplateExpression(e.template)) for (const s of e.template.templateSpans) push(s.expression, "e", st.stack, st); continue; }
      if (ts.isPrefixUnaryExpression(e) || ts.isTypeOfExpression(e) || ts.isVoidExpression(e) || ts.isDeleteExpression(e)) continue;
    }
    return { found, truncated, steps };
  }
  #stepDecl(d, st, push, policy, found) {
    const v = policy.decl?.(d, st);
    if (v === "clean") return;
    if (v?.source) { found.push({ label: v.source, node: d, path: st }); return; }
    if (ts.isBindingElement(d) && !(this.writes.get(d)?.length)) { // param destructuring
      let p = d.parent; while (p && !ts.isParameter(p) && !ts.isVariableDeclaration(p)) p = p.parent;
      if (p) push(p, "d", st.stack, st);
    }
    for (const w of this.writes.get(d) ?? []) {
      if (w.mapKey && policy.noMapKeys) continue;
      if (w.expr) push(w.expr, "e", st.stack, st);
      else if (w.decl) {
        push(w.decl, "d", st.stack, st, { use: st.use });
        if (ts.isBindingElement(d) && !this.P.files.includes(w.decl.getSourceFile())) { // a member only a library's types declare: the destructured value itself
          let q = d.parent; while (q && !ts.isParameter(q) && !ts.isVariableDeclaration(q)) q = q.parent;
          if (q && ts.isVariableDeclaration(q) && q.initializer) push(q.initializer, "e", st.stack, st); else if (q && ts.isParameter(q)) push(q, "d", st.stack, st);
        }
      }
    }
    for (const l of this.propLinks.get(d) ?? []) push(l, "d", st.stack, st);
    if (ts.isShorthandPropertyAssignment(d)) { const s = this.P.unalias(this.P.checker.getShorthandAssignmentValueSymbol(d)); for (const x of s?.declarations ?? []) push(x, "d", st.stack, st); }
    if (ts.isGetAccessor(d)) for (const r of this.returnsOf(d)) push(r, "e", st.stack, st);
    if (ts.isParameter(d)) this.#stepParam(d, st, push);
  }
  #stepParam(d, st, push) {
    const fn = d.parent; if (!isFn(fn)) return;
    const idx = fn.parameters.indexOf(d);
    let rest; const argAt = (call) => { rest = undefined; const a = call.arguments ?? []; if (d.dotDotDotToken && st.restIdx !== undefined && !a.slice(0, idx + st.restIdx + 1).some((x) => ts.isSpreadElement(x))) return a[idx + st.restIdx] ? [a[idx + st.restIdx]] : []; if (d.dotDotDotToken) return a.slice(idx); const sp = a.findIndex((x) => ts.isSpreadElement(x)); if (sp >= 0 && sp <= idx) { rest = { restIdx: idx - sp }; return [a[sp]]; } return a[idx] ? [a[idx]] : []; };
    // matched call string: only the call we came through
    if (st.stack && !st.stack.lossy && this.targets(st.stack.call.expression ?? st.stack.call.tag).includes(fn)) {
      for (const a of argAt(st.stack.call)) push(a, "e", st.stack.up, st, rest);
      return;
    }
    for (const call of this.invocations(fn)) for (const a of argAt(call)) push(a, "e", null, st, rest);
    // callback of a library container method: elements come from the receiver
    const p = fn.parent;
    if (ts.isCallExpression(p) && p.arguments.includes(fn) && !this.P.callees(p).length && ts.isPropertyAccessExpression(p.expression)) push(p.expression.name.text === "from" && p.arguments[1] === fn ? p.arguments[0] : p.expression.expression, "e", st.stack, st);
    for (const u of this.argUses.get(fn) ?? []) if (u.call !== p && !this.P.callees(u.call).length && u.call.expression && ts.isPropertyAccessExpression(u.call.expression)) push(u.call.expression.expression, "e", null, st);
  }
  /** Human-readable witness from sink back to source. */
  witness(f, max = 8) {
    const out = []; let s = f.path;
    while (s) { out.push(`${this.P.loc(s.node)} ${this.P.text(s.node, 50)}`); s = s.prev; }
    const r = out.filter((x, i) => i === 0 || x !== out[i - 1]);
    return r.length > max ? [...r.slice(0, max / 2), "…", ...r.slice(-max / 2)] : r;
  }
}
