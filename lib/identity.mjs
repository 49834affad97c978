// Which objects may an expression denote? A demand-driven, access-path based
// backward object-identity analysis: it distinguishes an object from a copy of
// it, and follows a field only through the object that carries it.
import { ts, K, isFn, skip, walk } from "./program.mjs";

const ALLOC = new Set(["map", "filter", "slice", "concat", "flatMap", "flat", "split", "toSorted", "toReversed", "toSpliced", "with", "matchAll", "match", "entries", "values", "keys", "subarray"]);
const SAME = new Set(["sort", "reverse", "fill", "copyWithin"]); // return the receiver
const ELEM = new Set(["find", "findLast", "at", "get", "pop", "shift"]); // return an element
const MAXP = 5;

export class Identity {
  constructor(P, F) { this.P = P; this.F = F; this.#ix(); }
  #ix() {
    // object-local field and element writes, by the variable they go through
    this.varFieldWrites = new Map(); this.returnsThis = null;
    const add = (d, w) => { let a = this.varFieldWrites.get(d); if (!a) this.varFieldWrites.set(d, a = []); a.push(w); };
    for (const f of this.P.files) walk(f, (n) => {
      if (ts.isBinaryExpression(n) && (n.operatorToken.kind === K.EqualsToken || n.operatorToken.kind === K.QuestionQuestionEqualsToken || n.operatorToken.kind === K.BarBarEqualsToken)) {
        const l = skip(n.left);
        if (ts.isPropertyAccessExpression(l) || ts.isElementAccessExpression(l)) {
          const b = skip(l.expression);
          if (ts.isIdentifier(b)) for (const d of this.P.declsOf(b)) add(d, { field: fieldOf(l), expr: n.right, at: n });
        }
      } else if (ts.isCallExpression(n) && ts.isPropertyAccessExpression(skip(n.expression))) {
        const m = skip(n.expression).name.text, b = skip(skip(n.expression).expression);
        if (ts.isIdentifier(b) && !this.P.callees(n).length) {
          const at = m === "push" || m === "unshift" || m === "add" ? n.arguments : m === "set" ? n.arguments.slice(1) : m === "splice" ? n.arguments.slice(2) : [];
          for (const a of at) for (const d of this.P.declsOf(b)) add(d, ts.isSpreadElement(a) ? { field: "[]", expr: a.expression, spread: true } : { field: "[]", expr: a });
        }
      }
    });
  }
  /** @returns list of {kind: "param"|"module"|"global"|"this"|"unknown", decl?, node, path[]} the object may be, fresh objects omitted */
  origins(e, path = [], opt = {}) {
    const out = new Map(); const seen = new Set(); const work = []; let steps = 0;
    const ids = (this._ids ??= new Map()); const id = (n) => { let i = ids.get(n); if (i === undefined) ids.set(n, i = ids.size); return i; };
    const hit = (kind, node, p, prev, decl) => { const k = kind + id(decl ?? node) + "." + p.join("."); if (!out.has(k)) out.set(k, { kind, node, decl, path: p, prev }); };
    const push = (n, p, stack, prev, dk) => {
      if (p.length > MAXP) p = p.slice(0, MAXP);
      if (!dk && !this.#mayHold(n, p)) return;
      const k = (dk ? "d" : "e") + id(n) + "|" + p.join(".") + "|" + (stack?.id ?? ""); if (seen.has(k)) return; seen.add(k);
      work.push({ n, p, stack, prev, dk });
    };
    push(e, path, null, null);
    while (work.length) {
      if (++steps > (opt.limit ?? 20000)) { hit("unknown", e, ["limit"], null); break; }
      const st = work.pop(); const { p, stack } = st;
      if (st.dk) { this.#decl(st, push, hit, opt); continue; }
      const x = skip(st.n);
      const pol = opt.expr?.(x, p); if (pol === "clean") continue; if (pol?.source) { hit(pol.source, x, p, st); continue; }
      if (ts.isIdentifier(x)) {
        if (x.text === "undefined") continue;
        const ds = this.P.declsOf(x); if (!ds.length) hit("global", x, p, st);
        for (const d of ds) push(d, p, stack, st, true);
        continue;
      }
      if (ts.isPropertyAccessExpression(x) || ts.isElementAccessExpression(x)) { push(x.expression, [fieldOf(x), ...p], stack, st); continue; }
      if (ts.isObjectLiteralExpression(x)) {
        if (!p.length) continue;
        const [f, ...r] = p; let fixed = false;
        for (let i = x.properties.length - 1; i >= 0 && !fixed; i--) {
          const q = x.properties[i];
          if (ts.isSpreadAssignment(q)) push(q.expression, p, stack, st);
          else if (f === "[]" || q.name?.text === f) {
            if (ts.isPropertyAssignment(q)) push(q.initializer, r, stack, st); else if (ts.isShorthandPropertyAssignment(q)) push(q.name, r, stack, st);
            if (f !== "[]") fixed = true;
          }
        }
        continue;
      }
      if (ts.isArrayLiteralExpression(x)) {
        if (!p.length || (p[0] !== "[]" && !/^\d+$/.test(p[0]))) continue;
        x.elements.forEach((el, i) => { if (ts.isSpreadElement(el)) push(el.expression, ["[]", ...p.slice(1)], stack, st); else if (p[0] === "[]" || Number(p[0]) === i) push(el, p.slice(1), stack, st); });
        continue;
      }
      if (ts.isConditionalExpression(x)) { push(x.whenTrue, p, stack, st); push(x.whenFalse, p, stack, st); continue; }
      if (ts.isBinaryExpression(x)) {
        const k = x.operatorToken.kind;
        if (k === K.QuestionQuestionToken || k === K.BarBarToken || k === K.QuestionQuestionEqualsToken || k === K.BarBarEqualsToken) { push(x.left, p, stack, st); push(x.right, p, stack, st); }
        else if (k === K.AmpersandAmpersandToken || k === K.CommaToken || k === K.EqualsToken) push(x.right, p, stack, st);
        continue;
      }
      if (ts.isAwaitExpression(x)) { push(x.expression, p, stack, st); continue; }
      if (x.kind === K.ThisKeyword) {
        hit("this", x, p, st);
        if (p.length && p[0] !== "[]") {
          let cl = x.parent; while (cl && !ts.isClassLike(cl)) cl = cl.parent;
          for (const m of cl?.members ?? []) {
            if (ts.isConstructorDeclaration(m)) for (const q of m.parameters) if (q.name.getText() === p[0] && ts.getModifiers(q)?.length) push(q, p.slice(1), null, st, true);
            if (m.name?.getText() !== p[0]) continue;
            if (m.initializer) push(m.initializer, p.slice(1), null, st);
            if (ts.isPropertyDeclaration(m)) for (const w of this.F.writes.get(m) ?? []) if (w.expr && w.expr !== m.initializer) { if (!w.container) push(w.expr, p.slice(1), null, st); else if (p[1] === "[]" || p.length > 1) push(w.expr, p.slice(2), null, st); }
          }
        }
        continue;
      }
      if (ts.isCallExpression(x)) { this.#call(x, st, push, hit, opt); continue; }
      if (ts.isNewExpression(x)) {
        if (!p.length) continue;
        const cal = skip(x.expression);
        if (ts.isIdentifier(cal) && /^(Map|Set|Array|WeakMap)$/.test(cal.text) && x.arguments?.[0]) push(x.arguments[0], ["[]", ...p.slice(1)], stack, st), cal.text === "Map" && push(x.arguments[0], ["[]", "[]", ...p.slice(1)], stack, st);
        continue;
      }
      // literals, templates, functions, classes: not shared mutable objects
    }
    return [...out.values()];
  }
  /** the static type of n can hold an object at access path p */
  #mayHold(n, p) {
    const c = this.P.checker; let t;
    try { t = c.getTypeAtLocation(n); } catch { return true; }
    for (const f of [...p, null]) {
      if (t.flags & (ts.TypeFlags.Any | ts.TypeFlags.Unknown | ts.TypeFlags.TypeParameter | ts.TypeFlags.IndexedAccess | ts.TypeFlags.Conditional)) return true;
      t = c.getNonNullableType(t); t = c.getAwaitedType?.(t) ?? t;
      const parts = t.isUnion() ? t.types : [t];
      const objs = parts.filter((u) => !(u.flags & (ts.TypeFlags.StringLike | ts.TypeFlags.NumberLike | ts.TypeFlags.BooleanLike | ts.TypeFlags.BigIntLike | ts.TypeFlags.Null | ts.TypeFlags.Undefined | ts.TypeFlags.Void | ts.TypeFlags.Never | ts.TypeFlags.ESSymbolLike)));
      if (!objs.length) return false;
      if (f == null) return true;
      if (f === "[]" || /^\d+$/.test(f)) {
        const u = objs.map((o) => c.getIndexTypeOfType(o, ts.IndexKind.Number) ?? c.getIndexTypeOfType(o, ts.IndexKind.String));
        if (u.some((x) => !x)) return true; // a map, a set, a record or a tuple
        if (u.length !== 1) return true; t = u[0]; continue;
      }
      const q = objs.map((o) => c.getPropertyOfType(o, f) ?? null);
      if (q.every((x) => !x)) return objs.some((o) => c.getIndexTypeOfType(o, ts.IndexKind.String) || o.getProperties().length === 0 || o.isTypeParameter?.());
      const ts2 = q.filter(Boolean).map((s) => c.getTypeOfSymbol(s));
      if (ts2.length !== 1) return true; t = ts2[0];
    }
    return true;
  }
  #mk(stack, call) { const depth = (stack?.depth ?? 0) + 1; if (depth > 5) return null; return { call, up: stack, depth, id: (stack?.id ?? "") + "," + call.pos + call.getSourceFile().fileName.length }; }
  #has(stack, call) { for (let s = stack; s; s = s.up) if (s.call === call) return true; return false; }
  #call(x, st, push, hit, opt) {
    const { p, stack } = st; const cal = skip(x.expression);
    const fns = this.F.targets(cal);
    if (fns.length) {
      if (this.#has(stack, x)) return;
      for (const f of fns) for (const r of this.F.returnsOf(f)) push(r, p, this.#mk(stack, x), st);
      return;
    }
    if (ts.isPropertyAccessExpression(cal)) {
      const m = cal.name.text, recv = cal.expression, rt = skip(recv).getText();
      if (rt === "Object") {
        if (m === "assign") { if (!p.length) push(x.arguments[0], [], stack, st); else for (const a of x.arguments) push(ts.isSpreadElement(a) ? a.expression : a, p, stack, st); return; }
        if (m === "freeze" || m === "seal") { push(x.arguments[0], p, stack, st); return; }
        if ((m === "values" || m === "fromEntries") && p.length && x.arguments[0]) { push(x.arguments[0], m === "values" ? p : ["[]", "[]", ...p.slice(1)], stack, st); return; }
        if (m === "entries" && p.length > 1 && x.arguments[0]) { push(x.arguments[0], p.slice(1), stack, st); return; }
        return;
      }
      if (rt === "Array" && m === "from" && x.arguments[0]) {
        if (!p.length) return;
        const cb = x.arguments[1] ? this.P.fnsOfExpr(x.arguments[1]) : [];
        if (cb.length) for (const f of cb) for (const r of this.F.returnsOf(f)) push(r, p.slice(1), stack, st); else push(x.arguments[0], ["[]", ...p.slice(1)], stack, st);
        return;
      }
      if (rt === "Promise") { for (const a of x.arguments) push(a, m === "resolve" ? p : p.slice(1), stack, st); return; }
      if (rt === "JSON" || rt === "Buffer" || rt === "fs" || rt === "path" || rt === "Math") return;
      if (SAME.has(m)) { push(recv, p, stack, st); return; }
      if (ELEM.has(m)) { push(recv, ["[]", ...p], stack, st); return; }
      if (m === "set" || m === "add") { push(recv, p, stack, st); return; }
      if (m === "splice") { if (p.length) push(recv, ["[]", ...p.slice(1)], stack, st); return; }
      if (m === "reduce" || m === "reduceRight") { for (const a of x.arguments) for (const f of this.P.fnsOfExpr(a)) for (const r of this.F.returnsOf(f)) push(r, p, stack, st); if (x.arguments[1]) push(x.arguments[1], p, stack, st); return; }
      if (m === "then" || m === "catch" || m === "finally") { for (const a of x.arguments) for (const f of this.P.fnsOfExpr(a)) for (const r of this.F.returnsOf(f)) push(r, p, stack, st); if (m !== "then") push(recv, p, stack, st); return; }
      if (m === "map" || m === "flatMap") {
        if (!p.length) return; for (const a of x.arguments) for (const f of this.P.fnsOfExpr(a)) for (const r of this.F.returnsOf(f)) push(r, p.slice(1), stack, st), m === "flatMap" && push(r, p, stack, st); return; }
      if (ALLOC.has(m)) {
        if (!p.length) return;
        if (m === "entries") { if (p.length > 1) push(recv, ["[]", ...p.slice(2)], stack, st); return; }
        push(recv, ["[]", ...p.slice(1)], stack, st); if (m === "flat") push(recv, ["[]", "[]", ...p.slice(1)], stack, st);
        if (m === "concat") for (const a of x.arguments) push(a, ["[]", ...p.slice(1)], stack, st);
        return;
      }
    }
    if (ts.isIdentifier(cal) && cal.text === "structuredClone") return;
    // any other library call returns an object of its own
  }
  #decl(st, push, hit, opt) {
    const { n: d, p, stack } = st; const F = this.F;
    const pol = opt.decl?.(d, p); if (pol === "clean") return; if (pol?.source) { hit(pol.source, d, p, st, d); return; }
    if (ts.isBindingElement(d)) {
      const pat = d.parent, own = pat.parent;
      if (d.initializer) push(d.initializer, p, stack, st);
      let f; if (ts.isObjectBindingPattern(pat)) f = d.dotDotDotToken ? null : (d.propertyName ?? d.name).text; else f = d.dotDotDotToken ? undefined : "[]";
      if (d.dotDotDotToken && !p.length) { this.#writes(d, st, push); return; } // a rest binding is a new object
      push(own, f == null ? p : [f === "[]" ? String(pat.elements.indexOf(d)) : f, ...p], stack, st, true);
      this.#writes(d, st, push, true);
      return;
    }
    if (ts.isVariableDeclaration(d)) {
      const list = d.parent, loop = list?.parent;
      if (loop && ts.isForOfStatement(loop) && loop.initializer === list) { push(loop.expression, ["[]", ...p], stack, st); }
      else if (ts.isCatchClause(list)) return;
      else if (d.initializer && !(p.length && this.#overwritten(d, p[0], st.prev?.n))) push(d.initializer, p, stack, st);
      if (list && ts.isVariableDeclarationList(list) && ts.isVariableStatement(loop) && ts.isSourceFile(loop.parent)) hit("module", d, p, st, d);
      if (!d.name || ts.isIdentifier(d.name)) this.#writes(d, st, push);
      return;
    }
    if (ts.isParameter(d)) {
      const fn = d.parent; if (!isFn(fn)) return;
      if (d.initializer) push(d.initializer, p, stack, st);
      const i = fn.parameters.indexOf(d);
      if (d.dotDotDotToken && !p.length) return;
      const arg = (c) => d.dotDotDotToken ? (c.arguments ?? []).slice(i) : (c.arguments?.[i] ? [c.arguments[i]] : []);
      const q = d.dotDotDotToken ? p.slice(1) : p;
      this.#writes(d, st, push, true);
      const give = (c, s) => { for (const a of arg(c)) push(ts.isSpreadElement(a) ? a.expression : a, ts.isSpreadElement(a) ? ["[]", ...q] : q, s, st); };
      if (stack && F.targets(stack.call.expression).includes(fn)) {
        give(stack.call, stack.up);
        for (const c of this.#selfCalls(fn)) give(c, stack);
        return;
      }
      hit("param", d, p, st, d);
      if (!opt.noCallers) {
        const pinned = new Set();
        for (const u of F.argUses.get(fn) ?? []) for (const g of this.P.callees(u.call)) { // a callback: its host runs on behalf of the call that passed it
          const prm = g.parameters[u.index]; if (!prm) continue;
          for (const c of F.callsByDecl.get(prm) ?? []) { pinned.add(c); give(c, { call: u.call, up: null, depth: 1, id: "," + u.call.pos + u.call.getSourceFile().fileName.length }); }
        }
        for (const c of F.invocations(fn)) if (!pinned.has(c)) give(c, null);
      }
      // callback of a library container method
      const c = fn.parent;
      if (ts.isCallExpression(c) && c.arguments.includes(fn) && !this.P.callees(c).length && ts.isPropertyAccessExpression(skip(c.expression))) {
        const cal = skip(c.expression), m = cal.name.text;
        if (m === "from") { if (c.arguments[1] === fn && i === 0) push(c.arguments[0], ["[]", ...p], stack, st); }
        else if (m === "then") { if (i === 0) push(cal.expression, p, stack, st); }
        else if (m === "reduce" || m === "reduceRight") { if (i === 0 && c.arguments[1]) push(c.arguments[1], p, stack, st); else push(cal.expression, ["[]", ...p], stack, st); }
        else if (i === 0 || (i === 1 && (m === "sort" || m === "toSorted"))) push(cal.expression, ["[]", ...p], stack, st);
        else if (i === 2) push(cal.expression, p, stack, st);
      }
      return;
    }
    if (ts.isPropertyDeclaration(d) || ts.isFunctionDeclaration(d) || ts.isClassDeclaration(d)) { return; }
    if (ts.isImportSpecifier(d) || ts.isNamespaceImport(d)) hit("global", d, p, st, d);
  }
  /** `const v = …; v.f = …;` in one block: the field no longer holds what the initializer gave it */
  #overwritten(d, f, use) {
    const stmt = d.parent?.parent; if (!stmt || !ts.isVariableStatement(stmt)) return false;
    return (this.varFieldWrites.get(d) ?? []).some((w) => w.at && w.field === f && ts.isExpressionStatement(w.at.parent) && w.at.parent.parent === stmt.parent && w.at.operatorToken.kind === K.EqualsToken &&
      !(use && use.getSourceFile() === w.at.getSourceFile() && use.pos < w.at.end));
  }
  #writes(d, st, push, onlyReassign) {
    const { p, stack } = st;
    for (const w of this.F.writes.get(d) ?? []) {
      if (w.container || w.keys || !w.expr) continue; // element writes are below
      if (w.expr === d.initializer || (ts.isBindingElement(d))) { if (!(w.op)) continue; }
      if (w.op === undefined && ts.isVariableDeclaration(d)) continue; // initializer / for-of source, already followed
      if (w.op === undefined && ts.isParameter(d)) continue;
      push(w.expr, p, stack, st);
    }
    if (p.length) for (const w of this.varFieldWrites.get(d) ?? []) if (w.field === p[0] || w.field === "[]" || (p[0] === "[]" && /^\d+$/.test(w.field))) push(w.expr, w.spread ? p : p.slice(1), stack, st);
  }
  #selfCalls(fn) {
    if (!this._self) this._self = new Map(); let r = this._self.get(fn);
    if (!r) { r = []; walk(fn.body, (n) => { if (ts.isCallExpression(n) && this.P.callees(n).includes(fn)) r.push(n); }); this._self.set(fn, r); }
    return r;
  }
  trail(o, max = 8) { const out = []; let s = o.prev; while (s) { out.push(`${this.P.loc(s.n)} ${this.P.text(s.n, 40)}`); s = s.prev; } const r = out.filter((x, i) => i === 0 || x !== out[i - 1]); return r.length > max ? [...r.slice(0, max / 2), "…", ...r.slice(-max / 2)] : r; }
}
export function fieldOf(x) {
  if (ts.isPropertyAccessExpression(x)) return x.name.text;
  const a = x.argumentExpression && skip(x.argumentExpression);
  return a && ts.isStringLiteralLike(a) ? a.text : "[]";
}

/** every in-place change of an object: {node, target expression, field} */
export function mutations(P) {
  const out = [];
  const container = (e) => { const t = P.checker.getNonNullableType(P.type(e)); return (t.isUnion() ? t.types : [t]).some((u) => P.checker.isArrayType(u) || P.checker.isTupleType(u) || /^(Map|Set|WeakMap|WeakSet|Headers|URLSearchParams|.*Array)$/.test(u.symbol?.name ?? "")); };
  const MUT = new Set(["push", "pop", "shift", "unshift", "splice", "sort", "reverse", "fill", "copyWithin", "set", "add", "delete", "clear", "append"]);
  for (const f of P.files) walk(f, (n) => {
    if (ts.isBinaryExpression(n) && n.operatorToken.kind >= K.FirstAssignment && n.operatorToken.kind <= K.LastAssignment) lhs(n.left, n);
    else if ((ts.isPrefixUnaryExpression(n) || ts.isPostfixUnaryExpression(n)) && (n.operator === K.PlusPlusToken || n.operator === K.MinusMinusToken)) lhs(n.operand, n);
    else if (ts.isDeleteExpression(n)) lhs(n.expression, n);
    else if (ts.isCallExpression(n)) {
      const c = skip(n.expression);
      if (ts.isPropertyAccessExpression(c)) {
        const r = skip(c.expression);
        if (r.getText() === "Object" && /^(assign|defineProperty|defineProperties|setPrototypeOf)$/.test(c.name.text)) { if (n.arguments[0]) out.push({ node: n, target: n.arguments[0], field: "*" }); }
        else if (r.getText() === "Reflect" && /^(set|deleteProperty|defineProperty)$/.test(c.name.text)) { if (n.arguments[0]) out.push({ node: n, target: n.arguments[0], field: "*" }); }
        else if (MUT.has(c.name.text) && !P.callees(n).length && container(c.expression)) out.push({ node: n, target: c.expression, field: "[]", method: c.name.text });
      }
    } else if ((ts.isForOfStatement(n) || ts.isForInStatement(n)) && !ts.isVariableDeclarationList(n.initializer)) lhs(n.initializer, n);
  });
  function lhs(l, node) {
    l = skip(l);
    if (ts.isPropertyAccessExpression(l) || ts.isElementAccessExpression(l)) out.push({ node, target: l.expression, field: fieldOf(l) });
    else if (ts.isArrayLiteralExpression(l)) for (const e of l.elements) lhs(ts.isSpreadElement(e) ? e.expression : e, node);
    else if (ts.isObjectLiteralExpression(l)) for (const q of l.properties) { if (ts.isPropertyAssignment(q)) lhs(q.initializer, node); }
  }
  return out;
}
