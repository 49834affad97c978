// Brings source text into a normal form before it is analysed, so that ways of
// writing the same thing reach the rules as one. Purely syntactic; every rewrite
// keeps the meaning (a read of a plain name or member chain may change places with
// the evaluation of a temporary). Each character remembers where it came from, so reports
// name places in the real file.
//   dropped      statements that do nothing
//   inlined      a temporary used once, first thing in the very next statement
//   spliced      a parameterless local function called once, in the very next statement
//   ordered      if (!a) B else C → if (a) C else B; a branch that jumps comes first, without else
//   merged       if (a) { if (b) S } → if (a && b) S
//   shortened    (x) => { return e; } → (x) => e
//   chosen       let x; if (c) { x = a; } else { x = b; } → const x = c ? a : b
//   joined       "a" + b + "c" → `a${b}c`; a template inside a template → one template
//   walked       for (let i = 0; i < a.length; i++) { const x = a[i]; … } and a.forEach((x) => { … }) → for (const x of a) { … }
//   counted      let i = 0; while (i < n) { …; i++; } → for (let i = 0; i < n; i++) { … }
//   defaulted    x != null ? x : d → x ?? d;  x ? x : d → x || d
//   put back     a private helper called from one place only, as a statement, a return, a
//                declaration or (when it is one expression) inside an expression → its body there
//   named        a module constant that is just a string or number → that string or number (opts.literals)
export function makeNormaliser(ts, opts = { literals: true }) {
  const K = ts.SyntaxKind;
  const isFn = ts.isFunctionLike;
  const bare = (e) => { while (ts.isParenthesizedExpression(e)) e = e.expression; return e; };
  const pure = (e) => { e = bare(e); return ts.isIdentifier(e) || ts.isStringLiteralLike(e) || ts.isNumericLiteral(e) || [K.TrueKeyword, K.FalseKeyword, K.NullKeyword, K.ThisKeyword].includes(e.kind) || ts.isRegularExpressionLiteral(e) || isFn(e) || ((ts.isPropertyAccessExpression(e) || ts.isNonNullExpression(e) || ts.isAsExpression(e)) && pure(e.expression)) || (ts.isObjectLiteralExpression(e) && e.properties.length === 0) || (ts.isArrayLiteralExpression(e) && e.elements.length === 0); };
  const idle = (s) => ts.isEmptyStatement(s) || (ts.isBlock(s) && s.statements.every(idle)) || (ts.isExpressionStatement(s) && (() => { const e = bare(s.expression); return (ts.isVoidExpression(e) && pure(e.expression)) || ts.isNumericLiteral(e) || (ts.isIdentifier(e) && e.text === "undefined") || [K.TrueKeyword, K.FalseKeyword, K.NullKeyword].includes(e.kind); })());
  const jumps = (s) => { if (!s) return false; if (ts.isBlock(s)) { const l = s.statements.filter((x) => !idle(x)); return jumps(l.at(-1)); } return ts.isReturnStatement(s) || ts.isThrowStatement(s) || ts.isContinueStatement(s) || ts.isBreakStatement(s); };
  const hasOwn = (n, pred) => { let r = false; const v = (m) => { if (r || isFn(m)) return; if (pred(m)) { r = true; return; } ts.forEachChild(m, v); }; ts.forEachChild(n, v); return r; };
  const count = (n, name) => { let c = 0; const v = (m) => { if (ts.isIdentifier(m) && m.text === name) c++; ts.forEachChild(m, v); }; v(n); return c; };
  // the single place in statement s, evaluated before anything else happens there, that reads name
  const firstUse = (s, name, init) => {
    const here = (e) => {
      if (!e) return null;
      if (ts.isIdentifier(e)) return e.text === name ? e : null;
      if (ts.isParenthesizedExpression(e) || ts.isAsExpression(e) || ts.isNonNullExpression(e) || ts.isAwaitExpression(e) || ts.isTypeOfExpression(e) || ts.isSpreadElement(e) || ts.isSatisfiesExpression?.(e)) return here(e.expression);
      if (ts.isPropertyAccessExpression(e)) return pure(init) ? here(e.expression) : null; // an object that is worked on keeps its name
      if (ts.isPrefixUnaryExpression(e)) return e.operator === K.PlusPlusToken || e.operator === K.MinusMinusToken ? null : here(e.operand);
      if (ts.isElementAccessExpression(e)) return here(e.expression) ?? (pure(e.expression) ? here(e.argumentExpression) : null);
      if (ts.isBinaryExpression(e)) {
        const k = e.operatorToken.kind;
        if (k === K.EqualsToken) return pure(e.left) ? here(e.right) : null;
        if (k >= K.FirstAssignment && k <= K.LastAssignment) return null;
        return here(e.left) ?? (pure(e.left) && ![K.AmpersandAmpersandToken, K.BarBarToken, K.QuestionQuestionToken].includes(k) ? here(e.right) : null);
      }
      if (ts.isConditionalExpression(e)) return here(e.condition);
      if (ts.isCallExpression(e) || ts.isNewExpression(e)) { if (!pure(e.expression)) return ts.isNewExpression(e) ? null : here(e.expression); const c = here(e.expression); if (c) return c; for (const a of e.arguments ?? []) { const r = here(a); if (r) return r; if (!pure(a)) return null; } return null; }
      if (ts.isTemplateExpression(e)) { for (const t of e.templateSpans) { const r = here(t.expression); if (r) return r; if (!pure(t.expression)) return null; } return null; }
      if (ts.isArrayLiteralExpression(e)) { for (const a of e.elements) { const r = here(a); if (r) return r; if (!pure(a)) return null; } return null; }
      if (ts.isObjectLiteralExpression(e)) { for (const p of e.properties) { if (!ts.isPropertyAssignment(p) || ts.isComputedPropertyName(p.name)) return null; const r = here(p.initializer); if (r) return r; if (!pure(p.initializer)) return null; } return null; }
      return null;
    };
    if (ts.isReturnStatement(s) || ts.isExpressionStatement(s) || ts.isThrowStatement(s) || ts.isIfStatement(s) || ts.isSwitchStatement(s)) return here(s.expression);
    if (ts.isVariableStatement(s)) return here(s.declarationList.declarations[0].initializer);
    if (ts.isForOfStatement(s) && !s.awaitModifier) return here(s.expression);
    return null;
  };
  const single = (s) => ts.isVariableStatement(s) && !s.modifiers?.length && (s.declarationList.flags & ts.NodeFlags.BlockScoped) === ts.NodeFlags.Const && s.declarationList.declarations.length === 1 && ts.isIdentifier(s.declarationList.declarations[0].name) && s.declarationList.declarations[0].initializer ? s.declarationList.declarations[0] : null;
  const names = (stmts) => { const o = new Set(); const b = (n) => { if (ts.isIdentifier(n)) o.add(n.text); else for (const e of n.elements) if (!ts.isOmittedExpression(e)) b(e.name); }; for (const s of stmts) { if (ts.isVariableStatement(s)) for (const d of s.declarationList.declarations) b(d.name); else if ((ts.isFunctionDeclaration(s) || ts.isClassDeclaration(s)) && s.name) o.add(s.name.text); } return o; };

  const target = (q) => { while (q && (ts.isArrayLiteralExpression(q) || ts.isObjectLiteralExpression(q) || ts.isPropertyAssignment(q) || ts.isShorthandPropertyAssignment(q) || ts.isSpreadElement(q))) { const up = q.parent; if (ts.isBinaryExpression(up)) return up.left === q && up.operatorToken.kind === K.EqualsToken; if (ts.isForOfStatement(up)) return up.initializer === q; q = up; } return !!q && ts.isParenthesizedExpression(q) && target(q.parent); };
  const writes = (n, name) => { let c = 0; const v = (m) => { if (ts.isIdentifier(m) && m.text === name) { const q = m.parent; if ((ts.isBinaryExpression(q) && q.left === m && q.operatorToken.kind >= K.FirstAssignment && q.operatorToken.kind <= K.LastAssignment) || ((ts.isPrefixUnaryExpression(q) || ts.isPostfixUnaryExpression(q)) && (q.operator === K.PlusPlusToken || q.operator === K.MinusMinusToken)) || ((ts.isArrayLiteralExpression(q) || ts.isShorthandPropertyAssignment(q) || (ts.isPropertyAssignment(q) && q.initializer === m)) && target(q)) || ((ts.isForOfStatement(q) || ts.isForInStatement(q)) && q.initializer === m)) c++; } ts.forEachChild(m, v); }; v(n); return c; };

  function pass(sf, map) {
    const text = sf.text; let changed = false; const chunks = []; const maps = [];
    const out = { t: [], m: [] };
    const copy = (a, b) => { if (b > a) { out.t.push(text.slice(a, b)); out.m.push(map.subarray(a, b)); } };
    const put = (s, at) => { out.t.push(s); out.m.push(new Int32Array(s.length).fill(map[Math.min(at, map.length - 1)] ?? 0)); };
    const repl = new Map(); // identifier → declaration whose initializer takes its place
    const emit = (n) => {
      if (repl.has(n)) { const d = repl.get(n); put(d.type ? "((" : "(", n.getStart(sf)); emit(d.initializer); if (d.type) { put(") as ", d.type.getStart(sf)); copy(d.type.getStart(sf), d.type.end); } put(")", d.end); return; }
      if (ts.isBlock(n)) return emitList(n, n.statements, n.parent);
      if (ts.isCaseClause(n) || ts.isDefaultClause(n)) { let p = n.getFullStart(); const st = n.statements; if (st.length) { if (ts.isCaseClause(n)) { copy(p, n.expression.getFullStart()); emit(n.expression); p = n.expression.end; } return emitList(n, st, null, p); } }
      if (ts.isArrowFunction(n) && ts.isBlock(n.body)) {
        const l = n.body.statements.filter((x) => !idle(x));
        if (l.length === 1 && ts.isReturnStatement(l[0]) && l[0].expression && !inl.has(l[0])) { changed = true; let p = n.getFullStart(); ts.forEachChild(n, (c) => { if (c === n.body) return; copy(p, c.getFullStart()); emit(c); p = c.end; }); copy(p, n.body.getFullStart()); put(" (", n.body.getStart(sf)); emit(l[0].expression); put(")", l[0].end); return; }
      }
      if (ts.isIfStatement(n)) return emitIf(n);
      if (ts.isForStatement(n)) { const w = walkOver(n); if (w) { changed = true; copy(n.getFullStart(), n.getStart(sf)); put("for (const ", n.getStart(sf)); copy(w.d.name.getStart(sf), w.d.name.end); if (w.d.type) copy(w.d.name.end, w.d.type.end); put(" of ", n.getStart(sf)); emit(w.over); put(") {", n.statement.getStart(sf)); emitList(n.statement, n.statement.statements, null, undefined, true, w.s); copy(n.statement.statements.end, n.end); return; } }
      if (ts.isExpressionStatement(n)) { const w = eachOf(n); if (w) { changed = true; copy(n.getFullStart(), n.getStart(sf)); put("for (const ", n.getStart(sf)); if (w.p) { copy(w.p.name.getStart(sf), w.p.type ? w.p.type.end : w.p.name.end); } else put("_each", n.getStart(sf)); put(" of ", n.getStart(sf)); emit(w.over); put(")", w.over.end); for (const r of w.rets) leave.add(r); if (ts.isBlock(w.f.body)) emit(w.f.body); else { put(" { ", w.f.body.getStart(sf)); emit(w.f.body); put("; }", w.f.body.end); } return; } }
      if (ts.isReturnStatement(n) && leave.has(n)) { copy(n.getFullStart(), n.getStart(sf)); put("continue;", n.getStart(sf)); return; }
      if (ts.isConditionalExpression(n)) {
        const c = bare(n.condition); let a = null, op = "??";
        if (ts.isBinaryExpression(c)) { const k = c.operatorToken.kind, nul = (e) => { e = bare(e); return e.kind === K.NullKeyword || (ts.isIdentifier(e) && e.text === "undefined"); }; const ne = k === K.ExclamationEqualsToken || k === K.ExclamationEqualsEqualsToken, eq = k === K.EqualsEqualsToken || k === K.EqualsEqualsEqualsToken; if ((ne || eq) && nul(c.right) && pure(c.left) && same(c.left, ne ? n.whenTrue : n.whenFalse)) a = [c.left, ne ? n.whenFalse : n.whenTrue]; }
        else if (pure(c) && same(c, n.whenTrue)) { a = [c, n.whenFalse]; op = "||"; }
        if (a) { changed = true; copy(n.getFullStart(), n.getStart(sf)); put("((", n.getStart(sf)); emit(a[0]); put(`) ${op} (`, c.end); emit(a[1]); put("))", n.end); return; }
      }
      if (counted.has(n)) { const { d, st, inc } = counted.get(n); copy(n.getFullStart(), n.getStart(sf)); put("for (let ", d.getStart(sf)); copy(d.getStart(sf), d.name.end); if (d.type) copy(d.name.end, d.type.end); put(" = ", d.end); emit(d.initializer); put("; ", d.end); emit(n.expression); put("; ", n.expression.end); emit(inc.expression); put(") {", n.expression.end); emitList(n.statement, n.statement.statements, null, undefined, true, inc); copy(n.statement.statements.end, n.end); return; }
      if (lits.has(n)) { const t = lits.get(n); changed = true; copy(n.getFullStart(), n.getStart(sf)); put((ts.isShorthandPropertyAssignment(n.parent) ? n.text + ": " : "") + t, n.getStart(sf)); return; }
      if (inl.has(n) && inl.get(n).kind === "expr") { const { only, m } = inl.get(n); changed = true; copy(n.getFullStart(), n.getStart(sf)); const ty = inl.get(n).f.type; put(ty ? "((" : "(", n.getStart(sf)); if (m.size) { const w = (x) => { if (ts.isIdentifier(x) && m.has(x.text) && !(ts.isPropertyAccessExpression(x.parent) && x.parent.name === x) && !(ts.isPropertyAssignment(x.parent) && x.parent.name === x)) subst.set(x, m.get(x.text)); ts.forEachChild(x, w); }; w(only); } emit(only); if (ty) { put(") as ", n.end); copy(ty.getStart(sf), ty.end); } put(")", n.end); return; }
      if (subst.has(n)) { const a = subst.get(n); put("(", n.getStart(sf)); emit(a); put(")", n.end); return; }
      if (ts.isTaggedTemplateExpression(n)) { copy(n.getFullStart(), n.tag.getFullStart()); emit(n.tag); copy(n.tag.end, n.template.getFullStart()); plain(n.template); return; }
      if (ts.isBinaryExpression(n) && n.operatorToken.kind === K.PlusToken || ts.isTemplateExpression(n) && n.templateSpans.some((t) => stringy(bare(t.expression)))) {
        const ps = pieces(n);
        if (ps.length > 1 && ps.some((q) => "raw" in q) && ps.some((q) => q.expr)) { changed = true; copy(n.getFullStart(), n.getStart(sf)); put("`", n.getStart(sf)); for (const q of ps) { if ("raw" in q) put(q.raw, q.at); else { put("${", q.expr.getStart(sf)); emit(q.expr); put("}", q.expr.end); } } put("`", n.end); return; }
      }
      plain(n);
    };
    const same = (a, b) => { a = bare(a); b = bare(b); while (ts.isNonNullExpression(b)) b = bare(b.expression); return a.getText(sf) === b.getText(sf); };
    const counted = new Map();
    // module constants that only name a text or a number
    const lits = new Map();
    if (opts.literals) {
      const vals = new Map();
      for (const s of sf.statements) if (ts.isVariableStatement(s) && !s.modifiers?.length && (s.declarationList.flags & ts.NodeFlags.BlockScoped) === ts.NodeFlags.Const) for (const d of s.declarationList.declarations) if (ts.isIdentifier(d.name) && !d.type && d.initializer) { const e = d.initializer; if (ts.isStringLiteral(e) || ts.isNumericLiteral(e) || (ts.isPrefixUnaryExpression(e) && e.operator === K.MinusToken && ts.isNumericLiteral(e.operand))) vals.set(d.name.text, { d, t: ts.isStringLiteral(e) ? e.getText(sf) : `(${e.getText(sf)})`, uses: [] }); }
      if (vals.size) {
        const v = (m) => {
          if (ts.isIdentifier(m) && vals.has(m.text)) {
            const x = vals.get(m.text), q = m.parent;
            if (m === x.d.name || (ts.isPropertyAccessExpression(q) && q.name === m) || (ts.isPropertyAssignment(q) && q.name === m) || ts.isQualifiedName(q) || ts.isPropertySignature(q) || ts.isMethodDeclaration(q) || ts.isMethodSignature(q) || ts.isPropertyDeclaration(q) || (ts.isBindingElement(q) && q.propertyName === m)) { /* not a reading of it */ }
            else if (ts.isTypeQueryNode(q)) { /* names its type */ }
            else if (ts.isVariableDeclaration(q) && q.name === m || ts.isParameter(q) && q.name === m || ts.isBindingElement(q) && q.name === m || isFn(q) && q.name === m || ts.isExportSpecifier(q) || ts.isImportSpecifier(q) || ts.isImportClause(q) || ts.isNamespaceImport(q) || ts.isClassDeclaration(q) || ts.isTypeAliasDeclaration(q) || ts.isInterfaceDeclaration(q) || ts.isTypeReferenceNode(q) || ts.isTypeParameterDeclaration(q) || ts.isLabeledStatement(q) || ts.isExportAssignment(q)) x.no = true;
            else x.uses.push(m);
          }
          ts.forEachChild(m, v);
        };
        v(sf);
        for (const x of vals.values()) if (!x.no) for (const u of x.uses) lits.set(u, x.t);
      }
    }
    // private functions of this file that are called from exactly one place
    const inl = new Map(), dropped = new Set(), subst = new Map();
    if (opts.helpers !== false && opts.literals) {
      const seen = new Map(); const v = (m) => { if (ts.isIdentifier(m)) { if (!seen.has(m.text)) seen.set(m.text, []); seen.get(m.text).push(m); } ts.forEachChild(m, v); }; v(sf);
      const declaredIn = (root) => { const o = new Set(); const b = (n) => { if (ts.isIdentifier(n)) o.add(n.text); else for (const e of n.elements) if (!ts.isOmittedExpression(e)) b(e.name); }; const w = (m) => { if (ts.isVariableDeclaration(m) || ts.isParameter(m)) b(m.name); else if ((ts.isFunctionDeclaration(m) || ts.isClassDeclaration(m) || ts.isFunctionExpression(m)) && m.name && m !== root) o.add(m.name.text); ts.forEachChild(m, w); }; w(root); return o; };
      const mentioned = (root) => { const o = new Set(); const w = (m) => { if (ts.isIdentifier(m) && !(ts.isPropertyAccessExpression(m.parent) && m.parent.name === m) && !(ts.isPropertyAssignment(m.parent) && m.parent.name === m)) o.add(m.text); ts.forEachChild(m, w); }; w(root); return o; };
      const special = (root) => { let r = false; const w = (m) => { if (m.kind === K.ThisKeyword || m.kind === K.SuperKeyword || ts.isYieldExpression(m) || (ts.isIdentifier(m) && m.text === "arguments")) r = true; if (!r) ts.forEachChild(m, w); }; w(root); return r; };
      const hosts = new Set(), taken = new Set(); // one step at a time: no helper goes into a helper that is itself being moved
      for (const st of sf.statements) {
        let f = null, nm = null;
        if (ts.isFunctionDeclaration(st) && st.name && st.body) { f = st; nm = st.name; } else { const d = single(st); if (d && !d.type && (ts.isArrowFunction(d.initializer) || ts.isFunctionExpression(d.initializer))) { f = d.initializer; nm = d.name; } }
        if (!f || st.modifiers?.some((m) => m.kind === K.ExportKeyword || m.kind === K.DeclareKeyword) || f.asteriskToken || f.typeParameters || (f.type && (ts.isTypePredicateNode(f.type)))) continue;
        const ids = seen.get(nm.text); if (ids.length !== 2 || opts.keep?.has(nm.text)) continue;
        const u = ids.find((x) => x !== nm), call = u.parent; if (!ts.isCallExpression(call) || call.expression !== u || call.questionDotToken || call.typeArguments) continue;
        if (!f.parameters.every((p) => ts.isIdentifier(p.name) && !p.initializer && !p.dotDotDotToken) || call.arguments.some(ts.isSpreadElement) || call.arguments.length !== f.parameters.length || special(f)) continue;
        let top = null, inner = null; for (let q = call.parent; q; q = q.parent) if (isFn(q)) { inner ??= q; top = q; } if (!top || top === f) continue;
        let topSt = top; while (topSt.parent !== sf) topSt = topSt.parent; if (taken.has(topSt) || hosts.has(st)) continue;
        const own = declaredIn(f), outer = declaredIn(top), says = mentioned(f); const params = f.parameters.map((p) => p.name.text);
        const sameName = (i) => ts.isIdentifier(call.arguments[i]) && call.arguments[i].text === params[i];
        if ([...says].some((x) => outer.has(x) && !own.has(x))) continue;
        if (params.some((p, i) => writes(f.body, p) && (sameName(i) || true))) continue;
        const asy = !!f.modifiers?.some((m) => m.kind === K.AsyncKeyword), callerAsync = !!inner.modifiers?.some((m) => m.kind === K.AsyncKeyword);
        const body = ts.isBlock(f.body) ? f.body.statements.filter((x) => !idle(x)) : null; const only = body ? (body.length === 1 && ts.isReturnStatement(body[0]) ? body[0].expression : null) : f.body;
        let e = call; while (ts.isParenthesizedExpression(e.parent)) e = e.parent; let awaited = false; if (ts.isAwaitExpression(e.parent)) { awaited = true; e = e.parent; }
        const host = e.parent; const list = host && (ts.isBlock(host.parent) || ts.isCaseClause(host.parent)) ;
        if (only && !asy && !awaited) { // one expression
          const uses = params.map((p) => count(only, p));
          if (call.arguments.every((a, i) => sameName(i) || pure(a) && !isFn(bare(a)) && ![...mentioned(a)].some((x) => own.has(x)) || uses[i] === 0 && pure(a)) && !ts.isExpressionStatement(host)) {
            if (params.some((p, i) => !sameName(i) && (() => { let bad = false; const w = (m) => { if (ts.isShorthandPropertyAssignment(m) && m.name.text === p) bad = true; ts.forEachChild(m, w); }; w(only); return bad; })())) continue;
            const m = new Map(); params.forEach((p, i) => { if (!sameName(i)) m.set(p, call.arguments[i]); });
            inl.set(call, { kind: "expr", f, only, m }); dropped.add(st); taken.add(st); hosts.add(topSt); continue;
          }
        }
        if (!body || asy !== awaited && !(asy && callerAsync && ts.isReturnStatement(host))) continue;
        if (asy && !callerAsync) continue;
        const rets = []; const w = (m) => { if (isFn(m)) return; if (ts.isReturnStatement(m)) rets.push(m); ts.forEachChild(m, w); }; for (const b of body) w(b);
        let kind = null;
        if (ts.isExpressionStatement(host) && rets.length === 0) kind = "stmt";
        else if (ts.isReturnStatement(host)) { let q = host, tried = false; while (q && q !== inner) { if (ts.isTryStatement(q.parent)) tried = true; q = q.parent; } if (!(asy && !awaited && tried)) kind = "ret"; }
        else if (ts.isVariableDeclaration(host) && single(host.parent.parent) === host && rets.length === 1 && rets[0] === body.at(-1) && rets[0].expression) kind = "decl";
        if (!kind) continue;
        const stmt = kind === "decl" ? host.parent.parent : host; if (!ts.isBlock(stmt.parent) && !ts.isCaseClause(stmt.parent)) continue;
        const fresh = params.filter((p, i) => !sameName(i)); const locals = new Set([...own].filter((x) => !params.includes(x))); fresh.forEach((x) => locals.add(x));
        const around = mentioned(top); const clash = [...locals].some((x) => around.has(x));
        if (clash && kind === "decl") continue;
        if (call.arguments.some((a, i) => !sameName(i) && [...mentioned(a)].some((x) => own.has(x)))) continue;
        inl.set(stmt, { kind, f, body, host, call, params, sameName, clash, falls: rets.every((x) => !x.expression) }); dropped.add(st); taken.add(st); hosts.add(topSt);
      }
    }
    const moving = (n) => { let r = false; const v = (m) => { if (r) return; if (inl.has(m)) { r = true; return; } ts.forEachChild(m, v); }; v(n); return r; };
    const leave = new Set(); // returns of a callback that became a loop body
    const path = (e) => { e = bare(e); return ts.isIdentifier(e) || e.kind === K.ThisKeyword ? e.getText(sf) : (ts.isPropertyAccessExpression(e) || ts.isNonNullExpression(e)) && !e.questionDotToken && path(e.expression) ? (ts.isNonNullExpression(e) ? path(e.expression) : path(e.expression) + "." + e.name.text) : null; };
    const loopy = (m) => ts.isIterationStatement(m, false);
    const walkOver = (n) => {
      if (!n.initializer || !ts.isVariableDeclarationList(n.initializer) || !n.condition || !n.incrementor || !ts.isBlock(n.statement)) return null;
      const ds = n.initializer.declarations, i = ds[0]; if (!ts.isIdentifier(i.name) || !i.initializer || bare(i.initializer).getText(sf) !== "0") return null; const nm = i.name.text;
      const inc = bare(n.incrementor); if (!((ts.isPostfixUnaryExpression(inc) || ts.isPrefixUnaryExpression(inc)) && inc.operator === K.PlusPlusToken && bare(inc.operand).getText(sf) === nm) && !(ts.isBinaryExpression(inc) && inc.operatorToken.kind === K.PlusEqualsToken && inc.left.getText(sf) === nm && inc.right.getText(sf) === "1")) return null;
      const c = bare(n.condition); if (!ts.isBinaryExpression(c) || c.operatorToken.kind !== K.LessThanToken || bare(c.left).getText(sf) !== nm) return null;
      const extra = new Map(); for (const d of ds.slice(1)) { if (!ts.isIdentifier(d.name) || !d.initializer) return null; extra.set(d.name.text, d.initializer); }
      let lim = bare(c.right); const used = new Set(); if (ts.isIdentifier(lim) && extra.has(lim.text)) { used.add(lim.text); lim = bare(extra.get(lim.text)); }
      if (!ts.isPropertyAccessExpression(lim) || lim.name.text !== "length" || lim.questionDotToken) return null;
      const arr = path(lim.expression); if (!arr) return null;
      const live = n.statement.statements.filter((x) => !idle(x)), s = live[0], d = s && single(s); const vs = s && ts.isVariableStatement(s) && !s.modifiers?.length && (s.declarationList.flags & ts.NodeFlags.BlockScoped) === ts.NodeFlags.Const && s.declarationList.declarations.length === 1 ? s.declarationList.declarations[0] : d; if (!vs?.initializer) return null;
      let x = bare(vs.initializer); while (ts.isNonNullExpression(x) || ts.isAsExpression(x)) x = bare(x.expression);
      if (!ts.isElementAccessExpression(x) || x.questionDotToken || path(x.expression) !== arr || bare(x.argumentExpression).getText(sf) !== nm) return null;
      if (count(n.statement, nm) !== 1 || [...extra.keys()].some((k) => count(n.statement, k) > (k === arr ? 1 : 0))) return null;
      for (const k of extra.keys()) if (k !== arr && !used.has(k)) return null;
      if (writes(n.statement, arr)) return null;
      return { d: vs.type && ts.isAsExpression(bare(vs.initializer)) ? vs : { name: vs.name, type: undefined }, s, over: extra.has(arr) ? extra.get(arr) : lim.expression };
    };
    const eachOf = (n) => {
      const e = bare(n.expression); if (!ts.isCallExpression(e) || e.questionDotToken || e.arguments.length !== 1 || !ts.isPropertyAccessExpression(e.expression) || e.expression.questionDotToken || e.expression.name.text !== "forEach") return null;
      for (let q = e.expression.expression; q; q = q.expression) if (q.questionDotToken) return null;
      const f = bare(e.arguments[0]); if (!ts.isArrowFunction(f) || f.parameters.length > 1 || f.modifiers?.length || f.parameters.some((p) => p.initializer || p.dotDotDotToken || p.type)) return null;
      const rets = []; let ok = true; const v = (m, inLoop) => { if (isFn(m)) return; if (ts.isReturnStatement(m)) { if (m.expression || inLoop) ok = false; rets.push(m); } if (ts.isIdentifier(m) && m.text === "arguments") ok = false; ts.forEachChild(m, (k) => v(k, inLoop || loopy(m))); }; ts.forEachChild(f.body, (k) => v(k, false)); if (!ok) return null;
      return { p: f.parameters[0], f, rets, over: e.expression.expression };
    };
    // the parts of a text that is put together: literal parts and the values between them
    const escRaw = (t) => t.replace(/[\\`]|\$(?=\{)/g, "\\$&").replace(/\n/g, "\\n").replace(/\r/g, "\\r").replace(/\u2028/g, "\\u2028").replace(/\u2029/g, "\\u2029").replace(/\0/g, "\\x00").replace(/\$$/, "\\$");
    const inner = (lit, head) => { const raw = lit.getText(sf); return raw.slice(1, raw.endsWith("${") ? -2 : -1); };
    const stringy = (e) => ts.isStringLiteral(e) || ts.isNoSubstitutionTemplateLiteral(e) || ts.isTemplateExpression(e) || (ts.isBinaryExpression(e) && e.operatorToken.kind === K.PlusToken && (stringy(bare(e.left)) || stringy(bare(e.right))));
    const pieces = (e0) => {
      const e = bare(e0);
      if (ts.isStringLiteral(e)) return [{ raw: escRaw(e.text), at: e.getStart(sf) }];
      if (ts.isNoSubstitutionTemplateLiteral(e)) return [{ raw: inner(e), at: e.getStart(sf) }];
      if (ts.isTemplateExpression(e)) { const o = [{ raw: inner(e.head), at: e.getStart(sf) }]; for (const t of e.templateSpans) { if (stringy(bare(t.expression))) o.push(...pieces(t.expression)); else o.push({ expr: t.expression }); o.push({ raw: inner(t.literal), at: t.literal.getStart(sf) }); } return o; }
      if (stringy(e)) { const l = bare(e.left), r = bare(e.right); return [...(stringy(l) ? pieces(l) : [{ expr: e.left }]), ...(stringy(r) ? pieces(r) : [{ expr: e.right }])]; }
      return [{ expr: e }];
    };
    // the expression a branch gives to name, when that is all it does
    const given = (st, name) => {
      const b = ts.isBlock(st) ? st.statements.filter((x) => !idle(x)) : [st]; if (b.length !== 1) return null; const s = b[0];
      if (ts.isExpressionStatement(s) && ts.isBinaryExpression(s.expression) && s.expression.operatorToken.kind === K.EqualsToken && ts.isIdentifier(s.expression.left) && s.expression.left.text === name && !count(s.expression.right, name)) return { e: s.expression.right };
      if (ts.isIfStatement(s) && s.elseStatement && !count(s.expression, name)) { const a = given(s.thenStatement, name), c = given(s.elseStatement, name); return a && c ? { c: s.expression, a, b: c } : null; }
      return null;
    };
    const emitGiven = (g) => { if (g.e) { put("(", g.e.getStart(sf)); emit(g.e); put(")", g.e.end); return; } put("((", g.c.getStart(sf)); emit(g.c); put(") ? ", g.c.end); emitGiven(g.a); put(" : ", g.c.end); emitGiven(g.b); put(")", g.c.end); };
    const plain = (n) => { let p = n.getFullStart(); ts.forEachChild(n, (c) => { if (dropped.has(c)) { copy(p, c.getStart(sf)); p = c.end; return; } copy(p, c.getFullStart()); emit(c); p = c.end; }); copy(p, n.end); };
    const asBlock = (s, braces) => { if (ts.isBlock(s)) { if (braces) emit(s); else emitList(s, s.statements, null, undefined, true); } else { if (braces) put(" {", s.getStart(sf)); emit(s); if (braces) put(" }", s.end); } };
    const emitIf = (n) => {
      const c = bare(n.expression);
      if (n.elseStatement && ts.isPrefixUnaryExpression(c) && c.operator === K.ExclamationToken && !ts.isIfStatement(n.elseStatement)) { changed = true; copy(n.getFullStart(), n.getStart(sf)); put("if (", n.getStart(sf)); emit(bare(c.operand)); put(")", c.end); asBlock(n.elseStatement, true); put(" else ", n.thenStatement.end); if (ts.isIfStatement(n.thenStatement)) emit(n.thenStatement); else asBlock(n.thenStatement, true); return; }
      if (!n.elseStatement) {
        const inner = ts.isBlock(n.thenStatement) ? n.thenStatement.statements.filter((x) => !idle(x)) : [n.thenStatement];
        if (inner.length === 1 && ts.isIfStatement(inner[0]) && !inner[0].elseStatement) { changed = true; copy(n.getFullStart(), n.getStart(sf)); put("if ((", n.getStart(sf)); emit(n.expression); put(") && (", n.expression.end); emit(inner[0].expression); put("))", inner[0].expression.end); asBlock(inner[0].thenStatement, true); return; }
      }
      plain(n);
    };
    const emitList = (owner, stmts, parent, from, noBraces, without) => {
      let p = from ?? owner.getFullStart(); if (noBraces) p = stmts.length ? stmts[0].getFullStart() : owner.end;
      const prologue = (s) => ts.isExpressionStatement(s) && ts.isStringLiteral(s.expression);
      const live = stmts.filter((s) => !idle(s) && s !== without && !dropped.has(s)); if (live.length !== stmts.length && (live.length || !ts.isBlock(owner))) changed = true;
      const gone = new Set(); const spliced = new Map(); const chosen = new Map();
      const ends = ts.isBlock(owner) && isFn(owner.parent); if (ends && live.length && ts.isReturnStatement(live.at(-1)) && !live.at(-1).expression && !inl.has(live.at(-1)) && !leave.has(live.at(-1))) { gone.add(live.at(-1)); changed = true; }
      for (let i = 0; i + 1 < live.length; i++) {
        const s = live[i], t = live[i + 1];
        if (!ts.isVariableStatement(s) || s.modifiers?.length || (s.declarationList.flags & ts.NodeFlags.BlockScoped) !== ts.NodeFlags.Let || s.declarationList.declarations.length !== 1) continue;
        const d = s.declarationList.declarations[0]; if (d.initializer || d.exclamationToken || !ts.isIdentifier(d.name) || !ts.isIfStatement(t)) continue;
        const g = given(t, d.name.text); if (!g || !g.c) continue;
        gone.add(s); chosen.set(t, { d, g, fixed: writes(owner, d.name.text) === writes(t, d.name.text) }); changed = true; i++;
      }
      for (let i = 0; i + 1 < live.length; i++) {
        const s = live[i], t = live[i + 1];
        if (!ts.isWhileStatement(t) || !ts.isBlock(t.statement) || !ts.isVariableStatement(s) || s.modifiers?.length || (s.declarationList.flags & ts.NodeFlags.BlockScoped) !== ts.NodeFlags.Let || s.declarationList.declarations.length !== 1) continue;
        const d = s.declarationList.declarations[0]; if (!ts.isIdentifier(d.name) || !d.initializer) continue; const nm = d.name.text;
        const inc = t.statement.statements.filter((x) => !idle(x)).at(-1); if (!inc || !ts.isExpressionStatement(inc)) continue;
        const e = bare(inc.expression), on = (ts.isPostfixUnaryExpression(e) || ts.isPrefixUnaryExpression(e)) && (e.operator === K.PlusPlusToken || e.operator === K.MinusMinusToken) ? e.operand : ts.isBinaryExpression(e) && (e.operatorToken.kind === K.PlusEqualsToken || e.operatorToken.kind === K.MinusEqualsToken) ? e.left : null;
        if (!on || bare(on).getText(sf) !== nm || (ts.isBinaryExpression(e) && [...names(t.statement.statements)].some((x) => count(e.right, x))) || count(t.expression, nm) === 0 || hasOwn(t.statement, (m) => ts.isContinueStatement(m)) || count(owner, nm) !== count(s, nm) + count(t, nm)) continue;
        gone.add(s); counted.set(t, { d, st: s, inc }); changed = true;
      }
      for (let i = 0; i + 1 < live.length; i++) {
        const d = single(live[i]); if (!d || gone.has(live[i])) continue;
        const name = d.name.text, next = live[i + 1];
        if (count(owner, name) !== 2 || inl.has(live[i]) || (inl.size && moving(next))) continue;
        if (ts.isArrowFunction(d.initializer) || ts.isFunctionExpression(d.initializer)) {
          const f = d.initializer; if (f.parameters.length || !ts.isBlock(f.body) || f.asteriskToken || ts.isFunctionExpression(f)) continue;
          const asy = !!f.modifiers?.some((m) => m.kind === K.AsyncKeyword);
          let e = ts.isExpressionStatement(next) || ts.isReturnStatement(next) ? next.expression : null; if (!e) continue; let awaited = false; if (ts.isAwaitExpression(e)) { awaited = true; e = e.expression; }
          if (!ts.isCallExpression(e) || !ts.isIdentifier(e.expression) || e.expression.text !== name || e.arguments.length) continue;
          if (asy !== awaited) continue;
          const rets = hasOwn(f.body, (m) => ts.isReturnStatement(m)); if (rets && !ts.isReturnStatement(next)) continue;
          gone.add(live[i]); spliced.set(next, f.body); changed = true; continue;
        }
        const u = firstUse(next, name, d.initializer); if (!u || repl.has(u)) continue;
        if (ts.isShorthandPropertyAssignment(u.parent)) continue;
        repl.set(u, d); gone.add(live[i]); changed = true;
      }
      const keep = live.filter((s) => !gone.has(s));
      for (let i = 0; i < stmts.length; i++) {
        const s = stmts[i];
        if (s === without || gone.has(s) || !live.includes(s) && (live.length || !ts.isBlock(owner))) { copy(p, s.getStart(sf)); p = s.end; continue; }
        copy(p, s.getFullStart()); p = s.end;
        if (inl.has(s)) {
          const { kind, f, body, host, call, params, sameName, clash, falls } = inl.get(s); changed = true; copy(s.getFullStart(), s.getStart(sf)); if (clash) put("{ ", s.getStart(sf));
          params.forEach((nm, i) => { if (sameName(i)) return; const pr = f.parameters[i]; put("const " + nm, pr.getStart(sf)); if (pr.type) { put(": ", pr.getStart(sf)); copy(pr.type.getStart(sf), pr.type.end); if (pr.questionToken) put(" | undefined", pr.end); } put(" = ", pr.end); emit(call.arguments[i]); put("; ", call.arguments[i].end); });
          if (kind === "decl") { const last = body.at(-1); emitList(f.body, f.body.statements, null, undefined, true, last); put(" const ", s.getStart(sf)); copy(host.name.getStart(sf), host.name.end); { const ft = f.type && f.modifiers?.some((m) => m.kind === K.AsyncKeyword) ? (ts.isTypeReferenceNode(f.type) ? f.type.typeArguments?.[0] : null) : f.type; if (host.type) copy(host.name.end, host.type.end); else if (ft) { put(": ", host.name.end); copy(ft.getStart(sf), ft.end); } } put(" = (", host.name.end); emit(last.expression); put(");", s.end); }
          else { asBlock(f.body, false); const l = f.body.statements.filter((x) => !idle(x)).at(-1), bareEnd = l && ts.isReturnStatement(l) && !l.expression; if (kind === "ret" && falls && (bareEnd || !jumps(f.body)) && !(ends && s === live.at(-1))) put(" return;", s.end); }
          if (clash) put(" }", s.end); continue;
        }
        if (chosen.has(s)) { const { d, g, fixed } = chosen.get(s); copy(s.getFullStart(), s.getStart(sf)); put(fixed ? "const " : "let ", d.getStart(sf)); copy(d.getStart(sf), d.end); put(" = ", d.end); emitGiven(g); put(";", s.end); continue; }
        if (spliced.has(s)) { copy(s.getFullStart(), s.getStart(sf)); emit(spliced.get(s)); if (ts.isReturnStatement(s) && !jumps(spliced.get(s))) put(" return;", s.end); continue; }
        if (ts.isIfStatement(s) && s.elseStatement) {
          const c = bare(s.expression); const not = ts.isPrefixUnaryExpression(c) && c.operator === K.ExclamationToken;
          const last = s === keep.at(-1); const others = names(stmts.filter((x) => x !== s));
          const fits = (b) => !ts.isBlock(b) || (last || names(b.statements).size === 0) && [...names(b.statements)].every((x) => !others.has(x)) && (ts.isBlock(owner) || names(b.statements).size === 0);
          const thenJ = jumps(s.thenStatement), elseJ = jumps(s.elseStatement);
          const first = elseJ && (not || !thenJ) ? "else" : thenJ ? "then" : null;
          const rest = first === "else" ? s.thenStatement : s.elseStatement;
          if (first && fits(rest)) {
            changed = true; copy(s.getFullStart(), s.getStart(sf));
            if (first === "then") { put("if (", s.getStart(sf)); emit(s.expression); put(")", s.expression.end); asBlock(s.thenStatement, true); }
            else { put(not ? "if (" : "if (!(", s.getStart(sf)); emit(not ? bare(c.operand) : s.expression); put(not ? ")" : "))", s.expression.end); asBlock(s.elseStatement, true); }
            put(" ", rest.getStart(sf)); asBlock(rest, false); continue;
          }
        }
        emit(s);
      }
      if (noBraces) return; copy(p, owner.end);
    };
    emit(sf);
    const t = out.t.join(""); const m = new Int32Array(t.length + 1); let o = 0; for (const a of out.m) { m.set(a, o); o += a.length; } m[t.length] = map[map.length - 1];
    return { t, m, changed };
  }
  return (fileName, text, lv) => {
    let sf = ts.createSourceFile(fileName, text, lv, true);
    let map = new Int32Array(text.length + 1); for (let i = 0; i <= text.length; i++) map[i] = i;
    const lines = sf; let any = false;
    for (let i = 0; i < 8; i++) { const r = pass(sf, map); if (!r.changed) break; any = true; map = r.m; sf = ts.createSourceFile(fileName, r.t, lv, true); }
    if (sf.parseDiagnostics?.length && !lines.parseDiagnostics?.length) return lines; // never trade a readable file for an unreadable one
    if (any) { sf.__origin = map; sf.__original = lines; }
    return sf;
  };
}
