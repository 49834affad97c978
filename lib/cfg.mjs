// Expression-granular control-flow graph with exceptional edges. `finally`
// blocks are instantiated once per way of leaving their `try`, so every path
// through the graph is a syntactically possible execution path.
import { ts, K, isFn, skip } from "./program.mjs";

let uid = 0;
class Node {
  constructor(ast, kind) { this.id = uid++; this.ast = ast; this.kind = kind; this.succ = []; this.exc = null; }
  to(n, cond) { if (n) this.succ.push(cond ? { to: n, ...cond } : { to: n }); }
}

/** mayThrow(astNode) decides whether an evaluated node has an exceptional edge. */
export function buildCfg(fn, opt = {}) {
  const mayThrow = opt.mayThrow ?? ((n) => ts.isCallExpression(n) || ts.isNewExpression(n) || ts.isAwaitExpression(n) || ts.isTaggedTemplateExpression(n));
  const nodes = [];
  const mk = (ast, kind) => { const n = new Node(ast, kind); nodes.push(n); return n; };
  const exit = mk(fn, "exit"), throwExit = mk(fn, "throw-exit");
  // Continuation-passing construction, built backwards: each function returns the entry node.
  // env: { ret(): Node, thr: Node, brk: Map(label|'' -> Node), cont: Map }
  const expr = (e, next, env) => {
    if (!e) return next;
    if (isFn(e) || ts.isClassExpression(e)) { const n = mk(e, "closure"); n.to(next); return n; }
    if (ts.isParenthesizedExpression(e) || ts.isAsExpression(e) || ts.isNonNullExpression(e) || ts.isSatisfiesExpression(e)) return expr(e.expression, next, env);
    if (ts.isConditionalExpression(e)) return cond(e.condition, expr(e.whenTrue, next, env), expr(e.whenFalse, next, env), env);
    if (ts.isBinaryExpression(e)) {
      const op = e.operatorToken.kind;
      if (op === K.AmpersandAmpersandToken) return cond(e.left, expr(e.right, next, env), next, env);
      if (op === K.BarBarToken) return cond(e.left, next, expr(e.right, next, env), env);
      if (op === K.QuestionQuestionToken) { const r = expr(e.right, next, env); const n = mk(e, "nullish"); n.to(next, { cond: e.left, nonnull: true }); n.to(r, { cond: e.left, nonnull: false }); return expr(e.left, n, env); }
      if (op >= K.FirstAssignment && op <= K.LastAssignment) {
        const n = mk(e, "assign"); n.to(next);
        let lhsSub = n;
        const l = skip(e.left);
        if (ts.isPropertyAccessExpression(l)) lhsSub = expr(l.expression, expr(e.right, n, env), env);
        else if (ts.isElementAccessExpression(l)) lhsSub = expr(l.expression, expr(l.argumentExpression, expr(e.right, n, env), env), env);
        else lhsSub = expr(e.right, n, env);
        if ([K.QuestionQuestionEqualsToken, K.BarBarEqualsToken, K.AmpersandAmpersandEqualsToken].includes(op)) { const b = mk(e, "nullish"); b.to(next); b.to(lhsSub); return b; }
        return lhsSub;
      }
      return expr(e.left, expr(e.right, next, env), env);
    }
    if (ts.isCallExpression(e) || ts.isNewExpression(e)) {
      const n = mk(e, ts.isNewExpression(e) ? "new" : "call"); n.to(next);
      if (mayThrow(e)) n.exc = env.thr;
      let cur = n; const args = e.arguments ?? [];
      for (let i = args.length - 1; i >= 0; i--) cur = expr(ts.isSpreadElement(args[i]) ? args[i].expression : args[i], cur, env);
      const cal = e.expression;
      const chain = e.questionDotToken || cal.questionDotToken;
      if (chain) {
        const recv = e.questionDotToken ? cal : cal.expression;
        const b = mk(e, "optional"); b.to(cur, { cond: recv, nonnull: true }); b.to(next, { cond: recv, nonnull: false });
        return expr(recv, b, env);
      }
      if (ts.isPropertyAccessExpression(cal)) return expr(cal.expression, cur, env);
      if (ts.isElementAccessExpression(cal)) return expr(cal.expression, expr(cal.argumentExpression, cur, env), env);
      return expr(cal, cur, env);
    }
    if (ts.isAwaitExpression(e)) { const n = mk(e, "await"); n.to(next); if (mayThrow(e)) n.exc = env.thr; return expr(e.expression, n, env); }
    if (ts.isYieldExpression(e)) { const n = mk(e, "yield"); n.to(next); n.exc = env.thr; n.to(env.ret()); return expr(e.expression, n, env); }
    if (ts.isTaggedTemplateExpression(e)) { const n = mk(e, "call"); n.to(next); if (mayThrow(e)) n.exc = env.thr; return n; }
    if (ts.isIdentifier(e)) { const n = mk(e, "ident"); n.to(next); return n; }
    // generic: children in order
    const kids = []; ts.forEachChild(e, (c) => { kids.push(c); });
    let cur = next;
    if (ts.isPropertyAccessExpression(e)) { return expr(e.expression, cur, env); }
    for (let i = kids.length - 1; i >= 0; i--) {
      const k = kids[i];
      if (ts.isTypeNode(k) || k.kind === K.Identifier && (ts.isPropertyAssignment(e) && e.name === k)) continue;
      cur = expr(k, cur, env);
    }
    return cur;
  };
  const cond = (e, t, f, env) => {
    const s = skip(e);
    if (ts.isPrefixUnaryExpression(s) && s.operator === K.ExclamationToken) return cond(s.operand, f, t, env);
    if (ts.isBinaryExpression(s)) {
      if (s.operatorToken.kind === K.AmpersandAmpersandToken) return cond(s.left, cond(s.right, t, f, env), f, env);
      if (s.operatorToken.kind === K.BarBarToken) return cond(s.left, t, cond(s.right, t, f, env), env);
    }
    if (s.kind === K.TrueKeyword) return t;
    if (s.kind === K.FalseKeyword) return f;
    const b = mk(s, "branch"); b.to(t, { cond: s, value: true }); b.to(f, { cond: s, value: false });
    return expr(s, b, env);
  };
  const stmts = (list, next, env) => { let cur = next; for (let i = list.length - 1; i >= 0; i--) cur = stmt(list[i], cur, env); return cur; };
  const withLabel = (env, label, brk, cont) => {
    const e = { ...env, brk: new Map(env.brk), cont: new Map(env.cont) };
    e.brk.set("", brk); if (cont) e.cont.set("", cont);
    if (label) { e.brk.set(label, brk); if (cont) e.cont.set(label, cont); }
    return e;
  };
  const stmt = (s, next, env, label) => {
    switch (s.kind) {
      case K.Block: return stmts(s.statements, next, env);
      case K.VariableStatement: return decls(s.declarationList, next, env);
      case K.ExpressionStatement: { const n = mk(s, "stmt"); n.to(next); return expr(s.expression, n, env); }
      case K.IfStatement: return cond(s.expression, stmt(s.thenStatement, next, env), s.elseStatement ? stmt(s.elseStatement, next, env) : next, env);
      case K.ReturnStatement: { const n = mk(s, "return"); n.to(env.ret()); return expr(s.expression, n, env); }
      case K.ThrowStatement: { const n = mk(s, "throw"); n.exc = env.thr; return expr(s.expression, n, env); }
      case K.BreakStatement: { const n = mk(s, "break"); n.to(env.brk.get(s.label?.text ?? "")?.() ?? exit); return n; }
      case K.ContinueStatement: { const n = mk(s, "continue"); n.to(env.cont.get(s.label?.text ?? "")?.() ?? exit); return n; }
      case K.LabeledStatement: { const e = { ...env, brk: new Map(env.brk) }; e.brk.set(s.label.text, () => next); return stmt(s.statement, next, e, s.label.text); }
      case K.WhileStatement: case K.DoStatement: {
        const head = mk(s, "loop"); const e2 = withLabel(env, label, () => next, () => head);
        if (s.kind === K.WhileStatement) { head.to(cond(s.expression, stmt(s.statement, head, e2), next, e2)); return head; }
        const test = cond(s.expression, head, next, e2); const testHead = mk(s, "loop"); testHead.to(test);
        const e3 = withLabel(env, label, () => next, () => testHead);
        head.to(stmt(s.statement, testHead, e3)); return head;
      }
      case K.ForStatement: {
        const head = mk(s, "loop"); const inc = mk(s, "inc"); inc.to(s.incrementor ? expr(s.incrementor, head, env) : head);
        const e2 = withLabel(env, label, () => next, () => inc);
        const body = stmt(s.statement, inc, e2);
        head.to(s.condition ? cond(s.condition, body, next, e2) : body);
        if (!s.initializer) return head;
        return ts.isVariableDeclarationList(s.initializer) ? decls(s.initializer, head, env) : expr(s.initializer, head, env);
      }
      case K.ForOfStatement: case K.ForInStatement: {
        const head = mk(s, "loop"); if (s.awaitModifier) head.exc = env.thr;
        const e2 = withLabel(env, label, () => next, () => head);
        head.to(stmt(s.statement, head, e2)); head.to(next);
        return expr(s.expression, head, env);
      }
      case K.SwitchStatement: {
        const e2 = { ...env, brk: new Map(env.brk) }; e2.brk.set("", () => next); if (label) e2.brk.set(label, () => next);
        const bodies = []; let cur = next;
        for (let i = s.caseBlock.clauses.length - 1; i >= 0; i--) { cur = stmts(s.caseBlock.clauses[i].statements, cur, e2); bodies[i] = cur; }
        const sw = mk(s, "switch"); let hasDefault = false;
        s.caseBlock.clauses.forEach((c, i) => { if (ts.isDefaultClause(c)) hasDefault = true; sw.to(bodies[i]); });
        if (!hasDefault) sw.to(next);
        return expr(s.expression, sw, env);
      }
      case K.TryStatement: {
        const fin = s.finallyBlock;
        // continuation -> copy of finally leading to it
        const memo = new Map();
        const through = (target, tag) => {
          if (!fin) return target;
          const k = tag + "|" + target.id; if (memo.has(k)) return memo.get(k);
          const ph = mk(fin, "finally"); memo.set(k, ph); ph.to(stmts(fin.statements, target, env)); return ph;
        };
        const afterNext = through(next, "n");
        const inner = (thr) => ({
          thr,
          ret: () => through(env.ret(), "r"),
          brk: new Map([...env.brk].map(([l, f]) => [l, () => through(f(), "b" + l)])),
          cont: new Map([...env.cont].map(([l, f]) => [l, () => through(f(), "c" + l)])),
        });
        let thr = fin ? (() => { const ph = mk(fin, "finally-exc"); const rethrow = mk(fin, "rethrow"); rethrow.exc = env.thr; ph.to(stmts(fin.statements, rethrow, env)); return ph; })() : env.thr;
        const outerThr = thr;
        if (s.catchClause) {
          const ce = inner(outerThr);
          const c = mk(s.catchClause, "catch"); c.to(stmts(s.catchClause.block.statements, afterNext, ce)); thr = c;
        }
        return stmts(s.tryBlock.statements, afterNext, inner(thr));
      }
      default: return next; // declarations, empty
    }
  };
  const decls = (list, next, env) => {
    let cur = next;
    for (let i = list.declarations.length - 1; i >= 0; i--) { const d = list.declarations[i]; const n = mk(d, "decl"); n.to(cur); cur = d.initializer ? expr(d.initializer, n, env) : n; }
    return cur;
  };
  const env0 = { ret: () => exit, thr: throwExit, brk: new Map(), cont: new Map() };
  const entry = !fn.body ? exit : ts.isBlock(fn.body) ? stmts(fn.body.statements, exit, env0) : expr(fn.body, (() => { const n = mk(fn.body, "return"); n.to(exit); return n; })(), env0);
  return { entry, exit, throwExit, nodes, fn };
}
