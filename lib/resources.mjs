// Typestate: acquired → (released | handed over) on every path, exceptional paths included.
import { ts, K, isFn, skip, walk } from "./program.mjs";
import { Feasible } from "./paths.mjs";

const TYPE_RES = { Browser: ["close"], BrowserContext: ["close"], Page: ["close"], CDPSession: ["detach"] };
const GETTERS = new Set(["browser", "context", "page", "mainFrame", "pages", "contexts", "on", "off", "once", "opener", "get"]);
const RELEASE_METHODS = new Set(["close", "dispose", "detach", "kill", "stop", "destroy", "remove", "disconnect", "end"]);

export class Resources {
  constructor(P, F, T) { this.P = P; this.F = F; this.T = T; this.fresh = new Map(); }
  awaited(n) { const t = this.P.type(n); return this.P.checker.getAwaitedType?.(t) ?? t; }
  /** classify a call as acquiring something the caller must release */
  acquires(call) {
    const P = this.P;
    if (!ts.isCallExpression(call) && !ts.isNewExpression(call)) return null;
    const x = P.externalName(call.expression);
    if (x === "http:createServer" || x === "net:createServer") return { kind: "server", rel: ["close"] };
    if (x === "fs:mkdtempSync" || x === "fs/promises:mkdtemp") return { kind: "temporary directory", rel: "rm" };
    if (x === "fs:openSync") return { kind: "file descriptor", rel: "closeSync" };
    if (x === "lib:setTimeout" || x === "timers:setTimeout" || x === "globals:setTimeout" || x?.endsWith(":setTimeout") || x?.endsWith(":setInterval")) return { kind: "timer", rel: "timer" };
    if (x === "child_process:spawn") return { kind: "child process", rel: "child" };
    if (x && /^@xterm\/headless:Terminal$/.test(x)) return { kind: "Terminal", rel: ["dispose"] };
    if (ts.isNewExpression(call)) { const nt = P.type(call), sd = nt.symbol?.declarations?.[0]?.getSourceFile().fileName ?? ""; if (/@xterm/.test(sd) && nt.symbol.name === "Terminal") return { kind: "Terminal", rel: ["dispose"] }; }
    const at = this.awaited(call); const parts = at.isUnion?.() ? at.types.filter((t) => !(t.flags & (ts.TypeFlags.Null | ts.TypeFlags.Undefined))) : [at];
    if (parts.length !== 1) return null;
    const t = parts[0], name = t.symbol?.name, declFile = t.symbol?.declarations?.[0]?.getSourceFile().fileName ?? "";
    if (/playwright/.test(declFile) && TYPE_RES[name]) {
      if (ts.isPropertyAccessExpression(call.expression) && GETTERS.has(call.expression.name.text)) return null;
      const fns = this.F.targets(call.expression);
      if (fns.length && !fns.some((f) => this.returnsFresh(f))) return null;
      return { kind: name, rel: TYPE_RES[name] };
    }
    // repo-declared disposable produced by a repo function
    const inRepo = t.symbol?.declarations?.some((d) => P.files.includes(d.getSourceFile()));
    if (inRepo) {
      const m = ["dispose", "detach", "close", "stop"].filter((k) => { const p = t.getProperty(k); return p && P.checker.getTypeOfSymbol(p).getCallSignatures().length && p.declarations?.some((d) => P.files.includes(d.getSourceFile())); });
      if (m.length && (P.callees(call).length || ts.isNewExpression(call) || this.F.targets(call.expression).length)) {
        if (ts.isNewExpression(call)) return { kind: name, rel: m };
        const fns = this.F.targets(call.expression);
        if (fns.some((f) => this.returnsFresh(f))) return { kind: name === "__type" || name === "__object" ? P.fnName(fns[0]) + " handle" : name, rel: m };
      }
    }
    return null;
  }
  /** does fn return a newly acquired resource / a fresh handle object? */
  returnsFresh(fn) {
    if (this.fresh.has(fn)) return this.fresh.get(fn);
    this.fresh.set(fn, false);
    let r = false;
    const isFresh = (e, depth = 0) => {
      e = skip(e); if (ts.isAwaitExpression(e)) e = skip(e.expression);
      if (ts.isObjectLiteralExpression(e)) return e.properties.some((p) => p.name && RELEASE_METHODS.has(p.name.getText()));
      if (ts.isCallExpression(e) || ts.isNewExpression(e)) return !!this.acquires(e);
      if (ts.isConditionalExpression(e)) return isFresh(e.whenTrue, depth) || isFresh(e.whenFalse, depth);
      if (ts.isIdentifier(e) && depth < 3) {
        const d = this.P.declsOf(e)[0];
        if (d && ts.isVariableDeclaration(d) && this.P.enclosingFn(d) === fn) return (this.F.writes.get(d) ?? []).some((w) => w.expr && isFresh(w.expr, depth + 1));
      }
      return false;
    };
    for (const e of this.F.returnsOf(fn)) if (isFresh(e)) { r = true; break; }
    this.fresh.set(fn, r); return r;
  }
  /** the local variable that receives the acquired value, or a note on where it goes */
  binding(call) {
    let n = call, p = n.parent, promise = false, inAll = false;
    for (;;) {
      if (ts.isParenthesizedExpression(p) || ts.isAsExpression(p) || ts.isNonNullExpression(p) || ts.isAwaitExpression(p) || ts.isSatisfiesExpression(p)) { n = p; p = p.parent; continue; }
      if (ts.isBinaryExpression(p) && [K.QuestionQuestionToken, K.BarBarToken].includes(p.operatorToken.kind)) { n = p; p = p.parent; continue; }
      if (ts.isConditionalExpression(p) && p.condition !== n) { n = p; p = p.parent; continue; }
      if (ts.isPropertyAccessExpression(p) && p.expression === n && ts.isCallExpression(p.parent) && ["catch", "finally"].includes(p.name.text)) { n = p.parent; p = n.parent; continue; }
      break;
    }
    if (ts.isVariableDeclaration(p) && p.initializer === n && ts.isIdentifier(p.name)) return { decl: p, at: p };
    if (ts.isVariableDeclaration(p) && p.initializer === n && ts.isObjectBindingPattern(p.name)) {
      const el = p.name.elements.find((e) => RELEASE_METHODS.has((e.propertyName ?? e.name).getText()));
      if (el) return { decl: el, at: p, method: true };
    }
    if (ts.isBinaryExpression(p) && p.operatorToken.kind >= K.FirstAssignment && p.operatorToken.kind <= K.LastAssignment && p.right === n) {
      const l = skip(p.left);
      if (ts.isIdentifier(l)) { const d = this.P.declsOf(l)[0]; if (d) return { decl: d, at: p }; }
      return { escape: "stored in " + p.left.getText() };
    }
    if (ts.isReturnStatement(p) || (isFn(p) && p.body === n)) return { escape: "returned" };
    if (ts.isPropertyAssignment(p)) return { escape: "stored in object" };
    if (ts.isArrayLiteralExpression(p) && ts.isCallExpression(p.parent) && /Promise\.all$/.test(p.parent.expression.getText())) {
      const idx = p.elements.indexOf(n); let q = p.parent.parent; if (ts.isAwaitExpression(q)) q = q.parent;
      if (ts.isVariableDeclaration(q) && ts.isArrayBindingPattern(q.name)) { const el = q.name.elements[idx]; if (el && ts.isBindingElement(el)) return { decl: el, at: q }; }
      return { escape: "Promise.all" };
    }
    if (ts.isPropertyAccessExpression(p) && p.expression === n) return { chained: p };
    if (ts.isCallExpression(p) && p.arguments.includes(n)) return { passed: p };
    return { discarded: p };
  }
  mentions(node, decl) { let r = false; walk(node, (n) => { if (r) return false; if (ts.isIdentifier(n) && this.P.declsOf(n).includes(decl)) { r = true; return false; } }); return r; }
  /** is this call a release of decl? (direct, via helper closure, via repo function that releases its parameter) */
  releases(call, decl, res, depth = 0) {
    if (!ts.isCallExpression(call) && !ts.isNewExpression(call)) return false;
    const P = this.P, e = skip(call.expression);
    const isV = (x) => { x = skip(x); return ts.isIdentifier(x) && P.declsOf(x).includes(decl); };
    if (ts.isPropertyAccessExpression(e)) {
      if (isV(e.expression) && (Array.isArray(res.rel) ? res.rel.includes(e.name.text) : res.rel === "child" ? ["kill", "unref"].includes(e.name.text) : false)) return true;
      if (res.rel === "child" && ["end", "destroy"].includes(e.name.text) && ts.isPropertyAccessExpression(skip(e.expression)) && isV(skip(e.expression).expression)) return true;
      if (res.rel === "child" && ["end", "destroy"].includes(e.name.text) && ts.isIdentifier(skip(e.expression))) { // alias of v.stdin
        const d = P.declsOf(skip(e.expression))[0]; const i = d && ts.isVariableDeclaration(d) && d.initializer ? skip(d.initializer) : null;
        if (i && ts.isPropertyAccessExpression(i) && isV(i.expression)) return true;
      }
      if (["catch", "then", "finally"].includes(e.name.text) && ts.isCallExpression(skip(e.expression))) { /* the inner call is its own node */ }
    }
    if (isV(e) && ts.isBindingElement(decl)) return true; // destructured release method called
    const x = P.externalName(call.expression);
    if (res.rel === "rm" && x && /^fs(\/promises)?:(rm|rmSync|rmdir|rmdirSync)$/.test(x) && call.arguments[0] && this.mentions(call.arguments[0], decl)) return true;
    if (res.rel === "timer" && x && /:clear(Timeout|Interval)$/.test(x) && call.arguments[0] && isV(call.arguments[0])) return true;
    if (res.rel === "closeSync" && x && /^fs:close(Sync)?$/.test(x) && call.arguments[0] && isV(call.arguments[0])) return true;
    if (depth > 2) return false;
    // closure or helper
    const cbs = [...this.F.targets(call.expression), ...(call.arguments ?? []).flatMap((a) => isFn(skip(a)) ? [skip(a)] : [])];
    for (const f of cbs) {
      if (!f.body) continue;
      // free-variable closure
      let hit = false;
      walk(f.body, (n) => { if (hit) return false; if (ts.isCallExpression(n) && this.releases(n, decl, res, depth + 1)) hit = true; });
      if (hit) return true;
      const i = (call.arguments ?? []).findIndex((a) => isV(a));
      if (i >= 0 && f.parameters[i]) {
        walk(f.body, (n) => { if (hit) return false; if (ts.isCallExpression(n) && this.releases(n, f.parameters[i], res, depth + 1)) hit = true; });
        if (hit) return true;
      }
    }
    return false;
  }
  /** conditions: a branch edge on which decl is known absent */
  edgeDead(edge, decl, at, guards) {
    if (edge.cond == null) return false;
    const P = this.P;
    const isV = (x) => { x = skip(x); return ts.isIdentifier(x) && P.declsOf(x).includes(decl); };
    if ("nonnull" in edge) return isV(edge.cond) && edge.nonnull === false;
    const c = skip(edge.cond);
    if (isV(c)) return edge.value === false;
    if (ts.isBinaryExpression(c)) {
      const op = c.operatorToken.kind; const nul = (x) => { x = skip(x); return x.kind === K.NullKeyword || (ts.isIdentifier(x) && x.text === "undefined"); };
      const eq = op === K.EqualsEqualsToken || op === K.EqualsEqualsEqualsToken, ne = op === K.ExclamationEqualsToken || op === K.ExclamationEqualsEqualsToken;
      if ((eq || ne) && ((isV(c.left) && nul(c.right)) || (isV(c.right) && nul(c.left)))) return eq ? edge.value === true : edge.value === false;
    }
    if (ts.isBinaryExpression(c) && isV(c.left)) { // numeric handle sentinels: fd >= 0, fd !== -1
      const op = c.operatorToken.kind; const r = skip(c.right).getText();
      if ((op === K.GreaterThanEqualsToken && r === "0") || (op === K.GreaterThanToken && r === "-1") || ((op === K.ExclamationEqualsEqualsToken || op === K.ExclamationEqualsToken) && r === "-1")) return edge.value === false;
      if ((op === K.LessThanToken && r === "0") || ((op === K.EqualsEqualsEqualsToken || op === K.EqualsEqualsToken) && r === "-1")) return edge.value === true;
    }
    if (guards?.known && "value" in edge) { const x = this.normCond(c); const v = guards.known.get(x.k); if (v !== undefined && (edge.value === x.v) !== v) return true; }
    if (guards && ts.isIdentifier(c)) { const d = P.declsOf(c)[0]; const g = guards.get(d); if (g !== undefined) return edge.value !== g; }
    return false;
  }
  /** Variables correlated with "we acquired it ourselves" under the acquisition's guard condition. */
  guardsFor(call, fn) {
    // climb: conditions under which `call` is evaluated
    const P = this.P; const facts = []; // {text cond, value}
    let n = call, p = n.parent;
    const key = (e) => skip(e).getText().replace(/\s+/g, "");
    while (p && p !== fn) {
      if (ts.isConditionalExpression(p)) { if (p.whenTrue === n) facts.push([p.condition, true]); else if (p.whenFalse === n) facts.push([p.condition, false]); }
      if (ts.isIfStatement(p)) { if (p.thenStatement === n) facts.push([p.expression, true]); else if (p.elseStatement === n) facts.push([p.expression, false]); }
      if (ts.isBinaryExpression(p) && p.operatorToken.kind === K.AmpersandAmpersandToken && p.right === n) facts.push([p.left, true]);
      if (ts.isBinaryExpression(p) && p.operatorToken.kind === K.QuestionQuestionToken && p.right === n) facts.push([p.left, "null"]);
      n = p; p = p.parent;
    }
    const guards = new Map();
    const norm = (e) => this.normCond(e);
    const known = new Map();
    for (let fi = 0; fi < facts.length; fi++) { const [e0, v0] = facts[fi]; const s0 = typeof e0 === "object" ? skip(e0) : e0; // split conjunctions
      if (v0 === true && ts.isBinaryExpression(s0) && s0.operatorToken.kind === K.AmpersandAmpersandToken) facts.push([s0.left, true], [s0.right, true]); }
    for (const [e, v] of facts) {
      if (v === "null") { known.set("nn:" + key(e), false); continue; }
      const x = norm(e); known.set(x.k, x.v === v);
      const s = skip(e); if (ts.isIdentifier(s)) { const d = P.declsOf(s)[0]; if (d) { guards.set(d, v); if (ts.isVariableDeclaration(d) && d.initializer) { const y = norm(d.initializer); known.set(y.k, y.v === v); } } }
    }
    walk(fn.body, (q) => {
      if (ts.isVariableDeclaration(q) && q.initializer && ts.isIdentifier(q.name) && !guards.has(q)) { const x = norm(q.initializer); if (known.has(x.k)) guards.set(q, known.get(x.k) === x.v); }
    });
    guards.known = known;
    return guards;
  }
  normCond(e) { // -> {k, v}: atom & polarity such that expr true <=> atom is v
    const key = (x) => skip(x).getText().replace(/\s+/g, "").replace(/[!?]\./g, ".");
    e = skip(e);
    if (ts.isPrefixUnaryExpression(e) && e.operator === K.ExclamationToken) { const x = this.normCond(e.operand); return { k: x.k, v: !x.v }; }
    if (ts.isBinaryExpression(e)) {
      const op = e.operatorToken.kind; const eq = op === K.EqualsEqualsToken || op === K.EqualsEqualsEqualsToken, ne = op === K.ExclamationEqualsToken || op === K.ExclamationEqualsEqualsToken;
      const nul = (x) => { x = skip(x); return x.kind === K.NullKeyword || (ts.isIdentifier(x) && x.text === "undefined"); };
      if ((eq || ne) && nul(e.right)) return { k: "nn:" + key(e.left), v: ne };
    }
    return { k: "b:" + key(e), v: true };
  }
  /** @returns null if discharged on all paths, else {exit, via} */
  leak(call, fn, res, b) {
    const { P, T } = this; const cfg = T.cfg(fn); const decl = b.decl;
    const guards = this.guardsFor(call, fn);
    // locals whose value embeds the resource (handle objects / closures)
    const carriers = new Set([decl]);
    let grew = true;
    while (grew) { grew = false; walk(fn.body, (n) => {
      if (ts.isVariableDeclaration(n) && n.initializer && ts.isIdentifier(n.name) && !carriers.has(n) && n.initializer !== b.at.initializer) {
        const s = skip(n.initializer);
        if ((ts.isObjectLiteralExpression(s) || isFn(s) || ts.isNewExpression(s) || ts.isIdentifier(s)) && [...carriers].some((c) => this.mentions(s, c))) { carriers.add(n); grew = true; }
      }
    }); }
    let bad = null, started = 0;
    const fe = this.#feasible(fn);
    fe.explore("-", (n, aux) => {
      if (n.ast === b.at && (n.kind === "decl" || n.kind === "assign")) { started++; return "A"; }
      if (aux !== "A") return aux;
      if ((n.kind === "call" || n.kind === "new") && this.releases(n.ast, decl, res)) return "R";
      if (n.kind === "return" && n.ast) { const ex = ts.isReturnStatement(n.ast) ? n.ast.expression : n.ast; if (ex && this.#carries(ex, carriers)) return "R"; }
      if (n.kind === "assign") {
        const l = skip(n.ast.left);
        if (this.#carries(n.ast.right, carriers) && !this.#isLocal(l, fn)) return "R";                    // handed to a longer-lived owner
        if (ts.isIdentifier(l) && P.declsOf(l).includes(decl) && n.ast !== b.at) { const rv = skip(n.ast.right); if (rv.kind === K.NullKeyword || (ts.isIdentifier(rv) && rv.text === "undefined")) { bad ??= { exit: "forgotten", via: n.ast }; } return "R"; }             // overwritten: its own obligation
      }
      if (n.kind === "call" && ts.isPropertyAccessExpression(n.ast.expression) && ["set", "push", "add"].includes(n.ast.expression.name.text) && n.ast.arguments.some((x) => this.#carries(x, carriers))) return "R";
      return aux;
    }, (kind, aux, rec) => {
      if (aux !== "A" || bad) return;
      let q = rec.prev, via = null; while (q) { if (q.n.exc && kind === "exception" && T.excTaken(q.n) && q.n.kind !== "rethrow") { via = q.n.ast; break; } if (kind !== "exception" && ["call", "await", "return", "throw"].includes(q.n.kind)) { via = q.n.ast; break; } q = q.prev; }
      bad = { exit: kind, via };
    }, { edge: (s, aux) => aux !== "A" || !this.edgeDead(s, decl, b.at, guards) });
    return bad ?? (started ? null : { exit: "acquisition unreachable in CFG", via: null });
  }
  #feasible(fn) { this._fe ??= new Map(); let f = this._fe.get(fn); if (!f) this._fe.set(fn, f = new Feasible(this.P, this.T, fn)); return f; }
  #carries(e, carriers) { // value embeds the resource: identifier itself, object/array/closure/new mentioning it
    e = skip(e); if (ts.isAwaitExpression(e)) e = skip(e.expression);
    if (ts.isIdentifier(e)) return this.P.declsOf(e).some((d) => carriers.has(d));
    if (ts.isObjectLiteralExpression(e) || ts.isArrayLiteralExpression(e) || isFn(e) || ts.isNewExpression(e)) return [...carriers].some((c) => this.mentions(e, c));
    if (ts.isConditionalExpression(e)) return this.#carries(e.whenTrue, carriers) || this.#carries(e.whenFalse, carriers);
    if (ts.isBinaryExpression(e)) return this.#carries(e.left, carriers) || this.#carries(e.right, carriers);
    return false;
  }
  #isLocal(l, fn) {
    if (!ts.isIdentifier(l)) return false;
    const d = this.P.declsOf(l)[0]; return !!d && this.P.enclosingFn(d) === fn;
  }
  /** resource whose owner (receiver) is itself locally acquired or closed here */
  ownedBy(call, fn) {
    const e = skip(call.expression);
    const root = (x) => { x = skip(x); while (ts.isCallExpression(x) && ts.isPropertyAccessExpression(x.expression)) x = skip(x.expression.expression); return x; };
    const recv = ts.isPropertyAccessExpression(e) ? root(e.expression) : null;
    const candidates = [...(recv ? [recv] : []), ...(call.arguments ?? []).map((a) => root(a))];
    for (const r of candidates) if (ts.isIdentifier(r)) {
      for (const d of this.P.declsOf(r)) {
        for (const w of this.F.writes.get(d) ?? []) if (w.expr) { let x = skip(w.expr); if (ts.isAwaitExpression(x)) x = skip(x.expression); if (ts.isCallExpression(x) || ts.isNewExpression(x)) { const a = this.acquires(x); if (a && (r === recv || TYPE_RES[a.kind])) return d; } /* a page or session dies with the browser it was handed; a probe handle does not */ }
        if (ts.isParameter(d)) { /* owner is the caller's */ }
      }
    }
    return null;
  }
}
