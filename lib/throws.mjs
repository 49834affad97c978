// Interprocedural "may this call throw / reject?" summaries, by CFG reachability
// of the exceptional exit, to a fixpoint over the resolved call graph.
import { ts, K, isFn, skip } from "./program.mjs";
import { buildCfg } from "./cfg.mjs";

// External operations that can fail for reasons outside the program.
const FALLIBLE = /^(playwright-core:|fs:|fs\/promises:|child_process:|http:|net:|sharp:|svgo:|zlib:|node-pty|lib:fetch$|lib:JSON\.parse$|lib:URL$|lib:decodeURI(Component)?$|lib:Body\.|url:|dns:|os:userInfo)/;
const INFALLIBLE = /^(fs:existsSync$|playwright-core:(Page\.(context|mainFrame|frames|on|off|url|viewportSize|isClosed|locator|setDefaultTimeout|setDefaultNavigationTimeout|keyboard|mouse)|BrowserContext\.(browser|pages)|Browser\.(contexts|version|isConnected)|Frame\.(page|parentFrame|childFrames|url|name|locator)|CDPSession\.(on|off|once)|Locator\.(first|nth|last|locator)|Request\.|Response\.(url|ok|status|headers)|APIResponse\.(ok|status|headers))|url:fileURLToPath$|child_process:ChildProcess\.|http:Server\.|net:Server\.|net:Socket\.|http:ServerResponse\.)/;

export class Throws {
  constructor(P, F) { this.P = P; this.F = F; this.sum = new Map(); this.cfgs = new Map(); this.#solve(); }
  cfg(fn) { let c = this.cfgs.get(fn); if (!c) this.cfgs.set(fn, c = buildCfg(fn)); return c; }
  swallowed(call) { // expr.catch(handler): rejection handled here
    return ts.isPropertyAccessExpression(call.expression) && call.expression.name.text === "catch" && call.arguments.length >= 1;
  }
  /** does evaluating this node itself raise? */
  nodeThrows(n) {
    if (ts.isAwaitExpression(n)) return this.promiseRejects(n.expression);
    if (ts.isCallExpression(n) || ts.isNewExpression(n)) {
      if (this.isPromise(n)) { // async: rejection surfaces at await; sync part only for non-async repo fns
        return false;
      }
      return this.callThrows(n);
    }
    return false;
  }
  isPromise(n) {
    const t = this.P.type(n); const parts = t.isUnion?.() ? t.types : [t];
    return parts.some((u) => u.symbol?.name === "Promise" || u.symbol?.name === "PromiseLike");
  }
  callThrows(n) {
    const e = ts.isNewExpression(n) ? n.expression : n.expression;
    const fns = this.F.targets(e);
    if (fns.length) return fns.some((f) => this.sum.get(f) === true);
    const x = this.P.externalName(e);
    if (x && FALLIBLE.test(x) && !INFALLIBLE.test(x)) return true;
    // library higher-order call: callbacks run inside
    if (!ts.isNewExpression(n)) for (const a of n.arguments ?? []) { const cb = skip(a); if (isFn(cb) && !cb.modifiers?.some((m) => m.kind === K.AsyncKeyword) && this.sum.get(cb)) return true; }
    return false;
  }
  promiseRejects(e) {
    e = skip(e);
    if (ts.isAwaitExpression(e)) return this.promiseRejects(e.expression);
    if (ts.isConditionalExpression(e)) return this.promiseRejects(e.whenTrue) || this.promiseRejects(e.whenFalse);
    if (ts.isBinaryExpression(e)) return this.promiseRejects(e.left) || this.promiseRejects(e.right);
    if (ts.isCallExpression(e)) {
      if (this.swallowed(e)) { const h = e.arguments[0]; return this.P.fnsOfExpr(h).some((f) => this.sum.get(f)); }
      if (ts.isPropertyAccessExpression(e.expression)) {
        const m = e.expression.name.text;
        if (m === "then" && e.arguments.length === 1 || m === "finally") return this.promiseRejects(e.expression.expression) || e.arguments.some((a) => this.P.fnsOfExpr(a).some((f) => this.sum.get(f)));
        if (m === "then") return e.arguments.some((a) => this.P.fnsOfExpr(a).some((f) => this.sum.get(f)));
        const x = this.P.externalName(e.expression);
        if (x === "lib:PromiseConstructor.allSettled" || x === "lib:PromiseConstructor.resolve") return false;
        if (x === "lib:PromiseConstructor.all" || x === "lib:PromiseConstructor.race") {
          const a = skip(e.arguments[0]);
          if (ts.isArrayLiteralExpression(a)) return a.elements.some((y) => this.promiseRejects(y));
          if (ts.isCallExpression(a)) { const cbs = a.arguments.flatMap((z) => this.P.fnsOfExpr(z)); if (cbs.length) return cbs.some((f) => this.sum.get(f)); }
          return true;
        }
      }
      return this.callThrows(e) || (!this.F.targets(e.expression).length && !this.P.externalName(e.expression));
    }
    if (ts.isNewExpression(e) && e.expression.getText() === "Promise") { // rejects iff the executor uses its 2nd parameter or throws
      const ex = e.arguments?.[0]; if (ex && isFn(ex)) return ex.parameters.length > 1 || this.sum.get(ex) === true;
      return true;
    }
    const d = this.P.declsOf(e)[0];
    if (d && ts.isVariableDeclaration(d) && d.initializer) return this.promiseRejects(d.initializer);
    if (!this.isPromise(e)) return false;
    return true;
  }
  #reach(fn) {
    const c = this.cfg(fn); const seen = new Set([c.entry]); const st = [c.entry];
    while (st.length) {
      const n = st.pop();
      if (n === c.throwExit) return true;
      for (const s of n.succ) if (!seen.has(s.to)) { seen.add(s.to); st.push(s.to); }
      if (n.exc && !seen.has(n.exc) && (n.kind === "throw" || n.kind === "rethrow" ? true : n.kind === "loop" || n.kind === "yield" ? true : this.nodeThrows(n.ast))) { seen.add(n.exc); st.push(n.exc); }
    }
    return false;
  }
  /** exceptional edge feasible? (rethrow only matters when reached) */
  excTaken(n) {
    if (!n.exc) return false;
    if (n.kind === "throw" || n.kind === "rethrow" || n.kind === "loop" || n.kind === "yield") return true;
    return this.nodeThrows(n.ast);
  }
  #solve() {
    const callersOf = new Map();
    for (const [a, bs] of this.P.callGraph) for (const b of bs) { if (!callersOf.has(b)) callersOf.set(b, new Set()); callersOf.get(b).add(a); }
    for (const f of this.P.functions) this.sum.set(f, false);
    let work = new Set(this.P.functions);
    let rounds = 0;
    while (work.size && rounds++ < 40) {
      const next = new Set();
      for (const f of work) {
        if (this.sum.get(f)) continue;
        if (this.#reach(f)) { this.sum.set(f, true); for (const c of callersOf.get(f) ?? []) if (isFn(c)) next.add(c); }
      }
      work = next;
      // dynamic targets are not in the call graph: re-run everything once per round while changing
      if (!work.size && rounds < 6) { const again = this.P.functions.filter((f) => !this.sum.get(f) && this.#reach(f)); for (const f of again) { this.sum.set(f, true); for (const c of callersOf.get(f) ?? []) if (isFn(c)) work.add(c); } }
    }
  }
}
