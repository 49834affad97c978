import { ts, K, isFn, skip, walk } from "../lib/program.mjs";
import { PageCtx } from "../lib/pagectx.mjs";
import { Feasible } from "../lib/paths.mjs";

export const rule = "Typestate over a path-sensitive CFG with exceptional edges: from every acquisition (browser, context, page, CDP session, in-page probe handle, child process, temporary directory, file descriptor, local server, terminal emulator, timer, raw terminal mode, paired listener) every path to a normal or exceptional function exit passes a release, hands the value to its caller, or stores it with an owner that is itself released.";
export const trusted = ["may-throw model of external APIs (lib/throws.mjs)", "closing a browser/context releases the pages and sessions created from it"];
export const assumptions = ["process termination by signal or process.exit reclaims everything except files on disk"];

export const fixtures = {
  "__verif_fixture_p07.ts": `
import type { Browser, Page } from "@playwright/test";
import { mkdtempSync, rmSync, readFileSync } from "node:fs";
export async function leakyContext(browser: Browser): Promise<string> { const ctx = await browser.newContext(); const page = await ctx.newPage(); const t = await page.title(); await ctx.close(); return t; }
export async function okContext(browser: Browser): Promise<string> { const ctx = await browser.newContext(); try { const page = await ctx.newPage(); return await page.title(); } finally { await ctx.close(); } }
export function leakyTmp(): string { const d = mkdtempSync("x"); const s = readFileSync(d + "/a", "utf8"); rmSync(d, { recursive: true }); return s; }
export async function leakyTimer(p: Promise<number>): Promise<number> { const t = setTimeout(() => {}, 1000); const r = await p; clearTimeout(t); return r; }
export async function leakySession(page: Page): Promise<void> { const s = await page.context().newCDPSession(page); await s.send("DOM.enable"); await s.detach(); }
`,
};

export function run(ctx) {
  const { P, F, T, R } = ctx; const C = new PageCtx(P, F);
  for (const c of P.calls) {
    if (C.inPage(c) || C.pageFiles.has(c.getSourceFile()) || /\/(review|scrubber)\/(client|region-overlay)/.test(c.getSourceFile().fileName) || c.getSourceFile().fileName.includes(".generated.")) continue;
    const r = R.acquires(c); if (!r) continue;
    const fn = P.enclosingFn(c); const fx = ctx.isFixture(c);
    const key = `${P.fnId(fn)}|${r.kind}`;
    if (!fx) ctx.count(r.kind.replace(/ handle$/, ""));
    if (!fx) ctx.count("acquisitions");
    const b = R.binding(c);
    if (r.kind === "timer") { // only a timer whose handle is kept bounds something and must be cleared
      if (!b.decl) { raceTimer(c, fn, key); continue; }
      if (P.enclosingFn(b.decl) !== fn) { ctx.oblige(releasedSomewhere(b.decl, r), c, "never-released", key, "timer handle is stored but never cleared"); continue; }
    } else {
      const own = R.ownedBy(c, fn);
      const fieldOwner = ownerField(c);
      if (fieldOwner) { if (!fx) ctx.count("released with their owner"); ctx.oblige(fieldReleased(null, [fieldOwner]), c, "owned", key, "the owner of this resource is itself never released"); continue; }
      if (own) { if (!fx) ctx.count("released with their owner"); ctx.oblige(true, c, "owned", key, ""); continue; }
      disposer(c, fn, r, b, key);
      if (r.kind === "server") { ctx.oblige(!!b.decl, c, "discarded", key, "server is not bound to anything that could close it"); continue; } // until it listens there is nothing to release
      if (b.escape) {
        if (/^stored in this\./.test(b.escape)) ctx.oblige(fieldReleased(c), c, "never-released", key, `${r.kind} is ${b.escape} and no method releases that field`);
        else ctx.oblige(true, c, "handed-over", key, "");
        continue;
      }
      if (!b.decl) { if (b.passed && P.callees(b.passed).length) { ctx.oblige(true, c, "handed-over", key, ""); continue; } ctx.oblige(!!b.chained && !["rm", "closeSync", "child"].includes(r.rel) && releasedByOwnerChain(b.chained), c, "discarded", key, `${r.kind} acquired here is not bound to anything that could release it`); continue; }
      if (P.enclosingFn(b.decl) !== fn) { ctx.oblige(releasedSomewhere(b.decl, r), c, "never-released", key, `${r.kind} is kept in an outer variable that nothing releases`); continue; }
      if (b.decl && !P.enclosingFn(b.decl)) continue;
    }
    if (r.rel === "child") kept(b.decl, fn, c, key);
    const l = R.leak(c, fn, r, b);
    ctx.oblige(!l, c, "leak", key, l ? `${r.kind} acquired in ${P.fnName(fn)} is not released on the ${l.exit} path${l.via ? ` through ${P.loc(l.via)} \`${P.text(l.via, 60)}\`` : ""}` : "");
  }
  /** a handle that is returned with a way to dispose of it releases on every path what it was made around */
  function disposer(c, fn, r, b, key) {
    const d = b.decl; if (!d || !fn || !["server", "CDPSession", "Browser", "BrowserContext", "Page", "LocalServer", "Terminal", "file descriptor", "child process"].includes(r.kind)) return;
    for (const e0 of F.returnsOf(fn)) {
      let e = skip(e0); if (ts.isIdentifier(e)) { const q = P.declsOf(e)[0]; if (q && ts.isVariableDeclaration(q) && q.initializer) e = skip(q.initializer); }
      if (!ts.isObjectLiteralExpression(e) || !R.mentions(e, d)) continue;
      const ms = e.properties.filter((q) => q.name && /^(dispose|detach|close|stop|kill)$/.test(q.name.getText())).map((q) => ts.isMethodDeclaration(q) ? q : ts.isPropertyAssignment(q) && isFn(skip(q.initializer)) ? skip(q.initializer) : null);
      if (!ms.length || ms.some((m) => !m)) continue;
      if (!ctx.isFixture(c)) ctx.count("handles returned with a disposer");
      let why = "no disposer releases it";
      const ok = ms.some((m) => {
        let any = null; walk(m.body, (n) => { if (!any && (ts.isCallExpression(n) || ts.isNewExpression(n)) && R.releases(n, d, r)) any = n; });
        if (!any) return false; if (!ts.isBlock(m.body) || P.enclosingFn(any) !== m) return true;
        const fe = new Feasible(P, T, m); let bad = null; const guards = R.guardsFor(c, m);
        fe.explore("A", (n, aux) => aux === "A" && n.ast && (n.kind === "call" || n.kind === "optional") && R.releases(n.ast, d, r) ? "R" : aux, (kind, aux) => { if (aux === "A") bad = kind; }, { edge: (s2, aux) => aux !== "A" || !R.edgeDead(s2, d, null, guards) });
        if (bad) why = `its disposer ends on the ${bad} path without releasing it`;
        return !bad;
      });
      ctx.oblige(ok, c, "disposer", key, `${r.kind} acquired here is handed to the caller inside a handle, and ${why}`);
    }
  }
  /** a child process kept for later calls: killed when this process ends, and before it is forgotten */
  function kept(d, fn, c, key) {
    const owners = new Set(); walk(fn.body, (n) => { if (ts.isBinaryExpression(n) && n.operatorToken.kind === K.EqualsToken && ts.isIdentifier(skip(n.right)) && P.declsOf(skip(n.right)).includes(d)) for (const q of P.declsOf(skip(n.left))) if (ts.isVariableDeclaration(q) && !P.enclosingFn(q)) owners.add(q); });
    for (const o of owners) {
      if (!ctx.isFixture(c)) ctx.count("child processes kept for later");
      const kills = (f) => { let hit = false; walk(f.body ?? f, (n) => { if (ts.isCallExpression(n) && ts.isPropertyAccessExpression(skip(n.expression)) && skip(n.expression).name.text === "kill" && P.declsOf(skip(skip(n.expression).expression)).includes(o)) hit = true; }); return hit; };
      const atExit = P.calls.some((k) => { const e = skip(k.expression); return ts.isPropertyAccessExpression(e) && /^(on|once|addListener)$/.test(e.name.text) && k.arguments?.[0] && ts.isStringLiteralLike(skip(k.arguments[0])) && skip(k.arguments[0]).text === "exit" && e.expression.getText() === "process" && k.arguments[1] && P.fnsOfExpr(k.arguments[1]).some(kills); });
      ctx.oblige(atExit, c, "exit-hook", `${key}|${o.name.getText()}`, `the child process kept in ${o.name.getText()} is not killed when this process exits`);
      for (const f of P.functions) {
        if (f.getSourceFile() !== o.getSourceFile() || !f.body) continue; const sets = [];
        walk(f.body, (n) => { if (isFn(n)) return false; if (ts.isBinaryExpression(n) && n.operatorToken.kind === K.EqualsToken && P.declsOf(skip(n.left)).includes(o) && (skip(n.right).kind === K.NullKeyword || skip(n.right).getText() === "undefined")) sets.push(n); });
        if (!sets.length) continue;
        const par = f.parent; // a listener on the child's own end or failure
        if (ts.isCallExpression(par) && par.arguments.includes(f) && par.arguments[0] && ts.isStringLiteralLike(skip(par.arguments[0])) && /^(exit|close|error)$/.test(skip(par.arguments[0]).text)) continue;
        if (!ctx.isFixture(c)) ctx.count("places that forget a kept child");
        const fe = new Feasible(P, T, f); let bad = null;
        fe.explore("A", (n, aux) => { if (aux === "A" && n.ast && (n.kind === "call" || n.kind === "optional") && ts.isCallExpression(n.ast) && ts.isPropertyAccessExpression(skip(n.ast.expression)) && skip(n.ast.expression).name.text === "kill" && P.declsOf(skip(skip(n.ast.expression).expression)).includes(o)) return "R"; if (aux === "A" && n.kind === "assign" && sets.includes(n.ast)) bad = n.ast; return aux; }, () => {}, { edge: (s2, aux) => aux !== "A" || !R.edgeDead(s2, o, null, null) });
        ctx.oblige(!bad, bad ?? sets[0], "forgotten", `${P.fnId(f)}|${o.name.getText()}`, `the child process kept in ${o.name.getText()} is forgotten without being killed`);
      }
    }
  }
  function releasedByOwnerChain() { return false; }
  function releasedSomewhere(decl, r) { return P.calls.some((k) => R.releases(k, decl, r)); }
  /** receiver is a field of the same object that itself holds an acquired resource */
  function ownerField(call) {
    let r = skip(call.expression); if (!ts.isPropertyAccessExpression(r)) return null; r = skip(r.expression);
    while (ts.isCallExpression(r) && ts.isPropertyAccessExpression(r.expression)) r = skip(r.expression.expression);
    if (!(ts.isPropertyAccessExpression(r) && r.expression.kind === K.ThisKeyword)) return null;
    for (const d of P.declsOf(r)) for (const w of F.writes.get(d) ?? []) if (w.expr) { let x = skip(w.expr); if (ts.isAwaitExpression(x)) x = skip(x.expression); if (ts.isCallExpression(x) && R.acquires(x)) { const up = ownerField(x); return up ?? d; } }
    return null;
  }
  function fieldReleased(call, given) {
    let decls = given;
    if (!decls) { let p = call.parent; while (p && !(ts.isBinaryExpression(p) && p.operatorToken.kind === K.EqualsToken)) p = p.parent; decls = P.declsOf(skip(p.left)); }
    return P.calls.some((k) => { const e = skip(k.expression ?? k.tag); return ts.isPropertyAccessExpression(e) && ["close", "dispose", "detach", "stop", "kill"].includes(e.name.text) && P.declsOf(skip(e.expression)).some((d) => decls.includes(d)); });
  }
  // a host timer that loses a race keeps the process alive until it fires
  function raceTimer(c, fn, key) {
    let p = c.parent, inRace = false; while (p) { if (ts.isCallExpression(p) && P.externalName(p.expression) === "lib:PromiseConstructor.race") inRace = true; p = p.parent; }
    ctx.oblige(!inRace, c, "race-timer", key, "timer inside Promise.race can never be cleared; it outlives the race");
  }

  // partial failure of a concurrent acquisition: the partner that succeeded is orphaned
  for (const c of P.calls) {
    if (!ts.isCallExpression(c) || P.externalName(c.expression) !== "lib:PromiseConstructor.all") continue;
    const a = c.arguments[0] && skip(c.arguments[0]); if (!a || !ts.isArrayLiteralExpression(a)) continue;
    const acq = a.elements.filter((e) => { const x = skip(e); return (ts.isCallExpression(x)) && R.acquires(x); });
    if (!acq.length) continue;
    ctx.count("concurrent acquisitions");
    const rejecting = a.elements.filter((e) => T.promiseRejects(e));
    const bad = rejecting.some((r) => acq.some((q) => q !== r));
    ctx.oblige(!bad, c, "partial-acquire", `${P.fnId(P.enclosingFn(c))}|Promise.all`, `if ${rejecting.map((r) => P.text(r, 40)).join(" or ")} rejects, what its partner in this Promise.all acquired is never released`);
  }

  // terminal raw mode: switched on => switched back on every exit
  for (const c of P.calls) {
    if (!ts.isCallExpression(c)) continue; const e = skip(c.expression);
    if (!(ts.isPropertyAccessExpression(e) && e.name.text === "setRawMode" && c.arguments[0]?.kind === K.TrueKeyword)) continue;
    const fn = P.enclosingFn(c); ctx.count("raw terminal mode"); ctx.count("acquisitions");
    pairOnAllPaths(c, fn, (n) => ts.isCallExpression(n) && ts.isPropertyAccessExpression(skip(n.expression)) && skip(n.expression).name.text === "setRawMode" && n.arguments[0]?.kind !== K.TrueKeyword, "raw terminal mode");
  }
  // listener registered on a longer-lived emitter and removed in the same function
  for (const c of P.calls) {
    if (!ts.isCallExpression(c) || C.inPage(c) || C.pageFiles.has(c.getSourceFile())) continue; const e = skip(c.expression);
    if (!(ts.isPropertyAccessExpression(e) && ["on", "addListener"].includes(e.name.text) && c.arguments.length === 2)) continue;
    const fn = P.enclosingFn(c); if (!fn || !ts.isIdentifier(skip(c.arguments[1]))) continue;
    const et = P.type(e.expression); const en = (et.isUnion?.() ? et.types : [et]).concat(et.types ?? []).map((t) => t.symbol?.name);
    if (!en.some((x) => ["Page", "BrowserContext", "Browser", "Process", "ReadStream", "WriteStream"].includes(x))) continue; // the emitter dies with this operation
    const h = P.declsOf(skip(c.arguments[1]))[0]; if (!h || P.enclosingFn(h) !== fn) continue;
    const isOff = (n) => ts.isCallExpression(n) && ts.isPropertyAccessExpression(skip(n.expression)) && ["off", "removeListener"].includes(skip(n.expression).name.text) && n.arguments[1] && P.declsOf(skip(n.arguments[1])).includes(h);
    ctx.count("listeners"); ctx.count("acquisitions");
    // some release must exist; in this function: on all paths; in a returned closure: handed over
    let off = []; walk(fn.body, (n) => { if (isOff(n)) off.push(n); });
    if (!off.length) { ctx.oblige(false, c, "listener", `${P.fnId(fn)}|${P.text(c.arguments[0], 30)}`, "listener registered on a longer-lived emitter is never removed"); continue; }
    if (off.every((o) => P.enclosingFn(o) !== fn)) { ctx.oblige(true, c, "listener", `${P.fnId(fn)}|${P.text(c.arguments[0], 30)}`, ""); continue; }
    pairOnAllPaths(c, fn, isOff, `listener ${P.text(c.arguments[0], 30)}`);
  }
  function pairOnAllPaths(acq, fn, isRelease, what) {
    const guards = R.guardsFor(acq, fn); const fe = new Feasible(P, T, fn); let bad = null, started = false;
    fe.explore("-", (n, aux) => { if (n.ast === acq && (n.kind === "call")) { started = true; return "A"; } if (aux === "A" && n.ast && (n.kind === "call" || n.kind === "optional") && isRelease(n.ast)) return "R"; return aux; },
      (kind, aux) => { if (aux === "A") bad = kind; },
      { edge: (s, aux) => aux !== "A" || !R.edgeDead(s, acq, null, guards) });
    ctx.oblige(started && !bad, acq, "pair", `${P.fnId(fn)}|${what}`, `${what} set here is not undone on the ${bad} path`);
  }
  ctx.floor("acquisitions", 60); ctx.floor("CDPSession", 10); ctx.floor("BrowserContext", 8); ctx.floor("Browser", 8); ctx.floor("Page", 8); ctx.floor("child process", 3); ctx.floor("temporary directory", 3);
  ctx.expectFixture("leakyContext", "leakyTmp", "leakyTimer", "leakySession");
  for (const h of ctx.fixtureHits) if (h.includes("okContext")) ctx.anchor(false, "negative example reported: " + h);
}
