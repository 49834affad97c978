import { ts, K, isFn, skip, walk } from "../lib/program.mjs";
import { PageCtx } from "../lib/pagectx.mjs";
import { Feasible } from "../lib/paths.mjs";

export const rule = "Every promise that may reject (may-reject fixpoint over the resolved call graph) is awaited, returned, combined or given a rejection handler before the code that created it suspends on something else, throws or ends; an async function handed to a caller that ignores its result cannot reject; every child process, listening server, raw stream and piped stdin has an error listener.";
export const trusted = ["may-reject model of external APIs (lib/throws.mjs)"];
export const assumptions = ["Code evaluated inside the captured page is outside this process: its rejections surface through evaluate"];

export const fixtures = {
  "__verif_fixture_p09.ts": `
import { spawn } from "node:child_process";
import { createServer } from "node:http";
import { createWriteStream } from "node:fs";
import { readFile, writeFile } from "node:fs/promises";
export function floating(): void { readFile("x"); }
export function voided(): void { void readFile("x"); }
export function okVoided(): void { void readFile("x").catch(() => undefined); }
export async function lateAwait(): Promise<number> { const a = readFile("x"); const b = await readFile("y"); return (await a).length + b.length; }
export async function okTogether(): Promise<number> { const a = readFile("x"), c = readFile("y"); const [x, y] = await Promise.all([a, c]); return x.length + y.length; }
export async function serialAwait(xs: string[]): Promise<void> { const ps = xs.map(async (x) => await readFile(x)); for (const p of ps) await p; }
export function asyncListener(): void { process.on("SIGINT", async () => { await writeFile("x", "y"); }); }
export async function asyncForEach(xs: string[]): Promise<void> { xs.forEach(async (x) => { await writeFile(x, "y"); }); }
export function childNoError(): void { const c = spawn("x", []); c.on("exit", () => {}); }
export function okChild(): void { const c = spawn("x", [], { stdio: "ignore" }); c.on("error", () => {}); }
export function stdinNoError(): void { const c = spawn("x", [], { stdio: ["pipe", "ignore", "ignore"] }); c.on("error", () => {}); c.stdin?.write("y"); }
export function serverNoError(): void { const s = createServer(() => {}); s.listen(0, "127.0.0.1"); }
export function streamNoError(): void { const s = createWriteStream("x"); s.write("y"); s.end(); }
`,
};

export function run(ctx) {
  const { P, F, T } = ctx; const C = new PageCtx(P, F);
  const host = (n) => !C.inPage(n) && !C.pageFiles.has(n.getSourceFile()) && !/\/(client|region-overlay)\b/.test(n.getSourceFile().fileName) && !n.getSourceFile().fileName.includes(".generated.");
  const COMB = /^lib:PromiseConstructor\.(all|allSettled|race|any)$/;
  const isCombCall = (c) => ts.isCallExpression(c) && COMB.test(P.externalName(c.expression) ?? "");
  const cnt = (n, k) => { if (!ctx.isFixture(n)) ctx.count(k); };
  const climb = (e) => { let c = e, p = e.parent; for (;;) { if (ts.isParenthesizedExpression(p) || ts.isAsExpression(p) || ts.isNonNullExpression(p) || ts.isSatisfiesExpression(p) || (ts.isConditionalExpression(p) && p.condition !== c) || (ts.isBinaryExpression(p) && (p.right === c && [K.AmpersandAmpersandToken, K.BarBarToken, K.QuestionQuestionToken, K.CommaToken].includes(p.operatorToken.kind) || p.left === c && [K.BarBarToken, K.QuestionQuestionToken].includes(p.operatorToken.kind)))) { c = p; p = p.parent; } else return [c, p]; } };
  const elemRejects = (e) => { // array of promises produced by map(async …)
    e = skip(e); if (!ts.isCallExpression(e) || !ts.isPropertyAccessExpression(skip(e.expression)) || !["map", "from"].includes(skip(e.expression).name.text)) return false;
    return e.arguments.some((a) => P.fnsOfExpr(a).some((f) => (f.modifiers?.some((m) => m.kind === K.AsyncKeyword) || F.returnsOf(f).some((r) => T.isPromise(r) && T.promiseRejects(r))) && T.sum.get(f)));
  };
  for (const c of P.calls) {
    if (!(ts.isCallExpression(c) || ts.isNewExpression(c)) || !host(c)) continue;
    const one = T.isPromise(c), many = !one && elemRejects(c); if (!one && !many) continue;
    if (one && !T.promiseRejects(c)) { cnt(c, "promises that cannot reject"); continue; }
    cnt(c, "promises that may reject");
    const fn = P.enclosingFn(c); const key = `${P.fnId(fn)}|${P.text(c.expression, 40)}`;
    const [top, p] = climb(c);
    if (ts.isExpressionStatement(p) || ts.isVoidExpression(p) || (ts.isBinaryExpression(p) && p.operatorToken.kind === K.CommaToken && p.left === top)) {
      ctx.oblige(false, c, "floating", key, `the result of \`${P.text(c, 60)}\` can reject and nothing handles it`); continue; }
    if (many && ts.isForOfStatement(p)) { ctx.oblige(!!p.awaitModifier, c, "serial", key, "concurrently started promises are awaited one after another: a later one that rejects first is unhandled"); continue; }
    if (ts.isVariableDeclaration(p) && ts.isIdentifier(p.name) || ts.isBinaryExpression(p) && p.operatorToken.kind === K.EqualsToken && ts.isIdentifier(skip(p.left))) {
      const v = ts.isVariableDeclaration(p) ? p : P.declsOf(skip(p.left))[0];
      if (v && ts.isVariableDeclaration(v) && P.enclosingFn(v) === fn && fn) { ctx.oblige(...pending(c, p, v, fn, many, key)); continue; }
    }
    ctx.oblige(true, c, "handled", key, "");
  }
  /** from creation, the first thing that happens to v must be its hand-over */
  function pending(c, at, v, fn, many, key) {
    const uses = (n) => { let hit = false; walk(n, (q) => { if (ts.isIdentifier(q) && q !== v.name && P.declsOf(q).includes(v)) hit = true; }); return hit; };
    const fe = new Feasible(P, T, fn); let bad = null, how = null;
    fe.explore("-", (n, aux) => {
      if ((n.kind === "decl" && n.ast === at) || (n.kind === "assign" && n.ast === at)) return "A";
      if (aux !== "A") return aux;
      if (n.kind === "ident" && P.declsOf(n.ast).includes(v)) {
        let x = n.ast, q = x.parent; [x, q] = climb(x);
        if (ts.isPropertyAccessExpression(q)) { const call = q.parent; if (many && q.name.text === "push") return aux; if (!many && q.name.text === "catch") return "H"; if (!many && ["then", "finally"].includes(q.name.text) && ts.isCallExpression(call)) return "H"; }
        if (many && ts.isForOfStatement(q)) { let awaited = false; walk(q.statement, (z) => { if (ts.isAwaitExpression(z)) awaited = true; }); if (awaited) { bad = q; how = "its elements are awaited one after another, so a later one that rejects first is unhandled"; } return "H"; }
        if (ts.isBinaryExpression(q) && [K.EqualsEqualsToken, K.EqualsEqualsEqualsToken, K.ExclamationEqualsToken, K.ExclamationEqualsEqualsToken].includes(q.operatorToken.kind)) return aux;
        if (n.ast.parent && ts.isExpressionStatement(n.ast.parent)) return aux;
        return "H";
      }
      if (n.kind === "closure" && uses(n.ast)) return "H";
      if (n.kind === "await") { let x = skip(n.ast.expression); if (uses(x)) return "H"; bad ??= n.ast; how ??= `the function suspends at ${P.loc(n.ast)} before anything handles it`; return "H"; }
      if (n.kind === "loop" && ts.isForOfStatement(n.ast ?? {}) && n.ast.awaitModifier) return aux;
      return aux;
    }, (kind, aux, rec) => { if (aux === "A" && !bad) { bad = rec.n; how = kind === "exception" ? "a failure in between abandons it" : "it is never handled"; } });
    return [!bad, c, "pending", key, `\`${P.text(c, 60)}\` can reject while it is only held in ${v.name.getText()}: ${how}`];
  }
  // async functions in places that ignore the result
  const retIsVoid = (t) => { const sigs = (t?.isUnion?.() ? t.types : t ? [t] : []).flatMap((u) => u.getCallSignatures?.() ?? []); if (!sigs.length) return null; return sigs.every((s) => { const r = P.checker.getReturnTypeOfSignature(s); return !!(r.flags & (ts.TypeFlags.Void | ts.TypeFlags.Undefined)); }); };
  const rejectsAsync = (f) => (f.modifiers?.some((m) => m.kind === K.AsyncKeyword)) && T.sum.get(f);
  const checkFnRef = (e, fnode) => { // expression denoting a function, in an argument or property position
    const t = P.checker.getContextualType(e); if (!t) return; const v = retIsVoid(t); if (v !== true) return;
    for (const f of P.fnsOfExpr(e)) {
      if (!host(f)) continue;
      const promising = f.modifiers?.some((m) => m.kind === K.AsyncKeyword) || (!ts.isBlock(f.body) && T.isPromise(f.body)) || F.returnsOf(f).some((r) => T.isPromise(r));
      if (!promising) continue; cnt(e, "async functions whose result is ignored");
      const bad = rejectsAsync(f) || (!f.modifiers?.some((m) => m.kind === K.AsyncKeyword) && F.returnsOf(f).some((r) => T.isPromise(r) && T.promiseRejects(r)));
      ctx.oblige(!bad, e, "ignored-async", `${P.fnId(P.enclosingFn(e))}|${P.text(fnode, 40)}`, "an async function that may reject is passed where its result is ignored");
    }
  };
  for (const c of P.calls) { if (!(ts.isCallExpression(c) || ts.isNewExpression(c)) || !host(c)) continue; if (C.sites.some((s) => s.call === c)) continue; for (const a of c.arguments ?? []) { const e = skip(a); if (isFn(e) || ts.isIdentifier(e) || ts.isPropertyAccessExpression(e)) checkFnRef(e, c.expression); else if (ts.isObjectLiteralExpression(e)) for (const p of e.properties) if (ts.isPropertyAssignment(p)) checkFnRef(skip(p.initializer), p.name); } }
  // emitters
  const hasListener = (decls, sub, evs) => P.calls.some((k) => { if (!ts.isCallExpression(k)) return false; const e = skip(k.expression); if (!ts.isPropertyAccessExpression(e) || !["on", "once", "addListener"].includes(e.name.text)) return false; const ev = k.arguments[0] && skip(k.arguments[0]); if (!ev || !ts.isStringLiteralLike(ev) || !evs.includes(ev.text)) return false; return refersTo(e.expression, decls, sub); });
  function refersTo(r, decls, sub) { r = skip(r); while (ts.isCallExpression(r) && ts.isPropertyAccessExpression(skip(r.expression)) && ["on", "once"].includes(skip(r.expression).name.text)) r = skip(skip(r.expression).expression); if (sub) { if (ts.isPropertyAccessExpression(r) && r.name.text === sub) r = skip(r.expression); else { if (ts.isIdentifier(r)) for (const d of P.declsOf(r)) if (ts.isVariableDeclaration(d) && d.initializer && refersTo(d.initializer, decls, sub)) return true; return false; } }
    return P.declsOf(r).some((d) => decls.has(d)); }
  const aliases = (decl) => { // variables/params/fields the value flows into
    const out = new Set([decl]); const st = [decl];
    while (st.length) { const d = st.pop();
      for (const [to, ws] of F.writes) for (const w of ws) { if (!w.expr || out.has(to)) continue; const x = skip(w.expr); if ((ts.isIdentifier(x) || ts.isPropertyAccessExpression(x)) && P.declsOf(x).includes(d)) { out.add(to); st.push(to); } }
      for (const c of P.calls) (c.arguments ?? []).forEach((a, i) => { const x = skip(a); if (ts.isIdentifier(x) && P.declsOf(x).includes(d)) for (const g of P.callees(c)) { const prm = g.parameters[i]; if (prm && !out.has(prm)) { out.add(prm); st.push(prm); } } });
    }
    return out;
  };
  const bindOf = (c) => { let [x, p] = climb(c); if (ts.isAwaitExpression(p)) [x, p] = climb(p); if (ts.isVariableDeclaration(p) && ts.isIdentifier(p.name)) return p; if (ts.isBinaryExpression(p) && p.operatorToken.kind === K.EqualsToken) return P.declsOf(skip(p.left))[0] ?? null; return null; };
  const chained = (c, evs) => { let p = c.parent, x = c; while (ts.isPropertyAccessExpression(p) && ts.isCallExpression(p.parent)) { if (["on", "once"].includes(p.name.text) && p.parent.arguments[0] && evs.includes(skip(p.parent.arguments[0]).text)) return true; x = p.parent; p = x.parent; } return false; };
  const returnedOnly = (c) => { const [, p] = climb(c); return ts.isReturnStatement(p) || ts.isArrowFunction(p); };
  for (const c of P.calls) {
    if (!(ts.isCallExpression(c) || ts.isNewExpression(c)) || !host(c)) continue;
    const x = P.externalName(c.expression) ?? ""; const key = `${P.fnId(P.enclosingFn(c))}|${P.text(c.expression, 30)}`;
    if (/^child_process:(spawn|fork)$/.test(x)) {
      cnt(c, "emitters"); const d = bindOf(c); const al = d ? aliases(d) : null;
      if (!d && returnedOnly(c)) { ctx.oblige(true, c, "child", key, ""); continue; }
      ctx.oblige(chained(c, ["error"]) || (al && hasListener(al, null, ["error"])), c, "child-error", key, "a child process that fails to start emits 'error'; nothing listens for it");
      if (al) { const wr = P.calls.find((k) => ts.isCallExpression(k) && ts.isPropertyAccessExpression(skip(k.expression)) && (["write", "end"].includes(skip(k.expression).name.text) && refersTo(skip(k.expression).expression, al, "stdin"))); if (wr) { cnt(c, "emitters"); ctx.oblige(hasListener(al, "stdin", ["error"]), wr, "stdin-error", key, "the child's stdin is written but a broken pipe emits 'error' on it and nothing listens"); } }
    } else if (/^(http|https|net):createServer$/.test(x) || /^https?:(request|get)$/.test(x) || /^fs:create(Read|Write)Stream$/.test(x) || x === "worker_threads:Worker") {
      cnt(c, "emitters"); const d = bindOf(c); if (!d && returnedOnly(c)) { ctx.oblige(true, c, "emitter", key, ""); continue; }
      let al = d ? aliases(d) : null; const pl = al && P.calls.some((k) => ts.isCallExpression(k) && /^stream(\/promises)?:pipeline$/.test(P.externalName(k.expression) ?? "") && k.arguments.some((a) => P.declsOf(skip(a)).some((q) => al.has(q))));
      const [, pp] = climb(c); const inPipeline = ts.isCallExpression(pp) && /^stream(\/promises)?:pipeline$/.test(P.externalName(pp.expression) ?? "");
      ctx.oblige(inPipeline || pl || chained(c, ["error"]) || (al && hasListener(al, null, ["error"])), c, "emitter-error", key, `${x.split(":")[1]} can emit 'error'; nothing listens for it`);
    }
  }
  ctx.floor("promises that may reject", 300); ctx.floor("emitters", 5);
  ctx.expectFixture("#floating", "#voided", "lateAwait", "serialAwait", "asyncListener", "asyncForEach", "childNoError", "stdinNoError", "serverNoError", "streamNoError");
  for (const h of ctx.fixtureHits) if (/#ok/.test(h)) ctx.anchor(false, "negative example reported: " + h);
}
