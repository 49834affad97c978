import { ts, K, isFn, skip, walk } from "../lib/program.mjs";
import { PageCtx } from "../lib/pagectx.mjs";
import { PageMut } from "../lib/pagemut.mjs";
import { Feasible } from "../lib/paths.mjs";

export const rule = "Typestate on markers: every change a capture pass makes inside the captured page (marker attribute, global registry, injected style/node, inline style override, paused animation clock) is identified by a key; on every normal and exceptional path of the exported pass the change is undone, or handed to the caller as a disposer that the caller runs on all its paths. In-page: an inline style is overridden only after its value and priority were saved, and is restored with both; nodes the bundled walk attaches are detached again.";
export const trusted = ["may-throw model of external APIs (lib/throws.mjs)", "an in-page undo routine undoes what it names"];
export const assumptions = ["Author-requested page changes (CLI actions, brand variables, injected web fonts, inlined external references) are part of the captured page, not capture instrumentation"];

export const fixtures = {
  "capture/__verif_fixture_p08.ts": `
import type { Page, CDPSession } from "@playwright/test";
export async function leakyMark(page: Page): Promise<string> {
  await page.evaluate(() => { document.body.setAttribute("data-domotion-fixture-mark", "1"); });
  const t = await page.title();
  await page.evaluate(() => { document.body.removeAttribute("data-domotion-fixture-mark"); });
  return t;
}
export async function okMark(page: Page): Promise<string> {
  await page.evaluate(() => { document.body.setAttribute("data-domotion-fixture-ok", "1"); });
  try { return await page.title(); } finally { await page.evaluate(() => { document.body.removeAttribute("data-domotion-fixture-ok"); }).catch(() => undefined); }
}
export async function leakyStyleTag(page: Page): Promise<string> {
  const h = await page.addStyleTag({ content: "*{caret-color:transparent}" });
  const t = await page.title();
  await h.evaluate((n) => (n as Element).remove());
  return t;
}
export async function unsavedStyle(page: Page): Promise<void> {
  const stateKey = "__domotionFixtureState";
  await page.evaluate((stateKey) => { (globalThis as unknown as Record<string, unknown>)[stateKey] = []; document.body.style.setProperty("visibility", "hidden", "important"); }, stateKey);
  await page.evaluate((stateKey) => { document.body.style.removeProperty("visibility"); delete (globalThis as unknown as Record<string, unknown>)[stateKey]; }, stateKey);
}
export async function wrongOrder(page: Page): Promise<void> {
  const stateKey = "__domotionFixtureOrder";
  type Saved = Array<{ el: HTMLElement; p: string; v: string; q: string }>;
  await page.evaluate((stateKey) => {
    const saved: Saved = []; (globalThis as unknown as Record<string, Saved>)[stateKey] = saved; const el = document.body;
    for (const p of ["mask", "-webkit-mask"]) { saved.push({ el, p, v: el.style.getPropertyValue(p), q: el.style.getPropertyPriority(p) }); el.style.setProperty(p, "none", "important"); }
  }, stateKey);
  await page.evaluate((stateKey) => { const g = globalThis as unknown as Record<string, Saved>; for (const s of g[stateKey] ?? []) s.el.style.setProperty(s.p, s.v, s.q); delete g[stateKey]; }, stateKey);
}
export async function leakyClock(client: CDPSession, page: Page): Promise<string> {
  await client.send("Animation.setPlaybackRate", { playbackRate: 0 });
  const t = await page.title();
  await client.send("Animation.setPlaybackRate", { playbackRate: 1 });
  return t;
}
`,
};

// Pages changes that are the purpose of the call rather than instrumentation.
const AUTHOR = new Map([
  ["injectBrandVariables", "sets the brand's custom properties on the page being captured, as asked"],
  ["discoverAndRegisterWebfonts", "loads the page's own stylesheets' fonts; nothing remains attached"],
  ["inlineExternalSvgRefs", "rewrites external fragment references to inlined copies before capture, documented as part of the capture"],
]);
export const keepFns = new Set(AUTHOR.keys()); // stay functions of their own

export function run(ctx) {
  const { P, F, T } = ctx; const C = new PageCtx(P, F); const M = new PageMut(P, F, C, T);
  const inScope = (n) => /\/src\/capture\//.test(n.getSourceFile().fileName);
  const exported = (f) => { let d = f; if (ts.isArrowFunction(f) || ts.isFunctionExpression(f)) d = f.parent; while (d && !ts.isSourceFile(d)) { if (isFn(d) && d !== f) return false; if (ts.canHaveModifiers?.(d) && (ts.getModifiers(d) ?? []).some((m) => m.kind === K.ExportKeyword)) return true; d = d.parent; } return ts.isMethodDeclaration(f); };
  const callIdx = new Map(); for (const c of P.calls) for (const g of P.callees(c)) (callIdx.get(g) ?? callIdx.set(g, []).get(g)).push(c);
  const callersOf = (f) => callIdx.get(f) ?? [];
  const authored = (fn) => { let f = fn; while (f && P.enclosingFn(f)) f = P.enclosingFn(f); if (!f) return false; if (AUTHOR.has(P.fnName(f))) return true; if (exported(f)) return false; const cs = callersOf(f); return cs.length > 0 && cs.every((c) => authored(P.enclosingFn(c))); };

  // A. change sites have an identity, and pair up along every path
  for (const s of C.sites) {
    if (!inScope(s.call)) continue; const d = M.direct(s.call); if (!d) continue; const fx = ctx.isFixture(s.call);
    if (!fx) { if (d.do.size || d.mode || d.unkeyed) ctx.count("page-changing evaluations"); if (d.undo.size) ctx.count("restoring evaluations"); }
    if (d.unkeyed) ctx.oblige(authored(P.enclosingFn(s.call)), s.call, "unidentified", P.fnId(P.enclosingFn(s.call)), "changes the captured page without a marker or registry through which it could be undone");
  }
  for (const c of P.calls) if (inScope(c) && M.isWalkSite(c)) { ctx.count("capture walk evaluations"); ctx.count("page-changing evaluations"); }
  const label = (k) => typeof k === "string" ? k.slice(2) : k.d.name?.getText?.() ?? "handle";
  for (const f of P.functions) {
    if (!f.body || !inScope(f) || C.inPage(f) || C.pageFiles.has(f.getSourceFile())) continue;
    if (!exported(f) && (callersOf(f).length || !ts.isFunctionDeclaration(f))) continue;
    const s = M.summary(f); let n = 0;
    for (const m of [s.leakN, s.leakX]) for (const [k, v] of m) { n++; const src = s.src.get(k) ?? f; const via = s.via?.get(k);
      if (authored(P.enclosingFn(src) ?? f)) { ctx.oblige(true, src, "author", P.fnId(f), ""); continue; }
      ctx.oblige(false, src, "not-restored", `${P.fnId(f)}|${typeof v === "string" ? k : label(v)}`, `page change identified by ${label(v)} made here is still in place on a path out of ${P.fnName(f)}${via ? ` (${via[0]}${via[1] ? ` after ${P.loc(via[1])} \`${P.text(via[1], 60)}\`` : ""})` : ""}`); }
    if (!n && [...f.body.statements ?? []].length) { let any = false; walk(f.body, (q) => { if (ts.isCallExpression(q)) { const ev = M.events(q); if (ev.directDo.size || ev.leakN.size || ev.undo.size) any = true; } }); if (any) { ctx.oblige(true, f, "restored", P.fnId(f), ""); if (!ctx.isFixture(f)) ctx.count("passes that change and restore"); } }
  }

  // B. inline style overrides save value and priority first; restores use both
  const strVals = (e, fn, depth = 0) => { // literal property names an expression can denote; "*d<pos>" = same dynamic value
    e = skip(e); const out = new Set(); if (depth > 4) return out;
    if (ts.isStringLiteralLike(e)) { out.add(e.text); return out; }
    if (ts.isConditionalExpression(e)) { for (const x of [e.whenTrue, e.whenFalse]) for (const v of strVals(x, fn, depth + 1)) out.add(v); return out; }
    if (ts.isIdentifier(e)) for (const d of P.declsOf(e)) {
      out.add("*" + d.getSourceFile().fileName + d.pos);
      if (ts.isVariableDeclaration(d) && d.initializer) for (const v of strVals(d.initializer, fn, depth + 1)) out.add(v);
      const fo = ts.isVariableDeclaration(d) ? d.parent.parent : null;
      if (fo && ts.isForOfStatement(fo)) arrVals(fo.expression, out, fn, depth);
      if (ts.isParameter(d)) for (const q of callersOf(d.parent)) { const a = q.arguments?.[d.parent.parameters.indexOf(d)]; if (a) for (const v of strVals(a, fn, depth + 1)) out.add(v); }
    }
    return out;
  };
  const arrVals = (e, out, fn, depth) => { e = skip(e); if (ts.isArrayLiteralExpression(e)) for (const x of e.elements) for (const v of strVals(x, fn, depth + 1)) out.add(v); else if (ts.isIdentifier(e)) for (const d of P.declsOf(e)) if (ts.isVariableDeclaration(d) && d.initializer) arrVals(d.initializer, out, fn, depth + 1); };
  const isStyle = (e) => { e = skip(e); return ts.isPropertyAccessExpression(e) && e.name.text === "style" || (P.type(e).symbol?.name === "CSSStyleDeclaration") || ts.isIdentifier(e) && P.declsOf(e).some((d) => ts.isVariableDeclaration(d) && d.initializer && isStyle(d.initializer)); };
  const styleCalls = (root) => { const out = []; walk(root, (n) => { if (ts.isCallExpression(n)) { const e = skip(n.expression); if (ts.isPropertyAccessExpression(e) && /^(setProperty|removeProperty|getPropertyValue|getPropertyPriority)$/.test(e.name.text)) out.push({ n, m: e.name.text, recv: e.expression, a: n.arguments }); } }); return out; };
  // the registry an override belongs to: page functions of the same pass share marker keys
  const passOf = new Map(); // root host fn -> page fns
  for (const s of C.sites) { if (!inScope(s.call)) continue; for (const f of s.fns) for (const r of [P.enclosingFn(s.call)]) { let h = r; while (h && P.enclosingFn(h)) h = P.enclosingFn(h); const l = passOf.get(h) ?? []; l.push(f); passOf.set(h, l); } }
  for (const [h, fns] of passOf) {
    if (authored(h)) continue;
    const calls = fns.flatMap((f) => styleCalls(f.body).map((c) => ({ ...c, f })));
    const saved = { v: new Map(), p: new Map() };
    for (const c of calls) if (c.m === "getPropertyValue" || c.m === "getPropertyPriority") { if (!isStyle(c.recv) || /getComputedStyle/.test(c.recv.getText())) continue; for (const v of strVals(c.a[0], c.f)) { const m = c.m === "getPropertyValue" ? saved.v : saved.p; (m.get(v) ?? m.set(v, []).get(v)).push(c); } }
    for (const c of calls) {
      if (c.m !== "setProperty") continue; const fx = ctx.isFixture(c.n);
      const key = `${P.fnId(h ?? c.f)}|${P.text(c.a[0], 30)}`;
      const imp = c.a[2] && skip(c.a[2]); const override = imp && ts.isStringLiteralLike(imp);
      if (ownNode(c.recv)) continue;
      if (!override) { // a restore
        if (!fx) ctx.count("style restores");
        ctx.oblige(c.a.length === 3, c.n, "priority-lost", key, "inline style put back without its original priority");
        const order = restoreOrder(c.n, c.f);
        if (order === "forward") {
          const hosts = new Set([h, ...(h ? callersOf(h).map((q) => outermost(P.enclosingFn(q))) : [])]);
          const over = [...hosts].flatMap((x) => (passOf.get(x) ?? []).flatMap((f) => styleCalls(f.body).map((k) => ({ ...k, f })))).filter((k) => k.m === "setProperty" && k.a[2] && ts.isStringLiteralLike(skip(k.a[2])) && !ownNode(k.recv));
          const clash = overlap(over);
          ctx.oblige(!clash, c.n, "restore-order", key, `saved styles are put back oldest first, but one property can be saved twice (${clash}): the second save holds the override, which is what stays`);
        }
        continue;
      }
      if (!fx) ctx.count("style overrides");
      const mine = [...strVals(c.a[0], c.f)]; const lits = mine.filter((v) => !v.startsWith("*")), dyn = mine.filter((v) => v.startsWith("*"));
      const cov = (m) => dyn.some((v) => m.has(v) && before(m.get(v), c)) || (lits.length > 0 && lits.every((v) => m.has(v) && before(m.get(v), c)));
      ctx.oblige(cov(saved.v), c.n, "value-not-saved", key, `inline ${lits.join("/") || P.text(c.a[0], 30)} is overridden without saving the page's own value first`);
      ctx.oblige(cov(saved.p), c.n, "priority-not-saved", key, `inline ${lits.join("/") || P.text(c.a[0], 30)} is overridden without saving the page's own priority first`);
    }
  }
  function outermost(f) { while (f && P.enclosingFn(f)) f = P.enclosingFn(f); return f; }
  /** direction in which the loops around a restore run through the saved entries */
  function restoreOrder(n, f) {
    let loops = 0;
    for (let p = n.parent; p && p !== f; p = p.parent) {
      if (ts.isForStatement(p)) { loops++; const inc = p.incrementor && skip(p.incrementor); if (inc && ((ts.isPrefixUnaryExpression(inc) || ts.isPostfixUnaryExpression(inc)) && inc.operator === K.MinusMinusToken || ts.isBinaryExpression(inc) && inc.operatorToken.kind === K.MinusEqualsToken)) return "reverse"; let dec = false; if (p.condition) walk(p.condition, (m) => { if ((ts.isPostfixUnaryExpression(m) || ts.isPrefixUnaryExpression(m)) && m.operator === K.MinusMinusToken) dec = true; }); if (dec) return "reverse"; }
      else if (ts.isForOfStatement(p)) { loops++; if (reversed(p.expression)) return "reverse"; }
      else if (ts.isWhileStatement(p) || ts.isDoStatement(p)) { loops++; let pop = false; walk(p, (m) => { if (ts.isCallExpression(m) && ts.isPropertyAccessExpression(skip(m.expression)) && skip(m.expression).name.text === "pop" || (ts.isPostfixUnaryExpression(m) || ts.isPrefixUnaryExpression(m)) && m.operator === K.MinusMinusToken) pop = true; }); if (pop) return "reverse"; }
      else if (isFn(p) && ts.isCallExpression(p.parent) && ts.isPropertyAccessExpression(skip(p.parent.expression))) { const m = skip(p.parent.expression); if (/^(forEach|map)$/.test(m.name.text)) { loops++; if (reversed(m.expression)) return "reverse"; } if (m.name.text === "reduceRight") return "reverse"; }
    }
    return loops ? "forward" : "once";
  }
  function reversed(e, d = 0) { let r = false; if (d > 3) return r; walk(e, (m) => { if (ts.isCallExpression(m) && ts.isPropertyAccessExpression(skip(m.expression)) && /^(reverse|toReversed)$/.test(skip(m.expression).name.text)) r = true; if (ts.isIdentifier(m)) for (const v of P.declsOf(m)) if (ts.isVariableDeclaration(v) && v.initializer && !r && reversed(v.initializer, d + 1)) r = true; }); if (!r && ts.isIdentifier(skip(e))) { const v = P.declsOf(skip(e))[0]; const f = v && P.enclosingFn(v); if (f) walk(f.body, (m) => { if (ts.isCallExpression(m) && ts.isPropertyAccessExpression(skip(m.expression)) && skip(m.expression).name.text === "reverse" && ts.isIdentifier(skip(skip(m.expression).expression)) && P.declsOf(skip(skip(m.expression).expression))[0] === v) r = true; }); } return r; }
  /** two overrides of one pass that can hit the same property of one element, the later one saving after the earlier one changed it */
  function overlap(over) {
    const SHORT = /^(background|mask|border|overflow|outline|font|margin|padding|transition|animation|inset)$/;
    const norm = (v) => v.replace(/^-webkit-/, "");
    const props = (k) => { const out = new Set(); const go = (e, d) => { e = skip(e); if (d > 4) return; if (ts.isStringLiteralLike(e)) { out.add(e.text); return; } if (ts.isConditionalExpression(e)) { go(e.whenTrue, d); go(e.whenFalse, d); return; } if (ts.isArrayLiteralExpression(e)) { for (const x of e.elements) { const y = skip(x); go(ts.isArrayLiteralExpression(y) && y.elements[0] ? y.elements[0] : y, d + 1); } return; }
      if (ts.isIdentifier(e)) for (const v of P.declsOf(e)) {
        if (ts.isBindingElement(v)) { const fo = v.parent.parent?.parent?.parent; if (fo && ts.isForOfStatement(fo)) go(fo.expression, d + 1); continue; }
        if (ts.isParameter(v)) { for (const q of callersOf(v.parent)) { const a = q.arguments?.[v.parent.parameters.indexOf(v)]; if (a) go(a, d + 1); } continue; }
        if (!ts.isVariableDeclaration(v)) continue;
        const fo = v.parent.parent; if (ts.isForOfStatement(fo)) { go(fo.expression, d + 1); continue; }
        if (v.initializer) go(v.initializer, d + 1);
        const f = P.enclosingFn(v); if (f && v.initializer && ts.isArrayLiteralExpression(skip(v.initializer))) walk(f.body, (m) => { if (ts.isCallExpression(m) && ts.isPropertyAccessExpression(skip(m.expression)) && skip(m.expression).name.text === "push" && ts.isIdentifier(skip(skip(m.expression).expression)) && P.declsOf(skip(skip(m.expression).expression))[0] === v) for (const x of m.arguments) { const y = skip(x); go(ts.isArrayLiteralExpression(y) && y.elements[0] ? y.elements[0] : y, d + 1); } });
      } }; go(k.a[0], 0); return out; };
    const seen = []; // [normalised property, override]
    for (const k of over) for (const v of props(k)) { const n = norm(v);
      for (const [m, k2] of seen) { if (m !== n && !(SHORT.test(m) && n.startsWith(m + "-")) && !(SHORT.test(n) && m.startsWith(n + "-"))) continue;
        if (apart(k, k2)) continue; return `${v}, overridden at ${P.loc(k2.n)} and ${P.loc(k.n)}`; }
      seen.push([n, k]); }
    return null;
  }
  /** two override sites for which the code shows the elements differ: one's loop skips the other's element, or all saves precede both */
  function apart(a, b) {
    if (a.n === b.n) return false;
    const one = (x, y) => { const r = skip(y.recv); const root = ts.isPropertyAccessExpression(r) ? skip(r.expression) : r; if (!ts.isIdentifier(root)) return false;
      let ds = new Set(P.declsOf(root)); for (let i = 0; i < 3; i++) for (const d of [...ds]) if (ts.isVariableDeclaration(d) && d.initializer && ts.isIdentifier(skip(d.initializer))) for (const q of P.declsOf(skip(d.initializer))) ds.add(q);
      let hit = false; for (let p = x.n.parent; p && p !== x.f; p = p.parent) if (ts.isForOfStatement(p) || ts.isForStatement(p)) walk(p.statement, (m) => { if (m.pos >= x.n.pos) return false; if (ts.isIfStatement(m) && m.thenStatement.getText().match(/^\{?\s*(continue|return)\b/)) walk(m.expression, (q) => { if (ts.isBinaryExpression(q) && q.operatorToken.kind === K.EqualsEqualsEqualsToken && [q.left, q.right].some((o) => ts.isIdentifier(skip(o)) && P.declsOf(skip(o)).some((d) => ds.has(d)))) hit = true; }); }); return hit; };
    return one(a, b) || one(b, a);
  }
  /** the receiver's element was created by this page function */
  function ownNode(recv) { let e = skip(recv); while (ts.isPropertyAccessExpression(e)) e = skip(e.expression); return ts.isIdentifier(e) && P.declsOf(e).some((d) => ts.isVariableDeclaration(d) && d.initializer && (ts.isNewExpression(skip(d.initializer)) || /^(createElement(NS)?|cloneNode)\($/.test(calleeText(d.initializer)))); }
  function calleeText(x) { x = skip(x); return ts.isCallExpression(x) ? skip(x.expression).getText().replace(/^.*\./s, "") + "(" : ""; }
  function before(list, c) { return list.some((s) => s.f !== c.f || s.n.pos < c.n.pos); }

  // C. nodes the page bundle attaches are detached again
  const attachedTo = (e) => { const t = skip(e).getText(); return /\b(body|documentElement|head|parentElement|parentNode|offsetParent)\b/.test(t) || (ts.isIdentifier(skip(e)) && P.declsOf(skip(e)).some((d) => ts.isVariableDeclaration(d) && d.initializer && /\b(body|documentElement|head|parentElement|parentNode)\b/.test(d.initializer.getText()))); };
  for (const c of P.calls) {
    if (!ts.isCallExpression(c) || !C.pageFiles.has(c.getSourceFile())) continue; const e = skip(c.expression);
    if (!(ts.isPropertyAccessExpression(e) && /^(appendChild|append|prepend|insertBefore)$/.test(e.name.text) && attachedTo(e.expression))) continue;
    const x = skip(c.arguments[0]); if (!ts.isIdentifier(x)) continue; const v = P.declsOf(x)[0]; if (!v) continue;
    if (ts.isVariableDeclaration(v) && v.initializer && /^\(?(clone|document\.createDocumentFragment)/.test(v.initializer.getText())) { /* still a new node */ }
    const fn = P.enclosingFn(c); const owner = P.enclosingFn(v) ?? fn; const key = `${P.fnId(owner)}|${x.text}`; ctx.count("nodes attached by the walk");
    const isDetach = (n) => { if (!ts.isCallExpression(n)) return false; const q = skip(n.expression); if (!ts.isPropertyAccessExpression(q)) return false; if (q.name.text === "remove") return ts.isIdentifier(skip(q.expression)) && P.declsOf(skip(q.expression)).includes(v); if (q.name.text === "removeChild") return n.arguments[0] && ts.isIdentifier(skip(n.arguments[0])) && P.declsOf(skip(n.arguments[0])).includes(v); return P.callees(n).length === 1 && P.callees(n)[0].body && P.enclosingFn(P.callees(n)[0]) !== null && detachesIn(P.callees(n)[0]); };
    const detachesIn = (f) => { let hit = false; walk(f.body, (n) => { if (ts.isCallExpression(n)) { const q = skip(n.expression); if (ts.isPropertyAccessExpression(q) && (q.name.text === "remove" && P.declsOf(skip(q.expression)).includes(v) || q.name.text === "removeChild" && n.arguments[0] && P.declsOf(skip(n.arguments[0])).includes(v))) hit = true; } }); return hit; };
    let here = false, closure = null; walk(owner.body, (n) => { if (ts.isCallExpression(n)) { const q = skip(n.expression); if (ts.isPropertyAccessExpression(q) && (q.name.text === "remove" && ts.isIdentifier(skip(q.expression)) && P.declsOf(skip(q.expression)).includes(v) || q.name.text === "removeChild" && n.arguments[0] && ts.isIdentifier(skip(n.arguments[0])) && P.declsOf(skip(n.arguments[0])).includes(v))) { const g = P.enclosingFn(n); if (g === fn) here = true; else closure ??= g; } } });
    if (here) {
      const fe = new Feasible(P, T, fn); let bad = null;
      fe.explore("-", (n, aux) => { if (n.kind === "call" && n.ast === c) return "A"; if (aux === "A" && n.ast && (n.kind === "call" || n.kind === "optional") && isDetach(n.ast)) return "-"; if (n.kind === "optional" && n.ast && aux === "A" && ts.isCallExpression(n.ast) && isDetach(n.ast)) return "-"; return aux; }, (kind, aux) => { if (aux === "A" && kind === "normal exit") bad = kind; }, { edge: (s, aux) => !(aux === "A" && s.cond && deadWhenAttached(s, v)) });
      ctx.oblige(!bad, c, "node-left", key, `${x.text} attached to the page here is not removed on every path out of ${P.fnName(fn)}`);
    } else if (closure) {
      // a disposer: someone must run it on every path
      const names = new Set(); let q = closure; if (closure.name) names.add(closure.name.text); const pd = closure.parent; if (ts.isVariableDeclaration(pd) || ts.isPropertyAssignment(pd)) names.add(pd.name.getText());
      const used = P.calls.some((k) => ts.isCallExpression(k) && !P.inside?.(k, closure) && (P.callees(k).includes(closure)) && inFinally(k));
      ctx.oblige(used, c, "node-left", key, `${x.text} attached to the page here is removed only by a disposer that is not run in a finally block`);
    } else ctx.oblige(false, c, "node-left", key, `${x.text} attached to the page here is never removed`);
  }
  /** `v == null` / `!v.remove` cannot hold once v is attached */
  function deadWhenAttached(s, v) {
    const isV = (x) => { x = skip(x); return ts.isIdentifier(x) ? P.declsOf(x).includes(v) : ts.isPropertyAccessExpression(x) && ["remove", "parentNode", "parentElement", "isConnected"].includes(x.name.text) && isV(x.expression); };
    const nul = (x) => { x = skip(x); return x.kind === K.NullKeyword || (ts.isIdentifier(x) && x.text === "undefined"); };
    const c = skip(s.cond); if ("nonnull" in s) return isV(c) && !s.nonnull; if (isV(c)) return s.value === false;
    if (ts.isPrefixUnaryExpression(c) && c.operator === K.ExclamationToken && isV(c.operand)) return s.value === true;
    if (ts.isBinaryExpression(c) && (nul(c.right) && isV(c.left) || nul(c.left) && isV(c.right))) { const eq = [K.EqualsEqualsToken, K.EqualsEqualsEqualsToken].includes(c.operatorToken.kind); return s.value === eq; }
    return false;
  }
  function inFinally(n) { let p = n; while (p.parent) { if (ts.isTryStatement(p.parent) && p.parent.finallyBlock === p) return true; p = p.parent; } return false; }

  // D. protocol-level changes: animation clock, expando/style writes through the debugger protocol
  const sendArgs = (c) => { if (!ts.isCallExpression(c) || !ts.isPropertyAccessExpression(skip(c.expression)) || skip(c.expression).name.text !== "send") return null; const a = c.arguments[0] && skip(c.arguments[0]); if (!a || !ts.isStringLiteralLike(a)) return null; return { method: a.text, params: c.arguments[1] && skip(c.arguments[1]) }; };
  const prop = (o, n) => o && ts.isObjectLiteralExpression(o) ? o.properties.find((p) => p.name?.getText() === n)?.initializer ?? null : null;
  const rateSends = P.calls.filter((c) => inScope(c) && sendArgs(c)?.method === "Animation.setPlaybackRate");
  const isPause = (c) => { const r = prop(sendArgs(c).params, "playbackRate"); return !!r && skip(r).getText() === "0"; };
  for (const c of rateSends) {
    if (!isPause(c)) continue; const fn = P.enclosingFn(c); if (!ctx.isFixture(c)) { ctx.count("animation clock pauses"); ctx.count("protocol-level changes"); }
    const restoring = (n) => ts.isCallExpression(n) && (rateSends.includes(n) && !isPause(n) || P.callees(n).some((g) => g.body && rateSends.some((r) => !isPause(r) && P.enclosingFn(r) === g)));
    const rateVars = new Set(); for (const r of rateSends) if (!isPause(r)) { const o = sendArgs(r).params; if (o && ts.isObjectLiteralExpression(o)) for (const q of o.properties) { const x = ts.isShorthandPropertyAssignment(q) ? q.name : ts.isPropertyAssignment(q) ? skip(q.initializer) : null; if (x && ts.isIdentifier(x)) for (const d of P.declsOf(x)) if (!ts.isShorthandPropertyAssignment(d)) rateVars.add(d); } }
    let bad = null; const fe = new Feasible(P, T, fn);
    const returnsRestorer = (ex) => { let hit = false; if (ex) walk(ex, (q) => { if (ts.isCallExpression(q) && rateSends.includes(q) && !isPause(q)) hit = true; if (ts.isIdentifier(q)) for (const d of P.declsOf(q)) { const g = isFn(d) ? d : ts.isVariableDeclaration(d) && d.initializer && isFn(skip(d.initializer)) ? skip(d.initializer) : null; if (g?.body) walk(g.body, (z) => { if (rateSends.includes(z) && !isPause(z)) hit = true; }); } }); return hit; };
    fe.explore("-", (n, aux) => { if (n.kind === "await" && n.ast && skip(n.ast.expression) === c) return "A"; if (aux === "A" && n.kind === "call" && restoring(n.ast)) return "-"; if (aux === "A" && n.kind === "return" && returnsRestorer(ts.isReturnStatement(n.ast) ? n.ast.expression : n.ast)) return "-"; if (aux === "A" && n.kind === "assign" && ts.isIdentifier(skip(n.ast.left)) && rateVars.has(P.declsOf(skip(n.ast.left))[0])) return "B"; return aux; }, (k, aux) => { if (aux === "A" || aux === "B") bad = k; }, { auxExc: (n, aux, a) => n.kind === "await" ? aux : a, edge: (s, aux) => !(aux === "A" && s.cond && [...rateVars].some((v) => deadWhenAttached(s, v))) });
    ctx.oblige(!bad, c, "clock-left-paused", P.fnId(fn), `the page's animation clock is paused here and stays paused on the ${bad} path`);
  }
  // functions shipped as text and run on live nodes
  const shipped = [];
  for (const c of P.calls) { if (!inScope(c)) continue; const s = sendArgs(c); if (s?.method !== "Runtime.callFunctionOn") continue; const d = prop(s.params, "functionDeclaration"); if (!d) continue; let x = skip(d); let txt = null; if (ts.isStringLiteralLike(x)) txt = x.text; else if (ts.isTemplateExpression(x)) txt = x.getText().slice(1, -1); else if (ts.isIdentifier(x)) for (const q of P.declsOf(x)) if (ts.isVariableDeclaration(q) && q.initializer && ts.isStringLiteralLike(skip(q.initializer))) txt = skip(q.initializer).text; if (txt == null) continue;
    const sf = ts.createSourceFile("x.js", `(${txt})`, ts.ScriptTarget.Latest, true, ts.ScriptKind.JS); const facts = { c, set: new Set(), unset: new Set(), save: new Set() };
    walk(sf, (n) => {
      if (ts.isCallExpression(n) && ts.isPropertyAccessExpression(n.expression) && /^(setProperty|removeProperty|getPropertyValue|getPropertyPriority)$/.test(n.expression.name.text)) { const p = n.arguments[0]; const k = p && ts.isStringLiteralLike(p) ? p.text : "*"; const m = n.expression.name.text; if (m === "removeProperty") facts.unset.add("style"); else if (m === "setProperty") { if (n.arguments[2] && ts.isStringLiteralLike(n.arguments[2])) facts.set.add("style:" + k); else { facts.unset.add("style"); if (n.arguments.length < 3) facts.lost = true; } } else facts.save.add(m + ":" + k); }
      if (ts.isBinaryExpression(n) && n.operatorToken.kind === K.EqualsToken && ts.isElementAccessExpression(n.left) && n.left.expression.kind === K.ThisKeyword) facts.set.add("expando");
      if (ts.isCallExpression(n) && n.expression.getText(sf) === "Object.defineProperty" && n.arguments[0]?.kind === K.ThisKeyword) facts.set.add("expando");
      if (ts.isDeleteExpression(n) && ts.isElementAccessExpression(n.expression) && n.expression.expression.kind === K.ThisKeyword) facts.unset.add("expando");
    });
    if (facts.set.size || facts.unset.size) shipped.push(facts); }
  const topOf = (n) => { let f = P.enclosingFn(n); while (f && P.enclosingFn(f)) f = P.enclosingFn(f); return f; };
  for (const s of shipped) for (const k of s.set) {
    ctx.count("protocol-level changes"); const kind = k.split(":")[0]; const fn = topOf(s.c);
    if (kind === "style") { for (const m of ["getPropertyValue", "getPropertyPriority"]) ctx.oblige(s.save.has(`${m}:${k.slice(6)}`) || s.save.has(`${m}:*`), s.c, "value-not-saved", `${P.fnId(fn)}|${k}`, `style override sent to the page does not save ${m === "getPropertyValue" ? "the value" : "the priority"} it replaces`); }
    // the restoring text is sent from a finally/catch block or a disposer of the same module
    const undo = shipped.find((u) => u !== s && u.unset.has(kind) && u.c.getSourceFile() === s.c.getSourceFile() && (inFinally(u.c) || calledFromFinally(P.enclosingFn(u.c))));
    ctx.oblige(!!undo, s.c, "protocol-change-left", `${P.fnId(fn)}|${k}`, `${kind === "style" ? "inline style" : "property"} written on a live node through the debugger protocol is not removed by a finally block or disposer in this module`);
    ctx.oblige(!undo?.lost, undo?.c ?? s.c, "priority-lost", `${P.fnId(fn)}|${k}`, "inline style put back without its original priority");
  }
  function calledFromFinally(f, seen = new Set()) {
    if (!f || seen.has(f)) return false; seen.add(f);
    // a closure returned as `dispose`/`restore` member is the caller's to run; or every outer function is called in finally
    let p = f.parent; if (ts.isPropertyAssignment(p) || ts.isMethodDeclaration(f) || ts.isReturnStatement(p)) return true;
    if (ts.isVariableDeclaration(p)) { let handed = false; const own = P.enclosingFn(p); walk(own?.body ?? p.getSourceFile(), (n) => { if (ts.isIdentifier(n) && n !== p.name && P.declsOf(n).includes(p) && (ts.isReturnStatement(n.parent) || ts.isShorthandPropertyAssignment(n.parent) || ts.isPropertyAssignment(n.parent))) handed = true; }); if (handed) return true; }
    return callersOf(f).some((c) => inFinally(c) || calledFromFinally(P.enclosingFn(c), seen)) || (ts.isCallExpression(f.parent) && (inFinally(f.parent) || calledFromFinally(P.enclosingFn(f.parent), seen)));
  }
  ctx.floor("page-changing evaluations", 12); ctx.floor("restoring evaluations", 10); ctx.floor("style overrides", 10); ctx.floor("nodes attached by the walk", 3); ctx.floor("protocol-level changes", 3); ctx.floor("capture walk evaluations", 1);
  ctx.expectFixture("leakyMark", "leakyStyleTag", "unsavedStyle", "wrongOrder", "leakyClock");
  for (const h of ctx.fixtureHits) if (h.includes("okMark")) ctx.anchor(false, "negative example reported: " + h);
}
