import { ts, K, isFn, skip, walk } from "../lib/program.mjs";
import { Guards } from "../lib/guards.mjs";
import { PageCtx } from "../lib/pagectx.mjs";

export const rule = "Every fetch (host or in-page) passes an abort signal that is a timeout signal, or a controller aborted by a timer that no path disarms before the body has been read. Every synchronous child process has a time limit. Every loop that retries an outside operation passes, on each cycle, a comparison with a clock or a value the loop advances. Every promise in page code that only page events settle is raced against a timer; waits on the page's own readiness are bounded by the caller or belong to documents the program wrote. No browser operation disables its timeout. Every piped child output is consumed.";
export const trusted = ["Playwright's default operation timeouts", "an animation frame arrives in a headless page"];
export const assumptions = ["An interactive installation the user watches (inherited stdio) is not time-limited"];

export const fixtures = {
  "__verif_fixture_p15.ts": `
import { spawn, spawnSync } from "node:child_process";
import { readSync } from "node:fs";
import type { Page } from "@playwright/test";
export async function bareFetch(u: string): Promise<string> { return (await fetch(u)).text(); }
export async function headersOnly(u: string): Promise<Response> { const c = new AbortController(); const t = setTimeout(() => c.abort(), 50); try { return await fetch(u, { signal: c.signal }); } finally { clearTimeout(t); } }
export async function deadSignal(u: string): Promise<string> { const c = new AbortController(); return (await fetch(u, { signal: c.signal })).text(); }
export async function okWhole(u: string): Promise<string> { const c = new AbortController(); const t = setTimeout(() => c.abort(), 50); try { const r = await fetch(u, { signal: c.signal }); return await r.text(); } finally { clearTimeout(t); } }
export async function okSignal(u: string): Promise<string> { const init = { signal: AbortSignal.timeout(10) }; return (await fetch(u, init)).text(); }
export function noLimit(b: string): void { spawnSync(b, ["x"], { encoding: "utf8" }); }
export function okLimit(b: string): void { const o = { timeout: 5 }; spawnSync(b, ["x"], { ...o, encoding: "utf8" }); }
export function spins(fd: number): number { const b = Buffer.alloc(1); for (;;) { try { return readSync(fd, b, 0, 1, null); } catch { continue; } } }
export function renews(fd: number): number { const b = Buffer.alloc(1); for (;;) { const end = Date.now() + 5; try { return readSync(fd, b, 0, 1, null); } catch { if (Date.now() > end) return -1; } } }
export function okDeadline(fd: number): number { const b = Buffer.alloc(1); const end = Date.now() + 5; for (;;) { try { return readSync(fd, b, 0, 1, null); } catch { if (Date.now() > end) return -1; } } }
export async function loadOnly(page: Page, u: string): Promise<void> { await page.evaluate(async (src) => { const i = new Image(); const p = new Promise<void>((r) => { i.addEventListener("load", () => r()); }); i.src = src; await p; }, u); }
export async function okRaced(page: Page, u: string): Promise<void> { await page.evaluate(async (src) => { const i = new Image(); const p = new Promise<void>((r) => { i.addEventListener("load", () => r()); }); i.src = src; await Promise.race([p, new Promise<void>((r) => setTimeout(r, 9))]); }, u); }
export async function fontsUnbounded(page: Page, u: string): Promise<void> { await page.goto(u); await page.evaluate(() => document.fonts.ready); }
export async function okFonts(page: Page): Promise<void> { await page.setContent("<p>"); await page.evaluate(() => document.fonts.ready); }
export async function forever(page: Page): Promise<void> { await page.waitForSelector("x", { timeout: 0 }); }
export function unread(b: string): void { const c = spawn(b, [], { stdio: ["ignore", "pipe", "ignore"] }); c.on("error", () => {}); }
export function okRead(b: string): void { const c = spawn(b, [], { stdio: ["ignore", "pipe", "ignore"] }); c.on("error", () => {}); c.stdout.on("data", () => {}); }
`,
};

export function run(ctx) {
  const { P, F, T } = ctx; const G = new Guards(P, F, T); const C = new PageCtx(P, F);
  const cnt = (n, k) => { if (!ctx.isFixture(n)) ctx.count(k); };
  const key = (n) => P.fnId(P.enclosingFn(n));
  const optValue = (o, name) => { // initializer expressions of an option, through spreads and variables
    const out = []; const go = (x, d) => {
      x = skip(x); if (d > 4) return;
      if (ts.isObjectLiteralExpression(x)) { for (const p of x.properties) { if (ts.isPropertyAssignment(p) && p.name.getText() === name) out.push(p.initializer); else if (ts.isShorthandPropertyAssignment(p) && p.name.text === name) out.push(p.name); else if (ts.isSpreadAssignment(p)) go(p.expression, d + 1); } return; }
      if (ts.isConditionalExpression(x)) { go(x.whenTrue, d); go(x.whenFalse, d); return; }
      if (ts.isIdentifier(x)) for (const v of P.declsOf(x)) { if (ts.isVariableDeclaration(v) && v.initializer) go(v.initializer, d + 1); if (ts.isParameter(v)) { const i = v.parent.parameters.indexOf(v); for (const c of F.invocations(v.parent)) if (c.arguments?.[i]) go(c.arguments[i], d + 1); } }
      if (ts.isCallExpression(x)) for (const f of F.targets(x.expression)) for (const r of F.returnsOf(f)) go(r, d + 1);
    }; if (o) go(o, 0); return out;
  };
  /** the option is given on every alternative the options value can take */
  const always = (o, name, d = 0) => {
    if (!o || d > 5) return false; const x = skip(o);
    if (ts.isObjectLiteralExpression(x)) return x.properties.some((p) => (ts.isPropertyAssignment(p) || ts.isShorthandPropertyAssignment(p)) && p.name.getText() === name || ts.isSpreadAssignment(p) && always(p.expression, name, d + 1));
    if (ts.isConditionalExpression(x)) return always(x.whenTrue, name, d + 1) && always(x.whenFalse, name, d + 1);
    if (ts.isBinaryExpression(x) && [K.QuestionQuestionToken, K.BarBarToken].includes(x.operatorToken.kind)) return always(x.left, name, d + 1) && always(x.right, name, d + 1);
    if (ts.isIdentifier(x)) { const v = P.declsOf(x)[0]; if (!v) return false; if (ts.isVariableDeclaration(v)) return !!v.initializer && always(v.initializer, name, d + 1); if (ts.isParameter(v)) { const i = v.parent.parameters.indexOf(v), cs = F.invocations(v.parent); return cs.length > 0 && cs.every((c) => always(c.arguments?.[i] ?? v.initializer, name, d + 1)); } return false; }
    if (ts.isCallExpression(x)) { const fs = F.targets(x.expression); return fs.length > 0 && fs.every((f) => { const rs = F.returnsOf(f); return rs.length > 0 && rs.every((r) => always(r, name, d + 1)); }); }
    return false;
  };
  const callsIn = (n, re, own) => { const out = []; walk(n, (m) => { if (own && m !== n && isFn(m)) return false; if (ts.isCallExpression(m) && re.test(P.externalName(m.expression) ?? "")) out.push(m); }); return out; };
  const declOf = (e) => { e = skip(e); return ts.isIdentifier(e) ? P.declsOf(e)[0] : null; };

  // ── network requests ────────────────────────────────────────────────────
  const isTimeoutSignal = (e, seen = new Set()) => { // "timeout" | {controller} | null
    e = skip(e); if (seen.has(e)) return null; seen.add(e);
    if (ts.isCallExpression(e)) { const x = P.externalName(e.expression) ?? ""; const ce = skip(e.expression); if (ts.isPropertyAccessExpression(ce) && ce.name.text === "timeout" && /^AbortSignal\||typeof AbortSignal|prototype: AbortSignal/.test(ce.expression.getText() + "|" + P.typeStr(ce.expression))) return "timeout"; if (/\.any$/.test(x)) { const a = skip(e.arguments[0]); if (ts.isArrayLiteralExpression(a)) for (const y of a.elements) { const r = isTimeoutSignal(y, seen); if (r) return r; } } for (const f of F.targets(e.expression)) { const rs = F.returnsOf(f).map((r) => isTimeoutSignal(r, seen)); if (rs.length && rs.every(Boolean)) return rs[0]; } return null; }
    if (ts.isPropertyAccessExpression(e) && e.name.text === "signal") { const d = declOf(e.expression); if (d) return { controller: d }; }
    const d = declOf(e);
    if (d && ts.isVariableDeclaration(d) && d.initializer) return isTimeoutSignal(d.initializer, seen);
    if (d && ts.isBindingElement(d) && d.parent.parent.initializer) { const i = skip(d.parent.parent.initializer); if (ts.isNewExpression(i)) return { controller: d.parent.parent }; }
    if (d && ts.isParameter(d)) { const i = d.parent.parameters.indexOf(d); const inv = F.invocations(d.parent).filter((c) => c.arguments?.[i]); const rs = inv.map((c) => isTimeoutSignal(c.arguments[i], seen)); if (rs.length && rs.every(Boolean)) return rs[0]; }
    return null;
  };
  for (const c of P.calls) {
    if (!ts.isCallExpression(c)) continue; const x = P.externalName(c.expression) ?? "";
    if (x !== "lib:fetch") continue;
    if (/\.(client|generated)\b|\/client\./.test(c.getSourceFile().fileName)) continue;
    cnt(c, "network requests");
    const sigs = optValue(c.arguments[1], "signal"); let ok = false, good = 0, why = "has no abort signal";
    for (const s of sigs) {
      const r = isTimeoutSignal(s); if (r === "timeout") { good++; continue; }
      if (r?.controller) {
        // a timer aborts this controller
        let arm = null; walk(r.controller.getSourceFile(), (n) => { if (ts.isCallExpression(n) && /:setTimeout$|^lib:setTimeout$/.test(P.externalName(n.expression) ?? "")) for (const f of P.fnsOfExpr(n.arguments[0])) walk(f.body, (m) => { if (ts.isCallExpression(m) && ts.isPropertyAccessExpression(skip(m.expression)) && skip(m.expression).name.text === "abort" && declOf(skip(m.expression).expression) === r.controller) arm = n; }); });
        if (!arm) { why = "passes a signal nothing ever aborts"; continue; }
        const timer = (() => { let p = arm.parent; while (p && !ts.isVariableDeclaration(p) && !ts.isBinaryExpression(p) && !isFn(p)) p = p.parent; return p && ts.isVariableDeclaration(p) ? p : p && ts.isBinaryExpression(p) ? declOf(p.left) : null; })();
        // no path from the response to a function exit disarms the timer before a body read
        const fn = P.enclosingFn(c), cfg = T.cfg(fn); const clears = new Set(callsIn(fn.body, /clearTimeout$/, true).filter((k) => declOf(k.arguments[0]) === timer));
        const bodyRead = (n) => n.kind === "call" && n.ast && ts.isCallExpression(n.ast) && (/^lib:Body\.(arrayBuffer|text|json|blob|bytes|formData)$/.test(P.externalName(n.ast.expression) ?? ""));
        const start = cfg.nodes.filter((n) => n.ast === c); const seen = new Set(); const st = start.map((n) => n); let bad = null;
        // only normal completion of the request hands a response on
        while (st.length) { const n = st.pop(); if (seen.has(n)) continue; seen.add(n); if (bodyRead(n)) continue; if (n.ast && clears.has(n.ast)) { bad = n.ast; continue; } for (const s2 of n.succ) st.push(s2.to); }
        // a path may legitimately skip the body when the response is discarded: some path must read it here
        const readsHere = cfg.nodes.some(bodyRead);
        if (bad && !(readsHere && okDiscard(fn, cfg, start, clears, bodyRead))) { why = "disarms its deadline before the response body is read"; continue; }
        good++;
      }
    }
    ok = sigs.length > 0 && good === sigs.length;
    if (ok && !always(c.arguments[1], "signal")) { ok = false; why = "has no abort signal on some alternative of its options"; }
    ctx.oblige(ok, c, "request", key(c), `network request ${why}`);
  }
  // every path that clears the timer without reading the body does so because the status check rejected the response
  function okDiscard(fn, cfg, start, clears, bodyRead) {
    const seen = new Set(); const st = [...start];
    while (st.length) { const n = st.pop(); if (seen.has(n)) continue; seen.add(n); if (bodyRead(n)) continue; if (n.ast && clears.has(n.ast)) return false;
      for (const s of n.succ) { if (s.cond && "value" in s && G.implies(s.cond, s.value, (e, v) => v === false && ts.isPropertyAccessExpression(e) && e.name.text === "ok")) continue; st.push(s.to); } }
    return true;
  }
  for (const c of P.calls) { // the browser context's own request API has a default timeout; it must not be disabled
    if (!ts.isCallExpression(c)) continue; const x = P.externalName(c.expression) ?? "";
    if (!/^playwright-core:(Page|Frame|Locator|ElementHandle|BrowserContext|Browser|BrowserType|APIRequestContext|Keyboard|Mouse)\./.test(x)) continue;
    cnt(c, "browser operations");
    if (/\.setDefault(Navigation)?Timeout$/.test(x)) { ctx.oblige(!(ts.isNumericLiteral(skip(c.arguments[0])) && Number(skip(c.arguments[0]).text) === 0), c, "browser-timeout", key(c), "browser timeouts are switched off"); continue; }
    for (const a of c.arguments) { if (ts.isStringLiteralLike(skip(a)) || P.fnsOfExpr(a).length) continue; const lit = skip(a); if (!ts.isObjectLiteralExpression(lit)) continue; const v = optValue(lit, "timeout"); for (const e of v) ctx.oblige(!(ts.isNumericLiteral(skip(e)) && Number(skip(e).text) === 0) && !(ts.isIdentifier(skip(e)) && skip(e).text === "Infinity"), c, "browser-timeout", key(c), "browser operation waits without limit (timeout: 0)"); }
  }
  // ── synchronous children ────────────────────────────────────────────────
  for (const c of P.calls) {
    if (!ts.isCallExpression(c)) continue; const x = P.externalName(c.expression) ?? "";
    if (!/^child_process:(spawnSync|execSync|execFileSync)$/.test(x)) continue;
    cnt(c, "synchronous helper programs");
    const o = c.arguments[c.arguments.length - 1]; const t = optValue(o, "timeout");
    const inherit = optValue(o, "stdio").some((e) => ts.isStringLiteralLike(skip(e)) && skip(e).text === "inherit");
    ctx.oblige(inherit || t.length > 0 && always(o, "timeout") && t.every((e) => !(ts.isNumericLiteral(skip(e)) && Number(skip(e).text) === 0)), c, "sync-child", key(c), "synchronous child process has no time limit");
  }
  // ── retry loops around outside operations ───────────────────────────────
  const OUT = /^(fs:(readSync|writeSync|openSync)|lib:Atomics\.wait|lib:fetch|process:Process\.kill|.*:Process\.kill)$/;
  const outside = (n) => { // loop body performs an outside operation or suspends
    let hit = false; walk(n, (m) => { if (isFn(m)) return false; if (ts.isAwaitExpression(m)) { const e = skip(m.expression); if (ts.isCallExpression(e)) { const fs = F.targets(e.expression); if (fs.some((f) => sleeps(f)) || /:setTimeout$/.test(P.externalName(e.expression) ?? "") || /waitForTimeout$/.test(P.externalName(e.expression) ?? "")) hit = true; } if (ts.isNewExpression(e)) hit = true; }
      if (ts.isCallExpression(m) && (OUT.test(P.externalName(m.expression) ?? "") || F.targets(m.expression).some((f) => sleeps(f) && !f.modifiers?.some((q) => q.kind === K.AsyncKeyword)))) hit = true; }); return hit; };
  const sleepMemo = new Map();
  function sleeps(f) { if (sleepMemo.has(f)) return sleepMemo.get(f); sleepMemo.set(f, false); let r = false; if (f.body) walk(f.body, (m) => { if (ts.isCallExpression(m) && /(^lib:Atomics\.wait|setTimeout)$/.test(P.externalName(m.expression) ?? "") && f.body.getWidth() < 500) r = true; }); sleepMemo.set(f, r); return r; }
  for (const f of P.files) walk(f, (n) => {
    if (!(ts.isWhileStatement(n) || ts.isDoStatement(n) || ts.isForStatement(n))) return;
    if (!outside(n.statement)) return;
    const fn = P.enclosingFn(n); if (!fn) return;
    cnt(n, "retry loops");
    const cfg = T.cfg(fn); const head = cfg.nodes.filter((q) => q.kind === "loop" && q.ast === n);
    const assigned = new Set(); walk(n, (m) => { if (ts.isBinaryExpression(m) && m.operatorToken.kind >= K.FirstAssignment && m.operatorToken.kind <= K.LastAssignment) { const d = declOf(m.left); if (d) assigned.add(d); } if ((ts.isPrefixUnaryExpression(m) || ts.isPostfixUnaryExpression(m)) && (m.operator === K.PlusPlusToken || m.operator === K.MinusMinusToken)) { const d = declOf(m.operand); if (d) assigned.add(d); } });
    const REL = new Set([K.LessThanToken, K.LessThanEqualsToken, K.GreaterThanToken, K.GreaterThanEqualsToken]);
    const CLOCK = /(DateConstructor\.now|Performance\.now|hrtime)/;
    const reads = (q) => ts.isCallExpression(q) && (CLOCK.test(P.externalName(q.expression) ?? "") || P.callees(q).some((g) => g.body && g.body.getWidth() < 300 && callsIn(g, CLOCK).length > 0));
    const inLoop = (d) => d.getSourceFile() === n.getSourceFile() && d.pos >= n.statement.pos && d.end <= n.statement.end;
    // a clock comparison bounds the loop only against an instant fixed before it started
    const fixed = (m) => { let stale = false; walk(m, (q) => { if (isFn(q)) return false; if (reads(q)) return false; if (ts.isPropertyAccessExpression(q)) { stale = true; return false; } if (ts.isIdentifier(q)) for (const d of P.declsOf(q)) { if (ts.isParameter(d) || ts.isVariableDeclaration(d) || ts.isBindingElement(d)) { if (!inLoop(d) && !assigned.has(d)) { const init = ts.isVariableDeclaration(d) && d.initializer; if (!init || !ts.isNumericLiteral(skip(init))) stale = true; } else if (inLoop(d) && ts.isVariableDeclaration(d) && d.initializer && fixed(d.initializer)) stale = true; } } }); return stale; };
    const timeSide = (m) => { let t = false; walk(m, (q) => { if (reads(q)) t = true; if (ts.isIdentifier(q)) for (const d of P.declsOf(q)) if (ts.isVariableDeclaration(d) && d.initializer && inLoop(d)) walk(d.initializer, (y) => { if (reads(y)) t = true; }); }); return t; };
    const bounded = (e) => { let ok = false; walk(e, (m) => {
      if (ts.isBinaryExpression(m) && REL.has(m.operatorToken.kind)) {
        if (timeSide(m)) { if (fixed(m)) ok = true; }
        else walk(m, (q) => { if (ts.isIdentifier(q)) for (const d of P.declsOf(q)) if (assigned.has(d)) ok = true; });
      }
      if (ts.isCallExpression(m)) for (const g of P.callees(m)) if (g.body && g.body.getWidth() < 300 && callsIn(g, CLOCK).length && !(P.enclosingFn(g) && inLoop(g))) { let cmp = false; walk(g.body, (y) => { if (ts.isBinaryExpression(y) && REL.has(y.operatorToken.kind)) { let own = true; walk(y, (z) => { if (ts.isIdentifier(z)) for (const d of P.declsOf(z)) if ((ts.isVariableDeclaration(d) || ts.isParameter(d)) && (d.pos < g.pos || d.pos > g.end || (ts.isParameter(d) && m.arguments.every((a) => !ts.isIdentifier(skip(a)) || !P.declsOf(skip(a)).some(inLoop))))) own = false; }); if (!own) cmp = true; } }); if (cmp) ok = true; }
    }); return ok; };
    // is there a cycle head -> head that crosses no bounding comparison? (`n === 0`-style tests do not count)
    let cyc = false;
    for (const h of head) {
      const seen = new Set(); const st = h.succ.filter((s) => !(s.cond && bounded(s.cond))).map((s) => s.to);
      while (st.length) { const q = st.pop(); if (q === h) { cyc = true; break; } if (seen.has(q)) continue; seen.add(q); if (q.kind === "exit" || q.kind === "throw-exit") continue; for (const s of q.succ) if (!(s.cond && bounded(s.cond))) st.push(s.to); if (q.exc && T.excTaken(q)) st.push(q.exc); }
    }
    ctx.oblige(head.length > 0 && !cyc, n, "loop", key(n), "retry loop can repeat an outside operation without ever testing a deadline or attempt limit");
  });
  // ── waits settled only by the page ──────────────────────────────────────
  const EVT = /^(addEventListener|once|on)$/;
  const settlesBy = (nw) => { // how a `new Promise(executor)` resolves
    const out = { timer: false, event: false, frame: false };
    for (const ex of P.fnsOfExpr(nw.arguments?.[0] ?? nw)) walk(ex.body, (m) => {
      if (ts.isCallExpression(m)) { const x = P.externalName(m.expression) ?? m.expression.getText(); if (/setTimeout$/.test(x)) out.timer = true; if (/requestAnimationFrame$/.test(x)) out.frame = true; if (ts.isPropertyAccessExpression(skip(m.expression)) && EVT.test(skip(m.expression).name.text)) out.event = true; }
      if (ts.isBinaryExpression(m) && m.operatorToken.kind === K.EqualsToken && ts.isPropertyAccessExpression(skip(m.left)) && /^on[a-z]+$/.test(skip(m.left).name.text)) out.event = true;
    }); return out;
  };
  const isRace = (c) => ts.isCallExpression(c) && P.externalName(c.expression) === "lib:PromiseConstructor.race";
  const raceHasTimer = (c) => { let t = false; walk(c, (m) => { if (ts.isCallExpression(m) && /setTimeout$/.test(P.externalName(m.expression) ?? "")) t = true; if (ts.isIdentifier(m)) { const d = P.declsOf(m)[0]; if (d && ts.isVariableDeclaration(d) && d.initializer && skip(d.initializer) !== c && ts.isNewExpression(skip(d.initializer)) && settlesBy(skip(d.initializer)).timer) t = true; } if (ts.isCallExpression(m)) for (const g of P.callees(m)) if (g.body && g.body.getWidth() < 400 && callsIn(g.body, /setTimeout$/).length) t = true; }); return t; };
  const racedUse = (e) => { // every awaited/returned use of the value goes through a race with a timer
    let p = e.parent, c = e; while (ts.isParenthesizedExpression(p) || ts.isAsExpression(p) || ts.isArrayLiteralExpression(p) || ts.isNonNullExpression(p) || (ts.isPropertyAccessExpression(p) && /^(catch|then|finally)$/.test(p.name.text)) || (ts.isCallExpression(p) && p.expression === c)) { c = p; p = p.parent; }
    if (ts.isCallExpression(p) && p.arguments.includes(c)) { if (isRace(p)) return raceHasTimer(p); const fs = P.callees(p), i = p.arguments.indexOf(c); if (fs.length) return fs.every((f) => f.parameters[i] && paramRaced(f, f.parameters[i])); }
    if (ts.isVariableDeclaration(p) && p.initializer === c) { const uses = []; walk(p.getSourceFile(), (m) => { if (ts.isIdentifier(m) && m !== p.name && P.declsOf(m).includes(p)) uses.push(m); }); return uses.length > 0 && uses.every((u) => racedUse(u)); }
    if ((ts.isReturnStatement(p) || (isFn(p) && p.body === c))) { const f = isFn(p) ? p : P.enclosingFn(p); const inv = F.invocations(f).filter((k) => !ts.isAwaitExpression(k.parent) || true); return inv.length > 0 && inv.every((k) => racedUse(k)); }
    if (ts.isAwaitExpression(p)) return racedAwait(p);
    return false;
  };
  const paramRaced = (f, prm) => { const uses = []; walk(f.body, (m) => { if (ts.isIdentifier(m) && P.declsOf(m).includes(prm)) uses.push(m); }); return uses.length > 0 && uses.every((u) => racedUse(u)); };
  const raceMemo = new Set();
  function racedAwait(aw) { // awaited inside an async function all of whose callers race it
    const f = P.enclosingFn(aw); if (!f || raceMemo.has(f)) return false; raceMemo.add(f);
    const inv = F.invocations(f); const r = inv.length > 0 && inv.every((k) => racedUse(k)); raceMemo.delete(f); return r;
  }
  for (const c of P.calls) {
    if (!ts.isNewExpression(c) || !ts.isIdentifier(c.expression) || c.expression.text !== "Promise") continue;
    if (!(C.inPage(c) || C.pageFiles.has(c.getSourceFile()))) continue;
    const s = settlesBy(c); if (!s.event || s.timer) continue;
    cnt(c, "page event waits");
    ctx.oblige(racedUse(c), c, "page-event", key(c), "in-page wait is settled only by page events, with no timer");
  }
  // readiness of the page's own resources
  const readyIn = (site) => { // does the shipped code return/await document.fonts.ready, or resolve on load events (string program)?
    for (const f of site.fns) { let h = false; walk(f, (m) => { if (ts.isPropertyAccessExpression(m) && m.name.text === "ready" && ts.isPropertyAccessExpression(skip(m.expression)) && skip(m.expression).name.text === "fonts") h = true; }); if (h) return true; }
    const a = skip(site.arg); if (ts.isNoSubstitutionTemplateLiteral(a) || ts.isStringLiteral(a)) return /fonts\s*\.\s*ready/.test(a.text) || (/new Promise/.test(a.text) && /addEventListener\(\s*['"](load|error)/.test(a.text) && !/setTimeout/.test(a.text));
    return false;
  };
  for (const s of C.sites) {
    if (/waitForFunction$/.test(s.x) || s.x === "toString" || /addInitScript/.test(s.x)) continue;
    if (!readyIn(s)) continue;
    cnt(s.call, "page readiness waits");
    // document written by the program itself: setContent dominates within the function
    const fn = P.enclosingFn(s.call); const recv = (e) => { e = skip(e); return ts.isPropertyAccessExpression(e) ? declOf(e.expression) : null; };
    const pageDecl = recv(s.call.expression);
    let own = false, nav = false; if (fn) walk(fn.body, (m) => { if (ts.isCallExpression(m) && pageDecl && recv(m.expression) === pageDecl && m.pos < s.call.pos) { const x = P.externalName(m.expression) ?? ""; if (/:Page\.setContent$/.test(x)) own = true; if (/:Page\.goto$/.test(x)) nav = true; } });
    ctx.oblige(own && !nav || racedUse(s.call), s.call, "readiness", key(s.call), "waits for the page's fonts or images with no time limit: a resource that never finishes hangs the capture");
  }
  // ── piped output is consumed ────────────────────────────────────────────
  for (const c of P.calls) {
    if (!ts.isCallExpression(c) || P.externalName(c.expression) !== "child_process:spawn") continue;
    cnt(c, "child processes");
    const st = optValue(c.arguments[2], "stdio"); const piped = [];
    if (!st.length) piped.push("stdout", "stderr");
    for (const e of st) { const x = skip(e); if (ts.isStringLiteralLike(x) && x.text === "pipe") piped.push("stdout", "stderr"); if (ts.isArrayLiteralExpression(x)) ["stdout", "stderr"].forEach((nm, i) => { const el = x.elements[i + 1] && skip(x.elements[i + 1]); const may = (q) => { q = q && skip(q); return q && (ts.isConditionalExpression(q) ? may(q.whenTrue) || may(q.whenFalse) : ts.isStringLiteralLike(q) ? q.text === "pipe" : true); }; if (may(el)) piped.push(nm); }); }
    let d = c.parent; while (d && !ts.isVariableDeclaration(d) && !ts.isBinaryExpression(d) && !ts.isStatement(d)) d = d.parent;
    const decl = d && ts.isVariableDeclaration(d) ? d : d && ts.isBinaryExpression(d) ? declOf(d.left) : null;
    for (const nm of new Set(piped)) {
      let used = false; walk(c.getSourceFile(), (m) => { if (ts.isPropertyAccessExpression(m) && m.name.text === nm && decl && declOf(m.expression) === decl) { let p = m.parent; while (ts.isNonNullExpression(p) || ts.isParenthesizedExpression(p) || ts.isAsExpression(p)) p = p.parent; if (ts.isPropertyAccessExpression(p) ? /^(on|pipe|resume|addListener|\[Symbol)/.test(p.name.text) : ts.isCallExpression(p) || ts.isForOfStatement(p) || ts.isVariableDeclaration(p)) used = true; } });
      ctx.oblige(used, c, "drain", key(c), `the child's ${nm} is a pipe nobody reads: it fills and the child stops`);
    }
  }
  ctx.floor("network requests", 5); ctx.floor("synchronous helper programs", 8); ctx.floor("retry loops", 3); ctx.floor("page event waits", 1); ctx.floor("page readiness waits", 4); ctx.floor("browser operations", 100);
  ctx.expectFixture("#bareFetch", "#headersOnly", "#deadSignal", "#noLimit", "#spins", "#renews", "loadOnly", "#fontsUnbounded", "#forever", "#unread");
  for (const h of ctx.fixtureHits) if (/#ok/.test(h)) ctx.anchor(false, "negative example reported: " + h);
}
