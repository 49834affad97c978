import { ts, K, isFn, skip, walk } from "../lib/program.mjs";
import { PageCtx } from "../lib/pagectx.mjs";

export const rule = "Effect and forward-flow analysis: every read of a clock, random source, process identity, host locale or directory listing is classified by what its value reaches. In the rendering, animation, templating and scrolling code a clock value may only be compared, subtracted and reported to a log; randomness is admitted only as a private name for a page marker, temporary file or pipe, never in markup or in a captured field. Work done concurrently may not append to shared ordered state after a suspension point.";
export const trusted = ["Map/Set/object iteration order is insertion order (ECMAScript)"];
export const assumptions = ["fonts, browser and helper binaries are the same between runs"];

export const fixtures = {
  "render/__verif_fixture_p04.ts": `
import { randomUUID } from "node:crypto";
import { readdirSync } from "node:fs";
export function clockId(): string { return \`<g id="g\${Date.now()}"/>\`; }
export function randomClass(): string { const n = Math.floor(Math.random() * 1e6); const cls = "c" + n; return cls; }
export function uuidVia(): string { const id = makeId(); return \`<use href="#\${id}"/>\`; }
export function makeId(): string { return "x" + randomUUID(); }
export function okElapsed(log: (s: string) => void): number { const t = Date.now(); let i = 0; while (Date.now() - t < 5) i = 1; log(\`took \${Date.now() - t} ms\`); return i; }
export function localeNumber(n: number): string { return n.toLocaleString(); }
export function localeOrder(xs: string[]): string[] { return xs.sort((a, b) => a.localeCompare(b)); }
export function listing(dir: string): string[] { return readdirSync(dir).map((f) => f.toUpperCase()); }
export function clockChooses(a: string, b: string, t: number): string { return Date.now() > t ? a : b; }
export async function firstDone(xs: Promise<string>[]): Promise<string> { return Promise.race(xs); }
export function okListing(dir: string): string[] { return readdirSync(dir).sort(); }
export async function completionOrder(xs: string[], f: (s: string) => Promise<string>): Promise<string[]> { const out: string[] = []; await Promise.all(xs.map(async (x) => { const r = await f(x); out.push(r); })); return out; }
export async function completionMap(xs: string[], f: (s: string) => Promise<string>): Promise<string[]> { const out = new Map<string, string>(); await Promise.all(xs.map(async (x) => { const r = await f(x); out.set(x, r); })); return [...out.values()]; }
export async function okIndexed(xs: string[], f: (s: string) => Promise<string>): Promise<string[]> { const out: string[] = []; await Promise.all(xs.map(async (x, i) => { out[i] = await f(x); })); return out; }
`,
};

const SRC = /^(lib:(DateConstructor\.now|Math\.random|Performance\.now|Crypto\.(randomUUID|getRandomValues))|crypto:(randomUUID|randomBytes|randomInt|getRandomValues)|crypto:webcrypto.*|perf_hooks:.*now|process:.*(hrtime|uptime)|globals:.*hrtime|os:(hostname|uptime|freemem|loadavg))$/;

export function run(ctx) {
  const { P, F } = ctx; const C = new PageCtx(P, F);
  const scope = (n) => /\/src\/(capture|render|animation|tree-ops|templates|scroll|utils|terminal|cli|post-processing)\//.test(n.getSourceFile().fileName) && !n.getSourceFile().fileName.includes(".generated.");
  const strict = (n) => /\/src\/(render|animation|tree-ops|templates|scroll|utils|post-processing)\//.test(n.getSourceFile().fileName);
  const cnt = (n, k) => { if (!ctx.isFixture(n)) ctx.count(k); };
  const capturedField = (d) => /\/src\/capture\/types\.ts$/.test(d.getSourceFile().fileName);

  // sources
  const sources = [];
  for (const c of P.calls) {
    if (!scope(c)) continue;
    if (ts.isNewExpression(c)) { if (skip(c.expression).getText() === "Date" && !(c.arguments?.length) && (P.externalName(c.expression) ?? "").startsWith("lib:")) sources.push([c, "clock"]); continue; }
    if (!ts.isCallExpression(c)) continue;
    const e = skip(c.expression); const x = P.externalName(e) ?? "";
    const hr = ts.isPropertyAccessExpression(e) && /^(hrtime|uptime|bigint)$/.test(e.name.text) && /process/.test(e.expression.getText());
    if (SRC.test(x) || hr || (ts.isIdentifier(e) && e.text === "Date" && x.startsWith("lib:"))) sources.push([c, /random|UUID|Random/.test(x) ? "random" : "clock"]);
  }
  for (const f of P.files) if (scope(f)) walk(f, (n) => { if (ts.isPropertyAccessExpression(n) && n.name.text === "pid" && n.expression.getText() === "process") sources.push([n, "pid"]); });

  // forward classification of one source value; returns reason string when it reaches something observable
  const usesOf = new Map(); // decl -> identifier uses
  for (const f of P.files) walk(f, (n) => { if (ts.isIdentifier(n) && !(ts.isPropertyAccessExpression(n.parent) && n.parent.name === n && false)) { if ((ts.isVariableDeclaration(n.parent) || ts.isParameter(n.parent) || ts.isBindingElement(n.parent) || ts.isPropertySignature(n.parent) || ts.isPropertyAssignment(n.parent)) && n.parent.name === n) return; for (const d of P.declsOf(n)) { let a = usesOf.get(d); if (!a) usesOf.set(d, a = []); a.push(n); } } });
  const CMP = new Set([K.LessThanToken, K.LessThanEqualsToken, K.GreaterThanToken, K.GreaterThanEqualsToken, K.EqualsEqualsToken, K.EqualsEqualsEqualsToken, K.ExclamationEqualsToken, K.ExclamationEqualsEqualsToken]);
  const isLog = (call) => { const e = skip(call.expression); const t = e.getText(); if (/(^|\.)(log|warn|error|info|debug|verbose|progress|onProgress|report|write|trace)$/.test(t) && !/res\.write|stream\.write|svg/i.test(t)) return true; if (/profile/i.test(P.callees(call)[0]?.getSourceFile?.().fileName ?? "")) return true; return false; };
  const evalData = (call) => C.sites.some((s) => s.call === call) || (ts.isPropertyAccessExpression(skip(call.expression)) && /^(send|addStyleTag|evaluate|evaluateHandle|locator|\$|\$\$|waitForSelector|setAttribute|getElementById|querySelector|querySelectorAll)$/.test(skip(call.expression).name.text));
  const FILEAPI = /^(fs|fs\/promises|path|net|child_process):/;
  function reaches(node, kind, st, seen, name) {
    // st: raw | elapsed | name   (name: a private marker/temp-file name)
    const k = node.pos + ":" + node.getSourceFile().fileName + ":" + st; if (seen.has(k)) return null; seen.add(k);
    let c = node, p = node.parent;
    for (;;) {
      if (ts.isParenthesizedExpression(p) || ts.isAsExpression(p) || ts.isNonNullExpression(p) || ts.isAwaitExpression(p) || (ts.isConditionalExpression(p) && p.condition !== c) || ts.isSpreadElement(p)) { c = p; p = p.parent; continue; }
      if (ts.isConditionalExpression(p)) return decides(c, seen);
      if (ts.isBinaryExpression(p)) {
        const op = p.operatorToken.kind;
        if (CMP.has(op)) return decides(p, seen);
        if (op === K.MinusToken && kind === "clock" && P.type(p.left).flags & ts.TypeFlags.NumberLike) { st = "elapsed"; c = p; p = p.parent; continue; }
        if (op >= K.FirstAssignment && op <= K.LastAssignment && p.right === c) return followTo(p.left, kind, st, seen, name) ?? null;
        c = p; p = p.parent; continue;
      }
      if (ts.isPropertyAccessExpression(p) && p.expression === c) { // method on the value: slice, toString, replaceAll, toISOString
        if (ts.isCallExpression(p.parent) && p.parent.expression === p) { c = p.parent; p = c.parent; continue; }
        c = p; p = p.parent; continue;
      }
      if (ts.isTemplateSpan(p)) { const t = p.parent; const lit = [t.head.text, ...t.templateSpans.map((s) => s.literal.text)].join("\u0000");
        if (/<[a-zA-Z]/.test(lit)) return `is written into markup at ${P.loc(t)}`;
        if (st === "raw" && /(domotion|^dm-|^\\\\|tmp|\.part)/i.test(lit) || name) { st = "name"; }
        c = t; p = t.parent; continue; }
      if (ts.isPrefixUnaryExpression(p) || ts.isTypeOfExpression(p) || ts.isVoidExpression(p)) { c = p; p = p.parent; continue; }
      break;
    }
    if (ts.isExpressionStatement(p) || ts.isIfStatement(p) || ts.isWhileStatement(p) || ts.isDoStatement(p) || ts.isForStatement(p)) return null;
    if (ts.isVariableDeclaration(p) && ts.isIdentifier(p.name)) return follow(p, kind, st, seen, name);
    if (ts.isPropertyAssignment(p) || ts.isShorthandPropertyAssignment(p)) return fieldSink(p, kind, st, seen, name);
    if (ts.isArrayLiteralExpression(p)) return st === "name" ? null : strictMsg(p, kind, st);
    if (ts.isElementAccessExpression(p)) return null; // used as a key
    if (ts.isComputedPropertyName(p)) return null;
    if (ts.isReturnStatement(p) || (isFn(p) && p.body === c)) {
      const fn = isFn(p) ? p : P.enclosingFn(p); if (!fn) return null;
      const invs = F.invocations(fn); let hit = null; for (const k2 of invs) { hit ??= reaches(k2, kind, st, seen, name); if (hit) break; }
      if (!invs.length && st === "raw" && strict(fn)) return `is returned by ${P.fnName(fn)}`;
      if (!hit && !invs.length && st === "raw" && exportedFn(fn)) return `is returned by ${P.fnName(fn)}`;
      return hit;
    }
    if (ts.isCallExpression(p) || ts.isNewExpression(p)) {
      if (!(p.arguments ?? []).includes(c)) return null;
      if (ts.isCallExpression(p) && (isLog(p) || evalData(p))) return null;
      const x = P.externalName(p.expression) ?? "";
      if (FILEAPI.test(x)) { if (/^path:/.test(x)) return reaches(p, kind, "name", seen, true); return /write|append/i.test(x) && (p.arguments ?? []).indexOf(c) > 0 ? `is written to a file at ${P.loc(p)}` : null; }
      const fns = P.callees(p); const i = (p.arguments ?? []).indexOf(c);
      if (fns.length) { for (const g of fns) { const prm = g.parameters[Math.min(i, g.parameters.length - 1)]; if (prm && ts.isIdentifier(prm.name)) { const r = follow(prm, kind, st, seen, name); if (r) return r; } } return null; }
      if (ts.isNewExpression(p) && x === "lib:Date") return reaches(p, kind, st, seen, name);
      if (/^lib:(Math|Number|String|Array|Map|Set)/.test(x)) { if (/\.(set|add|has|get|delete)$/.test(x)) return null; if (/\.push$/.test(x)) return st === "name" || st === "elapsed" ? null : strictMsg(p, kind, st); return reaches(p, kind, st, seen, name); }
      if (/setTimeout|setInterval|Segmenter/.test(x)) return null;
      return st === "name" || st === "elapsed" ? null : reaches(p, kind, st, seen, name);
    }
    return null;
  }
  /** what a test of the clock (or of a random value) decides: giving up or going on waiting is all it may */
  function decides(node, seen) {
    const k = "?" + node.pos + ":" + node.getSourceFile().fileName; if (seen.has(k)) return null; seen.add(k);
    let c = node, p = node.parent;
    for (;;) {
      if (ts.isParenthesizedExpression(p) || ts.isAsExpression(p) || ts.isPrefixUnaryExpression(p)) { c = p; p = p.parent; continue; }
      if (ts.isBinaryExpression(p) && [K.AmpersandAmpersandToken, K.BarBarToken].includes(p.operatorToken.kind)) { c = p; p = p.parent; continue; }
      break;
    }
    if (ts.isConditionalExpression(p) && p.condition === c) { let q = p; while (q.parent && !ts.isStatement(q)) { if (ts.isCallExpression(q.parent) && isLog(q.parent)) return null; q = q.parent; } return `chooses between two values at ${P.loc(p)}`; }
    if (ts.isVariableDeclaration(p) && ts.isIdentifier(p.name)) { for (const u of usesOf.get(p) ?? []) { const r = decides(u, seen); if (r) return r; } return null; }
    if (ts.isReturnStatement(p) || isFn(p) && p.body === c) { const fn = isFn(p) ? p : P.enclosingFn(p); for (const k2 of fn ? F.invocations(fn) : []) { const r = decides(k2, seen); if (r) return r; } return null; }
    if (ts.isIfStatement(p) && p.expression === c) {
      for (let q = p.parent; q && !isFn(q); q = q.parent) if (ts.isWhileStatement(q) || ts.isDoStatement(q) || ts.isForStatement(q) && !q.incrementor) return null; // a wait that gives up
      const gives = (s) => { if (!s) return true; if (ts.isBlock(s)) return s.statements.every(gives); if (ts.isThrowStatement(s)) return true; if (ts.isExpressionStatement(s)) { const e = skip(s.expression); return ts.isCallExpression(e) && (isLog(e) || !!(P.type(e).flags & ts.TypeFlags.Never)); } return ts.isReturnStatement(s) && false; };
      return gives(p.thenStatement) && gives(p.elseStatement) ? null : `decides what is done at ${P.loc(p)}`;
    }
    return null;
  }
  function strictMsg(n, kind, st) { return st === "raw" && strict(n) ? `is kept in output-building state at ${P.loc(n)}` : null; }
  function exportedFn(f) { let d = f; if (ts.isArrowFunction(f) || ts.isFunctionExpression(f)) d = f.parent?.parent?.parent ?? f; return !!(ts.canHaveModifiers?.(d) && (ts.getModifiers(d) ?? []).some((m) => m.kind === K.ExportKeyword)); }
  function follow(d, kind, st, seen, name) { for (const u of usesOf.get(d) ?? []) { const r = reaches(u, kind, st, seen, name); if (r) return r; } return null; }
  function followTo(lhs, kind, st, seen, name) {
    lhs = skip(lhs); if (ts.isIdentifier(lhs)) { for (const d of P.declsOf(lhs)) { const r = follow(d, kind, st, seen, name); if (r) return r; } return null; }
    if (ts.isPropertyAccessExpression(lhs)) for (const d of P.declsOf(lhs)) { if (capturedField(d)) return `is stored in the captured tree at ${P.loc(lhs)}`; const r = follow(d, kind, st, seen, name); if (r) return r; }
    return null;
  }
  function fieldSink(p, kind, st, seen, name) {
    const obj = p.parent; const nm = p.name?.text; const ct = ts.isObjectLiteralExpression(obj) ? P.checker.getContextualType(obj) : null;
    const decls = new Set(ct && nm ? F.propDecls(ct, nm) : []); for (const d of P.declsOf(p.name)) decls.add(d); decls.add(p);
    for (const d of decls) { if (d.getSourceFile && capturedField(d)) return `is stored in the captured tree at ${P.loc(p)}`; }
    // handed to a page evaluation or a local probe record: follow the field
    let c = obj, q = obj.parent; while (ts.isObjectLiteralExpression(q) || ts.isPropertyAssignment(q) || ts.isAsExpression(q)) { c = q; q = q.parent; }
    if (ts.isCallExpression(q) && (evalData(q) || isLog(q))) return null;
    for (const d of decls) { const r = follow(d, kind, st, seen, name); if (r) return r; }
    if (/Diagnostic|Profile|Trace/.test(ct?.symbol?.name ?? ct?.aliasSymbol?.name ?? "")) return null;
    return st === "raw" && strict(p) && kind === "random" ? `is stored in a field at ${P.loc(p)}` : null;
  }
  for (const [s, kind] of sources) {
    cnt(s, kind === "clock" ? "clock reads" : kind === "pid" ? "process identity reads" : "random reads"); cnt(s, "sources");
    const r = reaches(s, kind, "raw", new Set(), false);
    ctx.oblige(!r, s, "leak", `${P.fnId(P.enclosingFn(s))}|${P.text(s, 40)}`, `${kind === "clock" ? "the current time" : kind === "pid" ? "the process id" : "a random value"} read here ${r ?? ""}`);
  }

  // locale
  const LOC = /^lib:(String|Number|Date|Array|BigInt|ReadonlyArray)\.(toLocale\w+|localeCompare)$/;
  for (const c of P.calls) {
    if (!scope(c)) continue; const e = skip(c.expression ?? c.tag); const x = P.externalName(e) ?? "";
    let bad = null;
    if (LOC.test(x)) { const li = /localeCompare/.test(x) ? 1 : 0; const a = c.arguments?.[li]; bad = !a || (ts.isIdentifier(skip(a)) && skip(a).text === "undefined"); }
    else if (/^lib:(NumberFormat|DateTimeFormat|Collator|PluralRules|ListFormat|RelativeTimeFormat|DisplayNames)/.test(x) || /^Intl\.(NumberFormat|DateTimeFormat|Collator|PluralRules|ListFormat|RelativeTimeFormat|DisplayNames)$/.test(e.getText())) { if (!(ts.isCallExpression(c) || ts.isNewExpression(c)) || /\.\w+\.\w+$/.test(e.getText()) ) continue; const a = c.arguments?.[0]; bad = !a || (ts.isIdentifier(skip(a)) && skip(a).text === "undefined"); if (bad && localeProbe(c)) bad = false; }
    if (bad === null) continue; cnt(c, "locale-sensitive operations");
    ctx.oblige(!bad, c, "locale", `${P.fnId(P.enclosingFn(c))}|${P.text(e, 40)}`, "result depends on the host's default locale");
  }
  // reading the default locale itself is an input (Chromium falls back by it), formatting with it is not
  function localeProbe(c) { const p = c.parent; return ts.isPropertyAccessExpression(p) && p.name.text === "resolvedOptions"; }

  // directory listings
  for (const c of P.calls) { if (!ts.isCallExpression(c) || !scope(c)) continue; const x = P.externalName(c.expression) ?? ""; if (!/^fs(\/promises)?:(readdir|readdirSync|opendir|glob|globSync)$/.test(x)) continue; cnt(c, "directory listings");
    let p = c.parent, ch = c, sorted = false; const fn = P.enclosingFn(c);
    const chainSorted = (e) => { let q = e.parent, cc = e; while (q && (ts.isAwaitExpression(q) || ts.isParenthesizedExpression(q) || ts.isPropertyAccessExpression(q) || (ts.isCallExpression(q) && q.expression === cc))) { if (ts.isPropertyAccessExpression(q) && ["sort", "toSorted", "some", "every", "includes", "length"].includes(q.name.text)) return true; cc = q; q = q.parent; } return ts.isVariableDeclaration(q) ? { v: q } : ts.isNewExpression(q) && /^(Set)$/.test(q.expression.getText()) ? true : false; };
    const r = chainSorted(c); if (r === true) sorted = true; else if (r?.v) { const us = usesOf.get(r.v) ?? []; sorted = us.length > 0 && us.every((u) => chainSorted(u) === true); }
    ctx.oblige(sorted, c, "listing", `${P.fnId(fn)}|${P.text(c.expression, 30)}`, "directory entries are used in file-system order"); }

  // completion order
  for (const f of P.functions) {
    if (!scope(f) || !f.modifiers?.some((m) => m.kind === K.AsyncKeyword)) continue;
    const concurrent = isConcurrent(f); if (!concurrent) continue; cnt(f, "concurrent callbacks");
    let firstAwait = Infinity; walk(f.body, (n) => { if (isFn(n)) return false; if (ts.isAwaitExpression(n) || ts.isForOfStatement(n) && n.awaitModifier) firstAwait = Math.min(firstAwait, n.end); });
    walk(f.body, (n) => {
      if (isFn(n)) return false;
      let tgt = null, what = null;
      if (ts.isCallExpression(n) && ts.isPropertyAccessExpression(skip(n.expression)) && ["push", "unshift", "splice"].includes(skip(n.expression).name.text)) { tgt = skip(n.expression).expression; what = "appends to"; if (n.end < firstAwait && !n.arguments.some((a) => { let h = false; walk(a, (z) => { if (ts.isAwaitExpression(z)) h = true; }); return h; })) return; }
      if (ts.isBinaryExpression(n) && n.operatorToken.kind === K.PlusEqualsToken && P.type(n.left).flags & ts.TypeFlags.StringLike) { tgt = n.left; what = "extends"; }
      if (ts.isCallExpression(n) && ts.isPropertyAccessExpression(skip(n.expression)) && ["set", "add"].includes(skip(n.expression).name.text) && n.end > firstAwait && /^(Map|Set)$/.test(P.type(skip(n.expression).expression).symbol?.name ?? "")) { const r = rootDecl(skip(n.expression).expression); if (r && iterated(r)) { tgt = skip(n.expression).expression; what = "inserts into the iterated collection"; } else if (r && !inside(r, f)) { cnt(n, "keyed inserts in concurrent work"); return; } }
      if ((ts.isPostfixUnaryExpression(n) || ts.isPrefixUnaryExpression(n)) && [K.PlusPlusToken, K.MinusMinusToken].includes(n.operator) && !ts.isExpressionStatement(n.parent) && !ts.isForStatement(n.parent) && n.pos > firstAwait) { tgt = n.operand; what = "numbers its result from"; }
      if (!tgt || n.pos < firstAwait && what === "extends") return;
      const root = rootDecl(tgt); if (!root || inside(root, f)) return;
      const elemRoot = concurrentParam(root);
      if (elemRoot) return;
      cnt(n, "shared-state appends in concurrent work");
      ctx.oblige(unordered(tgt) || !/warn|diag|error|failure/i.test(tgt.getText()) && sortedLater(root, f) || cleanupList(root), n, "completion-order", `${P.fnId(P.enclosingFn(f))}|${P.text(tgt, 40)}`, `${what} ${P.text(tgt, 40)} after a suspension point in concurrent work: the order depends on which operation finishes first`);
    });
  }
  function isConcurrent(f) { let p = f.parent; if (ts.isCallExpression(p) && p.arguments.includes(f) && ts.isPropertyAccessExpression(skip(p.expression)) && ["map", "flatMap", "forEach", "from"].includes(skip(p.expression).name.text)) return true;
    // tasks.push((async () => …)())
    while (ts.isParenthesizedExpression(p)) p = p.parent; if (ts.isCallExpression(p) && ts.isCallExpression(p.parent) && ts.isPropertyAccessExpression(skip(p.parent.expression)) && skip(p.parent.expression).name.text === "push") return true; 
    // named async worker handed to map by reference, or started in a loop into an array
    return (F.argUses.get(f) ?? []).some((u) => ts.isPropertyAccessExpression(skip(u.call.expression ?? u.call.tag)) && ["map", "flatMap"].includes(skip(u.call.expression).name.text)); }
  function rootDecl(e) { e = skip(e); while (ts.isPropertyAccessExpression(e) || ts.isElementAccessExpression(e) || ts.isCallExpression(e)) e = skip(e.expression); return ts.isIdentifier(e) ? P.declsOf(e)[0] : null; }
  function inside(d, f) { let p = d; while (p) { if (p === f) return true; p = p.parent; } return false; }
  function concurrentParam(d) { // parameter of an enclosing concurrent callback: private to that unit of work
    const fn = P.enclosingFn(d); return false && fn; }
  function sortedLater(d) { return (usesOf.get(d) ?? []).some((u) => ts.isPropertyAccessExpression(u.parent) && u.parent.expression === u && ["sort", "toSorted"].includes(u.parent.name.text)); }
  /** a private list of what to clean up later: only appended to and published under a private registry */
  function cleanupList(d) { return (usesOf.get(d) ?? []).every((u) => { const q = u.parent; if (ts.isPropertyAccessExpression(q) && q.expression === u && q.name.text === "push") return true; return ts.isBinaryExpression(q) && q.right === u && /__domotion/.test(q.left.getText()); }); }
  function iterated(d) { return (usesOf.get(d) ?? []).some((u) => { const q = u.parent; if (ts.isForOfStatement(q) && q.expression === u || ts.isSpreadElement(q)) return true; if (ts.isPropertyAccessExpression(q) && q.expression === u && ["entries", "values", "keys", "forEach"].includes(q.name.text)) return true; return ts.isCallExpression(q) && /^(Array\.from|Object\.fromEntries)$/.test(q.expression.getText()); }); }
  /** messages to a reader; a list this function itself goes on to read must be put in order first */
  function unordered(t) {
    if (!/warn|diag|error|failure/i.test(t.getText())) return false; const d = rootDecl(t); if (!d || !ts.isVariableDeclaration(d)) return true;
    return (usesOf.get(d) ?? []).every((u) => { const q = u.parent; if (ts.isPropertyAccessExpression(q) && q.expression === u && ["push", "length"].includes(q.name.text)) return true;
      for (let z = u; z.parent && !ts.isStatement(z); z = z.parent) { if (ts.isPropertyAccessExpression(z.parent) && z.parent.expression === z && ["sort", "toSorted"].includes(z.parent.name.text)) return true; if (ts.isCallExpression(z.parent) && isLog(z.parent)) return true; if (ts.isThrowStatement(z.parent)) return true; }
      return false; });
  }
  // the first of several results
  for (const c of P.calls) {
    if (!ts.isCallExpression(c) || !scope(c) || !/^lib:PromiseConstructor\.(race|any)$/.test(P.externalName(c.expression) ?? "")) continue;
    cnt(c, "races"); const a = c.arguments[0] && skip(c.arguments[0]);
    ctx.oblige(!!a && ts.isArrayLiteralExpression(a) && !a.elements.some(ts.isSpreadElement), c, "race", `${P.fnId(P.enclosingFn(c))}|race`, "only the first of a list of operations to finish is taken: which one depends on timing");
  }
  ctx.floor("sources", 15); ctx.floor("concurrent callbacks", 5);
  ctx.expectFixture("clockId", "clockChooses", "firstDone", "randomClass", "makeId", "localeNumber", "localeOrder", "listing", "completionOrder", "completionMap");
  for (const h of ctx.fixtureHits) if (/#ok/.test(h)) ctx.anchor(false, "negative example reported: " + h);
}
