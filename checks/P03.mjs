import { ts, K, isFn, skip, walk } from "../lib/program.mjs";
import { PageCtx } from "../lib/pagectx.mjs";

export const keepNames = true; // a page function that names an outer constant must be seen to
export const rule = "Every function handed to the browser's evaluate/addInitScript family is serialised by source text: no identifier it reads may resolve to a declaration of this repository outside the function; its data argument carries no functions; code passed as a string may only splice in compile-time constants, numbers or JSON.stringify results; modules bundled for the page use no Node API.";
export const assumptions = ["type-checked call resolution finds every evaluate call (member calls named evaluate/addInitScript/evaluateHandle on untyped receivers are included structurally)"];

export const fixtures = {
  "__verif_fixture_p03.ts": `
import type { Page } from "@playwright/test";
const OUTER_TABLE = new Map<string, number>([["a", 1]]);
function helper(n: number): number { return n + 1; }
export async function leakyClosure(page: Page): Promise<number> { return await page.evaluate(() => helper(document.body.childElementCount)); }
export async function leakyTable(page: Page, k: string): Promise<number | undefined> { const cb = (key: string): number | undefined => OUTER_TABLE.get(key); return await page.evaluate(cb, k); }
export async function leakyString(page: Page, sel: string): Promise<unknown> { return await page.evaluate(\`document.querySelector('\${sel}')\`); }
export async function leakyArg(page: Page): Promise<unknown> { return await page.evaluate((o: { f: unknown }) => String(o.f), { f: () => 1 }); }
`,
};

const hasFunctionMember = (P, t, depth = 0, seen = new Set()) => {
  if (!t || depth > 4 || seen.has(t)) return null; seen.add(t);
  if (t.flags & (ts.TypeFlags.Any | ts.TypeFlags.Unknown)) return null;
  if (t.isUnionOrIntersection?.()) { for (const u of t.types) { const r = hasFunctionMember(P, u, depth, seen); if (r) return r; } return null; }
  if (!(t.flags & ts.TypeFlags.Object)) return null;
  if (t.getCallSignatures().length) return "function value";
  const nm = t.symbol?.name;
  if (["Array", "ReadonlyArray", "Map", "Set", "Date", "RegExp", "URL", "JSHandle", "ElementHandle", "SmartHandle", "Uint8Array", "Buffer", "Promise"].includes(nm) || P.checker.isTupleType?.(t)) {
    if (["Promise"].includes(nm)) return "unresolved promise";
    for (const a of P.checker.getTypeArguments?.(t) ?? []) { const r = hasFunctionMember(P, a, depth + 1, seen); if (r) return r; }
    return null;
  }
  for (const p of t.getProperties()) { const r = hasFunctionMember(P, P.checker.getTypeOfSymbol(p), depth + 1, seen); if (r) return `${r} in .${p.name}`; }
  return null;
};

export function run(ctx) {
  const { P, F } = ctx; const C = new PageCtx(P, F);
  ctx.anchor(!!C.captureEntry, "page-side capture program (bundled entry module)");
  const within = (d, fn) => { let p = d; while (p) { if (p === fn) return true; p = p.parent; } return false; };
  const done = new Set();
  for (const s of C.sites) {
    if (!ctx.isFixture(s.call)) ctx.count("evaluate-sites");
    for (const fn of s.fns) {
      if (done.has(fn)) continue; done.add(fn);
      if (!ctx.isFixture(fn)) ctx.count("page-functions");
      const bad = new Map(); let idents = 0;
      walk(fn, (n) => {
        if (ts.isTypeNode(n)) return false;
        if (!ts.isIdentifier(n)) return;
        const p = n.parent;
        if (ts.isPropertyAccessExpression(p) && p.name === n) return;
        if ((ts.isPropertyAssignment(p) || ts.isMethodDeclaration(p) || ts.isPropertyDeclaration(p) || ts.isPropertySignature(p)) && p.name === n) return;
        if (ts.isBindingElement(p) && p.propertyName === n) return;
        idents++;
        for (const d of P.declsOf(n)) {
          const sf = d.getSourceFile();
          if (!P.files.includes(sf) || within(d, fn)) continue;
          if (ts.isInterfaceDeclaration(d) || ts.isTypeAliasDeclaration(d) || ts.isTypeParameterDeclaration(d) || ts.isPropertySignature(d) || ts.isPropertyAssignment(d) || ts.isShorthandPropertyAssignment(d) && d !== p) continue;
          if (ts.isEnumDeclaration(d) && d.modifiers?.some((m) => m.kind === K.ConstKeyword)) continue;
          let amb = d; while (amb && !ts.isSourceFile(amb)) { if (amb.modifiers?.some((m) => m.kind === K.DeclareKeyword) || (ts.isModuleDeclaration(amb) && amb.name.text === "global")) break; amb = amb.parent; }
          if (amb && !ts.isSourceFile(amb)) continue; // ambient global, provided by the page
          if (ts.isInTypeQuery?.(n) || (ts.isTypeQueryNode?.(p))) continue;
          bad.set(n.text, n);
        }
      });
      const id = P.fnId(P.enclosingFn(fn)) ;
      ctx.oblige(bad.size === 0, fn, "closure", `${id}|${[...bad.keys()].sort().join(",")}`,
        `function run inside the page reads ${[...bad].map(([k, n]) => `"${k}" (${P.loc(n)})`).join(", ")}, which is declared outside it and does not exist there`);
      if (!ctx.isFixture(fn)) ctx.count("identifiers-resolved", idents);
      // a function that is itself bound or async-generator etc. is fine; nested `this`/`super` of outer scope are not
      let outerThis = null; if (ts.isArrowFunction(fn)) walk(fn.body, (n) => { if (isFn(n) && !ts.isArrowFunction(n)) return false; if (n.kind === K.ThisKeyword || n.kind === K.SuperKeyword) outerThis = n; });
      if (outerThis) { let q = fn.parent, cls = false; while (q) { if (ts.isClassLike(q)) cls = true; q = q.parent; } ctx.oblige(!cls, outerThis, "closure-this", id, "page-side arrow function uses the host object's `this`"); }
    }
    if (s.data) {
      const why = hasFunctionMember(P, P.type(s.data));
      ctx.oblige(!why, s.data, "argument", `${P.fnId(P.enclosingFn(s.call))}|${P.text(s.data, 60)}`, `argument sent to the page is not serialisable: ${why}`);
      if (!ctx.isFixture(s.call)) ctx.count("data-arguments");
    }
    if (!s.fns.length) stringCode(ctx, s);
  }
  // program text: every leaf it is concatenated from must be inert
  function stringCode(ctx, s) {
    if (!ctx.isFixture(s.call)) ctx.count("string-programs");
    const bad = []; const seen = new Set();
    const num = (e) => !!(P.type(e).flags & (ts.TypeFlags.NumberLike | ts.TypeFlags.BooleanLike));
    const go = (e, depth, top) => {
      e = skip(e); if (ts.isAwaitExpression(e)) e = skip(e.expression);
      const k = e; if (seen.has(k)) return; seen.add(k);
      if (depth > 10) { bad.push(e); return; }
      if (ts.isStringLiteralLike(e) || num(e) || e.kind === K.NullKeyword) return;
      if (!top && !ctx.isFixture(s.call)) ctx.count("code-holes");
      if (ts.isTemplateExpression(e)) { for (const t of e.templateSpans) go(t.expression, depth + 1); return; }
      if (ts.isBinaryExpression(e)) { go(e.left, depth + 1); go(e.right, depth + 1); return; }
      if (ts.isConditionalExpression(e)) { go(e.whenTrue, depth + 1); go(e.whenFalse, depth + 1); return; }
      if (ts.isCallExpression(e)) {
        if (P.externalName(e.expression) === "lib:JSON.stringify") return;
        const c = skip(e.expression);
        if (ts.isPropertyAccessExpression(c) && c.name.text === "toString") {
          if (e.arguments.length && ts.isStringLiteral(e.arguments[0]) && ["base64", "hex"].includes(e.arguments[0].text)) return;
          if (F.targets(c.expression).length || P.type(c.expression).getCallSignatures().length || P.type(c.expression).isUnion?.()) { if (!(P.type(c.expression).flags & ts.TypeFlags.StringLike)) return; }
        }
        const fns = F.targets(e.expression);
        if (fns.length) { for (const f of fns) for (const r of F.returnsOf(f)) go(r, depth + 1); return; }
        if (ts.isPropertyAccessExpression(c) && c.name.text === "join") { go(c.expression, depth + 1); return; }
        bad.push(e); return;
      }
      if (ts.isPropertyAccessExpression(e) && isScriptField(e)) { if (!ctx.isFixture(s.call)) ctx.count("author-scripts"); return; }
      if (ts.isArrayLiteralExpression(e)) { for (const x of e.elements) go(x, depth + 1); return; }
      let any = false;
      for (const d of P.declsOf(e)) {
        if (ts.isParameter(d) && isFn(d.parent)) { const i = d.parent.parameters.indexOf(d); for (const c of F.invocations(d.parent)) { const a = c.arguments?.[i]; if (a) { any = true; go(a, depth + 1); } } }
        for (const w of F.writes.get(d) ?? []) if (w.expr) { any = true; go(w.expr, depth + 1); }
      }
      if (!any) bad.push(e);
    };
    go(s.arg, 0, true);
    ctx.oblige(bad.length === 0, s.call, "code-injection", `${P.fnId(P.enclosingFn(s.call))}|${bad.map((h) => P.text(h, 40)).join(",")}`,
      `source text evaluated in the page splices in ${bad.map((h) => `${P.text(h, 40)} (${P.loc(h)})`).join(", ")} without JSON.stringify`);
  }
  // the configuration's own script step: text the author wrote to be executed
  function isScriptField(e) { return ts.isPropertyAccessExpression(e) && e.name.text === "script" && P.declsOf(e).some((d) => ts.isPropertyAssignment(d) || ts.isPropertySignature(d)); }

  // bundled page modules: browser/ES only
  for (const sf of C.pageFiles) {
    ctx.count("bundled-modules");
    let bad = [];
    walk(sf, (n) => {
      if (ts.isImportDeclaration(n) && n.importClause && !n.importClause.isTypeOnly && ts.isStringLiteral(n.moduleSpecifier) && /^(node:|fs|path|os|child_process|crypto|url|module)/.test(n.moduleSpecifier.text) && !n.moduleSpecifier.text.startsWith(".")) bad.push(n);
      if (ts.isIdentifier(n) && ["process", "Buffer", "require", "__dirname", "__filename", "setImmediate"].includes(n.text) && !(ts.isPropertyAccessExpression(n.parent) && n.parent.name === n) && !ts.isPropertyAssignment(n.parent)) {
        const d = P.declsOf(n)[0]; if (d && /@types\/node/.test(d.getSourceFile().fileName)) bad.push(n);
      }
      if (ts.isMetaProperty(n) && !ts.isNewTarget?.(n) && n.keywordToken === K.ImportKeyword) bad.push(n);
    });
    ctx.oblige(!bad.length, bad[0] ?? sf, "page-module", P.rel(sf), `module bundled for the page uses a host-only API: ${bad.map((b) => P.text(b, 40)).join(", ")}`);
  }
  ctx.floor("evaluate-sites", 100); ctx.floor("page-functions", 90); ctx.floor("bundled-modules", 25); ctx.floor("string-programs", 5);
  ctx.expectFixture("leakyClosure|helper", "leakyTable|OUTER_TABLE", "leakyString", "leakyArg");
}
