// Which functions run inside the captured page rather than in this process:
// callbacks handed to the browser's evaluate/addInitScript family, everything
// nested in or called from them in the page bundle, and the client bundles.
import { ts, K, isFn, skip, walk } from "./program.mjs";

const EVAL = /^playwright-core:(Page|Frame|Worker|Locator|ElementHandle|JSHandle|BrowserContext)\.(evaluate|evaluateHandle|evaluateAll|addInitScript|\$eval|\$\$eval|waitForFunction)$/;

export class PageCtx {
  constructor(P, F) {
    this.P = P; this.F = F;
    this.sites = []; // {call, arg, fns, kind:'fn'|'string'}
    for (const c of P.calls) {
      if (!ts.isCallExpression(c)) continue;
      let x = P.externalName(c.expression);
      if (!x || !EVAL.test(x)) {
        // structural page-like interfaces declared in the repo: a method named evaluate taking a function or string
        if (!(ts.isPropertyAccessExpression(skip(c.expression)) && /^(evaluate|addInitScript|evaluateHandle)$/.test(skip(c.expression).name.text) && !P.callees(c).length)) continue;
        x = "structural";
      }
      const sel = /\$eval|\$\$eval/.test(x) ? 1 : 0;
      const a = c.arguments[sel]; if (!a) continue;
      const fns = F.targets(a).filter((f) => f.body);
      this.sites.push({ call: c, arg: a, fns, x, data: c.arguments[sel + 1] ?? null });
    }
    this.roots = new Set(this.sites.flatMap((s) => s.fns));
    // functions whose source text is taken (fn.toString()) run wherever that text is evaluated: in the page
    for (const c of P.calls) {
      if (!ts.isCallExpression(c)) continue; const e = skip(c.expression);
      if (ts.isPropertyAccessExpression(e) && e.name.text === "toString" && !c.arguments.length && P.type(e.expression).getCallSignatures?.().length + (P.type(e.expression).isUnion?.() ? P.type(e.expression).types.filter((t) => t.getCallSignatures().length).length : 0))
        for (const f of F.targets(e.expression)) if (f.body) { this.roots.add(f); this.sites.push({ call: c, arg: e.expression, fns: [f], x: "toString", data: null }); }
    }
    this.pageFns = new Set();
    for (const r of this.roots) { this.pageFns.add(r); walk(r.body, (n) => { if (isFn(n)) this.pageFns.add(n); }); }
    // modules bundled for the page (capture script and browser client code) — found through the bundle entry imports
    this.pageFiles = new Set();
    const entry = P.file("src/capture/script/index.ts");
    const add = (sf) => { if (!sf || this.pageFiles.has(sf)) return; this.pageFiles.add(sf);
      for (const st of sf.statements) if ((ts.isImportDeclaration(st) || ts.isExportDeclaration(st)) && st.moduleSpecifier && !st.importClause?.isTypeOnly) {
        // a purely type-only import list is erased
        if (ts.isImportDeclaration(st) && st.importClause?.namedBindings && ts.isNamedImports(st.importClause.namedBindings) && !st.importClause.name && st.importClause.namedBindings.elements.every((e) => e.isTypeOnly || !this.#isValue(e.name))) continue;
        const s = P.checker.getSymbolAtLocation(st.moduleSpecifier); const f = s?.declarations?.[0]?.getSourceFile(); if (f && P.files.includes(f)) add(f);
      } };
    this.captureEntry = entry;
    if (entry) add(entry);
  }
  #isValue(id) { const s = this.P.unalias(this.P.checker.getSymbolAtLocation(id)); return !!s && !!(s.flags & ts.SymbolFlags.Value); }
  /** runs in the page only (bundle code shared with the host counts as both) */
  inPage(node) {
    let p = node; while (p) { if (isFn(p) && this.pageFns.has(p)) return true; p = p.parent; }
    return false;
  }
}
