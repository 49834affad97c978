// Loads /repo's current working tree into a type-checked TypeScript Program and
// indexes functions, calls, writes and symbols. Everything downstream works on
// resolved declarations, never on source text.
import { createRequire } from "node:module";
import fs from "node:fs";
import path from "node:path";
import { makeNormaliser } from "./normal.mjs";

const require = createRequire(import.meta.url);
export const REPO = process.env.VERIF_REPO ?? "/repo";
function loadTs() {
  for (const p of ["/opt/veriftools/node/node_modules/typescript", `${REPO}/node_modules/typescript`]) {
    try { return require(p); } catch { /* next */ }
  }
  throw new Error("typescript compiler not found");
}
export const ts = loadTs();
export const K = ts.SyntaxKind;

/** @returns the Program over every non-test source file of the shipped package. */
export function loadProgram(opts = {}) {
  const root = opts.root ?? REPO;
  const base = ts.readConfigFile(path.join(root, "tsconfig.build.json"), ts.sys.readFile);
  if (base.error) throw new Error(ts.flattenDiagnosticMessageText(base.error.messageText, "\n"));
  const parsed = ts.parseJsonConfigFileContent(
    { ...base.config, include: ["src/**/*.ts", "src/**/*.tsx"],
      exclude: ["src/**/*.test.ts", "src/**/*.test.tsx", "src/test-support/**", "src/review/client.tsx", "src/scrubber/client.tsx"] },
    ts.sys, root);
  const options = { ...parsed.options, noEmit: true, incremental: false, composite: false, declaration: false };
  let fileNames = parsed.fileNames;
  const host = ts.createCompilerHost(options, true);
  const normal = makeNormaliser(ts, { literals: opts.literals !== false, keep: opts.keep }), gs0 = host.getSourceFile.bind(host);
  host.getSourceFile = (f, lv, oe, sc) => { // our own sources are brought into a normal form; libraries are taken as they are
    if (f.endsWith(".d.ts") || !f.startsWith(root + "/src/") || f.includes("/node_modules/") || f.endsWith(".generated.ts")) return gs0(f, lv, oe, sc);
    const text = ts.sys.readFile(f); return text === undefined ? undefined : normal(f, text, lv);
  };
  if (opts.extraFiles) { // virtual fixtures: {absPath: text}
    fileNames = opts.only ? Object.keys(opts.extraFiles) : [...fileNames, ...Object.keys(opts.extraFiles)];
    const rf = host.readFile.bind(host), fe = host.fileExists.bind(host), gs = host.getSourceFile.bind(host);
    host.readFile = (f) => opts.extraFiles[f] ?? rf(f);
    host.fileExists = (f) => f in opts.extraFiles || fe(f);
    host.getSourceFile = (f, lv, oe, sc) => f in opts.extraFiles
      ? normal(f, opts.extraFiles[f], lv) : gs(f, lv, oe, sc);
  }
  const program = ts.createProgram({ rootNames: fileNames, options, host });
  const checker = program.getTypeChecker();
  const files = program.getSourceFiles().filter((f) => !f.isDeclarationFile && !f.fileName.includes("/node_modules/") &&
    (f.fileName.startsWith(root + "/src/") || (opts.extraFiles && f.fileName in opts.extraFiles)));
  return new Prog(root, program, checker, files);
}

export const isFn = (n) => ts.isFunctionDeclaration(n) || ts.isFunctionExpression(n) || ts.isArrowFunction(n) ||
  ts.isMethodDeclaration(n) || ts.isConstructorDeclaration(n) || ts.isGetAccessor(n) || ts.isSetAccessor(n);

export function walk(node, cb) { // pre-order; cb returning false prunes
  if (cb(node) === false) return;
  ts.forEachChild(node, (c) => walk(c, cb));
}
/** Walk a function body without descending into nested functions/classes. */
export function walkOwn(node, cb) {
  const go = (n) => {
    if (n !== node && (isFn(n) || ts.isClassLike(n))) { cb(n, true); return; }
    if (cb(n, false) === false) return;
    ts.forEachChild(n, go);
  };
  ts.forEachChild(node, go);
}
export function skip(e) { // strip syntactic wrappers that do not change the value
  for (;;) {
    if (ts.isParenthesizedExpression(e) || ts.isAsExpression(e) || ts.isNonNullExpression(e) ||
        ts.isTypeAssertionExpression?.(e) || ts.isSatisfiesExpression(e)) e = e.expression;
    else return e;
  }
}

export class Prog {
  constructor(root, program, checker, files) {
    this.root = root; this.program = program; this.checker = checker; this.files = files;
    this.functions = []; this.calls = []; this.fnCalls = new Map();
    for (const f of files) walk(f, (n) => {
      if (isFn(n) && n.body) this.functions.push(n);
      if (ts.isCallExpression(n) || ts.isNewExpression(n) || ts.isTaggedTemplateExpression(n)) this.calls.push(n);
    });
  }
  rel(n) { const sf = n.getSourceFile(); return path.relative(this.root, sf.fileName); }
  file(p) { return this.files.find((f) => f.fileName === path.join(this.root, p)); }
  loc(n) {
    const sf = n.getSourceFile();
    const at = n.getStart(sf), { line } = sf.__origin ? sf.__original.getLineAndCharacterOfPosition(sf.__origin[at]) : sf.getLineAndCharacterOfPosition(at);
    return `${this.rel(n)}:${line + 1}`;
  }
  text(n, max = 90) { const t = n.getText().replace(/\s+/g, " "); return t.length > max ? t.slice(0, max) + "…" : t; }
  enclosingFn(n) { let p = n.parent; while (p && !isFn(p)) p = p.parent; return p ?? null; }
  topFn(n) { let f = null, p = n; while (p) { if (isFn(p)) f = p; p = p.parent; } return f; }
  fnName(f) {
    if (!f) return "<module>";
    if (ts.isConstructorDeclaration(f)) return `${f.parent.name?.text ?? "class"}.constructor`;
    if (f.name && !ts.isComputedPropertyName(f.name)) {
      const c = ts.isClassLike(f.parent) ? f.parent.name?.text + "." : "";
      return c + f.name.text;
    }
    let p = f.parent;
    while (p && (ts.isParenthesizedExpression(p) || ts.isAsExpression(p) || ts.isSatisfiesExpression(p))) p = p.parent;
    if (p && (ts.isVariableDeclaration(p) || ts.isPropertyAssignment(p) || ts.isPropertyDeclaration(p)) && p.name) return p.name.getText();
    const e = this.enclosingFn(f);
    return (e ? this.fnName(e) : "<module>") + ">λ";
  }
  /** Stable, position-independent identity for tables: file#function. */
  fnId(f) { return f ? `${this.rel(f)}#${this.fnName(f)}` : "<none>"; }

  sym(node) {
    let s = this.checker.getSymbolAtLocation(node);
    if (!s && ts.isPropertyAccessExpression(node)) s = this.checker.getSymbolAtLocation(node.name);
    return this.unalias(s);
  }
  unalias(s) {
    while (s && (s.flags & ts.SymbolFlags.Alias)) {
      const a = this.checker.getAliasedSymbol(s);
      if (!a || a === s || a.escapedName === "unknown") break;
      s = a;
    }
    return s;
  }
  declsOf(node) {
    let n = node;
    if (ts.isIdentifier(n) && n.parent && ts.isShorthandPropertyAssignment(n.parent) && n.parent.name === n) {
      const v = this.unalias(this.checker.getShorthandAssignmentValueSymbol(n.parent));
      return v?.declarations ?? [];
    }
    if (ts.isElementAccessExpression(n) && ts.isStringLiteralLike(n.argumentExpression)) { const t = this.checker.getTypeAtLocation(n.expression); const ds = this.unalias(this.checker.getPropertyOfType(this.checker.getNonNullableType(t), n.argumentExpression.text))?.declarations; if (ds?.length) return ds; }
    return this.sym(n)?.declarations ?? [];
  }
  type(n) { return this.checker.getTypeAtLocation(n); }
  typeStr(n) { return this.checker.typeToString(this.type(n)); }

  /** Fully-qualified name of an external/lib symbol, e.g. `fs.readFile`, `Array.prototype.sort`. */
  externalName(callee) {
    const s = this.sym(callee);
    if (!s || !s.declarations?.length) return null;
    const d = s.declarations[0];
    const sf = d.getSourceFile();
    const inRepo = this.files.includes(sf);
    if (inRepo) return null;
    let mod = null, p = d.parent, owner = null;
    while (p) {
      if (!owner && (ts.isInterfaceDeclaration(p) || ts.isClassDeclaration(p))) owner = p.name?.text ?? null;
      if (ts.isModuleDeclaration(p) && p.name) { mod = ts.isStringLiteral(p.name) ? p.name.text.replace(/^node:/, "") : (mod ? p.name.text + "." + mod : p.name.text); if (ts.isStringLiteral(p.name)) break; }
      p = p.parent;
    }
    if (!mod) {
      const m = /node_modules\/((?:@[^/]+\/)?[^/]+)/g; let r, last = null;
      while ((r = m.exec(sf.fileName))) last = r[1];
      mod = last === "typescript" ? "lib" : last ?? path.basename(sf.fileName);
    }
    return `${mod}:${owner ? owner + "." : ""}${s.getName()}`;
  }

  /** Function declarations (with bodies) a reference expression may denote, by resolution only. */
  fnsOfExpr(e, seen = new Set()) {
    e = skip(e);
    if (seen.has(e)) return [];
    seen.add(e);
    if (isFn(e)) return e.body ? [e] : [];
    if (ts.isConditionalExpression(e)) return [...this.fnsOfExpr(e.whenTrue, seen), ...this.fnsOfExpr(e.whenFalse, seen)];
    if (ts.isBinaryExpression(e) && [K.QuestionQuestionToken, K.BarBarToken, K.AmpersandAmpersandToken].includes(e.operatorToken.kind))
      return [...this.fnsOfExpr(e.left, seen), ...this.fnsOfExpr(e.right, seen)];
    if (!(ts.isIdentifier(e) || ts.isPropertyAccessExpression(e) || ts.isElementAccessExpression(e))) {
      if (ts.isCallExpression(e) && ts.isPropertyAccessExpression(e.expression) && e.expression.name.text === "bind") return this.fnsOfExpr(e.expression.expression, seen);
      return [];
    }
    return this.fnsOfDecls(this.declsOf(e), seen);
  }
  fnsOfDecls(decls, seen = new Set()) {
    const out = [];
    for (const d of decls) {
      if (isFn(d)) { if (d.body) out.push(d); else if (d.symbol) { for (const x of d.symbol.declarations) if (isFn(x) && x.body) out.push(x); } }
      else if ((ts.isVariableDeclaration(d) || ts.isPropertyDeclaration(d) || ts.isPropertyAssignment(d) || ts.isParameter(d) || ts.isBindingElement(d)) && d.initializer) out.push(...this.fnsOfExpr(d.initializer, seen));
      else if (ts.isShorthandPropertyAssignment(d)) { const s = this.unalias(this.checker.getShorthandAssignmentValueSymbol(d)); if (s?.declarations) out.push(...this.fnsOfDecls(s.declarations, seen)); }
      else if (ts.isClassDeclaration(d) || ts.isClassExpression(d)) { for (const m of d.members) if (ts.isConstructorDeclaration(m) && m.body) out.push(m); }
    }
    return [...new Set(out)];
  }
  /** Directly resolved callees of a call/new. */
  callees(call) {
    const e = ts.isTaggedTemplateExpression(call) ? call.tag : call.expression;
    return this.fnsOfExpr(e);
  }
  /** call graph: fn -> Set(fn), including functions passed as arguments or nested closures created there. */
  get callGraph() {
    if (this._cg) return this._cg;
    const cg = new Map();
    const add = (a, b) => { if (!cg.has(a)) cg.set(a, new Set()); cg.get(a).add(b); };
    for (const c of this.calls) {
      const from = this.enclosingFn(c) ?? c.getSourceFile();
      for (const f of this.callees(c)) add(from, f);
      for (const a of c.arguments ?? []) for (const f of this.fnsOfExpr(a)) add(from, f);
    }
    for (const f of this.functions) { const o = this.enclosingFn(f); add(o ?? f.getSourceFile(), f); }
    this._cg = cg; return cg;
  }
  get callers() {
    if (this._callers) return this._callers;
    const m = new Map();
    for (const c of this.calls) for (const f of this.callees(c)) { if (!m.has(f)) m.set(f, []); m.get(f).push(c); }
    this._callers = m; return m;
  }
  reachableFrom(roots) {
    const seen = new Set(roots), st = [...roots], cg = this.callGraph;
    while (st.length) for (const g of cg.get(st.pop()) ?? []) if (!seen.has(g)) { seen.add(g); st.push(g); }
    return seen;
  }
  /** Find a uniquely named function, anywhere (robust to moves between files). */
  findFns(name) { return this.functions.filter((f) => this.fnName(f) === name || (f.name && f.name.getText?.() === name)); }
}
