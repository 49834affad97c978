import { ts, K, isFn, skip, walk } from "../lib/program.mjs";
import { Liveness } from "../lib/liveness.mjs";
import { Guards } from "../lib/guards.mjs";
import { PageCtx } from "../lib/pagectx.mjs";

export const rule = "For every util.parseArgs call: parsing is strict; surplus positionals are refused or never accepted (control flow: no normal exit is reachable on the branch that has too many); every declared flag reaches a use (forward liveness) and is named in the program's help text. Every conversion of argument text to a number is dominated, at each use of the number, by a finiteness test; every cast of argument text to a fixed set of words by a membership test. In the programs' entry code every catch of a failed command and every rejection handler ends in a non-zero exit on all paths; exit status 0 is reached only for help, version and shutdown signals; normal completion is reached only after the command ran or help was asked for.";
export const trusted = ["control-flow graph and guard decomposition (lib/cfg.mjs, lib/guards.mjs)", "node:util parseArgs rejects unknown options in strict mode"];

export const fixtures = {
  "__verif_fixture_p12.ts": `
import { parseArgs } from "node:util";
async function fxWork(x: unknown): Promise<void> { await fetch(String(x)); }
export async function fxSurplus(argv: string[]): Promise<void> {
  const { values, positionals } = parseArgs({ args: argv, allowPositionals: true, options: { fxn: { type: "string" }, fxdead: { type: "boolean" }, fxmode: { type: "string" } } });
  const n = Number(values.fxn);
  await fxWork(positionals[0] + n + (values.fxmode as "a" | "b"));
}
function fxFinite(n: number): number { if (!Number.isFinite(n)) throw new Error("bad"); return n; }
export async function okSurplus(argv: string[]): Promise<void> {
  const r = parseArgs({ args: argv, allowPositionals: true, options: { okn: { type: "string" }, okmode: { type: "string" } } });
  const tooMany = r.positionals.length > 1; if (tooMany) throw new Error("extra");
  const m = r.values.okmode; if (m !== undefined && m !== "a" && m !== "b") throw new Error("mode");
  await fxWork(r.positionals[0] + fxFinite(Number(r.values.okn)) + (m as "a" | "b"));
}
export function fxLax(argv: string[]): unknown { return parseArgs({ args: argv, strict: false, options: { fxl: { type: "string" } } }).values.fxl; }
`,
};

export function run(ctx) {
  const { P, F, T } = ctx; const c = P.checker; const L = new Liveness(P, F), G = new Guards(P, F, T), C = new PageCtx(P, F);
  const cnt = (n, k) => { if (!ctx.isFixture(n)) ctx.count(k); };
  const prop = (o, k) => o && ts.isObjectLiteralExpression(skip(o)) ? skip(o).properties.find((p) => p.name?.text === k) : null;
  const lit = (e) => { e = e && skip(e); return e && (ts.isStringLiteralLike(e)) ? e.text : null; };
  const parses = P.calls.filter((k) => ts.isCallExpression(k) && P.externalName(k.expression) === "util:parseArgs");

  // ---- A. declarations ----
  const helpTexts = []; // every long text of the CLI sources
  for (const f of P.files) if (/\/src\/cli\//.test(f.fileName)) walk(f, (n) => { if ((ts.isStringLiteralLike(n) || ts.isTemplateHead(n) || ts.isTemplateMiddle(n) || ts.isTemplateTail(n)) && n.text.includes("--")) helpTexts.push(n.text); });
  const help = helpTexts.join("\n");
  const flagDecls = new Set(); // declarations holding argument text
  for (const call of parses) {
    cnt(call, "argument parsers"); const fn = P.enclosingFn(call); const id = P.fnId(fn); const cfg = call.arguments[0];
    const strict = prop(cfg, "strict"); const sv = strict && skip(strict.initializer ?? strict.name);
    ctx.oblige(!strict || sv.kind === K.TrueKeyword, call, "strict", id, "unknown flags are accepted silently (parsing is not strict)");
    // positionals
    const ap = prop(cfg, "allowPositionals"); const allows = ap && skip(ap.initializer ?? ap.name).kind !== K.FalseKeyword;
    if (allows) { cnt(call, "parsers that accept positionals"); ctx.oblige(refusesSurplus(fn, call), call, "surplus-arguments", id, "surplus positional arguments are ignored instead of refused"); }
    // flags
    const opts = prop(cfg, "options"); let lits = [];
    const add = (e) => { e = skip(e); if (ts.isObjectLiteralExpression(e)) { lits.push(e); for (const p of e.properties) if (ts.isSpreadAssignment(p)) add(p.expression); } else if (ts.isIdentifier(e)) for (const d of P.declsOf(e)) if (d.initializer) add(d.initializer); };
    if (opts) add(ts.isShorthandPropertyAssignment(opts) ? opts.name : opts.initializer);
    ctx.oblige(lits.length > 0, call, "flags", id, "the declared flags of this parser cannot be found");
    const direct = lits.length === 1 && opts && ts.isPropertyAssignment(opts) && skip(opts.initializer) === lits[0];
    for (const o of lits) for (const p of o.properties) {
      if (!ts.isPropertyAssignment(p)) continue; const name = p.name.text; cnt(p, "declared flags"); flagDecls.add(p);
      const live = direct ? L.effective(p) : readByName(fn, name);
      ctx.oblige(live, p, "flag-effect", `${id}|--${name}`, `flag --${name} is accepted but nothing that uses it is reached`);
      if (!ctx.isFixture(p)) ctx.oblige(new RegExp(`--${name}(?![\\w-])`).test(help), p, "flag-documented", `${id}|--${name}`, `flag --${name} is missing from the help text`);
    }
  }
  ctx.floor("argument parsers", 8); ctx.floor("declared flags", 80); ctx.floor("parsers that accept positionals", 4);

  function readByName(fn, name) { // derived option sets: the parsed result is read by name
    let hit = false;
    walk(fn, (n) => { if (ts.isPropertyAccessExpression(n) && n.name.text === name || ts.isElementAccessExpression(n) && lit(n.argumentExpression) === name) hit = hit || !ts.isExpressionStatement(n.parent); });
    return hit;
  }
  function isPositionals(e, subst) {
    e = G.resolve(e, subst);
    const t = (n) => ts.isIdentifier(n) ? P.declsOf(n).some((d) => ts.isBindingElement(d) ? (d.propertyName ?? d.name).text === "positionals" && fromParse(d) : ts.isVariableDeclaration(d) && d.initializer && t(skip(d.initializer))) : ts.isPropertyAccessExpression(n) && n.name.text === "positionals" && /^string\[\]$/.test(c.typeToString(P.type(n)));
    return t(e);
  }
  function fromParse(d) { let p = d.parent; while (p && !ts.isVariableDeclaration(p)) p = p.parent; const i = p?.initializer && skip(p.initializer); return !i || !ts.isCallExpression(i) || P.externalName(i.expression) === "util:parseArgs" || P.callees(i).length > 0; }
  /** wherever an element of the positionals is used (outside failing branches), a bound on their number holds, or is established before normal exit */
  function refusesSurplus(fn, call) {
    const reads = []; let whole = false;
    walk(fn, (n) => {
      if (ts.isElementAccessExpression(n) && isPositionals(n.expression)) reads.push(n);
      else if ((ts.isIdentifier(n) || ts.isPropertyAccessExpression(n)) && isPositionals(n) && !(ts.isPropertyAccessExpression(n.parent) && n.parent.name === n)) {
        const p = n.parent;
        if (ts.isForOfStatement(p) && p.expression === n || ts.isSpreadElement(p)) whole = true;
        if (ts.isPropertyAccessExpression(p) && p.expression === n && ["map", "forEach", "join", "flatMap", "reduce"].includes(p.name.text)) whole = true;
        if (ts.isVariableDeclaration(p) && ts.isArrayBindingPattern(p.name)) { if (p.name.elements.some((x) => x.dotDotDotToken)) whole = true; else reads.push(n); }
      }
    });
    if (whole) return true;
    if (!reads.length) return false; // accepted and never looked at
    const cfg = T.cfg(fn); const failing = new Set();
    const reach = (n) => { const s = new Set([n]), st = [n]; while (st.length) { const x = st.pop(); for (const y of x.succ) if (!s.has(y.to)) { s.add(y.to); st.push(y.to); } if (x.exc && T.excTaken(x) && !s.has(x.exc)) { s.add(x.exc); st.push(x.exc); } } return s; };
    // largest index read where the program goes on
    const goesOn = (n) => { let s = n.parent; while (s && !ts.isStatement(s)) s = s.parent; return !(s && (ts.isThrowStatement(s) || neverStmt(s))); };
    const idx = reads.filter(goesOn).map((n) => ts.isElementAccessExpression(n) && ts.isNumericLiteral(skip(n.argumentExpression)) ? Number(skip(n.argumentExpression).text) : 0);
    const max = Math.max(0, ...idx) + 1;
    const atom = (e, value, subst) => {
      e = skip(e); if (!ts.isBinaryExpression(e) || typeof value !== "boolean") return false;
      let l = skip(e.left), r = skip(e.right), op = e.operatorToken.kind;
      const isLen = (x) => ts.isPropertyAccessExpression(x) && x.name.text === "length" && isPositionals(x.expression, subst);
      const FLIP = { [K.LessThanToken]: K.GreaterThanToken, [K.GreaterThanToken]: K.LessThanToken, [K.LessThanEqualsToken]: K.GreaterThanEqualsToken, [K.GreaterThanEqualsToken]: K.LessThanEqualsToken };
      if (isLen(r)) { [l, r] = [r, l]; op = FLIP[op] ?? op; }
      if (isLen(l) && ts.isNumericLiteral(r)) {
        const k = Number(r.text);
        const ub = op === K.GreaterThanToken ? (!value ? k : null) : op === K.GreaterThanEqualsToken ? (!value ? k - 1 : null) : op === K.LessThanToken ? (value ? k - 1 : null) : op === K.LessThanEqualsToken ? (value ? k : null) : [K.EqualsEqualsEqualsToken, K.EqualsEqualsToken].includes(op) ? (value ? k : null) : [K.ExclamationEqualsEqualsToken, K.ExclamationEqualsToken].includes(op) ? (!value ? k : null) : null;
        return ub != null && ub <= max;
      }
      // `positionals[1] === undefined`
      if (ts.isElementAccessExpression(l) && isPositionals(l.expression, subst) && ts.isNumericLiteral(skip(l.argumentExpression)) && Number(skip(l.argumentExpression).text) <= max && (r.kind === K.NullKeyword || (ts.isIdentifier(r) && r.text === "undefined"))) {
        const eq = op === K.EqualsEqualsToken || op === K.EqualsEqualsEqualsToken, ne = op === K.ExclamationEqualsToken || op === K.ExclamationEqualsEqualsToken; return eq && value || ne && !value;
      }
      return false;
    };
    // every node that starts asynchronous or external work after the parse, and every normal exit not taken for help
    const rets = cfg.nodes.filter((n) => n === cfg.exit);
    const bounded = (subst) => {
      const seen = new Set(), st = [cfg.entry];
      while (st.length) { const n = st.pop(); if (seen.has(n)) continue; seen.add(n); if (n === cfg.exit) return false;
        if (n.kind === "call" && (P.type(n.ast).flags & ts.TypeFlags.Never)) continue;
        if (n.kind === "call" && ts.isCallExpression(n.ast) && P.callees(n.ast).some((f) => assertsBound(f, n.ast, atom))) continue;
        for (const s of n.succ) { if (s.cond && "value" in s && (G.implies(s.cond, s.value, atom) || G.implies(s.cond, s.value, helpAtom))) continue; st.push(s.to); }
        if (n.exc && T.excTaken(n)) st.push(n.exc); }
      return true;
    };
    return bounded();
  }
  function assertsBound(f, call, atom) {
    if (!f.body || !ts.isBlock(f.body)) return false; const s = new Map(); f.parameters.forEach((p, i) => { if (call.arguments[i]) s.set(p, call.arguments[i]); });
    if (![...s.values()].some((a) => isPositionals(a))) return false;
    const cfg = T.cfg(f); const seen = new Set(), st = [cfg.entry];
    while (st.length) { const n = st.pop(); if (seen.has(n)) continue; seen.add(n); if (n === cfg.exit) return false; for (const e of n.succ) { if (e.cond && "value" in e && G.implies(e.cond, e.value, atom, 0, s)) continue; st.push(e.to); } if (n.exc && T.excTaken(n)) st.push(n.exc); }
    return true;
  }
  function neverStmt(s) { let h = false; walk(s, (n) => { if (isFn(n)) return false; if (ts.isCallExpression(n) && (P.type(n).flags & ts.TypeFlags.Never)) h = true; }); return h; }

  // ---- B. conversions of argument text ----
  const isArgText = (e) => F.trace(e, { expr: (x) => {
    if (ts.isCallExpression(x) && P.externalName(x.expression) === "util:parseArgs") return { source: "arguments" };
    if (ts.isPropertyAccessExpression(x) && x.name.text === "argv" && /process/.test(x.expression.getText())) return { source: "arguments" };
    if (ts.isCallExpression(x) && /^(fs|fs\/promises|zod|playwright-core):/.test(P.externalName(x.expression) ?? "")) return "clean";
    return undefined; }, decl: (d) => flagDecls.has(d) ? { source: "arguments" } : undefined }, { depth: 3, limit: 8000 }).found.length > 0;
  const refsOf = (d) => L.refs.get(d) ?? [];
  const same = (a, b, subst) => { a = strip(G.resolve(a, subst)); b = strip(b); if (ts.isIdentifier(a) && ts.isIdentifier(b)) return P.declsOf(a).some((d) => P.declsOf(b).includes(d)); return a.getText().replace(/\s+|\?/g, "") === b.getText().replace(/\s+|\?/g, ""); };
  const strip = (e) => { e = skip(e); while (ts.isBinaryExpression(e) && [K.QuestionQuestionToken, K.BarBarToken].includes(e.operatorToken.kind)) e = skip(e.left); return e; };
  const nullAtom = (isIt) => (e, value, subst) => {
    e = skip(e);
    if (isIt(e, subst) && (value === false || value === "null")) return true;
    if (ts.isBinaryExpression(e) && typeof value === "boolean") { const op = e.operatorToken.kind, eq = op === K.EqualsEqualsToken || op === K.EqualsEqualsEqualsToken, ne = op === K.ExclamationEqualsToken || op === K.ExclamationEqualsEqualsToken; const r = skip(e.right); if ((r.kind === K.NullKeyword || (ts.isIdentifier(r) && r.text === "undefined")) && isIt(skip(e.left), subst)) return eq && value || ne && !value; }
    return false;
  };
  const finiteAtom = (isIt) => { const na = nullAtom(isIt); return (e, value, subst) => {
    e = skip(e); if (na(e, value, subst)) return true;
    if (ts.isCallExpression(e) && typeof value === "boolean") {
      const x = P.externalName(e.expression) ?? "";
      if (/^lib:(NumberConstructor\.(isFinite|isInteger|isSafeInteger)|isFinite)$/.test(x) && e.arguments[0] && isIt(e.arguments[0], subst)) return value;
      if (/^lib:(NumberConstructor\.isNaN|isNaN)$/.test(x) && e.arguments[0] && isIt(e.arguments[0], subst)) return !value;
      if (ts.isPropertyAccessExpression(e.expression) && isIt(e.expression.expression, subst)) { // nums.some((n) => !isFinite(n)) is false / nums.every(isFinite)
        const m = e.expression.name.text, cb = e.arguments[0] && skip(e.arguments[0]); if (!cb) return false;
        if (m === "every" && value && !isFn(cb) && /^lib:NumberConstructor\.(isFinite|isInteger)$/.test(P.externalName(cb) ?? "")) return true;
        if (!((m === "some" && !value) || (m === "every" && value))) return false;
        return P.fnsOfExpr(cb).every((f) => F.returnsOf(f).every((r) => G.implies(r, m === "every", finiteAtom((q, s2) => { q = skip(q); return ts.isIdentifier(q) && P.declsOf(q).includes(f.parameters[0]); }))));
      }
    }
    if (ts.isBinaryExpression(e) && typeof value === "boolean") { // `n > 0` true excludes NaN
      const op = e.operatorToken.kind;
      if ([K.GreaterThanToken, K.GreaterThanEqualsToken, K.LessThanToken, K.LessThanEqualsToken].includes(op) && value && (isIt(skip(e.left), subst) || isIt(skip(e.right), subst))) return true;
    }
    return false; }; };
  const isConv = (n) => {
    if (ts.isCallExpression(n) && /^lib:(NumberConstructor(\.(parseInt|parseFloat))?|Number|parseInt|parseFloat)$/.test(P.externalName(n.expression) ?? "")) return n.arguments[0] ?? null;
    if (ts.isCallExpression(n) && ts.isIdentifier(n.expression) && ["Number", "parseInt", "parseFloat"].includes(n.expression.text) && !P.callees(n).length) return n.arguments[0] ?? null;
    if (ts.isPrefixUnaryExpression(n) && n.operator === K.PlusToken && (P.type(n.operand).flags & ts.TypeFlags.StringLike)) return n.operand;
    return null;
  };
  const inTest = (n) => { let p = n; while (p.parent && !ts.isStatement(p)) { if (ts.isCallExpression(p.parent) && /^lib:(NumberConstructor\.(isFinite|isInteger|isSafeInteger|isNaN)|isFinite|isNaN)$/.test(P.externalName(p.parent.expression) ?? "")) return true; if (ts.isBinaryExpression(p.parent) && [K.EqualsEqualsToken, K.ExclamationEqualsToken, K.EqualsEqualsEqualsToken, K.ExclamationEqualsEqualsToken].includes(p.parent.operatorToken.kind) && [p.parent.left, p.parent.right].some((x) => skip(x).kind === K.NullKeyword || (ts.isIdentifier(skip(x)) && skip(x).text === "undefined"))) return true;
      if (ts.isPropertyAccessExpression(p.parent) && p.parent.expression === p && ["some", "every"].includes(p.parent.name.text)) return true;
      if (ts.isPropertyAccessExpression(p.parent) && p.parent.expression === p && p.parent.name.text === "length") return true;
      p = p.parent; } return false; };
  const inFailure = (n) => { let s = n.parent; while (s && !ts.isStatement(s)) s = s.parent; return !!s && (ts.isThrowStatement(s) || neverStmt(s)); };
  /** each use of the number held in d is preceded by a finiteness test */
  const validated = (d, depth = 0) => {
    const isIt = (q, subst) => { q = G.resolve(q, subst); return ts.isIdentifier(q) && P.declsOf(q).includes(d); };
    for (const r of refsOf(d)) {
      if (inTest(r) || inFailure(r)) continue;
      const fn = P.enclosingFn(r);
      const own = P.enclosingFn(d) === fn || ts.isParameter(d) && d.parent === fn;
      if (!own || !G.holdsAt(fn, r, finiteAtom(isIt))) {
        const p = r.parent; // handed straight to a validating helper
        if (ts.isCallExpression(p) && depth < 2 && P.callees(p).length && P.callees(p).every((f) => f.parameters[p.arguments.indexOf(r)] && validated(f.parameters[p.arguments.indexOf(r)], depth + 1) && asserts(f, f.parameters[p.arguments.indexOf(r)]))) continue;
        return false;
      }
    }
    return true;
  };
  const asserts = (f, prm) => { const isIt = (q, s) => { q = G.resolve(q, s); return ts.isIdentifier(q) && P.declsOf(q).includes(prm); }; const cfg = T.cfg(f), seen = new Set(), st = [cfg.entry]; const at = finiteAtom(isIt);
    while (st.length) { const n = st.pop(); if (seen.has(n)) continue; seen.add(n); if (n === cfg.exit) return false; for (const e of n.succ) { if (e.cond && "value" in e && G.implies(e.cond, e.value, at)) continue; st.push(e.to); } if (n.exc && T.excTaken(n)) st.push(n.exc); } return true; };
  const holder = (n) => { // where the converted number ends up
    let x = n;
    for (;;) {
      const p = x.parent;
      if (ts.isParenthesizedExpression(p) || ts.isAsExpression(p) || ts.isNonNullExpression(p)) { x = p; continue; }
      if (ts.isConditionalExpression(p) && p.condition !== x) { x = p; continue; }
      if (ts.isCallExpression(p) && ts.isPropertyAccessExpression(p.expression) && /^lib:(Array|String)\.(map|flatMap)$|\.(map)$/.test(P.externalName(p.expression) ?? "") && p.arguments.includes(x)) { x = p; continue; }
      if (ts.isArrowFunction(p) && p.body === x && ts.isCallExpression(p.parent) && ts.isPropertyAccessExpression(p.parent.expression) && p.parent.expression.name.text === "map") { x = p.parent; continue; }
      if (ts.isVariableDeclaration(p) && p.initializer === x && ts.isIdentifier(p.name)) return p;
      if (ts.isCallExpression(p) && p.expression !== x) { const fs = P.callees(p); const i = p.arguments.indexOf(x); if (fs.length === 1 && fs[0].parameters[i]) return { call: p, fn: fs[0], prm: fs[0].parameters[i] }; }
      return null;
    }
  };
  for (const f of P.files) {
    if (!/\/src\/(cli|templates|scroll)\//.test(f.fileName) && !/__verif_fixture/.test(f.fileName)) continue;
    walk(f, (n) => {
      const a = isConv(n) ?? null; let src = a;
      if (!src && ts.isIdentifier(n) && n.text === "Number" && ts.isCallExpression(n.parent) && n.parent.arguments.includes(n) && ts.isPropertyAccessExpression(n.parent.expression) && n.parent.expression.name.text === "map") src = n.parent.expression.expression;
      if (!src || !P.enclosingFn(n) || C.inPage(P.enclosingFn(n)) || !isArgText(src)) return;
      const s = skip(src); const digits = ts.isElementAccessExpression(s) && fromDigitGroup(s);
      cnt(n, "argument text converted to numbers"); const id = P.fnId(P.enclosingFn(n));
      if (digits) { ctx.oblige(true, n, "numeric-argument", id, ""); return; }
      const h = holder(n);
      const ok = h && (h.prm ? validated(h.prm) && asserts(h.fn, h.prm) : validated(h));
      ctx.oblige(!!ok, n, "numeric-argument", id, `argument text is converted to a number at \`${P.text(n, 40)}\` and used without testing that it is one`);
    });
    walk(f, (n) => { // casts to a fixed vocabulary
      if (!ts.isAsExpression(n)) return; const t = c.getTypeFromTypeNode(n.type); const parts = (t.isUnion?.() ? t.types : [t]).filter((u) => !(u.flags & (ts.TypeFlags.Undefined | ts.TypeFlags.Null)));
      if (!parts.length || !parts.every((u) => u.isStringLiteral?.())) return;
      const st = P.type(n.expression); if (!(st.isUnion?.() ? st.types : [st]).some((u) => u.flags & ts.TypeFlags.String)) return;
      const fn = P.enclosingFn(n); if (!fn || C.inPage(fn) || !isArgText(n.expression)) return;
      cnt(n, "argument text cast to a fixed set"); const allowed = new Set(parts.map((u) => u.value)); const tgt = n.expression;
      const isIt = (q, subst) => same(q, tgt, subst); const na = nullAtom(isIt);
      const listOf = (e) => { e = skip(e); if (ts.isIdentifier(e)) { const d = P.declsOf(e)[0]; e = d?.initializer ? skip(d.initializer) : e; } if (ts.isNewExpression(e) && e.arguments?.[0]) e = skip(e.arguments[0]); return ts.isArrayLiteralExpression(e) ? e.elements.map(lit) : null; };
      const atom = (e, value, subst) => {
        e = skip(e); if (na(e, value, subst)) return true; if (typeof value !== "boolean") return false;
        if (ts.isCallExpression(e) && ts.isPropertyAccessExpression(e.expression) && ["includes", "has"].includes(e.expression.name.text) && e.arguments[0] && isIt(e.arguments[0], subst)) { const l = listOf(e.expression.expression); return value && !!l && l.every((v) => v != null && allowed.has(v)); }
        if (ts.isBinaryExpression(e)) { const op = e.operatorToken.kind, eq = op === K.EqualsEqualsToken || op === K.EqualsEqualsEqualsToken, ne = op === K.ExclamationEqualsToken || op === K.ExclamationEqualsEqualsToken; const v = lit(e.right) ?? lit(e.left); const o = lit(e.right) != null ? e.left : e.right; if (v != null && allowed.has(v) && isIt(o, subst)) return eq && value || ne && !value; }
        return false;
      };
      ctx.oblige(G.holdsAt(fn, n, atom), n, "enum-argument", `${P.fnId(fn)}|${P.text(tgt, 30)}`, `argument text \`${P.text(tgt, 30)}\` is taken as one of ${[...allowed].join("/")} without testing that it is`);
    });
  }
  ctx.floor("argument text converted to numbers", 5); ctx.floor("argument text cast to a fixed set", 2);

  function fromDigitGroup(s) { // m[1] of a constant pattern whose group only matches digits
    let m = skip(s.expression); if (!ts.isNumericLiteral(skip(s.argumentExpression))) return false;
    const g = Number(skip(s.argumentExpression).text); if (ts.isIdentifier(m)) { const d = P.declsOf(m)[0]; m = d?.initializer && skip(d.initializer); }
    if (!m || !ts.isCallExpression(m) || !ts.isPropertyAccessExpression(m.expression)) return false;
    let re = m.expression.name.text === "exec" ? skip(m.expression.expression) : m.arguments[0] && skip(m.arguments[0]);
    if (re && ts.isIdentifier(re)) { const d = P.declsOf(re)[0]; re = d?.initializer && skip(d.initializer); }
    if (!re || !ts.isRegularExpressionLiteral(re)) return false;
    const groups = [...re.text.matchAll(/\((?!\?)([^()]*)\)/g)].map((x) => x[1]);
    return groups[g - 1] != null && /^(\\d|\[0-9\])(\+|\{\d+(,\d*)?\})(\\\.\\d\+\??|\(\?:\\\.\\d\+\)\?)?$/.test(groups[g - 1]);
  }

  // ---- C. exit status ----
  const mods = P.files.filter((f) => /^#!/.test(f.text)); ctx.anchor(mods.length >= 4, "the package's command-line programs");
  const entries = new Set(); const rejHandlers = [];
  for (const f of mods) for (const s of f.statements) { if (!ts.isExpressionStatement(s)) continue; walk(s, (n) => { if (isFn(n)) return false; if (ts.isCallExpression(n)) { for (const t of P.callees(n)) entries.add(t); if (ts.isPropertyAccessExpression(n.expression) && n.expression.name.text === "catch") for (const h of P.fnsOfExpr(n.arguments[0])) rejHandlers.push(h); } }); }
  // the command functions: called and awaited by an entry
  const commands = new Set();
  for (const e of entries) if (e.body) walk(e.body, (n) => { if (ts.isAwaitExpression(n) && ts.isCallExpression(skip(n.expression))) for (const t of F.targets(skip(n.expression).expression)) if (/\/src\/cli\//.test(t.getSourceFile().fileName) && (c.getTypeAtLocation(skip(n.expression)) && /^Promise<(void|unknown)>$/.test(c.typeToString(P.type(skip(n.expression)))))) { let p = false; for (const k of parses) if (P.enclosingFn(k) === t) p = true; if (p) commands.add(t); } });
  const mayBeZero = (e) => { e = e && skip(e); if (!e) return true; if (ts.isNumericLiteral(e)) return Number(e.text) === 0; if (ts.isConditionalExpression(e)) return mayBeZero(e.whenTrue) || mayBeZero(e.whenFalse); if (ts.isBinaryExpression(e) && [K.QuestionQuestionToken, K.BarBarToken].includes(e.operatorToken.kind)) return mayBeZero(e.right); if (ts.isIdentifier(e)) { const d = P.declsOf(e)[0]; if (d && ts.isVariableDeclaration(d) && d.initializer && (d.parent.flags & ts.NodeFlags.Const)) return mayBeZero(d.initializer); } return true; };
  const isExit = (n) => ts.isCallExpression(n) && P.externalName(n.expression)?.endsWith("Process.exit");
  /** control never leaves normally, and every exit is non-zero */
  const fails = (start, cfg, depth = 0) => {
    const seen = new Set(), st = [start]; let bad = null;
    while (st.length) {
      const n = st.pop(); if (seen.has(n)) continue; seen.add(n);
      if (n === cfg.exit) { bad = n; break; }
      if (n.kind === "assign" && /exitCode$/.test(skip(n.ast.left).getText()) && !mayBeZero(n.ast.right)) continue;
      if (n.kind === "call" && isExit(n.ast)) { if (mayBeZero(n.ast.arguments[0])) { bad = n; break; } continue; }
      if (n.kind === "call" && ts.isCallExpression(n.ast) && depth < 3) { const fs = P.callees(n.ast); if (fs.length && fs.every((f) => f.body && neverFails(f, depth + 1))) continue; }
      for (const s of n.succ) st.push(s.to);
    }
    return bad;
  };
  const nf = new Map();
  const neverFails = (f, depth) => { if (!nf.has(f)) { nf.set(f, false); nf.set(f, !fails(T.cfg(f).entry, T.cfg(f), depth)); } return nf.get(f); };
  const scope = new Set([...entries, ...commands]);
  for (const h of rejHandlers) { ctx.count("failure handlers of the programs"); const b = fails(T.cfg(h).entry, T.cfg(h)); ctx.oblige(!b, h, "exit-status", P.fnId(h), "a failed command can end with exit status 0"); }
  for (const e of scope) if (e.body) walk(e.body, (n) => {
    if (!ts.isTryStatement(n) || !n.catchClause || P.enclosingFn(n) !== e) return;
    let work = false; walk(n.tryBlock, (q) => { if (isFn(q)) return false; if (ts.isCallExpression(q) && (P.callees(q).length || F.targets(q.expression).length || P.externalName(q.expression) === "lib:JSON.parse")) work = true; });
    if (!work) return; ctx.count("failure handlers of the programs");
    const cfg = T.cfg(e); const node = cfg.nodes.filter((x) => x.ast && x.ast.pos >= n.catchClause.pos && x.ast.end <= n.catchClause.end && x.ast.getSourceFile() === n.getSourceFile() && x.kind !== "exit");
    const first = firstOf(node); const b = first.map((s) => fails(s, cfg)).find(Boolean);
    ctx.oblige(first.length > 0 && !b, n.catchClause, "exit-status", P.fnId(e), "a failure caught here can still end with exit status 0");
  });
  function firstOf(nodes) { const set = new Set(nodes), hasPred = new Set(); for (const n of nodes) for (const s of n.succ) if (set.has(s.to)) hasPred.add(s.to); const r = nodes.filter((n) => !hasPred.has(n)); return r.length ? r : nodes.slice(0, 1); }
  ctx.floor("failure handlers of the programs", 5);
  // status 0
  const signalHandlers = new Set();
  for (const k of P.calls) if (ts.isCallExpression(k) && /Process\.(on|once|addListener)$|EventEmitter\.(on|once)$/.test(P.externalName(k.expression) ?? "") && /^SIG/.test(lit(k.arguments[0]) ?? "")) for (const f of P.fnsOfExpr(k.arguments[1])) { signalHandlers.add(f); if (f.body) walk(f.body, (q) => { if (ts.isCallExpression(q)) for (const t of F.targets(q.expression)) signalHandlers.add(t); }); }
  for (const f of P.files) {
    if (!/\/src\/cli\//.test(f.fileName)) continue;
    walk(f, (n) => {
      if (!isExit(n) || !mayBeZero(n.arguments[0])) return; const fn = P.enclosingFn(n); if (!fn) return; ctx.count("exits with status 0");
      const z = skip(n.arguments[0] ?? n); let ok = signalHandlers.has(fn) || G.holdsAt(fn, n, helpAtom);
      if (!ok && ts.isConditionalExpression(z)) ok = (!mayBeZero(z.whenTrue) || G.implies(z.condition, true, helpAtom)) && (!mayBeZero(z.whenFalse) || G.implies(z.condition, false, helpAtom));
      ctx.oblige(ok, n, "exit-zero", P.fnId(fn), "the process can end with exit status 0 although the command has not run");
    });
  }
  ctx.floor("exits with status 0", 4);
  function helpAtom(e, value) { // help / version was asked for
    e = skip(e);
    if (value === true && (ts.isPropertyAccessExpression(e) && /^(help|version)$/.test(e.name.text) || ts.isElementAccessExpression(e) && /^(help|version)$/.test(lit(e.argumentExpression) ?? ""))) return true;
    if (ts.isBinaryExpression(e) && typeof value === "boolean") {
      const op = e.operatorToken.kind;
      if (op === K.InKeyword && value && /^(help|version)$/.test(lit(e.left) ?? "")) return true;
      const eq = op === K.EqualsEqualsEqualsToken || op === K.EqualsEqualsToken, ne = op === K.ExclamationEqualsEqualsToken || op === K.ExclamationEqualsToken;
      if (!(eq && value || ne && !value)) return false; const v = lit(e.right) ?? lit(e.left);
      if (v != null && /^(-h|--help|-v|--version|help|version|list)$/.test(v)) return true;
      const isArgv = (x) => /\[\]$/.test(c.typeToString(P.type(x)));
      for (const [a, b] of [[e.left, e.right], [e.right, e.left]]) if (ts.isNumericLiteral(skip(b)) && skip(b).text === "0" && ts.isPropertyAccessExpression(skip(a)) && skip(a).name.text === "length" && isArgv(skip(a).expression) && !isPositionals(skip(a).expression)) return true;
      for (const [a, b] of [[e.left, e.right], [e.right, e.left]]) if (skip(b).kind === K.NullKeyword && ts.isIdentifier(skip(a)) && P.declsOf(skip(a)).some((d) => ts.isVariableDeclaration(d) && d.initializer && ts.isElementAccessExpression(skip(d.initializer)))) return true; // no command word at all
    }
    return false;
  }
  // normal completion only after the work
  for (const e of scope) {
    if (!e.body) continue; ctx.count("program entry functions");
    const cfg = T.cfg(e); const seen = new Set(), st = [cfg.entry]; let bad = false;
    while (st.length) {
      const n = st.pop(); if (seen.has(n)) continue; seen.add(n);
      if (n === cfg.exit) { bad = true; break; }
      if (n.kind === "await" && ts.isCallExpression(skip(n.ast.expression)) && F.targets(skip(n.ast.expression).expression).length) continue; // command work done
      if (n.kind === "call" && isExit(n.ast)) continue;
      if (n.kind === "call" && P.type(n.ast).flags & ts.TypeFlags.Never) continue;
      for (const s of n.succ) { if (s.cond && "value" in s && G.implies(s.cond, s.value, helpAtom)) continue; st.push(s.to); }
      if (n.exc && T.excTaken(n)) st.push(n.exc);
    }
    ctx.oblige(!bad, e, "silent-success", P.fnId(e), "the command can finish normally without having run");
  }
  ctx.floor("program entry functions", 4);
  ctx.expectFixture("surplus-arguments:src/__verif_fixture_p12.ts#fxSurplus", "--fxdead", "numeric-argument:src/__verif_fixture_p12.ts#fxSurplus", "enum-argument:src/__verif_fixture_p12.ts#fxSurplus", "strict:src/__verif_fixture_p12.ts#fxLax");
  const bad = ctx.fixtureHits.filter((h) => /#ok|--ok|--fxmode|--fxn\b/.test(h)); if (bad.length) ctx.anchor(false, `negative examples reported: ${bad.join(", ")}`);
}
