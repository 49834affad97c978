import { ts, K, isFn, skip, walk } from "../lib/program.mjs";

export const rule = "Every closed set of values a configuration schema admits (enumerations, unions of literals, discriminants of unions) is collected with its members. Every place that can tell members apart (comparison, case label, key lookup, membership test, string predicate, or the value itself passed into output or to the browser) is traced back by value flow to the set it tests. Each two members of a set must be separated by at least one such place, each member must be named or fall to an explicit alternative, and a switch that throws in its default must name every member.";
export const trusted = ["value-flow engine (lib/flow.mjs)"];
export const assumptions = ["Two members separated by some test are treated differently by its branches"];

export const fixtures = {
  "__verif_fixture_p11.ts": `
import { z } from "zod";
export const fxModes = z.object({
  merged: z.enum(["ma", "mb", "mc"]), dropped: z.enum(["da", "db", "dc"]), okSwitch: z.enum(["oa", "ob", "oc"]), okTable: z.enum(["ta", "tb", "tc"]),
  okPass: z.enum(["pa", "pb", "pc"]), okPrefix: z.enum(["top-x", "top-y", "low-x", "low-y"]), thrower: z.enum(["ha", "hb"]), onlyMessage: z.enum(["sa", "sb", "sc"]),
});
type Fx = z.infer<typeof fxModes>;
const TABLE: Record<string, number> = { ta: 1, tb: 2, tc: 3 };
const isTop = (v: string): boolean => v.startsWith("top");
export function useFx(o: Fx, log: (s: string) => void): string {
  let out = "";
  if (o.merged === "ma") out += "1"; else out += "2";
  if (o.dropped === "da") out += "3"; else if (o.dropped === "db") out += "4";
  switch (o.okSwitch) { case "oa": out += "5"; break; case "ob": out += "6"; break; default: out += "7"; }
  out += String(TABLE[o.okTable]);
  out += \`<g style="mode:\${o.okPass}"/>\`;
  out += isTop(o.okPrefix) ? "t" : "l"; out += o.okPrefix.endsWith("x") ? "x" : "y";
  switch (o.thrower) { case "ha": out += "8"; break; default: throw new Error("unknown " + o.thrower); }
  if (o.onlyMessage === "sa") out += "9"; else log(\`ignored \${o.onlyMessage}\`);
  return out;
}
`,
};

export function run(ctx) {
  const { P, F } = ctx; const c = P.checker;
  const cnt = (n, k, v = 1) => { if (!ctx.isFixture(n)) ctx.count(k, v); };
  const literals = (t) => {
    if (!t) return null;
    const ps = (t.isUnion?.() ? t.types : [t]).filter((u) => !(u.flags & (ts.TypeFlags.Undefined | ts.TypeFlags.Null | ts.TypeFlags.Void)));
    return ps.length && ps.every((u) => u.flags & ts.TypeFlags.StringLiteral) ? ps.map((u) => u.value) : null;
  };
  const outputOf = (n) => { const t = c.getTypeAtLocation(n); const o = t.getProperty?.("_output"); return o ? c.getTypeOfSymbolAtLocation(o, n) : null; };
  const inZod = (p) => { const q = p.parent?.parent; return q && ts.isCallExpression(q) && /^zod:/.test(P.externalName(q.expression) ?? ""); };
  // ── closed sets ─────────────────────────────────────────────────────────
  const sets = new Map(), ofDecl = new Map();
  for (const f of P.files) walk(f, (n) => {
    if (!(ts.isPropertyAssignment(n) || ts.isShorthandPropertyAssignment(n)) || !inZod(n) || !n.name || !ts.isIdentifier(n.name)) return;
    const l = literals(outputOf(n.initializer ?? n.name));
    if (l && l.length >= 2) { let same = sets.get(n); if (!same) sets.set(n, same = { n, members: l, decls: [n], sites: [] }); }
    else if (l && l.length === 1) {
      let q = n.parent; while (q && !(ts.isCallExpression(q) && ts.isPropertyAccessExpression(q.expression) && /^(discriminatedUnion|union)$/.test(q.expression.name.text))) q = ts.isVariableDeclaration(q) || ts.isSourceFile(q) ? null : q.parent;
      const u = q && outputOf(q); const ps = u?.getProperty?.(n.name.text); const m = ps && literals(c.getTypeOfSymbol(ps));
      if (m && m.length >= 2) { let d = sets.get(q); if (!d) sets.set(q, d = { n: q, members: m, decls: [], sites: [], disc: n.name.text }); d.decls.push(n); }
    }
  });
  // a member of a set that is itself built from several spellings of the same union (discriminants declared elsewhere)
  for (const s of sets.values()) for (const d of s.decls) { let a = ofDecl.get(d); if (!a) ofDecl.set(d, a = []); a.push(s); }
  for (const s of [...sets.values()]) if (s.disc) { // options interfaces and schemas referenced by name contribute their discriminant declarations
    const u = outputOf(s.n); const ps = u?.getProperty?.(s.disc);
    for (const d of ps?.declarations ?? []) { let a = ofDecl.get(d); if (!a) ofDecl.set(d, a = []); if (!a.includes(s)) a.push(s); }
  }
  const mayText = (e) => { const t = P.type(e); return (t.isUnion?.() ? t.types : [t]).some((u) => u.flags & (ts.TypeFlags.StringLiteral | ts.TypeFlags.String)); };
  const setsOf = (e, depth = 3, limit = 6000) => {
    const out = new Set();
    F.trace(e, { noMapKeys: true, decl(d) { for (const s of ofDecl.get(d) ?? []) out.add(s); return undefined; } }, { depth, limit });
    return out;
  };
  // ── places that tell values apart ───────────────────────────────────────
  const keys = (e, dp = 0) => {
    e = skip(e); if (dp > 4) return null;
    if (ts.isObjectLiteralExpression(e)) return e.properties.map((p) => (p.name && (ts.isIdentifier(p.name) || ts.isStringLiteral(p.name)) ? p.name.text : null)).filter(Boolean);
    if (ts.isArrayLiteralExpression(e)) return e.elements.flatMap((x) => { x = skip(x); return ts.isStringLiteralLike(x) ? [x.text] : ts.isArrayLiteralExpression(x) && x.elements[0] && ts.isStringLiteralLike(skip(x.elements[0])) ? [skip(x.elements[0]).text] : []; });
    if (ts.isNewExpression(e) && e.arguments?.[0]) return keys(e.arguments[0], dp + 1);
    if (ts.isIdentifier(e) || ts.isPropertyAccessExpression(e)) for (const d of P.declsOf(e)) if (d.initializer) return keys(d.initializer, dp + 1);
    return null;
  };
  const EQ = new Set([K.EqualsEqualsEqualsToken, K.ExclamationEqualsEqualsToken, K.EqualsEqualsToken, K.ExclamationEqualsToken]);
  const diagnostic = (n) => { // inside an error, a log line or a warning: the value is only reported
    for (let p = n.parent; p; p = p.parent) {
      if (ts.isThrowStatement(p)) return true;
      if (ts.isNewExpression(p) && /Error$/.test(P.text(p.expression, 40))) return true;
      if (ts.isCallExpression(p) && p.expression !== n && /(^|\.)(log|warn|error|info|debug|warnOnce|fail\w*|progress|onProgress|write|addIssue)$/.test(P.text(p.expression, 60))) return true;
      if (isFn(p) || (ts.isStatement(p) && !ts.isExpressionStatement(p))) return false;
    }
    return false;
  };
  const literalText = (e) => { e = skip(e); return ts.isStringLiteralLike(e) ? e.text : null; };
  const elseOf = (n) => { // an alternative exists for values this test rejects
    let p = n, q = n.parent;
    while (q) {
      if (ts.isConditionalExpression(q) && q.condition === p) return true;
      if (ts.isIfStatement(q) && q.expression === p) {
        let s = q; while (s.elseStatement && ts.isIfStatement(s.elseStatement)) s = s.elseStatement;
        if (s.elseStatement) return true;
        const exits = (b) => { const last = ts.isBlock(b) ? b.statements[b.statements.length - 1] : b; return !!last && (ts.isReturnStatement(last) || ts.isContinueStatement(last) || ts.isThrowStatement(last) || ts.isBreakStatement(last)); };
        return exits(s.thenStatement);
      }
      if (ts.isPrefixUnaryExpression(q) || (ts.isParenthesizedExpression(q) || ts.isAsExpression(q) || ts.isSatisfiesExpression(q)) || (ts.isBinaryExpression(q) && [K.AmpersandAmpersandToken, K.BarBarToken].includes(q.operatorToken.kind))) { p = q; q = q.parent; continue; }
      return !(ts.isExpressionStatement(q)); // used as a value
    }
    return false;
  };
  // a value pasted into markup, CSS or an address is visible in the output; one pasted into an identifier, a cache key or a sentence is not
  const VISIBLE = /[<=:;#\/]/;
  const sumText = (n) => { let t = n; while (ts.isBinaryExpression(t.parent) && t.parent.operatorToken.kind === K.PlusToken) t = t.parent; let r = ""; walk(t, (x) => { if (ts.isStringLiteralLike(x) || ts.isTemplateHead(x) || ts.isTemplateMiddle(x) || ts.isTemplateTail(x)) r += x.text; }); return r; };
  /** documented synonyms: two accepted spellings of one behaviour */
  const SYNONYMS = new Set(["push-up|scroll", "iris|wipe-radial", "middle|primary"]);
  const sites = [];
  for (const f of P.files) walk(f, (n) => {
    if (ts.isTypeNode(n)) return false;
    if (ts.isBinaryExpression(n) && EQ.has(n.operatorToken.kind)) {
      for (const [a, b] of [[n.left, n.right], [n.right, n.left]]) { const t = literalText(b); if (t !== null) sites.push({ e: a, n, has: (m) => m === t, part: (m) => m.split(/[-_ ]/).includes(t), else: elseOf(n) || [K.ExclamationEqualsEqualsToken, K.ExclamationEqualsToken].includes(n.operatorToken.kind) }); }
    } else if (ts.isSwitchStatement(n)) {
      const cs = n.caseBlock.clauses; const labels = new Set(); let group = new Set(); const def = cs.find(ts.isDefaultClause);
      const throws = !!def && def.statements.length > 0 && (() => { const s = def.statements[def.statements.length - 1]; const b = ts.isBlock(s) ? s.statements[s.statements.length - 1] : s; return !!b && ts.isThrowStatement(b); })();
      for (const cl of cs) {
        if (ts.isCaseClause(cl)) { const t = literalText(cl.expression); if (t !== null) { labels.add(t); group.add(t); } }
        if (cl.statements.length) { const g = group; sites.push({ e: n.expression, n, has: (m) => g.has(m), else: !!def }); group = new Set(); }
      }
      if (throws) sites.push({ e: n.expression, n, labels, has: (m) => labels.has(m), throws: true });
    } else if (ts.isElementAccessExpression(n) && mayText(n.argumentExpression)) {
      const k = keys(n.expression); sites.push(k?.length ? { e: n.argumentExpression, n, each: new Set(k), has: (m) => k.includes(m), else: true } : { e: n.argumentExpression, n, pass: true });
    } else if (ts.isTemplateExpression(n)) { if (!diagnostic(n) && VISIBLE.test(n.head.text + n.templateSpans.map((x) => x.literal.text).join(""))) for (const s of n.templateSpans) if (mayText(s.expression)) sites.push({ e: s.expression, n, pass: true }); }
    else if (ts.isBinaryExpression(n) && n.operatorToken.kind === K.PlusToken && mayText(n)) { if (!diagnostic(n) && VISIBLE.test(sumText(n))) for (const x of [n.left, n.right]) if (literalText(x) === null && mayText(x)) sites.push({ e: x, n, pass: true }); }
    else if (ts.isCallExpression(n)) {
      const cal = skip(n.expression); const own = P.callees(n).length > 0;
      if (ts.isPropertyAccessExpression(cal) && !own) {
        const m = cal.name.text, a0 = n.arguments[0], t = a0 ? literalText(a0) : null;
        if (t !== null && /^(includes|startsWith|endsWith|indexOf)$/.test(m) && mayText(cal.expression)) { sites.push({ e: cal.expression, n, has: (v) => (m === "indexOf" ? v.includes(t) : v[m](t)), else: true }); return; }
        if (/^(slice|substring|charAt|replace|match)$/.test(m) && mayText(cal.expression)) sites.push({ e: cal.expression, n, pass: true });
        if (m === "test" && a0 && ts.isRegularExpressionLiteral(skip(cal.expression))) { const r = /^\/([\s\S]*)\/([a-z]*)$/.exec(skip(cal.expression).text); try { const re = new RegExp(r[1], r[2].replace("g", "")); sites.push({ e: a0, n, has: (v) => re.test(v), else: true }); } catch { /* not evaluable */ } return; }
        if (/^(includes|has|get|indexOf)$/.test(m) && a0) { const k = keys(cal.expression); if (k?.length) sites.push({ e: a0, n, ...(m === "get" ? { each: new Set(k) } : {}), has: (v) => k.includes(v), else: true }); return; }
      }
      if (!own && !diagnostic(n) && !/^zod:/.test(P.externalName(n.expression) ?? "") && (/^playwright-core:|^lib:(?!(Map|ReadonlyMap|Set|ReadonlySet|WeakMap|WeakSet|Array|ReadonlyArray|ArrayConstructor|String|Console|Promise|PromiseConstructor|Object|ObjectConstructor|RegExp|Number|Math|Date)\b)/.test(P.externalName(n.expression) ?? ""))) {
        const go = (x, dp) => { x = skip(x); if (ts.isObjectLiteralExpression(x) && dp < 3) { for (const p of x.properties) if (ts.isPropertyAssignment(p)) go(p.initializer, dp + 1); else if (ts.isShorthandPropertyAssignment(p)) go(p.name, dp + 1); else if (ts.isSpreadAssignment(p)) sites.push({ e: p.expression, n, whole: true }); } else if (isFn(x)) return; else if (mayText(x) && literalText(x) === null) sites.push({ e: x, n, pass: true }); else if (P.type(x).flags & ts.TypeFlags.Object) sites.push({ e: x, n, whole: true }); };
        for (const a of n.arguments) go(a, 0);
      }
    }
  });
  // objects handed whole to the browser or serialised take all their members along
  const wholeDecls = (e) => { const out = new Set(); const seen = new Set(); const go = (t, d) => { if (!t || d > 3 || seen.has(t)) return; seen.add(t); if (t.isUnionOrIntersection?.()) { for (const u of t.types) go(u, d); return; } if (t.objectFlags & ts.ObjectFlags.Reference) for (const a of c.getTypeArguments(t)) go(a, d + 1); if (t.getCallSignatures?.().length) return; for (const p of t.getProperties?.() ?? []) { const ds = p.declarations ?? []; if (!ds.some((x) => P.files.includes(x.getSourceFile()))) continue; for (const x of ds) out.add(x); go(c.getTypeOfSymbol(p), d + 1); } }; go(P.type(e), 0); return out; };
  const REF = (e) => ts.isIdentifier(e) || ts.isPropertyAccessExpression(e) || ts.isElementAccessExpression(e) || ts.isCallExpression(e) || ts.isBinaryExpression(e) || ts.isConditionalExpression(e);
  const later = [];
  for (const s of sites) {
    const e = skip(s.e); if (!REF(e)) continue;
    if (s.whole) { for (const d of wholeDecls(e)) { for (const x of ofDecl.get(d) ?? []) x.sites.push({ ...s, pass: true }); for (const l of F.propLinks.get(d) ?? []) for (const x of ofDecl.get(l) ?? []) x.sites.push({ ...s, pass: true }); } for (const d of [...wholeDecls(e)].flatMap((x) => [x, ...(F.propLinks.get(x) ?? [])])) for (const w of F.writes.get(d) ?? []) if (w.expr && mayText(w.expr) && REF(skip(w.expr))) for (const x of setsOf(w.expr)) x.sites.push({ ...s, pass: true }); continue; }
    if (s.pass && !literals(P.type(e))) { later.push(s); continue; }
    // a comparison with a piece of a hyphenated member ("right" of "bottom-right") tells the members apart by that piece
    for (const d of setsOf(s.e)) d.sites.push(s.part && !d.members.some(s.has) && d.members.some(s.part) ? { ...s, has: s.part } : s);
  }
  const separated = (d, a, b) => d.sites.some((s) => s.pass || (s.each ? s.each.has(a) || s.each.has(b) : s.has(a) !== s.has(b)));
  const pairs = (d) => { const out = []; const M = d.members; for (let i = 0; i < M.length; i++) for (let j = i + 1; j < M.length; j++) if (!SYNONYMS.has([M[i], M[j]].sort().join("|")) && !separated(d, M[i], M[j])) out.push([M[i], M[j]]); return out; };
  const merged = new Set([...sets.values()].filter((d) => pairs(d).length));
  if (merged.size) for (const s of later) { // untyped pass-through (a CSS property name, …), only near its origin and only for sets nothing else separates
    for (const d of setsOf(s.e, 1, 1500)) if (merged.has(d)) d.sites.push(s);
  }
  const name = (d) => { const o = d.n; let p = o; while (p && !(ts.isVariableDeclaration(p) || ts.isFunctionDeclaration(p) || ts.isSourceFile(p))) p = p.parent; return `${p?.name?.text ?? ""}.${d.disc ?? (o.name ? o.name.text : "")}`; };
  for (const d of sets.values()) {
    if (d.decls.every((x) => preTransform(x))) continue;
    cnt(d.n, "closed value sets"); cnt(d.n, "values", d.members.length); cnt(d.n, "places that tell values apart", d.sites.length);
    const key = name(d), bad = pairs(d);
    ctx.oblige(!bad.length, d.n, "distinguish", key, `values ${bad.slice(0, 3).map(([a, b]) => `"${a}" and "${b}"`).join(", ")} of ${key} are accepted but nothing in the program tells them apart`);
    if (bad.length) continue;
    const pass = d.sites.some((s) => s.pass); const rest = defaults(d.n);
    for (const m of d.members) {
      const named = d.sites.some((s) => !s.pass && !s.throws && s.has(m)); const alt = pass || d.sites.some((s) => s.else && !s.throws) || rest === m || (rest === "" && d.members.filter((x) => !d.sites.some((s) => !s.pass && !s.throws && s.has(x))).length === 1);
      ctx.oblige(named || alt, d.n, "handled", `${key}=${m}`, `value "${m}" of ${key} is accepted but no test names it and no alternative branch takes it`);
    }
    for (const s of d.sites) if (s.throws) {
      const at = literals(P.type(skip(s.e))); // members possible at that switch
      const miss = (at ?? []).filter((m) => d.members.includes(m) && !s.labels.has(m));
      ctx.oblige(!miss.length, s.n, "refused", `${key} ${P.fnId(P.enclosingFn(s.n))}`, `accepted value "${miss[0]}" of ${key} reaches a switch that throws for it`);
    }
  }
  /** the value an absent setting takes: a .default(...) literal, "" when merely optional, undefined when required */
  function defaults(n) {
    let e = n.initializer && skip(n.initializer), r;
    while (e && ts.isCallExpression(e) && ts.isPropertyAccessExpression(e.expression)) { const m = e.expression.name.text; if (m === "default" && e.arguments[0] && literalText(e.arguments[0]) !== null) return literalText(e.arguments[0]); if (m === "optional" || m === "nullish") r = ""; e = skip(e.expression.expression); }
    return r;
  }
  /** the schema side of a .transform/.pipe: its values are re-validated by a later schema */
  function preTransform(d) { for (let p = d.parent; p && !ts.isStatement(p); p = p.parent) if (ts.isCallExpression(p) && ts.isPropertyAccessExpression(p.expression) && p.expression.name.text === "pipe" && d.pos < p.expression.name.pos) return true; return false; }
  ctx.floor("closed value sets", 60); ctx.floor("values", 230);
  ctx.expectFixture("distinguish:fxModes.merged", "handled:fxModes.dropped=dc", "refused:fxModes.thrower", "distinguish:fxModes.onlyMessage");
  for (const h of ctx.fixtureHits) if (/\.ok/.test(h)) ctx.anchor(false, "negative example reported: " + h);
}
