import { ts, K, isFn, skip, walk } from "../lib/program.mjs";
import { Liveness } from "../lib/liveness.mjs";

export const rule = "Every key of every zod object schema, and every optional member of the option types taken by the package's exported functions, is followed forward through copies, spreads, parameters and renamed fields; at least one read must reach a use other than copying, presence testing or a validation that only throws. Every JSON.parse of a user file or request is followed forward: its members are read only after a schema parse or an explicit shape test.";
export const trusted = ["structural links between option types (lib/flow.mjs, lib/liveness.mjs)"];
export const assumptions = ["Objects passed whole to code outside the program (a page, JSON.stringify) use all their members"];

/** Options that by contract select nothing in this program; matched by owner type and member. */
const INERT = {
  "brandFontSchema.weights": "handed to third-party templates, which choose a weight from it",
  "terminalThemeSpecSchema.name": "display label of a theme", "TerminalThemeSpec.name": "display label of a theme", "TerminalTheme.name": "display label of a theme",
  "CursorStyle.pointer": "documented: only the mouse glyph exists; touch draws the same glyph",
};

export const fixtures = {
  "__verif_fixture_p10.ts": `
import { readFileSync } from "node:fs";
import { z } from "zod";
const fxSchema = z.object({ used: z.number(), dropped: z.number().optional(), copiedDead: z.string().optional(), onlyChecked: z.number().optional(), mode: z.literal("x").default("x"), okCopied: z.string().optional(), okSpread: z.boolean().optional() });
interface FxOpts { cd?: string; oc?: string; okSpread?: boolean }
function consume(o: FxOpts): string { return String(o.oc) + String(o.okSpread); }
export function fxMain(path: string): string {
  const raw: unknown = JSON.parse(readFileSync(path, "utf8"));
  const c = fxSchema.parse(raw);
  if (c.onlyChecked != null && c.onlyChecked < 0) throw new Error("bad");
  return consume({ ...c, cd: c.copiedDead, oc: c.okCopied }) + c.used;
}
export function fxTrusting(path: string): string { const cfg = JSON.parse(readFileSync(path, "utf8")) as { name: string }; return cfg.name.toUpperCase(); }
export function okShape(path: string): string { const cfg = JSON.parse(readFileSync(path, "utf8")) as { name?: string }; return typeof cfg.name === "string" ? cfg.name : ""; }
`,
};

function owner(P, call) { // name of the schema a z.object(...) builds
  let p = call; while (p && !(ts.isVariableDeclaration(p) || ts.isPropertyAssignment(p)) && !ts.isSourceFile(p)) p = p.parent;
  return p && p.name ? p.name.getText() : "schema";
}

export function run(ctx) {
  const { P, F } = ctx; const c = P.checker; const L = new Liveness(P, F);
  const cnt = (n, k) => { if (!ctx.isFixture(n)) ctx.count(k); };
  const singleValued = (p) => { // z.literal(x) (possibly defaulted): one permitted value cannot select anything
    let e = p.initializer && skip(p.initializer); while (e && ts.isCallExpression(e) && ts.isPropertyAccessExpression(e.expression)) { if (e.expression.name.text === "literal" && e.arguments.length === 1 && !ts.isArrayLiteralExpression(skip(e.arguments[0]))) return true; e = skip(e.expression.expression); }
    return false;
  };
  const done = new Set();
  for (const call of P.calls) {
    if (!ts.isCallExpression(call) || !/^zod:.*(object|strictObject|looseObject|extend|safeExtend)$/.test(P.externalName(call.expression) ?? "")) continue;
    const a = call.arguments[0] && skip(call.arguments[0]); const lits = [];
    if (a && ts.isObjectLiteralExpression(a)) lits.push(a);
    else if (a && ts.isIdentifier(a)) for (const d of P.declsOf(a)) { const i = d.initializer && skip(d.initializer); if (i && ts.isObjectLiteralExpression(i)) lits.push(i); }
    for (const o of lits) for (const p of o.properties) {
      if (ts.isSpreadAssignment(p) && ts.isIdentifier(skip(p.expression))) { for (const d of P.declsOf(skip(p.expression))) { const i = d.initializer && skip(d.initializer); if (i && ts.isObjectLiteralExpression(i)) lits.push(i); } continue; }
      if (ts.isSpreadAssignment(p) || done.has(p)) continue; done.add(p);
      const key = `${owner(P, call)}.${p.name.getText()}`;
      if (singleValued(p) || key in INERT) continue;
      cnt(p, "schema keys");
      ctx.oblige(L.effective(p), p, "option-effect", key, `configuration key "${p.name.getText()}" (${owner(P, call)}) is accepted but nothing that uses it is reached`);
    }
  }
  ctx.floor("schema keys", 550);

  // option members of the package's public functions
  const entry = P.file("src/index.ts"); const ms = entry && c.getSymbolAtLocation(entry);
  ctx.anchor(!!ms, "package entry module src/index.ts");
  const seen = new Set(); const pubDone = new Set();
  const visit = (t, depth) => {
    if (!t || depth > 5) return;
    if (t.isUnionOrIntersection?.()) { for (const u of t.types) visit(u, depth); return; }
    if (t.flags & ts.TypeFlags.TypeParameter) { visit(c.getBaseConstraintOfType(t), depth); return; }
    if (seen.has(t)) return; seen.add(t);
    if (t.objectFlags & ts.ObjectFlags.Reference) for (const a of c.getTypeArguments(t)) visit(a, depth + 1);
    if (t.getCallSignatures?.().length) return;
    for (const p of t.getProperties?.() ?? []) {
      const d = p.declarations?.[0]; if (!d || !P.files.includes(d.getSourceFile()) || /capture\/types\.ts$/.test(d.getSourceFile().fileName)) continue;
      if (ts.isPropertySignature(d) && (p.flags & ts.SymbolFlags.Optional) && !pubDone.has(d)) {
        pubDone.add(d);
        let o = d.parent; while (o && !(ts.isInterfaceDeclaration(o) || ts.isTypeAliasDeclaration(o))) o = o.parent;
        const key = `${o?.name?.text ?? "type"}.${p.name}`;
        if (!(key in INERT)) { cnt(d, "public option members"); ctx.oblige(L.effective(d), d, "option-effect", key, `option "${p.name}" of ${o?.name?.text ?? "an option type"} is accepted by the public API but nothing that uses it is reached`); }
      }
      visit(c.getTypeOfSymbol(p), depth + 1);
    }
  };
  for (const s of ms ? c.getExportsOfModule(ms) : []) for (const d of P.unalias(s)?.declarations ?? []) if (isFn(d)) for (const prm of d.parameters) visit(c.getTypeAtLocation(prm), 0);
  ctx.floor("public option members", 150);

  // external JSON is validated before its members are read
  const allOptional = (t, depth = 0) => { // a view whose every member may be absent forces the reader to test it
    if (depth > 3) return true;
    return (t.isUnion?.() ? t.types : [t]).every((u) => {
      if (u.flags & (ts.TypeFlags.Unknown | ts.TypeFlags.Undefined | ts.TypeFlags.Null)) return true;
      if (u.flags & ts.TypeFlags.Any) return false;
      const st = c.getIndexTypeOfType(u, ts.IndexKind.String); if (st && !u.getProperties().length) return !!(st.flags & ts.TypeFlags.Unknown);
      return u.getProperties().every((p) => (p.flags & ts.SymbolFlags.Optional) || !P.files.includes(p.declarations?.[0]?.getSourceFile()));
    });
  };
  for (const call of P.calls) {
    if (!ts.isCallExpression(call) || P.externalName(call.expression) !== "lib:JSON.parse") continue;
    const f = P.rel(call); const local = /^src\/(cli|templates|terminal|scrubber|review|scroll|animation)\//.test(f) || ctx.isFixture(call);
    if (!local) continue;
    cnt(call, "external JSON parses");
    let x = call; let castT = null;
    while (ts.isParenthesizedExpression(x.parent) || ts.isAsExpression(x.parent) || ts.isNonNullExpression(x.parent) || ts.isSatisfiesExpression(x.parent)) { x = x.parent; if (ts.isAsExpression(x)) castT = P.type(x); }
    const id = P.fnId(P.enclosingFn(call));
    let t = castT;
    if (!t) { // declared type of the receiving variable / parameter
      const p = x.parent;
      if (ts.isVariableDeclaration(p)) t = c.getTypeAtLocation(p.name);
      else if (ts.isBinaryExpression(p) && p.operatorToken.kind === K.EqualsToken) { const d = P.declsOf(skip(p.left))[0]; t = d?.type ? c.getTypeFromTypeNode(d.type) : null; }
      else if (ts.isCallExpression(p)) { if (/^zod:/.test(P.externalName(p.expression) ?? "")) t = "ok"; else { const sig = c.getResolvedSignature(p); const ps = sig?.parameters[p.arguments.indexOf(x)]; t = ps ? c.getTypeOfSymbolAtLocation(ps, p) : null; } }
      else if (ts.isReturnStatement(p) || ts.isArrowFunction(p)) { const fn = P.enclosingFn(call); t = fn?.type ? c.getTypeFromTypeNode(fn.type) : null; }
    }
    const ok = t === "ok" || (!!t && (!!(t.flags & ts.TypeFlags.Unknown) || allOptional(t)));
    ctx.oblige(ok, call, "validate-json", id, "parsed external JSON is read through a type it was never checked against");
  }
  ctx.floor("external JSON parses", 7);
  // a value that stayed `unknown` may not be cast back into a trusted shape
  walkCasts(ctx, allOptional);
  if (ctx.fixtureHits.length || true) ctx.expectFixture("fxSchema.dropped", "fxSchema.copiedDead", "fxSchema.onlyChecked", "fxTrusting");
  const bad = ctx.fixtureHits.filter((h) => /ok[A-Z]|fxSchema\.(used|mode)/.test(h));
  if (bad.length) ctx.anchor(false, `negative examples reported: ${bad.join(", ")}`);
}

function walkCasts(ctx, allOptional) {
  const { P } = ctx; const c = P.checker;
  for (const f of P.files) {
    if (!/\/src\/(cli|templates|terminal|scrubber|review)\//.test(f.fileName)) continue;
    walk(f, (n) => {
      if (!ts.isAsExpression(n) || !(P.type(n.expression).flags & ts.TypeFlags.Unknown)) return;
      const e = skip(n.expression); if (!ts.isIdentifier(e)) return;
      const d = P.declsOf(e)[0]; if (!d || !ts.isVariableDeclaration(d)) return;
      const parsed = (ctx.F.writes.get(d) ?? []).some((w) => w.expr && (() => { let h = false; walk(w.expr, (y) => { if (ts.isCallExpression(y) && P.externalName(y.expression) === "lib:JSON.parse") h = true; }); return h; })());
      if (!parsed) return;
      ctx.count("casts of parsed JSON");
      const tt = P.type(n);
      const elementsTested = c.isTupleType?.(tt) || c.isArrayType?.(tt);
      ctx.oblige(elementsTested || allOptional(tt), n, "validate-json", P.fnId(P.enclosingFn(n)), "parsed external JSON is cast to a shape it was never checked against");
    });
  }
}
