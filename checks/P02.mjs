// P02 — the document carries everything it shows.
import { ts, K, isFn, skip, walk } from "../lib/program.mjs";
import { markupTemplates } from "../lib/markup.mjs";

export const rule = "Every value written as a reference to an image (an href of an image element or a CSS url()) is traced backwards to captured page fields: on every path it must pass the function that replaces addresses by inlined bytes, or come from a field that only ever receives data: URIs. Every captured field whose addresses reach that function is also a field from which the remote-image fetch collects addresses. No markup the program writes names a remote resource itself.";
export const trusted = ["value-flow engine (lib/flow.mjs)", "lexical markup machine (lib/markup.mjs)"];
export const assumptions = ["fetching succeeds (a failed fetch keeps the address and is reported as a warning)", "verbatim inline-SVG subtrees are taken over as captured"];
export const fixtures = {
  "__verif_fixture_p02.ts": `
import { embedResizedDataUri } from "./capture/embed.js";
import type { CapturedElement } from "./capture/types.js";
export function fxRaw(el: CapturedElement): string { return \`<image href="\${el.imageSrc}" width="3"/>\`; }
export function fxSometimes(el: CapturedElement, fast: boolean): string { const u = fast ? el.imageSrc! : embedResizedDataUri(el.imageSrc!, 3, 3); return \`<image href="\${u}" width="3"/>\`; }
export function okEmbedded(el: CapturedElement): string { return \`<image href="\${embedResizedDataUri(el.imageSrc!, 3, 3)}" width="3"/>\`; }
export function fxUncollected(el: CapturedElement): string { return \`<image href="\${embedResizedDataUri(el.styles.boxShadow!, 3, 3)}" width="3"/>\`; }
export function fxRemote(): string { return '<image href="https://example.org/x.png" width="3"/>'; }
export function okRaster(er: { dataUri: string }): string { return \`<image href="\${er.dataUri}"/>\`; }
export function fxFont(u: CapturedElement): string { return \`<style>@font-face{font-family:x;src:url(\${u.imageSrc})}</style>\`; }
`,
};

export function run(ctx) {
  const { P, F } = ctx;
  const declOf = (e) => { e = skip(e); return ts.isIdentifier(e) ? P.declsOf(e)[0] : null; };
  const text = (d) => (d.name && (ts.isIdentifier(d.name) || ts.isStringLiteral(d.name)) ? d.name.text : "");
  const inTypes = (d) => /\/src\/capture\/types\.ts$/.test(d.getSourceFile().fileName);
  const strDecl = (d) => { try { const t = P.checker.getTypeOfSymbol(d.symbol); return (t.isUnion?.() ? t.types : [t]).some((u) => u.flags & ts.TypeFlags.StringLike); } catch { return false; } };
  const mapCall = (n, re) => ts.isCallExpression(n) && ts.isPropertyAccessExpression(skip(n.expression)) && re.test(skip(n.expression).name.text) && /^(Map|ReadonlyMap)</.test(P.typeStr(skip(n.expression).expression)) ? declOf(skip(n.expression).expression) : null;
  const startsData = (e, seen = new Set()) => { // a string that begins with data: whatever follows
    e = skip(e); if (seen.has(e)) return true; seen.add(e);
    if (ts.isStringLiteralLike(e)) return /^(data:|#|)$/.test(e.text) || e.text.startsWith("data:") || e.text.startsWith("#");
    if (ts.isTemplateExpression(e)) return /^(data:|#)/.test(e.head.text) || e.head.text === "" && startsData(e.templateSpans[0].expression, seen);
    if (ts.isBinaryExpression(e) && e.operatorToken.kind === K.PlusToken) return startsData(e.left, seen);
    return false;
  };

  // ── the table of inlined images, the functions that consult it, the function that fills it over the network ──
  const sets = new Map(), gets = new Map();
  for (const f of P.files) walk(f, (n) => { const d = mapCall(n, /^set$/), g = mapCall(n, /^get$/); if (d) (sets.get(d) ?? sets.set(d, []).get(d)).push(n); if (g) (gets.get(g) ?? gets.set(g, []).get(g)).push(n); });
  const fetches = new Set(); for (const c of P.calls) if (ts.isCallExpression(c) && ts.isIdentifier(c.expression) && c.expression.text === "fetch" && (P.externalName(c.expression) ?? "").endsWith(":fetch")) fetches.add(P.enclosingFn(c));
  const callsFetch = (fn, depth = 0, seen = new Set()) => { if (!fn || seen.has(fn) || depth > 4) return false; seen.add(fn); return fetches.has(fn) || [...(P.callGraph.get(fn) ?? [])].some((g) => callsFetch(g, depth + 1, seen)); };
  let table = null, fills = [];
  for (const [d, ss] of sets) { const q = ss.filter((s) => !ctx.isFixture(s) && startsData(s.arguments[1]) && callsFetch(P.enclosingFn(s))); if (q.length) { table = d; fills = q; } }
  if (!ctx.anchor(table, "the table of inlined images, filled from the network")) return;
  const embedders = new Map(); // fn -> index of the address parameter
  for (const g of gets.get(table) ?? []) { const d = declOf(g.arguments[0]); if (d && ts.isParameter(d) && isFn(d.parent)) embedders.set(d.parent, d.parent.parameters.indexOf(d)); }
  for (let again = true; again;) { again = false; for (const f of P.functions) { if (embedders.has(f) || !f.body) continue; walk(f.body, (n) => { if (!ts.isCallExpression(n) || embedders.has(f)) return; for (const g of P.callees(n)) if (embedders.has(g)) { const d = n.arguments[embedders.get(g)] && declOf(n.arguments[embedders.get(g)]); let r = n.parent; while (r && (ts.isParenthesizedExpression(r) || ts.isAsExpression(r) || ts.isNonNullExpression(r) || ts.isSatisfiesExpression(r) || ts.isBinaryExpression(r) || ts.isConditionalExpression(r))) r = r.parent; if (d && ts.isParameter(d) && d.parent === f && (r && (ts.isReturnStatement(r) || r === f))) { embedders.set(f, f.parameters.indexOf(d)); again = true; } } }); } }
  ctx.anchor(embedders.size >= 2, "functions that replace an address by inlined bytes");
  // an embedder hands back either a data URI or the address it could not fetch: each of its results is data:, the table's entry, or the parameter itself
  const isEmbed = (e) => ts.isCallExpression(e) && F.targets(e.expression).some((f) => embedders.has(f));

  // ── fields that only ever receive data: URIs ──
  const RASTER = /(^|[a-z])(dataUri|DataUri)$/;
  const inlineField = new Map();
  const inline = (d) => { if (inlineField.has(d)) return inlineField.get(d); inlineField.set(d, true); let bad = null;
    for (const w of F.writes.get(d) ?? []) { if (!w.expr || ctx.isFixture(w.expr)) continue; const r = traceRef(w.expr); if (r.length) bad = r[0]; }
    inlineField.set(d, !bad); return !bad; };
  // an optional hook that every caller in the program supplies: `hook?.(…) ?? fallback` never falls back to it
  const literals = new Map(); for (const f of P.files) walk(f, (n) => { if (!ts.isObjectLiteralExpression(n)) return; const t = P.checker.getContextualType(n); for (const u of t?.isUnion?.() ? t.types : t ? [t] : []) if (u.symbol) (literals.get(u.symbol) ?? literals.set(u.symbol, []).get(u.symbol)).push(n); });
  const hooked = (e) => { const c = skip(e); if (!ts.isCallExpression(c)) return false; const x = skip(c.expression); if (!ts.isPropertyAccessExpression(x)) return false;
    const d = P.checker.getSymbolAtLocation(x.name)?.declarations?.[0]; if (!d || !d.parent?.symbol) return false;
    const ls = (literals.get(d.parent.symbol) ?? []).filter((l) => !(l.parent && ts.isParameter(l.parent) && isFn(l.parent.parent) && (P.callers.get(l.parent.parent) ?? []).every((k) => (k.arguments ?? []).length > l.parent.parent.parameters.indexOf(l.parent))));
    return ls.length > 0 && ls.every((l) => l.properties.some((p) => p.name && text(p) === x.name.text)); };
  const traceRef = (start) => F.trace(start, { noMapKeys: true,
    expr(e) { if (ts.isBinaryExpression(e) && e.operatorToken.kind === K.QuestionQuestionToken && hooked(e.left)) return traceRef(e.left).length ? { source: traceRef(e.left)[0].label } : "clean"; if (startsData(e) && !ts.isStringLiteralLike(e)) return "clean"; if (isEmbed(e)) return "clean"; if (ts.isExpression(e) && !(P.type(e).flags & ts.TypeFlags.StringLike) && ts.isNumericLiteral(e)) return "clean"; return undefined; },
    decl(d) { if (ts.isParameter(d) && /\/post-processing\//.test(d.getSourceFile().fileName) && strDecl(d)) return "clean"; /* a finished document */ if (!(inTypes(d) && (ts.isPropertySignature(d) || ts.isPropertyDeclaration(d)))) return undefined; if (!strDecl(d)) return "clean"; if (RASTER.test(text(d))) return "clean"; return { source: text(d) }; },
  }, { depth: 3, limit: 40000 }).found;

  // ── every reference written ──
  const HTML = /\/src\/(templates|review|scrubber)\/|\/src\/terminal\/render\.ts$|\/src\/cli\/svg-to-video\.ts$/;
  const SKIP = /^(a|script|link)$/;
  const lits = (t) => { const out = []; walk(t.node, (n) => { if (ts.isTemplateHead(n) || ts.isTemplateMiddle(n) || ts.isTemplateTail(n) || ts.isStringLiteralLike(n)) out.push(n); }); return out; };
  const refs = [];
  for (const t of markupTemplates(P)) {
    if (HTML.test(t.node.getSourceFile().fileName)) continue;
    for (const h of t.holes) {
      let before = ""; for (let p = h.expr.parent; p; p = p.parent) if (ts.isTemplateExpression(p)) { const i = p.templateSpans.findIndex((s) => s.expression === h.expr || s.expression.pos <= h.expr.pos && s.expression.end >= h.expr.end); before = i > 0 ? p.templateSpans[i - 1].literal.text : p.head.text; break; } else if (p === t.node) break;
      const url = /url\(\s*["']?(&quot;|&apos;)?$/.test(before), href = /^(xlink:)?href$|^src$/.test(h.attr) && (h.state === "dq" || h.state === "sq") && /=\s*["']$/.test(before) && !SKIP.test(h.tag);
      if (url || href) refs.push({ t, h, kind: url ? "url()" : h.attr });
    }
  }
  for (const { t, h, kind } of refs) {
    const fx = ctx.isFixture(t.node); if (!fx) ctx.count("references written");
    const found = traceRef(h.expr), labels = [...new Set(found.map((f) => f.label))];
    ctx.oblige(!labels.length, h.expr, "written", `${P.fnId(P.enclosingFn(t.node))}|${labels[0] ?? ""}`, `the captured address ${labels.slice(0, 3).join(", ")} is written as ${kind} without being replaced by inlined bytes${found[0] ? " (" + F.witness(found[0], 5).join(" <- ") + ")" : ""}`);
  }
  // ── fields trusted to be inlined really are ──
  for (const f of P.files) if (/\/src\/capture\/types\.ts$/.test(f.fileName)) walk(f, (n) => { if (!ts.isPropertySignature(n) || !RASTER.test(text(n)) || !strDecl(n)) return; ctx.count("fields holding inlined pictures");
    for (const w of F.writes.get(n) ?? []) { if (!w.expr || ctx.isFixture(w.expr)) continue; ctx.count("writes to inlined pictures"); const r = traceRef(w.expr); ctx.oblige(!r.length, w.expr, "inlined-field", `${text(n.parent?.parent ?? n)}|${text(n)}|${P.fnId(P.enclosingFn(w.expr))}`, `${text(n)} is written from ${r[0]?.label}, which is an address, not inlined bytes`); } });

  // ── what the network fetch collects ──
  const fieldsOf = (e, keys) => { const out = new Map(); const r = F.trace(e, { noMapKeys: !keys, expr(x) { if (!ts.isStringLiteralLike(x) && startsData(x)) return "clean"; if (ts.isExpression(x) && x !== e && isEmbed(x)) return "clean"; const t = ts.isExpression(x) ? P.type(x) : null; if (t && t.flags & (ts.TypeFlags.NumberLike | ts.TypeFlags.BooleanLike)) return "clean"; return undefined; }, decl(d) { if (!(inTypes(d) && (ts.isPropertySignature(d) || ts.isPropertyDeclaration(d)))) return undefined; if (!strDecl(d)) return undefined; return { source: text(d), d }; } }, { depth: 4, limit: 60000 }); for (const f of r.found) out.set(f.node, f); return out; };
  const collected = new Set(); for (const s of fills) for (const d of fieldsOf(s.arguments[0], true).keys()) collected.add(d);
  ctx.anchor(collected.size >= 4, "captured fields the fetch collects addresses from");
  ctx.count("captured fields collected", collected.size);
  const seenPair = new Set();
  for (const c of P.calls) {
    if (!isEmbed(c)) continue; const fn = P.enclosingFn(c); if (embedders.has(fn)) continue;
    const g = F.targets(c.expression).find((f) => embedders.has(f)), a = c.arguments[embedders.get(g)]; if (!a) continue;
    const fx = ctx.isFixture(c); if (!fx) ctx.count("addresses inlined while rendering");
    for (const [d, f] of fieldsOf(a)) { const key = `${P.fnId(fn)}|${d.parent.name?.text ?? ""}.${text(d)}`; if (seenPair.has(key)) continue; seenPair.add(key);
      if (!fx) ctx.count("captured fields rendered as images");
      ctx.oblige(collected.has(d) || startsLikeRaster(d), c, "collected", key, `addresses in ${d.parent.name?.text ? d.parent.name.text + "." : ""}${text(d)} are rendered as images, but the remote-image fetch never collects them: the document keeps pointing at the network (${F.witness(f, +(process.env.WIT ?? 4)).join(" <- ")})`); }
  }
  function startsLikeRaster(d) { return RASTER.test(text(d)); }

  // ── literals ──
  for (const f of P.files) { if (HTML.test(f.fileName) || f.fileName.includes(".generated.") || /\/(review|scrubber|templates)\//.test(f.fileName)) continue;
    walk(f, (n) => {
      if (ts.isImportDeclaration(n) || ts.isTypeNode(n)) return false;
      if (!(ts.isStringLiteralLike(n) || ts.isTemplateHead(n) || ts.isTemplateMiddle(n) || ts.isTemplateTail(n))) return;
      if (!/<[a-zA-Z]|url\(|@import/.test(n.text)) return;
      if (!ctx.isFixture(n)) ctx.count("markup literals");
      const m = /(?:\b(?:xlink:)?href|\bsrc)\s*=\s*["']\s*((?:https?:)?\/\/[^"']+)|url\(\s*["']?((?:https?:)?\/\/[^"')]+)|@import\s+(\S+)/.exec(n.text.replace(/<a\s[^>]*>/g, ""));
      ctx.oblige(!m, n, "remote-literal", `${P.fnId(P.enclosingFn(n))}|${m?.[1] ?? m?.[2] ?? m?.[3] ?? ""}`, `the markup names a remote resource: ${m?.[0]}`);
    }); }
  ctx.floor("references written", 25); ctx.floor("addresses inlined while rendering", 8); ctx.floor("markup literals", 300); ctx.floor("writes to inlined pictures", 8);
  ctx.expectFixture("fxRaw|", "fxSometimes|", "fxUncollected|", "fxRemote|", "fxFont|");
  for (const h of ctx.fixtureHits) if (/#ok/.test(h)) ctx.anchor(false, "negative example reported: " + h);
}
