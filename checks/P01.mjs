import { ts, K, isFn, skip, walk } from "../lib/program.mjs";
import { mayBeString, externalSource } from "../lib/sources.mjs";
import { Escapes, ILLEGAL } from "../lib/escapes.mjs";
import { markupTemplates, isChain, parts, looksMarkup } from "../lib/markup.mjs";

export const rule = "Every string template or concatenation that writes markup is run through an XML/HTML lexical machine, which gives each spliced value its position (element text, quoted attribute, tag, style, script, comment). Each value that can be text is traced backwards to captured page text, configuration strings and public string options; on every path from such a source the value must pass replacements that together remove the characters that would end that position (and, in SVG, the characters XML forbids).";
export const trusted = ["value-flow engine (lib/flow.mjs)", "escape analysis (lib/escapes.mjs): regular expressions of replace() calls evaluated on probe characters"];
export const assumptions = [
  "Chromium's computed-style serialisation of colour, keyword and length values contains no markup delimiter (GRAMMAR table)",
  "Option fields documented as ready markup (frame content, shared definitions, inlined documents) are well formed",
];

export const fixtures = {
  "__verif_fixture_p01.ts": `
import { esc } from "./render/format.js";
import { z } from "zod";
import type { CapturedElement } from "./capture/types.js";
export const fxSchema = z.object({ caption: z.string(), tint: z.string() });
type Fx = z.infer<typeof fxSchema>;
export function rawText(el: CapturedElement): string { return "<text>" + el.text + "</text>"; }
export function rawAttr(el: CapturedElement): string { return \`<a href="\${el.imageSrc}"/>\`; }
const half = (s: string): string => s.replace(/&/g, "&amp;").replace(/</g, "&lt;");
export function halfEscaped(el: CapturedElement): string { return \`<g aria-label="\${half(el.text)}"></g>\`; }
export function rawConfig(o: Fx): string { return \`<rect fill="\${o.tint}"/>\`; }
export function onePath(el: CapturedElement, plain: boolean): string { const t = plain ? el.text : esc(el.text); return \`<text>\${t}</text>\`; }
export function okText(el: CapturedElement): string { const t = esc(el.text ?? ""); const parts: string[] = []; parts.push(\`<text>\${t}</text>\`); return \`<g>\${parts.join("")}</g>\`; }
export function okNumber(el: CapturedElement): string { return \`<g x="\${el.x.toFixed(1)}"></g>\`; }
const table: Record<string, string> = { "&": "&amp;", "<": "&lt;", '"': "&quot;" };
const viaTable = (s: string): string => s.replace(/[\\x00-\\x08\\x0B\\x0C\\x0E-\\x1F\\uFFFE\\uFFFF\\uD800-\\uDFFF]/g, "").replace(/[&<"]/g, (c) => table[c]);
export function okTable(el: CapturedElement): string { return \`<g aria-label="\${viaTable(el.text)}"></g>\`; }
export function okConfig(o: Fx): string { return \`<rect fill="\${esc(o.tint)}"/><text>\${esc(o.caption)}</text>\`; }
`,
};

const NEED = { text: ["&", "<"], dq: ["&", "<", '"'], sq: ["&", "<", "'"], style: ["&", "<"], script: ["<"], comment: ["-"], cdata: [], tag: ["&", "<", '"', ">"], "?": ["&", "<", '"'], pi: ["<"] };
// Computed CSS values whose grammar has no markup delimiter: [captured field, position]
const GRAMMAR = [
  [/(color|Color|Bg|BgFallback|Border|BoxShadow|Accent|rootBgComputed)$/, /./],
  [/(Style|Weight|BlendMode|clipPath)$/, /./],
  [/(Image|Gradient|Source|BoxReflect)$/, /^stop-color$/],
  [/^animId$/, /./],
];
// Files that escape such values all the same: only what is listed is written as it stands there
const STRICT = [
  [/render\/text\.ts$/, /^(color|textDecorationColor)$/, /^stroke$/],
  [/render\/vertical-text\.ts$/, /^(color|textDecorationColor)$/, /^stroke$/],
  [/render\/clip-path\.ts$/, /^clipPath$/, /^d$/],
  [/render\/element-tree-to-svg\.ts$/, /^(backgroundBlendMode|backgroundColor|border\w+Color|frostedBgFallback)$/, /^(style|fill|stroke)$/],
  [/render\/element-tree-to-svg\.ts$/, /^(border\w+Style|color|fontWeight|markerFontWeight)$/, /^(points|color|font-weight)$/],
  [/render\/(pseudo-fragments|borders|broken-image-fallback|text-to-path|format|cluster-fallback|box-shadow)\.ts$/, /^$/, /^$/],
  [/animation\/(animator|composite|caret-track|shine|cursor-overlay|cursor-glyphs)\.ts$/, /^$/, /^$/],
];
// values that are documents or program-made URIs, not text
const DOCUMENT = /^(svgContent|outerHTML|innerSvg|dataUri|rasterDataUri|svg|sharedDefs|inner|content|idPrefix|version|defs|markup|css|fontFaceCss|animId)$/;
const HTML = /\/src\/(templates|review|scrubber)\/|\/src\/terminal\/render\.ts$|\/src\/cli\/svg-to-video\.ts$/;

export function run(ctx) {
  const { P, F } = ctx; const E = new Escapes(P, F);
  const cnt = (n, k) => { if (!ctx.isFixture(n)) ctx.count(k); };
  const T = markupTemplates(P);
  const markup = new Map();
  const isMarkup = (e) => { let r = markup.get(e); if (r === undefined) markup.set(e, r = looksMarkup(parts(e).filter((x) => x.lit !== undefined).map((x) => x.lit).join("\u0001"))); return r; };
  const inTypes = (d) => /\/src\/capture\/(types|pseudo-fragment-protocol|broken-image-fallback|native-control-decoration|text-fragment-geometry|pseudo-style-cdp|effective-appearance)\.ts$/.test(d.getSourceFile().fileName) && !(ts.isInterfaceDeclaration(d.parent) && /Options$/.test(d.parent.name.text));
  const strDecl = (d) => { try { const t = P.checker.getTypeOfSymbol(d.symbol); return (t.isUnion?.() ? t.types : [t]).some((u) => u.flags & ts.TypeFlags.String); } catch { return false; } };
  const zString = (d) => { // a schema member whose outermost builder starts at z.string()
    let e = skip(d.initializer), seen = 0;
    while (seen++ < 20) {
      if (ts.isCallExpression(e) || ts.isPropertyAccessExpression(e)) { const x = ts.isCallExpression(e) ? P.text(e.expression, 60) : ""; if (/^z\s*\.\s*string$/.test(x)) { let v = e.parent, enumLike = false; while (v && v !== d) { if (ts.isCallExpression(v) && ts.isPropertyAccessExpression(v.expression) && v.expression.name.text === "regex") enumLike = true; v = v.parent; } return !enumLike; } e = e.expression; continue; }
      if (ts.isIdentifier(e)) { const i = P.declsOf(e).find((q) => ts.isVariableDeclaration(q) && q.initializer); if (!i) return false; e = skip(i.initializer); continue; }
      return false;
    }
    return false;
  };
  // a schema member that accepts text somewhere inside: lists, unions, preprocessed values
  const schemaText = (d) => {
    if (!ts.isObjectLiteralExpression(d.parent) || !ts.isCallExpression(d.parent.parent) || !/^(z\.(object|strictObject|looseObject)|.*\.extend)$/.test(d.parent.parent.expression.getText())) return false;
    const t = P.type(d.initializer); const o = t.getProperty("_output"); if (!o) return false; const ot = P.checker.getTypeOfSymbolAtLocation(o, d);
    let rx = false; walk(d.initializer, (q) => { if (ts.isCallExpression(q) && ts.isPropertyAccessExpression(q.expression) && q.expression.name.text === "regex") rx = true; }); if (rx) return false;
    const go = (u, n) => n < 5 && !!u && (u.isUnion() ? u.types.some((v) => go(v, n + 1)) : !!(u.flags & ts.TypeFlags.String) || (P.checker.isArrayType(u) || P.checker.isTupleType(u) ? P.checker.getTypeArguments(u).some((v) => go(v, n + 1)) : (() => { const ix = u.getStringIndexType?.(); return !!ix && go(ix, n + 1); })()));
    return go(ot, 0);
  };
  const fieldName = (d) => (d.name && (ts.isIdentifier(d.name) || ts.isStringLiteral(d.name)) ? d.name.text : "");
  // public option members: exported interfaces nobody in the program fills in
  const option = (d) => ts.isPropertySignature(d) && strDecl(d) && (given.has(d.parent) || ts.isInterfaceDeclaration(d.parent) && d.parent.modifiers?.some((m) => m.kind === K.ExportKeyword) && !(F.writes.get(d)?.length) && !(F.propLinks.get(d)?.size));
  const given = new Set(); { // option bags that exported functions take
    const idx = P.file("src/index.ts"); if (idx) for (const x of P.checker.getExportsOfModule(P.checker.getSymbolAtLocation(idx))) for (const f of P.fnsOfDecls(P.unalias(x).declarations ?? [])) for (const q of f.parameters) { const t = P.type(q); for (const u of t.isUnion?.() ? t.types : [t]) for (const dd of u.symbol?.declarations ?? []) if (ts.isInterfaceDeclaration(dd) && /Options$/.test(dd.name.text)) given.add(dd); }
    for (const f of P.functions) if (/\/(review|scrubber)\/server\.ts$/.test(f.getSourceFile().fileName) && f.modifiers?.some((m) => m.kind === K.ExportKeyword)) for (const q of f.parameters) for (const dd of P.type(q).symbol?.declarations ?? []) if (ts.isInterfaceDeclaration(dd)) given.add(dd);
  }
  const HARMLESS = /^\^[^.\\&<>"'$]*(?:\\[dwb-][^.\\&<>"'$]*)*\$$/;
  const allowList = (c) => {
    let hit = false; const go = (x) => {
      x = skip(x);
      if (ts.isBinaryExpression(x) && x.operatorToken.kind === K.AmpersandAmpersandToken) { go(x.left); go(x.right); }
      else if (ts.isCallExpression(x) && ts.isPropertyAccessExpression(x.expression) && x.expression.name.text === "test" && ts.isRegularExpressionLiteral(skip(x.expression.expression)) && x.arguments[0] && skip(x.arguments[0]).getText() === skip(c.whenTrue).getText()) {
        const m = /^\/([\s\S]*)\/[a-z]*$/.exec(skip(x.expression.expression).text)?.[1] ?? "";
        if (HARMLESS.test(m) && !/\[\^/.test(m)) hit = true;
      }
    }; go(c.condition); return hit;
  };
  for (const t of T) for (const h of t.holes) {
    cnt(t.node, "spliced values");
    if (!mayBeString(P, h.expr)) continue;
    const html = HTML.test(t.node.getSourceFile().fileName) || /<(html|body|div)\b|\b(html|body)\s*[,{]/.test(t.lits);
    if (html && h.state === "style") continue; // a template author's own CSS, in HTML that Chromium parses
    const needs = [...NEED[h.state], ...(html || h.state === "script" || h.state === "comment" ? [] : ILLEGAL)];
    const source = (d, kind) => {
      const n = fieldName(d);
      if (DOCUMENT.test(n)) return "clean";
      if (kind === "page" && GRAMMAR.some(([f, a]) => f.test(n) && a.test(h.attr || h.state))) { const st = STRICT.filter(([f]) => f.test(t.node.getSourceFile().fileName)); if (!st.length || n === "animId" || st.some(([, f, a]) => f.test(n) && a.test(h.attr || h.state))) return "clean"; }
      return { source: `${kind} ${d.parent.name?.text ? d.parent.name.text + "." : ""}${n}` };
    };
    const r = F.trace(h.expr, {
      noMapKeys: true,
      expr(e) {
        if (ts.isExpression(e) && !mayBeString(P, e)) return "clean";
        if (isChain(e) && isMarkup(e)) return "clean"; // its own template, judged on its own
        if (ts.isConditionalExpression(e) && allowList(e)) return [e.whenFalse]; // an anchored test admitted only harmless characters
        if (ts.isCallExpression(e) && /(^|[:.])(getChars|translateToString)$/.test(P.externalName(e.expression) ?? "")) return { source: "terminal output" };
        const xs = ts.isCallExpression(e) ? externalSource(P, e) : null; if (xs) return { source: xs };
        if (ts.isCallExpression(e)) {
          const o = E.of(e);
          if (o.inner) { if (needs.every((c) => o.chars.has(c))) return "clean"; if (o.chars.size) return [o.inner]; }
          const x = P.externalName(e.expression) ?? ""; const cal = skip(e.expression);
          if (/\.(digest|toFixed|toPrecision|toISOString)$/.test(x)) return "clean";
          if (/^lib:(decodeURIComponent|unescape|atob)$/.test(x)) return "clean"; // an inlined document
          if (x === "fs:readFileSync") return "clean";
          if (ts.isPropertyAccessExpression(cal) && cal.name.text === "toString" && e.arguments.length) return "clean"; // base64, hex, or the text of a decoded document
        }
        return undefined;
      },
      decl(d) {
        if (inTypes(d) && (ts.isPropertySignature(d) || ts.isPropertyDeclaration(d))) return strDecl(d) ? source(d, "page") : "clean";
        if (ts.isPropertyAssignment(d) && (zString(d) || schemaText(d))) return source(d, "config");
        if (option(d)) return source(d, "option");
        return undefined;
      },
    }, { depth: 3, limit: 40000 });
    if (r.truncated && !ctx.isFixture(t.node)) ctx.notes.push(`trace bound reached at ${P.loc(h.expr)}`);
    const labels = [...new Set(r.found.map((f) => f.label))];
    const key = `${P.fnId(P.enclosingFn(t.node)) ?? "top"} ${h.state}${h.attr ? ":" + h.attr : ""}`;
    cnt(t.node, "values that may be text");
    ctx.oblige(!labels.length, h.expr, "unescaped", `${key} ${labels[0] ?? ""}`, `${labels.slice(0, 3).join(", ")} reaches ${h.state === "dq" || h.state === "sq" ? `the ${h.attr || "quoted"} attribute` : h.state + " position"} at ${P.text(h.expr, 50)} without being escaped${r.found[0] ? " (" + F.witness(r.found[0], 6).join(" <- ") + ")" : ""}`);
  }
  // every function the program uses as an SVG text escaper drops what XML forbids
  ctx.floor("spliced values", 1500); ctx.floor("values that may be text", 500);
  ctx.expectFixture("rawText", "rawAttr", "halfEscaped", "rawConfig", "onePath");
  for (const h of ctx.fixtureHits) if (/#ok/.test(h)) ctx.anchor(false, "negative example reported: " + h);
}
