import { ts, K, isFn, skip, walk } from "../lib/program.mjs";
import { Identity, mutations } from "../lib/identity.mjs";

export const rule = "Every in-place change in the host code (assignment, compound assignment, increment, delete, destructuring target, mutating container method, Object.assign/defineProperty) is enumerated; the object changed is identified by an access-path object-identity analysis through variables, parameters, calls, callbacks, spreads and copies. The object must not be, or be reachable from, an argument of a public function (documented annotation fields excepted), a constant table, or an entry of a memo table.";
export const trusted = ["object-identity analysis (lib/identity.mjs)", "value-flow engine (lib/flow.mjs)"];
export const assumptions = ["Library functions do not modify the objects passed to them", "Live handles (pages, browsers, streams) are objects to act on, not inputs to preserve"];

export const fixtures = {
  "__verif_fixture_p20.ts": `
interface Item { name: string; kids?: Item[]; style: { color: string } }
export const FIX_TABLE: Record<string, { w: number }> = { a: { w: 1 }, b: { w: 2 } };
const memo = new Map<string, number[]>();
const compute = (k: string): number[] => { let r = memo.get(k); if (r == null) { r = [k.length, 2]; memo.set(k, r); } return r; };
/** @verifApi */ export function sortsInput(items: Item[]): string { return items.sort((a, b) => (a.name < b.name ? -1 : 1)).map((i) => i.name).join(); }
function deep(i: Item): void { for (const k of i.kids ?? []) { k.style.color = "red"; deep(k); } }
/** @verifApi */ export function deepWrite(items: Item[]): void { items.forEach((i) => deep(i)); }
/** @verifApi */ export function shallowCopy(items: Item[]): Item[] { const out = items.map((i) => ({ ...i })); for (const o of out) o.style.color = "blue"; return out; }
/** @verifApi */ export function viaAssign(opts: { a?: number }): number { const o = Object.assign(opts, { a: 1 }); return o.a; }
/** @verifApi */ export function okCopy(items: Item[]): Item[] { const out = items.map((i) => ({ ...i, style: { ...i.style } })); for (const o of out) { o.style.color = "blue"; o.name += "x"; } return [...items].sort().concat(out); }
/** @verifApi */ export function okClone(item: Item): Item { const c = { ...item }; c.style = { ...item.style }; c.style.color = "green"; return c; }
/** @verifApi */ export function okOwnList(items: Item[]): string[] { const names: string[] = []; for (const i of items) names.push(i.name); names.sort(); return names; }
export function tableWrite(): void { FIX_TABLE.a.w = 3; }
export function tablePick(k: string): number { const t = FIX_TABLE[k]; t.w++; return t.w; }
export function memoWrite(k: string): number { const r = compute(k); r.push(1); return r.length; }
export function memoFill(k: string): number[] { let r = memo.get(k); if (r == null) { r = [k.length]; memo.set(k, r); } r.push(3); return r; }
export function okMemoCopy(k: string): number { const r = [...compute(k)]; r.push(1); return r.length; }
class Rec { private items: Item[] = []; constructor(private first: Item) {} add(i: Item): void { this.items.push(i); } flush(): void { for (const i of this.items) i.name = ""; this.first.name = "x"; } }
/** @verifApi */ export function keptThenWritten(i: Item): void { const r = new Rec(i); r.add(i); r.flush(); }
`,
};

// in-place annotation fields of captured nodes, each documented as written by the pass that owns it
const ANNOTATIONS = { CapturedElement: ["propagatedDecorations", "cullClass", "displayNone", "animatedProperties"] };
const OUT_PARAMS = [["embedRemoteImages", "warnings"], ["applyFormatSize", "width"], ["applyFormatSize", "height"]];
// records that a registry keeps and updates on behalf of its own document or session
const LIVE = /^(BuilderEntry|FontInstance|FontkitFont|ForcedStateSession|HbFont)/;

export function run(ctx) {
  const { P, F } = ctx; const c = P.checker; const I = new Identity(P, F);
  // the public surface: every function, and every method of every class, the package entry exports
  const api = new Set(); const apiName = new Map();
  const idx = P.file("src/index.ts"); ctx.anchor(!!idx, "package entry src/index.ts"); if (!idx) return;
  for (const s of c.getExportsOfModule(c.getSymbolAtLocation(idx))) {
    const u = P.unalias(s);
    for (const f of P.fnsOfDecls(u.declarations ?? [])) { api.add(f); apiName.set(f, s.name); }
    for (const d of u.declarations ?? []) if (ts.isClassDeclaration(d)) for (const m of d.members) if (m.body) { api.add(m); apiName.set(m, `${s.name}.${m.name?.getText() ?? "constructor"}`); }
  }
  for (const f of P.functions) if (ctx.isFixture(f) && ts.getJSDocTags(f).some((t) => t.tagName.text === "verifApi")) { api.add(f); apiName.set(f, f.name.text); }
  for (const f of api) if (!ctx.isFixture(f)) ctx.count("public functions");

  // inputs are plain data; live handles are not
  const HANDLE = /^(Page|Browser|BrowserContext|CDPSession|ChildProcess|Socket|Server|IncomingMessage|ServerResponse|Writable|Readable|Worker|Locator|Frame)$/;
  const isHandle = (d) => { const t = c.getNonNullableType(c.getTypeAtLocation(d)); return (t.isUnion() ? t.types : [t]).every((u) => HANDLE.test(u.symbol?.name ?? "")); };
  const typeNames = (e) => { const t = c.getNonNullableType(P.type(e)); return (t.isUnionOrIntersection() ? t.types : [t]).map((u) => u.aliasSymbol?.name ?? u.symbol?.name ?? ""); };
  // a table: module constant built from non-trivial constant content
  const content = (e, depth = 0) => {
    e = skip(e);
    if (ts.isStringLiteralLike(e)) return e.text !== ""; if (ts.isNumericLiteral(e)) return Number(e.text) !== 0;
    if (ts.isObjectLiteralExpression(e)) return e.properties.some((q) => ts.isPropertyAssignment(q) ? content(q.initializer, depth + 1) : ts.isSpreadAssignment(q));
    if (ts.isArrayLiteralExpression(e)) return e.elements.some((q) => ts.isSpreadElement(q) || content(q, depth + 1));
    if (ts.isNewExpression(e) && /^(Map|Set|ReadonlyMap)$/.test(e.expression.getText()) && e.arguments?.[0]) return content(e.arguments[0], depth + 1);
    if (ts.isCallExpression(e) && /^Object\.freeze$/.test(e.expression.getText())) return content(e.arguments[0], depth + 1);
    return depth > 0 && (ts.isIdentifier(e) || ts.isCallExpression(e) || isFn(e));
  };
  const isTable = (d) => ts.isVariableDeclaration(d) && d.initializer && (d.parent.flags & ts.NodeFlags.Const) && content(d.initializer);
  // a memo: module-level map (or map-valued slot) filled on demand
  const isMemo = (d) => { const t = c.getNonNullableType(c.getTypeAtLocation(d)); return /^(Map|WeakMap)$/.test(t.symbol?.name ?? ""); };

  const inPage = /\/src\/capture\/script\/|\/(review|scrubber)\/client|generated/;
  const browserRun = pageFns(ctx);
  const fills = (m) => { // o.f = [] / {} only when o.f is absent
    const n = m.node; if (!ts.isBinaryExpression(n)) return false;
    const r = skip(n.right); const empty = (ts.isArrayLiteralExpression(r) && !r.elements.length) || (ts.isObjectLiteralExpression(r) && !r.properties.length);
    if (!empty) return false;
    if (n.operatorToken.kind === K.QuestionQuestionEqualsToken) return true;
    let p = n.parent; while (p && (ts.isExpressionStatement(p) || ts.isBlock(p))) p = p.parent;
    const g = p && ts.isIfStatement(p) ? skip(p.expression) : null;
    return !!g && ts.isBinaryExpression(g) && /^={2,3}$/.test(g.operatorToken.getText()) && g.left.getText() === n.left.getText() && /^(null|undefined)$/.test(g.right.getText());
  };
  for (const m of mutations(P)) {
    if (inPage.test(m.node.getSourceFile().fileName)) continue;
    const fn = P.enclosingFn(m.node); let host = fn; while (host && !browserRun.has(host)) host = P.enclosingFn(host); if (host) continue;
    const key = `${P.fnId(fn)}|${m.field === "*" ? "*" : m.field}`;
    const cnt = (k) => { if (!ctx.isFixture(m.node)) ctx.count(k); };
    const os = I.origins(m.target); cnt("in-place changes");
    if (os.some((o) => o.path[0] === "limit")) ctx.notes.push(`identity search truncated at ${P.loc(m.node)}`);
    // inputs
    const ins = os.filter((o) => o.kind === "param" && api.has(o.decl.parent) && !isHandle(o.decl) && ctx.isFixture(o.decl) === ctx.isFixture(m.node));
    const annotated = typeNames(m.target).some((t) => (ANNOTATIONS[t] ?? []).includes(m.field)) || fills(m);
    const bad = annotated ? [] : ins.filter((o) => !OUT_PARAMS.some(([f, n]) => (apiName.get(o.decl.parent) === f || calledFrom(o.decl.parent, f)) && (m.field === n || o.path.at(-1) === n)));
    if (ins.length) cnt("changes reaching an input (documented annotations)");
    ctx.oblige(!bad.length, m.node, "input", key, `changes its caller's object: ${bad[0] ? `${apiName.get(bad[0].decl.parent)}(${bad[0].decl.name.getText()}).${bad[0].path.join(".")} ← ${I.trail(bad[0]).join(" ← ")}` : ""}`);
    // tables and memoised values
    for (const o of os) {
      if (o.kind !== "module" || ctx.isFixture(o.decl) !== ctx.isFixture(m.node)) continue;
      if (isTable(o.decl)) ctx.oblige(false, m.node, "table", `${key}|${o.decl.name.getText()}`, `changes the constant table ${o.decl.name.getText()}`);
      else if (isMemo(o.decl) && o.path.length) {
        const t = c.getNonNullableType(P.type(m.target)); const nested = /^(Map|Set|WeakMap)$/.test(t.symbol?.name ?? "");
        const live = nested || typeNames(m.target).some((x) => LIVE.test(x)) || registers(o.decl, m);
        cnt("changes of memo entries");
        ctx.oblige(live, m.node, "memo", `${key}|${o.decl.name.getText()}`, `changes a value kept in ${o.decl.name.getText()} that later readers receive: ${I.trail(o).join(" ← ")}`);
      }
    }
  }
  // tables in general: none may be written through any path
  function calledFrom(fn, name) { return [...api].some((f) => apiName.get(f) === name) && (P.callGraph.get(fn) ? [...P.callGraph.get(fn)].some((g) => apiName.get(g) === name) : false); }
  /** the entry is updated by the code that stores entries in this registry (list of variants, reference-counted record) */
  function registers(d, m) {
    const fn = P.topFn(m.node); if (!fn) return false; let hit = false;
    walk(fn.body ?? fn, (n) => { if (ts.isCallExpression(n) && ts.isPropertyAccessExpression(skip(n.expression)) && skip(n.expression).name.text === "set" && P.declsOf(skip(skip(n.expression).expression)).includes(d)) hit = true; });
    // … and does not hand the entry out
    return hit && !(isFn(fn) && F.returnsOf(fn).some((r) => I.origins(r).some((o) => o.kind === "module" && o.decl === d && o.path.length)));
  }
  ctx.floor("in-place changes", 1500); ctx.floor("public functions", 80);
  ctx.expectFixture("input:src/__verif_fixture_p20.ts#sortsInput", "#deep|color", "#shallowCopy|color", "#viaAssign|*", "#tableWrite", "#tablePick", "#memoWrite", "#memoFill", "Rec.flush|name");
  for (const h of ctx.fixtureHits) if (/#ok/.test(h)) ctx.violations.push({ rule: "selftest", key: `selftest|${h}`, where: "-", msg: "built-in negative example was reported" });
}
/** functions shipped to a page */
function pageFns(ctx) {
  const { P } = ctx; const out = new Set();
  for (const call of P.calls) {
    if (!ts.isCallExpression(call)) continue; const e = skip(call.expression);
    if (ts.isPropertyAccessExpression(e) && /^(evaluate|evaluateHandle|evaluateAll|\$eval|\$\$eval|waitForFunction|addInitScript)$/.test(e.name.text)) for (const a of call.arguments) for (const f of P.fnsOfExpr(a)) out.add(f);
  }
  return out;
}
