import { ts, K, isFn, skip, walk } from "../lib/program.mjs";
import { PageCtx } from "../lib/pagectx.mjs";
import { Depend } from "../lib/depend.mjs";
import * as P06 from "./P06.mjs";

export const rule = "Inventory of every module-level variable the library writes while it runs: each one must be a memo (its key judged by P06), a fact of the host (nothing a caller passed can reach it), a setting undone when its work ends (judged by P22), diagnostics no result depends on, or what one document collects — and then every chain of calls from an API root empties it before its first use (interprocedural must-reset / upward-exposed-use analysis), all parts of it together. Shared regular expressions that remember a position are rewound before use.";
export const trusted = ["the reviewed table of state that deliberately lives as long as the process or the capture session (checks/P05.mjs, SESSION)"];
export const assumptions = ["functions documented as parts of a larger document (PARTS) are called by a producer that starts the document"];

// State whose lifetime is documented as the capture session's or the process's. Each entry was reviewed: what it
// holds is either an input the caller registered, an identity that is never printed, or the transport to a helper.
const SESSION = {
  "render/font-resolution.ts": { webfontRegistry: "fonts registered by captures, until cleared", localFontAliasRegistry: "fonts registered by captures, until cleared", sessionGenericFamilyOverrides: "the capture session's generic families", dynamicSystemFontPaths: "key → file table, filled with facts about installed fonts", win32SuffixDeclaredForKey: "key → what its name declares", declaredFamilyForKey: "key → the family it was declared through", darwinSystemUiPlatformCacheWarm: "models the browser process's own cache", fontEnvironmentInvalidators: "callbacks that empty caches", _sysfbCoverage: "a fact about an installed face: does it draw this code point", darwinHandleAxesMap: "what the system answered for this face, weight, size and slant" },
  "render/glyph-helper.ts": { serverProc: "helper transport", serverInFd: "helper transport", serverOutFd: "helper transport", persistentDisabled: "helper transport", _pipeSeq: "name of a temporary pipe" },
  "render/hb-subset.ts": { nextInstanceId: "identity of a WebAssembly instance", subsetBuildOrdinal: "identity in diagnostics", subsetAttempts: "diagnostics, read by the report that prints them" },
  "render/harfbuzz-shaper.ts": { hbBufferSources: "bytes by interned identity", hbProxyBase: "which object a proxy stands for" },
  "cli/animate.ts": { AUTO_COLLAPSED_RUNS: "marks frame objects of this run" },
  "capture/warnings.ts": { _lastCaptureWarnings: "what the latest capture reported" },
  "render/render-profile.ts": { acc: "timing totals, read by the report that prints them" },
  "render/text-run-provenance.ts": { runs: "diagnostics, read by the report that prints them", transitions: "diagnostics, read by the report that prints them" },
  "render/icu-helper.ts": { memo: "the system's answer for a code point, asked of the helper" },
  "render/element-tree-to-svg.ts": { _conicTileCache: "picture of a gradient at a size" },
};
// Pieces of a document: the producer that assembles it starts the collection.
const PARTS = new Set(["elementTreeToSvg", "elementTreeToSvgInner", "generateAnimatedSvg", "buildJsRevealAnimation", "buildTypeResampleAnimation", "composeCompressedRun", "composeStatesFlipbook", "composeAnimatedLayers"]);

export const fixtures = {
  "__verif_fixture_p05.ts": `
let seq = 0; const seenIds = new Set<string>(); let lastSize = 16; let hostName: string | null = null; let calls = 0; const warnedOnce = new Set<string>();
const WORDS = /[a-z]+/g; const DIGITS = /[0-9]+/g; const SAFE = /x/g;
export function fxCounter(p: string): string { return p + seq++; }
export function fxSkipsSeen(ids: string[]): string[] { return ids.filter((i) => { if (seenIds.has(i)) return false; seenIds.add(i); return true; }); }
export function fxSticky(size?: number): number { if (size != null) lastSize = size; return lastSize; }
export function okHost(): string { if (hostName == null) hostName = process.env.HOSTNAME ?? "none"; return hostName; }
export function okDiag(s: string): string { calls++; if (!warnedOnce.has(s)) { warnedOnce.add(s); console.warn(s); } return s; }
export function fxTest(s: string): boolean { return WORDS.test(s); }
export function fxFirst(s: string): string | null { for (let m = DIGITS.exec(s); m != null; m = DIGITS.exec(s)) { if (m[0].length > 2) return m[0]; } return null; }
export function okAll(s: string): number { let n = 0; SAFE.lastIndex = 0; for (let m = SAFE.exec(s); m != null; m = SAFE.exec(s)) { if (m.index > 5) break; n++; } return n; }
const bagDefs = new Map<string, string>(); let bagCounter = 0;
export function clearBag(): void { bagDefs.clear(); bagCounter = 0; }
export function addToBag(s: string): string { const id = "b" + bagCounter++; bagDefs.set(id, s); return id; }
export function okProducer(a: string[]): string { clearBag(); for (const s of a) addToBag(s); return [...bagDefs.values()].join(""); }
let activeScale = 1; export function setActiveScale(n: number): void { activeScale = n; }
function scaled(n: number): number { return n * activeScale; }
export function okEntry(n: number, f: number): number { setActiveScale(f); return scaled(n); }
export function fxEntry(n: number, f?: number): number { if (f != null) setActiveScale(f); return scaled(n); }
export function fxNoReset(a: string[]): string { if (a.length > 1) clearBag(); for (const s of a) addToBag(s); return [...bagDefs.values()].join(""); }
export function fxPartialRestore(s: { defs: Map<string, string> }): void { bagDefs.clear(); for (const [k, v] of s.defs) bagDefs.set(k, v); }
`,
};

export function run(ctx) {
  const { P, F, T, R } = ctx, D = new Depend(P), C = new PageCtx(P, F);
  // memos are P06's business: run its classification silently
  const sh = Object.create(ctx); sh.oblige = () => true; sh.count = () => {}; sh.floor = () => {}; sh.expectFixture = () => {}; sh.anchor = () => true; sh.memoTables = new Set();
  P06.run(sh);
  // a listed variable keeps its standing when it is renamed in its file or moved with its name
  const relOf = (d) => d.getSourceFile().fileName.replace(/.*\/src\//, ""), present = new Set();
  for (const f of P.files) for (const st of f.statements) if (ts.isVariableStatement(st)) for (const d of st.declarationList.declarations) if (ts.isIdentifier(d.name)) present.add(relOf(d) + "#" + d.name.text);
  const listed = Object.entries(SESSION).flatMap(([f, o]) => Object.keys(o).map((n) => [f, n])), gone = listed.filter(([f, n]) => !present.has(f + "#" + n)), standing = new Map();
  const session = (c) => { if (standing.has(c)) return standing.get(c); const f = relOf(c.decl), n = c.decl.name.text; let ok = Object.hasOwn(SESSION[f] ?? {}, n);
    if (!ok && !ctx.isFixture(c.decl)) { const i = gone.findIndex(([gf, gn]) => gn === n || gf === f && !listed.some(([lf, ln]) => lf === f && ln === n)); if (i >= 0) { gone.splice(i, 1); ok = true; } }
    standing.set(c, ok); return ok; };
  const declOf = (e) => { e = skip(e); return ts.isIdentifier(e) ? P.declsOf(e)[0] : null; };
  const top = (f) => { let t = f; while (P.enclosingFn(t)) t = P.enclosingFn(t); return t; };
  const referenced = new Set();
  for (const f of P.files) walk(f, (n) => { if (ts.isImportDeclaration(n) || ts.isExportDeclaration(n)) return false; if (ts.isIdentifier(n)) for (const d of P.declsOf(n)) if (d.name !== n) referenced.add(d); });
  const live = (fn) => { const t = top(fn); return ctx.isFixture(t) || !ts.isFunctionDeclaration(t) || referenced.has(t); };
  const isConst = (e) => { e = skip(e); return ts.isLiteralExpression(e) || [K.NullKeyword, K.TrueKeyword, K.FalseKeyword].includes(e.kind) || ts.isIdentifier(e) && e.text === "undefined" || (ts.isNewExpression(e) && !(e.arguments?.length)) || (ts.isArrayLiteralExpression(e) && !e.elements.length) || (ts.isPrefixUnaryExpression(e) && ts.isLiteralExpression(e.operand)); };
  const isReset = (w) => w.direct && (w.kind === "clear" || w.kind === "=" && ts.isBinaryExpression(w.node) && isConst(w.node.right));
  const host = (d) => { const f = d.getSourceFile(); return !C.pageFiles.has(f) && !f.fileName.includes(".generated.") && !/\/(review|scrubber)\/(client|region-overlay)/.test(f.fileName); };
  const cells = [...D.cells.values()].filter((c) => host(c.decl));
  const liveWrites = new Map(cells.map((c) => [c, c.writes.filter((w) => live(w.fn))]));

  // ── which class a cell belongs to ──
  const cls = new Map();
  const incOf = (w) => { const n = w.node; if (ts.isPostfixUnaryExpression(n) || ts.isPrefixUnaryExpression(n)) return n.operator === K.PlusPlusToken ? 1 : -1; if (ts.isBinaryExpression(n)) return n.operatorToken.kind === K.PlusEqualsToken ? 1 : n.operatorToken.kind === K.MinusEqualsToken ? -1 : 0; return 0; };
  const savesAndRestores = (c) => c.writes.some((w) => { if (!w.direct || !ts.isBinaryExpression(w.node)) return false; const d = declOf(w.node.right); return d && ts.isVariableDeclaration(d) && P.enclosingFn(d) === w.fn && d.initializer && declOf(d.initializer) === c.decl; });
  const downFns = new Set(); for (const c of cells) { const ups = c.writes.filter((w) => w.direct && incOf(w) === 1), dns = c.writes.filter((w) => w.direct && incOf(w) === -1); if (ups.length && dns.length) { cls.set(c, "scoped"); for (const w of dns) downFns.add(w.fn); } }
  const upFns = new Set(); for (const c of cells) if (cls.get(c) === "scoped") for (const w of c.writes) if (incOf(w) === 1) upFns.add(w.fn);
  for (const c of cells) {
    if (cls.has(c)) continue; const ws = liveWrites.get(c);
    if (!ws.length) cls.set(c, "set only by callers");
    else if (savesAndRestores(c)) cls.set(c, "scoped");
    else if (c.writes.some((w) => isReset(w) && (downFns.has(w.fn) || upFns.has(w.fn)))) cls.set(c, "scoped");
    else if (c.let && c.writes.every((w) => w.direct && (upFns.has(w.fn) || c.decl.getSourceFile() === w.fn.getSourceFile() && scopedOnly(c, w)))) cls.set(c, "scoped");
    else if (sh.memoTables.has(c.decl)) cls.set(c, "memo");
  }
  /** written and read only while a scope counter is raised */
  function scopedOnly(c, w) { // written only while a scope is open: behind a return (or inside a branch) that asks for one
    const asks = (e) => { let hit = false; walk(e, (n) => { if (ts.isIdentifier(n)) for (const k of cells) if (cls.get(k) === "scoped" && declOf(n) === k.decl) hit = true; }); return hit; };
    const leaves = (s) => { const l = ts.isBlock(s) ? s.statements.at(-1) : s; return !!l && ts.isReturnStatement(l); };
    for (let n = w.node, p = n.parent; p && n !== w.fn; n = p, p = p.parent) {
      if (ts.isIfStatement(p) && p.thenStatement === n && asks(p.expression)) return true;
      if (ts.isBlock(p)) for (const st of p.statements) { if (st === n) break; if (ts.isIfStatement(st) && !st.elseStatement && leaves(st.thenStatement) && asks(st.expression)) return true; }
    }
    return false;
  }
  // host facts: nothing passed in decides what is written (greatest fixpoint over the cells they read)
  const env = new Set(), deps = new Map();
  for (const c of cells) { if (cls.has(c)) continue; const ws = liveWrites.get(c); if (ws.some((w) => w.kind === "++")) continue;
    let ok = true; const rd = new Set();
    for (const w of ws) { const n = w.node, ex = ts.isBinaryExpression(n) ? [n.right] : ts.isCallExpression(n) ? [...n.arguments] : []; const s = D.slice([...ex, ...D.conditions(n, w.fn)], w.fn, {});
      for (const i of s.inputs.keys()) if (ts.isParameter(i) || ts.isBindingElement(i) || P.enclosingFn(i)) ok = false; for (const x of s.cells) rd.add(x); }
    if (ok) { env.add(c); deps.set(c, rd); } }
  const byDecl = new Map(cells.map((c) => [c.decl, c]));
  const okDep = (x) => { const k = byDecl.get(x); return !k || env.has(k) || ["set only by callers", "memo"].includes(cls.get(k)) || session(k); };
  for (let again = true; again;) { again = false; for (const c of [...env]) if ([...deps.get(c)].some((x) => x !== c.decl && !okDep(x))) { env.delete(c); again = true; } }
  for (const c of env) cls.set(c, "host fact");

  // ── what one document collects: emptied by a function the library calls ──
  const resetsLive = (c) => c.writes.filter((w) => isReset(w) && live(w.fn) && !downFns.has(w.fn));
  const gen = cells.filter((c) => !["scoped", "host fact", "set only by callers"].includes(cls.get(c)) && resetsLive(c).length && c.writes.some((w) => live(w.fn) && !isReset(w)));
  // reset functions shared with the known document registries: a plain memo that can be trimmed is not a registry
  const resetFns = (c) => new Set(resetsLive(c).map((w) => w.fn));
  const counterish = (c) => c.let && c.writes.some((w) => live(w.fn) && incOf(w) === 1);
  const groups = []; // functions that reset a counter and the tables its ids index
  for (const c of gen) if (counterish(c)) for (const f of resetFns(c)) { if (!f.body || f.parameters.length) continue; const g = gen.filter((x) => resetFns(x).has(f)); if (!groups.some((q) => q.fn === f)) groups.push({ fn: f, cells: g }); }
  for (const g of groups) for (const c of g.cells) cls.set(c, "document");
  // a table holding names a document handed out is not a memo: it belongs to that document (greatest fixpoint)
  const fillDeps = new Map();
  for (const c of cells) { if (cls.get(c) !== "memo") continue; const rd = new Set(); for (const w of liveWrites.get(c)) { const n = w.node, v = ts.isBinaryExpression(n) ? [n.right] : ts.isCallExpression(n) && n.arguments.length ? [n.arguments.at(-1)] : []; if (v.length) for (const x of D.slice(v, w.fn, {}).cells) rd.add(x); } fillDeps.set(c, rd); }
  const named = (x) => { const k = byDecl.get(x); return !!k && cls.get(k) === "document" && counterish(k); };
  for (const [c, rd] of fillDeps) { const x = [...rd].find((x) => x !== c.decl && named(x)); if (x) { cls.delete(c); if (process.env.WIT) console.log("memo over", c.decl.name.text, x.name.text); } }
  // a setting every piece of work puts in place itself, before anything reads it: one function assigns it, and only that
  for (const c of cells) { if (cls.has(c) || !c.let || session(c)) continue; const fs = new Set(liveWrites.get(c).map((w) => w.fn)); if (fs.size !== 1) continue; const f = [...fs][0];
    if (f.body.statements?.length !== 1 || !ts.isExpressionStatement(f.body.statements[0]) || !liveWrites.get(c).every((w) => w.direct && w.kind === "=" && ts.isBinaryExpression(w.node)) || fixedReader(c, f)) continue;
    groups.push({ fn: f, cells: [c], entry: true }); cls.set(c, "put in place on entry"); }
  function fixedReader(c, f) { return !c.refs.some((r) => P.enclosingFn(r) !== f) || !(P.callers.get(f) ?? []).length; }

  // ── diagnostics: no read of it decides anything but diagnostics (greatest fixpoint) ──
  const diag = new Set(cells.filter((c) => !cls.has(c)));
  const voidFn = (f) => { const s = P.checker.getSignatureFromDeclaration(f); return s && P.checker.getReturnTypeOfSignature(s).flags & (ts.TypeFlags.Void | ts.TypeFlags.Undefined); };
  const cellOfNode = (n) => { let e = n; while (ts.isPropertyAccessExpression(e) || ts.isElementAccessExpression(e) || ts.isNonNullExpression(e) || (ts.isParenthesizedExpression(e) || ts.isAsExpression(e) || ts.isSatisfiesExpression(e))) e = e.expression; const d = declOf(e); return d ? byDecl.get(d) : null; };
  const sinkStmt = (s) => {
    if (ts.isBlock(s)) return s.statements.every(sinkStmt);
    if (ts.isReturnStatement(s)) return !s.expression;
    if (ts.isIfStatement(s)) return sinkStmt(s.thenStatement) && (!s.elseStatement || sinkStmt(s.elseStatement));
    if (ts.isVariableStatement(s)) return true;
    if (!ts.isExpressionStatement(s)) return false;
    const e = skip(s.expression);
    if (ts.isPostfixUnaryExpression(e) || ts.isPrefixUnaryExpression(e)) { const c = cellOfNode(skip(e.operand)); return !!c && diag.has(c); }
    if (ts.isBinaryExpression(e)) { const c = cellOfNode(skip(e.left)); return !!c && diag.has(c); }
    if (ts.isCallExpression(e)) { if (/^(console\.\w+|process\.(stderr|stdout)\.write)$/.test(e.expression.getText())) return true; const x = skip(e.expression); if (ts.isPropertyAccessExpression(x)) { const c = cellOfNode(skip(x.expression)); if (c && diag.has(c)) return true; } const cs = P.callees(e); return cs.length > 0 && cs.every((g) => g.body && ts.isBlock(g.body) && voidFn(g) && g.body.statements.every(sinkStmt)); }
    return false;
  };
  const readOk = (r) => {
    const fn = P.enclosingFn(r); if (!fn || !live(fn)) return true;
    for (let c = r, p = r.parent; p && p !== fn; c = p, p = p.parent) {
      if (ts.isExpressionStatement(p) && sinkStmt(p)) return true;
      if (ts.isIfStatement(p) && p.expression === c && sinkStmt(p.thenStatement) && (!p.elseStatement || sinkStmt(p.elseStatement))) { let ret = false; walk(p.thenStatement, (n) => { if (ts.isReturnStatement(n)) ret = true; }); if (!ret || fn.body.statements && fn.body.statements.every(sinkStmt)) return true; }
      if (ts.isExpressionStatement(p)) { const e = skip(p.expression); if (ts.isBinaryExpression(e) && diag.has(cellOfNode(skip(e.left)))) return true; }
    }
    return ts.isBlock(fn.body) && voidFn(fn) && fn.body.statements.every(sinkStmt);
  };
  for (let again = true; again;) { again = false; for (const c of [...diag]) if (c.refs.some((r) => !readOk(r))) { diag.delete(c); again = true; } }
  for (const c of diag) cls.set(c, "diagnostics");

  // ── inventory ──
  for (const c of cells) {
    const fx = ctx.isFixture(c.decl), nm = c.decl.name.text, ws = liveWrites.get(c);
    const k = cls.get(c) ?? (session(c) ? "session" : null);
    if (!fx) { ctx.count("module variables written while running"); ctx.count(k ?? "unclassified"); }
    if (isRegexCell(c)) { ctx.oblige(true, c.decl, "carries", nm, ""); continue; }
    const w = ws.find((x) => !isReset(x)) ?? ws[0], rd = c.refs.find((r) => !readOk(r) && live(P.enclosingFn(r) ?? r));
    ctx.oblige(!!k, w?.node ?? c.decl, "carries", `${fx ? P.fnId(ws[0].fn) + "|" : c.decl.getSourceFile().fileName.replace(/.*\/src\//, "src/") + "|"}${nm}`, `${nm} carries something from one call to the next: written in ${w ? P.fnName(w.fn) : "?"}${rd ? `, read at ${P.loc(rd)}` : ""}, and it is neither a memo, a host fact, a setting undone after its work, diagnostics, nor emptied when a document starts`);
  }
  function isRegexCell(c) { const i = c.decl.initializer && skip(c.decl.initializer); return !!i && i.kind === K.RegularExpressionLiteral; }

  // ── documents start empty ──
  const calleesOf = (n) => { const out = [...P.callees(n)]; for (const a of n.arguments ?? []) { const s = skip(a); if (isFn(s)) out.push(s); } return out; };
  const rev = new Map(); for (const f of P.functions) if (f.body) walk(f.body, (n) => { if (ts.isCallExpression(n) || ts.isNewExpression(n)) { const fn = P.enclosingFn(n); if (fn) for (const g of calleesOf(n)) { let a = rev.get(g); if (!a) rev.set(g, a = new Set()); a.add(fn); } } });
  /** the caller may keep ownership of the collection: `if (manageFonts) reset()` */
  let ownership = new Map();
  const groupOf = new Map(); for (const g of groups) for (const c of g.cells) groupOf.set(c, g);
  const ownerFlag = (f, resetCall) => { const cs = D.conditions(resetCall, f); if (cs.length !== 1) return null; const d = declOf(cs[0]); if (!d) return null; // a flag defaulting to true, taken from the options
    let e = d.initializer && skip(d.initializer); if (!e || !ts.isVariableDeclaration(d) || !ts.isBinaryExpression(e) || ![K.ExclamationEqualsEqualsToken, K.ExclamationEqualsToken].includes(e.operatorToken.kind) || skip(e.right).kind !== K.FalseKeyword) return null;
    const ch = D.chain(e.left); return ch && ts.isParameter(ch.root) && ch.root.parent === f ? { flag: d, prop: ch.path.split(".").pop(), param: ch.root } : null; };
  for (const f of P.functions) if (f.body && !isFn(f.parent)) walk(f.body, (n) => { if (ts.isCallExpression(n) && P.enclosingFn(n) === f && P.callees(n).some((g) => groups.some((q) => q.fn === g) || (P.callees(n).length && mustCallee(g)))) { const o = ownerFlag(f, n); if (o) ownership.set(f, o); } });
  function mustCallee(g) { let h = false; if (g.body && !g.parameters.length) walk(g.body, (n) => { if (ts.isCallExpression(n) && P.callees(n).some((x) => groups.some((q) => q.fn === x))) h = true; }); return h; }
  /** does this call hand over the ownership (`{ manageFonts: false }`), possibly by passing its own options on? */
  const handsOver = (call, g) => { const o = ownership.get(g); if (!o) return false; const a = call.arguments[g.parameters.indexOf(o.param)]; if (!a) return false; const s = skip(a); if (!ts.isObjectLiteralExpression(s)) return false; return s.properties.some((p) => ts.isPropertyAssignment(p) && p.name.getText() === o.prop && skip(p.initializer).kind === K.FalseKeyword); };
  for (let again = true; again;) { again = false; for (const f of P.functions) { if (ownership.has(f) || !f.body || !f.parameters.length) continue; walk(f.body, (n) => { if (!ts.isCallExpression(n) || P.enclosingFn(n) !== f) return; for (const g of P.callees(n)) { const o = ownership.get(g); if (!o) continue; const a = n.arguments[g.parameters.indexOf(o.param)]; const d = a && declOf(a); if (d && ts.isParameter(d) && d.parent === f && !ownership.has(f)) { ownership.set(f, { flag: null, prop: o.prop, param: d }); again = true; } } }); } }

  const owners = ownership;
  for (const grp of groups) for (const c of grp.cells) {
    ownership = grp.entry ? new Map() : owners;
    const X = c.decl, nm = X.name.text, fx = ctx.isFixture(X);
    if (!fx) ctx.count("document registries");
    const resets = new Set((grp.entry ? liveWrites.get(c) : resetsLive(c)).map((w) => w.node));
    const uses = new Map(); for (const r of c.refs) { const fn = P.enclosingFn(r); if (!fn) continue; let inR = false; for (let q = r; q && q !== fn; q = q.parent) if (resets.has(q)) inR = true; if (!inR) { let a = uses.get(fn); if (!a) uses.set(fn, a = new Set()); a.add(r); } }
    const cand = new Set(), st = [...uses.keys(), ...c.writes.map((w) => w.fn)]; while (st.length) { const f = st.pop(); if (cand.has(f)) continue; cand.add(f); for (const g of rev.get(f) ?? []) st.push(g); }
    const must = new Set(), exp = new Map();
    const contained = (f, n) => { for (let q = n; q; q = q.parent) if (q === f) return true; return false; };
    const flow = (f) => {
      const cfg = T.cfg(f), U = uses.get(f) ?? new Set(), seen = new Set(), stack = [[cfg.entry, false]]; let exposed = null, all = true; const o = ownership.get(f);
      while (stack.length) {
        const [n, r] = stack.pop(), k = n.id * 2 + (r ? 1 : 0); if (seen.has(k)) continue; seen.add(k);
        if (n === cfg.exit) { if (!r) all = false; continue; } if (n === cfg.throwExit) continue;
        let r2 = r; const a = n.ast;
        if (a) {
          if (resets.has(a)) r2 = true;
          else if (n.kind === "call" || n.kind === "new") { if (!r2 && !exposed && calleesOf(a).some((g) => exp.get(g) && (exp.get(g) !== "part" || true) && !(ownership.has(g) && !handsOver(a, g) && exp.get(g).owned))) exposed = a; if (P.callees(a).length && P.callees(a).every((g) => must.has(g))) r2 = true; }
          if (!r2 && !exposed && U.has(a)) exposed = a;
        }
        for (const s of n.succ) { if (o?.flag && s.cond && "value" in s && declOf(s.cond) === o.flag && !s.value) continue; stack.push([s.to, r2]); }
      }
      return { exposed, all };
    };
    for (let again = true; again;) { again = false; for (const f of cand) if (f.body && !must.has(f) && flow(f).all) { must.add(f); again = true; } }
    for (let again = true; again;) { again = false; for (const f of cand) { if (!f.body || exp.has(f)) continue; const e = flow(f).exposed; if (e) { exp.set(f, { at: e, owned: false }); again = true; } else if (ownership.has(f) && [...(ownership.get(f).flag ? [1] : [])].length) { /* owner: exposed only when its caller keeps the collection */ } } }
    // functions that own the collection by default are exposed to callers that keep it
    for (const f of cand) if (ownership.has(f) && !exp.has(f)) exp.set(f, { at: f, owned: true });
    for (let again = true; again;) { again = false; for (const f of cand) { if (!f.body || exp.has(f) && !exp.get(f).owned) continue; const e = flow(f).exposed; if (e && !(exp.has(f) && exp.get(f).owned)) { exp.set(f, { at: e, owned: false }); again = true; } } }
    const chain = (f) => { const o = [], seen = new Set(); while (f && !seen.has(f)) { seen.add(f); o.push(P.fnName(f)); const e = exp.get(f)?.at; if (!e || !(ts.isCallExpression(e) || ts.isNewExpression(e))) break; f = calleesOf(e).find((g) => exp.get(g)); } return o.join(" → "); };
    // a producer: an exported function that both captures or parses its sources and assembles the document
    for (const f of cand) {
      if (!f.body || P.enclosingFn(f)) continue; const isExp = ts.isFunctionDeclaration(f) && !!(ts.getCombinedModifierFlags(f) & ts.ModifierFlags.Export) || ts.isMethodDeclaration(f);
      if (!isExp || PARTS.has(P.fnName(f)) && !fx && !grp.entry) continue;
      const async_ = !!(ts.getCombinedModifierFlags(f) & ts.ModifierFlags.Async), own = [...must].some((g) => g !== f && callsDirect(f, g)) || must.has(f);
      if (!(async_ || own) || grp.fn === f || resetsOnly(f)) continue;
      const e = exp.get(f); if (!fx) ctx.count("producers that start a document");
      ctx.oblige(!e || e.owned, e && !e.owned ? e.at : f, "starts-empty", `${P.fnId(f)}|${nm}`, e ? `${nm} may still hold what an earlier document collected when ${chain(f)} uses it` : "");
    }
    function callsDirect(f, g) { let h = false; walk(f.body, (n) => { if (ts.isCallExpression(n) && P.callees(n).includes(g)) h = true; }); return h; }
    function resetsOnly(f) { return f.body.statements?.every((s) => ts.isExpressionStatement(s) && ts.isCallExpression(skip(s.expression)) || ts.isExpressionStatement(s) && ts.isBinaryExpression(skip(s.expression)) && isConst(skip(s.expression).right)) && must.has(f); }
  }
  // all parts together: whoever rewinds one part of a collection rewinds the others
  for (const g of groups) if (!g.entry) for (const f of P.functions) {
    if (!f.body || P.enclosingFn(f) || f === g.fn) continue;
    const touched = g.cells.filter((c) => c.writes.some((w) => w.direct && w.fn === f && (w.kind === "=" || w.kind === "clear" || w.kind === "delete")));
    if (!touched.length) continue;
    const covers = (c, x, depth = 0) => c.writes.some((w) => w.direct && w.fn === x && (w.kind === "=" || w.kind === "clear" || w.kind === "delete")) || depth < 3 && [...(P.callGraph.get(x) ?? [])].some((y) => isFn(y) && covers(c, y, depth + 1));
    for (const c of g.cells) { if (!ctx.isFixture(f)) ctx.count("rewinds of a document registry"); ctx.oblige(covers(c, f), f, "rewinds-together", `${P.fnId(f)}|${c.decl.name.text}`, `${P.fnName(f)} puts back ${touched.map((x) => x.decl.name.text).join(", ")} but leaves ${c.decl.name.text} as it is`); }
  }

  // ── shared regular expressions that remember where they stopped ──
  for (const f of P.files) walk(f, (n) => {
    if (!(ts.isCallExpression(n) && ts.isPropertyAccessExpression(skip(n.expression)) && /^(test|exec)$/.test(skip(n.expression).name.text))) return;
    const d = declOf(skip(n.expression).expression); if (!d || !ts.isVariableDeclaration(d) || !d.initializer) return;
    const i = skip(d.initializer); const flags = i.kind === K.RegularExpressionLiteral ? i.text.slice(i.text.lastIndexOf("/") + 1) : ts.isNewExpression(i) && i.expression.getText() === "RegExp" && i.arguments?.[1] && ts.isStringLiteralLike(skip(i.arguments[1])) ? skip(i.arguments[1]).text : "";
    if (!/[gy]/.test(flags)) return;
    const fn = P.enclosingFn(n); if (!fn || P.enclosingFn(d) === fn) return;
    const fx = ctx.isFixture(n); if (!fx) ctx.count("uses of a shared positional regular expression");
    // rewound on every path before this use?
    const cfg = T.cfg(fn), seen = new Set(), stack = [[cfg.entry, false]]; let stale = false;
    const rewinds = (a) => a && ts.isBinaryExpression(a) && a.operatorToken.kind === K.EqualsToken && ts.isPropertyAccessExpression(skip(a.left)) && skip(a.left).name.text === "lastIndex" && declOf(skip(a.left).expression) === d;
    const sameUse = (a) => a && ts.isCallExpression(a) && ts.isPropertyAccessExpression(skip(a.expression)) && /^(test|exec)$/.test(skip(a.expression).name.text) && declOf(skip(a.expression).expression) === d;
    while (stack.length) { const [x, ok] = stack.pop(), k = x.id * 2 + (ok ? 1 : 0); if (seen.has(k)) continue; seen.add(k); let o = ok; if (rewinds(x.ast)) o = true; else if (x.kind === "call" && sameUse(x.ast)) { if (!o) stale = true; o = true; } for (const s of x.succ) stack.push([s.to, o]); if (x.exc) stack.push([x.exc, o]); }
    let fine = !stale;
    if (!fine) { // scanned to exhaustion every time: the position ends at the start
      let loop = null; for (let p = n.parent; p && p !== fn; p = p.parent) if (ts.isWhileStatement(p) || ts.isForStatement(p) || ts.isDoStatement(p)) { loop = p; break; }
      const inHead = loop && (ts.isWhileStatement(loop) && contains(loop.expression, n) || ts.isForStatement(loop) && (loop.condition && contains(loop.condition, n) || loop.incrementor && contains(loop.incrementor, n) || loop.initializer && contains(loop.initializer, n)));
      if (inHead && skip(n.expression).name.text === "exec") { let early = false; walk(loop.statement, (q) => { if (isFn(q)) return false; if (ts.isReturnStatement(q) || ts.isThrowStatement(q) || ts.isBreakStatement(q) || ts.isAwaitExpression(q)) early = true; }); fine = !early; }
    }
    ctx.oblige(fine, n, "position", `${P.fnId(fn)}|${d.name.getText()}`, `${d.name.getText()} remembers where its last search stopped and is used here without being rewound: the answer depends on what was searched before`);
  });
  function contains(a, n) { for (let q = n; q; q = q.parent) if (q === a) return true; return false; }

  ctx.floor("module variables written while running", 90); ctx.floor("document registries", 5); ctx.floor("producers that start a document", 20); ctx.floor("uses of a shared positional regular expression", 1); ctx.floor("memo", 30);
  ctx.expectFixture("fxCounter|seq", "seenIds", "fxSticky", "position:src/__verif_fixture_p05.ts#fxTest", "position:src/__verif_fixture_p05.ts#fxFirst", "starts-empty:src/__verif_fixture_p05.ts#fxNoReset", "rewinds-together:src/__verif_fixture_p05.ts#fxPartialRestore");
  for (const h of ctx.fixtureHits) if (/#ok|calls$|warnedOnce|hostName/.test(h)) ctx.anchor(false, "negative example reported: " + h);
}
