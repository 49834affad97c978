// P06 — what a cache hands back is what the work it stands for would produce.
import { ts, K, isFn, skip, walk } from "../lib/program.mjs";
import { Depend } from "../lib/depend.mjs";

export const rule = "For every lookup table a function both consults and fills (a Map or WeakMap that outlives one iteration of the work it saves), every input the stored value is computed from — each parameter, each property of a parameter, each loop variable, followed backwards through assignments, conditions and callee summaries — is also an input of the key under which it is stored; and every process-wide setting the stored value depends on is part of the key too, or changing the setting empties the table.";
export const assumptions = ["a helper outside the program (Node, DOM, font libraries) is a function of its arguments", "tables that only collect (their entries are mutated after being read) are not memos", "objects used as WeakMap keys are not mutated after the entry is stored"];
export const fixtures = {
  "__verif_fixture_p06.ts": `
const weights = new Map<string, number>();
let fxMode = "a";
export function fxSetMode(m: string): void { fxMode = m; }
function fxCost(a: string, w: number): number { return a.length * w; }
export function fxGood(a: string, w: number): number { const k = a + "|" + w; const h = weights.get(k); if (h != null) return h; const r = fxCost(a, w); weights.set(k, r); return r; }
const names = new Map<string, number>();
export function fxDropsWeight(a: string, w: number): number { const h = names.get(a); if (h != null) return h; const r = fxCost(a, w); names.set(a, r); return r; }
const byMode = new Map<string, string>();
export function fxIgnoresSetting(a: string): string { let r = byMode.get(a); if (r === undefined) { r = fxMode === "a" ? a : a + a; byMode.set(a, r); } return r; }
const ids = new Map<string, string>(); const bodies = new Map<string, string>(); let idN = 0;
export function fxInternsLess(name: string, body: string): string { const e = ids.get(name); if (e != null) return e; const id = "i" + idN++; ids.set(name, id); bodies.set(id, body); return id; }
export function fxBodies(): string[] { return [...bodies.values()]; }
export function fxLoop(rows: Array<{ a: string; b: number }>): number[] { const m = new Map<string, number>(); const out: number[] = []; for (const row of rows) { let v = m.get(row.a); if (v == null) { v = row.a.length * row.b; m.set(row.a, v); } out.push(v); } return out; }
let fxLatch: string | null = null;
export function fxOnce(n: number): string { if (fxLatch != null) return fxLatch; fxLatch = "x".repeat(n); return fxLatch; }
const derivedMemo = new Map<number, string>();
export function fxDerived(cp: number, ch: string): string { let r = derivedMemo.get(cp); if (r == null) { r = ch + ch; derivedMemo.set(cp, r); } return r; }
const verdicts = new Map<string, boolean>(); const verdictKey = (p: string): string => "v" + p;
function fxVerdict(p: string): boolean | undefined { return verdicts.get(verdictKey(p)); }
function fxRemember(p: string, v: boolean): boolean { verdicts.set(verdictKey(p), v); return v; }
export function fxThroughHelpers(p: string, deep: boolean): boolean { const h = fxVerdict(p); if (h !== undefined) return h; return fxRemember(p, deep ? p.length > 3 : p.length > 1); }
export function fxCallsDerived(cp: number): string { const ch = String.fromCodePoint(cp); return fxDerived(cp, ch); }
`,
};

export function run(ctx) {
  const { P } = ctx, D = new Depend(P);
  const isMap = (e) => /^(Map|WeakMap|ReadonlyMap)</.test(P.checker.typeToString(P.checker.getNonNullableType(P.type(e))));
  const refDecl = (e) => { e = skip(e); return ts.isIdentifier(e) || ts.isPropertyAccessExpression(e) ? P.declsOf(e)[0] : null; };
  const within = (n, box) => { for (let p = n; p; p = p.parent) if (p === box) return true; return false; };
  const modVar = (d) => ts.isVariableDeclaration(d) && ts.isVariableDeclarationList(d.parent) && ts.isVariableStatement(d.parent.parent) && ts.isSourceFile(d.parent.parent.parent);
  const method = (n, re) => ts.isCallExpression(n) && ts.isPropertyAccessExpression(skip(n.expression)) && re.test(skip(n.expression).name.text) && isMap(skip(n.expression).expression);
  const target = (n) => refDecl(skip(n.expression).expression);

  /** the key argument and this one are two spellings of the same value at the only call */
  // inputs the key pins down without naming them: [file, place among the parameters, table or function, whether the key must test it against 0]
  const DETERMINED = [["src/capture/script/dotted-circle-detect.ts", 1], // the character of the code point in the key
    ["src/capture/script/line-clamp.ts", 1], // the computed style of the element in the key
    ["src/render/font-resolution.ts", 3, /^fallbackBase/, true], ["src/render/font-resolution.ts", 2, /^win32PrimaryCut/, true]]; // which file is chosen depends on whether the run is slanted, not by how much
  const zeroTest = (nodes, i) => nodes.some((e) => { let r = false; const go = (n) => walk(n, (x) => { if (r) return false; if (ts.isBinaryExpression(x) && /^[!=]==?$/.test(x.operatorToken.getText()) && [[x.left, x.right], [x.right, x.left]].some(([a, b]) => ts.isIdentifier(skip(a)) && P.declsOf(skip(a)).includes(i) && skip(b).getText() === "0")) r = true; }); go(e); for (const x of ts.isIdentifier(skip(e)) ? P.declsOf(skip(e)) : []) if (x.initializer) go(x.initializer); return r; });
  const determined = (fn, i, table, keyNodes) => ts.isParameter(i) && isFn(i.parent) && DETERMINED.some(([file, at, name, zero]) => P.rel(fn) === file && i.parent.parameters.indexOf(i) === at && (!name || name.test(P.fnName(fn)) || name.test(table)) && (!zero || zeroTest(keyNodes, i)));

  const calls = new Map();
  for (const f of P.files) walk(f, (n) => {
    if (!method(n, /^(get|has|set|clear|delete)$/)) return;
    const d = target(n), fn = P.enclosingFn(n); if (!d || !fn) return;
    let a = calls.get(d); if (!a) calls.set(d, a = []); a.push({ n, op: skip(n.expression).name.text, fn, keys: [n.arguments[0]], values: [n.arguments[1]] });
  });
  // a table reached through its own accessor functions: their calls are the lookups and the stores
  const lifted = new Map();
  for (const [d, cs] of calls) {
    const getFns = new Set(cs.filter((c) => c.op === "get").map((c) => c.fn)), setFns = new Set(cs.filter((c) => c.op === "set").map((c) => c.fn));
    if (!getFns.size || !setFns.size || [...getFns].some((f) => setFns.has(f)) || !modVar(d)) continue;
    for (const c of [...cs]) {
      if (c.op !== "get" && c.op !== "set" || !ts.isFunctionDeclaration(c.fn)) continue;
      if (c.op === "get" && !(c.fn.body.statements.length === 1 && ts.isReturnStatement(c.fn.body.statements[0]))) continue;
      const used = (e) => { const s = D.slice([e].filter(Boolean), c.fn, { noConditions: true }); return c.fn.parameters.filter((x) => s.inputs.has(x)); };
      const kp = used(c.n.arguments[0]), vp = c.op === "set" ? used(c.n.arguments[1]) : [];
      if (c.op === "set" && !vp.length) continue;
      for (const call of P.callers.get(c.fn) ?? []) { const fn = P.enclosingFn(call); if (!fn) continue; const arg = (x) => call.arguments[c.fn.parameters.indexOf(x)]; cs.push({ n: call, op: c.op, fn, keys: kp.map(arg).filter(Boolean), values: vp.map(arg).filter(Boolean) }); lifted.set(call, d); }
    }
  }

  const memos = [];
  for (const [d, cs] of calls) {
    const byFn = new Map(); for (const c of cs) { let a = byFn.get(c.fn); if (!a) byFn.set(c.fn, a = []); a.push(c); }
    for (const [fn, a] of byFn) {
      const gets = a.filter((c) => c.op === "get" || c.op === "has"), sets = a.filter((c) => c.op === "set");
      if (!gets.some((g) => g.op === "get") || !sets.length) continue;
      if (fn.parent && !fn.name && false) continue;
      const W = D.writesIn(fn), outerKeys = [], outers = [];
      let scope = null, owner = null;
      if (modVar(d)) scope = d.getSourceFile();
      else if (ts.isPropertyDeclaration(d)) { scope = d.getSourceFile(); owner = "this"; }
      else if (ts.isVariableDeclaration(d)) {
        for (const w of W.get(d) ?? []) for (const x of w.exprs) walk(x, (n) => { if (method(n, /^get$/)) { const od = target(n); if (od && modVar(od)) { scope = od.getSourceFile(); outerKeys.push(n.arguments[0]); outers.push(od); } } });
        if (!scope && d.initializer && ts.isNewExpression(skip(d.initializer))) scope = d.parent.parent.parent; // the block the table lives in
      }
      if (!scope) continue;
      // the table outlives the work: it sits outside fn, or outside a loop in fn that contains the store
      const loops = []; let asInput = null;
      if (within(d, fn) && !outerKeys.length) {
        for (let p = sets[0].n.parent; p && p !== fn && p !== scope; p = p.parent) if (ts.isForOfStatement(p) || ts.isForInStatement(p) || ts.isForStatement(p)) loops.push(p);
        if (!loops.length) continue;
        asInput = new Set(); for (const l of loops) if (l.initializer && ts.isVariableDeclarationList(l.initializer)) for (const v of l.initializer.declarations) asInput.add(v);
        if (!asInput.size) continue;
      }
      memos.push({ d, fn, gets: gets.filter((g) => g.op === "get"), sets, outerKeys, outers, scope, owner, asInput });
    }
  }
  const isGet = (n, d) => method(n, /^(get|has)$/) && target(n) === d || lifted.get(n) === d;
  const holdersOf = (m) => {
    const holders = new Set();
    for (const g of m.gets) for (let p = g.n.parent; p && p !== m.fn && !ts.isStatement(p); p = p.parent) {
      if (ts.isVariableDeclaration(p)) { holders.add(p); break; }
      if (ts.isBinaryExpression(p) && p.operatorToken.kind === K.EqualsToken) { const x = refDecl(p.left); if (x) holders.add(x); }
    }
    return holders;
  };
  const mentions = (e, m, holders) => { let r = false; walk(e, (n) => { if (isGet(n, m.d)) r = true; else if (ts.isIdentifier(n) && P.declsOf(n).some((d) => holders.has(d))) r = true; }); return r; };
  const EXIT = (st) => ts.isReturnStatement(st) || ts.isContinueStatement(st) || ts.isBreakStatement(st) || ts.isThrowStatement(st) || ts.isBlock(st) && st.statements.length > 0 && EXIT(st.statements[st.statements.length - 1]);
  /** whether an entry is stored is decided by whether one was there */
  const guarded = (m) => {
    const holders = holdersOf(m);
    const hit = (n) => isGet(n, m.d) || ts.isIdentifier(n) && P.declsOf(n).some((d) => holders.has(d));
    for (const s of m.sets) {
      const conds = [...D.conditions(s.n, m.fn)];
      for (let c = s.n, p = c.parent; p && c !== m.fn; c = p, p = p.parent) if (ts.isBlock(p)) for (const st of p.statements) { if (st.pos >= c.pos) break; if (ts.isIfStatement(st) && (EXIT(st.thenStatement) || st.elseStatement && EXIT(st.elseStatement))) conds.push(st.expression); }
      if (conds.some((c) => mentions(c, m, holders))) return true;
      if (D.slice(conds, m.fn).nodes.some(hit)) return true;
    }
    return false;
  };
  /** the looked-up entry is added to afterwards: the table collects, it does not remember */
  const collects = (m) => {
    const W = D.writesIn(m.fn), holders = holdersOf(m);
    for (const g of m.gets) { let p = g.n.parent; while (p && ((ts.isParenthesizedExpression(p) || ts.isAsExpression(p) || ts.isSatisfiesExpression(p)) || ts.isNonNullExpression(p))) p = p.parent; if (p && ts.isPropertyAccessExpression(p) && ts.isCallExpression(p.parent) && p.parent.expression === p && /^(push|add|set|unshift)$/.test(p.name.text)) return true; }
    const arm = (n) => { for (let c = n, p = n.parent; p && c !== m.fn; c = p, p = p.parent) if (ts.isIfStatement(p) && c !== p.expression) return c; return null; };
    const setArms = m.sets.map((s) => arm(s.n));
    for (const h of holders) {
      const ws = (W.get(h) ?? []).filter((w) => w.node !== h && w.node.parent !== h);
      const direct = ws.filter((w) => ts.isBinaryExpression(w.node) && ts.isIdentifier(skip(w.node.left)));
      for (const w of ws) {
        if (direct.includes(w) || m.sets.some((s) => w.node === s.n)) continue;
        const a = arm(w.node); if (a && setArms.includes(a)) continue;
        if (direct.some((x) => x.node.pos < w.node.pos && !m.gets.some((g) => within(g.n, x.node))) && m.sets.some((s) => w.node.pos < s.n.pos)) continue; // a fresh value built before it is stored
        return true;
      }
    }
    for (const s of m.sets) { // made from the previous entry: a counter or a running maximum
      let self = false;
      for (const sv of s.values) walk(sv, (n) => { if (isGet(n, m.d)) self = true; if (ts.isIdentifier(n) && (ts.isBinaryExpression(n.parent) && n.parent.operatorToken.kind !== K.QuestionQuestionToken || ts.isSpreadElement(n.parent)) && P.declsOf(n).some((x) => holders.has(x))) self = true; });
      if (self) return true;
    }
    return false;
  };
  const referenced = new Set();
  for (const f of P.files) walk(f, (n) => { if (ts.isIdentifier(n) && !ts.isImportSpecifier(n.parent) && !(ts.isExportSpecifier(n.parent) && f.fileName.endsWith("/index.ts") === false)) for (const d of P.declsOf(n)) if (isFn(d) && d.name !== n) referenced.add(d); });
  const used = (fn) => { if (!ts.isFunctionDeclaration(fn)) return true; if (ts.getCombinedModifierFlags(fn) & ts.ModifierFlags.Export) return true; return (P.callers.get(fn) ?? []).length > 0 || referenced.has(fn); };
  const isTestOnly = (f) => { let t = f; while (P.enclosingFn(t)) t = P.enclosingFn(t); return /ForTest/.test(P.fnName(t)) || /^_+[a-z]/.test(P.fnName(t)) && !(P.callers.get(t) ?? []).length; };

  // ── process-wide settings: a module variable some function in use sets from its argument ──
  const settings = new Map();
  for (const [d, c] of D.cells) {
    if (!c.let || c.writes.some((w) => w.kind === "++")) continue;
    const ws = [];
    for (const w of c.writes) {
      const n = w.node; if (isTestOnly(w.fn) || !w.direct || !ts.isBinaryExpression(n)) continue;
      let top = w.fn; while (P.enclosingFn(top)) top = P.enclosingFn(top);
      if (!ts.isFunctionDeclaration(top) || !(ts.getCombinedModifierFlags(top) & ts.ModifierFlags.Export) || !referenced.has(top) && !ctx.isFixture(top)) continue;
      const v = skip(n.right); if (!(D.chain(v) || ts.isBinaryExpression(v) || ts.isConditionalExpression(v))) continue;
      if ([...D.slice([v], w.fn, { noConditions: true }).inputs.keys()].some((x) => ts.isParameter(x) && x.parent === top)) ws.push(w);
    }
    if (ws.length) settings.set(d, ws);
  }
  const near = (fns, cut) => { // cells read at most three calls away
    const out = new Set(), seen = new Set(); let level = [...fns].filter((f) => f !== cut);
    for (let i = 0; i < 4; i++) { const next = []; for (const f of level) { if (seen.has(f)) continue; seen.add(f); for (const c of D.cellReads(f)) out.add(c); for (const g of P.callGraph.get(f) ?? []) if (g !== cut) next.push(g); } level = next; }
    return out;
  };

  const blockOf = (x) => { let p = x.parent; while (p && !ts.isBlock(p) && !ts.isSourceFile(p) && !isFn(p)) p = p.parent; return p; };
  const argAt = (call, i) => call.arguments?.[i];
  /** at every call the argument is made only from what the key arguments are made from */
  const derived = (fn, prm, keyPrms) => {
    const i = fn.parameters.indexOf(prm), cs = P.callers.get(fn) ?? []; if (i < 0 || !cs.length) return false;
    return cs.every((call) => {
      const g = P.enclosingFn(call), a = argAt(call, i); if (!a) return true; if (!g) return false;
      const s = D.slice([a], g, { noConditions: true }); if (s.cells.size) return false;
      const roots = (sl) => { const m = new Map(); for (const n of sl.nodes) { const ch = ts.isIdentifier(n) || ts.isPropertyAccessExpression(n) ? D.chain(n) : null; if (ch && !isFn(ch.root) && !ts.isFunctionLike(ch.root) && (ts.isParameter(ch.root) || ts.isVariableDeclaration(ch.root) && P.enclosingFn(ch.root) || ts.isBindingElement(ch.root))) { let b = m.get(ch.root); if (!b) m.set(ch.root, b = new Set()); b.add(ch.path); } } return m; };
      const direct = (x) => roots({ nodes: (() => { const r = []; walk(x, (n) => { if (ts.isIdentifier(n) || ts.isPropertyAccessExpression(n)) r.push(n); }); return r; })() });
      const ka = keyPrms.map((x) => argAt(call, fn.parameters.indexOf(x))).filter(Boolean); const kr = new Map(); for (const x of ka) { const ch = D.chain(x); if (ch) { let b = kr.get(ch.root); if (!b) kr.set(ch.root, b = new Set()); b.add(ch.path); } } const ok = (m) => [...m].every(([d, ps]) => [...ps].every((p) => [...(kr.get(d) ?? [])].some((q) => Depend.covers(q, p))));
      if (ok(direct(a))) return true;
      // one step back through a local definition: const ch = f(keyArg)
      const ch = D.chain(a); const w = ch && !ch.path ? D.writesIn(g).get(ch.root) : null;
      return !!w && w.length === 1 && w[0].exprs.every((x) => ok(direct(x)));
    });
  };
  /** entries that stand for a picture of one glyph cluster: where on the page it was photographed does not matter */
  const PICTURES = (v) => v.some((x) => { let r = false; walk(x, (n) => { if (ts.isCallExpression(n) && ts.isPropertyAccessExpression(skip(n.expression)) && skip(n.expression).name.text === "screenshot") r = true; }); return r; });

  for (const m of memos) {
    const { fn, d, sets, outerKeys, asInput } = m;
    if (collects(m)) { ctx.count("tables that collect (not judged)"); continue; }
    if (!guarded(m) || !used(fn)) { ctx.count("tables filled unconditionally (not judged)"); continue; }
    const fx = ctx.isFixture(fn);
    if (!fx) ctx.count("memos");
    for (const x of [d, ...m.outers]) (ctx.memoTables ??= new Set()).add(x);
    const stop = (e) => isGet(e, d);
    // what is filed under an identity handed out here belongs to the remembered value
    const companions = [];
    for (const s of sets) for (const sv of s.values) { const v = skip(sv), vd = ts.isIdentifier(v) ? P.declsOf(v)[0] : null; if (vd) walk(fn, (n) => { if (method(n, /^set$/) && n !== s.n && n.arguments.length === 2) { const k = skip(n.arguments[0]); if (ts.isIdentifier(k) && P.declsOf(k)[0] === vd) companions.push(n.arguments[1]); } }); }
    const base = new Set(m.gets.flatMap((g) => D.conditions(g.n, fn)));
    const values = [...sets.flatMap((s) => s.values), ...companions];
    const ks = D.slice([...sets.flatMap((s) => s.keys), ...outerKeys], fn, { asInput });
    const vs = D.slice(values, fn, { stop, asInput, skipCond: base, alsoConditionsOf: sets.length > 1 ? sets.map((s) => s.n) : [] });
    const varies = (i) => {
      if (asInput) return asInput.has(i);
      if (ts.isParameter(i) && i.parent === fn) return true;
      if (m.owner === "this" && ts.isParameter(i) && ts.isConstructorDeclaration(i.parent)) return false;
      const b = blockOf(i);
      return within(i, m.scope) && b !== m.scope && !(isFn(b) && b.body === m.scope);
    };
    const keyPrms = [...ks.inputs.keys()].filter((x) => ts.isParameter(x) && x.parent === fn);
    for (const [i, ps] of vs.inputs) {
      if (!varies(i)) continue;
      const kp = [...(ks.inputs.get(i) ?? [])];
      const missing = [...ps].filter((p) => !kp.some((q) => Depend.covers(q, p)));
      const iname = i.name?.getText?.().replace(/\s+/g, "") ?? "?";
      const ok = !missing.length || (kp.length > 0 && PICTURES(vs.nodes) && missing.every((p) => /(^|\.)rect(\.|$)/.test(p)))
        || /^CSSStyleDeclaration$/.test(P.typeStr(i)) && keyPrms.some((k) => /Element$/.test(P.typeStr(k))) // the element's own computed style
        || determined(fn, i, d.name.getText(), sets.flatMap((q) => q.keys))
        || ts.isParameter(i) && i.parent === fn && !kp.length && keyPrms.length > 0 && derived(fn, i, keyPrms);
      if (!fx) ctx.count("inputs of remembered values");
      ctx.oblige(ok, sets[0].n, "key-input", `${P.fnId(fn)}|${d.name.getText()}|${iname}`, `${d.name.getText()} remembers a value computed from ${missing.map((p) => iname + (p ? "." + p : "")).join(", ")}, which its key does not include: a later call that differs only there gets the earlier answer`);
    }
    // settings
    const guardCells = new Set(), held = holdersOf(m); for (const s of sets) { const g = D.slice(D.conditions(s.n, fn), fn, { stop, skipWrite: (w, x) => held.has(x) }); for (const c of [...g.cells, ...near(g.fns, fn)]) guardCells.add(c); }
    const kc = new Set([...ks.cells, ...near(ks.fns, fn), ...guardCells]);
    const vc = new Set([...vs.cells, ...near(vs.fns, fn)]);
    for (const c of vc) {
      if (c === d || !settings.has(c)) continue;
      const keeps = settings.get(c).filter((w) => { const reach = P.reachableFrom([w.fn]); return !(calls.get(d) ?? []).some((x) => (x.op === "clear" || x.op === "delete") && reach.has(x.fn)); });
      if (!fx) ctx.count("settings a remembered value depends on");
      ctx.oblige(kc.has(c) || !keeps.length, sets[0].n, "key-setting", `${P.fnId(fn)}|${d.name.getText()}|${c.name.text}`, `${d.name.getText()} remembers a value that depends on the process-wide setting ${c.name.text}, which is neither part of the key nor empties the table when ${[...new Set(keeps.map((w) => P.fnName(w.fn)))].join(", ")} changes it`);
    }
  }

  // ── single-entry memos: a module variable returned when already set ──────
  for (const [d, c] of D.cells) {
    if (!c.let) continue;
    for (const w of c.writes) {
      const n = w.node, fn = w.fn; if (!w.direct || !ts.isBinaryExpression(n) || n.operatorToken.kind !== K.EqualsToken && n.operatorToken.kind !== K.QuestionQuestionEqualsToken) continue;
      // `if (cell != null) return cell` (or a flag set with it) guards the assignment
      let hit = n.operatorToken.kind === K.QuestionQuestionEqualsToken && ts.isReturnStatement(n.parent);
      for (let x = n, p = x.parent; p && x !== fn; x = p, p = p.parent) if (ts.isBlock(p)) for (const st of p.statements) {
        if (st.pos >= x.pos) break;
        if (!ts.isIfStatement(st)) continue;
        const r = ts.isBlock(st.thenStatement) ? st.thenStatement.statements[st.thenStatement.statements.length - 1] : st.thenStatement;
        if (r && ts.isReturnStatement(r) && r.expression && ts.isIdentifier(skip(r.expression)) && P.declsOf(skip(r.expression)).includes(d)) { let m = false; walk(st.expression, (y) => { if (ts.isIdentifier(y) && P.declsOf(y).some((z) => z !== d && !D.cells.has(z))) m = true; }); if (!m) hit = true; }
      }
      if (!hit || !fn.parameters.length && !P.enclosingFn(fn)) { if (hit) { (ctx.memoTables ??= new Set()).add(d); if (!ctx.isFixture(fn)) ctx.count("single-entry memos"); ctx.oblige(true, n, "key-input", `${P.fnId(fn)}|${d.name.text}|-`, ""); } continue; }
      (ctx.memoTables ??= new Set()).add(d); if (!ctx.isFixture(fn)) ctx.count("single-entry memos");
      const s = D.slice([n.right], fn, {});
      const prm = [...s.inputs.keys()].filter((x) => ts.isParameter(x) && x.parent === fn);
      for (const x of prm) ctx.oblige(false, n, "key-input", `${P.fnId(fn)}|${d.name.text}|${x.name.getText()}`, `${d.name.text} is computed once from ${x.name.getText()} and returned to every later caller, whatever ${x.name.getText()} it passes`);
    }
  }
  ctx.floor("memos", 40); ctx.floor("inputs of remembered values", 80);
  ctx.expectFixture("fxDropsWeight|names|w", "fxIgnoresSetting|byMode|fxMode", "fxInternsLess|ids|body", "fxLoop|m|row", "fxOnce|fxLatch|n", "fxThroughHelpers|verdicts|deep");
  if (ctx.fixtureHits.some((h) => /fxGood|fxDerived/.test(h))) ctx.anchor(false, "a complete key was reported");
}
