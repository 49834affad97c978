import { ts, K, isFn, skip, walk, walkOwn } from "../lib/program.mjs";
import { PageCtx } from "../lib/pagectx.mjs";
import { Depend } from "../lib/depend.mjs";
import { Feasible } from "../lib/paths.mjs";

export const rule = "Typestate of every process-wide setting over a path-sensitive CFG with exceptional edges: a function that saves a setting and changes it restores the saved value on every normal and exceptional exit, a depth counter raised by one function is lowered by its partner on every exit (or an enclosing function on every call chain up to the API saves and restores it), nothing in the library changes such a setting in any other way, and no asynchronous work runs while one is in force.";
export const trusted = ["may-throw model of external APIs (lib/throws.mjs)"];
export const assumptions = ["synchronous code of one process is not interleaved"];

export const fixtures = {
  "__verif_fixture_p22.ts": `
let modeA = "a"; let modeB = "b"; let modeC = "c"; let modeD = "d"; let modeE = "e"; let depthF = 0; let depthG = 0; let modeH = "h"; let depthI = 0; let modeJ = "j";
export function fxNoFinally<T>(m: string, fn: () => T): T { const prev = modeA; modeA = m; const r = fn(); modeA = prev; return r; }
export function fxSavedLate<T>(m: string, fn: () => T): T { modeB = m; const prev = modeB; try { return fn(); } finally { modeB = prev; } }
export function fxNeverRestored<T>(m: string, fn: () => T): T { modeC = m; return fn(); }
export function fxScope<T>(m: string, fn: () => T): T { const prev = modeD; modeD = m; try { return fn(); } finally { modeD = prev; } }
export function setModeD(m: string): void { modeD = m; }
export function fxBareSet(s: string): string { setModeD("x"); const n = JSON.parse(s); setModeD("d"); return n + modeD; }
export function fxAsyncWork(s: Promise<string>): Promise<string> { return fxScope("q", async () => (await s) + modeD); }
export async function fxAcrossAwait(s: Promise<string>): Promise<string> { const prev = modeE; modeE = "z"; try { return (await s) + modeE; } finally { modeE = prev; } }
export function pushF(): void { depthF++; } export function popF(): void { if (depthF > 0) depthF--; }
export function fxUnpopped(s: string): number { pushF(); const n = JSON.parse(s); popF(); return n + depthF; }
export function pushG(): void { depthG++; } export function popG(): void { depthG--; }
export function okPair(s: string): number { pushG(); try { return JSON.parse(s) + depthG; } finally { popG(); } }
export function okGuarded(s: string, on: boolean): number { if (on) pushG(); const close = (): void => { if (on) popG(); }; try { return JSON.parse(s); } finally { close(); } }
export function okScope(s: string): string { const prev = modeH; modeH = s; try { return JSON.parse(s) + modeH; } finally { modeH = prev; } }
function innerI(s: string): number { depthI += 1; const n = JSON.parse(s); depthI -= 1; return n; }
export function okOuter(s: string): number { const before = depthI; try { return innerI(s); } finally { depthI = before; } }
export function okEarly(on: boolean, s: string): string { const prev = modeJ; if (!on) return s; modeJ = s; try { return JSON.parse(modeJ); } finally { modeJ = prev; } }
`,
};

export function run(ctx) {
  const { P, F, R } = ctx, T0 = ctx.T, C = new PageCtx(P, F), D = new Depend(P);
  const host = (n) => !C.inPage(n) && !C.pageFiles.has(n.getSourceFile());
  const declOf = (e) => { e = skip(e); return ts.isIdentifier(e) ? P.declsOf(e)[0] : null; };

  // work handed in by the caller may always throw, and so may a call that sets a whole part of the program to work (25 functions
  // or more behind it): the types do not rule out a malformed tree. Small bookkeeping helpers are judged by what they do.
  const reach = (fns) => { const seen = new Set(fns), st = [...fns]; while (st.length && seen.size < 25) for (const g of P.callGraph.get(st.pop()) ?? []) if (!seen.has(g)) { seen.add(g); st.push(g); } return seen.size >= 25; };
  const heavyMemo = new Map(), heavy = (c) => { let h = heavyMemo.get(c); if (h === undefined) heavyMemo.set(c, h = reach([...P.callees(c), ...(c.arguments ?? []).map(skip).filter(isFn)])); return h; };
  const T = { cfg: (fn) => T0.cfg(fn), excTaken: (n) => T0.excTaken(n) || !!n.exc && n.kind === "call" && ts.isCallExpression(n.ast) && (ts.isParameter(declOf(n.ast.expression) ?? n.ast) || heavy(n.ast)) };

  // ── settings and the functions that touch them ──
  const cells = [...D.cells.values()].filter((c) => c.let && host(c.decl) && !c.decl.getSourceFile().fileName.includes(".generated."));
  const single = (fn) => fn.body && !ts.isBlock(fn.body) ? fn.body : fn.body && fn.body.statements.length === 1 ? (ts.isReturnStatement(fn.body.statements[0]) ? fn.body.statements[0].expression : ts.isExpressionStatement(fn.body.statements[0]) ? fn.body.statements[0].expression : null) : null;
  const getter = new Map(), setter = new Map(); // fn → cell decl
  for (const f of P.functions) { const e = single(f); if (!e) continue; const s = skip(e);
    if (ts.isIdentifier(s)) { const d = declOf(s); if (d && D.cells.has(d)) getter.set(f, d); }
    else if (ts.isBinaryExpression(s) && s.operatorToken.kind === K.EqualsToken) { const d = declOf(s.left), p = declOf(s.right); if (d && D.cells.has(d) && p && ts.isParameter(p) && p.parent === f) setter.set(f, { cell: d, index: f.parameters.indexOf(p) }); } }
  const reads = (e, X) => { if (!e) return false; const s = skip(e); if (declOf(s) === X) return true; return ts.isCallExpression(s) && P.callees(s).length > 0 && P.callees(s).every((g) => getter.get(g) === X); };
  /** change a node makes to X: {rhs} | {inc:±1} */
  const change = (n, X) => {
    if (ts.isBinaryExpression(n) && declOf(n.left) === X) {
      const op = n.operatorToken.kind; if (op === K.EqualsToken) { const r = skip(n.right);
        if (ts.isBinaryExpression(r) && (r.operatorToken.kind === K.PlusToken || r.operatorToken.kind === K.MinusToken) && declOf(r.left) === X) return { inc: r.operatorToken.kind === K.PlusToken ? 1 : -1 };
        if (ts.isCallExpression(r) && /^Math\.max$/.test(r.expression.getText()) && r.arguments.some((a) => { const s = skip(a); return ts.isBinaryExpression(s) && s.operatorToken.kind === K.MinusToken && declOf(s.left) === X; })) return { inc: -1 };
        return { rhs: r }; }
      if (op === K.PlusEqualsToken) return { inc: 1 }; if (op === K.MinusEqualsToken) return { inc: -1 };
      if (op >= K.FirstAssignment && op <= K.LastAssignment) return { rhs: n };
    }
    if ((ts.isPostfixUnaryExpression(n) || ts.isPrefixUnaryExpression(n)) && declOf(n.operand) === X) { if (n.operator === K.PlusPlusToken) return { inc: 1 }; if (n.operator === K.MinusMinusToken) return { inc: -1 }; }
    if (ts.isCallExpression(n)) for (const g of P.callees(n)) { const s = setter.get(g); if (s?.cell === X && n.arguments[s.index]) return { rhs: skip(n.arguments[s.index]) }; }
    return null;
  };
  const saved = (e, X) => { const d = declOf(e); return d && ts.isVariableDeclaration(d) && P.enclosingFn(d) && reads(d.initializer, X) ? d : null; };
  const callers = new Map(); for (const c of P.calls) for (const g of P.callees(c)) { let a = callers.get(g); if (!a) callers.set(g, a = []); a.push(c); }
  const home = (f) => { let g = P.enclosingFn(f); return g; };
  const within = (inner, outer) => { for (let f = inner; f; f = P.enclosingFn(f)) if (f === outer) return true; return false; };
  const exported = (f) => { let d = ts.isArrowFunction(f) || ts.isFunctionExpression(f) ? f.parent?.parent?.parent : f; return !!d && ts.canHaveModifiers?.(d) && (ts.getModifiers(d) ?? []).some((m) => m.kind === K.ExportKeyword); };

  let scopes = 0;
  for (const c of cells) {
    const X = c.decl, nm = X.name.text, fx = ctx.isFixture(X);
    // functions changing X, with their change sites
    const sites = new Map(); const addSite = (fn, n, ch) => { let a = sites.get(fn); if (!a) sites.set(fn, a = []); a.push({ n, ch }); };
    for (const w of c.writes) { if (!w.direct) continue; const ch = change(w.node, X); if (ch) addSite(w.fn, w.node, ch); else addSite(w.fn, w.node, { rhs: w.node }); }
    for (const [g, s] of setter) if (s.cell === X) for (const k of callers.get(g) ?? []) { const fn = P.enclosingFn(k); if (fn) addSite(fn, k, change(k, X) ?? { rhs: k }); }
    const restoring = (fn) => (sites.get(fn) ?? []).filter((s) => s.ch.rhs && saved(s.ch.rhs, X));
    const scopeFns = [...sites.keys()].filter((fn) => restoring(fn).length);
    // paired counter functions
    const ups = [...sites].filter(([fn, a]) => a.some((s) => s.ch.inc === 1) && !a.some((s) => s.ch.inc === -1)).map(([fn]) => fn);
    const downs = [...sites].filter(([fn, a]) => a.some((s) => s.ch.inc === -1) && !a.some((s) => s.ch.inc === 1)).map(([fn]) => fn);
    const inFn = [...sites].filter(([fn, a]) => a.some((s) => s.ch.inc === 1) && a.some((s) => s.ch.inc === -1)).map(([fn]) => fn);
    const paired = (ups.length && downs.length) || inFn.length;

    // a function that installs a value around a callback and never restores it
    for (const [fn, a] of sites) {
      if (restoring(fn).length || ups.includes(fn) || downs.includes(fn) || inFn.includes(fn)) continue;
      const cb = new Set(fn.parameters.filter((p) => ts.isIdentifier(p.name) && P.type(p.name).getCallSignatures().length)); if (!cb.size) continue;
      let bad = null; const fe = new Feasible(P, T, fn);
      fe.explore("-", (n, aux) => { if (n.ast && a.some((s) => s.n === n.ast)) return "A"; if (aux === "A" && n.kind === "call" && cb.has(declOf(n.ast.expression))) bad ??= n.ast; return aux; }, () => {});
      ctx.oblige(!bad, a[0].n, "unrestored", `${P.fnId(fn)}|${nm}`, bad ? `${P.fnName(fn)} installs ${nm}, runs \`${P.text(bad, 40)}\` under it and never puts the previous value back` : "");
    }
    if (!scopeFns.length && !paired) continue;
    if (!fx) ctx.count("settings in force for one piece of work");

    // ── S1/S4: every change is undone on every exit ──
    const isUp = (n) => { if (!ts.isCallExpression(n)) { const ch = change(n, X); return ch?.inc === 1; } return P.callees(n).some((g) => ups.includes(g)) && !P.callees(n).some((g) => downs.includes(g)); };
    const isDownCall = (n, guards, depth = 0) => {
      if (!ts.isCallExpression(n)) return change(n, X)?.inc === -1;
      const cs = P.callees(n); if (!cs.length) return false;
      return cs.every((g) => downs.includes(g) || depth < 3 && lowers(g, guards, depth + 1));
    };
    const lowers = (g, guards, depth) => { // every normal path of a local helper lowers the counter, under the guards of the raise
      if (!g.body) return false; let any = false; walk(g.body, (q) => { if (ts.isCallExpression(q) && P.callees(q).some((h) => downs.includes(h) || h !== g && within(h, g))) any = true; if (change(q, X)?.inc === -1) any = true; });
      if (!any) return false; let ok = true;
      const fe = new Feasible(P, T, g);
      fe.explore("-", (n, aux) => { if (aux === "-" && n.ast && ["call", "assign", "unary", "expr", "stmt"].includes(n.kind) && nodeDown(n, guards, depth)) return "R"; return aux; }, (kind, aux) => { if (kind === "normal exit" && aux !== "R") ok = false; }, { edge: (s) => !R.edgeDead(s, null, null, guards) });
      return ok;
    };
    const own = (n) => { const e = n.ast; if (!e) return []; if (n.kind === "stmt" && ts.isExpressionStatement(e)) { const s = skip(e.expression); return ts.isPostfixUnaryExpression(s) || ts.isPrefixUnaryExpression(s) ? [s] : []; } return [e]; };
    const nodeDown = (n, guards, depth) => own(n).some((e) => isDownCall(e, guards, depth));
    const nodeUp = (n) => own(n).some((e) => isUp(e));

    const leaky = new Map(); // fn → {from: node, kind, via}
    const work = [];
    const leak = (fn, why) => { if (leaky.has(fn)) return; leaky.set(fn, why); work.push(fn); };
    /** explore fn; `enter(node)` marks the change, saved-value writes and pair partners undo it */
    const explore = (fn, at, isEnter, countUp) => {
      const guards = R.guardsFor(at, fn), fe = new Feasible(P, T, fn); let bad = null, started = false, twice = null, awaited = null;
      const res = restoring(fn), saves = new Set(res.map((s) => saved(s.ch.rhs, X)));
      // aux: [-s][-AR]: whether the value was saved before the change, and whether the change is in force
      fe.explore("--", (n, aux) => {
        const s = aux[0], a = aux[1];
        if (n.kind === "decl" && saves.has(n.ast)) return (a === "A" ? "x" : "s") + a;
        if (n.ast && n.ast === at || own(n).includes(at)) { if (isEnter(at)) { started = true; return s + "A"; } }
        if (a !== "-" && n.ast && res.some((q) => q.n === n.ast)) return s === "s" ? s + "R" : aux;
        if (countUp && a === "A" && nodeDown(n, guards, 0)) return s + "R";
        if (countUp && a === "R" && s !== "s" && !isEnter(n.ast ?? at) && nodeDown(n, guards, 0)) twice ??= n.ast;
        if (a === "A" && (n.kind === "await" || n.kind === "yield") ) awaited ??= n.ast;
        return aux;
      }, (kind, aux, rec) => {
        if (aux[1] !== "A" || bad) return;
        let q = rec.prev, via = null; while (q) { if (kind === "exception" ? q.n.exc && T.excTaken(q.n) && q.n.kind !== "rethrow" : ["call", "return"].includes(q.n.kind)) { via = q.n.ast; break; } q = q.prev; }
        bad = { kind, via, late: aux[0] === "x" };
      }, { edge: (s, aux) => aux[1] !== "A" && aux[1] !== "R" || !R.edgeDead(s, null, null, guards) , auxExc: (n, before, after) => { const acts = own(n); return acts.some((e) => e === at && !ts.isCallExpression(e)) ? before : acts.some((e) => e === at) && !callLeaks ? before : after; } });
      return { bad, started, twice, awaited };
    };
    let callLeaks = false;
    const where = (b) => b.via ? ` through ${P.loc(b.via)} \`${P.text(b.via, 50)}\`` : "";
    for (const [fn, a] of sites) {
      const scope = scopeFns.includes(fn), local = inFn.includes(fn);
      if (scope) { scopes++; if (!fx) ctx.count("save/restore scopes"); }
      for (const s of a) {
        const isSave = s.ch.rhs && saved(s.ch.rhs, X);
        if (scope && !isSave) {
          const r = explore(fn, s.n, (n) => n === s.n, false);
          ctx.oblige(r.started && !r.bad, s.n, "not-restored", `${P.fnId(fn)}|${nm}`, r.bad ? (r.bad.late ? `${P.fnName(fn)} saves ${nm} only after changing it, so what it restores is its own value` : `${nm} changed in ${P.fnName(fn)} is not put back on the ${r.bad.kind} path${where(r.bad)}`) : `the change to ${nm} is unreachable`);
          ctx.oblige(!r.awaited, s.n, "across-await", `${P.fnId(fn)}|${nm}`, r.awaited ? `${nm} stays changed while ${P.fnName(fn)} waits at ${P.loc(r.awaited)}: other work in the process runs under it` : "");
        } else if (local && s.ch.inc === 1) {
          const r = explore(fn, s.n, (n) => n === s.n, true);
          if (!fx) ctx.count("depth counters raised and lowered in place");
          if (r.bad?.kind === "exception" || !r.started) leak(fn, { at: s.n, ...(r.bad ?? { kind: "unreachable" }) }); else ctx.oblige(!r.bad, s.n, "not-lowered", `${P.fnId(fn)}|${nm}`, r.bad ? `${nm} raised in ${P.fnName(fn)} is not lowered on the ${r.bad.kind} path${where(r.bad)}` : "");
        }
      }
    }
    // calls of the raising half of a pair
    if (ups.length && downs.length) {
      for (const up of ups) for (const k of callers.get(up) ?? []) {
        const fn = P.enclosingFn(k); if (!fn) continue;
        if (!fx) ctx.count("paired raises");
        // a raise inside another raising half is matched by a lowering in that half's partner
        const outer = pairOf(fn);
        if (outer) { const ok = outer.downs.some((d) => { let h = false; walk(d.body, (q) => { if (ts.isCallExpression(q) && P.callees(q).some((g) => downs.includes(g))) h = true; }); return h; }); ctx.oblige(ok, k, "unpaired", `${P.fnId(fn)}|${nm}`, `${P.fnName(fn)} raises ${nm} and the function that closes its scope never lowers it`); continue; }
        const r = explore(fn, k, (n) => n === k, true);
        ctx.oblige(!r.twice, k, "lowered-twice", `${P.fnId(fn)}|${nm}`, r.twice ? `${nm} raised once in ${P.fnName(fn)} is lowered again at ${P.loc(r.twice)}` : "");
        ctx.oblige(!r.awaited, k, "across-await", `${P.fnId(fn)}|${nm}`, r.awaited ? `${nm} stays raised while ${P.fnName(fn)} waits at ${P.loc(r.awaited)}: other work in the process runs under it` : "");
        if (r.bad?.kind === "exception") leak(fn, { at: k, ...r.bad });
        else ctx.oblige(r.started && !r.bad, k, "not-lowered", `${P.fnId(fn)}|${nm}`, r.bad ? `${nm} raised in ${P.fnName(fn)} is not lowered on the ${r.bad.kind} path${where(r.bad)}` : `the raise of ${nm} is unreachable`);
      }
      for (const dn of downs) for (const k of callers.get(dn) ?? []) {
        const fn = P.enclosingFn(k); if (!fn || pairDown(fn)) continue;
        let has = false; for (let f = fn; f; f = P.enclosingFn(f)) walk(f.body ?? f, (q) => { if (ts.isCallExpression(q) && P.callees(q).some((g) => ups.includes(g))) has = true; });
        ctx.oblige(has, k, "unmatched-lower", `${P.fnId(fn)}|${nm}`, `${P.fnName(fn)} lowers ${nm}, which it never raised`);
      }
    }
    // ── an exceptional exit that leaves the counter raised must be undone by every chain of callers ──
    const reported = new Set();
    while (work.length) {
      const f = work.pop(), why = leaky.get(f);
      const cs = [...(callers.get(f) ?? [])].filter((k) => P.enclosingFn(k));
      const asValue = ts.isArrowFunction(f) || ts.isFunctionExpression(f) ? home(f) : null;
      if (!cs.length && !asValue || exported(f) && P.fnIsApi?.(f)) { report(f, why); continue; }
      for (const k of cs) {
        const g = P.enclosingFn(k); if (leaky.has(g)) continue;
        if (!restoring(g).length) { leak(g, { ...why, chain: [...(why.chain ?? []), f] }); continue; }
        callLeaks = true; const r = explore(g, k, (n) => n === k, false); callLeaks = false;
        if (r.bad) leak(g, { ...why, chain: [...(why.chain ?? []), f] }); else { if (!fx) ctx.count("leaks contained by an enclosing scope"); ctx.oblige(true, k, "contained", `${P.fnId(g)}|${nm}`, ""); }
      }
      if (!cs.length && asValue && !leaky.has(asValue)) leak(asValue, { ...why, chain: [...(why.chain ?? []), f] });
    }
    function report(f, why) { if (reported.has(why.at)) return; reported.add(why.at); const fn = P.enclosingFn(why.at);
      ctx.oblige(false, why.at, "not-lowered", `${P.fnId(fn)}|${nm}`, `${nm} raised in ${P.fnName(fn)} stays raised when ${P.fnName(fn)} throws${where(why)}, and no caller up to ${P.fnName(f)} puts it back: everything rendered later in the process sees it`); }
    for (const up of ups) for (const k of callers.get(up) ?? []) if (P.enclosingFn(k) && !pairOf(P.enclosingFn(k)) && !reported.has(k)) ctx.oblige(true, k, "not-lowered", `${P.fnId(P.enclosingFn(k))}|${nm}`, "");

    // ── S3: no other way of changing it inside the library ──
    for (const [fn, a] of sites) {
      if (scopeFns.includes(fn) || ups.includes(fn) || downs.includes(fn) || inFn.includes(fn)) continue;
      for (const s of a) {
        const bare = setter.get(fn)?.cell === X && !ts.isCallExpression(s.n);
        const used = (callers.get(fn) ?? []).length > 0;
        if (!fx) ctx.count("other writes of such a setting");
        ctx.oblige(bare || !used && !ts.isCallExpression(s.n) && s.ch.rhs, s.n, "bare-write", `${P.fnId(fn)}|${nm}`, `${P.fnName(fn)} changes ${nm} outside a scope that restores it`);
      }
    }
    // ── S5: the work done under a scope is synchronous ──
    for (const fn of scopeFns) {
      const cbs = fn.parameters.filter((p) => ts.isIdentifier(p.name) && P.type(p.name).getCallSignatures().length);
      for (const p of cbs) for (const k of callers.get(fn) ?? []) {
        const arg = k.arguments[fn.parameters.indexOf(p)]; if (!arg) continue;
        const sig = P.type(arg).getCallSignatures()[0]; const rt = sig && P.checker.getReturnTypeOfSignature(sig);
        const then = rt && (rt.isUnion?.() ? rt.types : [rt]).some((t) => t.getProperty?.("then"));
        if (!fx) ctx.count("work run under a scope");
        ctx.oblige(!then, k, "async-work", `${P.fnId(P.enclosingFn(k))}|${nm}`, `the work passed to ${P.fnName(fn)} is asynchronous: ${nm} is put back before it runs`);
      }
    }
  }
  // counter pairs by function, for raises nested in another pair's halves
  function pairOf(fn) {
    for (const c of cells) {
      const u = c.writes.filter((w) => w.direct && w.fn === fn && change(w.node, c.decl)?.inc === 1), d0 = c.writes.filter((w) => w.direct && change(w.node, c.decl)?.inc === -1 && w.fn !== fn);
      if (u.length && d0.length && !c.writes.some((w) => w.fn === fn && change(w.node, c.decl)?.inc === -1)) return { downs: [...new Set(d0.map((w) => w.fn))] };
    }
    return null;
  }
  function pairDown(fn) { return cells.some((c) => c.writes.some((w) => w.direct && w.fn === fn && change(w.node, c.decl)?.inc === -1) && !c.writes.some((w) => w.fn === fn && change(w.node, c.decl)?.inc === 1)); }

  ctx.floor("save/restore scopes", 4); ctx.floor("paired raises", 4); ctx.floor("work run under a scope", 3);
  ctx.expectFixture("not-restored:src/__verif_fixture_p22.ts#fxNoFinally", "fxSavedLate", "unrestored:src/__verif_fixture_p22.ts#fxNeverRestored", "bare-write:src/__verif_fixture_p22.ts#fxBareSet", "async-work:src/__verif_fixture_p22.ts#fxAsyncWork", "across-await:src/__verif_fixture_p22.ts#fxAcrossAwait", "not-lowered:src/__verif_fixture_p22.ts#fxUnpopped");
  for (const h of ctx.fixtureHits) if (/#(ok|inner)/.test(h)) ctx.anchor(false, "negative example reported: " + h);
}
