import { ts, K, isFn, skip, walk } from "../lib/program.mjs";
import { idSites, IdShapes, EACH } from "../lib/ids.mjs";
import { FactPaths } from "../lib/factpaths.mjs";

export const rule = "Every identifier defined or referenced in generated markup is found in the templates and resolved to its shape: document prefix, literal text, counters (with the increment they were drawn from) and loop indices. A definition must carry the document prefix and a counter drawn anew for it; two definitions drawn from the same count must be told apart by their text or exclude each other on every path; a counter that is only read must be advanced before it is read again; every reference must have the shape of a definition, and be written only on paths that write that definition.";
export const trusted = ["value-flow engine (lib/flow.mjs)"];
export const assumptions = ["Identifiers inside markup captured from the page are rewritten by the namespacing functions, whose patterns are checked for the spellings XML allows", "Markup handed to a function that stores it reaches the document"];

export const fixtures = {
  "__verif_fixture_p16.ts": `
interface FixCtx { defs: string[]; out: string[]; next(p: string): string; peek(): number; skip(n: number): void; pfx: string }
export function fixCtx(pfx: string = ""): FixCtx { let n = 0; const defs: string[] = [], out: string[] = []; return { defs, out, pfx, next: (p) => \`\${pfx}\${p}\${n++}\`, peek: () => n, skip: (k) => { n += k; } }; }
export function fixNoCounter(c: FixCtx): void { const id = \`\${c.pfx}clip\`; for (const w of [1, 2]) c.defs.push(\`<clipPath id="\${id}"><rect width="\${w}"/></clipPath>\`); c.out.push(\`<g clip-path="url(#\${id})"/>\`); }
export function fixLoop(c: FixCtx, ws: number[]): void { const id = c.next("lp"); for (const w of ws) c.defs.push(\`<clipPath id="\${id}"><rect width="\${w}"/></clipPath>\`); c.out.push(\`<g clip-path="url(#\${id})"/>\`); }
export function fixTwice(c: FixCtx, big: boolean): void { const id = c.next("tw"); c.defs.push(\`<clipPath id="\${id}"><rect/></clipPath>\`); if (big) c.defs.push(\`<clipPath id="\${id}"><path/></clipPath>\`); c.out.push(\`<g clip-path="url(#\${id})"/>\`); }
function fixBody(c: FixCtx, id: string, w: number): string { c.defs.push(\`<clipPath id="\${id}-d"><rect width="\${w}"/></clipPath>\`); return \`<g clip-path="url(#\${id}-d)"/>\`; }
export function fixShared(c: FixCtx): void { const id = c.next("sh"); const shadow = fixBody(c, id, 1); c.out.push(shadow, fixBody(c, id, 2)); }
export function fixUndefined(c: FixCtx): void { const id = c.next("un"); c.defs.push(\`<clipPath id="\${id}"><rect/></clipPath>\`); c.out.push(\`<g clip-path="url(#\${id}x)"/>\`); }
export function fixConditional(c: FixCtx, w: number): void { const id = c.next("co"); if (w > 0) c.defs.push(\`<clipPath id="\${id}"><rect width="\${w}"/></clipPath>\`); c.out.push(\`<g clip-path="url(#\${id})"/>\`); }
export function fixPeek(c: FixCtx): void { const id = \`\${c.pfx}pk\${c.peek()}\`; c.defs.push(\`<clipPath id="\${id}"><rect/></clipPath>\`); c.out.push(\`<g clip-path="url(#\${id})"/>\`); }
export function fixLateInc(c: FixCtx, ws: number[]): void { let n = 0; for (const w of ws) { const id = \`\${c.next("q")}li\${n}\`; if (w > 1) n++; c.defs.push(\`<clipPath id="\${id}"><rect/></clipPath>\`); c.out.push(\`<g clip-path="url(#\${id})"/>\`); } }
export function fixDigit(c: FixCtx): void { const id = c.next("g1"); c.defs.push(\`<clipPath id="\${id}"><rect/></clipPath>\`); c.out.push(\`<g clip-path="url(#\${id})"/>\`); }
export function fixKeyed(c: FixCtx, ws: { k: string }[]): void { const seq: Record<string, number> = {}; ws.forEach((w, i) => { void w; void i; }); let j = 0; for (const w of ws) { const n = seq[w.k] ?? 0; if (w.k !== "a") seq[w.k] = n + 1; const id = \`\${c.pfx}kq\${c.next("z")}_\${n}\`; j++; c.defs.push(\`<clipPath id="\${id}"><rect/></clipPath>\`); c.out.push(\`<g clip-path="url(#\${id})"/>\`); } }
export function okKeyed(c: FixCtx, ws: { k: string }[]): void { const seq = new Map<string, number>(); for (const w of ws) { const n = seq.get(w.k) ?? 0; seq.set(w.k, n + 1); const id = \`\${c.pfx}kr\${c.next("z")}_\${n}\`; c.defs.push(\`<clipPath id="\${id}"><rect/></clipPath>\`); c.out.push(\`<g clip-path="url(#\${id})"/>\`); } }
export function okEach(c: FixCtx, ws: number[]): void { const ids = ws.map(() => c.next("ea")); ws.forEach((w, i) => c.defs.push(\`<clipPath id="\${ids[i]}"><rect width="\${w}"/></clipPath>\`)); c.out.push(ids.map((id) => \`<g clip-path="url(#\${id})">\`).join("")); }
export function okBranches(c: FixCtx, w: number): string | null { const id = w > 0 ? c.next("br") : null; if (id == null) return null; if (w > 3) { c.defs.push(\`<mask id="\${id}"><rect/></mask>\`); return \`url(#\${id})\`; } c.defs.push(\`<mask id="\${id}"><path/></mask>\`); return \`url(#\${id})\`; }
export function okGuarded(c: FixCtx, w: number): void { let id: string | null = null; if (w > 0) { id = c.next("gd"); c.defs.push(\`<clipPath id="\${id}"><rect/></clipPath>\`); } c.out.push(\`<g\${id != null ? \` clip-path="url(#\${id})"\` : ""}/>\`); }
export function okSub(c: FixCtx): void { const base = c.peek(); let used = 0; for (const w of [1, 2]) { const id = \`\${c.pfx}ok\${base + used}\`; used++; c.defs.push(\`<clipPath id="\${id}"><rect width="\${w}"/></clipPath>\`); c.out.push(\`<g clip-path="url(#\${id})"/>\`); } c.skip(used); }
export function okSuffix(c: FixCtx, ws: number[]): void { const id = c.next("sx"); for (let i = 0; i < ws.length; i++) { c.defs.push(\`<clipPath id="\${id}-\${i}"><rect width="\${ws[i]}"/></clipPath>\`); c.out.push(\`<g clip-path="url(#\${id}-\${i})"/>\`); } }
`,
};

// names handed to a painter together with the instruction not to clip
const UNUSED = new Set(["bift"]);

export function run(ctx) {
  const { P, F, T } = ctx; const c = P.checker;
  const idx = P.file("src/index.ts"); const api = new Set(); ctx.anchor(!!idx, "package entry src/index.ts"); if (!idx) return;
  for (const s of c.getExportsOfModule(c.getSymbolAtLocation(idx))) for (const f of P.fnsOfDecls(P.unalias(s).declarations ?? [])) api.add(f);
  const S = new IdShapes(P, F, (d) => api.has(d.parent) || (ctx.isFixture(d) && d.name.getText() === "pfx"));
  const cnt = (n, k) => { if (!ctx.isFixture(n)) ctx.count(k); };
  const fnOf = (n) => P.enclosingFn(n);
  const within = (n, f) => { for (let p = n; p; p = p.parent) if (p === f) return true; return false; };

  // functions that rewrite identifiers of foreign markup by pattern
  const rewriters = new Map(); // fn -> regexes over attributes
  for (const f of P.functions) {
    if (/review\/|scrubber\/|generated|src\/capture\//.test(P.rel(f))) continue; const rx = [];
    walk(f.body, (q) => { if (q.kind === K.RegularExpressionLiteral && /\\bid|\\sid|href|url\\\(/.test(q.text) && ts.isCallExpression(q.parent) && ts.isPropertyAccessExpression(q.parent.expression) && /^(replace|replaceAll)$/.test(q.parent.expression.name.text)) rx.push(q); });
    if (rx.length >= 2) rewriters.set(f, rx);
  }
  const inRewriter = (n) => [...rewriters.keys()].some((f) => within(n, f));
  const prose = (n) => { let t = ""; walk(n, (x) => { if (ts.isStringLiteralLike(x) || ts.isTemplateHead(x) || ts.isTemplateMiddle(x) || ts.isTemplateTail(x)) t += x.text + "\u0001"; }); return !/[<{]/.test(t) && /\b[a-z]+ [a-z]+ [a-z]+ [a-z]+\b/i.test(t); }; // a sentence, neither markup nor CSS
  const isMessage = (n) => { if (prose(n)) return true; for (let p = n.parent; p && !ts.isStatement(p); p = p.parent) if (ts.isCallExpression(p) || ts.isNewExpression(p)) if (/(^|\.)(log|warn|error|push\w*Warning|Error|\w*Error)$/.test(p.expression.getText())) return true; return false; };

  const sites = idSites(P, (f) => !/review\/|scrubber\/|generated|src\/capture\/|capture-svg|background-raster|gradient-raster/.test(f.fileName)).filter((s) => s.kind !== "kfdef" && !isMessage(s.chain) && !within(s.chain, null));
  const defs = [], refs = [];
  for (const s of sites) { if (inRewriter(s.chain)) continue; s.shapes = S.tokShapes(s.toks); (s.kind === "def" ? defs : refs).push(s); cnt(s.chain, s.kind === "def" ? "definition templates" : "reference templates"); }
  // an identifier handed to a rewriter becomes the identifier of what it returns
  for (const [f] of rewriters) for (const call of F.invocations(f)) for (const a of call.arguments ?? []) {
    if (!(P.type(a).flags & ts.TypeFlags.StringLike)) continue;
    const sh = S.tokShapes([{ hole: a }]).filter((h) => h.some((t) => t.fresh || t.read)); if (!sh.length) continue;
    defs.push({ kind: "def", chain: call, toks: [{ hole: a }], shapes: sh, foreign: true }); cnt(call, "identifiers handed to a namespacer");
  }

  // the namespace a rewriter puts before the identifiers of foreign markup is drawn anew for every copy
  for (const [f] of rewriters) {
    const spaces = f.parameters.map((p, i) => [p, i]).filter(([p]) => ts.isIdentifier(p.name) && usedInTemplate(f, p));
    for (const call of F.invocations(f)) for (const [, i] of spaces) {
      const a = call.arguments?.[i]; if (!a || !(P.type(a).flags & ts.TypeFlags.StringLike)) continue;
      for (const h of S.tokShapes([{ hole: a }])) {
        if (h.some((t) => t.nul)) continue; cnt(call, "namespaces given to foreign markup");
        ctx.oblige(h.some((t) => t.fresh || t.read || t.idx || t.fieldNum || t.base || (t.other && !t.prefix)), call, "namespace", `${P.fnId(P.topFn(call))}|${S.show(h)}`, `identifiers of foreign markup are put under ${S.show(h)}, which is the same for every copy`);
      }
    }
  }

  // ── skeletons ────────────────────────────────────────────────────────────
  const isCounter = (t) => t.fresh || t.read;
  const atoms = (h) => h.flatMap((t) => t.sum ? [t, ...atoms(t.sum.flat())] : [t]);
  const tokKey = (t) => t.lit !== undefined ? t.lit : t.prefix ? "‹P›" : isCounter(t) ? `‹${S.key([{ ...t, alloc: null }])}›` : `‹${S.key([t])}›`;
  const skel = (h) => h.map(tokKey).join("");
  const resolved = (h) => h.some((t) => isCounter(t) || t.idx || t.lit) && !h.some((t) => t.other && t === h[0]);
  const bySkel = new Map();
  for (const d of defs) for (const h of d.shapes) { const k = skel(h); if (!bySkel.has(k)) bySkel.set(k, []); bySkel.get(k).push({ d, h }); }

  // ── definitions ─────────────────────────────────────────────────────────
  const localFn = (t) => { const d = t.fresh ?? t.read; const f = d && ts.isVariableDeclaration(d) ? fnOf(d) : null; return f; }; // function a counter lives in (null: module or object state)
  for (const d of defs) {
    for (const h of d.shapes) {
      const key = `${P.fnId(P.topFn(d.chain))}|${S.show(h)}`;
      const unresolved = h.length && h.every((t) => t.other || t.nul);
      if (unresolved) { cnt(d.chain, "identifiers kept from existing markup"); continue; }
      if (!h.length) continue;
      const ctrs = h.filter(isCounter), nums = h.filter((t) => t.idx || t.fieldNum || t.base || t.other);
      const text = h.map((t) => t.lit ?? "").join("");
      if (!ctrs.length && !nums.length) {
        // constant: only whole-document wrappers, once
        ctx.oblige(once(d.chain), d.chain, "fresh", key, `identifier "${S.show(h)}" is the same each time this markup is written, and it can be written more than once per document`);
        continue;
      }
      cnt(d.chain, "definition shapes");
      // the counter (or index) text is delimited: no digit next to a number
      for (let i = 0; i < h.length; i++) {
        const t = h[i], isN = isCounter(t) || t.idx || t.fieldNum || t.base; if (!isN) continue;
        const prev = h[i - 1], next = h[i + 1];
        if (isCounter(t) && prev?.lit && /\d$/.test(prev.lit)) ctx.oblige(false, d.chain, "digit", key, `text before the count ends in a digit: "${prev.lit}" and a count can spell another identifier`);
        if (next && (next.lit ? /^\d/.test(next.lit) : isCounter(next) || next.idx || next.fieldNum)) ctx.oblige(false, d.chain, "digit", key, `two numbers stand next to each other in identifier ${S.show(h)}`);
      }
      // a count kept per key is advanced for that key before it is looked up again
      for (const t of atoms(h)) if (t.other && keyed(t.other)) { cnt(d.chain, "counts kept per key"); ctx.oblige(keyedAdvanced(t.other), t.other, "advance", key, `the count kept per key, read at ${P.loc(t.other)}, is not advanced for that key on every path before it is looked up again`); }
      // added to a finished document: an identifier the document already has is passed over
      const kept = ctrs.find((t) => t.fresh && localFn(t)); if (kept && !h.some((t) => t.prefix) && finished(d.chain)) { cnt(d.chain, "identifiers added to finished documents"); ctx.oblige(passedOver(kept), d.chain, "taken", key, `identifier ${S.show(h)} is added to a finished document without being compared with the identifiers already there`); }
      if (!ctrs.length) { ctx.oblige(loopsCovered(d, h), d.chain, "fresh", key, `identifier ${S.show(h)} does not vary with a loop that writes it again`); continue; }
      // counters that are only read must be advanced before they are read again
      for (const t of ctrs) if (t.read) ctx.oblige(advanced(t), t.outer.getSourceFile() === d.chain.getSourceFile() ? t.outer : d.chain, "advance", key, `the count in ${S.show(h)} is read at ${P.loc(t.site)} and not advanced on every path before it is read again`);
    }
  }
  // two definitions drawn from the same count
  const groups = new Map();
  for (const d of defs) for (const h of d.shapes) for (const t of h) if (isCounter(t)) { const k = `${S.key([{ ...t }])}`; if (!groups.has(k)) groups.set(k, []); groups.get(k).push({ d, h, t }); break; }
  for (const g of groups.values()) {
    const memo = new Set();
    for (let i = 0; i < g.length; i++) for (let j = i; j < g.length; j++) {
      const [x, y] = [g[i], g[j]];
      const r = clash(x, y);
      if (r === null) continue; if (!ctx.isFixture(x.d.chain)) ctx.count("definition pairs compared");
      const key = `${P.fnId(P.topFn(r ? r.n : x.d.chain))}|${S.show(x.h)}`;
      if (r && memo.has(key)) continue; if (r) memo.add(key);
      ctx.oblige(!r, r ? r.n : x.d.chain, "duplicate", key, r ? `identifier ${S.show(x.h)} is defined twice from one count: ${P.loc(r.n)} and ${P.loc(r.m)} both run (definitions at ${P.loc(x.d.chain)}, ${P.loc(y.d.chain)})` : "");
    }
  }
  // ── references ───────────────────────────────────────────────────────────
  for (const r of refs) {
    const res = r.shapes.filter((h) => h.length && !h.every((t) => t.other || t.nul || t.prefix) && !h.some((t) => t.nul));
    if (!res.length) { cnt(r.chain, "references to identifiers of existing markup"); continue; }
    for (const h of res) {
      const key = `${P.fnId(P.topFn(r.chain))}|${S.show(h)}`;
      const m = bySkel.get(skel(h)) ?? [];
      cnt(r.chain, "reference shapes");
      if (!m.length && h.some((t) => UNUSED.has(t.lit))) { cnt(r.chain, "names handed over but not used (reviewed)"); continue; }
      if (!ctx.oblige(m.length > 0 || h.some((t) => t.other), r.chain, "undefined", key, `reference to ${S.show(h)}, which no template defines`)) continue;
      const cov = covered(r, h, m);
      if (cov !== null) { cnt(r.chain, "references checked on paths"); ctx.oblige(cov === true, cov === true ? r.chain : cov, "path", key, `reference to ${S.show(h)} is written on a path that does not write its definition`); }
    }
  }
  // ── namespacers accept every spelling XML allows ─────────────────────────
  for (const [f, rx] of rewriters) for (const q of rx) {
    const src = q.text; const m = /((?:href|\bid|\)))=\(?\[?["']|(?:\bid|href|\|?xlink:href\)?)=["']/.exec(src.replace(/\\b|\\s/g, ""));
    cnt(q, "namespacer patterns");
    ctx.oblige(!/(?:id|href|\))=(?:["']|\()/.test(src.replace(/\\s\*=\\s\*/g, "≡")), q, "spelling", `${P.fnId(f)}|${src.slice(0, 40)}`, "attribute pattern of a namespacing function does not allow white space around '='");
    void m;
  }
  ctx.floor("definition templates", 60); ctx.floor("reference templates", 90); ctx.floor("definition shapes", 60); ctx.floor("references checked on paths", 50); ctx.floor("identifiers handed to a namespacer", 2);
  const fx = "src/__verif_fixture_p16.ts#";
  ctx.expectFixture(`fresh:${fx}fixNoCounter`, `duplicate:${fx}fixLoop`, `duplicate:${fx}fixTwice`, `duplicate:${fx}fixShared`, `undefined:${fx}fixUndefined`, `path:${fx}fixConditional`, `advance:${fx}fixPeek`, `advance:${fx}fixLateInc`, `advance:${fx}fixKeyed`, `digit:${fx}fixDigit`);
  for (const h of ctx.fixtureHits) if (/#ok/.test(h)) ctx.violations.push({ rule: "selftest", key: `selftest|${h}`, where: "-", msg: "built-in negative example was reported" });

  // ── helpers ──────────────────────────────────────────────────────────────
  function usedInTemplate(f, p) { let hit = false; walk(f.body, (q) => { if (ts.isTemplateSpan(q) && ts.isIdentifier(skip(q.expression)) && P.declsOf(skip(q.expression)).includes(p)) hit = true; }); return hit; }
  /** the markup is written at most once per document */
  function once(n, seen = new Set()) {
    const f = fnOf(n); if (loopAround(n, f)) return false; if (!f) return true; if (seen.has(f)) return true; seen.add(f);
    if (P.callGraph.get(f) && reaches(f, f)) return false;
    if (api.has(f)) return true;
    const calls = F.invocations(f); const par = f.parent;
    if (ts.isCallExpression(par) && par.arguments.includes(f)) return !eachCall(par) && once(par, seen);
    // several callers in one function make several copies
    const per = new Map(); for (const k of calls) { const h = fnOf(k); per.set(h, (per.get(h) ?? 0) + 1); }
    if ([...per.entries()].some(([h, m]) => m > 1 && sameRun(h, calls.filter((k) => fnOf(k) === h)))) return false;
    return calls.every((k) => once(k, seen));
  }
  function sameRun(h, ks) { for (const a of ks) for (const b of ks) if (a !== b && pathFrom(h, a, b, [])) return true; return false; }
  function reaches(a, b) { const seen = new Set(); const st = [...(P.callGraph.get(a) ?? [])]; while (st.length) { const q = st.pop(); if (q === b) return true; if (seen.has(q)) continue; seen.add(q); for (const z of P.callGraph.get(q) ?? []) st.push(z); } return false; }
  function eachCall(k) { return ts.isPropertyAccessExpression(k.expression) && EACH.test(k.expression.name.text); }
  function loopAround(n, f) { let p = n; while (p.parent && p !== f) { const q = p.parent; if ((ts.isIterationStatement(q, false)) && (q.statement === p)) return q; p = q; } return null; }
  /** index-built identifiers: every loop around the definition contributes an index */
  function loopsCovered(d, h) {
    const roots = new Set(); const addRoot = (e) => { let x = skip(e); while (ts.isPropertyAccessExpression(x) || ts.isElementAccessExpression(x)) x = skip(x.expression); if (ts.isIdentifier(x)) for (const q of P.declsOf(x)) roots.add(q); };
    for (const t of h) { if (t.idx) roots.add(t.idx); if (t.ref) addRoot(t.ref); if (t.via) addRoot(t.via); if (t.other && telling(t.other)) { roots.add(t.decl); addRoot(t.other); } if (t.base) roots.add(t.base); }
    const derived = (loop) => { for (const q of roots) if (q && within(q, loop)) return true; return h.some((t) => t.other && telling(t.other) && within(t.other, loop)) || onceIn(h, loop); };
    const nodes = [d.chain, ...(h.find((t) => t.ch)?.ch ?? [])];
    for (const n of nodes) { for (const q of roundsOf(n)) if (!derived(q) && !localConstsVary(n, q, roots)) return false; }
    return true;
  }
  /** a value kept somewhere, as opposed to one worked out (a length, a remainder): only the former tells two rounds of a loop apart */
  function telling(e) { e = skip(e); if (ts.isBinaryExpression(e) && [K.QuestionQuestionToken, K.BarBarToken].includes(e.operatorToken.kind)) return telling(e.left); if (ts.isPropertyAccessExpression(e)) return P.declsOf(e).some((d) => P.files.includes(d.getSourceFile())) && (skip(e.expression).kind === K.ThisKeyword || telling(e.expression) || ts.isCallExpression(skip(e.expression))); if (ts.isElementAccessExpression(e)) return true; if (ts.isIdentifier(e)) return true; if (ts.isCallExpression(e)) return e.arguments.some(telling) || ts.isPropertyAccessExpression(skip(e.expression)) && telling(skip(e.expression).expression); return false; }
  /** loops and per-element callbacks around a node, up to the function they belong to */
  function roundsOf(n) {
    const out = [];
    for (let p = n; p.parent; p = p.parent) {
      const q = p.parent;
      if (ts.isIterationStatement(q, false) && q.statement === p) out.push(q);
      else if (isFn(p) && p !== n) { if ((ts.isArrowFunction(p) || ts.isFunctionExpression(p)) && ts.isCallExpression(q) && q.arguments[0] === p && ts.isPropertyAccessExpression(skip(q.expression)) && EACH.test(skip(q.expression).name.text)) out.push(p); else break; }
    }
    return out;
  }
  function localConstsVary(n, loop, roots) { return [...roots].some((q) => q && within(q, loop)); }
  /** counter read: on every path it is advanced before the function ends or reads it again */
  function advanced(t) {
    const d = t.read, site = t.outer; const f = fnOf(site); if (!f) return true;
    const incs = S.incs.get(d) ?? []; const incFns = new Set(incs.map(fnOf));
    const isInc = (n) => incs.some((q) => n.ast === q || (n.ast && within(n.ast, q) && n.ast !== site)) || (n.kind === "call" && n.ast !== site && P.callees(n.ast).concat(F.targets(n.ast.expression)).some((g) => incFns.has(g) && g !== f && ![...S.incs.get(d)].every((q) => ts.isPostfixUnaryExpression(q) && fnOf(q) === g)));
    const amounts = []; walk(f.body, (q) => { if (ts.isCallExpression(q) && F.targets(q.expression).some((g) => incFns.has(g))) for (const a of q.arguments) amounts.push(a.getText()); });
    const X = new FactPaths(P, T, f, [site], true); let bad = false, started = false;
    // `if (used > 0) advance(used)`: nothing to advance when the amount is zero
    const zero = (s) => s.cond && "value" in s && s.value === false && ts.isBinaryExpression(skip(s.cond)) && skip(s.cond).operatorToken.kind === K.GreaterThanToken && skip(s.cond).right.getText() === "0" && amounts.includes(skip(s.cond).left.getText());
    let start = X.cfg.nodes.filter((n) => n.ast === site); if (!start.length) start = X.cfg.nodes.filter((n) => n.ast && within(n.ast, site)).slice(0, 1);
    if (!start.length) return true;
    const orig = X.edge.bind(X); X.edge = (st, s) => zero(s) ? null : orig(st, s);
    X.explore(null, "-", (n, aux) => {
      if (start.includes(n)) { if (aux === "R" && n.ast === start[0].ast) bad = true; started = true; return "R"; }
      if (aux === "R" && isInc(n)) return "-";
      if (aux === "R" && isOperandInc(n, incs)) return "-";
      return aux;
    }, (k, aux) => { if (aux === "R" && k === "normal") bad = true; });
    void started; return !bad;
  }
  /** `counts[key] ?? 0` and `counts.get(key) ?? 0` */
  function keyed(e) {
    e = skip(e); if (!ts.isBinaryExpression(e) || ![K.QuestionQuestionToken, K.BarBarToken].includes(e.operatorToken.kind) || !ts.isNumericLiteral(skip(e.right))) return null;
    const l = skip(e.left); const box = ts.isElementAccessExpression(l) ? l.expression : ts.isCallExpression(l) && ts.isPropertyAccessExpression(l.expression) && l.expression.name.text === "get" ? l.expression.expression : null;
    const d = box && ts.isIdentifier(skip(box)) ? P.declsOf(skip(box))[0] : null; return d && ts.isVariableDeclaration(d) && d.initializer ? { d, k: skip(ts.isElementAccessExpression(l) ? l.argumentExpression : l.arguments[0]).getText() } : null;
  }
  function keyedAdvanced(e) {
    const { d, k } = keyed(e); const f = fnOf(e); if (!f) return true;
    const isBox = (x) => ts.isIdentifier(skip(x)) && P.declsOf(skip(x)).includes(d);
    const more = (v) => { // the value read plus something
      let hit = false; v = skip(v); if (!ts.isBinaryExpression(v) || v.operatorToken.kind !== K.PlusToken) return false;
      for (const [a, b] of [[v.left, v.right], [v.right, v.left]]) { const lit = skip(b); if (!ts.isNumericLiteral(lit) || Number(lit.text) <= 0) continue; const x = skip(a); if (keyed(x)?.d === d) hit = true; else if (ts.isIdentifier(x)) for (const q of P.declsOf(x)) if (ts.isVariableDeclaration(q) && q.initializer && within(e, q.initializer)) hit = true; }
      return hit;
    };
    const isSet = (q) => (ts.isBinaryExpression(q) && ts.isElementAccessExpression(skip(q.left)) && isBox(skip(q.left).expression) && skip(skip(q.left).argumentExpression).getText() === k && (q.operatorToken.kind === K.PlusEqualsToken || (q.operatorToken.kind === K.EqualsToken && more(q.right)))) ||
      ((ts.isPostfixUnaryExpression(q) || ts.isPrefixUnaryExpression(q)) && q.operator === K.PlusPlusToken && ts.isElementAccessExpression(skip(q.operand)) && isBox(skip(q.operand).expression)) ||
      (ts.isCallExpression(q) && ts.isPropertyAccessExpression(q.expression) && q.expression.name.text === "set" && isBox(q.expression.expression) && q.arguments.length === 2 && skip(q.arguments[0]).getText() === k && more(q.arguments[1]));
    const sets = []; walk(f.body, (q) => { if (isSet(q) && fnOf(q) === f) sets.push(q); });
    if (!sets.length) return false;
    const X = new FactPaths(P, T, f, [e], true); let bad = false; const start = X.cfg.nodes.filter((n) => n.ast && within(n.ast, e) && !["exit", "throw-exit"].includes(n.kind)); if (!start.length) return true;
    const first = start[0], sNodes = new Set(sets.flatMap((q) => { const ns = X.cfg.nodes.filter((n) => n.ast === q); if (ns.length) return ns; let p = q; while (p && !ts.isStatement(p)) { const m = X.cfg.nodes.filter((n) => n.ast === p && n.kind !== "ident"); if (m.length) return m; p = p.parent; } return X.cfg.nodes.filter((n) => n.ast && within(n.ast, q)); }));
    X.explore(null, "-", (n, aux) => { if (sNodes.has(n)) return "-"; if (n === first) { if (aux === "R") bad = true; return "R"; } return aux; }, (kk, aux) => { void kk; void aux; });
    return !bad;
  }
  /** the function is handed a document as text and returns it changed */
  function finished(n) { const f = P.topFn(n); return !!f && /post-processing\//.test(P.rel(f)) && f.parameters.some((p) => P.type(p).flags & ts.TypeFlags.String); }
  /** the count is drawn again while the identifier it gives is in the set of identifiers read from the document */
  function passedOver(t) {
    const f = fnOf(t.site), top = P.topFn(t.site); let hit = false;
    const setOk = (e) => { const ds = P.declsOf(skip(e)); let scan = false; walk(top.body, (q) => { if (ts.isCallExpression(q) && ts.isPropertyAccessExpression(q.expression) && q.expression.name.text === "add" && P.declsOf(skip(q.expression.expression)).some((z) => ds.includes(z)) && fnOf(q) !== f) scan = true; }); for (const z of ds) if (ts.isVariableDeclaration(z) && z.initializer && ts.isNewExpression(skip(z.initializer)) && skip(z.initializer).arguments?.length) scan = true; return scan; };
    walk(f.body, (q) => {
      if (!ts.isIterationStatement(q, false)) return; const conds = []; if (q.kind !== K.ForStatement && q.expression) conds.push(q.expression); if (q.kind === K.ForStatement && q.condition) conds.push(q.condition);
      walk(q.statement, (z) => { if (ts.isIfStatement(z)) conds.push(z.expression); });
      for (const c2 of conds) walk(c2, (z) => { if (ts.isCallExpression(z) && ts.isPropertyAccessExpression(z.expression) && z.expression.name.text === "has" && setOk(z.expression.expression)) hit = true; });
    });
    return hit;
  }
  function isOperandInc(n, incs) { return n.kind === "ident" && incs.some((q) => within(n.ast, q)); }

  // ── custody levels: from the count down to the template ──────────────────
  /** [{fn, node}] outermost first */
  function levels(x) {
    if (x.lv) return x.lv; const t = x.t; const seq = [...t.ch]; const out = [];
    const ascend = (node, target) => { // lexical way out of closures up to `target`
      out.push({ fn: fnOf(node), node }); let f = fnOf(node), guard = 0;
      while (f && target && f !== target && within(f, target) && guard++ < 8) {
        const par = f.parent; let n2 = null;
        if (ts.isCallExpression(par) && par.arguments.includes(f)) n2 = par; else { const k = F.invocations(f).filter((q) => within(q, target)); n2 = k[0] ?? f; }
        out.push({ fn: fnOf(n2), node: n2, each: ts.isCallExpression(par) && par.arguments.includes(f) && eachCall(par) ? f : null, calls: n2 === par ? null : F.invocations(f).filter((q) => fnOf(q) === fnOf(n2)) }); f = fnOf(n2);
      }
    };
    for (let i = 0; i < seq.length; i++) { const nextNode = seq[i + 1]; ascend(seq[i], nextNode ? null : fnOf(t.outer)); }
    return (x.lv = out.reverse());
  }
  function cfgNodes(fn, node) { const c2 = T.cfg(fn); return c2.nodes.filter((n) => n.ast && (n.ast === node || (n.ast.pos >= node.pos && n.ast.end <= node.end && n.ast.getSourceFile() === node.getSourceFile() && !isFn(node))) && !["exit", "throw-exit"].includes(n.kind)); }
  /** nodes during which `node` is evaluated, and the one that completes the construct it is part of */
  function span(fn, node) {
    const inner = cfgNodes(fn, node); const c2 = T.cfg(fn); let done = c2.nodes.filter((n) => n.ast === node && !["exit", "throw-exit", "ident"].includes(n.kind));
    for (let p = node.parent; !done.length && p && p !== fn; p = p.parent) { done = c2.nodes.filter((n) => n.ast === p && ["call", "new", "assign", "decl", "return", "stmt", "await"].includes(n.kind)); if (ts.isStatement(p)) break; }
    if (!done.length) done = inner.slice(-1);
    return { inner: inner.filter((n) => !done.includes(n)), done };
  }
  /** the identifier has this shape only when these alternatives were chosen */
  function take(X, alts) {
    const bad = alts.filter((q) => !alts.some((z) => z.alt === q.alt && z.which !== q.which)).map((q) => ({ c: skip(q.alt.condition), not: !q.which }));
    if (!bad.length) return; const orig = X.edge.bind(X);
    X.edge = (st, s) => s.cond && "value" in s && bad.some((q) => skip(s.cond) === q.c && s.value === q.not) ? null : orig(st, s);
  }
  /** is there a path that completes a and later b without passing a barrier in between */
  function pathFrom(fn, a, b, barriers, alts = []) {
    if (!fn?.body) return false; const A = span(fn, a), B = span(fn, b); if (!A.done.length || !B.done.length) return false;
    const sA = new Set(A.inner), dA = new Set(A.done), sB = new Set(B.inner), dB = new Set(B.done);
    const X = new FactPaths(P, T, fn, [a, b, ...alts.map((q) => q.alt)]); let hit = false; take(X, alts);
    const bar = (n) => barriers.some((q) => n.ast && (n.ast === q || (ts.isIterationStatement(q, false) ? false : n.ast.getSourceFile() === q.getSourceFile() && n.ast.pos >= q.pos && n.ast.end <= q.end)));
    // aux: "-" nothing yet | "s" inside a | "L" a done | "t" a done, inside b
    const r = X.explore(null, "-", (n, aux) => {
      if (hit) return undefined;
      if ((aux === "L" || aux === "t") && bar(n)) aux = "-";
      if (aux === "L" && sB.has(n)) aux = "t";
      if (dB.has(n) && (aux === "t" || (aux === "L" && !sB.size))) { hit = true; return undefined; }
      if ((aux === "-") && sA.has(n)) aux = "s";
      if (dA.has(n) && (aux === "s" || (aux === "-" && !sA.size))) return "L";
      return aux;
    });
    return hit && !r.truncated;
  }
  /** null: not comparable; false: told apart or exclusive; {n,m}: both can happen */
  function clash(x, y) {
    const lx = levels(x), ly = levels(y);
    const same = x.d === y.d && x.h === y.h;
    if (x.d.foreign && y.d.foreign && x.d !== y.d) return null; // pieces of one document, given one namespace
    let i = 0;
    for (; i < lx.length && i < ly.length; i++) {
      const a = lx[i], b = ly[i]; if (a.fn !== b.fn) return null;
      const below = new Set([...lx.slice(i + 1), ...ly.slice(i + 1)].map((q) => q.fn));
      const sk = (h, own) => h.map((t) => t === own ? "‹A›" : isCounter(t) && below.has(localFn(t)) ? "‹*›" : t.idx && [...below].some((f) => f && within(t.idx, f) && f !== a.fn) ? "‹*›" : tokKey(t)).join("");
      if (sk(x.h, x.t) !== sk(y.h, y.t)) return i === 0 ? null : false;
      const bars = barriersAt(a.fn, x), al = [...(x.h.alts ?? []), ...(y.h.alts ?? [])].filter((q) => fnOf(q.alt) === a.fn);
      const nodesA = a.calls?.length ? a.calls : [a.node], nodesB = b.calls?.length ? b.calls : [b.node];
      // repeated by its own callback
      if (a.each && a.node === b.node && !varies(x.h, a.each) && !within(x.t.outer, a.each)) return { n: a.node, m: b.node };
      for (const p of nodesA) for (const q of nodesB) {
        if (p !== q && (pathFrom(a.fn, p, q, bars, al) || pathFrom(a.fn, q, p, bars, al))) return { n: p, m: q };
        if (p === q && pathFrom(a.fn, p, p, bars, al)) return { n: p, m: p };
      }
      if (a.node !== b.node) return false;
    }
    return same ? false : i > 0 ? false : null;
  }
  function varies(h, cb) { return atoms(h).some((t) => (t.idx && within(t.idx, cb)) || [t.ref, t.via].some((e) => e && rootDecls(e).some((d) => within(d, cb))) || (isCounter(t) && within(t.site, cb)) || (t.decl && within(t.decl, cb))); }
  function rootDecls(e) { let x = skip(e); while (ts.isPropertyAccessExpression(x) || ts.isElementAccessExpression(x)) x = skip(x.expression); return ts.isIdentifier(x) ? P.declsOf(x) : []; }
  /** the alternative chosen is the one for the only (or first) iteration */
  function onceIn(h, loop) {
    return (h.alts ?? []).some(({ alt, which }) => {
      if (!within(alt, loop)) return false;
      let c2 = skip(alt.condition), v = which;
      while (ts.isPrefixUnaryExpression(c2) && c2.operator === K.ExclamationToken) { c2 = skip(c2.operand); v = !v; }
      if (ts.isIdentifier(c2)) { const d = P.declsOf(c2)[0]; if (d && ts.isVariableDeclaration(d) && d.initializer && (d.parent.flags & ts.NodeFlags.Const)) c2 = skip(d.initializer); }
      if (!ts.isBinaryExpression(c2)) return false;
      const o = c2.operatorToken.getText(), n = skip(c2.right).getText(), l = skip(c2.left);
      const sizes = (e) => { e = skip(e); return (ts.isPropertyAccessExpression(e) && /^(length|size)$/.test(e.name.text)) || (ts.isBinaryExpression(e) && e.operatorToken.kind === K.AsteriskToken && sizes(e.left) && sizes(e.right)); };
      const constSize = (e) => { if (sizes(e)) return true; const d = ts.isIdentifier(e) ? P.declsOf(e)[0] : null; return !!d && ts.isVariableDeclaration(d) && !!d.initializer && (d.parent.flags & ts.NodeFlags.Const) && sizes(d.initializer); };
      if (constSize(l)) return v ? (/^={2,3}$/.test(o) && n === "1") || (o === "<=" && n === "1") || (o === "<" && n === "2") : (o === ">" && n === "1") || (o === ">=" && n === "2") || (/^!==?$/.test(o) && n === "1");
      if (!ts.isIdentifier(l) || !P.declsOf(l).some((d) => within(d, loop) || (ts.isParameter(d) && within(d, loop)))) return false;
      return v ? (/^={2,3}$/.test(o) && n === "0") || (o === "<" && n === "1") || (o === "<=" && n === "0") : (/^!==?$/.test(o) && n === "0") || (o === ">" && n === "0") || (o === ">=" && n === "1");
    });
  }
  /** what makes the identifier different when passed again: drawing the count anew, another index */
  function barriersAt(fn, x) {
    const out = [];
    for (const { alt } of x.h.alts ?? []) for (let p = alt; p && p !== fn; p = p.parent) if (ts.isIterationStatement(p, false) && fnOf(p) === fn && onceIn(x.h, p)) out.push(p);
    for (const t of atoms(x.h)) {
      if (isCounter(t)) { for (const n of [t.outer, t.site]) if (fnOf(n) === fn) out.push(n); if (localFn(t) === fn || t.read) for (const q of S.incs.get(t.fresh ?? t.read) ?? []) if (fnOf(q) === fn) out.push(q); }
      const ds = [t.idx, ...(t.ref ? rootDecls(t.ref) : []), ...(t.via ? rootDecls(t.via) : []), t.decl, ...(t.other ? rootDecls(t.other) : [])];
      for (const d of ds) if (d && fnOf(d) === fn) { const p = d.parent?.parent; if (p && ts.isIterationStatement(p, false)) out.push(p); else if (d.initializer) out.push(d); }
    }
    return out;
  }
  /** true | node of an uncovered reference | null (definition and reference meet in different functions) */
  function covered(r, h, m) {
    const t = h.find(isCounter); if (!t) return null;
    const lr = levels({ t, h, d: r }); const f = lr[0]?.fn; if (!f?.body) return null;
    const D = []; let foreign = false;
    for (const { d, h: dh } of m) { const dt = dh.find(isCounter); if (!dt || S.key([dt]) !== S.key([t])) continue; const lv = levels({ t: dt, h: dh, d }); if (lv[0]?.fn === f) D.push({ lv, d }); else foreign = true; }
    if (!D.length) return null;
    void foreign;
    // compare at the outermost level, and at inner levels while both run through the same call
    let i = 0; let Ds = D;
    const R = lr;
    while (Ds.some((q) => q.lv[i] && R[i] && q.lv[i].node === R[i].node && q.lv.length > i + 1 && R.length > i + 1 && q.lv[i + 1].fn === R[i + 1].fn)) { Ds = Ds.filter((q) => q.lv[i].node === R[i].node && q.lv[i + 1]?.fn === R[i + 1].fn); i++; }
    const fn = R[i].fn; if (!fn?.body) return null;
    if (i !== R.length - 1) return null; // handed on: whoever receives it decides whether it is written
    const rn = cfgNodes(fn, R[i].node); if (!rn.length) return null;
    const dn = Ds.flatMap((q) => q.lv[i] && q.lv[i].fn === fn ? (q.lv[i].calls?.length ? q.lv[i].calls : [q.lv[i].node]).flatMap((z) => cfgNodes(fn, z)) : []); if (!dn.length) return null;
    if (dn.some((z) => rn.includes(z))) return true;
    const start = i === 0 ? cfgNodes(fn, t.outer) : [];
    const X = new FactPaths(P, T, fn, [R[i].node, ...Ds.map((q) => q.lv[i].node), t.outer], true); let bad = false; take(X, (h.alts ?? []).filter((q) => fnOf(q.alt) === fn));
    const rs = new Set(rn), dset = new Set(dn), as = new Set(start);
    const res = X.explore(null, start.length ? "-" : "A", (n, aux) => {
      if (as.has(n) && !aux.includes("D")) aux = "A"; else if (as.has(n) && n.ast === t.outer) aux = "A";
      if (aux === "-") return aux;
      if (dset.has(n)) return "D"; if (rs.has(n)) return aux === "D" ? "D" : "R"; return aux;
    }, (k, aux) => { if (aux === "R" && k === "normal") bad = true; });
    if (res.truncated) return null;
    return bad ? R[i].node : true;
  }
}
