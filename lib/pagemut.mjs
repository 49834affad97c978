// Page mutations made by code evaluated in the captured page, keyed by the
// marker (attribute, global registry key, injected node) that identifies them,
// and host-side summaries of which calls make and which calls undo them.
import { ts, K, isFn, skip, walk } from "./program.mjs";
import { Feasible } from "./paths.mjs";

const SET = /^(setAttribute|toggleAttribute|setProperty|appendChild|insertBefore|append|prepend|replaceWith|replaceChildren|insertAdjacentHTML|insertAdjacentElement|before|after)$/;
const UNSET = /^(removeAttribute|removeProperty|remove|removeChild)$/;
const TOK = /data-domotion-[a-z-]+[a-z]|__domotion\w+/g;

export class PageMut {
  constructor(P, F, C, T) { this.P = P; this.F = F; this.C = C; this.T = T; this.memo = new Map(); this.siteOf = new Map(); for (const s of C.sites) if (s.fns.length && s.x !== "toString") this.siteOf.set(s.call, s); this.sum = new Map(); this.evMemo = new Map(); this.ids = new Map(); }
  // ---- page side -------------------------------------------------------
  globalish(e) {
    e = skip(e); if (!ts.isIdentifier(e)) return false; if (e.text === "globalThis" || e.text === "window") return true;
    return this.P.declsOf(e).some((d) => ts.isVariableDeclaration(d) && d.initializer && (() => { const i = skip(d.initializer); return ts.isIdentifier(i) && (i.text === "globalThis" || i.text === "window"); })());
  }
  /** keys named by an expression evaluated in page function fn: literal tokens and data fields */
  #keysIn(fn, e, depth = 0) {
    const out = new Set(); if (!e) return out;
    walk(e, (n) => {
      if (isFn(n)) return false;
      if (ts.isStringLiteralLike(n) || n.kind === K.TemplateHead || n.kind === K.TemplateMiddle || n.kind === K.TemplateTail) for (const t of (n.text ?? "").match(TOK) ?? []) out.add("t:" + t);
      if (ts.isIdentifier(n)) {
        if (ts.isPropertyAccessExpression(n.parent) && n.parent.name === n) {
          if (/^__domotion/.test(n.text)) out.add("t:" + n.text);
          else if (/^domotion[A-Z]/.test(n.text)) out.add("t:data-" + n.text.replace(/[A-Z]/g, (c) => "-" + c.toLowerCase()));
          return;
        }
        for (const d of this.P.declsOf(n)) {
          if (ts.isParameter(d) && fn.parameters.includes(d)) out.add("f:*");
          else if (ts.isBindingElement(d) && d.parent.parent && fn.parameters.includes(d.parent.parent)) out.add("f:" + (d.propertyName ?? d.name).getText());
          else if (ts.isVariableDeclaration(d) && ts.isForOfStatement(d.parent.parent) && depth < 3 && (this.P.type(n).flags & ts.TypeFlags.StringLike)) { for (const k of this.#keysIn(fn, d.parent.parent.expression, depth + 1)) out.add(k); }
          else if (ts.isVariableDeclaration(d) && d.initializer && depth < 3 && (this.P.type(n).flags & ts.TypeFlags.StringLike || this.#strArray(n))) for (const k of this.#keysIn(fn, d.initializer, depth + 1)) out.add(k);
        }
      }
    });
    return out;
  }
  #strArray(n) { const t = this.P.type(n); const c = this.P.checker; const e = c.getIndexTypeOfType?.(t, ts.IndexKind.Number); return !!e && !!(e.flags & ts.TypeFlags.StringLike); }
  /** marker attributes the bundled walk leaves on live elements */
  get walkMarkers() {
    if (this._wm) return this._wm; this._wm = new Set();
    for (const c of this.P.calls) { if (!ts.isCallExpression(c) || !this.C.pageFiles.has(c.getSourceFile())) continue; const e = skip(c.expression);
      if (ts.isPropertyAccessExpression(e) && /^(setAttribute|toggleAttribute)$/.test(e.name.text) && c.arguments[0]) walk(c.arguments[0], (n) => { if (ts.isStringLiteralLike(n)) for (const t of n.text.match(TOK) ?? []) this._wm.add("t:" + t); if (ts.isIdentifier(n)) for (const d of this.P.declsOf(n)) if (ts.isVariableDeclaration(d) && d.initializer && ts.isStringLiteralLike(skip(d.initializer))) for (const t of skip(d.initializer).text.match(TOK) ?? []) this._wm.add("t:" + t); }); }
    return this._wm;
  }
  /** evaluates the bundled capture walk: `(${BUNDLE})(args)` */
  isWalkSite(call) {
    if (!ts.isCallExpression(call)) return false; const e = skip(call.expression); if (!ts.isPropertyAccessExpression(e) || e.name.text !== "evaluate") return false;
    const strs = (x, depth = 0) => { let hit = false; if (depth > 3 || !x) return false; walk(x, (n) => { if (ts.isIdentifier(n)) for (const d of this.P.declsOf(n)) { if (d.getSourceFile().fileName.includes("script.generated")) hit = true; else if (ts.isVariableDeclaration(d) && d.initializer && !isFn(skip(d.initializer)) && (this.P.type(n).flags & ts.TypeFlags.StringLike)) hit ||= strs(d.initializer, depth + 1); } }); return hit; };
    const a = call.arguments[0] && skip(call.arguments[0]); return !!a && !isFn(a) && strs(a);
  }
  #guard(fn, n) { // {field, value} when n runs only under `if (dataField)`
    let c = n, p = n.parent;
    while (p && c !== fn.body) {
      if (ts.isIfStatement(p) && p.expression !== c) { const x = skip(p.expression); let neg = false, y = x; if (ts.isPrefixUnaryExpression(x) && x.operator === K.ExclamationToken) { neg = true; y = skip(x.operand); }
        if (ts.isIdentifier(y) && (this.P.type(y).flags & ts.TypeFlags.BooleanLike || this.P.type(y).isUnion?.())) for (const d of this.P.declsOf(y)) if (ts.isBindingElement(d) && fn.parameters.includes(d.parent.parent)) return { field: (d.propertyName ?? d.name).getText(), value: (p.thenStatement === c) !== neg }; }
      c = p; p = p.parent;
    }
    return null;
  }
  facts(fn) {
    let m = this.memo.get(fn); if (m) return m;
    const P = this.P; m = { sets: [], unsets: [], all: new Set(), saved: [], stores: 0 }; this.memo.set(fn, m);
    m.all = this.#keysIn(fn, fn.body);
    walk(fn.body, (n) => {
      let set = false, unset = false, keyExpr = null;
      if (ts.isCallExpression(n)) {
        const e = skip(n.expression);
        if (ts.isPropertyAccessExpression(e)) {
          const x = P.externalName(e) ?? ""; const untyped = !!(P.type(e.expression).flags & ts.TypeFlags.Any) && /^(set|remove)(Attribute|Property)$/.test(e.name.text);
          const dom = untyped || (/^lib:/.test(x) && !/^lib:(Array|Map|Set|String|Weak|URLSearch|Headers|FormData|ReadonlyArray)/.test(x));
          if (dom && SET.test(e.name.text)) { set = true; if (/Attribute/.test(e.name.text)) keyExpr = n.arguments[0]; }
          if (dom && UNSET.test(e.name.text)) { unset = true; keyExpr = /Attribute/.test(e.name.text) ? n.arguments[0] : e.name.text === "remove" ? this.#outerChain(n) : null; }
          if (/^lib:ObjectConstructor\.defineProperty$/.test(x)) { set = true; keyExpr = n.arguments[1]; }
          if (/^lib:Reflect\.deleteProperty$/.test(x)) { unset = true; keyExpr = n; }
        }
      }
      if (ts.isDeleteExpression(n)) { unset = true; keyExpr = n.expression; }
      if (ts.isBinaryExpression(n) && n.operatorToken.kind >= K.FirstAssignment && n.operatorToken.kind <= K.LastAssignment) {
        const l = skip(n.left);
        if ((ts.isElementAccessExpression(l) || ts.isPropertyAccessExpression(l)) && this.globalish(l.expression)) {
          const isUndef = ts.isIdentifier(skip(n.right)) && skip(n.right).text === "undefined";
          if (isUndef) { unset = true; keyExpr = l; }
          else if (!(ts.isPropertyAccessExpression(l) && l.name.text === "__name")) { set = true; keyExpr = l; m.stores++; }
        }
      }
      if (set || unset) { const rec = { node: n, keys: keyExpr ? this.#keysIn(fn, keyExpr) : new Set(), guard: this.#guard(fn, n) }; (set ? m.sets : m.unsets).push(rec); }
    });
    const collect = (list) => { const s = new Set(); for (const r of list) for (const k of r.keys) s.add(k); return s; };
    m.setKeys = collect(m.sets); if (m.sets.length && !m.setKeys.size) m.setKeys = m.all;
    m.unsetKeys = collect(m.unsets); if (m.unsets.length && !m.unsetKeys.size) m.unsetKeys = m.all;
    // an undo routine: it deletes the registry it reads and stores none; what it sets is the saved state
    const deletesRegistry = m.unsets.some((r) => ts.isDeleteExpression(r.node) || /deleteProperty/.test(r.node.getText().slice(0, 40)));
    const removesMarkers = m.unsets.length && !m.sets.length;
    const g = new Set([...m.sets, ...m.unsets].map((r) => r.guard ? r.guard.field : "-"));
    m.mode = m.sets.length && m.unsets.length && g.size === 1 && !g.has("-") ? [...g][0] : null;
    if (m.mode) m.modeSet = m.sets.some((r) => r.guard.value) && m.unsets.some((r) => !r.guard.value) ? true : false;
    m.isUndo = !m.mode && !!m.unsets.length && (removesMarkers || (deletesRegistry && m.stores === 0));
    m.isDo = !m.mode && !!m.sets.length && !m.isUndo;
    return m;
  }
  #outerChain(n) { // document.querySelectorAll(`…`).forEach((x) => x.remove()) — the whole statement names the marker
    let p = n; while (p.parent && !ts.isExpressionStatement(p) && !ts.isVariableStatement(p)) { const q = p.parent; if (isFn(q) && !(ts.isCallExpression(q.parent) && q.parent.arguments.includes(q))) break; if (ts.isBlock(q) || ts.isForOfStatement(q)) { if (ts.isForOfStatement(q)) return q.expression; if (ts.isBlock(q) && ts.isForOfStatement(q.parent)) return q.parent.expression; if (!(isFn(q.parent) && ts.isCallExpression(q.parent.parent))) break; } p = q; }
    return p;
  }
  // ---- host side -------------------------------------------------------
  idOf(d) { let i = this.ids.get(d); if (!i) this.ids.set(d, i = this.ids.size + 1); return i; }
  /** root key declarations an expression denotes on the host */
  hostKeys(e, field = null, depth = 0) {
    const out = new Set(); if (!e || depth > 5) return out; e = skip(e);
    if (ts.isObjectLiteralExpression(e)) {
      for (const p of e.properties) { const nm = p.name && ts.isIdentifier(p.name) ? p.name.text : null; if (field && field !== "*" && nm !== field) continue;
        const v = ts.isPropertyAssignment(p) ? p.initializer : ts.isShorthandPropertyAssignment(p) ? p.name : null; if (v) for (const k of this.hostKeys(v, null, depth + 1)) out.add(k); }
      return out;
    }
    walk(e, (n) => {
      if (isFn(n)) return false;
      if (ts.isStringLiteralLike(n) || n.kind === K.TemplateHead) for (const t of (n.text ?? "").match(TOK) ?? []) { if (!/_$/.test(t)) out.add("t:" + t); }
      if (ts.isIdentifier(n) && !(ts.isPropertyAccessExpression(n.parent) && n.parent.name === n)) for (const d of this.P.declsOf(n)) {
        if (!this.P.files.includes(d.getSourceFile())) continue;
        if (ts.isParameter(d)) out.add({ d, field: field && field !== "*" ? field : null });
        else if (ts.isVariableDeclaration(d) && d.initializer && ts.isIdentifier(d.name)) {
          const sub = this.hostKeys(d.initializer, field, depth + 1); const decls = [...sub].filter((x) => typeof x !== "string");
          if (this.P.type(n).flags & ts.TypeFlags.StringLike && !decls.length) { out.add({ d, field: null }); for (const s of sub) out.add(s); }
          else for (const s of sub) out.add(s);
        } else if (ts.isVariableDeclaration(d) || ts.isBindingElement(d)) out.add({ d, field: null });
      }
      if (ts.isPropertyAccessExpression(n) && ts.isIdentifier(skip(n.expression)) && !(ts.isCallExpression(n.parent) && n.parent.expression === n)) { for (const d of this.P.declsOf(skip(n.expression))) if ((ts.isVariableDeclaration(d) || ts.isParameter(d)) && this.P.files.includes(d.getSourceFile())) out.add({ d, field: n.name.text }); return false; }
    });
    return out;
  }
  str(k) { return typeof k === "string" ? k : `d:${this.idOf(k.d)}${k.field ? "." + k.field : ""}`; }
  /** map the page-side keys of a site to host keys */
  mapKeys(site, keys) {
    const m = new Map();
    for (const k of keys) {
      if (k.startsWith("t:")) m.set(k, k);
      else { const f = k.slice(2); if (site.data) for (const h of this.hostKeys(site.data, f === "*" ? null : f)) m.set(this.str(h), h); }
    }
    // element handles (frame elements, injected style tags) identify what they mutate by themselves
    const e = skip(site.call.expression);
    if (!m.size && ts.isPropertyAccessExpression(e)) { let r = skip(e.expression); const t = this.P.type(r); const nm = (t.isUnion?.() ? t.types : [t]).some((u) => /Handle$/.test(u.symbol?.name ?? "")); if (nm && ts.isIdentifier(r)) for (let d of this.P.declsOf(r)) { const fo = d.parent?.parent; if (ts.isVariableDeclaration(d) && fo && ts.isForOfStatement(fo) && ts.isIdentifier(skip(fo.expression))) d = this.P.declsOf(skip(fo.expression))[0] ?? d; m.set(this.str({ d, field: null }), { d, field: null }); } }
    return m;
  }
  /** {do: Map key, undo: Map key, exempt} for one call node; own = direct only */
  direct(call) {
    const site = this.siteOf.get(call); if (!site) return null;
    const doK = new Map(), undoK = new Map(); let unkeyed = false, mode = null, some = false;
    for (const f of site.fns) {
      const x = this.facts(f);
      if (x.isDo) { some = true; const k = this.mapKeys(site, x.setKeys); if (!k.size) unkeyed = true; for (const [a, b] of k) doK.set(a, b); }
      if (x.isUndo) { some = true; for (const [a, b] of this.mapKeys(site, x.unsetKeys)) undoK.set(a, b); }
      if (x.mode) { some = true; const all = this.mapKeys(site, new Set([...x.setKeys, ...x.unsetKeys].filter((k) => k !== "f:" + x.mode)));
        mode = { expr: this.#dataField(site, x.mode), keys: all, setWhen: x.sets[0].guard.value }; }
    }
    return some ? { do: doK, undo: undoK, mode, unkeyed, site } : null;
  }
  #dataField(site, f) {
    const d = site.data && skip(site.data); if (!d || !ts.isObjectLiteralExpression(d)) return null;
    for (const p of d.properties) if (p.name?.getText() === f) return ts.isPropertyAssignment(p) ? p.initializer : p.name;
    return null;
  }
  #constBool(e) { e = e && skip(e); return e?.kind === K.TrueKeyword ? true : e?.kind === K.FalseKeyword ? false : null; }
  #sub(k, fn, call) { // substitute fn's parameters by call's arguments
    if (typeof k === "string") return [k];
    const i = ts.isParameter(k.d) ? fn.parameters.indexOf(k.d) : -1;
    if (i < 0) return [k];
    const a = call.arguments?.[i]; if (!a) return [];
    return [...this.hostKeys(a, k.field)];
  }
  /** events of a call expression: direct evaluate, callee summaries, inline closures */
  events(call) {
    let ev = this.evMemo.get(call); if (ev) return ev;
    ev = { directDo: new Map(), leakN: new Map(), leakX: new Map(), undo: new Map(), src: new Map(), modeParam: [] };
    this.evMemo.set(call, ev);
    if (this.isWalkSite(call)) { for (const t of this.walkMarkers) { ev.directDo.set(t, t); ev.src.set(t, call); } return ev; }
    const d = this.direct(call);
    if (d) {
      for (const [a, b] of d.do) { ev.directDo.set(a, b); ev.src.set(a, call); }
      for (const [a, b] of d.undo) ev.undo.set(a, b);
      if (d.mode) {
        const v = this.#constBool(d.mode.expr);
        if (v === null) { const p = d.mode.expr && this.P.declsOf(skip(d.mode.expr)).find(ts.isParameter); ev.modeParam.push({ param: p, keys: d.mode.keys, setWhen: d.mode.setWhen, src: call }); }
        else if (v === d.mode.setWhen) for (const [a, b] of d.mode.keys) { ev.directDo.set(a, b); ev.src.set(a, call); } else for (const [a, b] of d.mode.keys) ev.undo.set(a, b);
      }
      return ev;
    }
    const e = skip(call.expression);
    if (ts.isPropertyAccessExpression(e) && e.name.text === "addStyleTag") { // keyed by the variable receiving the handle
      let p = call.parent; while (p && (ts.isAwaitExpression(p) || (ts.isParenthesizedExpression(p) || ts.isAsExpression(p) || ts.isSatisfiesExpression(p)))) p = p.parent;
      const k = ts.isVariableDeclaration(p) ? p : ts.isBinaryExpression(p) && p.operatorToken.kind === K.EqualsToken ? this.P.declsOf(skip(p.left))[0] : ts.isCallExpression(p) && ts.isPropertyAccessExpression(skip(p.expression)) && skip(p.expression).name.text === "push" ? this.P.declsOf(skip(skip(p.expression).expression))[0] : null;
      const key = k ? { d: k, field: null } : { d: call, field: null };
      ev.directDo.set(this.str(key), key); ev.src.set(this.str(key), call); return ev;
    }
    for (const g of this.P.callees(call)) if (g.body && !this.C.inPage(g)) this.#apply(ev, this.summary(g), g, call);
    for (const a of call.arguments ?? []) { const f = skip(a); if (isFn(f) && f.body && !this.siteOf.has(call)) this.#apply(ev, this.summary(f), null, call); }
    return ev;
  }
  #apply(ev, s, g, call) {
    const put = (m, from) => { for (const [, k] of from) for (const h of g ? this.#sub(k, g, call) : [k]) m.set(this.str(h), h); };
    put(ev.leakN, s.leakN); put(ev.leakX, s.leakX); put(ev.undo, s.undo);
    for (const [a, k] of [...s.leakN, ...s.leakX]) for (const h of g ? this.#sub(k, g, call) : [k]) ev.src.set(this.str(h), s.src.get(a) ?? call);
    for (const mp of s.modeParam) {
      const i = g && mp.param ? g.parameters.indexOf(mp.param) : -1;
      if (i < 0) { ev.modeParam.push(mp); continue; }
      const v = this.#constBool(call.arguments?.[i]);
      const keys = new Map(); for (const [, k] of mp.keys) for (const h of this.#sub(k, g, call)) keys.set(this.str(h), h);
      if (v === null) { const p = call.arguments?.[i] && this.P.declsOf(skip(call.arguments[i])).find(ts.isParameter); ev.modeParam.push({ param: p, keys, setWhen: mp.setWhen, src: mp.src }); }
      else if (v === mp.setWhen) for (const [a, b] of keys) { ev.leakN.set(a, b); ev.leakX.set(a, b); ev.src.set(a, mp.src); } else for (const [a, b] of keys) ev.undo.set(a, b);
    }
  }
  /** undo keys anywhere inside a node (closures included) */
  undoIn(node) {
    const out = new Set();
    const add = (n) => walk(n, (q) => {
      if (ts.isCallExpression(q)) for (const [a] of this.events(q).undo) out.add(a);
      if (ts.isIdentifier(q) && !(ts.isPropertyAccessExpression(q.parent) && q.parent.name === q)) for (const d of this.P.declsOf(q)) {
        const f = isFn(d) ? d : ts.isVariableDeclaration(d) && d.initializer && isFn(skip(d.initializer)) ? skip(d.initializer) : null;
        if (f?.body && !this.C.inPage(f)) for (const [a] of this.summary(f).undo) out.add(a);
      }
    });
    add(node); return out;
  }
  summary(fn) {
    let s = this.sum.get(fn); if (s) return s;
    s = { leakN: new Map(), leakX: new Map(), undo: new Map(), src: new Map(), modeParam: [] }; this.sum.set(fn, s);
    if (!fn.body || this.C.inPage(fn) || this.C.pageFiles.has(fn.getSourceFile())) return s;
    const calls = []; walk(fn.body, (n) => { if (isFn(n)) return !ts.isCallExpression(n.parent) ? false : false; if (ts.isCallExpression(n)) calls.push(n); });
    let any = false;
    for (const c of calls) { const ev = this.events(c); for (const [a, b] of ev.undo) s.undo.set(a, b); for (const mp of ev.modeParam) s.modeParam.push(mp); if (ev.directDo.size || ev.leakN.size || ev.leakX.size) any = true; }
    if (!any) return s;
    // one exploration per key
    const keys = new Map(); for (const c of calls) { const ev = this.events(c); for (const m of [ev.directDo, ev.leakN, ev.leakX]) for (const [a, b] of m) keys.set(a, [b, ev.src.get(a) ?? c]); }
    const fe = new Feasible(this.P, this.T, fn);
    // `ok = await evaluate(…)`: a false result means the page returned before changing anything
    const deadFalse = new Set();
    for (const c of calls) { const d = this.direct(c); if (!d?.do.size) continue; let p = c.parent; while (ts.isAwaitExpression(p) || (ts.isParenthesizedExpression(p) || ts.isAsExpression(p) || ts.isSatisfiesExpression(p))) p = p.parent;
      const v = ts.isVariableDeclaration(p) ? p : ts.isBinaryExpression(p) && p.operatorToken.kind === K.EqualsToken ? this.P.declsOf(skip(p.left))[0] : null; if (!v) continue;
      const ok = d.site.fns.every((f) => { const first = Math.min(...this.facts(f).sets.filter((r) => r.keys.size).map((r) => r.node.pos)); return this.F.returnsOf(f).every((r) => skip(r).kind === K.TrueKeyword || (skip(r).kind === K.FalseKeyword && r.pos < first)); });
      if (ok) deadFalse.add(v); }
    const strip = (n) => { let x = skip(n); while (ts.isAwaitExpression(x)) x = skip(x.expression); return x; };
    for (const [key, [kobj, src]] of keys) {
      const evAt = (n, field) => n && ts.isCallExpression(n) && this.events(n)[field].has(key);
      // the call an await completes, possibly through .catch/.then
      const awaited = (aw) => { let x = strip(aw.expression); const list = [x]; while (ts.isCallExpression(x) && ts.isPropertyAccessExpression(skip(x.expression)) && ["catch", "then", "finally"].includes(skip(x.expression).name.text)) { x = strip(skip(x.expression).expression); list.push(x); } return list; };
      const isAwaited = (c) => { let p = c.parent, ch = c; while (p && (ts.isParenthesizedExpression(p) || ts.isPropertyAccessExpression(p) || (ts.isCallExpression(p) && p.expression === ch) || ts.isAsExpression(p))) { ch = p; p = p.parent; } return p && ts.isAwaitExpression(p); };
      let undoes = (n) => evAt(n, "undo");
      fe.explore("-", (n, aux) => {
        if (aux === "A" && n.kind === "loop" && (ts.isForOfStatement(n.ast)) && this.undoIn(n.ast.statement).has(key)) return "-"; // releases each element it acquired
        if (n.kind === "call") {
          if (undoes(n.ast) && !this.events(n.ast).leakN.has(key) && !this.events(n.ast).directDo.has(key)) return "-";
          if (evAt(n.ast, "leakX")) return "A";
          if ((evAt(n.ast, "leakN") || evAt(n.ast, "directDo")) && !isAwaited(n.ast)) return "A";
        }
        if (n.kind === "await") for (const c of awaited(n.ast)) {
          if (evAt(c, "leakN") || evAt(c, "directDo")) return "A";
          if (evAt(c, "leakX") && aux === "A" && !evAt(c, "leakN")) return "-";
        }
        if (n.kind === "return" && aux === "A" && n.ast) { const ex = ts.isReturnStatement(n.ast) ? n.ast.expression : n.ast; if (ex) { const x = strip(ex); if (!(ts.isCallExpression(x) && (evAt(x, "leakN") || evAt(x, "directDo"))) && this.undoIn(ex).has(key)) return "-"; if (ts.isIdentifier(x) && this.P.declsOf(x).some((d) => ts.isVariableDeclaration(d) && d.initializer && this.undoIn(d.initializer).has(key))) return "-"; } }
        return aux;
      }, (kind, aux, rec) => {
        if (aux !== "A") return;
        (kind === "exception" ? s.leakX : s.leakN).set(key, kobj); s.src.set(key, src);
        if (!s.via) s.via = new Map(); if (!s.via.has(key)) { let q = rec.prev; while (q && !["call", "await", "return", "throw"].includes(q.n.kind)) q = q.prev; s.via.set(key, [kind, q?.n.ast ?? null]); }
      }, { auxExc: (n, aux, a) => n.kind === "await" ? aux : a,
        edge: (e, aux) => { if (aux !== "A" || !e.cond || !("value" in e)) return true; const c = skip(e.cond); const neg = ts.isPrefixUnaryExpression(c) && c.operator === K.ExclamationToken; const y = neg ? skip(c.operand) : c; return !(ts.isIdentifier(y) && this.P.declsOf(y).some((d) => deadFalse.has(d)) && e.value === neg); } });
    }
    // a routine that may itself leave the change behind does not count as undoing it
    for (const k of s.leakN.keys()) s.undo.delete(k);
    return s;
  }
}
