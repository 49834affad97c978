import { ts, K, isFn, skip, walk } from "../lib/program.mjs";
import { Guards } from "../lib/guards.mjs";
import { Feasible } from "../lib/paths.mjs";
import { mayBeString } from "../lib/sources.mjs";

export const rule = "Every listen call on an HTTP/TCP server names a loopback address. Request data (URL, headers, body chunks) is followed by backward value flow from every file-system path operand and process argument: it may arrive there only through a character-class filter that leaves no path separator. Every parsed body is consumed only by a schema's parse/safeParse, every body accumulation is behind a size comparison. Every path through every request handler, exceptional ones included, ends the response, and no path ends it twice.";
export const trusted = ["value-flow engine (lib/flow.mjs)", "may-throw model (lib/throws.mjs)"];

export const fixtures = {
  "__verif_fixture_p13.ts": `
import { createServer, type IncomingMessage, type ServerResponse } from "node:http";
import { readFileSync, writeFileSync } from "node:fs";
import { join } from "node:path";
import { z } from "zod";
export function anyAddress(port: number): void { const s = createServer(okEnds); s.on("error", () => {}); s.listen(port, () => {}); }
export function wildcard(port: number): void { const s = createServer(okEnds); s.on("error", () => {}); s.listen(port, "0.0.0.0"); }
export function okLoopback(port: number): void { const host = "127.0.0.1"; const s = createServer(okEnds); s.on("error", () => {}); s.listen({ port, host }); }
export function okEnds(req: IncomingMessage, res: ServerResponse): void { if (req.url === "/") { res.writeHead(200); res.end("x"); return; } res.writeHead(404); res.end(); }
export function forgets(req: IncomingMessage, res: ServerResponse): void { if (req.url === "/") { res.writeHead(200); res.end("x"); return; } if (req.method === "POST") return; res.end(); }
export function twice(req: IncomingMessage, res: ServerResponse): void { if (req.url === "/") { res.end("x"); } res.end(); }
export function throwsOut(req: IncomingMessage, res: ServerResponse): void { const b = readFileSync("/fixed"); res.end(b); }
export function traversal(req: IncomingMessage, res: ServerResponse): void { try { res.end(readFileSync(join("/srv", req.url ?? ""))); } catch { res.end(); } }
export function okSlug(req: IncomingMessage, res: ServerResponse): void { try { writeFileSync(join("/srv", (req.url ?? "").replace(/[^a-z0-9]+/gi, "-")), "x"); } catch { /* ignore */ } res.end(); }
const FixBody = z.object({ name: z.string() });
export function okSchemaSlug(req: IncomingMessage, res: ServerResponse): void { try { req.on("data", (c: Buffer) => { try { const r = FixBody.safeParse(JSON.parse(c.toString())); if (r.success) writeFileSync(join("/srv", r.data.name.replace(/[^a-z0-9]+/gi, "-")), "x"); } catch { /* ignore */ } }); } catch { /* ignore */ } res.end(); }
export function schemaPath(req: IncomingMessage, res: ServerResponse): void { req.on("data", (c: Buffer) => { try { const r = FixBody.safeParse(JSON.parse(c.toString())); if (r.success) writeFileSync(join("/srv", r.data.name), "x"); } catch { /* ignore */ } }); res.end(); }
export function rawBody(req: IncomingMessage, res: ServerResponse): void { let s = ""; req.on("data", (c: Buffer) => { s += c.toString(); }); req.on("end", () => { try { const v = JSON.parse(s) as { a: string }; res.end(v.a); } catch { res.end(); } }); }
`,
};

export function run(ctx) {
  const { P, F, T } = ctx; const G = new Guards(P, F, T);
  const cnt = (n, k) => { if (!ctx.isFixture(n)) ctx.count(k); };
  const typeNameOf = (n) => { const t = P.type(n); return [t, ...(t.isUnion?.() ? t.types : [])].map((u) => u.symbol?.name).filter(Boolean); };
  const isReq = (n) => typeNameOf(n).includes("IncomingMessage");
  const isRes = (n) => typeNameOf(n).includes("ServerResponse");
  // ── loopback ────────────────────────────────────────────────────────────
  const LOOP = /^(127\.0\.0\.1|::1|localhost)$/;
  const leaves = (e) => { // constant values an expression may take; null when not constant
    const out = []; let open = false;
    const go = (x, d) => { x = skip(x); if (ts.isStringLiteralLike(x)) out.push(x.text); else if (ts.isConditionalExpression(x)) { go(x.whenTrue, d); go(x.whenFalse, d); } else if (ts.isIdentifier(x) && d < 4) { const v = P.declsOf(x)[0]; if (v && ts.isVariableDeclaration(v) && v.initializer && v.parent.flags & ts.NodeFlags.Const) go(v.initializer, d + 1); else open = true; } else open = true; };
    go(e, 0); return open ? null : out;
  };
  for (const c of P.calls) {
    if (!ts.isCallExpression(c)) continue; const x = P.externalName(c.expression) ?? "";
    if (!/:(Server|HttpServer)\.listen$/.test(x)) continue;
    cnt(c, "listen calls");
    let host = null; const a0 = c.arguments[0] && skip(c.arguments[0]);
    if (a0 && ts.isObjectLiteralExpression(a0)) { const p = a0.properties.find((q) => q.name?.text === "host"); host = p ? (ts.isPropertyAssignment(p) ? p.initializer : p.name) : null; }
    else host = c.arguments.slice(1).find((a) => !P.fnsOfExpr(a).length && mayBeString(P, a) || ts.isStringLiteralLike(skip(a)));
    let vals = host ? (ts.isIdentifier(host) && ts.isShorthandPropertyAssignment(host.parent) ? leavesOfDecls(P.declsOf(host)) : leaves(host)) : null;
    ctx.oblige(!!vals?.length && vals.every((v) => LOOP.test(v)), c, "loopback", P.fnId(P.enclosingFn(c)), "server listens on an address other machines may reach");
  }
  function leavesOfDecls(ds) { const d = ds[0]; return d && ts.isVariableDeclaration(d) && d.initializer ? leaves(d.initializer) : null; }
  // ── request data sources ────────────────────────────────────────────────
  const reqSource = (e) => {
    if (ts.isPropertyAccessExpression(e) && isReq(e.expression) && ["url", "headers", "rawHeaders", "trailers"].includes(e.name.text)) return "request URL/header";
    if (ts.isPropertyAccessExpression(e) && !/\bZod/.test(typeNameOf(e).join()) && memberOf(e.name)) return "request body";
    if (ts.isIdentifier(e)) for (const d of P.declsOf(e)) if (ts.isBindingElement(d) && ts.isIdentifier(d.name) && memberOf(d.name)) return "request body";
    if (ts.isIdentifier(e)) for (const d of P.declsOf(e)) if (ts.isParameter(d) && isFn(d.parent)) {
      const p = d.parent.parent;
      if (ts.isCallExpression(p) && ts.isPropertyAccessExpression(skip(p.expression)) && /^(on|once|addListener)$/.test(skip(p.expression).name.text) && isReq(skip(p.expression).expression) && p.arguments[0] && ts.isStringLiteralLike(skip(p.arguments[0])) && skip(p.arguments[0]).text === "data") return "request body";
    }
    return null;
  };
  // members of a validated body: declared in the object literal of a schema a handler uses
  const bodyFields = new Set();
  const schemaFields = (e, seen = new Set()) => { walk(e, (q) => {
    if (ts.isCallExpression(q) && /^zod:.*\b(object|strictObject|looseObject|extend)$/.test(P.externalName(q.expression) ?? "") && q.arguments[0] && ts.isObjectLiteralExpression(skip(q.arguments[0]))) for (const m of skip(q.arguments[0]).properties) bodyFields.add(m);
    if (ts.isIdentifier(q)) for (const d of P.declsOf(q)) if (ts.isVariableDeclaration(d) && d.initializer && !seen.has(d) && P.files.includes(d.getSourceFile())) { seen.add(d); schemaFields(d.initializer, seen); }
  }); };
  const schemaRoots = () => { for (const f of P.reachableFrom(roots)) walk(f.body, (q) => { if (isFn(q)) return; if (ts.isIdentifier(q)) for (const d of P.declsOf(q)) if (ts.isVariableDeclaration(d) && d.initializer && ts.isSourceFile(d.parent.parent.parent) && /\bZod/.test(typeNameOf(d.name).join())) schemaFields(d.initializer); }); };
  const memberOf = (e) => { const sym = P.checker.getSymbolAtLocation(e); return (sym?.declarations ?? []).concat(ts.isBindingElement(e.parent ?? {}) ? P.checker.getPropertyOfType(P.type(e.parent.parent), (e.parent.propertyName ?? e.parent.name).getText())?.declarations ?? [] : []).some((d) => bodyFields.has(d)); };
  const filtered = (x) => {
    if (!ts.isCallExpression(x) || !ts.isPropertyAccessExpression(skip(x.expression)) || !/^replace(All)?$/.test(skip(x.expression).name.text) || x.arguments.length !== 2) return false;
    const r = skip(x.arguments[0]), w = skip(x.arguments[1]);
    if (!ts.isRegularExpressionLiteral(r) || !/\/[a-z]*g[a-z]*$/.test(r.text) || !ts.isStringLiteralLike(w) || /[\/\\$]/.test(w.text)) return false;
    try { const m = /^\/(.*)\/([a-z]*)$/s.exec(r.text); const re = new RegExp(m[1], m[2]); return !/[\/\\\0]/.test("a/b\\c\0d//e/\\../".replace(re, w.text)); } catch { return false; }
  };
  const trace = (e) => F.trace(e, { expr: (x) => { if (ts.isExpression(x) && !mayBeString(P, x)) return "clean"; if (filtered(x)) return "clean"; const s = reqSource(x); return s ? { source: s } : undefined; } }, { depth: 4, limit: 30000 }).found;
  // only code a handler can reach matters; use every fs/process sink reachable from functions that take a request
  const roots = P.functions.filter((f) => f.parameters.some((p) => p.name && ts.isIdentifier(p.name) && (isReq(p.name) || isRes(p.name))));
  const reach = P.reachableFrom(roots); schemaRoots(); if (bodyFields.size) ctx.count("request body members", bodyFields.size);
  for (const c of P.calls) {
    if (!ts.isCallExpression(c)) continue; const x = P.externalName(c.expression) ?? "";
    const fn = P.enclosingFn(c); if (!fn || !reach.has(fn)) continue;
    const key = P.fnId(P.topFn(c));
    if (/^fs(\/promises)?:/.test(x) && !/:(Stats|Dirent|ReadStream|WriteStream|FSWatcher|FileHandle)\./.test(x)) {
      cnt(c, "file-system operands reachable from a handler");
      const two = /:(rename|copyFile|link|symlink|cp)(Sync)?$/.test(x);
      for (const a of c.arguments.slice(0, two ? 2 : 1)) { const s = trace(a); ctx.oblige(!s.length, c, "path", key, `the file path depends on the ${s[0]?.label}: ${s.length ? F.witness(s[0]).join(" ← ") : ""}`); }
    }
    if (/^child_process:(exec|spawn|fork)/.test(x)) for (const a of c.arguments.slice(0, 2)) { cnt(c, "process operands reachable from a handler"); const s = trace(a); ctx.oblige(!s.length, c, "process", key, `a process argument depends on the ${s[0]?.label}`); }
    // page navigation to a request-chosen address
    if (/^playwright-core:(Page|Frame)\.goto$/.test(x)) { const s = trace(c.arguments[0]); ctx.oblige(!s.length, c, "navigate", key, `the address opened depends on the ${s[0]?.label}`); }
  }
  // ── parsed bodies go through a schema ───────────────────────────────────
  const ZODP = /^zod:.*\.(parse|safeParse|parseAsync|safeParseAsync)$/;
  for (const c of P.calls) {
    if (!ts.isCallExpression(c) || P.externalName(c.expression) !== "lib:JSON.parse") continue;
    const fn = P.enclosingFn(c); if (!fn || !reach.has(fn)) continue;
    if (!F.trace(c.arguments[0], { expr: (x) => { const s = reqSource(x); return s ? { source: s } : undefined; } }, { depth: 4, limit: 20000 }).found.length) continue;
    cnt(c, "parsed request bodies");
    // uses of the parsed value
    let ok = true, why = ""; const seen = new Set();
    const useOk = (n) => { // n: expression carrying the value
      let p = n.parent; while (ts.isParenthesizedExpression(p) || ts.isAsExpression(p) || ts.isNonNullExpression(p) || ts.isSatisfiesExpression(p)) { n = p; p = p.parent; }
      if (ts.isExpressionStatement(p)) return;
      if (ts.isCallExpression(p) && p.arguments.includes(n)) {
        if (ZODP.test(P.externalName(p.expression) ?? "")) return;
        const fs = P.callees(p); const i = p.arguments.indexOf(n);
        if (fs.length && fs.every((f) => f.parameters[i])) { for (const f of fs) useDecl(f.parameters[i]); return; }
      }
      if (ts.isBinaryExpression(p) && p.operatorToken.kind === K.EqualsToken && p.right === n && ts.isIdentifier(skip(p.left))) { for (const d of P.declsOf(skip(p.left))) useDecl(d); return; }
      if (ts.isVariableDeclaration(p) && p.initializer === n && ts.isIdentifier(p.name)) { useDecl(p); return; }
      if (ts.isReturnStatement(p) || (isFn(p) && p.body === n)) { const f = isFn(p) ? p : P.enclosingFn(p); const inv = F.invocations(f); if (inv.length) { for (const k of inv) useOk(ts.isAwaitExpression(k.parent) ? k.parent : k); return; } }
      ok = false; why = P.loc(n) + " " + P.text(p, 60);
    };
    const useDecl = (d) => { if (seen.has(d)) return; seen.add(d); walk(d.getSourceFile(), (n) => { if (ts.isIdentifier(n) && n !== d.name && P.declsOf(n).includes(d)) { const p = n.parent; if (ts.isBinaryExpression(p) && p.left === n && p.operatorToken.kind === K.EqualsToken) return; useOk(n); } }); };
    useOk(c);
    ctx.oblige(ok, c, "schema", P.fnId(fn), `request body used without schema validation: ${why}`);
  }
  // ── body accumulation is bounded ────────────────────────────────────────
  for (const c of P.calls) {
    if (!ts.isCallExpression(c) || !ts.isPropertyAccessExpression(skip(c.expression)) || !/^(on|addListener)$/.test(skip(c.expression).name.text) || !isReq(skip(c.expression).expression)) continue;
    if (!(c.arguments[0] && ts.isStringLiteralLike(skip(c.arguments[0])) && skip(c.arguments[0]).text === "data")) continue;
    for (const f of P.fnsOfExpr(c.arguments[1])) {
      cnt(c, "body listeners");
      const grows = []; walk(f.body, (n) => {
        if (ts.isCallExpression(n) && ts.isPropertyAccessExpression(skip(n.expression)) && ["push", "unshift"].includes(skip(n.expression).name.text)) grows.push(n);
        if (ts.isBinaryExpression(n) && n.operatorToken.kind === K.PlusEqualsToken && mayBeString(P, n.left)) grows.push(n);
      });
      const incs = new Set(); walk(f.body, (n) => { if (ts.isBinaryExpression(n) && n.operatorToken.kind === K.PlusEqualsToken) for (const d of P.declsOf(skip(n.left))) incs.add(d); });
      const mentions = (e, subst) => { let hit = false; walk(e, (n) => { if (ts.isIdentifier(n)) { const r = G.resolve(n, subst); for (const d of ts.isIdentifier(r) ? P.declsOf(r) : []) if (incs.has(d)) hit = true; } }); return hit; };
      const atom = (e, v, subst) => { if (!ts.isBinaryExpression(e)) return false; const o = e.operatorToken.kind; const gt = o === K.GreaterThanToken || o === K.GreaterThanEqualsToken, lt = o === K.LessThanToken || o === K.LessThanEqualsToken; return gt && (v === false && mentions(e.left, subst) || v === true && mentions(e.right, subst)) || lt && (v === true && mentions(e.left, subst) || v === false && mentions(e.right, subst)); };
      for (const g of grows) ctx.oblige(G.holdsAt(P.enclosingFn(g), g, atom), g, "bounded", P.fnId(P.topFn(g)), "request body accumulates without a size limit");
    }
  }
  // ── every request is answered exactly once ──────────────────────────────
  const handlers = new Set();
  for (const c of P.calls) {
    if (!ts.isCallExpression(c)) continue;
    const x = P.externalName(c.expression) ?? "";
    const isCreate = /:createServer$/.test(x);
    for (const a of c.arguments) for (const f of F.targets(a)) if (f.parameters.length >= 2 && f.parameters.some((p) => isRes(p.name)) && f.parameters.some((p) => isReq(p.name)) && (isCreate || P.callees(c).length)) handlers.add(f);
  }
  for (const f of P.functions) if (ctx.isFixture(f) && f.parameters.some((p) => isRes(p.name)) && f.parameters.some((p) => isReq(p.name))) handlers.add(f);
  const endMemo = new Map();
  const endsAlways = (f, i) => { // calling f ends its i-th argument's response on every normal return
    const k = f; if (endMemo.has(k)) return endMemo.get(k); endMemo.set(k, false);
    const r = explore(f); const v = r.normal.size > 0 && ![...r.normal].includes("0"); endMemo.set(k, v); return v;
  };
  const isEnd = (n) => { // call node completing a response
    if (!ts.isCallExpression(n)) return false; const e = skip(n.expression);
    if (ts.isPropertyAccessExpression(e) && e.name.text === "end" && isRes(e.expression)) return true;
    if (ts.isPropertyAccessExpression(e) && e.name.text === "pipe" && n.arguments.some((a) => isRes(a))) return true;
    const i = n.arguments.findIndex((a) => isRes(a)); if (i < 0) return false;
    const fs = F.targets(n.expression); return fs.length > 0 && fs.every((f) => endsAlways(f, i));
  };
  function explore(f) {
    const res = { normal: new Set(), exc: new Set(), twice: null, trail: null };
    const X = new Feasible(P, T, f); const async = T.cfg(f);
    X.explore("0", (n, aux) => {
      if ((n.kind === "call") && n.ast && isEnd(n.ast)) { if (aux === "1") { res.twice = n.ast; return "2"; } return aux === "0" ? "1" : aux; }
      return aux;
    }, (kind, aux) => { (kind === "normal exit" ? res.normal : res.exc).add(aux); }, { auxExc: (n, before) => before });
    return res;
  }
  const isWrapper = (f) => { let ends = false; walk(f.body, (n) => { if (ts.isCallExpression(n) && isEnd(n)) ends = true; }); return !ends; };
  for (const f of handlers) {
    // a wrapper that only forwards (req, res) to another handler is covered by that handler
    let forwards = false; walk(f.body, (n) => { if (ts.isCallExpression(n) && n.arguments.some((a) => isReq(a)) && n.arguments.some((a) => isRes(a))) forwards = true; });
    if (forwards && isWrapper(f)) continue;
    const deferred = (() => { let d = false; walk(f.body, (n) => { if (isFn(n)) walk(n.body, (m) => { if (ts.isCallExpression(m) && isEnd(m)) d = true; }); }); return d; })();
    if (deferred && ctx.isFixture(f)) continue;
    cnt(f, "request handlers"); const key = P.fnId(f), r = explore(f);
    ctx.oblige(!r.normal.has("0"), f, "answered", key, "some path through the request handler returns without ending the response");
    ctx.oblige(!r.exc.size, f, "handler-throws", key, "an exception escapes the request handler: the client is left without a response");
    ctx.oblige(!r.twice, r.twice ?? f, "once", key, "a path ends the response twice");
  }
  ctx.floor("listen calls", 1); ctx.floor("request handlers", 2); ctx.floor("file-system operands reachable from a handler", 4); ctx.floor("parsed request bodies", 1); ctx.floor("body listeners", 1);
  ctx.expectFixture("schemaPath", "anyAddress", "wildcard", "forgets", "twice", "throwsOut", "path|".slice(0, 4) + ":", "schema:", "bounded:");
  for (const h of ctx.fixtureHits) if (/#ok/.test(h)) ctx.anchor(false, "negative example reported: " + h);
}
