import { ts, K, isFn, skip, walk } from "../lib/program.mjs";
import { Guards } from "../lib/guards.mjs";
import { externalSource, mayBeString } from "../lib/sources.mjs";

export const rule = "Every process-starting call is found through the type checker: shell command lines are refused, the program operand's value flow reaches no page, request, network or parsed data, and no argument that could be read as an option carries such data unescaped. Every byte that arrives by fetch and is written to a file is traced; at the write, control flow has crossed an equality between the SHA-256 of those bytes and the published digest; the write goes to a private temporary name renamed afterwards, marked executable before its rename, the executable last.";
export const trusted = ["value-flow engine (lib/flow.mjs)"];
export const assumptions = ["Command-line arguments and environment variables of the invoking user are trusted"];

export const fixtures = {
  "__verif_fixture_p14.ts": `
import { exec, execFileSync, spawn, spawnSync } from "node:child_process";
import { createHash } from "node:crypto";
import { chmodSync, renameSync, writeFileSync } from "node:fs";
import type { IncomingMessage } from "node:http";
export function shellCmd(name: string): void { exec("fc-match " + name, () => {}); }
export function shellOpt(name: string): void { spawn("fc-match", [name], { shell: true }).on("error", () => {}); }
export function reqProgram(req: IncomingMessage): void { spawnSync(req.url ?? "x", []); }
export function reqOption(req: IncomingMessage): void { spawnSync("tool", [req.url ?? "x"]); }
export function okAfterDashes(req: IncomingMessage): void { spawnSync("tool", ["--", req.url ?? "x"]); }
export function okOptionValue(req: IncomingMessage): void { spawnSync("tool", ["-i", req.url ?? "x"]); }
export function okEscaped(req: IncomingMessage): void { execFileSync("fc-match", ["-f", "x", (req.url ?? "").replace(/[:\\-]/g, "\\\\$&")]); }
export async function noDigest(u: string, dest: string): Promise<void> { const r = await fetch(u); const b = Buffer.from(await r.arrayBuffer()); const t = dest + ".tmp-" + process.pid; writeFileSync(t, b); renameSync(t, dest); }
export async function halfDigest(u: string, sha: string, dest: string, quick: boolean): Promise<void> { const r = await fetch(u); const b = Buffer.from(await r.arrayBuffer()); if (!quick && createHash("sha256").update(b).digest("hex") !== sha) return; const t = dest + ".tmp-" + process.pid; writeFileSync(t, b); renameSync(t, dest); }
export async function prefixDigest(u: string, sha: string, dest: string): Promise<void> { const r = await fetch(u); const b = Buffer.from(await r.arrayBuffer()); if (!createHash("sha256").update(b).digest("hex").startsWith(sha)) return; const t = dest + ".tmp-" + process.pid; writeFileSync(t, b); renameSync(t, dest); }
export async function inPlace(u: string, sha: string, dest: string): Promise<void> { const r = await fetch(u); const b = Buffer.from(await r.arrayBuffer()); if (createHash("sha256").update(b).digest("hex") !== sha) return; writeFileSync(dest, b); }
export async function lateChmod(u: string, sha: string, dest: string): Promise<void> { const r = await fetch(u); const b = Buffer.from(await r.arrayBuffer()); if (createHash("sha256").update(b).digest("hex") !== sha) return; const t = dest + ".tmp-" + process.pid; writeFileSync(t, b); renameSync(t, dest); chmodSync(dest, 0o755); }
const hex = (b: Buffer): string => createHash("sha256").update(b).digest("hex");
const matches = (b: Buffer, sha: string): boolean => hex(b) === sha.trim();
export async function okDigest(u: string, sha: string, dest: string): Promise<void> { const r = await fetch(u); const b = Buffer.from(await r.arrayBuffer()); if (!matches(b, sha)) throw new Error("bad"); const t = dest + ".tmp-" + process.pid; writeFileSync(t, b); chmodSync(t, 0o755); renameSync(t, dest); }
`,
};

const START = /^child_process:(exec|execSync|execFile|execFileSync|spawn|spawnSync|fork)$/;

export function run(ctx) {
  const { P, F, T } = ctx; const G = new Guards(P, F, T);
  const cnt = (n, k) => { if (!ctx.isFixture(n)) ctx.count(k); };
  const leafSources = (e, extra) => {
    const r = F.trace(e, { expr: (x, st) => {
      const c = extra?.(x, st); if (c) return c;
      if (ts.isExpression(x) && !mayBeString(P, x)) return "clean";
      const s = externalSource(P, x); if (s) return { source: s };
      return undefined;
    } }, { depth: 4, limit: 40000 });
    return r.found;
  };
  // ── process starts ──────────────────────────────────────────────────────
  const starts = [];
  for (const c of P.calls) {
    if (!ts.isCallExpression(c)) continue;
    const x = P.externalName(c.expression) ?? "";
    if (START.test(x)) starts.push({ c, fn: x.split(":")[1], args: c.arguments });
    else if (x === "util:promisify" && c.arguments[0] && START.test(P.externalName(c.arguments[0]) ?? "")) {
      const fn = P.externalName(c.arguments[0]).split(":")[1];
      // every call of the promisified value
      let p = c.parent; while (p && !ts.isVariableDeclaration(p)) p = p.parent;
      for (const k of p ? F.callsByDecl.get(p) ?? [] : []) starts.push({ c: k, fn, args: k.arguments });
      if (!p) ctx.oblige(false, c, "argv", P.fnId(P.enclosingFn(c)), "promisified process start whose calls cannot be followed");
    } else if (/^(node-pty):/.test(x) || (ts.isPropertyAccessExpression(skip(c.expression)) && skip(c.expression).name.text === "spawn" && !x)) {
      if (c.arguments.length >= 2) starts.push({ c, fn: "spawn", args: c.arguments, pty: true });
    }
  }
  const allLiteral = (a) => a && ts.isArrayLiteralExpression(skip(a)) && skip(a).elements.every((e) => ts.isStringLiteralLike(skip(e)));
  for (const { c, fn, args, pty } of starts) {
    const key = P.fnId(P.enclosingFn(c)); cnt(c, "process starts");
    const [prog, argv, opts] = fn === "exec" || fn === "execSync" ? [args[0], null, args[1]] : [args[0], args[1], args[2]];
    const constProg = prog && ts.isStringLiteralLike(skip(prog));
    if (fn === "exec" || fn === "execSync") { ctx.oblige(constProg, c, "shell", key, "program started through a shell command line built from data"); continue; }
    // shell option
    const o = opts && skip(opts);
    let shell = null;
    if (o) {
      const lit = ts.isObjectLiteralExpression(o) ? o : null;
      if (lit) shell = lit.properties.find((p) => p.name?.text === "shell");
      else for (const d of P.type(o).getProperty?.("shell")?.declarations ?? []) if (ts.isPropertyAssignment(d)) shell = d;
    }
    const shellOff = !shell || (ts.isPropertyAssignment(shell) && skip(shell.initializer).kind === K.FalseKeyword);
    ctx.oblige(shellOff || (constProg && allLiteral(argv)), c, "shell", key, "program started through a shell with non-constant text");
    // program operand
    if (prog && !constProg) { const s = leafSources(prog); ctx.oblige(!s.length, c, "program", key, `the program to run depends on ${s[0]?.label}: ${s.length ? F.witness(s[0]).join(" ← ") : ""}`); }
    else ctx.oblige(!!prog, c, "program", key, "no program operand");
    if (pty) continue;
    // interpreters receive only literals or loopback URLs
    const interp = constProg && /^(cmd(\.exe)?|sh|bash|zsh|powershell(\.exe)?|pwsh|\/bin\/sh)$/i.test(skip(prog).text);
    const els = argv && ts.isArrayLiteralExpression(skip(argv)) ? [...skip(argv).elements] : null;
    if (interp && els) for (const e of els) { const s = leafSources(e); ctx.oblige(!s.length, e, "shell", key, `text reaching a command interpreter depends on ${s[0]?.label}`); }
    if (!els) {
      if (argv) { const s = leafSources(argv, (x) => escapes(x)); ctx.oblige(!s.length, c, "option", key, `an argument may carry ${s[0]?.label}`); }
      continue;
    }
    let ended = false; let prev = null;
    for (const e0 of els) {
      const e = skip(e0); const lit = ts.isStringLiteralLike(e) ? e.text : null;
      if (lit === "--") ended = true;
      else if (lit == null && !ended && !(prev && /^-[A-Za-z]|^--[a-z]/.test(prev) && !prev.includes("="))) {
        const s = startsSafe(e) ? [] : leafSources(e, (x) => escapes(x));
        cnt(c, "non-constant arguments");
        ctx.oblige(!s.length, e, "option", key, `an argument that may be read as an option carries ${s[0]?.label}: ${s.length ? F.witness(s[0]).join(" ← ") : ""}`);
      }
      prev = lit;
    }
  }
  // template/concat with a literal non-dash first character
  function startsSafe(e) {
    e = skip(e);
    if (ts.isTemplateExpression(e)) return e.head.text.length > 0 && e.head.text[0] !== "-";
    if (ts.isBinaryExpression(e) && e.operatorToken.kind === K.PlusToken) return startsSafe(e.left);
    if (ts.isStringLiteralLike(e)) return e.text[0] !== "-";
    return false;
  }
  // value.replace(/[…-…]/g, "\\$&"), or a prefix that is not a dash
  function escapes(x) {
    if (startsSafe(x)) return "clean";
    if (ts.isCallExpression(x) && ts.isPropertyAccessExpression(skip(x.expression)) && /^replace(All)?$/.test(skip(x.expression).name.text) && x.arguments.length === 2) {
      const r = skip(x.arguments[0]), w = skip(x.arguments[1]);
      if (ts.isRegularExpressionLiteral(r) && /g[a-z]*$/.test(r.text) && ts.isStringLiteralLike(w) && !w.text.startsWith("-") && !w.text.startsWith("$&")) {
        try { const m = /^\/(.*)\/([a-z]*)$/s.exec(r.text); if (new RegExp(m[1], m[2].replace("g", "")).exec("-a")?.index === 0) return "clean"; } catch { /* unknown */ }
      }
    }
    return undefined;
  }

  // ── downloaded bytes ────────────────────────────────────────────────────
  const digestMemo = new Map();
  const isDigest = (e) => { let r = digestMemo.get(e); if (!r) digestMemo.set(e, r = isDigest0(e)); return r; };
  const isDigest0 = (e) => { // expression whose value is a sha256 over something; returns the hashed expressions
    const out = [];
    const r = F.trace(e, { expr: (x) => {
      if (ts.isCallExpression(x) && ts.isPropertyAccessExpression(skip(x.expression)) && skip(x.expression).name.text === "digest") {
        let cur = skip(x.expression).expression; let data = null, algo = null;
        for (;;) { cur = skip(cur); if (ts.isCallExpression(cur) && ts.isPropertyAccessExpression(skip(cur.expression)) && skip(cur.expression).name.text === "update") { data = cur.arguments[0]; cur = skip(cur.expression).expression; continue; } if (ts.isCallExpression(cur)) { algo = cur.arguments[0]; } break; }
        if (data && algo && ts.isStringLiteralLike(skip(algo)) && /^sha(256|384|512)$/i.test(skip(algo).text)) { out.push(data); return { source: "digest" }; }
        return "clean";
      } return undefined; } }, { depth: 3, limit: 4000 });
    return r.found.length ? out.map((d, i) => ({ data: d, path: r.found[i].path })) : [];
  };
  const digestAtom = (bytesDecl) => (e, value, subst) => {
    if (!ts.isBinaryExpression(e)) return false;
    const op = e.operatorToken.kind;
    const eq = op === K.EqualsEqualsEqualsToken || op === K.EqualsEqualsToken, ne = op === K.ExclamationEqualsEqualsToken || op === K.ExclamationEqualsToken;
    if (!(eq && value === true) && !(ne && value === false)) return false;
    for (const [a, b] of [[e.left, e.right], [e.right, e.left]]) {
      const ds = isDigest(a); if (!ds.length || isDigest(b).length) continue;
      if (ds.some(({ data, path }) => reachesDecl(data, path, bytesDecl, subst))) return true;
    }
    return false;
  };
  const reachesDecl = (data, path, decl, subst) => {
    const seen = new Set(); const st = [data];
    while (st.length) {
      let e = skip(st.pop()); if (seen.has(e)) continue; seen.add(e);
      if (!ts.isIdentifier(e)) continue;
      for (const d of P.declsOf(e)) {
        if (d === decl) return true;
        if (ts.isParameter(d)) { const i = d.parent.parameters.indexOf(d); if (subst?.has(d)) st.push(subst.get(d)); else for (const c of F.invocations(d.parent)) if (c.arguments?.[i]) st.push(c.arguments[i]); }
        if (ts.isVariableDeclaration(d) && d.initializer) st.push(d.initializer);
      }
    }
    return false;
  };
  const writes = [];
  for (const c of P.calls) {
    if (!ts.isCallExpression(c)) continue; const x = P.externalName(c.expression) ?? "";
    if (/^fs(\/promises)?:(writeFile|writeFileSync|appendFileSync|appendFile)$/.test(x)) writes.push(c);
  }
  const tmpOps = new Map(); // fn -> list
  for (const c of writes) {
    const fn = P.enclosingFn(c); const data = c.arguments[1]; if (!data || !fn) continue;
    if (/\/src\/(capture|cli|templates|scroll|animation)\//.test(c.getSourceFile().fileName)) continue; // media embedding, never executed
    let verified = 0;
    const net = (e) => ts.isCallExpression(e) && /^lib:Body\.(arrayBuffer|bytes|blob|text|json)$/.test(P.externalName(e.expression) ?? "");
    if (!F.trace(data, { expr: (e) => net(e) ? { source: "n" } : undefined }, { depth: 4, limit: 20000 }).found.length) continue;
    const r = F.trace(data, { expr: (e) => {
      if (ts.isIdentifier(e)) {
        const d = P.declsOf(e)[0], ef = P.enclosingFn(e);
        if (d && ef && (ts.isVariableDeclaration(d) || ts.isParameter(d) || ts.isBindingElement(d)) && G.holdsAt(ef, e, digestAtom(d))) { verified++; return "clean"; }
      }
      if (ts.isCallExpression(e)) {
        const x = P.externalName(e.expression) ?? "";
        if (/^lib:Body\.(arrayBuffer|bytes|blob|text|json)$/.test(x)) return { source: "downloaded bytes" };
      }
      return undefined; } }, { depth: 4, limit: 20000 });
    // restrict to the executable/data acquisition: written bytes that come off the network and are later run or loaded
    const key = P.fnId(fn);
    if (!r.found.length && !verified) continue;
    cnt(c, "downloaded file writes");
    ctx.oblige(!r.found.length, c, "digest", key, `bytes downloaded at ${r.found[0] ? P.loc(r.found[0].node) : ""} are written without matching the published SHA-256 digest on every path`);
    if (!tmpOps.has(fn)) tmpOps.set(fn, []); tmpOps.get(fn).push(c);
  }
  for (const [fn, ws] of tmpOps) {
    const key = P.fnId(fn); const calls = []; walk(fn.body, (n) => { if (ts.isCallExpression(n) && P.enclosingFn(n) === fn) calls.push(n); });
    const same = (a, b) => { a = skip(a); b = skip(b); return a.getText() === b.getText() && (!ts.isIdentifier(a) || P.declsOf(a)[0] === P.declsOf(b)[0]); };
    const op = (re) => calls.filter((c) => re.test(P.externalName(c.expression) ?? ""));
    const renames = op(/^fs(\/promises)?:rename(Sync)?$/), chmods = op(/^fs(\/promises)?:chmod(Sync)?$/);
    for (const w of ws) {
      const rn = renames.filter((r) => same(r.arguments[0], w.arguments[0]));
      ctx.oblige(rn.length > 0 && before(fn, w, rn), w, "atomic", key, "downloaded file is written in place instead of to a temporary name renamed when complete");
      const priv = uniqueName(w.arguments[0]);
      ctx.oblige(priv, w, "private-temp", key, "the temporary name is shared between concurrent processes");
    }
    const exec = chmods.map((c) => ({ c, rn: renames.filter((r) => same(r.arguments[0], c.arguments[0])) }));
    for (const { c, rn } of exec) {
      ctx.oblige(rn.length > 0 && before(fn, c, rn), c, "chmod-first", key, "the installed file becomes visible before it is executable");
      for (const r of rn) for (const o of renames) if (o !== r) ctx.oblige(!reaches(fn, r, o), r, "exec-last", key, "the executable becomes visible before the files it needs");
    }
  }
  /** every path from a to the normal exit passes one of bs, and no b precedes a */
  function before(fn, a, bs) {
    const cfg = T.cfg(fn); const an = cfg.nodes.filter((n) => n.ast === a); if (!an.length) return false;
    const bset = new Set(cfg.nodes.filter((n) => bs.includes(n.ast)));
    const seen = new Set(an), st = [...an];
    while (st.length) { const n = st.pop(); if (bset.has(n)) continue; if (n === cfg.exit) return false; for (const s of n.succ) if (!seen.has(s.to)) { seen.add(s.to); st.push(s.to); } }
    return true;
  }
  function reaches(fn, a, b) {
    const cfg = T.cfg(fn); const st = cfg.nodes.filter((n) => n.ast === a); const seen = new Set(st);
    while (st.length) { const n = st.pop(); for (const s of n.succ) if (!seen.has(s.to)) { if (s.to.ast === b) return true; seen.add(s.to); st.push(s.to); } }
    return false;
  }
  function uniqueName(e) {
    const r = F.trace(e, { expr: (x) => (ts.isPropertyAccessExpression(x) && P.externalName(x)?.endsWith("Process.pid")) || (ts.isCallExpression(x) && /randomUUID|randomBytes|mkdtemp|Math\.random/.test(P.externalName(x.expression) ?? "")) ? { source: "unique" } : undefined }, { depth: 2, limit: 4000 });
    return r.found.length > 0;
  }
  ctx.floor("process starts", 12); ctx.floor("downloaded file writes", 2); ctx.floor("non-constant arguments", 3);
  ctx.expectFixture("shellCmd", "shellOpt", "reqProgram", "reqOption", "noDigest", "halfDigest", "prefixDigest", "inPlace", "lateChmod");
  for (const h of ctx.fixtureHits) if (/#ok/.test(h)) ctx.anchor(false, "negative example reported: " + h);
}
