// P17 — lengths stay on their own axis, times keep their unit.
import { ts, K, isFn, skip, walk } from "../lib/program.mjs";

export const rule = "Every numeric expression is given a dimension where one can be inferred: a position or extent along x or y (from the declared members of rectangle-like types and the DOM's own rectangles, propagated through locals, sums, rounding, min/max and scaling by constants), or milliseconds / seconds. Adding, subtracting, assigning, passing or building an object from quantities of different axes is a violation unless the two axes change places together (a deliberate transposition); so is mixing milliseconds and seconds without the factor 1000, or printing one with the other's CSS unit.";
export const trusted = ["dimension inference (checks/P17.mjs)"];
export const assumptions = ["a rectangle-like type's members named x/left/width… are horizontal and y/top/height… vertical", "names ending in Ms and Sec/Seconds state their unit"];
export const fixtures = {
  "__verif_fixture_p17.ts": `
interface FxBox { x: number; y: number; width: number; height: number }
export function fxSum(b: FxBox): number { return b.x + b.height / 2; }
export function fxBuild(b: FxBox): FxBox { return { x: b.x, y: b.x, width: b.width, height: b.height }; }
export function fxLocal(b: FxBox): number { const mid = b.y + b.height / 2; return Math.max(0, b.x - mid); }
export function fxPlace(x: number, y: number): string { return x + " " + y; }
export function fxArg(b: FxBox): string { return fxPlace(b.x, b.x + b.width); }
export function fxTime(totalMs: number, endSec: number): number { return totalMs + endSec; }
export function fxUnit(totalMs: number): string { return \`animation:a \${totalMs}s linear\`; }
const fxNum = (n: number): string => String(Math.round(n * 100) / 100);
export function fxMark(b: FxBox): string { return \`<rect x="\${fxNum(b.x)}" y="\${fxNum(b.y)}" width="\${fxNum(b.height)}" height="1"/>\`; }
export function fxName(totalMs: number): string { const totalSec = totalMs; const half = totalSec / 2; return String(totalSec) + half; }
export function okSwap(b: FxBox): FxBox { return { x: b.y, y: b.x, width: b.height, height: b.width }; }
export function okTurn(b: FxBox, vertical: boolean): number { const at = vertical ? b.y : b.x; return at + (vertical ? b.height : b.width); }
export function okTime(totalMs: number, endSec: number): number { return totalMs / 1000 + endSec; }
export function okArea(b: FxBox): number { return b.width * b.height; }
export function okSquare(b: FxBox): number { return b.x + Math.min(b.width, b.height) / 2; }
`,
};

const HN = new Set(["vw", "x", "left", "right", "width", "cx", "w", "x1", "x2", "offsetX", "clientWidth", "scrollWidth", "offsetWidth", "scrollX", "scrollLeft", "clientX", "pageX", "screenX", "minX", "maxX", "dx", "innerWidth", "naturalWidth", "marginLeft", "marginRight", "paddingLeft", "paddingRight"]);
const VN = new Set(["vh", "y", "top", "bottom", "height", "cy", "h", "y1", "y2", "offsetY", "clientHeight", "scrollHeight", "offsetHeight", "scrollY", "scrollTop", "clientY", "pageY", "screenY", "minY", "maxY", "dy", "innerHeight", "naturalHeight", "marginTop", "marginBottom", "paddingTop", "paddingBottom"]);
const PAIR = new Map([["vw", "vh"], ["x", "y"], ["left", "top"], ["right", "bottom"], ["width", "height"], ["cx", "cy"], ["w", "h"], ["x1", "y1"], ["x2", "y2"], ["offsetX", "offsetY"], ["dx", "dy"], ["minX", "minY"], ["maxX", "maxY"]]);
for (const [a, b] of [...PAIR]) PAIR.set(b, a);
const EXTENT = new Set(["vw", "vh", "width", "height", "w", "h", "clientWidth", "clientHeight", "scrollWidth", "scrollHeight", "offsetWidth", "offsetHeight", "innerWidth", "innerHeight", "naturalWidth", "naturalHeight", "dx", "dy", "marginLeft", "marginRight", "marginTop", "marginBottom", "paddingLeft", "paddingRight", "paddingTop", "paddingBottom"]);
// H/V: a position along the axis; h/v: an extent along it
// paintX / paintY, boxW / boxH: the last word names the axis when its counterpart stands beside it
const TAIL = [["X", "Y"], ["W", "H"], ["Width", "Height"], ["Left", "Top"], ["Right", "Bottom"]];
const twin = (s) => { if (/scale|ratio|zoom|factor|skew|repeat|align|overflow|fract/i.test(s)) return null; const away = /distance|gap|delta|pad|margin|inset|border|shift|offset/i.test(s); const r = twinOf(s); return r && away ? { ...r, axis: r.axis.toLowerCase() } : r; };
const twinOf = (s) => { for (const [a, b] of TAIL) { if (s.length > a.length && s.endsWith(a) && /[a-z0-9]$/.test(s.slice(0, -a.length))) return { axis: a === "W" || a === "Width" ? "h" : "H", mate: s.slice(0, -a.length) + b }; if (s.length > b.length && s.endsWith(b) && /[a-z0-9]$/.test(s.slice(0, -b.length))) return { axis: b === "H" || b === "Height" ? "v" : "V", mate: s.slice(0, -b.length) + a }; } return null; };
const named = (s) => { const a = HN.has(s) ? "H" : VN.has(s) ? "V" : null; return a && EXTENT.has(s) ? a.toLowerCase() : a; };
const axisOf = (d) => (d === "H" || d === "h" ? "H" : d === "V" || d === "v" ? "V" : d);
const isExt = (d) => d === "h" || d === "v";
const ext = (d) => (d === "H" ? "h" : d === "V" ? "v" : d);
// one dimension out of two that name the same axis
const merge = (a, b) => (!a || !b || a === b ? a ?? b : axisOf(a) === axisOf(b) ? axisOf(a) : null);
const timed = (s) => (/(^ms|Ms|_ms|Millis)$/.test(s) ? "ms" : /(^sec|^secs|Sec|Secs|Seconds|_s)$/.test(s) ? "s" : null);
export function run(ctx) {
  const { P, F } = ctx; const c = P.checker;
  const numeric = (t) => !!t && (t.isUnion?.() ? t.types.every((u) => u.flags & (ts.TypeFlags.NumberLike | ts.TypeFlags.Undefined | ts.TypeFlags.Null)) && t.types.some((u) => u.flags & ts.TypeFlags.NumberLike) : !!(t.flags & ts.TypeFlags.NumberLike));
  // ── seeds: a member whose type has the counterpart on the other axis; a parameter whose function has the counterpart ──
  const seedMemo = new Map();
  const seed = (d) => {
    if (seedMemo.has(d)) return seedMemo.get(d);
    let r = null; const nm = d.name && (ts.isIdentifier(d.name) || ts.isStringLiteral(d.name)) ? d.name.text : null;
    if (nm) {
      const tw = named(nm) ? null : twin(nm), axis = named(nm) ?? tw?.axis ?? null, unit = timed(nm);
      if (ts.isParameter(d) && (ts.isArrowFunction(d.parent) || ts.isFunctionExpression(d.parent)) && ts.isCallExpression(d.parent.parent)) { seedMemo.set(d, null); return null; } // (x, y) => x - y: names of two values compared
      const isMember = ts.isPropertySignature(d) || ts.isPropertyDeclaration(d) || ts.isPropertyAssignment(d) || ts.isShorthandPropertyAssignment(d) || ts.isGetAccessor(d);
      if (axis && (isMember || ts.isParameter(d))) {
        const mates = isMember ? (d.parent.members ?? d.parent.properties ?? []) : d.parent.parameters;
        const want = tw?.mate ?? PAIR.get(nm);
        const counterpart = [...mates].some((m) => m !== d && m.name && ts.isIdentifier(m.name) && (want ? m.name.text === want : named(m.name.text) && axisOf(named(m.name.text)) !== axisOf(axis)));
        const corner = [...mates].some((m) => m.name && ts.isIdentifier(m.name) && m.name.text === "v"); // {h, v}: radii along the two axes
        if (counterpart && !corner && (ts.isPropertyAssignment(d) || ts.isShorthandPropertyAssignment(d) || numeric(c.getTypeAtLocation(d)))) r = axis;
      } else if (unit && (isMember || ts.isParameter(d))) { try { if (ts.isPropertyAssignment(d) || ts.isShorthandPropertyAssignment(d) || numeric(c.getTypeAtLocation(d))) r = unit; } catch { /* untyped */ } }
    }
    seedMemo.set(d, r); return r;
  };
  // const x = …, y = … in one scope: the names state the axes
  const localAxis = (d) => {
    if (!ts.isIdentifier(d.name)) return null; const nm = d.name.text, tw = named(nm) ? null : twin(nm), axis = named(nm) ?? tw?.axis; const want = tw?.mate ?? PAIR.get(nm); if (!axis || !want) return null;
    if (!numeric(c.getTypeAtLocation(d.name))) return null;
    const st = d.parent?.parent; if (!st || !ts.isVariableStatement(st) || !st.parent.statements) return null;
    return st.parent.statements.some((s) => ts.isVariableStatement(s) && s.declarationList.declarations.some((e) => e !== d && ts.isIdentifier(e.name) && e.name.text === want)) ? axis : null;
  };
  const memo = new Map();
  const ofDecl = (d, depth) => {
    const s = seed(d); if (s) return s;
    if (memo.has(d)) return memo.get(d); memo.set(d, null);
    let r = null;
    if (ts.isVariableDeclaration(d) && ts.isIdentifier(d.name)) {
      const u = timed(d.name.text) ?? localAxis(d);
      if (u) r = u;
      else {
        const ws = (F.writes.get(d) ?? []).filter((w) => w.expr && !w.elem && !w.keys);
        const ds = ws.map((w) => dim(w.expr, depth + 1)).filter((x) => x);
        const one = ds.length ? ds.reduce((p, q) => p && merge(p, q)) : null;
        // an extent given a name that states no axis is a size, usable along both
        if (one && ws.length && ws.length === (F.writes.get(d) ?? []).length && (!isExt(one) || states(d.name.text))) r = one;
      }
    } else if (ts.isBindingElement(d) && ts.isObjectBindingPattern(d.parent)) {
      const nm = (d.propertyName ?? d.name).getText(); const t = c.getTypeAtLocation(d.parent); const p = t.getProperty?.(nm);
      const ds = new Set((p?.declarations ?? []).map(seed).filter(Boolean)); if (ds.size === 1) r = [...ds][0];
    }
    memo.set(d, r); return r;
  };
  const states = (nm) => named(nm) !== null || /(^|[a-z0-9])(W|H|X|Y|Width|Height|Left|Right|Top|Bottom)$|^(width|height|left|right|top|bottom|horizontal|vertical|box[WH]|[wh]\d?(?![a-zA-Z]))|[a-z](Width|Height|Left|Right|Top|Bottom|X|Y)[A-Z]/.test(nm);
  const text = (e) => { try { return (c.getTypeAtLocation(e).flags & ts.TypeFlags.StringLike) !== 0; } catch { return false; } };
  const isK = (e) => { e = skip(e); return ts.isNumericLiteral(e) || (ts.isPrefixUnaryExpression(e) && ts.isNumericLiteral(e.operand)); };
  const kval = (e) => { e = skip(e); if (ts.isNumericLiteral(e)) return Number(e.text); if (ts.isIdentifier(e)) { const d = P.declsOf(e)[0]; if (d && ts.isVariableDeclaration(d) && d.initializer && ts.isNumericLiteral(skip(d.initializer))) return Number(skip(d.initializer).text); } return NaN; };
  // what a call that only rounds or prints a number was given
  const shown = (x) => {
    x = skip(x); if (!ts.isCallExpression(x)) return null;
    if (ts.isPropertyAccessExpression(x.expression) && /^to(Fixed|Precision|String)$/.test(x.expression.name.text)) { try { return numeric(c.getTypeAtLocation(x.expression.expression)) ? x.expression.expression : null; } catch { return null; } }
    if (ts.isIdentifier(x.expression) && (x.expression.text === "String" || x.expression.text === "parseFloat") && x.arguments.length === 1) return x.arguments[0];
    const gs = P.callees(x); if (gs.length !== 1 || !x.arguments.length) return null; const g = gs[0];
    if (!g.parameters.length || !ts.isIdentifier(g.parameters[0].name) || timed(g.parameters[0].name.text) || !numeric(c.getTypeAtLocation(g.parameters[0]))) return null;
    if (!shows.has(g)) { const t = c.typeToString(c.getReturnTypeOfSignature(c.getSignatureFromDeclaration(g))); const nums = g.parameters.filter((q) => numeric(c.getTypeAtLocation(q))).length; const body = g.body?.getText() ?? ""; shows.set(g, (nums === 1 || g.parameters[1]?.initializer || g.parameters[1]?.questionToken) && body.length < 300 && ((t === "string" && /toFixed|String\(|\$\{|Number|round/.test(body)) || (t === "number" && /Math\.(round|floor|ceil|trunc)\(|toFixed/.test(body)))); }
    return shows.get(g) ? x.arguments[0] : null;
  };
  const shows = new Map();
  const dim = (e, depth = 0) => {
    e = skip(e); if (depth > 14) return null;
    const inner = shown(e); if (inner) return dim(inner, depth + 1);
    if (ts.isIdentifier(e)) { const d = P.declsOf(e)[0]; return d && !isFn(d) ? ofDecl(d, depth) : null; }
    if (ts.isPropertyAccessExpression(e)) { const ds = new Set(P.declsOf(e).map((d) => (P.files.includes(d.getSourceFile()) || /lib\.dom/.test(d.getSourceFile().fileName) ? seed(d) : null))); return ds.size === 1 ? [...ds][0] : null; }
    if (ts.isBinaryExpression(e)) {
      const k = e.operatorToken.kind;
      if (k === K.PlusToken && text(e)) return null;
      if (k === K.PlusToken || k === K.MinusToken) { const a = dim(e.left, depth + 1), b = dim(e.right, depth + 1); if (a && b && axisOf(a) !== axisOf(b)) return null; if (!a || !b) return a ?? b; if (axisOf(a) === a && axisOf(a) !== "H" && a !== "V") return a; return k === K.MinusToken ? (isExt(a) || axisOf(a) === axisOf(b) && !isExt(b) ? ext(a) : a) : merge(a, b); }
      if (k === K.QuestionQuestionToken || k === K.BarBarToken) { const a = dim(e.left, depth + 1), b = dim(e.right, depth + 1); return !a && isExt(b) ? null : merge(a, b); } // the other extent as a default
      if (k === K.AsteriskToken || k === K.SlashToken) {
        const a = dim(e.left, depth + 1), b = dim(e.right, depth + 1);
        if (k === K.AsteriskToken && (a === "s" && kval(e.right) === 1000 || b === "s" && kval(e.left) === 1000)) return "ms";
        if (k === K.SlashToken && a === "ms" && kval(e.right) === 1000) return "s";
        if (k === K.AsteriskToken && a === "ms" && kval(e.right) === 0.001) return "s";
        if ((a === "ms" || a === "s") && !b) { const v = kval(e.right); return v === 1000 ? null : isK(e.right) ? a : null; }
        // halves and doubles of an extent stay on its axis; any other proportion of it is a size
        const keeps = (x, d) => isK(x) && (!isExt(d) || [1, 2, 0.5].includes(Math.abs(kval(x))));
        if (a && keeps(e.right, a)) return a; if (b && k === K.AsteriskToken && keeps(e.left, b)) return b;
        return null;
      }
      return null;
    }
    if (ts.isPrefixUnaryExpression(e)) return dim(e.operand, depth + 1);
    if (ts.isConditionalExpression(e)) { const a = dim(e.whenTrue, depth + 1), b = dim(e.whenFalse, depth + 1); return a && b ? merge(a, b) : isK(e.whenTrue) ? b : isK(e.whenFalse) ? a : null; }
    if (ts.isCallExpression(e)) {
      const t = e.expression.getText();
      if (/^Math\.(round|floor|ceil|abs|max|min|trunc)$/.test(t) || t === "Number") { const ds = e.arguments.map((a) => dim(a, depth + 1)); if (ds.length === 1) return ds[0]; const one = ds.filter(Boolean); const m = one.length ? one.reduce((p, q) => p && merge(p, q)) : null; return m && e.arguments.every((a, i) => ds[i] || isK(a)) ? m : null; }
      const gs = P.callees(e); if (gs.length === 1 && numeric(c.getTypeAtLocation(e))) { const nm = P.fnName(gs[0]).split(/[.>#]/).pop(); return timed(nm); }
      return null;
    }
    return null;
  };
  const WORD = { h: "horizontal", v: "vertical", H: "horizontal", V: "vertical", ms: "milliseconds", s: "seconds" };
  const space = (a) => axisOf(a) === "H" || axisOf(a) === "V";
  const clash = (a, b) => space(a) === space(b) && axisOf(a) !== axisOf(b);
  const agree = (a, b) => axisOf(a) === axisOf(b);
  // two sums that mirror each other, in one statement or function that is all about it, turn the plane
  const sums = new Map();
  const turnSum = (n, a, b) => { let st = n; while (st.parent && !ts.isBlock(st.parent) && !ts.isSourceFile(st.parent) && !isFn(st.parent) && !ts.isCaseClause(st.parent)) st = st.parent; if (!sums.has(st)) { const l = []; walk(st, (m) => { if (ts.isBinaryExpression(m) && (m.operatorToken.kind === K.PlusToken || m.operatorToken.kind === K.MinusToken)) { const x = dim(m.left), y = dim(m.right); if (x && y && clash(x, y) && space(x)) l.push([axisOf(x), axisOf(y), m]); } }); sums.set(st, l); } const l = sums.get(st); const subtract = (m) => m.operatorToken.kind === K.MinusToken; return l.some(([x, y, m]) => m !== n && m.operatorToken.kind !== n.operatorToken.kind && (x === axisOf(b) || x === axisOf(a)) && subtract(m) !== subtract(n)); };
  const within = (n, t) => { let p = n.parent; while (ts.isParenthesizedExpression(p)) p = p.parent; return ts.isCallExpression(p) && p.expression.getText() === t; };
  const strip = (e) => P.text(e, 60).replace(/\s+/g, "");
  const report = (ok, n, kind, what, a, b) => { const fn = P.enclosingFn(n); if (!ctx.isFixture(n)) ctx.count(a === "ms" || a === "s" ? "times put together" : "lengths put together"); ctx.oblige(ok, n, "dimension", `${P.fnId(fn)}|${kind}|${what}`, `${kind}: a ${WORD[b]} quantity meets a ${WORD[a]} one in ${P.text(n, 100)}`); };
  // functions that turn one axis into the other on purpose (writing modes, rotated painting)
  const TURNS = ctx.opts.turns ?? TURNING;
  const turning = (n) => { for (let f = P.enclosingFn(n); f; f = P.enclosingFn(f)) if (TURNS.has(`${P.rel(f)}#${P.fnName(f).replace(/>λ/g, "")}`)) return true; return TURNS.has(P.rel(n)); };
  const group = (pairs, n, kind) => { // [target dim, actual dim, node, name]: a lone crossing is wrong, two that mirror each other are a transposition
    const ax = pairs.filter(([a, b]) => space(a) && space(b)).map(([a, b]) => axisOf(a) + axisOf(b));
    for (const [a, b, x, nm] of pairs) if (space(a) === space(b)) report(agree(a, b) || (space(a) && ax.includes("HV") && ax.includes("VH")) || turning(x), x, kind, nm, a, b);
  };
  for (const f of P.files) walk(f, (n) => {
    if (ts.isTypeNode(n)) return false;
    if (ts.isBinaryExpression(n)) {
      const k = n.operatorToken.kind;
      if ([K.PlusToken, K.MinusToken, K.PlusEqualsToken, K.MinusEqualsToken].includes(k)) {
        if (text(n)) return;
        const a = dim(n.left), b = dim(n.right);
        // w + h is half a perimeter; every other sum across the axes is wrong
        if (a && b && (agree(a, b) || clash(a, b))) report(agree(a, b) || (isExt(a) && isExt(b) && (k === K.PlusToken || within(n, "Math.abs"))) || turnSum(n, a, b) || turning(n), n, "sum", strip(n), a, b);
      } else if ([K.LessThanToken, K.GreaterThanToken, K.LessThanEqualsToken, K.GreaterThanEqualsToken].includes(k)) {
        const a = dim(n.left), b = dim(n.right);
        if (a && b && (agree(a, b) || clash(a, b))) report(agree(a, b) || (isExt(a) && isExt(b)) || turning(n), n, "comparison", strip(n), a, b);
      } else if (k === K.EqualsToken) {
        const l = skip(n.left); const a = ts.isPropertyAccessExpression(l) ? dim(l) : ts.isIdentifier(l) ? (P.declsOf(l)[0] ? seed(P.declsOf(l)[0]) ?? (ts.isVariableDeclaration(P.declsOf(l)[0]) ? timed(l.text) ?? localAxis(P.declsOf(l)[0]) : null) : null) : null; const b = a && dim(n.right);
        if (a && b && (agree(a, b) || clash(a, b))) {
          // mirrored swap in neighbouring statements
          const sib = n.parent?.parent && ts.isBlock(n.parent.parent) ? n.parent.parent.statements : [];
          const mirrored = sib.some((s) => s !== n.parent && ts.isExpressionStatement(s) && ts.isBinaryExpression(s.expression) && s.expression.operatorToken.kind === K.EqualsToken && agree(dim(s.expression.left), b) && agree(dim(s.expression.right), a));
          report(agree(a, b) || mirrored || turning(n), n, "assignment", strip(n), a, b);
        }
      }
    } else if (ts.isVariableDeclaration(n) && ts.isIdentifier(n.name) && n.initializer && timed(n.name.text)) {
      const a = timed(n.name.text), b = dim(n.initializer); if (b === "ms" || b === "s") report(a === b, n, "assignment", n.name.text, a, b);
    } else if (ts.isVariableDeclaration(n) && ts.isIdentifier(n.name) && n.initializer && localAxis(n)) {
      const a = localAxis(n), b = dim(n.initializer);
      if (b && space(b)) { const tw = named(n.name.text) ? null : twin(n.name.text), want = tw?.mate ?? PAIR.get(n.name.text); const mate = n.parent.parent.parent.statements.flatMap((s) => (ts.isVariableStatement(s) ? [...s.declarationList.declarations] : [])).find((e) => ts.isIdentifier(e.name) && e.name.text === want); const mb = mate?.initializer && dim(mate.initializer); report(agree(a, b) || (mb && space(mb) && agree(mb, a)) || (isExt(a) && isExt(b) && mate?.initializer && strip(mate.initializer) === strip(n.initializer)) || turning(n), n, "declaration", n.name.text, a, b); }
    } else if (ts.isObjectLiteralExpression(n)) {
      const pairs = [];
      const texts = new Map(); for (const p of n.properties) if (ts.isPropertyAssignment(p)) texts.set(strip(p.initializer), (texts.get(strip(p.initializer)) ?? 0) + 1);
      for (const p of n.properties) if (ts.isPropertyAssignment(p) || ts.isShorthandPropertyAssignment(p)) { const a = seed(p); const v = ts.isPropertyAssignment(p) ? p.initializer : p.name; const b = a && dim(v); if (a && b && !(isExt(a) && isExt(b) && !agree(a, b) && ts.isPropertyAssignment(p) && texts.get(strip(p.initializer)) > 1)) pairs.push([a, b, p, p.name.getText()]); } // one size for both: a square
      group(pairs, n, "member");
    } else if (ts.isCallExpression(n) || ts.isNewExpression(n)) {
      for (const g of P.callees(n)) { const pairs = []; g.parameters.forEach((p, i) => { const a = ts.isIdentifier(p.name) ? seed(p) : null, x = n.arguments?.[i]; const b = a && x && !ts.isSpreadElement(x) ? dim(x) : null; if (a && b) pairs.push([a, b, x, p.name.getText()]); }); group(pairs, n, "argument"); }
    } else if (ts.isReturnStatement(n) && n.expression) {
      const g = P.enclosingFn(n), u = g && timed(P.fnName(g).split(/[.>#]/).pop()); if (u && numeric(c.getTypeAtLocation(n.expression))) { const b = dim(n.expression); if (b === "ms" || b === "s") report(u === b, n, "result", P.fnName(g), u, b); }
    } else if (ts.isTemplateExpression(n)) {
      const pairs = []; let before = n.head.text, place = null;
      for (const sp of n.templateSpans) {
        const after = sp.literal.text; const m = /^(ms|s)(?![A-Za-z0-9_-])/.exec(after); const b = dim(sp.expression);
        if (m && (b === "ms" || b === "s")) report(b === m[1], sp.expression, "unit", strip(sp.expression), m[1], b);
        // the place in the markup this value is written to
        const at = /(?:^|[\s"'<])(x|x1|x2|cx|width|y|y1|y2|cy|height)=["']$/.exec(before); const st = /(?:^|[\s;"'{])(left|right|width|min-width|max-width|margin-left|margin-right|padding-left|padding-right|top|bottom|height|min-height|max-height|margin-top|margin-bottom|padding-top|padding-bottom)\s*:\s*$/.exec(before);
        const a = at ? axisOf(named(at[1])) : st && /^px/.test(after) ? (/left|right|width/.test(st[1]) ? "H" : "V")
          : /translate(?:3d)?\(\s*$/.test(before) ? "H" : place === "tr" && /^(px)?[ ,]+\s*$/.test(before) ? "V"
          : /viewBox=["']$/.test(before) ? "H" : /^vb[012]$/.test(place ?? "") && /^\s+$/.test(before) ? ["V", "H", "V"][Number(place[2])] : null;
        place = /translate(?:3d)?\(\s*$/.test(before) ? "tr" : /viewBox=["']$/.test(before) ? "vb0" : /^vb[012]$/.test(place ?? "") && /^\s+$/.test(before) ? "vb" + (Number(place[2]) + 1) : null;
        if (a && b && space(b)) pairs.push([a, b, sp.expression, strip(sp.expression)]);
        before = after;
      }
      group(pairs, n, "markup");
    }
  });
  ctx.expectFixture("fxSum|sum", "fxBuild|member", "fxLocal|sum", "fxArg|argument", "fxTime|sum", "fxUnit|unit", "fxMark|markup", "fxName|assignment");
  if (ctx.fixtureHits.some((h) => /#ok/.test(h))) ctx.anchor(false, "a correct use was reported: " + ctx.fixtureHits.filter((h) => /#ok/.test(h)).join(", "));
  ctx.floor("lengths put together", 1500); ctx.floor("times put together", 100);
}
const TURNING = new Set([]);
