// Where data from outside the program enters: the captured page, HTTP requests,
// parsed files and network bodies. Used as the source set of value-flow rules.
import { ts, K, isFn, skip } from "./program.mjs";

export function mayBeString(P, e) {
  const t = P.type(e); const parts = t.isUnion?.() ? t.types : [t];
  return parts.some((u) => !(u.flags & (ts.TypeFlags.NumberLike | ts.TypeFlags.BooleanLike | ts.TypeFlags.Null | ts.TypeFlags.Undefined | ts.TypeFlags.BigIntLike | ts.TypeFlags.StringLiteral | ts.TypeFlags.Void | ts.TypeFlags.Never)));
}
export function externalSource(P, e) {
  if (ts.isPropertyAccessExpression(e) || ts.isElementAccessExpression(e)) {
    const ds = P.declsOf(ts.isPropertyAccessExpression(e) ? e.name : e);
    for (const d of ds) if (/\/src\/capture\/types\.ts$/.test(d.getSourceFile().fileName) && (ts.isPropertySignature(d) || ts.isPropertyDeclaration(d))) return "captured page content";
    if (ts.isPropertyAccessExpression(e)) { const rt = P.type(e.expression); if (/^(IncomingMessage)$/.test(rt.symbol?.name ?? "") && ["url", "headers", "method", "rawHeaders"].includes(e.name.text)) return e.name.text === "method" ? null : "HTTP request"; }
  }
  if (ts.isCallExpression(e)) {
    const x = P.externalName(e.expression) ?? "";
    if (/^playwright-core:(Page|Frame|Locator|ElementHandle)\.(evaluate|evaluateHandle|content|textContent|innerText|getAttribute|title|url|\$eval|\$\$eval)$/.test(x)) return "captured page content";
    if (x === "lib:JSON.parse") return "parsed JSON";
    if (/^lib:Body\.(text|json|arrayBuffer|blob|bytes)$/.test(x)) return "network response";
    if (/^playwright-core:APIResponse\.(text|json|body)$/.test(x)) return "network response";
  }
  return null;
}
