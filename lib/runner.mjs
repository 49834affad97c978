// Runs one property check, writes evidence, prints verdict lines.
import fs from "node:fs";
import path from "node:path";
import { fileURLToPath } from "node:url";
import { loadProgram, REPO } from "./program.mjs";
import { Flow } from "./flow.mjs";
import { Throws } from "./throws.mjs";
import { Resources } from "./resources.mjs";

const VERIF = path.resolve(path.dirname(fileURLToPath(import.meta.url)), "..");

export class Ctx {
  constructor(id, tier, opts = {}) {
    this.id = id; this.tier = tier; this.opts = opts;
    this.P = loadProgram({ root: REPO, extraFiles: opts.fixtures, literals: !opts.keepNames, keep: opts.keepFns });
    this.violations = []; this.obligations = 0; this.discharged = 0; this.counts = {}; this.samples = []; this.notes = [];
    this.fixtureHits = [];
  }
  get F() { return this._F ??= new Flow(this.P); }
  get T() { return this._T ??= new Throws(this.P, this.F); }
  get R() { return this._R ??= new Resources(this.P, this.F, this.T); }
  isFixture(node) { return !!node && typeof node.getSourceFile === "function" && node.getSourceFile().fileName.includes("__verif_fixture"); }
  /** one proof obligation: ok=true discharged, otherwise a violation */
  oblige(ok, node, rule, key, msg) {
    if (this.isFixture(node)) { if (!ok) this.fixtureHits.push(rule + ":" + key); return ok; }
    this.obligations++;
    if (ok) { this.discharged++; if (this.samples.length < 12) this.samples.push(`${rule}: ${node && node.getSourceFile ? this.P.loc(node) : ""} ${key}`); return true; }
    this.violations.push({ rule, key: `${rule}|${key}`, where: node && node.getSourceFile ? this.P.loc(node) : "-", msg });
    return false;
  }
  count(name, n = 1) { this.counts[name] = (this.counts[name] ?? 0) + n; }
  /** analysed instances must not silently vanish */
  floor(name, min) {
    const have = this.counts[name] ?? 0;
    if (have < min) this.violations.push({ rule: "coverage", key: `coverage|${name}`, where: "-", msg: `only ${have} instances of "${name}" found (expected at least ${min}); the constructs this property is anchored on are gone` });
  }
  anchor(ok, what) { if (!ok) this.violations.push({ rule: "anchor", key: `anchor|${what}`, where: "-", msg: `anchor missing: ${what}` }); return ok; }
  /** every positive example must have been reported by the same engine on this run */
  expectFixture(...keys) {
    for (const k of keys) if (!this.fixtureHits.some((h) => h.includes(k))) this.violations.push({ rule: "selftest", key: `selftest|${k}`, where: "-", msg: `built-in positive example "${k}" was not reported: the rule is blind` });
  }
}

export function knownFindings() {
  const f = path.join(VERIF, "known-findings.txt");
  if (!fs.existsSync(f)) return [];
  return fs.readFileSync(f, "utf8").split("\n").map((l) => /^finding: property=(\S+) key=(.+?) :: (.*)$/.exec(l)).filter(Boolean).map((m) => ({ property: m[1], key: m[2], what: m[3] }));
}

export async function runCheck(id) {
  const t0 = Date.now();
  const tier = process.env.VERIF_TIER === "thorough" || process.argv.includes("--thorough") ? "thorough" : "quick";
  const mod = await import(path.join(VERIF, "checks", `${id}.mjs`));
  const ctx = new Ctx(id, tier, { keepNames: mod.keepNames, keepFns: mod.keepFns, fixtures: mod.fixtures ? Object.fromEntries(Object.entries(mod.fixtures).map(([k, v]) => [path.join(REPO, "src", k), v])) : undefined });
  mod.run(ctx);
  const known = knownFindings().filter((k) => k.property === id);
  const unlisted = [], listed = [];
  for (const v of ctx.violations) { const k = known.find((x) => x.key === v.key); if (k) listed.push([v, k]); else unlisted.push(v); }
  const wall = (Date.now() - t0) / 1000;
  const ev = {
    property: id, tier, seed: Number(process.env.VERIF_SEED ?? 1), level: mod.level ?? "proof",
    coverage: {
      obligations: ctx.obligations, discharged: ctx.discharged + listed.length,
      checker_cmd: `node /verif/check.mjs ${id}`,
      trusted_base: ["TypeScript 5.9.3 parser, binder and type checker", ...(mod.trusted ?? [])],
      files_analysed: ctx.P.files.filter((f) => !f.fileName.includes("__verif_fixture")).length,
      functions_analysed: ctx.P.functions.filter((f) => !ctx.isFixture(f)).length,
      call_sites_in_program: ctx.P.calls.length,
      instances: ctx.counts, rule: mod.rule, samples: ctx.samples,
      positive_examples_reported: ctx.fixtureHits.length, notes: ctx.notes,
      known_findings: listed.map(([v]) => v.key),
      explanation: mod.rule,
    },
    assumptions: mod.assumptions ?? [],
    wall_s: wall, violations: unlisted.length,
  };
  fs.mkdirSync(path.join(VERIF, "evidence"), { recursive: true });
  fs.writeFileSync(path.join(VERIF, "evidence", `${id}.json`), JSON.stringify(ev, null, 1) + "\n");
  for (const [v, k] of listed) console.log(`KNOWN-FINDING: property=${id} ${k.what} (${v.where})`);
  if (unlisted.length) {
    const rp = path.join(VERIF, "evidence", `${id}.violations.txt`);
    fs.writeFileSync(rp, unlisted.map((v) => `${v.where} [${v.rule}] ${v.msg}\n    key=${v.key}`).join("\n") + `\n\nreplay: node /verif/check.mjs ${id}\n`);
    for (const v of unlisted) console.log(`${v.where} [${v.rule}] ${v.msg}`);
    console.log(`VIOLATION property=${id} replay=${rp}`);
    process.exitCode = 1;
  } else {
    console.log(`ok ${id}: ${ev.coverage.discharged}/${ctx.obligations} obligations, ${JSON.stringify(ctx.counts)} ${wall.toFixed(1)}s`);
  }
}
