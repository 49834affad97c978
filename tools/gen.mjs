#!/usr/bin/env node
// Regenerates properties.jsonl and MANIFEST.json from tools/props.mjs (run by hand after editing).
import fs from "node:fs";
import { PROPS } from "./props.mjs";
const out = new URL("..", import.meta.url).pathname;
fs.writeFileSync(out + "properties.jsonl", PROPS.map((p) => JSON.stringify({
  id: p.id, title: p.title, statement: p.statement,
  quantifier: { over: p.over, text: p.q }, why_tests_cant: p.why,
  anchors: { files: p.files, mechanism: p.mech.map(([name, where]) => ({ name, where })) },
})).join("\n") + "\n");
const man = {
  version: 1, setup_cmd: "node tools/setup.mjs",
  checks: PROPS.filter((p) => !p.na).map((p) => ({
    property: p.id, quick_cmd: `node check.mjs ${p.id}`, thorough_cmd: `node check.mjs ${p.id} --thorough`,
    technique: p.technique, level: "proof", level_note: p.note,
  })),
  not_applicable: PROPS.filter((p) => p.na).map((p) => ({ property: p.id, reason: p.na })),
};
fs.writeFileSync(out + "MANIFEST.json", JSON.stringify(man, null, 1) + "\n");
for (const p of PROPS) { if (p.title.length > 80) console.log("title too long", p.id); }
console.log(PROPS.length, "properties,", man.checks.length, "checks");
