#!/usr/bin/env node
// node check.mjs <PROPERTY> [--thorough]
import { runCheck } from "./lib/runner.mjs";
const id = process.argv[2];
if (!/^[A-Z]\d{2,3}$/.test(id ?? "")) { console.error("usage: check.mjs <PROPERTY>"); process.exit(2); }
await runCheck(id);
