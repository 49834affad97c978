// Nothing to build: the checks are plain node programs over the installed TypeScript compiler.
import { ts } from "../lib/program.mjs";
console.log("typescript", ts.version, "node", process.version);
