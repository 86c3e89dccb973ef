// Nothing to build: checks bundle /repo's sources themselves. Verify the tools they need are present.
import { existsSync } from "node:fs";
for (const f of ["/opt/veriftools/node/node_modules/esbuild", "/opt/veriftools/node/node_modules/typescript"]) if (!existsSync(f)) { console.error("missing", f); process.exit(1); }
if (Number(process.versions.node.split(".")[0]) < 22) { console.error("node 22 needed"); process.exit(1); }
console.log("ok");
