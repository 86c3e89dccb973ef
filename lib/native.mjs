// The library's sources compiled file by file (names and module boundaries kept, as tsc does) into a scratch folder
// and loaded by node itself.  For code whose own text matters (functions shipped as source).
import { mkdtempSync, mkdirSync, rmSync, symlinkSync, writeFileSync, readdirSync } from "node:fs";
import { createRequire } from "node:module";
import path from "node:path";
import { pathToFileURL } from "node:url";
import { LIB } from "./paths.mjs";
const esbuild = createRequire("/opt/veriftools/node/package.json")("esbuild");

export async function nativeLib(files) {
  const root = path.join(path.dirname(new URL(import.meta.url).pathname), "..", ".out");
  mkdirSync(root, { recursive: true });
  const dir = mkdtempSync(path.join(root, "native-"));
  process.on("exit", () => rmSync(dir, { recursive: true, force: true }));
  const src = path.join(LIB, "src");
  const entryPoints = readdirSync(src, { recursive: true }).filter((f) => f.endsWith(".ts") && !f.endsWith(".d.ts") && !f.includes("__test__")).map((f) => path.join(src, f));
  await esbuild.build({ entryPoints, outdir: path.join(dir, "src"), outbase: src, bundle: false, format: "esm", target: "node22", platform: "node", logLevel: "silent", tsconfigRaw: { compilerOptions: { target: "es2022", useDefineForClassFields: true } } });
  writeFileSync(path.join(dir, "package.json"), '{"type":"module"}');
  symlinkSync(path.join(LIB, "node_modules"), path.join(dir, "node_modules"));
  const out = {};
  for (const [k, f] of Object.entries(files)) out[k] = await import(pathToFileURL(path.join(dir, "src", f.replace(/\.ts$/, ".js"))).href);
  return out;
}
