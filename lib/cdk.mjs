// The library's CDK constructs, loaded natively with the repository's own aws-cdk-lib.
import { createRequire } from "node:module";
import { mkdtempSync, mkdirSync, rmSync, writeFileSync } from "node:fs";
import path from "node:path";
import { nativeLib } from "./native.mjs";
import { LIB } from "./paths.mjs";

process.env.JSII_DEPRECATED = "quiet";
export async function cdk(files, lambdas = []) {
  const require = createRequire(path.join(LIB, "package.json"));
  const lib = await nativeLib({ ...files, stack: "aws/infra/stack/stack.ts" });
  const core = require("aws-cdk-lib");
  // everything CDK writes goes to a scratch folder, which also holds the lambda folders that assets are taken from
  const scratch = mkdtempSync(path.join(path.dirname(new URL(import.meta.url).pathname), "..", ".out", "cdk-"));
  process.on("exit", () => rmSync(scratch, { recursive: true, force: true }));
  for (const d of lambdas) { mkdirSync(path.join(scratch, "dist/lambda", d), { recursive: true }); writeFileSync(path.join(scratch, "dist/lambda", d, "x.js"), `// ${d}`); }
  process.chdir(scratch);
  // CDK keeps every token, and with it every stack, in a global table: forget those of earlier executions
  for (const v of Object.values(core.Aws)) String(v);
  const { CfnReference } = require(path.join(path.dirname(require.resolve("aws-cdk-lib")), "core/lib/private/cfn-reference.js"));
  CfnReference.referenceTable = new WeakMap();
  const generations = [];
  let pinned;
  const forget = () => {
    const m = globalThis.__cdkTokenMap;
    if (!m) return;
    if (!pinned) { pinned = new Set([...m.stringTokenMap.keys(), ...m.numberTokenMap.keys()]); return; }
    for (const t of ["stringTokenMap", "numberTokenMap"]) {
      const old = generations.length > 8 ? generations[0][t] : new Set();
      for (const key of old) if (!pinned.has(key)) m[t].delete(key);
    }
    if (generations.length > 8) generations.shift();
    generations.push({ stringTokenMap: new Set(m.stringTokenMap.keys()), numberTokenMap: new Set(m.numberTokenMap.keys()) });
  };
  const newApp = () => forget() ?? new core.App({ analyticsReporting: false, outdir: path.join(scratch, "out") });
  const q = (m) => require(`aws-cdk-lib/${m}`);
  return {
    ...lib, core, q,
    plainStack: (id = "S", props = {}) => new core.Stack(newApp(), id, props),
    dtStack: (conf = {}, id = "StackId") => {
      const { app: given, ...rest } = conf;
      return new lib.stack.DigitrafficStack(given ?? newApp(), id, {
        shortName: "SHORT", alarmTopicArn: "arn:a", warningTopicArn: "arn:w", trafficType: "Marine", production: false, stackProps: {}, ...rest,
      });
    },
    // the template without running the (slow) whole-app synthesis
    template: (stack) => JSON.parse(JSON.stringify(stack.resolve(stack._toCloudFormation()))),
    // what the aspects attached to the stack report about every construct of it
    annotate: (stack) => {
      const out = [];
      const aspects = core.Aspects.of(stack).all;
      for (const n of stack.node.findAll()) for (const a of aspects) a.visit(n);
      for (const n of stack.node.findAll()) for (const m of n.node.metadata) if (/^aws:cdk:(error|warning)$/.test(m.type)) out.push([m.type.slice(8), n.node.path, String(m.data)]);
      return out;
    },
    of: (t, type) => Object.entries(t.Resources ?? {}).filter(([, r]) => r.Type === type).map(([id, r]) => ({ id, ...r.Properties, $: r })),
  };
}
