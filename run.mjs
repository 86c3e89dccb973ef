// node /verif/run.mjs <ID> [--thorough] [--replay FILE]
process.env.TZ ??= "UTC";
process.env.TZ = "UTC";
process.env.CI = "1";
import { readFileSync } from "node:fs";
const { Ctx, finish } = await import("./lib/core.mjs");
const { coordinate, remote, report } = await import("./lib/parallel.mjs");
const args = process.argv.slice(2);
const id = args[0];
const tier = args.includes("--thorough") ? "thorough" : "quick";
const ri = args.indexOf("--replay");
const replay = ri >= 0 ? JSON.parse(readFileSync(args[ri + 1], "utf8")) : undefined;
process.on("unhandledRejection", (e) => { (globalThis.__unhandled ??= []).push(e); });
const ctx = new Ctx(id, { tier, seed: Number(process.env.VERIF_SEED ?? 1), replay });
let code = 2;
try {
  const mod = await import(`./checks/${id}.mjs`);
  if (args.includes("--worker")) {
    ctx.remote = remote(ctx);
    let error;
    try { await mod.run(ctx); } catch (e) { error = String(e?.stack ?? e); }
    await report(ctx, error);
  }
  if (mod.meta?.parallel && !replay && !args.includes("--serial")) {
    const errors = await coordinate(ctx, import.meta.filename, args);
    for (const e of errors) console.error("HARNESS ERROR", e);
    code = finish(ctx, mod.meta);
    if (errors.length && code === 0) code = 2;
  } else {
    await mod.run(ctx);
    code = finish(ctx, mod.meta ?? {});
  }
} catch (e) {
  console.error("HARNESS ERROR", e);
  code = ctx.violations.size ? finish(ctx, {}) : 2;
}
process.exit(code);
