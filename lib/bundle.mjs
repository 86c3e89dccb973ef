// Builds code from /repo's current working tree into a single closed function
// whose sources of nondeterminism (clock, timers, randomness, environment,
// external packages) are parameters chosen by the harness.  Calling the
// function again gives a fresh instance of every module in the bundle.
import { createRequire } from "node:module";
import { existsSync, statSync } from "node:fs";
import path from "node:path";
import vm from "node:vm";
import { makePg, pgUtils } from "./fakepg.mjs";

import { LIB, REPO } from "./paths.mjs";
export { LIB, REPO };
const toolRequire = createRequire("/opt/veriftools/node/package.json");
const esbuild = toolRequire("esbuild");
export const libRequire = createRequire(path.join(LIB, "package.json"));

// packages that are compiled into the bundle, so that they see the virtual globals
const BUNDLED = new Set([
  "es-toolkit", "date-fns", "@date-fns/tz", "zod", "ky", "velocityjs", "geojson-validation", "pg-promise",
  "assert-options", "spex", "pg-minify", "etag",
]);

function pkgName(spec) {
  const p = spec.split("/");
  return spec.startsWith("@") ? `${p[0]}/${p[1]}` : p[0];
}

function firstExisting(base) {
  const noext = base.replace(/\.(js|mjs)$/, "");
  for (const c of [noext + ".ts", noext + ".mts", noext + "/index.ts", noext + ".json", base, base + ".json", noext + ".js"]) {
    if (existsSync(c) && statSync(c).isFile()) return c;
  }
  return undefined;
}

const cache = new Map();

/**
 * entries: {alias: path relative to /repo}
 * opts.stubs: package names taken from the `stubs` argument at instantiation
 * opts.bundled: extra packages to compile in
 */
export async function bundle(entries, opts = {}) {
  const key = JSON.stringify([entries, opts.stubs ?? [], opts.bundled ?? [], opts.virtual ?? {}]);
  if (cache.has(key)) return cache.get(key);
  const stubs = new Set([...(opts.stubs ?? []), "pg", "pg/lib/utils"]);
  const bundled = new Set([...BUNDLED, ...(opts.bundled ?? [])]);
  const plugin = {
    name: "verif",
    setup(b) {
      b.onResolve({ filter: /^verif-entry$/ }, () => ({ path: "entry", namespace: "verif" }));
      b.onLoad({ filter: /^entry$/, namespace: "verif" }, () => ({
        contents: Object.entries(entries)
          .map(([a, f]) => `export * as ${a} from ${JSON.stringify(path.join(REPO, f))};`)
          .join("\n"),
        loader: "ts",
        resolveDir: LIB,
      }));
      b.onLoad({ filter: /.*/, namespace: "ext" }, (a) => ({
        contents: `module.exports = __req(${JSON.stringify(a.path)});`,
        loader: "js",
      }));
      b.onResolve({ filter: /.*/ }, (a) => {
        if (a.kind === "entry-point") return undefined;
        const spec = a.path;
        if (stubs.has(spec)) return { path: spec, namespace: "ext" };
        if (a.importer.includes("/node_modules/")) return undefined;
        if (spec.startsWith("@digitraffic/common")) {
          let rest = spec.slice("@digitraffic/common".length).replace(/^\//, "");
          if (rest === "" ) rest = "dist/index.js";
          rest = rest.replace(/^dist\/test\//, "src/__test__/").replace(/^dist\//, "src/");
          const f = firstExisting(path.join(LIB, rest));
          if (f) return { path: f };
          return { path: spec, namespace: "ext" };
        }
        if (spec.startsWith(".") || spec.startsWith("/")) {
          const abs = spec.startsWith("/") ? spec : path.join(a.resolveDir, spec);
          if (a.importer.includes("/node_modules/")) return undefined;
          for (const [suffix, name] of Object.entries(opts.virtual ?? {})) {
            if (abs.replace(/\.(js|ts)$/, "").endsWith(suffix)) return { path: name, namespace: "ext" };
          }
          const f = firstExisting(abs);
          if (f) return { path: f };
          return { path: spec, namespace: "ext" };
        }
        const name = pkgName(spec);
        if (stubs.has(name)) return { path: spec, namespace: "ext" };
        if (bundled.has(name) || bundled.has(spec)) {
          if (a.importer.includes("/node_modules/")) return undefined;
          if (a.pluginData === "again") return undefined;
          return b.resolve(spec, { kind: a.kind, resolveDir: LIB, importer: "", pluginData: "again" });
        }
        return { path: spec, namespace: "ext" };
      });
    },
  };
  const r = await esbuild.build({
    entryPoints: ["verif-entry"],
    bundle: true,
    write: false,
    format: "esm",
    platform: "node",
    mainFields: ["module", "main"],
    conditions: ["import", "node"],
    target: "node22",
    plugins: [plugin],
    logLevel: "silent",
    legalComments: "none",
    absWorkingDir: LIB,
    tsconfigRaw: { compilerOptions: { target: "es2022", useDefineForClassFields: true } },
    define: { "import.meta.url": '"file:///bundle.js"', "globalThis.fetch": "fetch" },
  });
  let code = r.outputFiles[0].text;
  const m = /\nexport\s*\{([\s\S]*?)\};\s*(?:\/\/.*\s*)?$/.exec(code);
  if (!m) throw new Error("bundle: no export clause");
  const names = m[1].split(",").map((s) => s.trim()).filter(Boolean).map((s) => {
    const [l, e] = s.split(/\s+as\s+/);
    return `${e ?? l}: ${l}`;
  });
  code = code.slice(0, m.index);
  const isAsync = opts.topLevelAwait === true;
  const src = `(${isAsync ? "async " : ""}function(__req, Date, setTimeout, clearTimeout, setInterval, clearInterval, setImmediate, clearImmediate, performance, process, console, Math, fetch, queueMicrotask){\nconst require = __req;\n${code}\nreturn {${names.join(", ")}};\n})`;
  const fn = new vm.Script(src, { filename: `bundle-${Object.keys(entries).join("-")}.js` }).runInThisContext();
  const out = {
    /** fresh instance; g: virtual globals, stubs: {package: module} */
    instantiate(g = {}, stubMods = {}) {
      delete globalThis[Symbol.for("pgPromiseDatabasePool")]; // pg-promise would keep every instance alive
      const req = (name) => {
        if (name in stubMods) return stubMods[name];
        if (name === "pg") return makePg({ connect: () => Promise.reject(new Error("no database")) });
        if (name === "pg/lib/utils") return pgUtils;
        if (stubs.has(name) || stubs.has(pkgName(name))) {
          return missing(name);
        }
        if (name.startsWith("node:")) return process.getBuiltinModule(name);
        const bi = process.getBuiltinModule?.(name);
        if (bi) return bi;
        try {
          return libRequire(name);
        } catch (e) {
          if (e && (e.code === "MODULE_NOT_FOUND" || e.code === "ERR_PACKAGE_PATH_NOT_EXPORTED")) return missing(name);
          throw e;
        }
      };
      return fn(req, g.Date ?? Date, g.setTimeout ?? setTimeout, g.clearTimeout ?? clearTimeout,
        g.setInterval ?? setInterval, g.clearInterval ?? clearInterval,
        g.setImmediate ?? setImmediate, g.clearImmediate ?? clearImmediate,
        g.performance ?? performance, g.process ?? process, g.console ?? console, g.Math ?? Math,
        g.fetch ?? globalThis.fetch, g.queueMicrotask ?? queueMicrotask);
    },
    code,
    inputs: r.metafile,
  };
  cache.set(key, out);
  return out;
}

/** A package that is not installed here: usable as an import, fails only when it is used. */
function missing(name) {
  const fail = () => {
    throw new Error(`package ${name} is not available to this harness`);
  };
  const handler = {
    get(_t, p) {
      if (p === "__esModule") return undefined;
      if (typeof p === "symbol") return undefined;
      return missing(`${name}.${String(p)}`);
    },
    apply: fail,
    construct: fail,
    has: () => true,
  };
  return new Proxy(function missingPackage() {}, handler);
}
