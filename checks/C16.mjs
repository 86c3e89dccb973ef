import { bundle } from "../lib/bundle.mjs";
import { World } from "../lib/world.mjs";

export const meta = { bounds: "every pair of arrays of up to 3 elements over 5 values; every array of up to 4 (quick) / 5 (thorough) elements over 4 keys; every value tree of up to 3 (quick) / 4 (thorough) levels; every environment over two variables" };

export async function run(ctx) {
  const b = await bundle({ u: "lib/digitraffic-common/src/utils/utils.ts" });
  const { u } = b.instantiate(new World({}));
  const o1 = { a: 1 }, o2 = { a: 1 };
  const vals = ["a", "b", o1, o2, undefined];
  const arr = (c, l) => {
    const k = c.choose(`${l}:n`, 6);
    if (k === 0) return null;
    if (k === 1) return undefined;
    return Array.from({ length: k - 2 }, () => c.choose(l, vals));
  };
  await ctx.explore("same values", (c) => {
    const x = arr(c, "x"), y = arr(c, "y");
    const bx = x && [...x], by = y && [...y];
    const want = !x || !y ? !x && !y : x.every((v) => y.includes(v)) && y.every((v) => x.includes(v));
    c.check(u.bothArraysHasSameValues(x, y) === want, "same-values", () => JSON.stringify([x, y]));
    c.equal([x, y], [bx, by], "changed");
    return want;
  }, { sync: true });

  await ctx.explore("first and last", (c) => {
    const n = c.choose("n", ctx.thorough ? 6 : 5);
    const a = Array.from({ length: n }, (_, i) => ({ i, k: c.choose("k", [2, 1, 10, -3]) }));
    const f = c.choose("fn", [undefined, "asc", "desc"]);
    const key = f === "asc" ? (x) => x.k : f === "desc" ? (x) => -x.k : undefined;
    const before = [...a];
    const first = c.bool("first");
    let r, t;
    try { r = first ? u.getFirst(a, key) : u.getLast(a, key); } catch (e) { t = e; }
    c.equal(a.map((x) => x.i), before.map((x) => x.i), "array-changed");
    if (n === 0) { c.check(t instanceof Error, "empty-accepted", ""); return "empty"; }
    c.check(!t, "throws", String(t));
    if (!key) c.check(r === a[first ? 0 : n - 1], "element", "");
    else {
      c.check(a.includes(r), "element", "");
      const want = first ? Math.min(...a.map(key)) : Math.max(...a.map(key));
      c.equal(key(r), want, first ? "first-in-order" : "last-in-order", () => JSON.stringify(a));
    }
    return r.i;
  }, { sync: true });

  const when = new Date(5);
  const leaf = ["t", 0, null, undefined, false, when];
  const tree = (c, d) => {
    const k = c.choose("node", d === 0 ? leaf.length : leaf.length + 6);
    if (k < leaf.length) return leaf[k];
    const t = d - 1;
    return [() => ({}), () => [], () => ({ x: tree(c, t) }), () => ({ drop: tree(c, t) }), () => ({ drop: 1, y: tree(c, t), also: 2 }), () => [tree(c, t), { drop: 1, z: "drop" }]][k - leaf.length]();
  };
  const ref = (v, keys) => {
    if (v === null || typeof v !== "object" || v instanceof Date) return v;
    if (Array.isArray(v)) return v.map((x) => ref(x, keys));
    return Object.fromEntries(Object.entries(v).filter(([k]) => !keys.includes(k)).map(([k, x]) => [k, ref(x, keys)]));
  };
  await ctx.explore("omitting keys", (c) => {
    const v = tree(c, ctx.thorough ? 4 : 3);
    const keys = c.choose("keys", [[], ["drop"], ["drop", "also"], ["x"], ["nope"]]);
    const before = ref(v, []);
    const got = u.omitDeep(v, ...keys);
    c.equal(got, ref(v, keys), "omitted", JSON.stringify(keys));
    c.equal(v, before, "changed");
    if (v && typeof v === "object" && !(v instanceof Date)) c.check(got !== v, "not-a-copy", "");
    return got;
  }, { sync: true });

  await ctx.explore("environment", (c) => {
    const env = {};
    const a = c.choose("A", [undefined, "", "x"]);
    if (a !== undefined) env.A = a;
    const w = new World({ env });
    const { u } = b.instantiate(w);
    const set = c.choose("set", [undefined, "A", "B", "region", "override"]);
    if (set === "A" || set === "B") u.setEnvVariable(set, "new");
    if (set === "region") u.setEnvVariableAwsRegion("eu-x");
    if (set === "override") u.setSecretOverideAwsRegionEnv("eu-y");
    const want = { ...(a !== undefined ? { A: a } : {}), ...(set === "A" || set === "B" ? { [set]: "new" } : {}), ...(set === "region" ? { AWS_REGION: "eu-x" } : {}), ...(set === "override" ? { SECRET_OVERRIDE_AWS_REGION: "eu-y" } : {}) };
    c.equal({ ...w.env }, want, "environment");
    for (const k of ["A", "B", "C"]) {
      let v, t;
      try { v = u.getEnvVariable(k); } catch (e) { t = e; }
      c.equal([v, !!t], [want[k], want[k] === undefined], "get", k);
      if (t) c.check(String(t.message).includes(k), "names-variable", t.message);
      const s = u.getEnvVariableSafe(k);
      c.equal(s.result === "ok" ? s.value : undefined, want[k], "get-safe", k);
      c.equal(s.result, want[k] === undefined ? "error" : "ok", "get-safe", k);
      let calls = 0;
      c.equal(u.getEnvVariableOr(k, () => { calls++; return 42; }), want[k] ?? 42, "get-or", k);
      c.equal(calls, want[k] === undefined ? 1 : 0, "get-or-calls", k);
      c.equal(u.getEnvVariableOrElse(k, "else"), want[k] ?? "else", "get-or-else", k);
      c.equal(u.getEnvVariableOrElse(k, undefined), want[k], "get-or-else", k);
    }
    return want;
  }, { sync: true });

  await ctx.explore("small", (c) => {
    const v = c.choose("v", [0, "", false, NaN, null, undefined, "x", {}, new RangeError("m"), new Error("")]);
    c.equal(u.isDefined(v), v !== null && v !== undefined, "defined");
    c.equal(u.getErrorMessage(v), v instanceof Error ? `${v.name}: ${v.message}` : String(v), "error-message");
    const k = c.choose("key", ["x", "toString", "own"]);
    const o = Object.create({ x: 1 }, { own: { value: undefined } });
    c.equal(u.hasOwnPropertySafe(o, k), k === "own", "own-property");
    return [String(v), k];
  }, { sync: true });
}
