import { bundle } from "../lib/bundle.mjs";
import { World } from "../lib/world.mjs";

export const meta = { bounds: "every number from 999000 to 10000999; every number and half-number near the limits, as number and text; every text of up to 6 characters of an 8-character alphabet" };

export async function run(ctx) {
  const b = await bundle({ ids: "lib/digitraffic-common/src/marine/id_utils.ts" });
  const w = new World({});
  w.stdout.push = () => 0;
  const { ids } = b.instantiate(w);
  const ref = (n) => {
    if (!Number.isInteger(n) || n < 1000000 || n > 9999999) return false;
    let s = 0;
    for (let i = 0, m = Math.floor(n / 10), k = 2; i < 6; i++, k++) { s += (m % 10) * k; m = Math.floor(m / 10); }
    return s % 10 === n % 10;
  };
  const one = (c, n, asText) => {
    const r = ids.isValidIMO(asText ? String(n) : n);
    c.check(r === ref(n), "imo", () => `${asText ? "text " : ""}${n}: ${r}`);
    return r;
  };
  {
    await ctx.explore("all IMO numbers", (c) => {
      const lo = 999000 + 1000 * c.choose("thousand", 9002);
      let k = 0;
      for (let n = lo; n < lo + 1000; n++) if (one(c, n)) k++;
      return String(k);
    }, { sync: true });
  }
  await ctx.explore("IMO numbers", (c) => {
    let n = c.choose("d1", 10);
    for (let i = 0; i < 5; i++) n = n * 10 + c.choose("d", [0, 1, 5, 9]);
    let k = 0;
    for (let x = 0; x < 10; x++) if (one(c, n * 10 + x)) k++;
    c.equal(k, n >= 100000 ? 1 : 0, "one-check-digit");
    return String(one(c, n * 10 + (n % 7), true));
  }, { sync: true });
  await ctx.explore("IMO limits", (c) => {
    const base = c.choose("base", [0, 999999, 1000000, 9999999, 10000000, 91673320, 9167332]);
    const n = base - 300 + c.choose("off", 601);
    const frac = c.choose("frac", [0, 0.5, 0.25]);
    return [one(c, n + frac), one(c, -n)];
  }, { sync: true });
  await ctx.explore("MMSI", (c) => {
    const base = c.choose("base", [0, 1e8, 999999999, 230927000, 1e9, 1e12, 555555555]);
    const n = base - 300 + c.choose("off", 601) + c.choose("frac", [0, 0.5]);
    const want = Number.isInteger(n) && n >= 1e8 && n <= 999999999;
    c.check(ids.isValidMMSI(n) === want, "mmsi", `${n}`);
    c.check(ids.isValidMMSI(String(n)) === want, "mmsi-text", `${n}`);
    c.check(ids.isValidMMSI(-n) === false, "mmsi-negative", "");
    return want;
  }, { sync: true });
  await ctx.explore("not numbers", (c) => {
    const v = c.choose("v", [NaN, Infinity, -Infinity, "", "abc", "91673x2"]);
    c.equal([ids.isValidIMO(v), ids.isValidMMSI(v)], [false, false], "not-a-number");
    return v;
  }, { sync: true });
  const alpha = ["F", "I", "f", "i", "A", "z", "1", "\n", "Ä"];
  await ctx.explore("LOCODE", (c) => {
    const n = c.choose("n", [0, 1, 2, 3, 4, 5, 6]);
    let s = "";
    for (let i = 0; i < n; i++) s += c.choose("ch", i < 2 && n > (ctx.thorough ? 9 : 5) ? alpha.slice(0, 3) : alpha);
    const want = s.length === 5 && s.slice(0, 2).toUpperCase() === "FI" && [...s.slice(2)].every((x) => /[A-Za-z]/.test(x));
    c.check(ids.isValidLOCODE(s) === want, "locode", JSON.stringify(s));
    return want;
  }, { sync: true });
}
