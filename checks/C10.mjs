import { gunzipSync } from "node:zlib";
import { bundle } from "../lib/bundle.mjs";
import { World } from "../lib/world.mjs";

export const meta = { bounds: "every event with two parameters over the value alphabet; every text of up to 3 (quick) / 4 (thorough) characters of a 9-character alphabet; every hour of 12 (quick) / 40 (thorough) days under five time zones" };

export async function run(ctx) {
  const b = await bundle({
    ev: "lib/digitraffic-common/src/utils/lambda-proxy-event.ts",
    b64: "lib/digitraffic-common/src/utils/base64.ts",
    z: "lib/digitraffic-common/src/utils/zod-utils.ts",
    d: "lib/digitraffic-common/src/utils/date-utils.ts",
  });
  const { ev, b64, z, d } = b.instantiate({});

  await ctx.explore("query parameters", (c) => {
    const singles = [undefined, "", "x"];
    const multis = [undefined, null, ["x"], ["y", "x"], ["x", "x"], [""], ["a,b"]];
    const single = {}, multi = {};
    const want = {};
    const arrays = c.choose("arrays", [[], ["k1"], ["k2"], ["k1", "k2"], ["other"]]);
    for (const k of ["k1", "k2"]) {
      const s = c.choose(`s:${k}`, singles), m = c.choose(`m:${k}`, multis);
      if (s !== undefined) single[k] = s;
      if (m !== undefined) multi[k] = m;
      const vals = Array.isArray(m) ? m : s !== undefined ? [s] : undefined;
      if (vals) want[k] = arrays.includes(k) || vals.length > 1 ? [...vals] : vals[0];
    }
    const nul = (o, l) => (Object.keys(o).length === 0 && c.bool(l) ? null : o);
    const event = { queryStringParameters: nul(single, "null-s"), multiValueQueryStringParameters: nul(multi, "null-m"), path: "/x", body: "b" };
    const before = JSON.stringify(event);
    const got = arrays.length === 0 && c.bool("default") ? ev.parseQueryParams(event) : ev.parseQueryParams(event, arrays);
    c.equal({ ...got }, want, "parameters", before);
    c.equal(JSON.stringify(event), before, "event-changed");
    return want;
  }, { sync: true });

  const chars = ["a", "=", "\n", "\0", "ä", "€", "😀", "+", "é"];
  await ctx.explore("base64", (c) => {
    const n = c.choose("n", ctx.thorough ? 5 : 4);
    let s = "";
    for (let i = 0; i < n; i++) s += c.choose("ch", chars);
    const e = b64.encodeUtf8ToBase64(s);
    c.check(/^[A-Za-z0-9+/]*={0,2}$/.test(e) && e.length % 4 === 0, "not-base64", e);
    c.equal(e, Buffer.from(s, "utf8").toString("base64"), "encoding");
    c.equal(b64.decodeBase64ToUtf8(e), s, "round-trip");
    c.equal(b64.encodeBase64(s, "utf8"), e, "encoding");
    c.equal(b64.decodeBase64(e, "utf8"), s, "round-trip");
    if (/^[\x00-\x7f]*$/.test(s)) { c.equal(b64.encodeAsciiToBase64(s), e, "ascii"); c.equal(b64.decodeBase64ToAscii(e), s, "ascii"); }
    const zip = b64.compressBuffer(Buffer.from(s));
    c.equal(gunzipSync(zip).toString(), s, "compressed");
    c.equal(b64.decodeBase64ToUtf8(Buffer.from(zip).toString("base64"), true), s, "compressed");
    return e;
  }, { sync: true });

  const texts = ["", "0", "12", "-1.5", "1e3", "007", "abc", "12x", "1,5", "2024-02-29T10:00:00Z", "2024-02-29", "2024-13-01", "2023-02-29T25:00:00Z", "x", " y"];
  await ctx.explore("zod", (c) => {
    const t = c.choose("text", [...texts, undefined, 5, null]);
    const kind = c.choose("kind", ["number", "date", "nonempty"]);
    const message = c.choose("message", [undefined, "custom text"]);
    const opt = c.bool("optional");
    const s = { number: z.zStringToNumber, date: z.zStringToDate, nonempty: z.zNonEmptyString }[kind](message);
    const r = (opt ? s.optional() : s).safeParse(t);
    let ok, v;
    if (t === undefined && opt) { ok = true; v = undefined; }
    else if (typeof t !== "string") ok = false;
    else if (kind === "nonempty") { ok = t !== ""; v = t; }
    else if (t === "") { ok = true; v = undefined; }
    else if (kind === "number") { v = Number(t); ok = !Number.isNaN(v); }
    else { v = new Date(t); ok = !Number.isNaN(v.getTime()); }
    c.equal(r.success, ok, "accepted", `${kind} ${JSON.stringify(t)}`);
    if (ok) c.equal(r.data, v, "value");
    else {
      c.check(r.error.issues.length === 1 && r.error.issues[0].message.length > 0, "issue", JSON.stringify(r.error.issues));
      if (message && typeof t === "string") c.equal(r.error.issues[0].message, message, "issue-text");
    }
    return [kind, ok, String(v)];
  }, { sync: true });

  const days = ["2024-02-28", "2024-02-29", "2024-03-10", "2024-03-31", "2024-10-27", "2024-11-03", "2024-12-31", "2023-01-01", "1970-01-01", "1969-12-31", "2038-01-19", "2100-03-01"];
  if (ctx.thorough) for (let m = 1; m <= 12; m++) for (const dd of ["01", "15"]) days.push(`2025-${String(m).padStart(2, "0")}-${dd}`);
  const zones = ["UTC", "Europe/Helsinki", "America/New_York", "Asia/Kolkata", "Pacific/Kiritimati"];
  await ctx.explore("dates", (c) => {
    const tz = c.choose("zone", zones);
    const day = c.choose("day", days);
    const h = c.choose("hour", 24);
    const ms = c.choose("ms", [0, 1, 1859999, 3599999]);
    const old = process.env.TZ;
    process.env.TZ = tz;
    try {
      const t = Date.parse(`${day}T00:00:00Z`) + h * 3600000 + ms;
      const date = new Date(t);
      const iso = date.toISOString();
      c.equal(d.dateToUTCString(date, d.MYSQL_DATETIME_FORMAT), `${iso.slice(0, 10)} ${iso.slice(11, 16)}`, "utc-format", tz);
      c.equal(d.dateToUTCString(date, "dd.MM.yyyy'T'HH:mm:ss.SSS"), `${iso.slice(8, 10)}.${iso.slice(5, 7)}.${iso.slice(0, 4)}T${iso.slice(11, 23)}`, "utc-format", tz);
      c.equal(date.getTime(), t, "date-changed");
      c.equal(d.dateFromIsoString(iso).getTime(), t, "parse");
      c.equal(d.dateFromIsoString(`${iso.slice(0, 23)}+02:00`).getTime(), t - 7200000, "parse-offset");
      const o = new Date(t + 86399999);
      c.equal([d.countDiffMs(date, o), d.countDiffMs(o, date), d.countDiffInSeconds(date, o)], [86399999, -86399999, 86399.999], "difference");
      c.equal(d.EPOCH.getTime(), 0, "epoch");
      return iso;
    } finally { process.env.TZ = old; }
  }, { sync: true });
  await ctx.explore("bad dates", (c) => {
    const s = c.choose("text", ["", "x", "2024-13-01", "2024-02-30T99:00:00Z", "undefined", "24:00"]);
    let t;
    try { d.dateFromIsoString(s); } catch (e) { t = e; }
    c.check(t instanceof Error, "bad-date-accepted", s);
    return s;
  }, { sync: true });
}
