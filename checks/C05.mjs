import zlib from "node:zlib";
import { bundle } from "../lib/bundle.mjs";
import { World } from "../lib/world.mjs";

export const meta = { bounds: "every sequence of up to 3 (quick) / 4 (thorough) builder calls from a 19-call alphabet; every body size within 3 bytes of the payload limit, for three kinds of text" };

const REDIRECTS = [301, 302, 303, 307, 308];
const LIMIT = 6 * 1024 * 1024;

export async function run(ctx) {
  const b = await bundle({ m: "lib/digitraffic-common/src/aws/types/lambda-proxy-types.ts" });
  const { m } = b.instantiate(new World({}));
  const B = m.LambdaProxyResponseBuilder;
  const long = { a: "x".repeat(3000), b: Array.from({ length: 50 }, (_, i) => i) };
  const bin = Buffer.from([0, 255, 254, 10, 13, 34, 200, 1]);
  const T = new Date(Date.UTC(2024, 1, 29, 23, 59, 58, 999));
  const bodies = {
    small: { v: { n: 1, t: "ä" }, text: '{"n":1,"t":"ä"}' },
    long: { v: long, text: JSON.stringify(long) },
    text: { v: "plain \"q\" ä€😀\n", text: "plain \"q\" ä€😀\n" },
    longtext: { v: "äö".repeat(2000), text: "äö".repeat(2000) },
    empty: { v: "", text: "" },
    array: { v: [], text: "[]" },
    b64: { v: bin.toString("base64"), b64: true, bytes: bin },
    b64text: { v: Buffer.from("long text ".repeat(300)).toString("base64"), b64: true, bytes: Buffer.from("long text ".repeat(300)) },
  };
  const bytesOf = (x) => x.bytes ?? Buffer.from(x.text, "utf8");
  const ops = [
    ...Object.keys(bodies).map((k) => ["body", k]),
    ["status", 200], ["status", 204], ["status", 404], ["status", 307],
    ["gzip", true], ["gzip", false],
    ["type", "text/csv"],
    ["file", "a b.csv"],
    ["time", T], ["time", T.toISOString()], ["time", undefined],
    ["loc", "/there?x=1"],
    ["debug", true],
  ];
  const etags = new Map();

  function decode(c, r) {
    c.check(typeof r.body === "string" && typeof r.isBase64Encoded === "boolean", "shape", JSON.stringify(r).slice(0, 200));
    let buf = r.isBase64Encoded ? Buffer.from(r.body, "base64") : Buffer.from(r.body, "utf8");
    if (r.isBase64Encoded) c.equal(buf.toString("base64").replace(/=+$/, ""), r.body.replace(/=+$/, ""), "not-base64");
    const enc = Object.entries(r.headers ?? {}).find(([k]) => k.toLowerCase() === "content-encoding")?.[1];
    if (enc !== undefined) {
      c.equal(enc, "gzip", "encoding");
      c.check(r.isBase64Encoded, "gzip-not-binary", "compressed body must be marked base64");
      try { buf = zlib.gunzipSync(buf); } catch (e) { c.fail("labelled-gzip-but-is-not", String(e)); }
    }
    return buf;
  }
  function headersOk(c, r) {
    for (const [k, v] of Object.entries(r.headers)) {
      c.check(typeof v === "string" && /^[\x20-\x7e]*$/.test(v), "bad-header", () => `${k}: ${JSON.stringify(v)}`);
      if (k.toLowerCase() === "etag") c.check(/^(W\/)?"[\x21\x23-\x7e]*"$/.test(v), "bad-etag", () => v.slice(0, 100));
    }
  }

  await ctx.explore("call sequences", (c) => {
    let ref = { status: 200, type: "application/json", body: bodies.empty, gz: false };
    let builder;
    const how = c.choose("create", ["empty", "small", "b64", "long"]);
    if (how === "empty") builder = B.create();
    else { builder = B.create(bodies[how].v, bodies[how].b64); ref.body = bodies[how]; }
    const n = ctx.thorough ? 4 : 3;
    for (let i = 0; i < n; i++) {
      const k = c.choose(`op${i}`, ops.length + 1);
      if (k === 0) break;
      const [op, a] = ops[k - 1];
      let next;
      switch (op) {
        case "body": next = builder.withBody(bodies[a].v, bodies[a].b64 ?? false); ref.body = bodies[a]; break;
        case "status": next = builder.withStatus(a); ref.status = a; break;
        case "gzip":
          if (a && ref.body.b64) {
            let threw = false;
            try { builder.withCompression(); } catch { threw = true; }
            c.check(threw, "double-encoding-accepted", "compression of an encoded body must be refused");
            next = builder;
          } else { next = builder.withCompression(a); ref.gz = a; }
          break;
        case "type": next = builder.withContentType(a); ref.type = a; break;
        case "file": next = builder.withFileName(a); ref.file = a; break;
        case "time": next = builder.withTimestamp(a); if (a !== undefined) ref.time = T; break;
        case "loc": next = builder.withLocation(a); ref.loc = a; break;
        case "debug": next = builder.withDebug(); break;
      }
      c.check(next === builder, "not-chainable", op);
    }
    const hasBody = ref.body.v !== "";
    const optional = ref.status === 204 || REDIRECTS.includes(ref.status);
    let out;
    for (let round = 0; round < 2; round++) {
      let r;
      let threw;
      try { r = builder.build(); } catch (e) { threw = e; }
      if (!hasBody && !optional) { c.check(threw, "empty-body-accepted", `status ${ref.status}`); return "throws"; }
      if (threw) c.fail("build-threw", String(threw));
      c.equal(r.statusCode, ref.status, "status");
      headersOk(c, r);
      const h = r.headers;
      c.equal(h["Content-Type"], ref.type, "content-type");
      c.equal(h["Content-Disposition"], ref.file === undefined ? undefined : `attachment; filename="${ref.file}"`, "file-name");
      c.equal(h.Location, ref.loc, "location");
      c.equal(h["Last-Modified"], ref.time ? "Thu, 29 Feb 2024 23:59:58 GMT" : undefined, "last-modified");
      const got = decode(c, r);
      const wantBytes = bytesOf(ref.body);
      c.check(got.equals(wantBytes), "body-changed", () => `sent ${wantBytes.length} bytes, client reads ${got.length}: ${got.toString().slice(0, 80)}`);
      if (!ref.gz || ref.body.b64) c.check(!("Content-Encoding" in h), "compressed-unasked", "");
      if (ref.gz && !ref.body.b64 && hasBody) {
        const plain = Buffer.from(ref.body.text).toString("base64").length;
        const zipped = zlib.gzipSync(Buffer.from(ref.body.text)).toString("base64").length;
        if (round === 0) c.equal("Content-Encoding" in h, zipped < plain, "compression-choice");
      }
      if (!("Content-Encoding" in h)) c.equal(r.isBase64Encoded, !!ref.body.b64, "base64-flag");
      if (hasBody) {
        c.check("ETag" in h, "no-etag", "");
        const key = wantBytes.toString("latin1");
        const other = etags.get(h.ETag);
        c.check(other === undefined || other === key, "etag-shared", "two different bodies have the same entity tag");
        etags.set(h.ETag, key);
        const rev = etags.get(`rev:${key}`);
        c.check(rev === undefined || rev === h.ETag, "etag-unstable", "one body has two entity tags");
        etags.set(`rev:${key}`, h.ETag);
      }
      out = [r.statusCode, Object.keys(h).sort(), r.isBase64Encoded, got.length];
    }
    return out;
  }, { sync: true });

  await ctx.explore("ready-made responses", (c) => {
    const kind = c.choose("kind", ["internalError:500", "notImplemented:501", "badRequest:400", "notFound:404", "unauthorized:401"]);
    const arg = c.choose("arg", [undefined, "text ä", { detail: 1 }]);
    const [name, code] = kind.split(":");
    const r = arg === undefined ? B[name]() : B[name](arg);
    headersOk(c, r);
    c.equal(r.statusCode, Number(code), "status");
    const text = decode(c, r).toString();
    if (arg === undefined) c.check(text.length > 0, "empty-error", "");
    else c.equal(text, typeof arg === "string" ? arg : JSON.stringify(arg), "error-body");
    c.equal(r.headers["Content-Type"], typeof arg === "object" ? "application/json" : "text/plain", "error-type");
    return kind + typeof arg;
  }, { sync: true });
  await ctx.explore("redirect", (c) => {
    const st = c.choose("status", [undefined, ...REDIRECTS]);
    const r = B.redirect("/x", st);
    headersOk(c, r);
    c.equal([r.statusCode, r.headers.Location, r.body], [st ?? 302, "/x", ""], "redirect");
    return String(st);
  }, { sync: true });
  await ctx.explore("bad base64 argument", (c) => {
    const v = c.choose("v", [{ a: 1 }, [1]]);
    let t;
    try { B.create().withBody(v, true); } catch (e) { t = e; }
    c.check(t, "object-as-base64", "");
    try { B.create(v, true); t = undefined; } catch (e) { t = e; }
    c.check(t, "object-as-base64", "");
    return Array.isArray(v) ? "array" : "object";
  }, { sync: true });

  // payload limit: exact in bytes of the serialized response
  await ctx.explore("payload limit", (c) => {
    const unit = c.choose("unit", ["x", "ä", "\"", "b64"]);
    const gz = c.choose("gzip", [false, true]);
    if (unit === "b64" && gz) c.prune();
    const delta = c.choose("delta", [-3, -2, -1, 0, 1, 2, 3, 4, 1 << 20]);
    const mk = (s) => (unit === "b64" ? B.create(s, true) : B.create().withBody(s).withContentType("text/plain"));
    const probeBody = unit === "b64" ? "AAAA" : unit;
    const probe = mk(probeBody).build();
    // exact cost of the frame and of one unit, measured on the response itself
    const per = { x: 1, ä: 2, '"': 2, b64: 1 }[unit];
    const frame = Buffer.byteLength(JSON.stringify({ ...probe, body: "" }));
    // the ETag's length depends on the body length; build once more at full size to measure it
    let count = Math.floor((LIMIT - frame) / per);
    const text = (n) => (unit === "b64" ? "A".repeat(Math.floor(n / 4) * 4) : unit.repeat(n));
    const sizeOf = (t) => {
      // what an unlimited response would weigh
      const e = mk(t).etag;
      return Buffer.byteLength(JSON.stringify({ ...probe, headers: { ...probe.headers, ETag: e }, body: t }));
    };
    while (sizeOf(text(count)) > LIMIT) count--;
    const body = text(count + delta) + (unit === "ä" && c.bool("odd") ? "x" : "");
    const size = sizeOf(body);
    const r = gz ? mk(body).withCompression().build() : mk(body).build();
    c.check(Buffer.byteLength(JSON.stringify(r)) <= LIMIT, "over-limit", () => `response of ${Buffer.byteLength(JSON.stringify(r))} bytes`);
    if (gz) {
      c.equal(r.statusCode, 200, "compressible-refused");
      c.check(decode(c, r).toString() === body, "body-changed", "");
    } else if (size > LIMIT) c.equal(r.statusCode, 400, "too-large-sent");
    else { c.equal(r.statusCode, 200, "fitting-refused", `${size} bytes`); c.check(r.body === body, "body-changed", ""); }
    return [unit, gz, r.statusCode];
  }, { sync: true });
}
