import { bundle } from "../lib/bundle.mjs";
import { World } from "../lib/world.mjs";
import { response } from "../lib/apigw.mjs";

export const meta = { bounds: "every sequence of up to 3 (quick) / 4 (thorough) builder calls, every ready-made response, through every response template" };
const LIMIT = 6 * 1024 * 1024;

export async function run(ctx) {
  const b = await bundle({
    lr: "lib/digitraffic-common/src/aws/types/lambda-response.ts",
    resp: "lib/digitraffic-common/src/aws/infra/api/response.ts",
    ir: "lib/digitraffic-common/src/aws/runtime/digitraffic-integration-response.ts",
  });
  const { lr, resp, ir } = b.instantiate(new World({}));
  const T = new Date(Date.UTC(2024, 1, 29, 23, 59, 58, 999));
  const LM = "Thu, 29 Feb 2024 23:59:58 GMT";
  const SUN = "Tue, 20 Dec 2022 00:00:00 GMT";
  const templates = [
    ["default", (mt) => ir.DigitrafficIntegrationResponse.ok(mt), {}],
    ["deprecated", (mt) => ir.DigitrafficIntegrationResponse.ok(mt, true), { Deprecation: "true" }],
    ["sunset", (mt) => ir.DigitrafficIntegrationResponse.ok(mt, true, "2022-12-20"), { Deprecation: "true", Sunset: SUN }],
    ["not-deprecated", (mt) => ir.DigitrafficIntegrationResponse.ok(mt, false, "2022-12-20"), {}],
  ];
  const bodies = ["plain \"q\" ä€😀 $x #set($a=1) ## \\ '\n", { a: [1, null, "ä"], $b: "$input" }, [], "  ", "x".repeat(5000)];
  const text = (v) => (typeof v === "string" ? v : JSON.stringify(v));

  function client(c, r, want, mediaFree = false) {
    const [tn, mk, extra] = c.choose("template", templates);
    const mt = mediaFree ? c.choose("media", ["application/json", "text/csv"]) : "application/json";
    const integ = mk(mt);
    c.equal(integ.statusCode, "200", "integration-status");
    c.equal(Object.keys(integ.responseTemplates), [mt], "integration-media");
    const got = response(integ.responseTemplates[mt], r, mt);
    c.check(got.body === want.body, "body-changed", () => `sent ${JSON.stringify(want.body.slice(0, 200))} client reads ${JSON.stringify(got.body.slice(0, 200))}`);
    c.equal(got.status, want.status, "status");
    const h = { ...got.headers };
    const etag = h.ETag;
    delete h.ETag;
    c.check(/^(W\/)?"[\x21\x23-\x7e]*"$/.test(etag ?? ""), "bad-etag", String(etag).slice(0, 100));
    const wh = { "Content-Type": want.status === 200 ? mt : "text/plain", "Access-Control-Allow-Origin": "*", ...extra };
    if (want.file !== undefined) wh["Content-Disposition"] = `attachment; filename="${want.file}"`;
    if (want.time) wh["Last-Modified"] = LM;
    c.equal(h, wh, "headers", tn);
    return [tn, got.status, Object.keys(h).length, etag];
  }
  const etags = new Map();
  const uniq = (c, etag, body) => {
    c.check((etags.get(etag) ?? body) === body, "etag-shared", "two bodies share an entity tag");
    etags.set(etag, body);
    c.check((etags.get("rev" + body) ?? etag) === etag, "etag-unstable", "one body, two entity tags");
    etags.set("rev" + body, etag);
  };

  const ops = [
    ...bodies.map((v) => ["body", v]),
    ["status", 404], ["status", 200], ["status", 204],
    ["file", "data-1.json"], ["file", "FN $x.csv"],
    ["time", T], ["time", T.toISOString()], ["time", undefined], ["debug"],
  ];
  await ctx.explore("builder sequences", (c) => {
    const init = c.choose("create", [undefined, bodies[1]]);
    const bld = init === undefined ? lr.LambdaResponseBuilder.create() : lr.LambdaResponseBuilder.create(init);
    const ref = { status: 200, body: init };
    for (let i = 0; i < (ctx.thorough ? 4 : 3); i++) {
      const k = c.choose(`op${i}`, ops.length + 1);
      if (k === 0) break;
      const [op, a] = ops[k - 1];
      if (op === "body") { bld.withBody(a); ref.body = a; }
      if (op === "status") { bld.withStatus(a); ref.status = a; }
      if (op === "file") { if (/[$\\]/.test(a)) c.prune(); bld.withFileName(a); ref.file = a; }
      if (op === "time") { bld.withTimestamp(a); if (a) ref.time = T; }
      if (op === "debug") bld.withDebug();
    }
    if (ref.body === undefined) {
      let t;
      try { bld.build(); } catch (e) { t = e; }
      c.check(t, "empty-accepted", "");
      return "throws";
    }
    const built = bld.build();
    const stamped = built.withTimestamp(T);
    c.equal({ ...stamped, timestamp: undefined }, { ...built, timestamp: undefined }, "changed-by-timestamp");
    c.equal(stamped.timestamp, LM, "timestamp");
    const o = client(c, built, { ...ref, body: text(ref.body) });
    uniq(c, o.pop(), text(ref.body));
    return o;
  }, { sync: true });

  const R = lr.LambdaResponse;
  const RB = lr.LambdaResponseBuilder;
  const makers = [
    ["okJson", (v) => R.okJson(v), 200, "json"], ["ok", (v) => R.ok(text(v)), 200], ["okBinary", (v) => R.okBinary(Buffer.from(text(v)).toString("base64")), 200],
    ["okJson+file", (v) => R.okJson(v, "f.json"), 200, "json", "f.json"], ["ok+file", (v) => R.ok(text(v), "f.txt"), 200, "", "f.txt"], ["okBinary+file", (v) => R.okBinary(Buffer.from(text(v)).toString("base64"), "f.bin"), 200, "", "f.bin"],
    ["badRequest", (v) => R.badRequest(text(v)), 400], ["notFound", (v) => R.notFound(text(v)), 404], ["internalError", (v) => R.internalError(text(v)), 500],
    ["unauthorized", (v) => R.unauthorized(text(v)), 401], ["contentTooLarge", (v) => R.contentTooLarge(text(v)), 413], ["notImplemented", (v) => R.notImplemented(text(v)), 501],
    ["b.badRequest", (v) => RB.badRequest(text(v)), 400], ["b.notFound", (v) => RB.notFound(text(v)), 404], ["b.internalError", (v) => RB.internalError(text(v)), 500],
    ["b.unauthorized", (v) => RB.unauthorized(text(v)), 401], ["b.notImplemented", (v) => RB.notImplemented(text(v)), 501],
  ];
  await ctx.explore("ready-made", (c) => {
    const [name, mk, status, json, file] = c.choose("maker", makers);
    const v = c.choose("body", bodies);
    let r = mk(v);
    const withTime = c.bool("timestamp");
    if (withTime) {
      const r2 = r.withTimestamp(T);
      c.check(r.timestamp === undefined, "mutated", "withTimestamp changed the original");
      r = r2;
    }
    return [name, ...client(c, r, { status, body: json === "json" ? JSON.stringify(v) : text(v), file, time: withTime }, true).slice(0, 3)];
  }, { sync: true });
  await ctx.explore("default error texts", (c) => {
    const cls = c.choose("class", [R, RB]);
    const [n, s] = c.choose("kind", [["badRequest", 400], ["notFound", 404], ["internalError", 500], ["unauthorized", 401], ["notImplemented", 501]]);
    const r = cls[n]();
    const got = response(resp.RESPONSE_DEFAULT_LAMBDA, r, "application/json");
    c.equal([got.status, got.headers["Content-Type"]], [s, "text/plain"], "error-status");
    c.check(got.body.length > 0, "empty-error", n);
    return n;
  }, { sync: true });

  await ctx.explore("payload limit", (c) => {
    const unit = c.choose("unit", ["x", "ä"]);
    const delta = c.choose("delta", [-4, -3, -2, -1, 0, 1, 2, 3, 4, 9]);
    const gap = c.choose("file", [undefined, "name.txt"]);
    const mk = (s) => { const q = RB.create(s); if (gap) q.withFileName(gap); return q; };
    const size = (s) => Buffer.byteLength(JSON.stringify({ status: 200, body: "", ...(gap ? { fileName: gap } : {}), etag: mk(s).etag })) + Math.ceil(Buffer.byteLength(s) / 3) * 4;
    const w = Buffer.byteLength(unit);
    let n = Math.floor(((LIMIT / 4) * 3 - 200) / w);
    while (size(unit.repeat(n + 1)) <= LIMIT) n++;
    const s = unit.repeat(n + delta);
    const r = mk(s).build();
    const bytes = Buffer.byteLength(JSON.stringify(r));
    c.check(bytes <= LIMIT, "over-limit", String(bytes));
    if (size(s) > LIMIT) c.equal(r.status, 400, "too-large-sent");
    else { c.equal(r.status, 200, "fitting-refused"); c.check(Buffer.from(r.body, "base64").toString() === s, "body-changed", ""); }
    return [unit, r.status];
  }, { sync: true });
  ctx.assume("API Gateway's response mapping is played by velocityjs with $input, $util and $context as AWS documents them");
}
