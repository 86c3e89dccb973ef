import { EventEmitter } from "node:events";
import zlib from "node:zlib";
import { bundle } from "../lib/bundle.mjs";
import { World } from "../lib/world.mjs";
import { makePg } from "../lib/fakepg.mjs";

export const meta = { parallel: true, bounds: "every URL check with up to 2 callbacks against every response that deviates from the expected one in at most 1 (quick) / 2 (thorough) ways, with up to 1 callback in at most 2 / 3 ways; sequences of 2 checks; up to 2 (quick) / 3 (thorough) database checks with every count, row shape, query fault and step timing" };

const GEO = "application/geo+json;charset=UTF-8";

export async function run(ctx) {
  const b = await bundle({
    u: "lib/digitraffic-common/src/aws/infra/canaries/url-checker.ts",
    d: "lib/digitraffic-common/src/aws/infra/canaries/database-checker.ts",
  }, { stubs: ["Synthetics", "vitest", "@aws-sdk/client-api-gateway", "@smithy/fetch-http-handler", "@aws-sdk/client-secrets-manager"] });

  function setup(respond, { env = {}, w = new World({ env }), pg, execStep } = {}) {
    const steps = [];
    const keyCalls = [];
    const conf = new Proxy({}, { get: () => () => conf });
    const synthetics = {
      getConfiguration: () => conf,
      // as the real one: an asynchronous step that fails when the callback fails
      async executeHttpStep(name, options, callback) {
        steps.push({ name, options: structuredClone(options) });
        const { res, send } = respond(options, steps.length - 1);
        const p = (async () => callback(res))();
        p.catch(() => {});
        send();
        await p;
      },
      executeStep: execStep,
    };
    class APIGatewayClient { async send(cmd) { keyCalls.push(cmd.input); return { id: cmd.input.apiKey, value: cmd.input.includeValue ? `key-of-${cmd.input.apiKey}` : undefined }; } }
    class GetApiKeyCommand { constructor(input) { this.input = input; } }
    class SecretsManager {
      async getSecretValue() { return { SecretString: JSON.stringify({ username: "u", password: "p", host: "h/db", ro_host: "r/db", proxy_host: "ph/db", proxy_ro_host: "pr/db" }) }; }
      async send() { return this.getSecretValue(); }
    }
    class GetSecretValueCommand { constructor(input) { this.input = input; } }
    const m = b.instantiate(w, {
      Synthetics: { __esModule: true, default: synthetics }, vitest: { expect: () => { throw new Error("vitest"); } },
      "@aws-sdk/client-api-gateway": { APIGatewayClient, GetApiKeyCommand }, "@smithy/fetch-http-handler": { FetchHttpHandler: class {} },
      "@aws-sdk/client-secrets-manager": { SecretsManager, SecretsManagerClient: SecretsManager, GetSecretValueCommand }, ...(pg ? { pg } : {}),
    });
    return { m, w, steps, keyCalls };
  }
  const goodJson = { type: "FeatureCollection", features: [{ type: "Feature", geometry: { type: "Point", coordinates: [25, 60] }, properties: { n: "äö€" } }] };

  function makeResponse(c, base) {
    const r = {
      status: c.deviate("status", [base.status, ...[200, 204, 304, 400, 403, 404, 500, undefined].filter((x) => x !== base.status)]),
      type: c.deviate("type", [base.type, ...["application/json", "text/plain", GEO, undefined].filter((x) => x !== base.type)]),
      cors: c.deviate("cors", [true, false]),
      gzip: c.deviate("gzip", [false, true]),
      chunks: c.deviate("chunks", [1, 3, 40]),
      body: c.deviate("body", ["good", "other-json", "broken-geometry", "not-json", "empty"]),
      extra: c.deviate("extra", [true, false]),
    };
    r.text = { good: JSON.stringify(goodJson), "other-json": '{"a":1}', "broken-geometry": JSON.stringify({ ...goodJson, features: [{ type: "Feature", geometry: { type: "Point", coordinates: [1] }, properties: {} }] }), "not-json": "Not JSON {", empty: "" }[r.body];
    return r;
  }
  function respondWith(r) {
    return () => {
      const res = new EventEmitter();
      res.statusCode = r.status;
      res.statusMessage = "msg";
      res.headers = {};
      if (r.type !== undefined) res.headers["content-type"] = r.type;
      if (r.cors) res.headers["access-control-allow-origin"] = "*";
      if (r.gzip) res.headers["content-encoding"] = "gzip";
      if (r.extra) res.headers["x-extra"] = "1";
      let bytes = Buffer.from(r.text);
      if (r.gzip) bytes = zlib.gzipSync(bytes);
      const n = Math.max(1, Math.ceil(bytes.length / r.chunks));
      return { res, send: () => queueMicrotask(() => { for (let i = 0; i < bytes.length; i += n) res.emit("data", bytes.subarray(i, i + n)); res.emit("end"); }) };
    };
  }
  const isJson = (r) => { try { JSON.parse(r.text); return true; } catch { return false; } };
  const ok2xx = (r) => r.status >= 200 && r.status <= 299;
  const common = (r, type) => ok2xx(r) && r.cors && r.type === type;
  // name, real callback, reference verdict
  const callbacks = [
    ["json", (u) => u.ResponseChecker.forJson().check(), (r) => common(r, "application/json")],
    ["json-body", (u, s) => u.ResponseChecker.forJson().checkJson((j, body) => s(j, body)), (r) => common(r, "application/json") && isJson(r), "json"],
    ["json-body-fails", (u) => u.ResponseChecker.forJson().checkJson(() => { throw new Error("mine"); }), () => false],
    ["csv", (u) => u.ResponseChecker.forCSV().check(), (r) => common(r, "text/csv")],
    ["text-body", (u, s) => u.ContentChecker.checkResponse((body) => s(undefined, body)), () => true, "text"],
    ["text-body-fails", (u) => u.ContentChecker.checkResponse(() => { throw new Error("mine"); }), () => false],
    ["content-json", (u, s) => u.ContentChecker.checkJson((j, body) => s(j, body)), isJson, "json"],
    ["content-type", (u) => u.ContentTypeChecker.checkContentType("application/json"), (r) => common(r, "application/json")],
    ["geojson", (u) => u.GeoJsonChecker.validFeatureCollection(), (r) => common(r, GEO) && r.body === "good"],
    ["geojson-fn-fails", (u) => u.GeoJsonChecker.validFeatureCollection(() => { throw new Error("mine"); }), () => false],
    ["header", (u) => u.HeaderChecker.checkHeaderExists("x-extra"), (r) => r.extra],
    ["no-header", (u) => u.HeaderChecker.checkHeaderMissing("x-extra"), (r) => !r.extra],
    ["mine", () => async () => {}, () => true],
    ["mine-rejects", () => async () => { throw new Error("mine"); }, () => false],
    ["mine-throws", () => () => { throw new Error("mine"); }, () => false],
  ];

  async function one(c, maxCallbacks) {
    const apiKey = c.choose("key", [undefined, "secret-key"]);
    const url = c.choose("url", ["/api/v1/x", "/api/a?b=1&auth=SECRET"]);
    const kind = c.choose("kind", ["200", "404", "400", "403", "status"]);
    const media = kind === "403" ? c.choose("media", [undefined, "text/plain"]) : undefined;
    const cbs = [];
    if (kind === "200") { const n = c.choose("callbacks", maxCallbacks); for (let i = 0; i < n; i++) cbs.push(c.choose("callback", callbacks)); }
    if (kind === "status") cbs.push(c.choose("callback", callbacks));
    const wantStatus = kind === "status" ? 404 : Number(kind);
    const wantType = kind === "200" || kind === "status" ? (cbs.some((x) => x[0].startsWith("geojson")) ? GEO : cbs.some((x) => x[0] === "csv") ? "text/csv" : "application/json") : kind === "403" ? media ?? "application/json" : "text/plain";
    const r = makeResponse(c, { status: wantStatus, type: wantType });
    const { m, w, steps } = setup(respondWith(r));
    const checker = new m.u.UrlChecker("host.example", apiKey);
    const seen = [];
    const real = cbs.map((x) => x[1](m.u, (j, body) => seen.push([x[3], j, body])));
    const p = { 200: () => checker.expect200(url, ...real), 404: () => checker.expect404(url), 400: () => checker.expect400(url), 403: () => checker.expect403WithoutApiKey(url, media), status: () => checker.expectStatus(404, url, real[0]) }[kind]();
    const res = await w.settle(p);
    c.check(!res.hung, "hangs", "");
    const pass = r.status === wantStatus && (kind === "200" || kind === "status" ? cbs.every((x) => x[2](r)) : r.type === wantType);
    c.equal(res.ok, pass, pass ? "healthy-endpoint-fails" : "failure-not-reported", () => `${kind} callbacks ${cbs.map((x) => x[0])} response ${JSON.stringify(r)} ${res.error ?? ""}`);
    for (const [k, j, body] of seen) { c.equal(body, r.text, "body-changed"); if (k === "json") c.equal(j, JSON.parse(r.text), "json-changed"); }
    if (pass) c.equal(seen.length, cbs.filter((x) => x[3]).length, "callback-skipped");
    c.equal(steps.length, 1, "one-request");
    const o = steps[0].options;
    c.equal([o.hostname, o.path, o.method, o.protocol], ["host.example", url, "GET", "https:"], "request");
    const key = Object.entries(o.headers).find(([k]) => k.toLowerCase() === "x-api-key")?.[1];
    c.equal(key, kind === "403" ? undefined : apiKey, "api-key");
    c.equal([o.headers["Digitraffic-User"], o.headers["Accept-Encoding"]], ["internal-digitraffic-canary", "gzip"], "headers");
    c.check(/^[a-zA-Z0-9\-_. ]+$/.test(steps[0].name) && !steps[0].name.includes("SECRET"), "step-name", steps[0].name);
    c.check(steps[0].name.includes(String(wantStatus)), "step-name", steps[0].name);
    return [kind, res.ok, cbs.map((x) => x[0]).join()];
  }
  await ctx.explore("url checks", (c) => one(c, 3), { bound: 1, replayEvery: 997 });
  await ctx.explore("url checks, fewer callbacks", (c) => one(c, 2), { bound: ctx.thorough ? 3 : 2 });
  if (ctx.thorough) await ctx.explore("url checks, 2 deviations", (c) => one(c, 3), { bound: 2 });

  await ctx.explore("two checkers", async (c) => {
    const r = { status: 403, type: "application/json", cors: true, text: "{}", chunks: 1 };
    const { m, w, steps, keyCalls } = setup(respondWith(r), { env: { hostname: "env.host", apiKeyId: "id-env" } });
    const list = [];
    for (let i = 0; i < 3; i++) {
      const k = c.choose("make", ["none", "plain", "key", "create", "v2"]);
      if (k === "none") break;
      const r2 = k === "plain" ? { ok: true, value: new m.u.UrlChecker("h1") } : k === "key" ? { ok: true, value: new m.u.UrlChecker("h1", "K1") } : await w.settle(k === "create" ? m.u.UrlChecker.create("h2", "id2") : m.u.UrlChecker.createV2());
      c.check(r2.ok, "create", String(r2.error));
      list.push([r2.value, { plain: undefined, key: "K1", create: "key-of-id2", v2: "key-of-id-env" }[k], { plain: "h1", key: "h1", create: "h2", v2: "env.host" }[k]]);
    }
    for (const [ch, key, host] of list) {
      for (const method of c.choose("order", [["expect404", "expect403WithoutApiKey"], ["expect403WithoutApiKey", "expect404"]])) {
        await w.settle(ch[method]("/p"));
        const o = steps.at(-1).options;
        c.equal([o.hostname, o.headers["x-api-key"]], [host, method === "expect404" ? key : undefined], "api-key-leak", method);
      }
      c.equal(ch.done(), "Canary successful", "done");
    }
    return [list.map((x) => x[1]), steps.length];
  });

  // database canaries
  const counts = [0, 1, 2, 7, "no-count", "error", "two-rows"];
  const verdict = (kind, n) => (kind === "expectOne" ? n === 1 : kind === "expectZero" ? n === 0 : n >= 1);
  await ctx.explore("database checks", async (c) => {
    const open = new Set();
    const n = 1 + c.choose("n", ctx.thorough ? 3 : 2);
    const list = Array.from({ length: n }, (_, i) => [c.choose("check", ["expectOne", "expectZero", "expectOneOrMore"]), c.choose("count", counts), i]);
    const timing = c.choose("steps", ["now", "async", "later"]);
    const queries = [];
    const server = {
      connect(conn) { open.add(conn.id); conn.host = conn.config.host; return Promise.resolve(); },
      query(conn, text) {
        if (/^discard/i.test(text)) return { command: "DISCARD", rows: [], fields: [] };
        queries.push(text);
        const v = list[Number(/t(\d)/.exec(text)[1])][1];
        if (v === "error") return Promise.reject(new Error("relation does not exist"));
        if (v === "no-count") return { command: "SELECT", fields: [{ name: "n", dataTypeID: 20 }], rows: [["1"]] };
        const row = (x) => [String(x)];
        return { command: "SELECT", fields: [{ name: "count", dataTypeID: 20 }], rows: v === "two-rows" ? [row(1), row(1)] : [row(v)] };
      },
      close(conn) { open.delete(conn.id); return Promise.resolve(); },
    };
    const ran = [];
    const w = new World({ env: { SECRET_ID: "s", DB_APPLICATION: "a", AWS_REGION: "eu-west-1" } });
    const execStep = (name, fn, conf) => {
      const go = () => { ran.push(name); try { fn(); } catch (e) { if (!conf.continueOnStepFailure) throw e; } };
      if (timing === "now") { go(); return undefined; }
      if (timing === "async") return (async () => { await null; go(); })();
      return new Promise((res) => w.setTimeout(() => { go(); res(); }, 1000));
    };
    const { m } = setup(undefined, { w, pg: makePg(server), execStep });
    const holder = c.choose("holder", ["createForProxy", "createForRds"]);
    const ch = m.d.DatabaseCountChecker[holder]();
    for (const [k, , i] of list) c.check(ch[k](`check ${i}`, `SELECT count(*) FROM t${i}`) === ch, "not-chainable", "");
    const r = await w.settle(ch.expect());
    c.check(!r.hung, "hangs", "");
    const hard = list.findIndex(([, v]) => v === "error" || v === "two-rows");
    const pass = hard < 0 && list.every(([k, v]) => typeof v === "number" && verdict(k, v));
    c.equal(r.ok, pass, pass ? "healthy-database-fails" : "failure-not-reported", () => `${JSON.stringify(list)} steps ${timing}: ${r.error ?? r.value}`);
    if (pass) c.equal(r.value, "OK", "value");
    if (hard < 0) c.equal(ran, list.map(([, , i]) => `check ${i}`), "steps");
    c.equal(queries.length, hard < 0 ? n : hard + 1, "queries");
    c.equal([...open], [], "connection-left-open");
    return [pass, ran.length];
  });
  await ctx.explore("database check declarations", async (c) => {
    const { m, w } = setup(undefined, { env: { SECRET_ID: "s" } });
    const ch = m.d.DatabaseCountChecker[c.choose("holder", ["createForProxy", "createForRds"])]();
    const sql = c.choose("sql", ["select count(*) from t", "SELECT COUNT(*) FROM T", "select * from t", "delete from count", ""]);
    const k = c.choose("check", ["expectOne", "expectZero", "expectOneOrMore", "none"]);
    let e;
    if (k !== "none") { try { ch[k]("n", sql); } catch (x) { e = x; } c.equal(!!e, !/select/i.test(sql) || !/count/i.test(sql), "sql-refusal", sql); }
    if (k === "none") { const r = await w.settle(ch.expect()); c.check(!r.ok && !r.hung, "no-checks-passes", ""); }
    return [k, !!e];
  });
  ctx.assume("CloudWatch Synthetics is a stand-in: an HTTP step calls the callback with the response and fails when it fails; a database step runs its function at once, in a later microtask or after a delay");
}
