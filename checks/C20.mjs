import { cdk } from "../lib/cdk.mjs";
import { render, util } from "../lib/apigw.mjs";

export const meta = { parallel: true, bounds: "every REST API configuration with every sequence of up to 2 (quick) / 3 (thorough) actions from an alphabet of 16; every static integration and documentation part of the alphabets; every deprecated integration against every error message of the alphabet" };

export async function run(ctx) {
  const k = await cdk({ api: "aws/infra/stack/rest-api.ts", st: "aws/infra/api/static-integration.ts", doc: "aws/infra/documentation.ts", am: "utils/api-model.ts", rs: "aws/infra/api/responses.ts", ir: "aws/runtime/digitraffic-integration-response.ts", err: "aws/types/errors.ts" }, ["x"]);
  const ag = k.q("aws-apigateway"), iam = k.q("aws-iam"), lambda = k.q("aws-lambda");
  const info = console.info;
  console.info = () => {};
  try {
  const doc = (stack, fn) => { const a = fn(); return { t: k.template(stack), a }; };
  const inRange = (ip, cidr) => { const n = (x) => x.split(".").reduce((a, b) => a * 256 + +b, 0); const [b, l = 32] = cidr.split("/"); return Math.floor(n(ip) / 2 ** (32 - l)) === Math.floor(n(b) / 2 ** (32 - l)); };
  // IAM: allowed when a statement allows and none denies
  const allowed = (policy, { ip, action }) => {
    const hit = (s) => {
      if (![s.Action].flat().some((a) => a === action || a === "*" || a === "execute-api:*")) return false;
      if (![s.Resource].flat().includes("*")) return false;
      if (!(s.Principal === "*" || s.Principal?.AWS === "*")) return false;
      return Object.entries(s.Condition ?? {}).every(([op, kv]) => Object.entries(kv).every(([key, vals]) => {
        if (key !== "aws:SourceIp") throw new Error(`condition ${key}`);
        const m = [vals].flat().some((x) => inRange(ip, x));
        return op === "IpAddress" ? m : op === "NotIpAddress" ? !m : (() => { throw new Error(op); })();
      }));
    };
    const st = policy.Statement;
    return st.some((s) => s.Effect === "Allow" && hit(s)) && !st.some((s) => s.Effect === "Deny" && hit(s));
  };
  const IPS = ["10.0.0.1", "10.0.0.2", "192.0.2.200", "203.0.113.5"];
  const lists = [undefined, null, [], ["10.0.0.1"], ["10.0.0.1", "192.0.2.0/24"]];
  const CORS = (headers) => ({ origin: headers["Access-Control-Allow-Origin"], methods: headers["Access-Control-Allow-Methods"], headers: headers["Access-Control-Allow-Headers"] });
  const preflight = (t, resourceId) => {
    const m = k.of(t, "AWS::ApiGateway::Method").find((x) => x.HttpMethod === "OPTIONS" && (x.ResourceId.Ref ?? x.ResourceId["Fn::GetAtt"]?.join(".")) === resourceId);
    if (!m) return undefined;
    const p = m.Integration.IntegrationResponses[0].ResponseParameters;
    const strip = (n) => p[`method.response.header.${n}`]?.replace(/^'|'$/g, "").split(",").sort().join();
    return { key: m.ApiKeyRequired ?? false, ...CORS({ "Access-Control-Allow-Origin": strip("Access-Control-Allow-Origin"), "Access-Control-Allow-Methods": strip("Access-Control-Allow-Methods"), "Access-Control-Allow-Headers": strip("Access-Control-Allow-Headers") }) };
  };
  const WANT_CORS = { key: false, origin: "*", methods: ["OPTIONS", "GET", "HEAD"].sort().join(), headers: ["Content-Type", "X-Amz-Date", "Authorization", "X-Api-Key", "X-Amz-Security-Token", "Digitraffic-User"].sort().join() };

  const actions = [
    ["plan2 A", (m, api) => { const key = api.createUsagePlanV2("A"); m.keys.push({ ref: key, name: "A API Key", plan: "A API Usage Plan" }); }],
    ["plan2 B value", (m, api) => { const key = api.createUsagePlanV2("B", "secret-value-of-at-least-20"); m.keys.push({ ref: key, name: "B API Key", plan: "B API Usage Plan", value: "secret-value-of-at-least-20" }); }],
    ["plans C and D", (m, api) => { for (const n of ["C", "D"]) { const key = api.createUsagePlanV2(n); m.keys.push({ ref: key, name: `${n} API Key`, plan: `${n} API Usage Plan` }); } }],
    ["plan1", (m, api) => { const key = api.createUsagePlan("KeyId", "Old name"); m.keys.push({ ref: key, plan: "Old name" }); }],
    ["export", (m, api, c, stack) => exporting(m, api, c, stack, undefined)],
    ["export first", (m, api, c, stack) => m.keys.length && exporting(m, api, c, stack, { apiKeyId: m.keys[0].ref, exportName: "first" })],
    ["export last", (m, api, c, stack) => m.keys.length && exporting(m, api, c, stack, { apiKeyId: m.keys.at(-1).ref, exportName: "last" })],
    ["export own", (m, api, c, stack) => exporting(m, api, c, stack, { apiKeyId: "given-id", exportName: "own" })],
    ["export named", (m, api, c, stack) => exporting(m, api, c, stack, { exportName: "named" })],
    ["json model", (m, api, c, stack) => { const x = api.addJsonModel("ModelJ", { type: "object" }); m.models.push(["ModelJ", "application/json"]); c.equal(stack.resolve(x.modelReference), stack.resolve(`https://apigateway.amazonaws.com/restapis/${api.restApiId}/models/${x.modelId}`), "model-reference"); }],
    ["csv model", (m, api, c, stack) => { const x = api.addCSVModel("ModelC"); m.models.push(["ModelC", "text/csv"]); c.equal(stack.resolve(x.modelReference), stack.resolve(`https://apigateway.amazonaws.com/restapis/${api.restApiId}/models/${x.modelId}`), "model-reference"); }],
    ["service model", (m, api, c, stack) => { const x = k.am.addServiceModel("ModelS", api, { type: "object" }); m.models.push(["ModelS", "application/json"]); c.equal(stack.resolve(x.modelReference), stack.resolve(`https://apigateway.amazonaws.com/restapis/${api.restApiId}/models/${x.modelId}`), "model-reference"); }],
    ["simple model", (m, api) => { k.am.addSimpleServiceModel("ModelX", api); m.models.push(["ModelX", "application/xml"]); }],
    ["cors tree", (m, api, c, stack) => { const r = api.addResourceWithCorsOptionsSubTree(api.root, "tree"); const sub = r.addResource("sub"); for (const x of [r, sub]) m.cors.push(stack.resolve(x.resourceId).Ref); }],
    ["no cors", (m, api, c, stack) => { const r = api.root.addResource("plain"); m.noCors.push(stack.resolve(r.resourceId).Ref); }],
    ["cors options", (m, api, c, stack) => { const r = api.root.addResource("withOptions"); api.addCorsOptions(r); m.cors.push(stack.resolve(r.resourceId).Ref); const sub = r.addResource("sub2"); m.noCors.push(stack.resolve(sub.resourceId).Ref); }],
    ["401", (m, api, c, stack) => { k.api.add401Support(api, stack); m.auth = true; }],
    ["validator", (m, api) => { k.am.addDefaultValidator(api); m.validator = true; }],
  ];
  function exporting(m, api, c, stack, params) {
    const key = params?.apiKeyId ?? (m.keys.length === 1 ? m.keys[0].ref : undefined);
    const name = params?.exportName ?? "SHORT";
    let threw;
    try { params ? api.exportEndpoint(params) : api.exportEndpoint(); } catch (e) { threw = String(e); }
    c.equal(!!threw, key === undefined, "export-refused", threw);
    if (!threw) m.exports[name] = { endpointUrl: stack.resolve(api.url), apiKeyId: stack.resolve(key) };
  }

  const overrides = [undefined, { restApiName: "Override" }, { endpointTypes: ["EDGE"] }, { deployOptions: { loggingLevel: "INFO" } }, "policy"];
  await ctx.explore("REST API", (c) => {
    const list = c.choose("addresses", lists), over = c.choose("override", overrides), kind = c.choose("kind", ["class", "function"]);
    const stack = k.dtStack();
    const own = new iam.PolicyDocument({ statements: [new iam.PolicyStatement({ effect: iam.Effect.ALLOW, actions: ["execute-api:Invoke"], resources: ["*"], principals: [new iam.AnyPrincipal()], conditions: { IpAddress: { "aws:SourceIp": ["203.0.113.5"] } } })] });
    const api = kind === "class" ? new k.api.DigitrafficRestApi(stack, "Api", "My API", list, over === "policy" ? { policy: own } : over) : k.api.createRestApi(stack, "Api", "My API", list);
    const m = { keys: [], exports: {}, models: [], cors: [], noCors: [] };
    const used = new Set();
    if (kind === "class") for (let i = 0; i < (ctx.thorough ? 3 : 2); i++) {
      const free = actions.filter(([n]) => !used.has(n));
      const a = c.choose("action", [undefined, ...free]);
      if (!a) break;
      used.add(a[0]);
      a[1](m, api, c, stack);
    } else if (over) c.prune();
    api.root.addMethod("GET");
    const t = k.template(stack);
    const [r] = k.of(t, "AWS::ApiGateway::RestApi");
    for (const ip of IPS) {
      const want = over === "policy" ? ip === "203.0.113.5" : list === undefined || list === null ? true : list.some((x) => inRange(ip, x));
      c.equal(allowed(r.Policy, { ip, action: "execute-api:Invoke" }), want, "access", `${ip} ${JSON.stringify(list)}`);
    }
    c.equal([r.Name, r.EndpointConfiguration.Types], [over?.restApiName ?? "My API", over?.endpointTypes ?? ["REGIONAL"]], "settings");
    const [stage] = k.of(t, "AWS::ApiGateway::Stage");
    c.equal(stage.MethodSettings[0].LoggingLevel, over?.deployOptions?.loggingLevel ?? "ERROR", "logging");
    const missing = k.of(t, "AWS::ApiGateway::GatewayResponse").filter((g) => g.ResponseType === "MISSING_AUTHENTICATION_TOKEN");
    c.equal(missing.map((g) => [g.StatusCode, JSON.parse(g.ResponseTemplates["application/json"]), g.RestApiId.Ref]), [["404", { message: "Not Found" }, r.id]], "missing-token-response");
    const un = k.of(t, "AWS::ApiGateway::GatewayResponse").filter((g) => g.ResponseType === "UNAUTHORIZED");
    c.equal(un.map((g) => [g.StatusCode, g.ResponseParameters]), m.auth ? [["401", { "gatewayresponse.header.WWW-Authenticate": "'Basic'" }]] : [], "unauthorized-response");
    // keys
    const keys = k.of(t, "AWS::ApiGateway::ApiKey"), plans = k.of(t, "AWS::ApiGateway::UsagePlan"), links = k.of(t, "AWS::ApiGateway::UsagePlanKey");
    c.equal([keys.length, plans.length, links.length], [m.keys.length, m.keys.length, m.keys.length], "keys");
    for (const key of m.keys) {
      const id = stack.resolve(key.ref).Ref;
      const found = keys.find((x) => x.id === id);
      c.check(found, "key-missing", key.plan);
      c.equal([found.Name, found.Value, found.Enabled], [key.name, key.value, true], "key");
      const plan = plans.find((x) => x.UsagePlanName === key.plan);
      c.equal(plan?.ApiStages, [{ ApiId: { Ref: r.id }, Stage: { Ref: stage.id }, Throttle: {} }], "plan-stage", key.plan);
      c.equal(links.filter((l) => l.KeyId.Ref === id).map((l) => l.UsagePlanId.Ref), [plan.id], "plan-key");
    }
    if (kind === "class") c.equal(stack.resolve(api.apiKeyIds), m.keys.map((x) => stack.resolve(x.ref)), "key-ids");
    const params = Object.fromEntries(k.of(t, "AWS::SSM::Parameter").map((p) => [p.Name, p.Value]));
    const wantParams = {};
    for (const [n, e] of Object.entries(m.exports)) { wantParams[`/digitraffic/${n}/endpointUrl`] = e.endpointUrl; wantParams[`/digitraffic/${n}/apiKeyId`] = e.apiKeyId; }
    c.equal(params, wantParams, "exports");
    c.equal(k.of(t, "AWS::ApiGateway::Model").map((x) => [x.Name, x.ContentType, x.RestApiId.Ref]).sort(), m.models.map((x) => [...x, r.id]).sort(), "models");
    c.equal(k.of(t, "AWS::ApiGateway::RequestValidator").map((v) => [v.ValidateRequestBody, v.ValidateRequestParameters]), m.validator ? [[true, true]] : [], "validator");
    for (const id of m.cors) c.equal(preflight(t, id), WANT_CORS, "preflight", id);
    for (const id of m.noCors) c.equal(preflight(t, id), undefined, "unwanted-preflight", id);
    if (kind === "class") c.equal(stack.resolve(api.hostname()), stack.resolve(`${api.restApiId}.execute-api.${stack.region}.amazonaws.com`), "hostname");
    return JSON.stringify([[...used].sort().join(), Object.keys(m.exports)]);
  });

  await ctx.explore("return code of a missing token", (c) => {
    const code = c.choose("code", [400, 403, 404, 451]), msg = c.choose("message", ["Not here", "", "with \"quotes\"", "back\\slash", "line\nbreak", "ä€😀", "{\"a\": 1}", "Not Found"]);
    const stack = k.plainStack();
    const api = new ag.RestApi(stack, "Api", { restApiName: "N" });
    api.root.addMethod("GET");
    k.api.setReturnCodeForMissingAuthenticationToken(code, msg, api, stack);
    const [g] = k.of(k.template(stack), "AWS::ApiGateway::GatewayResponse");
    let body;
    try { body = JSON.parse(g.ResponseTemplates["application/json"]); } catch { body = "not JSON"; }
    c.equal([g.ResponseType, g.StatusCode, body], ["MISSING_AUTHENTICATION_TOKEN", String(code), { message: msg }], "response");
    return "ok";
  });

  await ctx.explore("documentation", (c) => {
    const enable = c.choose("enabled", [undefined, true, false]);
    const stack = k.dtStack(enable === undefined ? c.bool("no features") ? {} : { stackFeatures: {} } : { stackFeatures: { enableDocumentation: enable } });
    const api = new k.api.DigitrafficRestApi(stack, "Api", "My API");
    const res = c.choose("resource", [["a"], ["a", "{id}"]]).reduce((r, p) => r.addResource(p), api.root);
    res.addMethod("GET");
    const n = c.choose("parts", ctx.thorough ? [1, 2, 3] : [1, 2]), text = c.choose("text", ["Plain", "with \"q\"\n"]);
    const parts = [], want = [];
    for (let i = 0; i < n; i++) {
      const kind = c.choose("kind", ["query", "path", "method"]), dep = c.bool("deprecated");
      const name = `p${i}`;
      let p, props;
      if (kind === "query") { p = k.doc.DocumentationPart.queryParameter(name, text); props = { description: text }; }
      if (kind === "path") { p = k.doc.DocumentationPart.pathParameter(name, text); props = { description: text }; }
      if (kind === "method") { p = k.doc.DocumentationPart.method(["tag"], name, text); props = { tags: ["tag"], summary: text }; }
      if (dep) { p = p.deprecated("Use v2"); props = { ...props, deprecated: true, summary: props.summary === undefined ? "Use v2" : `${props.summary}. Use v2` }; }
      parts.push(p);
      want.push([{ query: "QUERY_PARAMETER", path: "PATH_PARAMETER", method: "METHOD" }[kind], res.path, kind === "method" ? undefined : name, props]);
    }
    const style = c.choose("calls", n > 1 ? ["one", "each"] : ["one"]);
    if (style === "one") api.documentResource(res, ...parts); else for (const p of parts) api.documentResource(res, p);
    const got = k.of(k.template(stack), "AWS::ApiGateway::DocumentationPart").map((d) => [d.Location.Type, d.Location.Path, d.Location.Name, JSON.parse(d.Properties)]);
    const sort = (l) => l.map((x) => JSON.stringify(x, (kk, v) => (v && typeof v === "object" && !Array.isArray(v) ? Object.fromEntries(Object.entries(v).sort()) : v))).sort();
    c.equal(sort(got), sort(enable === false ? [] : want), "documentation");
    return JSON.stringify([enable, n]);
  });
  await ctx.explore("deprecated documentation functions", (c) => {
    const stack = k.dtStack();
    const api = new ag.RestApi(stack, "Api");
    const res = c.choose("resource", [["a"], ["a", "{id}"]]).reduce((r, p) => r.addResource(p), api.root);
    res.addMethod("GET");
    const which = c.choose("function", ["query", "doc", "tags", "summary"]), text = c.choose("text", ["Plain", "with \"q\"\n"]);
    let want;
    if (which === "query") { k.doc.addQueryParameterDescription("N", text, res, stack); want = ["QUERY_PARAMETER", res.path, "N", { description: text }]; }
    if (which === "doc") { k.doc.addDocumentation("N", { x: text }, res, stack); want = ["METHOD", res.path, undefined, { x: text }]; }
    if (which === "tags") { k.doc.addTags("N", [text], res, stack); want = ["METHOD", res.path, undefined, { tags: [text] }]; }
    if (which === "summary") { k.doc.addTagsAndSummary("N", ["a", "b"], text, res, stack); want = ["METHOD", res.path, undefined, { tags: ["a", "b"], summary: text }]; }
    c.equal(k.of(k.template(stack), "AWS::ApiGateway::DocumentationPart").map((d) => [d.Location.Type, d.Location.Path, d.Location.Name, JSON.parse(d.Properties)]), [want], "documentation");
    return which;
  });

  await ctx.explore("static integration", (c) => {
    const stack = k.dtStack();
    const api = new k.api.DigitrafficRestApi(stack, "Api", "My API");
    const make = (i) => {
      const cors = c.deviate("cors", [undefined, true, false]), key = c.deviate("key", [undefined, true, false]), headers = c.deviate("headers", [undefined, { "X-One": "1" }, { "X-One": "1", "Cache-Control": "max-age=5" }]);
      const value = c.deviate("response", [{ a: "text with \"quotes\" and ä€" }, [], [{ id: 1 }, { id: null }], "text", 5]);
      const model = api.addJsonModel(`M${i}`, { type: "object" });
      const res = api.root.addResource(`r${i}`);
      const given = headers && Object.freeze({ ...headers });
      k.st.DigitrafficStaticIntegration.json(res, value, model, cors, key, given);
      return { id: stack.resolve(res.resourceId).Ref, cors: cors ?? true, key: key ?? true, headers: headers ?? {}, value, model: stack.resolve(model.modelId).Ref };
    };
    const all = [make(0)];
    if (c.bool("second")) all.push(make(1));
    const t = k.template(stack);
    for (const o of all) {
      const ms = k.of(t, "AWS::ApiGateway::Method").filter((x) => x.ResourceId.Ref === o.id);
      c.equal(ms.map((x) => x.HttpMethod).sort(), ["GET", "HEAD"], "methods");
      for (const x of ms) {
        c.equal(x.ApiKeyRequired, o.key, "key-required");
        // the mock integration answers what its request template says
        const req = x.Integration.RequestTemplates["application/json"];
        c.equal([x.Integration.Type, JSON.parse(render(req, { util }).out).statusCode], ["MOCK", 200], "mock");
        const rsp = x.Integration.IntegrationResponses.filter((y) => y.StatusCode === "200" && !y.SelectionPattern);
        c.equal(rsp.length, 1, "responses");
        c.equal(JSON.parse(render(rsp[0].ResponseTemplates["application/json"], { util }).out), o.value, "body");
        const sent = Object.fromEntries(Object.entries(rsp[0].ResponseParameters ?? {}).map(([n, v]) => [n.replace("method.response.header.", ""), v.replace(/^'|'$/g, "")]));
        const wantH = { ...o.headers, ...(o.cors ? { "Access-Control-Allow-Origin": "*" } : {}) };
        c.equal(sent, wantH, "headers");
        const decl = x.MethodResponses.find((y) => y.StatusCode === "200");
        c.equal([Object.keys(decl.ResponseParameters ?? {}).map((n) => n.replace("method.response.header.", "")).sort(), decl.ResponseModels], [Object.keys(wantH).sort(), { "application/json": { Ref: o.model } }], "declared");
      }
    }
    return String(all.length);
  }, { bound: ctx.thorough ? 4 : 3 });

  // deprecated integrations: which answer a lambda failing with a message gets
  await ctx.explore("deprecated integrations", (c) => {
    const opts = { xml: c.bool("xml"), disableCors: c.bool("no cors"), requestParameters: c.choose("parameters", [undefined, { "integration.request.querystring.a": "method.request.querystring.a" }]), requestTemplates: c.choose("templates", [undefined, { "application/json": "{}" }]), passthroughBehavior: c.choose("passthrough", [undefined, ag.PassthroughBehavior.NEVER]) };
    const none = c.bool("no options");
    const stack = k.dtStack();
    const api = new ag.RestApi(stack, "Api");
    const fn = new lambda.Function(stack, "F", { code: lambda.Code.fromInline("x"), handler: "a.b", runtime: lambda.Runtime.NODEJS_22_X });
    const before = JSON.stringify([k.rs.RESPONSE_200_OK, k.rs.RESPONSE_400_BAD_REQUEST, k.rs.RESPONSE_404_NOT_FOUND, k.rs.RESPONSE_500_SERVER_ERROR]);
    const int = none ? k.rs.defaultIntegration(fn) : k.rs.defaultIntegration(fn, opts);
    c.equal(JSON.stringify([k.rs.RESPONSE_200_OK, k.rs.RESPONSE_400_BAD_REQUEST, k.rs.RESPONSE_404_NOT_FOUND, k.rs.RESPONSE_500_SERVER_ERROR]), before, "shared-response-changed");
    const o = none ? {} : opts;
    api.root.addMethod("GET", int);
    const m = k.of(k.template(stack), "AWS::ApiGateway::Method").find((x) => x.HttpMethod === "GET");
    const i = m.Integration;
    c.equal([i.Type, i.RequestParameters ?? {}, i.RequestTemplates ?? {}, i.PassthroughBehavior], ["AWS", o.requestParameters ?? {}, o.requestTemplates ?? {}, o.passthroughBehavior ?? "WHEN_NO_MATCH"], "integration");
    for (const [msg, status] of [[undefined, "200"], [k.err.BAD_REQUEST_MESSAGE, "400"], [k.err.NOT_FOUND_MESSAGE, "404"], [k.err.ERROR_MESSAGE, "500"]]) {
      // API Gateway: the pattern must match the whole error message; the response without one is the default
      const r = (msg !== undefined && i.IntegrationResponses.find((x) => x.SelectionPattern && new RegExp(`^(?:${x.SelectionPattern})$`).test(msg))) || i.IntegrationResponses.find((x) => !x.SelectionPattern);
      c.equal(r.StatusCode, status, "status", msg);
      c.equal(r.ResponseParameters?.["method.response.header.Access-Control-Allow-Origin"], o.disableCors ? undefined : "'*'", "cors", msg);
      if (o.xml) c.equal(Object.keys(r.ResponseTemplates), ["application/xml"], "xml", msg);
      else if (msg) { const [mt, tpl] = Object.entries(r.ResponseTemplates)[0]; let parsed; try { parsed = JSON.parse(tpl); } catch { parsed = tpl; } c.check(mt === "application/json" && typeof parsed === "object" || mt === "text/plain", "error-template", tpl); }
    }
    const mr = k.rs.methodResponse("200", "application/json", { modelId: "m" }, c.choose("method parameters", [undefined, { a: true }]));
    c.equal([mr.statusCode, Object.keys(mr.responseModels)], ["200", ["application/json"]], "method-response");
    return JSON.stringify(o.passthroughBehavior ?? "");
  });

  await ctx.explore("schemas", (c) => {
    const ref = c.choose("reference", ["https://x/models/A", "B"]);
    const f = k.am.featureSchema(ref), g = k.am.geojsonSchema(ref);
    c.equal([f.properties.properties.ref, f.required.slice().sort(), f.properties.type.enum, f.type], [ref, ["geometry", "properties", "type"], ["Feature"], "object"], "feature");
    c.equal([g.properties.features.type, g.properties.features.items.ref, g.required.slice().sort(), g.properties.type.enum], ["array", ref, ["features", "type"], ["FeatureCollection"]], "collection");
    const stack = k.plainStack();
    const api = new ag.RestApi(stack, "Api");
    const mod = api.addModel("X", { schema: {} });
    const a = k.am.createArraySchema(mod, api);
    c.equal([a.type, stack.resolve(a.items.ref)], ["array", stack.resolve(k.am.getModelReference(mod.modelId, api.restApiId))], "array");
    return "ok";
  });
  } finally { console.info = info; }
}
