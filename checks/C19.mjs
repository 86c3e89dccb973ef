import { cdk } from "../lib/cdk.mjs";

export const meta = { parallel: true, bounds: "every stack of one checked resource of each kind with every combination of its checked settings, under every whitelist of up to 2 patterns; every stack name, tag and production flag; every path part and query parameter of up to 4 (quick) / 6 (thorough) characters of a 7-character alphabet" };

export async function run(ctx) {
  const k = await cdk({ asp: "aws/infra/stack/stack-checking-aspect.ts" });
  const lambda = k.q("aws-lambda"), s3 = k.q("aws-s3"), sqs = k.q("aws-sqs"), ag = k.q("aws-apigateway"), logs = k.q("aws-logs");
  const SOL = k.stack.SOLUTION_KEY;
  const ours = (list) => list.filter(([, path, text]) => text.startsWith(`${path}/`) && /^[^ ]*\/[A-Za-z_0-9]+:/.test(text) && !/\[ack:/.test(text)).map(([t, path, text]) => [t, path, text.slice(path.length + 1).split(":")[0]]);
  const sorted = (l) => l.map((x) => x.join(" ")).sort();
  const patterns = [undefined, ["Nothing-here"], [".*"], ["StackId/.*FUNCTION_TIMEOUT"], ["StackId/Bad/.*"], ["StackId/Other/.*", "FUNCTION_MEMORY"], ["^Bad"], []];
  const whitelisted = (wl, key) => (wl ?? []).some((p) => key.search(p) >= 0);

  async function body(c, make, wl = c.choose("whitelist", patterns), tag = true, conf = {}, id = "StackId") {
    const stack = k.dtStack({ ...(wl ? { whitelistedResources: wl } : {}), stackProps: tag ? { tags: { [SOL]: "x" } } : {}, ...conf }, id);
    const want = make(stack);
    if (!tag) want.push(["error", id, "TAG_SOLUTION"]);
    const got = ours(k.annotate(stack));
    const expected = want.map(([t, p, key]) => { const w = whitelisted(wl, `${p}/${key}`); return t === "error" ? [w ? "warning" : "error", p, key] : w ? undefined : [t, p, key]; }).filter(Boolean);
    c.equal([...new Set(sorted(got))], [...new Set(sorted(expected))], "annotations", () => JSON.stringify([wl, tag, conf, id]));
    return `${expected.length}`;
  }
  await ctx.explore("functions", (c) => {
    const conc = c.choose("concurrency", [undefined, 0, 1, 99, 100, 101, 500]), timeout = c.choose("timeout", [undefined, 5]), mem = c.choose("memory", [undefined, 128]);
    const rt = c.choose("runtime", [undefined, "nodejs24.x", "nodejs22.x", "nodejs20.x", "nodejs18.x", "python3.11", "python3.12", "python3.13", "java21"]);
    const name = c.choose("name", [undefined, "SHORT-Fn", "SHORT", "Other-Fn", "short-Fn", "xSHORT-Fn"]);
    const wl = conc === undefined || conc === 101 ? c.choose("whitelist", patterns) : undefined;
    return body(c, (st) => {
      new lambda.CfnFunction(st, "Bad", { code: { zipFile: "x" }, role: "r", handler: "h", reservedConcurrentExecutions: conc, timeout, memorySize: mem, runtime: rt, functionName: name });
      const p = "StackId/Bad";
      const out = [];
      if (!conc || conc > 100) out.push(["error", p, "RESERVED_CONCURRENT_CONCURRENCY"]);
      if (!timeout) out.push(["error", p, "FUNCTION_TIMEOUT"]);
      if (!mem) out.push(["error", p, "FUNCTION_MEMORY_SIZE"]);
      if (rt && !["nodejs24.x", "nodejs22.x", "python3.12", "python3.13"].includes(rt)) out.push(["error", p, "FUNCTION_RUNTIME"]);
      if (name && !name.startsWith("SHORT")) out.push(["error", p, "FUNCTION_NAME"]);
      return out;
    }, wl);
  });
  await ctx.explore("buckets, queues, log groups", (c) => {
    const kind = c.choose("kind", ["bucket", "queue", "log"]);
    const o = kind === "bucket" ? c.choose("how", ["none", "all", "part"]) : kind === "queue" ? c.choose("key", [undefined, "alias/aws/sqs"]) : c.choose("retention", [undefined, 365, 9999]);
    const part = o === "part" ? ["blockPublicAcls", "blockPublicPolicy", "ignorePublicAcls", "restrictPublicBuckets"].map((x) => [x, c.choose(x, [true, false, undefined])]) : [];
    return body(c, (st) => {
      const out = [];
      if (kind === "bucket") {
        const conf = o === "none" ? undefined : o === "all" ? { blockPublicAcls: true, blockPublicPolicy: true, ignorePublicAcls: true, restrictPublicBuckets: true } : Object.fromEntries(part.filter(([, v]) => v !== undefined));
        new s3.CfnBucket(st, "Bad", conf ? { publicAccessBlockConfiguration: conf } : {});
        if (conf && !Object.values({ blockPublicAcls: false, blockPublicPolicy: false, ignorePublicAcls: false, restrictPublicBuckets: false, ...conf }).every((x) => x)) out.push(["error", "StackId/Bad", "BUCKET_PUBLICITY"]);
      } else if (kind === "queue") {
        new sqs.CfnQueue(st, "Bad", { kmsMasterKeyId: o });
        if (!o) out.push(["error", "StackId/Bad", "QUEUE_ENCRYPTION"]);
      } else {
        new logs.LogRetention(st, "Bad", { logGroupName: "g", ...(o ? { retention: o } : {}) });
        if (o !== 365) out.push(["error", "StackId/Bad", "LOG_GROUP_RETENTION"]);
      }
      return out;
    });
  });
  await ctx.explore("stacks", (c) => {
    const name = c.choose("name", ["StackId", "RoadTest", "TstRoad", "Road-Prod", "PrdX", "TestProd", "Contest", "Production"]);
    const production = c.bool("production"), tag = c.bool("tag");
    return body(c, () => {
      const test = /Test|Tst/.test(name), prod = /Prod|Prd/.test(name);
      return (test && production) || (prod && !production) ? [["error", name, "STACK_NAME"]] : [];
    }, c.choose("whitelist", [undefined, ["STACK_NAME"], ["TAG_SOLUTION"], ["x"]]), tag, { production }, name);
  });
  const pathOk = (p) => { if (p.includes(".")) return pathOk(p.split(".")[0]); if (p.startsWith("{")) return true; if (p.includes("{")) p = p.split("{")[0]; return /^[a-z0-9]+(-[a-z0-9]+)*$/.test(p); };
  const words = ["v1", "datex2-36", "api", "maintenance-tracking", "MixedCase", "snake_case", "latest.json", "Latest.json", "a-b.c_d", "{id}", "{snakeId}", "by-id{id}", "byId{id}", "-x", "x-", "a--b", "{id}.json"];
  const qs = (n) => /^[a-z0-9]+(_[a-z0-9]+)*$/.test(n);
  const names = ["from", "last_updated", "lastUpdated", "last-updated", "a1", "a_1", "_a", "a_", "A", "x__y"];
  let resource, method, aspect;
  const fast = (c, node, want) => { const old = [...node.node.metadata]; aspect.visit(node); const got = node.node.metadata.slice(old.length); c.equal(got.map((m) => m.type.slice(8)), want, "casing", () => `${node.pathPart ?? JSON.stringify(node.integration)}`); };
  const fresh = () => {
    const st = k.plainStack("Fresh");
    aspect = new k.asp.StackCheckingAspect("SHORT");
    resource = (p) => new ag.CfnResource(st, `r${n++}`, { parentId: "p", restApiId: "r", pathPart: p });
    method = (ps) => new ag.CfnMethod(st, `m${n++}`, { httpMethod: "GET", resourceId: "p", restApiId: "r", integration: { type: "MOCK", ...(ps ? { requestParameters: ps } : {}) } });
    let n = 0;
  };
  await ctx.explore("casing", (c) => {
    fresh();
    const what = c.choose("what", ["path", "query", "mixed"]);
    if (what === "path") { const p = c.choose("path", words); fast(c, resource(p), pathOk(p) ? [] : ["warning"]); return String(pathOk(p)); }
    const pick = c.choose("name", names), second = c.choose("second", [undefined, ...names]);
    const where = c.choose("where", ["querystring", "path", "header"]);
    if (what === "query" && second !== undefined) c.prune();
    const ps = { [`integration.request.${where}.${pick}`]: `method.request.${where}.${pick}`, ...(second !== undefined && second !== pick ? { [`integration.request.querystring.${second}`]: "x" } : {}) };
    const bad = [where === "querystring" && !qs(pick), second !== undefined && second !== pick && !qs(second)].filter(Boolean);
    fast(c, method(ps), bad.map(() => "error"));
    return `${bad.length}`;
  }, { sync: true });
  const A = ["a", "B", "1", "-", "_", ".", "{"];
  const len = ctx.thorough ? 6 : 4;
  await ctx.explore("all short names", (c) => {
    fresh();
    const head = c.choose("first", A) + c.choose("second", A);
    const rest = (s, n) => { one(s); if (n) for (const x of A) rest(s + x, n - 1); };
    const one = (s) => {
      if (!/^\./.test(s)) fast(c, resource(s), pathOk(s) ? [] : ["warning"]);
      if (!/\./.test(s)) fast(c, method({ [`integration.request.querystring.${s}`]: "x" }), qs(s) ? [] : ["error"]);
    };
    rest(head, len - 2);
    return "checked";
  }, { sync: true });
  await ctx.explore("no parameters", (c) => { fresh(); fast(c, method(undefined), []); return "ok"; }, { sync: true });
}
