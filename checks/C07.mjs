import { bundle } from "../lib/bundle.mjs";
import { World } from "../lib/world.mjs";
import { request } from "../lib/apigw.mjs";

export const meta = { bounds: "every integration of up to 3 (quick) / 4 (thorough) declarations from a 14-call alphabet, against every request of the value alphabet" };

const nasty = ["plain", "", "a'b", 'a"b', "a\\b", "a\nb\tc", "ä€😀", "$x ${y} #set($q=1) #end", "</a>&=%20", '","inj":"1'];

export async function run(ctx) {
  const b = await bundle({ i: "lib/digitraffic-common/src/aws/infra/api/integration.ts" });
  const { i } = b.instantiate(new World({}));
  const fn = { functionArn: "arn:aws:lambda:eu-west-1:123456789012:function:f", grantInvoke() {}, addPermission() {} };
  const decls = [
    ["query", "q1"], ["query", "q2"], ["path", "p1"], ["header", "h1"], ["context", "c1"], ["context", "authorizer.c2"], ["multi", "m1"], ["multi", "m2"], ["all"], ["body"], ["path", "same"], ["query", "_bad"],
  ];
  function apply(x, d) {
    switch (d[0]) {
      case "query": return x.addQueryParameter(d[1]);
      case "path": return x.addPathParameter(d[1]);
      case "header": return x.addHeaderParameter(d[1]);
      case "context": return x.addContextParameter(d[1]);
      case "multi": return x.addMultiValueQueryParameter(d[1]);
      case "all": return x.passAllQueryParameters();
      case "body": return x.passBody();
    }
  }
  const templateOf = (li) => {
    const o = li.props?.options ?? li.props ?? {};
    return o.requestTemplates;
  };

  function declare(c, n) {
    const x = new i.DigitrafficIntegration(fn, "application/json");
    const done = [];
    for (let k = 0; k < n; k++) {
      const ix = c.choose(`decl${k}`, decls.length + 1);
      if (ix === 0) break;
      const d = decls[ix - 1];
      let t;
      try {
        const r = apply(x, d);
        c.check(r === x, "not-chainable", d[0]);
      } catch (e) { t = e; }
      const clash = (d[0] === "query" && done.some((y) => y[0] === "all")) || (d[0] === "all" && done.some((y) => y[0] === "query")) || d[1]?.startsWith("_");
      c.equal(!!t, !!clash, "declaration-refusal", JSON.stringify([...done, d]));
      if (!t) done.push(d);
    }
    return { x, done };
  }
  function expected(done, req) {
    const want = {};
    if (done.some((d) => d[0] === "all")) for (const [k, v] of Object.entries(req.query)) if (!k.startsWith("_")) want[k] = Array.isArray(v) ? v[v.length - 1] : v;
    for (const [kind, n] of done) {
      if (kind === "query") want[n] = Array.isArray(req.query[n]) ? req.query[n].at(-1) : req.query[n] ?? "";
      if (kind === "path") want[n] = req.path[n];
      if (kind === "header") want[n] = req.headers[n];
      if (kind === "context") want[n] = n === "c1" ? req.context.c1 : req.context.authorizer.c2;
      if (kind === "multi") want[n] = req.query[n] === undefined ? [] : [req.query[n]].flat();
      if (kind === "body") want.payload = Buffer.from(req.body).toString("base64");
    }
    return want;
  }
  function run1(c, x, done, req) {
    let tpl = x.build();
    tpl = templateOf(tpl);
    if (done.length === 0) return "no-template";
    c.check(tpl && typeof tpl["application/json"] === "string", "template-missing", () => `declared ${JSON.stringify(done)} but the integration has no request template`);
    c.equal(Object.keys(tpl), ["application/json"], "template-media");
    const out = request(tpl["application/json"], req);
    let ev;
    try { ev = JSON.parse(out); } catch (e) { c.fail("event-not-json", `${out.trim()} for ${JSON.stringify(req)}`); }
    // a duplicated key in the text would hide behind JSON.parse
    const keys = [...out.matchAll(/^\s*"((?:[^"\\]|\\.)*)":/gm)].map((m) => m[1]);
    c.equal(keys.length, new Set(keys).size, "duplicate-key", out);
    c.equal(ev, expected(done, req), "event", () => `declared ${JSON.stringify(done)}`);
    return Object.keys(ev).sort();
  }
  const baseReq = () => ({ query: { q1: "Q1", q2: "Q2", m1: ["a", "b"], m2: "single", same: "fromQuery" }, path: { p1: "P1", same: "fromPath" }, headers: { h1: "H1" }, context: { c1: "C1", authorizer: { c2: "C2" } }, body: '{"x":"\'y"}' });

  await ctx.explore("declarations", (c) => {
    const { x, done } = declare(c, ctx.thorough ? 4 : 3);
    return run1(c, x, done, baseReq());
  }, { sync: true });

  await ctx.explore("values", (c) => {
    const sets = [[["query", "q1"], ["query", "q2"]], [["path", "p1"], ["header", "h1"]], [["context", "c1"], ["context", "authorizer.c2"]], [["multi", "m1"], ["query", "q1"]], [["all"], ["multi", "m1"]], [["all"], ["path", "p1"], ["body"]], [["body"]]];
    const done = c.choose("declared", sets);
    const x = new i.DigitrafficIntegration(fn, "application/json");
    for (const d of done) apply(x, d);
    const req = baseReq();
    const v = c.choose("v", nasty);
    const u = c.choose("u", nasty);
    req.query.q1 = v; req.query.q2 = u; req.path.p1 = v; req.headers.h1 = u; req.context.c1 = v; req.context.authorizer.c2 = u; req.query.m1 = c.choose("list", [[v], [v, u], [u, v, v]]); req.body = v + u || " ";
    return run1(c, x, done, req);
  }, { sync: true });

  await ctx.explore("parameter names under pass-all", (c) => {
    const x = new i.DigitrafficIntegration(fn);
    const extra = c.choose("declared", [[], [["path", "p1"]], [["multi", "m1"]], [["context", "c1"], ["header", "h1"]]]);
    const first = c.bool("declareFirst");
    if (first) for (const d of extra) apply(x, d);
    x.passAllQueryParameters();
    if (!first) for (const d of extra) apply(x, d);
    const req = baseReq();
    const names = ["a", "p1", "m1", "_m1", "_a", "c1", "h1", 'k"q', "k'q", "payload", "k\\", "size", "x.y", "x[]"];
    const n1 = c.choose("n1", names);
    const n2 = c.choose("n2", names);
    req.query = { [n1]: ["v1", "v2"], [n2]: "w" };
    return run1(c, x, [["all"], ...extra], req);
  }, { sync: true });

  await ctx.explore("absent values", (c) => {
    const { x, done } = declare(c, 2);
    const req = baseReq();
    if (c.bool("noQuery")) req.query = {};
    if (!Object.keys(req.query).length && done.some((d) => d[0] === "query")) c.prune();
    return run1(c, x, done, req);
  }, { sync: true });
  ctx.assume("API Gateway's request mapping is played by velocityjs; $util.escapeJavaScript is implemented as Commons Lang does, as AWS documents");
}
