import { cdk } from "../lib/cdk.mjs";

export const meta = { bounds: "every sequence of up to 2 (quick) / 3 (thorough) builder calls from an alphabet of 34 and every 3 (quick) / 4 (thorough) calls of the throttling alphabet, evaluated on 108 requests" };

export async function run(ctx) {
  const k = await cdk({ a: "aws/infra/acl-builder.ts" });
  const LISTED = ["10.0.0.0/8", "192.0.2.7/32"];
  const QS = 5;
  const requests = [];
  for (const header of [undefined, "", "someone"]) for (const path of ["/api/a", "/API/./A", "/api/c", "/other/b"]) for (const ip of ["10.1.2.3", "192.0.2.7", "198.51.100.9"]) for (const qs of [0, QS, QS + 1]) requests.push({ header, path, ip, qs });
  const inRange = (ip, cidr) => { const n = (x) => x.split(".").reduce((a, b) => a * 256 + +b, 0); const [b, l] = cidr.split("/"); return Math.floor(n(ip) / 2 ** (32 - l)) === Math.floor(n(b) / 2 ** (32 - l)); };

  // ---- AWS WAF ----
  const transform = (v, ts) => [...ts].sort((a, b) => a.Priority - b.Priority).reduce((x, t) => ({ NONE: (y) => y, LOWERCASE: (y) => y.toLowerCase(), NORMALIZE_PATH: (y) => y.replace(/\/\.(?=\/)/g, ""), MD5: (y) => `md5:${y}` })[t.Type](x), v);
  function matches(s, r, sets) {
    const [[kind, d]] = Object.entries(s);
    const field = () => {
      const f = d.FieldToMatch;
      if (f.SingleHeader) return f.SingleHeader.Name.toLowerCase() === "digitraffic-user" ? r.header : undefined;
      if (f.UriPath) return r.path;
      if (f.QueryString) return "q".repeat(r.qs);
      throw new Error(`field ${JSON.stringify(f)}`);
    };
    if (kind === "NotStatement") return !matches(d.Statement, r, sets);
    if (kind === "AndStatement") return d.Statements.every((x) => matches(x, r, sets));
    if (kind === "OrStatement") return d.Statements.some((x) => matches(x, r, sets));
    if (kind === "IPSetReferenceStatement") return sets[d.Arn["Fn::GetAtt"][0]].Addresses.some((c) => inRange(r.ip, c));
    const v = field();
    if (v === undefined) return false; // a missing part never matches
    const t = transform(v, d.TextTransformations);
    if (kind === "RegexMatchStatement") return new RegExp(d.RegexString).test(t);
    if (kind === "SizeConstraintStatement") return { GT: (a, b) => a > b, GE: (a, b) => a >= b, EQ: (a, b) => a === b, NE: (a, b) => a !== b, LT: (a, b) => a < b, LE: (a, b) => a <= b }[d.ComparisonOperator](t.length, d.Size);
    throw new Error(kind);
  }
  const keyOf = (d, r) => (d.AggregateKeyType === "IP" ? r.ip : d.CustomKeys.map((x) => (x.UriPath ? transform(r.path, x.UriPath.TextTransformations) : x.IP ? r.ip : JSON.stringify(x))).sort().join("|"));
  // which requests a rule sees, and which of them share a counter
  function meaning(rule, sets, bodies) {
    const s = rule.Statement;
    const action = rule.Action ? (rule.Action.Count ? "count" : rule.Action.Block ? `block${rule.Action.Block.CustomResponse ? `:${rule.Action.Block.CustomResponse.ResponseCode}:${bodies[rule.Action.Block.CustomResponse.CustomResponseBodyKey]?.Content}` : ""}` : JSON.stringify(rule.Action)) : `override ${Object.keys(rule.OverrideAction)[0]}`;
    if (s.ManagedRuleGroupStatement) { const m = s.ManagedRuleGroupStatement; return ["managed", m.VendorName, m.Name, (m.ExcludedRules ?? []).map((x) => x.Name).sort(), action]; }
    if (s.RateBasedStatement) {
      const d = s.RateBasedStatement;
      const seen = requests.filter((r) => !d.ScopeDownStatement || matches(d.ScopeDownStatement, r, sets));
      const groups = Map.groupBy(seen, (r) => keyOf(d, r));
      return ["rate", d.Limit, d.EvaluationWindowSec ?? 300, [...groups.values()].map((g) => g.map((r) => requests.indexOf(r)).join(",")).sort(), action];
    }
    return ["match", requests.filter((r) => matches(s, r, sets)).map((r) => requests.indexOf(r)).join(","), action];
  }

  // ---- what each call asks for ----
  const named = (r) => !!r.header;
  const norm = (p) => p.toLowerCase().replace("/./", "/");
  const rate = (limit, scope, byPath, action) => {
    const groups = Map.groupBy(requests.filter(scope), (r) => (byPath ? `${r.ip} ${norm(r.path)}` : r.ip));
    return ["rate", limit, 300, [...groups.values()].map((g) => g.map((r) => requests.indexOf(r)).join(",")).sort(), action];
  };
  const match = (f) => ["match", requests.filter(f).map((r) => requests.indexOf(r)).join(","), "block"];
  const text = (limit) => `Request rate is limited to ${limit} requests in a 5 minute window.`;
  const GROUPS = { CommonRuleSet: ["AWSManagedRulesCommonRuleSet", ["NoUserAgent_HEADER", "SizeRestrictions_BODY", "GenericRFI_BODY"]], AmazonIpReputationList: ["AWSManagedRulesAmazonIpReputationList", []], KnownBadInputsRuleSet: ["AWSManagedRulesKnownBadInputsRuleSet", []], SQLiRuleSet: ["AWSManagedRulesSQLiRuleSet", []] };
  const managed = (list, ex = {}) => (st) => Object.keys(GROUPS).filter((g) => list === "all" || list.includes(g)).forEach((g) => st.block.push([`m:${g}`, ["managed", "AWS", GROUPS[g][0], [...GROUPS[g][1], ...(ex[g] ?? [])].sort(), "override None"]]));
  const throttle = (kind, limit, scope, byPath) => (st) => { const key = `${kind}_${limit}`; st.bodies[key] ??= text(limit); st.block.push([kind, () => rate(limit, scope, byPath, `block:429:${st.bodies[key]}`)]); };
  const count = (kind, limit, scope, byPath) => (st) => { st.count.push([`${kind}${limit}`, rate(limit, scope, byPath, "count")]); };
  const anon = (r) => !named(r);
  const re = /^\/api\/.*/;
  const calls = [];
  const add = (label, f, ref, throttling) => calls.push({ label, f, ref, throttling });
  for (const l of [undefined, 100, 2000]) {
    add(`throttle user ip ${l}`, (b) => b.withThrottleDigitrafficUserIp(l), l !== undefined && throttle("tu", l, named, false), true);
    add(`throttle user ip+path ${l}`, (b) => b.withThrottleDigitrafficUserIpAndUriPath(l), l !== undefined && throttle("tup", l, named, true), true);
    add(`throttle anon ip ${l}`, (b) => b.withThrottleAnonymousUserIp(l), l !== undefined && throttle("ta", l, anon, false), true);
    add(`throttle anon ip+path ${l}`, (b) => b.withThrottleAnonymousUserIpAndUriPath(l), l !== undefined && throttle("tap", l, anon, true), true);
    add(`throttle anon by path ${l}`, (b) => b.withThrottleAnonymousUserIpByUriPath(l, re), l !== undefined && throttle("tabp", l, (r) => anon(r) && re.test(r.path), false), true);
    add(`count user ip ${l}`, (b) => b.withCountDigitrafficUserIp(l), l !== undefined && count("cu", l, named, false), true);
    add(`count user ip+path ${l}`, (b) => b.withCountDigitrafficUserIpAndUriPath(l), l !== undefined && count("cup", l, named, true), true);
    add(`count anon ip ${l}`, (b) => b.withCountAnonymousUserIp(l), l !== undefined && count("ca", l, anon, false), true);
    add(`count anon ip+path ${l}`, (b) => b.withCountAnonymousUserIpAndUriPath(l), l !== undefined && count("cap", l, anon, true), true);
  }
  add("throttle anon by no path", (b) => b.withThrottleAnonymousUserIpByUriPath(100, undefined), false);
  add("own throttle", (b) => b.withCustomResponseBody("own", { content: "slow down", contentType: "TEXT_PLAIN" }).withThrottleRule("Own", 77, true, true, "own"), (st) => { st.bodies.own = "slow down"; st.block.push(["own", () => rate(77, named, true, `block:429:${st.bodies.own}`)]); });
  add("own count by path", (b) => b.withThrottleRule("OwnCount", 78, false, true, undefined, re), (st) => st.count.push(["ownc", rate(78, (r) => anon(r) && re.test(r.path), true, "count")]));
  add("query size", (b) => b.withQueryStringSizeRestriction(QS), (st) => st.block.push(["qs", match((r) => r.qs > QS)]));
  add("blacklist", (b) => b.withIpBlacklistRule(LISTED), (st) => { st.ids.push("bl"); st.block.push(["bl", match((r) => LISTED.some((c) => inRange(r.ip, c)))]); });
  add("whitelist", (b) => b.withIpWhitelistRule(LISTED), (st) => { st.ids.push("wl"); st.block.push(["wl", match((r) => !LISTED.some((c) => inRange(r.ip, c)))]); });
  add("managed all", (b) => b.withAWSManagedRules(), managed("all"));
  add("managed all, excluding", (b) => b.withAWSManagedRules("all", { CommonRuleSet: ["X", "Y"], SQLiRuleSet: ["Z"], AmazonIpReputationList: ["V"], KnownBadInputsRuleSet: ["W"] }), managed("all", { CommonRuleSet: ["X", "Y"], SQLiRuleSet: ["Z"], AmazonIpReputationList: ["V"], KnownBadInputsRuleSet: ["W"] }));
  for (const l of [[], ["SQLiRuleSet"], ["CommonRuleSet", "KnownBadInputsRuleSet"], ["AmazonIpReputationList"]]) add(`managed ${l}`, (b) => b.withAWSManagedRules(l), managed(l));

  const body = (alphabet, n) => (c) => {
    const seq = Array.from({ length: c.choose("n", n + 1) }, (_, i) => c.choose(`call ${i}`, alphabet.map((x, j) => j)));
    const stack = k.plainStack();
    const st = { count: [], block: [], bodies: {}, ids: [] };
    let e, b;
    try {
      b = new k.a.AclBuilder(stack, "Acl");
      for (const i of seq) { c.check(alphabet[i].f(b) === b, "not-chainable", alphabet[i].label); }
      b.build();
    } catch (x) { if (x.key) throw x; e = x; }
    for (const i of seq) if (alphabet[i].ref) alphabet[i].ref(st);
    const want = [...st.count, ...st.block];
    const bad = want.length === 0 || new Set(want.map(([x]) => x)).size !== want.length;
    const label = () => seq.map((i) => alphabet[i].label).join("; ");
    c.equal(!!e, bad, "refusal", () => `${label()}: ${e}`);
    if (e) return "refused";
    const t = k.template(stack);
    const [acl] = k.of(t, "AWS::WAFv2::WebACL");
    const sets = Object.fromEntries(k.of(t, "AWS::WAFv2::IPSet").map((x) => [x.id, x]));
    for (const s of Object.values(sets)) c.equal(s.Scope, acl.Scope, "scope");
    c.equal(acl.Scope, "CLOUDFRONT", "scope");
    c.equal(acl.DefaultAction, { Allow: {} }, "default-action");
    const rules = [...acl.Rules].sort((x, y) => x.Priority - y.Priority);
    c.equal(new Set(rules.map((r) => r.Priority)).size, rules.length, "priorities", label);
    c.equal([new Set(rules.map((r) => r.Name)).size, new Set(rules.map((r) => r.VisibilityConfig.MetricName)).size], [rules.length, rules.length], "names", label);
    for (const r of rules) {
      c.equal(r.VisibilityConfig.CloudWatchMetricsEnabled, true, "metrics", r.Name);
      const key = r.Action?.Block?.CustomResponse?.CustomResponseBodyKey;
      if (key) c.check(acl.CustomResponseBodies?.[key], "response-body-missing", () => `${label()}: ${key}`);
    }
    c.equal(rules.map((r) => meaning(r, sets, acl.CustomResponseBodies ?? {})), want.map(([, m]) => (typeof m === "function" ? m() : m)), "rules", label);
    return `${rules.length} rules`;
  };
  await ctx.explore("all calls", body(calls, ctx.thorough ? 3 : 2), { sync: true, replayEvery: 997 });
  const throttling = calls.filter((x) => x.throttling && !/2000/.test(x.label) && !/undefined/.test(x.label)).concat(calls.find((x) => x.label === "throttle anon ip undefined"), calls.find((x) => x.label === "query size"));
  await ctx.explore("throttling", body(throttling, ctx.thorough ? 4 : 3), { sync: true, replayEvery: 997 });

  await ctx.explore("overridden response bodies", (c) => {
    const stack = k.plainStack();
    const b = new k.a.AclBuilder(stack);
    const own = { content: "own text", contentType: "TEXT_PLAIN" };
    const throttleFirst = c.bool("throttle first"), kind = c.choose("kind", ["withThrottleDigitrafficUserIp", "withThrottleAnonymousUserIp", "withThrottleAnonymousUserIpAndUriPath", "withThrottleDigitrafficUserIpAndUriPath"]);
    // find the key the throttle uses
    const probe = new k.a.AclBuilder(k.plainStack("P"))[kind](100).build().rules[0].action.block.customResponse.customResponseBodyKey;
    if (throttleFirst) b[kind](100);
    b.withCustomResponseBody(probe, own);
    if (!throttleFirst) b[kind](100);
    b.build();
    const [acl] = k.of(k.template(stack), "AWS::WAFv2::WebACL");
    c.equal(acl.CustomResponseBodies[acl.Rules[0].Action.Block.CustomResponse.CustomResponseBodyKey].Content, "own text", "own-body-lost");
    return "ok";
  }, { sync: true });
}
