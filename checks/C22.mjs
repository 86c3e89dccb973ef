import { cdk } from "../lib/cdk.mjs";
import { mkdirSync, writeFileSync } from "node:fs";

const TOPIC = "arn:aws:sns:eu-west-1:1:alarms";
export const meta = { parallel: true, bounds: "every canary of every kind deviating from its defaults in at most 3 (quick) / 4 (thorough) of 18 ways, every pair of canaries sharing a role from the unmodified kinds" };

export async function run(ctx) {
  const k = await cdk({ ca: "aws/infra/canaries/canary.ts", uc: "aws/infra/canaries/url-canary.ts", dc: "aws/infra/canaries/database-canary.ts", cr: "aws/infra/canaries/canary-role.ts", api: "aws/infra/stack/rest-api.ts" }, ["x"]);
  const syn = k.q("aws-synthetics"), events = k.q("aws-events"), iam = k.q("aws-iam"), sm = k.q("aws-secretsmanager");
  const { Duration } = k.core;
  // synthetics takes the code from the application's dist folder
  mkdirSync("dist/nodejs/node_modules", { recursive: true });
  for (const f of ["can", "can-db", "other", "other-db", "mod"]) { writeFileSync(`dist/nodejs/node_modules/${f}.js`, "//"); writeFileSync(`dist/${f}.js`, "//"); }
  const list = (x) => [x].flat();
  const info = console.info;
  console.info = () => {};
  const minutesOf = (e) => { const [, n, u] = /^rate\((\d+) (minute|hour|day)s?\)$/.exec(e); return n * { minute: 1, hour: 60, day: 1440 }[u]; };
  const statements = (t, roleId) => k.of(t, "AWS::IAM::Policy").filter((p) => (p.Roles ?? []).some((r) => r.Ref === roleId)).flatMap((p) => p.PolicyDocument.Statement);
  const can = (t, roleId, action, test) => statements(t, roleId).some((s) => s.Effect === "Allow" && list(s.Action).some((a) => a === action || a === "*" || (a.endsWith("*") && action.startsWith(a.slice(0, -1)))) && list(s.Resource).some((r) => r === "*" || test(JSON.stringify(r))));

  function make(c, stack, role, role2, l, kinds, name) {
    const d = (n, v) => c.deviate(`${l}${n}`, v);
    const kind = c.choose(`${l}kind`, kinds);
    const o = {
      kind, name,
      schedule: d("schedule", [undefined, 5]), alarm: d("alarm", [undefined, {}, { alarmName: `own-${name}`, description: "d", evalutionPeriods: 3, threshold: 50, topicArn: "arn:aws:sns:eu-west-1:1:own" }, { topicArn: "arn:aws:sns:eu-west-1:1:own" }, { threshold: 0 }]),
      env: d("env", [undefined, { A: "1" }, { hostname: "own.example", DB_APPLICATION: "own" }]), runtime: d("runtime", [undefined, true]),
      handler: d("handler", [undefined, "mod.main"]),
    };
    const params = { ...(o.schedule ? { schedule: events.Schedule ? syn.Schedule.rate(Duration.minutes(o.schedule)) : 0 } : {}), ...(o.alarm ? { alarm: o.alarm } : {}), ...(o.env ? { canaryEnv: o.env } : {}), ...(o.runtime ? { runtime: syn.Runtime.SYNTHETICS_NODEJS_PUPPETEER_7_0 } : {}), ...(o.handler ? { handler: o.handler } : {}) };
    Object.freeze(params);
    if (kind === "url") {
      o.keys = d("keys", [1, 0, 2]); o.inVpc = d("in vpc", [false, true]); o.secret = d("secret", [undefined, "sec"]); o.grant = d("grant", [false, true]); o.host = d("host", [undefined, "h.example"]); o.apiKey = d("api key", [undefined, "key-id"]);
      const api = new k.api.DigitrafficRestApi(stack, `Api${name}`, `Api ${name}`);
      api.root.addMethod("GET");
      const keys = Array.from({ length: o.keys }, (_, i) => api.createUsagePlanV2(`${name}${i}`));
      o.wantHost = o.host ?? api.hostname();
      o.wantKey = o.apiKey ?? keys[0];
      const s = o.grant ? sm.Secret.fromSecretNameV2(stack, `Sec${name}`, "granted") : undefined;
      o.made = k.uc.UrlCanary.create(stack, role, api, { name, ...params, ...(o.inVpc ? { inVpc: true } : {}), ...(o.secret ? { secret: o.secret } : {}), ...(o.host ? { hostname: o.host } : {}), ...(o.apiKey ? { apiKeyId: o.apiKey } : {}) }, s);
    } else if (kind === "db") o.made = k.dc.DatabaseCanary.create(stack, role, { name, ...params });
    else {
      o.own = d("canary name", [undefined, "second"]);
      o.made = k.dc.DatabaseCanary.createV2(stack, role, name, params, ...(o.own ? [o.own] : []));
    }
    return o;
  }
  function judge(c, t, stack, conf, o, roleId) {
    const R = (x) => stack.resolve(x);
    const base = o.own ?? o.name;
    const cname = `${base}-${o.kind === "url" ? "url" : "db"}`;
    const all = k.of(t, "AWS::Synthetics::Canary").filter((x) => x.Name === cname);
    c.equal(all.length, 1, "canary", cname);
    const [x] = all;
    c.equal(x.ExecutionRoleArn, { "Fn::GetAtt": [roleId, "Arn"] }, "role");
    c.equal(x.Code.Handler, o.handler ?? { url: `${o.name}.handler`, db: `${o.name}.handler`, dbv2: `${o.name}-db.handler` }[o.kind], "handler");
    c.equal([minutesOf(x.Schedule.Expression), x.RuntimeVersion, x.ProvisionedResourceCleanup, x.StartCanaryAfterCreation], [o.schedule ?? (o.kind === "url" ? 15 : 60), o.runtime ? "syn-nodejs-puppeteer-7.0" : "syn-nodejs-puppeteer-13.0", "AUTOMATIC", true], "settings");
    const env = o.kind === "url"
      ? { hostname: R(o.wantHost), ...(o.secret ? { secret: o.secret } : {}), ...(o.wantKey ? { apiKeyId: R(o.wantKey) } : {}) }
      : { SECRET_ID: "the-secret", DB_APPLICATION: `Synthetics-${cname}` };
    c.equal(x.RunConfig.EnvironmentVariables, { ...env, ...o.env }, "environment");
    const inNet = o.kind !== "url" || o.inVpc;
    const v = x.VPCConfig;
    if (!inNet) c.equal(v, undefined, "vpc");
    else c.equal([v?.VpcId, v?.SubnetIds ?? [], v?.SecurityGroupIds ?? []], [conf.vpc ? "vpc-1" : undefined, conf.vpc ? ["subnet-1", "subnet-2"] : [], conf.db ? ["sg-db"] : []], "vpc");
    // results must be storable
    const loc = JSON.stringify(x.ArtifactS3Location);
    const bucket = k.of(t, "AWS::S3::Bucket").find((b) => loc.includes(`"${b.id}"`));
    c.check(bucket && can(t, roleId, "s3:PutObject", (r) => r.includes(`"${bucket.id}"`) && r.includes("/*")), "artifacts-right", cname);
    // alarm
    const alarms = k.of(t, "AWS::CloudWatch::Alarm").filter((a) => JSON.stringify(a.Dimensions).includes(`"${x.id}"`));
    c.equal(alarms.length, 1, "alarms", cname);
    const [a] = alarms;
    const given = o.alarm ?? (o.kind === "dbv2" ? { alarmName: o.own ? `${base}-DB-Alarm` : "SHORT-DB-Alarm", topicArn: TOPIC } : {});
    c.equal([a.AlarmName, a.AlarmDescription, a.Namespace, a.MetricName, a.EvaluationPeriods, a.Threshold, a.ComparisonOperator, a.AlarmActions ?? []],
      [given.alarmName ?? `${base}-alarm`, given.description ?? "", "CloudWatchSynthetics", "SuccessPercent", given.evalutionPeriods ?? 1, given.threshold ?? 100, "LessThanThreshold", given.topicArn ? [given.topicArn] : []], "alarm");
  }
  const stackFor = (conf) => k.dtStack({ secretId: conf.secret ? "the-secret" : undefined, alarmTopicArn: TOPIC, ...(conf.db ? { lambdaDbSgId: "sg-db" } : {}), ...(conf.vpc ? { vpcId: "vpc-1", privateSubnetIds: ["subnet-1", "subnet-2"], availabilityZones: ["a", "b"] } : {}) });
  function roleChecks(c, t, roleId, w) {
    const r = k.of(t, "AWS::IAM::Role").find((x) => x.id === roleId);
    c.equal(r.AssumeRolePolicyDocument.Statement.map((s) => [s.Effect, s.Action, s.Principal]), [["Allow", "sts:AssumeRole", { Service: "lambda.amazonaws.com" }]], "assume");
    const managed = JSON.stringify(r.ManagedPolicyArns);
    c.check(managed.includes("CloudWatchSyntheticsFullAccess"), "synthetics-rights", managed);
    c.equal(managed.includes("AWSLambdaVPCAccessExecutionRole"), w.net, "network-rights");
    c.equal(can(t, roleId, "apigateway:GET", (x) => x.includes("/apikeys/")), w.api, "api-key-rights");
    c.check(!can(t, roleId, "apigateway:DELETE", () => true), "too-many-rights", "apigateway");
    for (const a of ["logs:CreateLogStream", "logs:PutLogEvents", "logs:CreateLogGroup"]) c.check(can(t, roleId, a, () => true), "log-rights", a);
    const metric = statements(t, roleId).filter((s) => list(s.Action).includes("cloudwatch:PutMetricData"));
    c.equal(metric.map((s) => [s.Effect, s.Condition]), [["Allow", { StringEquals: { "cloudwatch:namespace": "CloudWatchSynthetics" } }]], "metric-rights");
    c.equal(can(t, roleId, "secretsmanager:GetSecretValue", (x) => x.includes("the-secret")), !!w.secret, "secret-rights");
    c.equal(can(t, roleId, "secretsmanager:GetSecretValue", (x) => x.includes("granted")), !!w.granted, "granted-secret-rights");
  }
  try {
    await ctx.explore("one canary", (c) => {
      const conf = { secret: c.deviate("secret", [true, false]), vpc: c.deviate("vpc", [true, false]), db: c.deviate("db group", [true, false]) };
      const access = c.deviate("role access", ["none", "database", "vpc", "api"]);
      const stack = stackFor(conf);
      let role = new k.cr.DigitrafficCanaryRole(stack, "can");
      if (access === "database") role = role.withDatabaseAccess();
      if (access === "vpc") role = role.withVpcAccess();
      if (access === "api") role = role.withApiGatewayAccess();
      let o, threw;
      try { o = make(c, stack, role, undefined, "", ["url", "db", "dbv2"], "can"); } catch (e) { if (e.constructor.name !== "Error") throw e; threw = e; }
      if (threw) {
        c.check(!conf.secret && /Secret is undefined/.test(threw.message), "refused", String(threw));
        return "refused";
      }
      c.check(o.kind === "url" || conf.secret, "accepted", "database canary without a secret");
      const t = k.template(stack);
      const roleId = stack.resolve(role.roleArn)["Fn::GetAtt"][0];
      judge(c, t, stack, conf, o, roleId);
      roleChecks(c, t, roleId, { net: ["database", "vpc"].includes(access), api: o.kind === "url" || access === "api", secret: o.kind !== "url", granted: o.grant });
      return JSON.stringify([o.kind, access, Object.keys(o).filter((x) => o[x] !== undefined).length]);
    }, { bound: ctx.thorough ? 4 : 3 });
    await ctx.explore("two canaries", (c) => {
      const conf = { secret: true, vpc: true, db: true };
      const stack = stackFor(conf);
      const role = new k.cr.DigitrafficCanaryRole(stack, "can");
      const shared = c.bool("shared role");
      const role2 = shared ? role : new k.cr.DigitrafficCanaryRole(stack, "other");
      const a = make(c, stack, role, undefined, "first ", ["url", "db", "dbv2"], "can");
      const kinds2 = ["url", "db", ...(a.kind === "dbv2" ? [] : ["dbv2"])];
      const b = make(c, stack, role2, undefined, "second ", kinds2, "other");
      const t = k.template(stack);
      const id = (r) => stack.resolve(r.roleArn)["Fn::GetAtt"][0];
      judge(c, t, stack, conf, a, id(role));
      judge(c, t, stack, conf, b, id(role2));
      const w = (...os) => ({ net: false, api: os.some((o) => o.kind === "url"), secret: os.some((o) => o.kind !== "url"), granted: os.some((o) => o.grant) });
      if (shared) roleChecks(c, t, id(role), w(a, b)); else { roleChecks(c, t, id(role), w(a)); roleChecks(c, t, id(role2), w(b)); }
      return JSON.stringify([a.kind, b.kind]);
    }, { bound: ctx.thorough ? 3 : 1 });
  } finally { console.info = info; }
}
