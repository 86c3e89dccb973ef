import { cdk } from "../lib/cdk.mjs";

export const meta = { parallel: true, bounds: "every function configuration deviating from the defaults in at most 3 (quick) / 4 (thorough) of 22 ways for the builder and 2 / 3 of 17 ways for monitored functions; every pair of functions built in one stack from configurations deviating in together at most 1 (quick) / 2 (thorough) ways" };

export async function run(ctx) {
  const k = await cdk({ f: "aws/infra/stack/dt-function.ts", al: "aws/infra/stack/dt-function-alarms.ts", m: "aws/infra/stack/monitoredfunction.ts", lg: "aws/infra/stack/lambda-log-group.ts", sub: "aws/infra/stack/subscription.ts" }, ["do-it", "other-thing", "dump/locations", "a2b-c"]);
  const lambda = k.q("aws-lambda"), ec2 = k.q("aws-ec2"), iam = k.q("aws-iam"), cw = k.q("aws-cloudwatch");
  const { Duration } = k.core;
  const CO = cw.ComparisonOperator;
  const stackConf = (c, l = "") => ({
    secret: c.deviate(`${l}secret`, [true, false]), db: c.deviate(`${l}db sg`, [true, false]), vpc: c.deviate(`${l}vpc`, [true, false]),
    production: c.deviate(`${l}production`, [false, true]), shortName: c.deviate(`${l}short`, ["SHORT", "Other"]), traffic: c.deviate(`${l}traffic`, ["Marine", "Road", null]),
  });
  const makeStack = (s, extra = {}) => k.dtStack({ shortName: s.shortName, production: s.production, trafficType: s.traffic, ...(s.secret ? { secretId: "the-secret" } : {}), ...(s.db ? { lambdaDbSgId: "sg-db" } : {}), ...(s.vpc ? { vpcId: "vpc-1", privateSubnetIds: ["subnet-1", "subnet-2"], availabilityZones: ["a", "b"] } : {}), ...extra });
  const nameOf = { "do-it": "DoIt", "dump/locations": "DumpLocations", "a2b-c": "A2BC", "other-thing": "OtherThing" };

  const flat = (x) => JSON.stringify(x);
  const topic = (t) => ({ alarm: "AlarmTopicParamParameter", warning: "WarningTopicParamParameter" })[t];
  // what the template says about one function
  function view(t, stack, fnName) {
    const fn = k.of(t, "AWS::Lambda::Function").find((x) => x.FunctionName === fnName);
    if (!fn) return undefined;
    const roleRef = fn.Role?.["Fn::GetAtt"]?.[0];
    const role = k.of(t, "AWS::IAM::Role").find((r) => r.id === roleRef);
    const policies = k.of(t, "AWS::IAM::Policy").filter((p) => (p.Roles ?? []).some((r) => r.Ref === roleRef));
    const statements = policies.flatMap((p) => p.PolicyDocument.Statement);
    const log = k.of(t, "AWS::Logs::LogGroup").find((g) => g.id === fn.LoggingConfig?.LogGroup?.Ref);
    const alarms = k.of(t, "AWS::CloudWatch::Alarm").filter((a) => a.Dimensions?.some((d) => d.Name === "FunctionName" && d.Value?.Ref === fn.id))
      .map((a) => ({ metric: a.MetricName, stat: a.Statistic, threshold: a.Threshold, periods: a.EvaluationPeriods, points: a.DatapointsToAlarm, op: a.ComparisonOperator, actions: (a.AlarmActions ?? []).map((x) => x.Ref), name: a.AlarmName }))
      .sort((x, y) => (x.name < y.name ? -1 : 1));
    return { fn, role, statements, log, alarms };
  }
  const alarm = (metric, stat, threshold, to, name, o = {}) => ({ metric, stat, threshold: o.threshold ?? threshold, periods: o.evaluationPeriods ?? 1, points: o.datapointsToAlarm ?? 1, op: o.comparisonOperator ?? "GreaterThanOrEqualToThreshold", actions: [topic(to)], name });
  const secretArn = (s) => /secretsmanager/.test(flat(s.Resource)) && /the-secret/.test(flat(s.Resource));

  // ---- the function builder ----
  const OWN = { threshold: 7, evaluationPeriods: 3, datapointsToAlarm: 2, comparisonOperator: CO.LESS_THAN_THRESHOLD };
  const OWN2 = { evaluationPeriods: 4, datapointsToAlarm: 3, comparisonOperator: CO.GREATER_THAN_THRESHOLD };
  function builderConf(c, l = "") {
    const d = (n, v) => c.deviate(l + n, v);
    return {
      kind: d("kind", ["create", "plain"]), noDb: d("noDb", [false, true]), noSecret: d("noSecret", [false, true]),
      path: d("path", [undefined, "dump/locations", "a2b-c"]), code: d("code", [false, true]), handler: d("handler", [undefined, ["mod"], ["mod", "main"]]),
      memory: d("memory", [undefined, 512]), timeout: d("timeout", [undefined, 10, 90]), conc: d("conc", [undefined, 7]),
      env: d("env", [[], [{ A: "1" }], [{ A: "1", B: "2" }, { A: "3" }], [{ SECRET_ID: "own" }], [{ DB_APPLICATION: "own" }]]),
      groups: d("groups", [[], ["sg-1"], ["sg-1", "sg-2"]]), role: d("role", [false, true]), arch: d("arch", [undefined, "x86_64"]), runtime: d("runtime", [undefined, "nodejs22.x"]),
      desc: d("desc", [undefined, "what it does"]), actions: d("actions", [[], ["s3:GetObject"], ["sqs:SendMessage", "s3:GetObject"], ["s3:GetObject", "*"]]), policies: d("policies", [0, 1, 2]),
      dur: d("dur alarm", ["default", "off", "own", "own2"]), warn: d("warn alarm", ["default", "off", "own", "own2"]), err: d("err alarm", ["default", "off", "own", "own2"]), thr: d("thr alarm", ["default", "off", "own", "own2"]),
      layers: d("layers", [0, 2]),
    };
  }
  function buildIt(stack, name, o, order) {
    let b = k.f.FunctionBuilder[o.kind](stack, name);
    const steps = [];
    const s = (f) => steps.push(f);
    if (o.noDb) s((x) => x.withoutDatabaseAccess());
    if (o.noSecret) s((x) => x.withoutSecretAccess());
    if (o.path) s((x) => x.withAssetCode(o.path));
    if (o.code) s((x) => x.withCode(lambda.Code.fromInline("exports.x = 1")));
    if (o.handler) s((x) => x.withHandler(...o.handler));
    if (o.memory) s((x) => x.withMemorySize(o.memory));
    if (o.timeout) s((x) => x.withTimeout(Duration.seconds(o.timeout)));
    if (o.conc) s((x) => x.withReservedConcurrentExecutions(o.conc));
    for (const e of o.env) s((x) => x.withEnvironment(e));
    for (const g of o.groups) s((x) => x.withSecurityGroup(ec2.SecurityGroup.fromSecurityGroupId(stack, `${name}-${g}`, g)));
    if (o.role) s((x) => x.withRole(new iam.Role(stack, `${name}-role`, { roleName: `${name}-own-role`, assumedBy: new iam.ServicePrincipal("lambda.amazonaws.com") })));
    if (o.arch) s((x) => x.withArchitecture(lambda.Architecture.X86_64));
    if (o.runtime) s((x) => x.withRuntime(lambda.Runtime.NODEJS_22_X));
    if (o.desc) s((x) => x.withDescription(o.desc));
    for (const a of o.actions) s((x) => x.withAllowedActions(a));
    for (let i = 0; i < o.policies; i++) s((x) => x.withRolePolicies(new iam.PolicyStatement({ effect: iam.Effect.ALLOW, actions: [`own:Act${i}`], resources: [`arn:own:${i}`] })));
    for (let i = 0; i < o.layers; i++) s((x) => x.withLayers(lambda.LayerVersion.fromLayerVersionArn(stack, `${name}-layer${i}`, `arn:aws:lambda:eu-west-1:1:layer:l${i}:1`)));
    const al = new k.al.DtFunctionAlarms();
    const own = { off: undefined, own: OWN, own2: OWN2 };
    if (o.dur !== "default") al.withDurationAlarm(own[o.dur]);
    if (o.warn !== "default") al.withDurationWarning(own[o.warn]);
    if (o.err !== "default") al.withErrorAlarm(own[o.err]);
    if (o.thr !== "default") al.withThrottleAlarm(own[o.thr]);
    if ([o.dur, o.warn, o.err, o.thr].some((x) => x !== "default")) s((x) => x.withAlarms(al));
    // code, handler and repeated settings depend on their order; the rest must not
    const keep = (f) => /withAssetCode|withHandler|withEnvironment|withSecurityGroup|withAllowedActions|withRolePolicies|withLayers/.test(String(f));
    const seq = order ? [...steps.filter(keep), ...steps.filter((f) => !keep(f)).reverse()] : steps;
    for (const f of seq) b = f(b);
    return () => b.build();
  }
  function checkBuilt(c, t, stack, s, o, name) {
    const fnName = `${s.shortName}-${nameOf[name]}`;
    const v = view(t, stack, fnName);
    const db = o.kind === "create" && !o.noDb, secret = o.kind === "create" && !o.noSecret;
    c.check(v, "function-missing", fnName);
    const { fn } = v;
    const base = (o.path ?? name).split("/").pop();
    c.equal([fn.Handler, fn.MemorySize, fn.Timeout, fn.ReservedConcurrentExecutions, fn.Architectures, fn.Runtime, fn.Description],
      [o.handler ? `${o.handler[0]}.${o.handler[1] ?? "handler"}` : `${base}.handler`, o.memory ?? 128, o.timeout ?? 60, o.conc ?? 2, [o.arch ?? "arm64"], o.runtime ?? "nodejs24.x", o.desc], "settings");
    c.equal(o.code ? fn.Code.ZipFile : !!fn.Code.S3Key, o.code ? "exports.x = 1" : true, "code");
    if (!o.code) c.check(codeOf(o.path ?? name) === flat(fn.Code.S3Key), "code", `code of ${o.path ?? name}`);
    c.equal(fn.Environment?.Variables ?? {}, { ...(secret && s.secret ? { SECRET_ID: "the-secret" } : {}), ...(db ? { DB_APPLICATION: s.shortName } : {}), ...Object.assign({}, ...o.env) }, "environment");
    const groups = [...o.groups, ...(db ? ["sg-db"] : [])].sort();
    if (s.vpc) {
      c.equal(fn.VpcConfig?.SubnetIds, ["subnet-1", "subnet-2"], "subnets");
      const got = fn.VpcConfig?.SecurityGroupIds ?? [];
      if (groups.length) c.equal([...got].sort(), groups, "security-groups");
      else c.check(!flat(got).includes("sg-db"), "database-access-leaks", flat(got));
    } else c.equal(fn.VpcConfig, undefined, "vpc");
    c.equal([fn.LoggingConfig.LogFormat, fn.LoggingConfig.ApplicationLogLevel, fn.LoggingConfig.SystemLogLevel, v.log?.LogGroupName, v.log?.RetentionInDays], ["JSON", "DEBUG", "INFO", `/${s.shortName}/lambda/${fnName}`, 365], "logging");
    c.equal(fn.Layers ?? [], Array.from({ length: o.layers }, (_, i) => `arn:aws:lambda:eu-west-1:1:layer:l${i}:1`), "layers");
    c.equal(!!(o.role && v.role?.RoleName === `${name}-own-role`), o.role, "role");
    const rest = v.statements.filter((x) => !secretArn(x));
    c.equal(v.statements.some((x) => secretArn(x) && x.Effect === "Allow" && [x.Action].flat().includes("secretsmanager:GetSecretValue")), secret, "secret-grant");
    if (!secret) c.check(!v.statements.some(secretArn), "secret-grant", "granted");
    const norm = (x) => [[x.Action].flat().sort().join(), [x.Resource].flat().join(), x.Effect].join("|");
    const want = [...Array.from({ length: o.policies }, (_, i) => `own:Act${i}|arn:own:${i}|Allow`), ...(o.actions.length ? [`${[...o.actions].sort()}|*|Allow`] : [])];
    c.equal(rest.map(norm).sort(), want.sort(), "permissions");
    const to = s.production ? "alarm" : "warning";
    const T = (o.timeout ?? 60) * 1000;
    const own = { default: {}, own: OWN, own2: OWN2 };
    const op = (x) => ({ ...x, comparisonOperator: x.comparisonOperator });
    const pre = `${s.traffic ?? ""} ${stack.stackName} ${fnName}`.trim();
    const wantAlarms = [
      ...(o.dur !== "off" ? [alarm("Duration", "Maximum", T, to, `${pre} Duration alarm`, op(own[o.dur]))] : []),
      ...(o.warn !== "off" ? [alarm("Duration", "Maximum", T * 0.85, "warning", `${pre} Duration warning`, op(own[o.warn]))] : []),
      ...(o.err !== "off" ? [alarm("Errors", "Sum", 1, to, `${pre} Errors alarm`, op(own[o.err]))] : []),
      ...(o.thr !== "off" ? [alarm("Throttles", "Sum", 1, to, `${pre} Throttles alarm`, op(own[o.thr]))] : []),
    ].sort((x, y) => (x.name < y.name ? -1 : 1));
    c.equal(v.alarms, wantAlarms, "alarms");
  }
  const mustRefuse = (s, o) => {
    const db = o.kind === "create" && !o.noDb, secret = o.kind === "create" && !o.noSecret;
    if (db && !s.db) return "no security group";
    if (secret && !s.secret) return "no secret";
    if (o.actions.includes("*")) return "wildcard";
    if (!s.vpc && (o.groups.length || db)) return "security group without a network";
    return undefined;
  };
  const codes = new Map();
  const codeOf = (p) => {
    if (!codes.has(p)) {
      const st = k.plainStack("Codes");
      new lambda.Function(st, "F", { code: new lambda.AssetCode(`dist/lambda/${p}`), handler: "x.y", runtime: lambda.Runtime.NODEJS_22_X });
      codes.set(p, flat(k.of(k.template(st), "AWS::Lambda::Function")[0].Code.S3Key));
    }
    return codes.get(p);
  };
  await ctx.explore("function builder", (c) => {
    const s = stackConf(c), o = builderConf(c);
    const order = c.deviate("order", [false, true]);
    const stack = makeStack(s);
    let e;
    try { buildIt(stack, "do-it", o, order)(); } catch (x) { e = x; }
    c.equal(!!e, !!mustRefuse(s, o), "refusal", () => `${e} ${flat([s, o])}`);
    if (e) return mustRefuse(s, o);
    checkBuilt(c, k.template(stack), stack, s, o, "do-it");
    return "built";
  }, { sync: true, bound: ctx.thorough ? 4 : 3, replayEvery: 499 });

  await ctx.explore("two functions", (c) => {
    const s = { secret: true, db: true, vpc: true, production: c.bool("production"), shortName: "SHORT", traffic: "Road" };
    const o1 = builderConf(c, "1:"), o2 = builderConf(c, "2:");
    const stack = makeStack(s);
    let e;
    const x = buildIt(stack, "do-it", o1), y = buildIt(stack, "other-thing", o2);
    try { x(); y(); } catch (q) { e = q; }
    const bad = mustRefuse(s, o1) ?? mustRefuse(s, o2);
    c.equal(!!e, !!bad, "refusal", () => String(e));
    if (e) return bad;
    const t = k.template(stack);
    checkBuilt(c, t, stack, s, o1, "do-it");
    checkBuilt(c, t, stack, s, o2, "other-thing");
    return "built";
  }, { sync: true, bound: ctx.thorough ? 2 : 1, replayEvery: 499 });

  // ---- monitored functions ----
  const given = { threshold: [undefined, 0, 5], evaluationPeriods: [undefined, 3], datapointsToAlarm: [undefined, 2], comparisonOperator: [undefined, CO.LESS_THAN_THRESHOLD] };
  await ctx.explore("monitored functions", (c) => {
    const s = stackConf(c);
    const how = c.deviate("how", ["create", "v2", "db"]);
    const alarms = {};
    for (const a of ["durationAlarmProps", "durationWarningProps", "errorAlarmProps", "throttleAlarmProps"]) {
      const kind = c.deviate(a, ["none", "off", "set"]);
      if (kind === "off") alarms[a] = { create: false };
      if (kind === "set") alarms[a] = { create: true, ...Object.fromEntries(Object.entries(given).map(([n, v]) => [n, c.deviate(`${a}.${n}`, v)]).filter(([, v]) => v !== undefined)) };
    }
    const disable = c.deviate("disable", [false, true]);
    const p = { timeout: c.deviate("timeout", [undefined, 10]), memorySize: c.deviate("memory", [undefined, 256]), reservedConcurrentExecutions: c.deviate("conc", [undefined, 9]), functionName: c.deviate("name", [undefined, "Own-name"]), runtime: c.deviate("runtime", [undefined, lambda.Runtime.NODEJS_22_X]), architecture: c.deviate("arch", [undefined, lambda.Architecture.X86_64]) };
    const env = c.deviate("env", [{ A: "1" }, undefined]);
    const stack = makeStack(s);
    const fnName = p.functionName ?? `${s.shortName}-DoIt`;
    const params = { ...p, ...alarms };
    let e;
    try {
      if (how === "create") {
        k.m.MonitoredFunction.create(stack, fnName, { runtime: p.runtime ?? lambda.Runtime.NODEJS_24_X, architecture: p.architecture ?? lambda.Architecture.ARM_64, code: lambda.Code.fromInline("x"), handler: "do-it.handler", functionName: fnName, memorySize: p.memorySize ?? 128, reservedConcurrentExecutions: p.reservedConcurrentExecutions ?? 2, timeout: Duration.seconds(p.timeout ?? 60), environment: env, logGroup: k.lg.createLambdaLogGroup({ stack, functionName: fnName }) }, disable ? k.m.MonitoredFunction.DISABLE_ALARMS : alarms);
      } else if (how === "v2") k.m.MonitoredFunction.createV2(stack, "do-it", env ?? {}, params);
      else k.m.MonitoredDBFunction.create(stack, "do-it", env, params);
    } catch (x) { e = x; }
    const off = how === "create" && disable;
    const refuse = off && s.production ? "alarms disabled in production" : how === "db" && !s.secret ? "no secret" : how !== "create" && s.db && !s.vpc ? "security group without a network" : undefined;
    c.equal(!!e, !!refuse, "refusal", () => `${how}: ${e}`);
    if (e) return refuse;
    const t = k.template(stack);
    const v = view(t, stack, fnName);
    c.check(v, "function-missing", fnName);
    c.equal([v.fn.Handler, v.fn.MemorySize, v.fn.Timeout, v.fn.ReservedConcurrentExecutions, v.fn.Architectures, v.fn.Runtime], ["do-it.handler", p.memorySize ?? 128, p.timeout ?? 60, p.reservedConcurrentExecutions ?? 2, [p.architecture ? "x86_64" : "arm64"], p.runtime ? "nodejs22.x" : "nodejs24.x"], "settings");
    c.equal(v.fn.Environment?.Variables ?? {}, env ?? (how === "db" ? { SECRET_ID: "the-secret", DB_APPLICATION: s.shortName } : {}), "environment");
    c.equal([v.fn.LoggingConfig.LogFormat, v.fn.LoggingConfig.ApplicationLogLevel, v.fn.LoggingConfig.SystemLogLevel, v.log?.LogGroupName, v.log?.RetentionInDays], ["JSON", "DEBUG", "INFO", `/${s.shortName}/lambda/${fnName}`, 365], "logging");
    c.equal(v.statements.some((x) => secretArn(x) && [x.Action].flat().includes("secretsmanager:GetSecretValue")), how === "db", "secret-grant");
    if (how !== "create" && s.vpc) { c.equal(v.fn.VpcConfig.SubnetIds, ["subnet-1", "subnet-2"], "subnets"); if (s.db) c.equal(v.fn.VpcConfig.SecurityGroupIds, ["sg-db"], "security-groups"); }
    else c.equal(v.fn.VpcConfig, undefined, "vpc");
    const to = s.production ? "alarm" : "warning";
    const T = (p.timeout ?? 60) * 1000;
    const pre = `${s.traffic ?? ""} ${stack.stackName}`.trim();
    const on = (a) => !off && alarms[a]?.create !== false;
    const want = [
      ...(on("durationAlarmProps") ? [alarm("Duration", "Maximum", T, to, "", alarms.durationAlarmProps)] : []),
      ...(on("durationWarningProps") ? [alarm("Duration", "Maximum", T * 0.85, "warning", "", alarms.durationWarningProps)] : []),
      ...(on("errorAlarmProps") ? [alarm("Errors", "Sum", 1, to, "", alarms.errorAlarmProps)] : []),
      ...(on("throttleAlarmProps") ? [alarm("Throttles", "Sum", 0, to, "", { comparisonOperator: "GreaterThanThreshold", ...alarms.throttleAlarmProps })] : []),
    ];
    const names = new Set(k.of(t, "AWS::CloudWatch::Alarm").map((a) => flat(a.AlarmName)));
    c.equal(names.size, want.length, "alarm-names");
    for (const n of names) c.check(n.includes(pre), "alarm-names", n);
    c.equal(v.alarms.map((a) => flat({ ...a, name: "" })).sort(), want.map((a) => flat(a)).sort(), "alarms");
    return how;
  }, { sync: true, bound: ctx.thorough ? 3 : 2, replayEvery: 499 });

  await ctx.explore("declarations", (c) => {
    const production = c.bool("production"), what = c.choose("what", ["no name", "no timeout", "no timeout, no duration alarms", "no timeout, no duration warning"]);
    const stack = makeStack({ secret: true, db: true, vpc: true, production, shortName: "S", traffic: "Road" });
    let e;
    try {
      k.m.MonitoredFunction.create(stack, "id", { runtime: lambda.Runtime.NODEJS_24_X, code: lambda.Code.fromInline("x"), handler: "h.h", ...(what === "no name" ? { timeout: Duration.seconds(5) } : { functionName: "S-x" }) },
        what === "no timeout, no duration alarms" ? { durationAlarmProps: { create: false }, durationWarningProps: { create: false } } : what === "no timeout, no duration warning" ? { durationWarningProps: { create: false } } : undefined);
    } catch (x) { e = x; }
    c.equal(!!e, what !== "no timeout, no duration alarms", "refusal", String(e));
    return String(!!e);
  }, { sync: true });

  // ---- log subscriptions ----
  await ctx.explore("log subscriptions", (c) => {
    const dest = c.choose("destination", [undefined, "arn:aws:logs:eu-west-1:1:destination:d"]);
    const n = c.choose("functions", [0, 1, 2]);
    const way = c.choose("way", ["class", "function"]);
    const stack = makeStack({ secret: true, db: true, vpc: true, production: false, shortName: "S", traffic: "Road" }, dest ? { logsDestinationArn: dest } : {});
    const fns = ["do-it", "other-thing"].slice(0, n).map((x) => k.m.MonitoredFunction.createV2(stack, x, {}));
    if (way === "class") new k.sub.DigitrafficLogSubscriptions(stack, ...fns);
    else for (const f of fns) { const r = k.sub.createSubscription(f, f.givenName, dest, stack); c.equal(!!r, !!dest, "subscription"); }
    const t = k.template(stack);
    const fs = k.of(t, "AWS::Logs::SubscriptionFilter");
    c.equal(fs.length, dest ? n : 0, "subscription-count");
    const lambdas = k.of(t, "AWS::Lambda::Function");
    for (const f of fs) {
      c.equal([f.DestinationArn, f.FilterPattern], [dest, ""], "subscription");
      const of = lambdas.find((l) => l.LoggingConfig.LogGroup.Ref === f.LogGroupName.Ref);
      c.check(of, "subscription-group", flat(f.LogGroupName));
      const node = stack.node.findAll().find((x) => x.node.defaultChild === undefined && x.logicalId && stack.resolve(x.logicalId) === f.id);
      c.check([f.$.DependsOn].flat().includes(of.id) || node.node.dependencies.some((x) => x.functionName !== undefined && x.node.findAll().some((y) => y.logicalId && stack.resolve(y.logicalId) === of.id)), "subscription-order", f.id);
    }
    c.equal(new Set(fs.map((f) => f.LogGroupName.Ref)).size, fs.length, "subscription-group");
    return `${fs.length}`;
  }, { sync: true });
}
