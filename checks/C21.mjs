import { cdk } from "../lib/cdk.mjs";
import { render } from "../lib/apigw.mjs";

export const meta = { parallel: true, bounds: "every pair of queues from every kind, name and override of the alphabets; every request body of the alphabet and every content type through the queue integration; every rate, event and bucket request of the alphabets" };

export async function run(ctx) {
  const k = await cdk({ dqm: "aws/infra/sqs-queue.ts", qi: "aws/infra/sqs-integration.ts", sch: "aws/infra/scheduler.ts", sec: "aws/infra/security-rule.ts", bp: "aws/infra/bucket-policy.ts", am: "utils/api-model.ts" }, ["x"]);
  const ag = k.q("aws-apigateway"), iam = k.q("aws-iam"), lambda = k.q("aws-lambda"), sqs = k.q("aws-sqs"), s3 = k.q("aws-s3"), events = k.q("aws-events"), sns = k.q("aws-sns");
  const { Duration } = k.core;
  const list = (x) => [x].flat();
  const arnOf = (id) => JSON.stringify({ "Fn::GetAtt": [id, "Arn"] });
  // identity policy: what the role may do on a resource
  const may = (t, roleId, action, resource) => {
    const st = k.of(t, "AWS::IAM::Policy").filter((p) => (p.Roles ?? []).some((r) => r.Ref === roleId)).flatMap((p) => p.PolicyDocument.Statement);
    const hit = (s) => list(s.Action).some((a) => a === action || a === "*" || (a.endsWith("*") && action.startsWith(a.slice(0, -1)))) && list(s.Resource).some((r) => r === "*" || JSON.stringify(r) === resource);
    return st.some((s) => s.Effect === "Allow" && hit(s)) && !st.some((s) => s.Effect === "Deny" && hit(s));
  };

  await ctx.explore("queues", (c) => {
    const production = c.bool("production"), short = c.choose("short name", ["SHORT", "Other"]);
    const stack = k.dtStack({ shortName: short, production });
    const n = c.choose("queues", [1, 2]);
    const all = [];
    for (let i = 0; i < n; i++) {
      const kind = c.choose("kind", ["create", "createFifo", "dlq"]);
      const name = ["First", "Second"][i];
      const own = kind === "dlq" ? {} : c.choose("props", [{}, { visibilityTimeout: Duration.seconds(90) }, { dlq: true }, { receiveMessageWaitTime: Duration.seconds(5), retentionPeriod: Duration.days(3) }, { encryption: sqs.QueueEncryption.UNENCRYPTED, queueName: "own" }, ...(kind === "createFifo" ? [{ fifo: true, contentBasedDeduplication: true }] : [])]);
      const props = { ...own };
      delete props.dlq;
      if (own.dlq) props.deadLetterQueue = { maxReceiveCount: 7, queue: new sqs.Queue(stack, `own${i}`, { queueName: kind === "createFifo" ? `own${i}.fifo` : `own${i}`, ...(kind === "createFifo" ? { fifo: true } : {}) }) };
      const frozen = Object.freeze(props);
      const made = kind === "dlq" ? k.dqm.DigitrafficDLQueue.create(stack, name) : k.dqm.DigitrafficSqsQueue[kind](stack, name, frozen);
      all.push({ kind, name, own, made, i });
    }
    const t = k.template(stack);
    const queues = k.of(t, "AWS::SQS::Queue");
    let dlqs = 0;
    for (const o of all) {
      const id = stack.resolve(o.made.queueArn)["Fn::GetAtt"][0];
      const q = queues.find((x) => x.id === id);
      const dlqName = `${short}-${o.name}-DLQ`;
      if (o.kind !== "dlq") {
        c.equal([q.QueueName, q.KmsMasterKeyId, q.VisibilityTimeout, q.ReceiveMessageWaitTimeSeconds, q.MessageRetentionPeriod, q.FifoQueue, q.ContentBasedDeduplication],
          [`${short}-${o.name}-Queue${o.kind === "createFifo" ? ".fifo" : ""}`, "alias/aws/sqs", o.own.visibilityTimeout?.toSeconds(), o.own.receiveMessageWaitTime?.toSeconds(), o.own.retentionPeriod?.toSeconds(), o.kind === "createFifo" ? true : undefined, o.own.contentBasedDeduplication], "queue");
      }
      if (o.own.dlq) c.equal(q.RedrivePolicy, { maxReceiveCount: 7, deadLetterTargetArn: { "Fn::GetAtt": [queues.find((x) => x.QueueName?.startsWith(`own${o.i}`)).id, "Arn"] } }, "own-dead-letter-queue");
      const auto = o.kind === "dlq" || (o.kind === "create" && !o.own.dlq);
      const dlq = o.kind === "dlq" ? q : queues.find((x) => x.QueueName === dlqName);
      if (!auto) { c.equal(dlq, undefined, "unwanted-dead-letter-queue"); if (!o.own.dlq) c.equal(q.RedrivePolicy, undefined, "fifo-dead-letter-queue"); continue; }
      dlqs++;
      if (o.kind === "create") c.equal(q.RedrivePolicy, { maxReceiveCount: 2, deadLetterTargetArn: { "Fn::GetAtt": [dlq.id, "Arn"] } }, "dead-letter-queue");
      c.equal([dlq.QueueName, dlq.KmsMasterKeyId, dlq.VisibilityTimeout, dlq.RedrivePolicy], [dlqName, "alias/aws/sqs", 60, undefined], "dead-letter-queue-settings");
      const fn = k.of(t, "AWS::Lambda::Function").find((f) => f.FunctionName === `${dlqName}-Function`);
      c.check(fn, "dead-letter-lambda-missing", dlqName);
      const src = k.of(t, "AWS::Lambda::EventSourceMapping").filter((e) => e.FunctionName.Ref === fn.id);
      c.equal(src.map((e) => e.EventSourceArn), [{ "Fn::GetAtt": [dlq.id, "Arn"] }], "dead-letter-event-source");
      c.check(fn.Timeout < dlq.VisibilityTimeout, "visibility", "messages become visible while they are handled");
      const role = fn.Role["Fn::GetAtt"][0];
      const bucket = k.of(t, "AWS::S3::Bucket").find((b) => b.BucketName.includes(o.name.toLowerCase()));
      c.check(bucket, "bucket-missing", dlqName);
      c.equal(bucket.PublicAccessBlockConfiguration, { BlockPublicAcls: true, BlockPublicPolicy: true, IgnorePublicAcls: true, RestrictPublicBuckets: true }, "bucket-public");
      c.check(JSON.stringify(fn.Code.ZipFile).includes(bucket.id), "bucket-of-lambda", "the lambda stores elsewhere");
      const objects = JSON.stringify({ "Fn::Join": ["", [{ "Fn::GetAtt": [bucket.id, "Arn"] }, "/*"]] });
      c.check(may(t, role, "s3:PutObject", objects), "put-right", dlqName);
      c.check(may(t, role, "sqs:ReceiveMessage", arnOf(dlq.id)) && may(t, role, "sqs:DeleteMessage", arnOf(dlq.id)), "receive-right", dlqName);
      for (const other of [...k.of(t, "AWS::S3::Bucket").filter((b) => b.id !== bucket.id)]) c.check(!may(t, role, "s3:PutObject", JSON.stringify({ "Fn::Join": ["", [{ "Fn::GetAtt": [other.id, "Arn"] }, "/*"]] })), "put-right-elsewhere", dlqName);
      c.check(!may(t, role, "s3:GetObject", objects) && !may(t, role, "s3:DeleteObject", objects), "too-many-rights", dlqName);
      const al = k.of(t, "AWS::CloudWatch::Alarm").filter((a) => JSON.stringify(a.Dimensions ?? "").includes(`"${dlq.id}"`));
      c.equal(al.map((a) => [a.Namespace, a.MetricName, a.Dimensions[0].Value["Fn::GetAtt"], a.Threshold, a.ComparisonOperator, a.EvaluationPeriods, a.TreatMissingData, a.Period, a.AlarmActions.map((x) => x.Ref)]),
        [["AWS/SQS", "NumberOfMessagesReceived", [dlq.id, "QueueName"], 0, "GreaterThanThreshold", 1, "notBreaching", 300, ["WarningTopicParamParameter"]]], "dead-letter-alarm");
    }
    c.equal(k.of(t, "AWS::Lambda::Function").length, dlqs, "lambdas");
    return JSON.stringify(all.map((o) => [o.kind, Object.keys(o.own)]));
  });

  // what SQS receives for a request to the API
  const bodies = ["", "{}", "{\"a\":\"b c\"}", "a=b&Action=DeleteMessage&MessageGroupId=x", "100% +1 ä€😀", "$input.body #set($x=1)", "line\nbreak\t\"q\"", "x".repeat(3000), "%20"];
  await ctx.explore("queue integration", (c) => {
    const n = c.choose("queues", [1, 2]);
    const models = c.bool("models"), key = c.bool("key");
    const stack = k.dtStack();
    const api = new ag.RestApi(stack, "Api");
    const validator = k.am.addDefaultValidator(api);
    const all = [];
    for (let i = 0; i < n; i++) {
      const fifo = c.bool("fifo");
      const q = fifo ? k.dqm.DigitrafficSqsQueue.createFifo(stack, `N${i}`, { contentBasedDeduplication: true }) : new sqs.Queue(stack, `N${i}`, {});
      const res = api.root.addResource(`r${i}`);
      const model = api.addModel(`M${i}`, { schema: {} });
      k.qi.attachQueueToApiGatewayResource(stack, q, res, validator, `Res${i}`, i ? !key : key, models ? { "application/json": model } : undefined);
      all.push({ fifo, q, id: stack.resolve(res.resourceId).Ref, key: i ? !key : key, model });
    }
    const t = k.template(stack);
    for (const o of all) {
      const ms = k.of(t, "AWS::ApiGateway::Method").filter((m) => m.ResourceId.Ref === o.id);
      c.equal(ms.map((m) => [m.HttpMethod, m.ApiKeyRequired]), [["POST", o.key]], "methods");
      const [m] = ms, int = m.Integration;
      c.check(m.RequestValidatorId?.Ref, "validator", "none");
      c.equal(m.RequestModels ?? {}, models ? { "application/json": { Ref: stack.resolve(o.model.modelId).Ref } } : {}, "models");
      const qid = stack.resolve(o.q.queueArn)["Fn::GetAtt"][0];
      c.equal([int.Type, int.IntegrationHttpMethod, int.PassthroughBehavior, int.RequestParameters], ["AWS", "POST", "NEVER", { "integration.request.header.Content-Type": "'application/x-www-form-urlencoded'" }], "integration");
      const uri = JSON.stringify(int.Uri);
      c.check(uri.includes(":sqs:path/") && uri.includes(`["${qid}","QueueName"]`) && uri.includes("AWS::AccountId"), "target", uri);
      // no other content type passes: NEVER refuses whatever has no template
      c.equal(Object.keys(int.RequestTemplates), ["application/json"], "content-types");
      for (const body of bodies) {
        // Java's URLEncoder writes a space as a plus
        const urlEncode = (x) => encodeURIComponent(String(x)).replace(/%20/g, "+").replace(/[!'()~]/g, (ch) => `%${ch.charCodeAt(0).toString(16).toUpperCase()}`);
        const form = render(int.RequestTemplates["application/json"], { input: { body }, util: { urlEncode } }).out;
        const p = [...new URLSearchParams(form)].sort();
        c.equal(p, [["Action", "SendMessage"], ["MessageBody", body], ...(o.fifo ? [["MessageGroupId", "AlwaysSameFifoGroup"]] : [])].sort(), "message", body.slice(0, 40));
      }
      const role = int.Credentials["Fn::GetAtt"][0];
      const r = k.of(t, "AWS::IAM::Role").find((x) => x.id === role);
      c.equal(r.AssumeRolePolicyDocument.Statement.map((s) => [s.Effect, s.Action, s.Principal]), [["Allow", "sts:AssumeRole", { Service: "apigateway.amazonaws.com" }]], "assume");
      c.check(may(t, role, "sqs:SendMessage", arnOf(qid)), "send-right", "missing");
      for (const other of all) if (other !== o) c.check(!may(t, role, "sqs:SendMessage", arnOf(stack.resolve(other.q.queueArn)["Fn::GetAtt"][0])), "send-right-elsewhere", "");
      for (const a of ["sqs:ReceiveMessage", "sqs:DeleteMessage", "sqs:PurgeQueue"]) c.check(!may(t, role, a, arnOf(qid)), "too-many-rights", a);
      const pick = (status) => int.IntegrationResponses.find((x) => x.SelectionPattern && new RegExp(`^(?:${x.SelectionPattern})$`).test(status)) ?? int.IntegrationResponses.find((x) => !x.SelectionPattern);
      c.equal([pick("200").StatusCode, pick("500").StatusCode, m.MethodResponses.map((x) => x.StatusCode).sort()], ["200", "500", ["200", "500"]], "responses");
    }
    return JSON.stringify(all.map((o) => o.fifo));
  });

  // ---- schedules ----
  const minutesOf = (e) => { const [, n, u] = /^rate\((\d+) (minute|hour|day)s?\)$/.exec(e); return n * { minute: 1, hour: 60, day: 1440 }[u]; };
  await ctx.explore("schedules", (c) => {
    const kind = c.choose("kind", ["everyMinute", "everyMinutes", "everyHour", "everyDay", "every", "new"]);
    const n = ["everyMinutes", "every"].includes(kind) ? c.choose("minutes", Array.from({ length: ctx.thorough ? 240 : 70 }, (_, i) => i).concat([1440, 2880, 100000])) : undefined;
    const withLambda = c.bool("lambda");
    const stack = k.plainStack();
    const fn = new lambda.Function(stack, "F", { code: lambda.Code.fromInline("x"), handler: "a.b", runtime: lambda.Runtime.NODEJS_22_X });
    new lambda.Function(stack, "G", { code: lambda.Code.fromInline("x"), handler: "a.b", runtime: lambda.Runtime.NODEJS_22_X });
    const l = withLambda ? fn : undefined;
    let want, threw;
    try {
      if (kind === "everyMinute") { k.sch.Scheduler.everyMinute(stack, "R", l); want = 1; }
      if (kind === "everyMinutes") { want = n; k.sch.Scheduler.everyMinutes(stack, "R", n, l); }
      if (kind === "everyHour") { k.sch.Scheduler.everyHour(stack, "R", l); want = 60; }
      if (kind === "everyDay") { k.sch.Scheduler.everyDay(stack, "R", l); want = 1440; }
      if (kind === "every") { want = n; k.sch.Scheduler.every(stack, "R", Duration.minutes(n), l); }
      if (kind === "new") { new k.sch.Scheduler(stack, "R", events.Schedule.cron({ minute: "5", hour: "4" }), l); want = "cron(5 4 * * ? *)"; }
    } catch (e) { threw = e; }
    c.equal(!!threw, want === 0, "refused", String(threw));
    if (threw) return "refused";
    const t = k.template(stack);
    const [r] = k.of(t, "AWS::Events::Rule");
    c.equal([r.Name, r.State, typeof want === "number" ? minutesOf(r.ScheduleExpression) : r.ScheduleExpression], ["R", "ENABLED", want], "schedule");
    const id = stack.resolve(fn.functionArn)["Fn::GetAtt"][0];
    c.equal((r.Targets ?? []).map((x) => x.Arn), l ? [{ "Fn::GetAtt": [id, "Arn"] }] : [], "targets");
    c.equal(k.of(t, "AWS::Lambda::Permission").map((p) => [p.FunctionName, p.Principal, p.SourceArn]), l ? [[{ "Fn::GetAtt": [id, "Arn"] }, "events.amazonaws.com", { "Fn::GetAtt": [r.id, "Arn"] }]] : [], "permission");
    return kind;
  });

  // ---- Security Hub rule ----
  await ctx.explore("security rule", (c) => {
    const stack = k.plainStack();
    const topic = new sns.Topic(stack, "T");
    new k.sec.DigitrafficSecurityRule(stack, topic);
    const t = k.template(stack);
    const [r] = k.of(t, "AWS::Events::Rule");
    const match = (pattern, value) => Array.isArray(pattern) ? list(value).some((v) => pattern.includes(v)) : Object.entries(pattern).every(([kk, p]) => (Array.isArray(value) ? value : [value]).some((v) => v !== undefined && match({ $: p }.$, v?.[kk])));
    const src = c.choose("source", ["aws.securityhub", "aws.guardduty"]), type = c.choose("type", ["Security Hub Findings - Imported", "Security Hub Insight Results"]);
    const status = c.choose("status", ["FAILED", "PASSED", "WARNING", "NOT_AVAILABLE"]), wf = c.choose("workflow", ["NEW", "NOTIFIED", "SUPPRESSED", "RESOLVED"]), sev = c.choose("severity", ["INFORMATIONAL", "LOW", "MEDIUM", "HIGH", "CRITICAL"]);
    const ev = { source: src, "detail-type": type, detail: { findings: { Compliance: { Status: status }, Workflow: { Status: wf }, Severity: { Label: sev } } } };
    const want = src === "aws.securityhub" && type.endsWith("Imported") && status === "FAILED" && wf === "NEW" && ["HIGH", "CRITICAL"].includes(sev);
    c.equal(match(r.EventPattern, ev), want, "notified", JSON.stringify(ev));
    c.equal([r.Targets.map((x) => x.Arn), r.State], [[{ Ref: stack.resolve(topic.topicArn).Ref }], "ENABLED"], "target");
    return String(want);
  });

  // ---- bucket policies ----
  await ctx.explore("bucket policies", (c) => {
    const stack = k.plainStack();
    const bucket = new s3.Bucket(stack, "B"), other = new s3.Bucket(stack, "O");
    const n = c.choose("grants", [1, 2]);
    const grants = [];
    for (let i = 0; i < n; i++) {
      const kind = c.choose("kind", ["oac", "oai"]);
      const resources = c.choose("resources", [undefined, "img", "all"]), actions = c.choose("actions", [undefined, ["s3:GetObject", "s3:ListBucket"], ["s3:PutObject"]]), effect = c.choose("effect", [undefined, iam.Effect.ALLOW, iam.Effect.DENY]);
      const res = resources === undefined ? undefined : resources === "img" ? [bucket.arnForObjects("img/*")] : [bucket.bucketArn, bucket.arnForObjects("*")];
      const conf = { bucket, resources: res, actions, effect };
      if (kind === "oac") k.bp.grantOACRights({ ...conf, distributionArn: `arn:dist:${i}` });
      else k.bp.grantOAIRights({ ...conf, canonicalUserId: `user${i}` });
      grants.push({ kind, i, resources: resources ?? "objects", actions: actions ?? ["s3:GetObject"], effect: effect ?? "Allow" });
    }
    const t = k.template(stack);
    const pols = k.of(t, "AWS::S3::BucketPolicy");
    c.equal(pols.map((p) => p.Bucket.Ref), [stack.resolve(bucket.bucketName).Ref], "bucket");
    const bid = stack.resolve(bucket.bucketArn)["Fn::GetAtt"][0];
    const covers = (r, key) => { const j = JSON.stringify(r); const whole = JSON.stringify({ "Fn::GetAtt": [bid, "Arn"] }); if (j === whole) return key === undefined; const p = r["Fn::Join"]?.[1]; if (!p || JSON.stringify(p[0]) !== whole) return false; return key !== undefined && `/${key}`.startsWith(p[1].replace(/\*$/, "")); };
    for (const who of ["oac:0", "oac:1", "oai:0", "oai:1", "oac:9", "anyone"]) for (const action of ["s3:GetObject", "s3:ListBucket", "s3:PutObject", "s3:DeleteObject"]) for (const key of [undefined, "img/a", "data/b"]) {
      const [w, i] = who.split(":");
      const hit = (s) => {
        const p = s.Principal;
        const principal = p === "*" || p.AWS === "*" || (p.Service === "cloudfront.amazonaws.com" && w === "oac") || (p.CanonicalUser === `user${i}` && w === "oai");
        const cond = Object.entries(s.Condition ?? {}).every(([op, kv]) => { if (op !== "StringEquals") throw new Error(op); return Object.entries(kv).every(([kk, v]) => /^aws:SourceArn$/i.test(kk) && w === "oac" && list(v).includes(`arn:dist:${i}`)); });
        return principal && cond && list(s.Action).includes(action) && list(s.Resource).some((r) => covers(r, key));
      };
      const st = pols.flatMap((p) => p.PolicyDocument.Statement);
      const got = st.some((s) => s.Effect === "Deny" && hit(s)) ? "deny" : st.some((s) => s.Effect === "Allow" && hit(s)) ? "allow" : "none";
      const mine = grants.filter((g) => who === `${g.kind}:${g.i}` && g.actions.includes(action) && (g.resources === "all" ? true : key !== undefined && (g.resources === "objects" || key.startsWith("img/"))));
      const want = mine.some((g) => g.effect === "Deny") ? "deny" : mine.length ? "allow" : "none";
      c.equal(got, want, "access", `${who} ${action} ${key}`);
    }
    return JSON.stringify(grants.map((g) => [g.kind, g.effect]));
  });
}
