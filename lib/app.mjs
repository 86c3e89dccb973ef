// Runs the Lambda code of an application in a closed world: virtual time, a PostgreSQL stand-in that
// executes its statements (sqlpg.mjs), Secrets Manager, SQS, SNS and S3 stand-ins that record what is sent and
// fail where the explorer says so.
import { bundle } from "./bundle.mjs";
import { World } from "./world.mjs";
import { makePg } from "./fakepg.mjs";
import { MySqlServer } from "./sqlmy.mjs";
import { SqlServer } from "./sqlpg.mjs";

const DB_SECRET = { username: "u", password: "p", host: "writer:5432/db", ro_host: "reader:5432/db" };
export const AWS_STUBS = ["@aws-sdk/client-secrets-manager", "@aws-sdk/client-sqs", "@aws-sdk/client-s3", "@aws-sdk/client-sns", "@middy/core", "@middy/sqs-partial-batch-failure", "sqs-extended-client"];

export class Fault extends Error { constructor(m) { super(m); this.fault = true; } }

/** bundle of an application: {alias: file}; opts as for bundle() */
export async function app(entries, opts = {}) {
  const b = await bundle(entries, { ...opts, stubs: [...AWS_STUBS, ...(opts.stubs ?? [])] });
  let last;
  return {
    /**
     * The previous start's database is closed.
     * o: {env, secret, schema, mysql, functions, translate, now, random, fetch, stubs, awsFault(kind, input) -> truthy to fail}
     * returns {w, m, sql, sent, objects, secrets}
     */
    start(o = {}) {
      const w = new World({ env: { SECRET_ID: "sid", AWS_REGION: "eu-west-1", DB_USER: "u", DB_PASS: "p", DB_URI: DB_SECRET.host, DB_RO_URI: DB_SECRET.ro_host, DB_APPLICATION: "app", ...(o.env ?? {}) }, ...(o.now ? { now: o.now } : {}), ...(o.random ? { random: o.random } : {}) });
      if (o.fetch) w.fetch = o.fetch;
      if (last && last !== o.sql) last.end();
      const sql = last = o.schema === undefined ? undefined : (o.mysql ? new MySqlServer({ schema: o.schema, now: () => w.now }) : o.sql ?? new SqlServer({ schema: o.schema, now: () => w.now, functions: o.functions, translate: o.translate }));
      const sent = [], calls = [];
      const objects = new Map();
      class Command { constructor(input) { this.input = input; } }
      const commands = (names) => Object.fromEntries(names.map((n) => [n, class extends Command { get kind() { return n; } }]));
      // client.send(new XCommand(input)) and client.x(input) are the same call
      const client = (on) => class { constructor(config) { this.config = config; return new Proxy(this, { get: (t, k) => (k in t || typeof k !== "string" || k === "then" ? t[k] : (input) => t.send({ kind: `${k[0].toUpperCase()}${k.slice(1)}Command`, input })) }); } async send(cmd) { calls.push([cmd.kind, cmd.input]); if (o.awsFault?.(cmd.kind, cmd.input)) throw new Fault(`${cmd.kind} failed`); return on(cmd); } destroy() {} };
      const SQS = client((cmd) => { sent.push(cmd.input); return { MessageId: String(sent.length) }; });
      const S3 = client((cmd) => {
        const key = `${cmd.input.Bucket}/${cmd.input.Key}`;
        if (cmd.kind === "PutObjectCommand") objects.set(key, cmd.input);
        if (cmd.kind === "DeleteObjectCommand") objects.delete(key);
        if (cmd.kind === "GetObjectCommand" && objects.has(key)) { const x = objects.get(key).Body; return { Body: { transformToString: async () => String(x), transformToByteArray: async () => Buffer.from(x) } }; }
        return {};
      });
      const stubs = {
        "@aws-sdk/client-secrets-manager": { SecretsManagerClient: client(() => ({ SecretString: JSON.stringify({ ...DB_SECRET, ...(o.secret ?? {}) }) })), SecretsManager: client(() => ({ SecretString: JSON.stringify({ ...DB_SECRET, ...(o.secret ?? {}) }) })), ...commands(["GetSecretValueCommand"]) },
        "@aws-sdk/client-sqs": { SQSClient: SQS, SQS, ...commands(["SendMessageCommand", "SendMessageBatchCommand", "ReceiveMessageCommand", "DeleteMessageCommand"]) },
        "@aws-sdk/client-s3": { S3Client: S3, S3, ...commands(["PutObjectCommand", "GetObjectCommand", "DeleteObjectCommand", "HeadObjectCommand", "CopyObjectCommand", "PutObjectAclCommand", "ListObjectsV2Command"]), ObjectCannedACL: { public_read: "public-read", private: "private", bucket_owner_full_control: "bucket-owner-full-control" } },
        "@aws-sdk/client-sns": { SNSClient: SQS, SNS: SQS, ...commands(["PublishCommand"]) },
        "@middy/core": middy, "@middy/sqs-partial-batch-failure": { default: partialBatchFailure, __esModule: true },
        ...(o.stubs ?? {}),
      };
      if (sql?.mysql2) stubs["mysql2/promise"] = stubs["mysql2/promise.js"] = sql.mysql2;
      else if (sql) stubs.pg = makePg(sql);
      const m = b.instantiate(w, stubs);
      return { w, m, sql, sent, calls, objects };
    },
  };
}

// middy 5/6: `middy(handler).use(middleware)`, after-hooks see request.response
function middy(handler) {
  const list = [];
  const run = async (event, context = {}) => {
    const request = { event, context, response: undefined, error: undefined };
    try {
      for (const x of list) await x.before?.(request);
      request.response = await handler(event, context);
      for (const x of [...list].reverse()) await x.after?.(request);
    } catch (e) {
      request.error = e;
      for (const x of [...list].reverse()) await x.onError?.(request);
      if (request.response === undefined) throw request.error;
    }
    return request.response;
  };
  run.use = (x) => { list.push(...[x].flat()); return run; };
  run.before = (f) => run.use({ before: f });
  run.after = (f) => run.use({ after: f });
  run.onError = (f) => run.use({ onError: f });
  run.handler = (h) => { handler = h; return run; };
  return run;
}
// @middy/sqs-partial-batch-failure: settled promises in the order of the records -> batchItemFailures
function partialBatchFailure() {
  return {
    after: (request) => {
      const { event: { Records }, response } = request;
      request.response = { batchItemFailures: (response ?? []).flatMap((r, i) => (r.status === "rejected" ? [{ itemIdentifier: Records[i].messageId }] : [])) };
    },
    onError: (request) => { if (request.response !== undefined) return; request.response = undefined; },
  };
}

/**
 * Lets the explorer fail any statement of the database (at most as many as the exploration's deviation bound).
 * A failed COMMIT has not committed; a failed statement spoils its transaction until it is rolled back.
 */
export function withDbFaults(c, sql, { kinds = ["ok", "error"], skip = () => false } = {}) {
  const aborted = new Set();
  let n = 0;
  sql.faults = [];
  sql.before = async (conn, text, values) => {
    const t = text.trim().toLowerCase();
    const end = /^(commit|rollback)/.test(t);
    if (aborted.has(conn.id) && !end) throw new Fault("current transaction is aborted");
    if (end && aborted.delete(conn.id) && t.startsWith("commit")) { sql.db.exec("ROLLBACK"); sql.owner = undefined; throw new Fault("commit of an aborted transaction"); }
    if (t.startsWith("rollback") || skip(text, values)) return;
    const f = c.deviate(`db ${n++}`, kinds);
    if (f === "ok") return;
    sql.faults.push(t.slice(0, 60));
    if (t.startsWith("commit")) { sql.db.exec("ROLLBACK"); sql.owner = undefined; } else if (sql.owner === conn.id) aborted.add(conn.id);
    throw new Fault(`database error at ${t.slice(0, 30)}`);
  };
}
