import vm from "node:vm";
import { nativeLib } from "../lib/native.mjs";
import { World } from "../lib/world.mjs";
import { app } from "../lib/app.mjs";

export const meta = { bounds: "every sequence of up to 2 (quick) / 3 (thorough) deliveries of up to 3 dead letters with every combination and order of upload outcomes, redelivered until accepted; every bucket name of up to 6 characters of an 8-character alphabet and every cut position of long names" };

export async function run(ctx) {
  const { q } = await nativeLib({ q: "aws/infra/sqs-queue-internal.ts" });
  const codeOf = (name) => { const x = q.getDlqCode(name); return x.code ?? x.inlineCode; };

  const bodies = ['{"a":1}', "plain ä€ \n text", ""];
  await ctx.explore("dead letters", async (c) => {
    const bucketName = c.choose("bucket", ["the-bucket", "other-bucket"]);
    const w = new World({ env: c.bool("env") ? { AWS_LAMBDA_FUNCTION_NAME: "dlq-fn", AWS_EXECUTION_ENV: "rt" } : {} });
    const store = new Map();
    const exports = {};
    class PutObjectCommand { constructor(input) { this.input = input; } }
    class S3Client { send(cmd) { return w.external("put", cmd.input); } }
    vm.runInThisContext(`(function(require, exports, process, Date, console, setTimeout, Math){${codeOf(bucketName)}\n})`)((n) => { if (n !== "@aws-sdk/client-s3") throw new Error(n); return { PutObjectCommand, S3Client }; }, exports, w.process, w.Date, w.console, w.setTimeout, w.Math);
    const n = 1 + c.choose("messages", 3);
    let queue = Array.from({ length: n }, (_, i) => ({ messageId: `m${i}`, body: bodies[i] + (i === 2 ? "third" : "") }));
    const all = queue.map((x) => x.body);
    let failures = 0;
    const deliveries = ctx.thorough ? 3 : 2;
    for (let k = 0; queue.length && k < deliveries; k++) {
      w.now += 5;
      const batch = k === 0 && queue.length > 1 && c.bool("split") ? queue.slice(0, 1) : queue;
      const p = exports.handler({ Records: structuredClone(batch) });
      let st;
      Promise.resolve(p).then(() => { st = "ok"; }, () => { st = "failed"; });
      let failed = 0;
      for (;;) {
        await w.quiesce();
        if (!w.externals.length) break;
        const x = w.takeExternal(w.externals.length > 1 ? c.choose("which", w.externals.length) : 0);
        c.equal(x.data.Bucket, bucketName, "bucket");
        if (c.deviate("put", ["ok", "fail"]) === "ok") {
          c.check(!store.has(x.data.Key) || batch.every((m) => all.includes(m.body)) && !st, "overwritten", x.data.Key);
          c.check(!store.has(x.data.Key), "overwritten", () => `object ${x.data.Key} holds ${store.get(x.data.Key)}`);
          store.set(x.data.Key, x.data.Body);
          x.resolve({});
        } else { failed++; x.reject(new Error("S3 unavailable")); }
      }
      failures += failed;
      const r = await w.settle(p);
      c.check(!r.hung, "hangs", "");
      if (failed === 0) c.check(r.ok, "rejected-although-stored", String(r.error));
      // a successful invocation deletes its messages from the queue
      if (r.ok) {
        for (const m of batch) c.check([...store.values()].includes(m.body), "message-lost", () => `acknowledged ${JSON.stringify(m.body)} but the bucket holds ${JSON.stringify([...store.values()])}`);
        queue = queue.filter((m) => !batch.includes(m));
      }
    }
    for (const l of w.stdout) for (const line of l.trim().split("\n")) { const p = JSON.parse(line); c.equal(p.level, "ERROR", "log"); }
    c.equal(w.stdout.length > 0, failures > 0, "failure-logged");
    for (const v of store.values()) c.check(all.includes(v), "body-changed", String(v));
    return [store.size, queue.length, failures];
  }, { bound: ctx.thorough ? 5 : 3 });

  // the dead letter Lambdas of the applications, with their own uploads
  const apps = await app({ portactivity: "marine/portactivity/src/lambda/process-dlq/lambda-process-dlq.ts", maintenance: "road/maintenance-tracking/src/lambda/process-dlq/process-dlq.ts" });
  await ctx.explore("dead letters of applications", async (c) => {
    const name = c.choose("application", ["portactivity", "maintenance"]);
    let x;
    class PutObjectCommand { constructor(input) { this.input = input; } }
    class S3Client { send(cmd) { return x.w.external("put", cmd.input); } }
    class Idle {}
    x = apps.start({ env: { BUCKET_NAME: "dead", SQS_DLQ_BUCKET_NAME: "dead" }, stubs: { "@aws-sdk/client-s3": { PutObjectCommand, S3Client }, "sqs-extended-client": { default: Idle, __esModule: true } } });
    const store = new Map(), n = 1 + c.choose("messages", 3);
    let queue = Array.from({ length: n }, (_, i) => ({ messageId: `m${i}`, body: bodies[i] + (i === 2 ? "third" : "") }));
    const all = queue.map((m) => m.body);
    let failures = 0;
    for (let k = 0; queue.length && k < (ctx.thorough ? 3 : 2); k++) {
      x.w.now += 5;
      const batch = k === 0 && queue.length > 1 && c.bool("split") ? queue.slice(0, 1) : queue;
      const p = x.m[name].handler({ Records: structuredClone(batch) });
      Promise.resolve(p).catch(() => {});
      let failed = 0;
      for (;;) {
        await x.w.quiesce();
        if (!x.w.externals.length) break;
        const e = x.w.takeExternal(x.w.externals.length > 1 ? c.choose("which", x.w.externals.length) : 0);
        c.equal(e.data.Bucket, "dead", "bucket");
        if (c.deviate("put", ["ok", "fail"]) === "ok") { c.check(!store.has(e.data.Key), "overwritten", () => `${name}: ${e.data.Key}`); store.set(e.data.Key, e.data.Body); e.resolve({}); }
        else { failed++; e.reject(new Error("S3 unavailable")); }
      }
      failures += failed;
      const r = await x.w.settle(p);
      c.check(!r.hung, "hangs", name);
      if (failed === 0) c.check(r.ok, "rejected-although-stored", String(r.error));
      if (r.ok) {
        for (const m of batch) c.check([...store.values()].includes(m.body), "message-lost", () => `${name}: acknowledged ${JSON.stringify(m.body)} but the bucket holds ${JSON.stringify([...store.values()])}`);
        queue = queue.filter((m) => !batch.includes(m));
      }
    }
    for (const v of store.values()) c.check(all.includes(v), "body-changed", String(v));
    return [name, store.size, queue.length, failures];
  }, { bound: ctx.thorough ? 4 : 3 });

  const valid = (s) => s.length <= 63 && /^[a-z0-9]([a-z0-9-]*[a-z0-9])?$/.test(s);
  const chars = ["a", "-", "B", "_", "9", ".", "ä", "z"];
  await ctx.explore("bucket names", (c) => {
    let s = "";
    for (let i = 0; i < (ctx.thorough ? 6 : 5); i++) { const k = c.choose("ch", i < 2 ? 8 : 9); if (k === 8) break; s += chars[k]; }
    const out = q.sanitizeS3BucketName(s);
    if (!/[a-z0-9]/i.test(s)) return "no letters";
    c.check(valid(out), "invalid", `${s} -> ${out}`);
    c.equal(out, s.toLowerCase().replace(/[^a-z0-9]+/g, "-").replace(/^-+|-+$/g, ""), "name", s);
    c.equal(q.sanitizeS3BucketName(out), out, "not-idempotent", s);
    return out;
  }, { sync: true });
  const longSeen = new Map();
  await ctx.explore("long names", (c) => {
    const len = 60 + c.choose("len", 30);
    const at = c.choose("at", 90);
    const ch = c.choose("ch", ["-", "B", "_", "z"]);
    if (at >= len) c.prune();
    const a = Array.from({ length: len }, (_, i) => "abcdefghij"[i % 10]);
    a[at] = ch;
    const s = a.join("");
    const out = q.sanitizeS3BucketName(s);
    c.check(valid(out), "invalid", `${s} -> ${out}`);
    c.equal(q.sanitizeS3BucketName(s), out, "unstable");
    if (out.length < 63 || len > 63) {
      const prev = longSeen.get(out);
      const plain = (x) => x.toLowerCase().replace(/[^a-z0-9]+/g, "-").replace(/^-|-$/g, "");
      if (prev !== undefined && prev !== s) c.check(plain(prev) === plain(s) && plain(s).length <= 63, "collision", `${prev} and ${s} -> ${out}`);
      longSeen.set(out, s);
    }
    const clean = s.toLowerCase().replace(/[^a-z0-9]+/g, "-").replace(/^-|-$/g, "");
    if (clean.length <= 63) c.equal(out, clean, "name");
    else c.check(out.startsWith(clean.slice(0, 40)), "prefix", out);
    return out;
  }, { sync: true });
}
