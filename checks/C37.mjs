import { app, withDbFaults } from "../lib/app.mjs";
import { schema, sequences, translate } from "../lib/fixtures/maintenance.mjs";

export const meta = { parallel: true, bounds: "every history of up to 3 posted messages out of valid, repeated, overlapping, large and broken ones, delivered until handled or dead (two deliveries each), with up to 2 (quick) / 3 (thorough) failed sends, fetches, statements, reordered or concurrent deliveries; every set of up to 4 trackings over ages around the limit, references and domains with up to 1 (2) failed statements of the cleaning" };
const HOUR = 3600000, NOW = Date.UTC(2024, 0, 15, 12);
const DIR = "road/maintenance-tracking/src/lambda/";

const havainto = (id, at, o = {}) => ({ havainto: { tyokone: { id, tyokonetyyppi: "aura-auto" }, sijainti: { koordinaatit: { x: 293358, y: 6889073 } }, suunta: 45, havaintoaika: at, urakkaid: 99, suoritettavatTehtavat: ["suolaus"], ...o } });
const message = (havainnot, { system = "järjestelmä", id = 1, at = "2024-01-15T13:59:00+02:00" } = {}) => ({ otsikko: { lahettaja: { ...(system === undefined ? {} : { jarjestelma: system }), organisaatio: { nimi: "U", ytunnus: "1-2" } }, viestintunniste: { id }, lahetysaika: at }, havainnot });
const H1 = havainto(1, "2024-01-15T13:58:00+02:00"), H2 = havainto(2, "2024-01-15T11:58:30Z"), H3 = havainto(1, "2024-01-15T13:58:30+02:00");
const MESSAGES = {
  one: message([H1]), two: message([H1, H2], { id: 2 }), other: message([H3], { system: "toinen", at: "2024-01-15T11:59:30.250Z" }), twice: message([H3, H3, H2]), none: message([]),
  "no system": { ...message([H3]), otsikko: { lahettaja: {}, lahetysaika: "2024-01-15T11:59:00Z" } }, large: message([H1, H2, havainto(3, "2024-01-15T11:00:00Z", { info: "x".repeat(300) })]),
};
const BROKEN = { "not json": "{", empty: "", "no observations": JSON.stringify({ otsikko: message([]).otsikko }), "bad time": JSON.stringify(message([H2, havainto(7, "yesterday")])), "no contract": JSON.stringify(message([H2, havainto(7, "2024-01-15T11:00:00Z", { urakkaid: undefined })])), "text": '"text"' };
const rowOf = (m, h) => ({ observation_time: new Date(h.havaintoaika).toISOString(), sending_time: new Date(m.otsikko.lahetysaika).toISOString(), json: JSON.stringify(h), harja_workmachine_id: h.tyokone.id, harja_contract_id: h.urakkaid, sending_system: m.otsikko.lahettaja.jarjestelma ?? "UNKNOWN", status: "UNHANDLED" });

export async function run(ctx) {
  const a = await app({ update: `${DIR}update-queue/update-queue.ts`, process: `${DIR}process-queue/process-queue.ts`, dlq: `${DIR}process-dlq/process-dlq.ts`, clean: `${DIR}clean-maintenance-tracking-data/clean-maintenance-tracking-data.ts` });
  const env = { SQS_BUCKET_NAME: "big", SQS_QUEUE_URL: "https://queue", SQS_DLQ_BUCKET_NAME: "dead" };
  const Idle = class {}, idle = { "sqs-extended-client": { default: Idle, ExtendedSqsClient: Idle, __esModule: true } };
  const start = (o = {}) => a.start({ stubs: idle, schema, now: NOW, functions: sequences(), translate, env, secret: { proxy_host: "proxy:1/db", proxy_ro_host: "proxy-ro:1/db" }, ...o });
  const rows = (x) => x.sql.rows("select observation_time, sending_time, json, harja_workmachine_id, harja_contract_id, sending_system, status from maintenance_tracking_observation_data order by json");

  await ctx.explore("messages", async (c) => {
    const s3 = new Map(), queue = [];
    let failed = "", n = 0;
    // the published client: bodies over a limit go through the bucket
    class Client {
      constructor(o) { this.bucket = o.bucketName; }
      async sendMessage(p) {
        if (c.deviate("send", ["ok", "fails"]) !== "ok") throw new Error("sending failed");
        c.equal(p.QueueUrl, env.SQS_QUEUE_URL, "queue");
        const id = `m${++n}`;
        if (p.MessageBody.length > 700) { s3.set(`(${this.bucket})${id}`, p.MessageBody); queue.push({ messageId: id, receiptHandle: `r${n}`, body: `(${this.bucket})${id}`, messageAttributes: { S3MessageBodyKey: { stringValue: `(${this.bucket})${id}`, dataType: "String" } }, md5OfBody: "", n: 0 }); }
        else queue.push({ messageId: id, receiptHandle: `r${n}`, body: p.MessageBody, messageAttributes: {}, md5OfBody: "", n: 0 });
        return { MessageId: id };
      }
      async _processReceive(output) {
        return { ...output, Messages: await Promise.all(output.Messages.map(async (m) => {
          const k = m.MessageAttributes?.S3MessageBodyKey?.StringValue;
          if (!k) return m;
          if (c.deviate("fetch", ["ok", "fails"]) !== "ok") { failed += "fetch"; throw new Error("S3 unavailable"); }
          if (!s3.has(k)) throw new Error(`no object ${k}`);
          return { ...m, Body: s3.get(k) };
        })) };
      }
    }
    const x = start({ stubs: { "sqs-extended-client": { default: Client, ExtendedSqsClient: Client, __esModule: true } } });
    const posted = [];
    const names = [...Object.keys(MESSAGES), ...Object.keys(BROKEN)];
    const count = 1 + c.choose("messages", 2) + c.deviate("third", [0, 1]);
    for (let i = 0; i < count; i++) {
      const name = c.choose("message", i === 0 ? names : i === 1 ? ["one", "two", "other", "large", "bad time"] : ctx.thorough ? ["two", "twice"] : ["two"]);
      const body = BROKEN[name] ?? JSON.stringify(MESSAGES[name]);
      const before = queue.length;
      const r = await x.w.settle(x.m.update.handler({ body }));
      c.check(!r.hung, "hangs", name);
      if (r.ok) {
        c.equal([r.value.statusCode, queue.length], [200, before + 1], "acknowledged-without-sending", name);
        const q = queue.at(-1);
        c.equal(s3.get(q.body) ?? q.body, body, "body-changed");
        posted.push({ id: q.messageId, name, body });
      } else {
        c.equal([r.error?.statusCode, queue.length], [400, before], "refused", name);
        c.check(["not json", "empty"].includes(name) || c.deviations?.() !== 0, "valid-refused", name);
      }
    }
    withDbFaults(c, x.sql);
    const dead = [], stored = new Map(); // json -> the message it came from first
    const done = {};
    const deliver = async (batch) => {
      for (const m of batch) m.n++;
      const before = rows(x), f0 = x.sql.faults.length; failed = "";
      const rs = await Promise.all(batch.map((m) => x.w.settle(x.m.process.handler({ Records: [structuredClone({ ...m, n: undefined })] }))));
      const after = rows(x), has = new Set(after.map((r) => r.json));
      const faults = x.sql.faults.length - f0 + (failed ? 1 : 0);
      for (const [i, m] of batch.entries()) {
        const p = posted.find((q) => q.id === m.messageId), r = rs[i];
        c.check(!r.hung, "hangs", p.name);
        const msg = MESSAGES[p.name];
        const all = msg?.havainnot.every((h) => has.has(JSON.stringify(h.havainto)));
        const ok = r.ok && !r.value?.batchItemFailures?.length;
        if (ok) { c.check(all === true, "handled-but-not-stored", () => `${p.name}: ${JSON.stringify(r.value)}`); done[m.messageId] = true; }
        else {
          c.check(!msg || faults > 0, "not-handled", () => `${p.name}: ${r.error}`);
          if (m.n < 2) queue.push(m); else dead.push(m);
        }
        if (msg && ok) for (const h of msg.havainnot) if (!stored.has(JSON.stringify(h.havainto))) stored.set(JSON.stringify(h.havainto), undefined);
      }
      // what is new belongs to a message of the batch that was stored completely
      for (const r of after) {
        if (before.some((b) => b.json === r.json)) { c.equal(r, before.find((b) => b.json === r.json), "row-changed"); continue; }
        const owners = batch.map((m) => MESSAGES[posted.find((q) => q.id === m.messageId).name]).filter((m) => m && m.havainnot.every((h) => has.has(JSON.stringify(h.havainto))) && m.havainnot.some((h) => JSON.stringify(h.havainto) === r.json));
        c.check(owners.length > 0, "partly-stored", () => r.json);
        c.check(owners.some((m) => JSON.stringify(rowOf(m, JSON.parse(r.json))) === JSON.stringify(r)), "wrong-row", () => JSON.stringify(r));
      }
      c.equal(new Set(after.map((r) => r.json)).size, after.length, "stored-twice");
      c.check(before.every((b) => has.has(b.json)), "row-lost", "");
      c.equal(x.sql.open.size, 0, "connections");
    };
    let guard = 0;
    while (queue.length && guard++ < 20) {
      const i = queue.length > 1 ? c.deviate("next", [0, ...queue.map((_, k) => k).slice(1)]) : 0;
      const batch = queue.splice(i, 1);
      if (queue.length && c.deviate("concurrent", [false, true])) batch.push(...queue.splice(0, 1));
      await deliver(batch);
    }
    x.sql.before = undefined;
    for (const p of posted) {
      const d = dead.filter((m) => m.messageId === p.id).length;
      c.check(!!done[p.id] !== (d === 1), "lost", () => `${p.name}: ${done[p.id] ? "handled" : "not handled"}, ${d} dead`);
    }
    return [rows(x).length, dead.length, posted.length, x.sql.faults.length];
  }, { bound: ctx.thorough ? 3 : 2, replayEvery: 97 });

  const AGES = [1, 25.9, 26.1, 26.6, 27.4, 30];
  await ctx.explore("cleaning", async (c) => {
    const x = start();
    const n = 1 + c.choose("trackings", ctx.thorough ? 4 : 3);
    const t = [];
    for (let i = 0; i < n; i++) {
      const age = c.choose("age", i === 0 ? AGES : i < 3 ? [1, 26.1, 30] : [1, 30]);
      const domain = i === 0 ? "a" : c.choose("domain", ["a", "b"]);
      const previous = i === 0 ? null : c.choose("previous", [null, ...t.map((q) => q.id)]);
      const created = i > 0 && c.deviate("created", [false, true]) ? t[0].created : NOW - age * HOUR;
      t.push({ id: i + 1, age, domain, previous, created });
      x.sql.db.prepare("insert into maintenance_tracking (id, end_time, finished, domain, previous_tracking_id, created) values (?,?,1,?,?,?)").run(i + 1, new Date(NOW - age * HOUR).toISOString(), domain, previous, new Date(created).toISOString());
    }
    const keep = (r) => r.age < 26 || t.some((q) => q.age < 26 && q.previous === r.id) || !t.some((q) => q.domain === r.domain && q.created > r.created);
    const want = t.filter(keep).map((r) => r.id);
    const run = async () => { const r = await x.w.settle((async () => x.m.clean.handler({}, {}))()); await x.w.quiesce(); c.check(!r.hung && r.ok, "handler", String(r.error)); return r; };
    const ids = () => x.sql.rows("select id from maintenance_tracking order by id").map((r) => r.id);
    if (ctx.thorough || n < 3) withDbFaults(c, x.sql);
    await run();
    const f = x.sql.faults?.length ?? 0;
    x.sql.before = undefined;
    c.equal(x.sql.open.size, 0, "connections");
    const left = ids();
    c.check(want.every((i) => left.includes(i)), "removed", () => JSON.stringify({ t, left, want }));
    for (const r of x.sql.rows("select * from maintenance_tracking")) { const q = t[r.id - 1]; if (q.age < 26) c.equal(r.previous_tracking_id, q.previous, "reference"); }
    if (f === 0) c.equal(left, want, "left", () => JSON.stringify(t));
    else { await run(); c.equal(ids(), want, "left-after-retry", () => JSON.stringify(t)); }
    return [left.length, n, f];
  }, { bound: ctx.thorough ? 2 : 1, replayEvery: 97 });
}
