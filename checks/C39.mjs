import { app } from "../lib/app.mjs";
import { DIR, env, reusable, schema, withMyFaults } from "../lib/fixtures/rami.mjs";
import { createRequire } from "node:module";

export const meta = { parallel: true, bounds: "every message deviating from a scheduled or a monitored journey message in up to 2 (quick) / 3 (thorough) of its fields; every history of 3 (quick) / 4 (thorough) insertions, updates and deletions of two messages in any order and with repeated deliveries, with every failed statement or connection (up to 1 / 2); batches; every combination of up to 2 / 3 query parameters over a mixed set of messages at the borders of their validity; uploads and dead letters with every failed call" };
const NOW = Date.UTC(2024, 0, 15, 12), S = 1000, H = 3600 * S;
const iso = (t) => new Date(t).toISOString();
const sec = (t) => new Date(Math.floor(Date.parse(t) / S) * S).toISOString().replace(".000Z", "Z");
const DAYS = ["MONDAY", "TUESDAY", "WEDNESDAY", "THURSDAY", "FRIDAY", "SATURDAY", "SUNDAY"];

const texts = (kind, key, k) => ({ three: [["fi_FI", "Hei 'te'"], ["sv_SE", "Hej"], ["en_GB", " Hello\n"]], fi: [["fi_FI", "Hei"]], en: [["en_GB", "Hello?"]], other: [["et_EE", "Tere"], ["sv_SE", "Hej"]], empty: [["fi_FI", ""], ["en_GB", "Hello"]], none: [] })[kind].map(([language, t]) => ({ language, [key]: t && `${t}${k}` }));
/** o: description of a message -> the message as it is sent */
function rosm(o) {
  const list = (o.stations ?? ["HKI"]).map((id) => ({ id, nameLong: `${id} asema` }));
  const p = { messageId: o.id ?? "MVM1", messageVersion: o.version ?? 1, title: "t", messageType: o.type === "monitored" ? "MONITORED_JOURNEY_SCHEDULED_MESSAGE" : "SCHEDULED_MESSAGE", operation: o.operation ?? "INSERT", creationDateTime: o.created ?? iso(NOW - 2 * H), startValidity: o.start ?? iso(NOW - H), endValidity: o.end ?? iso(NOW + H) };
  if (o.type === "monitored") {
    p.scheduledMessage = null;
    p.monitoredJourneyScheduledMessage = { vehicleJourney: o.train === null ? null : { datedVehicleJourneyRef: "100274", dataFrameRef: o.date ?? "2024-01-15", vehicleJourneyName: String(o.train ?? 274) }, messageContentType: "AUDIO_VIDEO", deliveryPoints: list, audioMessageContents: o.audio ? { audioTexts: texts(o.audio, "audioText", "a"), deliveryRules: o.rules ? { repetitions: 1, repeatEvery: 5, eventType: "", ...o.rules } : null, deliveryType: o.deliveryType ?? null } : null, videoTexts: o.video ? texts(o.video, "videoText", "v") : null };
  } else {
    p.monitoredJourneyScheduledMessage = null;
    p.scheduledMessage = { situations: null, deliveryChannels: ["ONGROUND"], onGroundRecipient: { messageContentType: "AUDIO_VIDEO", deliveryPoints: list,
      recipientAudioMessagesToDeliver: o.audio ? { audioContentType: "AUDIO_TEXT", audioText: texts(o.audio, "text", "a"), scheduledAudioDeliveryRules: { audioSchedulationType: "NOW", ...o.rules } } : null,
      recipientVideoMessagesToDeliver: o.video ? { videoTexts: texts(o.video, "text", "v"), deliveryRules: o.videoRules === null ? null : { videoSchedulationType: "WHEN", ...o.videoRules } } : null } };
  }
  return { headers: { e2eId: "5639fbde-f91e-4b5d-bb28-34061b557b37", organisation: "MOOVA", source: "s", eventType: "OperatorScheduledMessage", partitionKey: "k", recordedAtTime: iso(NOW) }, payload: p };
}
const clean = (o) => { const e = Object.entries(o).filter(([, v]) => v !== undefined && v !== null && v !== ""); return e.length ? Object.fromEntries(e) : undefined; };
const time = (t) => (t ? t.split(":").slice(0, 2).map((x) => x.padStart(2, "0")).join(":") : undefined);
const rulesView = (r) => (r ? clean({ ...r, startTime: time(r.startTime), endTime: time(r.endTime), weekDays: r.weekDays?.length ? [...r.weekDays].sort().join() : undefined }) : undefined);
/** what is to be seen of it; instants are rendered by second */
function expected(o) {
  const m = rosm(o).payload, mon = o.type === "monitored";
  const text = (list, key) => { const t = (l) => list?.find((x) => x.language === l)?.[key]?.trim(); return clean({ fi: t("fi_FI"), sv: t("sv_SE"), en: t("en_GB") }); };
  const ground = m.scheduledMessage?.onGroundRecipient, j = m.monitoredJourneyScheduledMessage;
  const a = mon ? text(j.audioMessageContents?.audioTexts, "audioText") : text(ground.recipientAudioMessagesToDeliver?.audioText, "text");
  const v = mon ? text(j.videoTexts, "videoText") : text(ground.recipientVideoMessagesToDeliver?.videoTexts, "text");
  const rule = (r, more) => (r ? rulesView(clean({ startDateTime: r.startDateTime && sec(r.startDateTime), endDateTime: r.endDateTime && sec(r.endDateTime), startTime: r.startTime, endTime: r.endTime, weekDays: r.daysOfWeek, ...more }) ?? {}) : undefined);
  const ar = mon ? j.audioMessageContents?.deliveryRules : ground.recipientAudioMessagesToDeliver?.scheduledAudioDeliveryRules;
  const audio = a && clean({ text: a, rules: mon ? clean({ deliveryType: j.audioMessageContents.deliveryType, repetitions: ar?.repetitions, repeatEvery: ar?.repeatEvery, eventType: ar?.eventType }) : rule(ar, { deliveryType: ar.audioSchedulationType, repetitions: ar.repetitions, repeatEvery: ar.repeatEvery, deliveryAt: ar.deliveryAtDateTime && sec(ar.deliveryAtDateTime) }) });
  const vr = ground?.recipientVideoMessagesToDeliver?.deliveryRules;
  const video = v && clean({ text: v, rules: rule(vr, { deliveryType: vr?.videoSchedulationType }) });
  return clean({ id: m.messageId, version: m.messageVersion, created: sec(m.creationDateTime), start: sec(m.startValidity), end: sec(m.endValidity), train: mon && j.vehicleJourney ? Number(j.vehicleJourney.vehicleJourneyName) : undefined, date: mon && j.vehicleJourney ? j.vehicleJourney.dataFrameRef : undefined, stations: [...new Set(o.stations ?? ["HKI"])].sort().join(), audio, video });
}
/** a message of the API in the same terms */
function shown(m) {
  const part = (p) => { if (!p) return undefined; const r = p.deliveryRules; return clean({ text: clean(p.text), rules: r && rulesView({ ...r, startDateTime: r.startDateTime && sec(r.startDateTime), endDateTime: r.endDateTime && sec(r.endDateTime), deliveryAt: r.deliveryAt && sec(r.deliveryAt) }) }); };
  return clean({ id: m.id, version: m.version, created: sec(m.creationDateTime), start: sec(m.startValidity), end: sec(m.endValidity), train: m.trainNumber, date: m.trainDepartureDate, stations: [...new Set(m.stations)].sort().join(), audio: part(m.audio), video: part(m.video) });
}
const norm = (x) => (x && typeof x === "object" && !Array.isArray(x) ? Object.fromEntries(Object.keys(x).sort().map((k) => [k, norm(x[k])])) : x);
const byId = (l) => l.map(norm).sort((p, q) => (p.id < q.id ? -1 : 1));

export async function run(ctx) {
  const opts = { topLevelAwait: true, stubs: ["mysql2", "ajv", "ajv-formats"] };
  const a = await app({ rosm: `${DIR}process-rosm-queue/process-rosm-queue.ts`, active: `${DIR}get-active-messages/get-active-messages.ts`, updated: `${DIR}get-messages-updated-after/get-messages-updated-after.ts`, upload: `${DIR}upload-rosm-message/upload-rosm-message.ts`, dlq: `${DIR}process-dlq/process-dlq.ts` }, opts);
  const Ajv = createRequire(import.meta.url)("/opt/veriftools/node/node_modules/ajv").default;
  const formats = (v) => { v.addFormat("date-time", /^\d{4}-\d\d-\d\d[Tt]\d\d:\d\d:\d\d(\.\d+)?([Zz]|[+-]\d\d:?\d\d)$/); v.addFormat("uuid", /^[0-9a-f]{8}(-[0-9a-f]{4}){3}-[0-9a-f]{12}$/i); v.addFormat("byte", /^[A-Za-z0-9+/]*={0,2}$/); };
  const stubs = { ajv: { default: Ajv, __esModule: true }, "ajv-formats": { default: formats, __esModule: true } };
  const start = reusable(async (o) => {
    const x = a.start({ mysql: true, schema, env, now: NOW, stubs, ...o });
    x.m = await x.m;
    x.queue = async (bodies) => {
      const Records = bodies.map((body) => ({ messageId: `r${x.n++}`, body }));
      const r = await x.w.settle(x.m.rosm.handler({ Records }, {}));
      return { r, failed: r.ok ? Records.map((q) => r.value.batchItemFailures.some((f) => f.itemIdentifier === q.messageId)) : Records.map(() => true) };
    };
    x.get = async (c, q = {}) => {
      const r = await x.w.settle(x.m.active.handler({ train_number: "", train_departure_date: "", station: "", only_general: "", ...q }));
      c.check(r.ok && r.value.status === 200, "query", () => String(r.ok ? r.value.body : r.error));
      return JSON.parse(Buffer.from(r.value.body, "base64")).map(shown);
    };
    return x;
  }, NOW);
  const explore = (name, body, o) => ctx.explore(name, start.within(body), o);
  const dead = (x) => x.sent.filter((s) => s.QueueUrl === "dlq").map((s) => JSON.parse(s.MessageBody));
  const sound = (c, x) => { c.equal(x.sql.open.size, 0, "connections"); c.check(!x.sql.leaked && x.sql.owner === undefined, "open-transaction", ""); };

  await explore("messages", async (c) => {
    const o = { type: c.choose("type", ["scheduled", "monitored"]) };
    o.audio = c.deviate("audio", ["three", undefined, "fi", "en", "other", "empty", "none"]);
    o.video = c.deviate("video", ["three", undefined, "fi", "en", "other", "empty", "none"]);
    o.stations = c.deviate("stations", [["HKI"], ["HKI", "PSL"], ["TPE", "HKI", "KJÄ"]]);
    o.version = c.deviate("version", [1, 2, 11]);
    for (const [k, t] of [["created", NOW - 2 * H], ["start", NOW - H], ["end", NOW + H]]) o[k] = c.deviate(k, [iso(t), iso(t + 31 * S).replace(".000", ""), iso(t + 2 * H).replace(".000Z", "+02:00")]);
    const days = () => c.deviate("days", [undefined, [], ...DAYS.map((d) => [d]), ["SUNDAY", "MONDAY"], DAYS]);
    const span = () => ({ startDateTime: c.deviate("from", [null, iso(NOW + 5 * S), "2024-01-20T23:30:00+02:00"]), endDateTime: c.deviate("to", [null, iso(NOW + 9 * H + 7 * S)]), startTime: c.deviate("from time", [undefined, "08:05", "18:30", "00:00"]), endTime: c.deviate("to time", [null, "23:59"]), daysOfWeek: days() });
    if (o.type === "monitored") {
      o.train = c.deviate("train", [274, null, 1]); o.date = c.deviate("date", ["2024-01-15", "2023-12-31"]);
      o.deliveryType = c.deviate("delivery", [null, "ON_EVENT", "ON_SCHEDULE"]);
      o.rules = c.deviate("rules", [undefined, {}, { eventType: "ARRIVING" }, { repetitions: null, repeatEvery: null, eventType: null }, { repetitions: 3 }]);
    } else {
      o.rules = { ...span(), audioSchedulationType: c.deviate("audio rule", ["NOW", "DELIVERY_AT", "REPEAT_EVERY"]), repetitions: c.deviate("repetitions", [undefined, null, 0, 4]), repeatEvery: c.deviate("every", [undefined, 600]), deliveryAtDateTime: c.deviate("delivery at", [undefined, null, iso(NOW + 3 * H + 5 * S), "2024-01-20T23:30:10+02:00"]) };
      o.videoRules = c.deviate("video rule", [{}, null, { videoSchedulationType: "CONTINUOS_VISUALIZATION" }]);
      if (o.videoRules) o.videoRules = { ...o.videoRules, ...span() };
    }
    const x = await start();
    const m = rosm(o);
    if (c.deviate("absent", [false, true])) { const p = m.payload; for (const k of ["scheduledMessage", "monitoredJourneyScheduledMessage"]) if (p[k] === null) delete p[k]; }
    const { r, failed } = await x.queue([JSON.stringify(m)]);
    c.check(r.ok && !failed[0], "refused", () => String(r.error));
    sound(c, x);

    const e = expected(o);
    const seen = Date.parse(e.start) <= NOW && Date.parse(e.end) > NOW ? [e] : [];
    c.equal(byId(await x.get(c)), byId(seen), "shown", () => JSON.stringify(m.payload));
    c.equal(dead(x), [], "dead-letters");
    sound(c, x);
    return [seen.length, o.type, JSON.stringify(seen)];
  }, { bound: ctx.thorough ? 3 : 2, replayEvery: 997 });

  const OPS = ["INSERT A1", "UPDATE A2", "UPDATE A3", "DELETE A3", "DELETE A4", "INSERT B1", "DELETE B2"];
  const desc = (op, k) => { const [operation, v] = op.split(" "); const id = `MVM${v[0]}`; return { id, version: +v[1], operation, audio: "fi", stations: v[0] === "A" ? ["HKI", `S${k}${v[1]}`.slice(0, 3)] : ["TPE"], train: +v[1] + 10, type: v[0] === "A" ? "monitored" : "scheduled", created: iso(NOW - (10 - k) * S) }; };
  /** effect of a processed message on the stored versions: [{o, deleted}] */
  const apply = (st, o) => (o.operation === "DELETE" ? st.map((v) => (v.o.id === o.id ? { ...v, deleted: true } : v)) : [...st, { o, deleted: false }]);
  const latest = (st) => { const out = new Map(); for (const v of st) if (!out.has(v.o.id) || out.get(v.o.id).o.version < v.o.version) out.set(v.o.id, v); return [...out.values()].filter((v) => !v.deleted).map((v) => v.o); };

  await explore("histories", async (c) => {
    const n = ctx.thorough ? 4 : 3;
    const x = await start();
    let st = [], trace = [];
    withMyFaults(c, x.sql, { connect: true });
    for (let k = 0; k < n; k++) {
      const o = desc(c.choose("operation", OPS), 0);
      const body = JSON.stringify(rosm(o));
      const dup = o.operation !== "DELETE" && st.some((v) => v.o.id === o.id && v.o.version === o.version);
      const faults = x.sql.faults.length, letters = dead(x).length;
      const { r, failed } = await x.queue([body]);
      c.check(!r.hung, "hangs", "");
      sound(c, x);
      const ok = r.ok && !failed[0];
      if (!ok) {
        c.check(dup || x.sql.faults.length > faults, "refused", () => `${o.operation} ${o.id} ${o.version}: ${r.error ?? JSON.stringify(dead(x).at(-1)?.errors)}`);
        for (const l of dead(x).slice(letters)) c.check(l.message === body || JSON.stringify(l.message) === body, "letter", () => JSON.stringify(l));
      } else if (!dup) st = apply(st, o);
      trace.push(ok);
      const keep = x.sql.before, con = x.sql.onConnect; x.sql.before = x.sql.onConnect = undefined;
      // what failed is as if it had not come
      c.equal(byId(await x.get(c)), byId(latest(st).map(expected)), "state", () => JSON.stringify(st.map((v) => [v.o.id, v.o.version, v.deleted])));
      x.sql.before = keep; x.sql.onConnect = con;
    }
    return [trace.join(), latest(st).map((o) => o.id + o.version).join()];
  }, { bound: ctx.thorough ? 2 : 1, replayEvery: 499 });

  await explore("batches", async (c) => {
    const x = await start({ awsFault: (k, i) => k === "SendMessageCommand" && c.deviate("send", ["ok", "fails"]) !== "ok" });
    withMyFaults(c, x.sql, { connect: true });
    const good = (id) => JSON.stringify(rosm({ id, version: 1, audio: "fi" }));
    const KINDS = { A: () => good("MVMA"), B: () => good("MVMB"), C: () => good("MVMC"), text: () => "not json {", version: () => JSON.stringify({ ...rosm({ id: "MVMX" }), payload: { ...rosm({ id: "MVMX" }).payload, messageVersion: 0 } }), type: () => JSON.stringify({ ...rosm({ id: "MVMX" }), payload: { ...rosm({ id: "MVMX" }).payload, messageType: "OTHER" } }), stations: () => JSON.stringify(rosm({ id: "MVMX", stations: [] })), extra: () => JSON.stringify({ ...rosm({ id: "MVMX" }), more: 1 }), nothing: () => "{}" };
    const kinds = ["A", c.choose("second", ["B", "text", "version", "type", "stations", "extra", "nothing", undefined]), c.deviate("third", [undefined, "C", "type"])].filter(Boolean);
    const bodies = kinds.map((k) => KINDS[k]());
    const { r, failed } = await x.queue(bodies);
    c.check(!r.hung, "hangs", "");
    sound(c, x);
    x.sql.before = x.sql.onConnect = undefined;
    const ids = (await x.get(c)).map((m) => m.id);
    const faults = x.sql.faults.length + x.calls.length - x.sent.length;
    if (!faults) c.check(r.ok, "failed", () => String(r.error));
    for (const [i, k] of kinds.entries()) {
      const letter = dead(x).some((l) => l.message === bodies[i] || JSON.stringify(l.message) === bodies[i]);
      if (k.length === 1) { const stored = ids.includes(`MVM${k}`); c.equal(failed[i], !stored, "answer", () => `${kinds} ${x.sql.faults}`); if (!faults) c.check(stored, "lost", kinds.join()); }
      else { c.check(!ids.includes("MVMX"), "stored", k); c.check(failed[i] || letter, "dropped", () => `${k} of ${kinds}: ${JSON.stringify(dead(x))}`); }
    }
    return [failed.join(), ids.sort().join(), dead(x).length];
  }, { bound: ctx.thorough ? 2 : 1, replayEvery: 199 });

  // queries over a mixed set
  const SET = [
    { id: "G1", audio: "fi", stations: ["HKI"], created: iso(NOW - 100 * S), start: iso(NOW), end: iso(NOW + S) },
    { id: "G2", audio: "fi", stations: ["TPE", "HKI"], created: iso(NOW - 100 * S + 30 * S), start: iso(NOW + S), end: iso(NOW + H) },
    { id: "G3", audio: "fi", stations: ["TPE"], created: iso(NOW - 50 * S), start: iso(NOW - H), end: iso(NOW) },
    { id: "M1", type: "monitored", train: 10, date: "2024-01-15", audio: "fi", stations: ["HKI"], created: iso(NOW - 10 * S) },
    { id: "M2", type: "monitored", train: 10, date: "2024-01-14", audio: "fi", stations: ["PSL", "TPE"], created: iso(NOW - 100 * S) },
    { id: "M3", type: "monitored", train: 101, date: "2024-01-15", audio: "fi", stations: ["HK"], created: iso(NOW - 49 * S), start: iso(NOW - 59 * S), end: iso(NOW + 59 * S) },
    { id: "M4", version: 1, type: "monitored", train: 10, date: "2024-01-15", audio: "fi", stations: ["HKI", "PSL"], created: iso(NOW - 10 * S) },
    { id: "M4", version: 2, operation: "UPDATE", type: "monitored", train: 11, date: "2024-01-16", audio: "fi", stations: ["PSL"], created: iso(NOW - 5 * S) },
    { id: "D1", audio: "fi", stations: ["HKI"], created: iso(NOW - 10 * S) },
  ];
  const SHOWN = SET.filter((o) => !(o.id === "M4" && o.version === 1) && o.id !== "D1");
  await explore("queries", async (c) => {
    const x = await start();
    for (const o of [...SET, { ...SET.at(-1), operation: "DELETE" }]) { const { r, failed } = await x.queue([JSON.stringify(rosm(o))]); c.check(r.ok && !failed[0], "set", o.id); }
    const which = c.choose("endpoint", ["active", "updated"]);
    const q = { train_number: c.deviate("train", ["", "10", "11", "101", "7", "0", "x", undefined]), train_departure_date: c.deviate("date", ["", "2024-01-15", "2024-01-14", "2024-01-16", "15.1.2024", "2024-1-15"]), station: c.deviate("station", ["", "HKI", "TPE", "PSL", "HK", "XXX", "H"]), only_general: c.deviate("general", ["", "true", "false", "maybe", undefined]) };
    if (which === "updated") { q.date = c.choose("after", [iso(NOW - H), iso(NOW - 100 * S), iso(NOW - 99 * S), iso(NOW - 50 * S), iso(NOW - 49 * S), iso(NOW + S), "", "x", "2024-01-15"]); q.only_active = c.deviate("only active", ["", "true", "false", "no", undefined]); }
    const at = c.deviate("at", [0, -1, 1, 59, 3599, 3600]);
    x.w.now = NOW + at * S;
    const r = await x.w.settle(x.m[which].handler(q));
    c.check(r.ok, "failed", () => String(r.error));
    const bad = ["0", "x"].includes(q.train_number) || /^(15\.|2024-1-)/.test(q.train_departure_date) || q.station === "H" || q.only_general === "maybe" || (which === "updated" && (["", "x"].includes(q.date) || q.only_active === "no"));
    sound(c, x);
    if (bad) { c.equal(r.value.status, 400, "bad-request", JSON.stringify(q)); return ["bad"]; }
    c.equal(r.value.status, 200, "status", JSON.stringify(q));
    const active = (o) => Date.parse(o.start ?? iso(NOW - H)) <= x.w.now && Date.parse(o.end ?? iso(NOW + H)) > x.w.now;
    const want = SHOWN.filter((o) => (!q.train_number || (o.type === "monitored" && o.train === +q.train_number)) && (!q.train_departure_date || (o.type === "monitored" && o.date === q.train_departure_date)) && (!q.station || o.stations.includes(q.station)) && (q.only_general !== "true" || o.type !== "monitored") && (which === "active" ? active(o) : Date.parse(o.created) >= Date.parse(q.date) && (q.only_active === "false" || active(o))));
    c.equal(byId(JSON.parse(Buffer.from(r.value.body, "base64")).map(shown)), byId(want.map(expected)), "found", () => `${which} ${JSON.stringify(q)} ${at}`);
    return [want.map((o) => o.id).join()];
  }, { bound: ctx.thorough ? 3 : 2, replayEvery: 499 });

  await explore("uploads", async (c) => {
    const fails = [];
    const x = await start({ awsFault: (k, i) => { const f = c.deviate("send", ["ok", "fails"]) !== "ok"; if (f) fails.push(i.QueueUrl); return f; } });
    const o = { type: c.choose("type", ["scheduled", "monitored"]), audio: "three", video: "fi", rules: {}, videoRules: { startDateTime: null, endDateTime: null } };
    const m = rosm(o), p = m.payload;
    const how = c.choose("message", ["valid", "version", "operation", "time", "type", "extra", "headers", "uuid", "id", "empty", "undefined"]);
    const valid = how === "valid";
    if (how === "version") p.messageVersion = "1"; if (how === "operation") p.operation = "REPLACE"; if (how === "time") p.startValidity = "tomorrow"; if (how === "type") delete p.messageType; if (how === "extra") m.more = 1; if (how === "headers") delete m.headers.source; if (how === "uuid") m.headers.e2eId = "x"; if (how === "id") delete p.messageId;
    const body = how === "undefined" ? undefined : how === "empty" ? {} : m;
    const r = await x.w.settle(x.m.upload.handler(body));
    c.check(!r.hung, "hangs", "");
    if (how === "undefined") { c.check(r.ok && r.value.status === 400, "no-body", ""); c.equal(x.sent.length, 0, "sent"); return ["none"]; }
    if (fails.length) { c.check(!r.ok, "swallowed", how); return ["failed"]; }
    if (how === "empty") { c.check(r.ok, "failed", how); c.equal(x.sent.filter((s) => s.QueueUrl === "rosm").length, 0, "queued"); return ["empty"]; }
    c.check(r.ok && r.value.status === 200, "failed", () => String(r.error));
    c.equal(x.sent.map((s) => s.QueueUrl), [valid ? "rosm" : "dlq"], "queue", how);
    const sent = JSON.parse(x.sent[0].MessageBody);
    c.equal(valid ? sent : typeof sent.message === "string" ? JSON.parse(sent.message) : sent.message, m, "content", how);
    if (!valid) c.check(typeof sent.errors === "string" && sent.errors !== "", "errors", how);
    else { const { r: r2, failed } = await x.queue([x.sent[0].MessageBody]); c.check(r2.ok && !failed[0], "refused", ""); c.equal((await x.get(c)).map(norm), [norm(expected(o))], "shown"); }
    return [how, x.sent[0].QueueUrl];
  }, { bound: ctx.thorough ? 2 : 1, replayEvery: 19 });

  await explore("dead letters", async (c) => {
    let puts = 0;
    const x = await start({ awsFault: (k) => k === "PutObjectCommand" && (puts++, c.deviate("put", ["ok", "fails"]) !== "ok") });
    const n = c.choose("letters", [1, 2, 3]);
    const BODIES = [["rosm", JSON.stringify({ messageType: "ROSM", errors: "data/payload must have \"x\"", message: rosm({ id: "MVMA" }) }), "MVMA"], ["sm", JSON.stringify({ messageType: "SM", errors: "could not parse UDOT", message: "{\"a\": \"MVMB\"}" }), "MVMB"], ["raw", JSON.stringify(rosm({ id: "MVMC" })), "MVMC"], ["text", "not json MVMD", "MVMD"], ["error", JSON.stringify({ messageType: "ROSM", errors: JSON.stringify({ code: "E", sql: "x 'y' \"z\"" }), message: "{\"id\": \"MVME\"}" }), "MVME"]];
    const list = Array.from({ length: n }, () => c.choose("letter", BODIES));
    x.w.now = NOW + 123;
    const r = await x.w.settle(x.m.dlq.handler({ Records: list.map(([, body], i) => ({ messageId: `d${i}`, body })) }));
    c.check(!r.hung, "hangs", "");
    const stored = [...x.objects.values()];
    c.check(stored.every((s) => s.Bucket === "dead"), "bucket", "");
    const failures = (Array.isArray(r.value?.batchItemFailures) ? r.value.batchItemFailures.map((f) => f.itemIdentifier) : []);
    if (!r.ok) c.check(puts > x.objects.size, "failed", () => String(r.error));
    else for (const [i, [k, , mark]] of list.entries()) {
      const same = list.filter((l) => l[2] === mark).length;
      c.check(failures.includes(`d${i}`) || stored.filter((s) => String(s.Body).includes(mark)).length === same, "lost", () => `${k}: ${stored.map((s) => s.Body)}`);
    }
    for (const s of stored) if (/^(ROSM|SM)\//.test(s.Key)) { let ok = true; try { JSON.parse(s.Body); } catch { ok = false; } c.check(ok, "unreadable", String(s.Body)); }
    return [r.ok, stored.length, list.map((l) => l[0]).join()];
  }, { bound: ctx.thorough ? 3 : 2, replayEvery: 97 });
}
