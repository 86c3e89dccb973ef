import { app, withDbFaults } from "../lib/app.mjs";
import { schema, NOW, at, fixture, insert, portCallOf, imoOf, mmsiOf } from "../lib/fixtures/portactivity.mjs";

export const meta = { parallel: true, bounds: "every message within 2 (quick) / 3 (thorough) deviations of a valid one; every batch of up to 2 (quick) / 3 (thorough) messages of an alphabet of 13 with a database failure at any one statement, redelivered until accepted" };

export async function run(ctx) {
  const a = await app({ q: "marine/portactivity/src/lambda/process-queue/process-queue.ts" });
  const TYPES = ["ATA", "ATB", "ATD", "ETA", "ETB", "ETP", "ETD", "RPS", "PPS", "APS", "APC"];
  const cols = "event_type, event_time, event_time_confidence_lower_diff, event_time_confidence_upper_diff, event_source, record_time, location_locode, location_portarea, location_from_locode, ship_mmsi, ship_imo, portcall_id, source_id";
  const rowsOf = (sql) => sql.rows(`select ${cols} from port_call_timestamp order by id`).map((r) => JSON.stringify(r)).sort();
  const time = (s) => { const d = typeof s === "string" ? new Date(s) : new Date(NaN); return typeof s === "string" && /^\d{4}-\d\d-\d\d/.test(s) && !Number.isNaN(d.getTime()) ? d.toISOString() : undefined; };

  // ---- what should become of a message ----
  function reference(d, table, msg) {
    // table: Map key -> row ; returns "stored" | "same" | "ignored" | "invalid"
    if (!TYPES.includes(msg.eventType)) return "invalid";
    const et = time(msg.eventTime), rt = time(msg.recordTime);
    if (!et || !rt || !msg.source || !msg.ship || (!msg.ship.mmsi && !msg.ship.imo) || !msg.location?.port) return "invalid";
    if (msg.location.port.length > 5 || (msg.location.from ?? "").length > 5 || (msg.location.portArea ?? "").length > 6) return "invalid";
    if (msg.source === "Awake.AI Pred" && msg.eventType === "ETD") return "invalid";
    if (["ETA", "ETB"].includes(msg.eventType) && msg.source === "SCHEDULES_CALCULATED") {
      const loc = d.vessel_location.filter((x) => x.mmsi === msg.ship.mmsi && x.modified > at(-1)).sort((x, y) => (x.modified < y.modified ? 1 : -1))[0];
      if (loc && ([1, 5, 6].includes(loc.nav_stat) || loc.sog < 2)) return "invalid";
    }
    const l = msg.eventTimeConfidenceLowerDiff, u = msg.eventTimeConfidenceUpperDiff;
    const confident = typeof l === "number" && typeof u === "number" && l < 0 && u > 0;
    const type = msg.eventType === "ETB" && ["SCHEDULES_CALCULATED", "Awake.AI"].includes(msg.source) ? "ETA" : msg.eventType;
    const pc = msg.portcallId ?? portCallOf(d, { port: msg.location.port, type, time: et, mmsi: msg.ship.mmsi, imo: msg.ship.imo });
    if (!pc && msg.source !== "Awake.AI Pred") return "ignored";
    const imo = msg.ship.imo ?? imoOf(d, msg.ship.mmsi);
    if (!imo) return "ignored";
    const mmsi = msg.ship.mmsi > 0 ? msg.ship.mmsi : mmsiOf(d, imo);
    const row = { event_type: msg.eventType, event_time: et, event_time_confidence_lower_diff: confident ? Math.floor(l) : null, event_time_confidence_upper_diff: confident ? Math.ceil(u) : null, event_source: msg.source, record_time: rt, location_locode: msg.location.port, location_portarea: msg.location.portArea ?? null, location_from_locode: msg.location.from ?? null, ship_mmsi: mmsi ?? null, ship_imo: imo, portcall_id: pc ?? null, source_id: msg.sourceId ?? null };
    if (msg.source === "Portnet" && pc) for (const [k, r] of table) if (r.portcall_id === pc && r.event_source === "Portnet" && r.location_locode !== row.location_locode) table.delete(k);
    const key = pc ? JSON.stringify([imo, row.event_source, row.location_locode, row.event_type, et, rt, pc]) : `null ${table.size} ${Math.random()}`;
    if (table.has(key)) return "same";
    table.set(key, row);
    return "stored";
  }

  const start = (d) => {
    const x = a.start({ schema, now: NOW });
    insert(x.sql, d);
    return x;
  };
  const base = { eventType: "ETA", eventTime: at(3), recordTime: at(-1), source: "Portnet", ship: { mmsi: 111, imo: 1111111 }, location: { port: "FIHEL" }, portcallId: 1 };
  const SHIPS = [base.ship, { mmsi: 111 }, { imo: 1111111 }, { mmsi: 0, imo: 1111111 }, { imo: 2222222, mmsi: 222 }, { mmsi: 222 }, { mmsi: 333 }, { imo: 3333333 }, { imo: 9999999 }, { mmsi: 999 }, { mmsi: 110 }, {}, null, undefined, { mmsi: null, imo: 2222222 }];
  const messages = (full) => async (c) => {
    const pick = full ? (l, o) => c.choose(l, o) : (l, o) => c.deviate(l, o);
    const d = fixture();
    const ais = c.deviate("position", [undefined, { sog: 10, nav_stat: 0, h: -0.5 }, { sog: 1.9, nav_stat: 0, h: -0.5 }, { sog: 2, nav_stat: 5, h: -0.5 }, { sog: 2, nav_stat: 8, h: -0.5 }, { sog: 10, nav_stat: 1, h: -0.1 }, { sog: 10, nav_stat: 6, h: -0.9 }, { sog: 0, nav_stat: 5, h: -1.5 }, "newer good", "newer bad"]);
    if (typeof ais === "object") d.vessel_location.push({ mmsi: 111, sog: ais.sog, nav_stat: ais.nav_stat, modified: at(ais.h) });
    if (ais === "newer good") d.vessel_location.push({ mmsi: 111, sog: 0, nav_stat: 5, modified: at(-0.8) }, { mmsi: 111, sog: 9, nav_stat: 0, modified: at(-0.2) });
    if (ais === "newer bad") d.vessel_location.push({ mmsi: 111, sog: 9, nav_stat: 0, modified: at(-0.8) }, { mmsi: 111, sog: 0, nav_stat: 5, modified: at(-0.2) });
    const msg = {
      eventType: pick("type", ["ETA", "ETB", "ETD", "ATA", "ATD", "ETP", "RPS", "XXX", undefined]),
      source: pick("source", ["Portnet", "Awake.AI", "Awake.AI Pred", "SCHEDULES_CALCULATED", "SCHEDULES_VTS_CONTROLLED", "Pilotweb", ""]),
      eventTime: c.deviate("event", [at(3), at(29), at(-1), at(-20), "2024-06-15T18:00:00+03:00", "not a time", undefined]),
      recordTime: c.deviate("record", [at(-1), at(1), "x", undefined]),
      ship: SHIPS[c.deviate("ship", SHIPS.map((_, i) => i))],
      location: c.deviate("location", [{ port: "FIHEL" }, { port: "FIKOK" }, { port: "FIXXX" }, { port: "FIHELX" }, { port: "FIHEL", portArea: "KATAJA", from: "SEGOT" }, { port: "FIHEL", portArea: "KATAJAN" }, { port: "FIHEL", from: "SEGOTX" }, { port: "FIHEL", portArea: null, from: null }, {}, undefined]),
      portcallId: pick("port call", [undefined, 1, null]),
      sourceId: c.deviate("sourceId", [undefined, "s-1"]),
    };
    const conf = c.deviate("confidence", [undefined, [-30.5, 40.2], [-30], [10, 20], [-30, -20], [30, -20], ["-3", 4], [-3, "4"], [-1e9, 1]]);
    if (conf) [msg.eventTimeConfidenceLowerDiff, msg.eventTimeConfidenceUpperDiff] = conf;
    const { w, m, sql } = start(d);
    const before = JSON.stringify(rowsOf(sql));
    const r = await w.settle(m.q.handler({ Records: [{ messageId: "m1", body: JSON.stringify(msg) }] }));
    c.check(r.ok, "handler-failed", String(r.error));
    c.equal(r.value, { batchItemFailures: [] }, "reported");
    const table = new Map();
    const clean = JSON.parse(JSON.stringify(msg));
    const what = reference(d, table, clean);
    c.equal(rowsOf(sql), [...table.values()].map((x) => JSON.stringify(x)).sort(), "stored", () => `${what} ${JSON.stringify(msg)} ${before}`);
    c.equal(sql.open.size, 0, "connection-left");
    return what + (table.size ? JSON.stringify([...table.values()][0]) : "");
  };
  await ctx.explore("messages", messages(false), { bound: ctx.thorough ? 3 : 2 });
  await ctx.explore("types and sources", messages(true), { bound: ctx.thorough ? 2 : 1 });

  // ---- batches, failures, redelivery ----
  const alphabet = [
    ["eta", base], ["eta later record", { ...base, eventTime: at(4), recordTime: at(0) }],
    ["moved", { ...base, location: { port: "FIKOK" }, recordTime: at(0) }],
    ["etd", { ...base, eventType: "ETD", eventTime: at(11) }],
    ["other call", { ...base, portcallId: 2, location: { port: "FIKOK" } }],
    ["awake, same call, other port", { ...base, source: "Awake.AI", location: { port: "FIKOK" } }],
    ["awake finds", { ...base, source: "Awake.AI", portcallId: undefined, ship: { mmsi: 111 } }],
    ["pred", { ...base, source: "Awake.AI Pred", portcallId: undefined, location: { port: "FIXXX" } }],
    ["unknown", { ...base, portcallId: undefined, location: { port: "FIXXX" } }],
    ["invalid", { ...base, eventTime: undefined }],
    ["not json", "{"], ["null", "null"], ["empty", ""],
  ];
  const byName = Object.fromEntries(alphabet);
  const good = (x) => { try { return JSON.parse(x.body); } catch { return undefined; } };
  await ctx.explore("batches", async (c) => {
    const d = fixture();
    const { w, m, sql } = start(d);
    const seeded = c.choose("before", [[], ["eta"], ["moved"], ["other call"]]);
    const table = new Map();
    for (const s of seeded) { await w.settle(m.q.handler({ Records: [{ messageId: "s", body: JSON.stringify(byName[s]) }] })); reference(d, table, byName[s]); }
    const n = 1 + c.choose("messages", [0, 1, ...(ctx.thorough ? [2] : [])]);
    let queue = Array.from({ length: n }, (_, i) => {
      const [label, x] = alphabet[c.choose("message", (i === 2 ? [0, 2, 4, 6, 10] : alphabet.map((_, j) => j)))];
      return { messageId: `m${i}`, label, body: typeof x === "string" ? x : JSON.stringify(x) };
    });
    const names = queue.map((x) => x.label).join(", ");
    for (let round = 0; round < 2; round++) {
      if (round === 0) withDbFaults(c, sql); else { sql.before = undefined; sql.faults = []; }
      const r = await w.settle(m.q.handler({ Records: queue.map(({ messageId, body }) => ({ messageId, body })) }));
      c.check(!r.hung, "hung", names);
      const failed = new Set(r.ok ? r.value.batchItemFailures.map((x) => x.itemIdentifier) : queue.map((x) => x.messageId));
      if (!r.ok) c.check(sql.faults.length > 0, "refused-batch", () => `${names}: ${r.error?.message}`);
      c.equal(sql.open.size, 0, "connection-left");
      for (const x of queue) {
        if (!good(x)) c.check(failed.has(x.messageId), "broken-accepted", () => `${x.label} in ${names}`);
        else if (!sql.faults.length) c.check(!failed.has(x.messageId), "refused-without-cause", () => `${x.label} in ${names}`);
      }
      if (r.ok) c.check([...failed].filter((id) => good(queue.find((x) => x.messageId === id))).length <= sql.faults.length, "too-many-refused", () => `${names} failed ${[...failed]} for ${sql.faults}`);
      // what was acknowledged is stored, what was not has left no trace
      for (const x of queue) if (!failed.has(x.messageId)) reference(d, table, good(x));
      c.equal(rowsOf(sql), [...table.values()].map((x) => JSON.stringify(x)).sort(), "state", () => `${seeded} + ${names} faults ${sql.faults} failed ${[...failed]}`);
      queue = queue.filter((x) => failed.has(x.messageId) && good(x));
      if (!queue.length) break;
    }
    return JSON.stringify([[...table.keys()].length, n, sql.log.length]);
  }, { bound: 1 });
  ctx.assume("PostgreSQL is replaced by SQLite behind the pg driver, with timestamps as ISO text; the sources' times are whole seconds; @middy/sqs-partial-batch-failure is replaced by a stand-in that reports rejected entries");
}
