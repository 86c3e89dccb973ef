import { EventEmitter } from "node:events";
import { app } from "../lib/app.mjs";
import { schema, NOW, at, fixture, insert } from "../lib/fixtures/portactivity.mjs";

export const meta = { parallel: true, bounds: "every history of 2 (quick) / 3 (thorough) lists of two pilotages in 5 states each, with one failure at any database statement, any message sent or the response, then a further run; every pilotage within 2 (quick) / 3 (thorough) deviations of a plain one" };

const ms = (x) => Date.parse(x);
const iso = (x) => (x ? new Date(x).toISOString() : null);
// the same instant as the source might write it elsewhere
const east = (x) => `${new Date(ms(x) + 3 * 3600000).toISOString().slice(0, 19)}+03:00`;

export async function run(ctx) {
  const a = await app({ p: "marine/portactivity/src/lambda/update-timestamps-from-pilotweb/update-timestamps-from-pilotweb.ts" });
  // the source: answers with `page` (status, chunks, how it ends)
  const https = (source) => ({ request: (options, cb) => {
    const req = new EventEmitter();
    req.end = () => queueMicrotask(() => {
      source.requests.push(options);
      const res = new EventEmitter();
      res.statusCode = 200;
      cb(res);
      const text = source.text;
      const cut = Math.floor(text.length / 2);
      queueMicrotask(() => {
        res.emit("data", Buffer.from(text.slice(0, cut)));
        queueMicrotask(() => {
          if (source.broken) { res.emit("error", new Error("aborted")); return; }
          res.emit("data", Buffer.from(text.slice(cut)));
          res.emit("end");
        });
      });
    });
    return req;
  } });
  const start = (d, awsFault) => {
    const source = { text: "[]", requests: [], broken: false };
    const x = a.start({ schema, now: NOW, env: { SQS_QUEUE_URL: "q" }, secret: { "pilotweb.url": "source", "pilotweb.auth": "key" }, stubs: { "node:https": https(source), https: https(source) }, awsFault });
    insert(x.sql, d);
    return { ...x, source };
  };
  const COLS = "id, vessel_imo, vessel_mmsi, vessel_eta, pilot_boarding_time, pilotage_end_time, schedule_updated, schedule_source, state, vessel_name, start_code, start_berth, end_code, end_berth";
  const stored = (sql) => sql.rows(`select ${COLS} from pilotage order by id`);
  const rowOf = (p) => ({ id: p.id, vessel_imo: p.vessel.imo ?? null, vessel_mmsi: p.vessel.mmsi ?? null, vessel_eta: iso(p.vesselEta), pilot_boarding_time: iso(p.pilotBoardingTime), pilotage_end_time: p.endTime, schedule_updated: p.scheduleUpdated, schedule_source: p.scheduleSource, state: p.state, vessel_name: p.vessel.name, start_code: p.route.start.code, start_berth: p.route.start.berth?.code ?? null, end_code: p.route.end.code, end_berth: p.route.end.berth?.code ?? null });
  const pilotage = (id, state, updated) => ({ id, state, vessel: { name: `V${id}`, mmsi: id === 1 ? 111 : 222, imo: id === 1 ? 1111111 : 2222222 }, route: { start: { code: "FIVUH" }, end: { code: "FIRAU" } }, vesselEta: at(2), pilotBoardingTime: at(1), endTime: at(5), scheduleSource: "PILOT", scheduleUpdated: at(updated), portnetPortCallId: 10 + id });
  const TYPE = { ESTIMATE: "RPS", NOTICE: "RPS", ORDER: "PPS", ACTIVE: "APS", FINISHED: "APC" };
  const timeOf = (p) => (p.state === "ACTIVE" ? p.vesselEta : p.state === "FINISHED" ? p.endTime : p.pilotBoardingTime && ms(p.pilotBoardingTime) > ms(p.vesselEta) ? p.pilotBoardingTime : p.vesselEta);

  // ---- histories ----
  const STATES = [undefined, ["ESTIMATE", -4], ["ORDER", -3], ["ACTIVE", -2], ["FINISHED", -1]];
  await ctx.explore("histories", async (c) => {
    let armed = true, sends = 0, faults = [];
    const x = start(fixture(), (kind) => { if (kind !== "SendMessageCommand" || !armed) return false; const f = c.deviate(`send ${sends++}`, ["ok", "error"]); if (f === "error") faults.push("send"); return f === "error"; });
    let n = 0;
    const spoiled = new Set();
    x.sql.before = async (conn, text) => {
      const t = text.trim().toLowerCase();
      if (spoiled.has(conn.id) && !t.startsWith("rollback")) {
        if (t.startsWith("commit")) { spoiled.delete(conn.id); x.sql.db.exec("ROLLBACK"); x.sql.owner = undefined; }
        throw new Error("transaction is aborted");
      }
      if (t.startsWith("rollback")) { if (!t.includes("to savepoint")) spoiled.delete(conn.id); return; }
      if (!armed || c.deviate(`db ${n++}`, ["ok", "error"]) === "ok") return;
      faults.push(t.slice(0, 40));
      if (t.startsWith("commit")) { x.sql.db.exec("ROLLBACK"); x.sql.owner = undefined; } else if (x.sql.owner === conn.id) spoiled.add(conn.id);
      throw new Error("database error");
    };
    // timestamps that earlier runs led to
    insert(x.sql, { port_call_timestamp: [1, 2].flatMap((id) => [["Pilotweb", String(id)], ["Pilotweb", `1${id}`], ["Portnet", String(id)]].map(([event_source, source_id], i) => ({ event_type: "RPS", event_time: at(2), event_source, record_time: at(-5 - i), location_locode: "FIRAU", ship_imo: 1111111 * id, portcall_id: 10 + id, source_id }))) });
    const times = () => x.sql.rows("select event_source || ' ' || source_id as k from port_call_timestamp order by k").map((r) => r.k);
    const known = new Map(); // what the pilotage table should hold
    let stamps = times();
    const tell = new Set(); // versions that must have been sent by the end
    const runs = [];
    const rounds = ctx.thorough ? 3 : 2;
    for (let i = 0; i < rounds + 1; i++) {
      const last = i === rounds;
      if (last) armed = false;
      const list = last ? runs.at(-1) : [1, 2].flatMap((id) => { const s = STATES[c.choose(`pilotage ${id}`, STATES.map((_, j) => j))]; return s ? [pilotage(id, s[0], s[1])] : []; });
      runs.push(list);
      const before = x.sent.length, fb = faults.length;
      x.source.broken = !last && c.deviate("response", ["whole", "cut"]) === "cut";
      x.source.text = JSON.stringify(list);
      if (x.source.broken) faults.push("cut");
      const r = await x.w.settle(x.m.p.handler());
      c.check(r.ok, "handler-failed", () => String(r.error));
      const active = [...known.values()].filter((p) => p.state !== "FINISHED");
      const gone = active.filter((p) => !list.some((q) => q.id === p.id)).map((p) => p.id);
      const fresh = list.filter((p) => { const o = active.find((q) => q.id === p.id); return o ? o.scheduleUpdated !== p.scheduleUpdated : p.state !== "FINISHED"; });
      const next = new Map(known);
      for (const id of gone) next.delete(id);
      for (const p of fresh) next.set(p.id, p);
      const nextStamps = stamps.filter((k) => !gone.some((id) => k === `Pilotweb ${id}`));
      const rows = (m) => [...m.values()].sort((p, q) => p.id - q.id).map(rowOf);
      const got = JSON.stringify([stored(x.sql), times()]);
      const done = JSON.stringify([rows(next), nextStamps]), not = JSON.stringify([rows(known), stamps]);
      const messages = x.sent.slice(before).map((s) => JSON.parse(s.MessageBody)).map((m) => `${m.sourceId} ${m.recordTime}`).sort();
      const wanted = fresh.map((p) => `${p.id} ${p.scheduleUpdated}`).sort();
      const why = () => `run ${i + 1} with ${list.map((p) => `${p.id}:${p.state}`)}; failed: ${faults.slice(fb)}; stored ${got}`;
      if (faults.length === fb) {
        c.equal(got, done, "not-followed", why);
        c.equal(messages, wanted, "messages", why);
      } else {
        c.check(got === done || got === not, "half-recorded", why);
        for (const m of messages) c.check(wanted.includes(m), "unexpected-message", () => `${m}: ${why()}`);
        if (got === done && done !== not) c.equal(messages, wanted, "recorded-but-not-sent", why);
      }
      if (got === done) { known.clear(); for (const [k, v] of next) known.set(k, v); stamps = nextStamps; }
      c.equal(x.sql.open.size, 0, "connection-left", why);
    }
    return `${known.size} ${stamps.length} ${x.sent.length}`;
  }, { bound: 1 });

  // ---- what is sent for one pilotage ----
  const LOCODES = { FIVUH: "FIHEL", FI401: "FIHEL", FIKOY: "FIKOK", FIPIE: "FIPRS", FIRAU: "FIRAU", FIHEL: "FIHEL", SEGOT: "SEGOT", FIVRA: "FIVRK", FIKHA: "FIKTK", FILEV: "FIHKO", FIHEP: "FIUKI", FITHK: "FIPOR", FIVAS: "FIVAA", FIKAK: "FIKAS", FIEUR: "FIEJO", FIKEA: "FIKEM", FIKAU: "FILPP", FITRY: "FITOR" };
  await ctx.explore("messages", async (c) => {
    const d = fixture();
    d.port_call = [
      { port_call_id: 21, port_call_timestamp: at(-2), vessel_name: "a", port_to_visit: "FIHEL", mmsi: 111, imo_lloyds: 1111111 },
      { port_call_id: 22, port_call_timestamp: at(-37), vessel_name: "a", port_to_visit: "FIKOK", mmsi: 111, imo_lloyds: 1111111 },
      { port_call_id: 23, port_call_timestamp: at(-35), vessel_name: "a", port_to_visit: "FIRAU", mmsi: 111, imo_lloyds: 1111111 },
      { port_call_id: 24, port_call_timestamp: at(-1), vessel_name: "b", port_to_visit: "FIRAU", mmsi: 222, imo_lloyds: 2222222 },
      { port_call_id: 25, port_call_timestamp: at(-1), vessel_name: "c", port_to_visit: "FIHEL", mmsi: 333, imo_lloyds: 3333333 },
    ];
    const p = {
      id: 7, state: c.deviate("state", ["ESTIMATE", "NOTICE", "ORDER", "ACTIVE", "FINISHED"]),
      vessel: { name: "A", ...c.deviate("vessel", [{ mmsi: 111, imo: 1111111 }, { mmsi: 111 }, { imo: 1111111 }, { imo: 3333333 }, { mmsi: 999, imo: 9999999 }, { mmsi: 222, imo: 2222222 }]) },
      route: { start: { code: c.deviate("start", Object.keys(LOCODES)), ...c.deviate("start berth", [{}, { berth: { code: "SB" } }]) }, end: { code: c.deviate("end", ["FIRAU", ...Object.keys(LOCODES).filter((k) => k !== "FIRAU")]), ...c.deviate("end berth", [{}, { berth: { code: "EB" } }]) } },
      vesselEta: c.deviate("eta", [at(2), at(-1), east(at(2)), at(11)]), pilotBoardingTime: c.deviate("boarding", [undefined, at(1), at(2), at(3), east(at(1)), east(at(3)), east(at(10))]), endTime: at(5), scheduleSource: "PILOT", scheduleUpdated: at(-1),
      portnetPortCallId: c.deviate("port call", [undefined, 77, null]),
    };
    const other = { ...p, state: "ORDER", vesselEta: at(4), pilotBoardingTime: undefined, portnetPortCallId: undefined, id: 8 };
    const list = c.deviate("in the list with", [[p], [p, { ...other, route: { start: { code: "SEGOT" }, end: { code: "FIHEL" } } }], [{ ...other, route: { start: { code: "SEGOT" }, end: { code: "FIHEL" } } }, p], [p, { ...other, vessel: { name: "C", mmsi: 333, imo: 3333333 }, route: { start: { code: "FIHEL" }, end: { code: "FIRAU" } } }], [p, { ...other, portnetPortCallId: 88 }]]);
    const earlier = c.deviate("known as", [undefined, "ESTIMATE", "FINISHED"]);
    const sameVersion = c.deviate("version", ["changed", "same"]) === "same";
    const x = start({ ...d, pilotage: earlier ? [rowOf({ ...p, pilotBoardingTime: undefined, state: earlier, scheduleUpdated: sameVersion ? at(-1) : at(-2) })] : [] });
    x.source.text = JSON.stringify(list);
    const r = await x.w.settle(x.m.p.handler());
    c.check(r.ok, "handler-failed", () => String(r.error));
    const due = earlier === "ESTIMATE" ? !sameVersion : p.state !== "FINISHED";
    const messageOf = (p) => {
      const port = LOCODES[p.route.end.code], from = LOCODES[p.route.start.code];
      const mmsi = p.vessel.mmsi ?? { 1111111: 111, 3333333: 333 }[p.vessel.imo], imo = p.vessel.imo ?? { 111: 1111111 }[p.vessel.mmsi];
      const call = (l) => d.port_call.find((q) => q.port_to_visit === l && (q.mmsi === mmsi || q.imo_lloyds === imo) && ms(q.port_call_timestamp) > NOW - 36 * 3600000)?.port_call_id;
      const portcallId = p.portnetPortCallId ?? (call(from) && call(port) ? call(from) : call(port) ?? call(from));
      return portcallId ? [{ eventType: TYPE[p.state], eventTime: iso(timeOf(p)), recordTime: p.scheduleUpdated, source: "Pilotweb", sourceId: String(p.id), ship: p.vessel.mmsi === undefined ? { imo: p.vessel.imo } : p.vessel.imo === undefined ? { mmsi: p.vessel.mmsi } : { mmsi: p.vessel.mmsi, imo: p.vessel.imo }, location: { port, from, ...(p.route.end.berth ? { berth: p.route.end.berth.code } : {}) }, portcallId }] : [];
    };
    const want = list.filter((q) => q !== p || due).flatMap(messageOf);
    const plain = (m) => JSON.stringify(m, (k, v) => (v && typeof v === "object" && !Array.isArray(v) ? Object.fromEntries(Object.entries(v).sort()) : v));
    c.equal(x.sent.map((s) => JSON.parse(s.MessageBody)).map((m) => plain({ ...m, eventTime: iso(m.eventTime) })), want.map(plain), "message", () => JSON.stringify(list) + x.w.stdout.slice(-3));
    for (const s of x.sent) c.equal(s.QueueUrl, "q", "queue");
    c.equal(stored(x.sql), [...(due ? [rowOf(p)] : earlier ? [rowOf({ ...p, pilotBoardingTime: undefined, state: earlier, scheduleUpdated: sameVersion ? at(-1) : at(-2) })] : []), ...list.filter((q) => q !== p).map(rowOf)], "stored");
    c.equal([x.source.requests[0].host, x.source.requests[0].path, x.source.requests[0].headers.Authorization], ["source", "/digitraffic/pilotages/active", "Basic key"], "request");
    return JSON.stringify(want[0]?.eventType);
  }, { bound: ctx.thorough ? 3 : 2 });
  ctx.assume("PostgreSQL is replaced by SQLite behind the pg driver; the source's times are written as it writes them, with milliseconds, and a vessel has at most one recent port call per port");
}
