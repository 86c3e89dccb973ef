import { app } from "../lib/app.mjs";
import { DIR, env, reusable, schema, withMyFaults } from "../lib/fixtures/rami.mjs";

export const meta = { parallel: true, bounds: "every stop monitoring message deviating from a plain one in up to 3 (quick) / 4 (thorough) fields of its three calls; every batch of up to 3 records of eight kinds with up to 1 / 2 failed statements, connections or sends; every sequence of 2 / 3 updates of up to two rows out of all combinations of values over tables in four states, with every failed statement or deadlock (up to 1 / 2); batches of updates; rows at the borders of the deletion" };
const NOW = Date.UTC(2024, 5, 19, 10), S = 1000, MIN = 60 * S, DAY = 86400 * S;
const db = (t) => new Date(t).toISOString().replace("T", " ").replace("Z", "");
const at = (hm) => `2024-06-19T${hm}:00`;

const call = (o) => ({ ...(o.arr ? { aimedArrivalTime: at(o.arr) } : {}), ...(o.dep ? { aimedDepartureTime: at(o.dep) } : {}), arrivalBoardingActivity: "alighting", ...(o.expArr ? { expectedArrivalTime: at(o.expArr) } : {}), ...(o.expDep ? { expectedDepartureTime: at(o.expDep) } : {}), arrivalStopAssignment: { aimedQuayName: "10", ...(o.arrQuay ? { expectedQuayName: o.arrQuay } : {}) }, departureStopAssignment: { aimedQuayName: "10", ...(o.depQuay ? { expectedQuayName: o.depQuay } : {}) }, departureBoardingActivity: o.boarding ?? "boarding", order: 7, stopPointRef: o.station });
const sm = (o) => ({ headers: { e2eId: o.id ?? "c05645ec", eventType: "StopMonitoringMessage", organisation: "A", recordedAtTime: at("09:00"), source: "s" }, payload: { monitoredStopVisits: [{ itemIdentifier: "i", monitoredVehicleJourney: { vehicleJourneyName: o.journey ?? "20240619108122", monitoredCall: call(o.calls[0]), onwardCalls: o.calls.slice(1).map(call), vehicleModeName: "RAIL" } }] } });
const iso = (hm) => `2024-06-19T${hm}:00.000Z`;
const dataOf = (o) => o.calls.flatMap((q) => ((q.boarding ?? "boarding") !== "boarding" ? [] : [q.arr && { stationShortCode: q.station, scheduledTime: iso(q.arr), type: 0, unknownDelay: !q.expArr, unknownTrack: !q.arrQuay }, q.dep && { stationShortCode: q.station, scheduledTime: iso(q.dep), type: 1, unknownDelay: !q.expDep, unknownTrack: !q.depQuay }].filter(Boolean)));
const train = (j) => ({ trainNumber: Number(j.slice(9, 14)), departureDate: `${j.slice(0, 4)}-${j.slice(4, 6)}-${j.slice(6, 8)}` });
const sorted = (l) => l.map((x) => JSON.stringify(x, Object.keys(x).sort())).sort();
const ROWS = [[101, "PSL", "11:57:00", 0], [102, "PSL", "11:58:00", 1], [103, "HKI", "12:03:30", 0], [104, "HKI", "12:03:30", 1], [105, "PSL", "12:57:00", 0], [106, "TPE", "12:30:00", 0]];

export async function run(ctx) {
  const a = await app({ sm: `${DIR}process-sm-queue/process-sm-queue.ts`, udot: `${DIR}process-udot-queue/process-udot-queue.ts`, clean: `${DIR}delete-old-data/delete-old-data.ts` }, { topLevelAwait: true, stubs: ["mysql2"] });
  const start = reusable(async (o) => {
    const x = a.start({ mysql: true, schema, env, now: NOW, ...o });
    x.m = await x.m;
    x.go = async (which, bodies) => {
      const Records = bodies.map((body) => ({ messageId: `r${x.n++}`, body }));
      const r = await x.w.settle(x.m[which].handler({ Records }, {}));
      return { r, failed: r.ok ? Records.map((q) => r.value.batchItemFailures.some((f) => f.itemIdentifier === q.messageId)) : Records.map(() => true) };
    };
    return x;
  }, NOW);
  const explore = (name, body, o) => ctx.explore(name, start.within(body), o);
  const to = (x, q) => x.sent.filter((s) => s.QueueUrl === q).map((s) => JSON.parse(s.MessageBody));
  const sound = (c, x, r) => { c.check(!r.hung, "hangs", ""); c.equal(x.sql.open.size, 0, "connections"); c.check(!x.sql.leaked && x.sql.owner === undefined, "open-transaction", ""); };
  const saved = (x) => x.sql.rows("select rami_message_id id, train_number train, train_departure_date date, message from rami_stop_monitoring_message");
  const timetable = (x, rows = ROWS) => { for (const [id, st, t, type] of rows) for (const [n, d, k] of [[8122, "2024-06-19", 0], [8122, "2024-06-20", 1000], [812, "2024-06-19", 2000]]) x.sql.db.prepare("insert into time_table_row (attap_id, station_short_code, scheduled_time, type, departure_date, train_number) values (?,?,?,?,?,?)").run(id + k, st, `2024-06-19 ${t}.000`, type, d, n); };
  const table = (x) => x.sql.rows("select train_number, train_departure_date date, attap_id id, unknown_delay ud, unknown_track ut from rami_udot order by train_departure_date, train_number, attap_id").map((q) => [q.train_number, q.date, q.id, !!q.ud, !!q.ut]);
  const history = (x) => x.sql.rows("select * from rami_udot_history").map((q) => [q.rami_message_id, q.train_number, q.train_departure_date, q.attap_id, !!q.unknown_delay, !!q.unknown_track].join());

  /** the table and the changed rows after a message; st: Map of key -> [ud, ut] */
  function apply(st, m, rows = ROWS) {
    const out = new Map(st), changes = [], offset = m.trainNumber === 812 ? 2000 : m.departureDate === "2024-06-20" ? 1000 : 0;
    const known = [8122, 812].includes(m.trainNumber) && (m.departureDate === "2024-06-19" || (m.trainNumber === 8122 && m.departureDate === "2024-06-20"));
    for (const d of known ? m.data : []) {
      const row = rows.find(([, s, t, type]) => s === d.stationShortCode && type === d.type && `2024-06-19T${t}`.slice(0, 16) === d.scheduledTime.slice(0, 16));
      if (!row) continue;
      const k = JSON.stringify([m.trainNumber, m.departureDate, row[0] + offset]), old = out.get(k);
      if (!d.unknownDelay && !d.unknownTrack && !old) continue;
      if (!old || old[0] !== d.unknownDelay || old[1] !== d.unknownTrack) changes.push([m.messageId, m.trainNumber, m.departureDate, row[0] + offset, d.unknownDelay, d.unknownTrack].join());
      out.set(k, [d.unknownDelay, d.unknownTrack]);
    }
    return { st: out, changes };
  }
  const asRows = (st) => [...st].map(([k, v]) => [...JSON.parse(k), ...v]).sort((p, q) => (p[1] < q[1] ? -1 : p[1] > q[1] ? 1 : p[0] - q[0] || p[2] - q[2]));

  await explore("conversion", async (c) => {
    const x = await start();
    timetable(x);
    const BASE = [{ station: "PSL", arr: "11:57", dep: "11:58", arrQuay: "10" }, { station: "HKI", arr: "12:03", expArr: "12:04", arrQuay: "19" }, { station: "TPE", arr: "12:30", dep: "12:31", expDep: "12:40", depQuay: "1" }];
    const n = c.deviate("calls", [3, 2, 1]);
    const calls = BASE.slice(0, n).map((b) => ({ ...b, arr: c.deviate("aimed arrival", [b.arr, undefined]), dep: c.deviate("aimed departure", [b.dep, b.dep ? undefined : "12:03"]), expArr: c.deviate("expected arrival", [b.expArr, b.expArr ? undefined : "12:59"]), expDep: c.deviate("expected departure", [b.expDep, b.expDep ? undefined : "12:59"]), arrQuay: c.deviate("arrival quay", [b.arrQuay, b.arrQuay ? undefined : "3"]), depQuay: c.deviate("departure quay", [b.depQuay, b.depQuay ? undefined : "3"]), boarding: c.deviate("boarding", ["boarding", "noBoarding"]), station: c.deviate("station", [b.station, "OL", "PSL"].filter((s, i, l) => l.indexOf(s) === i)) }));
    const o = { calls, id: "e2e", journey: c.deviate("journey", ["20240619108122", "20240620108122", "20240619100812", "20240619108122BUS", "20231231199999"]) };
    const body = JSON.stringify(sm(o));
    const { r, failed } = await x.go("sm", [body]);
    sound(c, x, r);
    c.check(r.ok && !failed[0], "failed", () => String(r.error));
    const t = train(o.journey), data = dataOf(o);
    c.equal(saved(x), [{ id: "e2e", train: t.trainNumber, date: t.departureDate, message: body }], "saved");
    c.equal(to(x, "dlq"), [], "dead-letters");
    const msgs = to(x, "udot");
    if (o.journey.endsWith("BUS") || !data.length) { c.equal(msgs, [], "skipped"); return ["none"]; }
    c.equal(msgs.length, 1, "messages");
    c.equal([msgs[0].messageId, msgs[0].trainNumber, msgs[0].departureDate, sorted(msgs[0].data)], ["e2e", t.trainNumber, t.departureDate, sorted(data)], "content");
    const { r: r2, failed: f2 } = await x.go("udot", [JSON.stringify(msgs[0])]);
    sound(c, x, r2);
    c.check(r2.ok && !f2[0], "refused", () => String(r2.error));
    const want = apply(new Map(), { messageId: "e2e", ...t, data });
    c.equal(table(x), asRows(want.st), "table");
    c.equal(history(x).sort(), want.changes.sort(), "history");
    return [JSON.stringify(table(x))];
  }, { bound: ctx.thorough ? 4 : 3, replayEvery: 997 });

  await explore("stop monitoring batches", async (c) => {
    const lost = [];
    const x = await start({ awsFault: (k, i) => { const f = c.deviate("send", ["ok", "fails"]) !== "ok"; if (f) lost.push(i); return f; } });
    withMyFaults(c, x.sql, { connect: true });
    const CALLS = [{ station: "PSL", arr: "11:57" }];
    const bad = (f) => { const m = sm({ id: "bad", calls: CALLS }); f(m); return JSON.stringify(m); };
    const KINDS = { plain: (i) => JSON.stringify(sm({ id: `m${i}`, calls: CALLS })), bus: (i) => JSON.stringify(sm({ id: `m${i}`, calls: CALLS, journey: "20240619108122BUS" })), empty: (i) => JSON.stringify(sm({ id: `m${i}`, calls: [{ ...CALLS[0], boarding: "no" }] })), text: () => "no json", visits: () => bad((m) => { m.payload.monitoredStopVisits = []; }), name: () => bad((m) => { m.payload.monitoredStopVisits[0].monitoredVehicleJourney.vehicleJourneyName = "1"; }), extra: () => bad((m) => { m.more = 1; }), headers: () => bad((m) => { delete m.headers.e2eId; }) };
    const kinds = [c.choose("first", Object.keys(KINDS)), c.choose("second", ["plain", "name", undefined]), c.deviate("third", [undefined, "plain", "text", "bus"])].filter(Boolean);
    const bodies = kinds.map((k, i) => KINDS[k](i));
    const { r, failed } = await x.go("sm", bodies);
    sound(c, x, r);
    const rows = saved(x), udot = to(x, "udot"), dead = to(x, "dlq");
    const faults = x.sql.faults.length + lost.length;
    c.check(r.ok || faults > 0, "failed", () => String(r.error));
    let bads = 0;
    for (const [i, k] of kinds.entries()) {
      const mine = rows.filter((q) => q.id === `m${i}` && q.message === bodies[i]).length, sent = udot.filter((m) => m.messageId === `m${i}`).length, letters = dead.filter((l) => l.message === bodies[i]).length;
      if (["plain", "bus", "empty"].includes(k)) {
        const done = mine === 1 && sent === (k === "plain" ? 1 : 0);
        c.check(failed[i] || done, "lost", () => `${k} of ${kinds}: ${x.sql.faults} ${lost.length} saved ${mine} sent ${sent}`);
        if (!faults) c.check(!failed[i] && done, "refused", k);
        c.equal(letters, 0, "letter", k);
      } else { bads++; c.check(failed[i] || letters >= 1, "dropped", () => `${k} of ${kinds}: ${dead.length}`); }
    }
    // a fault harms one record
    c.check(kinds.filter((k, i) => failed[i] && k !== "text").length <= faults, "others", () => `${kinds} ${failed} ${x.sql.faults}`);
    c.equal(rows.filter((q) => q.id === "bad").length, 0, "bad-saved");
    return [failed.join(), rows.length, udot.length, dead.length];
  }, { bound: ctx.thorough ? 2 : 1, replayEvery: 199 });

  const VALUES = [[true, false], [false, true], [true, true], [false, false]];
  const entry = ([id, station, t, type], [ud, ut]) => ({ stationShortCode: station, scheduledTime: `2024-06-19T${t.slice(0, 5)}:00.000Z`, type, unknownDelay: ud, unknownTrack: ut });
  const initial = (x, state) => {
    const st = new Map();
    if (state !== "empty") for (const [id, ud, ut] of [[101, true, false], [103, false, false]]) { st.set(JSON.stringify([8122, "2024-06-19", id]), [ud, ut]); x.sql.db.prepare("insert into rami_udot (train_number, train_departure_date, attap_id, unknown_delay, unknown_track, model_updated_time) values (8122, '2024-06-19', ?, ?, ?, ?)").run(id, +ud, +ut, state === "read" ? db(NOW - MIN) : null); }
    return st;
  };
  const checkHistory = (c, x, before, changes, done) => {
    const added = history(x).slice(before);
    if (!done) { c.equal(added, [], "history-of-failed"); return; }
    for (const k of new Set(changes)) c.check(added.filter((h) => h === k).length >= changes.filter((h) => h === k).length, "history-missing", () => `${k} in ${added}`);
  };

  await explore("updates", async (c) => {
    const x = await start();
    timetable(x);
    const state = c.choose("state", ["empty", "unread", "read"]);
    let st = initial(x, state);
    const trace = [];
    let n = 0;
    withMyFaults(c, x.sql, { kinds: ["ok", "error", "deadlock"], connect: true });
    const steps = ctx.thorough ? 3 : 2;
    for (let k = 0; k < steps; k++) {
      const data = [entry(ROWS[0], c.choose("first", VALUES))];
      const second = c.choose("second", k === 0 ? [undefined, ...VALUES] : [undefined, VALUES[0], VALUES[3]]);
      if (second) data.push(entry(ROWS[c.deviate("row", [2, 0, 5])], second));
      const m = { messageId: `m${k}`, trainNumber: 8122, departureDate: "2024-06-19", vehicleJourneyName: "20240619108122", data };
      const before = history(x).length, faults = x.sql.faults.length;
      const { r, failed } = await x.go("udot", [JSON.stringify(m)]);
      sound(c, x, r);
      const done = r.ok && !failed[0];
      const next = apply(st, m);
      c.check(done || x.sql.faults.length > faults, "refused", () => String(r.error));
      c.equal(table(x), asRows(done ? next.st : st), "table", () => `${JSON.stringify(data)} ${done} ${x.sql.faults}`);
      checkHistory(c, x, before, next.changes, done);
      if (done) st = next.st;
      trace.push(done);
      if (c.deviate("reader", [false, true])) { x.sql.db.exec(`update rami_udot set model_updated_time = '${db(NOW)}'`); n++; }
    }
    return [trace.join(), n, JSON.stringify(asRows(st))];
  }, { bound: ctx.thorough ? 2 : 1, replayEvery: 499 });

  await explore("update batches", async (c) => {
    const x = await start();
    timetable(x);
    let st = initial(x, c.choose("state", ["empty", "read"]));
    withMyFaults(c, x.sql, { kinds: ["ok", "error", "deadlock"], connect: true });
    const KINDS = { today: { trainNumber: 8122, departureDate: "2024-06-19" }, tomorrow: { trainNumber: 8122, departureDate: "2024-06-20" }, other: { trainNumber: 812, departureDate: "2024-06-19" }, unknown: { trainNumber: 9, departureDate: "2024-06-19" } };
    const kinds = [c.choose("first", ["today", "text", "unknown"]), c.choose("second", ["tomorrow", "other", "text"]), c.deviate("third", [undefined, "other", "unknown"])].filter(Boolean);
    const data = [entry(ROWS[0], c.choose("values", VALUES)), entry(ROWS[1], VALUES[2]), entry(ROWS[4], VALUES[1])];
    if (c.deviate("unmatched", [false, true])) data.splice(1, 0, entry([0, "OL", "11:57:00", 0], VALUES[0]), entry([0, "PSL", "11:59:00", 0], VALUES[0]), entry([0, "PSL", "11:57:00", 1], VALUES[0]));
    const msgs = kinds.map((k, i) => (k === "text" ? undefined : { messageId: `m${i}`, ...KINDS[k], vehicleJourneyName: "", data }));
    const { r, failed } = await x.go("udot", msgs.map((m) => (m ? JSON.stringify(m) : "no json")));
    sound(c, x, r);
    for (const [i, m] of msgs.entries()) if (m && !failed[i]) st = apply(st, m).st;
    c.equal(table(x), asRows(st), "table", () => `${kinds} ${failed} ${x.sql.faults}`);
    for (const [i, k] of kinds.entries()) if (k === "text") c.check(failed[i], "unreadable", ""); else if (!x.sql.faults.length) c.check(!failed[i], "refused", k);
    c.check(kinds.filter((k, i) => failed[i] && k !== "text").length <= x.sql.faults.length, "others", () => `${kinds} ${failed} ${x.sql.faults}`);
    return [failed.join(), st.size];
  }, { bound: ctx.thorough ? 2 : 1, replayEvery: 199 });

  await explore("deletion", async (c) => {
    const x = await start();
    const ages = [DAY - S, DAY + S, 0, 3 * DAY];
    const insert = (t, cols, vals, age) => x.sql.db.prepare(`insert into ${t} (${cols}, created_db) values (${vals}, ?)`).run(db(NOW - age));
    const kept = { rami_udot: [], rami_udot_history: [], rami_stop_monitoring_message: [] };
    let i = 0;
    for (const t of Object.keys(kept)) for (let k = 0; k < 2; k++) {
      const age = k === 0 ? c.choose(t, ages) : c.deviate(`second ${t}`, ages);
      i++;
      if (t === "rami_udot") insert(t, "train_number, train_departure_date, attap_id, unknown_delay, unknown_track", `${i}, '2024-06-19', ${i}, 1, 0`, age);
      else if (t === "rami_udot_history") insert(t, "rami_message_id, train_number, train_departure_date, attap_id, unknown_delay, unknown_track", `'m', ${i}, '2024-06-19', ${i}, 1, 0`, age);
      else insert(t, "rami_message_id, train_number, train_departure_date, message", `'m', ${i}, '2024-06-19', '{}'`, age);
      kept[t].push([i, age]);
    }
    withMyFaults(c, x.sql, { kinds: ["ok", "error", "deadlock"], connect: true });
    const r = await x.w.settle(x.m.clean.handler());
    sound(c, x, r);
    c.equal(r.ok, x.sql.faults.length === 0, "result", () => `${x.sql.faults} ${r.error}`);
    for (const [t, l] of Object.entries(kept)) c.equal(x.sql.rows(`select train_number n from ${t} order by 1`).map((q) => q.n), l.filter(([, age]) => !r.ok || age <= DAY).map(([n]) => n), "kept", () => `${t} ${x.sql.faults}`);
    return [r.ok, JSON.stringify(kept)];
  }, { bound: ctx.thorough ? 2 : 1, replayEvery: 997 });
}
