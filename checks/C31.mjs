import { app } from "../lib/app.mjs";
import { schema, NOW, at, fixture, insert } from "../lib/fixtures/portactivity.mjs";

export const meta = { parallel: true, bounds: "every table of up to 3 timestamps of a ship's calls within 2 (quick) / 3 (thorough) deviations from the base rows; every combination of estimates of the five sources for one call; every query by port, MMSI, IMO or source and every ship list" };

const H = 3600000;
const DISPLAY = { "Portnet": "PNET", "Awake.AI": "VTS A", "SCHEDULES_CALCULATED": "VTS A", "SCHEDULES_VTS_CONTROLLED": "VTS O", "Awake.AI Pred": "PRED" };
const ms = (x) => Date.parse(x);

// ---- the documented rules, on plain objects ----
/** estimates of one kind for one port call are reconciled; the times are instants in ms; undefined: not specified */
export function reconcile(group) {
  const calc = group.filter((r) => r.event_source === "SCHEDULES_CALCULATED");
  const awake = group.filter((r) => r.event_source === "Awake.AI");
  if (calc.length > 1 || awake.length > 1) return undefined;
  let out = [...group];
  let vts = [...awake, ...calc];
  if (calc.length && (NOW - ms(calc[0].record_time) >= H || (awake.length && Math.abs(ms(calc[0].event_time) - ms(awake[0].event_time)) >= H))) {
    out = out.filter((r) => r !== calc[0]);
    vts = awake;
  }
  if (vts.length) out = out.filter((r) => r.event_source !== "Awake.AI Pred");
  if (vts.length > 1) {
    out = out.filter((r) => !vts.includes(r));
    out.push({ ...calc[0], event_time: new Date((ms(calc[0].event_time) + ms(awake[0].event_time)) / 2).toISOString() });
  }
  return out;
}
export function merged(rows) {
  const same = (a, b) => a.event_source === b.event_source && a.ship_imo === b.ship_imo && a.location_locode === b.location_locode && a.event_type === b.event_type && a.event_time === b.event_time;
  rows = rows.filter((r) => !(r.event_source === "Awake.AI Pred" && r.portcall_id === null && rows.some((o) => o.portcall_id !== null && same(o, r))));
  const groups = new Map();
  for (const r of rows) { const k = `${r.portcall_id} ${r.event_type}`; if (!groups.has(k)) groups.set(k, []); groups.get(k).push(r); }
  const out = [];
  for (const g of groups.values()) { const x = reconcile(g); if (!x) return undefined; out.push(...x); }
  return out;
}
/** only the newest record of each event of each source */
export const newest = (rows) => rows.filter((r) => !rows.some((o) => o.event_type === r.event_type && o.location_locode === r.location_locode && o.ship_imo === r.ship_imo && o.event_source === r.event_source && (o.portcall_id === null || r.portcall_id === null || o.portcall_id === r.portcall_id) && ms(o.record_time) > ms(r.record_time)));

export async function run(ctx) {
  const a = await app({ q: "marine/portactivity/src/lambda/get-timestamps/get-timestamps.ts", l: "marine/portactivity/src/lambda/get-shiplist-public/get-shiplist-public.ts", s: "marine/portactivity/src/service/timestamps.ts", d: "marine/portactivity/src/lambda/delete-old-timestamps/delete-old-timestamps.ts" });
  const base = { event_type: "ETA", event_time: at(3), event_time_confidence_lower_diff: null, event_time_confidence_upper_diff: null, event_source: "Portnet", record_time: at(-0.5), location_locode: "FIHEL", location_portarea: null, location_from_locode: null, ship_mmsi: 111222333, ship_imo: 9074729, portcall_id: 1, source_id: null };
  const SHIP = { A: { ship_mmsi: 111222333, ship_imo: 9074729 }, B: { ship_mmsi: 222333444, ship_imo: 9812345 }, "A without mmsi": { ship_mmsi: null, ship_imo: 9074729 } };
  const pub = (r) => ({ eventType: r.event_type, eventTime: r.event_time, recordTime: r.record_time, source: DISPLAY[r.event_source] ?? r.event_source, sourceId: r.source_id, ship: { mmsi: r.ship_mmsi, imo: r.ship_imo }, location: { port: r.location_locode, portArea: r.location_portarea, from: r.location_from_locode }, portcallId: r.portcall_id, eventTimeConfidenceLowerDiff: r.event_time_confidence_lower_diff, eventTimeConfidenceUpperDiff: r.event_time_confidence_upper_diff });
  const sorted = (list) => list.map((x) => JSON.stringify(x)).sort();
  const inOrder = (c, times) => { for (let i = 1; i < times.length; i++) c.check(ms(times[i - 1]) <= ms(times[i]), "order", () => times.join(" ")); };

  const expectList = (rows, pick) => merged(newest(rows).filter((r) => ms(r.event_time) > NOW - 12 * H && (r.event_source !== "Portnet" || ms(r.event_time) < NOW + 14 * 24 * H)).filter(pick));
  const atPort = (locode) => (r) => r.location_locode === locode || (r.location_from_locode === locode && r.event_source === "Pilotweb");
  const QUERIES = [
    ["locode FIHEL", { locode: "FIHEL" }, atPort("FIHEL")], ["locode fihel", { locode: "fihel" }, atPort("FIHEL")], ["locode FIKOK", { locode: "FIKOK" }, atPort("FIKOK")],
    ["mmsi A", { mmsi: 111222333 }, (r) => r.ship_mmsi === 111222333], ["imo A", { imo: 9074729 }, (r) => r.ship_imo === 9074729],
    ["imo A, mmsi B", { imo: 9074729, mmsi: 222333444 }, (r) => r.ship_imo === 9074729],
    ["source", { source: "Portnet" }, (r) => r.event_source === "Portnet"], ["source pred", { source: "Awake.AI Pred" }, (r) => r.event_source === "Awake.AI Pred"],
    ["locode and mmsi B", { locode: "FIHEL", mmsi: 222333444 }, atPort("FIHEL")],
  ];
  const decode = (r) => JSON.parse(Buffer.from(r.body, "base64").toString());
  async function query(c, x, rows, [label, event, pick]) {
    const r = await x.w.settle(x.m.q.handler(event));
    c.check(r.ok && r.value.status === 200, "query-failed", () => `${label}: ${r.error ?? r.value.status} ${x.w.stdout.join()}`);
    const want = expectList(rows, pick);
    if (want) c.equal(sorted(decode(r.value)), sorted(want.map(pub)), "query", () => `${label}`);
    inOrder(c, decode(r.value).map((t) => t.eventTime));
    return want?.length;
  }
  const NAMES = { 9074729: "A", 9812345: "B" };
  const listRows = (rows, locode, hours) => newest(rows).filter((r) => ms(r.event_time) > NOW - (["ATA", "ATD"].includes(r.event_type) ? 6 : 1) * H && ms(r.event_time) < NOW + hours * H && !(r.event_type === "ETA" && rows.some((o) => o.portcall_id === r.portcall_id && o.event_type === "ATA"))).filter(atPort(locode)).map((r) => ({ event_type: r.event_type, event_time: r.event_time, event_source: r.event_source, record_time: r.record_time, portcall_id: r.portcall_id, ship_imo: r.ship_imo, location_locode: locode }));
  const distinct = (l) => [...new Map(l.map((x) => [JSON.stringify(x), x])).values()];
  async function shiplist(c, x, rows, locode, interval, hours, name) {
    const r = await x.w.settle(x.m.l.handler({ queryStringParameters: { auth: "sesame", locode, ...(interval === undefined ? {} : { interval }) } }));
    c.check(r.ok && r.value.statusCode === 200, "shiplist-failed", () => `${JSON.stringify(r.value)} ${r.error}`);
    const script = /<script>([\s\S]*?)<\/script>/.exec(r.value.body)?.[1] ?? "";
    const text = /var shiplist = ([^\n]*);\s*\n/.exec(script)?.[1];
    let got;
    try { got = new Function(`return ${text};`)(); } catch (e) { c.fail("page", `${e.message} in ${String(text).slice(0, 200)}`); return; }
    const want = merged(distinct(listRows(rows, locode, hours)));
    if (want) c.equal(sorted((got ?? []).map((t) => ({ type: t.event_type, time: t.eventTime, record: t.recordTime, source: t.source, ship: t.ship_name, imo: t.ship_imo, call: t.portcall_id }))), sorted(want.map((t) => ({ type: t.event_type, time: t.event_time, record: t.record_time, source: DISPLAY[t.event_source] ?? t.event_source, ship: name ?? NAMES[t.ship_imo], imo: t.ship_imo, call: t.portcall_id }))), "shiplist", () => `${locode} ${hours}`);
    inOrder(c, (got ?? []).map((t) => t.eventTime));
    return want?.length;
  }
  const place = (sql, rows) => insert(sql, { vessel: [{ mmsi: 111222333, timestamp: 1, name: "OLD", imo: 9074729 }, { mmsi: 111222333, timestamp: 2, name: "A", imo: 9074729 }, { mmsi: 222333444, timestamp: 1, name: "B", imo: 9812345 }], port_call: fixture().port_call.map((p) => ({ ...p, mmsi: p.mmsi === 111 ? 111222333 : p.mmsi === 222 ? 222333444 : p.mmsi, imo_lloyds: p.imo_lloyds === 1111111 ? 9074729 : p.imo_lloyds === 2222222 ? 9812345 : p.imo_lloyds })), port_area_details: fixture().port_area_details, port_call_timestamp: rows });
  const start = (rows) => { const x = a.start({ schema, now: NOW, secret: { "shiplist.auth": "sesame" } }); place(x.sql, rows); return x; };

  // ---- which timestamps are current ----
  await ctx.explore("tables", async (c) => {
    const rows = [];
    for (let i = 0; i < 3; i++) {
      const ship = SHIP[c.deviate("ship", ["A", "B", "A without mmsi"])];
      const r = {
        ...base, ...ship,
        event_type: c.deviate("type", ["ETA", "ATA", "ETD"]), event_source: c.deviate("source", ["Portnet", "Awake.AI Pred", "Pilotweb", "Port HKO"]),
        event_time: at(c.deviate("time", [3, 3.5, -0.5, -1.5, -5, -7, -11.9, -12.1, 95, 97, 335, 337])), record_time: at([-0.5, -1, -2][c.deviate("record", [i, (i + 1) % 3, (i + 2) % 3])]),
        location_locode: c.deviate("port", ["FIHEL", "FIKOK"]), location_from_locode: c.deviate("from", [null, "FIHEL", "FIKOK"]),
        portcall_id: c.deviate("call", [1, 2, null]),
      };
      if (r.portcall_id === null && r.event_source !== "Awake.AI Pred") r.portcall_id = 3;
      if (rows.some((o) => ["ship_imo", "event_source", "location_locode", "event_type", "event_time", "record_time", "portcall_id"].every((k) => o[k] === r[k]) && r.portcall_id !== null)) return "taken";
      rows.push(r);
    }
    const x = start(rows);
    const n = [];
    for (const q of QUERIES) n.push(await query(c, x, rows, q));
    n.push(await shiplist(c, x, rows, "FIHEL", "96", 96), await shiplist(c, x, rows, "FIKOK", "4", 4));
    c.equal(x.sql.open.size, 0, "connection-left");
    return n.join();
  }, { bound: ctx.thorough ? 3 : 2 });

  // ---- estimates of several sources for the same event ----
  await ctx.explore("estimates", async (c) => {
    const rows = [];
    const add = (label, o) => { if (!c.choose(label, [0, 1])) return; rows.push({ ...base, event_type: type, ...o, record_time: o.record_time ?? at(-0.5) }); };
    const type = c.deviate("kind", ["ETA", "ETB", "ETD"]);
    add("Portnet", { event_source: "Portnet" });
    add("VTS control", { event_source: "SCHEDULES_VTS_CONTROLLED", event_time: at(2) });
    add("Pred", { event_source: "Awake.AI Pred", event_time: at(4), portcall_id: c.deviate("pred call", [1, 2]) });
    add("Pred without call", { event_source: "Awake.AI Pred", event_time: c.deviate("other pred", [at(4), at(4.5)]), portcall_id: null, record_time: c.deviate("pred record", [at(-0.5), at(-0.4)]), ship_imo: c.deviate("pred ship", [9074729, 9812345]), location_locode: c.deviate("pred port", ["FIHEL", "FIKOK"]) });
    add("Awake", { event_source: "Awake.AI", event_time: at(3), portcall_id: c.deviate("awake call", [1, 2]), event_time_confidence_lower_diff: -5, event_time_confidence_upper_diff: 7 });
    add("Calculated", { event_source: "SCHEDULES_CALCULATED", event_time: at(3 + c.deviate("difference", [20, 0, 30, 59, 60, 61, -20, -59, -60, -61, 600]) / 60), record_time: at(-c.deviate("age", [10, 59, 60, 61, 300, -5]) / 60) });
    const x = start(rows);
    return [await query(c, x, rows, QUERIES[0]), await query(c, x, rows, QUERIES[4]), await query(c, x, rows, QUERIES[2]), await shiplist(c, x, rows, "FIHEL", "96", 96)].join();
  }, { bound: ctx.thorough ? 3 : 2 });

  // ---- parameters ----
  await ctx.explore("parameters", async (c) => {
    const x = start([base]);
    if (c.choose("page", [0, 1])) {
      const auth = c.choose("auth", ["sesame", undefined, "", "Sesame", "sesame ", "other"]);
      const locode = c.choose("locode", ["FIHEL", "fihel", "FIHE", "SEHEL", "", undefined, "FIHELX", "FI1EL"]);
      const r = await x.w.settle(x.m.l.handler({ queryStringParameters: c.choose("none", [0, 1]) ? null : { ...(auth === undefined ? {} : { auth }), ...(locode === undefined ? {} : { locode }), interval: "10" } }));
      const none = c.history?.includes?.("none=1");
      const status = r.value?.statusCode;
      return String(status) + none;
    }
    const pick = (l, ok, bad) => { const i = c.choose(l, Array.from({ length: 1 + ok.length + bad.length }, (_, j) => j)); return i === 0 ? undefined : [...ok, ...bad][i - 1]; };
    const event = { locode: pick("locode", ["FIHEL"], ["SEHEL", "FIHELX", "FIHE", ""]), mmsi: pick("mmsi", [111222333], [99999999, 1000000000, 1.5]), imo: pick("imo", [9074729], [9074728, 907472, 90747290]), source: pick("source", ["Portnet"], [""]) };
    const any = event.locode || event.mmsi || event.imo || event.source;
    const bad = !any || (event.locode && !/^FI[A-Z]{3}$/i.test(event.locode)) || (event.mmsi && event.mmsi !== 111222333) || (event.imo && event.imo !== 9074729);
    const r = await x.w.settle(x.m.q.handler(event));
    c.check(r.ok, "threw", String(r.error));
    c.equal(r.value.status, bad ? 400 : 200, "status", () => JSON.stringify(event));
    if (!bad) c.equal(decode(r.value).length, 1, "found", () => JSON.stringify(event));
    return String(r.value.status);
  }, { bound: 0 });
  await ctx.explore("ship list access", async (c) => {
    const x = start([base]);
    const p = c.choose("parameters", [0, 1]) ? { auth: c.choose("auth", ["sesame", undefined, "", "Sesame", "sesame ", "other"]), locode: c.choose("locode", ["FIHEL", "fihel", "FIHE", "SEHEL", "", undefined, "FIHELX", "FI1EL"]), interval: "10" } : c.choose("none", [null, undefined]);
    const r = await x.w.settle(x.m.l.handler({ queryStringParameters: p }));
    c.check(r.ok, "threw", String(r.error));
    const want = !p?.auth ? 401 : p.auth !== "sesame" ? 403 : !/^FI[A-Z]{3}$/i.test(p.locode ?? "") ? 400 : 200;
    c.equal(r.value.statusCode, want, "status", () => JSON.stringify(p));
    if (want !== 200) c.check(!r.value.body.includes("Portnet") && !r.value.body.includes("9074729"), "leak", r.value.body);
    return String(want);
  }, { bound: 0 });
  // the page carries whatever a ship calls itself as data
  await ctx.explore("ship names", async (c) => {
    const name = c.choose("name", ["A", "O'HARA", 'THE "X"', "</script><script>alert(1)</script>", "<!--<script>", "\\", "A\u2028B", "${x}", "$&"]);
    const hours = c.choose("interval", [[undefined, 96], ["1", 1], ["2", 2], ["4", 4], ["96", 96]]);
    const rows = [{ ...base, event_time: at(1.5) }, { ...base, event_time: at(3), portcall_id: 2 }, { ...base, event_time: at(50), portcall_id: 3 }, { ...base, event_time: at(97), portcall_id: 4 }];
    const x = start(rows);
    x.sql.db.prepare("update vessel set name = ? where name = 'A'").run(name);
    await shiplist(c, x, rows, "FIHEL", hours[0], hours[1], name);
    return name;
  }, { bound: 0 });

  // ---- ships whose arrival is asked about ----
  await ctx.explore("arriving ships", async (c) => {
    const rows = [];
    for (let i = 0; i < 3; i++) {
      const r = { ...base, event_source: c.deviate("source", ["Portnet", "Awake.AI"]), event_type: c.deviate("type", ["ETA", "ETD"]), event_time: at(c.deviate("time", [3, 5, -1, 83, 85, 0.2, 0.3])), record_time: at([-0.5, -1, -2][c.deviate("record", [i, (i + 1) % 3])]), ship_imo: c.deviate("ship", [9074729, 9812345]), portcall_id: c.deviate("call", [1, 2, 3, 5]), location_locode: c.deviate("port", ["FIHEL", "FIKOK", "FIRAU"]) };
      r.ship_mmsi = r.ship_imo === 9074729 ? 111222333 : 222333444;
      if (rows.some((o) => ["ship_imo", "event_source", "location_locode", "event_type", "event_time", "record_time", "portcall_id"].every((k) => o[k] === r[k]))) return "taken";
      rows.push(r);
    }
    const ports = c.choose("ports", [["FIHEL"], ["FIHEL", "FIKOK"]]);
    const old = c.deviate("call registered", [-1, -71, -73]);
    const arrived = c.deviate("arrived", [0, 1]);
    const x = start(rows);
    x.sql.db.prepare("update port_call set port_call_timestamp = ? where port_call_id = 1").run(at(old));
    if (arrived) x.sql.db.prepare("update port_area_details set ata = ? where port_call_id = 1").run(at(-0.1));
    const current = rows.filter((r) => !rows.some((o) => o.event_type === r.event_type && o.location_locode === r.location_locode && o.event_source === r.event_source && o.ship_mmsi === r.ship_mmsi && o.portcall_id === r.portcall_id && ms(o.record_time) > ms(r.record_time)));
    const callOk = (id) => [1, 2, 5].includes(id) && !(id === 1 && (arrived || old < -72));
    const etas = current.filter((r) => r.event_type === "ETA" && r.event_source === "Portnet" && ports.includes(r.location_locode) && ms(r.event_time) < NOW + 84 * H && callOk(r.portcall_id));
    const first = new Map();
    for (const r of etas) { const k = r.ship_imo; const o = first.get(k); if (!o || ms(r.event_time) < ms(o.event_time)) first.set(k, r); else if (r.event_time === o.event_time && r.portcall_id !== o.portcall_id) return "tie"; else if (r.event_time === o.event_time && r.location_locode !== o.location_locode) return "tie"; }
    const calls = [...first.values()].map((r) => r.portcall_id);
    const close = current.filter((r) => calls.includes(r.portcall_id) && r.event_type === "ETA" && r.event_source === "Awake.AI" && ms(r.event_time) < NOW + 15 * 60000).map((r) => r.ship_imo);
    const want = [...first.values()].filter((r) => !close.includes(r.ship_imo)).map((r) => ({ imo: r.ship_imo, locode: r.location_locode, portcall_id: r.portcall_id, eta: r.event_time }));
    const r = await x.w.settle(x.m.s.findETAShipsByLocode(ports));
    c.check(r.ok, "failed", () => `${r.error}`);
    c.equal(sorted(r.value.map((s) => ({ imo: s.imo, locode: s.locode, portcall_id: s.portcall_id, eta: new Date(s.eta).toISOString() }))), sorted(want), "ships", () => JSON.stringify(rows.map((q) => [q.event_source, q.event_type, q.event_time, q.record_time, q.ship_imo, q.portcall_id, q.location_locode])));
    return `${want.length} ${close.length}`;
  }, { bound: ctx.thorough ? 3 : 2 });

  // ---- cleaning ----
  await ctx.explore("old rows", async (c) => {
    const ages = [0, 1, 2].map((i) => c.choose(`age ${i}`, [-3, 24, 167, 169, 400]));
    const rows = ages.map((h, i) => ({ ...base, event_time: at(-h), portcall_id: i + 1 }));
    const x = start(rows);
    const pil = [0, 1].map((i) => c.choose(`pilotage ${i}`, [-3, 167, 169]));
    insert(x.sql, { pilotage: pil.map((h, i) => ({ id: i, pilotage_end_time: at(-h), schedule_updated: at(-1), schedule_source: "s", state: "FINISHED", vessel_name: "n", start_code: "a", end_code: "b" })) });
    const fault = c.choose("fault", [undefined, ...Array.from({ length: 5 }, (_, i) => i)]);
    let n = 0;
    const before = JSON.stringify([x.sql.rows("select * from port_call_timestamp order by id"), x.sql.rows("select * from pilotage order by id")]);
    let failed = false;
    x.sql.before = (conn, text) => { if (/^\s*(rollback|discard)/i.test(text)) return; if (n++ === fault) { failed = true; if (/^\s*commit/i.test(text)) { x.sql.db.exec("ROLLBACK"); x.sql.owner = undefined; } throw new Error("database error"); } };
    const r = await x.w.settle(x.m.d.handler());
    c.check(!r.hung, "hung", "");
    if (failed) {
      c.check(!r.ok, "failure-hidden", "");
      c.equal(JSON.stringify([x.sql.rows("select * from port_call_timestamp order by id"), x.sql.rows("select * from pilotage order by id")]), before, "half-cleaned");
    } else {
      c.check(r.ok, "failed", () => String(r.error));
      c.equal(x.sql.rows("select event_time from port_call_timestamp order by id").map((t) => t.event_time), rows.filter((t) => ms(t.event_time) >= NOW - 168 * H).map((t) => t.event_time), "timestamps-left");
      c.equal(x.sql.rows("select id from pilotage order by id").map((t) => t.id), pil.flatMap((h, i) => (h <= 168 ? [i] : [])), "pilotages-left");
    }
    return `${failed}`;
  }, { bound: 0 });
  ctx.assume("PostgreSQL is replaced by SQLite behind the pg driver, with timestamps as ISO text");
}
