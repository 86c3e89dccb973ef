import { app, withDbFaults } from "../lib/app.mjs";
import { DIR, KINDS, functions, schema, translate } from "../lib/fixtures/winter.mjs";
import { reusable } from "../lib/fixtures/rami.mjs";

export const meta = { parallel: true, bounds: "every history of 2 (quick) / 3 (thorough) updates of two objects of each of the ten kinds, changed, deleted or restored before the update or while it runs, with up to 1 / 2 failing answers or statements, then an update without failures; every one or two changes of the 26 objects of a full data set; every request over vessels and events within 3 / 4 deviations" };
const NOW = Date.UTC(2024, 1, 20, 10), S = 1000, H = 3600 * S, DAY = 24 * H;
const iso = (t) => new Date(t).toISOString();
const same = (v) => (v === undefined || v === null ? null : typeof v === "boolean" ? +v : typeof v === "string" && /^\d{4}-\d\d-\d\dT/.test(v) ? iso(v) : v);
const date = (v) => (v === undefined || v === null ? null : iso(v));

/** the objects of the source with their versions */
class Source {
  constructor() { this.rv = 0; this.list = Object.fromEntries(Object.keys(KINDS).map((k) => [k, new Map()])); }
  put(kind, id, fields) { this.list[kind].set(id, { id, rv: ++this.rv, change_time: iso(NOW), ...fields }); }
  del(kind, id) { this.list[kind].set(id, { id, rv: ++this.rv, deleted: true, was: this.list[kind].get(id) }); }
  live(kind) { return [...this.list[kind].values()].filter((o) => !o.deleted); }
  answer(kind, from, to) { return [...this.list[kind].values()].filter((o) => o.rv > from && o.rv <= to).map(({ was, ...o }) => o); }
}

const FULL = {
  location: { L1: { name: "Kokkola", type: "PORT", locode_list: "FIKOK,FIYLI", nationality: "FI", latitude: 63.8, longitude: 23.1, winterport: true }, L2: { name: "Quark", type: "FAIRWAY", locode_list: "", nationality: "SE", latitude: 63, longitude: 20, winterport: false }, L3: { name: "Nowhere", type: "PORT", locode_list: "FIXX", nationality: "FI", winterport: false } },
  restriction: { R1: { location_id: "L1", text_compilation: "IA 2000", start_time: iso(NOW - 9 * DAY), end_time: iso(NOW + DAY) }, R2: { location_id: "L1", text_compilation: "IA 4000", start_time: iso(NOW + DAY) } },
  vessel: { V1: { name: "Otso", callsign: "OTSO", shortcode: "OTS", imo: 8405880, mmsi: 230252000, type: "Icebreaker" }, V2: { name: "Cargo", imo: 9000002, type: "Bulk Cargo" }, V3: { name: "Barge", mmsi: 230000003 }, V4: { name: "Idle", imo: 9000004, mmsi: 230000004 } },
  source: { S1: { name: "IB Otso", nationality: "FI", type: "IB", vessel_id: "V1" } },
  activity: { A1: { icebreaker_id: "S1", vessel_id: "V2", type: "LED", reason: "ice", public_comment: "slow", start_time: iso(NOW - DAY), end_time: iso(NOW - H) }, A2: { icebreaker_id: "S1", type: "MOVE", start_time: iso(NOW - H) }, A3: { vessel_id: "V3", type: "WAIT", start_time: iso(NOW - H), end_time: iso(NOW + H) } },
  queue: { Q1: { icebreaker_id: "S1", vessel_id: "V3", start_time: iso(NOW + H), end_time: iso(NOW + 2 * H), order_num: 2 } },
  port_suspension: { P1: { start_time: iso(NOW - H), end_time: iso(NOW + DAY), prenotification: true, ports_closed: false, due_to: "strike", specifications: "all" }, P2: { start_time: iso(NOW + H), prenotification: false, ports_closed: true, due_to: "storm" } },
  port_suspension_location: { PL1: { suspension_id: "P1", location_id: "L1" }, PL2: { suspension_id: "P1", location_id: "L2" }, PL3: { suspension_id: "P2", location_id: "L1" } },
  dirway: { D1: { name: "D 1", description: "to Kokkola" }, D2: { name: "D 2", description: "single" } },
  dirwaypoint: { W3: { dirway_id: "D1", order_num: 10, name: "c", latitude: 64, longitude: 23 }, W1: { dirway_id: "D1", order_num: 1, name: "a", latitude: 63, longitude: 21 }, W2: { dirway_id: "D1", order_num: 2, name: "b", latitude: 63.5, longitude: 22 }, W4: { dirway_id: "D2", order_num: 1, name: "x", latitude: 62, longitude: 21 } },
};
const CHANGED = { location: { name: "New", locode_list: "FINEW", latitude: 60, longitude: 25, winterport: false, type: "FAIRWAY", nationality: "EE" }, restriction: { location_id: "L2", text_compilation: "none", start_time: iso(NOW), end_time: undefined }, vessel: { name: "Renamed", callsign: undefined, shortcode: "X", imo: 9999999, mmsi: 239999999, type: "Tanker" }, source: { name: "n", shortname: "s", nationality: "SE", type: "T", vessel_id: "V4" }, activity: { icebreaker_id: "S1", vessel_id: "V3", type: "TOW", reason: undefined, public_comment: "c", start_time: iso(NOW - 2 * H), end_time: iso(NOW) }, queue: { icebreaker_id: "S1", vessel_id: "V2", start_time: iso(NOW), end_time: undefined, order_num: 1 }, port_suspension: { start_time: iso(NOW), end_time: iso(NOW + H), prenotification: false, ports_closed: true, due_to: "x", specifications: undefined }, port_suspension_location: { suspension_id: "P2", location_id: "L2" }, dirway: { name: "D", description: "" }, dirwaypoint: { dirway_id: "D2", order_num: 5, name: "z", latitude: 61, longitude: 20 } };

// ---- what the API should answer ----
const idx = (l) => new Map(l.map((o) => [o.id, o]));
const byText = (l) => l.map((x) => JSON.stringify(x)).sort();
function locations(src) {
  const susp = idx(src.live("port_suspension"));
  return src.live("location").map((l) => ({
    geometry: l.longitude && l.latitude ? { type: "Point", coordinates: [l.longitude, l.latitude] } : null,
    properties: { name: l.name, type: l.type, locodeList: l.locode_list, nationality: l.nationality, winterport: l.winterport,
      restrictions: byText(src.live("restriction").filter((r) => r.location_id === l.id).map((r) => ({ startTime: date(r.start_time), endTime: date(r.end_time), textCompilation: r.text_compilation }))),
      suspensions: byText(src.live("port_suspension_location").filter((p) => p.location_id === l.id && susp.has(p.suspension_id)).map((p) => susp.get(p.suspension_id)).map((s) => ({ startTime: date(s.start_time), endTime: date(s.end_time), prenotification: s.prenotification, portsClosed: s.ports_closed, dueTo: s.due_to, specifications: s.specifications ?? null }))) } }));
}
const normLocation = (f) => ({ geometry: f.geometry, properties: { ...f.properties, restrictions: byText(f.properties.restrictions.map((r) => ({ startTime: date(r.startTime), endTime: date(r.endTime), textCompilation: r.textCompilation }))), suspensions: byText(f.properties.suspensions.map((s) => ({ startTime: date(s.startTime), endTime: date(s.endTime), prenotification: !!s.prenotification, portsClosed: !!s.portsClosed, dueTo: s.dueTo, specifications: s.specifications ?? null }))) } });
function dirways(src) {
  return src.live("dirway").map((d) => [d, src.live("dirwaypoint").filter((p) => p.dirway_id === d.id).sort((p, q) => p.order_num - q.order_num).map((p) => [p.longitude, p.latitude])]).filter(([, p]) => p.length)
    .map(([d, p]) => ({ properties: { name: d.name, description: d.description }, geometry: p.length === 1 ? { type: "Point", coordinates: p[0] } : { type: "LineString", coordinates: p } }));
}
/** events of a vessel with `sure` and `maybe`: those in progress without an end that began before the time asked for are not judged */
function vessel(src, v, from, to) {
  const all = (k) => idx([...src.list[k].values()].flatMap((o) => (o.deleted ? (o.was ? [o.was] : []) : [o]))); // references to deleted vessels are kept
  const vs = all("vessel"), sources = all("source");
  const within = (e) => { const s = Date.parse(e.start_time), f = from ?? -Infinity, t = to ?? Infinity; if (e.end_time !== undefined && e.end_time !== null) return s <= t && Date.parse(e.end_time) >= f ? "sure" : "no"; return s > t ? "no" : s >= f ? "sure" : "maybe"; };
  const ship = (x) => ({ imo: x?.imo ?? null, mmsi: x?.mmsi ?? null, name: x?.name ?? null });
  const out = { activities: { sure: [], maybe: [] }, plannedAssistances: { sure: [], maybe: [] } };
  for (const [kind, key] of [["activity", "activities"], ["queue", "plannedAssistances"]]) for (const e of src.live(kind)) {
    const w = within(e);
    if (w === "no") continue;
    const ib = vs.get(sources.get(e.icebreaker_id)?.vessel_id), helped = vs.get(e.vessel_id);
    const base = kind === "activity" ? { type: e.type, reason: e.reason ?? null, publicComment: e.public_comment ?? null, startTime: date(e.start_time), endTime: date(e.end_time) } : { queuePosition: e.order_num, startTime: date(e.start_time), endTime: date(e.end_time) };
    if (helped?.id === v.id) out[key][w].push({ ...base, ...(sources.has(e.icebreaker_id) || kind === "queue" ? { assistingVessel: ship(ib) } : {}) });
    if (ib?.id === v.id) out[key][w].push({ ...base, ...(helped ? { assistedVessel: ship(helped) } : {}) });
  }
  return { head: { name: v.name, callSign: v.callsign ?? null, shortcode: v.shortcode ?? null, mmsi: v.mmsi ?? null, imo: v.imo ?? null, type: v.type ?? null }, ...out };
}
const canonic = (o) => JSON.stringify(o, (k, v) => (v && typeof v === "object" && !Array.isArray(v) ? Object.fromEntries(Object.entries(v).sort(([p], [q]) => (p < q ? -1 : 1))) : v));
const events = (l) => l.map((e) => canonic({ ...e, startTime: date(e.startTime), endTime: date(e.endTime) })).sort();
function compareVessel(c, got, want, what) {
  c.equal({ name: got.name, callSign: got.callSign, shortcode: got.shortcode, mmsi: got.mmsi, imo: got.imo, type: got.type }, want.head, "vessel", what);
  for (const key of ["activities", "plannedAssistances"]) {
    const g = events(got[key]), sure = events(want[key].sure), maybe = events(want[key].maybe);
    for (const e of g) { const i = sure.indexOf(e), j = maybe.indexOf(e); if (i >= 0) sure.splice(i, 1); else if (j >= 0) maybe.splice(j, 1); else c.fail("event-wrong", `${what}: ${key} has ${e}, expected ${events(want[key].sure)}`); }
    if (sure.length) c.fail("event-missing", `${what}: ${key} lacks ${sure}, has ${g}`);
  }
}

export async function run(ctx) {
  const a = await app({ update: `${DIR}update-data/update-data.ts`, locations: `${DIR}get-locations/get-locations.ts`, vessels: `${DIR}get-vessels/get-vessels.ts`, dirways: `${DIR}get-dirways/get-dirways.ts` });
  const SECRET = { proxy_host: "proxy", proxy_ro_host: "proxy-ro", "ibnet.url": "https://ibnet/", "ibnet.authHeaderValue": "secret" };
  let net;
  const start = reusable(async () => {
    const x = a.start({ schema, functions, translate, now: NOW, secret: SECRET, fetch: (r) => net(r) });
    x.m = await x.m;
    return x;
  }, NOW);
  const explore = (name, body, o) => ctx.explore(name, start.within(body), o);
  const ask = async (c, x, which, event = {}) => {
    const r = await x.w.settle(x.m[which].handler(event));
    c.check(r.ok, "handler-failed", () => `${which} ${String(r.error)}`);
    const body = Buffer.from(r.value.body, "base64").toString();
    return { status: r.value.status, body: r.value.status === 200 ? JSON.parse(body) : body, timestamp: r.value.timestamp };
  };
  const table = (x, kind) => x.sql.rows(`select * from wn_${kind} order by id`).map((r) => [r.id, r.deleted ? "deleted" : KINDS[kind][1].map((f) => same(r[f])).join("|")].join(" "));
  const wanted = (src, kind, ids = src.list[kind].keys()) => [...ids].sort().map((id) => src.list[kind].get(id)).map((o) => [o.id, o.deleted ? "deleted" : KINDS[kind][1].map((f) => same(o[f])).join("|")].join(" "));
  const known = (src, kind) => wanted(src, kind).filter((t) => t); // an object deleted before it was ever seen has no row
  const check = (x, kind) => x.sql.rows("select updated_time t from updated_timestamp where updated_name = ?", `WN_${kind.toUpperCase()}_CHECK`)[0]?.t;
  const sound = (c, x, r) => { c.check(!r.hung, "hangs", ""); c.equal(x.sql.open.size, 0, "connections"); };

  // ---- the tables follow the source ----
  await explore("updates", async (c) => {
    const x = await start();
    const kind = c.choose("kind", Object.keys(KINDS)), canary = kind === "dirwaypoint" ? "location" : "dirwaypoint";
    const src = new Source(), rounds = ctx.thorough ? 3 : 2;
    let armed = true, during, fates;
    // the answers and statements of the kind itself, its canary and one more kind may fail
    const third = Object.keys(KINDS).find((k) => k !== kind && k !== canary), concerned = ["", ...[kind, canary, third].map((k) => KINDS[k][0])];
    const fate = (what, values, path) => { if (!fates.has(what)) fates.set(what, armed && concerned.includes(path) ? c.deviate(what, values) : values[0]); return fates.get(what); };
    net = async (r) => {
      const u = new URL(r.url), path = u.pathname.slice(1);
      c.equal(r.headers.get("authorization"), "Basic secret", "authorization");
      const f = fate(`GET ${path}`, ctx.thorough ? ["ok", "500", "404", "network", "cut"] : ["ok", "500", "cut"], path);
      if (f === "500" || f === "404") return new Response("no", { status: +f });
      if (f === "network") throw new TypeError("fetch failed");
      if (f === "cut") return new Response('[{"id":', { status: 200, headers: { "content-type": "application/json" } });
      if (!path) { const to = src.rv; during?.(); during = undefined; return Response.json({ fromRv: 0, toRv: to }); }
      const k = Object.keys(KINDS).find((q) => KINDS[q][0] === path);
      if (!k) return new Response("no", { status: 404 });
      return Response.json(src.answer(k, +u.searchParams.get("from"), +u.searchParams.get("to")));
    };
    withDbFaults({ deviate: (n, v) => (armed ? c.deviate(n, v) : v[0]) }, x.sql, { skip: (t, v) => /^(discard|set)/i.test(t.trim()) || !new RegExp(`\\bwn_${kind}(_check)?\\b`, "i").test(`${t} ${(v ?? []).join(" ")}`) });
    const V = [FULL[kind][Object.keys(FULL[kind])[0]], CHANGED[kind]];
    const op = (name, when) => {
      const st = src.list[kind], ids = ["E1", "E2"];
      const ops = ["none", ...ids.flatMap((id) => { const o = st.get(id); return !o ? (id === "E1" || st.has("E1") ? [`add ${id}`] : []) : o.deleted ? [`restore ${id}`, `renew ${id}`] : [`change ${id}`, `delete ${id}`]; })];
      const [what, id] = (when === "before" ? c.choose(`${name} ${when}`, ops) : c.deviate(`${name} ${when}`, ops.filter((o) => /none|E1/.test(o)))).split(" ");
      return () => { const o = st.get(id); if (what === "add" || what === "restore") src.put(kind, id, V[0]); else if (what === "renew") src.put(kind, id, V[1]); else if (what === "change") src.put(kind, id, o.name === V[1].name && JSON.stringify({ ...o, ...V[1] }) === JSON.stringify(o) ? V[0] : V[1]); else if (what === "delete") src.del(kind, id); };
    };
    src.put(kind, "E1", V[0]);
    const trace = [];
    let stored = -1;
    for (let i = 0; i <= rounds; i++) {
      if (i === rounds) armed = false;
      fates = new Map();
      if (i) op(`op ${i}`, "before")();
      const to = src.rv + 1, before = table(x, kind), checked = check(x, kind), versionBefore = x.sql.rows("select version v from wn_data_version where table_name = ?", `wn_${kind}`)[0]?.v ?? -1;
      src.put(canary, "canary", { ...FULL[canary][Object.keys(FULL[canary])[0]], name: `c${i}` });
      const snapshot = known(src, kind);
      if (i && i < rounds) during = op(`op ${i}`, "during");
      const faults = x.sql.faults.length;
      x.w.now += 5 * 60 * S;
      const began = x.w.now;
      const r = await x.w.settle(x.m.update.handler());
      during?.(); during = undefined;
      sound(c, x, r);
      const why = () => `${kind} run ${i}, ${[...fates].filter(([, v]) => v !== "ok")} ${x.sql.faults.slice(faults)}`;
      const bad = [...fates].filter(([, v]) => v !== "ok").map(([k]) => k.slice(4)), db = x.sql.faults.length > faults;
      c.check(r.ok || db || bad.includes(""), "failed", () => `${why()} ${String(r.error)}`);
      const now = table(x, kind);
      const equal = (got, want, what) => { // rows of objects that were deleted before they were seen may be missing
        const g = new Set(got), missing = want.filter((t) => !g.has(t) && !(t.endsWith(" deleted") && !before.some((b) => b.startsWith(`${t.split(" ")[0]} `)))), extra = got.filter((t) => !want.includes(t));
        c.check(!missing.length && !extra.length, what, () => `${why()}: missing ${missing}, extra ${extra}`);
      };
      const mine = bad.includes(KINDS[kind][0]);
      if (bad.includes("")) { equal(now, before, "changed-without-version"); c.check(!r.ok, "no-alarm", why); }
      else if (!db && !mine) { const late = [...src.list[kind].values()].filter((o) => o.rv > to).map((o) => o.id); equal(now, [...snapshot.filter((t) => !late.includes(t.split(" ")[0])), ...before.filter((t) => late.includes(t.split(" ")[0]))], "not-followed"); }
      else if (!db) { equal(now, before, "changed-without-answer"); c.equal(check(x, kind), checked, "checked-without-answer", why()); }
      else for (const t of now) c.check(before.includes(t) || snapshot.includes(t), "invented", () => `${why()}: ${t}`);
      if (!db && !bad.includes("")) {
        if (!mine && to > versionBefore) c.check(check(x, kind) >= iso(began), "not-checked", () => `${why()} ${check(x, kind)} < ${iso(began)}`);
        // a failing answer harms its own kind only
        if (!bad.includes(KINDS[canary][0])) c.equal(x.sql.rows(`select name from wn_${canary} where id = 'canary'`)[0]?.name, `c${i}`, "others", why());
      }
      if (checked) c.check(check(x, kind) >= checked, "check-back", why);
      trace.push(now.join(";"), r.ok);
    }
    return trace;
  }, { bound: ctx.thorough ? 2 : 1, replayEvery: 1999 });

  // ---- what is published is what the source has ----
  const plain = (src) => async (r) => { const u = new URL(r.url), path = u.pathname.slice(1), k = Object.keys(KINDS).find((q) => KINDS[q][0] === path); return Response.json(path ? src.answer(k, +u.searchParams.get("from"), +u.searchParams.get("to")) : { toRv: src.rv }); };
  const full = () => { const src = new Source(); for (const [k, l] of Object.entries(FULL)) for (const [id, o] of Object.entries(l)) src.put(k, id, o); return src; };
  const published = async (c, x, src, what) => {
    const l = await ask(c, x, "locations"), want = locations(src);
    c.equal(l.status, 200, "status");
    c.equal(byText(l.body.features.map(normLocation)), byText(want), "locations", what);
    for (const code of ["FIKOK", "FIYLI", "FINEW", "FIK", "FIKOK,FIYLI"]) {
      const one = await ask(c, x, "locations", { locode: code }), w = want.filter((q) => q.properties.locodeList.split(",").includes(code));
      if (w.length > 1) continue;
      c.equal(one.status, w.length ? 200 : 404, "location-status", `${code} ${what}`);
      if (w.length) c.equal(normLocation(one.body), w[0], "location", `${code} ${what}`);
    }
    const d = await ask(c, x, "dirways");
    c.equal(byText(d.body.features.map(({ properties, geometry }) => ({ properties, geometry }))), byText(dirways(src)), "dirways", what);
    const from = x.w.now - 7 * DAY;
    const v = await ask(c, x, "vessels"), wants = src.live("vessel").map((o) => [o, vessel(src, o, from)]);
    for (const [o, w] of wants) {
      const got = v.body.vessels.filter((q) => q.name === o.name && (q.imo ?? 0) === (o.imo ?? 0) && (q.mmsi ?? 0) === (o.mmsi ?? 0));
      const sure = w.activities.sure.length + w.plannedAssistances.sure.length, maybe = w.activities.maybe.length + w.plannedAssistances.maybe.length;
      c.check(got.length === 1 || (!sure && got.length === 0), "vessel-missing", () => `${o.name} ${got.length} ${what}`);
      c.check(sure || maybe || !got.length, "idle-vessel", () => `${o.name} ${what}`);
      if (got.length) compareVessel(c, got[0], w, `${o.name} ${what}`);
      for (const id of [o.imo, o.mmsi].filter(Boolean)) {
        const one = await ask(c, x, "vessels", { vesselId: String(id), activeFrom: "", activeTo: "" });
        c.equal(one.status, 200, "vessel-status", `${o.name} ${what}`);
        compareVessel(c, one.body, vessel(src, o), `${o.name} alone ${what}`);
      }
    }
    c.check(v.body.vessels.length <= wants.length, "unknown-vessel", () => `${what} ${v.body.vessels.map((q) => q.name)}`);
    for (const o of src.list.vessel.values()) if (o.deleted && o.was?.imo) c.equal((await ask(c, x, "vessels", { vesselId: String(o.was.imo) })).status, 404, "deleted-vessel", what);
    return l.body.features.length + "," + v.body.vessels.length + "," + d.body.features.length;
  };
  const store = (x, src) => { for (const k of Object.keys(KINDS)) for (const o of src.list[k].values()) { const f = o.deleted ? { ...o.was, deleted: 1 } : { ...o, deleted: 0 }; const names = ["id", ...KINDS[k][1], "deleted"]; x.sql.db.prepare(`insert into wn_${k} (${names}) values (${names.map(() => "?")})`).run(...names.map((n) => same(f[n]))); } };
  const objects = Object.entries(FULL).flatMap(([k, l]) => Object.keys(l).map((id) => `${k} ${id}`));
  await explore("published", async (c) => {
    const x = await start();
    const src = full();
    net = plain(src);
    x.w.now += 5 * 60 * S;
    const first = c.choose("first object", objects), how = c.choose("how", ["delete", "change", "re-add"]);
    const second = c.choose("second object", ["none", ...(ctx.thorough ? objects : ["vessel V1", "vessel V2", "source S1", "activity A1", "location L1", "dirwaypoint W1", "port_suspension P1"])]);
    const how2 = second === "none" ? "delete" : c.choose("how 2", ctx.thorough ? ["delete", "change"] : ["delete"]);
    const update = async () => { x.w.now += 5 * 60 * S; const r = await x.w.settle(x.m.update.handler()); sound(c, x, r); c.check(r.ok, "failed", () => String(r.error)); };
    await update();
    const act = (o, h) => { const [k, id] = o.split(" "); if (h === "delete") { if (!src.list[k].get(id).deleted) src.del(k, id); } else src.put(k, id, k === "vessel" ? { ...CHANGED[k], name: `New ${id}`, imo: CHANGED[k].imo - +id[1], mmsi: CHANGED[k].mmsi - +id[1] } : CHANGED[k]); };
    if (how === "re-add") { act(first, "delete"); await update(); const [k, id] = first.split(" "); src.put(k, id, FULL[k][id]); } else act(first, how);
    const between = second !== "none" && c.choose("update between", [false, true]);
    if (between) await update();
    if (!between && first === second && how2 === "delete") return c.prune(); // what a deleted object was called is unknown, if it was never seen
    if (second !== "none") act(second, how2);
    await update();
    return [how, how2, await published(c, x, src, `${first} ${how}, ${second} ${how2}`)];
  }, { replayEvery: 997 });

  // ---- vessels and their events ----
  await explore("vessels", async (c) => {
    const x = await start();
    const src = new Source();
    const NONE = [{}, { imo: undefined }, { mmsi: undefined }, { imo: undefined, mmsi: undefined }];
    const [mine, its] = c.deviate("numbers", NONE.flatMap((p) => NONE.map((q) => [p, q])));
    const num = (n, o) => ({ imo: n, mmsi: n + 100000000, ...o });
    src.put("vessel", "V1", { name: "Breaker", type: "Icebreaker", ...num(1000001, mine) });
    src.put("vessel", "V2", { name: "Helped", ...num(1000002, its) });
    src.put("vessel", "V3", { name: "Other", imo: 1000003 });
    src.put("source", "S1", { name: "IB", nationality: "FI", type: "IB", vessel_id: "V1" });
    src.put("source", "S2", { name: "MRCC", nationality: "FI", type: "MRCC" });
    const kind = c.choose("kind", ["activity", "queue"]);
    const parties = c.choose("parties", [["S1", "V2"], ["S2", "V2"], ["S1", "V3"], ...(kind === "activity" ? [["S1", undefined], [undefined, "V2"]] : [])]);
    const now = x.w.now;
    const begin = c.choose("start", [-10 * DAY, -2 * H, ...(ctx.thorough ? [0] : []), 3 * H]), end = c.choose("end", [undefined, ...(ctx.thorough ? [0] : []), 2 * H]);
    const e = { icebreaker_id: parties[0], vessel_id: parties[1], start_time: iso(now + begin), ...(end === undefined ? {} : { end_time: iso(now + begin + end) }) };
    src.put(kind, "X1", kind === "activity" ? { ...e, type: "LED", reason: c.deviate("reason", ["ice", undefined]), public_comment: c.deviate("comment", ["slow", undefined]) } : { ...e, order_num: c.deviate("position", [3, 0]) });
    const other = c.deviate("second event", ["none", "activity", "queue"]);
    if (other !== "none") src.put(other, "X2", { icebreaker_id: "S1", vessel_id: "V3", start_time: iso(now - H), end_time: iso(now + H), ...(other === "queue" ? { order_num: 9 } : { type: "TOW" }) });
    const gone = c.deviate("deleted", ["none", `${kind} X1`, "vessel V2", "vessel V1", "replaced V2"]);
    if (gone === "replaced V2") { const { id, rv, ...o } = src.list.vessel.get("V2"); src.del("vessel", "V2"); src.put("vessel", "V9", { ...o, name: "Replacement" }); } else if (gone !== "none") src.del(...gone.split(" "));
    store(x, src);
    const points = [undefined, now + begin, now + begin + 1, now + begin - 1, ...(end ? [now + begin + end, now + begin + end + 1, now + begin + end - 1] : [])];
    const from = points[c.choose("from", points.map((_, i) => i))], to = points[c.deviate("to", points.map((_, i) => i))];
    const event = { activeFrom: from === undefined ? "" : iso(from), activeTo: to === undefined ? "" : iso(to) };
    const what = JSON.stringify([e, event, gone]);
    const v = await ask(c, x, "vessels", event);
    c.equal(v.status, 200, "status", what);
    const deflt = from ?? x.w.now - 7 * DAY;
    const names = [];
    for (const o of src.live("vessel")) {
      const w = vessel(src, o, deflt, to), got = v.body.vessels.filter((q) => q.name === o.name), sure = w.activities.sure.length + w.plannedAssistances.sure.length, maybe = w.activities.maybe.length + w.plannedAssistances.maybe.length;
      c.check(got.length <= 1 && (got.length || !sure), "vessel-missing", () => `${o.name} ${what}`);
      c.check(!got.length || sure || maybe, "idle-vessel", () => `${o.name} ${what}`);
      if (got.length) { compareVessel(c, got[0], w, `${o.name} ${what}`); names.push(o.name); }
      for (const id of [o.imo, o.mmsi].filter(Boolean)) {
        const one = await ask(c, x, "vessels", { vesselId: String(id), ...event });
        c.equal(one.status, 200, "vessel-status", `${o.name} ${what}`);
        compareVessel(c, one.body, vessel(src, o, from, to), `${o.name} alone ${what}`);
      }
    }
    c.equal(v.body.vessels.length, names.length, "unknown-vessel", what);
    return [names.join(), canonic(v.body.vessels.map((q) => [q.activities.map((p) => Object.keys(p)), q.plannedAssistances.map((p) => Object.keys(p))]))];
  }, { bound: ctx.thorough ? 2 : 1, replayEvery: 997 });

  // ---- parameters and failing statements of the API ----
  await explore("requests", async (c) => {
    const x = await start();
    const src = full();
    net = plain(src);
    const r = await x.w.settle(x.m.update.handler());
    c.check(r.ok, "failed", () => String(r.error));
    const updated = x.w.now;
    x.w.now += H;
    withDbFaults(c, x.sql, { skip: (t) => /^(discard|set)/i.test(t.trim()) });
    const which = c.choose("api", ["vessels", "locations", "dirways"]);
    const event = {};
    let bad = false;
    if (which === "vessels") {
      const id = c.choose("vessel", [undefined, "", "8405880", "230252000", "1", "abc", "8405880x"]);
      const f = c.choose("from", [undefined, "", iso(NOW - DAY), "yesterday"]), t = c.choose("to", [undefined, iso(NOW + DAY), "x"]);
      if (id !== undefined) event.vesselId = id;
      if (f !== undefined) event.activeFrom = f;
      if (t !== undefined) event.activeTo = t;
      bad = /[a-z]/.test(id ?? "") || f === "yesterday" || t === "x";
      event.__want = id === "1" ? 404 : 200;
    } else if (which === "locations") { const l = c.choose("locode", [undefined, "FIKOK", "FIXXX", "' or 1=1"]); if (l !== undefined) event.locode = l; event.__want = l === undefined || l === "FIKOK" ? 200 : 404; } else event.__want = 200;
    if (which !== "dirways" && c.choose("unknown parameter", [false, true])) { event.other = "1"; bad = true; }
    const { __want, ...e } = event;
    const got = await ask(c, x, which, e);
    c.equal(x.sql.open.size, 0, "connections");
    c.equal(got.status, bad ? 400 : x.sql.faults.length ? 500 : __want, "status", JSON.stringify([which, e, x.sql.faults]));
    if (got.status === 200) {
      const stamp = got.body.lastUpdated ?? got.body.properties?.lastUpdated;
      c.equal(stamp && iso(stamp), iso(updated), "last-updated", which);
    } else c.check(!/fault|database error|select/i.test(String(got.body)), "leak", () => String(got.body));
    return [which, got.status];
  }, { bound: 1, replayEvery: 499 });
}
