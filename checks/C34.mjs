import { app, withDbFaults } from "../lib/app.mjs";
import { schema, functions, translate, csv } from "../lib/fixtures/countingsite.mjs";
import { insert } from "../lib/fixtures/portactivity.mjs";
import * as kysely from "../lib/kysely.mjs";

export const meta = { parallel: true, bounds: "every history of 3 (quick) / 4 (thorough) data updates, the last one without failures, of two sites over 7 starting points, 4 kinds of counts and two pauses, with one (two) failures of an API answer or a database statement; every history of 2 (3) site lists of two sites in 4 states with one failure; every request within 2 (3) deviations of a plain one" };
const H = 3600000, D = 24 * H, MIN = 60000;
const iso = (t) => (t === null || t === undefined ? null : new Date(t).toISOString());
const offset = (t) => { const p = Object.fromEntries(new Intl.DateTimeFormat("en-GB", { timeZone: "Europe/Helsinki", year: "numeric", month: "2-digit", day: "2-digit", hour: "2-digit", minute: "2-digit", second: "2-digit", hourCycle: "h23" }).formatToParts(t).map((x) => [x.type, +x.value])); return Date.UTC(p.year, p.month - 1, p.day, p.hour, p.minute, p.second) - Math.floor(t / 1000) * 1000; };
const local = (t) => new Date(t + offset(t)).toISOString().slice(0, 16); // YYYY-MM-DDTHH:MM in Helsinki
const fromLocal = (x) => { const u = Date.parse(`${x}:00Z`); const l = [2, 3].map((h) => u - h * H).filter((t) => local(t) === x); return l.length ? l[0] : NaN; };

export async function run(ctx) {
  const L = "road/counting-site/src/lambda/";
  const a = await app({ data: `${L}update-data/update-data.ts`, meta: `${L}update-metadata/update-metadata.ts`, sites: `${L}get-sites/get-sites.ts`, values: `${L}get-values/get-values.ts`, csv: `${L}get-values-csv/get-values-csv.ts` }, { stubs: ["kysely", "@std/csv"] });
  const start = (now, rows, answer) => {
    const requests = [];
    const fetch = async (r) => { const u = new URL(r.url); const q = { method: r.method, path: u.origin + u.pathname, query: Object.fromEntries(u.searchParams), key: r.headers.get("x-api-key") }; requests.push(q); return answer ? answer(q) : new Response("", { status: 404 }); };
    const x = a.start({ schema, functions, translate, now, env: { DOMAIN_NAME: "Fintraffic" }, secret: { proxy_host: "proxy", proxy_ro_host: "proxy-ro", "cs.url": "https://eco", "cs.apiKey": "key" }, fetch, stubs: { kysely, "@std/csv": csv } });
    insert(x.sql, rows);
    return { ...x, requests };
  };
  const site = (id, o = {}) => ({ id, name: `S${id}`, domain: "Fintraffic", description: "d", custom_id: `c${id}`, latitude: 60 + id, longitude: 25 - id, granularity: "PT1H", directional: 1, travel_modes: '["bike"]', removed_timestamp: null, last_data_timestamp: null, modified: iso(Date.UTC(2024, 0, 1)), ...o });
  const broken = { ok: undefined, s500: () => new Response("x", { status: 500 }), s404: () => new Response("x", { status: 404 }), cut: () => new Response('[{"trav', { status: 200, headers: { "content-type": "application/json" } }) };

  // ---- data: every count exactly once ----
  const bound = ctx.thorough ? 2 : 1;
  await ctx.explore("data", async (c) => {
    let now = c.deviate("now", [Date.UTC(2024, 0, 15, 12, 30), Date.UTC(2024, 3, 2, 12, 30), Date.UTC(2024, 9, 29, 12, 30), Date.UTC(2024, 2, 1, 22, 30)]);
    const firstOf = () => Math.floor((now - 10 * D) / D) * D;
    const first0 = firstOf();
    const STARTS = { new: null, behind: now - 8 * D - 3 * H, week: now - 7 * D, days: now - 3 * D, boundary: now - D, fresh: now - 5 * H, removed: now - 4 * D };
    const kinds = ["steady", "quiet", "edges", "late"];
    const from = c.choose("start 1", Object.keys(STARTS));
    const plan = [{ id: 1, from, kind: ["boundary", "fresh", "removed"].includes(from) ? "steady" : c.choose("counts 1", kinds) }, { id: 2, ...c.choose("site 2", [{ from: "days", kind: "steady" }, { from: "new", kind: "quiet" }]) }];
    const truth = plan.flatMap(({ id, from, kind }) => {
      const begin = STARTS[from] ?? first0;
      const times = kind === "steady" ? Array.from({ length: 26 }, (_, i) => begin + i * 12 * H)
        : kind === "edges" ? [begin, begin + MIN, begin + D - MIN, begin + D, begin + D + MIN, begin + 2 * D, begin + 2 * D + 2 * MIN]
        : kind === "late" ? [begin, begin + 36 * H, begin + 9 * D] : [];
      return times.flatMap((t, i) => [["bike", "in"], ["pedestrian", "out"]].slice(0, 1 + (i % 2)).map(([travelMode, direction], j) => ({ id, t, travelMode, direction, granularity: i % 3 ? "PT1H" : "PT15M", counts: i % 4 === 1 ? j : 100 * i + j })));
    });
    let armed = true, bad = new Map();
    const x = start(now, { cs2_site: plan.map(({ id, from }) => site(id, { last_data_timestamp: iso(STARTS[from]), removed_timestamp: from === "removed" ? iso(now - 2 * D) : null })), data_updated: [{ id: 900, data_type: "VS_DATEX2", updated: iso(now - D) }] }, (q) => {
      const id = +q.query.siteId;
      if (!bad.has(id)) bad.set(id, armed ? c.deviate("answer", Object.keys(broken)) : "ok");
      if (bad.get(id) !== "ok") return broken[bad.get(id)]();
      const lo = fromLocal(`${q.query.startDate}T${q.query.startTime}`), hi = fromLocal(`${q.query.endDate}T${q.query.endTime}`);
      const by = Map.groupBy(truth.filter((p) => p.id === id && p.t >= lo && p.t <= hi && p.t <= now), (p) => `${p.travelMode} ${p.direction}`);
      const series = [...by.values()].map((l) => ({ travelMode: l[0].travelMode, direction: l[0].direction, data: l.map((p) => ({ timestamp: `${local(p.t)}:00+0${offset(p.t) / H}00`, granularity: p.granularity, counts: p.counts })) }));
      return Response.json(series.length || id === 1 ? series : [{ travelMode: "bike", direction: "in", data: [] }]);
    });
    withDbFaults({ deviate: (n, v) => (armed ? c.deviate(n, v) : v[0]) }, x.sql);
    const known = new Map(plan.map(({ id, from }) => [id, STARTS[from]]));
    const begun = new Map(plan.map(({ id, from }) => [id, STARTS[from]]));
    const rowsOf = (id, last) => truth.filter((p) => p.id === id && last !== null && p.t > begun.get(id) && p.t <= last).map((p) => `${id} ${p.travelMode} ${p.direction} ${iso(p.t)} ${p.granularity} ${p.counts}`).sort();
    const stored = (id) => x.sql.rows(`select * from cs2_data where site_id = ${id}`).map((r) => `${r.site_id} ${r.travel_mode} ${r.direction} ${iso(r.data_timestamp)} ${r.granularity} ${r.counts}`).sort();
    const rounds = ctx.thorough ? 3 : 2;
    let trace = "";
    for (let i = 0; i <= rounds; i++) {
      if (i === rounds) armed = false;
      if (i) now = x.w.now = now + (i === rounds ? H : c.choose("pause", [H, 25 * H]));
      bad = new Map();
      const fb = x.sql.faults.length, rb = x.requests.length;
      const r = await x.w.settle(x.m.data.handler());
      c.check(r.ok, "handler-failed", () => String(r.error));
      const dbFaults = x.sql.faults.slice(fb);
      
      const failedRead = dbFaults.some((t) => /^(select|discard|set)/.test(t));
      const left = [], first = firstOf();
      for (const { id } of plan) if (known.get(id) === null) begun.set(id, first);
      const why = () => `run ${i + 1} at ${iso(now)}, failed: ${[...bad].filter(([, v]) => v !== "ok")} ${dbFaults}; ${JSON.stringify(plan)}; ${x.w.stdout.filter((l) => /error/i.test(l)).slice(-2)}`;
      for (const { id, from } of plan) {
        const last = known.get(id);
        const due = from !== "removed" && (last === null || last < now - D);
        const lo = last ?? first;
        const found = truth.filter((p) => p.id === id && p.t > lo && p.t <= lo + D && p.t <= now);
        const want = !due ? last : found.length ? Math.max(...found.map((p) => p.t)) : last !== null && last < now - 7 * D ? last + D : last;
        const row = x.sql.rows(`select last_data_timestamp as l, removed_timestamp as r from cs2_site where id = ${id}`)[0];
        const got = row.l === null ? null : Date.parse(row.l);
        c.equal(row.r === null, from !== "removed", "removal-touched", why);
        const mine = x.requests.slice(rb).filter((q) => +q.query.siteId === id);
        if (!failedRead) {
          c.equal(mine.length > 0, due, "asked", why);
          for (const q of mine) {
            c.equal([q.method, q.path, q.key, Object.keys(q.query).sort().join()], ["GET", "https://eco/api/v2/history/traffic/raw", "key", "endDate,endTime,siteId,startDate,startTime"], "request", why);
            c.equal([q.query.startDate, q.query.startTime, q.query.endDate, q.query.endTime], [...local(lo + MIN).split("T"), ...local(lo + D).split("T")], "window", why);
          }
          if (mine.length > 1 && (bad.get(id) ?? "ok") === "ok") c.fail("asked-twice", why());
        }
        const apiBad = (bad.get(id) ?? "ok") !== "ok";
        if (apiBad) c.equal(iso(got), iso(last), "advanced-without-data", why);
        else if (!dbFaults.length) c.equal(iso(got), iso(want), "progress", why);
        else { c.check(got === want || got === last, "half-progress", () => `site ${id}: ${iso(got)} after ${iso(last)}; ${why()}`); if (got !== want) left.push(id); }
        known.set(id, got);
        // whatever happened: each count up to the site's timestamp is stored once, none beyond it
        c.equal(stored(id), rowsOf(id, got), "counts", why);
      }
      c.check(failedRead || left.length <= dbFaults.length, "held-back", () => `sites ${left}: ${why()}`);
      const u = x.sql.rows("select * from data_updated where data_type = 'COUNTING_SITES_DATA'");
      if (!dbFaults.length && [...bad.values()].every((v) => v === "ok")) c.equal(u.map((q) => [q.subtype, q.updated]), [["-", iso(now)]], "updated", why);
      c.equal(x.sql.rows("select updated from data_updated where data_type = 'VS_DATEX2'")[0].updated, iso(Math.floor(STARTS.boundary)), "other-updated");
      c.equal(x.sql.open.size, 0, "connection-left", why);
      trace += `${[...known.values()].map((v) => (v === null ? "-" : Math.round((now - v) / D))).join()};`;
    }
    return trace;
  }, { bound });

  // ---- metadata: the site list ----
  const NOW = Date.UTC(2024, 5, 15, 12, 0, 0);
  const apiSite = (id, o = {}) => ({ id, name: `S${id}`, description: "d", customId: `c${id}`, location: { lat: 60 + id, lon: 25 - id }, granularity: "PT1H", travelModes: ["bike"], directional: true, ...o });
  const rowOf = (s) => ({ id: s.id, name: s.name, domain: "Fintraffic", description: s.description, custom_id: s.customId, latitude: s.location.lat, longitude: s.location.lon, granularity: s.granularity ?? null, directional: s.directional ? 1 : 0, travel_modes: JSON.stringify(s.travelModes) });
  const COLS = "id, name, domain, description, custom_id, latitude, longitude, granularity, directional, travel_modes, removed_timestamp, last_data_timestamp";
  const all = (x) => x.sql.rows(`select ${COLS} from cs2_site order by id`);
  const VERSION = { gone: undefined, plain: {}, moved: { name: "N'$1", description: "x", customId: "y", location: { lat: 1.5, lon: 2.5 }, granularity: undefined, travelModes: ["bike", "car"], directional: false } };
  await ctx.explore("site list", async (c) => {
    let armed = true, answer = "ok", list = [], now = NOW;
    const other = { ...site(9, { domain: "Other", name: "other" }) };
    const foreign = Object.fromEntries(COLS.split(", ").map((k) => [k, other[k]]));
    const model = new Map();
    for (const id of [1, 2]) {
      const s = c.choose(`known ${id}`, id === 1 ? ["no", "yes", "removed"] : ctx.thorough ? ["no", "yes"] : ["yes"]);
      if (s !== "no") model.set(id, { ...rowOf(apiSite(id)), removed_timestamp: s === "removed" ? iso(NOW - 5 * D) : null, last_data_timestamp: iso(NOW - D) });
    }
    const x = start(NOW, { cs2_site: [...[...model.values()], other] }, () => (answer === "ok" ? Response.json(list) : broken[answer]()));
    withDbFaults({ deviate: (n, v) => (armed ? c.deviate(n, v) : v[0]) }, x.sql);
    let checked;
    const rounds = ctx.thorough ? 3 : 2;
    for (let i = 0; i <= rounds; i++) {
      now = x.w.now = NOW + i * H;
      if (i === rounds) armed = false;
      else {
        list = [1, 2].flatMap((id) => { const v = c.choose(`site ${id}`, id === 1 ? Object.keys(VERSION) : ["gone", "plain"]); return VERSION[v] ? [apiSite(id, VERSION[v])] : []; });
        answer = c.deviate("answer", Object.keys(broken));
      }
      if (i === rounds) answer = "ok";
      const fb = x.sql.faults.length, rb = x.requests.length;
      const r = await x.w.settle(x.m.meta.handler());
      c.check(r.ok, "handler-failed", () => String(r.error));
      const dbFaults = x.sql.faults.slice(fb);
      const why = () => `run ${i + 1} with ${list.map((s) => `${s.id}:${s.name}`)}, answer ${answer}, failed ${dbFaults}; ${x.w.stdout.filter((l) => /error/i.test(l)).slice(-2)}`;
      const next = new Map();
      const t = x.w.now - now; // retries took time
      for (const [id, row] of model) if (!list.some((s) => s.id === id)) next.set(id, { ...row, removed_timestamp: row.removed_timestamp ?? iso(now + t) });
      for (const s of list) next.set(s.id, { ...rowOf(s), removed_timestamp: null, last_data_timestamp: model.get(s.id)?.last_data_timestamp ?? null });
      const plain = (m) => JSON.stringify([...m.values(), foreign].sort((p, q) => p.id - q.id).map((row) => COLS.split(", ").map((k) => row[k])));
      const got = JSON.stringify(all(x).map((row) => COLS.split(", ").map((k) => row[k])));
      const u = x.sql.rows("select updated from data_updated where data_type = 'COUNTING_SITES_METADATA_CHECK'")[0]?.updated;
      if (answer !== "ok") { c.equal(got, plain(model), "changed-by-failure", why); c.equal(u, checked, "checked-by-failure", why); }
      else if (!dbFaults.length) { c.equal(got, plain(next), "site-list", why); c.equal(u, iso(now), "check-time", why); }
      else {
        c.check(got === plain(model) || got === plain(next), "half-updated", () => `${got}: ${why()}`);
        c.equal(u, got === plain(model) && got !== plain(next) ? checked : u, "checked-by-failure", why);
      }
      checked = u;
      if (got === plain(next) && (answer === "ok")) { model.clear(); for (const [k, v] of next) model.set(k, v); }
      c.equal(x.requests[rb]?.path + JSON.stringify(x.requests[rb]?.query) + x.requests[rb]?.key, 'https://eco/api/v2/sites{"include":"domain"}key', "request", why);
      c.equal(x.sql.open.size, 0, "connection-left", why);
    }
    return `${[...model.values()].map((s) => `${s.name}${s.removed_timestamp ? "x" : ""}`)}`;
  }, { bound });

  // ---- requests ----
  const q = ctx.thorough ? 3 : 2;
  const body = (r) => Buffer.from(r.body, "base64").toString();
  const SITES = [site(1, { name: 'A "q", x', travel_modes: '["bike","car"]', last_data_timestamp: "2024-06-01T01:02:03.456Z", modified: "2024-06-02T00:00:00.500Z" }), site(2, { domain: "Other", directional: 0, granularity: null, description: null, removed_timestamp: "2024-05-01T00:00:00.000Z", modified: "2024-06-03T00:00:00.000Z" }), site(3, { travel_modes: "[]" })];
  await ctx.explore("sites request", async (c) => {
    const stored = c.deviate("stored", [[1, 2, 3], [], [2]]).map((id) => SITES[id - 1]);
    const e = { ...c.deviate("site", [{}, { siteId: "1" }, { siteId: "2" }, { siteId: "7" }, { siteId: "x" }]), ...c.deviate("domain", [{}, { domain: "Fintraffic" }, { domain: "Other" }, { domain: "o' or 1=1" }]), ...c.deviate("extra", [{}, { other: "1" }]) };
    const x = start(NOW, { cs2_site: stored });
    withDbFaults(c, x.sql);
    const r = await x.w.settle(x.m.sites.handler(e));
    c.check(r.ok, "rejected", () => String(r.error));
    const v = r.value;
    c.equal(x.sql.open.size, 0, "connection-left");
    if (e.other || e.siteId === "x") { c.equal(v.status, 400, "bad-request", () => JSON.stringify(e)); c.equal(x.sql.log.length, 0, "queried"); return "400"; }
    if (x.sql.faults.length) { c.check(v.status === 500 || v.status === 200, "status"); c.check(v.status === 500 || x.sql.faults.every((t) => !t.startsWith("select")), "answered-without-data"); if (v.status === 500) { c.check(!/sql|select|database error/i.test(body(v)), "leaks-error"); return "500"; } }
    const rows = stored.filter((s) => (!e.siteId || s.id === +e.siteId) && (!e.domain || s.domain === e.domain));
    if (e.siteId && !rows.length) { c.equal(v.status, 404, "not-found", () => JSON.stringify(e)); return "404"; }
    c.equal(v.status, 200, "status", () => JSON.stringify(e));
    const sec = (s) => (s === null ? null : s.replace(/\.\d+Z/, "Z"));
    const newest = rows.map((s) => s.modified).sort().at(-1) ?? iso(0);
    const want = { type: "FeatureCollection", dataUpdatedTime: sec(newest), features: rows.map((s) => ({ type: "Feature", geometry: { type: "Point", coordinates: [s.longitude, s.latitude] }, properties: { id: s.id, name: s.name, domain: s.domain, description: s.description, customId: s.custom_id, granularity: s.granularity, directional: !!s.directional, travelModes: JSON.parse(s.travel_modes), lastDataTimestamp: sec(s.last_data_timestamp), removedTimestamp: sec(s.removed_timestamp), dataUpdatedTime: sec(s.modified) } })) };
    const sorted = (m) => JSON.stringify(m, (k, w) => (w && typeof w === "object" && !Array.isArray(w) ? Object.fromEntries(Object.entries(w).sort()) : w));
    c.equal(sorted(JSON.parse(body(v))), sorted(want), "sites", () => JSON.stringify(e));
    c.equal(v.timestamp, new Date(sec(newest)).toUTCString(), "last-modified");
    return `${rows.length}`;
  }, { bound: q });

  // counts around every edge of a day, a month and a year
  const edges = ["2023-12-31T23:59:59.999Z", "2024-01-01T00:00:00.000Z", "2024-02-28T23:59:59.999Z", "2024-02-29T00:00:00.000Z", "2024-02-29T23:45:00.000Z", "2024-03-01T00:00:00.000Z", "2024-06-13T23:45:00.000Z", "2024-06-14T00:00:00.000Z", "2024-06-14T23:45:00.000Z", "2024-06-15T00:00:00.000Z", "2024-12-31T23:45:00.000Z", "2025-01-01T00:00:00.000Z"];
  const COUNTS = edges.flatMap((t, i) => [[2, "bike", "out"], [2, "bike", "in"], [1, "pedestrian", "in"], [1, "bike", "in"], [8, "car", "in"]].map(([site_id, travel_mode, direction], j) => ({ site_id, travel_mode, direction, data_timestamp: t, granularity: (i + j) % 2 ? "PT15M" : "PT1H", counts: 10 * i + j, modified: iso(NOW - (i * 7 + j) % 5 * H) }))).reverse();
  const cmp = (...k) => (p, r) => { for (const x of k) if (p[x] !== r[x]) return p[x] < r[x] ? -1 : 1; return 0; };
  const requests = (kind, event, select, expect) => ctx.explore(kind, async (c) => {
    const rows = c.deviate("stored", [COUNTS, []]);
    const now = c.deviate("now", [NOW, Date.UTC(2024, 5, 15), Date.UTC(2024, 2, 1, 23, 59), Date.UTC(2024, 0, 1, 0, 30)]);
    const { e, bad } = event(c);
    const x = start(now, { cs2_site: SITES.slice(0, 2), cs2_data: rows });
    withDbFaults(c, x.sql);
    const r = await x.w.settle(x.m[kind].handler(e));
    c.check(r.ok, "rejected", () => String(r.error));
    const v = r.value, why = () => `${JSON.stringify(e)} at ${iso(now)}: ${v.status} ${body(v).slice(0, 400)}`;
    c.equal(x.sql.open.size, 0, "connection-left", why);
    if (bad) { c.equal(v.status, 400, "bad-request", why); c.equal(x.sql.log.length, 0, "queried"); return "400"; }
    if (x.sql.faults.length) { c.check(v.status === 500 || x.sql.faults.every((t) => !t.startsWith("select")), "answered-without-data", why); if (v.status === 500) { c.check(!/select|database error/i.test(body(v)), "leaks-error"); return "500"; } }
    c.equal(v.status, 200, "status", why);
    const found = rows.filter((p) => select(e, now, p));
    expect(c, e, v, found, why);
    c.equal(v.timestamp, new Date(found.map((p) => p.modified).sort().at(-1) ?? now).toUTCString(), "last-modified", why);
    return `${found.length}`;
  }, { bound: q });
  const MODES = [{}, { travelMode: "bike" }, { travelMode: "pedestrian" }, { travelMode: "tractor" }];
  await requests("values", (c) => {
    const e = { ...c.deviate("date", [{}, { date: "2024-02-29" }, { date: "2024-06-14" }, { date: "2024-12-31" }, { date: "2024-02-30" }, { date: "x" }, { date: "2024-06-14T00:00:00Z" }]), ...c.deviate("site", [{}, { siteId: "1" }, { siteId: "7" }, { siteId: "x" }]), ...c.deviate("mode", MODES), ...c.deviate("extra", [{}, { other: "1" }]) };
    return { e, bad: e.other || e.siteId === "x" || e.travelMode === "tractor" || (e.date && !["2024-02-29", "2024-06-14", "2024-12-31"].includes(e.date)) };
  }, (e, now, p) => p.data_timestamp.slice(0, 10) === (e.date ?? iso(now - D).slice(0, 10)) && (!e.siteId || p.site_id === +e.siteId) && (!e.travelMode || p.travel_mode === e.travelMode),
  (c, e, v, found, why) => c.equal(JSON.parse(body(v)), found.sort(cmp("site_id", "travel_mode", "direction", "data_timestamp")).map((p) => ({ siteId: p.site_id, travelMode: p.travel_mode, direction: p.direction, dataTimestamp: p.data_timestamp, granularity: p.granularity, count: p.counts })), "values", why));
  await requests("csv", (c) => {
    const e = { ...c.deviate("year", [{ year: "2024" }, { year: "2023" }, { year: "2025" }, { year: "x" }, {}]), ...c.deviate("month", [{ month: "2" }, { month: "1" }, { month: "6" }, { month: "12" }, { month: "0" }, { month: "13" }, {}]), ...c.deviate("site", [{ siteId: "2" }, { siteId: "1" }, { siteId: "8" }, { siteId: "7" }, { siteId: "x" }, {}]), ...c.deviate("mode", MODES), ...c.deviate("extra", [{}, { other: "1" }]) };
    return { e, bad: e.other || !/^\d+$/.test(e.siteId ?? "") || e.travelMode === "tractor" || !["2024", "2025"].includes(e.year) || !(+e.month > 0 && +e.month < 13) };
  }, (e, now, p) => p.data_timestamp.startsWith(`${e.year}-${e.month.padStart(2, "0")}-`) && p.site_id === +e.siteId && (!e.travelMode || p.travel_mode === e.travelMode),
  (c, e, v, found, why) => {
    const name = (id) => SITES.slice(0, 2).find((s) => s.id === id)?.name ?? "";
    const quote = (s) => (/[",]/.test(s) ? `"${s.replaceAll('"', '""')}"` : s);
    c.equal(body(v), ["SITE,TRAVELMODE,TIMESTAMP,GRANULARITY,DIRECTION,COUNT", ...found.sort(cmp("travel_mode", "direction", "granularity", "data_timestamp")).map((p) => [quote(name(p.site_id)), p.travel_mode, p.data_timestamp, p.granularity, p.direction, p.counts].join())].map((l) => l + "\r\n").join(""), "csv", why);
    c.equal(v.fileName, `${e.year}-${e.month}.csv`, "file-name");
  });
  ctx.assume("PostgreSQL is replaced by SQLite behind the pg driver and kysely and @std/csv, which are not installed, by stand-ins of the parts used; a site's counts are published before the update that covers their time, and the counting service answers the inclusive window asked for in Helsinki time");
}
