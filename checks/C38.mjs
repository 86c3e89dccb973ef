import { app, withDbFaults } from "../lib/app.mjs";
import { schema, sequences, translate } from "../lib/fixtures/maintenance.mjs";

export const meta = { parallel: true, bounds: "every sequence of 4 (quick) / 5 (thorough) work events of a machine deviating from a plain drive in up to 2 (3) steps or tasks around every limit, fetched in up to 3 runs, cut at the middle or nowhere (everywhere); a second machine; every failed statement or request (up to 1 / 2) in every run over seven drives" };
const NOW = Date.UTC(2024, 0, 15, 12), DOMAIN = "prov-city", S = 1000;
const TASKS = { A: "SALTING", B: "PLOUGHING", C: "SALTING", I: "BRUSHING" }; // I is ignored, U unknown
const mapped = (names) => [...new Set(names.map((n) => n.trim()).filter((n) => n !== "I" && Object.hasOwn(TASKS, n)).map((n) => TASKS[n]))].sort();
const STEPS = [[60, 400], [305, 45], [306, 45], [30, 518], [30, 522], [17, 400], [19, 400], [70, 400], [74, 400], [106, 150], [110, 150], [0, 0], [0, 45], [0, 60], [60, 0], [100, 205], [30, 195]];
const WORKS = [["A"], ["B"], ["A", "B"], ["C"], ["U"], ["I"], [], ["A", "U"]];
const lat = (m) => Math.round((62 + m / 111195) * 1e7) / 1e7;

/** the documented rule: may a tracking go on from one position to the next */
function goesOn(t0, m0, t1, m1) {
  const s = (t1 - t0) / S, d = Math.abs(m1 - m0);
  if (s < 0 || s > 305 || d > 520) return false;
  const v = s === 0 ? Infinity : (d / s) * 3.6;
  if (d > 50 && v > 80) return false;
  if (d > 200) return v >= 20;
  return d <= 50 || v >= 5;
}
const sameSet = (a, b) => a.length === b.length && a.every((x) => b.includes(x)) && b.every((x) => a.includes(x));

/** trackings of one machine after the events of a fetch; list: [{tasks, pts: [metre], start, end, finished, previous, direction}] */
function reference(list, events) {
  const latest = list.findLast((t) => !t.finished && !list.some((o) => o.previous === t));
  const ev = events.filter((e) => mapped(e.works).length > 0).toSorted((a, b) => a.t - b.t).filter((e) => !latest || e.t > latest.end);
  const groups = [];
  for (const e of ev) {
    const g = groups.at(-1), p = g?.at(-1);
    if (!g || !goesOn(p.t, p.m, e.t, e.m)) groups.push([e]);
    else if (sameSet(p.works, e.works)) g.push(e);
    else { g.push({ ...e, works: p.works }); groups.push([e]); }
  }
  const trackings = groups.map((g, i) => ({ tasks: mapped(g[0].works), pts: g.map((e) => e.m).filter((m, k, all) => k === 0 || m !== all[k - 1]), start: g[0].t, end: g.at(-1).t, sent: g.at(-1).t, finished: i < groups.length - 1, previous: undefined, direction: g.at(-1).heading, last: g.at(-1).m }));
  if (!trackings.length) return list;
  const out = [...list], first = trackings[0];
  if (latest) {
    const l = { ...latest, finished: true };
    if (goesOn(latest.end, latest.last, first.start, first.pts[0])) {
      if (latest.last !== first.pts[0]) Object.assign(l, { pts: [...l.pts, first.pts[0]], last: first.pts[0], end: first.start, direction: undefined });
      if (sameSet(latest.tasks, first.tasks)) first.previous = l;
    }
    out[out.indexOf(latest)] = l;
    for (const t of out) if (t.previous === latest) t.previous = l;
  }
  return [...out, ...trackings];
}

export async function run(ctx) {
  const a = await app({ update: "road/maintenance-tracking-municipality/src/lambda/paikannin-update-data/paikannin-update-data.ts" });
  const secret = { proxy_host: "proxy:1/db", proxy_ro_host: "proxy-ro:1/db", "mt.city.apikey": "key", "mt.city.url": "https://api" };
  function start(devices, o = {}) {
    const state = { devices, fail: undefined, requests: [] };
    const x = a.start({ schema, now: NOW, functions: sequences(), translate, env: { DOMAIN_NAME: DOMAIN, DOMAIN_PREFIX: "mt.city" }, secret,
      fetch: async (req) => {
        const url = new URL(req.url);
        state.requests.push([req.method, url.host, req.headers.get("api_key")].join(" "));
        if (state.fail?.(url.pathname)) return new Response("no", { status: 404 });
        if (url.pathname === "/public/api/devices/all") return new Response(JSON.stringify(devices.map((d) => ({ id: String(d.id), description: d.name, ioChannels: [...Object.keys(TASKS), "U", "A "].map((n, i) => ({ id: i, enabled: true, name: n })) }))));
        const w = /^\/public\/api\/devices\/workevents\/alldevices\/([^/]+)\/([^/]+)$/.exec(url.pathname);
        if (!w) return new Response("?", { status: 404 });
        state.window = [Date.parse(decodeURIComponent(w[1])), Date.parse(decodeURIComponent(w[2]))];
        return new Response(JSON.stringify(devices.map((d) => ({ deviceId: d.id, deviceName: d.name, workEvents: d.events.filter((e) => e.t >= state.window[0] && e.t <= state.window[1] && (e.seen ?? 0) <= x.w.now).map((e) => ({ deviceId: d.id, deviceName: d.name, timest: new Date(e.t).toISOString(), altitude: 0, heading: e.heading, ioChannels: e.works.map((n, i) => ({ id: i, name: n })), lat: lat(e.m), lon: 27, speed: 10 })) }))));
      } });
    if (o.contract !== false) x.sql.db.prepare("insert into maintenance_tracking_domain_contract (domain, contract, name, source) values (?,?,?,?)").run(DOMAIN, DOMAIN, DOMAIN, "src");
    for (const [n, name] of Object.entries(TASKS)) x.sql.db.prepare("insert into maintenance_tracking_domain_task_mapping (name, original_id, domain, ignore) values (?,?,?,?)").run(name, n, DOMAIN, n === "I" ? 1 : 0);
    return Object.assign(x, { state });
  }
  const model = () => new Map();
  const stored = (x) => {
    const rows = x.sql.rows("select t.*, m.harja_id as device from maintenance_tracking t join maintenance_tracking_work_machine m on m.id = t.work_machine_id order by t.id");
    const tasks = x.sql.rows("select * from maintenance_tracking_task order by task");
    return rows.map((r) => ({ id: r.id, device: r.device, tasks: tasks.filter((q) => q.maintenance_tracking_id === r.id).map((q) => q.task), pts: (() => { const g = JSON.parse(r.geometry); return g.type === "Point" ? [g.coordinates] : g.coordinates; })().map((p) => p.join()), last: JSON.parse(r.last_point).coordinates.join(), start: Date.parse(r.start_time), end: Date.parse(r.end_time), sent: Date.parse(r.sending_time), finished: !!r.finished, previous: r.previous_tracking_id, direction: r.direction, of: [r.domain, r.contract, r.sending_system].join() }));
  };
  const point = (m) => [27, lat(m), 0].join();
  // the stored rows of a machine in the order of their starts
  const compare = (c, x, list, device, kind) => {
    const mine = stored(x).filter((r) => r.device === device).sort((p, q) => p.start - q.start || p.id - q.id);
    const show = () => JSON.stringify(list);
    const at = (t) => list.indexOf(t);
    c.equal(mine.map((r) => [r.tasks, r.pts, r.last, r.start, r.end, r.sent, r.finished]), list.map((t) => [t.tasks, t.pts.map(point), point(t.last), t.start, t.end, t.sent, t.finished]), kind, show);
    c.equal(mine.map((r) => (r.previous === null ? -1 : mine.findIndex((q) => q.id === r.previous))), list.map((t) => (t.previous ? at(t.previous) : -1)), `${kind}-previous`, show);
    for (const [i, r] of mine.entries()) { if (list[i].direction !== undefined) c.equal(r.direction, list[i].direction, `${kind}-direction`); c.equal(r.of, [DOMAIN, DOMAIN, DOMAIN].join(), "owner"); }
  };
  async function go(c, x) { const r = await x.w.settle(x.m.update.handler({}, {})); c.check(!r.hung, "hangs", ""); c.equal(x.sql.open.size, 0, "connections"); c.check(x.state.requests.every((q) => q === "GET api key"), "requests", () => x.state.requests.join()); return r; }
  const visible = (x, d) => d.events.filter((e) => e.t >= x.w.now - 540 * S && e.t <= x.w.now - 120 * S && (e.seen ?? 0) <= x.w.now);
  const drive = (steps, t0) => { let t = t0, m = 0; return steps.map(([dt, d, works], i) => { t += dt * S; m += d; return { t, m, works, heading: 10 + i }; }); };

  await ctx.explore("drives", async (c) => {
    const n = ctx.thorough ? 5 : 4;
    const steps = [];
    for (let i = 0; i < n; i++) steps.push([...(i === 0 ? [0, 0] : c.deviate("step", STEPS)), c.deviate("works", WORKS)]);
    const events = drive(steps, NOW);
    const late = c.deviate("late", [undefined, 1, 2]);
    const d = { id: 7, name: "Auto", events: [...events] };
    const cut = c.choose("cut", ctx.thorough ? [0, 1, 2, 3] : [0, 2]);
    if (late !== undefined) events[late].seen = events[n - 1].t + 119 * S;
    if (c.deviate("order", ["time", "reversed"]) !== "time") d.events.reverse();
    const devices = [d];
    if (c.deviate("second machine", [false, true])) devices.push({ id: 8, name: "Toinen", events: drive([[0, 0, ["B"]], [60, 400, ["B"]], [60, 400, ["A"]]], NOW + 10 * S) });
    const x = start(devices);
    const lists = new Map(devices.map((q) => [q.id, []]));
    const times = [...new Set([...(cut > 0 ? [events[cut - 1].t] : []), events[n - 1].t, events[n - 1].t + 1])];
    let total = 0;
    for (const t of times) {
      x.w.now = t + 120 * S;
      const before = stored(x).length;
      const r = await go(c, x);
      c.check(r.ok, "failed", String(r.error));
      c.equal(x.state.window, [x.w.now - 540 * S, x.w.now - 120 * S], "window");
      for (const q of devices) { lists.set(q.id, reference(lists.get(q.id), visible(x, q))); compare(c, x, lists.get(q.id), q.id, "trackings"); }
      c.equal([r.value.saved, r.value.errors], [stored(x).length - before, 0], "result");
      c.equal(Date.parse(x.sql.rows("select updated from data_updated where subtype = ?", DOMAIN)[0]?.updated), x.w.now, "checked-time");
      total = stored(x).length;
    }
    return [total, stored(x).map((t) => `${t.pts.length}${t.tasks}${t.finished ? "f" : ""}${t.previous ? "p" : ""}`).join()];
  }, { bound: ctx.thorough ? 3 : 2, replayEvery: 197 });

  
  const DRIVES = [[[0, 0, "A"], [60, 400, "A"], [60, 400, "A"]], [[0, 0, "A"], [60, 400, "B"], [60, 400, "A"]], [[0, 0, "A"], [60, 400, "A"], [400, 400, "A"]], [[0, 0, "A"], [60, 0, "A"], [60, 0, "B"]]].map((d) => d.map(([t, m, w]) => [t, m, [w]]));
  await ctx.explore("faults", async (c) => {
    const one = { id: 7, name: "Auto", events: drive(c.choose("drive", DRIVES), NOW) }, two = { id: 8, name: "Toinen", events: drive(DRIVES[0], NOW + 5 * S) };
    const devices = c.bool("two machines") ? [one, two] : [one];
    const x = start(devices, {});
    const lists = new Map(devices.map((q) => [q.id, []]));
    const times = [one.events[1].t, one.events[2].t + 20 * S, one.events[2].t + 80 * S];
    const at = c.choose("fault in run", [0, 1]);
    let errors = 0;
    for (const [i, t] of times.entries()) {
      x.w.now = t + 120 * S;
      if (i === at) {
        withDbFaults(c, x.sql);
        const which = c.deviate("request", ["ok", "devices", "events"]);
        state(x, which);
      } else { x.sql.before = undefined; x.sql.faults = []; x.state.fail = undefined; }
      const before = new Map(devices.map((q) => [q.id, JSON.stringify(stored(x).filter((r) => r.device === q.id))]));
      const n0 = stored(x).length;
      const r = await go(c, x);
      const faults = x.sql.faults.length + (x.state.fail ? 1 : 0);
      x.sql.before = undefined;
      let failed = 0;
      for (const q of devices) {
        const next = reference(lists.get(q.id), visible(x, q));
        const unchanged = JSON.stringify(stored(x).filter((s) => s.device === q.id)) === before.get(q.id);
        // a machine's data are stored completely or not at all
        if (faults > 0 && unchanged && next !== lists.get(q.id)) failed++;
        else { lists.set(q.id, next); compare(c, x, next, q.id, "after-fault"); }
      }
      if (faults === 0) { c.check(r.ok, "failed", String(r.error)); c.equal(failed, 0, "not-stored"); }
      if (r.ok) { c.equal(r.value.saved, stored(x).length - n0, "saved-count"); c.check(r.value.errors > 0 === failed > 0, "error-count", () => `${r.value.errors} errors, ${failed} failed`); }
      c.check(failed <= 1 || !r.ok || x.sql.faults.length > 1, "other-machine-affected", "");
      errors += failed + (r.ok ? 0 : 1);
    }
    return [errors, stored(x).length];
  }, { bound: ctx.thorough ? 2 : 1, replayEvery: 97 });
  function state(x, which) { x.state.fail = which === "ok" ? undefined : (p) => p.endsWith("devices/all") === (which === "devices"); }

  await ctx.explore("no contract", async (c) => {
    const x = start([{ id: 7, name: "Auto", events: drive(DRIVES[0], NOW) }], { contract: false });
    if (c.bool("source")) { await go(c, x); c.equal(stored(x).length, 0, "stored-without-contract"); x.sql.db.exec("update maintenance_tracking_domain_contract set source = 's'"); x.w.now += 240 * S; } else x.w.now += 240 * S;
    const r = await go(c, x);
    c.check(r.ok, "failed", String(r.error));
    const maps = x.sql.rows("select original_id, name, ignore from maintenance_tracking_domain_task_mapping order by original_id").map((q) => `${q.original_id} ${q.name} ${q.ignore}`);
    c.equal(maps, [...Object.entries(TASKS).map(([n, t]) => `${n} ${t} ${n === "I" ? 1 : 0}`), "U UNKNOWN 1"].sort(), "task-mappings");
    c.equal(x.sql.rows("select domain, contract from maintenance_tracking_domain_contract").length, 1, "contract");
    return stored(x).length;
  });
}
