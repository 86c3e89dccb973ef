import { EventEmitter } from "node:events";
import { app } from "../lib/app.mjs";
import { schema, NOW, at, fixture, insert, portCallOf } from "../lib/fixtures/portactivity.mjs";
import { parseString } from "../lib/xml2js.mjs";

export const meta = { parallel: true, bounds: "every ship and prediction within 2 (quick) / 3 (thorough) deviations of a plain one; every history of 3 (quick) / 4 (thorough) runs over token answers and pauses; every sequence of up to 3 (quick) / 4 (thorough) websocket messages in three timings; pairs of schedules in every source" };

const H = 3600000;
const plain = (m) => JSON.stringify(m, (k, v) => (v && typeof v === "object" && !Array.isArray(v) ? Object.fromEntries(Object.entries(v).sort().filter(([, x]) => x !== undefined)) : v));
const SECRET = Object.fromEntries(Object.entries({ voyagesurl: "http://awake/v1", oAuthTokenEndpoint: "http://token/t", oAuthClientId: "id", oAuthClientSecret: "s&=", atxurl: "ws://atx" }).flatMap(([k, v]) => [[k, v], [`awake.${k}`, v]]));
const ETP_PORTS = ["FIRAU", "FIKOK", "FIKAS", "FIPOR", "FIUKI", "FIHKO", "FIRAA", "FIKEM", "FIPRS"];
const OVERRIDE = ["FIHEL", "FIPOR", "FIHKO"];
const ETA_PORTS = ["FIKOK", "FIRAU", "FIOUL", "FIKEM", "FIKJO", "FIUKI", "FIPOR"];
const ETD_PORTS = ["FIHEL", "FIHKO", "FIKEM", "FIKOK", "FIKTK", "FIMHQ", "FINLI", "FIOUL", "FIPRS", "FIRAU", "FISKV", "FITKU", "FITOR", "FIUKI", "FIVSS"];
const PORTS = ["FIOUL", "FIPOR", "FISKV", "FIHKO", "FIRAU", "FIUKI", "FIKOK", "FIMUS", "FIHEL", "FIKJO", "FIEJO", "FITOR", "FILPP", "FIVRK", "FIJOE", "FIVAA", "FIRAA", "FIPRS", "FIKAS", "FINLI", "FIKTK", "FITRY", "FIKUO", "FITKU", "FIKEM", "FIMHQ", "FILAN", "FIINK", "FILOV"];
const DIGITRAFFIC = "urn:awake:digitraffic-portcall:1234";

export async function run(ctx) {
  const L = "marine/portactivity/src/lambda/";
  const a = await app({
    ship: `${L}update-awake-ai-eta-ship-timestamps/update-awake-ai-eta-ship-timestamps.ts`, eta: `${L}update-awake-ai-eta-port-timestamps/update-awake-ai-eta-port-timestamps.ts`, etd: `${L}update-awake-ai-etd-port-timestamps/update-awake-ai-etd-port-timestamps.ts`,
    atx: `${L}update-awake-ai-atx-timestamps/update-awake-ai-atx-timestamps.ts`, sched: `${L}update-timestamps-from-schedules/lambda-update-timestamps-from-schedules.ts`,
    tEta: `${L}trigger-awake-ai-eta-port-timestamps-update/trigger-awake-ai-eta-port-timestamps-update.ts`, tEtd: `${L}trigger-awake-ai-etd-port-timestamps-update/trigger-awake-ai-etd-port-timestamps-update.ts`, tShip: `${L}trigger-awake-ai-eta-ship-timestamps-update/trigger-awake-ai-eta-ship-timestamps-update.ts`,
  }, { stubs: ["ws", "xml2js", "@aws-sdk/client-ssm"] });
  class WS extends EventEmitter { constructor(url, opts) { super(); this.url = url; this.opts = opts; this.out = []; this.closed = 0; WS.all.push(this); } send(x) { this.out.push(JSON.parse(x)); } close() { this.closed++; } }
  const start = (o = {}) => {
    WS.all = [];
    const parameters = new Map(o.parameters ?? []);
    const ssm = { log: [] };
    const cmd = (kind) => class { constructor(input) { this.input = input; this.kind = kind; } };
    class SSMClient { async send(c) { ssm.log.push([c.kind, c.input]); if (o.ssmFault?.(c.kind)) throw new Error("ssm"); if (c.kind === "Put") { parameters.set(c.input.Name, c.input.Value); return {}; } if (!parameters.has(c.input.Name)) throw new Error("ParameterNotFound"); return { Parameter: { Value: parameters.get(c.input.Name) } }; } }
    const requests = [];
    const fetch = async (r) => {
      const q = { method: r.method, url: r.url, auth: r.headers.get("authorization"), body: await r.text() };
      requests.push(q);
      if (q.url === "http://token/t") return o.token ? o.token(q) : Response.json({ token_type: "Bearer", expires_in: 3600, access_token: "tok" });
      return o.answer(q);
    };
    const x = a.start({ schema, now: NOW, env: { SQS_QUEUE_URL: "q", PUBLISH_TOPIC_ARN: "topic", ENABLE_ETB: o.etb ?? "false" }, secret: { ...SECRET, "schedules.url": "http://sched/s" }, fetch, awsFault: o.awsFault, stubs: { ws: { default: WS, __esModule: true }, xml2js: { parseString }, "@aws-sdk/client-ssm": { SSMClient, GetParameterCommand: cmd("Get"), PutParameterCommand: cmd("Put") } } });
    insert(x.sql, o.data ?? fixture());
    return { ...x, requests, parameters, ssm };
  };
  const bodies = (x) => x.sent.map((s) => plain(JSON.parse(s.MessageBody))).sort();
  const expected = (l) => l.map(plain).sort();
  const bound = ctx.thorough ? 3 : 2;
  const failures = { ok: undefined, 404: 404, 422: 422, 500: 500, 503: 503 };
  const prediction = (c, locode, hours, kind) => ({
    predictionType: c.deviate("prediction", [kind, kind === "eta" ? "etd" : "eta", "travel-time", "destination"]), locode: c.deviate("locode", [locode, "FIRAU", "FIPOR", "FIMUS", "firau", "SEGOT", undefined].filter((v, i, l) => l.indexOf(v) === i)),
    zoneType: c.deviate("zone", kind === "eta" ? ["berth", "pbp", "vts"] : ["berth", "pbp"]), recordTime: c.deviate("record time", [at(-1), undefined]),
    [kind === "eta" ? "arrivalTime" : "departureTime"]: hours,
    ...c.deviate("metadata", [{}, { metadata: { source: "urn:awake:x", errorQuantiles: { q10: -100.5, q25: -50, q75: 60, q90: 120 } } }, { metadata: { source: DIGITRAFFIC } }, { metadata: { source: "urn:awake:x" } }]),
  });
  const finnish = (l) => !!l && l.toLowerCase().startsWith("fi");
  const stampOf = (p, type, source, port, ship, extra, time) => ({ ship, location: { port, ...(extra.area ? { portArea: extra.area } : {}) }, source, eventTime: time, recordTime: p.recordTime ?? at(0), portcallId: extra.call, eventType: type, eventTimeConfidenceLowerDiff: p.metadata?.errorQuantiles?.q10, eventTimeConfidenceUpperDiff: p.metadata?.errorQuantiles?.q90 });
  const DIG = (p) => !!p.metadata && p.metadata.source.includes("digitraffic-portcall");

  // ---- estimates of single ships ----
  await ctx.explore("ship estimates", async (c) => {
    const flag = c.deviate("flag", ["false", "TRUE"]);
    const n = c.deviate("ships", [1, 2]);
    const ships = [], answers = new Map(), want = [], urls = [];
    for (let i = 0; i < n; i++) {
      const ship = { imo: 1000000 + i, locode: i ? "FIRAU" : c.deviate("port call at", ["FIRAU", "FIHEL", "FIPOR", "FIMUS"]), ...(i ? {} : c.deviate("area", [{}, { port_area_code: "KAT" }])), portcall_id: 50 + i, eta: at(i ? 3 : c.deviate("eta", [5, 23.99, 24, 24.5, 60, -2])) };
      const hours = (Date.parse(ship.eta) - NOW) / H;
      const near = Math.floor(hours) < 24;
      const how = i ? "ok" : c.deviate("answer", ["ok", "404", "422", "500", "503", "network", "network twice", "not json"]);
      const p = i ? { predictionType: "eta", locode: "FIRAU", zoneType: "berth", recordTime: at(-1), arrivalTime: at(3) } : prediction(c, ship.locode, c.deviate("arrival", [at(4), undefined]), "eta");
      const more = i ? [] : c.deviate("other predictions", [[], [{ predictionType: "eta", locode: ship.locode, zoneType: "berth", recordTime: at(-2), arrivalTime: at(6) }], [{ predictionType: "travel-time", locode: ship.locode, zoneType: "berth" }]]);
      const schedule = { ship: { mmsi: 900 + i, imo: ship.imo }, predictability: i ? "predictable" : c.deviate("predictability", ["predictable", "not-predictable", "ship-data-not-updated"]),
        predictedVoyages: i ? [{ voyageStatus: "underway", sequenceNo: 0, predictions: [p] }] : c.deviate("voyages", ["one", "none", "second"]) === "none" ? [] : [{ voyageStatus: c.deviate("status", ["underway", "stopped", "not-started"]), sequenceNo: 0, predictions: [p, ...more] }, { voyageStatus: "underway", sequenceNo: 1, predictions: [{ predictionType: "eta", locode: ship.locode, zoneType: "berth", recordTime: at(-2), arrivalTime: at(90) }] }] };
      const url = `http://awake/v1/ship/${ship.imo}?predictionMetadata=true${near ? `&destination=${ship.locode}` : ""}`;
      answers.set(ship.imo, { how, url, schedule, tries: 0 });
      urls.push(url, ...(how.startsWith("network") || how === "not json" ? [url] : []));
      ships.push(ship);
      if (!["ok", "network"].includes(how) || schedule.predictability !== "predictable" || !schedule.predictedVoyages.length || schedule.predictedVoyages[0].voyageStatus !== "underway") continue;
      for (const q of schedule.predictedVoyages[0].predictions) {
        if (q.predictionType !== "eta" || DIG(q) || !q.arrivalTime || !finnish(q.locode)) continue;
        if (q.locode !== ship.locode && !near) continue;
        if (q.zoneType === "pbp") {
          // the predicted port decides, unless the port call's own replaces it; where the two disagree the rule is not settled
          const ports = [...new Set([ship.locode, OVERRIDE.includes(ship.locode) ? ship.locode : q.locode])];
          if (new Set(ports.map((x) => ETP_PORTS.includes(x))).size > 1) c.prune();
          if (!ETP_PORTS.includes(ship.locode)) continue;
        }
        const t = stampOf(q, q.zoneType === "pbp" ? "ETP" : "ETA", "Awake.AI", ship.locode, { mmsi: schedule.ship.mmsi, imo: ship.imo }, { area: ship.port_area_code, call: ship.portcall_id }, q.arrivalTime);
        want.push(t);
        if (t.eventType === "ETA" && (flag === "TRUE" || ship.locode === "FIRAU")) want.push({ ...t, eventType: "ETB" });
      }
    }
    const x = start({ etb: flag, answer: (q) => {
      const s = answers.get(Number(/ship\/(\d+)/.exec(q.url)[1]));
      c.equal(q.auth, "Bearer tok", "token");
      if (s.how === "network twice" || (s.how === "network" && s.tries++ === 0)) throw new TypeError("fetch failed");
      if (s.how === "not json") return new Response("<html>");
      if (s.how !== "ok" && s.how !== "network") return new Response("{}", { status: Number(s.how) });
      return Response.json(s.schedule);
    } });
    const r = await x.w.settle(x.m.ship.handler({ Records: [{ Sns: { Message: JSON.stringify(ships) } }] }));
    c.check(r.ok, "handler-failed", () => String(r.error));
    const why = () => JSON.stringify([ships, [...answers.values()]]);
    c.equal(x.requests.filter((q) => !q.url.startsWith("http://token")).map((q) => q.url).sort(), urls.sort(), "requests", why);
    c.equal(bodies(x), expected(want), "messages", why);
    return String(want.length) + (want[0]?.eventType ?? "");
  }, { bound });

  // ---- estimates of ports ----
  for (const kind of ["eta", "etd"]) await ctx.explore(`port ${kind}`, async (c) => {
    const port = c.deviate("port", ["FIRAU", "FIHEL"]);
    const how = c.deviate("answer", ["ok", "404", "422", "500", "503"]);
    const soon = kind === "eta" ? 24 : 0;
    const n = c.deviate("ships", [1, 2, 0]);
    const list = [], want = [];
    for (let i = 0; i < n; i++) {
      const p = i ? { predictionType: kind, locode: port, zoneType: "berth", recordTime: at(-1), [kind === "eta" ? "arrivalTime" : "departureTime"]: at(50) } : prediction(c, port, c.deviate("time", [at(soon + 5), at(soon), at(soon + 0.01), at(soon - 0.01), undefined]), kind);
      const call = i ? [] : c.deviate("port call", [[], [{ predictionType: "arrival-port-call", portCallUrn: "urn:awake:digitraffic-portcall:1234567890", portCallLocode: port }], [{ predictionType: "arrival-port-call" }]]);
      const status = i ? "underway" : c.deviate("status", ["underway", "not-started", "stopped"]);
      const order = i ? "after" : c.deviate("order", ["after", "before"]);
      const voyage = { voyageStatus: status, sequenceNo: 0, predictions: order === "after" ? [p, ...call] : [...call, p] };
      list.push({ ship: { mmsi: 900 + i, imo: 1000000 + i }, voyage });
      if (how !== "ok" || status === "stopped" || p.predictionType !== kind || DIG(p) || p.zoneType !== "berth" || !finnish(p.locode)) continue;
      const time = p[kind === "eta" ? "arrivalTime" : "departureTime"];
      if (!time || Date.parse(time) < NOW + soon * H) continue;
      want.push(stampOf(p, kind.toUpperCase(), "Awake.AI Pred", port, { mmsi: 900 + i, imo: 1000000 + i }, { call: kind === "eta" && call[0]?.portCallUrn ? 1234567890 : undefined }, time));
    }
    const x = start({ answer: () => (how === "ok" ? Response.json(list) : new Response("{}", { status: Number(how) })) });
    const r = await x.w.settle(x.m[kind].handler({ Records: [{ Sns: { Message: port } }] }));
    c.check(r.ok, "handler-failed", () => String(r.error) + JSON.stringify(list));
    const reqs = x.requests.filter((q) => !q.url.startsWith("http://token"));
    c.equal(reqs.map((q) => [q.method, new URL(q.url).pathname, new URL(q.url).searchParams.getAll("predictionType").sort(), new URL(q.url).searchParams.get("maxSequenceNo"), new URL(q.url).searchParams.get("predictionMetadata"), q.auth]), [["GET", `/v1/port/${port}/${kind === "eta" ? "arrivals" : "departures"}`, ["arrival-port-call", kind], "1", "true", "Bearer tok"]], "requests");
    c.equal(bodies(x), expected(want), "messages", () => JSON.stringify(list));
    return String(want.length);
  }, { bound });

  // ---- a message that cannot be sent does not stop the others ----
  await ctx.explore("failed sends", async (c) => {
    const which = c.choose("which", ["ship", "eta", "etd"]);
    const fail = [0, 1, 2].map((i) => c.bool(`fail ${i}`));
    let k = 0;
    const failed = [];
    const voyage = (i) => ({ voyageStatus: "underway", sequenceNo: 0, predictions: [{ predictionType: which === "etd" ? "etd" : "eta", locode: "FIOUL", zoneType: "berth", recordTime: at(-1), arrivalTime: at(30 + i), departureTime: at(30 + i) }] });
    const x = start({ awsFault: (kind, input) => { if (kind !== "SendMessageCommand") return false; const f = fail[k++]; if (f) failed.push(input.MessageBody); return f; }, answer: (q) => Response.json(which === "ship" ? { ship: { mmsi: 1, imo: 1 }, predictability: "predictable", predictedVoyages: [voyage(Number(/ship\/(\d+)/.exec(q.url)[1]))] } : [0, 1, 2].map((i) => ({ ship: { mmsi: i + 1, imo: i + 1 }, voyage: voyage(i) }))) });
    const message = which === "ship" ? JSON.stringify([0, 1, 2].map((i) => ({ imo: i, locode: "FIOUL", portcall_id: i, eta: at(30) }))) : "FIOUL";
    const r = await x.w.settle(x.m[which].handler({ Records: [{ Sns: { Message: message } }] }));
    c.equal(new Set([...x.sent.map((s) => s.MessageBody), ...failed]).size, 3, "messages", () => `${r.ok} ${r.error} ${x.sent.length} sent, ${failed.length} failed`);
    c.equal(x.sent.length, 3 - fail.filter(Boolean).length, "sent-once");
    for (const s of x.sent) c.equal(s.QueueUrl, "q", "queue");
    return String(x.sent.length);
  });

  // ---- the access token ----
  const runs = ctx.thorough ? 4 : 3;
  await ctx.explore("access token", async (c) => {
    let given = 0, broken = 0, next;
    const x = start({ token: (q) => {
      c.equal([q.method, [...new URLSearchParams(q.body)].sort()], ["POST", [["client_id", "id"], ["client_secret", "s&="], ["grant_type", "client_credentials"]]], "token-request");
      broken = 0;
      if (next === "error") { broken = 1; return new Response("no", { status: 401 }); }
      if (next === "incomplete") { broken = 1; return Response.json({ token_type: "Bearer", expires_in: 100 }); }
      if (next === "network") { broken = 1; throw new TypeError("fetch failed"); }
      return Response.json({ token_type: "Bearer", expires_in: Number(next), access_token: `tok${++given}` });
    }, answer: () => Response.json([]) });
    let valid = -Infinity; // until when the last token may be used
    const seen = [];
    for (let i = 0; i < runs; i++) {
      next = c.choose("token", i === 0 ? ["3600", "600", "180", "error"] : ["600", "100", "error", "incomplete", "network"]);
      const pause = i === 0 ? 0 : c.choose("pause", [0, 419999, 420000, 600000, 3419999, 3420000]);
      x.w.now += pause;
      const before = x.requests.length, now = x.w.now;
      const r = await x.w.settle(x.m.eta.handler({ Records: [{ Sns: { Message: "FIRAU" } }] }));
      const calls = x.requests.slice(before), tokens = calls.filter((q) => q.url.startsWith("http://token")), data = calls.filter((q) => !q.url.startsWith("http://token"));
      const fresh = now < valid;
      c.equal(tokens.length > 0, !fresh, "token-requests", () => `run ${i + 1}: valid until ${valid - now} ms from now`);
      if (!fresh && broken) { c.check(!r.ok, "failure-hidden"); c.equal(data.length, 0, "asked-without-token"); seen.push("fail"); valid = -Infinity; continue; }
      if (!fresh) { c.equal(tokens.length, 1, "one-request"); valid = now + Math.max(0, Number(next) * 1000 - 180000); }
      c.check(r.ok, "handler-failed", () => String(r.error));
      c.equal(data.map((q) => q.auth), [`Bearer tok${given}`], "latest-token");
      seen.push(fresh ? "cached" : "new");
    }
    return seen.join();
  }, { maxExecutions: Infinity });

  // ---- actual times over the websocket ----
  const EVENTS = {
    arrival: { msgType: "event", eventType: "zone-event", eventTimestamp: at(-1), eventId: "e1", mmsi: 222, imo: 2222222, shipName: "B", zoneType: "berth", zoneEventType: "arrival", zoneName: "z", locodes: ["FIKOK"] },
    departure: { msgType: "event", eventTimestamp: at(-0.5), mmsi: 222, imo: 2222222, zoneType: "berth", zoneEventType: "departure", locodes: ["FIHEL", "FIKOK"] },
    early: { msgType: "event", eventTimestamp: at(-7.5), mmsi: 222, imo: 2222222, zoneType: "berth", zoneEventType: "arrival", locodes: ["FIHEL"] },
    unknown: { msgType: "event", eventTimestamp: at(-1), mmsi: 999, imo: 9999999, zoneType: "berth", zoneEventType: "arrival", locodes: ["FIHEL"] },
    pilot: { msgType: "event", eventTimestamp: at(-1), mmsi: 222, imo: 2222222, zoneType: "pbp", zoneEventType: "arrival", locodes: ["FIKOK"] },
    nowhere: { msgType: "event", eventTimestamp: at(-1), mmsi: 222, imo: 2222222, zoneType: "berth", zoneEventType: "arrival", locodes: [] },
    other: { msgType: "heartbeat" },
    active: { msgType: "subscription-status", subscriptionId: "s2", status: "active" },
    same: { msgType: "subscription-status", subscriptionId: "s1", status: "active" },
    failed: { msgType: "subscription-status", status: "failed", message: "no such subscription" },
  };
  await ctx.explore("actual times", async (c) => {
    const n = c.choose("messages", ctx.thorough ? [0, 1, 2, 3, 4] : [0, 1, 2, 3]);
    const stored = n > 1 ? c.deviate("stored", ["s1", undefined, "NONE"]) : c.choose("stored", ["s1", undefined, "NONE"]);
    const ssmFault = c.deviate("ssm", [undefined, "Get", "Put"]);
    const dbFault = c.deviate("database", ["ok", "error"]);
    const d = fixture();
    const x = start({ data: d, parameters: stored ? [["AWAKE_ATX_SUBSCRIPTION_ID", stored]] : [], ssmFault: (k) => k === ssmFault });
    let broke = false;
    x.sql.before = async (conn, text) => { if (/port_call/i.test(text) && dbFault === "error") { broke = true; throw new Error("database error"); } };
    const remaining = c.deviate("remaining", [60000, 11000]);
    let done;
    const p = x.m.atx.handler({}, { getRemainingTimeInMillis: () => remaining });
    p.then(() => { done = true; }, () => { done = true; });
    for (let i = 0; i < 10; i++) await x.w.quiesce();
    c.equal(WS.all.length, 1, "connections");
    const ws = WS.all[0];
    c.equal([ws.url, ws.opts.headers.Authorization], ["ws://atx", "Bearer tok"], "connection");
    ws.emit("open");
    const known = ssmFault !== "Get" && stored && stored !== "NONE" ? stored : undefined;
    c.equal(ws.out, [known ? { msgType: "subscribe", resume: known } : { msgType: "subscribe", parameters: [{ eventType: "zone-event", countries: ["FI"] }] }], "subscription");
    const want = [];
    let param = stored;
    for (let i = 0; i < n; i++) {
      const k = c.choose(`message ${i}`, Object.keys(EVENTS));
      const e = EVENTS[k];
      x.w.now += 10;
      ws.emit("message", Buffer.from(JSON.stringify(e)), false);
      await x.w.quiesce();
      if (k === "failed" && ssmFault !== "Put") param = "NONE";
      if (e.subscriptionId && e.subscriptionId !== known && ssmFault !== "Put") param = e.subscriptionId;
      if (e.msgType !== "event" || e.zoneType !== "berth" || !e.locodes.length) continue;
      const type = e.zoneEventType === "arrival" ? "ATA" : "ATD";
      const call = portCallOf(d, { port: e.locodes[0], type, time: e.eventTimestamp, mmsi: e.mmsi, imo: e.imo });
      if (call) want.push({ eventType: type, eventTime: e.eventTimestamp, recordTime: e.eventTimestamp, source: "Awake.AI", ship: { imo: e.imo, mmsi: e.mmsi }, location: { port: e.locodes[0] }, portcallId: call });
    }
    c.check(!done, "ended-early");
    c.equal(x.sent.length, 0, "sent-early");
    const r = await x.w.settle(p);
    c.check(r.ok, "handler-failed", () => String(r.error));
    c.check(x.w.now <= NOW + remaining - 10000 + 10 * n, "too-late", () => `${x.w.now - NOW} ms`);
    c.equal(ws.closed, 1, "connection-left");
    c.equal(x.parameters.get("AWAKE_ATX_SUBSCRIPTION_ID"), param, "subscription-id");
    c.equal(bodies(x), expected(broke ? [] : want), "messages", () => x.w.stdout.slice(-3).join(""));
    c.equal(x.sql.open.size, 0, "db-connection-left");
    return `${want.length} ${param}`;
  }, { bound: ctx.thorough ? 2 : 1 });

  // ---- VTS schedules ----
  const SOURCES = ["east", "west", "east/calculated", "west/calculated"];
  await ctx.explore("schedules", async (c) => {
    const flag = c.deviate("flag", ["false", "True"]);
    const xml = {}, want = [];
    const broken = c.deviate("failing", [undefined, ...SOURCES]);
    for (const s of SOURCES) {
      const calculated = s.includes("/");
      let text = "";
      const n = c.deviate(`${s} count`, [1, 2, 0]);
      for (let i = 0; i < n; i++) {
        const mmsi = 100 + SOURCES.indexOf(s) * 10 + i;
        const locode = i ? "FIHEL" : c.deviate(`${s} port`, ["FIRAU", "FIHEL", "FIKOK", "FIXXX", "SEGOT", undefined]);
        const eta = i ? at(5) : c.deviate(`${s} eta`, [at(4), at(-3), undefined]);
        const etd = i ? undefined : c.deviate(`${s} etd`, [undefined, at(8), at(-5 / 60), at(-5.1 / 60), at(-1)]);
        text += `\n <schedule UUID="u${i}">\n  <vessel vesselName="A &amp; B" callsign="C" mmsi="${mmsi}" imo="${mmsi}0"/>\n  <timetable>${locode ? `<destination locode="${locode}" portfacility="X"/>` : ""}${eta ? `<eta time="${eta}" uts="${at(-1)}"/>` : ""}${etd ? `<etd time="${etd}" uts="${at(-2)}"/>` : ""}</timetable>\n </schedule>`;
        if (!locode || !PORTS.includes(locode)) continue;
        const t = (type, time, uts) => ({ location: { port: locode }, eventType: type, eventTime: time, recordTime: uts, source: calculated ? "SCHEDULES_CALCULATED" : "SCHEDULES_VTS_CONTROLLED", ship: { mmsi, imo: mmsi * 10 } });
        if (eta) want.push(t("ETA", eta, at(-1)));
        if (eta && calculated && (flag === "True" || locode === "FIRAU")) want.push(t("ETB", eta, at(-1)));
        if (etd && Date.parse(etd) >= NOW - 300000) want.push(t("ETD", etd, at(-2)));
      }
      xml[s] = `<?xml version="1.0" encoding="utf-8" standalone="yes"?>\n<schedules>${text}\n</schedules>`;
    }
    const x = start({ etb: flag, answer: (q) => { const s = q.url.slice("http://sched/s/".length); c.check(s in xml, "unknown-request", q.url); return s === broken ? new Response("x", { status: 404 }) : new Response(xml[s]); } });
    const r = await x.w.settle(x.m.sched.handler());
    if (broken) { c.check(!r.ok, "failure-hidden"); return "failed"; }
    c.check(r.ok, "handler-failed", () => String(r.error) + JSON.stringify(xml));
    c.equal(bodies(x), expected(want), "messages", () => JSON.stringify(xml));
    return String(want.length);
  }, { bound });

  // ---- who is asked about ----
  await ctx.explore("triggers", async (c) => {
    const which = c.choose("which", ["tEta", "tEtd", "tShip"]);
    const n = which === "tShip" ? c.choose("ships", [0, 1, 9, 10, 11, 20, 21]) : 0;
    const fail = c.choose("fail", [-1, 0, 1]);
    let k = 0;
    const d = { vessel: [], port_call: [], port_area_details: [], port_call_timestamp: [] };
    for (let i = 0; i < n; i++) {
      d.port_call.push({ port_call_id: 100 + i, port_call_timestamp: at(-2), vessel_name: "v", port_to_visit: PORTS[i], mmsi: 500 + i, imo_lloyds: 5000 + i });
      d.port_area_details.push({ port_area_details_id: i, port_call_id: 100 + i, eta: at(3), etd: at(9), ata: null, atd: null });
      d.port_call_timestamp.push({ event_type: "ETA", event_time: at(3 + i), event_source: "Portnet", record_time: at(-3), location_locode: PORTS[i], ship_mmsi: 500 + i, ship_imo: 5000 + i, portcall_id: 100 + i });
    }
    const x = start({ data: d, awsFault: (kind) => kind === "PublishCommand" && k++ === fail });
    const r = await x.w.settle(x.m[which].handler());
    const total = which === "tEta" ? ETA_PORTS.length : which === "tEtd" ? ETD_PORTS.length : Math.ceil(n / 10);
    for (const s of x.sent) c.equal(s.TopicArn, "topic", "topic");
    if (fail >= 0 && fail < total) { c.check(!r.ok, "failure-hidden"); return "failed"; }
    c.check(r.ok, "handler-failed", () => String(r.error));
    if (which !== "tShip") { c.equal(x.sent.map((s) => s.Message).sort(), [...(which === "tEta" ? ETA_PORTS : ETD_PORTS)].sort(), "ports"); return which; }
    const groups = x.sent.map((s) => JSON.parse(s.Message));
    for (const g of groups) c.check(g.length > 0 && g.length <= 10, "group-size", String(g.length));
    c.equal(groups.flat().map((s) => `${s.imo} ${s.locode} ${s.portcall_id} ${s.eta}`).sort(), d.port_call_timestamp.map((s) => `${s.ship_imo} ${s.location_locode} ${s.portcall_id} ${s.event_time}`).sort(), "ships");
    return `${n} ${groups.length}`;
  });
  ctx.assume("xml2js and ws are replaced by stand-ins; a pilot boarding estimate whose predicted and own port differ in whether such estimates are published is not judged");
}
