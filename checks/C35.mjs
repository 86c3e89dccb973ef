import { app, withDbFaults } from "../lib/app.mjs";
import * as xml from "../lib/xml2js.mjs";
import { insert } from "../lib/fixtures/portactivity.mjs";
const { tree, elements, textOf } = xml;

export const meta = { parallel: true, bounds: "every history of 3 (quick) / 4 (thorough) uploads and processing runs over 6 messages with one (two) failed or delayed database statements; every pair (triple) of uploads through the older API over 8 documents; every publication within 2 (3) deviations of a plain device table; every history of 2 (3) device lists of three devices; device data of up to two signs, each with failed statements" };
const NOW = Date.UTC(2024, 5, 15, 12, 0, 0), MIN = 60000, H = 3600000, D = 24 * H;
const iso = (t) => (t === null || t === undefined ? null : new Date(t).toISOString());
const V = { "223": "DATEXII_2_2_3", 35: "DATEXII_3_5", 37: "DATEXII_3_7" };
export const schema = `
create table device (id text primary key, modified timestamp with time zone, deleted_date timestamp with time zone, type text, road_address text, direction text, carriageway text, etrs_tm35fin_x numeric, etrs_tm35fin_y numeric);
create table device_data_datex2 (device_id text not null, version text not null, type text not null, datex2 text not null, effect_date timestamp with time zone not null, modified timestamp with time zone, unique (device_id, version, type));
create trigger m1 after insert on device_data_datex2 begin update device_data_datex2 set modified = coalesce(new.modified, now()) where rowid = new.rowid; end;
create trigger m2 after update of datex2, effect_date on device_data_datex2 begin update device_data_datex2 set modified = now() where rowid = new.rowid; end;
create table data_incoming (data_id integer primary key autoincrement, message_id text not null, source text not null, version text not null, type text not null, data text not null, status text not null check (status in ('NEW', 'PROCESSED', 'FAILED')), created_at timestamp with time zone default (now()) not null);
create table datex2_rtti (id integer primary key autoincrement, situation_id text, type text, publication_time timestamp with time zone, geometry text, start_time timestamp with time zone, end_time timestamp with time zone, is_srti boolean, message text);
create table device_data (id bigint primary key, created_date timestamp with time zone, device_id text not null references device(id), display_value text, additional_information text, effect_date timestamp with time zone not null, cause text, reliability text);
create table device_data_row (id bigint primary key, device_data_id bigint not null references device_data(id), screen integer not null, row_number integer not null, text text);
create table data_updated (id integer, data_type text not null, subtype text not null default '-', updated timestamp with time zone not null, unique (data_type, subtype));
`;
let seq = 0;
const functions = { nextval: () => ++seq, date_trunc_day: (t) => new Date(Math.floor(Date.parse(t) / D) * D).toISOString() };
const translate = (t) => t.replace(/\bcurrent_date\b/gi, "date_trunc_day(now())").replace(/(date_trunc_day\(now\(\)\))\s*-\s*interval\s*('[^']*')/gi, "ts_add($1,-1,$2)");

// an element up to insignificant white space and the interleaving of differently named siblings
const canon = (e) => { const k = elements(e); return [e.name, Object.entries(e.attrs).sort(), k.length ? k.map(canon).sort((p, q) => (p[0] < q[0] ? -1 : p[0] > q[0] ? 1 : 0)) : textOf(e).trim()]; };
const body = (r) => Buffer.from(r.body, "base64").toString();
const esc = (s) => s.replace(/&/g, "&amp;").replace(/</g, "&lt;");

// ---- the documents ----
const start = (rev) => NOW - 100 * D + rev * MIN;
const sit223 = (id, rev, o = {}) => `<situation id="${id}" version="${1600000000000 + rev}"><overallSeverity>high</overallSeverity>\n  <situationRecord xsi:type="SpeedManagement" id="${o.record ?? id}" version="${rev}"><validity><validityTimeSpecification><overallStartTime>${iso(o.start ?? start(rev))}</overallStartTime></validityTimeSpecification></validity><comment>${esc(o.text ?? `r${rev}`)}</comment></situationRecord></situation>`;
const doc223 = (list) => `<?xml version="1.0" encoding="UTF-8" standalone="yes"?><d2LogicalModel modelBaseVersion="2" xmlns="http://datex2.eu/schema/2/2_0"><exchange><supplierIdentification><country>fi</country></supplierIdentification></exchange><payloadPublication xsi:type="SituationPublication" lang="fi"><publicationTime>2021-04-13T05:13:39.182Z</publicationTime>\n${list.join("\n")}\n</payloadPublication></d2LogicalModel>`;
const P = 'xmlns:com="http://datex2.eu/schema/3/common" xmlns:vms="http://datex2.eu/schema/3/vms" xmlns:sit="http://datex2.eu/schema/3/situation" xmlns:d2="http://datex2.eu/schema/3/d2Payload" xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance"';
const sit3 = (id, rev, o = {}) => `<${o.p ?? "sit:"}situation id="${id}"><overallSeverity>high</overallSeverity><sit:situationRecord xsi:type="sit:SpeedManagement" id="${o.record ?? id}" version="${rev}"><sit:validity><com:validityStatus>active</com:validityStatus><com:validityTimeSpecification><com:overallStartTime>${iso(o.start ?? start(rev))}</com:overallStartTime></com:validityTimeSpecification></sit:validity><comment>${esc(o.text ?? `r${rev}`)}</comment></sit:situationRecord></${o.p ?? "sit:"}situation>`;
const status3 = (id, rev, o = {}) => `<${o.p ?? "vms:"}vmsControllerStatus><vms:vmsControllerReference xsi:type="vms:_V" id="${id}" version="1"/><vms:statusUpdateTime>${iso(start(rev))}</vms:statusUpdateTime><vms:vmsStatus vmsIndex="1"><vms:textLine lineIndex="2">${esc(o.text ?? `r${rev}`)}</vms:textLine><vms:textLine lineIndex="1">a</vms:textLine></vms:vmsStatus></${o.p ?? "vms:"}vmsControllerStatus>`;
const controller3 = (id, rev, o = {}) => `<${o.p ?? "vms:"}vmsController id="${id}" version="1"><vms:numberOfVms>${rev}</vms:numberOfVms><vms:description>${esc(o.text ?? `r${rev}`)}</vms:description></${o.p ?? "vms:"}vmsController>`;
const HEAD = "<com:publicationTime>2025-10-17T08:15:52.992Z</com:publicationTime><com:publicationCreator><com:country>FI</com:country></com:publicationCreator>";
const DOC = {
  SITUATION: (l) => `<?xml version="1.0" encoding="UTF-8"?>\n<sit:situationPublication lang="fi" modelBaseVersion="3" ${P}>${HEAD}${l.join("\n")}</sit:situationPublication>`,
  CONTROLLER_STATUS: (l) => `<?xml version="1.0" encoding="UTF-8"?>\n<d2:payload xsi:type="vms:VmsPublication" ${P}>${HEAD}${l.join("\n")}</d2:payload>`,
  CONTROLLER: (l) => `<?xml version="1.0" encoding="UTF-8"?>\n<d2:payload xsi:type="vms:VmsTablePublication" ${P}>${HEAD}<vms:vmsControllerTable>${l.join("\n")}</vms:vmsControllerTable></d2:payload>`,
};
const PART = { SITUATION: sit3, CONTROLLER_STATUS: status3, CONTROLLER: controller3 };
const DEVICES = ["KRM1", "VME/TIO01K502", "A'2"];

// an upload: its files, and what each of them says about which device
function message(kind, rev) {
  const file = (v, type, ids, o = {}) => {
    const parts = ids.map((id) => (v === "223" ? sit223 : PART[type])(id, rev, { text: `r${rev} $& <${id}> $'` }));
    let message = v === "223" ? doc223(parts) : DOC[type](parts);
    if (o.cut) message = message.slice(0, message.lastIndexOf(o.cut));
    return { type: type === "CONTROLLER" ? "VARIABLE_MESSAGE_SIGN_METADATA_XML" : "VARIABLE_MESSAGE_SIGN_DATEX_XML", version: o.version ?? V[v], message, bad: Boolean(o.cut), says: o.cut || o.version ? [] : ids.map((id, i) => ({ key: `${id} ${V[v]} ${type}`, text: JSON.stringify(canon(tree(parts[i]))), effect: type === "CONTROLLER" ? undefined : iso(start(rev)) })) };
  };
  const [a, b] = DEVICES;
  return {
    two: () => [file("223", "SITUATION", [a, b])], one: () => [file("223", "SITUATION", [a])],
    situation: () => [file("35", "SITUATION", [b, a]), file("223", "SITUATION", [b])],
    status: () => [file("35", "CONTROLLER_STATUS", [a, b]), file("37", "SITUATION", [a])],
    table: () => [file("37", "CONTROLLER", [a]), file("37", "CONTROLLER_STATUS", [b])],
    cut: () => [file("223", "SITUATION", [a, b], { cut: "</situation>" }), file("35", "SITUATION", [a], { cut: "</sit:situation>" })],
    other: () => [file("35", "SITUATION", [a], { version: "DATEXII_9" }), file("35", "CONTROLLER", [a])],
  }[kind]();
}

export async function run(ctx) {
  const U = "road/data-upload/src/lambda/", S = "road/variable-signs/src/lambda/";
  const GET = { "223 SITUATION": "get-datex2", ...Object.fromEntries(["35", "37"].flatMap((v) => [["CONTROLLER", "controllers"], ["CONTROLLER_STATUS", "statuses"], ["SITUATION", "situations"]].map(([t, n]) => [`${v} ${t}`, `get-${n}-datex2-${v}`]))) };
  const a = await app({ upload: `${U}upload-datex2/upload-datex2.ts`, process: `${U}handle-new-messages/handle-new-messages.ts`, clean: `${U}delete-old-messages/delete-old-messages.ts`,
    ...Object.fromEntries(["update-datex2", "update-json-data", "update-json-metadata", ...Object.values(GET)].map((n) => [n.replaceAll("-", "_"), `${S}${n}/${n}.ts`])) }, { stubs: ["xml2js", "@rgrove/parse-xml", "uuid", "mqtt"] });
  let searches = 0; // a document is searched a few times only: an endless search is stopped
  const begin = (rows, o = {}) => {
    searches = 0;
    const x = a.start({ schema, functions, translate, now: NOW, env: { QUEUE_URL: "queue" }, secret: { proxy_host: "proxy", proxy_ro_host: "proxy-ro" }, stubs: { xml2js: { ...xml, default: xml }, "@rgrove/parse-xml": { parseXml: xml.parseXml, XmlElement: xml.XmlElement }, uuid: { v4: () => "uuid" }, mqtt: {} }, ...o });
    insert(x.sql, rows);
    return x;
  };
  // indexOf of the code under test: at most a thousand searches in an execution
  const indexOf = String.prototype.indexOf;
  String.prototype.indexOf = function (...p) { if (this.length > 200 && ++searches > 1000) throw Object.assign(new RangeError("endless search"), { endless: true }); return indexOf.apply(this, p); };
  const device = (id, o = {}) => ({ id, type: "T", road_address: "1", direction: "d", carriageway: "c", etrs_tm35fin_x: 1, etrs_tm35fin_y: 2, deleted_date: null, modified: iso(NOW - D), ...o });
  const stored = (x) => new Map(x.sql.rows("select * from device_data_datex2").map((r) => [`${r.device_id} ${r.version} ${r.type}`, r]));

  // what is stored of the uploads: whatever was processed or something newer, unaltered
  const rowsOf = (x) => x.sql.rows("select * from data_incoming order by data_id");
  const judge = (c, x, sent, why, older) => {
    const rows = rowsOf(x);
    const at = new Map(); // row -> the file it holds
    for (const r of rows) { const f = sent.find((g) => g.message === r.data && g.version === r.version && g.type === r.type); c.check(f, "row-invented", why); c.equal([r.source, r.message_id], ["API", f.id], "row", why); at.set(r, f); }
    const now = stored(x);
    const keys = new Set([...sent.flatMap((f) => f.says.map((s) => s.key)), ...now.keys()]);
    for (const key of keys) {
      const claims = sent.flatMap((f) => f.says.filter((s) => s.key === key).map((s) => ({ ...s, rev: f.rev })));
      const due = Math.max(-1, ...rows.filter((r) => r.status === "PROCESSED").flatMap((r) => at.get(r).says.filter((s) => s.key === key).map(() => at.get(r).rev)));
      const row = now.get(key);
      if (!row) { c.check(due < 0, "not-stored", () => `${key} of a processed message is not stored; ${why()}`); continue; }
      let text; try { text = JSON.stringify(canon(tree(row.datex2))); } catch (e) { c.fail("stored-malformed", `${key}: ${e.message}: ${row.datex2.slice(0, 200)}`); }
      const found = claims.find((s) => s.text === text);
      c.check(found, "stored-altered", () => `${key}: ${row.datex2}; ${why()}`);
      c.check(found.rev >= due, older, () => `${key}: revision ${found.rev} is stored although ${due} was processed; ${why()}`);
      if (found.effect) c.equal(row.effect_date, found.effect, "effect-date", why);
    }
  };

  // ---- uploads become device data ----
  await ctx.explore("uploads", async (c) => {
    let armed = true;
    const x = begin({ device: DEVICES.map((id) => device(id)) });
    let n = 0;
    x.sql.faults = [];
    x.sql.before = async (conn, text) => {
      if (!armed || /^(discard|set)/i.test(text.trim())) return;
      const f = c.deviate(`db ${n++}`, ["ok", "error", "slow"]);
      if (f === "error") { x.sql.faults.push(text.trim().slice(0, 60)); throw new Error(`database error at ${text.slice(0, 30)}`); }
      if (f === "slow") await new Promise((r) => x.w.setTimeout(r, 3000));
    };
    const sent = []; // every file that was sent, in order
    const revs = ctx.thorough ? 3 : 2;
    let trace = "";
    const rowsNow = () => rowsOf(x);
    for (let i = 0; i <= revs; i++) {
      x.w.now = Math.max(x.w.now + MIN, NOW + i * MIN);
      if (i < revs) {
        const kind = c.choose(`message ${i}`, ["one", "two", "situation", "status", "table", "cut", "other"]);
        const files = message(kind, i).map((f) => ({ ...f, rev: i, id: `m${i}` }));
        const before = rowsNow().length, fb = x.sql.faults.length, sb = x.sent.length;
        sent.push(...files);
        const r = await x.w.settle(x.m.upload.handler({ headers: { "X-Request-ID": `m${i}` }, body: JSON.stringify({ datexIIVersions: files.map(({ type, version, message }) => ({ type, version, message })) }) }));
        const why = () => `upload ${i} ${kind} -> ${JSON.stringify(r.value)}, failed: ${x.sql.faults}`;
        c.check(r.ok, "upload-threw", () => String(r.error));
        const added = rowsNow().length - before;
        if (x.sql.faults.length === fb) { c.equal([r.value.statusCode, added], [200, files.length], "upload", why); c.equal(x.sent.slice(sb).map((q) => q.QueueUrl), ["queue"], "no-trigger", why); }
        else c.check(added === files.length || r.value.statusCode >= 500, "upload-lost", () => `${added} of ${files.length} files stored; ${why()}`);
        trace += `u${kind}${r.value.statusCode};`;
      }
      if (i === revs) armed = false;
      if (i < revs && !c.choose("process", [false, true])) continue;
      const fb = x.sql.faults.length;
      const r = await x.w.settle(x.m.process.handler());
      c.check(r.ok, "process-threw", () => String(r.error));
      const rows = rowsNow();
      const why = () => `after ${trace} rows ${rows.map((q) => `${q.data_id}:${q.version}:${q.status}`)}, failed: ${x.sql.faults}`;
      const mine = x.sql.faults.slice(fb).length;
      if (!mine) c.check(rows.every((q) => q.status !== "NEW"), "left-new", why);
      const failed = rows.filter((q) => q.status === "FAILED" && !sent.find((f) => f.message === q.data).bad).length;
      c.check(failed <= x.sql.faults.length, "failed-without-reason", why);
      c.check(rows.every((q) => q.status !== "PROCESSED" || !sent.find((f) => f.message === q.data).bad), "processed-broken", why);
      judge(c, x, sent, why, "older-stored");
      c.equal(x.sql.open.size, 0, "connection-left", why);
      trace += `p${rows.map((q) => q.status[0]).join("")};`;
    }
    return trace;
  }, { bound: ctx.thorough ? 2 : 1 });

  // ---- two runs at a time: one waits in a statement while a message arrives and is processed ----
  await ctx.explore("overlapping runs", async (c) => {
    const x = begin({ device: DEVICES.map((id) => device(id)) });
    const sent = [];
    const upload = async (i, kind) => { const files = message(kind, i).map((f) => ({ ...f, rev: i, id: `m${i}` })); sent.push(...files); x.w.now = NOW + i * MIN; await x.w.settle(x.m.upload.handler({ headers: { "X-Request-ID": `m${i}` }, body: JSON.stringify({ datexIIVersions: files.map(({ type, version, message }) => ({ type, version, message })) }) })); };
    const kinds = ["one", "two", "situation", "table"];
    await upload(0, c.choose("first", kinds));
    const at = c.choose("waits at", Array.from({ length: 9 }, (_, i) => i));
    let n = 0, go, held = false;
    const gate = new Promise((r) => { go = r; });
    x.sql.before = async (conn, text) => { if (/^(discard|set)/i.test(text.trim())) return; if (n++ === at && !held) { held = true; await gate; } };
    const first = x.m.process.handler();
    await x.w.quiesce();
    if (!held) { await x.w.settle(first); return "short"; }
    await upload(1, c.choose("second", kinds));
    const second = await x.w.settle(x.m.process.handler());
    go();
    const r = await x.w.settle(first);
    c.check(r.ok && second.ok, "process-threw", () => String(r.error ?? second.error));
    await x.w.settle(x.m.process.handler());
    const rows = rowsOf(x);
    const why = () => `the first run waited at statement ${at}; rows ${rows.map((q) => `${q.data_id}:${q.version}:${q.status}`)}`;
    c.check(rows.every((q) => q.status === "PROCESSED"), "not-processed", why);
    judge(c, x, sent, why, "older-stored-by-the-slower-run");
    return "overlap";
  });

  // ---- the older interface: situations of a document, all or none ----
  await ctx.explore("documents", async (c) => {
    let armed = true;
    const x = begin({ device: DEVICES.map((id) => device(id)) });
    withDbFaults({ deviate: (n, v) => (armed ? c.deviate(n, v) : v[0]) }, x.sql);
    const model = new Map();
    let updated = null, trace = "";
    const n = ctx.thorough ? 3 : 2;
    for (let i = 0; i <= n; i++) {
      x.w.now = NOW + i * H;
      if (i === n) armed = false;
      const kind = c.choose(`document ${i}`, i === n ? ["two"] : ["two", "one", "none", "cut", "cut first", "no xml", "no payload", "two payloads", "no time", "nothing"]);
      const parts = [DEVICES[0], DEVICES[1]].map((id) => sit223(id, i, { text: `r${i} $& 'x'` }));
      const whole = doc223(kind === "one" ? parts.slice(0, 1) : kind === "none" ? [] : parts);
      const text = { cut: () => whole.slice(0, whole.lastIndexOf("</situation>") + 3), "cut first": () => whole.replace(/<\/situation>[^]*$/, ""), "no xml": () => whole.replace(/^<\?xml[^>]*\?>/, ""), "no payload": () => whole.replaceAll("payloadPublication", "payload"), "two payloads": () => whole.replace("</d2LogicalModel>", '<payloadPublication lang="fi"></payloadPublication></d2LogicalModel>'), "no time": () => whole.replace(/(<overallStartTime>)[^<]*(<\/overallStartTime>[^]*)$/, "$1soon$2"), nothing: () => "" }[kind]?.() ?? whole;
      const fb = x.sql.faults.length;
      const r = await x.w.settle(x.m.update_datex2.handler({ body: text }));
      const failed = x.sql.faults.slice(fb);
      const why = () => `document ${i} ${kind} -> ${JSON.stringify(r.value ?? r.error)}, failed: ${failed}`;
      c.check(r.ok, "threw", why);
      const wants = { "no xml": 400, "no payload": 400, "two payloads": 400, nothing: 400, cut: 500, "cut first": 500, "no time": 500 }[kind] ?? 200;
      const late = failed.some((f) => /^(begin|discard)/.test(f)) && wants === 400;
      c.equal(r.value.statusCode, failed.length && wants === 200 ? 500 : wants, late ? "" : "status", why);
      if (r.value.statusCode === 200) {
        for (const [j, part] of parts.entries()) if (kind === "two" || (kind === "one" && !j)) model.set(`${DEVICES[j]} ${V["223"]} SITUATION`, [JSON.stringify(canon(tree(part))), iso(start(i)), iso(x.w.now)]);
        updated = iso(x.w.now);
      }
      const now = new Map([...stored(x)].map(([k, q]) => [k, [JSON.stringify(canon(tree(q.datex2))), q.effect_date, q.modified]]));
      c.equal(Object.fromEntries([...now].sort()), Object.fromEntries([...model].sort()), "stored", why);
      trace += `${kind}${r.value.statusCode};`;
      c.equal(x.sql.rows("select data_type, updated from data_updated").map((q) => [q.data_type, q.updated]), updated ? [["VS_DATEX2", updated]] : [], "updated", why);
      c.equal(x.sql.open.size, 0, "connection-left", why);
    }
    return trace;
  }, { bound: ctx.thorough ? 2 : 1 });

  // ---- what is published ----
  const NS = { com: "common", loc: "locationReferencing", roa: "roadTrafficData", fst: "faultAndStatus", egi: "energyInfrastructure", prk: "parking", fac: "facilities", ubx: "urbanExtensions", locx: "locationExtension", d2: "d2Payload", tmp: "trafficManagementPlan", comx: "commonExtension", vms: "vms", rer: "reroutingManagementEnhanced", sit: "situation" };
  const NS37 = { afac: "afirFacilities", aegi: "afirEnergyInfrastructure", tro: "trafficRegulation", cz: "controlledZone", olrb: "openLrBinary" };
  const TIMES = { ordinary: start(1), "test start": Date.UTC(2024, 4, 20, 19), "before test": Date.UTC(2024, 4, 20, 19) - 1, "test end": Date.UTC(2024, 4, 21, 2), "last of test": Date.UTC(2024, 4, 21, 2) - 1, "second test": Date.UTC(2024, 4, 21, 23), "between tests": Date.UTC(2024, 4, 21, 12), "after tests": Date.UTC(2024, 4, 22, 2) };
  const inTest = (t) => (t >= Date.UTC(2024, 4, 20, 19) && t < Date.UTC(2024, 4, 21, 2)) || (t >= Date.UTC(2024, 4, 21, 19) && t < Date.UTC(2024, 4, 22, 2));
  const TESTERS = ["VME/TIO01K502", "VME/TIO01K500", "VME/TIO015111", "VME/TIO015152"];
  const OUTER = { SITUATION: "sit", CONTROLLER: "vms", CONTROLLER_STATUS: "vms" };
  const unprefixed = (t, yes) => (yes ? t.replace(/(<\/?)(?:sit|vms):/g, "$1") : t);
  const TEXTS = ["plain", "$& and $1", "$` and $' and $$", "SITUATIONS STATUSES CONTROLLERS PUBLICATION_TIME", "</situation> & <b>", "ä €"];
  for (const [name, lambda] of Object.entries(GET)) {
    const [v, type] = name.split(" ");
    await ctx.explore(`publication ${name}`, async (c) => {
      const rows = [], devices = [], want = [];
      let modified = 0;
      const make = (id, o) => (v === "223" ? sit223 : PART[type])(id, 1, o);
      for (const [i, id] of ["M1", "M2", "A1"].entries()) {
        const state = c.deviate(`device ${id}`, ["there", "deleted", "unknown", "absent"]);
        const record = type === "SITUATION" ? c.deviate(`record ${id}`, [id, ...(ctx.thorough ? TESTERS : [TESTERS[i], TESTERS[3]]), `${TESTERS[i]}1`]) : id;
        const time = type === "SITUATION" ? c.deviate(`time ${id}`, Object.keys(TIMES)) : "ordinary";
        const text = c.deviate(`text ${id}`, TEXTS);
        const bare = v !== "223" && c.deviate(`prefix ${id}`, ["all", "inner", "none"]); // what the devices of old stored
        const of = c.deviate(`kind ${id}`, ["asked", "other version", "other type"]);
        const mod = NOW - 3 * D + c.deviate(`modified ${id}`, [i, 10, -10]) * H + 123;
        if (state === "absent") continue;
        if (state !== "unknown") devices.push(device(id, { deleted_date: state === "deleted" ? iso(NOW - D) : null }));
        const o = { record, start: TIMES[time], text };
        rows.push({ device_id: id, version: of === "other version" ? V[v === "35" ? "37" : "35"] : V[v], type: of === "other type" ? (type === "SITUATION" ? "CONTROLLER" : "SITUATION") : type, datex2: unprefixed(make(id, { ...o, p: bare === "inner" ? "" : undefined }), bare === "none"), effect_date: iso(TIMES[time]), modified: iso(mod) });
        if (state !== "there" || of !== "asked") continue;
        modified = Math.max(modified, mod);
        if (type === "SITUATION" && TESTERS.includes(record) && inTest(TIMES[time])) continue;
        want.push([id, JSON.stringify(canon(tree(bare === "none" ? unprefixed(make(id, { ...o, p: "outer:" }), true).replaceAll("outer:", `${OUTER[type]}:`) : make(id, o))))]);
      }
      const x = begin({ device: devices, device_data_datex2: rows });
      const r = await x.w.settle(x.m[lambda.replaceAll("-", "_")].handler());
      c.check(r.ok, "failed", () => String(r.error));
      c.equal([r.value.status, r.value.timestamp], [200, new Date(modified).toUTCString()], "response");
      const out = body(r.value);
      let root; try { root = tree(out); } catch (e) { c.fail("malformed", `${e.message}: ${out.slice(-600)}`); }
      const kids = elements(root);
      const table = v === "223" ? kids.find((k) => k.name === "payloadPublication") : type === "CONTROLLER" ? kids.find((k) => k.name === "vms:vmsControllerTable") : root;
      c.check(table, "frame", () => out.slice(0, 300));
      const item = v === "223" ? "situation" : `${type === "SITUATION" ? "sit:situation" : type === "CONTROLLER" ? "vms:vmsController" : "vms:vmsControllerStatus"}`;
      const got = elements(table).filter((k) => k.name === item).map((k) => JSON.stringify(canon(k)));
      c.equal(got, want.sort(([p], [q]) => (p < q ? -1 : 1)).map(([, t]) => t), "devices", () => out.slice(-900));
      const head = v === "223" ? elements(table) : kids;
      c.equal([root.name, root.attrs["xsi:type"] ?? null], v === "223" ? ["d2LogicalModel", null] : type === "SITUATION" ? ["sit:situationPublication", null] : ["d2:payload", type === "CONTROLLER" ? "vms:VmsTablePublication" : "vms:VmsPublication"], "root");
      const time = head.find((k) => /publicationTime$/.test(k.name)), creator = head.find((k) => /publicationCreator$/.test(k.name));
      c.equal([time && Date.parse(textOf(time)), creator && elements(creator).map((k) => textOf(k).toLowerCase())], [modified, ["fi", "fta"]], "header", () => out.slice(0, 2000));
      if (v !== "223") {
        for (const [p, n] of Object.entries({ ...NS, ...(v === "37" ? NS37 : {}) })) c.equal(root.attrs[`xmlns:${p}`], `http://datex2.eu/schema/3/${n}`, "namespace", () => p);
        const rest = kids.filter((k) => k.name !== item && !/^com:publication(Time|Creator)$/.test(k.name) && k !== table).map((k) => k.name);
        c.equal(rest, type === "SITUATION" ? [] : ["vms:headerInformation"], "other-elements");
      }
      return got.length;
    }, { bound: ctx.thorough ? 3 : 2 });
  }

  // ---- the device list ----
  await ctx.explore("device list", async (c) => {
    let armed = true;
    const IDS = ["M1", "M2", "M'3"];
    const model = new Map();
    for (const id of IDS) { const s = c.choose(`known ${id}`, id === "M'3" ? ["no", "yes"] : id === "M1" || ctx.thorough ? ["no", "yes", "deleted"] : ["yes"]); if (s !== "no") model.set(id, device(id, { deleted_date: s === "deleted" ? iso(NOW - 9 * D) : null })); }
    const x = begin({ device: [...model.values()] });
    withDbFaults({ deviate: (n, v) => (armed ? c.deviate(n, v) : v[0]) }, x.sql);
    const cols = (r) => [r.id, r.type, r.road_address, r.direction, r.carriageway, r.etrs_tm35fin_x, r.etrs_tm35fin_y, r.deleted_date];
    const view = (rows) => [...rows].map(cols).sort((p, q) => (p[0] < q[0] ? -1 : 1));
    const n = ctx.thorough ? 3 : 2;
    for (let i = 0; i < n; i++) {
      x.w.now = NOW + i * H;
      const body = c.deviate("body", ["list", "nothing"]);
      const list = IDS.flatMap((id, j) => { const s = c.choose(`list ${id}`, id === IDS[2] ? [false, true] : i || (id === "M2" && !ctx.thorough) ? ["gone", "same"] : ["gone", "same", "new"]); return s === "gone" || s === false ? [] : [{ tunnus: id, tyyppi: s === "new" ? "N'" : "T", sijainti: { tieosoite: `a${i}`, ajosuunta: "d", ajorata: "c", e: 10 * j + i, n: 20 * j + i } }]; });
      const fb = x.sql.faults.length;
      const r = await x.w.settle(x.m.update_json_metadata.handler({ body: body === "nothing" ? "" : JSON.stringify({ laitteet: list }) }));
      const failed = x.sql.faults.slice(fb);
      const why = () => `list ${i} -> ${JSON.stringify(r.value ?? r.error)}, failed: ${failed}`;
      c.check(r.ok, "threw", why);
      c.equal(r.value.statusCode, body === "nothing" ? 400 : failed.length ? 500 : 200, "status", why);
      if (r.value.statusCode === 200) {
        for (const [id, d] of model) if (!list.some((l) => l.tunnus === id) && !d.deleted_date) model.set(id, { ...d, deleted_date: iso(x.w.now) });
        for (const l of list) model.set(l.tunnus, { id: l.tunnus, type: l.tyyppi, road_address: l.sijainti.tieosoite, direction: l.sijainti.ajosuunta, carriageway: l.sijainti.ajorata, etrs_tm35fin_x: l.sijainti.e, etrs_tm35fin_y: l.sijainti.n, deleted_date: null });
      }
      c.equal(view(x.sql.rows("select * from device")), view(model.values()), "devices", why);
      c.equal(x.sql.open.size, 0, "connection-left", why);
    }
    return JSON.stringify(view(model.values()));
  }, { bound: 1 });

  // ---- the state of the signs ----
  await ctx.explore("sign states", async (c) => {
    const x = begin({ device: DEVICES.map((id) => device(id)) });
    withDbFaults(c, x.sql);
    let want = [], wantRows = [];
    const rowOf = (lm) => [lm.tunnus, lm.nayttama ?? null, lm.lisatieto ?? null, iso(Date.parse(lm.voimaan)), lm.syy ?? null, lm.luotettavuus];
    for (let i = 0; i < 2; i++) {
      const list = [0, 1].flatMap((j) => { const k = c.choose(`sign ${j}`, ["none", "bare", "rows", ...(ctx.thorough || !j ? ["stranger", "no rows"] : [])]); return k === "none" ? [] : [{ tunnus: k === "stranger" ? "?" : DEVICES[j + 1], ...(k === "bare" ? {} : { nayttama: `${i}80'`, lisatieto: "x $1", syy: "s" }), voimaan: iso(NOW - H - i), luotettavuus: "NORMAALI", ...(k === "rows" ? { rivit: [{ naytto: 1, rivi: 1, teksti: "a'$2" }, { naytto: 1, rivi: 2 }] } : k === "no rows" ? { rivit: [] } : {}) }]; });
      const fb = x.sql.faults.length;
      const r = await x.w.settle(x.m.update_json_data.handler({ body: JSON.stringify({ liikennemerkit: list }) }));
      const failed = x.sql.faults.slice(fb);
      const why = () => `state ${i} -> ${JSON.stringify(r.value ?? r.error)}, failed: ${failed}`;
      c.check(r.ok, "threw", why);
      const bad = failed.length || list.some((l) => l.tunnus === "?");
      c.equal(r.value.statusCode, bad ? 500 : 200, "status", why);
      if (!bad) { want = [...want, ...list.map(rowOf)]; wantRows = [...wantRows, ...list.flatMap((l) => (l.rivit ?? []).map((q) => [l.tunnus, l.voimaan, q.naytto, q.rivi, q.teksti ?? null]))]; }
      const s = (l) => l.map((q) => JSON.stringify(q)).sort();
      c.equal(s(x.sql.rows("select * from device_data").map((q) => [q.device_id, q.display_value, q.additional_information, q.effect_date, q.cause, q.reliability])), s(want), "states", why);
      c.equal(s(x.sql.rows("select d.device_id, d.effect_date, r.* from device_data_row r join device_data d on r.device_data_id = d.id").map((q) => [q.device_id, q.effect_date, q.screen, q.row_number, q.text])), s(wantRows), "rows", why);
      c.equal(x.sql.open.size, 0, "connection-left", why);
    }
    return `${want.length} ${wantRows.length}`;
  }, { bound: 1 });

  // ---- how long uploads are kept ----
  await ctx.explore("retention", async (c) => {
    const midnight = Math.floor(NOW / D) * D;
    const AGE = { new: NOW, week: midnight - 7 * D, "just older": midnight - 7 * D - 1, old: midnight - 30 * D, "six days": midnight - 6 * D };
    const rows = [0, 1, 2].map((i) => { const k = c.choose(`age ${i}`, Object.keys(AGE)); return { message_id: `m${i}`, source: "API", version: V["223"], type: "VARIABLE_MESSAGE_SIGN_DATEX_XML", data: "", status: ["NEW", "FAILED", "PROCESSED"][(i + (ctx.thorough ? c.choose("status", [0, 1, 2]) : 0)) % 3], created_at: iso(AGE[k]) }; });
    const x = begin({ data_incoming: rows });
    withDbFaults(c, x.sql);
    const r = await x.w.settle(x.m.clean.handler());
    c.check(r.ok, "threw", () => String(r.error));
    c.equal(x.sql.rows("select message_id from data_incoming").map((q) => q.message_id), rows.filter((q) => x.sql.faults.length || Date.parse(q.created_at) >= midnight - 7 * D).map((q) => q.message_id), "kept");
    return JSON.stringify(x.sql.rows("select message_id from data_incoming"));
  }, { bound: 1 });
}
