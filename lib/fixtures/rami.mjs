// The tables of RAMI (rail), with the keys its statements rely on.
export const schema = `
create table rami_message (id text not null, version integer not null, message_type text not null, created_source datetime not null, start_validity datetime not null, end_validity datetime not null, train_number integer, train_departure_date date, journey_ref text, deleted datetime, primary key (id, version));
create table rami_message_station (rami_message_id text not null, rami_message_version integer not null, station_short_code text not null);
create table rami_message_audio (rami_message_id text not null, rami_message_version integer not null, text_fi text, text_sv text, text_en text, delivery_type text, start_date_time datetime, end_date_time datetime, start_time time, end_time time, days_of_week integer, event_type text, delivery_at datetime, repetitions integer, repeat_every integer);
create table rami_message_video (rami_message_id text not null, rami_message_version integer not null, text_fi text, text_sv text, text_en text, delivery_type text, start_date_time datetime, end_date_time datetime, start_time time, end_time time, days_of_week integer);
create table rami_stop_monitoring_message (rami_message_id text not null, train_number integer not null, train_departure_date date not null, message text not null, created_db datetime default (now()));
create table rami_udot (train_number integer not null, train_departure_date date not null, attap_id integer not null, unknown_delay integer not null, unknown_track integer not null, model_updated_time datetime, created_db datetime default (now()), unique (train_departure_date, train_number, attap_id));
create table rami_udot_history (rami_message_id text not null, train_number integer not null, train_departure_date date not null, attap_id integer not null, unknown_track integer not null, unknown_delay integer not null, created_db datetime default (now()));
create table time_table_row (attap_id integer, station_short_code text, scheduled_time datetime, type integer, departure_date date, train_number integer);
create trigger rami_udot_changed after update of unknown_delay, unknown_track on rami_udot when old.unknown_delay <> new.unknown_delay or old.unknown_track <> new.unknown_track begin update rami_udot set model_updated_time = null where rowid = new.rowid; end;
`;
export const DIR = "rail/rami/src/lambda/";
export const env = { ROSM_SQS_URL: "rosm", SM_SQS_URL: "sm", UDOT_SQS_URL: "udot", DLQ_URL: "dlq", SQS_DLQ_BUCKET_NAME: "dead", DB_APPLICATION: "avoindata" };

/**
 * Lets the explorer fail statements the way MySQL does: an error undoes the statement only, a deadlock rolls the
 * whole transaction back and what follows on the connection is outside of one.
 */
export function withMyFaults(c, sql, { kinds = ["ok", "error"], connect = false } = {}) {
  let n = 0;
  sql.faults = [];
  if (connect) sql.onConnect = async () => { if (c.deviate(`connect ${n++}`, ["ok", "error"]) !== "ok") { sql.faults.push("connect"); throw new Error("cannot connect"); } };
  sql.before = async (conn, text) => {
    const t = text.trim().toLowerCase();
    if (t.startsWith("rollback")) return;
    const f = c.deviate(`db ${n++}`, kinds);
    if (f === "ok") return;
    sql.faults.push(`${f} ${t.slice(0, 60)}`);
    if ((t.startsWith("commit") || f === "deadlock") && sql.owner === conn.id) { sql.db.exec("ROLLBACK"); sql.owner = undefined; }
    throw Object.assign(new Error(`database ${f} at ${t.slice(0, 30)}`), f === "deadlock" ? { code: "ER_LOCK_DEADLOCK", errno: 1213 } : { code: "ER_UNKNOWN_ERROR" });
  };
}

/**
 * Instantiating the bundle takes longer than most executions: an instance is used again, with empty tables and
 * queues, by the next execution if the last one ended well.
 */
export function reusable(create, now) {
  let x, clean = false, fault;
  const start = async (o = {}) => {
    fault = o.awsFault;
    if (!x || !clean) x = await create({ awsFault: (...p) => fault?.(...p) });
    clean = false;
    const { sql, w } = x;
    sql.before = sql.onConnect = sql.owner = undefined;
    for (const { name } of sql.rows("select name from sqlite_master where type = 'table'")) sql.db.exec(`delete from ${name}`);
    sql.faults = []; sql.open.clear(); sql.leaked = false; sql.log.length = 0; sql.used = 0; sql.queue = []; sql.n = 0;
    x.sent.length = x.calls.length = 0; x.w.stdout.length = x.w.stderr.length = 0; x.objects.clear(); x.n = 0;
    w.now = now;
    return x;
  };
  start.within = (body) => async (c) => { try { return await body(c); } finally { const q = x?.sql; clean = !!q && q.open.size === 0 && q.owner === undefined && !q.leaked && q.used === 0; } };
  return start;
}
