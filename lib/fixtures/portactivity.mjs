// Tables of the port activity database (marine/portactivity/database/update) and of the tables of the marine
// database it reads, for SQLite, and a fixture of ships and port calls.
export const schema = `
create table port_call_timestamp (
  id integer primary key autoincrement, event_type text not null check (event_type in ('ATA','ATB','ATD','ETA','ETB','ETD','ETP','RPS','PPS','APS','APC')),
  event_time timestamp with time zone not null, event_time_confidence_lower text, event_time_confidence_lower_diff integer, event_time_confidence_upper text, event_time_confidence_upper_diff integer,
  event_source text not null, record_time timestamp with time zone not null, location_locode varchar(5) not null check (length(location_locode) <= 5),
  location_terminal text, location_berth text, location_berth_position text, location_ship_side text, ship_mmsi numeric(10), ship_imo numeric(10) not null, portcall_id numeric(10),
  location_portarea varchar(6) check (length(location_portarea) <= 6), location_from_locode varchar(5) check (length(location_from_locode) <= 5), source_id text,
  check (portcall_id is not null or event_source = 'Awake.AI Pred'));
create unique index port_call_timestamp_update_key on port_call_timestamp (ship_imo, event_source, location_locode, event_type, event_time, record_time, portcall_id);
create table pilotage (id bigint primary key, vessel_imo integer, vessel_mmsi integer, vessel_eta timestamp with time zone, pilot_boarding_time timestamp with time zone, pilotage_end_time timestamp with time zone not null,
  schedule_updated timestamp with time zone not null, schedule_source text not null, state text not null check (state in ('ESTIMATE','NOTICE','ORDER','ACTIVE','FINISHED')), vessel_name text not null, start_code text not null, start_berth text, end_code text not null, end_berth text);
create table vessel (mmsi numeric, timestamp bigint, name text, imo numeric);
create table vessel_location (mmsi numeric, sog double precision, nav_stat integer, modified timestamp with time zone);
create table port_call (port_call_id bigint, port_call_timestamp timestamp with time zone, vessel_name text, port_to_visit varchar(5), mmsi numeric, imo_lloyds numeric);
create table port_area_details (port_area_details_id bigint, port_call_id bigint, eta timestamp with time zone, etd timestamp with time zone, ata timestamp with time zone, atd timestamp with time zone);
`;
export const NOW = Date.UTC(2024, 5, 15, 12, 0, 0);
export const at = (h) => (h === undefined || h === null ? null : new Date(NOW + h * 3600000).toISOString());
/** ships and port calls; times in hours from NOW */
export function fixture() {
  return {
    vessel: [{ mmsi: 110, timestamp: 1, name: "OLD A", imo: 1111111 }, { mmsi: 111, timestamp: 2, name: "A", imo: 1111111 }, { mmsi: 222, timestamp: 1, name: "B", imo: 2222222 }],
    vessel_location: [],
    port_call: [
      { port_call_id: 1, port_call_timestamp: at(-2), vessel_name: "a", port_to_visit: "FIHEL", mmsi: 111, imo_lloyds: 1111111 },
      { port_call_id: 2, port_call_timestamp: at(-1), vessel_name: "a", port_to_visit: "FIHEL", mmsi: 111, imo_lloyds: 1111111 },
      { port_call_id: 3, port_call_timestamp: at(-5), vessel_name: "b", port_to_visit: "FIKOK", mmsi: 222, imo_lloyds: 2222222 },
      { port_call_id: 4, port_call_timestamp: at(-9), vessel_name: "b", port_to_visit: "FIHEL", mmsi: 222, imo_lloyds: 2222222 },
      { port_call_id: 5, port_call_timestamp: at(-3), vessel_name: "c", port_to_visit: "FIKOK", mmsi: 333, imo_lloyds: 3333333 },
    ],
    port_area_details: [
      { port_area_details_id: 1, port_call_id: 1, eta: at(2), etd: at(10), ata: null, atd: null },
      { port_area_details_id: 2, port_call_id: 2, eta: at(30), etd: at(40), ata: null, atd: null },
      { port_area_details_id: 3, port_call_id: 3, eta: at(-3), etd: at(5), ata: at(-1), atd: null },
      { port_area_details_id: 4, port_call_id: 4, eta: at(-9), etd: at(-2), ata: at(-8), atd: at(-1) },
      { port_area_details_id: 5, port_call_id: 5, eta: at(3), etd: at(20), ata: null, atd: null },
    ],
  };
}
export function insert(sql, data) {
  for (const [t, rows] of Object.entries(data)) for (const r of rows) {
    const k = Object.keys(r);
    sql.db.prepare(`insert into ${t} (${k.join(",")}) values (${k.map(() => "?").join(",")})`).run(...k.map((x) => r[x] ?? null));
  }
}
const newest = (rows, by) => [...rows].sort((a, b) => (a[by] < b[by] ? 1 : -1))[0];
/** the port call a timestamp belongs to, by the documented rule */
export function portCallOf(d, { port, type, time, mmsi, imo }) {
  const m = mmsi ?? (imo !== undefined ? newest(d.vessel.filter((v) => v.imo === imo), "timestamp")?.mmsi ?? newest(d.port_call.filter((v) => v.imo_lloyds === imo), "port_call_timestamp")?.mmsi : undefined);
  const i = imo ?? (mmsi !== undefined ? newest(d.vessel.filter((v) => v.mmsi === mmsi), "timestamp")?.imo ?? newest(d.port_call.filter((v) => v.mmsi === mmsi), "port_call_timestamp")?.imo_lloyds : undefined);
  const col = { ETA: "eta", ETD: "etd", ATA: "ata", ATD: "atd" }[type];
  if (!col) return undefined;
  const fits = [];
  for (const pc of d.port_call) for (const a of d.port_area_details) {
    if (a.port_call_id !== pc.port_call_id || pc.port_to_visit !== port || a[col] === null) continue;
    if (!((m !== undefined && pc.mmsi === m) || (i !== undefined && pc.imo_lloyds === i))) continue;
    const t = Date.parse(a[col]);
    if (type.startsWith("E") ? t < NOW : t > NOW) continue;
    fits.push([Math.abs(t - Date.parse(time)), pc.port_call_id]);
  }
  return fits.sort((x, y) => x[0] - y[0])[0]?.[1];
}
export const imoOf = (d, mmsi) => (mmsi ? newest(d.vessel.filter((v) => v.mmsi === mmsi), "timestamp")?.imo ?? newest(d.port_call.filter((v) => v.mmsi === mmsi), "port_call_timestamp")?.imo_lloyds : undefined);
export const mmsiOf = (d, imo) => (imo ? newest(d.vessel.filter((v) => v.imo === imo && v.mmsi > 0), "timestamp")?.mmsi ?? newest(d.port_call.filter((v) => v.imo_lloyds === imo && v.mmsi > 0), "port_call_timestamp")?.mmsi : undefined);
