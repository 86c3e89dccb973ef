// Tables of the counting sites in the road database, for SQLite, and the PostgreSQL functions of its queries.
export const schema = `
create table cs2_site (id integer primary key, name text not null, domain text not null, description text, custom_id text, latitude double precision not null, longitude double precision not null,
  granularity text, directional boolean not null, travel_modes "text[]" not null, removed_timestamp timestamp with time zone, last_data_timestamp timestamp with time zone, modified timestamp with time zone);
create table cs2_data (site_id integer not null, travel_mode text not null, direction text not null, data_timestamp timestamp with time zone not null, granularity text not null, counts integer not null, modified timestamp with time zone);
create table data_updated (id integer, data_type text not null, subtype text not null default '-', updated timestamp with time zone not null, unique (data_type, subtype));
`;
let seq = 0;
export const functions = {
  nextval: () => ++seq,
  to_char: (t, f) => { if (t === null) return null; if (f !== 'YYYY-MM-DD"T"HH24:MI:SS"Z"') throw new Error(`to_char ${f}`); return new Date(t).toISOString().replace(/\.\d+Z$/, "Z"); },
};
export const translate = (t) => {
  t = t.replace(/'\{\}'/g, "'[]'").replace(/\barray\[([^\]]*)\]/gi, "json_array($1)");
  if (!/json_build_object/i.test(t)) return t;
  return t.replace(/ST_AsGeoJSON\s*\(\s*ST_POINT\s*\(([^,()]+),([^,()]+)\)\s*\)(::jsonb?)?/gi, "json_object('type', 'Point', 'coordinates', json_array($1,$2))")
    .replace(/json_build_object/gi, "json_object").replace(/json_agg/gi, "json_group_array").replace(/\s+at\s+time\s+zone\s+'utc'/gi, "")
    .replace(/(?<!')\b((?:\w+\.)?directional)\b(?!')/gi, "json(case when $1 then 'true' else 'false' end)").replace(/(?<!')\b((?:\w+\.)?travel_modes)\b(?!')/gi, "json($1)")
    .replace(/,\s*'\[\]'\s*\)/g, ", json_array())");
};
/** RFC 4180 as @std/csv writes it */
export const csv = { stringify: (rows, { columns }) => [columns.map((x) => x.header ?? x.prop ?? x), ...rows.map((r) => columns.map((x) => r[x.prop ?? x]))].map((r) => r.map((v) => { const s = v === null || v === undefined ? "" : String(v); return /[",\r\n]/.test(s) ? `"${s.replace(/"/g, '""')}"` : s; }).join(",") + "\r\n").join("") };
