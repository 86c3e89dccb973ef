// Tables of the maintenance trackings in the road database, for SQLite, and the PostGIS functions of the queries
// (geometries are kept as GeoJSON text; simplification and snapping keep them as they are).
export const schema = `
create table maintenance_tracking_observation_data (id bigint primary key, observation_time timestamp with time zone not null check (observation_time glob '[0-9]*T*Z'), sending_time timestamp with time zone not null check (sending_time glob '[0-9]*T*Z'), json text not null, harja_workmachine_id bigint not null, harja_contract_id bigint not null,
  sending_system text not null, status text not null, hash text not null unique, s3_uri text not null, created timestamp with time zone);
create table maintenance_tracking_domain (name text primary key, source text, created timestamp with time zone);
create table maintenance_tracking_domain_contract (domain text not null, contract text not null, name text not null, source text, start_date timestamp with time zone, end_date timestamp with time zone, data_last_updated timestamp with time zone, unique (domain, contract));
create table maintenance_tracking_domain_task_mapping (name text not null, original_id text not null, domain text not null, ignore boolean not null, info text, unique (domain, original_id));
create table maintenance_tracking_work_machine (id bigint primary key, harja_id bigint not null, harja_urakka_id bigint not null, type text, unique (harja_id, harja_urakka_id));
create table maintenance_tracking (id bigint primary key, sending_system text, sending_time timestamp with time zone, last_point text, geometry text, work_machine_id bigint, start_time timestamp with time zone, end_time timestamp with time zone not null, direction numeric, finished boolean not null,
  domain text not null, contract text, message_original_id text, previous_tracking_id bigint references maintenance_tracking(id), created timestamp with time zone default (now()));
create table maintenance_tracking_task (maintenance_tracking_id bigint not null references maintenance_tracking(id), task text not null, primary key (maintenance_tracking_id, task));
create table data_updated (id integer, data_type text not null, subtype text not null default '-', updated timestamp with time zone not null, unique (data_type, subtype));
`;
export const sequences = () => {
  let seq = 0;
  const line = (a) => (a.type === "Point" ? [a.coordinates] : a.coordinates);
  const wkt = (g) => { const m = /^\s*POINT\s*(?:Z\s*)?\(([^()]*)\)\s*$/i.exec(g); return m ? JSON.stringify({ type: "Point", coordinates: m[1].trim().split(/\s+/).map(Number) }) : g; };
  const geo = (g) => { if (g === null) return null; const x = JSON.parse(wkt(g)); if (!["Point", "LineString"].includes(x.type) || !Array.isArray(x.coordinates)) throw new Error(`geometry ${g}`); return JSON.stringify({ type: x.type, coordinates: x.coordinates }); };
  return {
    nextval: () => ++seq,
    st_geomfromgeojson: geo, st_setsrid: (g, n) => { if (n !== 4326) throw new Error(`SRID ${n}`); return geo(g); }, st_snaptogrid: (g) => geo(g), st_simplify: (g) => geo(g), st_asgeojson: (g) => geo(g),
    st_force3d: (g) => { if (g === null) return null; const x = JSON.parse(geo(g)), z = (p) => [p[0], p[1], p[2] ?? 0]; return JSON.stringify({ ...x, coordinates: x.type === "Point" ? z(x.coordinates) : x.coordinates.map(z) }); },
    st_isempty: () => 0, st_startpoint: (g) => JSON.stringify({ type: "Point", coordinates: line(JSON.parse(g))[0] }), st_geometrytype: (g) => `ST_${JSON.parse(g).type}`,
    st_makeline: (a, b) => JSON.stringify({ type: "LineString", coordinates: [...line(JSON.parse(a)), ...line(JSON.parse(b))] }),
  };
};
export const translate = (t) => t
  .replace(/(UPDATE\s+maintenance_tracking_domain_contract)\s+UPDATE\s+SET/gi, "$1 SET") // the keyword is the alias of the table
  .replace(/\btimestamp\s+'/gi, "'")
  .replace(/array_agg\s*\(\s*(\w+\.\w+)\s+order\s+by[^)]*\)/gi, "json_group_array($1)")
  .replace(/(DELETE\s+FROM\s+\w+)\s+tgt\b/gi, "$1 AS tgt").replace(/UPDATE\s+maintenance_tracking\s+tgt/gi, "UPDATE maintenance_tracking AS tgt");
