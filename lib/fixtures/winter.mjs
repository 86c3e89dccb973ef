// The tables of winter navigation, with the keys its statements rely on, and the PostgreSQL functions of its queries.
const D = "deleted boolean not null";
export const schema = `
create table wn_location (id text primary key, name text, type text, locode_list text, nationality text, latitude double precision, longitude double precision, winterport boolean, ${D});
create table wn_restriction (id text primary key, location_id text, text_compilation text, start_time timestamp with time zone, end_time timestamp with time zone, ${D});
create table wn_vessel (id text primary key, name text, callsign text, shortcode text, imo integer, mmsi integer, type text, ${D});
create table wn_activity (id text primary key, icebreaker_id text, vessel_id text, type text, reason text, public_comment text, start_time timestamp with time zone, end_time timestamp with time zone, ${D});
create table wn_source (id text primary key, name text, shortname text, nationality text, type text, vessel_id text, ${D});
create table wn_port_suspension (id text primary key, start_time timestamp with time zone, end_time timestamp with time zone, prenotification boolean, ports_closed boolean, due_to text, specifications text, ${D});
create table wn_port_suspension_location (id text primary key, suspension_id text, location_id text, ${D});
create table wn_queue (id text primary key, icebreaker_id text, vessel_id text, start_time timestamp with time zone, end_time timestamp with time zone, order_num integer, ${D});
create table wn_dirway (id text primary key, name text, description text, ${D});
create table wn_dirwaypoint (id text primary key, dirway_id text, order_num integer, name text, latitude double precision, longitude double precision, ${D});
create table wn_data_version (table_name text primary key, version integer, modified timestamp with time zone);
create table updated_timestamp (updated_name text primary key, updated_time timestamp with time zone not null, updated_by text not null);
`;
export const functions = { in_list: (list, x, sep) => (list === null || x === null ? null : String(list).split(sep).includes(x) ? 1 : 0) };
export const translate = (t) => t.replace(/json_build_object/gi, "json_object").replace(/json_agg/gi, "json_group_array")
  .replace(/([\w.$]+)\s*=\s*ANY\s*\(\s*string_to_array\s*\(\s*([\w.$]+)\s*,\s*('[^']*')\s*\)\s*\)/gi, "in_list($2, $1, $3)");
export const DIR = "marine/winter-navigation/src/lambda/";
// kind: [path of the API, fields, instants among them]
export const KINDS = {
  location: ["location", ["name", "type", "locode_list", "nationality", "latitude", "longitude", "winterport"]],
  restriction: ["restriction", ["location_id", "text_compilation", "start_time", "end_time"]],
  vessel: ["vessel", ["name", "callsign", "shortcode", "imo", "mmsi", "type"]],
  activity: ["activity", ["icebreaker_id", "vessel_id", "type", "reason", "public_comment", "start_time", "end_time"]],
  source: ["source", ["name", "shortname", "nationality", "type", "vessel_id"]],
  port_suspension: ["port-suspension", ["start_time", "end_time", "prenotification", "ports_closed", "due_to", "specifications"]],
  port_suspension_location: ["port-suspension-location", ["suspension_id", "location_id"]],
  queue: ["queue", ["icebreaker_id", "vessel_id", "start_time", "end_time", "order_num"]],
  dirway: ["dirway", ["name", "description"]],
  dirwaypoint: ["dirwaypoint", ["dirway_id", "order_num", "name", "latitude", "longitude"]],
};
