// A PostgreSQL-flavoured server for fakepg.mjs on top of node:sqlite.  The statements of the code under
// test are executed, after a purely syntactic translation (interval arithmetic, casts, schema names), by
// SQLite; the clock is the virtual one.  Timestamps are kept as canonical ISO text, so that they compare as
// text in the same way as in time.  Every connection shares one database; while one connection has an open
// transaction, another one's transaction, writes and (once something was written) reads wait for its end: one
// of the schedules PostgreSQL allows.
import { DatabaseSync } from "node:sqlite";

const UNIT = { second: 1000, minute: 60000, hour: 3600000, day: 86400000, week: 604800000 };
export function addInterval(ts, sign, text) {
  let t = new Date(ts);
  for (const [, n, u] of String(text).matchAll(/(-?\d+(?:\.\d+)?)\s*([a-z]+)/gi)) {
    const unit = u.toLowerCase().replace(/s$/, "");
    if (unit === "month") t.setUTCMonth(t.getUTCMonth() + sign * +n);
    else if (unit === "year") t.setUTCFullYear(t.getUTCFullYear() + sign * +n);
    else if (UNIT[unit]) t = new Date(t.getTime() + sign * +n * UNIT[unit]);
    else throw new Error(`interval ${text}`);
  }
  return t.toISOString();
}
const OID = [[/\[\]/, 1009], [/bigint|bigserial|int8/i, 20], [/smallint/i, 21], [/int|serial/i, 23], [/numeric|decimal/i, 1700], [/double|float8/i, 701], [/real/i, 700], [/timestamp.*with time zone|timestamptz/i, 1184], [/timestamp/i, 1114], [/date/i, 1082], [/bool/i, 16], [/jsonb/i, 3802], [/json/i, 114], [/char|text|geometry/i, 25]];
const oid = (decl) => (decl ? (OID.find(([re]) => re.test(decl)) ?? [0, 25])[1] : undefined);
const ISO = /^\d{4}-\d\d-\d\d[T ]\d\d:\d\d(:\d\d(\.\d+)?)?(Z|[+-]\d\d(:?\d\d)?)?$/;
const canon = (s) => { const x = s.replace(" ", "T").replace(/([+-]\d\d)$/, "$1:00"); const d = new Date(/(Z|[+-]\d\d:?\d\d)$/.test(x) ? x : x + "Z"); return Number.isNaN(d.getTime()) ? s : d.toISOString(); };

/** opts: {schema: SQLite DDL, now: () => ms, functions: {name: fn}, translate: text => text} */
export class SqlServer {
  constructor({ schema, now, functions = {}, translate = (x) => x }) {
    this.db = new DatabaseSync(":memory:");
    this.log = [];
    this.now = now;
    this.translate = translate;
    this.waiters = [];
    this.owner = undefined; // connection with an open transaction
    this.dirty = false;
    this.open = new Set();
    this.before = undefined; // hook(conn, text, index): may throw or return a promise
    this.cache = new Map();
    const fn = (n, f, o = {}) => this.db.function(n, { deterministic: false, varargs: true, ...o }, f);
    fn("now", () => new Date(this.now()).toISOString());
    fn("ts_add", (a, s, b) => (a === null || b === null ? null : addInterval(a, s, b)));
    fn("epoch_diff", (a, b) => (a === null || b === null ? null : (Date.parse(a) - Date.parse(b)) / 1000));
    fn("to_timestamp", (a) => (a === null ? null : new Date(a * 1000).toISOString()));
    fn("greatest", (...a) => a.filter((x) => x !== null).reduce((x, y) => (x === undefined || y > x ? y : x), undefined) ?? null);
    fn("least", (...a) => a.filter((x) => x !== null).reduce((x, y) => (x === undefined || y < x ? y : x), undefined) ?? null);
    for (const [n, f] of Object.entries(functions)) fn(n, f);
    this.db.exec(schema);
  }
  get owner() { return this.owner_; }
  set owner(v) { this.owner_ = v; if (v === undefined) for (const f of this.waiters.splice(0)) f(); }
  sql(text) {
    let t = this.cache.get(text);
    if (t) return t;
    t = this.translate(text);
    t = t.replace(/--[^\n]*/g, "");
    // quoted instants
    t = t.replace(/'(\d{4}-\d\d-\d\d[T ]\d\d:\d\d[^']*)'/g, (m, x) => (ISO.test(x) ? `'${canon(x)}'` : m));
    t = t.replace(/\bEXTRACT\s*\(\s*EPOCH\s+FROM\s+([\w.$]+(?:\([\w.$]*\))?)\s*-\s*([\w.$]+(?:\([\w.$]*\))?)\s*\)/gi, "epoch_diff($1,$2)");
    t = t.replace(/\bEXTRACT\s*\(\s*EPOCH\s+FROM\s+\(\s*([\w.$]+(?:\([\w.$]*\))?)\s*-\s*([\w.$]+(?:\([\w.$]*\))?)\s*\)\s*\)/gi, "epoch_diff($1,$2)");
    const X = "((?:[\\w.]+\\([^()]*\\))|[\\w.$]+)";
    t = t.replace(new RegExp(`${X}\\s*([+-])\\s*(\\$\\d+)\\s*\\*\\s*INTERVAL\\s*'1 (\\w+)'`, "gi"), (_, a, s, b, u) => `ts_add(${a},${s}1,(${b} || ' ${u}'))`);
    t = t.replace(new RegExp(`${X}\\s*([+-])\\s*INTERVAL\\s*('[^']*'|\\$\\d+)`, "gi"), (_, a, s, b) => `ts_add(${a},${s}1,${b})`);
    t = t.replace(new RegExp(`${X}\\s*([+-])\\s*\\(([^()]*)\\)::INTERVAL`, "gi"), (_, a, s, b) => `ts_add(${a},${s}1,(${b}))`);
    t = t.replace(new RegExp(`${X}\\s*([+-])\\s*('[^']*'|\\$\\d+)::INTERVAL`, "gi"), (_, a, s, b) => `ts_add(${a},${s}1,${b})`);
    t = t.replace(/::\s*(CHARACTER VARYING|TIMESTAMP WITH(?:OUT)? TIME ZONE|DOUBLE PRECISION|\w+)(\s*\(\d+(?:,\s*\d+)?\))?(\[\])?/gi, "");
    t = t.replace(/\bpublic\./gi, "").replace(/\bFOR UPDATE\b(\s+(NOWAIT|SKIP LOCKED))?/gi, "").replace(/\bCURRENT_TIMESTAMP(\s*\(\d\))?/gi, "now()").replace(/\bILIKE\b/gi, "LIKE");
    this.cache.set(text, t);
    return t;
  }
  value(v) {
    if (v === undefined || v === null) return null;
    if (v instanceof Date) return v.toISOString();
    if (typeof v === "boolean") return v ? 1 : 0;
    if (typeof v === "object") return v.toPostgres ? this.value(v.toPostgres()) : JSON.stringify(v);
    if (typeof v === "string" && ISO.test(v)) return canon(v);
    return v;
  }
  async connect(conn) { this.open.add(conn.id); this.log.push("connect"); if (this.onConnect) await this.onConnect(conn); }
  end() { if (this.db.isOpen !== false) { try { this.db.close(); } catch { /* closed already */ } } }
  close(conn) { this.open.delete(conn.id); if (this.owner === conn.id) { try { this.db.exec("ROLLBACK"); } catch { /* none */ } this.owner = undefined; } this.log.push("close"); }
  async query(conn, text, values) {
    this.log.push(text.trim().replace(/\s+/g, " "));
    if (this.before) await this.before(conn, text, values);
    const bare = text.trim().replace(/;\s*$/, "").toLowerCase();
    if (/^begin\b/.test(bare)) { while (this.owner !== undefined) await new Promise((r) => this.waiters.push(r)); this.db.exec("BEGIN"); this.owner = conn.id; this.dirty = false; return { command: "BEGIN", rowCount: 0 }; }
    if (/^(commit|rollback)$/.test(bare)) { if (this.owner === conn.id) { this.db.exec(bare); this.owner = undefined; } return { command: bare.toUpperCase(), rowCount: 0 }; }
    if (/^(discard|set|deallocate|reset)\b/.test(bare)) return { command: bare.split(/\s/)[0].toUpperCase(), rowCount: 0 };
    const write = /\b(insert|update|delete|merge)\b/i.test(text);
    while (this.owner !== undefined && this.owner !== conn.id && (write || this.dirty)) await new Promise((r) => this.waiters.push(r));
    if (write && this.owner !== undefined) this.dirty = true;
    try { return this.run(text, values); } catch (e) {
      // a failed statement spoils a PostgreSQL transaction
      throw Object.assign(e, { severity: "ERROR" });
    }
  }
  run(text, values = []) {
    const params = (values ?? []).map((v) => this.value(v));
    const results = [];
    for (const part of splitStatements(text)) {
      const w = /^\s*WITH\s+(\w+)\s+AS\s*\(\s*(DELETE[\s\S]*?RETURNING[\s\S]*?)\)\s*SELECT\s+COUNT\(\*\)\s+FROM\s+\1\s*$/i.exec(part);
      if (w) { const n = this.exec(w[2], params).rows.length; results.push({ command: "SELECT", rowCount: 1, fields: [{ name: "count", dataTypeID: 20 }], rows: [[String(n)]] }); continue; }
      results.push(this.exec(part, params));
    }
    return results.length === 1 ? results[0] : results;
  }
  exec(text, params) {
    const t = this.sql(text);
    const st = this.db.prepare(t);
    const used = new Set([...t.replace(/'[^']*'/g, "").matchAll(/\$(\d+)/g)].map((m) => +m[1]));
    const bind = {};
    for (const n of used) bind[`$${n}`] = params[n - 1] ?? null;
    const cols = st.columns();
    st.setReturnArrays?.(true);
    const command = t.trim().split(/\s+/)[0].toUpperCase();
    if (!cols.length) { const r = used.size ? st.run(bind) : st.run(); return { command, rowCount: Number(r.changes), fields: [], rows: [] }; }
    const raw = used.size ? st.all(bind) : st.all();
    const fields = cols.map((c, i) => {
      const name = c.name.replace(/^(\w+)\s*\([\s\S]*$/, (_, f) => f.toLowerCase());
      let id = oid(c.type);
      if (id === undefined) {
        const v = raw.map((r) => r[i]).find((x) => x !== null);
        id = typeof v === "string" && /^[[{]/.test(v) && /\bjson_(object|array|group_array)\b/.test(t) && !new RegExp(`st_asgeojson\\s*\\([^()]*\\)\\s+as\\s+${name}\\b`, "i").test(t) ? 114 : /^count\b/i.test(c.name) || (name === "count") ? 20 : typeof v === "number" ? (Number.isInteger(v) ? 23 : 701) : typeof v === "string" && ISO.test(v) && /T.*Z$/.test(v) ? 1184 : 25;
      }
      return { name, dataTypeID: id };
    });
    const rows = raw.map((r) => r.map((v, i) => {
      if (v === null) return null;
      if (fields[i].dataTypeID === 16) return v ? "t" : "f";
      if (fields[i].dataTypeID === 1009) return `{${JSON.parse(v).map((x) => (x === null ? "NULL" : JSON.stringify(String(x)))).join(",")}}`;
      if ((fields[i].dataTypeID === 1184 || fields[i].dataTypeID === 1114) && typeof v === "string") return v.replace("T", " ").replace("Z", fields[i].dataTypeID === 1184 ? "+00" : "");
      return String(v);
    }));
    return { command, rowCount: rows.length, fields, rows };
  }
  /** rows of a table for the oracle, as plain objects */
  rows(sql, ...p) { return this.db.prepare(sql).all(...p).map((r) => ({ ...r })); }
}
function splitStatements(text) {
  const out = []; let cur = "", q = false;
  for (const ch of text) { if (ch === "'") q = !q; if (ch === ";" && !q) { if (cur.trim()) out.push(cur); cur = ""; } else cur += ch; }
  if (cur.trim()) out.push(cur);
  return out;
}
