// A MySQL-flavoured server and the mysql2/promise pool in front of it, on top of node:sqlite.  As in sqlpg.mjs
// the statements of the code under test are executed after a purely syntactic translation.  Statements sent
// with query() are formatted by the client (escaped text), as mysql2 does; execute() refuses undefined values.
import { SqlServer } from "./sqlpg.mjs";

const DT = /^\d{4}-\d\d-\d\d \d\d:\d\d(:\d\d(\.\d{1,6})?)?$/;
const text = (ms) => new Date(ms).toISOString().replace("T", " ").replace("Z", "");
const canon = (s) => text(Date.parse(`${s.replace(" ", "T")}${/:\d\d:\d\d/.test(s) ? "" : ":00"}Z`));
function escape(v) {
  if (v === undefined || v === null) return "NULL";
  if (typeof v === "boolean" || typeof v === "number" || typeof v === "bigint") return String(v);
  if (v instanceof Date) return `'${text(v.getTime())}'`;
  if (Array.isArray(v)) return v.map((x) => (Array.isArray(x) ? `(${escape(x)})` : escape(x))).join(", ");
  return `'${String(v).replaceAll("'", "''")}'`;
}
const P = { "%Y": (d) => String(d.getUTCFullYear()), "%m": (d) => String(d.getUTCMonth() + 1).padStart(2, "0"), "%d": (d) => String(d.getUTCDate()).padStart(2, "0"), "%T": (d) => d.toISOString().slice(11, 19), "%k": (d) => String(d.getUTCHours()), "%i": (d) => d.toISOString().slice(14, 16), "%H": (d) => d.toISOString().slice(11, 13), "%s": (d) => d.toISOString().slice(17, 19), "%f": (d) => `${d.toISOString().slice(20, 23)}000` };
const functions = {
  date_format: (v, f) => {
    if (v === null) return null;
    const s = String(v), d = new Date(/^\d\d:\d\d/.test(s) ? `2000-01-01T${s.length === 5 ? `${s}:00` : s}Z` : /^\d{4}-\d\d-\d\d$/.test(s) ? `${s}T00:00:00Z` : `${canon(s).replace(" ", "T")}Z`);
    return f.replace(/%./g, (m) => { if (!P[m]) throw new Error(`format ${m}`); return P[m](d); });
  },
  export_set: (bits, on, off, sep, n) => Array.from({ length: n }, (_, i) => ((bits >> i) & 1 ? on : off)).join(sep),
  reverse: (s) => (s === null ? null : [...s].reverse().join("")),
  my_add: (a, s, b) => { const [n, u] = b.split(" "); return text(Date.parse(`${a.replace(" ", "T")}Z`) + s * n * { second: 1e3, minute: 6e4, hour: 36e5, day: 864e5 }[u]); },
};

export class MySqlServer extends SqlServer {
  constructor({ schema, now, limit = 10 }) {
    super({ schema, now, functions });
    this.limit = limit; this.used = 0; this.queue = []; this.n = 0;
    this.db.function("now", { deterministic: false, varargs: true }, () => text(Math.floor(this.now() / 1000) * 1000));
    const server = this;
    this.mysql2 = {
      createPool(config) {
        server.config = config;
        return {
          getConnection: () => server.connection(),
          end: async () => {},
        };
      },
    };
  }
  async connection() {
    if (this.onConnect) await this.onConnect();
    if (this.used >= this.limit) await new Promise((r) => this.queue.push(r)); else this.used++;
    const conn = { id: `my${++this.n}` };
    this.open.add(conn.id);
    const run = async (sql, values) => { if (!this.open.has(conn.id)) throw new Error("connection released"); return this.query(conn, sql, values); };
    return {
      beginTransaction: () => run("BEGIN"), commit: () => run("COMMIT"), rollback: () => run("ROLLBACK"),
      query: async (sql, values) => this.answer(await run(this.format(sql, values))),
      execute: async (sql, values) => {
        for (const v of Object.values(values ?? {})) if (v === undefined) throw new TypeError("Bind parameters must not contain undefined. To pass SQL NULL specify JS null");
        return this.answer(await run(this.format(sql, values)));
      },
      release: () => {
        if (!this.open.delete(conn.id)) return;
        if (this.owner === conn.id) { /* the transaction stays open with the connection */ this.leaked = true; }
        const next = this.queue.shift();
        if (next) next(); else this.used--;
      },
    };
  }
  format(sql, values) {
    if (values === undefined || values === null) return sql;
    let i = 0;
    const parts = sql.split(/('(?:[^']|'')*')/);
    return parts.map((p, k) => (k % 2 ? p : Array.isArray(values) ? p.replace(/\?/g, (m) => (i < values.length ? escape(values[i++]) : m)) : p.replace(/:([A-Za-z_]\w*)/g, (_, n) => escape(values[n])))).join("");
  }
  answer(r) { return [r.rows, r.fields]; }
  sql(t0) {
    let t = t0.replace(/--[^\n]*/g, "");
    t = t.replace(/\bb'([01]+)'/g, (_, b) => String(Number.parseInt(b, 2)));
    t = t.replace(/'(\d{4}-\d\d-\d\d \d\d:\d\d[^']*)'/g, (m, x) => (DT.test(x) ? `'${canon(x)}'` : m));
    t = t.replace(/\bIF\s*\(/gi, "IIF(").replace(/\bcurrent_timestamp\b(\s*\(\s*\))?/gi, "now()");
    t = t.replace(/(now\(\))\s*([+-])\s*INTERVAL\s+(\d+)\s+(\w+)/gi, (_, a, s, n, u) => `my_add(${a}, ${s}1, '${n} ${u.toLowerCase()}')`);
    t = t.replace(/\bON\s+DUPLICATE\s+KEY\s+UPDATE\b([\s\S]*)$/i, (_, x) => `ON CONFLICT DO UPDATE SET ${x.replace(/\bVALUES\s*\(\s*(\w+)\s*\)/gi, "excluded.$1")}`);
    t = t.replace(/^\s*DELETE\s+FROM\s+(\w+)([\s\S]*?)\bLIMIT\s+(\d+)\s*$/i, (_, n, w, l) => `DELETE FROM ${n} WHERE rowid IN (SELECT rowid FROM ${n} ${w} LIMIT ${l})`);
    return t;
  }
  run(text0) {
    const t = this.sql(text0);
    const json = jsonColumns(t);
    const st = this.db.prepare(t);
    const cols = st.columns();
    if (!cols.length) {
      const upsert = /\bON CONFLICT DO UPDATE\b/i.test(t) && /\binto\s+(\w+)/i.exec(t)[1];
      const snap = () => JSON.stringify(this.db.prepare(`select * from ${upsert}`).all());
      const n0 = upsert && this.db.prepare(`select count(*) n from ${upsert}`).get().n, s0 = upsert && snap();
      const r = st.run();
      let affectedRows = Number(r.changes);
      if (upsert) affectedRows = this.db.prepare(`select count(*) n from ${upsert}`).get().n > n0 ? 1 : snap() === s0 ? 1 : 2; // with FOUND_ROWS, the client's default
      return { rows: { affectedRows, insertId: 0 }, fields: undefined };
    }
    return { rows: st.all().map((r) => Object.fromEntries(cols.map((c) => { const v = r[c.name]; return [c.name, v === null ? null : json.has(c.name) ? JSON.parse(v) : /^datetime|^timestamp/i.test(c.type ?? "") ? new Date(`${v.replace(" ", "T")}Z`) : v]; }))), fields: cols };
  }
}
/** names of the columns made by JSON_OBJECT (mysql2 parses JSON values) */
function jsonColumns(t) {
  const out = new Set();
  for (let i = 0; (i = t.toLowerCase().indexOf("json_object(", i)) >= 0; ) {
    let d = 0, k = i;
    for (let q = false; k < t.length; k++) { if (t[k] === "'") q = !q; if (q) continue; if (t[k] === "(") d++; if (t[k] === ")" && --d === 0) break; }
    const m = /^\)\s*as\s+(\w+)/i.exec(t.slice(k, k + 60));
    if (m) out.add(m[1]);
    i = k;
  }
  return out;
}
