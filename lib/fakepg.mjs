// A stand-in for the `pg` driver: the real pg-pool and the real pg-promise run on
// top of it, and the database server behind it is an object the harness supplies:
//   server.connect(conn)            -> promise (reject = refused connection)
//   server.query(conn, text, vals)  -> promise of {command,rowCount,fields:[{name,dataTypeID}],rows:[[raw,...]]}
//   server.close(conn)
import { EventEmitter } from "node:events";
import { createRequire } from "node:module";
import { realpathSync } from "node:fs";
import path from "node:path";
import { LIB } from "./paths.mjs";

const pgpReq = createRequire(realpathSync(path.join(LIB, "node_modules/pg-promise/package.json")));
const pgDir = path.dirname(pgpReq.resolve("pg/package.json"));
const pgReq = createRequire(path.join(pgDir, "package.json"));
const PgPool = pgReq("pg-pool");
const parseCn = pgReq("pg-connection-string");
const defaults = pgReq("pg/lib/defaults");

// each driver instance has its own type parsers on top of the library's
const baseTypes = pgReq("pg-types");
function freshTypes() {
  const own = new Map();
  return {
    ...baseTypes,
    setTypeParser(oid, format, fn) { if (typeof format === "function") { fn = format; format = "text"; } own.set(`${oid} ${format}`, fn); },
    getTypeParser: (oid, format = "text") => own.get(`${oid} ${format}`) ?? baseTypes.getTypeParser(oid, format),
  };
}

let connSeq = 0;
export function makePg(server) {
  const types = freshTypes();
  class Client extends EventEmitter {
    constructor(config) {
      super();
      const c = typeof config === "string" ? parseCn.parse(config) : { ...config };
      if (c.connectionString) Object.assign(c, parseCn.parse(c.connectionString));
      this.config = c;
      this.host = c.host; this.user = c.user; this.password = c.password; this.database = c.database;
      this.application_name = c.application_name;
      this._queryable = true;
      this._ending = false;
      this._connected = false;
      this.conn = { id: ++connSeq, config: c, client: this };
      this.connection = new EventEmitter();
      this.chain = Promise.resolve();
    }
    _isEnded() { return this._ending; }
    isConnected() { return this._connected && !this._ending; }
    connect(cb) {
      const p = Promise.resolve().then(() => server.connect(this.conn));
      const q = p.then(() => { this._connected = true; });
      if (!cb) return q;
      q.then(() => cb(null), (e) => cb(e));
    }
    query(q, values, cb) {
      if (typeof values === "function") { cb = values; values = undefined; }
      let text = q, rowMode;
      if (q && typeof q === "object") { text = q.text; values = q.values ?? values; rowMode = q.rowMode; }
      const run = () => {
        if (this._ending) return Promise.reject(new Error("Client was closed and is not queryable"));
        return Promise.resolve().then(() => server.query(this.conn, text, values));
      };
      const p = (this.chain = this.chain.then(run, run)).then((r) => {
        const conv = (x) => {
          const fields = (x.fields ?? []).map((f) => ({ ...f }));
          const rows = (x.rows ?? []).map((row) => {
            if (rowMode === "array") return fields.map((f, i) => (row[i] === null ? null : types.getTypeParser(f.dataTypeID ?? 25)(row[i])));
            const o = {};
            fields.forEach((f, i) => { o[f.name] = row[i] === null || row[i] === undefined ? null : types.getTypeParser(f.dataTypeID ?? 25)(String(row[i])); });
            return o;
          });
          return { command: x.command, rowCount: x.rowCount ?? rows.length, fields, rows, oid: null };
        };
        return Array.isArray(r) ? r.map(conv) : conv(r);
      });
      if (!cb) return p;
      p.then((r) => cb(null, r), (e) => cb(e));
    }
    end(cb) {
      this._ending = true;
      const p = Promise.resolve(server.close?.(this.conn)); // the request to close is sent at once
      const done = p.then(() => { this.emit("end"); });
      if (typeof cb === "function") { done.then(() => cb(), (e) => cb(e)); return undefined; }
      return done;
    }
    release() {}
    ref() {}
    unref() {}
  }
  const pools = [];
  class Pool extends PgPool {
    constructor(options) {
      super(options, Client);
      pools.push(this);
    }
    // closing takes a while, so that a caller that does not wait for it can be told apart
    end(cb) {
      if (cb) return super.end(cb);
      return super.end().then(async () => {
        for (let i = 0; i < 20; i++) await null;
        this.endSettled = true;
      });
    }
  }
  return { Client, Pool, types, defaults: { ...defaults }, native: null, Query: class Query {}, DatabaseError: Error, pools };
}
export const pgUtils = pgReq("pg/lib/utils");
