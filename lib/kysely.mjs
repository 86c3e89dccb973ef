// The part of kysely's query builder that the applications use, compiled as its PostgresQueryCompiler does.
// Builders are immutable, as kysely's are.
const id = (n) => n.split(".").map((x) => (x === "*" ? "*" : `"${x}"`)).join(".");
const ref = (n) => { const m = /^(.+?)\s+as\s+(\S+)$/i.exec(n); return m ? `${id(m[1])} as ${id(m[2])}` : id(n); };
class Raw { constructor(strings, values) { this.strings = strings; this.values = values; } as(a) { return new Alias(this, a); } to(p) { return this.strings.map((s, i) => s + (i < this.values.length ? val(this.values[i], p) : "")).join(""); } }
class Fn { constructor(n, args) { this.n = n; this.args = args; } as(a) { return new Alias(this, a); } to(p) { return `${this.n}(${this.args.map((x) => (typeof x === "string" ? id(x) : x.to(p))).join(", ")})`; } }
class Alias { constructor(e, a) { this.e = e; this.a = a; } to(p) { return `${this.e.to(p)} as ${id(this.a)}`; } }
class Ref { constructor(n) { this.n = n; } as(a) { return new Alias(this, a); } to() { return id(this.n); } }
const val = (v, p) => (v && typeof v.to === "function" ? v.to(p) : v instanceof Query ? `(${v.render(p)})` : (p.push(v), `$${p.length}`));
export const sql = Object.assign((strings, ...values) => new Raw(strings, values), { ref: (n) => new Ref(n), raw: (s) => new Raw([s], []), lit: (v) => new Raw([typeof v === "string" ? `'${v.replace(/'/g, "''")}'` : String(v)], []) });
const fn = Object.assign((n, args = []) => new Fn(n, args), Object.fromEntries(["max", "min", "sum", "avg", "count", "coalesce"].map((n) => [n, (...a) => new Fn(n, a.flat())])), { countAll: () => new Raw(["count(*)"], []) });
const eb = Object.assign((l, op, r) => cond([l, op, r]), { fn, ref: (n) => new Ref(n), val: (v) => ({ to: (p) => val(v, p) }), and: (l) => bool(l, " and "), or: (l) => bool(l, " or ") });
const cond = ([l, op, r]) => ({ to: (p) => `${typeof l === "string" ? id(l) : l.to(p)} ${op} ${r === null && /^is/i.test(op) ? "null" : Array.isArray(r) ? `(${r.map((x) => val(x, p)).join(", ")})` : val(r, p)}` });
const bool = (l, j) => ({ to: (p) => `(${l.map((x) => x.to(p)).join(j)})` });
class Query {
  constructor(s) { this.s = s; }
  with(x) { return new Query({ ...this.s, ...x }); }
  add(k, ...v) { return this.with({ [k]: [...(this.s[k] ?? []), ...v] }); }
  select(x) { if (typeof x === "function") x = x(eb); return this.add("cols", ...[x].flat()); }
  selectAll() { return this.add("cols", "*"); }
  distinct() { return this.with({ distinct: true }); }
  where(...a) { return this.add("wheres", a.length === 1 ? (typeof a[0] === "function" ? a[0](eb) : a[0]) : cond(a)); }
  orderBy(x, d) { return this.add("orders", ...(Array.isArray(x) ? x.map((y) => [y]) : [[x, d]])); }
  groupBy(x) { return this.add("groups", ...[x].flat()); }
  limit(n) { return this.with({ limit_: n }); }
  leftJoin(t, a, b) { return this.add("joins", ["left join", t, a, b]); }
  innerJoin(t, a, b) { return this.add("joins", ["inner join", t, a, b]); }
  values(v) { return this.with({ rows: [v].flat() }); }
  set(k, v) { return typeof k === "string" ? this.add("sets", [k, v]) : this.add("sets", ...Object.entries(k).filter(([, x]) => x !== undefined)); }
  returning(x) { return this.add("ret", ...[x].flat()); }
  onConflict(f) { const o = { cols: [], column(c) { this.cols = [c]; return this; }, columns(c) { this.cols = c; return this; }, doNothing() { this.act = "nothing"; return this; }, doUpdateSet(v) { this.act = typeof v === "function" ? v(eb) : v; return this; } }; return this.with({ conflict: f(o) }); }
  $if(c, f) { return c ? f(this) : this; }
  $call(f) { return f(this); }
  compile() { const p = []; return { sql: this.render(p), parameters: p, query: { kind: this.s.kind } }; }
  render(p) {
    const s = this.s;
    const where = () => (s.wheres?.length ? ` where ${s.wheres.map((w) => w.to(p)).join(" and ")}` : "");
    const returning = () => (s.ret?.length ? ` returning ${s.ret.map((x) => (x === "*" ? x : ref(x))).join(", ")}` : "");
    if (s.kind === "select") {
      const cols = s.cols.map((x) => (typeof x === "string" ? (x === "*" ? "*" : ref(x)) : x.to(p))).join(", ");
      const from = ref(s.table), joins = (s.joins ?? []).map(([j, t, a, b]) => ` ${j} ${ref(t)} on ${id(a)} = ${id(b)}`).join("");
      return `select ${s.distinct ? "distinct " : ""}${cols} from ${from}${joins}${where()}${s.groups ? ` group by ${s.groups.map(id).join(", ")}` : ""}${s.orders ? ` order by ${s.orders.map(([x, d]) => (typeof x === "string" ? id(x) : x.to(p)) + (d ? ` ${d}` : "")).join(", ")}` : ""}${s.limit_ !== undefined ? ` limit ${val(s.limit_, p)}` : ""}`;
    }
    if (s.kind === "insert") {
      const keys = [...new Set(s.rows.flatMap((r) => Object.keys(r).filter((k) => r[k] !== undefined)))];
      const rows = s.rows.map((r) => `(${keys.map((k) => (r[k] === undefined ? "default" : val(r[k], p))).join(", ")})`).join(", ");
      const c = s.conflict;
      return `insert into ${id(s.table)} (${keys.map(id).join(", ")}) values ${rows}${c ? ` on conflict${c.cols.length ? ` (${c.cols.map(id).join(", ")})` : ""} ${c.act === "nothing" ? "do nothing" : `do update set ${Object.entries(c.act).map(([k, v]) => `${id(k)} = ${val(v, p)}`).join(", ")}`}` : ""}${returning()}`;
    }
    if (s.kind === "update") { const sets = s.sets.map(([k, v]) => `${id(k)} = ${val(v, p)}`).join(", "); return `update ${id(s.table)} set ${sets}${where()}${returning()}`; }
    return `delete from ${id(s.table)}${where()}${returning()}`;
  }
}
export class Kysely {
  constructor() { this.fn = fn; }
  selectFrom(table) { return new Query({ kind: "select", table }); }
  insertInto(table) { return new Query({ kind: "insert", table }); }
  updateTable(table) { return new Query({ kind: "update", table }); }
  deleteFrom(table) { return new Query({ kind: "delete", table }); }
}
class Part {}
export const DummyDriver = Part, PostgresAdapter = Part, PostgresIntrospector = Part, PostgresQueryCompiler = Part, PostgresDialect = Part;
export const kysely = { Kysely, sql, DummyDriver, PostgresAdapter, PostgresIntrospector, PostgresQueryCompiler, PostgresDialect };
