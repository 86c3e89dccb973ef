import { bundle } from "../lib/bundle.mjs";
import { World } from "../lib/world.mjs";
import { makePg } from "../lib/fakepg.mjs";

export const meta = { parallel: true, bounds: "scripts of up to 2 (quick) / 3 (thorough) statements per unit of work, a fault at every server interaction (connect, statement, commit, rollback, close), sequential pairs and overlapping pairs of units" };

export async function run(ctx) {
  const b = await bundle({ db: "lib/digitraffic-common/src/database/database.ts" });
  const ENV = { DB_USER: "user", DB_PASS: "pass", DB_URI: "writer.example:5432/db", DB_RO_URI: "reader.example:5432/db", DB_APPLICATION: "app-x" };

  // A server that keeps a tiny transactional store: writes become durable on COMMIT (or at once outside a transaction)
  function makeServer(c, faults, log, w) {
    const state = { durable: [], open: new Set(), sessions: [] };
    const server = {
      state,
      connect(conn) {
        if (faults && c.deviate("connect", ["ok", "refuse"]) === "refuse") { log.push("connect-refused"); return Promise.reject(new Error("ECONNREFUSED")); }
        state.open.add(conn.id);
        conn.session = { tx: false, pending: [], aborted: false, first: true, host: conn.config.host };
        state.sessions.push(conn.session);
        log.push(`connect ${conn.config.host} ${conn.config.user} ${conn.config.password} ${conn.config.database} ${conn.config.application_name}`);
        return Promise.resolve();
      },
      query(conn, text) {
        const s = conn.session;
        const t = String(text).trim().toLowerCase();
        const kind = t.startsWith("discard") ? "discard" : t.startsWith("begin") ? "begin" : t.startsWith("commit") ? "commit" : t.startsWith("rollback") ? "rollback" : t.startsWith("insert") ? "write" : "read";
        const fault = faults ? c.deviate(`q:${kind}`, kind === "commit" ? ["ok", "error", "lost"] : ["ok", "error"]) : "ok";
        if (kind !== "discard" && !s.discarded) log.push("UNDISCARDED");
        log.push(`${kind}${kind === "write" ? ":" + /'(.*?)'/.exec(String(text))?.[1] : ""}:${fault}`);
        if (fault === "error") {
          if (kind === "commit" || kind === "rollback") { s.tx = false; s.pending = []; s.aborted = false; } else if (s.tx) s.aborted = true;
          const e = new Error(`server error at ${kind}`);
          e.code = "XX000";
          e.marker = kind;
          return Promise.reject(e);
        }
        if (kind === "discard") {
          s.discarded = t.replace(/;$/, "") === "discard all";
          return ok("DISCARD");
        }
        if (kind === "begin") { s.tx = true; s.pending = []; s.aborted = false; return ok("BEGIN"); }
        if (kind === "commit") {
          const p = s.pending;
          const ab = s.aborted;
          s.tx = false; s.pending = []; s.aborted = false;
          if (!ab) state.durable.push(...p);
          if (fault === "lost") { const e = new Error("connection lost at commit"); e.code = "ECONNRESET"; e.marker = "commit"; return Promise.reject(e); }
          return ok(ab ? "ROLLBACK" : "COMMIT");
        }
        if (kind === "rollback") { s.tx = false; s.pending = []; s.aborted = false; return ok("ROLLBACK"); }
        if (s.aborted) { const e = new Error("current transaction is aborted"); e.code = "25P02"; return Promise.reject(e); }
        if (kind === "write") {
          const v = /'(.*?)'/.exec(String(text))[1];
          if (s.tx) s.pending.push(v);
          else state.durable.push(v);
          return ok("INSERT");
        }
        return Promise.resolve({ command: "SELECT", fields: [{ name: "n", dataTypeID: 20 }, { name: "f", dataTypeID: 701 }, { name: "d", dataTypeID: 1700 }, { name: "t", dataTypeID: 25 }, { name: "z", dataTypeID: 25 }], rows: [["9007199254740991", "1.25", "10.50", "007", null], ["-3", "-1e3", "0", "", null]] });
      },
      close(conn) { state.open.delete(conn.id); log.push("close"); return Promise.resolve(); },
    };
    const ok = (command) => Promise.resolve({ command, rowCount: command === "INSERT" ? 1 : 0, fields: [], rows: [] });
    return server;
  }

  const rowsRaw = [{ n: 9007199254740991, f: 1.25, d: 10.5, t: "007", z: null }, { n: -3, f: -1000, d: 0, t: "", z: null }];
  const rowsUndef = rowsRaw.map((r) => ({ ...r, z: undefined }));

  async function unit(c, m, w, server, pg, mode, nulls, steps, end, tag) {
    const results = [];
    const body = async (db) => {
      for (let i = 0; i < steps.length; i++) {
        const st = steps[i];
        const q = st.startsWith("w") ? () => db.none("insert into t values($1)", [`${tag}${i}`]) : () => db.manyOrNone("select * from t");
        if (st.endsWith("caught")) { try { results.push(await q()); } catch (e) { results.push("caught"); } }
        else results.push(await q());
      }
      if (end === "throw") { const e = new Error("boom"); e.marker = "fn"; throw e; }
      if (end === "throw-text") throw "boom text";
      return { result: tag };
    };
    const syncThrow = end === "sync-throw";
    const fn = syncThrow ? () => { const e = new Error("boom"); e.marker = "fn"; throw e; } : body;
    const f = { tx: m.db.inTransaction, rw: m.db.inDatabase, ro: m.db.inDatabaseReadonly }[mode];
    const p = nulls === undefined ? f(fn) : f(fn, nulls);
    const atEnd = {};
    const snap = () => { atEnd.open = [...server.state.open]; atEnd.unended = pg.pools.filter((p) => !p.endSettled).length; };
    p.then(snap, snap);
    return { p, results, atEnd };
  }

  function judge(c, r, log, server, mode, steps, end, tag, results, nulls, w, pg) {
    c.check(!r.hung, "hangs", () => `unit of work never settles; log ${log}`);
    c.equal([...server.state.open], [], "connection-left-open", () => `log ${log}`);
    for (const p of pg.pools) c.check(p.ended || p.ending, "pool-not-ended", "");
    c.check(!log.includes("UNDISCARDED"), "no-discard", () => `a statement ran on a session that was not reset first: ${log}`);
    const host = mode === "ro" ? "reader.example" : "writer.example";
    for (const l of log) if (l.startsWith("connect ")) c.equal(l, `connect ${host} user pass db app-x`, "wrong-endpoint");
    const durable = server.state.durable.filter((x) => x.startsWith(tag));
    const errs = log.filter((l) => /:(error|lost)$/.test(l) || l === "connect-refused");
    const fnOk = end === "ok";
    const uncaught = (l) => { const i = log.indexOf(l); return i; };
    // expected by walking the log
    const writes = [];
    let failed = !fnOk;
    let commitFault;
    let stepIx = 0;
    let aborted = false;
    let stop = false;
    const executed = log.filter((l) => /^(read|write)/.test(l));
    for (let i = 0; i < executed.length; i++) {
      const st = steps[i];
      const fault = executed[i].endsWith(":error");
      if (st?.startsWith("w") && !fault && !aborted) writes.push(`${tag}${i}`);
      const bad = fault || aborted;
      if (fault && mode === "tx") aborted = true;
      if (bad && !st?.endsWith("caught")) { failed = true; stop = true; }
    }
    if (!stop && executed.length < steps.length) failed = true; // did not get to run them all
    const discardFault = log.some((l) => l.startsWith("discard:error")) || log.includes("connect-refused") || log.some((l) => l.startsWith("begin:error"));
    if (discardFault) { failed = true; c.equal(executed.length, 0, "ran-without-session", () => `${log}`); }
    const commit = log.find((l) => l.startsWith("commit:"));
    if (mode === "tx") {
      const nBegin = log.filter((l) => l === "begin:ok").length;
      c.check(nBegin <= 1, "two-transactions", `${log}`);
      if (nBegin && !executed.every((l) => log.indexOf(l) > log.indexOf("begin:ok"))) c.fail("outside-transaction", `${log}`);
      if (failed && !discardFault) c.check(!commit, "committed-after-failure", () => `unit failed but COMMIT was sent: ${log}`);
      if (!failed) c.check(commit, "no-commit", () => `${log}`);
      const wantDurable = !failed && (commit === "commit:ok" || commit === "commit:lost") && !aborted ? writes : [];
      c.equal(durable, wantDurable, "atomicity", () => `log ${log}`);
      if (commit && commit !== "commit:ok") failed = true;
    } else {
      c.check(!log.some((l) => /^(begin|commit|rollback)/.test(l)), "unexpected-transaction", `${log}`);
      c.equal(durable, writes, "writes", () => `${log}`);
    }
    c.equal(r.ok, !failed, "outcome", () => `log ${log} result ${r.error ?? JSON.stringify(r.value)}`);
    if (r.ok) {
      c.equal(r.value, { result: tag }, "result-value");
      results.forEach((x, i) => { if (steps[i].startsWith("r") && x !== "caught") c.equal(x, nulls ? rowsUndef : rowsRaw, "row-conversion"); });
      if (nulls) results.forEach((x, i) => { if (Array.isArray(x)) for (const row of x) c.check("z" in row, "column-dropped", ""); });
    } else if (end === "throw-text" && errs.length === 0) c.equal(r.error, "boom text", "error-replaced");
    else if (errs.length === 0) c.equal(r.error?.marker, "fn", "error-replaced", String(r.error));
    else c.check(r.error instanceof Error || r.error === "boom text", "error-kind", String(r.error));
    return [r.ok, durable.length, errs.length];
  }

  const stepAlphabet = ["w", "r", "w-caught"];
  const maxSteps = ctx.thorough ? 3 : 2;
  await ctx.explore("one unit of work", async (c) => {
    const mode = c.choose("mode", ["tx", "rw", "ro"]);
    const nulls = c.choose("nulls", [undefined, false, true]);
    const n = c.choose("steps", maxSteps + 1);
    const steps = [];
    for (let i = 0; i < n; i++) steps.push(c.choose(`s${i}`, stepAlphabet));
    const end = c.choose("end", ["ok", "throw", "throw-text", "sync-throw"]);
    const w = new World({ env: { ...ENV } });
    const log = [];
    const server = makeServer(c, true, log, w);
    const pg = makePg(server);
    const m = b.instantiate(w, { pg });
    const { p, results, atEnd } = await unit(c, m, w, server, pg, mode, nulls, end === "sync-throw" ? [] : steps, end, "A");
    const r = await w.settle(p);
    if (!r.hung) c.equal(atEnd.open, [], "reported-before-release", () => `the caller was answered while the connection was still open: ${log}`);
    if (!r.hung) c.equal(atEnd.unended, 0, "reported-before-release", "the caller was answered before its connection pool had ended");
    return [mode, ...judge(c, r, log, server, mode, end === "sync-throw" ? [] : steps, end, "A", results, nulls, w, pg)];
  }, { bound: ctx.thorough ? 3 : 2 });

  // environment: a missing setting is an error before any connection; application name has a default
  await ctx.explore("settings", async (c) => {
    const mode = c.choose("mode", ["tx", "rw", "ro"]);
    const env = {};
    for (const k of Object.keys(ENV)) if (c.bool(k)) env[k] = ENV[k];
    const w = new World({ env });
    const log = [];
    const server = makeServer(c, false, log, w);
    const pg = makePg(server);
    const m = b.instantiate(w, { pg });
    let called = 0;
    const r = await w.settle(Promise.resolve().then(() => ({ tx: m.db.inTransaction, rw: m.db.inDatabase, ro: m.db.inDatabaseReadonly })[mode](async () => { called++; return 1; })));
    const need = ["DB_USER", "DB_PASS", mode === "ro" ? "DB_RO_URI" : "DB_URI"];
    const ok = need.every((k) => k in env);
    c.equal(r.ok, ok, "settings-result", String(r.error));
    c.equal(called, ok ? 1 : 0, "settings-called");
    if (ok) c.check(log[0].endsWith(env.DB_APPLICATION ? " app-x" : " unknown-cdk-application"), "application-name", log[0]);
    else c.equal(log, [], "connected-without-settings");
    c.equal([...server.state.open], [], "connection-left-open");
    return [mode, ok];
  });

  // two units in sequence and overlapping, on one module instance: no leakage from one to the other
  await ctx.explore("two units", async (c) => {
    const w = new World({ env: { ...ENV } });
    const overlap = c.bool("overlap");
    const nullsA = c.choose("nullsA", [false, true]);
    const nullsB = c.choose("nullsB", [undefined, true]);
    const modeA = c.choose("modeA", ["tx", "rw", "ro"]);
    const modeB = c.choose("modeB", ["tx", "rw", "ro"]);
    const endA = c.choose("endA", ["ok", "throw"]);
    const logs = { A: [], B: [] };
    const all = [];
    let cur = "A";
    const byConn = new Map();
    const srv = { A: makeServer(c, false, logs.A, w), B: makeServer(c, false, logs.B, w) };
    const order = [];
    const server = {
      connect: (conn) => { conn.tag = cur; return srv[conn.tag].connect(conn); },
      query: (conn, t, v) => { order.push(conn.tag); return overlap ? w.external("q", null).then(() => srv[conn.tag].query(conn, t, v)) : srv[conn.tag].query(conn, t, v); },
      close: (conn) => srv[conn.tag].close(conn),
    };
    const pg = makePg(server);
    const m = b.instantiate(w, { pg });
    const steps = ["w", "r"];
    const out = {};
    const a = await unit(c, m, w, server, pg, modeA, nullsA, steps, endA, "A");
    if (!overlap) out.A = await w.settle(a.p);
    else await Promise.resolve().then(() => {}).then(() => {});
    if (overlap) { a.p.then((value) => { out.A = { ok: true, value }; }, (error) => { out.A = { ok: false, error }; }); await w.quiesce(); }
    cur = "B";
    const bb = await unit(c, m, w, server, pg, modeB, nullsB, steps, "ok", "B");
    if (!overlap) out.B = await w.settle(bb.p);
    else {
      bb.p.then((value) => { out.B = { ok: true, value }; }, (error) => { out.B = { ok: false, error }; });
      for (let i = 0; i < 40 && !(out.A && out.B); i++) {
        await w.quiesce();
        if (!w.externals.length) { if (out.A && out.B) break; continue; }
        w.takeExternal(c.choose("settle", w.externals.length)).resolve();
      }
      c.check(out.A && out.B, "overlap-hangs", `${logs.A} / ${logs.B}`);
    }
    judge(c, out.A, logs.A, srv.A, modeA, steps, endA, "A", a.results, nullsA, w, pg);
    judge(c, out.B, logs.B, srv.B, modeB, steps, "ok", "B", bb.results, nullsB, w, pg);
    return [out.A.ok, overlap ? order.join("") : "seq"];
  });
  ctx.assume("The PostgreSQL server is a stand-in behind the real pg-promise and pg-pool: it refuses or fails any interaction the explorer picks and applies writes on COMMIT");
}
