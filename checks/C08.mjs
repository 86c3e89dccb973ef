import { bundle } from "../lib/bundle.mjs";
import { World } from "../lib/world.mjs";

export const meta = { bounds: "two (quick) / three (thorough) overlapping invocations over two handlers of one factory, every outcome, every order of start and completion, every combination of logging and error handler" };

export async function run(ctx) {
  const b = await bundle({
    hf: "lib/digitraffic-common/src/aws/infra/api/handler-factory.ts",
    lg: "lib/digitraffic-common/src/aws/runtime/dt-logger.ts",
    lr: "lib/digitraffic-common/src/aws/types/lambda-response.ts",
  });
  const N = ctx.thorough ? 3 : 2;
  await ctx.explore("invocations", async (c) => {
    const fname = c.choose("name", ["fn-x", undefined]);
    const w = new World({ env: fname ? { AWS_LAMBDA_FUNCTION_NAME: fname } : {} });
    const { hf, lg, lr } = b.instantiate(w);
    const out = [];
    const logger = new lg.DtLogger({ lambdaName: "given", runTime: "rt", writeStream: { write: (s) => out.push(s) } });
    const f = new hf.HandlerFactory();
    const log = c.choose("log", ["default", "json", "pass", "wrap"]);
    const err = c.choose("err", ["default", "map", "throw"]);
    const seenLog = [];
    const seenErr = [];
    if (log === "json") c.check(f.withLoggingHandler(hf.createJsonLoggingHandler()) === f, "not-chainable", "");
    if (log === "pass") f.withLoggingHandler((m, l) => { seenLog.push(l); return m(); });
    if (log === "wrap") f.withLoggingHandler(async (m, l) => { seenLog.push(l); try { return { wrapped: await m() }; } catch (e) { return { wrappedError: e }; } });
    if (err === "map") c.check(f.withErrorHandler((e, l) => { seenErr.push([e, l]); return lr.LambdaResponse.badRequest(`mapped ${e?.message ?? e}`); }) === f, "not-chainable", "");
    if (err === "throw") f.withErrorHandler((e, l) => { seenErr.push([e, l]); throw new Error(`again ${e?.message ?? e}`); });
    const calls = [];
    const mk = (h) => f.createEventHandler((event) => {
      const call = { h, event };
      calls.push(call);
      if (event.sync) throw event.error;
      return new Promise((resolve, reject) => { call.resolve = resolve; call.reject = reject; });
    }, logger);
    const handlers = [mk(0), mk(1)];
    const inv = [];
    let started = 0;
    const running = [];
    while (started < N || running.length) {
      const opts = [];
      if (started < N) opts.push("start");
      for (const i of running) opts.push(`end${i}`);
      const o = c.choose("next", opts);
      w.now += 7;
      if (o === "start") {
        const i = started++;
        const outcome = c.choose("outcome", ["ok", "reject", "reject-value", "sync"]);
        const event = { i, outcome, sync: outcome === "sync", error: outcome === "reject-value" ? `text${i}` : new Error(`e${i}`), value: lr.LambdaResponse.okJson({ i }) };
        const x = { i, event, outcome, t0: w.now, done: undefined };
        inv.push(x);
        const n = calls.length;
        const h = c.choose("handler", 2);
        handlers[h](event).then((v) => { x.done = { ok: true, v }; }, (e) => { x.done = { ok: false, e }; });
        await w.quiesce();
        c.equal(calls.length, n + 1, "called-once");
        c.check(calls[n].event === event && calls[n].h === h, "event-changed", "");
        x.call = calls[n];
        if (outcome === "sync") x.t1 = w.now;
        else { c.check(!x.done, "answered-early", ""); running.push(i); }
      } else {
        const i = Number(o.slice(3));
        running.splice(running.indexOf(i), 1);
        const x = inv[i];
        x.t1 = w.now;
        if (x.outcome === "ok") x.call.resolve(x.event.value);
        else x.call.reject(x.event.error);
        await w.quiesce();
      }
      for (const x of inv) c.equal(!!x.done, x.t1 !== undefined, "answered", `invocation ${x.i} ${x.outcome}`);
    }
    c.equal(calls.length, N, "called-once");
    const fin = inv.slice().sort((a, b2) => a.t1 - b2.t1);
    for (const x of inv) {
      const msg = x.event.error?.message ?? x.event.error;
      let inner;
      if (x.outcome === "ok") inner = { ok: true, v: x.event.value };
      else if (err === "default") inner = { ok: false, e: x.event.error };
      else if (err === "map") inner = { ok: true, v: lr.LambdaResponse.badRequest(`mapped ${msg}`) };
      else inner = { ok: false, again: `again ${msg}` };
      let d = x.done;
      if (log === "wrap") {
        c.check(d.ok, "logging-handler-bypassed", "");
        d = "wrapped" in d.v ? { ok: true, v: d.v.wrapped } : { ok: false, e: d.v.wrappedError };
      }
      c.equal(d.ok, inner.ok, "result-kind", x.outcome);
      if (inner.ok) { c.equal(d.v.status, inner.v.status, "status"); c.equal(d.v.body, inner.v.body, "body"); }
      else if (inner.again) c.equal(d.e?.message, inner.again, "error");
      else c.check(d.e === inner.e, "error-replaced", String(d.e));
    }
    c.equal(seenErr.map(([e]) => e), err === "default" ? [] : fin.filter((x) => x.outcome !== "ok").map((x) => x.event.error), "error-handler-calls");
    for (const [, l] of seenErr) c.check(l === logger, "error-handler-logger", "");
    c.equal(seenLog.length, log === "pass" || log === "wrap" ? N : 0, "logging-handler-calls");
    for (const l of seenLog) c.check(l === logger, "logging-handler-logger", "");
    const lines = { default: w.stdout, json: out }[log] ?? [];
    if (log === "default") c.equal(out, [], "unexpected-log");
    if (log === "json") c.equal(w.stdout, [], "unexpected-log");
    c.equal(lines.map((l) => { const p = JSON.parse(l); return [p.method, p.level, p.tookMs]; }), log === "default" || log === "json" ? fin.map((x) => [`${fname ?? "test"}.handler`, "INFO", x.t1 - x.t0]) : [], "log-lines");
    return inv.map((x) => x.outcome + x.t1).join() + log + err;
  }, { replayEvery: 499 });
}
